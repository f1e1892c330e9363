// Assumed contracts of three helpers from util.c (proved in C13)
int next_power_of_2(int n) { int r = 1; while (r < n) r *= 2; return r; }
int ilog2(int64_t n) { int r = 0; while (r < 62 && (INT64_C(1) << r) < n) r++; return r; }
int64_t ipow(int64_t x, int64_t y) { uint64_t r = 1; for (int64_t i = 0; i < y; i++) r *= (uint64_t)x; return r; }
void _local_free(void *ptr) { free(*(void **)ptr); }
