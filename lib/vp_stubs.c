// Stand-ins for the parts of nvc's runtime support that proof units do not
// verify: allocation wrappers (never fail), error reporting (a reached fatal
// error is a failed obligation unless the unit says otherwise), locks (the
// obligations are sequential).
#include "vp.h"
#include <stdarg.h>
#include <stdio.h>

#ifdef VP_CBMC
uint64_t vp_in;
#else
#include <unistd.h>

// ---- native replay support ----------------------------------------------
static const char *vp_path;
static FILE *vp_file, *vp_dump;
static uint64_t vp_rng;
static int vp_random;

static uint64_t vp_next(void)
{
   vp_rng ^= vp_rng << 13;
   vp_rng ^= vp_rng >> 7;
   vp_rng ^= vp_rng << 17;
   return vp_rng * UINT64_C(0x2545F4914F6CDD1D);
}

uint64_t vp_input(void)
{
   uint64_t v = 0;
   if (vp_random) {
      // Mix of uniform, small, and boundary values
      uint64_t k = vp_next();
      switch (k % 12) {
      case 0: v = 0; break;
      case 1: v = 1; break;
      case 2: case 3: v = (k >> 8) % 8; break;
      case 4: v = (k >> 8) % 70; break;
      case 5: v = UINT64_C(1) << ((k >> 8) & 63); break;
      case 6: v = (UINT64_C(1) << ((k >> 8) & 63)) - 1; break;
      case 7: v = -(uint64_t)((k >> 8) % 4); break;
      case 8: v = -(UINT64_C(1) << ((k >> 8) & 63)); break;
      case 9: v = vp_next() >> (vp_next() & 63); break;
      default: v = vp_next(); break;
      }
      if (vp_dump) { fprintf(vp_dump, "%llu\n", (unsigned long long)v); fflush(vp_dump); }
      return v;
   }
   unsigned long long t;
   if (vp_file && fscanf(vp_file, "%llu", &t) == 1)
      v = t;
   return v;
}

void vp_reject(void) { fprintf(stderr, "vp: precondition not met\n"); _exit(77); }
void vp_fail(const char *msg, const char *file, int line)
{
   fprintf(stderr, "vp: FAILED obligation at %s:%d: %s\n", file, line, msg);
   _exit(66);
}
void vp_reached(const char *msg) { (void)msg; }

int main(int argc, char **argv)
{
   if (argc >= 3 && strcmp(argv[1], "-r") == 0) {
      vp_random = 1;
      vp_rng = strtoull(argv[2], NULL, 10) * UINT64_C(0x9E3779B97F4A7C15) + 88172645463325252ull;
      for (int i = 0; i < 8; i++) vp_next();
      if (argc >= 4) vp_dump = fopen(argv[3], "w");
   }
   else if (argc >= 2) {
      vp_path = argv[1];
      if ((vp_file = fopen(vp_path, "r")) == NULL) { perror(vp_path); return 2; }
   }
   harness();
   return 0;
}
#endif

#ifdef VP_CBMC
#define STOP() __CPROVER_assume(0)
#else
#define STOP() _exit(77)
#endif

#ifndef VP_NO_ALLOC
void *xmalloc(size_t n) { return malloc(n); }
void *xcalloc(size_t n) { return calloc(1, n); }
void *xcalloc_array(size_t n, size_t s) { return calloc(n, s); }
void *xmalloc_array(size_t n, size_t s) { return malloc(n * s); }
void *xmalloc_flex(size_t f, size_t n, size_t s) { return malloc(f + n * s); }
void *xcalloc_flex(size_t f, size_t n, size_t s) { return calloc(1, f + n * s); }
void *xrealloc(void *p, size_t n) { return realloc(p, n); }
void *xrealloc_array(void *p, size_t n, size_t s) { return realloc(p, n * s); }
void *xrealloc_flex(void *p, size_t f, size_t n, size_t s) { return realloc(p, f + n * s); }
char *xstrdup(const char *s)
{
   size_t n = strlen(s);
   char *p = malloc(n + 1);
   memcpy(p, s, n + 1);
   return p;
}
#endif

#ifndef VP_NO_LOCK
void nvc_lock(int8_t *lock) { (void)lock; }
void nvc_unlock(int8_t *lock) { (void)lock; }
void assert_lock_held(int8_t *lock) { (void)lock; }
void __scoped_unlock(int8_t **plock) { (void)plock; }
#endif

#ifndef VP_NO_FATAL
// A fatal error ends the run.  Whether reaching one is allowed is the unit's
// business: with VP_FATAL_OK the path simply ends, otherwise it is a failure.
#ifdef VP_FATAL_OK
#define VP_DIE(name) STOP()
#else
#define VP_DIE(name) do { ENSURES(0, name " reached"); STOP(); } while (0)
#endif
void fatal_trace(const char *fmt, ...) { (void)fmt; VP_DIE("internal error (fatal_trace)"); }
void fatal(const char *fmt, ...) { (void)fmt; VP_DIE("fatal error"); }
void fatal_errno(const char *fmt, ...) { (void)fmt; VP_DIE("fatal error"); }
void fatal_at(const void *loc, const char *fmt, ...) { (void)loc; (void)fmt; VP_DIE("fatal error"); }
void fatal_exit(int status) { (void)status; VP_DIE("fatal exit"); }
void should_not_reach_here_(void) { VP_DIE("should not reach here"); }
#endif
