// Bit sets of any size (65 .. 2^40 elements): the word loops by induction.
// g is an arbitrary bit position of the storage, so "for all g" includes the
// padding bits of the last word.
#include "vp.h"
#include <stdbool.h>

extern size_t g, vs, vc;      // arbitrary bit, start, count
extern bool   was, other;     // membership of g before the call

#define RAW(m)  ((((m)->ptr[g / 64]) >> (g % 64)) & 1)
#define DONE(i) (g / 64 < (i))

#define LC_mask_clear_range \
   __CPROVER_assigns(start, count, __CPROVER_object_whole(m->ptr)) \
   __CPROVER_loop_invariant(start % 64 == 0 && start + count == vs + vc && start >= vs && count <= vc) \
   __CPROVER_loop_invariant(RAW(m) == (was && !(g >= vs && g < start))) \
   __CPROVER_decreases(count)
#define LC_mask_set_range \
   __CPROVER_assigns(start, count, __CPROVER_object_whole(m->ptr)) \
   __CPROVER_loop_invariant(start % 64 == 0 && start + count == vs + vc && start >= vs && count <= vc) \
   __CPROVER_loop_invariant(RAW(m) == (was || (g >= vs && g < start))) \
   __CPROVER_decreases(count)
#define LC_mask_test_range \
   __CPROVER_assigns(start, count) \
   __CPROVER_loop_invariant(start % 64 == 0 && start + count == vs + vc && start >= vs && count <= vc) \
   __CPROVER_loop_invariant(!(was && g >= vs && g < start)) \
   __CPROVER_decreases(count)
#define LC_mask_scan_backwards \
   __CPROVER_assigns(i) \
   __CPROVER_loop_invariant(i >= -1 && (i + 1) % 64 == 0 && i < (ssize_t)vs) \
   __CPROVER_loop_invariant(!(was && (ssize_t)g > i && g <= vs)) \
   __CPROVER_decreases(i + 1)
#define LC_mask_count_clear \
   __CPROVER_assigns(bit, count) \
   __CPROVER_loop_invariant(bit % 64 == 0 && bit >= vs && bit < m->size && count == bit - vs) \
   __CPROVER_loop_invariant(!(was && g >= vs && g < bit)) \
   __CPROVER_decreases(m->size - bit)
#define LC_BINARY(res) \
   __CPROVER_assigns(i, __CPROVER_object_whole(m->ptr)) \
   __CPROVER_loop_invariant(i >= 0 && i <= (m->size + 63) / 64) \
   __CPROVER_loop_invariant(RAW(m) == (DONE(i) ? (res) : was)) \
   __CPROVER_decreases((m->size + 63) / 64 - i)
#define LC_mask_subtract  LC_BINARY(was && !other)
#define LC_mask_union     LC_BINARY(was || other)
#define LC_mask_intersect LC_BINARY(was && other)
#define LC_mask_copy      LC_BINARY(other)
#define LC_mask_iter \
   __CPROVER_assigns(word) \
   __CPROVER_loop_invariant(word <= (m->size + 63) / 64 && (vs == (size_t)-1 || word * 64 > vs)) \
   __CPROVER_loop_invariant(!(was && (vs == (size_t)-1 || g > vs) && g < word * 64)) \
   __CPROVER_decreases((m->size + 63) / 64 - word)

#include "mask.c"

size_t g, vs, vc;
bool was, other;

void harness(void)
{
   const size_t size = IN_RANGE(65, UINT64_C(1) << 40);
   const size_t words = (size + 63) / 64;
   bit_mask_t m = { .size = size };
   m.ptr = malloc(sizeof(uint64_t) * words);
   g = IN_U64();
   ASSUME(g < words * 64);
   was = RAW(&m);
   const bool padding = g >= size;
   REACH("precondition");

#if defined OP_RANGE
   vs = IN_U64();
   vc = IN_U64();
   ASSUME(vs < size && vc <= size - vs);
   const bool inside = g >= vs && g < vs + vc;
#if OP_RANGE == 0
   mask_set_range(&m, vs, vc);
   ENSURES(RAW(&m) == (was || inside), "range set adds exactly the range");
#elif OP_RANGE == 1
   mask_clear_range(&m, vs, vc);
   ENSURES(RAW(&m) == (was && !inside), "range clear removes exactly the range");
#else
   const bool any = mask_test_range(&m, vs, vc);
   ENSURES(!(was && inside) || any, "range test is true if a member is inside");
   ENSURES(RAW(&m) == was, "range test changes nothing");
#endif
#elif defined OP_BINARY
   bit_mask_t n = { .size = size };
   n.ptr = malloc(sizeof(uint64_t) * words);
   other = RAW(&n);
#if OP_BINARY == 0
   mask_subtract(&m, &n);
   ENSURES(RAW(&m) == (was && !other), "subtract is set difference");
#elif OP_BINARY == 1
   mask_union(&m, &n);
   ENSURES(RAW(&m) == (was || other), "union is set union");
#elif OP_BINARY == 2
   mask_intersect(&m, &n);
   ENSURES(RAW(&m) == (was && other), "intersect is set intersection");
#else
   mask_copy(&m, &n);
   ENSURES(RAW(&m) == other, "copy equals its source");
#endif
   ENSURES(RAW(&n) == other, "second operand unchanged");
#elif defined OP_SCAN
   vs = IN_U64();
   ASSUME(vs < size);
   const ssize_t r = mask_scan_backwards(&m, vs);
   ENSURES(r >= -1 && r <= (ssize_t)vs, "backward scan result in range");
   ENSURES(r == -1 || ((m.ptr[r / 64] >> (r % 64)) & 1), "backward scan finds a member");
   ENSURES(!(was && g <= vs && (ssize_t)g > r), "backward scan skips no member");
#elif defined OP_COUNTCLEAR
   vs = IN_U64();
   ASSUME(vs < size);
   // representation invariant: padding bits of the last word are clear
   if (size % 64)
      m.ptr[words - 1] &= (UINT64_C(1) << (size % 64)) - 1;
   was = RAW(&m);
   const size_t r = mask_count_clear(&m, vs);
   ENSURES(r <= size - vs, "clear run stays inside the set");
   ENSURES(!(was && g >= vs && g < vs + r), "clear run contains no member");
   ENSURES(vs + r == size || ((m.ptr[(vs + r) / 64] >> ((vs + r) % 64)) & 1), "clear run is maximal");
#elif defined OP_ITER
   vs = IN_U64();
   ASSUME(vs == (size_t)-1 || vs < size);
   if (size % 64)
      m.ptr[words - 1] &= (UINT64_C(1) << (size % 64)) - 1;
   was = RAW(&m);
   size_t bit = vs;
   const bool more = mask_iter(&m, &bit);
   if (more) {
      ENSURES(bit < size && ((m.ptr[bit / 64] >> (bit % 64)) & 1), "iteration yields a member");
      ENSURES(vs == (size_t)-1 || bit > vs, "iteration is increasing");
      ENSURES(!(was && g < bit && (vs == (size_t)-1 || g > vs)), "iteration skips no member");
   }
   else
      ENSURES(!(was && (vs == (size_t)-1 || g > vs)), "iteration ends only after the last member");
#endif
   (void)padding;
   ENSURES(m.size == size, "size unchanged");
   REACH("postcondition");
}
