// Bit sets: every operation against its meaning on a set of integers.
// Universality over elements comes from one arbitrary element g, fixed before
// the call: "for all g" needs no quantifier because g is an input.
#include "vp.h"
#include "mask.c"

#ifndef MAXSIZE
#define MAXSIZE 256
#endif

// Membership, written independently of mask_test
static bool spec_in(const bit_mask_t *m, size_t i)
{
   if (i >= m->size)
      return false;
   return m->size > 64 ? (m->ptr[i >> 6] >> (i & 63)) & 1 : (m->bits >> (i & 63)) & 1;
}

#define WORDS ((MAXSIZE + 63) / 64)
#define NWORDS(size) (((size) + 63) / 64)

// Storage is one word longer than the largest set; words past the end of the
// set hold arbitrary data, must not influence results and must not change.
static uint64_t past;
static size_t   pastword;

// An arbitrary well-formed set: bits at or beyond size are clear
static void any_mask(bit_mask_t *m, size_t size)
{
   m->size = size;
   uint64_t *w = malloc(sizeof(uint64_t) * (WORDS + 1));
   for (size_t i = 0; i <= WORDS; i++)
      w[i] = IN_U64();
   if (size > 64) {
      m->ptr = w;
      if (size % 64)
         w[(size - 1) / 64] &= (UINT64_C(1) << (size % 64)) - 1;
   }
   else {
      m->bits = w[0];
      if (size < 64)
         m->bits &= (UINT64_C(1) << size) - 1;
   }
}

static void note_frame(bit_mask_t *m)
{
   pastword = IN_RANGE(0, WORDS);
   if (m->size > 64) {
      ASSUME(pastword >= NWORDS(m->size));
      past = m->ptr[pastword];
   }
}

static bool frame_kept(const bit_mask_t *m)
{
   return m->size <= 64 || m->ptr[pastword] == past;
}

static bool spec_padding(const bit_mask_t *m)
{
   if (m->size > 64)
      return m->size % 64 == 0 || (m->ptr[(m->size - 1) / 64] >> (m->size % 64)) == 0;
   else
      return m->size == 64 || (m->bits >> m->size) == 0;
}

static size_t spec_count(const bit_mask_t *m)
{
   size_t n = 0;
   for (size_t i = 0; i < WORDS; i++) {
      uint64_t w = m->size > 64 ? (i < NWORDS(m->size) ? m->ptr[i] : 0) : (i == 0 ? m->bits : 0);
      // population count of one word, by pairwise sums
      w = (w & 0x5555555555555555) + ((w >> 1) & 0x5555555555555555);
      w = (w & 0x3333333333333333) + ((w >> 2) & 0x3333333333333333);
      w = (w & 0x0f0f0f0f0f0f0f0f) + ((w >> 4) & 0x0f0f0f0f0f0f0f0f);
      w = (w & 0x00ff00ff00ff00ff) + ((w >> 8) & 0x00ff00ff00ff00ff);
      w = (w & 0x0000ffff0000ffff) + ((w >> 16) & 0x0000ffff0000ffff);
      w = (w & 0x00000000ffffffff) + (w >> 32);
      n += w;
   }
   return n;
}

void harness(void)
{
   const size_t size = IN_RANGE(0, MAXSIZE);
   const size_t g = IN_RANGE(0, MAXSIZE - 1);     // arbitrary element
   bit_mask_t m;
   any_mask(&m, size);
   note_frame(&m);
   const bool was = spec_in(&m, g);
   REACH("precondition");

#if defined OP_INIT
   bit_mask_t n;
   mask_init(&n, size);
   ENSURES(n.size == size, "new set has the requested size");
   ENSURES(!spec_in(&n, g), "new set is empty");
   mask_free(&n);
   ENSURES(n.size == 0, "freed set is empty");
#elif defined OP_ELEM
   ASSUME(g < size);
   const size_t e = IN_RANGE(0, MAXSIZE - 1);
   ASSUME(e < size);
   ENSURES(mask_test(&m, g) == was, "test is membership");
   bool had = spec_in(&m, e);
   switch (IN_RANGE(0, 2)) {
   case 0:
      mask_set(&m, e);
      ENSURES(spec_in(&m, g) == (was || g == e), "set adds exactly one element");
      break;
   case 1:
      mask_clear(&m, e);
      ENSURES(spec_in(&m, g) == (was && g != e), "clear removes exactly one element");
      break;
   case 2:
      ENSURES(mask_test_and_set(&m, e) == had, "test-and-set returns old membership");
      ENSURES(spec_in(&m, g) == (was || g == e), "test-and-set adds exactly one element");
      break;
   }
   ENSURES(m.size == size && spec_padding(&m) && frame_kept(&m), "nothing else changes");
#elif defined OP_RANGE
   const size_t start = IN_RANGE(0, MAXSIZE);
   const size_t count = IN_RANGE(0, MAXSIZE);
   ASSUME(start < size && count <= size - start);
   const bool inside = g >= start && g < start + count;
#if OP_RANGE == 0
   mask_set_range(&m, start, count);
   ENSURES(spec_in(&m, g) == (was || inside), "range set adds exactly the range");
#elif OP_RANGE == 1
   mask_clear_range(&m, start, count);
   ENSURES(spec_in(&m, g) == (was && !inside), "range clear removes exactly the range");
#else
   const bool any = mask_test_range(&m, start, count);
   ENSURES(!(was && inside) || any, "range test is true if a member is inside");
   // Witness for a true result: some word has a member inside the range
   bool exists = false;
   for (size_t i = 0; i < WORDS; i++) {
      uint64_t w = size > 64 ? m.ptr[i] : (i == 0 ? m.bits : 0);
      const size_t lo = start > i * 64 ? start - i * 64 : 0;
      const size_t hi = start + count < i * 64 ? 0 : start + count - i * 64;
      if (lo < 64 && hi > lo) {
         w >>= lo;
         if (hi - lo < 64)
            w &= (UINT64_C(1) << (hi - lo)) - 1;
         exists |= w != 0;
      }
   }
   ENSURES(any == exists, "range test is exact");
   ENSURES(spec_in(&m, g) == was, "range test changes nothing");
#endif
   ENSURES(m.size == size && spec_padding(&m) && frame_kept(&m), "nothing else changes");
#elif defined OP_ALL
   if (IN_BOOL()) {
      mask_setall(&m);
      ENSURES(spec_in(&m, g) == (g < size), "setall makes the full set");
   }
   else {
      mask_clearall(&m);
      ENSURES(!spec_in(&m, g), "clearall makes the empty set");
   }
   ENSURES(m.size == size && spec_padding(&m) && frame_kept(&m), "nothing else changes");
#elif defined OP_POPCOUNT
   ENSURES(mask_popcount(&m) == spec_count(&m), "popcount is the cardinality");
   ENSURES(spec_in(&m, g) == was, "popcount changes nothing");
#elif defined OP_BINARY
   bit_mask_t n;
   any_mask(&n, size);
   const bool other = spec_in(&n, g);
   const int op = IN_RANGE(0, 4);
   switch (op) {
   case 0:
      mask_subtract(&m, &n);
      ENSURES(spec_in(&m, g) == (was && !other), "subtract is set difference");
      break;
   case 1:
      mask_union(&m, &n);
      ENSURES(spec_in(&m, g) == (was || other), "union is set union");
      break;
   case 2:
      mask_intersect(&m, &n);
      ENSURES(spec_in(&m, g) == (was && other), "intersect is set intersection");
      break;
   case 3:
      mask_copy(&m, &n);
      ENSURES(spec_in(&m, g) == other, "copy equals its source");
      break;
   case 4:
      {
         bool eq = true;
         for (size_t i = 0; i < WORDS; i++)
            if (size > 64) { if (i * 64 < size) eq &= m.ptr[i] == n.ptr[i]; }
            else eq &= m.bits == n.bits;
         ENSURES(mask_eq(&m, &n) == eq, "equality is extensional");
         ENSURES(spec_in(&m, g) == was, "equality changes nothing");
      }
      break;
   }
   ENSURES(spec_in(&n, g) == other, "second operand unchanged");
   ENSURES(m.size == size && spec_padding(&m) && frame_kept(&m), "nothing else changes");
#elif defined OP_SCAN
   ASSUME(g < size);
   const ssize_t r = mask_scan_backwards(&m, g);
   const size_t k = IN_RANGE(0, MAXSIZE - 1);
   ENSURES(r >= -1 && r <= (ssize_t)g, "backward scan result in range");
   ENSURES(r == -1 || spec_in(&m, r), "backward scan finds a member");
   ENSURES(!(k <= g && (ssize_t)k > r && spec_in(&m, k)), "backward scan skips no member");
#elif defined OP_COUNTCLEAR
   ASSUME(g < size);
   const size_t r = mask_count_clear(&m, g);
   const size_t k = IN_RANGE(0, MAXSIZE - 1);
   ENSURES(r <= size - g, "clear run stays inside the set");
   ENSURES(!(k >= g && k < g + r && spec_in(&m, k)), "clear run contains no member");
   ENSURES(g + r == size || spec_in(&m, g + r), "clear run is maximal");
#elif defined OP_ITER
   // cursor: -1 (start) or the last element returned
   size_t bit = IN_BOOL() ? (size_t)-1 : g;
   ASSUME(bit == (size_t)-1 || bit < size);
   const size_t from = bit;
   const size_t k = IN_RANGE(0, MAXSIZE - 1);
   const bool more = mask_iter(&m, &bit);
   if (more) {
      ENSURES(bit < size && spec_in(&m, bit), "iteration yields a member");
      ENSURES(from == (size_t)-1 || bit > from, "iteration is increasing");
      ENSURES(!(k < bit && (from == (size_t)-1 || k > from) && spec_in(&m, k)),
              "iteration skips no member");
   }
   else
      ENSURES(!((from == (size_t)-1 || k > from) && spec_in(&m, k)),
              "iteration ends only after the last member");
#else
#error no op
#endif
   REACH("postcondition");
}
