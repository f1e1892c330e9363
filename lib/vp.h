// Harness vocabulary shared by every proof unit.
//
// The same harness text is used twice: goto-cc compiles it for the verifier
// (inputs are nondeterministic, ENSURES are proof obligations) and gcc compiles
// it natively for replay (inputs are read from a file, an ENSURES that is false
// aborts the program).
#ifndef VP_H
#define VP_H

#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>

#ifdef VP_CBMC

extern uint64_t nondet_vp_u64(void);
extern uint64_t vp_in;

static inline uint64_t vp_input(void)
{
   uint64_t v = nondet_vp_u64();
   vp_in = v;
   return v;
}

#define ASSUME(c) __CPROVER_assume(c)
#define ENSURES(c, msg) __CPROVER_assert((c), "ENSURES: " msg)
#define REACH(msg) __CPROVER_assert(0, "REACH: " msg)
#define VP_NATIVE 0

#else

uint64_t vp_input(void);
void vp_reject(void);
void vp_fail(const char *msg, const char *file, int line);
void vp_reached(const char *msg);

#define ASSUME(c) do { if (!(c)) vp_reject(); } while (0)
#define ENSURES(c, msg) do { if (!(c)) vp_fail(msg, __FILE__, __LINE__); } while (0)
#define REACH(msg) vp_reached(msg)
#define VP_NATIVE 1
#define __CPROVER_assume(c) ASSUME(c)

#endif

#define IN_U64()   ((uint64_t)vp_input())
#define IN_I64()   ((int64_t)vp_input())
#define IN_U32()   ((uint32_t)vp_input())
#define IN_I32()   ((int32_t)(uint32_t)vp_input())
#define IN_U16()   ((uint16_t)vp_input())
#define IN_U8()    ((uint8_t)vp_input())
#define IN_BOOL()  ((bool)(vp_input() & 1))

// A value in lo..hi inclusive.  Natively, random inputs are folded into the
// range (identity for values already inside) so replay stays exact.
static inline uint64_t vp_in_range(uint64_t lo, uint64_t hi)
{
   uint64_t v = vp_input();
#ifdef VP_CBMC
   __CPROVER_assume(v >= lo && v <= hi);
#else
   if (v < lo || v > hi) {
      uint64_t span = hi - lo + 1;
      v = span == 0 ? v : lo + (v % span);
   }
#endif
   return v;
}
static inline int64_t vp_in_srange(int64_t lo, int64_t hi)
{
   int64_t v = (int64_t)vp_input();
#ifdef VP_CBMC
   __CPROVER_assume(v >= lo && v <= hi);
#else
   if (v < lo || v > hi) {
      uint64_t span = (uint64_t)hi - (uint64_t)lo + 1;
      v = span == 0 ? v : (int64_t)((uint64_t)lo + ((uint64_t)v % span));
   }
#endif
   return v;
}
#define IN_RANGE(lo, hi)  vp_in_range((lo), (hi))
#define IN_SRANGE(lo, hi) vp_in_srange((lo), (hi))

void harness(void);

#endif
