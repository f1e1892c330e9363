// One bytecode operation against its arithmetic meaning, over all operand
// values, operand kinds (register or immediate), sizes and flag states.
//
//   r1 = first operand, r2 = second, r3 = old result, flags = arbitrary
//   <operation> r3 <- r1, r2
//   observe r3, flags, r1, r2
#include "jitvm.h"
#include <math.h>

#include "opspec.h"

#ifndef LO
#define LO INT64_MIN
#define HI INT64_MAX
#endif
#ifndef BLO
#define BLO LO
#define BHI HI
#endif

void harness(void)
{
#ifdef ACONST
   const int64_t a = ACONST;
#else
   const int64_t a = IN_SRANGE(LO, HI);
#endif
#ifdef BCONST
   const int64_t b = BCONST;
#else
   const int64_t b = IN_SRANGE(BLO, BHI);
#endif
   const int64_t oldr = IN_I64();
   const bool f0 = IN_BOOL();
#ifdef OPSZ
   const int sz = OPSZ;
#else
   const int sz = IN_RANGE(0, 3);
#endif
   // All condition codes meaningful for the operation
#if defined CCONLY
   const int cc = CCONLY;
#elif defined CCS
   const int cc = IN_RANGE(JIT_CC_EQ, JIT_CC_LE);
#else
   const int cc = JIT_CC_NONE;
#endif
#ifdef OPIMM
   const bool imm1 = OPIMM & 1, imm2 = OPIMM & 2;
#else
   const bool imm1 = IN_BOOL(), imm2 = IN_BOOL();
#endif

   vm_args[0].integer = a;
   vm_args[1].integer = b;
   vm_args[2].integer = oldr;
   vm_args[3].integer = f0;

   const jit_value_t v1 = imm1 ? IMM(a) : REG(1), v2 = imm2 ? IMM(b) : REG(2);

   jit_ir_t irs[16] = {
      vm_ir(J_RECV, JIT_SZ_UNSPEC, JIT_CC_NONE, 1, IMM(0), NOARG),
      vm_ir(J_RECV, JIT_SZ_UNSPEC, JIT_CC_NONE, 2, IMM(1), NOARG),
      vm_ir(J_RECV, JIT_SZ_UNSPEC, JIT_CC_NONE, 3, IMM(2), NOARG),
      vm_ir(J_RECV, JIT_SZ_UNSPEC, JIT_CC_NONE, 4, IMM(3), NOARG),
      vm_ir(J_CMP, JIT_SZ_UNSPEC, JIT_CC_NE, 0, REG(4), IMM(0)),
      vm_ir(JOP, sz, cc, 3, v1, v2),
      vm_ir(J_SEND, JIT_SZ_UNSPEC, JIT_CC_NONE, 0, IMM(4), REG(3)),
      vm_ir(J_CSET, JIT_SZ_UNSPEC, JIT_CC_NONE, 5, NOARG, NOARG),
      vm_ir(J_SEND, JIT_SZ_UNSPEC, JIT_CC_NONE, 0, IMM(5), REG(5)),
      vm_ir(J_SEND, JIT_SZ_UNSPEC, JIT_CC_NONE, 0, IMM(6), REG(1)),
      vm_ir(J_SEND, JIT_SZ_UNSPEC, JIT_CC_NONE, 0, IMM(7), REG(2)),
      vm_ir(J_SEND, JIT_SZ_UNSPEC, JIT_CC_NONE, 0, IMM(8), REG(4)),
      vm_ir(J_RET, JIT_SZ_UNSPEC, JIT_CC_NONE, 0, NOARG, NOARG),
   };

   const outcome_t o = spec(JOP, sz, cc, a, b, oldr, f0);
   ASSUME(o.defined);
   REACH("precondition");

   vm_run(irs, 13, 6, 0);

   const int64_t r = vm_args[4].integer;
#ifdef ISREAL
   const double x = bits2d(r), y = bits2d(o.r);
   ENSURES(r == o.r || (x != x && y != y), "result is the arithmetic result");
#else
   ENSURES(o.anyr || r == o.r, "result is the arithmetic result");
#endif
   ENSURES(vm_args[5].integer == o.f, "flag is the overflow, carry or comparison outcome");
   ENSURES(vm_args[6].integer == a && vm_args[7].integer == b && vm_args[8].integer == f0,
           "operands and other registers unchanged");
   ENSURES(vm_args[0].integer == a && vm_args[1].integer == b, "arguments unchanged");
   REACH("postcondition");
}
