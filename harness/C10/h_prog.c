// The bytecode optimisation pipeline keeps the meaning of a function: for each
// listed program (concrete structure), for all argument values and all values
// of the immediate constants marked IN(k), the optimised program leaves the
// same values in the argument slots, the same memory, makes the same calls and
// stops the same way.
#include "ovf.h"
#include "util.h"
#ifdef VP_CBMC
// In place of the wrappers, so that the verifier sees the element type
#define xmalloc_array(n, s) malloc((s) * (n))
#define xcalloc_array(n, s) calloc((n), (s))
#endif
#include "jit/jit-optim.c"
#include "bcsem.h"
#include "util_ref.h"

bool jit_writes_flags(jit_ir_t *ir)
{
   return ir->op == J_CMP || ir->op == J_FCMP
      || ir->op == J_CCMP || ir->op == J_FCCMP
      || (ir->op == J_ADD && ir->cc != JIT_CC_NONE)
      || (ir->op == J_SUB && ir->cc != JIT_CC_NONE)
      || (ir->op == J_MUL && ir->cc != JIT_CC_NONE)
      || (ir->op == MACRO_EXP && ir->cc != JIT_CC_NONE);
}

bool jit_reads_flags(jit_ir_t *ir)
{
   return (ir->op == J_JUMP && ir->cc != JIT_CC_NONE)
      || ir->op == J_CSET || ir->op == J_CSEL || ir->op == J_CCMP
      || ir->op == J_FCCMP;
}
bool jit_will_abort(jit_ir_t *ir) { return ir->op == MACRO_EXIT; }
void jit_dump_with_mark(jit_func_t *f, jit_label_t label, bool cpool) { }

static jit_ir_t before[MAXI], after[MAXI];
static jit_func_t vm_func;
static int64_t in[4];

#define R(f, n)    before[_i].f.kind = JIT_VALUE_REG; before[_i].f.reg = n;
#define I(f, n)    before[_i].f.kind = JIT_VALUE_INT64; before[_i].f.int64 = n;
#define V(f, n)    before[_i].f.kind = JIT_VALUE_INT64; before[_i].f.int64 = in[n];
#define L(f, n)    before[_i].f.kind = JIT_VALUE_LABEL; before[_i].f.label = n;
#define M(f, n, d) before[_i].f.kind = JIT_ADDR_REG; before[_i].f.reg = n; before[_i].f.disp = d;
#define P(f, n)    before[_i].f.kind = JIT_ADDR_CPOOL; before[_i].f.int64 = n;
#define X(f, n)    before[_i].f.kind = JIT_VALUE_EXIT; before[_i].f.exit = n;
#define H(f, n)    before[_i].f.kind = JIT_VALUE_HANDLE; before[_i].f.handle = n;
#define Z(f)       before[_i].f.kind = JIT_VALUE_INVALID;
#define SET(i, o, s, c, t, r, a1, a2) do {                              \
      const int _i = i;                                                 \
      before[_i].op = o; before[_i].size = s; before[_i].cc = c;        \
      before[_i].target = t; before[_i].result = r;                     \
      before[_i].arg1.disp = before[_i].arg2.disp = 0;                  \
      before[_i].arg1.int64 = before[_i].arg2.int64 = 0;                \
      a1 a2                                                             \
      after[_i] = before[_i];                                           \
   } while (0)

static void check(int n, int nregs, const int64_t *args)
{
   bc_state_t s, t;
   bc_init(&s, args);
   bc_init(&t, args);

   bc_run(&s, before, n);
   ASSUME(!s.wild);

   vm_func.irbuf = after;
   vm_func.nirs = n;
   vm_func.nregs = nregs;
   vm_func.framesz = FRAMESZ;
   vm_func.cpool = pool;
   vm_func.cpoolsz = sizeof(pool);
   jit_do_mem2reg(&vm_func);
   jit_do_lvn(&vm_func);
   jit_do_cprop(&vm_func);
   jit_do_dce(&vm_func);
   jit_delete_nops(&vm_func);
   ENSURES(vm_func.nirs <= n, "program does not grow");

   bc_run(&t, after, vm_func.nirs);
   ENSURES(!t.wild, "optimised program is well formed");
   ENSURES(t.halt == s.halt, "optimised program stops the same way");
   for (int i = 0; i < NARG; i++)
      ENSURES(t.arg[i] == s.arg[i], "optimised program computes the same values");
   ENSURES(t.trace == s.trace, "optimised program makes the same calls");
#ifdef BC_MEM
   for (int i = 0; i < BC_MEM; i++)
      ENSURES(t.ext[i] == s.ext[i], "optimised program stores the same bytes");
#endif
}

#ifndef ARG0
#define ARG0 IN_SRANGE(LO, HI)
#endif
#include PROGRAMS

void harness(void)
{
   const int64_t args[3] = { ARG0, IN_SRANGE(LO, HI), IN_SRANGE(LO, HI) };
   for (int i = 0; i < 4; i++)
      in[i] = IN_SRANGE(LO, HI);
#ifdef POOL
   for (int i = 0; i < 16; i++)
      pool[i] = IN_U8();
#endif
   PROGS(args);
   REACH("postcondition");
}
