// Meaning of a bytecode program: the argument slots, memory and calls it
// leaves behind.  Uses the same per-instruction meaning that C09 proves of the
// interpreter.
#ifndef BCSEM_H
#define BCSEM_H
#include "vp.h"
#include "util.h"
#include "jit/jit-priv.h"
#include "../C09/opspec.h"

#define NREG 24
#define NARG 18
#ifndef STEPS
#define STEPS (MAXI + 2)
#endif
#ifndef FRAMESZ
#define FRAMESZ 0
#endif

typedef struct {
   int64_t  reg[NREG];
   int64_t  arg[NARG];
   int64_t  trace;        // digest of the calls made
   bool     flag;
   bool     wild;         // undefined operation, or left the program
   int      halt;         // 0 running, 1 returned, else 2 + exit code
#ifdef BC_MEM
   uint8_t  frame[FRAMESZ + 8];
   uint8_t  ext[BC_MEM];  // object the third argument points to
#endif
} bc_state_t;

static void bc_init(bc_state_t *s, const int64_t *args)
{
   for (int i = 0; i < NREG; i++) s->reg[i] = 0x5a5a5a5a;
   for (int i = 0; i < NARG; i++) s->arg[i] = i < 3 ? args[i] : 0;
   s->trace = 0;
   s->flag = s->wild = false;
   s->halt = 0;
#ifdef BC_MEM
   for (int i = 0; i < FRAMESZ + 8; i++) s->frame[i] = 0;
   for (int i = 0; i < BC_MEM; i++) s->ext[i] = 0xa5;
   s->arg[2] = 5000;
#endif
}

static int64_t bc_value(bc_state_t *s, jit_value_t v)
{
   switch (v.kind) {
   case JIT_VALUE_REG:
      if (v.reg >= NREG) { s->wild = true; return 0; }
      return s->reg[v.reg];
   case JIT_VALUE_INT64:
   case JIT_VALUE_DOUBLE:
   case JIT_VALUE_HANDLE:
      return v.int64;
   default:
      s->wild = true;
      return 0;
   }
}

static unsigned char pool[32];

#ifdef BC_MEM
static uint8_t *bc_addr(bc_state_t *s, jit_value_t v, int n)
{
   int64_t a;
   if (v.kind == JIT_ADDR_REG && v.reg < NREG) a = s->reg[v.reg] + v.disp;
   else if (v.kind == JIT_VALUE_REG && v.reg < NREG) a = s->reg[v.reg];
   else { s->wild = true; return s->frame; }
   if (a >= 1000 && a + n <= 1000 + FRAMESZ) return s->frame + (a - 1000);
   if (a >= 5000 && a + n <= 5000 + BC_MEM) return s->ext + (a - 5000);
   s->wild = true;
   return s->frame;
}
static int bc_bytes(int sz) { return sz == JIT_SZ_8 ? 1 : sz == JIT_SZ_16 ? 2 : sz == JIT_SZ_32 ? 4 : 8; }

#endif

static void bc_step(bc_state_t *s, const jit_ir_t *ir, int *pc)
{
   if (ir->result != JIT_REG_INVALID && ir->result >= NREG) { s->wild = true; return; }
   switch (ir->op) {
   case J_NOP: return;
   case J_RET: s->halt = 1; return;
   case MACRO_EXIT: s->halt = 2 + ir->arg1.exit; return;
   case J_RECV:
      s->reg[ir->result] = s->arg[ir->arg1.int64];
      return;
   case J_SEND:
      s->arg[ir->arg1.int64] = bc_value(s, ir->arg2);
      return;
   case J_CALL:
      // Any deterministic callee: observes its arguments, overwrites them
      s->trace = s->trace * 3 + s->arg[0] * 5 + s->arg[1] * 7 + bc_value(s, ir->arg1);
      s->arg[0] = s->arg[0] ^ s->arg[1];
      s->arg[1] = s->arg[0] + 1;
      for (int i = 2; i < (int)(sizeof(s->arg) / sizeof(s->arg[0])); i++)
         s->arg[i] ^= i + 1;
      return;
   case J_JUMP:
      if (ir->cc == JIT_CC_NONE || (ir->cc == JIT_CC_T) == s->flag)
         *pc = ir->arg1.label;
      return;
   case MACRO_CASE:
      if (s->reg[ir->result] == bc_value(s, ir->arg1))
         *pc = ir->arg2.label;
      return;
#ifdef BC_MEM
   case MACRO_SALLOC:
      s->reg[ir->result] = 1000 + ir->arg1.int64;
      if (ir->arg1.int64 + ir->arg2.int64 > FRAMESZ) s->wild = true;
      return;
   case J_LEA:
      s->reg[ir->result] = s->reg[ir->arg1.reg] + ir->arg1.disp;
      return;
   case J_STORE:
      {
         const int n = bc_bytes(ir->size);
         uint8_t *p = bc_addr(s, ir->arg2, n);
         const uint64_t v = bc_value(s, ir->arg1);
         for (int i = 0; i < 8; i++)
            if (i < n) p[i] = v >> (i * 8);
      }
      return;
   case J_LOAD:
   case J_ULOAD:
      {
         const int n = bc_bytes(ir->size);
         const uint8_t *p = bc_addr(s, ir->arg1, n);
         uint64_t v = 0;
         for (int i = 0; i < 8; i++)
            if (i < n) v |= (uint64_t)p[i] << (i * 8);
         s->reg[ir->result] = ir->op == J_LOAD ? sext(v, ir->size) : v;
      }
      return;
   case MACRO_BZERO:
   case MACRO_MEMSET:
   case MACRO_COPY:
   case MACRO_MOVE:
      {
         const int64_t n = s->reg[ir->result];
         if (n < 0 || n > 16) { s->wild = true; return; }
         if (n == 0) return;
         uint8_t *p = bc_addr(s, ir->arg1, n);
         if (ir->op == MACRO_BZERO) {
            for (int i = 0; i < 16; i++) if (i < n) p[i] = 0;
         }
         else if (ir->op == MACRO_MEMSET) {
            const uint64_t v = bc_value(s, ir->arg2);
            const int w = bc_bytes(ir->size);
            for (int i = 0; i < 16; i++) if (i < n) p[i] = v >> ((i % w) * 8);
         }
         else {
            const uint8_t *q = ir->arg2.kind == JIT_ADDR_CPOOL ? pool + ir->arg2.int64 : bc_addr(s, ir->arg2, n);
            uint8_t tmp[16];
            for (int i = 0; i < 16; i++) if (i < n) tmp[i] = q[i];
            for (int i = 0; i < 16; i++) if (i < n) p[i] = tmp[i];
         }
      }
      return;
#endif
   default:
      {
         const int64_t a = ir->arg1.kind == JIT_VALUE_INVALID ? 0 : bc_value(s, ir->arg1);
         const int64_t b = ir->arg2.kind == JIT_VALUE_INVALID ? 0 : bc_value(s, ir->arg2);
         const int64_t old = ir->result == JIT_REG_INVALID ? 0 : s->reg[ir->result];
         const outcome_t o = spec(ir->op, ir->size == JIT_SZ_UNSPEC ? JIT_SZ_64 : ir->size, ir->cc, a, b, old, s->flag);
         if (!o.defined) s->wild = true;
         if (ir->result != JIT_REG_INVALID)
            s->reg[ir->result] = o.r;
         s->flag = o.f;
      }
   }
}

static void bc_run(bc_state_t *s, const jit_ir_t *irs, int nirs)
{
#ifdef LOOPS
   int pc = 0;
   for (int k = 0; k < STEPS; k++) {
      if (s->halt || s->wild)
         break;
      if (pc >= nirs) { s->wild = true; break; }
      const jit_ir_t *ir = &irs[pc++];
      bc_step(s, ir, &pc);
   }
#else
   // Forward branches only: one pass over the program
   int pc = 0;
   for (int i = 0; i < MAXI; i++) {
      if (i >= nirs || s->halt || i != pc)
         continue;
      pc = i + 1;
      bc_step(s, &irs[i], &pc);
   }
#endif
   if (!s->halt)
      s->wild = true;
}
#endif
