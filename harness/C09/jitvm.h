// Runs a short bytecode program through the real interpreter's public entry.
#ifndef JITVM_H
#define JITVM_H
#include "vp.h"
#ifndef JITVM_NO_INTERP
#include "util.h"
#include "thread.h"
#ifdef VP_CBMC
#undef unlikely
#define unlikely(x) (x)
#undef load_acquire
#define load_acquire(p) (*(p))
#endif
#include "jit/jit-interp.c"
#endif

static jit_func_t vm_func;
static jit_scalar_t vm_args[JIT_MAX_ARGS];
static unsigned char vm_cpool[16];

static struct {
   uint32_t alloc, limit;
} vm_dummy;

mspace_t *jit_get_mspace(jit_t *j) { return NULL; }
void jit_fill_irbuf(jit_func_t *f) { }
void jit_tier_up(jit_func_t *f) { ENSURES(0, "no tier configured"); }
void jit_dump_with_mark(jit_func_t *f, jit_label_t label, bool cpool) { }
void jit_hexdump(const unsigned char *data, size_t sz, int blocksz,
                 const void *highlight, const char *prefix) { }
void *mspace_find(mspace_t *m, void *ptr, size_t *size) { return NULL; }

#define REG(n)   ((jit_value_t){ .kind = JIT_VALUE_REG, .reg = (n) })
#define IMM(n)   ((jit_value_t){ .kind = JIT_VALUE_INT64, .int64 = (n) })
#define LABEL(n) ((jit_value_t){ .kind = JIT_VALUE_LABEL, .label = (n) })
#define NOARG    ((jit_value_t){ .kind = JIT_VALUE_INVALID })

static inline jit_ir_t vm_ir(jit_op_t op, jit_size_t sz, jit_cc_t cc, jit_reg_t r,
                             jit_value_t a1, jit_value_t a2)
{
   jit_ir_t ir = { .op = op, .size = sz, .cc = cc, .result = r, .arg1 = a1, .arg2 = a2 };
   return ir;
}

static tlab_t *vm_tlab;

static void vm_run(jit_ir_t *irs, int nirs, int nregs, int framesz)
{
   vm_func.entry = jit_interp;
   vm_func.irbuf = irs;
   vm_func.nirs = nirs;
   vm_func.nregs = nregs;
   vm_func.framesz = framesz;
   vm_func.cpool = vm_cpool;
   vm_func.cpoolsz = sizeof(vm_cpool);
   vm_func.next_tier = NULL;
   static union { tlab_t t; char pad[64]; } tlab;
   vm_tlab = &tlab.t;
   jit_interp(&vm_func, NULL, vm_args, vm_tlab);
}
#endif
