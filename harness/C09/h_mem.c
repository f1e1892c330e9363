// Memory, address and control instructions of the interpreter.
#include "jitvm.h"
#include "jit/jit-ffi.h"

#define BUF 24
static union { unsigned char b[BUF]; uint64_t align[BUF / 8]; } mem, old;

#define REGDISP(r, d) ((jit_value_t){ .kind = JIT_ADDR_REG, .reg = (r), .disp = (d) })
#define CPOOL(o) ((jit_value_t){ .kind = JIT_ADDR_CPOOL, .int64 = (o) })
#define ARG(n) vm_ir(J_RECV, JIT_SZ_UNSPEC, JIT_CC_NONE, (n) + 1, IMM(n), NOARG)
#define OUT(n, r) vm_ir(J_SEND, JIT_SZ_UNSPEC, JIT_CC_NONE, 0, IMM(n), REG(r))
#define RET vm_ir(J_RET, JIT_SZ_UNSPEC, JIT_CC_NONE, 0, NOARG, NOARG)

static void init(void)
{
   for (int i = 0; i < BUF / 8; i++)
      old.align[i] = mem.align[i] = IN_U64();
}

#ifndef WIDTH
#define WIDTH 1
#define SZ JIT_SZ_8
#endif

void harness(void)
{
   init();
#if defined T_STORE
   const int64_t v = IN_I64();
   const int off = IN_RANGE(0, BUF - WIDTH);
   const int disp = IN_SRANGE(-4, 4);
   ASSUME(off % WIDTH == 0);
   vm_args[0].pointer = mem.b + off - disp;
   vm_args[1].integer = v;
   const bool imm = IN_BOOL();
   jit_ir_t irs[] = { ARG(0), ARG(1),
      vm_ir(J_STORE, SZ, JIT_CC_NONE, 0, imm ? IMM(v) : REG(2), REGDISP(1, disp)), OUT(2, 2), RET };
   REACH("precondition");
   vm_run(irs, 5, 4, 0);
   const int k = IN_RANGE(0, BUF - 1);
   if (k >= off && k < off + WIDTH)
      ENSURES(mem.b[k] == (unsigned char)((uint64_t)v >> (8 * (k - off))), "stored bytes are the low bytes of the value");
   else
      ENSURES(mem.b[k] == old.b[k], "store touches no other byte");
   ENSURES(vm_args[2].integer == v, "source register unchanged");
#elif defined T_LOAD
   const int off = IN_RANGE(0, BUF - WIDTH), disp = IN_SRANGE(-4, 4);
   ASSUME(off % WIDTH == 0);
   vm_args[0].pointer = mem.b + off - disp;
   jit_ir_t irs[] = { ARG(0), vm_ir(T_LOAD, SZ, JIT_CC_NONE, 2, REGDISP(1, disp), NOARG), OUT(1, 2), RET };
   REACH("precondition");
   vm_run(irs, 4, 4, 0);
   uint64_t x = 0;
   for (int i = 0; i < WIDTH; i++)
      x |= (uint64_t)mem.b[off + i] << (8 * i);
   if (T_LOAD == J_LOAD && WIDTH < 8 && (x >> (8 * WIDTH - 1)) & 1)
      x |= ~UINT64_C(0) << (8 * (WIDTH & 7));
   ENSURES(vm_args[1].integer == (int64_t)x, "load extends the value in memory");
   const int k = IN_RANGE(0, BUF - 1);
   ENSURES(mem.b[k] == old.b[k], "load changes no memory");
#elif defined T_LEA
   const int disp = IN_SRANGE(-8, 8), off = IN_RANGE(8, BUF - 9);
   vm_args[0].pointer = mem.b + off;
   const int coff = IN_RANGE(0, 16);
   jit_ir_t irs[] = { ARG(0), vm_ir(J_LEA, JIT_SZ_UNSPEC, JIT_CC_NONE, 2, REGDISP(1, disp), NOARG), OUT(1, 2),
      vm_ir(J_LEA, JIT_SZ_UNSPEC, JIT_CC_NONE, 2, CPOOL(coff), NOARG), OUT(2, 2),
      vm_ir(MACRO_SALLOC, JIT_SZ_UNSPEC, JIT_CC_NONE, 3, IMM(8), IMM(8)),
      vm_ir(MACRO_SALLOC, JIT_SZ_UNSPEC, JIT_CC_NONE, 2, IMM(0), IMM(8)),
      vm_ir(J_STORE, JIT_SZ_64, JIT_CC_NONE, 0, IMM(0x1122334455667788), REGDISP(3, 0)),
      vm_ir(J_STORE, JIT_SZ_64, JIT_CC_NONE, 0, IMM(-1), REGDISP(2, 0)),
      vm_ir(J_LOAD, JIT_SZ_64, JIT_CC_NONE, 3, REGDISP(3, 0), NOARG), OUT(3, 3),
      vm_ir(J_LOAD, JIT_SZ_64, JIT_CC_NONE, 3, REGDISP(2, 0), NOARG), OUT(4, 3), RET };
   REACH("precondition");
   vm_run(irs, 14, 4, 16);
   ENSURES(vm_args[1].pointer == (void *)(mem.b + off + disp), "address is base plus displacement");
   ENSURES(vm_args[2].pointer == (void *)(vm_cpool + coff), "constant pool address");
   ENSURES(vm_args[3].integer == 0x1122334455667788 && vm_args[4].integer == -1,
           "stack slots at distinct offsets do not overlap");
#elif defined T_COPY
   // COPY and MOVE: destination receives the source bytes as they were
   const int n = IN_RANGE(0, 8), s = IN_RANGE(0, BUF - 8), d = IN_RANGE(0, BUF - 8);
   if (T_COPY == MACRO_COPY) ASSUME(s + n <= d || d + n <= s);
   vm_args[0].integer = n;
   vm_args[1].pointer = mem.b + d;
   vm_args[2].pointer = mem.b + s;
   jit_ir_t irs[] = { ARG(0), ARG(1), ARG(2),
      vm_ir(T_COPY, JIT_SZ_UNSPEC, JIT_CC_NONE, 1, REGDISP(2, 0), REGDISP(3, 0)), RET };
   REACH("precondition");
   vm_run(irs, 5, 4, 0);
   const int k = IN_RANGE(0, BUF - 1);
   ENSURES(mem.b[k] == (k >= d && k < d + n ? old.b[s + k - d] : old.b[k]), "copy transfers exactly the counted bytes");
#elif defined T_BZERO
   const int n = IN_RANGE(0, 8), d = IN_RANGE(0, BUF - 8);
   vm_args[0].integer = n;
   vm_args[1].pointer = mem.b + d;
   jit_ir_t irs[] = { ARG(0), ARG(1), vm_ir(MACRO_BZERO, JIT_SZ_UNSPEC, JIT_CC_NONE, 1, REG(2), NOARG), RET };
   REACH("precondition");
   vm_run(irs, 4, 4, 0);
   const int k = IN_RANGE(0, BUF - 1);
   ENSURES(mem.b[k] == (k >= d && k < d + n ? 0 : old.b[k]), "zeroes exactly the counted bytes");
#elif defined T_MEMSET
   // The count register is a number of bytes, a multiple of the element size
   const int n = IN_RANGE(0, 16 / WIDTH), d = IN_RANGE(0, 8 / WIDTH) * WIDTH;
   const int64_t v = IN_I64();
   vm_args[0].integer = n * WIDTH;
   vm_args[1].pointer = mem.b + d;
   vm_args[2].integer = v;
   jit_ir_t irs[] = { ARG(0), ARG(1), ARG(2), vm_ir(MACRO_MEMSET, SZ, JIT_CC_NONE, 1, REG(2), REG(3)), RET };
   REACH("precondition");
   vm_run(irs, 5, 5, 0);
   const int k = IN_RANGE(0, BUF - 1);
   if (k >= d && k < d + n * WIDTH)
      ENSURES(mem.b[k] == (unsigned char)((uint64_t)v >> (8 * ((k - d) % WIDTH))), "every element receives the value");
   else
      ENSURES(mem.b[k] == old.b[k], "memset touches nothing else");
#elif defined T_SADD
   // cbmc mis-models __builtin_add_overflow with an operand wider than the result
   const int64_t v = IN_RANGE(0, WIDTH == 1 ? UINT8_MAX : WIDTH == 2 ? UINT16_MAX : INT32_MAX);
   const int off = IN_RANGE(0, BUF / WIDTH - 1) * WIDTH;
   vm_args[0].pointer = mem.b + off;
   vm_args[1].integer = v;
   jit_ir_t irs[] = { ARG(0), ARG(1), vm_ir(MACRO_SADD, SZ, JIT_CC_NONE, 0, REG(1), REG(2)), RET };
   REACH("precondition");
   vm_run(irs, 4, 4, 0);
   uint64_t x = 0, y = 0;
   for (int i = 0; i < WIDTH; i++) {
      x |= (uint64_t)old.b[off + i] << (8 * i);
      y |= (uint64_t)mem.b[off + i] << (8 * i);
   }
   const uint64_t max = WIDTH == 8 ? UINT64_MAX : (UINT64_C(1) << (8 * (WIDTH & 7))) - 1;
   ENSURES(y == ((uint64_t)v > max - x ? max : x + v), "saturating addition");
   const int k = IN_RANGE(0, BUF - 1);
   ENSURES((k >= off && k < off + WIDTH) || mem.b[k] == old.b[k], "touches nothing else");
#elif defined T_JUMP
   // if flag: r3 := 1 else r3 := 2; then a backwards jump round a counter
   const bool f = IN_BOOL();
   const int64_t n = IN_RANGE(0, 4);
   vm_args[0].integer = f;
   vm_args[1].integer = n;
   jit_ir_t irs[] = { ARG(0), ARG(1),
      vm_ir(J_MOV, JIT_SZ_UNSPEC, JIT_CC_NONE, 3, IMM(0), NOARG),
      vm_ir(J_CMP, JIT_SZ_UNSPEC, JIT_CC_NE, 0, REG(1), IMM(0)),
      vm_ir(J_JUMP, JIT_SZ_UNSPEC, T_JUMP, 0, LABEL(6), NOARG),
      vm_ir(J_ADD, JIT_SZ_UNSPEC, JIT_CC_NONE, 3, REG(3), IMM(100)),
      vm_ir(J_ADD, JIT_SZ_UNSPEC, JIT_CC_NONE, 3, REG(3), IMM(1)),      // 6
      vm_ir(J_CMP, JIT_SZ_UNSPEC, JIT_CC_GE, 0, REG(3), REG(2)),
      vm_ir(J_JUMP, JIT_SZ_UNSPEC, JIT_CC_F, 0, LABEL(6), NOARG),
      OUT(2, 3), RET };
   REACH("precondition");
   vm_run(irs, 11, 4, 0);
   const bool taken = T_JUMP == JIT_CC_NONE || (T_JUMP == JIT_CC_T) == f;
   ENSURES(vm_args[2].integer == (!taken ? 101 : n > 1 ? n : 1), "branch taken exactly when its condition holds");
#elif defined T_MCASE
   const int64_t x = IN_I64(), c1 = IN_I64(), c2 = IN_I64();
   vm_args[0].integer = x;
   vm_args[1].integer = c1;
   jit_ir_t irs[] = { ARG(0), ARG(1),
      vm_ir(J_MOV, JIT_SZ_UNSPEC, JIT_CC_NONE, 3, IMM(7), NOARG),
      vm_ir(MACRO_CASE, JIT_SZ_UNSPEC, JIT_CC_NONE, 1, REG(2), LABEL(6)),
      vm_ir(MACRO_CASE, JIT_SZ_UNSPEC, JIT_CC_NONE, 1, IMM(c2), LABEL(7)),
      vm_ir(J_MOV, JIT_SZ_UNSPEC, JIT_CC_NONE, 3, IMM(3), NOARG),
      vm_ir(J_ADD, JIT_SZ_UNSPEC, JIT_CC_NONE, 3, REG(3), IMM(10)),   // 6
      OUT(2, 3), OUT(3, 1), RET };                                      // 7
   REACH("precondition");
   vm_run(irs, 10, 4, 0);
   ENSURES(vm_args[2].integer == (x == c1 ? 17 : x == c2 ? 7 : 13), "first matching alternative is chosen");
   ENSURES(vm_args[3].integer == x, "selector unchanged");
#elif defined T_TRIM
   static struct { uint32_t pad; } dummy;
   static tlab_t tlab;
   const uint32_t mark = IN_U32(), more = IN_U32();
   (void)dummy;
   tlab.alloc = mark;
   jit_ir_t irs[] = { ARG(0), vm_ir(MACRO_TRIM, JIT_SZ_UNSPEC, JIT_CC_NONE, 0, NOARG, NOARG), OUT(1, 1), RET };
   vm_args[0].integer = more;
   vm_func.entry = jit_interp; vm_func.irbuf = irs; vm_func.nirs = 4; vm_func.nregs = 4; vm_func.framesz = 0;
   REACH("precondition");
   jit_interp(&vm_func, NULL, vm_args, &tlab);
   ENSURES(tlab.alloc == mark, "temporary storage released to the mark at entry");
   ENSURES(vm_args[1].integer == more, "arguments delivered");
#endif
   REACH("postcondition");
}
