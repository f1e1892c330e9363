From 91ad77e26c88acc77e67edfb413b3f8e95d2cc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:37 +0000
Subject: [PATCH 01/21] Add loop contract annotation hook (NVC_VERIFY) and
 annotate bit mask loops

---
 src/mask.c | 20 ++++++++++++++++----
 src/prim.h |  8 ++++++++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/mask.c b/src/mask.c
index df81f42..e83e2a1 100644
--- a/src/mask.c
+++ b/src/mask.c
@@ -79,6 +79,7 @@ void mask_clear_range(bit_mask_t *m, size_t start, size_t count)
    if (count > 0) {
       // Main loop: clear complete 64-bit words
       for (; count >= 64; count -= 64, start += 64)
+         LOOP_CONTRACT(mask_clear_range)
          m->ptr[start / 64] = 0;
    }
 
@@ -111,6 +112,7 @@ void mask_set_range(bit_mask_t *m, size_t start, size_t count)
    if (count > 0) {
       // Main loop: set complete 64-bit words
       for (; count >= 64; count -= 64, start += 64)
+         LOOP_CONTRACT(mask_set_range)
          m->ptr[start / 64] = ~UINT64_C(0);
    }
 
@@ -143,7 +145,9 @@ bool mask_test_range(bit_mask_t *m, size_t start, size_t count)
 
    if (count > 0) {
       // Main loop: test complete 64-bit words
-      for (; count >= 64; count -= 64, start += 64) {
+      for (; count >= 64; count -= 64, start += 64)
+         LOOP_CONTRACT(mask_test_range)
+      {
          if (m->ptr[start / 64])
             return true;
       }
@@ -209,7 +213,8 @@ ssize_t mask_scan_backwards(bit_mask_t *m, size_t bit)
 
    ssize_t i = bit - (bit % 64 + 1);
 
-   for (; i > 0 && m->ptr[i / 64] == 0; i -= 64);
+   for (; i > 0 && m->ptr[i / 64] == 0; i -= 64)
+      LOOP_CONTRACT(mask_scan_backwards);
 
    if (i > 0)
       return (i | 63) - __builtin_clzll(m->ptr[i / 64]);
@@ -246,7 +251,8 @@ size_t mask_count_clear(bit_mask_t *m, size_t bit)
 
    assert(bit % 64 == 0);
 
-   for (; bit + 64 < m->size && m->ptr[bit / 64] == 0; bit += 64, count += 64);
+   for (; bit + 64 < m->size && m->ptr[bit / 64] == 0; bit += 64, count += 64)
+      LOOP_CONTRACT(mask_count_clear);
 
    const int fs = __builtin_ffsll(m->ptr[bit / 64]);
    if (fs > 0)
@@ -261,6 +267,7 @@ void mask_subtract(bit_mask_t *m, const bit_mask_t *m2)
 
    if (m->size > 64) {
       for (ssize_t i = 0; i < (m->size + 63) / 64; i++)
+         LOOP_CONTRACT(mask_subtract)
          m->ptr[i] &= ~m2->ptr[i];
    }
    else
@@ -273,6 +280,7 @@ void mask_union(bit_mask_t *m, const bit_mask_t *m2)
 
    if (m->size > 64) {
       for (ssize_t i = 0; i < (m->size + 63) / 64; i++)
+         LOOP_CONTRACT(mask_union)
          m->ptr[i] |= m2->ptr[i];
    }
    else
@@ -285,6 +293,7 @@ void mask_intersect(bit_mask_t *m, const bit_mask_t *m2)
 
    if (m->size > 64) {
       for (ssize_t i = 0; i < (m->size + 63) / 64; i++)
+         LOOP_CONTRACT(mask_intersect)
          m->ptr[i] &= m2->ptr[i];
    }
    else
@@ -297,6 +306,7 @@ void mask_copy(bit_mask_t *m, const bit_mask_t *m2)
 
    if (m->size > 64) {
       for (ssize_t i = 0; i < (m->size + 63) / 64; i++)
+         LOOP_CONTRACT(mask_copy)
          m->ptr[i] = m2->ptr[i];
    }
    else
@@ -337,7 +347,9 @@ bool mask_iter(const bit_mask_t *m, size_t *bit)
          word++;
       }
 
-      for (; word < (m->size + 63) / 64; word++) {
+      for (; word < (m->size + 63) / 64; word++)
+         LOOP_CONTRACT(mask_iter)
+      {
          const int fs = __builtin_ffsll(m->ptr[word]);
          if (fs > 0) {
             *bit = word*64 + fs - 1;
diff --git a/src/prim.h b/src/prim.h
index b77bb24..21de482 100644
--- a/src/prim.h
+++ b/src/prim.h
@@ -26,6 +26,14 @@
 #include <stddef.h>
 #include <stdbool.h>
 
+// Annotation hook for deductive verification: the contract text is only
+// visible to the verifier
+#ifdef NVC_VERIFY
+#include "nvc-contracts.h"
+#else
+#define LOOP_CONTRACT(name)
+#endif
+
 typedef struct _lib *lib_t;
 typedef struct _object object_t;
 typedef struct _object_arena object_arena_t;
-- 
2.43.0


From 3f67e79210b65c7199e4858041523c4258459aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 02/21] fix: integer exponentiation truncated the exponent to
 the width of small types

---
 src/jit/jit-interp.c |  6 ++++--
 src/jit/jit-llvm.c   | 15 ++++++++-------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/jit/jit-interp.c b/src/jit/jit-interp.c
index 69ec3f9..b767551 100644
--- a/src/jit/jit-interp.c
+++ b/src/jit/jit-interp.c
@@ -700,7 +700,8 @@ static void interp_exp(jit_interp_t *state, jit_ir_t *ir)
       int overflow = 0, xo = 0;
 
 #define EXP_OVERFLOW(type) do {                                         \
-         type xt = x, yt = y, r = 1;                                    \
+         type xt = x, r = 1;                                            \
+         uint64_t yt = y;                                               \
          while (yt) {                                                   \
             if (yt & 1)                                                 \
                overflow |= xo || __builtin_mul_overflow(r, xt, &r);     \
@@ -718,7 +719,8 @@ static void interp_exp(jit_interp_t *state, jit_ir_t *ir)
       int overflow = 0, xo = 0;
 
 #define UEXP_OVERFLOW(type) do {                                        \
-         u##type xt = x, yt = y, r = 1;                                 \
+         u##type xt = x, r = 1;                                         \
+         uint64_t yt = y;                                               \
          while (yt) {                                                   \
             if (yt & 1)                                                 \
                overflow |= xo || __builtin_mul_overflow(r, xt, &r);     \
diff --git a/src/jit/jit-llvm.c b/src/jit/jit-llvm.c
index 256c5a5..ec3f187 100644
--- a/src/jit/jit-llvm.c
+++ b/src/jit/jit-llvm.c
@@ -676,7 +676,7 @@ static LLVMValueRef llvm_get_fn(llvm_obj_t *obj, llvm_fn_t which)
          jit_size_t sz = which - LLVM_EXP_OVERFLOW_S8;
          LLVMTypeRef int_type = obj->types[LLVM_INT8 + sz];
          LLVMTypeRef pair_type = obj->types[LLVM_PAIR_I8_I1 + sz];
-         LLVMTypeRef args[] = { int_type, int_type };
+         LLVMTypeRef args[] = { int_type, obj->types[LLVM_INT64] };
          obj->fntypes[which] = LLVMFunctionType(pair_type, args,
                                                 ARRAY_LEN(args), false);
 
@@ -699,7 +699,7 @@ static LLVMValueRef llvm_get_fn(llvm_obj_t *obj, llvm_fn_t which)
          jit_size_t sz = which - LLVM_EXP_OVERFLOW_U8;
          LLVMTypeRef int_type = obj->types[LLVM_INT8 + sz];
          LLVMTypeRef pair_type = obj->types[LLVM_PAIR_I8_I1 + sz];
-         LLVMTypeRef args[] = { int_type, int_type };
+         LLVMTypeRef args[] = { int_type, obj->types[LLVM_INT64] };
          obj->fntypes[which] = LLVMFunctionType(pair_type, args,
                                                 ARRAY_LEN(args), false);
 
@@ -1962,7 +1962,7 @@ static void cgen_macro_exp(llvm_obj_t *obj, cgen_block_t *cgb, jit_ir_t *ir)
 
    llvm_type_t type = LLVM_INT8 + ir->size;
    LLVMValueRef arg1 = cgen_coerce_value(obj, cgb, ir->arg1, type);
-   LLVMValueRef arg2 = cgen_coerce_value(obj, cgb, ir->arg2, type);
+   LLVMValueRef arg2 = cgen_coerce_value(obj, cgb, ir->arg2, LLVM_INT64);
 
    LLVMValueRef args[] = { arg1, arg2 };
    LLVMValueRef pair = llvm_call_fn(obj, fn, args, 2);
@@ -3184,15 +3184,16 @@ static void cgen_exp_overflow_body(llvm_obj_t *obj, llvm_fn_t which,
    LLVMSetValueName(y0, "y0");
 
    LLVMTypeRef int_type = obj->types[LLVM_INT8 + sz];
+   LLVMTypeRef exp_type = obj->types[LLVM_INT64];
    LLVMTypeRef pair_type = obj->types[LLVM_PAIR_I8_I1 + sz];
 
    LLVMValueRef mulfn = llvm_get_fn(obj, mulbase + sz);
    LLVMTypeRef multype = obj->fntypes[mulbase + sz];
 
-   LLVMValueRef zero = LLVMConstInt(int_type, 0, false);
-   LLVMValueRef one = LLVMConstInt(int_type, 1, false);
+   LLVMValueRef zero = LLVMConstInt(exp_type, 0, false);
+   LLVMValueRef one = LLVMConstInt(exp_type, 1, false);
 
-   LLVMValueRef r0 = one;
+   LLVMValueRef r0 = LLVMConstInt(int_type, 1, false);
    LLVMValueRef o0 = llvm_int1(obj, false);
    LLVMValueRef xo0 = llvm_int1(obj, false);
 
@@ -3207,7 +3208,7 @@ static void cgen_exp_overflow_body(llvm_obj_t *obj, llvm_fn_t which,
    LLVMPositionBuilderAtEnd(obj->builder, header);
 
    LLVMValueRef x1 = LLVMBuildPhi(obj->builder, int_type, "x1");
-   LLVMValueRef y1 = LLVMBuildPhi(obj->builder, int_type, "y1");
+   LLVMValueRef y1 = LLVMBuildPhi(obj->builder, exp_type, "y1");
    LLVMValueRef r1 = LLVMBuildPhi(obj->builder, int_type, "r1");
    LLVMValueRef o1 = LLVMBuildPhi(obj->builder, obj->types[LLVM_INT1], "o1");
    LLVMValueRef xo1 = LLVMBuildPhi(obj->builder, obj->types[LLVM_INT1], "xo1");
-- 
2.43.0


From 44776a0f13bca9ed22761ccc9e4c6fb51cd9c0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:54 +0000
Subject: [PATCH 03/21] fix: compiled exponentiation lost overflow of an
 earlier squaring step

---
 src/jit/jit-llvm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jit/jit-llvm.c b/src/jit/jit-llvm.c
index ec3f187..a2304c5 100644
--- a/src/jit/jit-llvm.c
+++ b/src/jit/jit-llvm.c
@@ -3258,7 +3258,8 @@ static void cgen_exp_overflow_body(llvm_obj_t *obj, llvm_fn_t which,
    LLVMValueRef x2_pair = LLVMBuildCall2(obj->builder, multype, mulfn, x2_args,
                                          ARRAY_LEN(x2_args), "");
    LLVMValueRef x2 = LLVMBuildExtractValue(obj->builder, x2_pair, 0, "x2");
-   LLVMValueRef xo2 = LLVMBuildExtractValue(obj->builder, x2_pair, 1, "");
+   LLVMValueRef x2_ovf = LLVMBuildExtractValue(obj->builder, x2_pair, 1, "");
+   LLVMValueRef xo2 = LLVMBuildOr(obj->builder, xo1, x2_ovf, "xo2");
 
    LLVMValueRef x1_in[] = { x0, x2 };
    LLVMBasicBlockRef x1_bb[] = { entry, tail };
-- 
2.43.0


From 807a5b7f4dac79684ac3a8fe0647ab583a64eac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:37 +0000
Subject: [PATCH 04/21] fix: conversion of real to integer could round to the
 wrong neighbour

---
 src/jit/jit-interp.c | 5 ++++-
 src/jit/jit-llvm.c   | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jit/jit-interp.c b/src/jit/jit-interp.c
index b767551..6dbacb1 100644
--- a/src/jit/jit-interp.c
+++ b/src/jit/jit-interp.c
@@ -675,7 +675,10 @@ static void interp_scvtf(jit_interp_t *state, jit_ir_t *ir)
 static void interp_fcvtns(jit_interp_t *state, jit_ir_t *ir)
 {
    const double f = interp_get_real(state, ir->arg1);
-   state->regs[ir->result].integer = (int64_t)(f + copysign(0.5, f));
+   // The largest double below one half, otherwise the addition can round
+   // up for a value just below one half or for large odd integers
+   const double half = 0x1.fffffffffffffp-2;
+   state->regs[ir->result].integer = (int64_t)(f + copysign(half, f));
 }
 
 static void interp_lea(jit_interp_t *state, jit_ir_t *ir)
diff --git a/src/jit/jit-llvm.c b/src/jit/jit-llvm.c
index a2304c5..386edcf 100644
--- a/src/jit/jit-llvm.c
+++ b/src/jit/jit-llvm.c
@@ -1700,7 +1700,9 @@ static void cgen_op_fcvtns(llvm_obj_t *obj, cgen_block_t *cgb, jit_ir_t *ir)
 {
    LLVMValueRef arg1 = cgen_coerce_value(obj, cgb, ir->arg1, LLVM_DOUBLE);
 
-   LLVMValueRef args[] = { llvm_real(obj, 0.5), arg1 };
+   // The largest double below one half, otherwise the addition can round
+   // up for a value just below one half or for large odd integers
+   LLVMValueRef args[] = { llvm_real(obj, 0x1.fffffffffffffp-2), arg1 };
    LLVMValueRef half = llvm_call_fn(obj, LLVM_COPYSIGN_F64, args, 2);
    LLVMValueRef rounded = LLVMBuildFAdd(obj->builder, arg1, half, "");
 
-- 
2.43.0


From 0231c5429c98736e4a89f9492214623ee72dbb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:10 +0000
Subject: [PATCH 05/21] fix: value numbering could reuse a register holding
 another value

The table lookup recomputed the value numbers of an earlier instruction's
operands, which may have been overwritten since, so for example in
"tmp := v; v := 8; w := 8" w could be given the old value of v.
---
 src/jit/jit-optim.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jit/jit-optim.c b/src/jit/jit-optim.c
index 56de995..91acc2b 100644
--- a/src/jit/jit-optim.c
+++ b/src/jit/jit-optim.c
@@ -292,6 +292,7 @@ typedef unsigned valnum_t;
 typedef struct {
    jit_ir_t *ir;
    valnum_t  vn;
+   int       tuple[3];
 } lvn_tab_t;
 
 typedef struct {
@@ -467,6 +468,7 @@ static void jit_lvn_generic(jit_ir_t *ir, lvn_state_t *state, valnum_t vn)
          if (stale >= 0)  // Reuse earlier stale entry if possible
             tab = &(state->hashtab[stale]);
          tab->ir = ir;
+         memcpy(tab->tuple, tuple, sizeof(tuple));
          tab->vn = state->regvn[ir->result] =
             (vn == VN_INVALID ? lvn_new_value(state) : vn);
          break;
@@ -477,8 +479,9 @@ static void jit_lvn_generic(jit_ir_t *ir, lvn_state_t *state, valnum_t vn)
          continue;
       }
       else {
-         int cmp[3];
-         lvn_get_tuple(tab->ir, state, cmp);
+         // The operands of this instruction may have been overwritten
+         // since so compare with the value numbers it was inserted with
+         const int *cmp = tab->tuple;
 
          if (cmp[0] == tuple[0] && cmp[1] == tuple[1] && cmp[2] == tuple[2]) {
             assert(tab->ir->result != JIT_REG_INVALID);
-- 
2.43.0


From e496b4c5753c998e913780dc004b56fbdd010f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:10 +0000
Subject: [PATCH 06/21] fix: value numbering forgot an assignment when its
 table was crowded

If the probe limit was reached the result register kept the value number
of its previous contents.
---
 src/jit/jit-optim.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jit/jit-optim.c b/src/jit/jit-optim.c
index 91acc2b..ba97f24 100644
--- a/src/jit/jit-optim.c
+++ b/src/jit/jit-optim.c
@@ -460,6 +460,9 @@ static void jit_lvn_generic(jit_ir_t *ir, lvn_state_t *state, valnum_t vn)
    const uint32_t hash =
       mix_bits_32(tuple[0]*29 + tuple[1]*1093 + tuple[2]*6037);
 
+   // Value is unknown if there is no space in the table
+   state->regvn[ir->result] = VN_INVALID;
+
    for (int idx = hash & (state->tabsz - 1), limit = 0, stale = -1; limit < 10;
         idx = (idx + 1) & (state->tabsz - 1), limit++) {
 
-- 
2.43.0


From 7c22b0c3eaa9e5d3209dff06309a52b1051cddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 07/21] fix: folding a checked operation left a stale overflow
 flag

Replacing an overflow checked operation by a move means the flags are no
longer written, so a following conditional jump would test whatever the
previous comparison left there.  Also do not fold an unsigned subtraction
which does overflow.
---
 src/jit/jit-optim.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/jit/jit-optim.c b/src/jit/jit-optim.c
index ba97f24..b0f409b 100644
--- a/src/jit/jit-optim.c
+++ b/src/jit/jit-optim.c
@@ -348,6 +348,9 @@ static inline bool lvn_can_fold(jit_ir_t *ir, lvn_state_t *state,
 
 static void lvn_convert_mov(jit_ir_t *ir, lvn_state_t *state, jit_value_t value)
 {
+   if (jit_writes_flags(ir))
+      state->regvn[state->func->nregs] = 0;   // Known not to overflow
+
    ir->op        = J_MOV;
    ir->size      = JIT_SZ_UNSPEC;
    ir->cc        = JIT_CC_NONE;
@@ -489,6 +492,12 @@ static void jit_lvn_generic(jit_ir_t *ir, lvn_state_t *state, valnum_t vn)
          if (cmp[0] == tuple[0] && cmp[1] == tuple[1] && cmp[2] == tuple[2]) {
             assert(tab->ir->result != JIT_REG_INVALID);
 
+            if (jit_writes_flags(ir)) {
+               // Still needed for its effect on the flags
+               state->regvn[ir->result] = tab->vn;
+               break;
+            }
+
             ir->op   = J_MOV;
             ir->size = JIT_SZ_UNSPEC;
             ir->cc   = JIT_CC_NONE;
@@ -610,7 +619,8 @@ static void jit_lvn_sub(jit_ir_t *ir, lvn_state_t *state)
       lvn_kill_flags(state);
 
    int64_t lhs, rhs;
-   if (lvn_can_fold(ir, state, &lhs, &rhs)) {
+   if (lvn_can_fold(ir, state, &lhs, &rhs)
+       && (ir->cc != JIT_CC_C || lhs >= rhs)) {
 #define FOLD_SUB(type) do {                                             \
          type result;                                                   \
          if (!__builtin_sub_overflow(lhs, rhs, &result)) {              \
-- 
2.43.0


From 064333e973e98577e3f6ea134a75638dc5ea06e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 08/21] fix: power of two with the base in a register shifted
 the wrong register

---
 src/jit/jit-optim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jit/jit-optim.c b/src/jit/jit-optim.c
index b0f409b..be4694f 100644
--- a/src/jit/jit-optim.c
+++ b/src/jit/jit-optim.c
@@ -941,7 +941,7 @@ static void jit_lvn_exp(jit_ir_t *ir, lvn_state_t *state)
       lvn_convert_mov(ir, state, LVN_CONST(ipow(base, exp)));
    else if (lvn_is_const(ir->arg1, state, &base) && base == 2) {
       ir->op = J_SHL;
-      ir->arg1.int64 = 1;
+      ir->arg1 = LVN_CONST(1);
       jit_lvn_generic(ir, state, VN_INVALID);
    }
    else
-- 
2.43.0


From 27bc5f5d0e6b47aa2bcb6962a1d0be2147ae8c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 09/21] fix: filling an array with a negative 16 or 32 bit
 constant corrupted elements

---
 src/jit/jit-optim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jit/jit-optim.c b/src/jit/jit-optim.c
index be4694f..ea03012 100644
--- a/src/jit/jit-optim.c
+++ b/src/jit/jit-optim.c
@@ -894,7 +894,7 @@ static void jit_lvn_memset(jit_ir_t *ir, lvn_state_t *state)
          0xff, 0xffff, 0xffffffff, 0xffffffffffffffff
       };
 
-      uint64_t bits = value;
+      uint64_t bits = value & mask[ir->size];
       if (value == 0) {
          ir->op = MACRO_BZERO;
          ir->size = JIT_SZ_UNSPEC;
-- 
2.43.0


From 6a2f9624f6ad430662381e0a23fecaecf723b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 10/21] fix: pulse rejection compared bytes outside the value
 of a signal part

---
 src/rt/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index fc5bd30..b3bdc1a 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1153,7 +1153,7 @@ static inline bool cmp_values(rt_nexus_t *n, rt_value_t a, rt_value_t b)
 {
    const size_t valuesz = n->width * n->size;
    if (valuesz <= sizeof(rt_value_t))
-      return a.qword == b.qword;
+      return cmp_bytes(a.bytes, b.bytes, valuesz);   // Rest is undefined
    else
       return cmp_bytes(a.ext, b.ext, valuesz);
 }
-- 
2.43.0


From 78b993b26538f3a5216b4124f3bb42c14c5ce063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:26 +0000
Subject: [PATCH 11/21] fix: pulse rejection kept transactions before a
 rejected one

---
 src/rt/model.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index b3bdc1a..8c3ddc7 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2565,24 +2565,29 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
                                       uint64_t when, uint64_t reject)
 {
    waveform_t *last = &(source->u.driver.waveforms);
+   waveform_t *keep = last;   // Last transaction before rejection interval
    waveform_t *it   = last->next;
    while (it != NULL && it->when < when) {
-      // If the current transaction is within the pulse rejection interval
-      // and the value is different to that of the new transaction then
-      // delete the current transaction
+      waveform_t *next = it->next;
       assert(it->when >= m->now);
-      if (it->when >= when - reject
-          && !cmp_values(nexus, it->value, w->value)) {
-         waveform_t *next = it->next;
-         last->next = next;
-         free_value(nexus, it->value);
-         free_waveform(m, it);
-         it = next;
-      }
-      else {
+      if (it->when < when - reject)
+         keep = last = it;
+      else if (cmp_values(nexus, it->value, w->value))
          last = it;
-         it = it->next;
+      else {
+         // If the current transaction is within the pulse rejection
+         // interval and the value is different to that of the new
+         // transaction then delete the current transaction and all
+         // those within the interval that precede it
+         for (waveform_t *del = keep->next, *tmp; del != next; del = tmp) {
+            tmp = del->next;
+            free_value(nexus, del->value);
+            free_waveform(m, del);
+         }
+         keep->next = next;
+         last = keep;
       }
+      it = next;
    }
    last->next = w;
 
-- 
2.43.0


From b08d3e61693aedc892366f387a228db1b824bfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:18 +0000
Subject: [PATCH 12/21] fix: null transactions were lost at time zero, after a
 later assignment, and crashed for large values

---
 src/rt/model.c | 93 +++++++++++++++++++++++++++++---------------------
 1 file changed, 55 insertions(+), 38 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 8c3ddc7..be12c8f 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -138,6 +138,7 @@ typedef struct _rt_model {
 #define NEXUS_INDEX_MIN 8
 #define TRACE_SIGNALS   1
 #define WAVEFORM_CHUNK  256
+#define NULL_WAVEFORM   (UINT64_C(1) << 63)
 #define PENDING_MIN     4
 #define MAX_RANK        UINT8_MAX
 
@@ -1158,6 +1159,24 @@ static inline bool cmp_values(rt_nexus_t *n, rt_value_t a, rt_value_t b)
       return cmp_bytes(a.ext, b.ext, valuesz);
 }
 
+static inline uint64_t waveform_when(const waveform_t *w)
+{
+   return w->when & ~NULL_WAVEFORM;
+}
+
+static inline bool is_null_waveform(const waveform_t *w)
+{
+   return !!(w->when & NULL_WAVEFORM);
+}
+
+static inline bool cmp_waveforms(rt_nexus_t *n, waveform_t *a, waveform_t *b)
+{
+   if (is_null_waveform(a) || is_null_waveform(b))
+      return is_null_waveform(a) == is_null_waveform(b);
+   else
+      return cmp_values(n, a->value, b->value);
+}
+
 static inline bool is_pseudo_source(source_kind_t kind)
 {
    return kind == SOURCE_FORCING || kind == SOURCE_DEPOSIT
@@ -1532,8 +1551,8 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
 
             split_value(nexus, &w_new->value, &w_old->value, offset);
 
-            assert(w_old->when >= m->now);
-            deltaq_insert_driver(m, w_new->when - m->now, new);
+            assert(waveform_when(w_old) >= m->now);
+            deltaq_insert_driver(m, waveform_when(w_new) - m->now, new);
          }
       }
       break;
@@ -2567,12 +2586,12 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
    waveform_t *last = &(source->u.driver.waveforms);
    waveform_t *keep = last;   // Last transaction before rejection interval
    waveform_t *it   = last->next;
-   while (it != NULL && it->when < when) {
+   while (it != NULL && waveform_when(it) < when) {
       waveform_t *next = it->next;
-      assert(it->when >= m->now);
-      if (it->when < when - reject)
+      assert(waveform_when(it) >= m->now);
+      if (waveform_when(it) < when - reject)
          keep = last = it;
-      else if (cmp_values(nexus, it->value, w->value))
+      else if (cmp_waveforms(nexus, it, w))
          last = it;
       else {
          // If the current transaction is within the pulse rejection
@@ -2598,7 +2617,7 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
    bool already_scheduled = false;
    for (waveform_t *next; it != NULL; it = next) {
       next = it->next;
-      already_scheduled |= (it->when == when);
+      already_scheduled |= (waveform_when(it) == when);
       free_value(nexus, it->value);
       free_waveform(m, it);
    }
@@ -2606,6 +2625,25 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
    return already_scheduled;
 }
 
+static void disable_fast_driver(rt_model_t *m, rt_nexus_t *n, rt_source_t *d)
+{
+   if ((n->flags & NET_F_FAST_DRIVER) && d->fastqueued) {
+      // A fast update to this driver is already scheduled
+      waveform_t *w0 = alloc_waveform(m);
+      w0->when  = m->now;
+      w0->next  = NULL;
+      w0->value = alloc_value(m, n);
+
+      const uint8_t *prev = value_ptr(n, &(d->u.driver.waveforms.value));
+      copy_value_ptr(n, &w0->value, prev);
+
+      assert(d->u.driver.waveforms.next == NULL);
+      d->u.driver.waveforms.next = w0;
+   }
+
+   n->flags &= ~NET_F_FAST_DRIVER;
+}
+
 static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
                          uint64_t reject, const void *value, rt_proc_t *proc)
 {
@@ -2650,21 +2688,7 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
       rt_source_t *d = find_driver(n, proc);
       assert(d != NULL);
 
-      if ((n->flags & NET_F_FAST_DRIVER) && d->fastqueued) {
-         // A fast update to this driver is already scheduled
-         waveform_t *w0 = alloc_waveform(m);
-         w0->when  = m->now;
-         w0->next  = NULL;
-         w0->value = alloc_value(m, n);
-
-         const uint8_t *prev = value_ptr(n, &(d->u.driver.waveforms.value));
-         copy_value_ptr(n, &w0->value, prev);
-
-         assert(d->u.driver.waveforms.next == NULL);
-         d->u.driver.waveforms.next = w0;
-      }
-
-      n->flags &= ~NET_F_FAST_DRIVER;
+      disable_fast_driver(m, n, d);
 
       waveform_t *w = alloc_waveform(m);
       w->when  = m->now + after;
@@ -2687,12 +2711,12 @@ static void sched_disconnect(rt_model_t *m, rt_nexus_t *nexus, uint64_t after,
    const uint64_t when = m->now + after;
 
    // Need update_driver to clear disconnected flag
-   nexus->flags &= ~NET_F_FAST_DRIVER;
+   disable_fast_driver(m, nexus, d);
 
    waveform_t *w = alloc_waveform(m);
-   w->when = -when;   // Use sign bit to represent null
-   w->next = NULL;
-   w->value.qword = 0;
+   w->when  = when | NULL_WAVEFORM;
+   w->next  = NULL;
+   w->value = alloc_value(m, nexus);
 
    if (!insert_transaction(m, nexus, d, w, when, reject))
       deltaq_insert_driver(m, after, d);
@@ -3013,18 +3037,11 @@ static void update_driver(rt_model_t *m, rt_nexus_t *n, rt_source_t *source)
    waveform_t *w_now  = &(source->u.driver.waveforms);
    waveform_t *w_next = w_now->next;
 
-   if (likely(w_next != NULL && w_next->when == m->now)) {
+   if (likely(w_next != NULL && waveform_when(w_next) == m->now)) {
       free_value(n, w_now->value);
       *w_now = *w_next;
       free_waveform(m, w_next);
-      source->disconnected = 0;
-      update_driving(m, n, false);
-   }
-   else if (unlikely(w_next != NULL && w_next->when == -m->now)) {
-      // Disconnect source due to null transaction
-      *w_now = *w_next;
-      free_waveform(m, w_next);
-      source->disconnected = 1;
+      source->disconnected = is_null_waveform(w_now);
       update_driving(m, n, false);
    }
 }
@@ -3697,7 +3714,7 @@ static bool nexus_active(rt_model_t *m, rt_nexus_t *nexus)
             }
          }
          else if (s->tag == SOURCE_DRIVER
-                  && s->u.driver.waveforms.when == m->now) {
+                  && waveform_when(&s->u.driver.waveforms) == m->now) {
             if (nexus->active_delta == m->iteration)
                return true;
             else if (nexus->active_delta == m->iteration + 1 && s->was_active)
@@ -3729,8 +3746,8 @@ static uint64_t nexus_last_active(rt_model_t *m, rt_nexus_t *nexus)
             }
          }
          else if (s->tag == SOURCE_DRIVER
-                  && s->u.driver.waveforms.when <= m->now)
-            last = MIN(last, m->now - s->u.driver.waveforms.when);
+                  && waveform_when(&s->u.driver.waveforms) <= m->now)
+            last = MIN(last, m->now - waveform_when(&s->u.driver.waveforms));
       }
    }
 
-- 
2.43.0


From f9640bc4e351bff92d087e629eda90e0e11994ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:23 +0000
Subject: [PATCH 13/21] fix: splitting a signal revived released forces and
 could not split a pending one

---
 src/rt/model.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index be12c8f..f5a9b60 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1500,6 +1500,7 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
                          rt_source_t *old, int offset)
 {
    rt_source_t *new = add_source(m, nexus, old->tag);
+   new->disconnected = old->disconnected;
 
    switch (old->tag) {
    case SOURCE_PORT:
@@ -1561,7 +1562,12 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
    case SOURCE_DEPOSIT:
       split_value(nexus, &(new->u.pseudo.value), &(old->u.pseudo.value),
                   offset);
-      assert(!old->pseudoqueued);   // TODO
+
+      // Pending force, release, or deposit
+      if (old->pseudoqueued) {
+         deltaq_insert_pseudo_source(m, new);
+         new->pseudoqueued = 1;
+      }
       break;
 
    case SOURCE_IMPLICIT:
-- 
2.43.0


From e8a30df8f020e7bbf39eb2c4f61a2366e0f8a4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:49 +0000
Subject: [PATCH 14/21] fix: a delta assignment later deleted still became the
 driver's current value

---
 src/rt/model.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index f5a9b60..90d3479 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2640,8 +2640,11 @@ static void disable_fast_driver(rt_model_t *m, rt_nexus_t *n, rt_source_t *d)
       w0->next  = NULL;
       w0->value = alloc_value(m, n);
 
-      const uint8_t *prev = value_ptr(n, &(d->u.driver.waveforms.value));
-      copy_value_ptr(n, &w0->value, prev);
+      // The fast path overwrote the current value with the pending one:
+      // put it back as the pending transaction might still be deleted
+      rt_value_t *now = &(d->u.driver.waveforms.value);
+      copy_value_ptr(n, &w0->value, value_ptr(n, now));
+      copy_value_ptr(n, now, nexus_effective(n));
 
       assert(d->u.driver.waveforms.next == NULL);
       d->u.driver.waveforms.next = w0;
-- 
2.43.0


From dc63f001a1fcd43e3c5c3dc45211f8ff371aa05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:10 +0000
Subject: [PATCH 15/21] fix: a deposit could override a force, or take effect
 after the release

---
 src/rt/model.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 90d3479..40c7f25 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1992,26 +1992,18 @@ static void calculate_driving_value(rt_model_t *m, rt_nexus_t *n)
    res_memo_t *r = n->signal->resolution;
 
    int nonnull = 0;
-   rt_source_t *s0 = NULL;
+   rt_source_t *s0 = NULL, *forcing = NULL, *deposit = NULL;
    for (rt_source_t *s = &(n->sources); s; s = s->chain_input) {
       if (s->disconnected)
          continue;
       else if (s->tag == SOURCE_FORCING) {
-         // If S is driving-value forced, the driving value of S is
-         // unchanged from its previous value; no further steps are
-         // required.
-         put_driving(m, n, value_ptr(n, &(s->u.pseudo.value)));
-         return;
+         forcing = s;
+         continue;
       }
       else if (s->tag == SOURCE_DEPOSIT) {
-         // If a driving-value deposit is scheduled for S or for a
-         // signal of which S is a subelement, the driving value of S is
-         // the driving deposit value for S or the element of the
-         // driving deposit value for the signal of which S is a
-         // subelement, as appropriate.
-         s->disconnected = 1;
-         put_driving(m, n, value_ptr(n, &(s->u.pseudo.value)));
-         return;
+         s->disconnected = 1;   // Only scheduled for this cycle
+         deposit = s;
+         continue;
       }
       else if (unlikely(s->tag == SOURCE_IMPLICIT)) {
          // At least one of the inputs is active so schedule an update
@@ -2024,7 +2016,21 @@ static void calculate_driving_value(rt_model_t *m, rt_nexus_t *n)
       nonnull++;
    }
 
-   if (unlikely(s0 == NULL)) {
+   if (unlikely(forcing != NULL)) {
+      // If S is driving-value forced, the driving value of S is
+      // unchanged from its previous value; no further steps are
+      // required.
+      put_driving(m, n, value_ptr(n, &(forcing->u.pseudo.value)));
+   }
+   else if (unlikely(deposit != NULL)) {
+      // If a driving-value deposit is scheduled for S or for a signal
+      // of which S is a subelement, the driving value of S is the
+      // driving deposit value for S or the element of the driving
+      // deposit value for the signal of which S is a subelement, as
+      // appropriate.
+      put_driving(m, n, value_ptr(n, &(deposit->u.pseudo.value)));
+   }
+   else if (unlikely(s0 == NULL)) {
       // If S is of signal kind register and all the sources of S have
       // values determined by the null transaction, then the driving
       // value of S is unchanged from its previous value.
-- 
2.43.0


From 7973304337737c0873a8c84f120d3df66a4be692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:41 +0000
Subject: [PATCH 16/21] fix: forcing a signal with an undelayed assignment
 pending changed its driver early

---
 src/rt/model.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rt/model.c b/src/rt/model.c
index 40c7f25..04c0ff4 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -173,6 +173,7 @@ static void async_update_driver(rt_model_t *m, void *arg);
 static void async_fast_driver(rt_model_t *m, void *arg);
 static void async_fast_all_drivers(rt_model_t *m, void *arg);
 static void async_pseudo_source(rt_model_t *m, void *arg);
+static void disable_fast_driver(rt_model_t *m, rt_nexus_t *n, rt_source_t *d);
 static void async_transfer_signal(rt_model_t *m, void *arg);
 static void async_update_implicit_signal(rt_model_t *m, void *arg);
 
@@ -1962,6 +1963,9 @@ static rt_source_t *get_pseudo_source(rt_model_t *m, rt_nexus_t *n,
          if (s->tag == kind)
             return s;
       }
+
+      if (n->sources.tag == SOURCE_DRIVER)
+         disable_fast_driver(m, n, &(n->sources));
    }
 
    return add_source(m, n, kind);
-- 
2.43.0


From 626bf8af854f8c2152fecb01e935cc93bc994340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:04 +0000
Subject: [PATCH 17/21] fix: short Verilog literals with x or z digits lost
 their bits

Shifting a digit into a number of up to 31 bits ignored the digit, and
numbers of 29 to 31 bits did not fit the 56 bits they were packed in.
---
 src/vlog/vlog-number.c | 6 ++----
 src/vlog/vlog-number.h | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/vlog/vlog-number.c b/src/vlog/vlog-number.c
index 0f16ea9..b40fec9 100644
--- a/src/vlog/vlog-number.c
+++ b/src/vlog/vlog-number.c
@@ -59,10 +59,8 @@ static void number_shift_left(number_t *n, unsigned count, uint64_t carry_in)
       }
       break;
    case TAG_SMALLNUM:
-      if (count < n->small.width)
-         n->small.packed <<= count * 2;
-      else
-         n->small.packed = 0;
+      assert(count < SMALLNUM_WIDTH_MAX);
+      n->small.packed = (n->small.packed << (count * 2)) | carry_in;
       break;
    default:
       DEBUG_ONLY(fatal_trace("invalid number tag %x", n->common.tag));
diff --git a/src/vlog/vlog-number.h b/src/vlog/vlog-number.h
index b39ae30..f38c4c1 100644
--- a/src/vlog/vlog-number.h
+++ b/src/vlog/vlog-number.h
@@ -42,7 +42,7 @@ typedef enum {
 
 #define SMALLNUM_PACKED_BITS 56
 #define SMALLNUM_WIDTH_BITS  5
-#define SMALLNUM_WIDTH_MAX  ((1 << SMALLNUM_WIDTH_BITS) - 1)
+#define SMALLNUM_WIDTH_MAX  (SMALLNUM_PACKED_BITS / 2)
 #define SMALLNUM_ENCODE_MAX ((UINT64_C(1) << SMALLNUM_PACKED_BITS/2) - 1)
 
 STATIC_ASSERT(SMALLNUM_ENCODE_MAX <= (UINT64_C(1) << SMALLNUM_WIDTH_MAX) - 1);
-- 
2.43.0


From 096827e146f4e0df6716e02050994aa7e7e4c8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:04 +0000
Subject: [PATCH 18/21] fix: bits of wide Verilog numbers read back from the
 wrong position

number_pack and number_bit disagreed on the layout of numbers whose width
is not a multiple of 32.
---
 src/vlog/vlog-number.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/vlog/vlog-number.c b/src/vlog/vlog-number.c
index b40fec9..391177f 100644
--- a/src/vlog/vlog-number.c
+++ b/src/vlog/vlog-number.c
@@ -360,7 +360,7 @@ vlog_logic_t number_bit(number_t val, unsigned n)
       return ((val.intg.packed >> n) & 1) | LOGIC_0;
    case TAG_BIGNUM:
       assert(n < val.big->width);
-      return (val.big->packed[(val.big->width - n - 1) / 32]
+      return (val.big->packed[BIGNUM_WORDS(val.big->width) - 1 - n / 32]
               >> ((n % 32) * 2)) & 3;
    default:
       DEBUG_ONLY(fatal_trace("invalid number tag %x", val.common.tag));
@@ -414,13 +414,14 @@ number_t number_pack(const uint8_t *bits, unsigned width)
       bn->width = width;
       bn->issigned = 0;
 
-      for (int i = 0; i < nwords; i++) {
+      for (int i = 0; i < nwords; i++)
          bn->packed[i] = BIG_PACKED_ZERO;
 
-         for (int j = 0; j < 32 && i*32 + j < width; j++) {
-            bn->packed[i] <<= 2;
-            bn->packed[i] |= STRIP_STRENGTH(bits[i*32 + j]);
-         }
+      for (int i = 0; i < width; i++) {
+         // The first word holds the most significant bits
+         uint64_t *word = &(bn->packed[nwords - 1 - (width - 1 - i) / 32]);
+         *word <<= 2;
+         *word |= STRIP_STRENGTH(bits[i]);
       }
 
       return (number_t){ .big = bn };
-- 
2.43.0


From 1f96b1567c541fd9a4bf8061016f7abaea386773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:04 +0000
Subject: [PATCH 19/21] fix: compare Verilog numbers of any representation

Comparing two numbers of different or wide representation aborted.
---
 src/vlog/vlog-number.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/vlog/vlog-number.c b/src/vlog/vlog-number.c
index 391177f..9a126dd 100644
--- a/src/vlog/vlog-number.c
+++ b/src/vlog/vlog-number.c
@@ -430,17 +430,17 @@ number_t number_pack(const uint8_t *bits, unsigned width)
 
 bool number_equal(number_t a, number_t b)
 {
-   assert(a.common.tag == b.common.tag);   // TODO
-
-   switch (a.common.tag) {
-   case TAG_INTEGER:
-      return a.intg.packed == b.intg.packed;
-   case TAG_SMALLNUM:
-      return a.small.packed == b.small.packed;
-   default:
-      DEBUG_ONLY(fatal_trace("invalid number tag %x", a.common.tag));
-      return false;
+   const unsigned a_width = number_width(a);
+   const unsigned b_width = number_width(b);
+
+   for (int i = MAX(a_width, b_width) - 1; i >= 0; i--) {
+      const vlog_logic_t a_bit = i < a_width ? number_bit(a, i) : LOGIC_0;
+      const vlog_logic_t b_bit = i < b_width ? number_bit(b, i) : LOGIC_0;
+      if (a_bit != b_bit)
+         return false;
    }
+
+   return true;
 }
 
 void number_write(number_t val, fbuf_t *f)
-- 
2.43.0


From 2465c18f81b1987a86d8dc097ac91ff9a4829bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:32 +0000
Subject: [PATCH 20/21] fix: std_logic_arith "=" on signed operands with a weak
 sign bit

Extending an operand copied the weak value itself so signed'("H1") was
not equal to signed'("111").
---
 src/jit/jit-intrin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jit/jit-intrin.c b/src/jit/jit-intrin.c
index 99eed2a..356a1cc 100644
--- a/src/jit/jit-intrin.c
+++ b/src/jit/jit-intrin.c
@@ -1350,7 +1350,7 @@ static inline const uint8_t *__conv_signed(jit_func_t *func,
    if (unlikely(result[pad] == _X))
       memset(result, _X, size);
    else
-      memset(result, *(uint8_t *)input, pad);
+      memset(result, result[pad], pad);
 
    return result;
 }
-- 
2.43.0


From bcba751725912d9f247c2c18ed94df56ae15a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:11 +0000
Subject: [PATCH 21/21] fix: std_logic_arith operators read uninitialised
 storage for a null operand

The result depended on whatever the temporary storage held before; now the
error of the VHDL definition is raised.
---
 src/jit/jit-intrin.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/jit/jit-intrin.c b/src/jit/jit-intrin.c
index 356a1cc..4970f02 100644
--- a/src/jit/jit-intrin.c
+++ b/src/jit/jit-intrin.c
@@ -1366,7 +1366,7 @@ static void synopsys_plus_unsigned(jit_func_t *func, jit_anchor_t *anchor,
    const int length = MAX(lsize, rsize);
    uint8_t *result = __tlab_alloc(tlab, length, 8);
 
-   if (unlikely(length == 0))
+   if (unlikely(lsize == 0 || rsize == 0))
       __synopsys_failure(func, anchor, args, tlab);
 
    left = __conv_unsigned(func, anchor, tlab, left, lsize, length);
@@ -1393,7 +1393,7 @@ static void synopsys_plus_signed(jit_func_t *func, jit_anchor_t *anchor,
    const int length = MAX(lsize, rsize);
    uint8_t *result = __tlab_alloc(tlab, length, 8);
 
-   if (unlikely(length == 0))
+   if (unlikely(lsize == 0 || rsize == 0))
       __synopsys_failure(func, anchor, args, tlab);
 
    left = __conv_signed(func, anchor, tlab, left, lsize, length);
@@ -1412,6 +1412,9 @@ static void synopsys_plus_signed(jit_func_t *func, jit_anchor_t *anchor,
 static void synopsys_plus_unsigned_logic(jit_func_t *func, jit_anchor_t *anchor,
                                          jit_scalar_t *args, tlab_t *tlab)
 {
+   if (unlikely(ffi_array_length(args[3].integer) == 0))
+      __synopsys_failure(func, anchor, args, tlab);
+
    uint8_t right[] = { args[4].integer };
    args[4].pointer = right;
    args[5].integer = 0;
@@ -1423,6 +1426,9 @@ static void synopsys_plus_unsigned_logic(jit_func_t *func, jit_anchor_t *anchor,
 static void synopsys_plus_logic_unsigned(jit_func_t *func, jit_anchor_t *anchor,
                                          jit_scalar_t *args, tlab_t *tlab)
 {
+   if (unlikely(ffi_array_length(args[4].integer) == 0))
+      __synopsys_failure(func, anchor, args, tlab);
+
    uint8_t left[] = { args[1].integer };
    args[6].integer = args[4].integer;
    args[5].integer = args[3].integer;
@@ -1445,7 +1451,7 @@ static void synopsys_minus_unsigned(jit_func_t *func, jit_anchor_t *anchor,
    const int length = MAX(lsize, rsize);
    uint8_t *result = __tlab_alloc(tlab, length, 8);
 
-   if (unlikely(length == 0))
+   if (unlikely(lsize == 0 || rsize == 0))
       __synopsys_failure(func, anchor, args, tlab);
 
    left = __conv_unsigned(func, anchor, tlab, left, lsize, length);
@@ -1568,7 +1574,7 @@ static void synopsys_eql_unsigned(jit_func_t *func, jit_anchor_t *anchor,
 
    const int length = MAX(lsize, rsize);
 
-   if (unlikely(length == 0))
+   if (unlikely(lsize == 0 || rsize == 0))
       __synopsys_failure(func, anchor, args, tlab);
 
    const uint32_t mark = __tlab_mark(tlab);
@@ -1591,7 +1597,7 @@ static void synopsys_eql_signed(jit_func_t *func, jit_anchor_t *anchor,
 
    const int length = MAX(lsize, rsize);
 
-   if (unlikely(length == 0))
+   if (unlikely(lsize == 0 || rsize == 0))
       __synopsys_failure(func, anchor, args, tlab);
 
    const uint32_t mark = __tlab_mark(tlab);
-- 
2.43.0

