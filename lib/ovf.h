// CBMC 6.11 converts the operands of the generic overflow builtins to the
// type of the result before checking (so 200 + 56 into int8_t "fits"); the
// documented meaning (exact result, then converted) is spelled out instead.
// Operands of at most 64 bits.
#ifndef OVF_H
#define OVF_H
#ifdef VP_CBMC
#define VP_OVF(op, a, b, p) \
   ({ const __int128 __x = (__int128)(a) op (__int128)(b); *(p) = __x; (__int128)*(p) != __x; })
#define __builtin_add_overflow(a, b, p) VP_OVF(+, a, b, p)
#define __builtin_sub_overflow(a, b, p) VP_OVF(-, a, b, p)
#define __builtin_mul_overflow(a, b, p) VP_OVF(*, a, b, p)
#endif
#endif
