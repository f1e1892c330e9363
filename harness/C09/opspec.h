// Arithmetic meaning of each bytecode operation.
#ifndef OPSPEC_H
#define OPSPEC_H
typedef struct { int64_t r; bool f; bool defined; bool anyr; } outcome_t;

static int64_t sext(int64_t v, int sz)
{
   switch (sz) {
   case JIT_SZ_8:  return (int64_t)((uint64_t)v << 56) >> 56;
   case JIT_SZ_16: return (int64_t)((uint64_t)v << 48) >> 48;
   case JIT_SZ_32: return (int64_t)((uint64_t)v << 32) >> 32;
   default: return v;
   }
}

static int64_t zext(int64_t v, int sz)
{
   switch (sz) {
   case JIT_SZ_8:  return v & 0xff;
   case JIT_SZ_16: return v & 0xffff;
   case JIT_SZ_32: return v & 0xffffffff;
   default: return v;
   }
}

static double bits2d(int64_t v) { jit_scalar_t s; s.integer = v; return s.real; }
static int64_t d2bits(double d) { jit_scalar_t s; s.real = d; return s.integer; }

static bool compare(int cc, int64_t a, int64_t b)
{
   switch (cc) {
   case JIT_CC_EQ: return a == b;
   case JIT_CC_NE: return !(a == b);
   case JIT_CC_LT: return b > a;
   case JIT_CC_GT: return a > b;
   case JIT_CC_LE: return !(a > b);
   case JIT_CC_GE: return !(b > a);
   }
   return false;
}

static bool fcompare(int cc, double a, double b)
{
   switch (cc) {
   case JIT_CC_EQ: return a == b;
   case JIT_CC_NE: return !(a == b);
   case JIT_CC_LT: return b > a;
   case JIT_CC_GT: return a > b;
   case JIT_CC_LE: return b >= a;
   case JIT_CC_GE: return a >= b;
   }
   return false;
}

#define FITS(lo, x, hi) ((x) >= (lo) && (x) <= (hi))
static bool fits_signed(__int128 x, int sz)
{
   switch (sz) {
   case JIT_SZ_8:  return FITS(INT8_MIN, x, INT8_MAX);
   case JIT_SZ_16: return FITS(INT16_MIN, x, INT16_MAX);
   case JIT_SZ_32: return FITS(INT32_MIN, x, INT32_MAX);
   default:        return FITS(INT64_MIN, x, INT64_MAX);
   }
}
static bool fits_unsigned(__int128 x, int sz)
{
   switch (sz) {
   case JIT_SZ_8:  return FITS(0, x, UINT8_MAX);
   case JIT_SZ_16: return FITS(0, x, UINT16_MAX);
   case JIT_SZ_32: return FITS(0, x, UINT32_MAX);
   default:        return x >= 0 && (x >> 64) == 0;
   }
}

#ifdef MINDIV
// The recorded known finding: quotient not representable, remainder zero
#define MINOK(a, b) true
#define DIVOP(a, b) (o.anyr = true, 0)
#define REMOP(a, b) 0
#else
#define MINOK(a, b) (!((a) == INT64_MIN && (b) == -1))
#define DIVOP(a, b) ((a) / (b))
#define REMOP(a, b) ((a) - ((a) / (b)) * (b))
#endif

static outcome_t spec(int op, int sz, int cc, int64_t a, int64_t b, int64_t oldr, bool f)
{
   outcome_t o = { .r = oldr, .f = f, .defined = true };
   switch (op) {
   case J_AND: o.r = ~(~a | ~b); break;
   case J_OR:  o.r = ~(~a & ~b); break;
   case J_XOR: o.r = (a | b) & ~(a & b); break;
   case J_NOT: o.r = a == 0; break;
   case J_NEG: o.r = (int64_t)(UINT64_C(0) - (uint64_t)a); break;
   case J_MOV: o.r = a; break;
   case J_CLAMP: o.r = a > 0 ? a : 0; break;
   case J_CSET: o.r = f ? 1 : 0; break;
   case J_CSEL: o.r = f ? a : b; break;
   case J_SHL: o.r = (int64_t)((uint64_t)a << (b & 63)); o.defined = b >= 0 && b < 64; break;
   case J_ASR: o.r = a < 0 ? ~(~(uint64_t)a >> (b & 63)) : (uint64_t)a >> (b & 63);
      o.defined = b >= 0 && b < 64; break;
   case J_CMP: o.f = compare(cc, a, b); break;
   case J_CCMP: o.f = f && compare(cc, a, b); break;
   case J_FCMP: o.f = fcompare(cc, bits2d(a), bits2d(b)); break;
   case J_FCCMP: o.f = f && fcompare(cc, bits2d(a), bits2d(b)); break;
   case J_FADD: o.r = d2bits(bits2d(a) + bits2d(b)); break;
   case J_FSUB: o.r = d2bits(bits2d(a) - bits2d(b)); break;
   case J_FMUL: o.r = d2bits(bits2d(a) * bits2d(b)); break;
   case J_FDIV: o.r = d2bits(bits2d(a) / bits2d(b)); break;
   case J_FNEG: o.r = a ^ INT64_MIN; break;
   case J_SCVTF: o.r = d2bits((double)a); break;
   case J_DEBUG: case J_NOP: break;
   case J_DIV: o.defined = b != 0 && MINOK(a, b); if (o.defined) o.r = DIVOP(a, b); break;
   case J_REM: o.defined = b != 0 && MINOK(a, b); if (o.defined) o.r = REMOP(a, b); break;
#ifdef EXPTYPE
   case MACRO_EXP:
      {
         // a ** b for b >= 0; the result is only meaningful without overflow
         const EXPACC x = (EXPTYPE)a;
         o.defined = b >= 0;
         o.f = false;
         if (b == 0) o.r = 1;
         else if (x == 0 || x == 1) o.r = x;
         else if (x == -1) o.r = b & 1 ? -1 : 1;
         else if (b >= EXPBITS) { o.f = true; o.anyr = true; }
         else {
            EXPACC p = 1;
            for (int i = 0; i < EXPBITS; i++) {
               if (i < b && !o.f) {
                  p *= x;
                  if (p != (EXPTYPE)p) o.f = o.anyr = true;
               }
            }
            o.r = p;
         }
      }
      break;
#endif
   case J_FCVTNS:
      {
         // Nearest integer, ties away from zero: compare the fraction exactly
         const double x = bits2d(a);
         o.defined = x > -9.2233720368547738e18 && x < 9.2233720368547738e18;
         if (o.defined) {
            const int64_t t = (int64_t)x;
            const double frac = x - (double)t;   // exact
            o.r = frac >= 0.5 ? t + 1 : frac <= -0.5 ? t - 1 : t;
         }
      }
      break;
#ifdef MULTYPE
   case J_MUL:
      {
         // Product in twice the width
         const MULTYPE x = (MULTYPE)(HALFTYPE)a * (MULTYPE)(HALFTYPE)b;
         o.r = (HALFTYPE)x;
         o.f = x != (MULTYPE)(HALFTYPE)x;
      }
      break;
#endif
   case J_ADD: case J_SUB:
#ifndef MULTYPE
   case J_MUL:
#endif
      {
         if (cc == JIT_CC_O) {
            a = sext(a, sz); b = sext(b, sz);
            const __int128 x = op == J_ADD ? (__int128)a + b : op == J_SUB ? (__int128)a - b : (__int128)a * b;
            o.r = sext((int64_t)(uint64_t)x, sz);
            o.f = !fits_signed(x, sz);
         }
         else if (cc == JIT_CC_C) {
            const uint64_t ua = zext(a, sz), ub = zext(b, sz);
            const unsigned __int128 x = op == J_MUL ? (unsigned __int128)ua * ub
               : op == J_ADD ? (unsigned __int128)ua + ub : (unsigned __int128)ua - ub;
            o.r = zext((uint64_t)x, sz);
            o.f = op == J_SUB ? ua < ub : sz == JIT_SZ_64 ? (x >> 64) != 0 : x != (uint64_t)o.r;
         }
         else {
            const uint64_t ua = a, ub = b;
            o.r = op == J_ADD ? ua + ub : op == J_SUB ? ua - ub : a * b;
         }
      }
      break;
   }
   return o;
}
#endif
