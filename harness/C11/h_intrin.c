// Contracts of the native implementations of library operators, on the text
// of src/jit/jit-intrin.c.  The specifications below follow the bodies of
// ieee.numeric_std, ieee.std_logic_1164 and std_logic_arith.
#include "vp.h"
#include "util.h"
#include "ident.h"
#include "jit/jit-priv.h"
#include "jit/jit.h"
#include "option.h"
#include "thread.h"

#ifndef L
#define L 8
#endif
#ifndef R
#define R L
#endif

#if defined RESIZE
#define MAXN (L + RESIZE + 1)
#elif defined MUL
#define MAXN (L + R + 1)
#elif defined TO_NUM
#define MAXN (L + 64)
#else
#define MAXN ((L > R ? L : R) + 1)
#endif

// Temporary storage: each block is a separate object, so that every access
// outside a block is seen
void *mspace_alloc(mspace_t *m, size_t size)
{
   return malloc(size == 0 ? 1 : size);
}

// Warnings are allowed; failures are recorded
static unsigned env_failures;
int opt_get_int(opt_name_t n) { return 0; }

#if !VP_NATIVE
// Lengths may be symbolic, contents are moved a byte at a time
#define MOVEMAX (MAXN + L + R + SLACK)
static void *env_memset(void *d, int c, size_t n)
{
   ENSURES(n <= MOVEMAX, "block size");
   for (size_t i = 0; i < MOVEMAX; i++)
      if (i < n)
         ((uint8_t *)d)[i] = c;
   return d;
}
static void *env_memmove(void *d, const void *s, size_t n)
{
   uint8_t tmp[MOVEMAX];
   ENSURES(n <= MOVEMAX, "block size");
   for (size_t i = 0; i < MOVEMAX; i++)
      if (i < n)
         tmp[i] = ((const uint8_t *)s)[i];
   for (size_t i = 0; i < MOVEMAX; i++)
      if (i < n)
         ((uint8_t *)d)[i] = tmp[i];
   return d;
}
#define memset env_memset
#define memmove env_memmove
#endif

#include "jit/jit-intrin.c"
#undef memset
#undef memmove


typedef struct { int n; uint8_t b[MAXN]; } vec_t;

static uint8_t ULOGIC(void) { return IN_RANGE(0, 8); }

static bool is_x(uint8_t b) { return b != 2 && b != 3 && b != 6 && b != 7; }
static uint8_t x01(uint8_t b) { return is_x(b) ? 1 : (b & 1) ? 3 : 2; }

// All elements 0 or 1, or all of them xmap if any is neither
static vec_t spec_to_01(vec_t v, uint8_t xmap)
{
   bool bad = false;
   for (int i = 0; i < v.n; i++)
      bad |= is_x(v.b[i]);
   for (int i = 0; i < v.n; i++)
      v.b[i] = bad ? xmap : x01(v.b[i]);
   return v;
}

static vec_t spec_resize(vec_t v, int n, bool sgn)
{
   vec_t r = { n };
   for (int i = 0; i < n; i++) {
      // i counts from the right
      int from = v.n - 1 - i;
      uint8_t b = from >= 0 ? v.b[from] : sgn && v.n > 0 ? v.b[0] : 2;
      if (sgn && i == n - 1 && v.n > 0)
         b = v.b[0];
      r.b[n - 1 - i] = b;
   }
   return r;
}

static bool any_x(vec_t v)
{
   bool x = false;
   for (int i = 0; i < v.n; i++)
      x |= is_x(v.b[i]);
   return x;
}

static uint64_t value(vec_t v)
{
   uint64_t r = 0;
   for (int i = 0; i < v.n; i++)
      r = (r << 1) | (v.b[i] & 1);
   return r;
}

static int64_t svalue(vec_t v)
{
   return (int64_t)(value(v) << (64 - v.n)) >> (64 - v.n);
}

static vec_t spec_all(int n, uint8_t b)
{
   vec_t r = { n };
   for (int i = 0; i < n; i++)
      r.b[i] = b;
   return r;
}

static vec_t spec_vector(uint64_t v, int n)
{
   vec_t r = { n };
   for (int i = 0; i < n; i++)
      r.b[n - 1 - i] = i < 64 && ((v >> i) & 1) ? 3 : 2;
   return r;
}

// Sum of two vectors of equal length by columns
static vec_t spec_add(vec_t a, vec_t b, bool minus)
{
   vec_t r = { a.n };
   int carry = minus;
   for (int i = a.n - 1; i >= 0; i--) {
      int s = (a.b[i] & 1) + ((b.b[i] & 1) ^ minus) + carry;
      r.b[i] = 2 | (s & 1);
      carry = s >> 1;
   }
   return r;
}

static uint8_t lmem[L + SLACK + !(L + SLACK)], rmem[R + SLACK + !(R + SLACK)];
static vec_t in_vec(uint8_t **p, int n, uint8_t *mem)
{
   vec_t v = { n };
   for (int i = 0; i < n; i++)
      v.b[i] = mem[i] = ULOGIC();
   for (int i = 0; i < SLACK; i++)
      mem[n + i] = IN_U8();   // Anything may follow a vector
   *p = mem;
   return v;
}

static jit_scalar_t args[8];

static void set_arg(int nth, uint8_t *p, int n, bool to)
{
   args[nth].pointer = p;
   args[nth + 1].integer = to ? 0 : n - 1;
   args[nth + 2].integer = to ? n : ~(int64_t)n;
}

static void check_result(vec_t want)
{
   int64_t len = args[2].integer ^ (args[2].integer >> 63);
   ENSURES(len == want.n, "the result has its length");
#ifdef ASCENDING
   ENSURES(args[2].integer >= 0 && args[1].integer == 1, "the result has the bounds of the definition");
#else
   ENSURES(args[2].integer < 0, "the result has the direction of the definition");
   if (want.n > 0)
      ENSURES(args[1].integer == want.n - 1, "the result has the bounds of the definition");
#endif
   const uint8_t *got = args[0].pointer;
   for (int i = 0; i < want.n; i++)
      ENSURES(got[i] == want.b[i], "the result is that of the definition");
}

static void check_unchanged(const uint8_t *p, vec_t v)
{
   for (int i = 0; i < v.n; i++)
      ENSURES(p[i] == v.b[i], "the operands are not changed");
}

static union { tlab_t t; uint8_t room[sizeof(tlab_t) + TLAB]; } env_tlab;

void harness(void)
{
   uint8_t *pl, *pr;
   tlab_t *tlab = &env_tlab.t;
   tlab->limit = TLAB;

   vec_t l = in_vec(&pl, L, lmem);
#ifndef UNARY
   vec_t r = in_vec(&pr, R, rmem);
   set_arg(1, pl, L, LTO);
   set_arg(4, pr, R, RTO);
#else
   set_arg(1, pl, L, LTO);
#endif

   vec_t want = {};
   const int n = L > R ? L : R;

#if defined ADD    // numeric_std + and -
   {
      vec_t a = spec_to_01(spec_resize(l, n, SIGNED), 1);
      vec_t b = spec_to_01(spec_resize(r, n, SIGNED), 1);
      if (L == 0 || R == 0)
         want.n = 0;
      else if (any_x(a) || any_x(b))
         want = spec_all(n, 1);
      else
         want = spec_add(a, b, ADD < 0);
   }
#elif defined MUL
   {
      vec_t a = spec_to_01(l, 1), b = spec_to_01(r, 1);
      if (L == 0 || R == 0)
         want.n = 0;
      else if (any_x(a) || any_x(b))
         want = spec_all(L + R, 1);
      else if (SIGNED)
         want = spec_vector(svalue(a) * svalue(b), L + R);
      else
         want = spec_vector(value(a) * value(b), L + R);
   }
#elif defined CMP
   bool truth = false;
   {
      vec_t a = spec_to_01(l, 1), b = spec_to_01(r, 1);
      if (L == 0 || R == 0 || any_x(a) || any_x(b))
         truth = false;
      else {
         a = spec_resize(a, n, false);
         b = spec_resize(b, n, false);
         truth = value(a) CMP value(b);
      }
   }
#elif defined SYNCMP
   bool truth = true;
   {
      vec_t a = spec_resize(spec_to_01(l, 1), n, SIGNED);
      vec_t b = spec_resize(spec_to_01(r, 1), n, SIGNED);
      if (any_x(l)) a = spec_all(n, 1);
      if (any_x(r)) b = spec_all(n, 1);
      for (int i = 0; i < n; i++)
         truth &= a.b[i] == b.b[i];
   }
#elif defined BYTECMP
   bool truth = L == R;
   for (int i = 0; i < L && i < R; i++)
      truth &= l.b[i] == r.b[i];
#elif defined LOGIC
   want.n = L;
   for (int i = 0; i < L; i++) {
      uint8_t a = l.b[i], b = r.b[i], x = x01(a), y = x01(b);
#define DOM(d) (x == d || y == d)
      if (LOGIC == 1)
         want.b[i] = DOM(2) ? 2 : (a == 0 || b == 0) ? 0 : DOM(1) ? 1 : 3;
      else if (LOGIC == 2)
         want.b[i] = DOM(3) ? 3 : (a == 0 || b == 0) ? 0 : DOM(1) ? 1 : 2;
      else
         want.b[i] = (a == 0 || b == 0) ? 0 : DOM(1) ? 1 : x == y ? 2 : 3;
   }
#elif defined TO_X01
   want.n = L;
   for (int i = 0; i < L; i++)
      want.b[i] = x01(l.b[i]);
#elif defined TO_01
   const uint8_t xmap = ULOGIC();
   args[4].integer = xmap;
   want = spec_to_01(l, xmap);
#elif defined RESIZE
   args[4].integer = RESIZE;
   want = spec_resize(l, RESIZE, SIGNED);
#elif defined ADDNAT   // unsigned + natural
   const uint32_t nat = IN_RANGE(0, INT32_MAX);
   args[4].integer = nat;
   {
      vec_t a = spec_to_01(l, 1);
      if (any_x(a))
         want = spec_all(L, 1);
      else
         want = spec_add(a, spec_vector(nat, L), false);
   }
#if ADDNAT == 2
   args[1].integer = nat;
   set_arg(2, pl, L, LTO);
#endif
#elif defined TO_NUM
   const int64_t arg = SIGNED ? (int64_t)IN_I32() : (int64_t)IN_RANGE(0, INT32_MAX);
   args[1].integer = arg;
   args[2].integer = L;
   want = SIGNED && L > 64 ? spec_resize(spec_vector(arg, 64), L, true) : spec_vector(arg, L);
#elif defined SYNADD   // std_logic_arith
   {
      vec_t a = spec_resize(spec_to_01(l, 1), n, SIGNED);
      vec_t b = spec_resize(spec_to_01(r, 1), n, SIGNED);
      if (any_x(l) || any_x(r))
         want = spec_all(n, 1);
      else
         want = spec_add(a, b, SYNADD < 0);
   }
#elif defined SYNLOGIC  // unsigned + logic
   {
      uint8_t bit = ULOGIC();
      vec_t b = { 1, { bit } };
      if (any_x(l) || is_x(bit))
         want = spec_all(L, 1);
      else
         want = spec_add(spec_to_01(l, 1), spec_resize(spec_to_01(b, 1), L, false), false);
#if SYNLOGIC == 1
      args[4].integer = bit;
#else
      args[1].integer = bit;
      set_arg(2, pl, L, LTO);
#endif
   }
#elif defined SHRINK
   // Removing characters at the front or end of a line
   ffi_uarray_t line = { .ptr = pl, .dims = { { .left = 1, .length = L } } }, *lp = &line;
   const int nc = IN_RANGE(0, L);
   args[2].pointer = &lp;
   args[3].integer = nc;
#endif

   FUNC(NULL, NULL, args, tlab);

#if defined CMP || defined SYNCMP || defined BYTECMP
   ENSURES(args[0].integer == truth, "the comparison is that of the definition");
#elif defined SHRINK
   ENSURES(args[0].pointer == NULL, "no result state");
   ENSURES(line.dims[0].left == 1, "the line starts at one");
   ENSURES(line.dims[0].length == (SHRINK ? nc : L - nc), "the line has the remaining length");
   ENSURES(line.ptr == (SHRINK ? pl : pl + nc), "the remaining characters are kept");
#else
   check_result(want);
#endif
   check_unchanged(pl, l);
#ifndef UNARY
   check_unchanged(pr, r);
#endif
   REACH("end");
}
