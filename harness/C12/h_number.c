// Contracts of the four-state number representation, on the text of
// src/vlog/vlog-number.c
#include "vp.h"
#include "fbuf.h"
#include "util.h"
#include "vlog/vlog-number.h"

#define MAXW 140
#ifndef WIDTH
#define WIDTH 8
#endif
#ifndef WIDTH2
#define WIDTH2 WIDTH
#endif
#ifndef NDIG
#define NDIG WIDTH
#endif
#ifndef XZ
#define XZ 0
#endif

#if VP_NATIVE
#include <stdio.h>
#define OPTIONAL_STRTOLL
#else
// C library contract: optional sign is never present in the texts used here
static int digit_of(char c)
{
   if (c >= '0' && c <= '9') return c - '0';
   else if (c >= 'a' && c <= 'f') return c - 'a' + 10;
   else if (c >= 'A' && c <= 'F') return c - 'A' + 10;
   return 99;
}

static long long env_strtoll(const char *s, char **end, int base)
{
   uint64_t v = 0;
   const char *p = s;
   while (digit_of(*p) < base)
      v = v * base + digit_of(*p++);
   *end = (char *)p;
   return v;
}
#define strtoll env_strtoll
#define strtol env_strtoll
static char *env_strchr(const char *s, int c)
{
   for (; *s; s++)
      if (*s == c) return (char *)s;
   return NULL;
}
#define strchr env_strchr
#endif

static unsigned env_errors;
static void env_errorf(void) { env_errors++; }
#define errorf(...) env_errorf()

// File: an unbounded sequence of values, read back in the order written
static uint64_t file_words[20];
static unsigned file_wr, file_rd;

static void env_put_word(uint64_t v)
{
   ENSURES(file_wr < 20, "file space");
   file_words[file_wr++] = v;
}

static uint64_t env_get_word(void)
{
   ENSURES(file_rd < file_wr, "reads no more than was written");
   return file_words[file_rd++];
}

#define fbuf_put_uint(f, v) env_put_word(v)
#define fbuf_put_int(f, v)  env_put_word((uint64_t)(int64_t)(v))
#define fbuf_get_uint(f)    env_get_word()
#define fbuf_get_int(f)     ((int64_t)env_get_word())
#define write_raw(p, n, f)  env_write_raw((p), (n))
#define read_raw(p, n, f)   env_read_raw((p), (n))

static void env_write_raw(const uint64_t *p, size_t n)
{
   ENSURES(n % 8 == 0, "whole words");
   for (int i = 0; i < n / 8; i++)
      env_put_word(p[i]);
}

static void env_read_raw(uint64_t *p, size_t n)
{
   ENSURES(n % 8 == 0, "whole words");
   for (int i = 0; i < n / 8; i++)
      p[i] = env_get_word();
}

// Each representation is taken separately: the tag read is the one expected
// for this unit (if the code chooses another one the unit is undecided)
#ifdef EXPECT
static inline unsigned env_tag(unsigned tag)
{
   ASSUME(tag == EXPECT);
   return EXPECT;
}
#else
#define env_tag(tag) (tag)
#endif

// Separate objects of exactly the size asked for
#if !VP_NATIVE
#ifndef NTEXT
#define NTEXT 1
#endif
static struct { unsigned w; bool s; uint64_t p[(WIDTH + 31) / 32]; } pool1;
static struct { unsigned w; bool s; uint64_t p[(WIDTH2 + 31) / 32]; } pool2;
static unsigned pool_next;   // Numbers of literals are not released
static void *env_alloc_flex(size_t head, size_t n, size_t each)
{
   if (pool_next == 0 && head + n * each == sizeof(pool1)) {
      pool_next++;
      return &pool1;
   }
   else if (pool_next == 1 && head + n * each == sizeof(pool2)) {
      pool_next++;
      return &pool2;
   }
   else
      return malloc(head + n * each);
}
static char *env_xstrdup(const char *s)
{
   char *d = malloc(MAXW + 20);
   int i = 0;
   for (; s[i]; i++)
      d[i] = s[i];
   d[i] = '\0';
   return d;
}
#define xstrdup(s) env_xstrdup(s)
#define xmalloc_flex(h, n, e) env_alloc_flex((h), (n), (e))
#endif

#include "vlog/vlog-number.c"


// The number the text or vector denotes: element i is bit i
typedef struct { unsigned width; uint8_t bit[MAXW]; } spec_t;

static bool spec_defined(const spec_t *s)
{
   bool d = true;
   for (int i = 0; i < s->width; i++)
      d &= (s->bit[i] == LOGIC_0 || s->bit[i] == LOGIC_1);
   return d;
}

static uint64_t spec_value(const spec_t *s)
{
   uint64_t v = 0;
   for (int i = 0; i < s->width && i < 64; i++)
      v |= (uint64_t)(s->bit[i] & 1) << i;
   return v;
}

static bool spec_equal(const spec_t *a, const spec_t *b)
{
   bool eq = true;
   for (int i = 0; i < a->width || i < b->width; i++) {
      uint8_t l = i < a->width ? a->bit[i] : LOGIC_0;
      uint8_t r = i < b->width ? b->bit[i] : LOGIC_0;
      eq &= l == r;
   }
   return eq;
}

// All observers of a number agree with what it denotes
static void check_number(number_t n, const spec_t *s)
{
   ENSURES(number_width(n) == s->width, "the number has its width");
   for (int i = 0; i < s->width; i++)
      ENSURES(number_bit(n, i) == s->bit[i], "every bit reads back");
   bool def = number_is_defined(n);
   ENSURES(def == spec_defined(s), "a number is defined if no bit is x or z");
   if (s->width <= 64 && spec_defined(s))
      ENSURES((uint64_t)number_integer(n) == spec_value(s), "the integer value is that of the bits");
}

static number_t make(spec_t *s, unsigned width, int xz)
{
   static uint8_t in[2][MAXW];
   static int which;
   uint8_t *bits = in[which++];
   s->width = width;
   for (int i = 0; i < width; i++) {
      uint8_t b = IN_U8();
      if (!xz)
         b |= 2;     // Defined bits only, any drive strength
      else if (i == XZ - 1)
         b &= ~2;    // This one is x or z, the others anything
      bits[i] = b;
      s->bit[width - 1 - i] = b & 3;
   }
   return number_pack(bits, width);
}

#if OP == 2 || OP == 3 || OP == 5
#ifdef SYM
#define digit(t, i, lo, hi) IN_RANGE(lo, hi)
#else
// Fixed texts: all zeros, all the greatest digit, then mixed ones
static uint32_t mix = 12345;
static unsigned digit(int t, int i, unsigned lo, unsigned hi)
{
   mix = mix * 1103515245 + 12345;
   return t == 0 ? lo : t == 1 ? hi : t == 2 ? (i & 1 ? lo : hi) : lo + (mix >> 16) % (hi - lo + 1);
}
#endif
#ifndef NTEXT
#define NTEXT 1
#endif

static void check_literal(int t)
{
   spec_t a = {};
   number_t na;
   // A literal of NDIG digits (and underscores) for WIDTH bits
   char text[MAXW + 20] = LITERAL_PREFIX;
   unsigned pos = sizeof(LITERAL_PREFIX) - 1;
   uint8_t rev[MAXW];
   unsigned nbits = 0;
   uint64_t dec = 0;
   for (int i = 0; i < NDIG; i++) {
#ifdef UNDERSCORE
      if (i == UNDERSCORE)
         text[pos++] = '_';
#endif
#if OP == 2
      uint8_t d = digit(t, i, 0, XZ ? 3 : 1);
      if (i == XZ - 1) d |= 2;
      text[pos++] = d == 0 ? '0' : d == 1 ? '1' : d == 2 ? 'x' : 'z';
      rev[nbits++] = d == 0 ? LOGIC_0 : d == 1 ? LOGIC_1 : d == 2 ? LOGIC_X : LOGIC_Z;
#elif OP == 3
      uint8_t d = digit(t, i, 0, XZ ? 17 : 15);
      if (i == XZ - 1) d = 16 + (d & 1);
      text[pos++] = d < 10 ? '0' + d : d < 16 ? 'a' + d - 10 : d == 16 ? 'x' : 'z';
      for (int j = 3; j >= 0; j--)
         rev[nbits++] = d == 16 ? LOGIC_X : d == 17 ? LOGIC_Z : ((d >> j) & 1) ? LOGIC_1 : LOGIC_0;
#else
      uint8_t d = digit(t, i, 0, 9);
      text[pos++] = '0' + d;
      dec = dec * 10 + d;
#endif
   }
   text[pos] = '\0';
#if OP == 5
   for (int i = 0; i < WIDTH; i++)
      rev[WIDTH - 1 - i] = ((dec >> i) & 1) ? LOGIC_1 : LOGIC_0;
   nbits = WIDTH;
#ifdef FITS
   ASSUME(dec >> WIDTH == 0);
#endif
#endif
   a.width = WIDTH;
   for (int i = 0; i < WIDTH; i++)
      a.bit[i] = i < nbits ? rev[nbits - 1 - i] : LOGIC_0;
   na = number_new(text);
   ENSURES(env_errors == 0, "a well formed literal is accepted");
   check_number(na, &a);
}
#endif

void harness(void)
{
   static spec_t a, b;
   number_t na, nb;

#if OP == 0
   na = make(&a, WIDTH, XZ);
   check_number(na, &a);
#elif OP == 1
   na = make(&a, WIDTH, XZ);
   nb = make(&b, WIDTH2, XZ2);
   bool eq = number_equal(na, nb);
   ENSURES(eq == spec_equal(&a, &b), "numbers are equal if their bits are, the shorter extended with zeros");
#ifdef EXPECT
   eq = number_equal(na, na);
   ENSURES(eq, "a number equals itself");
#endif
#elif OP == 6
   // Shifting digits in at the right, for all contents
   na = make(&a, WIDTH, XZ);
   uint8_t c = IN_RANGE(0, NDIG == 1 ? 3 : 255);
   number_shift_left(&na, NDIG, c);
   b.width = WIDTH;
   for (int i = 0; i < WIDTH; i++)
      b.bit[i] = i < NDIG ? (c >> (2 * i)) & 3 : a.bit[i - NDIG];
   ENSURES(number_width(na) == WIDTH, "shifting keeps the width");
   for (int i = 0; i < WIDTH; i++)
      ENSURES(number_bit(na, i) == b.bit[i], "shifting moves every bit and puts the digit at the right");
#elif OP == 2 || OP == 3 || OP == 5
   for (int t = 0; t < NTEXT; t++)
      check_literal(t);
#elif OP == 4
   na = make(&a, WIDTH, XZ);
   number_write(na, NULL);
   nb = number_read(NULL);
   ENSURES(file_rd == file_wr, "everything written is read");
   check_number(nb, &a);
   bool eq = number_equal(na, nb);
   ENSURES(eq, "a number read back equals the one written");
#endif
   REACH("end");
}
