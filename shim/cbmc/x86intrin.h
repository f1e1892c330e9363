// Definitions of the vector instructions used by nvc, for the verifier only
// (trusted; the native replay uses the real ones).  A load or store touches
// all its bytes, so the verifier checks they are inside the object.
#ifndef VP_X86INTRIN_H
#define VP_X86INTRIN_H
#include <stdint.h>
#include <string.h>
typedef struct { uint8_t b[16]; } __m128i;
static inline __m128i _mm_loadu_si128(const __m128i *p)
{
   __m128i r;
   for (int i = 0; i < 16; i++) r.b[i] = ((const uint8_t *)p)[i];
   return r;
}
#define _mm_load_si128 _mm_loadu_si128
static inline void _mm_storeu_si128(__m128i *p, __m128i v)
{
   for (int i = 0; i < 16; i++) ((uint8_t *)p)[i] = v.b[i];
}
#define _mm_store_si128 _mm_storeu_si128
static inline __m128i _mm_set1_epi8(char c)
{
   __m128i r;
   for (int i = 0; i < 16; i++) r.b[i] = (uint8_t)c;
   return r;
}
static inline __m128i _mm_xor_si128(__m128i a, __m128i b)
{
   for (int i = 0; i < 16; i++) a.b[i] ^= b.b[i];
   return a;
}
static inline __m128i _mm_or_si128(__m128i a, __m128i b)
{
   for (int i = 0; i < 16; i++) a.b[i] |= b.b[i];
   return a;
}
static inline __m128i _mm_and_si128(__m128i a, __m128i b)
{
   for (int i = 0; i < 16; i++) a.b[i] &= b.b[i];
   return a;
}
static inline __m128i _mm_cmplt_epi8(__m128i a, __m128i b)
{
   for (int i = 0; i < 16; i++) a.b[i] = (int8_t)a.b[i] < (int8_t)b.b[i] ? 0xff : 0;
   return a;
}
static inline __m128i _mm_cmpeq_epi8(__m128i a, __m128i b)
{
   for (int i = 0; i < 16; i++) a.b[i] = a.b[i] == b.b[i] ? 0xff : 0;
   return a;
}
static inline int _mm_movemask_epi8(__m128i a)
{
   int r = 0;
   for (int i = 0; i < 16; i++) r |= (a.b[i] >> 7) << i;
   return r;
}
static inline int _mm_test_all_zeros(__m128i a, __m128i b)
{
   uint8_t any = 0;
   for (int i = 0; i < 16; i++) any |= a.b[i] & b.b[i];
   return any == 0;
}
static inline __m128i _mm_shuffle_epi8(__m128i a, __m128i m)
{
   __m128i r;
   for (int i = 0; i < 16; i++) r.b[i] = (m.b[i] & 0x80) ? 0 : a.b[m.b[i] & 15];
   return r;
}
#endif
