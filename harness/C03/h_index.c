// Finding the pieces of a signal with many of them: P pieces of arbitrary
// widths, the index built by the runtime, any range made of whole pieces.
#define MAXEV 2
#define xcalloc_flex env_calloc_flex
#include <stdlib.h>
static void env_free(void *p) { }
#define free env_free
#include "../C01/model_env.h"
#undef xcalloc_flex
#undef free
#ifndef P
#define P 8
#endif
#ifndef MAXW
#define MAXW 3
#endif
static struct { rt_index_t i; rt_nexus_t *n[P * MAXW + 2]; } store[2];
static int nstore;
void *env_calloc_flex(size_t fixed, size_t n, size_t size)
{
   ENSURES(nstore < 2 && n <= P * MAXW + 2 && fixed == sizeof(rt_index_t) && size == sizeof(rt_nexus_t *), "environment: index size");
   return &store[nstore++];
}
static struct { rt_signal_t s; uint8_t data[8]; } sig;
static rt_nexus_t c1, c2, c3, c4, c5, c6, c7, c8, c9;
static rt_nexus_t *const pc[] = { &sig.s.nexus, &c1, &c2, &c3, &c4, &c5, &c6, &c7, &c8, &c9 };

void harness(void)
{
   env_init(0);
   rt_signal_t *s = &sig.s;
   int at = 0, start[P + 1];
   for (int i = 0; i < P; i++) {
      rt_nexus_t *n = pc[i];
      n->signal = s;
      n->size = 1;
      n->offset = start[i] = at;
      n->width = IN_RANGE(1, MAXW);
      n->chain = i + 1 < P ? pc[i + 1] : NULL;
      at += n->width;
   }
   start[P] = at;
   s->n_nexus = P;
   s->shared.size = at;
   REACH("precondition");
#ifdef LATER
   // the index is built without one of the pieces, which is added later
   rt_nexus_t *before = pc[LATER - 1], *x = pc[LATER];
   const unsigned w0 = before->width;
   before->chain = x->chain;
   before->width += x->width;
   s->n_nexus--;
   build_index(s);
   before->chain = x;
   before->width = w0;
   s->n_nexus++;
   update_index(s, x);
#else
   build_index(s);
#endif
   const int from = IN_RANGE(0, P - 1), to = IN_RANGE(1, P);
   ASSUME(from < to);
   for (int i = 0; i < P; i++)
      if (i == from) {
         rt_nexus_t *r = split_nexus(&model, s, start[i], start[to] - start[i]);
         ENSURES(r == pc[i], "the range starts at its first piece");
         ENSURES(s->n_nexus == P, "whole pieces are not split");
      }
   REACH("postcondition");
}
