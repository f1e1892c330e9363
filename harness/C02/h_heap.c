// Time-ordered queue: every operation against its meaning on a multiset of
// (key, payload) entries.
#include "vp.h"
#include "util.h"

#ifndef SIZE
#define SIZE 7
#endif
#define N SIZE

#if !VP_NATIVE
// Growing the node array: constant-size storage, with the requested capacity
// checked against the entries actually stored.
static size_t granted = (size_t)-1;
static void *vp_grow(void *p, size_t n, size_t s);
#define xrealloc_array vp_grow
#else
static size_t granted = (size_t)-1;
#endif

#include "rt/heap.c"

#if !VP_NATIVE
static void *vp_grow(void *p, size_t n, size_t s)
{
   heap_node_t *q = malloc(sizeof(heap_node_t) * (N + 1)), *o = p;
   for (int i = 0; i < N + 1; i++)
      q[i] = o[i];
   granted = n;
   ENSURES(s == sizeof(heap_node_t), "node array grows in whole nodes");
   return q;
}
#endif

static uint64_t gk;   // arbitrary entry, to compare multisets before and after
static void    *gu;

static size_t occurrences(heap_t *h)
{
   size_t n = 0;
   for (size_t i = 0; i < N + 1; i++)
      n += i < h->size && h->nodes[i].key == gk && h->nodes[i].user == gu;
   return n;
}

static bool minimal(heap_t *h, uint64_t k)
{
   bool ok = true;
   for (size_t i = 0; i < N + 1; i++)
      ok &= !(i < h->size && h->nodes[i].key < k);
   return ok;
}

static bool well_formed(heap_t *h)
{
   bool ok = h->size <= h->max_size && h->max_size >= 1;
   for (size_t i = 2; i <= N + 1; i++)
      ok &= !(i <= h->size) || h->nodes[i / 2 - 1].key <= h->nodes[i - 1].key;
   return ok;
}

static heap_t *any_heap(void)
{
   // capacity either already larger than needed or exactly full
   heap_t *h = malloc(sizeof(heap_t));
   memset(h, 0, sizeof(*h));
   h->size = SIZE;
   const bool full = IN_BOOL() && h->size > 0;
   h->max_size = full ? h->size : N + 1;
   h->nodes = malloc(sizeof(heap_node_t) * (N + 1));
   for (int i = 0; i < N + 1; i++) {
      h->nodes[i].key = IN_U64();
      h->nodes[i].user = (void *)(uintptr_t)IN_U8();
   }
#if VP_NATIVE
   // keep random search productive: sort so that the heap order holds
   for (int i = 1; i < h->size; i++)
      for (int j = i; j > 0 && h->nodes[j - 1].key > h->nodes[j].key && !well_formed(h); j--) {
         heap_node_t t = h->nodes[j]; h->nodes[j] = h->nodes[j - 1]; h->nodes[j - 1] = t;
      }
   if (full)
      h->nodes = realloc(h->nodes, sizeof(heap_node_t) * h->max_size);
#endif
   ASSUME(well_formed(h));
   return h;
}

static bool match_fn(uint64_t key, void *user, void *context)
{
   return user == context;
}

static size_t walked;
static void walk_fn(uint64_t key, void *user, void *context)
{
   walked += key == gk && user == gu;
}

void harness(void)
{
   heap_t *h = any_heap();
   gk = IN_U64();
   gu = (void *)(uintptr_t)IN_U8();
   const size_t before = occurrences(h);
   const size_t size = h->size;
   REACH("precondition");

#if OP == 0      // insert
   const uint64_t key = IN_U64();
   void *user = (void *)(uintptr_t)IN_U8();
   heap_insert(h, key, user);
   ENSURES(h->size == size + 1, "insert adds one entry");
   ENSURES(occurrences(h) == before + (key == gk && user == gu), "insert adds exactly its entry");
#elif OP == 1    // extract
   ASSUME(size >= 1);
   const uint64_t mk = heap_min_key(h);
   void *const mu = heap_min(h);
   ENSURES(minimal(h, mk), "reported key is the smallest");
   void *r = heap_extract_min(h);
   ENSURES(r == mu, "extract returns the reported minimum");
   ENSURES(h->size == size - 1, "extract removes one entry");
   ENSURES(occurrences(h) == before - (mk == gk && mu == gu), "extract removes exactly the minimum");
   ENSURES(minimal(h, mk), "later entries are not earlier than the extracted one");
#elif OP == 2    // delete
   void *user = (void *)(uintptr_t)IN_U8();
   const bool r = heap_delete(h, match_fn, user);
   const size_t after = occurrences(h);
   ENSURES(h->size == size - r, "delete removes at most one entry");
   ENSURES(gu == user || after == before, "delete keeps entries that do not match");
   ENSURES(r || after == before, "failed delete changes nothing");
   ENSURES(gu != user || before == 0 || r, "delete finds a matching entry");
   ENSURES(after <= before && before - after <= 1, "delete removes one occurrence at most");
#elif OP == 3    // walk, creation
   heap_walk(h, walk_fn, NULL);
   ENSURES(walked == before, "walk visits every entry once");
   ENSURES(occurrences(h) == before && h->size == size, "walk changes nothing");
   heap_t *n = heap_new(IN_RANGE(1, N));
   ENSURES(heap_size(n) == 0 && well_formed(n), "new queue is empty");
#endif
   ENSURES(h->size <= h->max_size && h->size <= granted, "entries stay inside the storage");
   ENSURES(well_formed(h), "heap order is preserved");
   REACH("postcondition");
}
