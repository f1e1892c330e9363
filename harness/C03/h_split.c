// Operations on parts of a signal: the runtime splits its storage behind the
// scenes, and every element must go on as if it had always been separate.
// One signal of W elements, built as a single piece with one driver, which has
// a pending transaction (K), possibly a pending undelayed assignment (QUEUED)
// and a force (FORCE).  Two operations on parts, then a cycle.
#define MAXEV 12
#include "../C01/model_env.h"

#ifndef W
#define W 4
#endif
#ifndef ELEM
#define ELEM 1
#endif
#ifndef K
#define K 1
#endif
#ifndef PNULL
#define PNULL 0     // the pending transaction is null
#endif
#ifndef QUEUED
#define QUEUED 0
#endif
#ifndef FORCED
#define FORCED 1    // the force is active
#endif
#ifndef FORCE
#define FORCE 0     // 1: exists, 2: with a change pending
#endif
#ifndef AFTER
#define AFTER 5     // delay of the assignments
#endif
#ifndef DUE
#define DUE 3       // the pending transaction is due this much later
#endif
#define SZ (W * ELEM)
#define NW (K + 6)

static struct { rt_signal_t s; uint8_t data[3 * SZ]; } sig;
static waveform_t pend, p0, p1, p2, p3, p4, p5, p6, p7, p8, p9;
static waveform_t *const pool[] = { &p0, &p1, &p2, &p3, &p4, &p5, &p6, &p7, &p8, &p9 };
static rt_source_t src_f;
static uint64_t x0[SZ / 8 + 1], x1[SZ / 8 + 1], x2[SZ / 8 + 1];

typedef struct { uint64_t when; bool null; uint8_t v[ELEM]; } tx_t;
static struct { uint8_t cur[ELEM], now[ELEM], f[ELEM], x[ELEM]; bool gone, forced, deposit; int n; tx_t t[K + 3]; bool touched; } e[W];

static uint64_t last_event;
static unsigned event_delta;
static void in_bytes(uint8_t *p) { for (int i = 0; i < SZ; i++) p[i] = IN_U8(); }
static void put(rt_value_t *v, uint64_t *x, const uint8_t *p)
{
   if (SZ > 8) v->ext = x; else v->qword = IN_U64();
   uint8_t *d = SZ > 8 ? v->ext : v->bytes;
   for (int i = 0; i < SZ; i++) d[i] = p[i];
}
static const uint8_t *val(rt_nexus_t *n, rt_value_t *v) { return n->width * ELEM > 8 ? v->ext : v->bytes; }
static bool eq(const uint8_t *a, const uint8_t *b) { bool r = true; for (int i = 0; i < ELEM; i++) r &= a[i] == b[i]; return r; }
static bool all_eq(const uint8_t *a, const uint8_t *b) { bool r = true; for (int i = 0; i < SZ; i++) r &= a[i] == b[i]; return r; }
static void cp(uint8_t *a, const uint8_t *b) { for (int i = 0; i < ELEM; i++) a[i] = b[i]; }

static void op(int what, int off, int cnt, uint64_t now)
{
   uint8_t v[SZ];
   in_bytes(v);
   const uint64_t after = AFTER;
   switch (what) {
   case 0: x_sched_waveform(&sig.s.shared, off, v, cnt, after, 0); break;
   case 1: x_disconnect(&sig.s.shared, off, cnt, after, 0); break;
   case 2: force_signal(&model, &sig.s, v, off, cnt); break;
   case 3: release_signal(&model, &sig.s, off, cnt); break;
   case 4: deposit_signal(&model, &sig.s, v, off, cnt); break;
   }
   for (int i = 0; i < W; i++) {
      if (i < off || i >= off + cnt) continue;
      const uint8_t *x = v + (i - off) * ELEM;
      e[i].touched = true;
      if (what <= 1) {
         int n = 0;
         for (int k = 0; k < K + 2; k++)
            n += k < e[i].n && e[i].t[k].when < now + after;
         e[i].t[n].when = now + after;
         e[i].t[n].null = what == 1;
         cp(e[i].t[n].v, x);
         e[i].n = n + 1;
      }
      else if (what == 2) { e[i].forced = true; cp(e[i].f, x); }
      else if (what == 3) e[i].forced = false;
      else { e[i].deposit = true; cp(e[i].x, x); }
   }
}

static void check_pending(uint64_t now, bool fast)
{
   rt_signal_t *s = &sig.s;
   rt_nexus_t *n = &s->nexus;
   int at = 0, pieces = 0;
   for (int k = 0; k < W; k++) {
      if (n == NULL) continue;
      pieces++;
      ENSURES(n->signal == s && n->offset == at * ELEM && n->size == ELEM && n->width > 0, "piece knows its place");
      ENSURES(n->sources.tag == SOURCE_DRIVER && n->sources.u.driver.nexus == n && n->sources.u.driver.proc == &process, "piece has its driver");
      for (int i = 0; i < W; i++) {
         if (i < at || i >= at + n->width) continue;
         const int off = (i - at) * ELEM;
         rt_source_t *d = &n->sources;
         if (!fast || !(n->flags & NET_F_FAST_DRIVER))
            ENSURES(eq(val(n, &d->u.driver.waveforms.value) + off, e[i].cur), "element keeps the value of its driver");
         ENSURES(d->disconnected == e[i].gone, "element keeps its connection");
         waveform_t *w = d->u.driver.waveforms.next;
         for (int j = 0; j < K + 2; j++) {
            if (j >= e[i].n) continue;
            if (fast && (n->flags & NET_F_FAST_DRIVER)) continue;
            ENSURES(w != NULL && (w->when & INT64_MAX) == e[i].t[j].when && (w->when >> 63) == e[i].t[j].null, "element keeps its transactions");
            ENSURES(e[i].t[j].null || eq(val(n, &w->value) + off, e[i].t[j].v), "transaction keeps the element's value");
            w = w->next;
         }
         ENSURES(w == NULL, "element has no other transaction");
      }
      ENSURES(n->last_event == last_event && n->event_delta == event_delta, "piece keeps the time of its last event");
      at += n->width;
      n = n->chain;
   }
   ENSURES(at == W && n == NULL, "pieces cover the signal exactly");
   ENSURES(pieces == s->n_nexus, "number of pieces");
}

void harness(void)
{
   const uint64_t now = 1000;
   env_init(now);
   model.iteration = IN_RANGE(0, DELTA_CYCLE_MAX - 1);
   rt_signal_t *s = &sig.s;
   rt_nexus_t *n = &s->nexus;
   n->signal = s;
   n->size = ELEM;
   n->width = W;
   n->n_sources = 1;
   n->last_event = IN_U64();
   n->event_delta = IN_RANGE(0, DELTA_CYCLE_MAX);
   ASSUME(n->last_event != now || n->event_delta != model.iteration);
   n->flags = NET_F_HAS_INITIAL;
   last_event = n->last_event;
   event_delta = n->event_delta;
   s->n_nexus = 1;
   s->shared.size = SZ;
   for (int i = 0; i < 9; i++) pool[i]->next = pool[i + 1];
   thread.free_waveforms = &p0;

   uint8_t cur[SZ], v[SZ], dv[SZ];
   in_bytes(cur); in_bytes(dv); in_bytes(v);
   rt_source_t *d = &n->sources;
   d->tag = SOURCE_DRIVER;
   d->u.driver.proc = &process;
   d->u.driver.nexus = n;
   bool gone = false;
#if FORCE == 0 && !QUEUED
   gone = IN_BOOL();
#endif
   d->disconnected = gone;
   bool forced = false;
   for (int i = 0; i < SZ; i++) s->shared.data[2 * SZ + i] = cur[i];   // initial value
   for (int i = 0; i < SZ; i++) s->shared.data[i] = cur[i];
   put(&d->u.driver.waveforms.value, x0, dv);
#if FORCE == 0
   if (!gone) ASSUME(all_eq(dv, cur));
#endif
   for (int i = 0; i < W; i++) {
      cp(e[i].cur, dv + i * ELEM);
      cp(e[i].now, cur + i * ELEM);
      e[i].gone = gone;
   }
#if FORCE
   src_f.tag = SOURCE_FORCING;
   src_f.u.pseudo.nexus = n;
   n->n_sources = 2;
   d->chain_input = &src_f;
   uint8_t fv[SZ];
   in_bytes(fv);
   put(&src_f.u.pseudo.value, x2, fv);
   forced = FORCED;
   src_f.disconnected = !forced;
   if (forced) n->flags |= NET_F_FORCED;
   for (int i = 0; i < W; i++) { e[i].forced = forced; cp(e[i].f, fv + i * ELEM); }
   if (FORCE == 2) {
      src_f.pseudoqueued = 1;
      deltaq_insert_pseudo_source(&model, &src_f);
      for (int i = 0; i < W; i++) e[i].touched = true;
   }
   else if (forced) ASSUME(all_eq(fv, cur));
   else ASSUME(all_eq(dv, cur));
#endif
#if K
   const bool null = PNULL;
   pend.when = now + DUE;
   for (int i = 0; i < W; i++) {
      e[i].n = 1;
      e[i].t[0].when = pend.when;
      e[i].t[0].null = null;
      cp(e[i].t[0].v, v + i * ELEM);
   }
   if (DUE == 0) deltaq_insert_driver(&model, 0, d);
   if (null) pend.when |= UINT64_C(1) << 63;
   put(&pend.value, x1, v);
   d->u.driver.waveforms.next = &pend;
#endif
#if QUEUED
   n->flags |= NET_F_FAST_DRIVER;
   // (at least the first byte differs; fixed so that the paths taken are too)
   for (int i = 0; i < (SZ > 8 ? 8 : 1); i++) {
      v[i] = 1;
      s->shared.data[i] = cur[i] = e[i / ELEM].cur[i % ELEM] = e[i / ELEM].now[i % ELEM] = dv[i] = 0;
   }
   put(&d->u.driver.waveforms.value, x0, dv);
   if (SZ > 8) x0[0] = 0;
   x_sched_waveform(&s->shared, 0, v, W, 0, 0);   // undelayed, pending
   for (int i = 0; i < W; i++) {
      e[i].n = 1;
      e[i].t[0].when = now;
      cp(e[i].t[0].v, v + i * ELEM);
   }
#endif
   REACH("precondition");

   op(OP1, OFF1, CNT1, now);
   check_pending(now, QUEUED);
#ifdef OP2
   op(OP2, OFF2, CNT2, now);
   check_pending(now, QUEUED);
#endif

   // The cycle
   for (int i = 0; i < MAXEV; i++) {
      if (i < model.delta_driverq.count) {
         defer_task_t *t = &delta_tasks[i];
         if (t->fn == async_update_driver) async_update_driver(&model, t->arg);
         else if (t->fn == async_fast_driver) async_fast_driver(&model, t->arg);
         else if (t->fn == async_fast_all_drivers) async_fast_all_drivers(&model, t->arg);
         else { ENSURES(t->fn == async_pseudo_source, "task updates a source"); async_pseudo_source(&model, t->arg); }
      }
   }
   for (int i = 0; i < MAXEV; i++)
      if (i < drv_count) update_driving(&model, drv_user[i], true);

   int at = 0;
   n = &s->nexus;
   for (int k = 0; k < W; k++) {
      if (n == NULL) continue;
      bool event = false;
      for (int i = 0; i < W; i++) {
         if (i < at || i >= at + n->width) continue;
         const bool due = e[i].n > 0 && e[i].t[0].when == now;
         if (due) { e[i].gone = e[i].t[0].null; cp(e[i].cur, e[i].t[0].v); }
         const uint8_t *expect;
         if (e[i].forced) expect = e[i].f;
         else if (e[i].deposit) expect = e[i].x;
         else if (!due && !e[i].touched) expect = e[i].now;
         else if (e[i].gone) expect = NULL;
         else expect = e[i].cur;
         // Disconnected, unresolved and not a register: the initial value
         if (expect != NULL) {
            ENSURES(eq(s->shared.data + i * ELEM, expect), "element has the value given by its sources");
            event |= !eq(expect, e[i].now);
            if (!eq(expect, e[i].now)) ENSURES(n->last_event == now && n->event_delta == model.iteration, "event on every part that changes");
         }
      }
      at += n->width;
      n = n->chain;
   }
   REACH("postcondition");
}
