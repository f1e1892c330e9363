// Scheduling on a driver against LRM 10.5.2.2: the projected output waveform
// after an assignment, the event that makes it happen, and what happens when
// the time comes.
#ifndef K
#define K 3       // transactions already pending
#endif
#ifndef NOPS
#define NOPS 1    // assignments made
#endif
#ifndef VSZ
#define VSZ 1     // bytes in the value
#endif
#ifndef KIND
#define KIND 0
#endif
#ifndef KIND2
#define KIND2 0
#endif
#define NT (K + NOPS)
#define MAXEV (NOPS + 1)
#include "model_env.h"

static struct { rt_signal_t s; uint8_t data[3 * VSZ + 8]; } sig;
// separate objects rather than arrays: the verifier then reasons per object
static waveform_t pending0, pending1, pending2, pending3, pool0, pool1, pool2;
static waveform_t *const pending[] = { &pending0, &pending1, &pending2, &pending3 };
#define EXTW (VSZ / 8 + 1)
static uint64_t ext0[EXTW], ext1[EXTW], ext2[EXTW], ext3[EXTW], ext4[EXTW], ext5[EXTW], ext6[EXTW], ext7[EXTW];
static uint64_t *const ext[] = { ext0, ext1, ext2, ext3, ext4, ext5, ext6, ext7 };
static int n_ext;

typedef struct { uint64_t when; bool null, marked; uint8_t value[VSZ]; } ref_t;
static ref_t ref[NT + 1];
static int nref;

static void ref_value(uint8_t *d, const uint8_t *s)
{
   for (int i = 0; i < VSZ; i++) d[i] = s[i];
}
static bool same(const ref_t *a, const ref_t *b)
{
   if (a->null || b->null) return a->null && b->null;
   bool r = true;
   for (int i = 0; i < VSZ; i++) r &= a->value[i] == b->value[i];
   return r;
}
static void set_value(rt_value_t *v, const uint8_t *p)
{
   if (VSZ > 8) {
      v->ext = ext[n_ext++];
      for (int i = 0; i < VSZ; i++) ((uint8_t *)v->ext)[i] = p[i];
   }
   else {
      v->qword = IN_U64();   // bytes beyond the value are arbitrary
      for (int i = 0; i < VSZ; i++) v->bytes[i] = p[i];
   }
}
static bool value_is(rt_value_t *v, const uint8_t *p)
{
   const uint8_t *q = VSZ > 8 ? v->ext : v->bytes;
   bool r = true;
   for (int i = 0; i < VSZ; i++) r &= p[i] == q[i];
   return r;
}

// Add one transaction the way the language defines it
static void ref_insert(uint64_t when, bool null, const uint8_t *value, uint64_t reject)
{
   // Old transactions projected to occur at or after the new one are deleted
   int n = 0;
   for (int i = 0; i < NT; i++)
      n += i < nref && ref[i].when < when;
   ref_t new = { .when = when, .null = null };
   if (!null) ref_value(new.value, value);
   // Marking, from the new transaction backwards
   const ref_t *next = &new;
   bool next_marked = true;
   for (int i = NT - 1; i >= 0; i--) {
      if (i >= n) continue;
      ref[i].marked = ref[i].when < when - reject || (next_marked && same(&ref[i], next));
      next = &ref[i];
      next_marked = ref[i].marked;
   }
   int out = 0;
   for (int i = 0; i < NT; i++)
      if (i < n && ref[i].marked) ref[out++] = ref[i];
   ref[out] = new;
   nref = out + 1;
}

static uint64_t ev_known[NT + 1];   // times at which the driver wakes
static bool wakes_at(rt_source_t *d, uint64_t when, uint64_t now)
{
   bool r = false;
   for (int i = 0; i < K; i++) r |= i < K && ev_known[i] == when;
   for (int i = 0; i < MAXEV; i++)
      r |= i < ev_count && ev_key[i] == when && ev_user[i] == tag_pointer(d, EVENT_DRIVER);
   if (when == now) {
      for (int i = 0; i < NOPS + 1; i++)
         r |= i < model.delta_driverq.count && model.next_is_delta;
   }
   return r;
}

void harness(void)
{
   const uint64_t now = IN_RANGE(0, UINT64_C(1) << 61);
   env_init(now);

   rt_signal_t *s = &sig.s;
   rt_nexus_t *n = &s->nexus;
   n->signal = s;
   n->size = ELEM;
   n->width = VSZ / ELEM;
   n->n_sources = 1;
   // The latest event may have been at any earlier time or delta cycle
   model.iteration = IN_RANGE(0, DELTA_CYCLE_MAX - 1);
   n->last_event = IN_U64();
   n->event_delta = IN_RANGE(0, DELTA_CYCLE_MAX);
   n->active_delta = IN_RANGE(0, DELTA_CYCLE_MAX);
   ASSUME(n->last_event != now || n->event_delta != model.iteration);
   s->n_nexus = 1;
   s->shared.size = VSZ;
   rt_source_t *d = &n->sources;
   d->tag = SOURCE_DRIVER;
   d->u.driver.proc = &process;
   d->u.driver.nexus = n;
   pool0.next = &pool1;
   pool1.next = &pool2;
   thread.free_waveforms = &pool0;

   // Current value and pending transactions
   uint8_t cur[VSZ];
   for (int i = 0; i < VSZ; i++) cur[i] = IN_U8();
   set_value(&d->u.driver.waveforms.value, cur);
   d->u.driver.waveforms.when = now;
   for (int i = 0; i < VSZ; i++) s->shared.data[i] = cur[i];
#ifdef FAST
   n->flags = NET_F_FAST_DRIVER;
   nref = 0;
#else
   n->flags = 0;
   nref = K;
#endif
   n->flags |= NET_F_HAS_INITIAL;
   waveform_t *last = &d->u.driver.waveforms;
   for (int i = 0; i < K; i++) {
      uint8_t v[VSZ];
      for (int j = 0; j < VSZ; j++) v[j] = IN_U8();
      const uint64_t when = IN_RANGE(now, UINT64_C(1) << 62);
      const bool null = IN_BOOL();
      if (i >= nref) { ev_known[i] = UINT64_MAX; continue; }
      ASSUME(i == 0 || ref[i - 1].when < when);
      ref[i].when = ev_known[i] = when;
      ref[i].null = null;
      ref_value(ref[i].value, v);
      waveform_t *w = pending[i];
      w->when = null ? when | (UINT64_C(1) << 63) : when;
      w->next = NULL;
      set_value(&w->value, v);
      last->next = w;
      last = w;
   }
   // storage for values larger than a word
   if (VSZ > 8) {
      void **p = &n->free_value;
      for (int i = 0; i < NOPS + 1; i++) {
         *p = ext[n_ext++];
         p = *p;
      }
      *p = NULL;
   }
   REACH("precondition");

   for (int k = 0; k < NOPS; k++) {
      uint8_t v[VSZ];
      for (int i = 0; i < VSZ; i++) v[i] = IN_U8();
#ifdef ZERO   // which assignments have no delay
      const uint64_t after = (ZERO >> k) & 1 ? 0 : IN_RANGE(1, UINT64_C(1) << 61);
#else
      const uint64_t after = IN_RANGE(0, UINT64_C(1) << 61);
#endif
      const uint64_t reject = IN_RANGE(0, after);
      const int kind = k == 0 ? KIND : KIND2;   // 0: value, 1: disconnect, 2: scalar value
      const bool null = kind == 1;
      if (null)
         x_disconnect(&s->shared, 0, n->width, after, reject);
      else if (kind == 2)
         x_sched_waveform_s(&s->shared, 0, v[0], after, reject);
      else
         x_sched_waveform(&s->shared, 0, v, n->width, after, reject);
      ref_insert(now + after, null, v, reject);
   }

   waveform_t *w;
#ifndef FAST
   // The projected output waveform
   w = d->u.driver.waveforms.next;
   for (int i = 0; i < NT; i++) {
      if (i < nref) {
         ENSURES(w != NULL, "no transaction is missing");
         ENSURES((w->when & INT64_MAX) == ref[i].when, "transaction has its time");
         ENSURES((w->when >> 63) == ref[i].null, "transaction is null exactly when requested");
         ENSURES(ref[i].null || value_is(&w->value, ref[i].value), "transaction has its value");
         ENSURES(wakes_at(d, ref[i].when, now), "driver is woken when the transaction is due");
         w = w->next;
      }
   }
   ENSURES(w == NULL, "no transaction is left over");
   ENSURES(value_is(&d->u.driver.waveforms.value, cur), "current value unchanged by scheduling");
#endif

#ifdef MATURE
   // When a transaction is due the driver takes its value.  The function that
   // does this is the one scheduled for zero delay.
   const bool due = nref > 0 && ref[0].when == now;
   const bool gone = due && ref[0].null;
#ifdef FAST
   for (int i = 0; i < NOPS + 1; i++) {
      if (i < model.delta_driverq.count) {
         defer_task_t *t = &delta_tasks[i];
         ENSURES(t->arg == d, "task is for the driver");
         // direct calls, so that the verifier need not consider every task
         if (t->fn == async_fast_driver) async_fast_driver(&model, d);
         else { ENSURES(t->fn == async_update_driver, "task updates the driver"); async_update_driver(&model, d); }
      }
   }
#else
   async_update_driver(&model, d);
#endif
   ENSURES(d->disconnected == gone, "driver is disconnected exactly by a due null transaction");
   const uint8_t *expect = due && !gone ? ref[0].value : cur;
   if (!gone) {
      ENSURES(value_is(&d->u.driver.waveforms.value, expect), "driver has the value of the due transaction");
      bool eff = true;
      for (int i = 0; i < VSZ; i++) eff &= s->shared.data[i] == expect[i];
      ENSURES(eff, "signal has the value of its driver");
      bool event = false;
      for (int i = 0; i < VSZ; i++) event |= expect[i] != cur[i];
      ENSURES((n->last_event == now && n->event_delta == model.iteration) == event, "event exactly when the value changes");
      if (event) {
         bool last = true;
         for (int i = 0; i < VSZ; i++) last &= s->shared.data[VSZ + i] == cur[i];
         ENSURES(last, "last value is the value before the event");
      }
   }
   w = d->u.driver.waveforms.next;
   for (int i = 0; i < NT; i++) {
      if (i < nref && !(i == 0 && due)) {
         ENSURES(w != NULL && (w->when & INT64_MAX) == ref[i].when && (w->when >> 63) == ref[i].null,
                 "later transactions stay pending");
         ENSURES(ref[i].null || value_is(&w->value, ref[i].value), "later transactions keep their values");
         w = w->next;
      }
   }
   ENSURES(w == NULL, "nothing else is pending");
#endif
   REACH("postcondition");
}
