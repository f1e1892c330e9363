// The value of a signal after a cycle in which its sources changed: drivers
// (each possibly disconnected), force, release and deposit, with and without
// a resolution function, against LRM 14.7.3.2.
#define MAXEV 4
#include "../C01/model_env.h"

#ifndef ND
#define ND 1       // drivers
#endif
#ifndef NULLS
#define NULLS 0    // which of them are disconnected (after the cycle)
#endif
#ifndef ORDER
#define ORDER 0    // pseudo sources that exist already: F, X, FX, XF
#endif
#ifndef RES
#define RES 0      // 0 unresolved, 1 tabulated, 2 general function, 3 identity for one driver
#endif
#ifndef OP1
#define OP1 0      // 0 driver, 1 force, 2 release, 3 deposit
#endif
#ifndef OP2
#define OP2 -1
#endif
#ifndef SFLAGS
#define SFLAGS 0
#endif
#define VSZ 2      // two elements

static struct { rt_signal_t s; uint8_t data[3 * VSZ]; } sig;
static rt_source_t src1, src2, src_f, src_x;
static waveform_t wave, poolw;
static res_memo_t memo;
static uint8_t scratch[8];
static tlab_t tlab;
static int calls;
static int8_t call_in[2][3], call_out[2];
static int call_n[2];

void *tlab_alloc(tlab_t *t, size_t size) { ENSURES(size <= sizeof(scratch), "environment: scratch size"); return scratch; }

bool jit_try_call(jit_t *j, jit_handle_t handle, jit_scalar_t *result, ...)
{
   va_list ap;
   va_start(ap, result);
   (void)va_arg(ap, void *);
   int8_t *vals = va_arg(ap, void *);
   int n = va_arg(ap, int);
   va_end(ap);
   ENSURES(calls < 2, "one resolution call for each element");
   call_n[calls] = n;
   for (int i = 0; i < 3; i++)
      if (i < n) call_in[calls][i] = vals[i];
   result->integer = call_out[calls];
   calls++;
   return true;
}

static uint8_t vec[3][VSZ];   // driver 0, driver 1, spare
static void in_value(uint8_t *v) { for (int i = 0; i < VSZ; i++) v[i] = IN_RANGE(0, 15); }
static void put(rt_value_t *v, const uint8_t *p) { v->qword = IN_U64(); for (int i = 0; i < VSZ; i++) v->bytes[i] = p[i]; }
static void cp(uint8_t *d, const uint8_t *s) { for (int i = 0; i < VSZ; i++) d[i] = s[i]; }

void harness(void)
{
   const uint64_t now = IN_RANGE(0, UINT64_C(1) << 61);
   env_init(now);
   model.iteration = IN_RANGE(0, DELTA_CYCLE_MAX - 1);
   thread.tlab = &tlab;
   thread.free_waveforms = &poolw;

   rt_signal_t *s = &sig.s;
   rt_nexus_t *n = &s->nexus;
   n->signal = s;
   n->size = 1;
   n->width = VSZ;
   n->last_event = IN_U64();
   n->event_delta = IN_RANGE(0, DELTA_CYCLE_MAX);
   n->active_delta = IN_RANGE(0, DELTA_CYCLE_MAX);
   ASSUME(n->last_event != now || n->event_delta != model.iteration);
   s->n_nexus = 1;
   s->shared.size = VSZ;
   s->shared.flags = SFLAGS;
   n->flags = NET_F_HAS_INITIAL;

   if (RES != 0) {
      s->resolution = &memo;
      memo.flags = RES == 2 ? 0 : RES == 1 ? R_MEMO : R_MEMO | R_IDENT;
      if (RES == 3) n->flags |= NET_F_R_IDENT;
      for (int i = 0; i < 16; i++) {
         memo.tab1[i] = RES == 3 ? i : IN_U8();
         for (int j = 0; j < 16; j++) memo.tab2[i][j] = IN_U8();
      }
      for (int i = 0; i < 2; i++) call_out[i] = IN_U8();
   }

   uint8_t cur[VSZ], init[VSZ], fv[VSZ], xv[VSZ];
   in_value(cur); in_value(init); in_value(fv); in_value(xv);
   for (int i = 0; i < VSZ; i++) {
      s->shared.data[i] = cur[i];
      s->shared.data[2 * VSZ + i] = init[i];
   }

   // Sources
   rt_source_t *d0 = &n->sources, *last = d0, *p_f = &src_f, *p_x = &src_x;
   int nsrc = ND;
   for (int i = 0; i < ND; i++) {
      rt_source_t *d = i == 0 ? d0 : i == 1 ? &src1 : &src2;
      in_value(vec[i]);
      d->tag = SOURCE_DRIVER;
      d->u.driver.proc = &process;
      d->u.driver.nexus = n;
      put(&d->u.driver.waveforms.value, vec[i]);
      d->u.driver.waveforms.when = now;
      d->disconnected = (NULLS >> i) & 1;
      if (i > 0) { last->chain_input = d; last = d; }
   }
   bool forced = false;
#define LINK(p, dflt) do { if (nsrc == 0) p = d0; else { p = &dflt; last->chain_input = p; } last = p; nsrc++; } while (0)
#define ADD_F do { LINK(p_f, src_f); p_f->tag = SOURCE_FORCING; p_f->u.pseudo.nexus = n; put(&p_f->u.pseudo.value, fv); \
      forced = IN_BOOL(); p_f->disconnected = !forced; } while (0)
#define ADD_X do { LINK(p_x, src_x); p_x->tag = SOURCE_DEPOSIT; p_x->u.pseudo.nexus = n; put(&p_x->u.pseudo.value, xv); \
      p_x->disconnected = 1; } while (0)
#if ORDER == 1 || ORDER == 3
   ADD_F;
#endif
#if ORDER >= 2
   ADD_X;
#endif
#if ORDER == 4
   ADD_F;
#endif
   n->n_sources = nsrc;
   if (nsrc == 1 && !IN_BOOL()) n->flags |= NET_F_FAST_DRIVER;
   REACH("precondition");

   bool deposit = false, driven = false;
   const int ops[] = { OP1, OP2 };
   for (int k = 0; k < 2; k++) {
      if (ops[k] < 0) continue;
      uint8_t v[VSZ];
      in_value(v);
      switch (ops[k]) {
      case 0:
         // The transaction due now becomes the value of the first driver
         wave.when = now;
         put(&wave.value, v);
         if (NULLS & 1) wave.when |= UINT64_C(1) << 63;
         else cp(vec[0], v);
         n->flags &= ~NET_F_FAST_DRIVER;
         d0->disconnected = IN_BOOL();
         d0->u.driver.waveforms.next = &wave;
         deferq_do(&model.delta_driverq, async_update_driver, d0);
         break;
      case 1: force_signal(&model, s, v, 0, VSZ); forced = true; cp(fv, v); break;
      case 2: release_signal(&model, s, 0, VSZ); forced = false; break;
      case 3: deposit_signal(&model, s, v, 0, VSZ); deposit = true; cp(xv, v); break;
      }
   }

   // The cycle
   for (int i = 0; i < 2; i++) {
      if (i < model.delta_driverq.count) {
         defer_task_t *t = &delta_tasks[i];
         if (t->fn == async_update_driver) async_update_driver(&model, t->arg);
         else { ENSURES(t->fn == async_pseudo_source, "task updates a source"); async_pseudo_source(&model, t->arg); }
      }
   }
   ENSURES(drv_count <= 1, "at most one update of the signal is deferred");
   if (drv_count > 0) {
      ENSURES(drv_user[0] == n, "the signal is updated");
      update_driving(&model, n, true);
   }

   // What it should be
   uint8_t expect[VSZ];
   const int nonnull = ND - __builtin_popcount(NULLS);
   const bool undriven = ND == 0;
   const uint8_t *first = (NULLS & 1) == 0 ? vec[0] : (NULLS & 2) == 0 ? vec[1] : vec[2];
   const uint8_t *second = first == vec[0] && (NULLS & 2) == 0 ? vec[1] : vec[2];
   int want_calls = 0;
   if (forced) cp(expect, fv);
   else if (deposit) cp(expect, xv);
   else if (nonnull == 0 && (SFLAGS & SIG_F_REGISTER)) cp(expect, cur);
   else if (RES == 0 || undriven) cp(expect, nonnull ? first : init);
   else if (nonnull == 0 || nonnull > 2 || RES == 2) {
      want_calls = VSZ;
      for (int i = 0; i < VSZ; i++) {
         expect[i] = call_out[i];
         ENSURES(call_n[i] == nonnull, "resolution function gets one element for each connected source");
         for (int k = 0, o = 0; k < ND; k++)
            if (!((NULLS >> k) & 1))
               { ENSURES(call_in[i][o] == (int8_t)vec[k][i], "resolution function gets the values of the drivers"); o++; }
      }
   }
   else if (nonnull == 1)
      for (int i = 0; i < VSZ; i++) expect[i] = memo.tab1[first[i]];
   else
      for (int i = 0; i < VSZ; i++) expect[i] = memo.tab2[first[i]][second[i]];
   ENSURES(calls == want_calls, "resolution function called exactly when needed");

   bool ok = true, event = false;
   for (int i = 0; i < VSZ; i++) {
      ok &= s->shared.data[i] == expect[i];
      event |= expect[i] != cur[i];
   }
   ENSURES(ok, "signal has the value given by its sources");
   ENSURES((n->last_event == now && n->event_delta == model.iteration) == event, "event exactly when the value changes");
   ENSURES(n->active_delta == model.iteration, "signal is active in this cycle");
   if (event) {
      bool l = true;
      for (int i = 0; i < VSZ; i++) l &= s->shared.data[VSZ + i] == cur[i];
      ENSURES(l, "last value is the value before the event");
   }

   // Nothing is left behind: another update of the sources gives the same
   // answer, in particular a deposit takes effect only once
   if (!forced) {
      ENSURES(!(n->flags & NET_F_FORCED) || ORDER == 1 || ORDER >= 3, "not marked forced");
      for (rt_source_t *p = &n->sources; p && n->n_sources > 0; p = p->chain_input)
         ENSURES(p->tag != SOURCE_DEPOSIT || p->disconnected, "deposit is used once");
   }
   else
      for (rt_source_t *p = &n->sources; p && n->n_sources > 0; p = p->chain_input)
         ENSURES(p->tag != SOURCE_DEPOSIT || p->disconnected, "deposit does not outlive the cycle");
   for (rt_source_t *p = &n->sources; p && n->n_sources > 0; p = p->chain_input)
      ENSURES(!p->pseudoqueued, "no update is left pending");
   REACH("postcondition");
}
