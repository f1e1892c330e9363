// One signal with one driver, built directly on the runtime's own data
// structures, with the parts of the runtime that the property does not depend
// on replaced: event heap (records what is scheduled), byte comparison and
// copying (their meaning, proved separately), thread identity.
#ifndef MODEL_ENV_H
#define MODEL_ENV_H
#include "vp.h"
#include "ovf.h"
#include "util.h"
#include "rt/model.c"

#ifndef MAXEV
#define MAXEV 4
#endif
static int      ev_count;
static uint64_t ev_key[MAXEV];
static void    *ev_user[MAXEV];

// The three queues are told apart by dummy addresses
static char env_eventq, env_drivingq, env_effectiveq;
static int         drv_count, eff_count;
static rt_nexus_t *drv_user[MAXEV], *eff_user[MAXEV];

void heap_insert(heap_t *h, uint64_t key, void *user)
{
   if (h == (heap_t *)&env_drivingq) {
      ENSURES(drv_count < MAXEV, "environment: driving queue");
      drv_user[drv_count++] = user;
      return;
   }
   if (h == (heap_t *)&env_effectiveq) {
      ENSURES(eff_count < MAXEV, "environment: effective queue");
      eff_user[eff_count++] = user;
      return;
   }
   ENSURES(h == (heap_t *)&env_eventq, "environment: known queue");
   ENSURES(ev_count < MAXEV, "environment: event table");
   ev_key[ev_count] = key;
   ev_user[ev_count++] = user;
}
int thread_id(void) { return 0; }
bool _cmp_bytes(const void *a, const void *b, size_t size)
{
   const uint8_t *x = a, *y = b;
   for (size_t i = 0; i < size; i++)
      if (x[i] != y[i]) return false;
   return true;
}
void _copy2(void *p1, void *p2, const void *src, size_t len)
{
   uint8_t *x = p1, *y = p2; const uint8_t *z = src;
   for (size_t i = 0; i < len; i++) { x[i] = y[i]; y[i] = z[i]; }
}

static rt_model_t     model;
static model_thread_t thread;
static rt_proc_t      process;
static defer_task_t   delta_tasks[MAXEV], other_tasks[2];

// Zeroed permanent storage (see RT_ALLOC in lib/xforms.py)
static rt_source_t env_src0, env_src1, env_src2, env_src3, env_src4, env_src5;
static rt_source_t *const env_src[] = { &env_src0, &env_src1, &env_src2, &env_src3, &env_src4, &env_src5 };
static rt_nexus_t env_nexus0, env_nexus1, env_nexus2, env_nexus3;
static rt_nexus_t *const env_nexus[] = { &env_nexus0, &env_nexus1, &env_nexus2, &env_nexus3 };
static uint64_t env_val0[8], env_val1[8], env_val2[8], env_val3[8];
static uint64_t *const env_val[] = { env_val0, env_val1, env_val2, env_val3 };
static int env_nsrc, env_nnexus, env_nval;
void *env_alloc(size_t size)
{
   if (size == sizeof(rt_source_t)) {
      ENSURES(env_nsrc < 6, "environment: sources");
      return env_src[env_nsrc++];
   }
   if (size == sizeof(rt_nexus_t)) {
      ENSURES(env_nnexus < 4, "environment: nexuses");
      return env_nexus[env_nnexus++];
   }
   ENSURES(size <= sizeof(env_val0) && env_nval < 4, "environment: values");
   return env_val[env_nval++];
}

static void env_init(uint64_t now)
{
   __model = &model;
   model.threads[0] = &thread;
   model.now = now;
   model.eventq_heap = (heap_t *)&env_eventq;
   model.driving_heap = (heap_t *)&env_drivingq;
   model.effective_heap = (heap_t *)&env_effectiveq;
   model.iteration = 0;
   model.can_create_delta = true;
   model.delta_driverq.tasks = delta_tasks;
   model.delta_driverq.max = MAXEV;
   model.implicitq.tasks = other_tasks;
   model.implicitq.max = 2;
   thread.active_obj = &process.wakeable;
   process.wakeable.kind = W_PROC;
}
#endif
