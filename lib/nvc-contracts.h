// Included by nvc's prim.h when NVC_VERIFY is defined.  A unit that proves a
// loop inductively defines LC_<name> (invariant, frame) before including the
// source; every other annotated loop is unrolled.
#ifndef NVC_CONTRACTS_H
#define NVC_CONTRACTS_H
#ifdef VP_LOOP_CONTRACTS
#define LOOP_CONTRACT(name) LC_##name
#include "nvc-contracts-default.h"
#else
#define LOOP_CONTRACT(name)
#endif
#endif
