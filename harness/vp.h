#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t vp_u64 (void);                    /* an arbitrary 64-bit value (a solver variable) */
double vp_double (void);
void vp_assume (int c);
__attribute__ ((nomerge)) void vp_assert (int c, const char *label);
__attribute__ ((nomerge)) void vp_witness (const char *label);       /* must be reachable: guards against vacuity */
int vp_case (int k);                       /* case-split parameter k, fixed per query by the driver */
int vp_same_object (const void *, const void *);
void vp_harness (void);
#ifdef __cplusplus
}
/* an int in [lo,hi] */
static inline long vp_in (long lo, long hi) { long v = (long) vp_u64 (); vp_assume (v >= lo && v <= hi); return v; }
#endif
#define VP_CHECK(c, l) vp_assert ((c) ? 1 : 0, l)
