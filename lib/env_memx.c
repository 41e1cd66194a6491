/* memcpy as a scheduling point: the other thread (vf_interfere, supplied by
 * the harness) may run before the copy, in its middle and after it. */
#include "vf.h"
#include "env.h"
unsigned vf_switches;      /* how many times the other thread may still be scheduled */
static int inside;
void vf_interfere(void);
void vf_sched(void) {
    if (inside || !vf_switches) return;
    if (nd_bool()) { vf_switches--; inside = 1; vf_interfere(); inside = 0; }
}
void *VF_STUB(memcpy)(void *d, const void *s, size_t n) {
    if (inside || !vf_switches) {
        for (size_t i = 0; i < n; i++) ((volatile unsigned char *)d)[i] = ((const volatile unsigned char *)s)[i];
        return d;
    }
    vf_sched();
    size_t m = n / 2;
    for (size_t i = 0; i < m; i++) ((volatile unsigned char *)d)[i] = ((const volatile unsigned char *)s)[i];
    if (m) vf_sched();
    for (size_t i = m; i < n; i++) ((volatile unsigned char *)d)[i] = ((const volatile unsigned char *)s)[i];
    vf_sched();
    return d;
}
