/* byte-wise memcpy/memmove: same contract as libc (including the no-overlap
 * requirement), cheaper than the array theory for short symbolic lengths */
#include <stddef.h>
#ifndef VERIF_REPLAY
#ifndef VF_PTRCOPY
#define VF_PTRCOPY 0 /* a block of exactly this size is made of pointers and copied as such */
#endif
void *memcpy(void *d, const void *s, size_t n) {
    __CPROVER_assert(n == 0 || !__CPROVER_same_object(d, s) || (const char *)d + n <= (const char *)s || (const char *)s + n <= (const char *)d, "memcpy regions do not overlap");
    if (VF_PTRCOPY && n == VF_PTRCOPY) {
        for (size_t i = 0; i < VF_PTRCOPY / sizeof(void *); i++) ((void **)d)[i] = ((void *const *)s)[i];
        return d;
    }
    for (size_t i = 0; i < n; i++) ((unsigned char *)d)[i] = ((const unsigned char *)s)[i];
    return d;
}
void *memmove(void *d, const void *s, size_t n) {
    if (!__CPROVER_same_object(d, s) || (const char *)d <= (const char *)s)
        for (size_t i = 0; i < n; i++) ((unsigned char *)d)[i] = ((const unsigned char *)s)[i];
    else
        for (size_t i = n; i > 0; i--) ((unsigned char *)d)[i - 1] = ((const unsigned char *)s)[i - 1];
    return d;
}
#else
extern int vf_env_mem_unused;
#endif
