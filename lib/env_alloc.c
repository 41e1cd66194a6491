/* Allocation environment: malloc-family functions which may fail whenever
 * vf_oom is set (an arbitrary choice per call) and which count live blocks. */
#include "vf.h"
#include "env.h"
#include <errno.h>
unsigned vf_live, vf_allocs, vf_failed, vf_frees;
int vf_oom;          /* 1: any allocation may fail, arbitrarily */
int vf_nocalloc;     /* 1: zeroed allocations fail */
unsigned vf_fail_at; /* n: exactly the n-th allocation request from now on fails (concrete) */
#ifdef VERIF_REPLAY
#include <malloc.h>
static void *raw_alloc(size_t n) { return malloc(n); }
static void *raw_zalloc(size_t n) { return calloc(1, n); }
static void raw_free(void *p) { free(p); }
static size_t raw_size(void *p) { return malloc_usable_size(p); }
#else
static void *raw_alloc(size_t n) { return __CPROVER_allocate(n, 0); }
static void *raw_zalloc(size_t n) { return __CPROVER_allocate(n, 1); }
static void raw_free(void *p) {
    __CPROVER_assert(__CPROVER_DYNAMIC_OBJECT(p) && __CPROVER_POINTER_OFFSET(p) == 0, "free of a pointer that is not a heap block");
    __CPROVER_assert(__CPROVER_r_ok(p, 0), "free of a dead or invalid pointer");
    __CPROVER_deallocate(p);
}
static size_t raw_size(void *p) { return __CPROVER_OBJECT_SIZE(p); }
#endif
static int fails(void) {
    if (vf_fail_at && --vf_fail_at == 0) { vf_failed++; errno = ENOMEM; return 1; }
    if (vf_oom && nd_bool()) { vf_failed++; errno = ENOMEM; return 1; }
    return 0;
}
#if defined(VF_TAILMAX) && !defined(VERIF_REPLAY)
/* blocks of symbolic size up to VF_TAILMAX: the end of an object of fixed size */
static char *tail_p[16];
static unsigned tail_n;
void *malloc(size_t n) {
    if (fails()) return NULL;
    if (n > VF_TAILMAX) { vf_failed++; return NULL; }
    vf_live++; vf_allocs++;
    char *b = raw_alloc(VF_TAILMAX);
    __CPROVER_assert(tail_n < 16, "too many blocks for this environment");
    return tail_p[tail_n++] = b + (VF_TAILMAX - n);
}
void *calloc(size_t c, size_t n) {
    char *p = malloc(c * n);
    if (p) for (size_t i = 0; i < c * n; i++) p[i] = 0;
    return p;
}
void free(void *p) {
    if (!p) return;
    vf_live--; vf_frees++;
    int ok = 0;
    for (unsigned i = 0; i < tail_n; i++) if (tail_p[i] == p) ok = 1;
    __CPROVER_assert(ok, "free of a pointer that is not a heap block");
    __CPROVER_deallocate((char *)p - __CPROVER_POINTER_OFFSET(p));
}
#else
void *VF_STUB(malloc)(size_t n) {
    if (fails()) return NULL;
    vf_live++; vf_allocs++;
    return raw_alloc(n);
}
void *VF_STUB(calloc)(size_t c, size_t n) {
    if (n && c > (size_t)-1 / n) { vf_failed++; errno = ENOMEM; return NULL; }
    if (vf_nocalloc) { vf_failed++; errno = ENOMEM; return NULL; }
    if (fails()) return NULL;
    vf_live++; vf_allocs++;
    return raw_zalloc(c * n);
}
void VF_STUB(free)(void *p) {
    if (!p) return;
    vf_live--; vf_frees++;
    raw_free(p);
}
#endif
void *VF_STUB(realloc)(void *p, size_t n) {
    if (p && n == 0) { VF_STUB(free)(p); return NULL; }
    if (fails()) return NULL;
    char *q = raw_alloc(n);
    vf_allocs++;
    if (p) {
        size_t o = raw_size(p);
        memcpy(q, p, o < n ? o : n);
        raw_free(p);
        vf_frees++;
    } else
        vf_live++;
    return q;
}
char *VF_STUB(strdup)(const char *s) {
    size_t n = strlen(s) + 1;
    char *q = VF_STUB(malloc)(n);
    if (q) memcpy(q, s, n);
    return q;
}
char *VF_STUB(strndup)(const char *s, size_t m) {
    size_t n = 0;
    while (n < m && s[n]) n++;
    char *q = VF_STUB(malloc)(n + 1);
    if (q) { for (size_t i = 0; i < n; i++) q[i] = s[i]; q[n] = 0; }
    return q;
}
