#include "vf.h"
#include "env.h"
#include <pthread.h>
#include "mem/allocator.h"
#include "mem/allocation_tracker.h"
/* The tracing allocator.  The tracker's own hash function is replaced by one
 * which makes all its entries collide (the map itself is property H01). */
int VF_STUB(hash_function_pointer)(const void *k) { return 5; }
static int mtx_live, mtx_held;
int VF_STUB(pthread_mutex_init)(pthread_mutex_t *m, const pthread_mutexattr_t *a) { mtx_live++; return 0; }
int VF_STUB(pthread_mutex_destroy)(pthread_mutex_t *m) { VF_ASSERT(!mtx_held, "an unlocked mutex is destroyed"); mtx_live--; return 0; }
int VF_STUB(pthread_mutex_lock)(pthread_mutex_t *m) { VF_ASSERT(mtx_live == 1 && !mtx_held, "the tracker's lock is free"); mtx_held = 1; return 0; }
int VF_STUB(pthread_mutex_unlock)(pthread_mutex_t *m) { VF_ASSERT(mtx_held, "the tracker's lock is held"); mtx_held = 0; return 0; }
static int expect_abort;
void _exit(int);
void VF_STUB(abort)(void) {
    VF_ASSERT(expect_abort, "the tracker raises no alarm on correct use");
    VF_REACH("alarm");
#ifdef VERIF_REPLAY
    _exit(0);
#else
    __CPROVER_assume(0);
#endif
}
#ifndef VERIF_REPLAY
int printf(const char *f, ...) { return 0; }
int fflush(FILE *f) { return 0; }
#endif
#define MAXB 6
#define MAXN 20
static char *blk[MAXB];
static int len[MAXB], exact[MAXB], line[MAXB], nb, seen[MAXB];
static char body[MAXB][MAXN];
static size_t told;
static void report(void *p, size_t n, char *file, char *func, int ln, void *u) {
    VF_ASSERT(u == &told, "the report carries the user's data");
    int hit = 0;
    for (int i = 0; i < nb; i++) if (blk[i] && blk[i] == p) {
        hit = 1;
        VF_ASSERT(!seen[i], "a block is reported once");
        seen[i] = 1;
        VF_ASSERT(exact[i] ? n == (size_t)len[i] : n >= (size_t)len[i], "its size is reported");
        VF_ASSERT(ln == line[i] && file[0] == 'f' && file[1] == 0 && func[0] == 'g' && func[1] == 0, "where it was allocated is reported");
    }
    VF_ASSERT(hit, "only blocks not yet freed are reported");
    told += n;
}
static void check_all(void) {
    VF_ASSERT(!mtx_held, "the lock is given back");
    for (int i = 0; i < nb; i++) if (blk[i]) for (int j = 0; j < len[i] && j < MAXN; j++) VF_ASSERT(blk[i][j] == body[i][j], "the content of live blocks is kept");
#if TRACKED
    for (int i = 0; i < nb; i++) seen[i] = 0;
    told = 0;
    size_t t = allocation_tracker_expect_no_allocations(report, &told);
    VF_ASSERT(t == told, "the total of the unfreed memory is right");
    for (int i = 0; i < nb; i++) if (blk[i]) VF_ASSERT(seen[i], "every block not yet freed is reported");
#endif
}
static void put(char *p, int n, int ln, int ex, int init) {
    VF_ASSERT(p != NULL, "the allocation succeeds");
    blk[nb] = p; len[nb] = n; line[nb] = ln; exact[nb] = ex;
    for (int j = 0; j < n && j < MAXN; j++) { if (init) p[j] = nd_char(); body[nb][j] = p[j]; }
    nb++;
}
static int last(void) { int r = -1; for (int i = 0; i < nb; i++) if (blk[i]) r = i; return r; }
static int first(void) { for (int i = 0; i < nb; i++) if (blk[i]) return i; return -1; }
static void re(int i, int n, int ln) {
    if (i < 0) return;
    char *o = blk[i], *p = lcu_realloc_trace(o, n, "f", "g", ln);
    VF_ASSERT(p != NULL, "the reallocation succeeds");
    for (int j = 0; j < len[i] && j < n && j < MAXN; j++) VF_ASSERT(p[j] == body[i][j], "reallocation keeps the content");
    for (int j = 0; j < n && j < MAXN; j++) { p[j] = nd_char(); body[i][j] = p[j]; }
    if (n >= MAXN) p[n - 1] = 1;
    if (p != o) { line[i] = ln; exact[i] = 0; blk[i] = p; len[i] = n; }
    else if (n > len[i]) len[i] = n;
    else len[i] = len[i] < n ? n : len[i];
}
static void init(void) {
#if TRACKED
    allocation_tracker_init();
    allocation_tracker_init();
#endif
}
void h_use(void) {
    init();
    unsigned live0 = vf_live;
    int k = 0;
    for (const char *s = SCRIPT; *s; s++) {
        k++;
        if (*s == 'm') put(lcu_malloc_trace(3, "f", "g", k), 3, k, 1, 1);
        else if (*s == 'M') put(lcu_malloc_trace(9, "f", "g", k), 9, k, 1, 1);
        else if (*s == 'c') {
            char *p = lcu_calloc_trace(3, 2, "f", "g", k);
            for (int j = 0; j < 6; j++) VF_ASSERT(p && p[j] == 0, "calloc memory is zero");
            put(p, 6, k, 1, 1);
        } else if (*s == 's') {
            static const char t[4] = "xyz";
            char *p = lcu_strdup_trace(t, "f", "g", k);
            for (int j = 0; j < 4; j++) VF_ASSERT(p && p[j] == t[j], "strdup copies the string");
            put(p, 4, k, 1, 0);
        } else if (*s == 'n') {
            static const char t[2] = {'u', 'v'};      /* not terminated */
            char *p = lcu_strndup_trace(t, 2, "f", "g", k);
            VF_ASSERT(p && p[0] == t[0] && p[1] == t[1] && p[2] == 0, "strndup copies at most the given length");
            put(p, 3, k, 1, 0);
            char *q = lcu_strndup("ab", 7);
            VF_ASSERT(q && q[0] == 'a' && q[1] == 'b' && q[2] == 0, "strndup stops at the end of the string");
            lcu_free(q);
        } else if (*s == 'r') re(last(), 5, k);
        else if (*s == 'R') re(last(), 12, k);
        else if (*s == 'B') re(last(), 2100, k);
        else if (*s == 'N') put(lcu_realloc_trace(NULL, 4, "f", "g", k), 4, k, 0, 1);
        else if (*s == 'z') { int i = last(); if (i >= 0) { VF_ASSERT(lcu_realloc_trace(blk[i], 0, "f", "g", k) == NULL, "reallocation to nothing frees"); blk[i] = NULL; } }
        else if (*s == 'f') { int i = first(); if (i >= 0) { lcu_free(blk[i]); blk[i] = NULL; } }
        else if (*s == 'F') { int i = last(); if (i >= 0) { lcu_free(blk[i]); blk[i] = NULL; } }
        else if (*s == 'x') { int i = first(); void *v = blk[i]; lcu_free_and_reset(&v); VF_ASSERT(v == NULL, "the pointer is reset"); lcu_free_and_reset(&v); blk[i] = NULL; }
        else if (*s == 'O') {  /* no memory for the block itself */
            vf_fail_at = 1;
            VF_ASSERT(!lcu_malloc_trace(3, "f", "g", k), "refused memory is reported");
            vf_fail_at = 1;
            VF_ASSERT(!lcu_strdup("a"), "refused memory is reported");
            int i = last();
            if (i >= 0) { vf_fail_at = 1; VF_ASSERT(!lcu_realloc_trace(blk[i], 2999, "f", "g", k), "refused memory is reported"); }
            vf_fail_at = 0;
        }
        check_all();
    }
    lcu_free(NULL);
    for (int i = 0; i < nb; i++) if (blk[i]) { lcu_free(blk[i]); blk[i] = NULL; }
    check_all();
#if TRACKED
    VF_ASSERT(allocation_tracker_expect_no_allocations(NULL, NULL) == 0, "after freeing everything nothing is reported");
    allocation_tracker_uninit();
    allocation_tracker_uninit();
    VF_ASSERT(mtx_live == 0, "the tracker's lock is destroyed");
    live0 = live0 >= 2 ? live0 : live0;
#endif
    VF_ASSERT(vf_live <= live0, "every block goes back to the heap");
    VF_REACH("end");
}
/* misuse: must be noticed */
void h_misuse(void) {
    init();
    char *p = lcu_malloc_trace(3, "f", "g", 1), *q = lcu_malloc_trace(2, "f", "g", 2);
    static char foreign[32];
    VF_ASSERT(p && q, "the allocation succeeds");
    unsigned kind = KIND;
    if (kind <= 1) {
        int at = nd_irange(-8, 10);
        char v = nd_char();
        VF_ASSUME((at < 0 || at >= 3) && p[at] != v);
        p[at] = v;
        expect_abort = 1;
        if (kind == 0) lcu_free(p); else allocation_tracker_expect_no_allocations(NULL, NULL);
    } else if (kind == 2) { lcu_free(p); expect_abort = 1; lcu_free(p); }
    else if (kind == 3) { expect_abort = 1; lcu_free(foreign + 8); }
    else if (kind == 4) { int o = nd_irange(1, 2); expect_abort = 1; lcu_free(p + o); }
    else if (kind == 5) { expect_abort = 1; allocation_tracker_notify_free(7, p); }
    VF_ASSERT(0, "misuse of tracked memory is noticed");
}
/* sizes which cannot be had */
void h_overflow(void) {
    init();
    static const size_t M = (size_t)-1, pr[][2] = {{(size_t)1 << 63, 2}, {2, (size_t)1 << 63}, {(size_t)-1 / 3 + 1, 3}, {(size_t)-1, 2}, {((size_t)1 << 32) + 1, (size_t)1 << 32}, {(size_t)-1 / 16 + 2, 16}, {(size_t)-1, (size_t)-1}};
    for (unsigned i = 0; i < sizeof pr / sizeof pr[0]; i++) VF_ASSERT(lcu_calloc(pr[i][0], pr[i][1]) == NULL, "an overflowing product is refused");
#if TRACKED
    for (size_t d = 0; d < 16; d += 5) VF_ASSERT(lcu_malloc(M - d) == NULL && lcu_calloc(1, M - d) == NULL && lcu_calloc(M - d, 1) == NULL, "an overflowing size is refused");
#endif
    static char *p;
    p = lcu_malloc(3);
    VF_ASSERT(p != NULL, "the allocation succeeds");
    unsigned l0 = vf_live;
    for (size_t d = 0; d < 2048 + 16 * TRACKED; d += 1023) VF_ASSERT(lcu_realloc(NULL, M - d) == NULL && lcu_realloc(p, M - d) == NULL, "an overflowing size is refused");
    VF_ASSERT(lcu_realloc(NULL, M - 2047) == NULL && (!TRACKED || lcu_realloc(p, M - 2063) == NULL), "an overflowing size is refused");
    VF_ASSERT(vf_live == l0, "nothing was allocated and nothing was lost");
    VF_REACH("end");
}
