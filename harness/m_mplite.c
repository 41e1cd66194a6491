#include "vf.h"
#include "env.h"
#include "mem/mplite.h"
/* Buddy allocator over a caller's pool.  Oracle: the set of live blocks as
 * [address, requested size, content pattern]. */
#define ATOM 8
static unsigned char pool[POOL] __attribute__((aligned(16)));
static mplite_t m;
static int depth, locks, bad_lock, token;
static int acq(void *a) { if (a != &token || depth) bad_lock = 1; depth++; locks++; return 0; }
static int rel(void *a) { if (a != &token || depth != 1) bad_lock = 1; depth--; return 0; }
#define MAXB 6
static unsigned char *at[MAXB];
static int need[MAXB], mark[MAXB], nb;
static int total, big;
static int nblock;
static int cls(int n) { int s = ATOM; while (s < n) s <<= 1; return s; }
static void check_new(unsigned char *p, int n) {
    int full = cls(n);
    VF_ASSERT(p >= pool && p + full <= pool + nblock * ATOM, "a block lies inside the pool, clear of the allocator's own table");
    VF_ASSERT((p - pool) % full == 0, "a block is aligned to its size within the pool");
    for (int i = 0; i < nb; i++) if (at[i]) VF_ASSERT(p + full <= at[i] || at[i] + cls(need[i]) <= p, "live blocks do not overlap");
}
static int free_bytes(void) { int u = 0; for (int i = 0; i < nb; i++) if (at[i]) u += cls(need[i]); return nblock * ATOM - u; }
/* is there an aligned, naturally reachable free block of this size? (all buddies merged) */
static int fits(int full) {
    for (int b = 0; b + full <= nblock * ATOM; b += full) {
        /* the block must lie inside one of the pieces the pool was cut into */
        int off = 0, ok = 0;
        for (int k = 1 << 10; k >= 1; k >>= 1) if (off + k * ATOM <= nblock * ATOM) { if (b >= off && b + full <= off + k * ATOM) ok = 1; off += k * ATOM; }
        for (int i = 0; ok && i < nb; i++) if (at[i] && at[i] < pool + b + full && at[i] + cls(need[i]) > pool + b) ok = 0;
        if (ok) return 1;
    }
    return 0;
}
static void check_all(void) {
    VF_ASSERT(!bad_lock && depth == 0, "the lock is taken and released around every use, once");
    VF_ASSERT(mplite_freemem(&m) == free_bytes(), "the free amount is the pool minus the live blocks");
    int mx = 0;
    for (int s = ATOM; s <= nblock * ATOM; s <<= 1) if (fits(s)) mx = s;
    VF_ASSERT(mplite_maxmem(&m) == mx, "the largest free block is found, freed neighbours are merged");
    for (int i = 0; i < nb; i++) if (at[i]) for (int j = 0; j < need[i]; j++) VF_ASSERT(at[i][j] == (unsigned char)(mark[i] + j), "the content of live blocks is untouched");
}
static void fill(int i) { for (int j = 0; j < need[i]; j++) at[i][j] = (unsigned char)(mark[i] + j); }
static void do_malloc(int n, int zero) {
    int l0 = locks;
    int can = fits(cls(n));
    unsigned char *p = zero ? mplite_calloc(&m, n) : mplite_malloc(&m, n);
    VF_ASSERT(locks == l0 + 1, "the lock is taken once");
    VF_ASSERT((p != NULL) == (can != 0), "an allocation succeeds exactly when a block of that size is free");
    if (!p) return;
    check_new(p, n);
    if (zero) for (int i = 0; i < n; i++) VF_ASSERT(p[i] == 0, "calloc memory is zero");
    at[nb] = p; need[nb] = n; mark[nb] = nd_u8(); fill(nb); nb++;
}
static void do_free(int i) { if (i < nb && at[i]) { mplite_free(&m, at[i]); at[i] = NULL; } }
static void do_realloc(int i, int n) {
    if (i >= nb || !at[i]) return;
    int old = need[i], full = cls(old);
    unsigned char *o = at[i];
    int can = n <= full || fits(cls(n));
    VF_ASSERT(mplite_resize(&m, o, n) == (n <= full ? MPLITE_OK : MPLITE_ERR_INVPAR), "resize succeeds exactly within the block");
    unsigned char *p = mplite_realloc(&m, o, n);
    VF_ASSERT((p != NULL) == can, "reallocation succeeds exactly when there is room");
    if (!p) return;
    if (n <= full) VF_ASSERT(p == o, "a block that is big enough stays");
    for (int j = 0; j < old; j++) VF_ASSERT(p[j] == (unsigned char)(mark[i] + j), "reallocation keeps the content");
    if (p != o) { at[i] = NULL; check_new(p, n); at[i] = p; need[i] = n; fill(i); }
}
static void init(void) {
    mplite_lock_t l = {&token, acq, rel};
    nblock = POOL / (ATOM + 1);
    VF_ASSERT(mplite_init(&m, pool, POOL, MINA, &l) == MPLITE_OK, "initialisation succeeds");
}
/* script: digits 0..3 malloc of class ATOM<<d (d symbolic size within the class if SYM), z calloc 2 atoms,
 * a.. free block 0.., A.. realloc block 0.. to four atoms, M.. realloc block 0.. to one atom */
void h_script(void) {
    init();
    total = mplite_freemem(&m); big = mplite_maxmem(&m);
    VF_ASSERT(total == nblock * ATOM, "at first everything is free");
    for (const char *s = SCRIPT; *s; s++) {
        if (*s >= '0' && *s <= '3') do_malloc((ATOM << (*s - '0')) - CUT, 0);
        else if (*s == 'z') do_malloc(2 * ATOM - 1, 1);
        else if (*s >= 'a' && *s < 'a' + MAXB) do_free(*s - 'a');
        else if (*s >= 'A' && *s < 'A' + MAXB) do_realloc(*s - 'A', 4 * ATOM);
        else if (*s >= 'M' && *s < 'M' + MAXB) do_realloc(*s - 'M', ATOM);
        check_all();
    }
    for (int i = 0; i < MAXB; i++) do_free(i);
    check_all();
    VF_ASSERT(mplite_freemem(&m) == total && mplite_maxmem(&m) == big, "after freeing everything the pool is whole again");
    VF_REACH("end");
}
/* any sizes: m = allocate any size, f = free any block */
void h_any(void) {
    init();
    total = mplite_freemem(&m); big = mplite_maxmem(&m);
    for (const char *s = SCRIPT; *s; s++) {
        if (*s == 'm') {
            int n = nd_irange(1, nblock * ATOM + 1);
            unsigned char *p = mplite_malloc(&m, n);
            if (nb == 0) VF_ASSERT((p != NULL) == (n <= big), "an allocation succeeds exactly up to the largest free block");
            if (p) check_new(p, n);
            at[nb] = p; need[nb] = n; nb++;
            VF_ASSERT(mplite_freemem(&m) == free_bytes(), "the free amount is the pool minus the live blocks");
        } else do_free(*s - 'a');
    }
    for (int i = 0; i < nb; i++) do_free(i);
    VF_ASSERT(mplite_freemem(&m) == total && mplite_maxmem(&m) == big && !bad_lock && !depth, "after freeing everything the pool is whole again");
    VF_REACH("end");
}
/* odd pool sizes and atoms */
void h_sizes(void) {
    static const int ns[] = {1, 8, 9, 17, 18, 26, 63, 100}, as[] = {1, 7, 8, 9, 16, 30, 64, 65};
    for (unsigned x = 0; x < 8; x++) for (unsigned y = 0; y < 8; y++) {
        int n = ns[x], mina = as[y];
        unsigned char *b = (unsigned char *)malloc(n);
        VF_ASSERT(mplite_init(&m, b, n, mina, NULL) == MPLITE_OK, "any pool size works");
        int fm = mplite_freemem(&m), mm = mplite_maxmem(&m), at = 8;
        while (at < mina) at <<= 1;
        VF_ASSERT(fm == n / (at + 1) * at && mm <= fm && 2 * mm >= fm + (fm == 0 ? 0 : at), "the pool is cut into atoms and the largest pieces possible");
        unsigned char *p = mplite_malloc(&m, mm);
        VF_ASSERT((p != NULL) == (mm > 0), "the largest block can be had");
        if (p) {
            VF_ASSERT(p >= b && p + mm <= b + n, "the block lies in the pool");
            VF_ASSERT(mplite_freemem(&m) == fm - mm, "the size is taken");
            mplite_free(&m, p);
            VF_ASSERT(mplite_freemem(&m) == fm && mplite_maxmem(&m) == mm, "the pool is whole again");
        }
        VF_ASSERT(!mplite_malloc(&m, mm + 1), "more cannot be had");
        free(b);
    }
    VF_REACH("end");
}
void h_args(void) {
    int n = nd_i32(), mina = nd_i32();
    VF_ASSERT(mplite_init(NULL, pool, POOL, 8, NULL) == MPLITE_ERR_INVPAR && mplite_init(&m, NULL, POOL, 8, NULL) == MPLITE_ERR_INVPAR, "NULL arguments");
    if (n <= 0) VF_ASSERT(mplite_init(&m, pool, n, 8, NULL) == MPLITE_ERR_INVPAR, "useless size");
    if (mina <= 0) VF_ASSERT(mplite_init(&m, pool, POOL, mina, NULL) == MPLITE_ERR_INVPAR, "useless atom");
    init();
    int q = nd_i32();
    VF_ASSUME(q > POOL || q <= 0);
    VF_ASSERT(mplite_malloc(&m, q) == NULL && mplite_calloc(&m, q) == NULL && mplite_malloc(NULL, 8) == NULL, "requests which cannot be served");
    mplite_free(&m, NULL); mplite_free(NULL, pool);
    unsigned char *p = mplite_malloc(&m, 8);
    VF_ASSERT(p && !mplite_realloc(&m, p, 24) && !mplite_realloc(&m, p, 0) && !mplite_realloc(&m, NULL, 8) && !mplite_realloc(NULL, p, 8), "useless reallocations");
    int r = nd_i32();
    int ru = mplite_roundup(&m, r);
    if (r < 1 || r > MPLITE_MAX_ALLOC_SIZE) VF_ASSERT(ru == 0, "out of range");
    else VF_ASSERT(ru >= r && ru >= ATOM && (ru & (ru - 1)) == 0 && (ru == ATOM || ru / 2 < r), "rounded up to the next block size");
    VF_ASSERT(mplite_freemem(NULL) == 0 && mplite_maxmem(NULL) == 0 && !bad_lock && !depth, "NULL handle");
    VF_REACH("end");
}
