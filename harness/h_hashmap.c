#include "vf.h"
#include "env.h"
#include <errno.h>
#include "data/hashmap.h"
#ifndef IDS
#define IDS 3
#endif
#ifndef LEN
#define LEN 2
#endif
/* each identity has two distinct, equal key objects; values are opaque tags 1 + index */
static struct key { int id, o; } keys[IDS][2];
#define KEY(id, o) ((void *)&keys[id][o])
#define KID(k) (((const struct key *)(k))->id)
#define KO(k) (((const struct key *)(k))->o)
#define NV 4
static int hashes[IDS];
static int kfreed[IDS][2], vfreed[NV];
static int held, locks;
static int rkey[IDS], rval[IDS], rhas[IDS], rn;   /* reference map: id -> which key object, which value (-1 = NULL) */
static int h_(const void *k) { return hashes[KID(k)]; }
static bool eq_(const void *a, const void *b) { return KID(a) == KID(b); }
static void kf_(void *k) { kfreed[KID(k)][KO(k)]++; }
static void vf_(void *v) { vfreed[(uintptr_t)v - 1]++; }
static int acq(void *a) { VF_ASSERT(a == &locks && !held, "lock taken when free, with its argument"); held = 1; locks++; return 0; }
static int rel(void *a) { VF_ASSERT(a == &locks && held, "lock released when held, with its argument"); held = 0; return 0; }
static int ek[IDS][2], ev[NV];        /* expected callback counts */
static void *vptr(int v) { return (void *)(uintptr_t)(v + 1); }
static int cbs;
static void expect_unlocked(int l0) { VF_ASSERT(!held && locks == l0 + 1, "each operation takes and releases the lock once"); }

static void do_put(hashmap_t *m, int id, int ko, int v) {
    int l0 = locks; unsigned f0 = vf_failed;
    errno = 0;
    void *r = hashmap_put(m, KEY(id, ko), vptr(v));
    expect_unlocked(l0);
    if (rhas[id]) {
        VF_ASSERT(r == vptr(rval[id]), "put returns the replaced value");
        if (rval[id] >= 0 && cbs) ev[rval[id]]++;
        rval[id] = v;
        VF_ASSERT(errno == 0, "replacing needs no memory");
    } else if (errno == ENOMEM) {
        VF_ASSERT(vf_failed > f0 && r == NULL, "put reports lack of memory only when there is one");
    } else {
        VF_ASSERT(r == NULL, "put of a new key returns nothing");
        rhas[id] = 1; rkey[id] = ko; rval[id] = v; rn++;
    }
}
static void do_remove(hashmap_t *m, int id, int ko) {
    int l0 = locks;
    void *r = hashmap_remove(m, KEY(id, ko));
    expect_unlocked(l0);
    if (rhas[id]) {
        VF_ASSERT(r == vptr(rval[id]), "remove returns the value");
        if (cbs) { ek[id][rkey[id]]++; if (rval[id] >= 0) ev[rval[id]]++; }
        rhas[id] = 0; rn--;
    } else VF_ASSERT(r == NULL, "remove of an absent key returns nothing");
}
static void forget_all(void) {
    for (int i = 0; i < IDS; i++) if (rhas[i]) {
        if (cbs) { ek[i][rkey[i]]++; if (rval[i] >= 0) ev[rval[i]]++; }
        rhas[i] = 0;
    }
    rn = 0;
}
static int seen[IDS], seen_n, stop_at, it_on;
static bool it(void *k, void *v, void *c) {
    VF_ASSERT(c == &seen_n, "context is passed through");
    VF_ASSERT(it_on, "no callback after it asked to stop");
    int id = KID(k);
    VF_ASSERT(rhas[id] && KO(k) == rkey[id] && v == vptr(rval[id]), "iteration yields stored pairs");
    seen[id]++;
    VF_ASSERT(seen[id] == 1, "iteration yields each pair once");
    if (seen_n++ == stop_at) { it_on = 0; return false; }
    return true;
}
static void observe(hashmap_t *m) {
    VF_ASSERT(hashmap_size(m) == (size_t)rn, "size is the number of keys");
    for (int i = 0; i < IDS; i++) {
        int l0 = locks;
        void *r = hashmap_get(m, KEY(i, i & 1));
        expect_unlocked(l0);
        VF_ASSERT(r == (rhas[i] ? vptr(rval[i]) : NULL), "get returns the latest value of the key");
    }
}
static void iterate_until(hashmap_t *m, int stop) {
    stop_at = stop;
    seen_n = 0; it_on = 1;
    for (int i = 0; i < IDS; i++) seen[i] = 0;
    int l0 = locks;
    hashmap_foreach(m, it, &seen_n);
    expect_unlocked(l0);
    VF_ASSERT(seen_n == (stop_at < rn ? stop_at + 1 : rn), "foreach stops when told, otherwise visits all");
}
static void iterate(hashmap_t *m) { for (int i = 0; i <= IDS; i++) iterate_until(m, i); }
static void counts(void) {
    for (int i = 0; i < IDS; i++) for (int j = 0; j < 2; j++) VF_ASSERT(kfreed[i][j] == ek[i][j], "key cleanup runs once per removed key");
    for (int i = 0; i < NV; i++) VF_ASSERT(vfreed[i] == ev[i], "value cleanup runs once per dropped value");
}
/* one operation per character: 'a'.. put key object 0 of identity 0.. ,
 * 'A'.. put its other key object, '0'.. remove identity 0.., 'x' clear.
 * Stored values are symbolic; the
 * FAILAT-th allocation of the script fails (0 = none). */
static void run_script(void) {
    static const char script[] = SCRIPT;
    cbs = CBS;
    for (int i = 0; i < IDS; i++) { rhas[i] = 0; for (int j = 0; j < 2; j++) keys[i][j].id = i, keys[i][j].o = j, kfreed[i][j] = ek[i][j] = 0; }
    for (int i = 0; i < NV; i++) vfreed[i] = ev[i] = 0;
    rn = 0;
    hashmap_lock_t lock = {&locks, acq, rel};
    hashmap_t *m = hashmap_create(CAP, h_, cbs ? kf_ : NULL, cbs ? vf_ : NULL, eq_, &lock);
    VF_ASSERT(m != NULL, "creation succeeds with memory");
    vf_fail_at = FAILAT < 90 ? FAILAT : 0;
    vf_nocalloc = FAILAT == 99;   /* the table can never grow */
    for (unsigned k = 0; k < sizeof script - 1; k++) {
        char c = script[k];
        if (c == 'x') { int l0 = locks; hashmap_clear(m); expect_unlocked(l0); forget_all(); }
        else if (c >= 'a') do_put(m, c - 'a', 0, nd_irange(-1, NV - 1));
        else if (c >= 'A') do_put(m, c - 'A', 1, nd_irange(-1, NV - 1));
        else do_remove(m, c - '0', 1);
    }
    vf_fail_at = 0; vf_nocalloc = 0;
    observe(m);
    iterate(m);
    counts();
    hashmap_free(m);
    VF_ASSERT(!held, "the lock is free after destruction");
    forget_all();
    counts();
    VF_ASSERT(vf_live == 0, "freeing the map releases every block");
}
/* arbitrary hash values */
void h_map_anyhash(void) {
    for (int i = 0; i < IDS; i++) hashes[i] = nd_i32();
    run_script();
    VF_REACH("end");
}
/* case split over collision patterns: equal hashes, same bucket with different
 * hashes, same bucket only while the table is small, different buckets */
static const int reps[] = REPS;
#define NREP ((int)(sizeof reps / sizeof *reps))
void h_map(void) {
    for (int n = 0; n < PATS; n++) {
        int x = n;
        for (int i = 0; i < IDS; i++) { hashes[i] = reps[x % NREP]; x /= NREP; }
        if (n % SHARDS == SHARD) run_script();
    }
    VF_REACH("end");
}
void h_null(void) {
    VF_ASSERT(hashmap_put(NULL, KEY(0, 0), vptr(1)) == NULL && hashmap_get(NULL, KEY(0, 0)) == NULL && hashmap_remove(NULL, KEY(0, 0)) == NULL, "NULL map");
    hashmap_clear(NULL); hashmap_foreach(NULL, it, 0); hashmap_free(NULL);
    vf_oom = 1;   /* any allocation may fail */
    hashmap_t *m = hashmap_create(2, h_, NULL, NULL, eq_, NULL);
    if (!m) { VF_ASSERT(vf_failed && vf_live == 0, "failed creation leaks nothing"); VF_REACH("no memory"); return; }
    VF_ASSERT(hashmap_size(m) == 0 && hashmap_get(m, KEY(0, 0)) == NULL, "a new map is empty");
    hashmap_free(m);
    VF_ASSERT(vf_live == 0, "no leak");
    VF_REACH("end");
}
