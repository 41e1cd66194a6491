#include "vf.h"
#include "env.h"
#include "data/list.h"
#ifndef N
#define N 4
#endif
#define M (N + 3)
static int items[4];
static int freed[4];                 /* how often each item was handed to the callback */
static int ref[M], rn;               /* reference sequence (indices into items) */
static int seen[M + 1], seen_n, stop_at;
static void cb_free(void *d) { freed[(int *)d - items]++; }
static bool cb_iter(void *d, void *ctx) {
    VF_ASSERT(ctx == (void *)&seen_n, "context is passed through");
    VF_ASSERT(seen_n < M, "no element is visited twice");
    seen[seen_n++] = (int)((int *)d - items);
    return seen_n - 1 != stop_at;
}
static int pick(void) { return nd_range(0, 2); }
static void observe(list_t *l) {
    VF_ASSERT(list_length(l) == (size_t)rn, "length");
    VF_ASSERT(list_is_empty(l) == (rn == 0), "emptiness");
    if (rn) {
        VF_ASSERT(list_front(l) == &items[ref[0]], "front element");
        VF_ASSERT(list_back(l) == &items[ref[rn - 1]], "back element");
        VF_ASSERT(list_node(list_back_node(l)) == &items[ref[rn - 1]], "back node");
        VF_ASSERT(list_next(list_back_node(l)) == list_end(l), "nothing after the back node");
    }
    int i = 0;
    list_node_t *n = list_begin(l);
    for (; i < M && n != list_end(l); i++, n = list_next(n)) {
        if (i >= rn) break;
        VF_ASSERT(list_node(n) == &items[ref[i]], "iteration order");
    }
    VF_ASSERT(i == rn && n == list_end(l), "iteration covers exactly the elements");
    int q = nd_range(0, 3), has = 0;
    for (int k = 0; k < rn; k++) has |= ref[k] == q;
    VF_ASSERT(list_contains(l, &items[q]) == (has != 0), "membership");
    stop_at = nd_range(0, M);
    seen_n = 0;
    list_node_t *last = list_foreach(l, cb_iter, &seen_n);
    int expect = stop_at < rn ? stop_at + 1 : rn;
    VF_ASSERT(seen_n == expect, "foreach visits until told to stop");
    for (int k = 0; k < expect && k < seen_n; k++) VF_ASSERT(seen[k] == ref[k], "foreach order");
    if (stop_at < rn) VF_ASSERT(last && list_node(last) == &items[ref[stop_at]], "foreach returns the stopping node");
    else VF_ASSERT(last == NULL, "foreach returns nothing when completed");
}
static void ins(int at, int v) {
    for (int k = rn; k > at; k--) ref[k] = ref[k - 1];
    ref[at] = v;
    rn++;
}
static void step(list_t *l, int cbs, int op) {
    int v = pick();
    int before[4];
    for (int k = 0; k < 4; k++) before[k] = freed[k];
    unsigned f0 = vf_failed;
    if (op == 0) {
        if (list_append(l, &items[v])) ins(rn, v);
        else VF_ASSERT(vf_failed > f0, "append fails only without memory");
    } else if (op == 1) {
        if (list_prepend(l, &items[v])) ins(0, v);
        else VF_ASSERT(vf_failed > f0, "prepend fails only without memory");
    } else if (op == 2) {
        int at = nd_range(0, M);
        VF_ASSUME(at < rn);
        list_node_t *n = list_begin(l);
        for (int k = 0; k < at; k++) n = list_next(n);
        if (list_insert_after(l, n, &items[v])) ins(at + 1, v);
        else VF_ASSERT(vf_failed > f0, "insert fails only without memory");
        VF_REACH("insert");
    } else if (op == 3) {
        int at = -1;
        for (int k = rn - 1; k >= 0; k--) if (ref[k] == v) at = k;
        bool r = list_remove(l, &items[v]);
        VF_ASSERT(r == (at >= 0), "remove reports whether the element was there");
        if (at >= 0) {
            for (int k = at; k + 1 < rn; k++) ref[k] = ref[k + 1];
            rn--;
            before[v]++;
            VF_REACH("remove");
        }
    } else {
        list_clear(l);
        for (int k = 0; k < rn; k++) before[ref[k]]++;
        rn = 0;
    }
    if (cbs) for (int k = 0; k < 4; k++) VF_ASSERT(freed[k] == before[k], "cleanup callback runs exactly once per removed element");
}
/* any list of LEN elements (duplicates allowed), then two arbitrary operations
 * (the first one fixed per run), each allocation may fail */
static void run(int op1) {
    int cbs = nd_bool();
    list_t *l = list_new(cbs ? cb_free : NULL);
    rn = 0;
    for (int k = 0; k < LEN; k++) {
        int v = pick();
        list_append(l, &items[v]);
        ins(rn, v);
    }
    vf_oom = 1;
    step(l, cbs, op1);
    step(l, cbs, nd_range(0, 4));
    observe(l);
    int before[4];
    for (int k = 0; k < 4; k++) before[k] = freed[k];
    for (int k = 0; k < rn; k++) before[ref[k]]++;
    list_free(l);
    if (cbs) for (int k = 0; k < 4; k++) VF_ASSERT(freed[k] == before[k], "freeing the list cleans each remaining element once");
    VF_ASSERT(vf_live == 0, "freeing the list releases every node");
    vf_oom = 0;
}
void h_list(void) {
    run(OP1);
    VF_REACH("end");
}
/* NULL list and arguments are harmless */
void h_null(void) {
    int x;
    VF_ASSERT(!list_append(NULL, &x) && !list_prepend(NULL, &x) && !list_remove(NULL, &x), "NULL list");
    VF_ASSERT(list_length(NULL) == 0 && !list_contains(NULL, &x) && !list_foreach(NULL, cb_iter, 0), "NULL list");
    list_free(NULL);
    vf_oom = 1;
    list_t *l = list_new(NULL);
    if (!l) { VF_REACH("no memory"); return; }
    VF_ASSERT(!list_append(l, NULL) && !list_prepend(l, NULL) && list_length(l) == 0, "NULL data refused");
    VF_ASSERT(list_front(l) == NULL && list_back(l) == NULL, "empty list has no ends");
    list_free(l);
    VF_ASSERT(vf_live == 0, "no leak");
    VF_REACH("end");
}
