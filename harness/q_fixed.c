#include "vf.h"
#include "env.h"
#include "ring/fixed_msg_queue.h"
/* SZ bytes per message, MAXMSG requested, K usable slots (measured by p_fixed.c) */
#define NM (sizeof SCRIPT + K + 2)
static unsigned char body[NM][SZ];
static unsigned head, tail;
static void check(fixed_msg_queue q) {
    VF_ASSERT(fixed_msg_queue_available_pop_amount(q) == tail - head, "stored amount");
    VF_ASSERT(fixed_msg_queue_available_push_amount(q) == K - (tail - head), "free amount: the number of slots is constant");
    VF_ASSERT(fixed_msg_queue_is_empty(q) == (tail == head) && fixed_msg_queue_is_full(q) == (tail - head == K), "flags agree with the amounts");
}
static void push(fixed_msg_queue q) {
    unsigned char b[SZ];
    nd_bytes(b, SZ);
    bool ok = fixed_msg_queue_push(q, b);
    VF_ASSERT(ok == (tail - head < K), "push succeeds exactly when a slot is free");
    if (tail - head < K) { for (unsigned i = 0; i < SZ; i++) body[tail][i] = b[i]; tail++; }
    check(q);
}
static void pop(fixed_msg_queue q) {
    unsigned char b[SZ + 2];
    for (unsigned i = 0; i < SZ + 2; i++) b[i] = 0xA5;
    bool ok = fixed_msg_queue_pop(q, b);
    VF_ASSERT(ok == (tail > head), "pop succeeds exactly when a message is stored");
    for (unsigned i = 0; i < SZ + 2; i++) VF_ASSERT(b[i] == (ok && i < SZ ? body[head][i] : 0xA5), "messages come out whole, in order and unchanged");
    if (tail > head) head++;
    check(q);
}
/* 'A' in the script stands for push or pop: every choice is tried (NA of them),
 * from every starting slot up to PRE; contents are symbolic */
static void run(unsigned pre, unsigned mask) {
    static const char script[] = SCRIPT;
    fixed_msg_queue q = fixed_msg_queue_create(SZ, MAXMSG);
    VF_ASSERT(q != NULL && vf_live == 1, "creation succeeds with memory");
    VF_ASSERT(K <= MAXMSG, "never more slots than requested");
    head = tail = 0;
    check(q);
    for (unsigned i = 0; i < pre; i++) { unsigned char b[SZ] = {0}; fixed_msg_queue_push(q, b); fixed_msg_queue_pop(q, b); }
    check(q);
    for (unsigned k = 0; k < sizeof script - 1; k++) {
        if (script[k] == 'P') push(q);
        else if (script[k] == 'O') pop(q);
        else if (script[k] == 'N') { VF_ASSERT(!fixed_msg_queue_pop(q, NULL), "nothing is popped to nowhere"); check(q); }
        else if (script[k] == 'A') { if (mask & 1) push(q); else pop(q); mask >>= 1; }
        else { fixed_msg_queue_clear(q); head = tail; check(q); }
    }
    fixed_msg_queue_destroy(&q);
    VF_ASSERT(q == NULL && vf_live == 0, "destroy releases everything");
    fixed_msg_queue_destroy(&q);
    fixed_msg_queue_destroy(NULL);
}
void h_fixed(void) {
    for (unsigned pre = 0; pre <= PRE; pre++)
        for (unsigned mask = 0; mask < (1u << NA); mask++) run(pre, mask);
    VF_REACH("end");
}
void h_args(void) {
    VF_ASSERT(!fixed_msg_queue_create(0, 4) && !fixed_msg_queue_create(4, 0) && vf_live == 0, "useless sizes are refused");
    vf_oom = 1;
    fixed_msg_queue q = fixed_msg_queue_create(SZ, MAXMSG);
    VF_ASSERT((q != NULL) == (vf_failed == 0), "creation fails exactly without memory");
    if (!q) { VF_ASSERT(vf_live == 0, "failed creation leaks nothing"); VF_REACH("refused"); }
    VF_REACH("end");
}
