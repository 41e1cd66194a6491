#include "vf.h"
#include "env.h"
#include "ring/fixed_msg_queue.h"
static unsigned char body[8][SZ];
static unsigned head, tail, cand;
static fixed_msg_queue q;
static void push(void) {
    unsigned char b[SZ];
    nd_bytes(b, SZ);
    for (unsigned i = 0; i < SZ; i++) body[tail][i] = b[i];
    cand = tail + 1;
    unsigned have = tail - head;
    bool ok = fixed_msg_queue_push(q, b);
    if (have < K) VF_ASSERT(ok, "push succeeds if a slot is free when it begins");
    if (ok) tail++;
    cand = tail;
}
static void pop(void) {
    unsigned char b[SZ];
    unsigned have = tail - head;
    bool ok = fixed_msg_queue_pop(q, b);
    if (have) VF_ASSERT(ok, "pop succeeds if a message is stored when it begins");
    if (ok) {
        VF_ASSERT(head < (cand > tail ? cand : tail), "nothing is popped that was never pushed");
        for (unsigned i = 0; i < SZ; i++) VF_ASSERT(b[i] == body[head][i], "a popped message is whole and unchanged while the other side is running");
        head++;
    }
}
static int main_pushes;
void vf_interfere(void) { if (main_pushes) pop(); else push(); }
void h_spsc(void) {
    q = fixed_msg_queue_create(SZ, MAXMSG);
    VF_ASSERT(q != NULL, "created");
    head = tail = cand = 0;
    vf_switches = 0;
    for (unsigned i = 0; i < PRE; i++) { unsigned char b[SZ] = {0}; fixed_msg_queue_push(q, b); fixed_msg_queue_pop(q, b); }
    for (unsigned i = 0; i < FIRST; i++) push();
    main_pushes = MAIN_PUSHES;
    vf_switches = SWITCHES;
    if (main_pushes) push(); else pop();
    if (vf_switches == 0) VF_REACH("interrupted");
    vf_switches = 0;
    for (unsigned i = 0; i < K + 1; i++) pop();
    VF_ASSERT(head == tail && fixed_msg_queue_is_empty(q), "every pushed message is popped exactly once");
    VF_REACH("end");
}
