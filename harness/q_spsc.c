#include "vf.h"
#include "env.h"
#include "ring/msg_queue.h"
/* One thread works on the message queue and is interrupted, inside any copy, by one whole operation of the other thread. */
#define MAXL 6
#define NM 6
static unsigned char body[NM][MAXL];
static unsigned len[NM], head, tail, cand;   /* messages [head, tail) are pushed; message `cand` - 1 may be in flight */
static msg_queue q;
static int main_pushes;
static void push(void) {
    unsigned n = nd_range(1, MAXL);
    unsigned char b[MAXL];
    nd_bytes(b, MAXL);
    for (unsigned i = 0; i < MAXL; i++) body[tail][i] = b[i];
    len[tail] = n;
    cand = tail + 1;
    unsigned room = msg_queue_available_push_bytes(q);
    msg_q_code_e c = msg_queue_push(q, b, n);
    if (n + HDRB <= room) VF_ASSERT(c == MSG_Q_CODE_SUCCESS, "a message that fits when push begins is accepted");
    else VF_ASSERT(c == MSG_Q_CODE_FULL || c == MSG_Q_CODE_SUCCESS, "otherwise the queue may be full");
    if (c == MSG_Q_CODE_SUCCESS) tail++;
    cand = tail;
}
static void pop(void) {
    unsigned char b[MAXL];
    uint32_t sz = MAXL;
    unsigned t0 = tail;
    for (unsigned i = 0; i < MAXL; i++) b[i] = 0xA5;
    msg_q_code_e c = msg_queue_pop(q, b, &sz);
    if (c == MSG_Q_CODE_SUCCESS) {
        VF_ASSERT(head < (cand > tail ? cand : tail), "nothing is popped that was never pushed");
        VF_ASSERT(sz == len[head], "popped size is the pushed size");
        for (unsigned i = 0; i < MAXL; i++) VF_ASSERT(b[i] == (i < sz ? body[head][i] : 0xA5), "a popped message is whole, in order and unchanged while the other side is running");
        head++;
    } else if (c == MSG_Q_CODE_EMPTY || c == MSG_Q_CODE_AGAIN) {
        VF_ASSERT(head == t0, "a completely pushed message can be popped");
        if (c == MSG_Q_CODE_AGAIN) VF_REACH("incomplete message seen");
    } else VF_ASSERT(0, "pop reports only success, empty or try again here");
}
void vf_interfere(void) { if (main_pushes) pop(); else push(); }
void h_spsc(void) {
    q = msg_queue_create(BUFSZ);
    VF_ASSERT(q != NULL, "created");
    head = tail = cand = 0;
    vf_switches = 0;
    for (unsigned i = 0; i < PRE; i++) { char c = 0; uint32_t s = 1; msg_queue_push(q, &c, 1); msg_queue_pop(q, &c, &s); }
    if (FIRST) push();
    main_pushes = MAIN_PUSHES;
    vf_switches = SWITCHES;
    if (main_pushes) push(); else pop();
    if (vf_switches == 0) VF_REACH("interrupted");
    vf_switches = 0;
    pop();
    pop();
    VF_ASSERT(head == tail, "every pushed message is popped exactly once");
    VF_ASSERT(msg_queue_available_pop_bytes(q) == 0, "nothing remains");
    VF_REACH("end");
}
