#include "vf.h"
#include "env.h"
#include "ring/msg_queue.h"
/* CAP: bytes of the queue's ring; HDRB: bytes a stored message costs beyond its
 * payload (both measured on the native build by p_msgqueue.c) */
#define MAXL (CAP + 1)
#define NM (sizeof SCRIPT + 1)
static unsigned char body[NM][MAXL];
static unsigned len[NM], head, tail, used;

static void check(msg_queue q) {
    VF_ASSERT(msg_queue_available_pop_bytes(q) == used && msg_queue_available_push_bytes(q) == CAP - used, "byte counts add up to the capacity");
    VF_ASSERT(msg_queue_next_msg_size(q) == (head == tail ? 0 : len[head]), "the next message's size is announced");
}
static void push(msg_queue q, unsigned n) {
    unsigned char b[MAXL];
    nd_bytes(b, MAXL);
    msg_q_code_e c = msg_queue_push(q, b, n);
    if (n == 0) VF_ASSERT(c != MSG_Q_CODE_SUCCESS, "empty messages are refused");
    else if (n + HDRB <= CAP - used) {
        VF_ASSERT(c == MSG_Q_CODE_SUCCESS, "a message that fits is accepted");
        for (unsigned i = 0; i < MAXL; i++) body[tail][i] = b[i];
        len[tail++] = n;
        used += n + HDRB;
    } else VF_ASSERT(c == MSG_Q_CODE_FULL, "a message that does not fit is refused whole");
    check(q);
}
static void pop(msg_queue q, unsigned room) {
    unsigned char b[MAXL];
    for (unsigned i = 0; i < MAXL; i++) b[i] = 0xA5;
    uint32_t sz = room;
    msg_q_code_e c = msg_queue_pop(q, b, &sz);
    unsigned got = 0;
    if (head == tail) { VF_ASSERT(c == MSG_Q_CODE_EMPTY, "an empty queue says so"); VF_REACH("empty"); }
    else if (len[head] > room) {
        VF_ASSERT(c == MSG_Q_CODE_BUF_NOT_ENOUGH && sz == len[head], "a too small buffer is reported with the needed size");
        VF_REACH("short buffer");
    } else {
        VF_ASSERT(c == MSG_Q_CODE_SUCCESS && sz == len[head], "the oldest message is delivered with its size");
        got = len[head];
    }
    for (unsigned i = 0; i < MAXL; i++) VF_ASSERT(b[i] == (i < got ? body[head][i] : 0xA5), "messages come out whole, in order, unchanged, and nothing beyond them is written");
    if (got) { used -= got + HDRB; head++; VF_REACH("popped"); }
    check(q);
}
void h_queue(void) {
    static const char script[] = SCRIPT;
    msg_queue q = msg_queue_create(BUFSZ);
    VF_ASSERT(q != NULL && vf_live == 1, "creation succeeds with memory");
    check(q);
    for (unsigned i = 0; i < PRE; i++) {    /* shift the ring so that messages and their headers wrap */
        char c = 0; uint32_t s = 1;
        msg_queue_push(q, &c, 1);
        msg_queue_pop(q, &c, &s);
    }
    for (unsigned k = 0; k < sizeof script - 1; k++) {
        if (script[k] == 'P') push(q, nd_range(0, MAXL));
        else if (script[k] == 'O') pop(q, nd_range(0, MAXL));
        else { msg_queue_clear(q); head = tail; used = 0; check(q); }
    }
    msg_queue_destroy(&q);
    VF_ASSERT(q == NULL && vf_live == 0, "destroy releases everything");
    VF_REACH("end");
}
void h_args(void) {
    char c; uint32_t n = 1;
    msg_queue q = msg_queue_create(BUFSZ);
    VF_ASSERT(q != NULL, "creation succeeds with memory");
    VF_ASSERT(msg_queue_push(NULL, &c, 1) != MSG_Q_CODE_SUCCESS && msg_queue_push(q, NULL, 1) != MSG_Q_CODE_SUCCESS, "NULL is refused");
    VF_ASSERT(msg_queue_pop(NULL, &c, &n) != MSG_Q_CODE_SUCCESS && msg_queue_pop(q, NULL, &n) != MSG_Q_CODE_SUCCESS && msg_queue_pop(q, &c, NULL) != MSG_Q_CODE_SUCCESS, "NULL is refused");
    VF_ASSERT(msg_queue_next_msg_size(NULL) == 0, "NULL queue has no message");
    VF_ASSERT(msg_queue_push(q, &c, nd_range(CAP, 0xffffffffu)) == MSG_Q_CODE_FULL && msg_queue_available_pop_bytes(q) == 0, "huge messages are refused");
    msg_queue_destroy(&q);
    msg_queue_destroy(&q);
    msg_queue_destroy(NULL);
    VF_ASSERT(vf_live == 0, "nothing leaks");
    vf_oom = 1;
    q = msg_queue_create(nd_bool() ? BUFSZ : nd_range(0, 12));
    if (!q) { VF_ASSERT(vf_live == 0, "failed creation leaks nothing"); VF_REACH("refused"); }
    else VF_ASSERT(vf_live == 1, "one block");
    VF_REACH("end");
}
