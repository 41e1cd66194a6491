#include <stdio.h>
#include "ring/msg_queue.h"
int main(void) {
    for (unsigned b = 4; b < 400; b++) {
        msg_queue q = msg_queue_create(b);
        if (!q) continue;
        unsigned cap = msg_queue_available_push_bytes(q);
        if (cap == WANT) {
            char c = 0;
            msg_queue_push(q, &c, 1);
            printf("-DBUFSZ=%u -DCAP=%u -DHDRB=%u\n", b, cap, msg_queue_available_pop_bytes(q) - 1);
            return 0;
        }
        msg_queue_destroy(&q);
    }
    return 1;
}
