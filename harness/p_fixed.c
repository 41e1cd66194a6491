#include <stdio.h>
#include "ring/fixed_msg_queue.h"
int main(void) {
    fixed_msg_queue q = fixed_msg_queue_create(SZ, MAXMSG);
    if (!q) return 1;
    printf("-DK=%u\n", fixed_msg_queue_available_push_amount(q));
    return 0;
}
