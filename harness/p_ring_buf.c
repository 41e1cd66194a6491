#include <stdio.h>
#include "ring/ring_buf.h"
int main(void) {
    static union { void *a; unsigned char b[512]; } mem;
    ring_handle q = NULL;
    for (unsigned t = 4; t < 300 && !q; t++)
        if ((q = ring_buf_create_with_mem(&mem, t))) printf("-DHDR=%u\n", t - (unsigned)ring_buf_available_write(q) - 1);
    return !q;
}
