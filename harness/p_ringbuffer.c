/* prints where the free-running counters live in a RingBuffer handle */
#include <stdio.h>
#include <string.h>
#include "ring/ringbuffer.h"
int main(void) {
    static union { void *a; unsigned char b[256]; } mem, s0, s1, s2;
    unsigned hdr = 0; int iw = -1, ir = -1; char c = 0;
    ring_buffer_handle q = NULL;
    for (unsigned t = 5; t < 200 && !q; t++)
        if ((q = RingBuffer_create_with_mem(&mem, t))) hdr = t - RingBuffer_real_capacity(q);
    if (!q) return 1;
    printf("-DHDR=%u\n", hdr);
    s0 = mem; RingBuffer_write(q, &c, 1); s1 = mem; RingBuffer_read(q, &c, 1); s2 = mem;
    for (unsigned i = 0; i < hdr; i += 4) {
        if (memcmp(s0.b + i, s1.b + i, 4)) { if (iw >= 0) return 0; iw = i; }
        if (memcmp(s1.b + i, s2.b + i, 4)) { if (ir >= 0) return 0; ir = i; }
    }
    if (iw < 0 || ir < 0 || iw == ir) return 0;
    unsigned v = 0x87654321u;
    memcpy(mem.b + iw, &v, 4); memcpy(mem.b + ir, &v, 4);
    if (RingBuffer_current_write_position(q) != v || RingBuffer_current_read_position(q) != v || RingBuffer_available_read(q) != 0) return 0;
    printf("-DIW=%d -DIR=%d\n", iw, ir);
    return 0;
}
