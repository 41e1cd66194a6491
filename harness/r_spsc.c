#include "vf.h"
#include "env.h"
#include "ring/ringbuffer.h"
/* One thread (main) is interrupted inside its copies by one whole operation of
 * the other.  What the reader gets must be what the writer wrote, in order. */
#define MAXN CAP
#define NS (CAP * 6)
static unsigned char s_[NS];
static unsigned w, r, limit;     /* limit: stream positions the writer may have published so far */
static ring_buffer_handle q;
static int main_writes;
static unsigned slack;           /* space / data the other side freed / added meanwhile */

static void wr(void) {
    unsigned char b[MAXN];
    nd_bytes(b, MAXN);
    unsigned n = nd_range(1, MAXN), have = w - r, want = CAP - have;
    for (unsigned i = 0; i < MAXN; i++) if (i < n) s_[w + i] = b[i];
    unsigned r0 = r;
    limit = w + n;
    unsigned k = RingBuffer_write(q, b, n);
    unsigned lo = n < want ? n : want, freed = want + (r - r0), hi = n < freed ? n : freed;
    VF_ASSERT(k >= lo && k <= hi, "write accepts at least what fitted when it began and never more than is free");
    w += k; limit = w;
}
static void rd(void) {
    unsigned char b[MAXN];
    unsigned n = nd_range(1, MAXN), avail = w - r;
    unsigned k;
    unsigned op = OPS ? nd_range(0, 2) : 0;
    unsigned w0 = w;
    k = op == 0 ? RingBuffer_read(q, b, n) : op == 1 ? RingBuffer_peek(q, b, n) : RingBuffer_discard(q, n);
    VF_ASSERT(k >= (n < avail ? n : avail) && k <= n, "read returns at least what was stored when it began");
    VF_ASSERT(r + k <= (limit > w ? limit : w), "nothing is read that was never written");
    if (op != 2) for (unsigned i = 0; i < MAXN; i++) if (i < k) VF_ASSERT(b[i] == s_[r + i], "the reader gets the written bytes in order while the writer is running");
    if (op != 1) r += k;
}
void vf_interfere(void) { if (main_writes) rd(); else wr(); }
void h_spsc(void) {
    char *mem = malloc(HDR + CAP);
    q = RingBuffer_create_with_mem(mem, HDR + CAP);
    VF_ASSERT(q != NULL, "created");
#ifdef IW
    uint32_t base = nd_u32();
    *(uint32_t *)((char *)q + IW) = base;
    *(uint32_t *)((char *)q + IR) = base;
#endif
    w = r = limit = 0;
    vf_switches = 0;
    wr();
    if (nd_bool()) rd();
    main_writes = MAIN_WRITES;
    vf_switches = SWITCHES;
    if (main_writes) wr(); else rd();
    if (vf_switches == 0) VF_REACH("interrupted");
    vf_switches = 0;
    if (!main_writes) wr();
    rd();
    rd();
    VF_ASSERT(RingBuffer_available_read(q) == w - r, "no byte is lost or invented");
    VF_REACH("end");
}
