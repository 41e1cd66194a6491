#include "vf.h"
#include "env.h"
#include "ring/ring_buf.h"
#define MAXN (SIZE + 1)
#define NSTREAM (sizeof SCRIPT * MAXN + SIZE)
static unsigned char stream_[NSTREAM];
static unsigned w, r;
#define CAPA (SIZE - 1)
static void check(ring_handle q) {
    VF_ASSERT(ring_buf_available_read(q) == w - r, "readable count is what was written and not yet consumed");
    VF_ASSERT(ring_buf_available_write(q) == CAPA - (w - r), "free space is the rest of the capacity");
}
static void step(ring_handle q, char op) {
    unsigned char buf[MAXN];
    unsigned n = nd_range(0, MAXN), have = w - r;
    size_t k;
    switch (op) {
    case 'W':
        nd_bytes(buf, MAXN);
        k = ring_buf_write(q, buf, n);
        VF_ASSERT(k == (n <= CAPA - have ? n : 0), "a write is taken whole or not at all");
        for (unsigned i = 0; i < MAXN; i++) if (i < k) stream_[w + i] = buf[i];
        w += k;
        break;
    case 'R': case 'P': case 'D':
        for (unsigned i = 0; i < MAXN; i++) buf[i] = 0xA5;
        k = op == 'R' ? ring_buf_read(q, buf, n) : op == 'P' ? ring_buf_peek(q, buf, n) : ring_buf_discard(q, n);
        VF_ASSERT(k == (n <= have ? n : 0), "a read, peek or discard is served whole or not at all");
        if (op != 'D') for (unsigned i = 0; i < MAXN; i++)
            VF_ASSERT(buf[i] == (i < k ? stream_[r + i] : 0xA5), "bytes come out in order, unchanged, and nothing beyond them is touched");
        if (op != 'P') r += k;
        break;
    case 'C':
        ring_buf_clear(q);
        r = w;
        break;
    }
    check(q);
}
/* PRE one-byte-at-a-time moves first shift both offsets, so the script starts at every offset */
void h_stream(void) {
    static const char script[] = SCRIPT;
    char *mem = malloc(HDR + SIZE + 8);
    for (unsigned i = 0; i < 8; i++) mem[HDR + SIZE + i] = 0x5A;
    ring_handle q = ring_buf_create_with_mem(mem, HDR + SIZE);
    VF_ASSERT(q != NULL, "caller-provided memory is accepted");
    w = r = 0;
    check(q);
    unsigned pre = nd_range(0, SIZE - 1);
    for (unsigned i = 0; i < SIZE - 1; i++) if (i < pre) { char c = 0; ring_buf_write(q, &c, 1); ring_buf_discard(q, 1); }
    check(q);
    for (unsigned k = 0; k < sizeof script - 1; k++) step(q, script[k]);
    for (unsigned i = 0; i < 8; i++) VF_ASSERT(mem[HDR + SIZE + i] == 0x5A, "memory after the provided block is untouched");
    ring_buf_destroy(&q);
    VF_ASSERT(q == NULL && vf_frees == 0, "destroy clears the handle and leaves the caller's memory to the caller");
    VF_REACH("end");
}
void h_create(void) {
    vf_oom = 1;
    size_t n = nd_range(0, 20);
    ring_handle q = ring_buf_create(n);
    if (n < 3) VF_ASSERT(q == NULL, "too small sizes are refused");
    if (!q) { VF_ASSERT(n < 3 || vf_failed, "creation fails only for a bad size or without memory"); VF_ASSERT(vf_live == 0, "failed creation leaks nothing"); VF_REACH("refused"); }
    else {
        VF_ASSERT(ring_buf_available_read(q) == 0 && ring_buf_available_write(q) == n - 1, "a new ring of size n holds n-1 bytes");
        char c;
        VF_ASSERT(ring_buf_read(q, &c, 1) == 0 && ring_buf_discard(q, 1) == 0, "nothing to read");
        ring_buf_destroy(&q);
        VF_ASSERT(!q && vf_live == 0, "destroy releases the memory");
        ring_buf_destroy(&q);
        VF_REACH("end");
    }
    ring_buf_destroy(NULL);
    VF_ASSERT(ring_buf_create_with_mem(NULL, 100) == NULL, "NULL memory is refused");
}
