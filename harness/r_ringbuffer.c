#include "vf.h"
#include "env.h"
#include "ring/ringbuffer.h"
#ifndef CAP
#define CAP 4
#endif
#ifndef SCRIPT
#define SCRIPT ""
#endif
#ifndef MAXN
#define MAXN (CAP + 2)
#endif
#define NSTREAM (sizeof SCRIPT * MAXN)
static unsigned char stream_[NSTREAM];  /* all bytes ever accepted, in order */
static unsigned w, r;                   /* stream positions of writer and reader */
static uint32_t base;                   /* 32-bit counter value at stream position 0 */

static void check(ring_buffer_handle q) {
    VF_ASSERT(RingBuffer_available_read(q) == w - r, "readable count is what was written and not yet consumed");
    VF_ASSERT(RingBuffer_available_write(q) == CAP - (w - r), "free space is the rest of the capacity");
    VF_ASSERT(RingBuffer_is_empty(q) == (w == r) && RingBuffer_is_full(q) == (w - r == CAP), "empty and full flags agree with the counts");
    VF_ASSERT(RingBuffer_real_capacity(q) == CAP, "capacity is constant");
    VF_ASSERT((uint32_t)(RingBuffer_current_write_position(q) - RingBuffer_current_read_position(q)) == w - r, "positions differ by the stored count");
}

/* HDR, IW, IR: size of the handle's header and the offsets of its two counters,
 * found by p_ringbuffer.c on the natively compiled code.  Starting from an
 * arbitrary counter value is legitimate: counter-many one-byte transfers reach it. */
static unsigned nd_len(void) { return nd_range(0, MAXN); }

static void step(ring_buffer_handle q, char op) {
    unsigned char buf[MAXN];
    unsigned n = nd_len(), k, have = w - r;
    uint32_t win = RingBuffer_current_write_position(q), wout = RingBuffer_current_read_position(q);
    switch (op) {
    case 'W':
        nd_bytes(buf, MAXN);
        k = RingBuffer_write(q, buf, n);
        VF_ASSERT(k == (n < CAP - have ? n : CAP - have), "write accepts as much as fits");
        for (unsigned i = 0; i < MAXN; i++) if (i < k) stream_[w + i] = buf[i];
        w += k;
        VF_ASSERT(RingBuffer_current_write_position(q) == (uint32_t)(win + k) && RingBuffer_current_read_position(q) == wout, "write moves only the write position, by the accepted count");
        break;
    case 'R': case 'P': case 'D':
        for (unsigned i = 0; i < MAXN; i++) buf[i] = 0xA5;
        k = op == 'R' ? RingBuffer_read(q, buf, n) : op == 'P' ? RingBuffer_peek(q, buf, n) : RingBuffer_discard(q, n);
        VF_ASSERT(k == (n < have ? n : have), "read, peek and discard return as much as is stored");
        if (op != 'D') for (unsigned i = 0; i < MAXN; i++)
            VF_ASSERT(buf[i] == (i < k ? stream_[r + i] : 0xA5), "bytes come out in order, unchanged, and nothing beyond them is touched");
        if (op != 'P') r += k;
        VF_ASSERT(RingBuffer_current_read_position(q) == (uint32_t)(wout + (op == 'P' ? 0 : k)) && RingBuffer_current_write_position(q) == win, "only a consuming read moves the read position");
        break;
    case 'C':
        RingBuffer_clear(q);
        r = w;
        break;
    }
    check(q);
}

void h_stream(void) {
    static const char script[] = SCRIPT;
    char *mem = malloc(HDR + CAP + 8), *after = mem + HDR + CAP;
    ring_buffer_handle q = RingBuffer_create_with_mem(mem, HDR + CAP);
    VF_ASSERT(q != NULL && RingBuffer_real_capacity(q) == CAP, "caller-provided memory is accepted");
    for (unsigned i = 0; i < 8; i++) after[i] = 0x5A;
    w = r = 0;
    check(q);
#ifdef IW
    base = nd_u32();
    *(uint32_t *)((char *)q + IW) = base;
    *(uint32_t *)((char *)q + IR) = base;
    VF_ASSERT(RingBuffer_current_write_position(q) == base && RingBuffer_current_read_position(q) == base, "positions are the counters");
#endif
    check(q);
    for (unsigned k = 0; k < sizeof script - 1; k++) step(q, script[k]);
    for (unsigned i = 0; i < 8; i++) VF_ASSERT(after[i] == 0x5A, "memory after the provided block is untouched");
    RingBuffer_destroy(&q);
    VF_ASSERT(q == NULL && vf_frees == 0, "destroy clears the handle and leaves the caller's memory to the caller");
    VF_REACH("end");
}
static uint32_t roundup(uint32_t x) { uint32_t p = 1; while (p < x) p <<= 1; return p; }
void h_create(void) {
    vf_oom = 1;
    uint32_t n = nd_range(0, 40);
    ring_buffer_handle q = RingBuffer_create(n);
    if (n < 2) VF_ASSERT(q == NULL, "sizes below two are refused");
    if (!q) {
        VF_ASSERT(n <= 2 || vf_failed, "creation fails only for a bad size or without memory");
        VF_ASSERT(vf_live == 0, "failed creation leaks nothing");
        VF_REACH("refused");
    } else {
        VF_ASSERT(vf_live == 1, "one block per ring");
        VF_ASSERT(RingBuffer_real_capacity(q) == roundup(n), "capacity is the request rounded up to a power of two");
        VF_ASSERT(RingBuffer_is_empty(q) && !RingBuffer_is_full(q) && RingBuffer_available_read(q) == 0 && RingBuffer_available_write(q) == RingBuffer_real_capacity(q), "a new ring is empty");
        char c = 1;
        VF_ASSERT(RingBuffer_read(q, &c, 1) == 0 && RingBuffer_peek(q, &c, 1) == 0 && RingBuffer_discard(q, 1) == 0, "nothing to read from a new ring");
        VF_ASSERT(RingBuffer_write(q, NULL, 1) == 0 && RingBuffer_write(q, &c, 0) == 0 && RingBuffer_available_read(q) == 0, "nothing is written from nowhere");
        RingBuffer_destroy(&q);
        VF_ASSERT(q == NULL && vf_live == 0, "destroy releases the memory and clears the handle");
        RingBuffer_destroy(&q);
        VF_REACH("end");
    }
    RingBuffer_destroy(NULL);
    RingBuffer_clear(NULL);
    char c;
    VF_ASSERT(RingBuffer_write(NULL, &c, 1) == 0 && RingBuffer_read(NULL, &c, 1) == 0 && RingBuffer_peek(NULL, &c, 1) == 0 && RingBuffer_discard(NULL, 1) == 0, "NULL ring");
}
void h_create_with_mem(void) {
    static union { void *align; unsigned char b[HDR]; } mem;
    uint32_t n = nd_u32();
    VF_ASSERT(RingBuffer_create_with_mem(NULL, n) == NULL, "NULL memory is refused");
    ring_buffer_handle q = RingBuffer_create_with_mem(&mem, n);
    if (!q) { VF_ASSERT(n < HDR + 4, "only too small blocks are refused"); VF_REACH("refused"); return; }
    VF_ASSERT(n > HDR, "a block without room for data is refused");
    uint32_t c = RingBuffer_real_capacity(q), room = n - HDR;
    VF_ASSERT(c != 0 && (c & (c - 1)) == 0 && c <= room && room - c < c, "capacity is the largest power of two that fits");
    VF_ASSERT(RingBuffer_is_empty(q) && RingBuffer_available_read(q) == 0 && RingBuffer_available_write(q) == c, "a new ring is empty");
    if (c == 0x80000000u) VF_REACH("largest");
    VF_REACH("end");
}
