#include "vf.h"
#include "env.h"
#include "ring/autocover_buffer.h"
/* Stream positions count all bytes ever written.  The buffer knows positions
 * modulo its capacity, so a caller's position is one of the last CAP
 * positions (plus any multiple of CAP: `base`). */
#define MAXN CAP
#define NS (sizeof SCRIPT * MAXN + CAP)
static unsigned char s_[NS];
static unsigned w, r;      /* retained window [r, w), w - r <= CAP */
static uint32_t base;
static int held, locks;
static int acq(void *a) { VF_ASSERT(a == &locks && !held, "lock taken when free, with its argument"); held = 1; locks++; return 0; }
static int rel(void *a) { VF_ASSERT(a == &locks && held, "lock released when held, with its argument"); held = 0; return 0; }
static int l0;
static void begin(void) { l0 = locks; }
static void end_locked(void) { VF_ASSERT(!held && locks == l0 + 1, "each operation holds the lock exactly once and gives it back"); }

static void do_write(auto_cover_buf_handle q, unsigned n) {
    unsigned char buf[MAXN];
    nd_bytes(buf, MAXN);
    begin();
    int k = auto_cover_buf_write(q, buf, n);
    end_locked();
    VF_ASSERT(k == (int)n, "a write that fits the capacity is always taken whole");
    for (unsigned i = 0; i < MAXN; i++) if (i < n) s_[w + i] = buf[i];
    w += n;
    if (w - r > CAP) r = w - CAP;    /* oldest bytes are covered */
}
static void do_read(auto_cover_buf_handle q) {
    unsigned char buf[CAP + 2];
    for (unsigned i = 0; i < CAP + 2; i++) buf[i] = 0xA5;
    unsigned p = nd_range(w > CAP ? w - CAP : 0, w);
    /* w and w - CAP have the same residue: the former unless the buffer is full */
    if (w - r == CAP) VF_ASSUME(p != w); else VF_ASSUME(p + CAP != w);
    unsigned n = nd_u32();
    VF_ASSUME(n >= 1 && (n <= CAP + 2 || n > 0x7fffff00u));
    begin();
    int a = auto_cover_buf_available_read(q, base + p);
    end_locked();
    if (p >= r) VF_ASSERT(a == (int)(w - p), "available count is what was written from that position on");
    else VF_ASSERT(a == AUTO_COVER_BUF_ERR_DATA_COVERED, "a covered position is reported as covered");
    begin();
    int k = auto_cover_buf_read(q, base + p, buf, n);
    end_locked();
    if (p < r) VF_ASSERT(k == AUTO_COVER_BUF_ERR_DATA_COVERED, "covered data is reported, never returned");
    else if (n > w - p) VF_ASSERT(k == AUTO_COVER_BUF_ERR_DATA_NOT_ENOUGH, "too little data is reported as not enough");
    else VF_ASSERT(k == (int)n, "data still there is returned whole");
    for (unsigned i = 0; i < CAP + 2; i++)
        VF_ASSERT(buf[i] == (k > 0 && i < (unsigned)k ? s_[p + i] : 0xA5), "exactly the bytes written at the asked position are returned");
    if (k > 0) { r = p + n; if (r == w) VF_REACH("caught up"); }
    else if (p < r) VF_REACH("covered");
    else VF_REACH("not enough");
}
void h_cover(void) {
    static const char script[] = SCRIPT;
    auto_cover_buf_lock_t lock = {&locks, acq, rel};
    auto_cover_buf_handle q = auto_cover_buf_create(CAP, &lock);
    VF_ASSERT(q != NULL && vf_live >= 1, "creation succeeds with memory");
    base = nd_u32();
    base -= base % CAP;
    w = r = 0;
    do_write(q, nd_range(0, CAP));
    for (unsigned k = 0; k < sizeof script - 1; k++) {
        if (script[k] == 'W') do_write(q, nd_range(0, CAP));
        else if (script[k] == 'R') do_read(q);
        else if (script[k] == 'B') {
            unsigned char c = 0;
            int x = auto_cover_buf_write(q, &c, nd_range(CAP + 1, 0xffffffffu));
            VF_ASSERT(x < 0 && !held, "a write larger than the capacity is refused");
        }
    }
    auto_cover_buf_destroy(&q);
    VF_ASSERT(q == NULL && vf_live == 0, "destroy releases everything");
    auto_cover_buf_destroy(&q);
    auto_cover_buf_destroy(NULL);
    VF_ASSERT(auto_cover_buf_create(0, NULL) == NULL && auto_cover_buf_create(1, &lock) == NULL && vf_live == 0, "useless capacities are refused without a leak");
    VF_REACH("end");
}
void h_create(void) {
    vf_oom = 1;
    auto_cover_buf_handle q = auto_cover_buf_create(CAP, NULL);
    if (!q) { VF_ASSERT(vf_live == 0, "failed creation leaks nothing"); VF_REACH("refused"); return; }
    unsigned char c = nd_u8(), d = 0;
    VF_ASSERT(auto_cover_buf_write(q, &c, 1) == 1 && auto_cover_buf_read(q, 0, &d, 1) == 1 && c == d, "works without a lock");
    auto_cover_buf_destroy(&q);
    VF_ASSERT(vf_live == 0, "destroy releases everything");
    VF_REACH("end");
}
