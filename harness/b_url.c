#include "vf.h"
#include "net/url_encoder_decoder.h"
#ifndef N
#define N 4
#endif
static int unreserved(unsigned char c) {
    return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '.' || c == '-' || c == '*' || c == '_';
}
static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static char hexc(unsigned v) { return (char)(v < 10 ? '0' + v : 'A' + v - 10); }

/* reference: returns encoded length */
static unsigned ref_enc(char *o, const unsigned char *s, unsigned n) {
    unsigned k = 0;
    for (unsigned i = 0; i < n; i++) {
        if (unreserved(s[i])) o[k++] = (char)s[i];
        else if (s[i] == ' ') o[k++] = '+';
        else { o[k++] = '%'; o[k++] = hexc(s[i] >> 4); o[k++] = hexc(s[i] & 15); }
    }
    o[k] = 0;
    return k;
}

/* any bytes, any output size from 0 up to more than enough */
void h_encode(void) {
    unsigned n = nd_range(0, N), cap = nd_range(0, 3 * N + 2);
    unsigned char in[N + 1];
    nd_bytes(in, N);
    char ref[3 * N + 1];
    unsigned need = ref_enc(ref, in, n);
    char *src = vf_tail(n, N), *out = vf_tail(cap, 3 * N + 2);
    for (unsigned i = 0; i < n; i++) src[i] = (char)in[i];
    int r = lcu_url_encode(out, cap, src, n);
    if (n >= 1 && cap >= need + 1 && cap >= 2) {
        VF_ASSERT(r == (int)need, "encode succeeds whenever text and terminator fit");
        if (r != (int)need) return;
        for (unsigned i = 0; i <= need; i++) VF_ASSERT(out[i] == ref[i], "encoded text is percent/plus form");
        if (cap == need + 1 && need == 3 * n) VF_REACH("exact fit, all escaped");
        VF_REACH("success");
        /* round trip */
        char *dec = vf_tail(need + 1, 3 * N + 1), *last = 0;
        int d = lcu_url_decode(dec, need + 1 < 2 ? 2 : need + 1, out, need, &last);
        VF_ASSERT(d == (int)n, "decoding restores the original length");
        if (d != (int)n) return;
        for (unsigned i = 0; i < n; i++) VF_ASSERT((unsigned char)dec[i] == in[i], "decoding restores the original bytes");
        VF_ASSERT(dec[n] == 0, "decoded text is terminated");
        VF_ASSERT(last == out + need, "the whole text is reported as consumed");
    } else {
        VF_ASSERT(r < 0, "an encoding that does not fit is refused");
        if (n >= 1 && cap >= 2) VF_REACH("refused");
    }
}

/* any bytes as encoded text, any output size */
void h_decode_any(void) {
    unsigned n = nd_range(0, N), cap = nd_range(0, N + 2);
    char in[N + 1];
    nd_bytes(in, N);
    char *src = vf_tail(n, N), *out = vf_tail(cap, N + 2);
    for (unsigned i = 0; i < n; i++) src[i] = in[i];
    char *last = 0;
    int want_last = nd_bool();
    int r = lcu_url_decode(out, cap, src, n, want_last ? &last : 0);
    if (n < 1 || cap < 2) { VF_ASSERT(r < 0, "nothing to decode or no room is refused"); return; }
    /* reference decode of as much as fits */
    char ref[N + 1];
    unsigned i = 0, k = 0;
    int bad = 0;
    while (i < n && k < cap - 1) {
        unsigned char c = (unsigned char)in[i];
        if (c == '+') { ref[k++] = ' '; i++; }
        else if (c == '%') {
            if (i + 3 > n) break;
            int a = hexv((unsigned char)in[i + 1]), b = hexv((unsigned char)in[i + 2]);
            if (a < 0 || b < 0) { bad = 1; break; }
            ref[k++] = (char)(a << 4 | b); i += 3;
        } else if (unreserved(c)) { ref[k++] = (char)c; i++; }
        else { bad = 1; break; }
    }
    if (bad) {
        VF_ASSERT(r < 0, "malformed text is refused");
        VF_REACH("malformed");
        return;
    }
    VF_ASSERT(r == (int)k, "decoded length");
    if (r != (int)k) return;
    for (unsigned j = 0; j < k; j++) VF_ASSERT(out[j] == ref[j], "decoded byte");
    VF_ASSERT(out[k] == 0, "decoded text is terminated");
    if (want_last) VF_ASSERT(last == src + i, "consumed position is where decoding stopped");
    if (k > 0 && i < n) VF_REACH("stops early, reports position");
    if (i == n) VF_REACH("whole text");
}
