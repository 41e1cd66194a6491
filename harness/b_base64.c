#include "vf.h"
#include "data/base64.h"
#ifndef N
#define N 6
#endif
static int enc_char(unsigned v) {
    return v < 26 ? 'A' + v : v < 52 ? 'a' + (v - 26) : v < 62 ? '0' + (v - 52) : v == 62 ? '+' : '/';
}
static int is_b64(unsigned char c) {
    return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/';
}
static unsigned dec_char(unsigned char c) {
    return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26u : c >= '0' && c <= '9' ? c - '0' + 52u : c == '+' ? 62u : 63u;
}

/* any n <= N bytes: the text is the RFC 4648 text, fits the advertised size,
 * and decodes to the same bytes within the advertised decode size */
void h_roundtrip(void) {
    unsigned n = nd_range(1, N);
    unsigned char in[N];
    nd_bytes(in, N);
    int sz = lcu_base64_encode_buf_size(n);
    VF_ASSERT(sz == (int)((n + 2) / 3 * 4 + 1), "advertised encode size is 4*ceil(n/3)+1");
    if (sz != (int)((n + 2) / 3 * 4 + 1)) return;
    char *src = vf_tail(n, N);
    memcpy(src, in, n);
    char *out = vf_tail((unsigned)sz, (N + 2) / 3 * 4 + 1);
    int r = lcu_base64_encode(out, src, n);
    VF_ASSERT(r == sz, "encode returns the advertised size incl. terminator");
    if (r != sz) return;
    VF_ASSERT(out[sz - 1] == 0, "encoded text is terminated");
    for (unsigned i = 0; i < (unsigned)sz - 1; i++) {
        unsigned g = i / 4, k = i % 4, have = n - g * 3;
        unsigned b0 = in[g * 3], b1 = have > 1 ? in[g * 3 + 1] : 0, b2 = have > 2 ? in[g * 3 + 2] : 0;
        int e;
        if (k == 0) e = enc_char(b0 >> 2);
        else if (k == 1) e = enc_char(((b0 & 3) << 4) | (b1 >> 4));
        else if (k == 2) e = have > 1 ? enc_char(((b1 & 15) << 2) | (b2 >> 6)) : '=';
        else e = have > 2 ? enc_char(b2 & 63) : '=';
        VF_ASSERT(out[i] == (char)e, "encoded character matches RFC 4648");
    }
    int dsz = lcu_base64_decode_buf_size((size_t)sz - 1);
    VF_ASSERT(dsz > (int)n, "advertised decode size holds the data and terminator");
    VF_ASSERT(dsz <= (int)((N + 2) / 3 * 3 + 4), "advertised decode size is not wasteful");
    if (dsz <= (int)n || dsz > (int)((N + 2) / 3 * 3 + 4)) return;
    char *dec = vf_tail((unsigned)dsz, (N + 2) / 3 * 3 + 4);
    int d = lcu_base64_decode(dec, out);
    VF_ASSERT(d == (int)n, "decode returns the original length");
    if (d != (int)n) return;
    for (unsigned i = 0; i < n; i++) VF_ASSERT((unsigned char)dec[i] == in[i], "decode restores the original bytes");
    if (n % 3 == 0) VF_REACH("len%3==0");
    if (n % 3 == 1) VF_REACH("len%3==1");
    if (n % 3 == 2) VF_REACH("len%3==2");
}

/* any NUL-terminated text: decoder stays in bounds, stops at the first
 * non-alphabet byte and yields exactly floor(6*k/8) bytes of the k-char prefix */
void h_decode_any(void) {
    char *src = malloc(N + 1);
    nd_cstr(src, N);
    unsigned len = 0;
    while (src[len]) len++;
    char *txt = vf_tail(len + 1, N + 1);
    for (unsigned i = 0; i <= len; i++) txt[i] = src[i];
    unsigned k = 0;
    while (is_b64((unsigned char)txt[k])) k++;
    int dsz = lcu_base64_decode_buf_size(len);
    VF_ASSERT(dsz > 0 && dsz <= (int)((N + 3) / 4 * 3 + 4), "advertised decode size is sane");
    if (dsz <= 0 || dsz > (int)((N + 3) / 4 * 3 + 4)) return;
    char *dec = vf_tail((unsigned)dsz, (N + 3) / 4 * 3 + 4);
    int d = lcu_base64_decode(dec, txt);
    unsigned want = k / 4 * 3 + (k % 4 == 2 ? 1 : k % 4 == 3 ? 2 : 0);
    VF_ASSERT(d == (int)want, "decoded length is that of the leading alphabet run");
    if (d != (int)want) return;
    for (unsigned i = 0; i < want; i++) {
        unsigned g = i / 3 * 4;
        unsigned v0 = dec_char(txt[g]), v1 = dec_char(txt[g + 1]);
        unsigned v2 = i % 3 >= 1 ? dec_char(txt[g + 2]) : 0, v3 = i % 3 == 2 ? dec_char(txt[g + 3]) : 0;
        unsigned e = i % 3 == 0 ? (v0 << 2 | v1 >> 4) : i % 3 == 1 ? (v1 << 4 | v2 >> 2) : (v2 << 6 | v3);
        VF_ASSERT((unsigned char)dec[i] == (unsigned char)e, "decoded byte matches the alphabet values");
    }
    VF_ASSERT(dec[want] == 0, "decoded data is terminated");
    if (k == len && len == N) VF_REACH("whole text in alphabet");
    if (k < len && k > 0) VF_REACH("stops at foreign byte");
    if (k % 4 == 1) VF_REACH("dangling character");
}

/* zero input and size arithmetic over wide lengths */
void h_sizes(void) {
    char out[8] = {1, 1, 1, 1, 1, 1, 1, 1};
    int r = lcu_base64_encode(out, "", 0);
    /* nothing to encode: either refused, or the empty text; never a phantom character */
    VF_ASSERT(r < 0 || (r == 1 && out[0] == 0), "empty input yields empty text or an error");
    unsigned n = nd_range(0, 0x40000000u);
    long e = lcu_base64_encode_buf_size(n), d = lcu_base64_decode_buf_size(n);
    VF_ASSERT(e == ((long)n + 2) / 3 * 4 + 1, "encode size formula");
    VF_ASSERT(d > (long)n / 4 * 3 + (n % 4 == 3 ? 2 : n % 4 == 2 ? 1 : 0), "decode size suffices for any length");
    VF_REACH("end");
}
