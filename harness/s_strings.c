#include "vf.h"
#include "env.h"
#include "mem/strings.h"
#ifndef N
#define N 4
#endif
#ifndef LO
#define LO 0
#define HI 0
#define CLO 0
#define CHI 0
#endif
static unsigned len(const char *s) { unsigned n = 0; while (s[n]) n++; return n; }
/* a string of 0..max bytes whose terminator is the last byte of its object */
static char *str(unsigned max) {
    unsigned n = nd_range(0, max);
    char *p = vf_tail(n + 1, max + 1);
    for (unsigned i = 0; i < max; i++) if (i < n) { p[i] = nd_char(); VF_ASSUME(p[i] != 0); }
    p[n] = 0;
    return p;
}
void h_copy(void) {
    char *src = str(N);
    unsigned size = nd_range(0, N + 2), n = len(src);
    char *dst = vf_tail(size, N + 2);
    size_t r = strlcpy(dst, src, size);
    VF_ASSERT(r == n, "strlcpy tells the length of the source");
    for (unsigned i = 0; i < N + 2; i++) if (i < size) {
        if (i < n && i + 1 < size) VF_ASSERT(dst[i] == src[i], "strlcpy copies as much as fits");
    }
    if (size) VF_ASSERT(dst[n < size - 1 ? n : size - 1] == 0, "strlcpy always terminates");
    VF_REACH("end");
}
void h_cat(void) {
    char *src = str(N);
    unsigned size = nd_range(0, N + 3), n = len(src);
    char *dst = vf_tail(size, N + 3), old[N + 3];
    for (unsigned i = 0; i < N + 3; i++) if (i < size) { dst[i] = nd_char(); old[i] = dst[i]; }
    unsigned d = 0;
    while (d < size && dst[d]) d++;
    size_t r = strlcat(dst, src, size);
    VF_ASSERT(r == d + n, "strlcat tells the length it tried to make");
    for (unsigned i = 0; i < N + 3; i++) if (i < size) {
        if (i < d) VF_ASSERT(dst[i] == old[i], "strlcat keeps what was there");
        else if (i < d + n && i + 1 < size) VF_ASSERT(dst[i] == src[i - d], "strlcat appends as much as fits");
    }
    if (d < size) VF_ASSERT(dst[d + n < size - 1 ? d + n : size - 1] == 0, "strlcat terminates");
    VF_REACH("end");
}
void h_replace(void) {
    char *o = str(N), *pat = str(2), *rep = str(2);
    unsigned no = len(o), np = len(pat), nr = len(rep);
    char want[2 * N + 3];
    unsigned w = 0, i = 0;
    for (unsigned k = 0; k <= N; k++) {
        if (i >= no) break;
        int m = np > 0 && i + np <= no;
        for (unsigned j = 0; j < 2; j++) if (m && j < np && o[i + j] != pat[j]) m = 0;
        if (m) { for (unsigned j = 0; j < 2; j++) if (j < nr) want[w++] = rep[j]; i += np; }
        else want[w++] = o[i++];
    }
    unsigned live0 = vf_live;
    vf_oom = 1;
    char *r = strreplace(o, pat, rep);
    vf_oom = 0;
    if (!r) { VF_ASSERT(vf_failed == 1, "only refused memory makes it fail"); VF_REACH("refused"); return; }
    for (unsigned j = 0; j < 2 * N + 3; j++) if (j < w) VF_ASSERT(r[j] == want[j], "every occurrence, from the left, is replaced, and nothing else");
    VF_ASSERT(r[w] == 0, "the result is terminated");
    free(r);
    VF_ASSERT(vf_live == live0, "nothing else was allocated");
    VF_REACH("end");
}
void h_split(void) {
    char *s = str(N), *d = str(2);
    unsigned n = len(s), nd = len(d);
    char old[N + 1];
    for (unsigned i = 0; i <= N; i++) if (i <= n) old[i] = s[i];
    char *got[3] = {0, 0, 0};
    size_t cap = nd_range(0, 2), cnt = cap;
    strsplit(got, &cnt, s, d);
    unsigned k = 0, i = 0;
    for (unsigned x = 0; x <= N; x++) {
        if (i >= n) break;
        int del = 0;
        for (unsigned j = 0; j < 2; j++) if (j < nd && d[j] == old[i]) del = 1;
        if (del) { i++; continue; }
        unsigned e = i;
        for (unsigned y = 0; y < N; y++) if (e < n) { int q = 0; for (unsigned j = 0; j < 2; j++) if (j < nd && d[j] == old[e]) q = 1; if (!q) e++; else break; }
        if (k < cap) {
            VF_ASSERT(k < cnt && got[k] == s + i, "the pieces are found in order");
            for (unsigned y = 0; y < N; y++) if (i + y < e) VF_ASSERT(got[k][y] == old[i + y], "a piece is unchanged");
            VF_ASSERT(got[k][e - i] == 0, "a piece is terminated");
        }
        k++;
        i = e;
    }
    VF_ASSERT(cnt == (k < cap ? k : cap), "the number of pieces is told, never more than there is room for");
    for (unsigned j = 0; j < 3; j++) if (j >= cap) VF_ASSERT(got[j] == NULL, "nothing is written after the room given");
    VF_REACH("end");
}
static int in(char c, const char *s, unsigned n) { for (unsigned i = 0; i < 3; i++) if (i < n && s[i] == c) return 1; return 0; }
void h_trim(void) {
    char *s = str(N), *set = str(2);
    unsigned n = len(s), ns = len(set);
    char old[N + 1];
    for (unsigned i = 0; i <= N; i++) if (i <= n) old[i] = s[i];
    unsigned a = 0, b = n;
    for (unsigned k = 0; k < N; k++) if (a < n && in(old[a], set, ns)) a++; else break;
    for (unsigned k = 0; k < N; k++) if (b > a && in(old[b - 1], set, ns)) b--; else break;
    strtrim(s, set);
    for (unsigned i = 0; i < N; i++) if (i < b - a) VF_ASSERT(s[i] == old[a + i], "the middle is kept");
    VF_ASSERT(s[b - a] == 0, "both ends are trimmed");
    VF_REACH("end");
}
void h_utf8(void) {
    unsigned n = nd_range(0, N + 2);
    char *p = vf_tail(n, N + 2);
    for (unsigned i = 0; i < N + 2; i++) if (i < n) p[i] = nd_char();
    unsigned want = 0;
    for (unsigned i = 0; i < N + 2; i++) { if (i >= n || !p[i]) break; if (((unsigned char)p[i] & 0xC0) != 0x80) want++; }
    VF_ASSERT(strnutf8len(p, n) == want, "code points are counted up to the limit, and not a byte further is read");
    char *s = str(N);
    want = 0;
    for (unsigned i = 0; s[i]; i++) if (((unsigned char)s[i] & 0xC0) != 0x80) want++;
    VF_ASSERT(strutf8len(s) == want, "code points are counted up to the end");
    VF_REACH("end");
}
void h_hex(void) {
    static const char dig[] = "0123456789abcdef";
    for (unsigned n = LO; n <= HI; n++) for (unsigned cap = CLO; cap <= CHI; cap++) {
        char *in = malloc(n ? n : 1), *out = malloc(cap ? cap : 1);
        for (unsigned i = 0; i < n; i++) in[i] = nd_char();
        for (unsigned i = 0; i < cap; i++) out[i] = 'Z';
        char *o = cap ? out : out + 1;       /* nothing may be written when there is no room */
        size_t r = str_char2hex(o, cap, in, n);
        if (cap) {
            VF_ASSERT(r < cap, "the told length fits");
            VF_ASSERT(o[r] == 0, "the told length is that of the text");
        } else VF_ASSERT(r == 0, "no room, no text");
        if (cap >= 3 * n + 1) {
            VF_ASSERT(r == 3 * n, "with the documented room everything is shown");
            for (unsigned i = 0; i < n; i++) VF_ASSERT(o[3 * i] == ' ' && o[3 * i + 1] == dig[(unsigned char)in[i] >> 4] && o[3 * i + 2] == dig[in[i] & 15], "two lower-case digits for each byte");
        } else if (cap >= 21) {
            VF_ASSERT(o[0] == 'h' && o[4] == 't', "a cut is announced");
            VF_ASSERT(r >= cap - 3 || r >= 17, "what fits is shown");
        }
        free(in); free(out);
    }
    VF_REACH("end");
}
