#include "vf.h"
#include "env.h"
#include "mem/stringbuilder.h"
#ifndef SCRIPT
#define SCRIPT ""
#endif
#ifndef INIT
#define INIT 4
#endif
#ifndef FAILS
#define FAILS 0
#endif
#define BIG 220
static char model[BIG];
static unsigned n;
#ifndef VERIF_REPLAY
extern const char *vf_str_p[]; extern size_t vf_str_n[]; extern int vf_str_open[];
#endif
/* any string of exactly k bytes at the end of its block; the i-th one lives at a fixed place */
static char *text(unsigned k, int terminated) {
    char *p = malloc(k + terminated ? k + terminated : 1);
    for (unsigned i = 0; i < k; i++) { p[i] = nd_char(); VF_ASSUME(p[i] != 0); }
    if (terminated) p[k] = 0;
#ifndef VERIF_REPLAY
    vf_str_p[0] = p; vf_str_n[0] = k; vf_str_open[0] = !terminated;
#endif
    return p;
}
static void check(stringbuilder_t *sb) {
    const char *s = stringbuilder_to_string(sb);
    VF_ASSERT(stringbuilder_len(sb) == n, "the length is that of everything appended");
    for (unsigned i = 0; i < n; i++) VF_ASSERT(s[i] == model[i], "everything appended is there, in order");
    VF_ASSERT(s[n] == 0, "the text is terminated");
}
static void script(unsigned failat) {
    unsigned live0 = vf_live;
    vf_fail_at = failat;
    unsigned f0 = vf_failed;
    stringbuilder_t *sb = stringbuilder_create(INIT);
    if (!sb) { VF_ASSERT(vf_failed > f0 && vf_live == live0, "creation fails only for lack of memory, without a leak"); vf_fail_at = 0; return; }
    n = 0;
    check(sb);
    const char *p = SCRIPT;
    for (unsigned i = 0; i < sizeof SCRIPT - 1; i++) {
        int r = -1;
        unsigned add = 0;
        char *t = NULL;
        unsigned left = vf_fail_at;
        vf_fail_at = 0;
        if (p[i] >= '0' && p[i] <= '9') t = text(add = p[i] - '0', 1);
        else if (p[i] >= 'A' && p[i] <= 'I') t = text(add = p[i] - 'A' + 1, 0);     /* exactly n bytes, no terminator */
        else if (p[i] >= 'a' && p[i] <= 'h') t = text(add = p[i] - 'a' + 1, 1);     /* a text shorter than the limit */
        vf_fail_at = left;
        f0 = vf_failed;
        if (p[i] >= '0' && p[i] <= '9') { r = stringbuilder_appendstr(sb, t); if (add == 0) { free(t); continue; } }
        else if (p[i] >= 'A' && p[i] <= 'I') r = stringbuilder_appendnstr(sb, t, add);
        else if (p[i] >= 'a' && p[i] <= 'h') r = stringbuilder_appendnstr(sb, t, add + 3);
        else if (p[i] == '.') { char c = nd_char(); r = stringbuilder_appendchar(sb, c); model[n] = c; add = 1; }
        else if (p[i] == '%') {
            unsigned char c = nd_u8(); char d = nd_char(); VF_ASSUME(d != 0);
            r = stringbuilder_appendf(sb, "<%c%s%02x>", d, "pq", c);
            static const char dig[] = "0123456789abcdef";
            char w[7] = {'<', d, 'p', 'q', dig[c >> 4], dig[c & 15], '>'};
            for (unsigned k = 0; k < 7; k++) model[n + k] = w[k];
            add = 7;
        } else if (p[i] == 'x') {
            r = stringbuilder_clear(sb);
            VF_ASSERT(r == 0, "clearing works");
            n = 0;
            VF_ASSERT(stringbuilder_to_string(sb)[0] == 0, "cleared");
        }
        if (t) { for (unsigned k = 0; k < add; k++) model[n + k] = t[k]; free(t); }
        if (r == 0) n += add;
        else VF_ASSERT(vf_failed > f0, "an append fails only for lack of memory");
        check(sb);
    }
    vf_fail_at = 0;
    stringbuilder_destroy(&sb);
    VF_ASSERT(sb == NULL && vf_live == live0, "destroying releases everything");
    stringbuilder_destroy(&sb);
    stringbuilder_destroy(NULL);
}
void h_script(void) {
    for (unsigned f = 0; f <= FAILS; f++) script(f);
    VF_REACH("end");
}
/* a format which cannot be produced, NULL arguments */
void h_args(void) {
    stringbuilder_t *sb = stringbuilder_create(0);
    n = 0;
    VF_ASSERT(stringbuilder_appendchar(NULL, 'x') != 0 && stringbuilder_appendstr(NULL, "x") != 0 && stringbuilder_appendnstr(NULL, "x", 1) != 0 && stringbuilder_appendf(NULL, "x") != 0 && stringbuilder_clear(NULL) != 0, "no builder");
    VF_ASSERT(stringbuilder_appendstr(sb, NULL) != 0 && stringbuilder_appendnstr(sb, NULL, 1) != 0 && stringbuilder_appendf(sb, NULL) != 0, "nothing to append");
    check(sb);
    VF_ASSERT(stringbuilder_appendchar(sb, 'a') == 0, "one character");
    model[n++] = 'a';
    int r;
#ifdef VERIF_REPLAY
    wchar_t bad[2] = {0x7fffffff, 0};
    r = stringbuilder_appendf(sb, "%ls", bad);
#else
    extern int vf_fmt_fail;
    vf_fmt_fail = 1;
    r = stringbuilder_appendf(sb, "y");
    vf_fmt_fail = 0;
#endif
    VF_ASSERT(r != 0, "a format which fails is refused");
    check(sb);
    for (unsigned i = 0; i < 3; i++) {   /* sizes at the upper edge are refused */
        char *big = malloc(1);
        big[0] = 'b';
        r = stringbuilder_appendnstr(sb, "bcd", i + 1);
        VF_ASSERT(r == 0, "plain append");
        for (unsigned k = 0; k <= i; k++) model[n++] = "bcd"[k];
        free(big);
    }
    check(sb);
    stringbuilder_destroy(&sb);
    VF_REACH("end");
}
