/* CBMC bodies for libc functions which its library does not have */
#include <stddef.h>
#include <string.h>
#ifndef VERIF_REPLAY
/* strings whose length the harness has fixed (their bytes are assumed non-zero, which symbolic execution cannot see) */
#ifdef VF_STRLEN
const char *vf_str_p[VF_STRLEN]; size_t vf_str_n[VF_STRLEN]; int vf_str_open[VF_STRLEN]; /* open: not terminated */
size_t strlen(const char *s) {
    for (int i = 0; i < VF_STRLEN; i++) if (vf_str_p[i] && s == vf_str_p[i]) {
        __CPROVER_assert(!vf_str_open[i], "strlen of a text without a terminator");
        return vf_str_n[i];
    }
    size_t i = 0;
    while (s[i]) i++;
    return i;
}
#endif
char *strstr(const char *h, const char *n) {
    if (!*n) return (char *)h;
    for (; *h; h++) {
        size_t i = 0;
        while (n[i] && h[i] == n[i]) i++;
        if (!n[i]) return (char *)h;
    }
    return NULL;
}
static int vf_in(char c, const char *set) { for (; *set; set++) if (*set == c) return 1; return 0; }
size_t strspn(const char *s, const char *set) { size_t i = 0; while (s[i] && vf_in(s[i], set)) i++; return i; }
size_t strcspn(const char *s, const char *set) { size_t i = 0; while (s[i] && !vf_in(s[i], set)) i++; return i; }
char *strpbrk(const char *s, const char *set) { for (; *s; s++) if (vf_in(*s, set)) return (char *)s; return NULL; }
char *strtok_r(char *s, const char *d, char **ctx) {
    if (!s) s = *ctx;
    if (!s) return NULL;
    while (*s && vf_in(*s, d)) s++;
    if (!*s) { *ctx = s; return NULL; }
    char *t = s;
    while (*s && !vf_in(*s, d)) s++;
    if (*s) *s++ = 0;
    *ctx = s;
    return t;
}
char *__strtok_r(char *s, const char *d, char **ctx) { return strtok_r(s, d, ctx); }
size_t strnlen(const char *s, size_t n) {
#ifdef VF_STRLEN
    for (int k = 0; k < VF_STRLEN; k++) if (vf_str_p[k] && s == vf_str_p[k]) {
        if (n <= vf_str_n[k]) return n;
        __CPROVER_assert(!vf_str_open[k], "search behind a text without a terminator");
        return vf_str_n[k];
    }
#endif
    size_t i = 0; while (i < n && s[i]) i++; return i; }
void *memchr(const void *p, int c, size_t n) {
    const unsigned char *s = p;
#ifdef VF_STRLEN
    for (int k = 0; k < VF_STRLEN; k++) if (vf_str_p[k] && (const char *)p == vf_str_p[k] && c == 0) {
        if (n <= vf_str_n[k]) return NULL;
        __CPROVER_assert(!vf_str_open[k], "search behind a text without a terminator");
        return (void *)(s + vf_str_n[k]);
    }
#endif
    for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void *)(s + i);
    return NULL;
}
#endif
