/* printf family for CBMC: the conversions the library uses, decided exactly.
 * The native build uses libc. */
#include "vf.h"
#ifndef VERIF_REPLAY
#include <stdarg.h>
static void vf_out(char *b, size_t n, size_t *at, char c) { if (*at + 1 < n) b[*at] = c; (*at)++; }
/* CBMC passes small integer arguments without promoting them: look at the size of what was passed */
static unsigned long vf_int(va_list *app, int sgn) {
    size_t z = __CPROVER_OBJECT_SIZE(*(void **)*app);
    if (z == 1) return sgn ? (unsigned long)(long)va_arg(*app, signed char) : va_arg(*app, unsigned char);
    if (z == 2) return sgn ? (unsigned long)(long)va_arg(*app, short) : va_arg(*app, unsigned short);
    if (z == 4) return sgn ? (unsigned long)(long)va_arg(*app, int) : va_arg(*app, unsigned);
    return va_arg(*app, unsigned long);
}
int vf_fmt_fail; /* the next format fails */
int vsnprintf(char *b, size_t n, const char *f, va_list ap) {
    if (vf_fmt_fail) return -1;
    size_t at = 0;
    for (; *f; f++) {
        if (*f != '%') { vf_out(b, n, &at, *f); continue; }
        f++;
        int left = 0, zero = 0, plus = 0, alt = 0;
        for (;; f++) {
            if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == '#') alt = 1; else break;
        }
        int width = 0, prec = -1, lng = 0;
        if (*f == '*') { width = (int)vf_int(&ap, 1); f++; }
        else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') {
            f++; prec = 0;
            if (*f == '*') { prec = (int)vf_int(&ap, 1); f++; }
            else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0');
        }
        while (*f == 'l' || *f == 'z' || *f == 'h') { if (*f != 'h') lng = 1; f++; }
        if (*f == '%') { vf_out(b, n, &at, '%'); continue; }
        if (*f == 'c') { int c = (int)vf_int(&ap, 1); for (int i = 1; i < width; i++) vf_out(b, n, &at, ' '); vf_out(b, n, &at, (char)c); continue; }
        if (*f == 's') {
            const char *s = va_arg(ap, const char *);
            int len = 0;
            if (width > 0) while ((prec < 0 || len < prec) && s[len]) len++;
            if (!left) for (int i = len; i < width; i++) vf_out(b, n, &at, ' ');
            for (int i = 0; (prec < 0 || i < prec) && s[i]; i++) vf_out(b, n, &at, s[i]);
            if (left) for (int i = len; i < width; i++) vf_out(b, n, &at, ' ');
            continue;
        }
        if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X') {
            if (*f == 'x' && zero && width == 2 && __CPROVER_OBJECT_SIZE(*(void **)ap) == 1) {   /* the common byte in hex, without loops */
                unsigned char c = va_arg(ap, unsigned char), hi = c >> 4, lo = c & 15;
                vf_out(b, n, &at, (char)(hi < 10 ? '0' + hi : 'a' + hi - 10));
                vf_out(b, n, &at, (char)(lo < 10 ? '0' + lo : 'a' + lo - 10));
                continue;
            }
            char t[24];
            int k = 0, neg = 0;
            unsigned base = *f == 'x' || *f == 'X' ? 16 : 10;
            if (lng) {
                unsigned long v;
                if (*f == 'd' || *f == 'i') { long x = (long)vf_int(&ap, 1); neg = x < 0; v = neg ? -(unsigned long)x : (unsigned long)x; } else v = vf_int(&ap, 0);
                do { unsigned d = base == 16 ? (unsigned)(v & 15) : (unsigned)(v % 10); t[k++] = (char)(d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10); v = base == 16 ? v >> 4 : v / 10; } while (v);
            } else {
                unsigned v;
                if (*f == 'd' || *f == 'i') { int x = (int)vf_int(&ap, 1); neg = x < 0; v = neg ? -(unsigned)x : (unsigned)x; } else v = (unsigned)vf_int(&ap, 0);
                do { unsigned d = base == 16 ? (v & 15) : v % 10; t[k++] = (char)(d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10); v = base == 16 ? v >> 4 : v / 10; } while (v);
            }
            int len = k < prec ? prec : k;
            len += neg || plus;
            if (!left && !zero) for (int i = len; i < width; i++) vf_out(b, n, &at, ' ');
            if (neg) vf_out(b, n, &at, '-'); else if (plus) vf_out(b, n, &at, '+');
            if (!left && zero) for (int i = len; i < width; i++) vf_out(b, n, &at, '0');
            for (int i = k; i < prec; i++) vf_out(b, n, &at, '0');
            while (k > 0) vf_out(b, n, &at, t[--k]);
            if (left) for (int i = len; i < width; i++) vf_out(b, n, &at, ' ');
            continue;
        }
        __CPROVER_assert(0, "conversion not modelled");
    }
    if (n) b[at < n ? at : n - 1] = 0;
    return (int)at;
}
int snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, (size_t)1 << 30, f, ap); va_end(ap); return r; }
#else
extern int vf_env_fmt_unused;
#endif
