/* native side of vf.h: feeds solver models to a harness */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#ifndef VF_ENTRY
#error VF_ENTRY
#endif
static long long *vals; static size_t nvals, pos; static int exhausted;
static FILE *out;
long long vf_next(void) {
    if (pos < nvals) return vals[pos++];
    exhausted = 1;
    return 0;
}
void vf_assume_failed(const char *c) { fprintf(stderr, "VF-ASSUME-FAILED %s%s\n", c, exhausted ? " (inputs exhausted)" : ""); fflush(stderr); _exit(43); }
void vf_assert_failed(const char *m, const char *f, int l) { fprintf(stderr, "VF-ASSERT-FAILED %s (%s:%d)\n", m, f, l); fflush(stderr); _exit(42); }
void vf_reached(const char *l) { fprintf(stderr, "VF-REACHED %s\n", l); }
void VF_ENTRY(void);
int main(int argc, char **argv) {
    const char *p = argc > 1 ? argv[1] : getenv("VF_INPUT");
    FILE *f = p ? fopen(p, "r") : NULL;
    if (f) {
        long long v; size_t cap = 0;
        char line[256];
        while (fgets(line, sizeof line, f)) {
            if (line[0] == '#' || line[0] == '\n') continue;
            v = (long long)(line[0] == '-' ? (unsigned long long)strtoll(line, NULL, 10) : strtoull(line, NULL, 10));
            if (nvals == cap) { cap = cap ? cap * 2 : 64; vals = realloc(vals, cap * sizeof *vals); }
            vals[nvals++] = v;
        }
        fclose(f);
    }
    (void)out;
    VF_ENTRY();
    fprintf(stderr, "VF-DONE used=%zu of %zu%s\n", pos, nvals, exhausted ? " exhausted" : "");
    fflush(stderr);
    _exit(exhausted ? 0 : 0);
}
