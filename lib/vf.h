/* Shared harness vocabulary.
 *
 * The same harness source is used twice:
 *   - by CBMC (goto-cc): nd_*() are unconstrained symbolic values, VF_ASSUME
 *     constrains them, VF_ASSERT is a proof obligation, VF_REACH a
 *     reachability goal (an assertion that MUST be violated, or the harness is
 *     vacuous);
 *   - natively (gcc + ASan/UBSan, -DVERIF_REPLAY): nd_*() read the values of a
 *     solver model from a file, VF_ASSERT aborts, VF_REACH is a log line.
 */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>

#ifdef VERIF_REPLAY
long long vf_next(void);
void vf_assume_failed(const char *);
void vf_assert_failed(const char *, const char *, int);
void vf_reached(const char *);
#define VF_ASSUME(c)      do { if (!(c)) vf_assume_failed(#c); } while (0)
#define VF_ASSERT(c, msg) do { if (!(c)) vf_assert_failed(msg, __FILE__, __LINE__); } while (0)
#define VF_REACH(label)   vf_reached(label)
/* functions of the environment which a harness replaces: the native objects
 * of the code under test are redirected to vf_<name> with objcopy */
#define VF_STUB(name) vf_##name
#define VF_ND_DEF(name, type) static inline __attribute__((unused)) type nd_##name(void) { return (type)vf_next(); }
#define VF_OBJ(p, n) 1
#else
#define VF_ASSUME(c)      __CPROVER_assume(c)
#define VF_ASSERT(c, msg) __CPROVER_assert((c), "VF: " msg)
#define VF_REACH(label)   __CPROVER_assert(0, "VF_REACH " label)
#define VF_STUB(name) name
#define VF_ND_DEF(name, type) type nondet_vf_##name(void); \
    static inline type nd_##name(void) { type v = nondet_vf_##name(); __CPROVER_input("nd", v); return v; }
#endif

VF_ND_DEF(u8, unsigned char)
VF_ND_DEF(i8, signed char)
VF_ND_DEF(char, char)
VF_ND_DEF(u16, unsigned short)
VF_ND_DEF(u32, unsigned int)
VF_ND_DEF(i32, int)
VF_ND_DEF(u64, unsigned long)
VF_ND_DEF(i64, long)
VF_ND_DEF(size, size_t)

static inline __attribute__((unused)) int nd_bool(void) { return nd_u8() & 1; }

/* any value in [lo, hi] */
static inline __attribute__((unused)) unsigned nd_range(unsigned lo, unsigned hi) {
    unsigned v = nd_u32();
    VF_ASSUME(v >= lo && v <= hi);
    return v;
}
static inline __attribute__((unused)) int nd_irange(int lo, int hi) {
    int v = nd_i32();
    VF_ASSUME(v >= lo && v <= hi);
    return v;
}
static inline __attribute__((unused)) void nd_bytes(void *p, unsigned n) {
    for (unsigned i = 0; i < n; i++) ((unsigned char *)p)[i] = nd_u8();
}
/* a buffer of n <= max bytes whose END is the end of a heap object of concrete
 * size: over-reads and over-writes leave the object, and the symbolic part is
 * only an offset (symbolic object sizes are expensive) */
static inline __attribute__((unused)) char *vf_tail(unsigned n, unsigned max) {
    char *b = malloc(max);
    return b + (max - n);
}
/* any C string of length <= max in buf[max+1]; returns nothing, strlen decides */
static inline __attribute__((unused)) void nd_cstr(char *p, unsigned max) {
    for (unsigned i = 0; i < max; i++) p[i] = nd_char();
    p[max] = 0;
}
#endif
