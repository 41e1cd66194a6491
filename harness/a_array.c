#include "vf.h"
#include "env.h"
#include "data/array.h"
#ifndef ES
#define ES 4
#endif
#ifndef CAP
#define CAP 4
#endif
#ifndef K
#define K 14
#endif
static unsigned char model[K][ES];
static void check(array_t *a, unsigned n) {
    VF_ASSERT(array_length(a) == n, "length is the number of successful appends");
    for (unsigned i = 0; i < n; i++) {
        unsigned char *e = array_at(a, i);
        VF_ASSERT(e == (unsigned char *)array_ptr(a) + i * ES, "elements are contiguous");
        for (unsigned b = 0; b < ES; b++) VF_ASSERT(e[b] == model[i][b], "element keeps the bytes it was appended with");
    }
}
/* K appends of arbitrary elements, by pointer or by value; growth number FAILG
 * (if any) is refused memory: contents and order are those of the successful
 * appends */
static void run(unsigned failg) {
    array_t *a = CAP == 16 ? array_new(ES) : array_new_with_init_capacity(ES, CAP);
    vf_fail_at = failg;
    unsigned n = 0;
    for (unsigned k = 0; k < K; k++) {
        unsigned char e[ES];
        nd_bytes(e, ES);
        bool ok;
        unsigned f0 = vf_failed;
        if (ES <= 4 && (k % 3) != 1) {
            uint32_t v = 0;
            for (unsigned b = 0; b < ES; b++) v |= (uint32_t)e[b] << (8 * b);
            if (ES < 4) v |= nd_u32() << (8 * (ES & 3));  /* higher bytes are ignored */
            ok = array_append_value(a, v);
        } else
            ok = array_append_ptr(a, e);
        VF_ASSERT(ok || vf_failed > f0, "append fails only for lack of memory");
        if (ok) {
            for (unsigned b = 0; b < ES; b++) model[n][b] = e[b];
            n++;
        }
#if EVERY
        if (n) check(a, n);
#else
        VF_ASSERT(array_length(a) == n, "length is the number of successful appends");
#endif
    }
    if (n > 0) check(a, n);
    vf_fail_at = 0;
    array_free(a);
    VF_ASSERT(vf_live == 0, "freeing the array releases every block");
}
void h_append(void) {
    for (unsigned f = 0; f <= FAILS; f++) run(f);
    VF_REACH("end");
}
/* creation for any element size / capacity: refused or really usable */
void h_create(void) {
    size_t es = nd_size(), cap = nd_size();
    VF_ASSUME(es >= 1 && es <= 16);
    VF_ASSUME(cap <= 40);
    vf_oom = 1;
    array_t *a = array_new_with_init_capacity(es, cap);
    if (!a) { VF_ASSERT(vf_failed, "creation fails only for lack of memory"); VF_REACH("refused"); return; }
    VF_ASSERT(array_length(a) == 0, "a new array is empty");
    array_free(a);
    array_free(NULL);
    VF_ASSERT(vf_live == 0, "freeing the array releases every block");
    VF_REACH("created");
}
