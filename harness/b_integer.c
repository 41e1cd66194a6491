#include "vf.h"
#include "data/integer.h"
static int pow2ge2(uint32_t v) { return v >= 2 && (v & (v - 1)) == 0; }
void h_pow2(void) {
    uint32_t i = nd_u32();
    VF_ASSERT(integer_is_power_of_two(i) == (pow2ge2(i) != 0), "power-of-two test");
    uint32_t up = integer_roundup_pow_of_two(i), dn = integer_rounddown_pow_of_two(i);
    if (i == 0) VF_ASSERT(up == 0, "round up of zero");
    else if (i <= 0x80000000u) {
        VF_ASSERT(pow2ge2(up) && up >= i, "round up is a power of two not below");
        if (i >= 2) VF_ASSERT(up / 2 < i, "round up is the smallest such");
        else VF_ASSERT(up == 2, "one rounds up to two");
        VF_REACH("up");
    } else { VF_ASSERT(up == 0, "unrepresentable round up is zero"); VF_REACH("up overflow"); }
    if (i < 2) VF_ASSERT(dn == 0, "round down below two");
    else {
        VF_ASSERT(pow2ge2(dn) && dn <= i, "round down is a power of two not above");
        VF_ASSERT(i - dn < dn, "round down is the largest such");
        if (i > 0x80000000u) VF_REACH("down high"); else VF_REACH("down");
    }
}
