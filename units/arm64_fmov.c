/*
 * arm64_fmov_double_to_imm8: an accepted value (anything but 0xff) is the one
 * the hardware expands the immediate to, as a double and as a float.
 */
#include "vf.h"
#include "vf_mem.h"
#include "src/binary/encoding/arm64/fmov_imm8.h"
#include "spec/a64_mini.h"

void vf_harness(void) {
    union { double d; uint64_t u; } v;
    union { float f; uint32_t u; } f;
    v.u = vf_u64();
    uint8_t r = arm64_fmov_double_to_imm8(v.d);
    VF_REACH(r != 0xff, "accepted value");
    VF_REACH(r == 0xff, "rejected value");
    if (r != 0xff) {
        VF_CHECK(a64_expand_imm(true, r) == v.u, "expands to the same double");
        f.f = (float) v.d;
        VF_CHECK(a64_expand_imm(false, r) == f.u, "expands to the same float");
    } else {
        uint8_t k = vf_u8();
        VF_CHECK(k == 0xff || a64_expand_imm(true, k) != v.u, "a rejected value is no other immediate");
    }
}
