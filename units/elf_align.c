/* R_RISCV_ALIGN through ld_elf_relocation_apply: nothing is written; success
 * exactly when the padding is NOPs and the next instruction is aligned */
#include "vf.h"
#include "units/elf_common.h"
#define N 16
static uint8_t g_old[N];
static size_t g_size;
static uint64_t g_P;
static int64_t g_A;
static bool nops(void) {
    unsigned i = 0, n = (unsigned) g_A;
    for (unsigned k = 0; k <= N / 2; k++) {
        if (i == n) return true;
        if (n - i >= 2 && g_old[i] == 1 && g_old[i + 1] == 0) i += 2;
        else if (n - i >= 4 && g_old[i] == 0x13 && !g_old[i + 1] && !g_old[i + 2] && !g_old[i + 3]) i += 4;
        else return false;
    }
    return false;
}
static bool post(const uint8_t *p, int ret) {
    for (unsigned i = 0; i < N; i++)
        if (i < g_size && p[i] != g_old[i]) return false;
    bool ok = g_A >= 0 && (uint64_t) g_A <= g_size;
    if (ok && g_A != 0) {
        uint64_t al = 1;
        for (int k = 0; k < 6; k++)
            if (al <= (uint64_t) g_A) al <<= 1;
        __int128 end = (__int128) g_P + g_A;
        ok = (g_A & 1) == 0 && end < ((__int128) 1 << 64) && ((uint64_t) end & (al - 1)) == 0 && nops();
    }
    return (ret == 0) == ok;
}
int ld_elf_relocation_apply(ld_elf_context_t *ctx, const ld_elf_object_t *object,
                            const ld_elf_section_t *section, const ld_elf_relocation_t *relocation,
                            uint8_t *place, size_t place_size, const ld_elf_reloc_values_t *values)
VF_REQUIRES(relocation && values && place && object)
VF_ASSIGNS(VF_UPTO(place, place_size))
VF_ENSURES(post(place, VF_RET));
#include "src/ld/ld_elf_reloc.c"
void vf_harness(void) {
    ld_elf_object_t object = {0};
    ld_elf_section_t section = {0};
    ld_elf_relocation_t rel = {0};
    ld_elf_reloc_values_t v = {0};
    uint8_t buf[N];
    g_size = VF_SIZE;
    uint8_t *place = buf + (N - g_size);
    for (unsigned i = 0; i < N; i++) buf[i] = vf_u8();
    for (unsigned i = 0; i < N; i++) g_old[i] = i < g_size ? place[i] : 0;
    object.header.e_machine = 243;
    rel.type = 43;
    rel.addend = g_A = vf_i64();
    v.place_address = g_P = vf_u64();
    int ret = ld_elf_relocation_apply(NULL, &object, &section, &rel, place, g_size, &v);
    VF_CHECK_C(post(place, ret), "padding accepted exactly when it aligns and is made of NOPs");
    VF_REACH(ret == 0 && g_A >= 4, "accepted");
    VF_REACH(ret != 0 && g_A > 4, "refused");
}
