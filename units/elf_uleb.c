/* RISC-V SET/SUB_ULEB128: KIND 1 single relocation, 2 SET/SUB pair */
#include "vf.h"
#include "units/elf_common.h"
#include "src/ld/ld_elf_riscv_uleb.h"

#define N 12
static uint8_t g_old[N];
static size_t g_size;
static bool g_sub;
static uint64_t g_S, g_S2;
static int64_t g_A, g_A2;
static bool g_meta;

/* length of the field, 0 if it is not a ULEB128 of at most 64 bits */
static unsigned field(void) {
    for (unsigned i = 0; i < 10 && i < g_size; i++) {
        if (i == 9 && (g_old[i] & 0x7f) > 1) return 0;
        if (!(g_old[i] & 0x80)) return i + 1;
    }
    return 0;
}
static uint64_t decode(const uint8_t *p, unsigned n) {
    uint64_t v = 0;
    for (unsigned i = 0; i < n; i++) v |= (uint64_t) (p[i] & 0x7f) << (7 * i);
    return v;
}
static bool u64fits(__int128 v) { return v >= 0 && v < ((__int128) 1 << 64); }
static uint64_t keep(uint64_t v, unsigned n) { return n >= 10 ? v : v & ((1ull << (7 * n)) - 1); }
static bool post(const uint8_t *p, int ret) {
    unsigned n = field();
#if VF_KIND == 1
    __int128 op = (__int128) g_S + g_A;
    bool ok = n != 0 && u64fits(op);
    uint64_t want = g_sub ? decode(g_old, n) - (uint64_t) op : (uint64_t) op;
#else
    __int128 op = (__int128) g_S + g_A, op2 = (__int128) g_S2 + g_A2;
    bool ok = g_meta && n != 0 && u64fits(op) && u64fits(op2);
    uint64_t want = (uint64_t) op - (uint64_t) op2;
#endif
#ifndef VF_SUB_ADDEND
#if VF_KIND == 1
    __int128 dev = (__int128) g_S - g_A;
    bool alt = g_sub && n != 0 && u64fits(dev);
#else
    __int128 dev = (__int128) g_S2 - g_A2;
    bool alt = g_meta && n != 0 && u64fits(op) && u64fits(dev);
#endif
    if ((ret == 0) != ok && (ret == 0) != alt) return false;
#else
    if ((ret == 0) != ok) return false;
#endif
    for (unsigned i = 0; i < N; i++)
        if ((ret != 0 || i >= n) && i < g_size && p[i] != g_old[i]) return false;
    if (ret != 0) return true;
    for (unsigned i = 0; i < n; i++) /* same encoded length */
        if ((p[i] & 0x80) != (g_old[i] & 0x80)) return false;
    uint64_t got = decode(p, n);
#ifndef VF_SUB_ADDEND
    /* known finding (probe unit): a SUB addend is applied with the wrong sign;
     * that one deviation is tolerated here so that any other one is reported */
#if VF_KIND == 1
    if (g_sub && got == keep(decode(g_old, n) - (g_S - (uint64_t) g_A), n)) return true;
#else
    if (got == keep((uint64_t) op - (g_S2 - (uint64_t) g_A2), n)) return true;
#endif
#endif
    return got == keep(want, n);
}

#if VF_KIND == 1
ld_elf_riscv_uleb_result_t ld_elf_riscv_uleb_apply(
        uint8_t *place, size_t place_size, bool subtract,
        uint64_t symbol_value, int64_t addend, size_t *encoded_size)
VF_REQUIRES(place && encoded_size)
VF_ASSIGNS(VF_UPTO(place, place_size), *encoded_size)
VF_ENSURES(post(place, (int) VF_RET));
#else
int ld_elf_relocation_apply_riscv_uleb_pair(
        ld_elf_context_t *ctx, const ld_elf_object_t *object, const ld_elf_section_t *section,
        const ld_elf_relocation_t *set_relocation, const ld_elf_relocation_t *sub_relocation,
        uint8_t *place, size_t place_size, const ld_elf_reloc_values_t *set_values,
        const ld_elf_reloc_values_t *sub_values)
VF_REQUIRES(place && set_relocation && sub_relocation && set_values && sub_values)
VF_ASSIGNS(VF_UPTO(place, place_size))
VF_ENSURES(post(place, VF_RET));
#endif
#include "src/ld/ld_elf_riscv_uleb.c"
#if VF_KIND == 2
#include "src/ld/ld_elf_reloc.c"
#endif

void vf_harness(void) {
    uint8_t buf[N];
    g_size = (size_t) vf_u64();
    VF_ASSUME(g_size <= N);
    uint8_t *place = buf + (N - g_size);
    for (unsigned i = 0; i < N; i++) buf[i] = vf_u8();
    for (unsigned i = 0; i < N; i++) g_old[i] = i < g_size ? place[i] : 0;
    g_S = vf_u64();
    g_A = vf_i64();
#if VF_KIND == 1
    g_sub = vf_bool();
    size_t enc = 0;
#ifdef VF_SUB_ADDEND
    VF_ASSUME(g_sub && g_A != 0);
#endif
    int ret = (int) ld_elf_riscv_uleb_apply(place, g_size, g_sub, g_S, g_A, &enc);
#else
    ld_elf_object_t object = {0};
    ld_elf_section_t section = {0};
    ld_elf_relocation_t set = {0}, sub = {0};
    ld_elf_reloc_values_t v = {0}, v2 = {0};
    g_S2 = vf_u64();
    g_A2 = vf_i64();
#ifdef VF_SUB_ADDEND
    VF_ASSUME(g_A2 != 0);
#endif
    set.type = vf_u32();
    sub.type = vf_u32();
    set.offset = vf_u64();
    sub.offset = vf_u64();
    set.relocation_section_index = vf_u32();
    sub.relocation_section_index = vf_u32();
    set.addend = g_A;
    sub.addend = g_A2;
    v.symbol_address = g_S;
    v2.symbol_address = g_S2;
    object.header.e_machine = 243;
    g_meta = set.type == 60 && sub.type == 61 && set.offset == sub.offset &&
             set.relocation_section_index == sub.relocation_section_index;
    int ret = ld_elf_relocation_apply_riscv_uleb_pair(NULL, &object, &section, &set, &sub, place, g_size, &v, &v2);
#endif
    VF_CHECK_C(post(place, ret), "field holds the ULEB128 difference in its original width");
    VF_REACH(ret == 0, "applied");
    VF_REACH(ret != 0, "refused");
}
