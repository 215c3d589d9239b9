/* ld_elf_relocation_apply: exact psABI value or refusal, every type, every operand */
#include "vf.h"
#include "units/elf_common.h"
#include "src/ld/ld_elf_riscv_uleb.h"
#include "spec/elf_psabi.h"

static rel_in_t g_in;
static uint32_t g_type;
static size_t g_size;
static int g_machine;

static rel_out_t spec_reloc(void) {
    if (g_machine == 183) return spec_aarch64(g_type, &g_in);
    if (g_machine == 62) return spec_x86_64(g_type, &g_in);
    return spec_riscv64(g_type, &g_in);
}
/* success only with the exact value in the field, nothing else touched */
static bool post_exact(const uint8_t *place, int ret) {
    rel_out_t o = spec_reloc();
    if (!o.known || ret != 0) return true;
    if (!o.may || o.width > g_size) return false;
    return spec_encoded(&o, g_in.old, place);
}
/* bytes outside the field, and everything on refusal, stay as they were */
static bool post_frame(const uint8_t *place, int ret) {
    rel_out_t o = spec_reloc();
    if (!o.known) return true;
    unsigned w = ret == 0 ? o.width : 0;
    for (unsigned i = 0; i < 16; i++)
        if (i >= w && place[i] != g_in.old[i]) return false;
    return true;
}
/* a representable value is never refused */
static bool post_total(int ret) {
    rel_out_t o = spec_reloc();
    if (!o.known || !o.must || g_size < o.width) return true;
    return ret == 0;
}

int ld_elf_relocation_apply(ld_elf_context_t *ctx, const ld_elf_object_t *object,
                            const ld_elf_section_t *section,
                            const ld_elf_relocation_t *relocation, uint8_t *place,
                            size_t place_size, const ld_elf_reloc_values_t *values)
VF_REQUIRES(relocation && values && place && object)
VF_ASSIGNS(VF_UPTO(place, 16))
VF_ENSURES(post_exact(place, VF_RET))
VF_ENSURES(post_frame(place, VF_RET))
VF_ENSURES(post_total(VF_RET));

#include "src/ld/ld_elf_reloc.c"

void vf_harness(void) {
    ld_elf_object_t object = {0};
    ld_elf_section_t section = {0};
    ld_elf_relocation_t rel = {0};
    ld_elf_reloc_values_t v = {0};
    uint8_t place[16];
    for (int i = 0; i < 16; i++) place[i] = g_in.old[i] = vf_u8();
    g_machine = VF_MACHINE;
    object.header.e_machine = VF_MACHINE;
    rel.type = g_type = VF_TYPE;
    rel.addend = g_in.A = vf_i64();
    rel.offset = vf_u64();
    v.place_address = g_in.P = vf_u64();
    v.symbol_address = g_in.S = vf_u64();
    v.got_entry_address = g_in.G = vf_u64();
    v.got_base_address = g_in.GOT = vf_u64();
    v.symbol_size = g_in.Z = vf_u64();
    v.tls_block_address = g_in.DTP = vf_u64();
    v.thread_pointer_address = g_in.TP = vf_u64();
    v.image_base_address = g_in.B = vf_u64();
    v.paired_hi.present = g_in.hi_present = vf_bool();
    v.paired_hi.type = g_in.hi_type = vf_u32();
    v.paired_hi.place_address = g_in.hi_P = vf_u64();
    v.paired_hi.symbol_address = g_in.hi_S = vf_u64();
    v.paired_hi.got_entry_address = g_in.hi_G = vf_u64();
    v.paired_hi.addend = g_in.hi_A = vf_i64();
    size_t size = g_size = (size_t) vf_u64();
    int ret = ld_elf_relocation_apply(NULL, &object, &section, &rel, place, size, &v);
    VF_CHECK_C(post_exact(place, ret), "success stores the exact ABI value");
    VF_CHECK_C(post_frame(place, ret), "no byte outside the field changes");
    VF_CHECK_C(post_total(ret), "representable value is not refused");
#if VF_HAS_OK
    VF_REACH(ret == 0 && g_size >= 8, "relocation applied");
#endif
#if VF_HAS_ERR
    VF_REACH(ret != 0 && g_size >= 8, "relocation refused");
#endif
    VF_REACH(true, "returns");
}
