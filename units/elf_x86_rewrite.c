/* x86-64 instruction rewrites: KIND 1 TLS pair, 2 GOTTPOFF, 3 GOTPCRELX.
 * The rewritten bytes are executed by spec/x86_mini.h and must leave the
 * register (or branch target) the original sequence would have produced. */
#include "vf.h"
#include "units/elf_common.h"
#include "spec/x86_mini.h"
#include <string.h>

#define N 24
static uint8_t g_old[N];
static uint32_t g_type;
static size_t g_size;
static uint64_t g_off, g_S, g_P, g_TP, g_DTP;
static int64_t g_A;
/* TLS pair */
static bool g_pair_meta;   /* relocation pair metadata is well formed */
static uint32_t g_htype;
static int64_t g_hA;
static bool g_desc_meta;

static bool s32(__int128 v) { return v >= -((__int128) 1 << 31) && v < ((__int128) 1 << 31); }

static bool outside_same(const uint8_t *d, uint64_t from, uint64_t len) {
    for (unsigned i = 0; i < N; i++)
        if ((i < from || i >= from + len) && i < g_size && d[i] != g_old[i]) return false;
    return true;
}
static bool run_at(x86_t *s, const uint8_t *d, uint64_t start, unsigned len) {
    uint8_t q[16];
    for (unsigned i = 0; i < 16; i++) q[i] = i < len ? d[start + i] : 0;
    return x86_run(s, q, len);
}
static void fresh_state(x86_t *s) {
    for (int i = 0; i < 16; i++) s->r[i] = 0xa5a5000000000000u + (uint64_t) i * 0x1357;
    s->fsbase = g_TP;
    s->branch = 0;
    s->target = 0;
}
static bool others_kept(const x86_t *s, unsigned except) {
    for (unsigned i = 0; i < 16; i++)
        if (i != except && s->r[i] != 0xa5a5000000000000u + (uint64_t) i * 0x1357) return false;
    return true;
}

#if VF_KIND == 1
static bool indirect(void) { return g_htype == 9 || g_htype == 41; }
static unsigned seq_len(void) { return g_type == 34 ? 9 : g_type == 19 ? 16 : indirect() ? 13 : 12; }
static unsigned seq_prefix(void) { return g_type == 19 ? 4 : 3; }
static bool matches(void) {
    if (!g_pair_meta || g_A != -4) return false;
    unsigned pre = seq_prefix(), len = seq_len();
    if (g_type == 34 ? (g_htype != 35 || g_hA != 0 || !g_desc_meta)
                     : ((g_htype != 2 && g_htype != 4 && g_htype != 9 && g_htype != 41) || g_hA != -4))
        return false;
    if (g_off < pre || g_off - pre > g_size || g_size - (g_off - pre) < len) return false;
    const uint8_t *p = g_old + (g_off - pre);
    if (g_type == 34) return p[0] == 0x48 && p[1] == 0x8d && p[2] == 0x05 && p[7] == 0xff && p[8] == 0x10;
    if (g_type == 19)
        return p[0] == 0x66 && p[1] == 0x48 && p[2] == 0x8d && p[3] == 0x3d &&
               (indirect() ? p[8] == 0x66 && p[9] == 0x48 && p[10] == 0xff && p[11] == 0x15
                           : p[8] == 0x66 && p[9] == 0x66 && p[10] == 0x48 && p[11] == 0xe8);
    return p[0] == 0x48 && p[1] == 0x8d && p[2] == 0x3d &&
           (indirect() ? p[7] == 0xff && p[8] == 0x15 : p[7] == 0xe8);
}
static bool fits(void) {
    return g_type == 20 ? s32((__int128) g_TP - g_DTP) : s32((__int128) g_S - g_TP);
}
static bool post(const uint8_t *d, int ret) {
    if ((ret == 0) != (matches() && fits())) return false;
    if (ret != 0) return outside_same(d, 0, 0);
    uint64_t start = g_off - seq_prefix();
    unsigned len = seq_len();
    if (!outside_same(d, start, len)) return false;
    x86_t s;
    fresh_state(&s);
    s.rip = 0x1000;
    if (!run_at(&s, d, start, len) || s.branch || !others_kept(&s, 0)) return false;
    /* __tls_get_addr returns the address; a TLS descriptor returns the TP offset */
    return s.r[0] == (g_type == 34 ? g_S - g_TP : g_type == 19 ? g_S : g_DTP);
}
int ld_elf_relocation_apply_x86_tls_pair(
        ld_elf_context_t *ctx, const ld_elf_object_t *object, const ld_elf_section_t *section,
        const ld_elf_relocation_t *relocation, const ld_elf_relocation_t *helper,
        uint8_t *section_data, size_t section_size, uint64_t mapped_offset,
        const ld_elf_reloc_values_t *values)
VF_REQUIRES(object && relocation && helper && section_data && values)
VF_ASSIGNS(VF_UPTO(section_data, section_size))
VF_ENSURES(post(section_data, VF_RET));
#elif VF_KIND == 2
static bool matches(void) {
    if (g_type != 22 || g_A != -4 || g_off < 3 || g_off - 3 > g_size || g_size - (g_off - 3) < 7) return false;
    const uint8_t *p = g_old + (g_off - 3);
    return (p[0] == 0x48 || p[0] == 0x4c) && p[1] == 0x8b && (p[2] & 0xc7) == 0x05;
}
static bool post(const uint8_t *d, int ret) {
    if ((ret == 0) != (matches() && s32((__int128) g_S - g_TP))) return false;
    if (ret != 0) return outside_same(d, 0, 0);
    uint64_t start = g_off - 3;
    if (!outside_same(d, start, 7)) return false;
    unsigned reg = ((g_old[start + 2] >> 3) & 7) + (g_old[start] == 0x4c ? 8 : 0);
    x86_t s;
    fresh_state(&s);
    s.rip = 0x1000;
    if (!run_at(&s, d, start, 7) || s.branch || !others_kept(&s, reg)) return false;
    return s.r[reg] == g_S - g_TP;
}
int ld_elf_relocation_apply_x86_gottpoff(
        ld_elf_context_t *ctx, const ld_elf_object_t *object, const ld_elf_section_t *section,
        const ld_elf_relocation_t *relocation, uint8_t *section_data, size_t section_size,
        uint64_t mapped_offset, const ld_elf_reloc_values_t *values)
VF_REQUIRES(object && relocation && section_data && values)
VF_ASSIGNS(VF_UPTO(section_data, section_size))
VF_ENSURES(post(section_data, VF_RET));
#else
/* 0 none, 1 mov, 2 call, 3 jmp */
static int form(void) {
    unsigned pre = g_type == 42 ? 3 : 2;
    if ((g_type != 41 && g_type != 42) || g_off < pre || g_off > g_size || g_size - g_off < 4) return 0;
    const uint8_t *p = g_old + (g_off - 2);
    if (g_type == 42) return (g_old[g_off - 3] & 0xf0) == 0x40 && p[0] == 0x8b && (p[1] & 0xc7) == 0x05;
    if (p[0] == 0x8b && (p[1] & 0xc7) == 0x05) return 1;
    if (p[0] == 0xff && p[1] == 0x15) return 2;
    if (p[0] == 0xff && p[1] == 0x25) return 3;
    return 0;
}
static bool post(const uint8_t *d, int ret) {
    int f = form();
    if ((ret == 0) != (f != 0 && s32((__int128) g_S + g_A - g_P))) return false;
    if (ret != 0) return outside_same(d, 0, 0);
    unsigned pre = g_type == 42 ? 3 : 2;
    uint64_t start = g_off - pre;
    if (!outside_same(d, start, pre + 4)) return false;
    /* any other addend would name a different GOT slot: no meaning to keep */
    if (g_A != -4) return true;
    x86_t s;
    fresh_state(&s);
    s.rip = g_P - pre;
    if (!run_at(&s, d, start, pre + 4) || s.rip != g_P + 4) return false;
    if (f == 1) {
        uint8_t rex = g_type == 42 ? g_old[start] : 0;
        unsigned reg = ((g_old[g_off - 1] >> 3) & 7) + ((rex & 4) ? 8 : 0);
        return !s.branch && others_kept(&s, reg) && s.r[reg] == ((rex & 8) ? g_S : (uint32_t) g_S);
    }
    return s.branch == f - 1 && s.target == g_S && others_kept(&s, 99);
}
int ld_elf_relocation_apply_x86_gotpcrelx(
        ld_elf_context_t *ctx, const ld_elf_object_t *object, const ld_elf_section_t *section,
        const ld_elf_relocation_t *relocation, uint8_t *section_data, size_t section_size,
        uint64_t mapped_offset, const ld_elf_reloc_values_t *values)
VF_REQUIRES(object && relocation && section_data && values)
VF_ASSIGNS(VF_UPTO(section_data, section_size))
VF_ENSURES(post(section_data, VF_RET));
#endif

#include "src/ld/ld_elf_reloc.c"

void vf_harness(void) {
    ld_elf_object_t object = {0};
    ld_elf_section_t section = {0};
    ld_elf_relocation_t rel = {0};
    ld_elf_reloc_values_t v = {0};
    ld_elf_symbol_t syms[2] = {{0}};
    char name[16] = "__tls_get_addr";
    uint8_t buf[N];
    object.header.e_machine = 62;
    g_size = (size_t) vf_u64();
    VF_ASSUME(g_size <= N);
    uint8_t *data = buf + (N - g_size);
    for (unsigned i = 0; i < N; i++) buf[i] = vf_u8();
    for (unsigned i = 0; i < N; i++) g_old[i] = i < g_size ? data[i] : 0;
#ifdef VF_TYPE
    rel.type = g_type = VF_TYPE;
#else
    rel.type = g_type = vf_u32();
#endif
    rel.addend = g_A = vf_i64();
    rel.offset = vf_u64();
    g_off = vf_u64();
    v.symbol_address = g_S = vf_u64();
    v.place_address = g_P = vf_u64();
    v.thread_pointer_address = g_TP = vf_u64();
    v.tls_block_address = g_DTP = vf_u64();
#if VF_KIND == 1
    ld_elf_relocation_t helper = {0};
    object.symbols = syms;
    object.symbol_count = 2;
    rel.symbol_index = vf_u32();
    rel.relocation_section_index = vf_u32();
    helper.symbol_index = vf_u32();
    helper.relocation_section_index = vf_u32();
    helper.type = g_htype = vf_u32();
    helper.addend = g_hA = vf_i64();
    helper.offset = vf_u64();
    syms[0].name = "x";
    syms[0].type = vf_u8();
    syms[1].type = vf_u8();
    unsigned at = vf_u8() % 16;
    uint8_t ch = vf_u8();
    bool mangle = vf_bool();
    if (mangle && at < 15) name[at] = (char) ch;
    bool name_ok = !mangle || at == 15 || ch == (uint8_t) "__tls_get_addr"[at];
    syms[1].name = name;
    syms[1].entry.st_shndx = vf_u16();
    syms[0].entry.st_shndx = vf_u16();
    uint64_t delta = g_type == 34 ? 4 : g_type == 19 ? 8 : (g_htype == 9 || g_htype == 41) ? 6 : 5;
    g_pair_meta = rel.symbol_index < 2 && helper.symbol_index < 2 &&
                  rel.relocation_section_index == helper.relocation_section_index &&
                  rel.offset <= UINT64_MAX - delta && helper.offset == rel.offset + delta;
    g_desc_meta = rel.symbol_index < 2 && rel.symbol_index == helper.symbol_index &&
                  syms[rel.symbol_index].type == 6;
    if (g_type != 34)
        g_pair_meta = g_pair_meta && helper.symbol_index == 1 && name_ok && syms[1].entry.st_shndx == 0;
    int ret = ld_elf_relocation_apply_x86_tls_pair(NULL, &object, &section, &rel, &helper, data, g_size, g_off, &v);
#elif VF_KIND == 2
    int ret = ld_elf_relocation_apply_x86_gottpoff(NULL, &object, &section, &rel, data, g_size, g_off, &v);
#else
    int ret = ld_elf_relocation_apply_x86_gotpcrelx(NULL, &object, &section, &rel, data, g_size, g_off, &v);
#endif
    VF_CHECK_C(post(data, ret), "rewritten sequence computes the original address");
    VF_REACH(ret == 0, "rewritten");
    VF_REACH(ret != 0, "refused");
}
