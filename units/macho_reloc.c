/* C14: ld_apply_relocations on one section with one ARM64 Mach-O relocation (or
 * one ADDEND / SUBTRACTOR pair): exact ABI value or refusal.
 *
 * Addresses, offsets, addends and the bytes at the place are arbitrary.  Only the
 * field and 8 bytes on either side exist as memory. */
#include "vf.h"
#include "src/ld/ld_internal.h"
#include <stdlib.h>

static int vf_failures;
int ld_fail(ld_context_t *ctx, int code, const char *format, ...) {
    (void) format;
    vf_failures++;
    ctx->error = code;
    return code;
}
static ld_fixup_t vf_fixups[64];
void *ld_realloc_array(void *old, size_t old_count, size_t new_count, size_t element_size) {
    (void) old, (void) old_count, (void) new_count, (void) element_size;
    return vf_fixups;
}
#include "src/ld/ld_macho_synthetic.c"
#include "src/ld/ld_macho.c"

#define T_ VF_TYPE
#define IS_GOT (T_ == LD_ARM64_RELOC_GOT_LOAD_PAGE21 || T_ == LD_ARM64_RELOC_GOT_LOAD_PAGEOFF12 || T_ == LD_ARM64_RELOC_POINTER_TO_GOT)
#define IS_TLVP (T_ == LD_ARM64_RELOC_TLVP_LOAD_PAGE21 || T_ == LD_ARM64_RELOC_TLVP_LOAD_PAGEOFF12)
#define IS_PAGE (T_ == LD_ARM64_RELOC_PAGE21 || T_ == LD_ARM64_RELOC_GOT_LOAD_PAGE21 || T_ == LD_ARM64_RELOC_TLVP_LOAD_PAGE21)
#define IS_DATA (T_ == LD_ARM64_RELOC_UNSIGNED || T_ == LD_ARM64_RELOC_SUBTRACTOR)
#define LIMIT (1ull << 60)
#if VF_LENGTH == 3
typedef __int128 wide;
#else
typedef int64_t wide; /* all addresses are below 2^62 */
#endif

static void put32(uint8_t *p, uint32_t v) {
    for (int i = 0; i < 4; i++) p[i] = (uint8_t) (v >> (8 * i));
}
static uint32_t word(uint32_t symbol, unsigned pcrel, unsigned length, unsigned external, unsigned type) {
    return (symbol & 0xffffff) | pcrel << 24 | length << 25 | external << 27 | type << 28;
}

void vf_harness(void) {
    static ld_context_t ctx;
    static ld_file_t file;
    ld_object_t object = {0};
    ld_object_t *objects[1] = {&object};
    ld_input_section_t sections[3] = {0};
    ld_input_symbol_t symbols[2] = {0};
    ld_output_section_t out = {0}, tout = {0}, uout = {0}, got = {0}, tlvp = {0};
    ld_macho_ref_t got_items[2], tlv_items[1];
    uint8_t relocs[16], got_data[16], tlv_data[8];
    uint8_t window[24], old[24];

    ctx.objects.items = objects;
    ctx.objects.count = 1;
    object.file = &file;
    object.selected = true;
    object.sections = sections;
    object.section_count = 3;
    object.symbols = symbols;
    object.symbol_count = 2;

    /* the patched section */
    uint32_t address = vf_u32();
    sections[0].output = &out;
    sections[0].output_offset = vf_u64();
    sections[0].header.size = vf_u64();
    out.addr = vf_u64();
    VF_ASSUME(out.addr < LIMIT && sections[0].output_offset < LIMIT && sections[0].header.size < LIMIT);
    for (int i = 0; i < 24; i++) window[i] = old[i] = vf_u8();
    out.data = window + 8 - (sections[0].output_offset + address);
    sections[0].relocations = relocs;
    uint64_t P = out.addr + sections[0].output_offset + address;

    /* two local symbols, in the second and the third section */
    uint64_t addr[2];
    for (int i = 0; i < 2; i++) {
        ld_output_section_t *o = i ? &uout : &tout;
        o->addr = vf_u64();
        sections[1 + i].output = o;
        sections[1 + i].output_offset = vf_u64();
        sections[1 + i].header.addr = vf_u64();
        uint64_t relative = vf_u64();
        VF_ASSUME(o->addr < LIMIT && sections[1 + i].output_offset < LIMIT && sections[1 + i].header.addr < LIMIT && relative < LIMIT);
        symbols[i].object = &object;
        symbols[i].index = i;
        symbols[i].entry.n_type = LD_N_SECT;
        symbols[i].entry.n_sect = 2 + i;
        symbols[i].entry.n_value = sections[1 + i].header.addr + relative;
        addr[i] = o->addr + sections[1 + i].output_offset + relative;
    }
    if (IS_TLVP) sections[1].header.flags = LD_S_THREAD_LOCAL_VARIABLES;

    /* one segment holds everything that can be rebased */
    ctx.segment_count = 1;
    ctx.segments[0].vmaddr = 0;
    ctx.segments[0].vmsize = UINT64_MAX;
    ctx.segments[0].command_index = 2;
    bool with_pointer = false;
    if (IS_GOT) {
        got.addr = vf_u64();
        VF_ASSUME(got.addr < LIMIT);
        got.data = got_data;
        ctx.got = &got;
        bool second = vf_bool();
        got_items[0] = (ld_macho_ref_t){.object = &object, .input_index = second ? 1 : 0};
        got_items[1] = (ld_macho_ref_t){.object = &object, .input_index = second ? 0 : 1};
        ctx.got_refs.items = got_items;
        ctx.got_refs.count = 2;
        addr[0] = got.addr + (second ? 8 : 0);
    }
    if (IS_TLVP) {
        with_pointer = VF_VAR == 3;
        tlvp.addr = vf_u64();
        VF_ASSUME(tlvp.addr < LIMIT);
        tlvp.data = tlv_data;
        if (with_pointer) {
            ctx.tlv_ptrs = &tlvp;
            tlv_items[0] = (ld_macho_ref_t){.object = &object, .input_index = 0};
            ctx.tlv_ptr_refs.items = tlv_items;
            ctx.tlv_ptr_refs.count = 1;
            addr[0] = tlvp.addr;
        }
    }

    /* the relocation, in a mode the scan accepts */
    unsigned length = VF_LENGTH;
    unsigned pcrel = T_ == LD_ARM64_RELOC_BRANCH26 || IS_PAGE || T_ == LD_ARM64_RELOC_POINTER_TO_GOT;
    unsigned width = 1u << length;
    bool by_section = VF_VAR == 1;
    wide A = 0;
    uint64_t target = addr[0], minuend = addr[1];
    if (by_section) {
        target = tout.addr + sections[1].output_offset;
        minuend = uout.addr + sections[2].output_offset;
    }
    if (T_ == LD_ARM64_RELOC_SUBTRACTOR) {
        put32(relocs, address);
        put32(relocs + 4, word(by_section ? 2 : 0, 0, length, !by_section, T_));
        put32(relocs + 8, address);
        put32(relocs + 12, word(by_section ? 3 : 1, 0, length, !by_section, LD_ARM64_RELOC_UNSIGNED));
        sections[0].header.nreloc = 2;
    } else if (VF_VAR == 2) { /* preceded by an explicit addend */
        uint32_t a = vf_u32() & 0xffffff;
        A = (wide) (int32_t) (a << 8) / 256;
        put32(relocs, address);
        put32(relocs + 4, word(a, 0, 2, 0, LD_ARM64_RELOC_ADDEND));
        put32(relocs + 8, address);
        put32(relocs + 12, word(0, pcrel, 2, 1, T_));
        sections[0].header.nreloc = 2;
    } else {
        put32(relocs, address);
        put32(relocs + 4, word(by_section ? 2 : 0, pcrel, length, !by_section, T_));
        sections[0].header.nreloc = 1;
    }

    uint32_t insn = (uint32_t) old[8] | (uint32_t) old[9] << 8 | (uint32_t) old[10] << 16 | (uint32_t) old[11] << 24;
    uint64_t raw = insn;
    if (width == 8)
        for (int i = 4; i < 8; i++) raw |= (uint64_t) old[8 + i] << (8 * i);
    if (T_ == LD_ARM64_RELOC_BRANCH26) VF_ASSUME((insn & 0x7fffffff) == 0x14000000);
    if (IS_PAGE) VF_ASSUME((insn & 0x9f000000) == 0x90000000);
    unsigned scale = 0;
    if (T_ == LD_ARM64_RELOC_PAGEOFF12 || T_ == LD_ARM64_RELOC_GOT_LOAD_PAGEOFF12) {
        bool add = (insn & 0x7fc00000) == 0x11000000;
        VF_ASSUME(add || (insn & 0x3b000000) == 0x39000000);
        /* scaled by the access size: bits 31:30, 16 bytes for the 128-bit vector forms */
        if (!add) scale = (insn & 0x04000000) && (insn >> 30) == 0 && (insn & 0x00800000) ? 4 : insn >> 30;
    }
    if (T_ == LD_ARM64_RELOC_TLVP_LOAD_PAGEOFF12) VF_ASSUME((insn & 0xffc00000) == 0xf9400000);
    if (IS_DATA) A = width == 8 ? (wide) (int64_t) raw : (wide) (int32_t) (uint32_t) raw;

    /* the specification */
    wide T = (wide) target + A, v = 0;
    bool fits = true;
    uint64_t want = 0;
    switch (T_) {
        case LD_ARM64_RELOC_UNSIGNED:
            v = T;
            #if VF_LENGTH == 3
            fits = v >= INT64_MIN && v <= (wide) UINT64_MAX;
#else
            fits = v >= INT32_MIN && v <= UINT32_MAX;
#endif
            want = (uint64_t) v;
            break;
        case LD_ARM64_RELOC_SUBTRACTOR:
            v = (wide) minuend - (wide) target + A;
            fits = width == 8 ? v >= INT64_MIN && v <= INT64_MAX : v >= INT32_MIN && v <= UINT32_MAX;
            want = (uint64_t) v;
            break;
        case LD_ARM64_RELOC_BRANCH26:
            v = T - (wide) P;
            fits = (v & 3) == 0 && v >= -(1ll << 27) && v < (1ll << 27);
            want = (insn & 0xfc000000) | ((uint32_t) ((uint64_t) v >> 2) & 0x03ffffff);
            break;
        case LD_ARM64_RELOC_PAGE21: case LD_ARM64_RELOC_GOT_LOAD_PAGE21: case LD_ARM64_RELOC_TLVP_LOAD_PAGE21: {
            v = (T >> 12) - (wide) (P >> 12);
            fits = T >= 0 && v >= -(1 << 20) && v < (1 << 20);
            uint32_t imm = (uint32_t) v & 0x1fffff;
            want = (insn & 0x9f00001f) | (imm & 3) << 29 | (imm >> 2) << 5;
            break;
        }
        case LD_ARM64_RELOC_PAGEOFF12: case LD_ARM64_RELOC_GOT_LOAD_PAGEOFF12:
            fits = T >= 0 && (T & ((1 << scale) - 1)) == 0;
            want = (insn & 0xffc003ff) | ((uint32_t) (T & 0xfff) >> scale) << 10;
            break;
        case LD_ARM64_RELOC_TLVP_LOAD_PAGEOFF12:
            /* through the pointer slot: load it; otherwise compute the address */
            fits = !with_pointer || (T & 7) == 0;
            want = with_pointer ? 0xf9400000u | (insn & 0x3ff) | ((uint32_t) (T & 0xfff) >> 3) << 10
                                : 0x91000000u | (insn & 0x3ff) | (uint32_t) (T & 0xfff) << 10;
            break;
        case LD_ARM64_RELOC_POINTER_TO_GOT:
            v = T - (wide) P;
            fits = v >= INT32_MIN && v <= INT32_MAX;
            want = (uint32_t) v;
            break;
    }
    bool inside = address < sections[0].header.size && width <= sections[0].header.size - address;
    /* a section of size zero has no relocations to apply */
    bool skip = sections[0].header.size == 0;
    bool ok = fits && inside;

    int r = ld_apply_relocations(&ctx);

    VF_CHECK(skip || r != LD_OK || ok, "a value that does not fit is refused");
    VF_CHECK(skip || r == LD_OK || !ok, "a representable value is never refused");
    VF_CHECK((r == LD_OK) == (vf_failures == 0), "a refusal is reported");
    for (unsigned i = 0; i < 24; i++)
        VF_CHECK((i >= 8 && i < 8 + width) || window[i] == old[i], "no byte outside the field changes");
    uint64_t now = 0;
    for (unsigned i = 0; i < 8; i++)
        if (i < width) now |= (uint64_t) window[8 + i] << (8 * i);
    if (r == LD_OK && !skip) VF_CHECK(now == (width == 8 ? want : (uint32_t) want), "success stores the exact ABI value");
    else VF_CHECK(now == raw, "a refused field keeps its bytes");
    size_t slots = ctx.got_refs.count + ctx.tlv_ptr_refs.count;
    bool fixup = T_ == LD_ARM64_RELOC_UNSIGNED && width == 8;
    if (r == LD_OK && !skip) {
        VF_CHECK(ctx.rebases.count == slots + (fixup ? 1 : 0) && ctx.binds.count == 0, "exactly the pointers get a rebase entry");
        if (fixup) VF_CHECK(ctx.rebases.items[0].segment == 2 && ctx.rebases.items[0].offset == P, "the rebase entry names the field");
    }
    VF_REACH(r == LD_OK && !skip, "stored");
    VF_REACH(r != LD_OK, "refused");
}
