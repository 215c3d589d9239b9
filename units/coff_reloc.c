/* C13: ld_coff_apply_one_relocation stores the exact PE/COFF value or refuses.
 *
 * Section sizes and field positions are arbitrary: only the 8 bytes from the
 * field on and 8 bytes on either side exist as memory, so any other access fails
 * a pointer check.  VF_ABS says whether the target is an
 * absolute symbol. */
#include "vf.h"
#include "src/ld/ld_coff_internal.h"
#include <stdlib.h>

static int vf_failures;
int ld_coff_fail(ld_coff_context_t *ctx, int code, const char *format, ...) {
    (void) format;
    vf_failures++;
    ctx->error = code;
    return code;
}
int ld_coff_relocation_fail(ld_coff_context_t *ctx, int code, const ld_coff_object_t *object,
                            const ld_coff_section_t *section, const ld_coff_relocation_t *relocation,
                            const char *symbol_name, const char *format, ...) {
    (void) object, (void) section, (void) relocation, (void) symbol_name, (void) format;
    vf_failures++;
    ctx->error = code;
    return code;
}
static ld_coff_global_t vf_global;
ld_coff_global_t *ld_coff_get_global(ld_coff_context_t *ctx, const char *name, bool create) {
    (void) ctx, (void) name, (void) create;
    return &vf_global;
}
static uint32_t vf_new_bases[8];
void *ld_coff_grow(void *items, size_t old_capacity, size_t capacity, size_t size) {
    (void) items, (void) old_capacity, (void) capacity, (void) size;
    return vf_new_bases;
}
#include "src/ld/ld_coff_reader.c"
#include "src/ld/ld_coff_writer.c"

/* wide enough for every sum below */
#if VF_TYPE == 1
typedef __int128 wide;
#else
typedef int64_t wide;
#endif
/* RVA of an address; the image base cancels out of every difference */
#define RVA(abs, x) ((abs) ? (x) - base : (x))

void vf_harness(void) {
    ld_options_t options = {0};
    ld_coff_context_t ctx = {0};
    ld_coff_object_t object = {0};
    ld_coff_symbol_t symbols[2] = {0};
    ld_coff_section_t section = {0}, target = {0};
    ld_coff_output_section_t out = {0}, tout = {0};
    ld_coff_relocation_t rel = {0};
    static char plain[] = ".data", debug[] = ".debug_info", zdebug[] = ".zdebug_x";
    uint32_t bases[4] = {0};

    options.pie = vf_bool();
    ctx.options = &options;
    ctx.image_base = vf_u64();
    VF_ASSUME(ctx.image_base <= (1ull << 62));
    ctx.base_relocations = bases;
    ctx.base_relocation_count = vf_u64() % 4;
    ctx.base_relocation_capacity = 4;
    size_t n_bases = ctx.base_relocation_count;

    /* layout of the patched section: inside a 4 GiB image */
    out.rva = vf_u32();
    section.output_offset = vf_u32();
    section.data_size = vf_u32();
    VF_ASSUME((uint64_t) out.rva + section.output_offset + section.data_size <= UINT32_MAX);
    out.characteristics = vf_u32();
    uint8_t nm = vf_u8() % 3;
    section.name = nm == 0 ? plain : nm == 1 ? debug : zdebug;
    section.output = &out;
    section.object = &object;
    object.symbols = symbols;
    object.symbol_count = 2;
    rel.offset = vf_u32();
    rel.type = VF_TYPE;
    uint8_t window[24], old[24];
    for (int i = 0; i < 24; i++) window[i] = old[i] = vf_u8();
    uint64_t at = (uint64_t) section.output_offset + rel.offset;
    out.data = window + 8 - at;
    rel.symbol_index = vf_u8() % 3;

    /* the target symbol */
    ld_coff_symbol_t *symbol = &symbols[rel.symbol_index & 1];
    bool external = vf_bool(), in_section = vf_bool(), undefined = vf_bool(), cached = vf_bool();
    bool same_output = vf_bool();
    symbol->name = plain;
    symbol->value = vf_u32();
    symbol->storage_class = external ? (vf_bool() ? LD_COFF_STORAGE_CLASS_EXTERNAL : LD_COFF_STORAGE_CLASS_WEAK_EXTERNAL) : 3;
    ld_coff_output_section_t *to = same_output ? &out : &tout;
    tout.rva = vf_u32();
    out.index = vf_u16();
    tout.index = vf_u16();
    target.output = to;
    target.object = &object;
    target.output_offset = vf_u32();
    VF_ASSUME((uint64_t) to->rva + target.output_offset <= UINT32_MAX);
    bool resolved = true;
    bool has_output = false;
    wide S; /* the target: a virtual address if absolute, otherwise an RVA */
    wide base = (wide) ctx.image_base;
    if (external) {
        vf_global.value = vf_u32();
        vf_global.section = NULL;
        symbol->global = cached ? &vf_global : NULL;
        if (undefined) {
            vf_global.kind = LD_COFF_GLOBAL_UNDEFINED;
            resolved = false;
            S = 0;
        } else if (VF_ABS) {
            vf_global.kind = LD_COFF_GLOBAL_ABSOLUTE;
            S = vf_global.value;
        } else if (in_section) {
            vf_global.kind = LD_COFF_GLOBAL_DEFINED;
            vf_global.section = &target;
            has_output = true;
            S = (wide) to->rva + target.output_offset + vf_global.value;
        } else {
            vf_global.kind = vf_bool() ? LD_COFF_GLOBAL_DEFINED : LD_COFF_GLOBAL_IMPORT_IAT;
            S = vf_global.value;
        }
    } else if (VF_ABS) {
        symbol->section_number = LD_COFF_SYM_ABSOLUTE;
        S = symbol->value;
    } else {
        symbol->section_number = 1;
        target.discarded = undefined;
        symbol->section = &target;
        resolved = !undefined;
        has_output = true;
        S = (wide) to->rva + target.output_offset + symbol->value;
    }

    /* the field as the specification sees it */
    unsigned width = VF_TYPE == LD_COFF_REL_AMD64_ADDR64 ? 8 : VF_TYPE == LD_COFF_REL_AMD64_SECTION ? 2 : VF_TYPE == LD_COFF_REL_AMD64_ABSOLUTE ? 0 : 4;
    bool inside = rel.offset <= section.data_size && width <= section.data_size - rel.offset;
    uint64_t raw = 0;
    for (unsigned i = 0; i < width; i++) raw |= (uint64_t) old[8 + i] << (8 * i);
    wide A = width == 8 ? (wide) (int64_t) raw : width == 4 ? (wide) (int32_t) raw : (wide) (int16_t) raw;
    wide P = (wide) out.rva + section.output_offset + rel.offset;
    wide VA = VF_ABS ? S : S + base;
    wide v = 0, lo = 0, hi = 0;
    bool known = true;
    switch (VF_TYPE) {
        case LD_COFF_REL_AMD64_ABSOLUTE: break;
        case LD_COFF_REL_AMD64_ADDR64: v = VA + A, hi = (wide) UINT64_MAX; break;
        case LD_COFF_REL_AMD64_ADDR32: v = VA + A, hi = UINT32_MAX; break;
        case LD_COFF_REL_AMD64_ADDR32NB: v = RVA(VF_ABS, S) + A, hi = UINT32_MAX; break;
        case LD_COFF_REL_AMD64_REL32: case LD_COFF_REL_AMD64_REL32_1: case LD_COFF_REL_AMD64_REL32_2:
        case LD_COFF_REL_AMD64_REL32_3: case LD_COFF_REL_AMD64_REL32_4: case LD_COFF_REL_AMD64_REL32_5:
            v = RVA(VF_ABS, S) + A - P - 4 - (VF_TYPE - LD_COFF_REL_AMD64_REL32), lo = INT32_MIN, hi = INT32_MAX;
            break;
        case LD_COFF_REL_AMD64_SECTION: v = (wide) to->index + A, hi = UINT16_MAX; known = has_output; break;
        case LD_COFF_REL_AMD64_SECREL: v = S - to->rva + A, hi = UINT32_MAX; known = has_output; break;
        default: known = false;
    }
    bool ok = rel.symbol_index < 2 && (VF_TYPE == LD_COFF_REL_AMD64_ABSOLUTE || (inside && resolved && known && v >= lo && v <= hi));

    int r = ld_coff_apply_one_relocation(&ctx, &section, &rel);

    VF_CHECK(r != LD_OK || ok, "a value that does not fit, or an unresolved target, is refused");
    VF_CHECK(r == LD_OK || !ok, "a representable value is never refused");
    VF_CHECK((r == LD_OK) == (vf_failures == 0), "a refusal is reported");
    for (unsigned i = 0; i < 24; i++)
        VF_CHECK((i >= 8 && i < 8 + width) || window[i] == old[i], "no byte outside the field changes");
    uint64_t now = 0;
    for (unsigned i = 0; i < width; i++) now |= (uint64_t) window[8 + i] << (8 * i);
    uint64_t mask = width == 8 ? UINT64_MAX : width ? (1ull << (8 * width)) - 1 : 0;
    if (r == LD_OK) VF_CHECK(now == ((uint64_t) v & mask), "success stores the exact PE/COFF value");
    else VF_CHECK(now == raw, "a refused field keeps its bytes");
    bool fixup = r == LD_OK && VF_TYPE == LD_COFF_REL_AMD64_ADDR64 && options.pie && !VF_ABS &&
                 !(out.characteristics & LD_COFF_SCN_MEM_DISCARDABLE) && nm == 0;
    VF_CHECK(ctx.base_relocation_count == n_bases + (fixup ? 1 : 0), "exactly the absolute addresses of an image that can move get a base relocation");
    if (fixup) VF_CHECK(ctx.base_relocations[n_bases] == (uint32_t) P, "the base relocation names the field");
#if VF_TYPE == 99
    VF_REACH(r != LD_OK && inside, "unknown type refused");
#else
    VF_REACH(r == LD_OK, "stored");
    VF_REACH(r != LD_OK, "refused");
#endif
}
