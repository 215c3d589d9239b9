/* RISC-V alignment relaxation: plan, layout, address map and emission agree */
#include "vf.h"
#include "src/ld/ld_elf_riscv_relax.h"
#include <stdlib.h>
#define VF_LIB_MEMSET 1
#include "vf_mem.h"
#ifndef R
#define R 2
#endif
#ifdef __CPROVER__
/* one typed block instead of untyped heap bytes (keeps the formula small) */
static ld_elf_riscv_align_region_t vf_pool[R];
static ld_elf_riscv_align_region_t *vf_calloc(void) {
    ld_elf_riscv_align_region_t z = {0};
    for (int i = 0; i < R; i++) vf_pool[i] = z;
    return vf_pool;
}
#define calloc(n, s) vf_calloc()
#define free(p) ((void) (p))
/* libc model: insertion sort through the caller's comparison */
void qsort(void *base, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
    ld_elf_riscv_align_region_t *a = base, t;
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0; j--)
            if (cmp(&a[j - 1], &a[j]) > 0) { t = a[j]; a[j] = a[j - 1]; a[j - 1] = t; }
}
#endif
#include "src/ld/ld_elf_riscv_relax.c"
#ifndef N
#define N 10
#endif
static bool all_nops(const uint8_t *p, unsigned n, bool rvc) {
    unsigned i = 0;
    for (unsigned k = 0; k <= N / 2; k++) {
        if (i == n) return true;
        if (rvc && n - i >= 2 && p[i] == 1 && p[i + 1] == 0) i += 2;
        else if (n - i >= 4 && p[i] == 0x13 && !p[i + 1] && !p[i + 2] && !p[i + 3]) i += 4;
        else return false;
    }
    return false;
}
void vf_harness(void) {
    uint8_t in[N], out[N];
    for (unsigned i = 0; i < N; i++) { in[i] = vf_u8(); out[i] = 0xee; }
    size_t size = N;
    ld_elf_riscv_align_input_t al[R];
    size_t count = R;
    bool rvc = vf_bool();
    for (unsigned i = 0; i < R; i++) {
        al[i].offset = vf_u64();
        al[i].addend = vf_i64();
        al[i].source_index = i;
    }
    uint64_t base = vf_u64();
    ld_elf_riscv_relax_plan_t plan;
    ld_elf_riscv_relax_plan_init(&plan);
    size_t err = 7;
    int rb = ld_elf_riscv_relax_plan_build(&plan, in, size, al, count, rvc, &err);
    /* specification of a valid plan */
    bool ok = true;
    for (unsigned i = 0; i < R; i++) {
        if (i >= count) continue;
        if (al[i].addend < 0 || al[i].offset > size || (uint64_t) al[i].addend > size - al[i].offset) { ok = false; continue; }
        if (al[i].addend % (rvc ? 2 : 4) != 0) { ok = false; continue; }
        if (!all_nops(in + al[i].offset, (unsigned) al[i].addend, rvc)) ok = false;
    }
    if (ok && R == 2 && al[0].addend && al[R - 1].addend)
        ok = al[0].offset + (uint64_t) al[0].addend <= al[R - 1].offset ||
             al[R - 1].offset + (uint64_t) al[R - 1].addend <= al[0].offset;
    VF_CHECK((rb == 0) == ok, "plan accepted exactly for disjoint in-range NOP padding");
    if (rb != 0) return;
    int rl = ld_elf_riscv_relax_plan_layout(&plan, base, &err);
    VF_REACH(rl == 0 && al[0].addend > 0 && al[R - 1].addend > 0, "regions laid out");
    if (rl != 0) return;
    size_t osz = (size_t) plan.output_size;
    VF_CHECK(osz <= size, "relaxation never grows a section");
    if (osz > size) return;
    int re = ld_elf_riscv_relax_emit(&plan, out + (N - osz), osz, in, size);
    VF_CHECK(re == 0, "laid-out plan can be emitted");
    if (re != 0) return;
    uint8_t *o = out + (N - osz);
    /* every byte outside padding survives at its mapped place */
    unsigned pos = 0; /* output position */
    for (unsigned i = 0; i < N; i++) {
        if (i >= size) continue;
        bool pad = false, pad_end = false;
        uint64_t pad_align = 1;
        for (unsigned k = 0; k < R; k++)
            if (k < count && al[k].addend > 0 && i >= al[k].offset && i < al[k].offset + (uint64_t) al[k].addend) {
                pad = true;
                pad_end = i + 1 == al[k].offset + (uint64_t) al[k].addend;
                for (int b = 0; b < 5; b++)
                    if (pad_align <= (uint64_t) al[k].addend) pad_align <<= 1;
            }
        if (!pad) {
            uint64_t m = 0, avail = 0;
            bool alive = false;
            bool mapped = ld_elf_riscv_relax_map(&plan, i, 1, &m, &alive, &avail);
            VF_CHECK(mapped && alive && m < osz && avail == osz - m, "kept byte is mapped inside the output");
            if (mapped && m < osz) VF_CHECK(o[m] == in[i], "kept byte is emitted where it is mapped");
            if (mapped && m < osz) VF_CHECK(m >= pos, "mapping is monotonic");
            pos = (unsigned) m + 1;
        } else if (pad_end) {
            uint64_t m = 0, avail = 0;
            bool alive = false;
            bool mapped = ld_elf_riscv_relax_map(&plan, i + 1, 0, &m, &alive, &avail);
            VF_CHECK(mapped && m <= osz, "end of padding is mapped");
            VF_CHECK(((base + m) & (pad_align - 1)) == 0, "instruction after padding is aligned");
            VF_CHECK(m >= pos && m - pos < pad_align, "no more padding than needed is kept");
            if (mapped && m <= osz && m >= pos)
                VF_CHECK(all_nops(o + pos, (unsigned) (m - pos), rvc), "kept padding is NOPs");
            pos = (unsigned) m;
        }
    }
    VF_CHECK(pos == osz, "output is exactly the kept bytes");
}
