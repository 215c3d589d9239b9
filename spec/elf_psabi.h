/*
 * Specification of ELF relocation arithmetic, transcribed from the processor
 * supplements (AArch64 ELF ABI, x86-64 psABI, RISC-V psABI).  Values are
 * mathematical integers (__int128: every S/A/P combination fits).
 *
 * For a relocation type, spec_reloc() yields
 *   known   the type is specified here
 *   width   bytes of the field
 *   may     the value is representable in the field: accepting is correct
 *   must    rejecting would be wrong (may, minus cases the linker documents
 *           that it refuses although the ABI would allow them)
 * and spec_encoded() decides, by *decoding* the field as the architecture
 * defines it, whether new bytes hold the value and keep all other bits.
 */
#ifndef SPEC_ELF_PSABI_H
#define SPEC_ELF_PSABI_H
#include <stdbool.h>
#include <stdint.h>

#ifdef __CPROVER__
typedef __CPROVER_bitvector[70] z_t; /* every S + A - P fits in 67 bits */
#else
typedef __int128 z_t;
#endif

typedef struct {
    uint64_t P, S, G, GOT, Z, DTP, TP, B;
    int64_t A;
    bool hi_present;
    uint32_t hi_type;
    uint64_t hi_P, hi_S, hi_G;
    int64_t hi_A;
    uint8_t old[16];
} rel_in_t;

enum { F_NONE, F_DATA, F_MOVW, F_IMM19, F_ADR, F_IMM12, F_IMM14, F_BR26,
       F_FIXED, F_RV_U, F_RV_I, F_RV_S, F_RV_B, F_RV_J, F_RV_CB, F_RV_CJ,
       F_RV_CALL, F_RV_LOW6, F_RV_ULEB, F_KEEP };

typedef struct {
    bool known, may, must;
    unsigned width;
    int form;
    z_t value;        /* field value, already scaled as the decoder returns it */
} rel_out_t;

static inline uint64_t rd(const uint8_t *p, unsigned n) {
    uint64_t v = 0;
    if (n >= 1) v |= (uint64_t) p[0];
    if (n >= 2) v |= (uint64_t) p[1] << 8;
    if (n >= 4) v |= (uint64_t) p[2] << 16 | (uint64_t) p[3] << 24;
    if (n >= 8) v |= (uint64_t) p[4] << 32 | (uint64_t) p[5] << 40 |
                     (uint64_t) p[6] << 48 | (uint64_t) p[7] << 56;
    return v;
}
static inline bool s_fits(z_t v, unsigned b) {
    return v >= -((z_t) 1 << (b - 1)) && v < ((z_t) 1 << (b - 1));
}
static inline bool u_fits(z_t v, unsigned b) {
    return v >= 0 && v < ((z_t) 1 << b);
}
static inline int64_t sx(uint64_t v, unsigned b) {
    uint64_t m = (uint64_t) 1 << (b - 1);
    v &= (m << 1) - 1;
    return (int64_t) ((v ^ m) - m);
}
static inline z_t page(z_t v) { return v >> 12; }
static inline bool rv_itype(uint32_t i) {
    uint32_t o = i & 0x7f;
    return o == 0x03 || o == 0x07 || o == 0x13 || o == 0x1b || o == 0x67;
}
static inline bool rv_stype(uint32_t i) {
    return (i & 0x7f) == 0x23 || (i & 0x7f) == 0x27;
}
/* %hi/%lo pairs reach v exactly when v + 0x800 is a signed 32-bit value */
static inline bool rv_hilo_fits(z_t v) { return s_fits(v + 0x800, 32); }

static inline rel_out_t rel_data(unsigned w, z_t v, bool may, bool must) {
    rel_out_t o = {true, may, must, w, F_DATA, v};
    return o;
}
static inline rel_out_t rel_form(int form, z_t v, bool may, bool must) {
    rel_out_t o = {true, may, must, 4, form, v};
    return o;
}

static rel_out_t spec_aarch64(uint32_t t, const rel_in_t *r) {
    rel_out_t none = {false, false, false, 0, F_NONE, 0};
    z_t SA = (z_t) r->S + r->A, GA = (z_t) r->G + r->A;
    z_t SAP = SA - r->P, GAP = GA - r->P, SATP = SA - r->TP;
    uint32_t insn = (uint32_t) rd(r->old, 4);
    switch (t) {
        case 0: { rel_out_t o = {true, true, true, 0, F_KEEP, 0}; return o; }
        case 257: return rel_data(8, SA, true, true);
        case 258: return rel_data(4, SA, s_fits(SA, 32) || u_fits(SA, 32), u_fits(SA, 32));
        case 259: return rel_data(2, SA, s_fits(SA, 16) || u_fits(SA, 16), u_fits(SA, 16));
        case 260: return rel_data(8, SAP, true, s_fits(SAP, 64));
        case 261: return rel_data(4, SAP, s_fits(SAP, 32) || u_fits(SAP, 32), s_fits(SAP, 32));
        case 262: return rel_data(2, SAP, s_fits(SAP, 16) || u_fits(SAP, 16), s_fits(SAP, 16));
        case 263: return rel_form(F_MOVW, SA, u_fits(SA, 16), u_fits(SA, 16));
        case 264: return rel_form(F_MOVW, SA, true, true);
        case 265: return rel_form(F_MOVW, SA >> 16, u_fits(SA, 32), u_fits(SA, 32));
        case 266: return rel_form(F_MOVW, SA >> 16, true, true);
        case 267: return rel_form(F_MOVW, SA >> 32, u_fits(SA, 48), u_fits(SA, 48));
        case 268: return rel_form(F_MOVW, SA >> 32, true, true);
        case 269: return rel_form(F_MOVW, SA >> 48, true, u_fits(SA, 64));
        case 273: case 280: {
            bool ok = s_fits(SAP, 21) && (SAP & 3) == 0;
            return rel_form(F_IMM19, SAP >> 2, ok, ok);
        }
        case 309: {
            bool ok = s_fits(GAP, 21) && (GAP & 3) == 0;
            return rel_form(F_IMM19, GAP >> 2, ok, ok);
        }
        case 274: return rel_form(F_ADR, SAP, s_fits(SAP, 21), s_fits(SAP, 21));
        case 275: {
            z_t d = page(SA) - page(r->P);
            return rel_form(F_ADR, d, s_fits(d, 21), s_fits(d, 21));
        }
        case 311: case 513: case 541: {
            z_t d = page(GA) - page(r->P);
            return rel_form(F_ADR, d, s_fits(d, 21), s_fits(d, 21));
        }
        case 277: return rel_form(F_IMM12, SA & 0xfff, true, true);
        case 514: return rel_form(F_IMM12, GA & 0xfff, true, true);
        case 278: return rel_form(F_IMM12, SA & 0xfff, true, true);
        case 284: return rel_form(F_IMM12, (SA & 0xfff) >> 1, (SA & 1) == 0, (SA & 1) == 0);
        case 285: return rel_form(F_IMM12, (SA & 0xfff) >> 2, (SA & 3) == 0, (SA & 3) == 0);
        case 286: return rel_form(F_IMM12, (SA & 0xfff) >> 3, (SA & 7) == 0, (SA & 7) == 0);
        case 299: return rel_form(F_IMM12, (SA & 0xfff) >> 4, (SA & 15) == 0, (SA & 15) == 0);
        case 312: case 542:
            return rel_form(F_IMM12, (GA & 0xfff) >> 3, (GA & 7) == 0, (GA & 7) == 0);
        case 313: {
            z_t d = GA - ((z_t) page(r->GOT) << 12);
            bool ok = u_fits(d, 15) && (d & 7) == 0;
            return rel_form(F_IMM12, d >> 3, ok, ok);
        }
        case 279: {
            bool ok = s_fits(SAP, 16) && (SAP & 3) == 0;
            return rel_form(F_IMM14, SAP >> 2, ok, ok);
        }
        case 282: case 283: {
            bool ok = s_fits(SAP, 28) && (SAP & 3) == 0;
            return rel_form(F_BR26, SAP >> 2, ok, ok);
        }
        /* local-exec TLS: an ADD immediate is unsigned, so S+A-TP must be in
         * [0, 2^24) for the HI12/LO12 pair to reach it */
        case 549: {
            bool ok = u_fits(SATP, 24);
            return rel_form(F_IMM12, SATP >> 12, ok, ok);
        }
        case 550: return rel_form(F_IMM12, SATP, u_fits(SATP, 12), u_fits(SATP, 12));
        case 551: return rel_form(F_IMM12, SATP & 0xfff, true, s_fits(SATP, 64));
        case 552: return rel_form(F_IMM12, SATP, u_fits(SATP, 12), u_fits(SATP, 12));
        case 553: return rel_form(F_IMM12, SATP & 0xfff, true, s_fits(SATP, 64));
        case 554: case 556: case 558: case 570: {
            unsigned s = t == 554 ? 1 : t == 556 ? 2 : t == 558 ? 3 : 4;
            bool ok = u_fits(SATP, 12) && (SATP & ((1 << s) - 1)) == 0;
            return rel_form(F_IMM12, SATP >> s, ok, ok);
        }
        case 555: case 557: case 559: case 571: {
            unsigned s = t == 555 ? 1 : t == 557 ? 2 : t == 559 ? 3 : 4;
            bool ok = (SATP & ((1 << s) - 1)) == 0;
            return rel_form(F_IMM12, (SATP & 0xfff) >> s, ok, ok && s_fits(SATP, 64));
        }
        /* TLSDESC -> local-exec: ADRP,LDR become NOP; ADD, BLR become
         * MOVZ x0,#hi16,lsl 16 ; MOVK x0,#lo16 -> x0 = zero-extended 32 bits */
        case 562: {
            bool ok = (insn & 0x9f00001fu) == 0x90000000u;
            return rel_form(F_FIXED, 0xd503201f, ok, ok);
        }
        case 563: {
            bool ok = (insn & 0xffc003e0u) == 0xf9400000u;
            return rel_form(F_FIXED, 0xd503201f, ok, ok);
        }
        case 564: {
            /* the upper half of the MOVZ/MOVK range may be refused (pinned by the test suite) */
            bool form = (insn & 0xffc003ffu) == 0x91000000u;
            bool ok = form && u_fits(SATP, 32), must = form && u_fits(SATP, 31);
            return rel_form(F_FIXED, 0xd2a00000u | (((SATP >> 16) & 0xffff) << 5), ok, must);
        }
        case 569: {
            /* the upper half of the MOVZ/MOVK range may be refused (pinned by the test suite) */
            bool form = (insn & 0xfffffc1fu) == 0xd63f0000u;
            bool ok = form && u_fits(SATP, 32), must = form && u_fits(SATP, 31);
            return rel_form(F_FIXED, 0xf2800000u | ((SATP & 0xffff) << 5), ok, must);
        }
        default: return none;
    }
}

static rel_out_t spec_x86_64(uint32_t t, const rel_in_t *r) {
    rel_out_t none = {false, false, false, 0, F_NONE, 0};
    z_t SA = (z_t) r->S + r->A, GA = (z_t) r->G + r->A;
    z_t SAP = SA - r->P, GAP = GA - r->P, ZA = (z_t) r->Z + r->A;
    z_t v;
    switch (t) {
        case 0: { rel_out_t o = {true, true, true, 0, F_KEEP, 0}; return o; }
        case 1: return rel_data(8, SA, true, true);
        case 2: case 4: return rel_data(4, SAP, s_fits(SAP, 32), s_fits(SAP, 32));
        case 3: v = GA - r->GOT; return rel_data(4, v, s_fits(v, 32), s_fits(v, 32));
        case 9: case 41: case 42: case 22:
            return rel_data(4, GAP, s_fits(GAP, 32), s_fits(GAP, 32));
        case 10: return rel_data(4, SA, u_fits(SA, 32), u_fits(SA, 32));
        case 11: return rel_data(4, SA, s_fits(SA, 32), s_fits(SA, 32));
        case 12: return rel_data(2, SA, s_fits(SA, 16) || u_fits(SA, 16), u_fits(SA, 16));
        case 13: return rel_data(2, SAP, s_fits(SAP, 16), s_fits(SAP, 16));
        case 14: return rel_data(1, SA, s_fits(SA, 8) || u_fits(SA, 8), s_fits(SA, 8));
        case 15: return rel_data(1, SAP, s_fits(SAP, 8), s_fits(SAP, 8));
        case 17: v = SA - r->DTP; return rel_data(8, v, true, s_fits(v, 64));
        case 18: v = SA - r->TP; return rel_data(8, v, true, s_fits(v, 64));
        case 21: v = SA - r->DTP; return rel_data(4, v, s_fits(v, 32), s_fits(v, 32));
        case 23: v = SA - r->TP; return rel_data(4, v, s_fits(v, 32), s_fits(v, 32));
        case 24: return rel_data(8, SAP, true, s_fits(SAP, 64));
        case 25: case 31: v = SA - r->GOT; return rel_data(8, v, true, s_fits(v, 64));
        case 26: v = (z_t) r->GOT + r->A - r->P; return rel_data(4, v, s_fits(v, 32), s_fits(v, 32));
        case 27: v = GA - r->GOT; return rel_data(8, v, true, s_fits(v, 64));
        case 28: return rel_data(8, GAP, true, s_fits(GAP, 64));
        case 29: v = (z_t) r->GOT + r->A - r->P; return rel_data(8, v, true, s_fits(v, 64));
        case 32: return rel_data(4, ZA, s_fits(ZA, 32) || u_fits(ZA, 32), s_fits(ZA, 32));
        case 33: return rel_data(8, ZA, true, s_fits(ZA, 64));
        /* multi-instruction TLS sequences are never resolved one at a time */
        case 19: case 20: case 34: case 35: {
            rel_out_t o = {true, false, false, 4, F_KEEP, 0};
            return o;
        }
        default: return none;
    }
}

static rel_out_t spec_riscv64(uint32_t t, const rel_in_t *r) {
    rel_out_t none = {false, false, false, 0, F_NONE, 0};
    z_t SA = (z_t) r->S + r->A, GA = (z_t) r->G + r->A;
    z_t SAP = SA - r->P, GAP = GA - r->P, SATP = SA - r->TP;
    uint32_t insn = (uint32_t) rd(r->old, 4), op = insn & 0x7f;
    uint32_t low = (uint32_t) rd(r->old + 4, 4);
    uint16_t c = (uint16_t) rd(r->old, 2);
    z_t v;
    bool ok;
    switch (t) {
        case 0: case 51: { rel_out_t o = {true, true, true, 0, F_KEEP, 0}; return o; }
        case 1: return rel_data(4, SA, s_fits(SA, 32) || u_fits(SA, 32), u_fits(SA, 32));
        case 2: return rel_data(8, SA, true, true);
        case 3: return rel_data(8, (z_t) r->B + r->A, true, true);
        case 8: v = SA - r->DTP - 0x800; return rel_data(4, v, s_fits(v, 32), s_fits(v, 32) && u_fits((z_t) r->DTP + 0x800, 64));
        case 9: v = SA - r->DTP - 0x800; return rel_data(8, v, true, s_fits(v, 64) && u_fits((z_t) r->DTP + 0x800, 64));
        case 10: return rel_data(4, SATP, s_fits(SATP, 32), s_fits(SATP, 32));
        case 11: return rel_data(8, SATP, true, s_fits(SATP, 64));
        case 16: ok = op == 0x63 && (SAP & 1) == 0 && s_fits(SAP, 13); return rel_form(F_RV_B, SAP, ok, ok);
        case 17: ok = op == 0x6f && (SAP & 1) == 0 && s_fits(SAP, 21); return rel_form(F_RV_J, SAP, ok, ok);
        case 18: case 19: {
            uint32_t rd_ = (insn >> 7) & 31;
            bool jalr = (low & 0x707f) == 0x67 && ((low >> 15) & 31) == rd_;
            bool addr = t == 18 && (low & 0x707f) == 0x13 && ((low >> 7) & 31) == rd_ &&
                        ((low >> 15) & 31) == rd_;
            ok = op == 0x17 && (jalr || addr) && rv_hilo_fits(SAP) && !(jalr && (SAP & 1));
            rel_out_t o = {true, ok, ok, 8, F_RV_CALL, SAP};
            return o;
        }
        case 20: case 21: case 22: ok = op == 0x17 && rv_hilo_fits(GAP); return rel_form(F_RV_U, GAP, ok, ok);
        case 23: ok = op == 0x17 && rv_hilo_fits(SAP); return rel_form(F_RV_U, SAP, ok, ok);
        case 24: case 25: {
            bool hi = r->hi_present && (r->hi_type >= 20 && r->hi_type <= 23) &&
                      r->S == r->hi_P && r->A == 0;
            v = (z_t) (r->hi_type == 23 ? r->hi_S : r->hi_G) + r->hi_A - r->hi_P;
            ok = hi && rv_hilo_fits(v) && (t == 24 ? rv_itype(insn) : rv_stype(insn));
            return rel_form(t == 24 ? F_RV_I : F_RV_S, v, ok, ok);
        }
        case 26: ok = op == 0x37 && rv_hilo_fits(SA); return rel_form(F_RV_U, SA, ok, ok);
        case 27: ok = rv_itype(insn) && rv_hilo_fits(SA); return rel_form(F_RV_I, SA, ok, ok);
        case 28: ok = rv_stype(insn) && rv_hilo_fits(SA); return rel_form(F_RV_S, SA, ok, ok);
        case 29: ok = op == 0x37 && rv_hilo_fits(SATP); return rel_form(F_RV_U, SATP, ok, ok);
        case 30: ok = rv_itype(insn) && rv_hilo_fits(SATP); return rel_form(F_RV_I, SATP, ok, ok);
        case 31: ok = rv_stype(insn) && rv_hilo_fits(SATP); return rel_form(F_RV_S, SATP, ok, ok);
        case 32: ok = (insn & 0xfe00707f) == 0x33; { rel_out_t o = {true, ok, ok, 4, F_KEEP, 0}; return o; }
        case 33: return rel_data(1, (z_t) rd(r->old, 1) + SA, true, true);
        case 34: return rel_data(2, (z_t) rd(r->old, 2) + SA, true, true);
        case 35: return rel_data(4, (z_t) rd(r->old, 4) + SA, true, true);
        case 36: return rel_data(8, (z_t) rd(r->old, 8) + SA, true, true);
        case 37: return rel_data(1, (z_t) rd(r->old, 1) - SA, true, true);
        case 38: return rel_data(2, (z_t) rd(r->old, 2) - SA, true, true);
        case 39: return rel_data(4, (z_t) rd(r->old, 4) - SA, true, true);
        case 40: return rel_data(8, (z_t) rd(r->old, 8) - SA, true, true);
        case 44: ok = (c & 3) == 1 && (c >> 13) >= 6 && (SAP & 1) == 0 && s_fits(SAP, 9);
            { rel_out_t o = {true, ok, ok, 2, F_RV_CB, SAP}; return o; }
        case 45: ok = (c & 0xe003) == 0xa001 && (SAP & 1) == 0 && s_fits(SAP, 12);
            { rel_out_t o = {true, ok, ok, 2, F_RV_CJ, SAP}; return o; }
        case 52: { rel_out_t o = {true, true, true, 1, F_RV_LOW6, (z_t) (r->old[0] & 0x3f) - SA}; return o; }
        case 53: { rel_out_t o = {true, true, true, 1, F_RV_LOW6, SA}; return o; }
        case 54: return rel_data(1, SA, true, true);
        case 55: return rel_data(2, SA, true, true);
        case 56: return rel_data(4, SA, true, true);
        case 57: return rel_data(4, SAP, s_fits(SAP, 32), s_fits(SAP, 32));
        default: return none;
    }
}

static inline bool bits_eq(uint64_t a, uint64_t b, uint64_t mask) {
    return ((a ^ b) & mask) == 0;
}

/* do the new bytes hold o->value, all other bits being as before? */
static bool spec_encoded(const rel_out_t *o, const uint8_t *old, const uint8_t *nw) {
    uint32_t a = (uint32_t) rd(old, 4), b = (uint32_t) rd(nw, 4);
    uint16_t ca = (uint16_t) rd(old, 2), cb = (uint16_t) rd(nw, 2);
    z_t v = o->value;
    switch (o->form) {
        case F_KEEP: return rd(old, 8) == rd(nw, 8);
        case F_DATA:
            if (o->width == 1) return nw[0] == (uint8_t) v;
            if (o->width == 2) return rd(nw, 2) == (uint16_t) v;
            if (o->width == 4) return rd(nw, 4) == (uint32_t) v;
            return rd(nw, 8) == (uint64_t) v;
        case F_FIXED: return b == (uint32_t) v;
        /* AArch64 fields */
        case F_MOVW: return bits_eq(a, b, ~0x001fffe0u) && ((b >> 5) & 0xffff) == (uint32_t) (v & 0xffff);
        case F_IMM19: return bits_eq(a, b, ~0x00ffffe0u) && sx(b >> 5, 19) == v;
        case F_IMM14: return bits_eq(a, b, ~0x0007ffe0u) && sx(b >> 5, 14) == v;
        case F_BR26: return bits_eq(a, b, ~0x03ffffffu) && sx(b, 26) == v;
        case F_IMM12: return bits_eq(a, b, ~0x003ffc00u) && (z_t) ((b >> 10) & 0xfff) == v;
        case F_ADR:
            return bits_eq(a, b, ~0x60ffffe0u) &&
                   sx((((b >> 5) & 0x7ffff) << 2) | ((b >> 29) & 3), 21) == v;
        /* RISC-V fields */
        case F_RV_U: /* hi part: the value the paired low 12 bits complete */
            return bits_eq(a, b, 0xfff) &&
                   (z_t) (int32_t) (b & 0xfffff000u) + sx((uint64_t) v, 12) == v;
        case F_RV_I: return bits_eq(a, b, 0x000fffff) && sx(b >> 20, 12) == sx((uint64_t) v, 12);
        case F_RV_S:
            return bits_eq(a, b, ~0xfe000f80u) &&
                   sx(((b >> 25) << 5) | ((b >> 7) & 31), 12) == sx((uint64_t) v, 12);
        case F_RV_B:
            return bits_eq(a, b, ~0xfe000f80u) &&
                   sx((((b >> 31) & 1) << 12) | (((b >> 7) & 1) << 11) |
                      (((b >> 25) & 0x3f) << 5) | (((b >> 8) & 15) << 1), 13) == v;
        case F_RV_J:
            return bits_eq(a, b, 0xfff) &&
                   sx((((b >> 31) & 1) << 20) | (((b >> 12) & 0xff) << 12) |
                      (((b >> 20) & 1) << 11) | (((b >> 21) & 0x3ff) << 1), 21) == v;
        case F_RV_CB:
            return bits_eq(ca, cb, 0xe383) &&
                   sx((((cb >> 12) & 1) << 8) | (((cb >> 10) & 3) << 3) |
                      (((cb >> 5) & 3) << 6) | (((cb >> 3) & 3) << 1) |
                      (((cb >> 2) & 1) << 5), 9) == v;
        case F_RV_CJ:
            return bits_eq(ca, cb, 0xe003) &&
                   sx((((cb >> 12) & 1) << 11) | (((cb >> 11) & 1) << 4) |
                      (((cb >> 9) & 3) << 8) | (((cb >> 8) & 1) << 10) |
                      (((cb >> 7) & 1) << 6) | (((cb >> 6) & 1) << 7) |
                      (((cb >> 3) & 7) << 1) | (((cb >> 2) & 1) << 5), 12) == v;
        case F_RV_LOW6: return bits_eq(old[0], nw[0], 0xc0) && (nw[0] & 0x3f) == (uint8_t) (v & 0x3f);
        case F_RV_CALL: {
            uint32_t la = (uint32_t) rd(old + 4, 4), lb = (uint32_t) rd(nw + 4, 4);
            return bits_eq(a, b, 0xfff) && bits_eq(la, lb, 0x000fffff) &&
                   (z_t) (int32_t) (b & 0xfffff000u) + sx(lb >> 20, 12) == v;
        }
        default: return true;
    }
}
#endif
