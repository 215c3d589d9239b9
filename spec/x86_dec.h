/*
 * x86-64 instruction decoder for the instructions the native back end emits,
 * written from the Intel SDM, volume 2 (instruction format, appendix A opcode
 * maps).  x86_decode returns the number of bytes of the instruction, 0 when
 * the bytes are not one of these instructions.
 */
#ifndef X86_DEC_H
#define X86_DEC_H
#include <stdbool.h>
#include <stdint.h>

enum { X_NONE, X_ADD, X_OR, X_AND, X_SUB, X_XOR, X_CMP, X_MOV, X_LEA, X_TEST, X_PUSH, X_POP, X_CALL, X_CALLI, X_JMP, X_JCC, X_SETCC,
       X_RET, X_SYSCALL, X_NOT, X_NEG, X_MUL, X_IMUL, X_DIV, X_IDIV, X_IMUL2, X_IMUL3, X_INC, X_DEC, X_SHL, X_SHR, X_SAR,
       X_MOVSX, X_MOVZX, X_CVTSI2SS, X_CVTSI2SD, X_CVTTSS2SI, X_CVTTSD2SI, X_CVTSS2SD, X_CVTSD2SS,
       X_XMOV, X_XMOVA, X_MOVSD, X_MOVSS, X_XXOR, X_ADDSD, X_ADDSS, X_SUBSD, X_SUBSS, X_MULSD, X_MULSS, X_DIVSD, X_DIVSS, X_COMISD, X_COMISS };

enum { K_NONE, K_GPR, K_HIGH8, K_XMM, K_MEM, K_RIP, K_IMM, K_CL };

typedef struct {
    uint8_t kind;
    uint8_t size;             /* bytes; of an immediate, the bytes encoded */
    uint8_t reg;
    uint8_t base, index;      /* 0xff: none */
    uint8_t scale;            /* 1 2 4 8 */
    uint8_t seg;              /* 0, 0x64, 0x65 */
    int32_t disp;
    uint64_t imm;             /* zero-extended from size */
} x86_opnd_t;

typedef struct {
    uint8_t op, cc, n;
    x86_opnd_t o[3];
} x86_inst_t;

static x86_opnd_t x86_gpr(unsigned reg, unsigned size, bool rex) {
    x86_opnd_t o = {.kind = K_GPR, .size = size, .reg = reg, .base = 0xff, .index = 0xff, .scale = 1};
    if (size == 1 && !rex && reg >= 4 && reg < 8) {
        o.kind = K_HIGH8;
        o.reg = reg - 4;
    }
    return o;
}

static x86_opnd_t x86_xmm(unsigned reg, unsigned size) {
    x86_opnd_t o = {.kind = K_XMM, .size = size, .reg = reg, .base = 0xff, .index = 0xff, .scale = 1};
    return o;
}

static uint64_t x86_le(const uint8_t *p, unsigned n) {
    uint64_t v = 0;
    for (unsigned i = 0; i < 8; i++)
        if (i < n) v |= (uint64_t) p[i] << (8 * i);
    return v;
}

static x86_opnd_t x86_immediate(const uint8_t *p, unsigned n) {
    x86_opnd_t o = {.kind = K_IMM, .size = n, .base = 0xff, .index = 0xff, .scale = 1};
    o.imm = x86_le(p, n);
    return o;
}

/* forms: which operands an opcode has, in Intel order */
enum { F_RM_R = 1, F_R_RM, F_RM_I, F_RM, F_OI, F_O, F_REL, F_0, F_R_RM_I, F_RM_CL, F_X_XM, F_XM_X, F_X_RM, F_R_XM, F_R_RMX };

/* b: 16 readable bytes holding the instruction */
static unsigned x86_decode(const uint8_t *b, x86_inst_t *out) {
    unsigned p = 0, rex = 0, seg = 0;
    bool p66 = false, pf2 = false, pf3 = false, has_rex = false;
    x86_inst_t r = {0};
    for (int i = 0; i < 3; i++) { /* legacy prefixes; REX counts only right before the opcode */
        uint8_t c = b[p];
        if (c == 0x66) p66 = true, has_rex = false, p++;
        else if (c == 0xf2) pf2 = true, has_rex = false, p++;
        else if (c == 0xf3) pf3 = true, has_rex = false, p++;
        else if (c == 0x64 || c == 0x65) seg = c, has_rex = false, p++;
        else if ((c & 0xf0) == 0x40) rex = c, has_rex = true, p++;
    }
    if (!has_rex) rex = 0;
    bool w = rex & 8;
    unsigned rr = rex & 4 ? 8 : 0, rx = rex & 2 ? 8 : 0, rb = rex & 1 ? 8 : 0;
    unsigned osz = w ? 8 : p66 ? 2 : 4;
    unsigned isz = osz == 2 ? 2 : 4;
    bool two = b[p] == 0x0f;
    if (two) p++;
    uint8_t c = b[p++];
    uint8_t m = b[p]; /* ModRM, when the form has one */
    unsigned ext = (m >> 3) & 7;

    unsigned form = 0, dsz = 0, ssz = 0, imm = 0, op = X_NONE;
    static const uint8_t alu[8] = {X_ADD, X_OR, X_NONE, X_NONE, X_AND, X_SUB, X_XOR, X_CMP};
    static const uint8_t un[8] = {X_NONE, X_NONE, X_NOT, X_NEG, X_MUL, X_IMUL, X_DIV, X_IDIV};
    static const uint8_t sh[8] = {X_NONE, X_NONE, X_NONE, X_NONE, X_SHL, X_SHR, X_NONE, X_SAR};
    bool sse_ok = false; /* F2/F3 belong to the opcode */
    if (!two) {
        if (c < 0x40 && (c & 7) < 4) {
            op = alu[c >> 3];
            form = c & 2 ? F_R_RM : F_RM_R;
            dsz = ssz = c & 1 ? osz : 1;
        } else if (c == 0x80 || c == 0x81) {
            op = alu[ext];
            form = F_RM_I;
            dsz = c & 1 ? osz : 1;
            imm = c & 1 ? isz : 1;
        } else if (c == 0x83) {
            op = alu[ext];
            form = F_RM_I;
            dsz = osz;
            imm = 1;
        } else if (c == 0x84 || c == 0x85) {
            op = X_TEST;
            form = F_RM_R;
            dsz = ssz = c & 1 ? osz : 1;
        } else if (c >= 0x88 && c <= 0x8b) {
            op = X_MOV;
            form = c & 2 ? F_R_RM : F_RM_R;
            dsz = ssz = c & 1 ? osz : 1;
        } else if (c == 0x8d) {
            op = (m >> 6) == 3 ? X_NONE : X_LEA;
            form = F_R_RM;
            dsz = osz;
            ssz = 0;
        } else if (c >= 0xb0 && c <= 0xbf) {
            op = X_MOV;
            form = F_OI;
            dsz = c & 8 ? osz : 1;
            imm = c & 8 ? osz : 1;
        } else if (c == 0xc6 || c == 0xc7) {
            op = ext == 0 ? X_MOV : X_NONE;
            form = F_RM_I;
            dsz = c & 1 ? osz : 1;
            imm = c & 1 ? isz : 1;
        } else if (c >= 0x50 && c <= 0x5f) {
            op = c & 8 ? X_POP : X_PUSH;
            form = F_O;
            dsz = p66 ? 2 : 8;
        } else if (c == 0x8f) {
            op = ext == 0 ? X_POP : X_NONE;
            form = F_RM;
            dsz = p66 ? 2 : 8;
        } else if (c == 0xff || c == 0xfe) {
            form = F_RM;
            dsz = c & 1 ? osz : 1;
            op = ext == 0 ? X_INC : ext == 1 ? X_DEC : X_NONE;
            if (c & 1 && ext == 2) op = X_CALLI, dsz = 8;
            if (c & 1 && ext == 6) op = X_PUSH, dsz = p66 ? 2 : 8;
        } else if (c == 0xf6 || c == 0xf7) {
            op = un[ext];
            form = F_RM;
            dsz = c & 1 ? osz : 1;
        } else if (c == 0xd2 || c == 0xd3) {
            op = sh[ext];
            form = F_RM_CL;
            dsz = c & 1 ? osz : 1;
        } else if (c == 0xc0 || c == 0xc1) {
            op = sh[ext];
            form = F_RM_I;
            dsz = c & 1 ? osz : 1;
            imm = 1;
        } else if (c == 0x69 || c == 0x6b) {
            op = X_IMUL3;
            form = F_R_RM_I;
            dsz = ssz = osz;
            imm = c & 2 ? 1 : isz;
        } else if (c == 0x63) {
            op = X_MOVSX;
            form = F_R_RM;
            dsz = osz;
            ssz = 4;
        } else if (c >= 0x70 && c <= 0x7f) {
            op = X_JCC;
            r.cc = c & 15;
            form = F_REL;
            imm = 1;
        } else if (c == 0xeb || c == 0xe9 || c == 0xe8) {
            op = c == 0xe8 ? X_CALL : X_JMP;
            form = F_REL;
            imm = c == 0xeb ? 1 : 4;
        } else if (c == 0xc3) {
            op = X_RET;
            form = F_0;
        }
    } else {
        if (c >= 0x80 && c <= 0x8f) {
            op = X_JCC;
            r.cc = c & 15;
            form = F_REL;
            imm = 4;
        } else if (c >= 0x90 && c <= 0x9f) {
            op = X_SETCC;
            r.cc = c & 15;
            form = F_RM;
            dsz = 1;
        } else if (c == 0x05) {
            op = X_SYSCALL;
            form = F_0;
        } else if (c == 0xaf) {
            op = X_IMUL2;
            form = F_R_RM;
            dsz = ssz = osz;
        } else if (c == 0xb6 || c == 0xb7 || c == 0xbe || c == 0xbf) {
            op = c & 8 ? X_MOVSX : X_MOVZX;
            form = F_R_RM;
            dsz = osz;
            ssz = c & 1 ? 2 : 1;
        } else {
            sse_ok = true;
            form = F_X_XM;
            dsz = ssz = 16;
            bool none = !p66 && !pf2 && !pf3, f3 = pf3 && !pf2 && !p66, f2 = pf2 && !pf3 && !p66, o6 = p66 && !pf2 && !pf3;
            if ((c == 0x10 || c == 0x11 || c == 0x28 || c == 0x29) && (none || o6)) {
                op = c & 0x20 ? X_XMOVA : X_XMOV; /* movaps movapd: aligned; movups movupd */
                form = c & 1 ? F_XM_X : F_X_XM;
            } else if ((c == 0x10 || c == 0x11) && (f2 || f3)) {
                op = f2 ? X_MOVSD : X_MOVSS;
                form = c & 1 ? F_XM_X : F_X_XM;
                dsz = ssz = f2 ? 8 : 4;
            } else if (c == 0x57 && (none || o6)) {
                op = X_XXOR;
            } else if (c == 0x58 || c == 0x59 || c == 0x5c || c == 0x5e) {
                bool d = f2;
                dsz = ssz = d ? 8 : 4;
                if (f2 || f3)
                    op = c == 0x58 ? (d ? X_ADDSD : X_ADDSS) : c == 0x59 ? (d ? X_MULSD : X_MULSS)
                         : c == 0x5c ? (d ? X_SUBSD : X_SUBSS) : (d ? X_DIVSD : X_DIVSS);
            } else if (c == 0x2f && (none || o6)) {
                op = o6 ? X_COMISD : X_COMISS;
                dsz = ssz = o6 ? 8 : 4;
            } else if (c == 0x5a && (f2 || f3)) {
                op = f3 ? X_CVTSS2SD : X_CVTSD2SS;
                dsz = f3 ? 8 : 4;
                ssz = f3 ? 4 : 8;
            } else if (c == 0x2a && (f2 || f3)) {
                op = f2 ? X_CVTSI2SD : X_CVTSI2SS;
                form = F_X_RM;
                dsz = f2 ? 8 : 4;
                ssz = w ? 8 : 4;
            } else if (c == 0x2c && (f2 || f3)) {
                op = f2 ? X_CVTTSD2SI : X_CVTTSS2SI;
                form = F_R_XM;
                dsz = w ? 8 : 4;
                ssz = f2 ? 8 : 4;
            }
        }
    }
    if (op == X_NONE) return 0;
    if ((pf2 || pf3) && !sse_ok) return 0;

    bool has_modrm = form != F_OI && form != F_O && form != F_REL && form != F_0;
    x86_opnd_t rm = {.base = 0xff, .index = 0xff, .scale = 1};
    if (has_modrm) {
        p++;
        bool rm_xmm = form == F_X_XM || form == F_XM_X || form == F_R_XM;
        unsigned rsz = form == F_R_RM || form == F_R_RM_I || form == F_X_XM || form == F_X_RM || form == F_R_XM ? ssz : dsz;
        unsigned mod = m >> 6, lo = m & 7;
        if (mod == 3) {
            rm = rm_xmm ? x86_xmm(lo | rb, rsz) : x86_gpr(lo | rb, rsz, has_rex);
        } else {
            unsigned dn = mod == 1 ? 1 : mod == 2 ? 4 : 0;
            rm.kind = K_MEM;
            rm.size = rsz;
            rm.seg = seg;
            if (lo == 4) {
                uint8_t s = b[p++];
                unsigned ix = ((s >> 3) & 7) | rx, bs = s & 7;
                if (ix != 4) {
                    rm.index = ix;
                    rm.scale = 1 << (s >> 6);
                }
                if (bs == 5 && mod == 0) dn = 4;
                else rm.base = bs | rb;
            } else if (lo == 5 && mod == 0) {
                rm.kind = K_RIP;
                dn = 4;
            } else {
                rm.base = lo | rb;
            }
            if (dn == 1) rm.disp = (int8_t) b[p];
            if (dn == 4) rm.disp = (int32_t) x86_le(b + p, 4);
            p += dn;
        }
    }
    r.op = op;
    x86_opnd_t rg = form == F_X_XM || form == F_XM_X || form == F_X_RM
                            ? x86_xmm(ext | rr, form == F_XM_X ? ssz : dsz)
                            : x86_gpr(ext | rr, form == F_RM_R ? ssz : dsz, has_rex);
    switch (form) {
        case F_RM_R: case F_XM_X: r.n = 2, r.o[0] = rm, r.o[1] = rg; break;
        case F_R_RM: case F_X_XM: case F_X_RM: case F_R_XM: r.n = 2, r.o[0] = rg, r.o[1] = rm; break;
        case F_RM_I: r.n = 2, r.o[0] = rm, r.o[1] = x86_immediate(b + p, imm), p += imm; break;
        case F_R_RM_I: r.n = 3, r.o[0] = rg, r.o[1] = rm, r.o[2] = x86_immediate(b + p, imm), p += imm; break;
        case F_RM: r.n = 1, r.o[0] = rm; break;
        case F_RM_CL: r.n = 2, r.o[0] = rm, r.o[1].kind = K_CL; break;
        case F_OI: r.n = 2, r.o[0] = x86_gpr((c & 7) | rb, dsz, has_rex), r.o[1] = x86_immediate(b + p, imm), p += imm; break;
        case F_O: r.n = 1, r.o[0] = x86_gpr((c & 7) | rb, dsz, has_rex); break;
        case F_REL: r.n = 1, r.o[0] = x86_immediate(b + p, imm), p += imm; break;
        default: break;
    }
    *out = r;
    return p;
}
#endif
