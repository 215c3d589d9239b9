/*
 * arm64_asm_inst_encoding: for one instruction of the back end (VF_RAW) and
 * arbitrary operands of one shape, the emitted word, executed by the ISA model
 * on an arbitrary machine state, does what the instruction means; an operand
 * the instruction cannot represent is refused.
 */
#include "vf.h"
#include "vf_mem.h"
int vf_may_refuse;
#include "src/register/arch/arm64.c"
#include <assert.h>
#include "src/binary/encoding/arm64/opcode.c"
#include "spec/a64_mini.h"

enum { S_MOVR, S_MOVI, S_MOVK, S_R3, S_R3X, S_R2I, S_R2S, S_R4, S_CMPR, S_CMPI, S_XT, S_LS, S_LSSYM, S_LSP, S_ADRP,
       S_CSET, S_BI, S_BS, S_BR, S_CBI, S_CBS, S_NONE, S_SVC, S_MRS, S_FLS, S_FLSP, S_FMOVR, S_FMOVG, S_FMOVI, S_F3, S_F4,
       S_F2, S_I2F, S_F2I, S_FCVT, S_MVN };

#ifndef VF_OPC
#define VF_OPC 0
#endif

static bool rng(int64_t v, int64_t lo, int64_t hi) { return v >= lo && v <= hi; }

static unsigned log_size(bool q) { /* of the accesses of a load or store */
    switch (VF_RAW) {
        case R_LDRB: case R_LDRSB: case R_STRB: return 0;
        case R_LDRH: case R_LDRSH: case R_STRH: return 1;
        default: return q ? 3 : 2;
    }
}

/* operands an instruction can represent */
static bool representable(bool q, int64_t imm, int64_t sh, int prepost) {
    unsigned sc = log_size(q);
    switch (VF_SHAPE) {
        case S_MOVI: return rng(imm, -0x10000, 0xffff);
        case S_MOVK: return rng(imm, 0, 0xffff) && (sh & 15) == 0 && rng(sh, 0, q ? 48 : 16);
        case S_R3X: return rng(sh, 0, 7) ? rng(imm, 0, 4) : rng(sh, 8, 10) && rng(imm, 0, q ? 63 : 31);
        case S_R2I:
            return VF_RAW == R_ADD || VF_RAW == R_SUB ? rng(imm, -4095, 4095) : rng(imm, 0, q ? 63 : 31);
        case S_CMPI: return rng(imm, 0, 4095);
        case S_LS: case S_FLS:
            return rng(imm, -256, 255) || (prepost == 0 && imm >= 0 && (imm & ((1 << sc) - 1)) == 0 && imm <= (4095 << sc));
        case S_LSP: case S_FLSP: return (imm & ((1 << sc) - 1)) == 0 && rng(imm, -(64 << sc), 63 << sc);
        case S_BI: case S_BS:
            return (imm & 3) == 0 && (VF_RAW == R_B || VF_RAW == R_BL ? rng(imm, -(1ll << 27), (1ll << 27) - 4) : rng(imm, -(1 << 20), (1 << 20) - 4));
        case S_CBI: case S_CBS: return (imm & 3) == 0 && rng(imm, -(1 << 20), (1 << 20) - 4);
        case S_SVC: return rng(imm, 0, 0xffff);
        case S_MRS: return rng(imm, 0, 0x7fff);
        case S_FMOVI: return rng(imm, -128, 255);
        default: return true;
    }
}

/* requests the encoder may refuse although the instruction set has a form for
 * them: the back end keeps plain offsets in the ranges below */
static bool beyond_back_end(int64_t imm, int prepost) {
    switch (VF_SHAPE) {
        case S_LS: return !rng(imm, -4096, 4095);
        case S_FLS: return !rng(imm, -512, 511);
        default: return false;
    }
}

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
static a64_uop_t mean(const a64_t *s, bool q, bool q2, unsigned d, unsigned a, unsigned b, unsigned c, bool dsp, bool asp,
                      int64_t imm, int64_t sh, int prepost) {
#define X(r) ((r) == 31 ? 0 : s->x[(r) & 31])
#define XS(r, is_sp_) ((r) == 31 && !(is_sp_) ? 0 : s->x[(r) & 31])
#define F(r, q_) ((q_) ? s->v[(r) & 31] : (uint32_t) s->v[(r) & 31])
#define ALU(op_, x_, y_) (u.kind = A_ALU, u.op = (op_), u.a = (x_), u.b = (y_))
#define FUN(id, x_, y_, z_) (u.kind = A_FUN, u.fun = (id), u.a = (x_), u.b = (y_), u.c = (z_))
    a64_uop_t u = {0};
    uint64_t I = (uint64_t) imm;
    u.rd = (uint8_t) d;
    u.sf = q;
    switch (VF_RAW) {
        case R_MOV:
            if (VF_SHAPE == S_MOVI) ALU(O_ORR, 0, I);
            else { ALU(O_ADD, XS(a, asp), 0); u.to_sp = dsp; }
            break;
        case R_MOVK: ALU(O_ORR, X(d) & ~(0xffffull << (sh & 63)), I << (sh & 63)); break;
        case R_ADD: case R_SUB:
            ALU(VF_RAW == R_ADD ? O_ADD : O_SUB, XS(a, asp), 0);
            u.to_sp = dsp;
            if (VF_SHAPE == S_R2I) u.b = I;
            else if (VF_SHAPE == S_R3) u.b = X(b);
            else if (VF_SHAPE == S_R3X) {
                uint64_t m = q ? X(b) : (uint32_t) X(b);
                if (sh < 8) {
                    m = a64_zx(m, 1u << (sh & 3));
                    if (sh & 4) m = a64_sx(m, 8 << (sh & 3));
                    u.b = m << (imm & 7);
                } else {
                    imm &= 63;
                    u.b = sh == 8 ? m << imm : sh == 9 ? m >> imm : q ? (uint64_t) ((int64_t) m >> imm) : (uint64_t) ((int32_t) m >> imm);
                }
            }
            break;
        case R_MUL: u.kind = A_MUL; u.a = X(a); u.b = X(b); break;
        case R_MADD: u.kind = A_MUL; u.a = X(a); u.b = X(b); u.c = X(c); break;
        case R_MSUB: u.kind = A_MUL; u.op = 1; u.a = X(a); u.b = X(b); u.c = X(c); break;
        case R_SDIV: u.kind = A_DIV; u.op = 1; u.a = X(a); u.b = X(b); break;
        case R_UDIV: u.kind = A_DIV; u.op = 0; u.a = X(a); u.b = X(b); break;
        case R_AND: ALU(O_AND, X(a), X(b)); break;
        case R_ORR: ALU(O_ORR, X(a), X(b)); break;
        case R_EOR: ALU(O_EOR, X(a), X(b)); break;
        case R_EON: ALU(O_EOR, X(a), ~X(b)); break;
        case R_CMP: ALU(O_SUB, X(d), VF_SHAPE == S_CMPI ? I : X(a)); u.flags = true; u.rd = 31; break;
        case R_CMN: ALU(O_ADD, X(d), VF_SHAPE == S_CMPI ? I : X(a)); u.flags = true; u.rd = 31; break;
        case R_LSL: ALU(O_LSL, X(a), VF_SHAPE == S_R2I ? I : X(b)); break;
        case R_LSR: ALU(O_LSR, X(a), VF_SHAPE == S_R2I ? I : X(b)); break;
        case R_ASR: ALU(O_ASR, X(a), VF_SHAPE == S_R2I ? I : X(b)); break;
        case R_SXTB: ALU(O_ORR, 0, a64_sx(X(a), 8)); break;
        case R_SXTH: ALU(O_ORR, 0, a64_sx(X(a), 16)); break;
        case R_SXTW: ALU(O_ORR, 0, a64_sx(X(a), 32)); break;
        case R_UXTB: ALU(O_ORR, 0, X(a) & 0xff); break;
        case R_UXTH: ALU(O_ORR, 0, X(a) & 0xffff); break;
        case R_UXTW: ALU(O_ORR, 0, X(a) & 0xffffffffu); break;
        case R_MVN: ALU(O_ORR, 0, ~X(a)); break;
        case R_LDRB: case R_LDRH: case R_LDR: case R_LDRSB: case R_LDRSH:
        case R_STRB: case R_STRH: case R_STR:
            u.kind = VF_RAW == R_STRB || VF_RAW == R_STRH || VF_RAW == R_STR ? A_ST : A_LD;
            u.fd = VF_SHAPE == S_FLS;
            u.sext = VF_RAW == R_LDRSB || VF_RAW == R_LDRSH;
            u.size = (uint8_t) (1u << log_size(q));
            u.t = u.fd ? s->v[d & 31] : X(d);
            u.a = s->x[a & 31]; u.b = I; u.base = (uint8_t) a;
            u.wb = prepost != 0; u.post = prepost == 2;
            break;
        case R_LDP: case R_STP:
            u.kind = VF_RAW == R_LDP ? A_LD : A_ST;
            u.pair = true;
            u.fd = VF_SHAPE == S_FLSP;
            u.size = q ? 8 : 4;
            u.rd2 = (uint8_t) b;
            u.t = u.fd ? s->v[d & 31] : X(d);
            u.t2 = u.fd ? s->v[b & 31] : X(b);
            u.a = s->x[a & 31]; u.b = I; u.base = (uint8_t) a;
            u.wb = prepost != 0; u.post = prepost == 2;
            break;
        case R_ADRP: ALU(O_ADD, s->pc & ~0xfffull, 0); break;
        case R_CSET: ALU(O_SEL, 1, 0); u.cond = (uint8_t) sh; break;
        case R_B: u.kind = A_JMP; u.t = s->pc + I; break;
        case R_BL: u.kind = A_JMP; u.link = true; u.t = s->pc + I; break;
        case R_BR: u.kind = A_JMP; u.t = X(d); break;
        case R_BLR: u.kind = A_JMP; u.link = true; u.t = X(d); break;
        case R_RET: u.kind = A_JMP; u.t = s->x[30]; break;
        case R_BEQ: case R_BNE: case R_BHS: case R_BLO: case R_BMI: case R_BPL: case R_BVS: case R_BVC:
        case R_BHI: case R_BLS: case R_BGE: case R_BLT: case R_BGT: case R_BLE: case R_BAL: case R_BNV: {
            static const uint8_t cc[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};
            u.kind = A_CBR; u.cond = cc[VF_OPC]; u.t = s->pc + I; break;
        }
        case R_CBZ: u.kind = A_CBR; u.cond = 16; u.a = X(d); u.t = s->pc + I; break;
        case R_CBNZ: u.kind = A_CBR; u.cond = 17; u.a = X(d); u.t = s->pc + I; break;
        case R_SVC: u.kind = A_SVC; u.a = I; break;
        case R_MRS: u.kind = A_FUN; u.fun = 0x8000u | (uint32_t) imm; break;
        case R_NOP: u.kind = A_NOP; break;
        case R_FMOV:
            u.fd = true;
            ALU(O_ORR, 0, VF_SHAPE == S_FMOVG ? X(a) : VF_SHAPE == S_FMOVI ? a64_expand_imm(q, (unsigned) imm & 255) : s->v[a & 31]);
            break;
        case R_FMUL: u.fd = true; FUN(0x6000u | 0 << 1 | q, F(a, q), F(b, q), 0); break;
        case R_FDIV: u.fd = true; FUN(0x6000u | 1 << 1 | q, F(a, q), F(b, q), 0); break;
        case R_FADD: u.fd = true; FUN(0x6000u | 2 << 1 | q, F(a, q), F(b, q), 0); break;
        case R_FSUB: u.fd = true; FUN(0x6000u | 3 << 1 | q, F(a, q), F(b, q), 0); break;
        case R_FCMP: u.kind = A_FCMP; u.fun = 0x5000u | q; u.a = F(d, q); u.b = F(a, q); break;
        case R_FNEG: u.fd = true; ALU(O_EOR, F(a, q), q ? 1ull << 63 : 1ull << 31); break;
        case R_FSQRT: u.fd = true; FUN(0x4000u | q, F(a, q), 0, 0); break;
        case R_SCVTF: u.fd = true; FUN(0x2000u | q2 << 1 | q, q2 ? X(a) : (uint32_t) X(a), 0, 0); break;
        case R_UCVTF: u.fd = true; FUN(0x2004u | q2 << 1 | q, q2 ? X(a) : (uint32_t) X(a), 0, 0); break;
        case R_FCVTZS: FUN(0x3000u | q << 1 | q2, F(a, q2), 0, 0); break;
        case R_FCVTZU: FUN(0x3004u | q << 1 | q2, F(a, q2), 0, 0); break;
        case R_FCVT: u.fd = true; FUN(q ? 0x4011u : 0x4010u, F(a, !q), 0, 0); break;
        case R_FMADD: u.fd = true; FUN(0x1000u | 0 << 1 | q, F(a, q), F(b, q), F(c, q)); break;
        case R_FMSUB: u.fd = true; FUN(0x1000u | 1 << 1 | q, F(a, q), F(b, q), F(c, q)); break;
        case R_FNMSUB: u.fd = true; FUN(0x1000u | 3 << 1 | q, F(a, q), F(b, q), F(c, q)); break;
        default: break;
    }
    return u;
}
#pragma CPROVER check pop

static void set_reg(arm64_asm_operand_t *o, uint8_t idx, bool q, bool fl, bool is_sp_) {
    o->type = fl ? ARM64_ASM_OPERAND_FREG : ARM64_ASM_OPERAND_REG;
    o->size = q ? 8 : 4;
    o->reg.name = is_sp_ ? "sp" : "r";
    o->reg.index = idx;
    o->reg.size = q ? 8 : 4;
}

static reg_t g_sp, g_zr;

void vf_harness(void) {
    arm64_asm_operand_t o0 = {0}, o1 = {0}, o2 = {0}, o3 = {0};
    arm64_asm_inst_t in = {0};
    reg_t base = {0};
    uint8_t d = vf_u8(), a = vf_u8(), b = vf_u8(), c = vf_u8(), cnt = vf_u8();
    bool q = vf_u8() & 1, q2 = vf_u8() & 1, dsp = vf_u8() & 1, asp = vf_u8() & 1;
    int64_t imm = vf_i64(), sh = vf_i64();
    int prepost = vf_u8();
    VF_ASSUME(d < 32 && a < 32 && b < 32 && c < 32 && prepost < 3);
    g_sp.name = "sp"; g_sp.index = 31; g_sp.size = 8;
    g_zr.name = "wzr"; g_zr.index = 31; g_zr.size = 4;
    sp = &g_sp;
    wzr = &g_zr;
    in.raw_opcode = VF_RAW;
    in.operands[0] = &o0;
    in.operands[1] = &o1;
    in.operands[2] = &o2;
    in.operands[3] = &o3;
    /* number 31 is the stack pointer or the zero register, as the name says */
    VF_ASSUME((!dsp || d == 31) && (!asp || a == 31));
    bool dsp_ok = false, asp_ok = false;
    switch (VF_SHAPE) {
        case S_MOVR:
            /* mov between SP and ZR has no encoding */
            VF_ASSUME(!(dsp || asp) || (q && (d != 31 || dsp) && (a != 31 || asp)));
            dsp_ok = asp_ok = true;
            in.count = 2; set_reg(&o0, d, q, 0, dsp); set_reg(&o1, a, q, 0, asp);
            break;
        case S_MOVI: in.count = 2; set_reg(&o0, d, q, 0, 0); o1.type = ARM64_ASM_OPERAND_IMMEDIATE; o1.immediate = imm; break;
        case S_MOVK:
            in.count = 3; set_reg(&o0, d, q, 0, 0); o1.type = ARM64_ASM_OPERAND_IMMEDIATE; o1.immediate = imm;
            o2.type = ARM64_ASM_OPERAND_SHIFT; o2.immediate = sh;
            break;
        case S_R3: case S_R3X:
            if (VF_RAW == R_ADD || VF_RAW == R_SUB) {
                VF_ASSUME(!(dsp || asp) || (q && (d != 31 || dsp) && (a != 31 || asp)));
                dsp_ok = asp_ok = true;
            }
            if (VF_SHAPE == S_R3X) {
                /* extended forms take SP, shifted forms take ZR, for number 31 */
                VF_ASSUME(sh >= 8 ? !dsp && !asp : (d != 31 || dsp) && (a != 31 || asp));
                o3.type = ARM64_ASM_OPERAND_EXTEND; o3.extend.option = sh; o3.extend.imm = imm;
            }
            in.count = VF_SHAPE == S_R3 ? 3 : 4;
            set_reg(&o0, d, q, 0, dsp); set_reg(&o1, a, q, 0, asp); set_reg(&o2, b, q, 0, 0);
            break;
        case S_R2I: case S_R2S:
            if (VF_RAW == R_ADD || VF_RAW == R_SUB) {
                /* number 31 is always SP here */
                VF_ASSUME((d != 31 || (dsp && q)) && (a != 31 || (asp && q)));
                dsp_ok = asp_ok = true;
            }
            in.count = 3; set_reg(&o0, d, q, 0, dsp); set_reg(&o1, a, q, 0, asp);
            if (VF_SHAPE == S_R2I) { o2.type = ARM64_ASM_OPERAND_IMMEDIATE; o2.immediate = imm; }
            else { o2.type = ARM64_ASM_OPERAND_SYMBOL; o2.symbol.name = "s"; imm = 0; }
            break;
        case S_R4:
            in.count = 4; set_reg(&o0, d, q, 0, 0); set_reg(&o1, a, q, 0, 0); set_reg(&o2, b, q, 0, 0); set_reg(&o3, c, q, 0, 0);
            break;
        case S_CMPR: case S_MVN: in.count = 2; set_reg(&o0, d, q, 0, 0); set_reg(&o1, a, q, 0, 0); break;
        case S_CMPI:
            VF_ASSUME(d != 31);
            in.count = 2; set_reg(&o0, d, q, 0, 0); o1.type = ARM64_ASM_OPERAND_IMMEDIATE; o1.immediate = imm;
            break;
        case S_XT:
            if (VF_RAW == R_SXTW || VF_RAW == R_UXTW) q = true;
            in.count = 2; set_reg(&o0, d, q, 0, 0); set_reg(&o1, a, 0, 0, 0);
            break;
        case S_LS: case S_FLS: case S_LSSYM:
            if (VF_RAW == R_STRB || VF_RAW == R_STRH) q = false;
            /* a transfer register that is also the updated base is unpredictable */
            VF_ASSUME(prepost == 0 || VF_SHAPE == S_FLS || d != a || a == 31);
            in.count = 2; set_reg(&o0, d, q, VF_SHAPE == S_FLS, 0);
            o1.type = ARM64_ASM_OPERAND_INDIRECT; o1.indirect.reg = &base;
            if (VF_SHAPE == S_LSSYM) { o1.indirect.indirect_sym = true; o1.indirect.sym_name = "s"; imm = 0; prepost = 0; }
            o1.indirect.offset = imm; o1.indirect.prepost = (int8_t) prepost;
            break;
        case S_LSP: case S_FLSP:
            VF_ASSUME(VF_RAW != R_LDP || d != b);
            VF_ASSUME(prepost == 0 || VF_SHAPE == S_FLSP || a == 31 || (d != a && b != a));
            in.count = 3; set_reg(&o0, d, q, VF_SHAPE == S_FLSP, 0); set_reg(&o1, b, q, VF_SHAPE == S_FLSP, 0);
            o2.type = ARM64_ASM_OPERAND_INDIRECT; o2.indirect.reg = &base;
            o2.indirect.offset = imm; o2.indirect.prepost = (int8_t) prepost;
            break;
        case S_ADRP: q = true; in.count = 2; set_reg(&o0, d, 1, 0, 0); o1.type = ARM64_ASM_OPERAND_SYMBOL; o1.symbol.name = "s"; imm = 0; break;
        case S_CSET:
            VF_ASSUME(sh >= 0 && sh < 14); /* al and nv have no cset form */
            in.count = 2; set_reg(&o0, d, q, 0, 0); o1.type = ARM64_ASM_OPERAND_COND; o1.cond = (arm64_asm_cond_type) sh;
            break;
        case S_BI: in.count = 1; o0.type = ARM64_ASM_OPERAND_IMMEDIATE; o0.immediate = imm; break;
        case S_BS: in.count = 1; o0.type = ARM64_ASM_OPERAND_SYMBOL; o0.symbol.name = "s"; o0.symbol.offset = imm; break;
        case S_BR: q = true; in.count = 1; set_reg(&o0, d, 1, 0, 0); break;
        case S_CBI: in.count = 2; set_reg(&o0, d, q, 0, 0); o1.type = ARM64_ASM_OPERAND_IMMEDIATE; o1.immediate = imm; break;
        case S_CBS: in.count = 2; set_reg(&o0, d, q, 0, 0); o1.type = ARM64_ASM_OPERAND_SYMBOL; o1.symbol.name = "s"; o1.symbol.offset = imm; break;
        case S_NONE: in.count = 0; break;
        case S_SVC: in.count = 1; o0.type = ARM64_ASM_OPERAND_IMMEDIATE; o0.immediate = imm; break;
        case S_MRS: q = true; in.count = 2; set_reg(&o0, d, 1, 0, 0); o1.type = ARM64_ASM_OPERAND_IMMEDIATE; o1.immediate = imm; break;
        case S_FMOVR: case S_F2: in.count = 2; set_reg(&o0, d, q, 1, 0); set_reg(&o1, a, q, 1, 0); break;
        case S_FMOVG: in.count = 2; set_reg(&o0, d, q, 1, 0); set_reg(&o1, a, q, 0, 0); break;
        case S_FMOVI: in.count = 2; set_reg(&o0, d, q, 1, 0); o1.type = ARM64_ASM_OPERAND_IMMEDIATE; o1.immediate = imm; break;
        case S_F3: in.count = 3; set_reg(&o0, d, q, 1, 0); set_reg(&o1, a, q, 1, 0); set_reg(&o2, b, q, 1, 0); break;
        case S_F4:
            in.count = 4; set_reg(&o0, d, q, 1, 0); set_reg(&o1, a, q, 1, 0); set_reg(&o2, b, q, 1, 0); set_reg(&o3, c, q, 1, 0);
            break;
        case S_I2F: in.count = 2; set_reg(&o0, d, q, 1, 0); set_reg(&o1, a, q2, 0, 0); break;
        case S_F2I: in.count = 2; set_reg(&o0, d, q, 0, 0); set_reg(&o1, a, q2, 1, 0); break;
        case S_FCVT: in.count = 2; set_reg(&o0, d, q, 1, 0); set_reg(&o1, a, !q, 1, 0); break;
    }
    base.name = "b"; base.index = a; base.size = 8;
    if (!dsp_ok) VF_ASSUME(!dsp);
    if (!asp_ok) VF_ASSUME(!asp);
    bool rep = representable(q, imm, sh, prepost);
    vf_may_refuse = !rep || beyond_back_end(imm, prepost);
    VF_REACH(rep, "operands representable");
    uint32_t w = arm64_asm_inst_encoding(&in, &cnt);
    if (w == 0) vf_refuse();
    VF_CHECK(rep, "an unrepresentable operand is refused");
    if (!rep) return;
    VF_CHECK(cnt == 4, "length of the encoding");
    a64_t s, e;
    for (unsigned i = 0; i < 32; i++) {
        s.x[i] = vf_u64();
        s.v[i] = vf_u64();
    }
    s.pc = vf_u64() & ~3ull;
    s.nzcv = vf_u8() & 15;
    s.mkind = 0; s.msize = 0; s.mcount = 0; s.maddr = 0; s.mval = 0; s.mval2 = 0; s.illegal = false;
    e = s;
    a64_uop_t g = a64_decode(&s, w);
    VF_CHECK(g.kind != A_ILL, "the word is a defined instruction");
    if (g.kind == A_ILL) return;
    a64_exec(&s, &g);
    a64_uop_t u = mean(&e, q, q2, d, a, b, c, dsp, asp, imm, sh, prepost);
    a64_exec(&e, &u);
    bool same = s.pc == e.pc && s.mkind == e.mkind && s.nzcv == e.nzcv && !e.illegal;
    if (e.mkind == 1 || e.mkind == 2)
        same = same && s.msize == e.msize && s.mcount == e.mcount && s.maddr == e.maddr;
    VF_CHECK(same, "same control flow, flags and memory access as the requested instruction");
    VF_CHECK(s.mval == e.mval && s.mval2 == e.mval2, "same value stored as by the requested instruction");
    uint8_t k = vf_u8() & 31; /* any register */
    VF_CHECK(s.x[k] == e.x[k] && s.v[k] == e.v[k], "same register contents as the requested instruction");
    VF_REACH(same, "encoded and executed");
}
