/*
 * riscv64_asm_inst_encoding: for one instruction of the back end (VF_RAW) and
 * arbitrary operands, the emitted bytes, executed by the ISA model on an
 * arbitrary machine state, do what the instruction means; an operand the
 * instruction cannot represent is refused.
 */
#include "vf.h"
#include "vf_mem.h"
int vf_may_refuse;
#include "src/register/arch/riscv64.c"
#define VF_ASSERT_CAST 1
#include <assert.h>
#include "src/binary/encoding/riscv64/opcode.c"
#ifdef VF_LI_HI
static unsigned char vf_li_rd;
#define RV_ONLY_ALU_TO vf_li_rd
#endif
#include "spec/rv64_mini.h"

enum { S_R2, S_RI, S_LA, S_LUIS, S_ADDIS, S_R3, S_R2I, S_LD, S_ST, S_JI, S_JS, S_R1, S_BI, S_BS, S_CALL, S_NONE,
       S_F3, S_F2, S_RF2, S_FLD, S_FST, S_FR, S_RF, S_RFM };

static bool im(int64_t v, int bits) { return v >= -(1ll << (bits - 1)) && v < (1ll << (bits - 1)); }

/* operands an instruction can represent */
static bool representable(int64_t imm) {
    switch (VF_SHAPE) {
        case S_R2I:
            switch (VF_RAW) {
                case RV_SLLI: case RV_SRLI: case RV_SRAI: return imm >= 0 && imm < 64;
                case RV_SLLIW: case RV_SRLIW: case RV_SRAIW: return imm >= 0 && imm < 32;
                default: return im(imm, 12);
            }
        case S_LD: case S_ST: case S_FLD: case S_FST: return im(imm, 12);
        case S_JI: return im(imm, 21) && (imm & 1) == 0;
        case S_BI: return im(imm, 13) && (imm & 1) == 0;
        default: return true;
    }
}

#pragma CPROVER check push
#pragma CPROVER check disable "pointer"
#pragma CPROVER check disable "bounds"
/* meaning of the instruction */
static rv_uop_t mean(const rv_t *s, unsigned d, unsigned a, unsigned b, int64_t imm, unsigned rm) {
    uint64_t A = s->x[a & 31], B = s->x[b & 31], D = s->x[d & 31], I = (uint64_t) imm;
    uint64_t FX = s->f[a & 31], FY = s->f[b & 31], FD = s->f[d & 31];
    rv_uop_t u = {0};
    u.rd = (uint8_t) d;
#define ALU_(w_, alt, f3_, x_, y_) (u.kind = RV_K_ALU, u.w = (w_), u.f7 = (alt) ? 0x20 : 0, u.f3 = (f3_), u.a = (x_), u.b = (y_))
#define ALU(w_, alt, f3_) ALU_(w_, alt, f3_, A, B)
#define ALUI(w_, alt, f3_) ALU_(w_, alt, f3_, A, I)
#define MUL(w_, f3_) (u.kind = RV_K_FUN, u.fun = 0x100u | ((w_) ? 8u : 0u) | (f3_), u.a = A, u.b = B)
#define LD_(f3_) (u.kind = RV_K_LD, u.f3 = (f3_), u.a = A, u.b = I)
#define ST_(f3_, v_) (u.kind = RV_K_ST, u.f3 = (f3_), u.a = A, u.b = I, u.t = (v_))
#define BR_(f3_) (u.kind = RV_K_BR, u.f3 = (f3_), u.a = D, u.b = A, u.t = I)
#define JMP_(rd_, x_, y_) (u.kind = RV_K_JMP, u.rd = (rd_), u.a = (x_), u.b = (y_))
#define FUN_(dbl_, fd_, id, x_, y_, p_) (u.kind = RV_K_FUN, u.dbl = (dbl_), u.fd = (fd_), u.fun = (id), u.a = (x_), u.b = (y_), u.post = (p_))
#define V(dbl_, r_) ((dbl_) ? (r_) : rv_unbox(r_))
#define FA(k, dbl_) FUN_(dbl_, true, 0x1000u | (k) << 4 | ((dbl_) ? 8u : 0u) | 7, V(dbl_, FX), V(dbl_, FY), (dbl_) ? 0 : 3)
#define FQ(dbl_) FUN_(dbl_, true, 0x1000u | 0xb0u | ((dbl_) ? 8u : 0u) | 7, V(dbl_, FX), 0, (dbl_) ? 0 : 3)
#define SG(f3_, dbl_, r_) (u.kind = RV_K_SGNJ, u.fd = true, u.dbl = (dbl_), u.f3 = (f3_), u.a = V(dbl_, FX), u.b = V(dbl_, r_))
#define CMP(f3_, dbl_) FUN_(dbl_, false, 0x2000u | ((dbl_) ? 8u : 0u) | (f3_), V(dbl_, FX), V(dbl_, FY), 1)
#define F2I(k, dbl_) FUN_(dbl_, false, 0x3000u | (k) << 4 | ((dbl_) ? 8u : 0u) | rm, V(dbl_, FX), 0, (k) < 2 ? 2 : 0)
#define I2F(k, dbl_, m) FUN_(dbl_, true, 0x4000u | (k) << 4 | ((dbl_) ? 8u : 0u) | (m), (k) < 2 ? (uint32_t) A : A, 0, (dbl_) ? 0 : 3)
    switch (VF_RAW) {
        case RV_MV: ALU_(0, 0, 0, 0, A); break;
        case RV_LI: ALU_(0, 0, 0, 0, I); break;
        case RV_LA: ALU_(0, 0, 0, s->pc, 0); break;
        case RV_LUIS: ALU_(0, 0, 0, 0, 0); break;
        case RV_ADDIS: ALU_(0, 0, 0, D, 0); break;
        case RV_ADD: ALU(0, 0, 0); break;
        case RV_ADDW: ALU(1, 0, 0); break;
        case RV_SUB: ALU(0, 1, 0); break;
        case RV_SUBW: ALU(1, 1, 0); break;
        case RV_ADDI: ALUI(0, 0, 0); break;
        case RV_ADDIW: ALUI(1, 0, 0); break;
        case RV_MUL: MUL(0, 0); break;
        case RV_MULW: MUL(1, 0); break;
        case RV_DIV: MUL(0, 4); break;
        case RV_DIVU: MUL(0, 5); break;
        case RV_DIVW: MUL(1, 4); break;
        case RV_DIVUW: MUL(1, 5); break;
        case RV_REM: MUL(0, 6); break;
        case RV_REMU: MUL(0, 7); break;
        case RV_REMW: MUL(1, 6); break;
        case RV_REMUW: MUL(1, 7); break;
        case RV_AND: ALU(0, 0, 7); break;
        case RV_OR: ALU(0, 0, 6); break;
        case RV_XOR: ALU(0, 0, 4); break;
        case RV_ANDI: ALUI(0, 0, 7); break;
        case RV_ORI: ALUI(0, 0, 6); break;
        case RV_XORI: ALUI(0, 0, 4); break;
        case RV_NEG: ALU_(0, 1, 0, 0, A); break;
        case RV_NOT: ALU_(0, 0, 4, A, ~0ull); break;
        case RV_SEXT_B: ALU_(0, 0, 0, 0, (uint64_t) rv_sx(A, 8)); break;
        case RV_SEXT_H: ALU_(0, 0, 0, 0, (uint64_t) rv_sx(A, 16)); break;
        case RV_SEXT_W: ALU_(0, 0, 0, 0, (uint64_t) rv_sx(A, 32)); break;
        case RV_ZEXT_B: ALU_(0, 0, 0, 0, A & 0xff); break;
        case RV_ZEXT_H: ALU_(0, 0, 0, 0, A & 0xffff); break;
        case RV_ZEXT_W: ALU_(0, 0, 0, 0, A & 0xffffffffu); break;
        case RV_SLL: ALU(0, 0, 1); break;
        case RV_SLLW: ALU(1, 0, 1); break;
        case RV_SRL: ALU(0, 0, 5); break;
        case RV_SRLW: ALU(1, 0, 5); break;
        case RV_SRA: ALU(0, 1, 5); break;
        case RV_SRAW: ALU(1, 1, 5); break;
        case RV_SLLI: ALUI(0, 0, 1); break;
        case RV_SLLIW: ALUI(1, 0, 1); break;
        case RV_SRLI: ALUI(0, 0, 5); break;
        case RV_SRLIW: ALUI(1, 0, 5); break;
        case RV_SRAI: ALUI(0, 1, 5); break;
        case RV_SRAIW: ALUI(1, 1, 5); break;
        case RV_LB: LD_(0); break;
        case RV_LH: LD_(1); break;
        case RV_LW: LD_(2); break;
        case RV_LD: LD_(3); break;
        case RV_LBU: LD_(4); break;
        case RV_LHU: LD_(5); break;
        case RV_LWU: LD_(6); break;
        case RV_SB: ST_(0, D); break;
        case RV_SH: ST_(1, D); break;
        case RV_SW: ST_(2, D); break;
        case RV_SD: ST_(3, D); break;
        case RV_SLT: ALU(0, 0, 2); break;
        case RV_SLTU: ALU(0, 0, 3); break;
        case RV_SLTI: ALUI(0, 0, 2); break;
        case RV_SLTIU: ALUI(0, 0, 3); break;
        case RV_SEQZ: ALU_(0, 0, 0, 0, A == 0); break;
        case RV_SNEZ: ALU_(0, 0, 0, 0, A != 0); break;
        case RV_SLTZ: ALU_(0, 0, 0, 0, (int64_t) A < 0); break;
        case RV_SGTZ: ALU_(0, 0, 0, 0, (int64_t) A > 0); break;
        case RV_J: JMP_(0, s->pc, I); break;
        case RV_JR: JMP_(0, D, 0); break;
        case RV_JALR: JMP_(1, D, 0); break;
        case RV_BEQ: BR_(0); break;
        case RV_BNE: BR_(1); break;
        case RV_BLT: BR_(4); break;
        case RV_BGE: BR_(5); break;
        case RV_BLTU: BR_(6); break;
        case RV_BGEU: BR_(7); break;
        case RV_CALL: JMP_(1, s->pc, 0); break;
        case RV_RET: JMP_(0, s->x[1], 0); break;
        case RV_ECALL: u.kind = RV_K_ECALL; break;
        case RV_FADD_D: FA(0, 1); break;
        case RV_FSUB_D: FA(1, 1); break;
        case RV_FMUL_D: FA(2, 1); break;
        case RV_FDIV_D: FA(3, 1); break;
        case RV_FADD_S: FA(0, 0); break;
        case RV_FSUB_S: FA(1, 0); break;
        case RV_FMUL_S: FA(2, 0); break;
        case RV_FDIV_S: FA(3, 0); break;
        case RV_FSQRT_D: FQ(1); break;
        case RV_FSQRT_S: FQ(0); break;
        case RV_FSGNJ_D: SG(0, 1, FY); break;
        case RV_FSGNJN_D: SG(1, 1, FY); break;
        case RV_FSGNJX_D: SG(2, 1, FY); break;
        case RV_FSGNJ_S: SG(0, 0, FY); break;
        case RV_FSGNJN_S: SG(1, 0, FY); break;
        case RV_FSGNJX_S: SG(2, 0, FY); break;
        case RV_FMV_D: SG(0, 1, FX); break;
        case RV_FNEG_D: SG(1, 1, FX); break;
        case RV_FMV_S: SG(0, 0, FX); break;
        case RV_FNEG_S: SG(1, 0, FX); break;
        case RV_FMV_X_D: u.kind = RV_K_FMV; u.dbl = true; u.a = FX; break;
        case RV_FMV_X_W: u.kind = RV_K_FMV; u.a = FX; break;
        case RV_FEQ_D: CMP(2, 1); break;
        case RV_FLT_D: CMP(1, 1); break;
        case RV_FLE_D: CMP(0, 1); break;
        case RV_FEQ_S: CMP(2, 0); break;
        case RV_FLT_S: CMP(1, 0); break;
        case RV_FLE_S: CMP(0, 0); break;
        case RV_FLD: LD_(3); u.fd = true; break;
        case RV_FLW: LD_(2); u.fd = true; break;
        case RV_FSD: ST_(3, FD); break;
        case RV_FSW: ST_(2, FD); break;
        case RV_FCVT_D_W: I2F(0, 1, 0); break;
        case RV_FCVT_D_WU: I2F(1, 1, 0); break;
        case RV_FCVT_D_L: I2F(2, 1, 7); break;
        case RV_FCVT_D_LU: I2F(3, 1, 7); break;
        case RV_FCVT_S_W: I2F(0, 0, 7); break;
        case RV_FCVT_S_WU: I2F(1, 0, 7); break;
        case RV_FCVT_S_L: I2F(2, 0, 7); break;
        case RV_FCVT_S_LU: I2F(3, 0, 7); break;
        case RV_FCVT_W_D: F2I(0, 1); break;
        case RV_FCVT_WU_D: F2I(1, 1); break;
        case RV_FCVT_L_D: F2I(2, 1); break;
        case RV_FCVT_LU_D: F2I(3, 1); break;
        case RV_FCVT_W_S: F2I(0, 0); break;
        case RV_FCVT_WU_S: F2I(1, 0); break;
        case RV_FCVT_L_S: F2I(2, 0); break;
        case RV_FCVT_LU_S: F2I(3, 0); break;
        case RV_FCVT_D_S: FUN_(1, true, 0x5010u, rv_unbox(FX), 0, 0); break;
        case RV_FCVT_S_D: FUN_(0, true, 0x5000u | 7, FX, 0, 3); break;
        default: break;
    }
    return u;
}
#pragma CPROVER check pop

/* bytes the relocation or the fixed skip distances of the back end rely on */
static unsigned fixed_length(void) {
    switch (VF_SHAPE) {
        case S_LA: case S_CALL: return 8;
        case S_LUIS: case S_ADDIS: case S_JI: case S_JS: case S_BI: case S_BS: return 4;
        default: return 0;
    }
}

static void set_reg(riscv64_asm_operand_t *o, uint8_t idx, bool fl) {
    o->type = fl ? RISCV64_ASM_OPERAND_FREG : RISCV64_ASM_OPERAND_REG;
    o->size = 8;
    o->reg.index = idx;
    o->reg.size = 8;
}

static reg_t g_sp, g_other[32];

void vf_harness(void) {
    riscv64_asm_operand_t o0 = {0}, o1 = {0}, o2 = {0};
    riscv64_asm_inst_t in = {0};
    reg_t base = {0};
    uint8_t d = vf_u8(), a = vf_u8(), b = vf_u8(), rm = vf_u8();
    int64_t imm = vf_i64();
    VF_ASSUME(d < 32 && a < 32 && b < 32 && rm <= 4);
#ifdef VF_LI_HI
    vf_li_rd = d;
    /* one of the units that together cover every immediate */
    VF_ASSUME(imm >= -(VF_LI_HI) - 1 && imm <= (VF_LI_HI));
#ifdef VF_LI_LO
    VF_ASSUME(!(imm >= -(VF_LI_LO) - 1 && imm <= (VF_LI_LO)));
#endif
#endif
    g_sp.index = 2;
    r_x2 = r_sp = &g_sp;
    g_other[8].index = 8;
    r_x8 = r_fp = &g_other[8];
    r_x0 = r_zero = &g_other[0];
    g_other[1].index = 1;
    r_x1 = r_ra = &g_other[1];
    base.index = a;
    in.raw_opcode = VF_RAW;
    in.operands[0] = &o0;
    in.operands[1] = &o1;
    in.operands[2] = &o2;
    in.opcode_count = vf_u8(); /* an instruction may be encoded twice */
    unsigned xrm = 7;
    switch (VF_SHAPE) {
        case S_R2: in.count = 2; set_reg(&o0, d, 0); set_reg(&o1, a, 0); break;
        case S_RI: in.count = 2; set_reg(&o0, d, 0); o1.type = RISCV64_ASM_OPERAND_IMMEDIATE; o1.immediate = imm; break;
        case S_LA: case S_LUIS: case S_ADDIS:
            in.count = 2; set_reg(&o0, d, 0); o1.type = RISCV64_ASM_OPERAND_SYMBOL; o1.symbol.name = "s"; break;
        case S_R3: in.count = 3; set_reg(&o0, d, 0); set_reg(&o1, a, 0); set_reg(&o2, b, 0); break;
        case S_R2I: in.count = 3; set_reg(&o0, d, 0); set_reg(&o1, a, 0); o2.type = RISCV64_ASM_OPERAND_IMMEDIATE; o2.immediate = imm; break;
        case S_LD: case S_ST: case S_FLD: case S_FST:
            in.count = 2; set_reg(&o0, d, VF_SHAPE == S_FLD || VF_SHAPE == S_FST);
            o1.type = RISCV64_ASM_OPERAND_INDIRECT; o1.indirect.offset = imm; o1.indirect.reg = &base; break;
        case S_JI: in.count = 1; o0.type = RISCV64_ASM_OPERAND_IMMEDIATE; o0.immediate = imm; break;
        case S_JS: case S_CALL: in.count = 1; o0.type = RISCV64_ASM_OPERAND_SYMBOL; o0.symbol.name = "s"; imm = 0; break;
        case S_R1: in.count = 1; set_reg(&o0, d, 0); VF_ASSUME(d != 0); break;
        case S_BI: in.count = 3; set_reg(&o0, d, 0); set_reg(&o1, a, 0); o2.type = RISCV64_ASM_OPERAND_IMMEDIATE; o2.immediate = imm; break;
        case S_BS: in.count = 3; set_reg(&o0, d, 0); set_reg(&o1, a, 0); o2.type = RISCV64_ASM_OPERAND_SYMBOL; o2.symbol.name = "s"; imm = 0; break;
        case S_NONE: in.count = 0; break;
        case S_F3: in.count = 3; set_reg(&o0, d, 1); set_reg(&o1, a, 1); set_reg(&o2, b, 1); break;
        case S_F2: in.count = 2; set_reg(&o0, d, 1); set_reg(&o1, a, 1); break;
        case S_RF2: in.count = 3; set_reg(&o0, d, 0); set_reg(&o1, a, 1); set_reg(&o2, b, 1); break;
        case S_FR: in.count = 2; set_reg(&o0, d, 1); set_reg(&o1, a, 0); break;
        case S_RF: in.count = 2; set_reg(&o0, d, 0); set_reg(&o1, a, 1); break;
        case S_RFM: in.count = 3; set_reg(&o0, d, 0); set_reg(&o1, a, 1); o2.type = RISCV64_ASM_OPERAND_ROUNDMODE; o2.round_mode = rm; xrm = rm; break;
    }
    bool rep = representable(imm);
    vf_may_refuse = !rep;
    VF_REACH(rep, "operands representable");
    uint8_t *out = riscv64_asm_inst_encoding(&in, NULL);
    if (out == NULL) vf_refuse();
    VF_CHECK(rep, "an unrepresentable operand is refused");
    if (!rep) return;
    VF_CHECK(in.opcode_count <= sizeof in.opcode_data, "length of the encoding");
    if (in.opcode_count > sizeof in.opcode_data) return;
    unsigned fl = fixed_length();
    VF_CHECK(fl == 0 || in.opcode_count == fl, "fixed-length form");
    rv_t s, e;
    for (unsigned i = 0; i < 32; i++) {
        s.x[i] = i ? vf_u64() : 0;
        s.f[i] = vf_u64();
    }
    s.pc = vf_u64() & ~1ull;
    s.mkind = 0; s.msize = 0; s.maddr = 0; s.mval = 0; s.illegal = false;
    e = s;
    bool ok = rv_run(&s, in.opcode_data, in.opcode_count, VF_STEPS);
    VF_CHECK(ok, "the bytes are valid straight-line instructions");
    if (!ok) return;
    rv_uop_t u = mean(&e, d, a, b, imm, xrm);
    rv_exec(&e, &u, in.opcode_count);
    bool same = s.pc == e.pc && s.mkind == e.mkind && !e.illegal;
    if (e.mkind == 1 || e.mkind == 2)
        same = same && s.msize == e.msize && s.maddr == e.maddr && (e.mkind == 1 || s.mval == e.mval);
    VF_CHECK(same, "same memory access and control flow as the requested instruction");
    uint8_t k = vf_u8() & 31; /* any register */
    VF_CHECK(s.x[k] == e.x[k] && s.f[k] == e.f[k], "same register contents as the requested instruction");
    VF_REACH(ok, "encoded and executed");
}
