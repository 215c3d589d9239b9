/*
 * A64 subset, written from the Arm Architecture Reference Manual (DDI 0487).
 * A 32-bit word is decoded into a micro-operation, which a64_exec() executes
 * on an abstract machine. Multiplication, division and floating-point
 * arithmetic are uninterpreted functions of operation and operand values.
 * Constrained-unpredictable encodings decode as invalid.
 */
#ifndef A64_MINI_H
#define A64_MINI_H
#include <stdbool.h>
#include <stdint.h>

enum { A_ILL, A_ALU, A_MUL, A_DIV, A_LD, A_ST, A_JMP, A_CBR, A_FCMP, A_FUN, A_SVC, A_NOP };
enum { O_ADD, O_SUB, O_AND, O_ORR, O_EOR, O_LSL, O_LSR, O_ASR, O_UBF, O_SBF, O_SEL };
#define A_PCREG 0xff

typedef struct {
    uint8_t kind, op;
    bool sf;            /* 64-bit */
    bool flags;         /* sets NZCV */
    bool to_sp;         /* destination 31 is SP, not ZR */
    bool fd;            /* destination is a vector register */
    uint8_t rd, rd2;    /* destinations (rd2 for load pairs) */
    bool pair, sext;
    uint8_t size;       /* access size in bytes */
    uint64_t a, b, c;   /* operand values */
    uint64_t t, t2;     /* stored values, branch target */
    uint8_t wb;         /* 0 none, 1 base register gets a+b */
    bool post;          /* access at a instead of a+b */
    uint8_t base;
    uint8_t cond;       /* O_SEL, A_CBR: condition; 16 = a is zero, 17 = a is not zero, 14 = always */
    bool link;
    uint8_t immr, imms;
    uint32_t fun;
} a64_uop_t;

typedef struct {
    uint64_t x[32];     /* x[31] is SP */
    uint64_t v[32];     /* low 64 bits; a scalar write clears the rest */
    uint8_t nzcv;
    uint64_t pc;
    uint8_t mkind;      /* 0 none, 1 load, 2 store, 3 supervisor call */
    uint8_t msize, mcount;
    uint64_t maddr, mval, mval2;
    bool illegal;
} a64_t;

#pragma CPROVER check push
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer"
#ifdef __CPROVER__
uint64_t __CPROVER_uninterpreted_a64_fun(uint32_t op, uint64_t a, uint64_t b, uint64_t c);
uint64_t __CPROVER_uninterpreted_a64_mem(uint64_t addr, uint8_t size);
#define a64_fun __CPROVER_uninterpreted_a64_fun
#define a64_mem __CPROVER_uninterpreted_a64_mem
#else
static uint64_t a64_fun(uint32_t op, uint64_t a, uint64_t b, uint64_t c) {
    uint64_t h = op * 0x9e3779b97f4a7c15ull;
    h = (h ^ a) * 0xff51afd7ed558ccdull; h ^= h >> 29;
    h = (h ^ b) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31;
    h = (h ^ c) * 0xff51afd7ed558ccdull; h ^= h >> 30;
    return h;
}
static uint64_t a64_mem(uint64_t a, uint8_t s) { return a64_fun(0xfeed0000u + s, a, a, 0); }
#endif

static inline uint32_t a64_bits(uint32_t w, int hi, int lo) { return (w >> lo) & ((1u << (hi - lo + 1)) - 1u); }
static inline uint64_t a64_sx(uint64_t v, int bits) { return (uint64_t) ((int64_t) (v << (64 - bits)) >> (64 - bits)); }
static inline uint64_t a64_zx(uint64_t v, unsigned bytes) { return bytes >= 8 ? v : v & ((1ull << (8 * bytes)) - 1); }
static inline uint64_t a64_mask(unsigned n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }

static bool a64_cond(uint8_t nzcv, unsigned c) {
    bool n = nzcv >> 3 & 1, z = nzcv >> 2 & 1, cy = nzcv >> 1 & 1, v = nzcv & 1, r;
    switch (c >> 1 & 7) {
        case 0: r = z; break;
        case 1: r = cy; break;
        case 2: r = n; break;
        case 3: r = v; break;
        case 4: r = cy && !z; break;
        case 5: r = n == v; break;
        case 6: r = n == v && !z; break;
        default: return true;
    }
    return (c & 1) ? !r : r;
}

static uint64_t a64_expand_imm(bool dbl, unsigned imm8) {
    uint64_t s = imm8 >> 7 & 1, b = imm8 >> 6 & 1, lo = imm8 & 0x3f;
    if (dbl) return s << 63 | (b ^ 1) << 62 | (b ? 0xffull << 54 : 0) | lo << 48;
    return s << 31 | (b ^ 1) << 30 | (b ? 0x1full << 25 : 0) | lo << 19;
}

static void a64_exec(a64_t *s, const a64_uop_t *u) {
    uint64_t next = s->pc + 4, val = 0, val2 = 0;
    bool wr = false;
    unsigned R = u->sf ? 64 : 32;
    s->mkind = 0;
    s->mcount = u->pair ? 2 : 1;
    s->mval = s->mval2 = 0;
    switch (u->kind) {
        case A_ALU: {
            uint64_t a = u->sf ? u->a : (uint32_t) u->a, b = u->sf ? u->b : (uint32_t) u->b;
            unsigned sh = (unsigned) (b & (R - 1));
            wr = true;
            switch (u->op) {
                case O_ADD: val = a + b; break;
                case O_SUB: val = a - b; break;
                case O_AND: val = a & b; break;
                case O_ORR: val = a | b; break;
                case O_EOR: val = a ^ b; break;
                case O_LSL: val = a << sh; break;
                case O_LSR: val = a >> sh; break;
                case O_ASR: val = (u->sf ? (uint64_t) ((int64_t) a >> sh) : (uint64_t) ((int32_t) a >> sh)); break;
                case O_UBF: case O_SBF: {
                    unsigned w, pos;
                    if (u->imms >= u->immr) { w = u->imms - u->immr + 1u; pos = 0; val = (a >> u->immr) & a64_mask(w); }
                    else { w = u->imms + 1u; pos = R - u->immr; val = (a & a64_mask(w)) << pos; }
                    if (u->op == O_SBF) val = a64_sx(val, (int) (w + pos));
                    break;
                }
                default: val = a64_cond(s->nzcv, u->cond) ? a : b; break;
            }
            val = u->sf ? val : (uint32_t) val;
            if (u->flags) {
                bool sub = u->op == O_SUB;
                bool n = val >> (R - 1) & 1, z = val == 0;
                bool c = sub ? a >= b : val < a;
                bool v = ((sub ? (a ^ b) & (a ^ val) : (a ^ val) & (b ^ val)) >> (R - 1)) & 1;
                s->nzcv = (uint8_t) (n << 3 | z << 2 | c << 1 | v);
            }
            break;
        }
        case A_MUL: {
            uint64_t m = a64_fun(u->sf, u->sf ? u->a : (uint32_t) u->a, u->sf ? u->b : (uint32_t) u->b, 0);
            wr = true;
            val = u->op ? u->c - m : u->c + m;
            val = u->sf ? val : (uint32_t) val;
            break;
        }
        case A_DIV:
            wr = true;
            val = a64_fun(0x10u | u->op << 1 | u->sf, u->sf ? u->a : (uint32_t) u->a, u->sf ? u->b : (uint32_t) u->b, 0);
            val = u->sf ? val : (uint32_t) val;
            break;
        case A_LD: case A_ST: {
            uint64_t ad = u->post ? u->a : u->a + u->b;
            s->msize = u->size;
            s->maddr = ad;
            if (u->kind == A_ST) {
                s->mkind = 2;
                s->mval = a64_zx(u->t, u->size);
                s->mval2 = u->pair ? a64_zx(u->t2, u->size) : 0;
            } else {
                s->mkind = 1;
                wr = true;
                val = a64_zx(a64_mem(ad, u->size), u->size);
                val2 = a64_zx(a64_mem(ad + u->size, u->size), u->size);
                if (u->sext) val = a64_sx(val, 8 * u->size);
                if (!u->sf && !u->fd) val = (uint32_t) val;
            }
            if (u->wb) s->x[u->base & 31] = u->a + u->b;
            break;
        }
        case A_JMP:
            if (u->link) s->x[30] = next;
            next = u->t;
            break;
        case A_CBR: {
            uint64_t a = u->sf ? u->a : (uint32_t) u->a;
            bool c = u->cond == 16 ? a == 0 : u->cond == 17 ? a != 0 : a64_cond(s->nzcv, u->cond);
            if (c) next = u->t;
            break;
        }
        case A_FCMP: s->nzcv = (uint8_t) (a64_fun(u->fun, u->a, u->b, 0) & 15); break;
        case A_FUN:
            wr = true;
            val = a64_fun(u->fun, u->a, u->b, u->c);
            val = u->sf ? val : (uint32_t) val;
            break;
        case A_SVC: s->mkind = 3; s->mval = u->a; break;
        case A_NOP: break;
        default: s->illegal = true;
    }
    if (wr && u->fd) {
        s->v[u->rd & 31] = val;
        if (u->pair) s->v[u->rd2 & 31] = val2;
    } else if (wr) {
        if (u->rd != 31 || u->to_sp) s->x[u->rd & 31] = val;
        if (u->pair && u->rd2 != 31) s->x[u->rd2 & 31] = val2;
    }
    s->pc = next;
}

static a64_uop_t a64_decode(const a64_t *s, uint32_t w) {
    a64_uop_t u = {0};
    unsigned rd = a64_bits(w, 4, 0), rn = a64_bits(w, 9, 5), rm = a64_bits(w, 20, 16), ra = a64_bits(w, 14, 10);
    bool sf = w >> 31;
    uint64_t xn = rn == 31 ? 0 : s->x[rn], xm = rm == 31 ? 0 : s->x[rm], xa = ra == 31 ? 0 : s->x[ra], xd = rd == 31 ? 0 : s->x[rd];
    uint64_t sn = s->x[rn]; /* 31 is SP */
    uint64_t vn = s->v[rn], vm = s->v[rm], va = s->v[ra], vd = s->v[rd];
    u.rd = (uint8_t) rd;
    u.sf = sf;
    unsigned op0 = a64_bits(w, 28, 25);
    if ((op0 & 0xe) == 8) { /* data processing, immediate */
        switch (a64_bits(w, 25, 23)) {
            case 0: case 1: { /* adr, adrp */
                uint64_t imm = a64_sx((uint64_t) a64_bits(w, 23, 5) << 2 | a64_bits(w, 30, 29), 21);
                u.kind = A_ALU; u.op = O_ADD; u.sf = true;
                u.a = sf ? s->pc & ~0xfffull : s->pc;
                u.b = sf ? imm << 12 : imm;
                break;
            }
            case 2: /* add/sub immediate */
                u.kind = A_ALU; u.op = (w >> 30 & 1) ? O_SUB : O_ADD;
                u.flags = w >> 29 & 1;
                u.to_sp = !u.flags;
                u.a = sn;
                u.b = (uint64_t) a64_bits(w, 21, 10) << ((w >> 22 & 1) ? 12 : 0);
                break;
            case 5: { /* move wide */
                unsigned opc = a64_bits(w, 30, 29), hw = a64_bits(w, 22, 21);
                uint64_t imm = (uint64_t) a64_bits(w, 20, 5) << (16 * hw);
                if (opc == 1 || (!sf && hw > 1)) break;
                u.kind = A_ALU; u.op = O_ORR;
                u.a = opc == 3 ? xd & ~(0xffffull << (16 * hw)) : 0;
                u.b = opc == 0 ? ~imm : imm;
                break;
            }
            case 6: { /* bitfield */
                unsigned opc = a64_bits(w, 30, 29);
                u.immr = (uint8_t) a64_bits(w, 21, 16);
                u.imms = (uint8_t) a64_bits(w, 15, 10);
                if (opc == 1 || opc == 3 || (w >> 22 & 1) != sf || (!sf && (u.immr > 31 || u.imms > 31))) break;
                u.kind = A_ALU; u.op = opc ? O_UBF : O_SBF;
                u.a = xn;
                break;
            }
            default: break;
        }
    } else if ((op0 & 0xe) == 0xa) { /* branches, system */
        u.sf = true;
        if ((w & 0x7c000000u) == 0x14000000u) {
            u.kind = A_JMP; u.link = w >> 31; u.t = s->pc + (a64_sx(w & 0x3ffffff, 26) << 2);
        } else if ((w & 0xff000010u) == 0x54000000u) {
            u.kind = A_CBR; u.cond = (uint8_t) (w & 15); u.t = s->pc + (a64_sx(a64_bits(w, 23, 5), 19) << 2);
        } else if ((w & 0x7e000000u) == 0x34000000u) {
            u.kind = A_CBR; u.sf = sf; u.cond = (w >> 24 & 1) ? 17 : 16; u.a = xd; u.t = s->pc + (a64_sx(a64_bits(w, 23, 5), 19) << 2);
        } else if ((w & 0xff9ffc1fu) == 0xd61f0000u && a64_bits(w, 22, 21) != 3) {
            u.kind = A_JMP; u.link = a64_bits(w, 22, 21) == 1; u.t = xn;
        } else if ((w & 0xffe0001fu) == 0xd4000001u) {
            u.kind = A_SVC; u.a = a64_bits(w, 20, 5);
        } else if ((w & 0xfff00000u) == 0xd5300000u) {
            u.kind = A_FUN; u.fun = 0x8000u | a64_bits(w, 19, 5);
        } else if (w == 0xd503201fu) {
            u.kind = A_NOP;
        }
    } else if ((op0 & 5) == 4) { /* loads and stores */
        bool V = w >> 26 & 1;
        if ((w & 0x3a000000u) == 0x38000000u) {
            unsigned size = w >> 30, opc = a64_bits(w, 23, 22);
            u.base = (uint8_t) rn;
            u.a = sn;
            u.size = (uint8_t) (1u << size);
            u.fd = V;
            u.sf = true;
            u.t = V ? vd : xd;
            bool ok = V ? size >= 2 && opc < 2 : opc < 2 || (opc == 2 && size < 3) || (opc == 3 && size < 2);
            u.sext = !V && opc >= 2;
            if (opc == 3) u.sf = false;
            if (w >> 24 & 1) {
                u.b = (uint64_t) a64_bits(w, 21, 10) << size;
            } else if (!(w >> 21 & 1)) {
                unsigned idx = a64_bits(w, 11, 10);
                u.b = a64_sx(a64_bits(w, 20, 12), 9);
                if (idx == 2) ok = false;
                u.wb = idx != 0;
                u.post = idx == 1;
                if (u.wb && !V && rn == rd && rn != 31) ok = false;
            } else {
                ok = false;
            }
            if (ok) u.kind = opc ? A_LD : A_ST;
        } else if ((w & 0x3a000000u) == 0x28000000u) {
            unsigned opc = w >> 30, idx = a64_bits(w, 24, 23), t2 = ra;
            bool L = w >> 22 & 1, ok = idx != 0 && (V ? opc < 2 : opc == 0 || opc == 2);
            unsigned sc = V ? 2 + opc : 2 + (opc >> 1);
            u.pair = true;
            u.fd = V;
            u.sf = true;
            u.rd2 = (uint8_t) t2;
            u.base = (uint8_t) rn;
            u.a = sn;
            u.b = a64_sx(a64_bits(w, 21, 15), 7) << sc;
            u.size = (uint8_t) (1u << sc);
            u.t = V ? vd : xd;
            u.t2 = V ? va : xa;
            u.wb = idx & 1;
            u.post = idx == 1;
            if (L && rd == t2) ok = false;
            if (u.wb && !V && rn != 31 && (rn == rd || rn == t2)) ok = false;
            if (ok) u.kind = L ? A_LD : A_ST;
        }
    } else if ((op0 & 7) == 5) { /* data processing, register */
        if ((w & 0x1f000000u) == 0x0a000000u) { /* logical, shifted */
            unsigned opc = a64_bits(w, 30, 29), am = a64_bits(w, 15, 10), ty = a64_bits(w, 23, 22);
            if (opc == 3 || (!sf && am > 31) || ty == 3 || am) return u; /* only unshifted forms are needed */
            u.kind = A_ALU;
            u.op = opc == 0 ? O_AND : opc == 1 ? O_ORR : O_EOR;
            u.a = xn;
            u.b = (w >> 21 & 1) ? ~xm : xm;
        } else if ((w & 0x1f200000u) == 0x0b000000u) { /* add/sub shifted */
            unsigned am = a64_bits(w, 15, 10), ty = a64_bits(w, 23, 22);
            if (ty == 3 || (!sf && am > 31)) return u;
            u.kind = A_ALU; u.op = (w >> 30 & 1) ? O_SUB : O_ADD; u.flags = w >> 29 & 1;
            u.a = xn;
            uint64_t m = sf ? xm : (uint32_t) xm;
            u.b = ty == 0 ? m << am : ty == 1 ? m >> am : sf ? (uint64_t) ((int64_t) m >> am) : (uint64_t) ((int32_t) m >> am);
        } else if ((w & 0x1fe00000u) == 0x0b200000u) { /* add/sub extended */
            unsigned opt = a64_bits(w, 15, 13), am = a64_bits(w, 12, 10), n = 1u << (opt & 3);
            if (am > 4) return u;
            u.kind = A_ALU; u.op = (w >> 30 & 1) ? O_SUB : O_ADD; u.flags = w >> 29 & 1;
            u.to_sp = !u.flags;
            u.a = sn;
            uint64_t m = a64_zx(xm, n);
            if (opt & 4) m = a64_sx(m, (int) (8 * n));
            u.b = m << am;
        } else if ((w & 0x7fe00000u) == 0x1ac00000u) { /* two sources */
            unsigned oc = a64_bits(w, 15, 10);
            u.a = xn;
            u.b = xm;
            if (oc == 2 || oc == 3) { u.kind = A_DIV; u.op = oc & 1; }
            else if (oc >= 8 && oc <= 10) { u.kind = A_ALU; u.op = (uint8_t) (O_LSL + oc - 8); }
        } else if ((w & 0x7fe00000u) == 0x1b000000u) { /* madd, msub */
            u.kind = A_MUL; u.op = w >> 15 & 1; u.a = xn; u.b = xm; u.c = xa;
        } else if ((w & 0x7fe00c00u) == 0x1a800400u) { /* csinc */
            u.kind = A_ALU; u.op = O_SEL; u.cond = (uint8_t) a64_bits(w, 15, 12); u.a = xn; u.b = xm + 1;
        }
    } else if ((op0 & 7) == 7) { /* scalar floating point */
        unsigned ty = a64_bits(w, 23, 22);
        bool dbl = ty == 1;
        uint64_t n = dbl ? vn : (uint32_t) vn, m = dbl ? vm : (uint32_t) vm, a = dbl ? va : (uint32_t) va;
        if (ty > 1) return u;
        if ((w & 0xff000000u) == 0x1f000000u) {
            u.kind = A_FUN; u.fd = true; u.sf = dbl;
            u.fun = 0x1000u | (w >> 21 & 1) << 2 | (w >> 15 & 1) << 1 | dbl;
            u.a = n; u.b = m; u.c = a;
        } else if ((w & 0x7f20fc00u) == 0x1e200000u) { /* int <-> fp */
            unsigned k = a64_bits(w, 20, 16);
            u.sf = dbl;
            if (k == 2 || k == 3) { u.kind = A_FUN; u.fd = true; u.fun = 0x2000u | (k & 1) << 2 | sf << 1 | dbl; u.a = sf ? xn : (uint32_t) xn; }
            else if (k == 0x18 || k == 0x19) { u.kind = A_FUN; u.sf = sf; u.fun = 0x3000u | (k & 1) << 2 | sf << 1 | dbl; u.a = n; }
            else if (k == 7 && sf == dbl) { u.kind = A_ALU; u.op = O_ORR; u.fd = true; u.a = 0; u.b = xn; }
            else if (k == 6 && sf == dbl) { u.kind = A_ALU; u.op = O_ORR; u.a = 0; u.b = n; }
        } else if (sf) {
            return u;
        } else if ((w & 0x7f207c00u) == 0x1e204000u) { /* one source */
            unsigned k = a64_bits(w, 20, 15);
            u.fd = true;
            u.sf = dbl;
            u.a = n;
            if (k == 0) { u.kind = A_ALU; u.op = O_ORR; u.a = 0; u.b = n; }
            else if (k == 2) { u.kind = A_ALU; u.op = O_EOR; u.b = dbl ? 1ull << 63 : 1ull << 31; }
            else if (k == 3) { u.kind = A_FUN; u.fun = 0x4000u | dbl; }
            else if (k == 4 && dbl) { u.kind = A_FUN; u.fun = 0x4010u; u.sf = false; }
            else if (k == 5 && !dbl) { u.kind = A_FUN; u.fun = 0x4011u; u.sf = true; }
        } else if ((w & 0x7f20fc1fu) == 0x1e202000u) {
            u.kind = A_FCMP; u.fun = 0x5000u | dbl; u.a = n; u.b = m;
        } else if ((w & 0x7f201fe0u) == 0x1e201000u) {
            u.kind = A_ALU; u.op = O_ORR; u.fd = true; u.sf = dbl; u.a = 0; u.b = a64_expand_imm(dbl, a64_bits(w, 20, 13));
        } else if ((w & 0x7f200c00u) == 0x1e200800u) {
            unsigned k = a64_bits(w, 15, 12);
            if (k > 3) return u;
            u.kind = A_FUN; u.fd = true; u.sf = dbl; u.fun = 0x6000u | k << 1 | dbl; u.a = n; u.b = m;
        }
    }
    return u;
}
#pragma CPROVER check pop
#endif
