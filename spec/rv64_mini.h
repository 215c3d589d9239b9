/*
 * RV64GC subset, written from the ISA manual (unprivileged spec 20191213).
 * An instruction (16- or 32-bit) is decoded into a micro-operation, which
 * rv_exec() executes on an abstract machine. Multiplication, division and
 * floating-point arithmetic are kept symbolic (uninterpreted functions of
 * operation, rounding mode and operand values): an encoder is right about
 * them iff operation and operands are right.
 */
#ifndef RV64_MINI_H
#define RV64_MINI_H
#include <stdbool.h>
#include <stdint.h>

enum { RV_K_ILL, RV_K_ALU, RV_K_LD, RV_K_ST, RV_K_JMP, RV_K_BR, RV_K_ECALL,
       RV_K_FUN /* x[rd] or f[rd] = uninterpreted */, RV_K_SGNJ, RV_K_FMV };

typedef struct {
    uint8_t kind, f7, f3;
    bool w;        /* 32-bit ALU operation */
    bool fd;       /* destination is a floating-point register */
    bool dbl;      /* double precision */
    uint8_t rd;
    uint64_t a, b; /* operand values (for LD/ST/JMP the address is a+b) */
    uint64_t t;    /* store value, or branch/jump displacement */
    uint32_t fun;  /* which uninterpreted function */
    uint8_t post;  /* FUN result: 0 as is, 1 bit 0, 2 sign-extend 32, 3 nan-box */
} rv_uop_t;

typedef struct {
    uint64_t x[32], f[32], pc;
    uint8_t mkind; /* 0 none, 1 load, 2 store, 3 environment call */
    uint8_t msize;
    uint64_t maddr, mval;
    bool illegal;
} rv_t;

#pragma CPROVER check push
#pragma CPROVER check disable "bounds"
#pragma CPROVER check disable "pointer"
#ifdef __CPROVER__
uint64_t __CPROVER_uninterpreted_rv_fun(uint32_t op, uint64_t a, uint64_t b);
uint64_t __CPROVER_uninterpreted_rv_mem(uint64_t addr, uint8_t size);
#define rv_fun __CPROVER_uninterpreted_rv_fun
#define rv_mem __CPROVER_uninterpreted_rv_mem
#else
static uint64_t rv_fun(uint32_t op, uint64_t a, uint64_t b) {
    uint64_t h = op * 0x9e3779b97f4a7c15ull;
    h = (h ^ a) * 0xff51afd7ed558ccdull; h ^= h >> 29;
    h = (h ^ b) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31;
    return h;
}
static uint64_t rv_mem(uint64_t a, uint8_t s) { return rv_fun(0xfeed0000u + s, a, a); }
#endif

static inline int64_t rv_sx(uint64_t v, int bits) { return (int64_t) (v << (64 - bits)) >> (64 - bits); }
static inline uint32_t rv_bits(uint32_t w, int hi, int lo) { return (w >> lo) & ((1u << (hi - lo + 1)) - 1u); }
static inline uint64_t rv_box(uint64_t v) { return (v & 0xffffffffu) | 0xffffffff00000000ull; }
static inline uint32_t rv_unbox(uint64_t v) { return (v >> 32) == 0xffffffffu ? (uint32_t) v : 0x7fc00000u; }

/* f7: 0 base, 0x20 alternate (sub, sra) */
static uint64_t rv_alu(bool w, bool alt, unsigned f3, uint64_t a, uint64_t b) {
    unsigned sh = (unsigned) (b & (w ? 31 : 63));
    uint64_t r = 0;
    switch (f3) {
        case 0: r = alt ? a - b : a + b; break;
        case 1: r = a << sh; break;
        case 2: r = (int64_t) a < (int64_t) b; break;
        case 3: r = a < b; break;
        case 4: r = a ^ b; break;
        case 5: {
            uint64_t av = w ? (alt ? (uint64_t) rv_sx(a, 32) : (uint32_t) a) : a;
            r = alt ? (uint64_t) ((int64_t) av >> sh) : av >> sh;
            break;
        }
        case 6: r = a | b; break;
        default: r = a & b; break;
    }
    return w ? (uint64_t) rv_sx(r, 32) : r;
}

/* length of the instruction in bytes advances the pc */
static void rv_exec(rv_t *s, const rv_uop_t *u, unsigned len) {
    uint64_t next = s->pc + len, v = 0;
    bool wr = false;
    unsigned n = 1u << (u->f3 & 3);
    s->mkind = 0;
    switch (u->kind) {
        case RV_K_ALU:
            wr = true;
            v = rv_alu(u->w, u->f7 == 0x20, u->f3, u->a, u->b);
            break;
        case RV_K_LD:
            wr = true;
            s->mkind = 1; s->msize = (uint8_t) n; s->maddr = u->a + u->b; s->mval = 0;
            v = rv_mem(s->maddr, (uint8_t) n);
            if (n < 8) v = (u->f3 & 4) ? v & ((1ull << (8 * n)) - 1) : (uint64_t) rv_sx(v, (int) (8 * n));
            if (u->fd && n == 4) v = rv_box(v);
            break;
        case RV_K_ST:
            s->mkind = 2; s->msize = (uint8_t) n; s->maddr = u->a + u->b;
            s->mval = n == 8 ? u->t : u->t & ((1ull << (8 * n)) - 1);
            break;
        case RV_K_JMP: wr = true; v = next; next = (u->a + u->b) & ~1ull; break;
        case RV_K_BR: {
            bool t = (u->f3 >> 1) == 0 ? u->a == u->b : (u->f3 >> 1) == 2 ? (int64_t) u->a < (int64_t) u->b : u->a < u->b;
            if (t != (bool) (u->f3 & 1)) next = s->pc + u->t;
            break;
        }
        case RV_K_ECALL: s->mkind = 3; break;
        case RV_K_FUN: {
            uint64_t r = rv_fun(u->fun, u->a, u->b);
            wr = true;
            v = u->post == 1 ? r & 1 : u->post == 2 ? (uint64_t) rv_sx(r, 32) : u->post == 3 ? rv_box(r) : r;
            break;
        }
        case RV_K_SGNJ: {
            uint64_t g = u->dbl ? 1ull << 63 : 1ull << 31;
            uint64_t r = (u->a & ~g) | ((u->f3 == 0 ? u->b : u->f3 == 1 ? ~u->b : u->a ^ u->b) & g);
            wr = true;
            v = u->dbl ? r : rv_box(r);
            break;
        }
        case RV_K_FMV: wr = true; v = u->dbl ? u->a : (uint64_t) rv_sx(u->a, 32); break;
        default: s->illegal = true;
    }
    if (wr && u->fd) s->f[u->rd & 31] = v;
    if (wr && !u->fd && u->rd != 0) s->x[u->rd & 31] = v;
    s->pc = next;
}

static inline bool rv_rm_ok(unsigned rm) { return rm <= 4 || rm == 7; }

static rv_uop_t rv_dec32(const rv_t *s, uint32_t w) {
    rv_uop_t u = {0};
    unsigned op = w & 0x7f, rd = rv_bits(w, 11, 7), f3 = rv_bits(w, 14, 12), rs1 = rv_bits(w, 19, 15),
             rs2 = rv_bits(w, 24, 20), f7 = rv_bits(w, 31, 25);
    uint64_t ii = (uint64_t) rv_sx(w >> 20, 12);
    uint64_t is = (uint64_t) rv_sx((uint64_t) (f7 << 5 | rd), 12);
    uint64_t iu = (uint64_t) rv_sx(w & 0xfffff000u, 32);
    uint64_t ib = (uint64_t) rv_sx((uint64_t) (rv_bits(w, 31, 31) << 12 | rv_bits(w, 7, 7) << 11 | rv_bits(w, 30, 25) << 5 | rv_bits(w, 11, 8) << 1), 13);
    uint64_t ij = (uint64_t) rv_sx((uint64_t) (rv_bits(w, 31, 31) << 20 | rv_bits(w, 19, 12) << 12 | rv_bits(w, 20, 20) << 11 | rv_bits(w, 30, 21) << 1), 21);
    uint64_t fa = s->f[rs1], fb = s->f[rs2];
    u.rd = (uint8_t) rd;
    u.f3 = (uint8_t) f3;
    u.a = s->x[rs1];
    u.b = s->x[rs2];
    switch (op) {
        case 0x33: case 0x3b:
            u.w = op == 0x3b;
            if (f7 == 1) {
                if (u.w && f3 >= 1 && f3 <= 3) break;
                u.kind = RV_K_FUN;
                u.fun = 0x100u | (u.w ? 8u : 0u) | f3;
            } else if (f7 == 0 || (f7 == 0x20 && (f3 == 0 || f3 == 5))) {
                if (u.w && f3 != 0 && f3 != 1 && f3 != 5) break;
                u.kind = RV_K_ALU;
                u.f7 = (uint8_t) f7;
            }
            break;
        case 0x13:
            u.b = ii;
            if (f3 == 1) {
                if (f7 >> 1) break;
                u.b = ii & 63;
            } else if (f3 == 5) {
                if ((f7 >> 1) != 0 && (f7 >> 1) != 0x10) break;
                u.f7 = (f7 >> 1) ? 0x20 : 0;
                u.b = ii & 63;
            }
            u.kind = RV_K_ALU;
            break;
        case 0x1b:
            u.w = true;
            u.b = f3 == 0 ? ii : rs2;
            if (f3 == 1) { if (f7) break; }
            else if (f3 == 5) { if (f7 != 0 && f7 != 0x20) break; u.f7 = (uint8_t) f7; }
            else if (f3 != 0) break;
            u.kind = RV_K_ALU;
            break;
        case 0x03: if (f3 == 7) break; u.kind = RV_K_LD; u.b = ii; break;
        case 0x23: if (f3 > 3) break; u.kind = RV_K_ST; u.t = u.b; u.b = is; break;
        case 0x37: u.kind = RV_K_ALU; u.f3 = 0; u.a = 0; u.b = iu; break;
        case 0x17: u.kind = RV_K_ALU; u.f3 = 0; u.a = s->pc; u.b = iu; break;
        case 0x6f: u.kind = RV_K_JMP; u.a = s->pc; u.b = ij; break;
        case 0x67: if (f3) break; u.kind = RV_K_JMP; u.b = ii; break;
        case 0x63: if (f3 == 2 || f3 == 3) break; u.kind = RV_K_BR; u.t = ib; break;
        case 0x73: if (w == 0x73u) u.kind = RV_K_ECALL; break;
        case 0x07: if (f3 != 2 && f3 != 3) break; u.kind = RV_K_LD; u.fd = true; u.b = ii; break;
        case 0x27: if (f3 != 2 && f3 != 3) break; u.kind = RV_K_ST; u.t = fb; u.b = is; break;
        case 0x53: {
            unsigned k = f7 >> 2;
            uint64_t xa = u.a;
            u.dbl = (f7 & 1) != 0;
            if (f7 & 2) break;
            u.a = u.dbl ? fa : rv_unbox(fa);
            u.b = u.dbl ? fb : rv_unbox(fb);
            u.fd = true;
            u.post = u.dbl ? 0 : 3;
            if (k <= 3 || k == 0x0b) {
                if (!rv_rm_ok(f3) || (k == 0x0b && rs2)) break;
                if (k == 0x0b) u.b = 0;
                u.fun = 0x1000u | k << 4 | (unsigned) u.dbl << 3 | f3;
                u.kind = RV_K_FUN;
            } else if (k == 4) {
                if (f3 <= 2) u.kind = RV_K_SGNJ;
            } else if (k == 0x14) {
                if (f3 > 2) break;
                u.fun = 0x2000u | (unsigned) u.dbl << 3 | f3;
                u.fd = false;
                u.post = 1;
                u.kind = RV_K_FUN;
            } else if (k == 0x18) { /* float -> int; 32-bit results are sign-extended */
                if (rs2 > 3 || !rv_rm_ok(f3)) break;
                u.fun = 0x3000u | rs2 << 4 | (unsigned) u.dbl << 3 | f3;
                u.fd = false;
                u.b = 0;
                u.post = rs2 < 2 ? 2 : 0;
                u.kind = RV_K_FUN;
            } else if (k == 0x1a) { /* int -> float; exact for 32-bit sources to double */
                if (rs2 > 3 || !rv_rm_ok(f3)) break;
                u.fun = 0x4000u | rs2 << 4 | (unsigned) u.dbl << 3 | (u.dbl && rs2 < 2 ? 0 : f3);
                u.a = rs2 < 2 ? (uint32_t) xa : xa;
                u.b = 0;
                u.kind = RV_K_FUN;
            } else if (k == 8) { /* fcvt.s.d (rs2=1, S) and fcvt.d.s (rs2=0, D, exact) */
                if (!rv_rm_ok(f3)) break;
                u.b = 0;
                if (!u.dbl && rs2 == 1) { u.fun = 0x5000u | f3; u.a = fa; u.kind = RV_K_FUN; }
                else if (u.dbl && rs2 == 0) { u.fun = 0x5010u; u.a = rv_unbox(fa); u.kind = RV_K_FUN; }
            } else if (k == 0x1c) {
                if (f3 || rs2) break;
                u.fd = false;
                u.a = fa;
                u.kind = RV_K_FMV;
            }
            break;
        }
        default: break;
    }
    return u;
}

static rv_uop_t rv_dec16(const rv_t *s, uint32_t w) {
    rv_uop_t u = {0};
    unsigned q = w & 3, f3 = rv_bits(w, 15, 13), r1 = rv_bits(w, 11, 7), r2 = rv_bits(w, 6, 2);
    unsigned p1 = 8 + rv_bits(w, 9, 7), p2 = 8 + rv_bits(w, 4, 2);
    uint64_t i6 = (uint64_t) rv_sx((uint64_t) (rv_bits(w, 12, 12) << 5 | r2), 6);
    unsigned u6 = rv_bits(w, 12, 12) << 5 | r2;
    uint64_t odw = rv_bits(w, 12, 10) << 3 | rv_bits(w, 6, 5) << 6;
    uint64_t oww = rv_bits(w, 12, 10) << 3 | rv_bits(w, 6, 6) << 2 | rv_bits(w, 5, 5) << 6;
    uint64_t lsp = rv_bits(w, 12, 12) << 5 | rv_bits(w, 6, 5) << 3 | rv_bits(w, 4, 2) << 6;
    uint64_t lspw = rv_bits(w, 12, 12) << 5 | rv_bits(w, 6, 4) << 2 | rv_bits(w, 3, 2) << 6;
    uint64_t ssp = rv_bits(w, 12, 10) << 3 | rv_bits(w, 9, 7) << 6;
    uint64_t sspw = rv_bits(w, 12, 9) << 2 | rv_bits(w, 8, 7) << 6;
    uint64_t xp1 = s->x[p1], xp2 = s->x[p2], xr1 = s->x[r1], xr2 = s->x[r2], sp = s->x[2], fp2 = s->f[p2], fr2 = s->f[r2];
    if (q == 0) {
        u.rd = (uint8_t) p2;
        u.a = xp1;
        switch (f3) {
            case 0:
                u.a = sp;
                u.b = rv_bits(w, 12, 11) << 4 | rv_bits(w, 10, 7) << 6 | rv_bits(w, 6, 6) << 2 | rv_bits(w, 5, 5) << 3;
                if (u.b) u.kind = RV_K_ALU;
                break;
            case 1: u.kind = RV_K_LD; u.fd = true; u.f3 = 3; u.b = odw; break;
            case 2: u.kind = RV_K_LD; u.f3 = 2; u.b = oww; break;
            case 3: u.kind = RV_K_LD; u.f3 = 3; u.b = odw; break;
            case 5: u.kind = RV_K_ST; u.f3 = 3; u.b = odw; u.t = fp2; break;
            case 6: u.kind = RV_K_ST; u.f3 = 2; u.b = oww; u.t = xp2; break;
            case 7: u.kind = RV_K_ST; u.f3 = 3; u.b = odw; u.t = xp2; break;
            default: break;
        }
    } else if (q == 1) {
        u.rd = (uint8_t) r1;
        switch (f3) {
            case 0: u.kind = RV_K_ALU; u.a = xr1; u.b = i6; break; /* r1==0 or imm==0: hint */
            case 1: if (!r1) break; u.kind = RV_K_ALU; u.w = true; u.a = xr1; u.b = i6; break;
            case 2: u.kind = RV_K_ALU; u.b = i6; break;
            case 3:
                if (r1 == 2) {
                    u.b = (uint64_t) rv_sx((uint64_t) (rv_bits(w, 12, 12) << 9 | rv_bits(w, 6, 6) << 4 | rv_bits(w, 5, 5) << 6 | rv_bits(w, 4, 3) << 7 | rv_bits(w, 2, 2) << 5), 10);
                    u.a = sp;
                    if (u.b) u.kind = RV_K_ALU;
                } else if (i6) {
                    u.kind = RV_K_ALU;
                    u.b = i6 << 12;
                }
                break;
            case 4: {
                unsigned k = rv_bits(w, 11, 10), k2 = rv_bits(w, 6, 5);
                u.rd = (uint8_t) p1;
                u.a = xp1;
                u.kind = RV_K_ALU;
                if (k == 0) { u.f3 = 5; u.b = u6; }
                else if (k == 1) { u.f3 = 5; u.f7 = 0x20; u.b = u6; }
                else if (k == 2) { u.f3 = 7; u.b = i6; }
                else {
                    u.b = xp2;
                    u.w = rv_bits(w, 12, 12) != 0;
                    if (!u.w) {
                        if (k2 == 0) u.f7 = 0x20;
                        else u.f3 = k2 == 1 ? 4 : k2 == 2 ? 6 : 7;
                    } else if (k2 == 0) u.f7 = 0x20;
                    else if (k2 != 1) u.kind = RV_K_ILL;
                }
                break;
            }
            case 5:
                u.kind = RV_K_JMP;
                u.rd = 0;
                u.a = s->pc;
                u.b = (uint64_t) rv_sx((uint64_t) (rv_bits(w, 12, 12) << 11 | rv_bits(w, 11, 11) << 4 | rv_bits(w, 10, 9) << 8 | rv_bits(w, 8, 8) << 10 |
                    rv_bits(w, 7, 7) << 6 | rv_bits(w, 6, 6) << 7 | rv_bits(w, 5, 3) << 1 | rv_bits(w, 2, 2) << 5), 12);
                break;
            default:
                u.kind = RV_K_BR;
                u.f3 = f3 == 6 ? 0 : 1;
                u.a = xp1;
                u.t = (uint64_t) rv_sx((uint64_t) (rv_bits(w, 12, 12) << 8 | rv_bits(w, 11, 10) << 3 | rv_bits(w, 6, 5) << 6 | rv_bits(w, 4, 3) << 1 | rv_bits(w, 2, 2) << 5), 9);
        }
    } else {
        u.rd = (uint8_t) r1;
        switch (f3) {
            case 0: u.kind = RV_K_ALU; u.f3 = 1; u.a = xr1; u.b = u6; break;
            case 1: u.kind = RV_K_LD; u.fd = true; u.f3 = 3; u.a = sp; u.b = lsp; break;
            case 2: if (!r1) break; u.kind = RV_K_LD; u.f3 = 2; u.a = sp; u.b = lspw; break;
            case 3: if (!r1) break; u.kind = RV_K_LD; u.f3 = 3; u.a = sp; u.b = lsp; break;
            case 4:
                if (r2 == 0) {
                    if (!r1) break; /* reserved / ebreak */
                    u.kind = RV_K_JMP;
                    u.a = xr1;
                    u.rd = (uint8_t) rv_bits(w, 12, 12);
                } else {
                    u.kind = RV_K_ALU;
                    u.a = rv_bits(w, 12, 12) ? xr1 : 0;
                    u.b = xr2;
                }
                break;
            case 5: u.kind = RV_K_ST; u.f3 = 3; u.a = sp; u.b = ssp; u.t = fr2; break;
            case 6: u.kind = RV_K_ST; u.f3 = 2; u.a = sp; u.b = sspw; u.t = xr2; break;
            default: u.kind = RV_K_ST; u.f3 = 3; u.a = sp; u.b = ssp; u.t = xr2;
        }
    }
    return u;
}

/* run the bytes [0,n) placed at s->pc as straight-line code; at most max
 * instructions; control may leave only through the last one */
static bool rv_run(rv_t *s, const uint8_t *p, unsigned n, unsigned max) {
    uint64_t base = s->pc;
    unsigned i = 0;
    for (unsigned k = 0; k < max; k++) {
        if (i >= n) break;
        if (s->pc != base + i || i + 2 > n) { s->illegal = true; break; }
        uint32_t lo = p[i] | (uint32_t) p[i + 1] << 8;
        bool c = (lo & 3) != 3;
        if (!c && i + 4 > n) { s->illegal = true; break; }
        uint32_t hi = c ? 0 : p[i + 2] | (uint32_t) p[i + 3] << 8;
        rv_uop_t u = c ? rv_dec16(s, lo) : rv_dec32(s, lo | hi << 16);
#ifdef RV_ONLY_ALU_TO /* stricter: every instruction is an integer operation on this register */
        if (u.kind != RV_K_ALU || u.fd || u.rd != (RV_ONLY_ALU_TO)) { s->illegal = true; break; }
        if (u.rd != 0) s->x[u.rd] = rv_alu(u.w, u.f7 == 0x20, u.f3, u.a, u.b);
        s->pc += c ? 2 : 4;
#else
        rv_exec(s, &u, c ? 2 : 4);
#endif
        i += c ? 2 : 4;
    }
    return i == n && !s->illegal;
}
#pragma CPROVER check pop
#endif
