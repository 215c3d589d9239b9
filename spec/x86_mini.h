/* The few x86-64 instructions that TLS/GOT rewrites are made of, executed on a
 * register file.  Independent of the linker; from the Intel SDM encodings. */
#ifndef X86_MINI_H
#define X86_MINI_H
#include <stdbool.h>
#include <stdint.h>

typedef struct {
    uint64_t r[16];
    uint64_t fsbase; /* fs:0 holds the thread pointer itself */
    uint64_t rip;    /* address of the next byte */
    int branch;      /* 0 none, 1 call, 2 jump */
    uint64_t target;
} x86_t;

static int32_t x86_i32(const uint8_t *p) {
    return (int32_t) ((uint32_t) p[0] | (uint32_t) p[1] << 8 | (uint32_t) p[2] << 16 | (uint32_t) p[3] << 24);
}

/* executes one instruction of at most n bytes; returns its length, 0 if not understood */
static unsigned x86_step(x86_t *s, const uint8_t *p, unsigned n) {
    unsigned i = 0;
    bool fs = false;
    uint8_t rex = 0;
    for (int k = 0; k < 4 && i < n; k++) {
        if (p[i] == 0x66 || p[i] == 0x67) i++;
        else if (p[i] == 0x64) { fs = true; i++; }
        else break;
    }
    if (i < n && (p[i] & 0xf0) == 0x40) rex = p[i++];
    if (i >= n) return 0;
    bool w = (rex & 8) != 0;
    unsigned rx = (rex & 4) ? 8 : 0, bx = (rex & 1) ? 8 : 0;
    uint8_t op = p[i++];
    if (op == 0x90 && bx == 0) { s->rip += i; return i; }
    if (op == 0xe8 || op == 0xe9) {
        if (n - i < 4) return 0;
        int32_t d = x86_i32(p + i);
        i += 4;
        s->rip += i;
        s->branch = op == 0xe8 ? 1 : 2;
        s->target = s->rip + (uint64_t) (int64_t) d;
        return i;
    }
    if (op == 0x05 || op == 0x2d) { /* add/sub rax, imm32 */
        if (n - i < 4 || !w) return 0;
        uint64_t d = (uint64_t) (int64_t) x86_i32(p + i);
        i += 4;
        s->r[0] = op == 0x05 ? s->r[0] + d : s->r[0] - d;
        s->rip += i;
        return i;
    }
    if (i >= n) return 0;
    uint8_t m = p[i++];
    unsigned mod = m >> 6, reg = ((m >> 3) & 7) + rx, rm = (m & 7) + bx;
    if ((op == 0x31 || op == 0x33) && mod == 3 && reg == rm) {
        s->r[reg] = 0;
        s->rip += i;
        return i;
    }
    if (op == 0xc7 && mod == 3 && (m & 0x38) == 0) {
        if (n - i < 4) return 0;
        int32_t d = x86_i32(p + i);
        i += 4;
        s->r[rm] = w ? (uint64_t) (int64_t) d : (uint64_t) (uint32_t) d;
        s->rip += i;
        return i;
    }
    if (op == 0x81 && mod == 3 && w && ((m & 0x38) == 0 || (m & 0x38) == 0x28)) {
        if (n - i < 4) return 0;
        uint64_t d = (uint64_t) (int64_t) x86_i32(p + i);
        i += 4;
        s->r[rm] = (m & 0x38) == 0 ? s->r[rm] + d : s->r[rm] - d;
        s->rip += i;
        return i;
    }
    if (op == 0x8b || op == 0x8d) {
        uint64_t ea;
        if (mod == 0 && (m & 7) == 4) {
            if (n - i < 5 || p[i] != 0x25) return 0;
            ea = (uint64_t) (int64_t) x86_i32(p + i + 1);
            i += 5;
        } else if (mod == 0 && (m & 7) == 5) {
            if (n - i < 4) return 0;
            int32_t d = x86_i32(p + i);
            i += 4;
            ea = s->rip + i + (uint64_t) (int64_t) d;
        } else if (mod == 0) {
            ea = s->r[rm];
        } else if (mod == 2 && (m & 7) != 4) {
            if (n - i < 4) return 0;
            ea = s->r[rm] + (uint64_t) (int64_t) x86_i32(p + i);
            i += 4;
        } else return 0;
        if (op == 0x8d) {
            s->r[reg] = w ? ea : (uint32_t) ea;
        } else {
            if (!fs || ea != 0 || !w) return 0;
            s->r[reg] = s->fsbase;
        }
        s->rip += i;
        return i;
    }
    return 0;
}

/* executes exactly n bytes (at most 4 instructions) */
static bool x86_run(x86_t *s, const uint8_t *p, unsigned n) {
    unsigned at = 0;
    for (int k = 0; k < 4 && at < n; k++) {
        if (s->branch) return false;
        unsigned l = x86_step(s, p + at, n - at);
        if (l == 0) return false;
        at += l;
    }
    return at == n;
}
#endif
