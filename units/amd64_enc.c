/*
 * amd64_asm_inst_encoding: for a group of instructions of the back end
 * (VF_ROWS) and every operand form they are used with, with arbitrary registers, displacements,
 * scales and immediates, the emitted bytes decode (Intel SDM) to exactly the
 * requested operation on exactly the requested operands; combinations x86-64
 * cannot represent are refused.
 */
#include "vf.h"
#include "vf_mem.h"
int vf_may_refuse;
#include <assert.h>
#include "utils/helper.h"
#include "utils/table.h"
#undef assertf
#define assertf(e, ...) assert(e)

#ifdef __CPROVER__
/* Abstractions of the utilities around the encoder: the string-keyed table is
 * a finite map; a decimal key is represented by its value.  The nodes of
 * instructions outside the group are shared. */
static char *vf_itoa(int64_t n) { return (char *) (uintptr_t) (0x10000 + (n & 0xffff)); }
#define itoa vf_itoa
#undef NEW
#define NEW(type) ({ type *vf_p = (malloc)(sizeof(type)); *vf_p = (type){0}; vf_p; })
#define dsprintf(...) ((char *) 1)
#define VF_SLOTS 24
typedef struct {
    int n;
    int key[VF_SLOTS];
    void *val[VF_SLOTS];
} vf_map_t;
static vf_map_t *vf_root, *vf_other;
static void *vf_shared;
#define VF_NAMES 12
static int vf_n_names;
static char *vf_name[VF_NAMES];
static void *vf_node[VF_NAMES];
static bool vf_in_group(const char *k);
static bool vf_streq(const char *a, const char *b) {
    for (int i = 0; i < 16; i++) {
        if (a[i] != b[i]) return false;
        if (!a[i]) return true;
    }
    return false;
}
static void vf_fits(void *node);
static void *vf_fresh_shared(void); /* the shared node, emptied */
table_t *table_new() {
    vf_map_t *m = malloc(sizeof(vf_map_t));
    m->n = 0;
    if (!vf_root) vf_root = m;
    return (table_t *) m;
}
void *table_get(table_t *t, char *k) {
    vf_map_t *m = (vf_map_t *) t;
    if (m == vf_root) {
        if (!vf_in_group(k)) return vf_fresh_shared();
        for (int i = 0; i < vf_n_names; i++)
            if (vf_streq(k, vf_name[i])) return vf_node[i];
        return NULL;
    }
    if (vf_other && m == vf_other) return vf_shared;
    int key = (int) (uintptr_t) k;
    for (int i = 0; i < m->n; i++)
        if (m->key[i] == key) {
            vf_fits(m->val[i]);
            return m->val[i];
        }
    return NULL;
}
bool table_exist(table_t *t, char *k) { return table_get(t, k) != NULL; }
bool table_set(table_t *t, char *k, void *v);
void error_exit(char *format, ...) { vf_refuse(); }
static void *vf_malloc(size_t n);
#define malloc(n) vf_malloc(n)
#else
#include "utils/table.c"
void error_exit(char *format, ...) { vf_refuse(); }
#endif

/* names of the registers of a request (for replay, and for code that looks at
 * them), and what they stand for */
static char n0_[4], n1_[4], n2_[4], n3_[4], n4_[4], n5_[4];
static char *const names[6] = {n0_, n1_, n2_, n3_, n4_, n5_};
static unsigned char name_idx[6], name_high[6];
#ifdef __CPROVER__
/* string equality; on a register name, by what the name stands for */
static bool vf_name_is(const char *a, const char *b) {
    int slot = a == names[0] ? 0 : a == names[1] ? 1 : a == names[2] ? 2 : a == names[3] ? 3 : a == names[4] ? 4 : 5;
    if (slot == 5) return vf_streq(a, b);
    if (name_high[slot]) return b[0] == "xacdb"[name_high[slot]] && b[1] == 'h';
    if (b[0] == 's' && b[1] == 'p') return name_idx[slot] == 4;
    if (b[0] == 'b' && b[1] == 'p') return name_idx[slot] == 5;
    if (b[0] == 's' && b[1] == 'i') return name_idx[slot] == 6;
    if (b[0] == 'd' && b[1] == 'i') return name_idx[slot] == 7;
    return false;
}
#define str_equal(a, b) vf_name_is(a, b)
#endif

#include "src/binary/encoding/amd64/opcode.c"

#ifdef __CPROVER__
#undef malloc
bool table_set(table_t *t, char *k, void *v) {
    vf_map_t *m = (vf_map_t *) t;
    if (m == vf_root) {
        if (vf_in_group(k)) {
            __CPROVER_assert(vf_n_names < VF_NAMES, "vf-post: map model large enough");
            vf_name[vf_n_names] = k;
            vf_node[vf_n_names++] = v;
        } else {
            vf_shared = v;
            vf_other = (vf_map_t *) ((amd64_opcode_tree_node_t *) v)->succs;
        }
        return true;
    }
    __CPROVER_assert(m->n < VF_SLOTS, "vf-post: map model large enough");
    m->key[m->n] = (int) (uintptr_t) k;
    m->val[m->n++] = v;
    return true;
}
static void *vf_fresh_shared(void) {
    if (vf_shared) ((amd64_opcode_tree_node_t *) vf_shared)->insts.count = 0;
    return vf_shared;
}
static bool vf_encoding;
#define VF_CANDIDATES 6
static void vf_fits(void *node) {
    __CPROVER_assert(((amd64_opcode_tree_node_t *) node)->insts.count <= VF_CANDIDATES, "vf-post: candidate list model large enough");
}
static void *vf_malloc(size_t n) {
    if (n == sizeof(amd64_opcode_inst_t) * 10)
        return vf_encoding ? malloc(sizeof(amd64_opcode_inst_t *) * VF_CANDIDATES) : malloc(sizeof(amd64_opcode_inst_t *) * 60);
    return malloc(sizeof(uint16_t) * 5);
}
#endif
#include "spec/x86_dec.h"

enum { P_END, P_RM8, P_RM16, P_RM32, P_RM64, P_R8, P_R16, P_R32, P_R64, P_R64Z, P_CL, P_I8, P_I16, P_I32, P_I32U, P_I64,
       P_M, P_M128, P_M8, P_M16, P_M32, P_M64, P_X32, P_X64, P_XM32, P_XM64, P_SEG };
/* addressing: (base), base+disp, base+index*scale+disp, base+disp with a SIB
 * byte, index*scale+disp, absolute, rip-relative, and a register */
enum { A_IND, A_DISP, A_SIB, A_SIBNI, A_SIBNB, A_ABS, A_RIP, A_REG, A_COUNT };
typedef struct {
    char *name;
    uint8_t op, cc;
    uint8_t p[3];
    uint8_t full; /* every addressing form; else register and base+disp */
} row_t;
#define X_XCOPY 0xf0 /* any register-to-register copy of the low part */
#ifndef VF_ALL_FORMS
#define VF_ALL_FORMS 0
#endif
static const row_t rows[] = {VF_ROWS};
#define NROWS (sizeof rows / sizeof rows[0])
#ifdef __CPROVER__
static bool vf_in_group(const char *k) {
    static char *const group[] = {VF_GROUP};
    for (unsigned i = 0; i < sizeof group / sizeof group[0]; i++)
        if (vf_streq(k, group[i])) return true;
    return false;
}
#endif
static bool is_rm(int p) { return (p >= P_RM8 && p <= P_RM64) || (p >= P_M && p <= P_M64) || p == P_XM32 || p == P_XM64; }
static bool is_freg(int p) { return p == P_X32 || p == P_X64 || p == P_XM32 || p == P_XM64; }
static unsigned p_size(int p) {
    switch (p) {
        case P_RM8: case P_R8: case P_CL: case P_I8: case P_M8: return 1;
        case P_RM16: case P_R16: case P_I16: case P_M16: return 2;
        case P_RM32: case P_R32: case P_I32: case P_M32: case P_X32: case P_XM32: return 4;
        default: return 8;
    }
}

/* storage of one request: operands, their values, registers and names */
static amd64_asm_operand_t opnd[3];
static reg_t regs_[6];
static asm_disp_reg_t v_disp;
static asm_indirect_reg_t v_ind;
static asm_sib_reg_t v_sib;
static asm_rip_relative_t v_rip;
static asm_seg_offset_t v_seg;
static asm_uint8_t v_u8;
static asm_uint16_t v_u16;
static asm_uint32_t v_u32;
static asm_uint64_t v_u64;

static bool any_high, any_rex;

/* high: 0 an ordinary register, 1..4 ah ch dh bh */
static reg_t *reg(int slot, unsigned size, bool fl, unsigned high, x86_opnd_t *want) {
    unsigned idx = vf_u64() & 15;
    char *n = names[slot];
    n[0] = 'r', n[1] = 'x', n[2] = 'x', n[3] = 0;
    if (high) {
        idx = 3 + high;
        n[0] = "xacdb"[high], n[1] = 'h', n[2] = 0;
        any_high = true;
    } else if (size == 1 && !fl && idx >= 4 && idx < 8) {
        n[0] = idx == 4 || idx == 6 ? 's' : idx == 5 ? 'b' : 'd';
        n[1] = idx <= 5 ? 'p' : 'i', n[2] = 'l';
        any_rex = true;
    }
    if (idx >= 8) any_rex = true;
    name_idx[slot] = high || size > 1 || fl ? 0 : idx;
    name_high[slot] = high;
    reg_t *r = &regs_[slot];
    r->name = n;
    r->index = idx;
    r->size = size;
    want->kind = fl ? K_XMM : high ? K_HIGH8 : K_GPR;
    want->reg = high ? idx - 4 : idx;
    return r;
}

static bool same(const x86_opnd_t *a, const x86_opnd_t *w, bool any_size) {
    if (a->kind != w->kind) return false;
    if (w->kind == K_CL) return true;
    if (!any_size && a->size != w->size) return false;
    if (w->kind == K_IMM) return a->imm == w->imm;
    if (w->kind == K_RIP) return a->disp == w->disp;
    if (w->kind == K_MEM)
        return a->base == w->base && a->index == w->index && a->scale == w->scale && a->seg == w->seg && a->disp == w->disp;
    return a->reg == w->reg;
}

/* a decoded instruction that does what the form asks for */
static bool meets(const x86_inst_t *d, const x86_inst_t *want, const row_t *r) {
    if (d->n != want->n) return false;
    bool any_size = false;
    if (r->op == X_XCOPY) {
        if (d->op != X_XMOV && d->op != X_XMOVA && d->op != (want->o[0].size == 8 ? X_MOVSD : X_MOVSS)) return false;
        any_size = true;
    } else {
        if (d->op != r->op) return false;
        any_size = r->op == X_XXOR || r->op == X_LEA;
    }
    if (d->cc != r->cc) return false;
    if (r->op == X_LEA && d->o[0].size != want->o[0].size) return false;
    for (int i = 0; i < 3; i++)
        if (i < want->n && !same(&d->o[i], &want->o[i], any_size && d->o[i].kind != K_IMM)) return false;
    return true;
}

static void one(unsigned f, unsigned a, unsigned h0, unsigned h1) {
    amd64_asm_inst_t in = {0};
    x86_inst_t want = {0};
    bool w64 = false, bad_index = false;
    in.name = rows[f].name;
    any_high = any_rex = false;
    for (int i = 0; i < 3; i++) {
        int p = rows[f].p[i];
        if (p == P_END) break;
        x86_opnd_t *w = &want.o[i];
        w->base = w->index = 0xff;
        w->scale = 1;
        w->size = p == P_R64Z ? 4 : p == P_M128 || rows[f].op == X_XMOV ? 16 : p_size(p);
        amd64_asm_operand_t *o = &opnd[i];
        o->size = p_size(p);
        in.operands[i] = o;
        in.count++;
        want.n++;
        if (p >= P_I8 && p <= P_I64) {
            uint64_t v = vf_u64();
            w->kind = K_IMM;
            if (p == P_I8) o->type = AMD64_ASM_OPERAND_TYPE_UINT8, o->value = &v_u8, v_u8.value = v, w->imm = (uint8_t) v;
            if (p == P_I16) o->type = AMD64_ASM_OPERAND_TYPE_UINT16, o->value = &v_u16, v_u16.value = v, w->imm = (uint16_t) v;
            if (p == P_I32) o->type = AMD64_ASM_OPERAND_TYPE_UINT32, o->value = &v_u32, v_u32.value = v, w->imm = (uint32_t) v;
            if (p == P_I32U) o->type = AMD64_ASM_OPERAND_TYPE_UINT, o->value = &v_u32, v_u32.value = v, w->imm = (uint32_t) v, w->size = 4;
            if (p == P_I64) o->type = AMD64_ASM_OPERAND_TYPE_UINT64, o->value = &v_u64, v_u64.value = v, w->imm = v;
        } else if (p == P_CL) {
            reg_t *r = &regs_[i];
            r->name = names[i], r->index = 1, r->size = 1;
            names[i][0] = 'c', names[i][1] = 'l', names[i][2] = 0;
            name_idx[i] = 1, name_high[i] = 0;
            o->type = AMD64_ASM_OPERAND_TYPE_REG, o->value = r;
            w->kind = K_CL;
        } else if (p == P_SEG) {
            bool gs = vf_u64() & 1;
            o->type = AMD64_ASM_OPERAND_TYPE_SEG_OFFSET, o->value = &v_seg;
            v_seg.name = n5_, n5_[0] = gs ? 'g' : 'f', n5_[1] = 's', n5_[2] = 0;
            v_seg.offset = (int32_t) vf_u64();
            w->kind = K_MEM, w->seg = gs ? 0x65 : 0x64, w->disp = v_seg.offset;
        } else if (is_rm(p) && a != A_REG) {
            x86_opnd_t rw = {0};
            w->kind = a == A_RIP ? K_RIP : K_MEM;
            if (a == A_IND) {
                o->type = AMD64_ASM_OPERAND_TYPE_INDIRECT_REG, o->value = &v_ind;
                v_ind.reg = reg(3, 8, false, 0, &rw);
                w->base = rw.reg;
            } else if (a == A_DISP) {
                o->type = AMD64_ASM_OPERAND_TYPE_DISP_REG, o->value = &v_disp;
                v_disp.reg = reg(3, 8, false, 0, &rw);
                w->disp = v_disp.disp = (int32_t) vf_u64();
                w->base = rw.reg;
            } else if (a == A_RIP) {
                o->type = AMD64_ASM_OPERAND_TYPE_RIP_RELATIVE, o->value = &v_rip;
                w->disp = v_rip.disp = (int32_t) vf_u64();
            } else {
                o->type = AMD64_ASM_OPERAND_TYPE_SIB_REG, o->value = &v_sib;
                v_sib.base = NULL;
                if (a == A_SIB || a == A_SIBNI) {
                    v_sib.base = reg(3, 8, false, 0, &rw);
                    w->base = rw.reg;
                }
                v_sib.index = NULL;
                v_sib.scale = 0;
                if (a == A_SIB || a == A_SIBNB) {
                    x86_opnd_t iw = {0};
                    v_sib.index = reg(4, 8, false, 0, &iw);
                    v_sib.scale = 1 << (vf_u64() & 3);
                    w->index = iw.reg;
                    w->scale = v_sib.scale;
                    bad_index = iw.reg == 4; /* rsp cannot be an index */
                }
                w->disp = v_sib.disp = (int32_t) vf_u64();
            }
        } else {
            bool fl = is_freg(p);
            o->type = fl ? AMD64_ASM_OPERAND_TYPE_FREG : AMD64_ASM_OPERAND_TYPE_REG;
            o->value = reg(i, o->size, fl, o->size == 1 ? (i == 0 ? h0 : h1) : 0, w);
            if (!fl && o->size == 8 && p != P_R64Z) w64 = true;
        }
    }
    vf_may_refuse = (any_high && (any_rex || w64)) || bad_index;

    uint8_t buf[24];
    for (int i = 0; i < 24; i++) buf[i] = 0xcc;
    uint8_t count = 0;
    amd64_asm_inst_encoding(in, buf, &count, NULL);

    x86_inst_t d = {0};
    unsigned len = x86_decode(buf, &d);
    VF_CHECK(len != 0, "the bytes are a valid instruction");
    VF_CHECK(len == count, "the reported length is the length of the instruction");
    VF_CHECK(meets(&d, &want, &rows[f]), "the bytes are the requested operation on the requested operands");
    for (int i = 0; i < 24; i++) VF_CHECK(i < count || buf[i] == 0xcc, "nothing is written past the instruction");
    VF_REACH(true, "some request is encoded");
}

static bool byte_reg(int p, unsigned a) { return p == P_R8 || (p == P_RM8 && a == A_REG); }

void vf_harness(void) {
    amd64_opcode_init();
#ifdef __CPROVER__
    vf_encoding = true;
#endif
    unsigned sel = vf_u64() & 0x3ff, k = 0;
    for (unsigned f = 0; f < NROWS; f++) {
        bool mem = false, reg_ok = true;
        for (int i = 0; i < 3; i++) {
            if (is_rm(rows[f].p[i])) mem = true;
            if (rows[f].p[i] >= P_M && rows[f].p[i] <= P_M64) reg_ok = false;
        }
        for (unsigned a = 0; a < A_COUNT; a++) {
            if (a == A_REG ? !reg_ok : !mem) continue;
            if (!VF_ALL_FORMS && !rows[f].full && a != A_REG && a != A_DISP) continue;
            /* byte registers: ordinary, or each of ah ch dh bh */
            unsigned n0 = byte_reg(rows[f].p[0], a) ? 5 : 1, n1 = byte_reg(rows[f].p[1], a) ? 5 : 1;
            for (unsigned h = 0; h < n0 * n1; h++) {
                if (sel == k) one(f, a, h % n0, h / n0);
                k++;
            }
        }
    }
}
