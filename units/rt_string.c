/* C08: string operations of runtime/nutils/string.c.
 *
 * Creation and concatenation: symbolic lengths up to 2^32 bytes, contents
 * checked at an arbitrary witness byte.  Comparisons: arbitrary bytes for lengths
 * up to VF_CMP, and lengths up to 2^32 bytes with an arbitrary position of the
 * first difference on top of the C standard's contract of memcmp. */
#include "vf.h"
#include <string.h>
#ifdef __CPROVER__
#if VF_OP == OP_COMPARE || VF_OP == OP_POOL
#include "vf_mem.h"
#else
void *memmove(void *d, const void *s, size_t n) {
    if (n > 0) {
        __CPROVER_assert(__CPROVER_r_ok(s, n), "memmove source readable");
        __CPROVER_assert(__CPROVER_w_ok(d, n), "memmove destination writable");
        char tmp[n];
        __CPROVER_array_copy(tmp, (char *) s);
        __CPROVER_array_replace((char *) d, tmp);
    }
    return d;
}
void *memcpy(void *d, const void *s, size_t n) { return memmove(d, s, n); }
#if VF_OP == OP_COMPAREN
/* The contract of memcmp for two strings that first differ at vf_k: zero up to
 * there, the sign of the unsigned difference behind it. */
static size_t vf_k;
int memcmp(const void *a, const void *b, size_t n) {
    if (n == 0) return 0;
    __CPROVER_assert(__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n), "memcmp operands readable");
    __CPROVER_assert(__CPROVER_POINTER_OFFSET(a) == 0 && __CPROVER_POINTER_OFFSET(b) == 0, "memcmp starts at the first byte");
    if (n <= vf_k) return 0;
    return (int) ((const unsigned char *) a)[vf_k] - (int) ((const unsigned char *) b)[vf_k];
}
#endif
#endif
#endif
#include "runtime/nutils/nutils.h"
#include "runtime/memory.h"
#undef assertf
#define assertf(e, ...) assert(e)

#ifndef VF_MAXLEN
#define VF_MAXLEN (1ll << 32)
#endif
#define VF_CMP 3
int vf_may_refuse;
rtype_t string_element_rtype, string_rtype;
void *rti_gc_malloc(uint64_t size, rtype_t *rtype) {
    (void) rtype;
    return (calloc)(size, 1);
}
/* a pool of one entry whose key and value are arbitrary strings */
static n_string_t vf_pool;
static bool vf_pooled;
static char vf_pool_key[VF_CMP + 1];
static int vf_puts;
static void *vf_pool_get(const char *key) {
    if (!vf_pooled) return 0;
    for (int i = 0; i < VF_CMP + 1; i++) {
        if (key[i] != vf_pool_key[i]) return 0;
        if (key[i] == 0) break;
    }
    return &vf_pool;
}
static n_string_t *vf_put_val;
static const char *vf_put_key;
#define sc_map_get_sv(m, k) vf_pool_get(k)
#define sc_map_put_sv(m, k, v) (vf_puts++, vf_put_key = (k), vf_put_val = (v))
#undef mutex_lock
#undef mutex_unlock
#define mutex_lock(x) ((void) 0)
#define mutex_unlock(x) ((void) 0)
#include "runtime/nutils/string.c"

static void str_any(n_string_t *v, int64_t maxlen) {
    int64_t len = vf_i64();
    VF_ASSUME(len >= 0 && len <= maxlen);
    v->capacity = len + 1;
    v->length = len;
    v->element_size = 1;
    v->hash = 7;
    v->allocator = 0;
    v->data = (malloc)((size_t) len + 1);
}
#define SAME_HEADER(a, b)                                                                            \
    ((a).data == (b).data && (a).length == (b).length && (a).capacity == (b).capacity &&             \
     (a).element_size == (b).element_size && (a).hash == (b).hash)
#define WELL_FORMED(r) ((r).capacity == (r).length + 1 && (r).element_size == 1 && (r).hash == 7 && (r).data[(r).length] == 0)

void vf_harness(void) {
    string_element_rtype = (rtype_t){.kind = TYPE_UINT8, .storage_size = 1, .gc_heap_size = 1, .hash = 2, .malloc_gc_bits_offset = -1};
    string_rtype = (rtype_t){.kind = TYPE_STRING, .storage_size = sizeof(n_string_t), .gc_heap_size = sizeof(n_string_t), .hash = 7};
    vf_may_refuse = 0;
    int64_t w = vf_i64();
    uint8_t x = vf_u8();
#if VF_OP == OP_NEW
    int64_t n = vf_i64();
    VF_ASSUME(n >= 0 && n <= VF_MAXLEN);
    VF_ASSUME(w >= 0 && w < n);
    uint8_t *src = (malloc)((size_t) n);
    src[w] = x;
    uint8_t how = vf_u8() % 3;
    n_string_t in = {.data = src, .length = n, .capacity = n, .element_size = 1, .hash = 7}, r;
    if (how == 0) r = string_new(src, n);
    else if (how == 1) r = string_to_vec(&in);
    else r = vec_to_string(&in);
    VF_CHECK(r.length == n && WELL_FORMED(r), "the string has the given length");
    VF_CHECK(r.data[w] == x, "every byte is preserved");
    VF_CHECK(src[w] == x && r.data != src && in.length == n && in.data == src, "the source is not changed or shared");
    VF_CHECK(rt_string_length(&r) == n, "length reports the number of bytes");
    VF_REACH(how == 2, "from a vector");

#elif VF_OP == OP_CONCAT
    n_string_t a, b;
    str_any(&a, VF_MAXLEN);
    str_any(&b, VF_MAXLEN);
    n_string_t oa = a, ob = b;
    VF_ASSUME(w >= 0 && w < a.length + b.length);
    if (w < a.length) a.data[w] = x;
    else b.data[w - a.length] = x;
    n_string_t r = string_concat(&a, &b);
    VF_CHECK(r.length == oa.length + ob.length && WELL_FORMED(r), "concatenation adds the lengths");
    VF_CHECK(r.data[w] == x, "concatenation yields the bytes of both in order");
    VF_CHECK(SAME_HEADER(a, oa) && SAME_HEADER(b, ob), "the operands are unchanged");
    VF_CHECK((w < a.length ? a.data[w] : b.data[w - a.length]) == x && r.data != a.data && r.data != b.data,
             "the operands' bytes are unchanged and not shared");
    VF_REACH(w >= a.length && a.length > 0, "second operand");
    VF_REACH(a.length == 0, "empty first operand");

#elif VF_OP == OP_POOL
    /* a literal: NUL-terminated bytes, possibly with zero bytes inside */
    int64_t n = VF_N;
    char raw[VF_N + VF_CMP + 1];
    for (int i = 0; i < VF_N; i++) raw[i] = (char) vf_u8();
    raw[VF_N] = 0;
    /* any pool whose entry was stored under its own contents */
    vf_pooled = vf_bool();
    int64_t pl = vf_u8() % (VF_CMP + 1);
    uint8_t pdata[VF_CMP + 1];
    for (int i = 0; i < VF_CMP + 1; i++) pdata[i] = i < pl ? vf_u8() : 0;
    for (int i = 0; i < VF_CMP; i++) VF_ASSUME(i >= pl || pdata[i] != 0);
    for (int i = 0; i < VF_CMP + 1; i++) vf_pool_key[i] = (char) pdata[i];
    vf_pool = (n_string_t){.data = pdata, .length = pl, .capacity = pl + 1, .element_size = 1, .hash = 7};
    vf_puts = 0;
    n_string_t r = string_new_with_pool(raw, n);
    VF_CHECK(r.length == n && WELL_FORMED(r), "the string has the given length");
    for (int i = 0; i < VF_N; i++) VF_CHECK(r.data[i] == (uint8_t) raw[i], "every byte is preserved");
    VF_CHECK(vf_puts <= 1, "at most one pool entry is added");
    if (vf_puts) {
        VF_CHECK(vf_put_val->length == n && WELL_FORMED(*vf_put_val) && vf_put_key != raw, "a pool entry owns its key and value");
        for (int i = 0; i < VF_N; i++)
            VF_CHECK(vf_put_key[i] == raw[i] && vf_put_val->data[i] == (uint8_t) raw[i] && raw[i] != 0,
                     "a pool entry is stored under its whole contents");
        VF_CHECK(vf_put_key[VF_N] == 0, "a pool key is terminated");
    }
    VF_REACH(vf_puts == 1, "pooled");
    VF_REACH(r.data == pdata, "found in the pool");

#elif VF_OP == OP_COMPAREN
    int64_t la = vf_i64(), lb = vf_i64(), k = vf_i64();
    VF_ASSUME(la >= 0 && la <= VF_MAXLEN && lb >= 0 && lb <= VF_MAXLEN);
    int64_t min = la < lb ? la : lb;
    VF_ASSUME(k >= 0 && k <= min);
    uint8_t y = vf_u8();
    n_string_t a = {.data = (calloc)((size_t) la, 1), .length = la, .capacity = la + 1, .element_size = 1, .hash = 7};
    n_string_t b = {.data = (calloc)((size_t) lb, 1), .length = lb, .capacity = lb + 1, .element_size = 1, .hash = 7};
#ifdef __CPROVER__
    vf_k = (size_t) k;
#endif
    if (k < min) {
        VF_ASSUME(x != y);
        a.data[k] = x;
        b.data[k] = y;
    }
    n_string_t oa = a, ob = b;
    int c = k < min ? (x < y ? -1 : 1) : la < lb ? -1 : la > lb ? 1 : 0;
    VF_CHECK(string_ee(&a, &b) == (c == 0), "== holds exactly for equal contents");
    VF_CHECK(string_ne(&a, &b) == (c != 0), "!= holds exactly for different contents");
    VF_CHECK(string_lt(&a, &b) == (c < 0), "< is the lexicographic byte order");
    VF_CHECK(string_le(&a, &b) == (c <= 0), "<= is the lexicographic byte order");
    VF_CHECK(string_gt(&a, &b) == (c > 0), "> is the lexicographic byte order");
    VF_CHECK(string_ge(&a, &b) == (c >= 0), ">= is the lexicographic byte order");
    VF_CHECK(SAME_HEADER(a, oa) && SAME_HEADER(b, ob), "the operands are unchanged");
    VF_REACH(k < min, "differing byte");
    VF_REACH(k == min && la < lb, "proper prefix");
    VF_REACH(k == min && la == lb && la > 5, "equal");

#elif VF_OP == OP_COMPARE
    n_string_t a, b;
    uint8_t da[VF_CMP], db[VF_CMP];
    for (int i = 0; i < VF_CMP; i++) da[i] = vf_u8(), db[i] = vf_u8();
    int64_t la = VF_N / 4, lb = VF_N % 4;
    a = (n_string_t){.data = da, .length = la, .capacity = la + 1, .element_size = 1, .hash = 7};
    b = (n_string_t){.data = db, .length = lb, .capacity = lb + 1, .element_size = 1, .hash = 7};
    n_string_t oa = a, ob = b;
    /* lexicographic order of unsigned bytes, a proper prefix is smaller */
    int c = 0;
    for (int i = 0; i < VF_CMP && c == 0; i++) {
        if (i >= la || i >= lb) {
            c = la < lb ? -1 : la > lb ? 1 : 0;
            break;
        }
        if (da[i] != db[i]) c = da[i] < db[i] ? -1 : 1;
    }
    VF_CHECK(string_ee(&a, &b) == (c == 0), "== holds exactly for equal contents");
    VF_CHECK(string_ne(&a, &b) == (c != 0), "!= holds exactly for different contents");
    VF_CHECK(string_lt(&a, &b) == (c < 0), "< is the lexicographic byte order");
    VF_CHECK(string_le(&a, &b) == (c <= 0), "<= is the lexicographic byte order");
    VF_CHECK(string_gt(&a, &b) == (c > 0), "> is the lexicographic byte order");
    VF_CHECK(string_ge(&a, &b) == (c >= 0), ">= is the lexicographic byte order");
    VF_CHECK(SAME_HEADER(a, oa) && SAME_HEADER(b, ob), "the operands are unchanged");
    VF_REACH(1, "compared");
#endif
}
