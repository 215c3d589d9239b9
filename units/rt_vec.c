/* C06: vector operations of runtime/nutils/vec.c.
 *
 * Lengths and capacities are symbolic and (except where noted in the registry)
 * only bounded by VF_MAXLEN = 2^32 elements; the element size is a constant of
 * the unit.  Contents are checked at an arbitrary witness byte. */
#include "vf.h"
#include <string.h>
#if VF_ALIAS && VF_OP == OP_APPEND
#include "vf_mem.h"
#elif defined __CPROVER__
/* memmove of a symbolic number of bytes (no requirement when n is 0) */
void *memmove(void *d, const void *s, size_t n) {
    if (n > 0) {
        __CPROVER_assert(__CPROVER_r_ok(s, n), "memmove source readable");
        __CPROVER_assert(__CPROVER_w_ok(d, n), "memmove destination writable");
        char tmp[n];
        __CPROVER_array_copy(tmp, (char *) s);
        __CPROVER_array_replace((char *) d, tmp);
    }
    return d;
}
void *memcpy(void *d, const void *s, size_t n) { return memmove(d, s, n); }
int memcmp(const void *a, const void *b, size_t n) {
    for (size_t i = 0; i < n; i++) {
        int x = ((const unsigned char *) a)[i], y = ((const unsigned char *) b)[i];
        if (x != y) return x - y;
    }
    return 0;
}
#endif
#include "runtime/nutils/nutils.h"
#include "runtime/memory.h"
#undef assertf
#define assertf(e, ...) assert(e)

#define ES VF_ES
#ifndef VF_MAXLEN
#define VF_MAXLEN (1ll << 32)
#endif
int vf_may_refuse;
static rtype_t vf_ert;
static int vf_thrown, vf_allocs;
static uint8_t *vf_last_alloc;
rtype_t vec_rtype;

rtype_t *rt_find_rtype(int64_t hash) {
    (void) hash;
    return &vf_ert;
}
void *rti_gc_malloc(uint64_t size, rtype_t *rtype) {
    (void) rtype;
    vf_allocs++;
    uint8_t *p = (calloc)(size, 1);
    vf_last_alloc = p;
    return p;
}
void rti_write_barrier_ptr(void *slot, void *new_obj, bool b) {
    (void) b;
    *(void **) slot = new_obj;
}
#define gc_barrier_get() false
void rti_throw(char *msg, bool panic) {
    (void) msg;
    (void) panic;
    vf_thrown++;
}
char *vf_tls(void) { return "m"; }
#define tlsprintf(...) vf_tls()
#if VF_OP == OP_PUSH
/* rt_vec_push orders its argument against NULL, which cbmc decides as false */
#include "runtime/nutils/vec.h"
#undef assert
#define assert(e) ((void) 0)
#endif
#include "runtime/nutils/vec.c"

/* an arbitrary vector; data is exactly capacity elements */
static void vec_any(n_vec_t *v) {
#if VF_OP == OP_APPEND && VF_ALIAS
    /* appending a vector to itself: with and without room for the result */
    int64_t cap = VF_ALIAS == 1 ? 4 : 3, len = VF_ALIAS == 1 ? 2 : 3;
#else
    int64_t cap = vf_i64(), len = vf_i64();
#endif
    VF_ASSUME(cap >= 0 && cap <= VF_MAXLEN && len >= 0 && len <= cap);
    v->capacity = cap;
    v->length = len;
    v->element_size = ES;
    v->hash = 5;
    v->allocator = 0;
    v->data = cap > 0 ? (malloc)((size_t) cap * ES) : 0;
}
#define SAME_HEADER(a, b)                                                                            \
    ((a).data == (b).data && (a).length == (b).length && (a).capacity == (b).capacity &&             \
     (a).element_size == (b).element_size && (a).hash == (b).hash)

void vf_harness(void) {
    vf_ert = (rtype_t){.kind = TYPE_STRUCT, .storage_size = ES, .gc_heap_size = ES, .hash = 2, .malloc_gc_bits_offset = -1};
    vec_rtype = (rtype_t){.gc_heap_size = sizeof(n_vec_t), .hash = 5};
    vf_may_refuse = 0;
    vf_thrown = 0;
    vf_allocs = 0;
    int64_t w = vf_i64(); /* witness element */
    int64_t b = vf_u8() % ES; /* and byte */
    uint8_t x = vf_u8();

#if VF_OP == OP_PUSH
    n_vec_t v;
    vec_any(&v);
    VF_ASSUME(w >= 0 && w <= v.length);
    if (w < v.length) v.data[w * ES + b] = x;
    n_vec_t old = v;
    uint8_t e[ES];
    for (int i = 0; i < ES; i++) e[i] = vf_u8();
    uint8_t eb = e[b];
    rt_vec_push(&v, 2, e);
    VF_CHECK(v.length == old.length + 1, "push adds one element");
    VF_CHECK(v.capacity >= v.length && v.element_size == ES && v.hash == 5, "push keeps the vector well formed");
    VF_CHECK(v.data[v.capacity * ES - 1] == v.data[v.capacity * ES - 1], "the storage holds capacity elements");
    VF_CHECK(v.data[w * ES + b] == (w < old.length ? x : eb), "push preserves the elements and appends the new one");
    if (old.length < old.capacity) VF_CHECK(v.data == old.data && v.capacity == old.capacity, "push within capacity does not move the elements");
    else if (w < old.length) VF_CHECK(old.data[w * ES + b] == x, "growing leaves the old storage unchanged");
    VF_CHECK(e[b] == eb && vf_thrown == 0, "push does not modify the pushed element");
    VF_REACH(old.capacity == 0, "push into an empty vector");
    VF_REACH(old.length == old.capacity && w < old.length, "push that grows");
    VF_REACH(old.length < old.capacity, "push within capacity");

#elif VF_OP == OP_ITERATOR
    n_vec_t v;
    vec_any(&v);
    VF_ASSUME(w >= 0 && w < v.length);
    v.data[w * ES + b] = x;
    n_vec_t old = v;
    uint8_t *p = (uint8_t *) rt_vec_iterator(&v, 2);
    VF_CHECK(v.length == old.length + 1 && v.capacity >= v.length, "one element is added");
    VF_CHECK(p == v.data + old.length * ES, "the place of the added element is returned");
    VF_CHECK(v.data[w * ES + b] == x, "the elements are preserved");
    VF_CHECK(vf_thrown == 0, "no error");
    VF_REACH(old.length == old.capacity, "growing");

#elif VF_OP == OP_GROW
    n_vec_t v;
    vec_any(&v);
    int c = vf_i32();
    VF_ASSUME(c == 0 || c >= v.length);
    VF_ASSUME(w >= 0 && w < v.length);
    v.data[w * ES + b] = x;
    n_vec_t old = v;
    rt_vec_grow(&v, 2, c);
    VF_CHECK(v.capacity == (c ? c : 2 * old.capacity), "the requested capacity is provided");
    VF_CHECK(v.length == old.length && v.element_size == ES && v.hash == 5, "growing keeps the length");
    VF_CHECK(v.data[w * ES + b] == x, "growing preserves the elements");
    VF_CHECK(old.data[w * ES + b] == x && v.data != old.data, "growing leaves the old storage unchanged");
    VF_REACH(c > 0, "requested capacity");

#elif VF_OP == OP_APPEND
    n_vec_t d, s;
    vec_any(&d);
#if VF_ALIAS
    n_vec_t *sp = &d;
#else
    vec_any(&s);
    n_vec_t *sp = &s;
#endif
    n_vec_t od = d, os = *sp;
    VF_ASSUME(w >= 0 && w < d.length + sp->length);
    if (w < d.length) d.data[w * ES + b] = x;
    else sp->data[(w - d.length) * ES + b] = x;
    rt_vec_append(&d, sp, 2);
    VF_CHECK(d.length == od.length + os.length, "append adds the lengths");
    VF_CHECK(d.capacity >= d.length && d.element_size == ES && d.hash == 5, "append keeps the vector well formed");
    VF_CHECK(d.data[w * ES + b] == x, "append keeps the elements and adds those of the source in order");
#if !VF_ALIAS
    VF_CHECK(SAME_HEADER(s, os), "append leaves the source vector unchanged");
    if (w >= od.length) VF_CHECK(s.data[(w - od.length) * ES + b] == x, "append leaves the source elements unchanged");
#endif
    VF_CHECK(vf_thrown == 0, "no error");
#if VF_ALIAS != 1
    VF_REACH(od.length + os.length > od.capacity && w >= od.length, "append that grows");
#endif
#if VF_ALIAS != 2
    VF_REACH(od.length + os.length <= od.capacity && w >= od.length, "append within capacity");
#endif

#elif VF_OP == OP_CONCAT
    n_vec_t a, s;
    vec_any(&a);
    vec_any(&s);
    n_vec_t oa = a, os = s;
    VF_ASSUME(w >= 0 && w < a.length + s.length);
    if (w < a.length) a.data[w * ES + b] = x;
    else s.data[(w - a.length) * ES + b] = x;
    n_vec_t r = rt_vec_concat(&a, &s, 2);
    VF_CHECK(r.length == a.length + s.length && r.capacity >= r.length && r.element_size == ES && r.hash == 5, "concat adds the lengths");
    VF_CHECK(r.data[w * ES + b] == x, "concat yields the elements of both in order");
    VF_CHECK(SAME_HEADER(a, oa) && SAME_HEADER(s, os), "concat leaves the operands unchanged");
    VF_CHECK((w < a.length ? a.data[w * ES + b] : s.data[(w - a.length) * ES + b]) == x, "concat leaves the operands' elements unchanged");
    VF_CHECK(r.data != a.data && r.data != s.data && vf_thrown == 0, "concat yields new storage");
    VF_REACH(w >= a.length && a.length > 0, "second operand");
    VF_REACH(a.capacity == 0, "empty first operand");

#elif VF_OP == OP_SLICE
    n_vec_t v;
    vec_any(&v);
    int64_t start = vf_i64(), end = vf_i64();
    n_vec_t old = v;
    n_vec_t r = rt_vec_slice(&v, start, end);
    int64_t e = end == -1 ? v.length : end;
    bool bad = start < 0 || e < 0 || start > v.length || e > v.length || start > e;
    VF_CHECK((vf_thrown != 0) == bad, "slice raises an error exactly for bad bounds");
    VF_CHECK(SAME_HEADER(v, old), "slice leaves the vector unchanged");
    if (bad) VF_CHECK(r.length == 0 && r.data == 0 && r.capacity == 0, "a refused slice is empty");
    else {
        VF_CHECK(r.length == e - start && r.element_size == ES && r.hash == 5, "the slice has end - start elements");
        VF_CHECK(r.capacity == r.length, "appending to the slice does not overwrite the vector");
        VF_CHECK(r.data == v.data + start * ES, "the slice shares the elements from start");
    }
    VF_REACH(bad, "bad bounds");
    VF_REACH(!bad && start > 0 && end != -1, "good bounds");

#elif VF_OP == OP_COPY
    n_vec_t d, s;
    vec_any(&d);
    vec_any(&s);
    n_vec_t od = d;
    VF_ASSUME(w >= 0 && w < d.length);
    uint8_t y = vf_u8();
    d.data[w * ES + b] = x;
    if (w < s.length) s.data[w * ES + b] = y;
    uint64_t n = rt_vec_copy(&d, s);
    VF_CHECK(n == (uint64_t) (s.length < d.length ? s.length : d.length), "copy reports the number of elements copied");
    VF_CHECK(SAME_HEADER(d, od), "copy keeps the destination's length");
    VF_CHECK(d.data[w * ES + b] == (w < (int64_t) n ? y : x), "copy overwrites exactly the first elements");
    VF_REACH(w < (int64_t) n, "copied element");
    VF_REACH(w >= (int64_t) n, "kept element");

#elif VF_OP == OP_INDEX
    n_vec_t v;
    vec_any(&v);
    n_vec_t old = v;
    uint64_t i = vf_u64();
    uint8_t out[ES];
    for (int k = 0; k < ES; k++) out[k] = (uint8_t) k;
    bool in = i < (uint64_t) v.length;
    if (in) v.data[i * ES + b] = x;
    rti_vec_access(&v, i, out);
    VF_CHECK(vf_thrown == !in, "indexed read raises an error exactly outside the vector");
    VF_CHECK(out[b] == (in ? x : (uint8_t) b), "indexed read yields the element or nothing");
    vf_thrown = 0;
    uint8_t *p = (uint8_t *) rt_vec_element_addr(&v, i);
    VF_CHECK(vf_thrown == !in, "element address raises an error exactly outside the vector");
    VF_CHECK(p == (in ? v.data + i * ES : 0), "element address yields the place of the element");
    VF_CHECK(rt_vec_length(&v) == (uint64_t) v.length && rt_vec_capacity(&v) == (uint64_t) v.capacity && rt_vec_ref(&v) == v.data,
             "length, capacity and storage are reported");
    if (in && w >= 0 && w < v.length) {
        uint8_t y = vf_u8(), z = vf_u8();
        v.data[w * ES + b] = y;
        out[b] = z;
        rti_vec_assign(&v, i, out, &vf_ert);
        VF_CHECK(v.data[w * ES + b] == ((uint64_t) w == i ? z : y), "indexed write changes exactly that element");
    }
    VF_CHECK(SAME_HEADER(v, old), "indexing leaves length and storage unchanged");
    VF_REACH(in && (uint64_t) w == i, "inside");
    VF_REACH(!in, "outside");

#elif VF_OP == OP_CAP
    int64_t c = vf_i64();
    VF_ASSUME(c <= VF_MAXLEN);
    n_vec_t v;
    uint8_t how = vf_u8() % 3;
    if (how == 0) v = rt_vec_cap(5, 2, c);
    else if (how == 1) rt_vec_new_out(&v, 5, 2, c);
    else v = *rt_vec_alloc(5, 2, c);
    VF_CHECK((vf_thrown != 0) == (c < 0), "a negative capacity raises an error");
    if (c < 0) VF_CHECK(v.length == 0 && v.data == 0 && v.capacity == 0, "a refused vector is empty");
    else {
        VF_CHECK(v.length == 0 && v.capacity == c && v.element_size == ES && v.hash == 5, "the vector is empty and has the capacity");
        VF_CHECK((v.data == 0) == (c == 0), "storage exists when the capacity is not 0");
        if (c > 0) VF_CHECK(v.data[c * ES - 1] == 0, "the storage holds capacity elements");
    }
    VF_REACH(c > 0, "storage");

#elif VF_OP == OP_NEW
    int64_t n = VF_N;
    uint8_t e[ES];
    for (int i = 0; i < ES; i++) e[i] = vf_u8();
    n_vec_t v = rt_vec_new(5, 2, n, e);
    VF_CHECK((vf_thrown != 0) == (n < 0), "a negative length raises an error");
    if (n < 0) VF_CHECK(v.length == 0 && v.data == 0 && v.capacity == 0, "a refused vector is empty");
    else {
        VF_CHECK(v.length == n && v.capacity >= n && v.capacity > 0 && v.element_size == ES && v.hash == 5, "the vector has the length");
        if (w >= 0 && w < n) VF_CHECK(v.data[w * ES + b] == e[b], "every element has the given value");
        VF_CHECK(v.data[v.capacity * ES - 1] == v.data[v.capacity * ES - 1], "the storage holds capacity elements");
    }
    VF_REACH(1, "returns");

#elif VF_OP == OP_UNSAFE_NEW
    int64_t n = vf_i64(), c = vf_i64();
    VF_ASSUME(n >= 0 && n <= VF_MAXLEN && (c == 0 || (c >= n && c <= VF_MAXLEN)));
    n_vec_t v = rt_unsafe_vec_new(5, 2, n);
    VF_CHECK(v.length == n && v.capacity >= n && v.capacity > 0 && v.element_size == ES && v.hash == 5, "the vector has the length");
    VF_CHECK(v.data[v.capacity * ES - 1] == 0, "the storage holds capacity elements");
    v = rti_vec_new(&vf_ert, n, c);
    VF_CHECK(v.length == n && v.capacity >= n && v.capacity > 0 && v.element_size == ES && v.hash == 5, "the vector has the length");
    VF_CHECK(c == 0 || v.capacity == c, "the requested capacity is provided");
    VF_CHECK(v.data[v.capacity * ES - 1] == 0, "the storage holds capacity elements");
    VF_REACH(n > 0, "elements");
#endif
}
