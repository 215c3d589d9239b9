/* C07: the map operations of runtime/nutils/map.c (with the probing code of
 * hash.h) refine a finite map.
 *
 * Pre-state: any table of capacity VF_CAP that satisfies the representation
 * invariant below, with arbitrary contents, arbitrary tombstones and an
 * arbitrary hash function on the key universe.  Each operation re-establishes
 * the invariant and performs the abstract update, checked for an arbitrary
 * witness key.  The abstract map is { key_data[i] -> value_data[i] : i < length }.
 */
#include "vf.h"
#include "vf_mem.h"
#include "runtime/nutils/nutils.h"
#include "runtime/memory.h"
#undef assertf
#define assertf(e, ...) assert(e)

#ifndef VF_CAP
#define VF_CAP 4
#endif
#ifndef VF_KS
#define VF_KS 8
#endif
#ifndef VF_VS
#define VF_VS 8
#endif
#ifndef VF_HMASK
#define VF_HMASK 0xffffffffu
#endif
#define VF_K 8 /* key universe */
#define LIVE_MAX ((VF_CAP * 3) / 4)
#define VF_MAXCAP (2 * VF_CAP)

int vf_may_refuse;
static uint32_t hv[VF_K];
static rtype_t vf_krt, vf_vrt, vf_crt;
static int vf_thrown;

/* the key hash is an arbitrary function of the key contents */
static uint32_t vf_hash(uint8_t *data, uint64_t size) {
    VF_CHECK(size == VF_KS, "the whole key is hashed");
    return hv[data[0] & (VF_K - 1)];
}
#define hash_data vf_hash

rtype_t *rt_find_rtype(int64_t hash) {
    if (hash == 1) return &vf_krt;
    if (hash == 2) return &vf_vrt;
    return &vf_crt;
}
void *rti_gc_malloc(uint64_t size, rtype_t *rtype) {
    (void) rtype;
    uint8_t *p = (malloc)(size);
    for (uint64_t i = 0; i < size; i++) p[i] = 0;
    return p;
}
void rti_write_barrier_rtype(void *dst, void *src, rtype_t *rtype) { memmove(dst, src, rtype->storage_size); }
void rti_write_barrier_ptr(void *slot, void *new_obj, bool b) {
    (void) b;
    *(void **) slot = new_obj;
}
void rti_throw(char *msg, bool panic) {
    (void) msg;
    (void) panic;
    vf_thrown++;
}
char *rtype_value_to_str(rtype_t *rtype, void *ref) {
    (void) rtype;
    (void) ref;
    char *p = (malloc)(2);
    p[0] = 'k';
    p[1] = 0;
    return p;
}
char *vf_tls(void) { return "m"; }
#define tlsprintf(...) vf_tls()

#if VF_SET
#include "runtime/nutils/set.c"
typedef n_set_t tbl_t;
#else
#include "runtime/nutils/map.c"
typedef n_map_t tbl_t;
#endif

#define SLOT_SET (1ull << 63)
#define SLOT_DEL (1ull << 62)

static void key_bytes(uint8_t *p, unsigned id) {
    for (int j = 0; j < VF_KS; j++) p[j] = 0;
    p[0] = (uint8_t) id;
    if (VF_KS > 1) p[VF_KS - 1] = (uint8_t) (id ^ 0x5a);
}
static bool key_is(const uint8_t *p, unsigned id) {
    bool ok = p[0] == id;
    for (int j = 1; j < VF_KS - 1; j++) ok &= p[j] == 0;
    if (VF_KS > 1) ok &= p[VF_KS - 1] == (uint8_t) (id ^ 0x5a);
    return ok;
}

/* representation invariant for capacity cap (a constant at every call) */
static bool inv(tbl_t *m, uint64_t cap) {
    bool ok = m->capacity == cap && m->length <= cap * 3 / 4 && m->key_rtype_hash == 1;
#if !VF_SET
    ok &= m->value_rtype_hash == 2;
#endif
    if (!ok) return false;
    uint64_t live = 0;
    for (uint64_t s = 0; s < cap; s++) {
        uint64_t h = m->hash_table[s];
        if (!(h & SLOT_SET)) {
            ok &= h == 0;
            continue;
        }
        if (h & SLOT_DEL) continue;
        live++;
        uint64_t i = h & (SLOT_DEL - 1);
        if (i >= m->length) return false;
        uint8_t id = m->key_data[i * VF_KS];
        if (id >= VF_K) return false;
        /* the probe sequence of the key reaches s without meeting an empty slot */
        uint64_t home = hv[id] % cap;
        for (uint64_t t = 0; t < cap; t++) {
            bool between = home <= s ? (t >= home && t < s) : (t >= home || t < s);
            if (between) ok &= (m->hash_table[t] & SLOT_SET) != 0;
        }
    }
    ok &= live == m->length;
    /* stored keys are well formed and distinct (so live slots and entries correspond one to one) */
    uint32_t seen = 0;
    for (uint64_t i = 0; i < LIVE_MAX + 1; i++) {
        if (i >= m->length) break;
        uint8_t id = m->key_data[i * VF_KS];
        if (id >= VF_K) return false;
        ok &= key_is(m->key_data + i * VF_KS, id) && !(seen & (1u << id));
        seen |= 1u << id;
        /* some live slot refers to the entry */
        bool ref = false;
        for (uint64_t s = 0; s < cap; s++) ref |= m->hash_table[s] == (SLOT_SET | i);
        ok &= ref;
    }
    return ok;
}

/* abstract lookup: index of key id, or -1 */
static int64_t find(tbl_t *m, unsigned id) {
    int64_t r = -1;
    for (uint64_t i = 0; i < LIVE_MAX + 1; i++)
        if (i < m->length && m->key_data[i * VF_KS] == id) r = (int64_t) i;
    return r;
}

static void rtypes(void) {
    vf_krt = (rtype_t){.kind = TYPE_INT64, .storage_size = VF_KS, .gc_heap_size = VF_KS, .hash = 1, .malloc_gc_bits_offset = -1};
    vf_vrt = (rtype_t){.kind = TYPE_INT64, .storage_size = VF_VS, .gc_heap_size = VF_VS, .hash = 2, .malloc_gc_bits_offset = -1};
    vf_crt = (rtype_t){.kind = TYPE_MAP, .storage_size = 8, .gc_heap_size = sizeof(tbl_t), .hash = 3, .malloc_gc_bits_offset = -1};
    vf_thrown = 0;
    vf_may_refuse = 0;
    for (int i = 0; i < VF_K; i++) hv[i] = vf_u32() & VF_HMASK;
}

/* an arbitrary table satisfying the invariant */
static void arbitrary(tbl_t *m) {
    uint64_t *h = (malloc)(8 * VF_CAP);
    uint8_t *k = (malloc)(VF_KS * VF_CAP);
    for (int i = 0; i < VF_CAP; i++) h[i] = vf_u64();
    for (int i = 0; i < VF_CAP; i++) {
        unsigned id = vf_u8() & (VF_K - 1);
        key_bytes(k + i * VF_KS, id);
    }
    m->hash_table = h;
    m->key_data = k;
#if !VF_SET
    uint8_t *v = (malloc)(VF_VS * VF_CAP);
    for (int i = 0; i < VF_VS * VF_CAP; i++) v[i] = vf_u8();
    m->value_data = v;
    m->value_rtype_hash = 2;
#endif
    m->key_rtype_hash = 1;
    m->capacity = VF_CAP;
#ifdef VF_LEN
    m->length = VF_LEN;
#else
    m->length = vf_u64();
#endif
    VF_ASSUME(inv(m, VF_CAP));
}

void vf_harness(void) {
    rtypes();
    tbl_t m = {0};
    unsigned key = vf_u8() & (VF_K - 1), wit = vf_u8() & (VF_K - 1);
    uint8_t kbuf[VF_KS];
    key_bytes(kbuf, key);

#if VF_OP == OP_NEW_N
    /* a new container is empty and satisfies the invariant at its capacity */
#if VF_SET
    if (vf_bool()) m = rt_set_new(3, 1);
    else rt_set_new_out(&m, 3, 1);
    VF_CHECK(!rt_set_contains(&m, kbuf), "a new set is empty");
#else
    uint8_t how = vf_u8() % 3;
    if (how == 0) m = rt_map_new(3, 1, 2);
    else if (how == 1) rt_map_new_out(&m, 3, 1, 2);
    else {
        n_map_t *p = rt_map_alloc(3, 1, 2);
        m = *p;
    }
    VF_CHECK(m.value_rtype_hash == 2, "a new map records its value type");
    VF_CHECK(!rt_map_contains(&m, kbuf), "a new map is empty");
    VF_CHECK(rt_map_length(&m) == 0, "a new map has length 0");
#endif
    VF_CHECK(m.length == 0 && m.key_rtype_hash == 1 && m.capacity > 0, "a new container has length 0");
    for (uint64_t s = 0; s < m.capacity; s++) VF_CHECK(m.hash_table[s] == 0, "every slot of a new container is empty");
    m.key_data[m.capacity * VF_KS - 1] = 0; /* the arrays hold capacity entries */
#if !VF_SET
    m.value_data[m.capacity * VF_VS - 1] = 0;
#endif
    VF_REACH(1, "constructor returns");

#elif VF_OP == OP_ZERO_N
    /* the zero value behaves as an empty container; the first insertion gives it room */
    m.key_rtype_hash = 1;
#if VF_SET
    VF_CHECK(!rt_set_contains(&m, kbuf), "the zero set is empty");
    rt_set_delete(&m, kbuf);
    VF_CHECK(m.length == 0, "deleting from the zero set keeps it empty");
    VF_CHECK(rt_set_add(&m, kbuf), "adding to the zero set reports an insertion");
    VF_CHECK(m.length == 1 && m.key_rtype_hash == 1 && key_is(m.key_data, key), "the added element is stored");
    for (uint64_t s = 0; s < m.capacity; s++)
        VF_CHECK(m.hash_table[s] == (s == hv[key] % m.capacity ? SLOT_SET : 0), "the table holds the added element only");
#else
    m.value_rtype_hash = 2;
    VF_CHECK(!rt_map_contains(&m, kbuf), "the zero map is empty");
    rt_map_delete(&m, kbuf);
    VF_CHECK(m.length == 0, "deleting from the zero map keeps it empty");
    VF_CHECK(rt_map_access(&m, kbuf) == 0 && vf_thrown == 1, "access to the zero map throws");
    uint8_t *p = (uint8_t *) rt_map_assign(&m, kbuf);
    for (int j = 0; j < VF_VS; j++) p[j] = (uint8_t) (0x30 + j);
    VF_CHECK(m.length == 1 && rt_map_contains(&m, kbuf), "the assigned key is present");
    uint8_t *q = (uint8_t *) rt_map_access(&m, kbuf);
    VF_CHECK(vf_thrown == 1 && q == p, "access returns the assigned value");
    uint8_t wbuf[VF_KS];
    key_bytes(wbuf, wit);
    VF_CHECK(rt_map_contains(&m, wbuf) == (wit == key), "no other key is present");
#endif
    VF_REACH(wit != key, "two keys");

#else
    arbitrary(&m);
    int64_t kpos = find(&m, key), wpos = find(&m, wit);
    uint64_t len = m.length;
    uint8_t old_k[VF_VS], old_w[VF_VS];
#if !VF_SET
    for (int j = 0; j < VF_VS; j++) {
        old_k[j] = kpos >= 0 ? m.value_data[kpos * VF_VS + j] : 0;
        old_w[j] = wpos >= 0 ? m.value_data[wpos * VF_VS + j] : 0;
    }
#endif
    (void) old_k, (void) old_w;
    uint64_t post_cap = VF_CAP;
    bool wit_in = wpos >= 0;
    uint64_t post_len = len;
#ifndef VF_LEN
    VF_REACH(len == LIVE_MAX, "a full table");
#endif

#if VF_OP == OP_CONTAINS_N
#if VF_SET
    bool r = rt_set_contains(&m, kbuf);
#else
    bool r = rt_map_contains(&m, kbuf);
    VF_CHECK(rt_map_length(&m) == len, "length reports the number of keys");
#endif
    VF_CHECK(r == (kpos >= 0), "contains reports exactly the present keys");
    VF_REACH(r, "present key");
    VF_REACH(!r, "absent key");

#elif VF_OP == OP_ACCESS_N
    uint8_t *p = (uint8_t *) rt_map_access(&m, kbuf);
    VF_CHECK((vf_thrown != 0) == (kpos < 0), "access throws exactly for absent keys");
    if (kpos >= 0) VF_CHECK(p == m.value_data + kpos * VF_VS, "access yields the place of the value of the key");
    else VF_CHECK(p == NULL, "access to an absent key yields nothing");
    VF_REACH(kpos >= 0, "present key");
    VF_REACH(kpos < 0, "absent key");

#elif VF_OP == OP_ASSIGN_N || VF_OP == OP_GROW_N
#if VF_OP == OP_ASSIGN_N
    VF_ASSUME(len < LIVE_MAX);
#else
    VF_ASSUME(len == LIVE_MAX);
    post_cap = 2 * VF_CAP;
#endif
#if VF_SET
    bool added = rt_set_add(&m, kbuf);
    VF_CHECK(added == (kpos < 0), "add reports whether the element is new");
#else
    uint8_t *p = (uint8_t *) rt_map_assign(&m, kbuf);
    int64_t npos = find(&m, key);
    VF_CHECK(npos >= 0 && p == m.value_data + npos * VF_VS, "assign yields the place of the value of the key");
    if (kpos >= 0)
        for (int j = 0; j < VF_VS; j++) VF_CHECK(p[j] == old_k[j], "assign to a present key keeps its value until it is written");
    for (int j = 0; j < VF_VS; j++) p[j] = vf_u8();
#endif
    post_len = len + (kpos < 0);
    if (wit == key) wit_in = true;
#if VF_LEN > 0
    VF_REACH(kpos >= 0, "present key");
#endif
    VF_REACH(kpos < 0, "new key");

#elif VF_OP == OP_DELETE_N
#if VF_SET
    rt_set_delete(&m, kbuf);
#else
    rt_map_delete(&m, kbuf);
#endif
    post_len = len - (kpos >= 0);
    if (wit == key) wit_in = false;
    VF_REACH(kpos >= 0 && (uint64_t) kpos + 1 < len, "deletion in the middle");
    VF_REACH(kpos < 0, "absent key");
#endif

    VF_CHECK(key_is(kbuf, key), "the caller's key is not modified");
    VF_CHECK(m.length == post_len, "length counts the distinct keys");
    VF_CHECK(inv(&m, post_cap), "the table stays well formed");
    int64_t w2 = find(&m, wit);
    VF_CHECK((w2 >= 0) == wit_in, "exactly the right keys are present");
#if !VF_SET
    if (w2 >= 0 && wit != key)
        for (int j = 0; j < VF_VS; j++)
            VF_CHECK(m.value_data[w2 * VF_VS + j] == old_w[j], "the value of every other key is unchanged");
#endif
#if !defined VF_LEN || VF_LEN > 0
    VF_REACH(wit_in && wit != key, "witness key present");
#endif
#endif
}
