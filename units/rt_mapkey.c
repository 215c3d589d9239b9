/* C07: two keys address the same map entry exactly when their contents are
 * equal (real hashing and comparison, keys of every storage kind). */
#include "vf.h"
#include "vf_mem.h"
#include "runtime/nutils/nutils.h"
#include "runtime/memory.h"
#undef assertf
#define assertf(e, ...) assert(e)

int vf_may_refuse;
static rtype_t vf_krt, vf_vrt, vf_crt;
static int vf_thrown;
rtype_t *rt_find_rtype(int64_t hash) {
    if (hash == 1) return &vf_krt;
    if (hash == 2) return &vf_vrt;
    return &vf_crt;
}
void *rti_gc_malloc(uint64_t size, rtype_t *rtype) {
    (void) rtype;
    uint8_t *p = (malloc)(size);
    for (uint64_t i = 0; i < size; i++) p[i] = 0;
    return p;
}
void rti_write_barrier_rtype(void *dst, void *src, rtype_t *rtype) { memmove(dst, src, rtype->storage_size); }
void rti_throw(char *msg, bool panic) {
    (void) msg;
    (void) panic;
    vf_thrown++;
}
char *rtype_value_to_str(rtype_t *rtype, void *ref) {
    (void) rtype;
    (void) ref;
    char *p = (malloc)(2);
    p[0] = 'k';
    p[1] = 0;
    return p;
}
char *vf_tls(void) { return "m"; }
#define tlsprintf(...) vf_tls()
#include "runtime/nutils/map.c"

#define CAP 4
#if VF_STR
#define KS sizeof(n_string_t)
#else
#define KS VF_KS
#endif

void vf_harness(void) {
    vf_krt = (rtype_t){.kind = VF_STR ? TYPE_STRING : VF_IND ? TYPE_STRUCT : TYPE_INT64, .storage_size = KS, .gc_heap_size = KS,
                       .hash = 1, .malloc_gc_bits_offset = -1, .storage_kind = VF_STR || VF_IND ? STORAGE_KIND_IND : STORAGE_KIND_DIR};
    vf_vrt = (rtype_t){.kind = TYPE_INT64, .storage_size = 8, .gc_heap_size = 8, .hash = 2, .malloc_gc_bits_offset = -1};
    vf_crt = (rtype_t){.kind = TYPE_MAP, .storage_size = 8, .gc_heap_size = sizeof(n_map_t), .hash = 3, .malloc_gc_bits_offset = -1};
    vf_may_refuse = 0;
    vf_thrown = 0;
    bool same;
#if VF_STR
    uint8_t d1[4], d2[4];
    VF_FILL(d1, 3);
    VF_FILL(d2, 3);
    uint64_t l1 = VF_L1, l2 = VF_L2;
    n_string_t k1 = {.data = d1, .length = l1, .capacity = 4, .element_size = 1}, k2 = {.data = d2, .length = l2, .capacity = 4, .element_size = 1};
    same = l1 == l2;
    for (uint64_t i = 0; i < 3; i++)
        if (i < l1 && i < l2) same &= d1[i] == d2[i];
#else
    uint8_t k1[KS], k2[KS];
    VF_FILL(k1, KS);
    VF_FILL(k2, KS);
    same = true;
    for (uint64_t i = 0; i < KS; i++) same &= k1[i] == k2[i];
#endif
    n_map_t m = {.capacity = CAP, .key_rtype_hash = 1, .value_rtype_hash = 2};
    m.hash_table = rti_gc_malloc(8 * CAP, 0);
    m.key_data = rti_gc_malloc(KS * CAP, 0);
    m.value_data = rti_gc_malloc(8 * CAP, 0);

    int64_t *p = (int64_t *) rt_map_assign(&m, &k1);
    VF_CHECK(m.length == 1 && (uint8_t *) p == m.value_data, "the first key is stored");
    VF_CHECK(rt_map_contains(&m, &k1), "an assigned key is present");
    VF_CHECK(rt_map_contains(&m, &k2) == same, "another key is present exactly when its contents are equal");
#if !VF_STR || VF_L1 == VF_L2
    VF_REACH(same, "equal keys");
#endif
#if !VF_STR || VF_L1 || VF_L2
    VF_REACH(!same, "different keys");
#endif
}
