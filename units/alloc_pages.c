/* C09: size classes, page bitmap and free-page summaries of runtime/allocator.c */
#include "vf.h"
#include <string.h>
#ifdef __CPROVER__
void *memset(void *d, int c, size_t n) {
    for (size_t i = 0; i < n; i++) ((char *) d)[i] = (char) c;
    return d;
}
#endif
int vf_may_refuse;
#include "runtime/allocator.c"

#define OP_CLASS 1
#define OP_CHUNK 2
#define OP_MERGE 3
#define OP_SET 4

#if VF_OP == OP_CLASS
void vf_harness(void) {
    uint64_t size = vf_u64();
    VF_ASSUME(size >= 1 && size <= STD_MALLOC_LIMIT);
    uint8_t c = calc_sizeclass(size);
    VF_CHECK(c > 0 && c < SIZECLASS_COUNT, "a size class is chosen");
    VF_CHECK(class_obj_size[c] >= size, "an object of the class is large enough");
    VF_CHECK(class_obj_size[c] % 8 == 0, "objects stay word aligned");
    for (int p = 0; p < 2; p++) {
        uint8_t sc = make_spanclass(c, (uint8_t) p);
        VF_CHECK(take_sizeclass(sc) == c && spanclass_has_ptr(sc) == (p == 0), "a span class keeps its size class and pointer flag");
        VF_CHECK(take_pages_count(sc) * ALLOC_PAGE_SIZE >= class_obj_size[c], "a span holds at least one object");
    }
    VF_REACH(c == 1, "smallest class");
    VF_REACH(c == SIZECLASS_COUNT - 1, "largest class");
}
#endif

#if VF_OP == OP_CHUNK
/* longest run so far and length of the run that is still open */
typedef struct {
    uint32_t max, run;
} vf_scan_t;
/* the definition, page by page */
static vf_scan_t vf_scan_bits(vf_scan_t s, uint64_t block) {
    for (int i = 0; i < 64; i++) {
        if (block >> i & 1) {
            if (s.run > s.max) s.max = s.run;
            s.run = 0;
        } else {
            s.run++;
        }
    }
    return s;
}
/* the same with shortcuts for uniform words; VF_LEMMA shows that it is the same */
static vf_scan_t vf_scan(vf_scan_t s, uint64_t block) {
    if (block == 0) return (vf_scan_t){s.max, s.run + 64};
    if (block == UINT64_MAX) return (vf_scan_t){s.run > s.max ? s.run : s.max, 0};
    return vf_scan_bits(s, block);
}
void vf_harness(void) {
#ifdef VF_LEMMA
    vf_scan_t s;
    s.max = vf_u16(), s.run = vf_u16();
    VF_ASSUME(s.max <= CHUNK_BITS_COUNT && s.run <= CHUNK_BITS_COUNT);
    uint64_t block = vf_u64();
    vf_scan_t a = vf_scan_bits(s, block), b = vf_scan(s, block);
    VF_CHECK(a.max == b.max && a.run == b.run, "uniform words can be scanned at once");
    VF_REACH(block == 0, "free word");
    VF_REACH(block == UINT64_MAX, "used word");
#else
    page_chunk_t chunk;
    uint64_t any = 0;
    for (int i = 0; i < 8; i++) {
        chunk.blocks[i] = vf_u64();
#ifdef VF_MAXRUN
        VF_ASSUME((i >= VF_MAXRUN && i < VF_MAXRUN + 1) || chunk.blocks[i] == 0 || chunk.blocks[i] == UINT64_MAX);
#endif
        any |= chunk.blocks[i];
    }
    page_summary_t s = chunk_summarize(chunk);
#ifdef VF_MAXRUN
    vf_scan_t r = {0, 0};
    for (int i = 0; i < 8; i++) r = vf_scan(r, chunk.blocks[i]);
    VF_CHECK(s.max == (r.run > r.max ? r.run : r.max), "max is the longest free run");
    VF_REACH(s.max == 100, "some run");
#else
    VF_CHECK(s.start <= CHUNK_BITS_COUNT && s.end <= CHUNK_BITS_COUNT, "start and end are page counts");
    VF_CHECK((s.start == CHUNK_BITS_COUNT) == (any == 0) && (s.end == CHUNK_BITS_COUNT) == (any == 0), "a chunk is all free exactly when no page is used");
    uint32_t w = vf_u32();
    VF_ASSUME(w < CHUNK_BITS_COUNT);
    bool used = chunk.blocks[w / 64] >> (w % 64) & 1;
    if (w < s.start || w >= CHUNK_BITS_COUNT - s.end) VF_CHECK(!used, "start and end count free pages");
    if (w == s.start || w == CHUNK_BITS_COUNT - 1 - s.end) VF_CHECK(used, "start and end are bounded by a used page");
    VF_REACH(s.start == 100 && s.end == 200, "some pages");
#endif
#endif
}
#endif

#if VF_OP == OP_MERGE
void vf_harness(void) {
    uint8_t level = VF_LEVEL;
    uint32_t n = (uint32_t) 512 << (3 * (3 - level)); /* pages below one child */
    page_summary_t in[8];
    for (int i = 0; i < 8; i++) {
        uint32_t st = vf_u32(), mx = vf_u32(), en = vf_u32();
        VF_ASSUME(st <= n && mx <= n && en <= n && st <= mx && en <= mx);
        /* entirely free, or a used page separates start from end */
        VF_ASSUME(mx == n ? st == n && en == n : st + en < n);
        in[i] = (page_summary_t){.start = st, .max = mx, .end = en};
    }
    uint32_t start = 0, max = 0, run = 0;
    bool open = true;
    for (int i = 0; i < 8; i++) {
        if (open) start += in[i].start;
        if (in[i].max != n) open = false;
        if (run + in[i].start > max) max = run + in[i].start;
        if (in[i].max > max) max = in[i].max;
        run = in[i].max == n ? run + n : in[i].end;
    }
    page_summary_t s = merge_summarize(level, in);
    VF_CHECK(s.start == start, "start of the group");
    VF_CHECK(s.end == run, "end of the group");
    VF_CHECK(s.max == max, "longest free run of the group, across children");
    VF_REACH(s.max == 8 * n, "all free");
    VF_REACH(s.max == 0, "all used");
}
#endif

#if VF_OP == OP_SET
void vf_harness(void) {
    uint8_t bits[64], old[64];
    for (int i = 0; i < 64; i++) bits[i] = old[i] = vf_u8();
    uint64_t index = vf_u64(), count = vf_u64(), w = vf_u64();
    VF_ASSUME(index <= 512 && count <= 512 - index && w < 512);
    bool value = VF_VALUE;
    if (value) bitmap_batch_set(bits, index, count);
    else bitmap_batch_clear(bits, index, count);
    bool in = w >= index && w < index + count;
    VF_CHECK(bitmap_test(bits, w) == (in ? value : (old[w / 8] >> (w % 8) & 1)), "exactly the named bits change");
    VF_REACH(in, "inside");
    VF_REACH(!in && count == 100, "outside");
}
#endif
