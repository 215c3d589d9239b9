/* Native replay driver: inputs are the counterexample's integers, one per line. */
#include <inttypes.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>

int vf_failed = 0;
static FILE *vf_file;
static int vf_random;
void vf_harness(void);

uint64_t vf_u64(void) {
    uint64_t v = 0;
    if (vf_random) {
        /* corner-biased values, used only by the harness self-test */
        static const uint64_t corners[] = {0, 1, 2, 3, 4, 7, 8, 0x7f, 0x80, 0xff,
            0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000u, 0xffffffffu,
            INT64_MAX, 0x8000000000000000ull, UINT64_MAX};
        uint64_t r = 0;
        for (int i = 0; i < 5; i++) r = (r << 15) ^ (uint64_t) rand();
        if ((r & 3) == 0) return corners[(r >> 2) % (sizeof corners / sizeof *corners)];
        if ((r & 3) == 1) return (r >> 2) & 0xff;
        return r;
    }
    if (!vf_file || fscanf(vf_file, "%" SCNu64, &v) != 1) v = 0;
    return v;
}

int main(int argc, char **argv) {
    if (argc > 1 && argv[1][0] == '@') {
        vf_random = 1;
        srand((unsigned) atoi(argv[1] + 1));
    } else if (argc > 1) {
        vf_file = fopen(argv[1], "r");
        if (!vf_file) { perror(argv[1]); return 3; }
    }
    vf_harness();
    if (vf_failed) return 1;
    printf("vf-replay: all postconditions hold\n");
    return 0;
}
