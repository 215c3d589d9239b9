/*
 * Shared vocabulary of the verification units.
 *
 * Every unit #includes the real source file(s) from /repo, attaches contracts
 * (VF_REQUIRES / VF_ENSURES / VF_ASSIGNS) to the real functions, and provides
 * vf_harness(), which builds an arbitrary pre-state and calls the function.
 *
 *   under goto-cc   the contract is enforced by goto-instrument --dfcc and
 *                   discharged by cbmc; VF_CHECK states further
 *                   postconditions at the call;
 *   under gcc       the same text is compiled natively: vf_* inputs are read
 *                   from the counterexample, the real function runs, and
 *                   VF_CHECK re-evaluates the postcondition (replay).
 *
 * All arbitrary values are drawn through vf_u64() & friends *in the harness*,
 * so a counterexample is an ordered list of integers.
 */
#ifndef VF_H
#define VF_H

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

#ifdef __CPROVER__

uint64_t nondet_vf_u64(void);
/* the assignments to vf_input, in trace order, are the counterexample */
uint64_t vf_input;
static inline uint64_t vf_u64(void) {
    uint64_t v = nondet_vf_u64();
    vf_input = v;
    return v;
}

#define VF_REQUIRES(x) __CPROVER_requires(x)
#define VF_ENSURES(x) __CPROVER_ensures(x)
#define VF_ASSIGNS(...) __CPROVER_assigns(__VA_ARGS__)
#define VF_RET __CPROVER_return_value
#define VF_UPTO(p, n) __CPROVER_object_upto(p, n)
#define VF_WHOLE(p) __CPROVER_object_whole(p)

/* harness-level precondition */
#define VF_ASSUME(c) __CPROVER_assume(c)
/* harness-level postcondition */
#define VF_CHECK(c, label) __CPROVER_assert((c), "vf-post: " label)
/* postcondition also stated as an ensures clause: when the unit is enforced by
 * dfcc only replay evaluates it here; otherwise this is where it is asserted */
#ifdef VF_TRIPLE
#define VF_CHECK_C(c, label) VF_CHECK(c, label)
#else
#define VF_CHECK_C(c, label) ((void) 0)
#endif
/* vacuity guard: must be refuted, i.e. some execution gets here with c true */
#define VF_REACH(c, label) __CPROVER_assert(!(c), "vf-reach: " label)

#else /* native replay */

#include <stdio.h>
#include <stdlib.h>
#include <string.h>

extern uint64_t vf_u64(void);
extern int vf_failed;
#define VF_REQUIRES(x)
#define VF_ENSURES(x)
#define VF_ASSIGNS(...)
#define VF_ASSUME(c)                                                        \
    do {                                                                    \
        if (!(c)) {                                                         \
            printf("vf-replay: precondition not met: %s\n", #c);            \
            fflush(stdout);                                                 \
            _Exit(77);                                                      \
        }                                                                   \
    } while (0)
#define VF_CHECK(c, label)                                                  \
    do {                                                                    \
        if (!(c)) {                                                         \
            printf("vf-replay: VIOLATED %s\n", label);                      \
            fflush(stdout);                                                 \
            vf_failed = 1;                                                  \
        }                                                                   \
    } while (0)
#define VF_CHECK_C(c, label) VF_CHECK(c, label)
#define VF_REACH(c, label) ((void) 0)
#define __CPROVER_assume(c) VF_ASSUME(c)

#endif

static inline uint32_t vf_u32(void) { return (uint32_t) vf_u64(); }
static inline uint16_t vf_u16(void) { return (uint16_t) vf_u64(); }
static inline uint8_t vf_u8(void) { return (uint8_t) vf_u64(); }
static inline int64_t vf_i64(void) { return (int64_t) vf_u64(); }
static inline int32_t vf_i32(void) { return (int32_t) vf_u64(); }
static inline bool vf_bool(void) { return (vf_u64() & 1u) != 0; }

/* n arbitrary bytes into p (n is a small constant) */
#define VF_FILL(p, n)                                                       \
    do {                                                                    \
        for (size_t vf_i_ = 0; vf_i_ < (size_t) (n); vf_i_++)               \
            ((uint8_t *) (p))[vf_i_] = vf_u8();                             \
    } while (0)

void vf_harness(void);
#endif
