/* assert() of the code under contract is its refusal path: reaching it with a
 * false condition ends the call, and is an error only where the contract says
 * the call has to succeed (vf_may_refuse == 0). */
#ifndef VF_REFUSE_H
#define VF_REFUSE_H
#include <stdbool.h>
#include <stdint.h>
extern int vf_may_refuse;
#ifdef __CPROVER__
static inline void vf_refuse(void) {
    __CPROVER_assert(vf_may_refuse, "vf-post: a valid request is not refused");
    __CPROVER_assume(0);
}
#else
#include <stdio.h>
#include <stdlib.h>
static inline void vf_refuse(void) {
    if (!vf_may_refuse) {
        printf("vf-replay: VIOLATED a valid request is not refused\n");
        fflush(stdout);
        _Exit(1);
    }
    printf("vf-replay: refused, as allowed\n");
    fflush(stdout);
    _Exit(0);
}
#endif
#ifndef static_assert
#define static_assert _Static_assert
#endif
#endif
#undef assert
#ifdef VF_ASSERT_CAST
/* "assert(pointer > 0)": cbmc has no order between a pointer and NULL, so the
 * left operand is compared as an integer, as the compiled code does */
#define assert(c) (((intptr_t) c) ? (void) 0 : vf_refuse())
#else
#define assert(c) ((c) ? (void) 0 : vf_refuse())
#endif
