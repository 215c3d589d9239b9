/* Byte-loop models of the libc memory functions: under CBMC they are much
 * cheaper than the built-in array models when lengths are symbolic but small.
 * Replay uses libc. */
#ifndef VF_MEM_H
#define VF_MEM_H
#include <string.h>
#ifdef __CPROVER__
void *memcpy(void *d, const void *s, size_t n) {
    for (size_t i = 0; i < n; i++) ((unsigned char *) d)[i] = ((const unsigned char *) s)[i];
    return d;
}
void *memmove(void *d, const void *s, size_t n) {
    if (!__CPROVER_same_object(d, s) || __CPROVER_POINTER_OFFSET(d) <= __CPROVER_POINTER_OFFSET(s))
        for (size_t i = 0; i < n; i++) ((unsigned char *) d)[i] = ((const unsigned char *) s)[i];
    else
        for (size_t i = n; i > 0; i--) ((unsigned char *) d)[i - 1] = ((const unsigned char *) s)[i - 1];
    return d;
}
#ifndef VF_LIB_MEMSET
void *memset(void *d, int c, size_t n) {
    for (size_t i = 0; i < n; i++) ((unsigned char *) d)[i] = (unsigned char) c;
    return d;
}
#endif
void *memchr(const void *s, int c, size_t n) {
    for (size_t i = 0; i < n; i++)
        if (((const unsigned char *) s)[i] == (unsigned char) c) return (void *) ((const unsigned char *) s + i);
    return 0;
}
int memcmp(const void *a, const void *b, size_t n) {
    for (size_t i = 0; i < n; i++) {
        int x = ((const unsigned char *) a)[i], y = ((const unsigned char *) b)[i];
        if (x != y) return x - y;
    }
    return 0;
}
#endif
#endif
