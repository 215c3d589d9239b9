#ifndef ELF_COMMON_H
#define ELF_COMMON_H
#include "src/ld/ld_elf_reloc.h"
int ld_elf_fail(ld_elf_context_t *ctx, int status, const char *f, ...) {
    (void) ctx; (void) f;
    return status;
}
#ifdef __CPROVER__
#include <stdarg.h>
/* diagnostics text is not part of any property */
int vsnprintf(char *s, size_t n, const char *f, va_list ap) {
    (void) s; (void) n; (void) f; (void) ap;
    return 0;
}
#undef va_start
#undef va_end
#define va_start(ap, last) ((void) (ap))
#define va_end(ap) ((void) (ap))
#endif
#endif
