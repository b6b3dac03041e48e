/* trk.h - the allocator the library is built on (RAII_MALLOC and friends). */
#ifndef TRK_H
#define TRK_H
#include <stddef.h>
void *trk_malloc(size_t n);
void *trk_calloc(size_t c, size_t n);
void *trk_realloc(void *p, size_t n);
void *trk_memalign(size_t a, size_t n);
void  trk_free(void *p);
#endif
