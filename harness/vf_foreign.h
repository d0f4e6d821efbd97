/* native builds: direct uses of the C library heap by the library are routed to counters */
#ifndef VF_FOREIGN_H
#define VF_FOREIGN_H
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#ifdef __cplusplus
extern "C" {
#endif
void* vf_foreign_malloc(size_t); void* vf_foreign_calloc(size_t, size_t); void* vf_foreign_realloc(void*, size_t); void vf_foreign_free(void*); void* vf_foreign_aligned(size_t, size_t); int vf_foreign_pmemalign(void**, size_t, size_t); void* vf_foreign_reallocarray(void*, size_t, size_t);
#ifdef __cplusplus
}
#endif
#define malloc vf_foreign_malloc
#define calloc vf_foreign_calloc
#define realloc vf_foreign_realloc
#define free vf_foreign_free
#define aligned_alloc vf_foreign_aligned
#define memalign vf_foreign_aligned
#define posix_memalign vf_foreign_pmemalign
#define reallocarray vf_foreign_reallocarray
#define valloc(n) vf_foreign_aligned(4096, n)
#endif
