/* pre-included when the library is compiled for a check: binds its four heap hooks */
#include <stddef.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
void* vf_malloc(size_t); void* vf_calloc(size_t, size_t); void* vf_realloc(void*, size_t); void vf_free(void*);
#ifdef __cplusplus
}
#endif
#define tommy_malloc vf_malloc
#define tommy_calloc vf_calloc
#define tommy_realloc vf_realloc
#define tommy_free vf_free
