/* Interface between the harnesses and what executes them: the symbolic executor
 * (engine/symx.cpp) intercepts these calls; vf_native.c implements them for the
 * replay of a counterexample or of a sampled path against the compiled library. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t vf_sym(unsigned bits, const char* name);                 /* any value of that width */
uint64_t vf_range(uint64_t lo, uint64_t hi, const char* name);     /* any value in [lo,hi], symbolic */
uint64_t vf_choose(uint64_t n, const char* name);                  /* any value below n, one path each */
uint64_t vf_param(unsigned i, uint64_t def);                       /* job parameter */
void vf_assume(int c);
void vf_assert_(int c, const char* msg);
void vf_observe(uint64_t v);
void vf_reach(const char* label);
void vf_trace(const char* s, uint64_t v);
void* vf_malloc(size_t n);                                         /* the library's heap */
void* vf_calloc(size_t n, size_t s);
void* vf_realloc(void* p, size_t n);
void vf_free(void* p);
void* vf_alloc(size_t n);                                          /* the user's memory */
void vf_release(void* p);
uint64_t vf_heap_bytes(void);
uint64_t vf_heap_blocks(void);
uint64_t vf_heap_total(void);                                      /* blocks ever allocated */
void vf_heap_align(uint64_t align, uint64_t residue);              /* placement of the next heap blocks */
int vf_in_heap(const void* p, uint64_t n);                         /* [p,p+n) inside one live heap block */
void* vf_block_base(const void* p);
uint64_t vf_block_size(const void* p);
void vf_want(uint64_t n);                                          /* the next heap allocation must be of n bytes: the run ends there */
uint64_t vf_foreign_blocks(void);                                  /* uses of the C library heap */
uint64_t vf_concrete(uint64_t v);                                  /* split: one path per value */
int vf_split(int c);                                               /* c, split: one path per truth value */
uint64_t vf_cost(void);                                            /* basic blocks executed so far */
void vf_lock(const void* p, int on);                               /* block must not be accessed */
void vf_ro(const void* p, int on);                                 /* block must not be written */
uint64_t vf_ite(int c, uint64_t a, uint64_t b);                    /* c ? a : b without splitting */
void vf_assert_injective(uint64_t x, uint64_t fx, unsigned bits);  /* x -> fx is one to one */
int vf_is_native(void);
#ifdef __cplusplus
#define VF_C extern "C"
#else
#define VF_C
#endif
#ifdef VF_NATIVE
void vf_register(const char* name, void (*f)(void));
#define HARNESS_(name) VF_C void name(void); __attribute__((constructor)) static void vf_reg_##name(void) { vf_register(#name, name); } void name(void)
#else
#define HARNESS_(name) VF_C void name(void); void name(void)
#endif
#define HARNESS(name) HARNESS_(name)
#ifdef __cplusplus
}
#endif
#define vf_assert(c, msg) vf_assert_((c) != 0, msg)
#endif
