/* shared by the harnesses */
#ifndef COMMON_H
#define COMMON_H
#include "vf.h"
#include "tommyds/tommy.h"
/* assertion groups: a property's check turns on only its own */
#define G_MAP 1    /* contents, counts, results of operations */
#define G_ORD 2    /* insertion order of equal keys */
#define G_MEM 4    /* memory_usage is exact */
#define G_DONE 8   /* destruction releases everything */
#define G_EACH 16  /* foreach */
#define G_PURE 32  /* searches and failed operations change nothing */
#define G_OWN 64   /* removed elements are released at once; elements only of other containers must not be touched */
#define G_HEAP 128 /* only the hooks are used */
#define G_COST 256 /* work per operation */
#define G_LOAD 512 /* load factor */
#define G_BLK 1024 /* trie blocks */
#define G_NODE 2048 /* fields of the nodes */
#define G_FRAG 4096 /* growing neither moves nor gives back memory */
#define G_WASTE 8192 /* memory not used */
#define G_WORK 16384 /* work does not grow with the number of elements */
static unsigned G;
/* blocks ever given back to the heap */
static inline uint64_t given_back(void) { return vf_heap_total() - vf_heap_blocks(); }
/* the memory of a container holds anything before its initialisation */
typedef uint32_t __attribute__((may_alias)) vf_junk32;
static inline void junk(void* p, size_t n) { uint64_t v = vf_sym(64, "old contents"); size_t i; for (i = 0; i + 4 <= n; i += 4) *(vf_junk32*)((char*)p + i) = (uint32_t)(i & 4 ? v >> 32 : v); }
#define JUNK(c) junk(c, sizeof *(c))
#define tommy_list_init(c) (JUNK(c), tommy_list_init(c))
#define tommy_tree_init(c, f) (JUNK(c), tommy_tree_init(c, f))
#define tommy_allocator_init(c, b, a) (JUNK(c), tommy_allocator_init(c, b, a))
#define tommy_hashtable_init(c, b) (JUNK(c), tommy_hashtable_init(c, b))
#define tommy_hashdyn_init(c) (JUNK(c), tommy_hashdyn_init(c))
#define tommy_hashlin_init(c) (JUNK(c), tommy_hashlin_init(c))
#define tommy_trie_init(c, a) (JUNK(c), tommy_trie_init(c, a))
#define tommy_trie_inplace_init(c) (JUNK(c), tommy_trie_inplace_init(c))
#define tommy_array_init(c) (JUNK(c), tommy_array_init(c))
#define tommy_arrayof_init(c, e) (JUNK(c), tommy_arrayof_init(c, e))
#define tommy_arrayblk_init(c) (JUNK(c), tommy_arrayblk_init(c))
#define tommy_arrayblkof_init(c, e) (JUNK(c), tommy_arrayblkof_init(c, e))
#define CK(g, c, msg) do { if (G & (g)) vf_assert_((c) != 0, msg); } while (0)
/* a symbolic choice in [0,n), split into one path per value by the solver */
static inline unsigned pick(unsigned n, const char* name) { uint64_t v = vf_range(0, n - 1, name); unsigned lo = 0, hi = n - 1; while (lo < hi) { unsigned mid = (lo + hi) / 2; if (vf_split(v <= mid)) hi = mid; else lo = mid + 1; } return lo; }
static inline uint64_t band(uint64_t a, uint64_t b) { return (a != 0) & (b != 0); }
static inline unsigned ceil_log2(uint64_t n) { unsigned r = 0; while (((uint64_t)1 << r) < n) r++; return r; }
#endif
