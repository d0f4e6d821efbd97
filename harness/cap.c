/* the capacity of the fixed size hashtable and which elements share a bucket */
#include "common.h"
typedef struct { uint32_t id; tommy_hashtable_node node; } OBJ;
static unsigned calls; static int cmp(const void* arg, const void* obj) { calls++; return *(const uint32_t*)arg != ((const OBJ*)obj)->id; }
static tommy_hashtable t; static unsigned n; static tommy_size_t cap; static uint64_t heap0;
static void capacity(void) { uint64_t u = tommy_hashtable_memory_usage(&t); vf_assert(u == vf_heap_bytes() - heap0 + n * sizeof(tommy_hashtable_node) && vf_heap_bytes() - heap0 == cap * sizeof(void*), "the number of buckets changed"); }
/* p0 lowest requested size, p1 how many sizes, p2 elements added later */
HARNESS(table_cap) { uint64_t r = vf_range(vf_param(0, 0), vf_param(0, 0) + vf_param(1, 1) - 1, "requested buckets"); unsigned k, lg, m = (unsigned)vf_param(2, 4); OBJ *a, *b, *o; tommy_hash_t h1, h2, j; tommy_hashtable_node* i; uint32_t id; int found, share; OBJ* more[64];
	heap0 = vf_heap_bytes(); tommy_hashtable_init(&t, (tommy_size_t)r); n = 0; cap = (tommy_size_t)vf_concrete((vf_heap_bytes() - heap0) / sizeof(void*)); vf_observe(cap);
	vf_assert((cap >= 16) & ((cap & (cap - 1)) == 0) & (cap >= r), "the number of buckets is not a sufficient power of two"); vf_assert((cap == 16) | (cap / 2 < r), "the number of buckets is larger than needed"); capacity();
	switch (pick(4, "bucket")) { case 0: j = 0; break; case 1: j = cap - 1; break; case 2: j = cap / 2; break; default: j = 5; } 
	for (lg = 0; ((tommy_size_t)1 << lg) < cap; lg++) ;
	h1 = ((tommy_hash_t)vf_sym(8 * sizeof(tommy_hash_t), "upper bits of the first hash") << lg) + j; h2 = (tommy_hash_t)vf_sym(8 * sizeof(tommy_hash_t), "second hash");
	a = (OBJ*)vf_alloc(sizeof *a); a->id = 1; tommy_hashtable_insert(&t, &a->node, a, h1); n++; capacity();
	share = ((h1 ^ h2) & (cap - 1)) == 0; i = tommy_hashtable_bucket(&t, h2); found = i == &a->node; vf_assert(found == share, "a bucket is shared or not shared against the low bits of the hashes"); vf_assert(found | (i == 0), "a bucket contains a foreign element");
	/* an element in the same bucket with another hash, and one in each of a few other buckets */
	b = (OBJ*)vf_alloc(sizeof *b); b->id = 2; h2 = (h2 << lg) + j; tommy_hashtable_insert(&t, &b->node, b, h2); n++; capacity(); i = tommy_hashtable_bucket(&t, h1); vf_assert(i == &a->node && i->next == &b->node && i->next->next == 0, "two elements with the same low bits do not share the bucket");
	for (k = 0; k < m; k++) { o = more[k] = (OBJ*)vf_alloc(sizeof *o); o->id = 3 + k; tommy_hashtable_insert(&t, &o->node, o, h1 ^ (tommy_hash_t)(k + 1)); n++; capacity(); }
	for (k = 0; k < m; k++) { id = 3 + k; calls = 0; vf_assert(tommy_hashtable_search(&t, cmp, &id, h1 ^ (tommy_hash_t)(k + 1)) == (void*)more[k], "an element is not found"); vf_assert(k + 1 >= cap || calls <= 1 + (k + cap) / cap, "elements of other buckets are compared"); }
	id = 1; calls = 0; vf_assert(tommy_hashtable_search(&t, cmp, &id, h1) == (void*)a, "an element is not found"); vf_assert(calls == 1, "others are compared before the oldest of its bucket");
	vf_assert(tommy_hashtable_remove_existing(&t, &b->node) == (void*)b, "a removal does not return the object"); n--; capacity(); for (k = m; k > 0; k--) { id = 2 + k; vf_assert(tommy_hashtable_remove(&t, cmp, &id, h1 ^ (tommy_hash_t)k) == (void*)more[k - 1], "a removal does not return the object"); n--; capacity(); } i = tommy_hashtable_bucket(&t, h1); vf_assert(i == &a->node && i->next == 0, "a bucket changed");
	tommy_hashtable_done(&t); vf_assert(vf_heap_bytes() == heap0, "destruction does not release the table"); }
/* any requested size up to 2^p0: the run ends where the table is allocated */
HARNESS(table_size) { uint64_t r = vf_range(0, (uint64_t)1 << vf_param(0, 20), "requested buckets"), want = 16; unsigned i; for (i = 4; i < vf_param(0, 20); i++) want = vf_ite(r > (uint64_t)1 << i, (uint64_t)2 << i, want);
	vf_want(want * sizeof(void*)); tommy_hashtable_init(&t, (tommy_size_t)r); vf_assert(0, "no table is allocated"); }
