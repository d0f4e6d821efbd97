/* the fixed block allocator */
#include "common.h"
#define MAXB 12000
static tommy_allocator A; static unsigned char* B[MAXB]; static uint32_t ID[MAXB]; static unsigned N; static uint64_t bs, al, heap0, rounded, seed; static uint32_t nid;
/* the user fills a whole block: the first bytes with a symbolic word, the others with the number of the block */
static void fill(unsigned char* p, uint32_t id) { uint64_t k; for (k = 0; k + 8 <= bs; k += 8) *(uint64_t*)(p + k) = k ? id * 0x9E3779B97F4A7C15ull + k : seed + id; for (; k < bs; k++) p[k] = (unsigned char)(id + k); }
static int holds(unsigned char* p, uint32_t id) { uint64_t k; int ok = 1; for (k = 0; k + 8 <= bs; k += 8) ok &= *(uint64_t*)(p + k) == (k ? id * 0x9E3779B97F4A7C15ull + k : seed + id); for (; k < bs; k++) ok &= p[k] == (unsigned char)(id + k); return ok; }
static unsigned char* get(void) { uint64_t t0 = vf_heap_total(), f0 = given_back(); unsigned char* p = (unsigned char*)tommy_allocator_alloc(&A); CK(G_FRAG, given_back() == f0, "taking a block gives memory back"); CK(G_FRAG, vf_heap_total() <= t0 + 1, "taking a block obtains more than one segment");
	vf_assert(p != 0, "no block is returned"); CK(G_MAP, (uintptr_t)p % al == 0, "a block is not aligned as requested"); CK(G_MAP | G_OWN, vf_in_heap(p, bs), "a block is not inside memory obtained from the heap");
	B[N] = p; ID[N] = ++nid; N++; fill(p, nid); return p; }
static void check_blocks(void) { unsigned i; for (i = 0; i < N; i++) CK(G_MAP | G_OWN, holds(B[i], ID[i]), "the contents of a block in use changed"); }
static void check_usage(void) { CK(G_MEM, tommy_allocator_memory_usage(&A) == N * rounded, "memory usage differs from the size of the blocks in use"); CK(G_MAP | G_MEM, N * bs <= vf_heap_bytes() - heap0, "the blocks in use are larger than the memory obtained"); }
static void put(unsigned i) { unsigned char* p = B[i]; CK(G_MAP | G_OWN, holds(p, ID[i]), "the contents of a block in use changed"); N--; B[i] = B[N]; ID[i] = ID[N]; { uint64_t t0 = vf_heap_total(), f0 = given_back(); tommy_allocator_free(&A, p); CK(G_FRAG, vf_heap_total() == t0 && given_back() == f0, "releasing a block uses the heap"); } }
static void begin(void) { uint64_t a = al < sizeof(void*) ? sizeof(void*) : al; rounded = (bs + a - 1) / a * a; heap0 = vf_heap_bytes(); N = 0; nid = 0; seed = vf_sym(64, "contents"); tommy_allocator_init(&A, (tommy_size_t)bs, (tommy_size_t)al); check_usage(); CK(G_HEAP | G_MAP, vf_heap_bytes() == heap0, "initialising an allocator takes memory"); }
static void end(void) { tommy_allocator_done(&A); CK(G_DONE, vf_heap_bytes() == heap0, "destruction does not release all the memory obtained"); CK(G_HEAP, vf_foreign_blocks() == 0, "the C library heap is used directly"); N = 0; CK(G_MEM, tommy_allocator_memory_usage(&A) == 0, "the memory usage after destruction"); }
static const unsigned aligns[] = { 8, 16, 64, 1, 4, 32, 128, 24, 40, 256, 4096 };
/* one segment and the next: all block sizes from p1 on (p2 of them, p3 apart), all alignments of the list up to p4, every
 * placement of the heap blocks up to p5, p6 blocks more than the first segment has */
HARNESS(alloc_fill) { unsigned i, n, more, r; uint64_t h; G = (unsigned)vf_param(0, 0xffff); bs = vf_param(1, 8) + (uint64_t)vf_param(3, 1) * pick((unsigned)vf_param(2, 1), "block size"); al = aligns[pick((unsigned)vf_param(4, 1), "alignment")]; r = pick((unsigned)vf_param(5, 1), "placement"); vf_heap_align(al < 16 ? 16 : al % 16 ? al * 16 : al, r * (sizeof(void*) > 8 ? sizeof(void*) : 8)); more = (unsigned)vf_param(6, 2);
	begin(); get(); h = vf_heap_total(); n = 1; while (vf_heap_total() == h && N + more < MAXB) { get(); n++; } for (i = 0; i < more; i++) get(); check_blocks(); check_usage();
	/* release them in one of three orders and take them again: nothing more is obtained from the heap */
	h = vf_heap_total(); n = N; { unsigned ro = pick(3, "release order"); for (i = 0; i < n; i++) put(ro == 0 ? N - 1 : ro == 1 ? 0 : N / 2); } check_usage(); CK(G_MEM, tommy_allocator_memory_usage(&A) == 0, "an allocator without blocks in use reports memory"); for (i = 0; i < n; i++) get();
	CK(G_MAP | G_HEAP, vf_heap_total() == h, "memory is obtained from the heap though there are free blocks"); check_blocks(); check_usage();
	for (i = 0; i < n / 2; i++) put(i); check_blocks(); check_usage(); end();
	if (pick(2, "again")) { begin(); get(); get(); check_blocks(); end(); } }
static const unsigned short large[] = { 2000, 1340, 4016, 5000, 4024, 1008, 4017, 4032, 2012, 1344, 2005, 4096 };
/* histories: p1 operations, p2 block sizes of the list above, p3 alignments, p4 placements, p5 index of the first size */
HARNESS(alloc_hist) { unsigned ops, k, r, high = 0; uint64_t used, h; G = (unsigned)vf_param(0, 0xffff); ops = (unsigned)vf_param(1, 6); bs = large[vf_param(5, 0) + pick((unsigned)vf_param(2, 1), "block size")]; al = aligns[pick((unsigned)vf_param(3, 1), "alignment")]; r = pick((unsigned)vf_param(4, 1), "placement"); vf_heap_align(al < 16 ? 16 : al % 16 ? al * 16 : al, r * 8); begin();
	for (k = 0; k < ops; k++) { used = N; h = vf_heap_total(); if (pick(2, "operation") == 0) { get(); if (N > high) high = N; else CK(G_MAP | G_HEAP, vf_heap_total() == h, "memory is obtained from the heap though there are free blocks"); } else { vf_assume(N > 0); put(pick(N, "block")); } (void)used; check_blocks(); check_usage(); }
	end(); }
/* p1 blocks (more than 16 bits count) of p2 bytes: disjoint, reported, given back and taken again */
HARNESS(alloc_large) { unsigned n = (unsigned)vf_param(1, 66000), i; uint64_t h, *v; unsigned char** q; G = (unsigned)vf_param(0, 0xffff); bs = vf_param(2, 8); al = 8; begin(); q = (unsigned char**)vf_alloc(sizeof(*q) * n); 
	h = vf_heap_total(); for (i = 0; i < n; i++) { q[i] = (unsigned char*)tommy_allocator_alloc(&A); v = (uint64_t*)q[i]; *v = seed + i; } N = n; vf_assert(tommy_allocator_memory_usage(&A) == N * rounded, "memory usage differs from the size of the blocks in use");
	for (i = 0; i < n; i++) vf_assert(*(uint64_t*)q[i] == seed + i, "the contents of a block in use changed");
	h = vf_heap_total(); for (i = 0; i < n; i++) tommy_allocator_free(&A, q[i]); vf_assert(tommy_allocator_memory_usage(&A) == 0, "an allocator without blocks in use reports memory"); for (i = 0; i < n; i++) { q[i] = (unsigned char*)tommy_allocator_alloc(&A); *(uint64_t*)q[i] = seed - i; } vf_assert(vf_heap_total() == h, "memory is obtained from the heap though there are free blocks"); for (i = 0; i < n; i++) vf_assert(*(uint64_t*)q[i] == seed - i, "the contents of a block in use changed");
	vf_assert(tommy_allocator_memory_usage(&A) == N * rounded, "memory usage differs from the size of the blocks in use"); vf_release(q); end(); }
/* Work: p1 blocks at most, p2 block sizes of a list, p3 work for one block on average, p4 rounds */
HARNESS(alloc_work) { static const unsigned short sizes[] = { 8, 64, 24, 500, 2000, 5000 }; static unsigned char* q[4100]; uint64_t c, sum = 0, ops = 0, per = vf_param(3, 30), seg; unsigned n, i, r = (unsigned)vf_param(4, 300); G = (unsigned)vf_param(0, 0xffff); bs = sizes[pick((unsigned)vf_param(2, 4), "block size")]; al = 8; heap0 = vf_heap_bytes(); tommy_allocator_init(&A, (tommy_size_t)bs, 8); seg = 4096 / bs + 2;
	n = pick(2, "blocks") ? (unsigned)vf_param(1, 2000) : (unsigned)(4096 / bs + pick(3, "about a segment")); for (i = 0; i < n; i++) { c = vf_cost(); q[i] = (unsigned char*)tommy_allocator_alloc(&A); sum += vf_cost() - c; ops++; vf_assert(sum <= per * (ops + seg), "taking blocks does more than a constant work on average"); }
	sum = ops = 0; for (i = 0; i < r; i++) { c = vf_cost(); q[n] = (unsigned char*)tommy_allocator_alloc(&A); tommy_allocator_free(&A, q[n]); sum += vf_cost() - c; ops++; } vf_assert(sum <= 2 * per * ops + per * seg, "taking and releasing a block does more than a constant work on average");
	c = vf_cost(); i = (unsigned)tommy_allocator_memory_usage(&A); c = vf_cost() - c; vf_assert(c <= per, "the memory usage walks the blocks");
	for (i = 0; i < n; i++) { c = vf_cost(); tommy_allocator_free(&A, q[i * 7919ull % n]); c = vf_cost() - c; vf_assert(c <= per, "releasing a block does more than a constant work"); }
	tommy_allocator_done(&A); }
