/* Native implementation of vf.h: replays one concrete input vector against the compiled library.
 * exit 0: the run ended and every assertion held; 99: an assertion failed; 97: the inputs do not satisfy an
 * assumption; 98: the inputs ran out (the run took another path). */
#define _GNU_SOURCE
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
void __asan_poison_memory_region(void const volatile*, size_t); void __asan_unpoison_memory_region(void const volatile*, size_t);
#endif
#endif
#define NOI __attribute__((no_sanitize("coverage")))
static struct { const char* n; void (*f)(void); } reg[256]; static int nreg;
void vf_register(const char* name, void (*f)(void)) { reg[nreg].n = name; reg[nreg++].f = f; }
static uint64_t* in; static int nin, pin; static uint64_t par[64]; static int npar; static FILE* obs;
struct un { uint64_t seq, off; int v; }; static struct un* uns; static int nun;
static uint64_t cost;
void __sanitizer_cov_trace_pc(void); void __sanitizer_cov_trace_pc(void) { cost++; }
static void die(int code, const char* k, const char* m) { if (obs) fflush(obs); printf("%s %s\n", k, m); fflush(stdout); _Exit(code); }
static uint64_t next(const char* name) { if (pin >= nin) die(98, "VF-EXHAUSTED", name ? name : ""); return in[pin++]; }
uint64_t vf_sym(unsigned bits, const char* name) { uint64_t v = next(name); return bits >= 64 ? v : v & ((1ULL << bits) - 1); }
uint64_t vf_range(uint64_t lo, uint64_t hi, const char* name) { uint64_t v; if (lo > hi) die(97, "VF-ASSUME", "empty range"); v = next(name); if (v < lo || v > hi) die(97, "VF-ASSUME", "range"); return v; }
uint64_t vf_choose(uint64_t n, const char* name) { uint64_t v = next(name); if (v >= n) die(97, "VF-ASSUME", "choice"); return v; }
uint64_t vf_param(unsigned i, uint64_t def) { return (int)i < npar ? par[i] : def; }
void vf_assume(int c) { if (!c) die(97, "VF-ASSUME", ""); }
void vf_assert_(int c, const char* msg) { if (!c) die(99, "VF-FAIL", msg); }
void vf_observe(uint64_t v) { if (obs) fprintf(obs, "%llu\n", (unsigned long long)v); }
void vf_reach(const char* l) { (void)l; }
void vf_trace(const char* s, uint64_t v) { printf("  %s %llu\n", s, (unsigned long long)v); fflush(stdout); }
/* block table: open addressing on the address, sorted list is not needed except for inner pointers */
struct blk { char* p; char* raw; size_t n, rawn; uint64_t seq; int kind; int live; char* snap; int mm; };
static struct blk* bl; static size_t nbl, cbl; static uint64_t seq; static uint64_t hb, hk, ht; static uint64_t al = 16, re = 0;
static size_t* hidx; static size_t hcap;
static size_t hs(const void* p) { uint64_t x = (uint64_t)(uintptr_t)p; x ^= x >> 13; x *= 0x9E3779B97F4A7C15ULL; return (size_t)(x >> 20) & (hcap - 1); }
static void hput(size_t i) { size_t h = hs(bl[i].p); while (hidx[h] != (size_t)-1) h = (h + 1) & (hcap - 1); hidx[h] = i; }
static struct blk* find(const void* p) { size_t h; struct blk* r = 0; if (!hcap) return 0; h = hs(p); while (hidx[h] != (size_t)-1) { struct blk* b = &bl[hidx[h]]; if (b->p == p && (!r || b->live)) r = b; h = (h + 1) & (hcap - 1); } return r; }
static struct blk* inner(const void* p) { struct blk* b = find(p); size_t i; if (b && b->live) return b; for (i = 0; i < nbl; i++) if (bl[i].live && (char*)p >= bl[i].p && (char*)p <= bl[i].p + bl[i].n) return &bl[i]; return 0; }
static void* get(size_t n, int kind, int zero) {
	struct blk* b; size_t pad = 0, i; char* raw; int mm = 0; size_t rawn;
	if (nbl == cbl) { cbl = cbl ? cbl * 2 : 1024; bl = realloc(bl, cbl * sizeof *bl); hcap = cbl * 4; free(hidx); hidx = malloc(hcap * sizeof *hidx); memset(hidx, 255, hcap * sizeof *hidx); for (i = 0; i < nbl; i++) hput(i); }
	if (n >= (size_t)1 << 26) { /* the end of a large block is followed by an inaccessible page */
		char* end; rawn = ((n + (kind == 0 ? (size_t)al : 16) + 4095) & ~(size_t)4095) + 4096; raw = mmap(0, rawn, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (raw == MAP_FAILED) die(96, "VF-NOMEM", ""); mm = 1; zero = 0;
		end = raw + rawn - 4096; mprotect(end, 4096, PROT_NONE); pad = rawn - 4096 - n; pad -= kind == 0 ? (size_t)(((uintptr_t)raw + pad + al - re % al) % al) : (size_t)(((uintptr_t)raw + pad) % 16); }
	else if (kind == 0) { rawn = n + 2 * (size_t)al; if (rawn == 0) rawn = 1; raw = malloc(rawn); pad = (size_t)(((re % al) + al - (uintptr_t)raw % al) % al); free(raw); /* exact end: allocate pad + n and retry until the placement matches */
		for (i = 0; i < 64; i++) { size_t want = pad + n; raw = malloc(want ? want : 1); pad = (size_t)(((re % al) + al - (uintptr_t)raw % al) % al); if (pad + n <= want) { rawn = want; break; } free(raw); raw = 0; }
		if (!raw) { rawn = n + 2 * (size_t)al; raw = malloc(rawn); pad = (size_t)(((re % al) + al - (uintptr_t)raw % al) % al); } }
	else { rawn = n ? n : 1; raw = malloc(rawn); }
	if (!raw) die(96, "VF-NOMEM", "");
	if (!mm) memset(raw, 0xA5, rawn);
	b = &bl[nbl]; memset(b, 0, sizeof *b); b->raw = raw; b->rawn = rawn; b->p = raw + pad; b->n = n; b->kind = kind; b->live = 1; b->seq = ++seq; b->mm = mm; hput(nbl); nbl++;
	if (zero) memset(b->p, 0, n); else for (i = 0; i < (size_t)nun; i++) if (uns[i].seq == b->seq && uns[i].off < n) b->p[uns[i].off] = (char)uns[i].v;
	if (kind == 0) { hb += n; hk++; ht++; }
	return b->p; }
static void put(void* p, int kind) { struct blk* b; if (!p) return; b = find(p); if (!b || b->kind != kind) die(99, "VF-FAIL", "release of a pointer that was not obtained from the matching allocation function"); if (!b->live) die(99, "VF-FAIL", "memory released twice");
	b->live = 0; if (kind == 0) { hb -= b->n; hk--; } if (b->mm) { munmap(b->raw, b->rawn); return; } memset(b->p, 0xDD, b->n); free(b->raw); }
static int wset; static uint64_t wn; void vf_want(uint64_t n) { wset = 1; wn = n; }
static void wanted(uint64_t n) { if (!wset) return; if (n != wn) die(99, "VF-FAIL", "memory of a wrong size is obtained"); if (obs) fflush(obs); _Exit(0); }
void* vf_malloc(size_t n) { wanted(n); return get(n, 0, 0); }
void* vf_calloc(size_t n, size_t s) { wanted((uint64_t)n * s); if (s && n > (size_t)-1 / s) die(99, "VF-FAIL", "calloc size overflow"); return get(n * s, 0, 1); }
void* vf_realloc(void* p, size_t n) { struct blk* b; void* q; size_t o; if (!p) return vf_malloc(n); b = find(p); if (!b || !b->live || b->kind) die(99, "VF-FAIL", "realloc of a pointer that was not obtained from the matching allocation function"); o = b->n; q = get(n, 0, 0); memcpy(q, p, o < n ? o : n); put(p, 0); return q; }
void vf_free(void* p) { put(p, 0); }
void* vf_alloc(size_t n) { return get(n, 1, 0); }
void vf_release(void* p) { put(p, 1); }
uint64_t vf_heap_bytes(void) { return hb; } uint64_t vf_heap_blocks(void) { return hk; } uint64_t vf_heap_total(void) { return ht; }
void vf_heap_align(uint64_t a, uint64_t r) { al = a ? a : 16; re = r; }
int vf_in_heap(const void* p, uint64_t n) { struct blk* b = inner(p); return b && b->kind == 0 && (uint64_t)(b->p + b->n - (char*)p) >= n; }
void* vf_block_base(const void* p) { struct blk* b = inner(p); return b ? b->p : 0; }
uint64_t vf_block_size(const void* p) { struct blk* b = inner(p); return b ? b->n : 0; }
static uint64_t foreign;
#ifdef VF_WRAP /* the harness runs with --wrap for the C heap only in the library object */
void* vf_foreign_malloc(size_t n); void* vf_foreign_malloc(size_t n) { foreign++; return malloc(n); }
void* vf_foreign_calloc(size_t n, size_t s); void* vf_foreign_calloc(size_t n, size_t s) { foreign++; return calloc(n, s); }
void* vf_foreign_realloc(void* p, size_t n); void* vf_foreign_realloc(void* p, size_t n) { foreign++; return realloc(p, n); }
void* vf_foreign_aligned(size_t a, size_t n); void* vf_foreign_aligned(size_t a, size_t n) { foreign++; return aligned_alloc(a, (n + a - 1) / a * a); }
int vf_foreign_pmemalign(void** p, size_t a, size_t n); int vf_foreign_pmemalign(void** p, size_t a, size_t n) { *p = vf_foreign_aligned(a, n); return 0; }
void* vf_foreign_reallocarray(void* p, size_t a, size_t n); void* vf_foreign_reallocarray(void* p, size_t a, size_t n) { foreign++; return realloc(p, a * n); }
void vf_foreign_free(void* p); void vf_foreign_free(void* p) { foreign++; free(p); }
#endif
uint64_t vf_foreign_blocks(void) { return foreign; }
uint64_t vf_concrete(uint64_t v) { return v; }
int vf_split(int c) { return c != 0; }
uint64_t vf_cost(void) { return cost; }
void vf_lock(const void* p, int on) { struct blk* b = find(p); if (!b) return;
#ifdef VF_ASAN
	if (on) __asan_poison_memory_region(b->p, b->n); else __asan_unpoison_memory_region(b->p, b->n);
#endif
	(void)on; }
void vf_ro(const void* p, int on) { struct blk* b = find(p); if (!b) return; if (on) { free(b->snap); b->snap = malloc(b->n + 1); memcpy(b->snap, b->p, b->n); } else if (b->snap) { if (memcmp(b->snap, b->p, b->n)) die(99, "VF-FAIL", "write to memory that must not change"); free(b->snap); b->snap = 0; } }
uint64_t vf_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int vf_is_native(void) { return pin < nin ? 2 : 1; }
void vf_assert_injective(uint64_t x, uint64_t fx, unsigned bits) { (void)x; (void)fx; (void)bits; }
int main(int argc, char** argv) {
	FILE* f; char t[8]; int i, ci = 0, cu = 0; unsigned long long a, b, c; if (argc < 3) { for (i = 0; i < nreg; i++) puts(reg[i].n); return 2; }
	f = fopen(argv[2], "r"); if (!f) return 2;
	while (fscanf(f, "%7s", t) == 1) {
		if (t[0] == 'P') { if (fscanf(f, "%llu", &a) != 1) break; if (npar < 64) par[npar++] = a; }
		else if (t[0] == 'I') { if (fscanf(f, "%llu", &a) != 1) break; if (nin == ci) { ci = ci ? 2 * ci : 256; in = realloc(in, ci * sizeof *in); } in[nin++] = a; }
		else if (t[0] == 'U') { if (fscanf(f, "%llu %llu %llu", &a, &b, &c) != 3) break; if (nun == cu) { cu = cu ? 2 * cu : 256; uns = realloc(uns, cu * sizeof *uns); } uns[nun].seq = a; uns[nun].off = b; uns[nun++].v = (int)c; } }
	fclose(f); if (argc > 3) obs = fopen(argv[3], "w");
	for (i = 0; i < nreg; i++) if (!strcmp(reg[i].n, argv[1])) { reg[i].f(); if (obs) fclose(obs); printf("VF-OK\n"); fflush(stdout); _Exit(0); }
	return 2; }
