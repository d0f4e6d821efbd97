/* the balanced tree */
#include "common.h"
#define MAXT 1100
typedef struct { uint64_t key; tommy_tree_node node; uint32_t in; uint32_t seen; } EL;
static tommy_tree T; static EL* M[MAXT]; static unsigned N; /* the contained objects, in any order */
static uint64_t ncmp; static unsigned cmpmode;
static int cmpval(uint64_t x, uint64_t y) { ncmp++; if (cmpmode == 1) return x == y ? 0 : (int)vf_ite(x > y, 0x7fffffff, (uint64_t)(int64_t)(-0x7fffffff - 1)); return (int)(x > y) - (int)(x < y); }
static int cmp(const void* a, const void* b) { vf_assert(((const EL*)a)->in != 0xdead && ((const EL*)b)->in != 0xdead, "an object that is not contained is compared"); return cmpval(((const EL*)a)->key, ((const EL*)b)->key); }
static int cmp_arg(const void* a, const void* b) { return cmpval(*(const uint64_t*)a, ((const EL*)b)->key); }
static EL* mk(uint64_t key) { EL* e = (EL*)vf_alloc(sizeof(EL)); e->key = key; e->in = 0; e->seen = 0; return e; }
/* the greatest integer not above 1.4405 log2(n + 2) */
static unsigned limit(unsigned n) { static const unsigned short at[] = { 0, 1, 3, 5, 10, 16, 28, 45, 74, 121, 197, 320, 519, 841, 1362, 2205, 3568 }; unsigned h = 0; while (h < 17 && n >= at[h]) h++; return h; }
static unsigned walk; static int balanced;
static unsigned height(tommy_tree_node* n) { unsigned a, b; if (!n) return 0; vf_assert(++walk <= N, "the tree has too many nodes"); a = height(n->prev); b = height(n->next); if (a > b + 1 || b > a + 1) balanced = 0; return 1 + (a > b ? a : b); }
static void check_balance(void) { if (G & G_COST) { walk = 0; balanced = 1; height(T.root); vf_assert(walk == N, "the tree misses nodes"); vf_assert(balanced, "the depths of two subtrees differ by more than one"); } }
static unsigned calls; static uint64_t lastkey; static int increasing; static void* argw;
static void each(void* o) { EL* e = (EL*)o; vf_assert(e->in == 1, "foreach visits an object that is not contained"); e->seen++; if (calls) increasing &= lastkey < e->key; lastkey = e->key; calls++; }
static void each_arg(void* a, void* o) { vf_assert(a == argw, "foreach passes another argument"); each(o); }
static void burn(void* o) { unsigned k; EL* e = (EL*)o; vf_assert(e->in == 1, "foreach visits an object that is not contained"); e->in = 0xdead; calls++; if (calls > 1) increasing &= lastkey < e->key; lastkey = e->key; for (k = 0; k < sizeof(tommy_node); k++) ((volatile char*)&e->node)[k] = 0x5a; vf_release(e); }
static void burn_arg(void* a, void* o) { vf_assert(a == argw, "foreach passes another argument"); burn(o); }
static void check_each(void) { unsigned i; if (!(G & (G_MAP | G_EACH))) return; for (i = 0; i < N; i++) M[i]->seen = 0; calls = 0; increasing = 1; tommy_tree_foreach(&T, each); vf_assert(calls == N, "foreach does not call once for each element"); vf_assert(increasing, "foreach is not in increasing order"); for (i = 0; i < N; i++) vf_assert(M[i]->seen == 1, "foreach misses an element");
	calls = 0; increasing = 1; argw = &calls; tommy_tree_foreach_arg(&T, each_arg, argw); vf_assert(calls == N && increasing, "foreach_arg does not visit every element once in order"); }
static void check_all(void) { CK(G_MAP, tommy_tree_count(&T) == N, "the count is wrong"); CK(G_MAP | G_MEM, tommy_tree_memory_usage(&T) == N * sizeof(tommy_tree_node), "the memory usage is wrong"); CK(G_HEAP, vf_heap_total() == 0 && vf_foreign_blocks() == 0, "a tree uses heap memory"); check_balance(); check_each(); }
/* look for a contained element with this key in the model; a symbolic comparison splits the paths, as the tree does */
static EL* model_find(uint64_t key, unsigned* at) { unsigned i; for (i = 0; i < N; i++) if (M[i]->key == key) { if (at) *at = i; return M[i]; } return 0; }
/* the result of an operation on this key against the model, without a further split of the paths; -1: absent, as it should be */
static int agrees(const void* r, uint64_t key, const char* msg) { unsigned i; int any = 0; if (r) { for (i = 0; i < N && (const void*)M[i] != r; i++) ; vf_assert(i < N, "an object that is not contained is returned"); vf_assert(M[i]->key == key, msg); return (int)i; } for (i = 0; i < N; i++) any |= M[i]->key == key; vf_assert(!any, msg); return -1; }
static void drop(unsigned i) { M[i]->in = 0xdead; if (G & G_OWN) vf_release(M[i]); M[i] = M[--N]; }
static void do_insert(uint64_t key) { EL* e = mk(key); EL* r; uint64_t c = ncmp; unsigned n = N; r = (EL*)tommy_tree_insert(&T, &e->node, e); c = ncmp - c;
	CK(G_COST, c <= limit(n), "an insertion makes too many comparisons");
	if (r == e) { agrees(0, key, "inserting a duplicate does not return the contained object"); M[N++] = e; e->in = 1; vf_reach("insertion"); } else { vf_assert(r != 0, "an insertion returns nothing"); agrees(r, key, "an insertion does not return the inserted object"); if (G & G_OWN) vf_release(e); vf_reach("duplicate"); } }
static void do_remove(uint64_t key) { EL q; EL* r; int at; uint64_t c = ncmp; unsigned n = N; q.key = key; q.in = 0; r = (EL*)tommy_tree_remove(&T, &q); c = ncmp - c; CK(G_COST, c <= limit(n), "a removal makes too many comparisons"); at = agrees(r, key, r ? "another element is removed" : "a contained element is not removed"); if (at >= 0) { drop((unsigned)at); vf_reach("removal"); } else vf_reach("removal of an absent value"); }
/* the contained object once more, through another node */
static void do_again(unsigned i) { EL* x = mk(0); void* r = tommy_tree_insert(&T, &x->node, M[i]); vf_assert(r == (void*)M[i], "inserting a contained object again does not return it"); if (G & G_OWN) vf_release(x); vf_reach("contained object again"); }
static void do_existing(unsigned i) { EL* e = M[i]; void* r = tommy_tree_remove_existing(&T, &e->node); vf_assert(r == (void*)e, "remove_existing does not return the object of the element"); drop(i); }
static void do_search(uint64_t key) { EL q; EL* r; uint64_t c = ncmp, k = key; q.key = key; q.in = 0; r = (EL*)tommy_tree_search(&T, &q); c = ncmp - c; agrees(r, key, "search finds something else"); CK(G_COST, c <= limit(N), "a search makes too many comparisons"); c = ncmp; r = (EL*)tommy_tree_search_compare(&T, cmp_arg, &k); c = ncmp - c; agrees(r, key, "search_compare finds something else"); CK(G_COST, c <= limit(N), "a search makes too many comparisons"); r = (EL*)tommy_tree_search(&T, &q); agrees(r, key, "a search after search_compare finds something else"); }
/* snapshot of the whole observable state */
static uint64_t S1[MAXT * 5], S2[MAXT * 5]; static unsigned sn;
static void snap_node(uint64_t* s, tommy_tree_node* n) { if (!n) { s[sn++] = 1; return; } s[sn++] = (uint64_t)(uintptr_t)n; s[sn++] = (uint64_t)(uintptr_t)n->data; snap_node(s, n->prev); snap_node(s, n->next); }
static unsigned snap(uint64_t* s) { sn = 0; s[sn++] = tommy_tree_count(&T); s[sn++] = tommy_tree_memory_usage(&T); s[sn++] = vf_heap_total(); snap_node(s, T.root); return sn; }
static void pure(uint64_t key) { unsigned a, b, i; EL q; a = snap(S1); q.key = key; q.in = 0;
	switch (pick(4, "operation")) { case 0: tommy_tree_search(&T, &q); break; case 1: { uint64_t k = key; tommy_tree_search_compare(&T, cmp_arg, &k); break; }
	case 2: vf_assume(!model_find(key, 0)); vf_assert(tommy_tree_remove(&T, &q) == 0, "removal of an absent value returns something"); break;
	default: { EL* m = model_find(key, 0); EL* e; vf_assume(m != 0); e = mk(key); vf_assert(tommy_tree_insert(&T, &e->node, e) == (void*)m, "inserting a duplicate does not return the contained object"); vf_release(e); break; } }
	b = snap(S2); vf_assert(a == b, "the tree changed"); for (i = 0; i < a; i++) vf_assert(S1[i] == S2[i], "the tree changed");
	for (i = 0; i < N; i++) vf_assert(tommy_tree_search(&T, M[i]) == (void*)M[i], "afterwards the tree does not find its elements"); }
static void begin(void) { tommy_tree_init(&T, cmp); N = 0; ncmp = 0; cmpmode = (unsigned)vf_param(5, 0); }
static void end(void) { unsigned n = N; if (G & G_EACH) { calls = 0; increasing = 1; if (pick(2, "with argument")) { argw = &G; tommy_tree_foreach_arg(&T, burn_arg, argw); } else tommy_tree_foreach(&T, burn); vf_assert(calls == n && increasing, "foreach with a callback that frees does not visit every element once in order"); } }
static void window(unsigned ops, uint64_t lo, uint64_t hi) { unsigned k; for (k = 0; k < ops; k++) { unsigned op = (unsigned)vf_param(4, 0) ? (unsigned)vf_param(4, 0) - 1 : pick(5, "operation");
	if (op == 4) { vf_assume(N > 0); do_again(pick(N, "element")); } else if (op == 3) { vf_assume(N > 0); do_existing(pick(N, "element")); } else { uint64_t key = vf_range(lo, hi, "key"); if (op == 0) do_insert(key); else if (op == 1) do_remove(key); else { do_search(key); continue; } } check_all(); } }
/* shapes: all the balanced trees of a height, in an order; child shapes are decoded from the number */
static unsigned count_shapes(unsigned h) { static const unsigned c[] = { 1, 1, 3, 15, 315, 108675 }; return c[h]; }
typedef struct { unsigned h, code; uint64_t lo; unsigned n; } Q; static unsigned size_of(unsigned h, unsigned code);
static void split_shape(unsigned h, unsigned code, unsigned* hl, unsigned* cl, unsigned* hr, unsigned* cr) { unsigned a = count_shapes(h - 1), b = h >= 2 ? count_shapes(h - 2) : 0;
	if (code < a * a) { *hl = h - 1; *hr = h - 1; *cl = code / a; *cr = code % a; return; } code -= a * a; if (code < a * b) { *hl = h - 1; *hr = h - 2; *cl = code / b; *cr = code % b; return; } code -= a * b; *hl = h - 2; *hr = h - 1; *cl = code / a; *cr = code % a; }
static unsigned size_of(unsigned h, unsigned code) { unsigned hl, hr, cl, cr; if (h == 0) return 0; split_shape(h, code, &hl, &cl, &hr, &cr); return 1 + size_of(hl, cl) + size_of(hr, cr); }
static uint64_t KK[MAXT]; static unsigned build_order(Q* q, unsigned h, unsigned code) { unsigned head = 0, tail = 0, n = 0; q[tail].h = h; q[tail].code = code; q[tail].lo = 0; tail++;
	while (head < tail) { Q c = q[head++]; unsigned hl, hr, cl, cr, nl; if (c.h == 0) continue; split_shape(c.h, c.code, &hl, &cl, &hr, &cr); nl = size_of(hl, cl); KK[n++] = c.lo + nl; q[tail].h = hl; q[tail].code = cl; q[tail].lo = c.lo; tail++; q[tail].h = hr; q[tail].code = cr; q[tail].lo = c.lo + nl + 1; tail++; }
	return n; }
/* p0 groups, p1 height, p2 operations, p3 range of shapes from (p6, p7 how many; 0 all), p4 fixed operation, p5 comparison values, p8 symbolic keys */
HARNESS(tree_shape) { static Q q[2 * MAXT + 4]; unsigned h, code, n, i; G = (unsigned)vf_param(0, 0xffff); h = (unsigned)vf_param(1, 3); begin(); code = (unsigned)vf_param(6, 0) + pick((unsigned)(vf_param(7, 0) ? vf_param(7, 0) : count_shapes(h)), "shape"); n = build_order(q, h, code);
	for (i = 0; i < n; i++) { EL* e = mk(2 * KK[i] + 1); vf_assert(tommy_tree_insert(&T, &e->node, e) == (void*)e, "an insertion does not return the inserted object"); e->in = 1; M[N++] = e; }
	check_all(); if (G & G_PURE) { pure(vf_range(0, 2 * n, "key")); return; } window((unsigned)vf_param(2, 1), 0, 2 * n); end(); }
/* the sparsest trees of a height: p6 which side is deeper at every level (bits; 2 per level) */
static unsigned sparse_order(Q* q, unsigned h, unsigned side) { unsigned head = 0, tail = 0, n = 0; static unsigned sz[12]; unsigned i; sz[0] = 0; sz[1] = 1; for (i = 2; i < 12; i++) sz[i] = 1 + sz[i - 1] + sz[i - 2];
	q[tail].h = h; q[tail].lo = 0; tail++; while (head < tail) { Q c = q[head++]; unsigned hl, hr; if (c.h == 0) continue; if (side >> (c.h % 8) & 1) { hl = c.h - 1; hr = c.h > 1 ? c.h - 2 : 0; } else { hr = c.h - 1; hl = c.h > 1 ? c.h - 2 : 0; } KK[n++] = c.lo + sz[hl]; q[tail].h = hl; q[tail].lo = c.lo; tail++; q[tail].h = hr; q[tail].lo = c.lo + sz[hl] + 1; tail++; } return n; }
HARNESS(tree_sparse) { static Q q[2 * MAXT + 4]; unsigned h, n, i; G = (unsigned)vf_param(0, 0xffff); h = (unsigned)vf_param(1, 5); begin(); n = sparse_order(q, h, pick(1u << ((unsigned)vf_param(6, 0) ? (unsigned)vf_param(6, 0) : h), "side"));
	for (i = 0; i < n; i++) { EL* e = mk(2 * KK[i] + 1); tommy_tree_insert(&T, &e->node, e); e->in = 1; M[N++] = e; }
	check_all(); if (G & G_PURE) { pure(vf_range(0, 2 * n, "key")); return; } window((unsigned)vf_param(2, 1), 0, 2 * n); end(); }
/* any keys: p1 insertions of symbolic keys, p2 operations, p3 key bits */
HARNESS(tree_any) { unsigned n, i, b; G = (unsigned)vf_param(0, 0xffff); n = (unsigned)vf_param(1, 4); b = (unsigned)vf_param(3, 8); begin(); check_all(); for (i = 0; i < n; i++) { do_insert(vf_sym(b, "key")); if (i + 2 >= n) check_all(); } check_all(); if (G & G_PURE) { pure(vf_sym(b, "key")); return; } window((unsigned)vf_param(2, 1), 0, ((uint64_t)1 << b) - 1); end(); }
/* long runs: p1 elements, p2 order (0 up, 1 down, 2 zigzag, 3 stride), p3 removals (0 up, 1 down, 2 middle), one symbolic key */
HARNESS(tree_run) { unsigned n, i, o, r; G = (unsigned)vf_param(0, 0xffff); n = (unsigned)vf_param(1, 30); o = (unsigned)vf_param(2, 0); r = (unsigned)vf_param(3, 0); begin();
	for (i = 0; i < n; i++) { unsigned k = o == 0 ? i : o == 1 ? n - 1 - i : o == 2 ? (i & 1 ? n - 1 - i / 2 : i / 2) : i * 7 % n; do_insert(2 * k + 1); if (i < 70 || i % 64 == 0) check_balance(); } check_all(); do_insert(vf_range(0, 2 * n, "key")); check_all();
	while (N > 1) { unsigned best = 0; if (r < 2) for (i = 1; i < N; i++) if (r == 1 ? M[i]->key > M[best]->key : M[i]->key < M[best]->key) best = i; if (r == 2) best = N / 2; if (r == 3) best = N * 5 % 7 * N / 7; if (N & 1) do_existing(best); else do_remove(M[best]->key); if (N < 70 || N % 64 == 0) check_balance(); } check_all(); end(); }
/* A comparison that answers anything: p0 groups, p1 insertions, p2 operations after */
static int anycmp(const void* a, const void* b) { vf_assert(((const EL*)a)->in != 0xdead && ((const EL*)b)->in != 0xdead, "something that is not contained is compared"); ncmp++; return (int)(int64_t)vf_sym(2, "answer") - 1; }
static unsigned met; static void meet(tommy_tree_node* n) { EL* e; if (!n) return; vf_assert(++met <= N, "the tree has too many nodes"); e = (EL*)n->data; vf_assert(e->in == 1 && !e->seen && n == &e->node, "the tree has a foreign element or one twice"); e->seen = 1; meet(n->prev); meet(n->next); }
static void check_met(void) { unsigned i; for (i = 0; i < N; i++) M[i]->seen = 0; met = 0; meet(T.root); vf_assert(met == N, "the tree lost elements"); vf_assert(tommy_tree_count(&T) == N, "the count is wrong"); check_balance(); }
HARNESS(tree_badcmp) { unsigned n, i, k; G = (unsigned)vf_param(0, 0xffff); n = (unsigned)vf_param(1, 4); begin(); tommy_tree_init(&T, anycmp);
	for (i = 0; i < n; i++) { EL* e = mk(i); EL* r = (EL*)tommy_tree_insert(&T, &e->node, e); vf_assert(r != 0, "an insertion returns nothing"); if (r == e) { M[N++] = e; e->in = 1; } else vf_assert(r->in == 1, "an insertion returns an object that is not contained"); if (i + 2 >= n) check_met(); }
	for (k = 0; k < (unsigned)vf_param(2, 1); k++) { EL q; EL* r; q.key = 0; q.in = 0; if (pick(2, "operation") == 0) { r = (EL*)tommy_tree_search(&T, &q); vf_assert(!r || r->in == 1, "search returns an object that is not contained"); } else { r = (EL*)tommy_tree_remove(&T, &q); if (r) { vf_assert(r->in == 1, "removal returns an object that is not contained"); for (i = 0; M[i] != r; i++) ; drop(i); } check_met(); } } }
/* A tree of p1 elements (more than 16 bits count), inserted in steps of p2, with one symbolic key below p3; every p4-th is looked up, then all are removed */
HARNESS(tree_large) { unsigned n = (unsigned)vf_param(1, 66000), i, in = 0, cnt; uint64_t step = vf_param(2, 1), st = vf_param(4, 500), c; EL *e, *r; G = (unsigned)vf_param(0, 0xffff); cmpmode = 0; tommy_tree_init(&T, cmp); e = (EL*)vf_alloc(sizeof(EL) * n);
	for (i = 0; i < n; i++) { e[i].key = i * step % n * 2 + 1; e[i].in = 0; e[i].seen = 0; if (i + 1 == n) { e[i].key = vf_sym(8, "key"); vf_assume(e[i].key < vf_param(3, 3)); } c = ncmp; r = (EL*)tommy_tree_insert(&T, &e[i].node, &e[i]); CK(G_COST, ncmp - c <= 24, "an insertion makes too many comparisons"); if (i + 1 < n) vf_assert(r == &e[i], "an insertion does not return the object"); else CK(G_MAP, r->key == e[i].key, "an insertion returns another object"); if (r == &e[i]) { in++; e[i].in = 1; } else vf_reach("duplicate"); if (i % 16384 == 0) CK(G_MAP, tommy_tree_count(&T) == in, "the count is wrong"); }
	CK(G_MAP, tommy_tree_count(&T) == in, "the count is wrong"); CK(G_MEM, tommy_tree_memory_usage(&T) == (uint64_t)in * sizeof(tommy_tree_node), "the memory usage is wrong");
	if (G & G_COST) { N = in; walk = 0; balanced = 1; height(T.root); vf_assert(walk == N, "the tree misses nodes"); vf_assert(balanced, "the depths of two subtrees differ by more than one"); N = 0; }
	calls = 0; increasing = 1; tommy_tree_foreach(&T, each); CK(G_MAP, calls == in && increasing, "foreach does not visit every element once in order");
	for (i = 0; i < n; i += (unsigned)st) if (e[i].in) vf_assert(tommy_tree_search(&T, &e[i]) == (void*)&e[i], "an element is not found");
	for (cnt = in, i = 0; i < n; i++) if (e[i].in) { r = (EL*)(i & 1 ? tommy_tree_remove(&T, &e[i]) : tommy_tree_remove_existing(&T, &e[i].node)); vf_assert(r == &e[i], "a removal does not return the object"); cnt--; if (i % 16384 == 0) CK(G_MAP, tommy_tree_count(&T) == cnt, "the count is wrong"); }
	CK(G_MAP, tommy_tree_count(&T) == 0 && tommy_tree_search(&T, &e[0]) == 0, "the emptied tree is not empty"); vf_release(e); }
