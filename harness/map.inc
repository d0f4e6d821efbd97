/* One keyed container (hashtable or trie) against its model: the list of contained objects in insertion order.
 * Before inclusion: X(name), T (container type), NODE, KEYBITS, KIND (0 hashtable, 1 hashdyn, 2 hashlin, 3 trie, 4 in-place trie) */
#define OB X(ob)
typedef struct X(ob_s) { uint64_t key; NODE node; uint32_t val; uint32_t seen; uint32_t in; uint32_t seq; struct X(ob_s) *prev, *next; } OB;
static T X(t);
static OB *X(old), *X(young); static unsigned X(n), X(seq); /* the model: contained objects, oldest first */
#define EACH(o) for (o = X(old); o; o = o->next)
#if KIND < 3
static uint64_t X(sought); static unsigned X(cmps); /* the hash of the running search, and the comparisons it made */
static int X(cmp)(const void* arg, const void* obj) { if (G & G_WORK) { X(cmps)++; vf_assert(((const OB*)obj)->key == X(sought), "an element with another hash is compared"); } uint32_t v = *(const uint32_t*)arg; return ((const OB*)obj)->val == v ? 0 : v ? 0x100 : (int)0x80000000; } /* different: values whose low bytes are zero */
static void* X(find)(uint64_t key, uint32_t val) { X(sought) = key; X(cmps) = 0; return FN(search)(&X(t), X(cmp), &val, (tommy_hash_t)key); }
static void* X(del)(uint64_t key, uint32_t val) { X(sought) = key; X(cmps) = 0; return FN(remove)(&X(t), X(cmp), &val, (tommy_hash_t)key); }
#else
static void* X(find)(uint64_t key, uint32_t val) { (void)val; return FN(search)(&X(t), (tommy_key_t)key); }
static void* X(del)(uint64_t key, uint32_t val) { (void)val; return FN(remove)(&X(t), (tommy_key_t)key); }
#endif
#if KIND < 3
#define VALEQ(o, v) ((o)->val == (v))
#else
#define VALEQ(o, v) 1
#endif
#define KEY(k) ((k) & (KEYBITS == 64 ? ~(uint64_t)0 : (((uint64_t)1 << (KEYBITS & 63)) - 1)))
#if KIND == 0
static uint64_t X(bmax);
#endif
/* what the container is expected to report; tables are measured as the heap bytes obtained since the start */
static uint64_t X(heap0);
static void X(check_mem)(void) {
	if (G & G_MEM) {
		uint64_t u = FN(memory_usage)(&X(t));
#if KIND < 3
		vf_assert(u == vf_heap_bytes() - X(heap0) + X(n) * sizeof(NODE), "memory usage differs from the tables held plus one node for each element");
#elif KIND == 3
		vf_assert(u == tommy_allocator_memory_usage(&trie_alloc) + X(n) * sizeof(NODE), "memory usage differs from the blocks held plus one node for each element");
#else
		vf_assert(u == X(n) * sizeof(NODE), "memory usage differs from one node for each element");
#endif
	} }
#define IN(o) ((o)->in == 0x5a5a)
/* lookup of one key: result, bucket contents and order. The symbolic parts are gathered and asserted once, by settle */
static int X(okmap) = 1, X(okord) = 1;
static void X(settle)(void) { CK(G_MAP, X(okmap), "a lookup or a bucket disagrees with the elements contained"); CK(G_ORD, X(okord), "elements with equal keys are not met in insertion order"); X(okmap) = X(okord) = 1; }
static void X(probe1)(uint64_t key, uint32_t val) {
	unsigned cnt = 0, want = 0, steps = 0; int any = 0, before = 0; OB *r, *o; NODE* b; uint32_t last = 0, lim;
	r = (OB*)X(find)(key, val); if (!(G & (G_MAP | G_ORD))) return;
	if (r) vf_assert(IN(r), "search returns an object that is not contained"); lim = r ? r->seq : 0;
	EACH(o) { int e = o->key == key, f = e & VALEQ(o, val); want += (unsigned)e; any |= f; if (o->seq < lim) before |= f; }
	if (!r) X(okmap) &= !any; else { X(okmap) &= (r->key == key) & VALEQ(r, val); X(okord) &= !before; }
	for (b = FN(bucket)(&X(t), (KEYT)key); b; b = b->next) { int e; o = (OB*)b->data; vf_assert(IN(o), "the bucket contains an element that is not contained"); vf_assert(&o->node == b, "the node does not lead to its object"); vf_assert(++steps <= X(n), "the bucket visits an element twice");
		e = o->key == key; cnt += (unsigned)e; X(okord) &= !(e & (o->seq <= last)); last = (uint32_t)vf_ite(e, o->seq, last); }
	X(okmap) &= cnt == want; }
static void X(probe)(uint64_t key, uint32_t val) { X(probe1)(key, val); X(settle)(); }
/* everything a user can observe, as a sequence of words */
static uint64_t X(ob1)[SNAPMAX], X(ob2)[SNAPMAX], *X(obp); static unsigned X(obn);
static void X(say)(uint64_t v) { if (X(obn) < SNAPMAX) X(obp)[X(obn)] = v; X(obn)++; }
static void X(say_each)(void* o) { X(say)((uint64_t)(uintptr_t)o); }
static unsigned X(snap)(uint64_t* p) { OB* o; NODE* b; X(obp) = p; X(obn) = 0; X(say)(FN(count)(&X(t))); X(say)(FN(memory_usage)(&X(t))); X(say)(vf_heap_bytes()); X(say)(vf_heap_total());
	EACH(o) { X(say)((uint64_t)(uintptr_t)X(find)(o->key, o->val)); for (b = FN(bucket)(&X(t), (KEYT)o->key); b; b = b->next) X(say)((uint64_t)(uintptr_t)b), X(say)((uint64_t)(uintptr_t)b->data); }
#if KIND < 3
	FN(foreach)(&X(t), X(say_each));
#endif
	return X(obn); }
static void X(same)(unsigned n0, unsigned n1) { unsigned i; vf_assert(n0 == n1, "the operation changed the container: different contents or order"); for (i = 0; i < n0 && i < SNAPMAX; i++) vf_assert(X(ob1)[i] == X(ob2)[i], i == 0 ? "the operation changed the count" : i < 4 ? "the operation changed the memory held" : "the operation changed the container"); }
/* operations that must not change anything */
static void X(pure)(uint64_t key, uint32_t val) {
	unsigned a, b; int any = 0; OB* o; NODE* i; a = X(snap)(X(ob1)); X(find)(key, val); for (i = FN(bucket)(&X(t), (KEYT)key); i; i = i->next) ; b = X(snap)(X(ob2)); X(same)(a, b);
	EACH(o) any |= (o->key == key) & VALEQ(o, val); vf_assume(!any); vf_assert(X(del)(key, val) == 0, "removal of an absent value returns something"); b = X(snap)(X(ob2)); X(same)(a, b); vf_reach("removal of an absent value"); }
static unsigned X(calls); static void* X(argw);
static void X(each)(void* o) { OB* x = (OB*)o; X(calls)++; vf_assert(IN(x), "foreach visits an object that is not contained"); x->seen++; }
static void X(each_arg)(void* a, void* o) { vf_assert(a == X(argw), "foreach passes another argument"); X(each)(o); }
static void X(check_each)(int g) {
#if KIND < 3
	OB* o; if (!(G & g)) return;
	EACH(o) o->seen = 0; X(calls) = 0; FN(foreach)(&X(t), X(each)); vf_assert(X(calls) == X(n), "foreach does not call once for each element");
	EACH(o) vf_assert(o->seen == 1, "foreach visits an element twice or never");
	X(calls) = 0; X(argw) = (void*)&X(n); FN(foreach_arg)(&X(t), X(each_arg), X(argw)); vf_assert(X(calls) == X(n), "foreach_arg does not call once for each element");
	EACH(o) vf_assert(o->seen == 2, "foreach_arg visits an element twice or never");
#else
	(void)g;
#endif
	}
/* work of the last operation and load factor, for the hashtables */
static void X(light)(void) {
	CK(G_MAP, FN(count)(&X(t)) == X(n), "the count differs from the number of elements contained"); X(check_mem)(); }
/* internal blocks: as many as a new trie with the same keys inserted in another order */
static void X(check_blocks)(void) {
#if KIND == 3
	static tommy_allocator a2; static tommy_trie t2; OB* o; unsigned i = 0, n = X(n); tommy_trie_node* nodes; if (!(G & G_BLK)) return;
	vf_assert(X(n) || tommy_allocator_memory_usage(&trie_alloc) == 0, "an empty trie holds blocks");
	tommy_allocator_init(&a2, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); tommy_trie_init(&t2, &a2); nodes = (tommy_trie_node*)vf_alloc(sizeof(tommy_trie_node) * (n + 1));
	for (o = X(young); o; o = o->prev) tommy_trie_insert(&t2, &nodes[i++], o, (tommy_key_t)o->key);
	vf_assert(tommy_allocator_memory_usage(&trie_alloc) == tommy_allocator_memory_usage(&a2), "the blocks held depend on the history, not only on the keys");
	EACH(o) { uint64_t c = vf_cost(); X(find)(o->key, 0); c = vf_cost() - c; vf_assert(c <= 150, "a lookup crosses too many levels"); }
	tommy_allocator_done(&a2); vf_release(nodes);
#endif
	}
/* what the documentation lets a user read in the node of a contained element: the object and the key */
static void X(check_nodes)(void) { OB* o; int ok = 1; EACH(o) { vf_assert(o->node.data == (void*)o, "the node of an element does not hold its object");
#if KIND == 4
	ok &= o->node.key == o->key;
#else
	ok &= o->node.index == (KEYT)o->key;
#endif
	}
	vf_assert(ok, "the node of an element does not hold its key"); }
static void X(full)(void) { OB* o; unsigned i = 0, st = (unsigned)vf_param(14, 1); X(light)(); if (G & (G_MAP | G_ORD)) { EACH(o) if (i++ % st == 0) X(probe1)(o->key, o->val); X(settle)(); } if (st > 1 && (G & G_MAP)) EACH(o) { OB* r = (OB*)X(find)(o->key, o->val); vf_assert(r != 0, "a contained element is not found"); vf_assert(IN(r), "a search returns an object that is not contained"); vf_assert((r->key == o->key) & VALEQ(r, o->val), "a search returns an object that does not match"); } if (G & G_NODE) X(check_nodes)(); X(check_blocks)(); X(check_each)(G_MAP | G_EACH); }
/* foreach whose callback destroys the objects */
static void X(burn)(void* p) { OB* o = (OB*)p; vf_assert(IN(o), "foreach visits an object that is not contained or visits it twice"); o->in = 0; { unsigned k; for (k = 0; k < sizeof(NODE); k++) ((volatile char*)&o->node)[k] = 0x5a; } X(calls)++; vf_release(o); }
static void X(burn_arg)(void* a, void* p) { vf_assert(a == X(argw), "foreach passes another argument"); X(burn)(p); }
#if KIND == 1 || KIND == 2
static uint64_t X(buckets)(void) { return (FN(memory_usage)(&X(t)) - X(n) * sizeof(NODE)) / sizeof(void*); }
#endif
static void X(check_load)(int grew) {
#if KIND == 1 || KIND == 2
	if (G & G_LOAD) { uint64_t b = X(buckets)(), c = X(n);
		if (grew) { vf_assert(b >= 2 * c, "after an insertion the buckets are less than twice the elements");
		} else if (b > MINB) {
#if KIND == 1
			vf_assert(b <= 8 * c + 8, "after a removal the buckets are more than eight times the elements");
#else
			vf_assert(b <= 16 * c + 16, "after a removal the memory is more than twice of eight times the elements");
#endif
		} }
#endif
	(void)grew; }
/* memory obtained and given back by the operation */
static uint64_t X(f0), X(t0), X(b0);
static void X(mark)(void) { if (G & G_FRAG) { X(f0) = given_back(); X(t0) = vf_heap_total(); X(b0) = vf_heap_bytes(); } }
static void X(check_frag)(int grew) {
#if KIND != 1
	if (G & G_FRAG) { uint64_t f = given_back() - X(f0), t = vf_heap_total() - X(t0);
		if (grew) { vf_assert(f == 0, "an insertion gives memory back"); vf_assert(t <= 1, "an insertion obtains more than one block"); } else vf_assert(t == 0, "a removal obtains memory");
#if KIND == 2
		if (grew && t) vf_assert(vf_heap_bytes() - X(b0) >= X(b0) - X(heap0), "the table grows by less than its size"); if (!grew) vf_assert(f <= 1, "a removal gives back more than one block");
#else
		vf_assert(f == 0, "memory is given back before the end"); vf_assert(t == 0 || KIND == 3, "memory is obtained after the initialisation");
#endif
	}
#endif
	(void)grew; }
static uint64_t X(sum), X(nops); /* work of the updates since the last time they were zeroed */
static OB* X(put)(uint64_t key, uint32_t val) {
	OB* o = (OB*)vf_alloc(sizeof(OB)); uint64_t c; o->key = KEY(key); o->val = val; o->seen = 0; o->in = 0x5a5a; o->seq = ++X(seq); o->next = 0; o->prev = X(young); if (X(young)) X(young)->next = o; else X(old) = o; X(young) = o; X(n)++;
	X(mark)(); c = vf_cost(); FN(insert)(&X(t), &o->node, o, (KEYT)o->key); c = vf_cost() - c; X(sum) += c; X(nops)++; X(check_frag)(1); CK(G_COST, c <= COSTMAX, "an insertion does unbounded work"); X(check_load)(1); return o; }
static void X(gone)(OB* o) { o->in = 0; if (o->prev) o->prev->next = o->next; else X(old) = o->next; if (o->next) o->next->prev = o->prev; else X(young) = o->prev; X(n)--; if (G & G_OWN) vf_release(o); }
static void X(pull)(OB* o) { uint64_t c; void* r; X(mark)(); c = vf_cost(); r = FN(remove_existing)(&X(t), &o->node); c = vf_cost() - c; X(sum) += c; X(nops)++; X(check_frag)(0); CK(G_COST, c <= COSTMAX, "a removal does unbounded work"); CK(G_MAP, r == (void*)o, "remove_existing does not return the object of the element"); X(gone)(o); X(check_load)(0); }
static void X(cut)(uint64_t key, uint32_t val) { /* removal by value */
	int any = 0, before = 0; OB *o, *r; uint64_t c; uint32_t lim; key = KEY(key);
	X(mark)(); c = vf_cost(); r = (OB*)X(del)(key, val); c = vf_cost() - c; X(sum) += c; X(nops)++; X(check_frag)(0); CK(G_COST, c <= COSTMAX, "a removal does unbounded work");
	if (r) vf_assert(IN(r), "removal returns an object that is not contained"); lim = r ? r->seq : 0; if (G & (G_MAP | G_ORD)) EACH(o) { int f = (o->key == key) & VALEQ(o, val); any |= f; if (o->seq < lim) before |= f; }
	if (!r) { CK(G_MAP, !any, "removal does not find a contained element"); vf_reach("removal of an absent value"); return; }
	CK(G_MAP, (r->key == key) & VALEQ(r, val), "removal returns an object that does not match"); CK(G_ORD, !before, "removal does not take the matching element inserted first");
	vf_reach("removal of a contained value"); X(gone)(r); X(check_load)(0); }
static OB* X(nth)(unsigned k) { OB* o = X(old); while (k--) o = o->next; return o; }
static void X(start)(void) {
	X(heap0) = vf_heap_bytes(); X(n) = 0; X(old) = X(young) = 0; X(seq) = 0;
#if KIND == 0
	FN(init)(&X(t), (tommy_size_t)X(bmax));
#elif KIND == 3
	FN(init)(&X(t), &trie_alloc);
#else
	FN(init)(&X(t));
#endif
	}
static void X(finish)(void) {
#if KIND < 3
	FN(done)(&X(t));
#endif
#if KIND == 3
	tommy_allocator_done(&trie_alloc);
#endif
	CK(G_DONE, vf_heap_bytes() == X(heap0), "destruction does not release all the memory obtained");
	CK(G_HEAP, KIND != 4 || vf_heap_total() == 0, "an in-place trie uses heap memory");
	CK(G_HEAP, vf_foreign_blocks() == 0, "the C library heap is used directly"); }
/* Keys: a symbolic high part and s low bits. The elements of a pattern share one symbolic high part, a free key has its own;
 * so keys with the same low bits may or may not be equal, and any table of at most 2^s buckets is fully determined by the low bits. */
static uint64_t X(pat)(unsigned kind, uint64_t base, unsigned i) {
	switch (kind) { case 0: return base | i; case 1: return base; case 2: return base | (uint64_t)i << 4; case 3: return base | (uint64_t)i << 6; case 4: return base | (uint64_t)((i & 3) * 0x55); case 5: return base ^ (uint64_t)i << (KEYBITS - 10); case 6: return base | ((uint64_t)i & 1) << 6 | i >> 1; case 7: return base | ((uint64_t)i * 37 & 0xff); case 8: return base | ((uint64_t)i * 0x9E3779B1u & 0xffff); case 10: return base | ((uint64_t)i * 0x9E3779B1u & 0x3ffff); case 12: return base | ((uint64_t)i * 0x9E3779B1u & 0x3fffff); case 13: return base | ((uint64_t)(i >> 1) * 0x9E3779B1u & 0x3fffff); case 11: return base ^ ((uint64_t)(i >> 1) * 0x9E3779B1u & 0xfffffffeu) ^ (i & 1); default: return base ^ ((uint64_t)i * 0x9E3779B1u & 0xffffffffu); } }
#if KIND >= 3
/* tries: p4 and p12 are masks of the key bits that are symbolic, p13 is a base common to all keys of the pattern */
static uint64_t X(freekey)(unsigned s, uint64_t mask) { (void)s; return (vf_sym(32, "free key") & mask) | (vf_param(13, 0) & ~mask); }
#else
static uint64_t X(freekey)(unsigned s, uint64_t lo) { uint64_t k = s < KEYBITS ? vf_sym(KEYBITS - s, "free key, high part") << s : 0; if (lo) k |= vf_range(0, lo, "free key, low part"); return k; }
#endif

/* A history: grow to a first size, change size several times, then a window of arbitrary operations.
 * p0 groups, p1 key pattern, p2 low bits s, p3 number of free keys, p4 maximum of the free low part, p5 phases, p6 window,
 * p7 size table, p8 removal order, p9 check interval, p10 buckets of the fixed table, p11 work bound, p12 maximum of the low part in the window, p13 base of the trie keys, p14 every how many elements one is looked up in a full comparison, p15 removals by element mostly (0), by value (1), by turns (2) */
static const unsigned X(sizes)[][12] = { {5, 0, 1, 2, 3, 5}, {7, 0, 1, 7, 8, 9, 16, 17}, {6, 0, 3, 31, 32, 33, 65}, {5, 7, 8, 17, 33, 70}, {7, 1, 31, 33, 64, 66, 130, 140}, {3, 0, 1, 2}, {5, 33, 63, 65, 129, 150}, {3, 0, 40, 130}, {3, 0, 20, 40}, {4, 30, 130, 260, 300}, {4, 0, 60, 258, 520}, {4, 17, 34, 66, 70}, {3, 12, 66, 70}, {1, 0}, {3, 0, 700, 1500}, {2, 2050, 5000}, {2, 9000, 34000}, {1, 66000}, {2, 300, 70000}, {1, 1050000}, {1, 270000} };
HARNESS(X(hist)) {
	unsigned stride = (unsigned)vf_param(14, 1), rm = (unsigned)vf_param(15, 0), pk, nf, ph, win, st, ro, every, i, k, size; uint64_t base; uint64_t fm, wm; unsigned sl; uint64_t frk[8]; uint32_t frv[8]; uint32_t nv = 0; unsigned ops = 0;
	G = (unsigned)vf_param(0, 0xffff); pk = (unsigned)vf_param(1, 0); nf = (unsigned)vf_param(3, 1); fm = vf_param(4, 0); sl = (unsigned)vf_param(2, 0); wm = vf_param(12, fm); ph = (unsigned)vf_param(5, 2); win = (unsigned)vf_param(6, 1); st = (unsigned)vf_param(7, 0); ro = (unsigned)vf_param(8, 0); every = (unsigned)vf_param(9, 1);
#if KIND == 0
	X(bmax) = vf_param(10, 16);
#endif
#if KIND == 3
	trie_setup();
#endif
	X(start)();
#if KIND >= 3
	base = vf_param(13, 0);
#else
	base = sl < KEYBITS ? vf_sym(KEYBITS - sl, "base, high part") << sl : 0;
#endif
	for (i = 0; i < nf; i++) { uint64_t k2 = X(freekey)(sl, fm); frk[i] = KEY(k2); frv[i] = (uint32_t)vf_range(0, 1, "value"); X(put)(k2, frv[i]); }
	for (k = 0; k < ph; k++) { size = X(sizes)[st][1 + pick(X(sizes)[st][0], "size")]; vf_trace("size", size);
		while (X(n) < size + nf) { X(put)(X(pat)(pk, base, X(n) - nf + (k & 1)), nv++ & 1); if (++ops % every == 0) X(light)(); }
		while (X(n) > size + nf) { OB* o = ro == 0 ? X(nth)(nf) : ro == 1 ? X(young) : X(nth)(nf + (X(n) - nf) / 2); if (rm == 0 ? ops & 1 || ops % stride : rm == 2 && ops & 1) X(pull)(o); else X(cut)(o->key, o->val); if (++ops % every == 0) X(light)(); }
		X(full)(); for (i = 0; i < nf; i++) X(probe)(frk[i], frv[i]); }
	if (G & G_PURE) { uint64_t key = X(freekey)(sl, wm); X(pure)(key, (uint32_t)vf_range(0, 1, "value")); return; }
	for (k = 0; k < win; k++) { unsigned op = pick(4, "operation"); uint64_t key; uint32_t val;
		if (op == 2) { unsigned w; vf_assume(X(n) > 0); w = pick(3, "which"); X(pull)(w == 0 ? X(old) : w == 1 ? X(young) : X(nth)(X(n) / 2)); }
		else { key = X(freekey)(sl, wm); val = (uint32_t)vf_range(0, 1, "value"); if (op == 0) X(put)(key, val); else if (op == 1) X(cut)(key, val); else { X(probe)(key, val); continue; } }
		X(full)(); }
#if KIND < 3
	if (G & G_EACH) { unsigned n = X(n); X(calls) = 0; if (pick(2, "with argument")) { X(argw) = &G; FN(foreach_arg)(&X(t), X(burn_arg), X(argw)); } else FN(foreach)(&X(t), X(burn)); vf_assert(X(calls) == n, "foreach with a callback that frees does not call once for each element"); X(finish)(); return; }
#endif
	if (X(n) && pick(2, "empty it first")) { while (X(n)) { OB* o = ro == 1 ? X(young) : X(old); if (rm == 1) X(cut)(o->key, o->val); else X(pull)(o); } X(light)(); X(check_blocks)(); }
	X(finish)(); }

/* Work. A table is filled (and, if asked, filled more and emptied again to that size), then elements are inserted and removed many times around
 * that size, then all are removed. p0 groups, p1 key pattern, p2 low bits, p3 sizes up to index, p4 rounds, p5 work allowed per update on average,
 * p6 work allowed for a lookup (0: not limited), p7 larger sizes up to index, p11 work allowed for each single update, p13 base of the trie keys */
static const unsigned X(levels)[] = { 0, 1, 8, 9, 16, 17, 32, 33, 64, 65, 66, 3, 4, 5, 7, 31, 63, 127, 128, 129, 130, 260 };
static const unsigned X(hugelevels)[] = { 20000, 16384, 16385, 32768 };
static const unsigned X(biglevels)[] = { 1024, 1025, 2048, 1000, 511, 512, 513, 1023, 2047, 2049, 4096, 4097 };
HARNESS(X(flow)) {
	unsigned pk = (unsigned)vf_param(1, 0), sl = (unsigned)vf_param(2, 12), rounds = (unsigned)vf_param(4, 100), size, mode, i, k, step, top; uint64_t base, per = vf_param(5, 60), look = vf_param(6, 0), c; OB* o;
	G = (unsigned)vf_param(0, 0xffff);
#if KIND == 0
	X(bmax) = vf_param(10, 16);
#endif
#if KIND == 3
	trie_setup();
#endif
	X(start)();
#if KIND >= 3
	base = vf_param(13, 0);
#else
	base = vf_sym(KEYBITS - sl, "base, high part") << sl;
#endif
	size = vf_param(7, 0) > 100 ? X(hugelevels)[pick((unsigned)vf_param(7, 0) - 100, "size")] : vf_param(7, 0) ? X(biglevels)[pick((unsigned)vf_param(7, 0), "size")] : X(levels)[pick((unsigned)vf_param(3, 11), "size")]; top = size + (pick(2, "from above") ? size + 20 : 0); X(sum) = X(nops) = 0; k = 0;
	while (X(n) < top) X(put)(X(pat)(pk, base, k++), 0);
	vf_assert(X(sum) <= per * X(nops) + 2000, "insertions do more than a constant work on average");
	while (X(n) > size) X(pull)(X(n) & 1 ? X(old) : X(young));
	vf_assert(X(sum) <= per * X(nops) + 2000, "removals do more than a constant work on average");
	c = vf_cost(); FN(count)(&X(t)); c = vf_cost() - c; vf_assert(c <= 20, "counting the elements walks them"); c = vf_cost(); FN(memory_usage)(&X(t)); c = vf_cost() - c; vf_assert(c <= 40, "the memory usage walks the elements");
	if (look) { i = 0; EACH(o) if (i++ % 7 == 0) { c = vf_cost(); vf_assert(X(find)(o->key, o->val) != 0, "an element is not found"); c = vf_cost() - c; vf_assert(c <= look, "a lookup does more than a constant work"); 
#if KIND < 3
		vf_assert(X(cmps) == 1, "a lookup of a key without duplicates compares more than one element");
#endif
		} c = vf_cost(); X(find)(X(freekey)(sl, 0), 0); c = vf_cost() - c; vf_assert(c <= look, "a lookup does more than a constant work"); }
	mode = pick(6, "mode"); step = 1 + mode / 2; X(sum) = X(nops) = 0;
	for (i = 0; i < rounds; i++) { unsigned j; for (j = 0; j < step; j++) { if (mode & 1) { if (X(n)) X(pull)(X(young)); } else X(put)(X(pat)(pk, base, k++), 0); } for (j = 0; j < step; j++) { if (mode & 1) X(put)(X(pat)(pk, base, k++), 0); else X(pull)(i & 1 ? X(old) : X(young)); } }
	vf_assert(X(sum) <= per * X(nops) + 2 * per * (size + 64), "insertions and removals in turn do more than a constant work on average");
	X(sum) = X(nops) = 0; while (X(n)) X(pull)(mode & 1 ? X(old) : X(young)); vf_assert(X(sum) <= per * (X(nops) + size + 64), "removals do more than a constant work on average");
	X(finish)(); }
