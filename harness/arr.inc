/* One kind of array. X(name), FN(name), T, OF (1 when the element size is a parameter) */
static T X(a); static uint64_t X(es);
#if OF
#define REF(p) ((unsigned char*)FN(ref)(&X(a), (tommy_size_t)(p)))
#else
#define REF(p) ((unsigned char*)FN(ref)(&X(a), (tommy_size_t)(p)))
#endif
/* the word an element holds, and how it is written: the first and the last bytes of the element */
static void X(wr)(uint64_t pos, uint64_t v) {
#if OF
	unsigned char* p = REF(pos); uint64_t k, n = X(es) < 8 ? X(es) : 8; for (k = 0; k < n; k++) p[k] = (unsigned char)(v >> 8 * k); for (k = X(es) > 16 ? X(es) - 8 : n; k < X(es); k++) p[k] = (unsigned char)(v >> 8 * (k & 7)) ^ 0x33;
#else
	FN(set)(&X(a), (tommy_size_t)pos, (void*)(uintptr_t)v);
#endif
	}
static int X(is)(uint64_t pos, uint64_t v) { /* does the element hold v */
#if OF
	unsigned char* p = REF(pos); uint64_t k, n = X(es) < 8 ? X(es) : 8; int ok = 1; for (k = 0; k < n; k++) ok &= p[k] == (unsigned char)(v >> 8 * k); for (k = X(es) > 16 ? X(es) - 8 : n; k < X(es); k++) ok &= p[k] == (unsigned char)((unsigned char)(v >> 8 * (k & 7)) ^ 0x33); return ok;
#else
	return FN(get)(&X(a), (tommy_size_t)pos) == (void*)(uintptr_t)v;
#endif
	}
static int X(zero)(uint64_t pos) {
#if OF
	unsigned char* p = REF(pos); uint64_t k; int ok = 1; for (k = 0; k < X(es); k++) { if (X(es) > 24 && k == 8) k = X(es) - 8; ok &= p[k] == 0; } return ok;
#else
	return FN(get)(&X(a), (tommy_size_t)pos) == 0;
#endif
	}
static uint64_t X(heap0), X(frees0), X(blocks0);
static void X(memcheck)(void) { if (G & G_MEM) vf_assert(FN(memory_usage)(&X(a)) == vf_heap_bytes() - X(heap0), "memory usage differs from the storage allocated"); }
#if OF == 0
#define ES sizeof(void*)
#else
#define ES X(es)
#endif
/* how much more than the elements the array holds, and in how many blocks */
static void X(wastecheck)(uint64_t size) {
	if (G & G_FRAG) vf_assert(given_back() == X(frees0), "a growth gives memory back");
	if (G & G_WASTE) { uint64_t bytes = vf_heap_bytes() - X(heap0), blocks = vf_heap_blocks() - X(blocks0);
#if BLK
		uint64_t nb = (size + BLK - 1) / BLK; vf_assert(bytes <= nb * BLK * ES + (nb <= 64 ? 64 : 2 * nb) * sizeof(void*), "the array holds more than one block and its table beyond the elements"); vf_assert(blocks <= nb + 1 + 58, "the array is made of too many blocks"); vf_assert(nb > 64 || blocks <= nb + 1, "the array is made of too many blocks");
#else
		vf_assert(size <= MINS ? bytes <= MINS * ES : bytes < 2 * size * ES, "the array holds more than twice the elements"); vf_assert(blocks <= 59, "the array is made of too many blocks"); vf_assert(size > MINS || blocks == 1, "the array is made of too many blocks");
#endif
	} }
static void X(bgn)(void) { X(frees0) = given_back(); X(blocks0) = vf_heap_blocks(); X(heap0) = vf_heap_bytes();
#if OF
	FN(init)(&X(a), (tommy_size_t)X(es));
#else
	FN(init)(&X(a));
#endif
	}
static void X(end)(void) { FN(done)(&X(a)); CK(G_DONE, vf_heap_bytes() == X(heap0), "destruction does not release all the memory obtained"); CK(G_HEAP, vf_foreign_blocks() == 0, "the C library heap is used directly"); }
/* Grow requests of any size up to a maximum, elements written at the edges, every position read.
 * p0 groups, p1 element size, p2 maximum size, p3 number of grow requests, p4 number of edges, p5 minimum size, p6 kinds of step, p7 check any two positions */
HARNESS(X(grow)) {
	uint64_t size = 0, wpos[16], wval[16], waddr[16], lim, lo; unsigned nw = 0, nwa = 0, i, k, g; G = (unsigned)vf_param(0, 0xffff); X(es) = vf_param(1, 8); lim = vf_param(2, 1000); g = (unsigned)vf_param(3, 2); lo = vf_param(5, 0);
#if !OF
	X(es) = sizeof(void*);
#endif
	X(bgn)(); CK(G_MAP, FN(size)(&X(a)) == 0, "a new array is not empty"); X(memcheck)(); X(wastecheck)(0);
	for (k = 0; k < g; k++) { uint64_t s, pos, total = vf_heap_total(); unsigned kind = vf_param(6, 2) > 1 ? pick((unsigned)vf_param(6, 2), "kind of step") : 0;
		if (kind == 2) s = size; else if (kind == 1) s = size + 1; else s = vf_range(k ? 0 : lo, lim, "size");
#if !OF
		if (kind == 1) { uint64_t v = vf_sym(8 * sizeof(void*), "element"); FN(insert)(&X(a), (void*)(uintptr_t)v); if (nw < 16) { wpos[nw] = size; wval[nw] = v; nw++; } } else
#endif
		FN(grow)(&X(a), (tommy_size_t)s);
		if (s > size) size = s; else if (G & G_MAP) vf_assert(vf_heap_total() == total, "growing to a size that is not larger obtains memory");
		CK(G_MAP, FN(size)(&X(a)) == size, "the size is not the largest size requested"); X(memcheck)(); X(wastecheck)(size);
		if (size == 0) continue;
		if (!(G & (G_MAP | G_OWN))) continue;
		for (i = 0; i < nw; i++) { if (i < nwa) CK(G_MAP, (uint64_t)(uintptr_t)REF(wpos[i]) == waddr[i], "the address of an element changed"); CK(G_MAP, X(is)(wpos[i], wval[i]), "a stored value is lost after a growth"); }
		/* any position: inside the heap, zero unless written */
		pos = vf_range(0, lim + g, "position"); vf_assume(pos < size); { unsigned char* p = REF(pos); int w = 0; for (i = 0; i < nw; i++) w |= wpos[i] == pos; vf_assume(!w); vf_assert(vf_in_heap(p, X(es)), "an element is not inside the memory of the array"); CK(G_MAP, X(zero)(pos), "a new element is not zero");
			if (vf_param(7, 1)) { uint64_t q = vf_range(0, lim + g, "other position"), d; unsigned char* p2; vf_assume(q < size); vf_assume(q != pos); p2 = REF(q); vf_assert(vf_in_heap(p2, X(es)), "an element is not inside the memory of the array"); d = (uint64_t)(p2 > p ? p2 - p : p - p2); CK(G_MAP, d >= X(es), "two elements overlap"); } }
		/* write at an edge */
		if (nw < 16) { static const uint32_t edges[] = { 0, 1, 63, 64, 127, 128, 4095, 4096, 8191, 65535 }; unsigned e = pick((unsigned)vf_param(4, 10), "edge"); uint64_t at = edges[e]; int dup = 0; vf_assume(at < size); for (i = 0; i < nw; i++) dup |= wpos[i] == at; vf_assume(!dup);
			wpos[nw] = at; wval[nw] = vf_sym(8 * sizeof(void*), "element"); X(wr)(at, wval[nw]); nw++; for (i = 0; i < nw; i++) CK(G_MAP, X(is)(wpos[i], wval[i]), "writing an element changes another"); }
		for (i = 0; i < nw; i++) waddr[i] = (uint64_t)(uintptr_t)REF(wpos[i]);
		nwa = nw; }
	X(end)(); }
/* Appending or growing in steps to a concrete size, all elements written and read back.
 * p0 groups, p1 element size, p2 maximum size, p3 step */
HARNESS(X(fill)) {
	uint64_t n, i, st, v0; unsigned char* first = 0; G = (unsigned)vf_param(0, 0xffff); v0 = vf_sym(8 * sizeof(void*), "value"); X(es) = vf_param(1, 8); st = vf_param(3, 1);
#if !OF
	X(es) = sizeof(void*);
#endif
	X(bgn)(); n = vf_concrete(vf_range(vf_param(4, 0), vf_param(2, 300), "size"));
	for (i = 0; i < n; i++) {
#if !OF
		if (st == 1) FN(insert)(&X(a), (void*)(uintptr_t)(i * 7 + v0)); else
#endif
		{ FN(grow)(&X(a), (tommy_size_t)((i / st + 1) * st)); if (i % st == 0) CK(G_MAP, X(zero)(i + st - 1), "a new element is not zero"); X(wr)(i, i * 7 + v0); }
		if (i == 0) first = REF(0); X(memcheck)(); X(wastecheck)(FN(size)(&X(a))); }
	CK(G_MAP, FN(size)(&X(a)) == (st == 1 ? n : (n + st - 1) / st * st), "the size is not the number of elements");
	if (n) CK(G_MAP, REF(0) == first, "the address of an element changed");
	for (i = 0; i < n; i++) CK(G_MAP, X(is)(i, i * 7 + v0), "a stored value is lost");
	X(end)(); }
/* Work: growing one by one costs a constant on average, reaching an element too. p0 groups, p1 element size, p2 elements, p3 step, p4 per element, p5 access */
HARNESS(X(work)) { uint64_t n = vf_param(2, 2000), st = vf_param(3, 1), per = vf_param(4, 40), acc = vf_param(5, 60), c, sum = 0, i, ops = 0, pos; G = (unsigned)vf_param(0, 0xffff); X(es) = vf_param(1, 8);
#if !OF
	X(es) = sizeof(void*);
#endif
	X(bgn)(); for (i = 0; i < n; i += st) { c = vf_cost();
#if !OF
		if (st == 1) FN(insert)(&X(a), (void*)(uintptr_t)(i + 1)); else
#endif
		FN(grow)(&X(a), (tommy_size_t)(i + st)); c = vf_cost() - c; sum += c; ops++; if (ops % 16 == 1) vf_assert(sum <= per * ops + 300, "growing does more than a constant work on average"); }
	vf_assert(sum <= per * ops + 300, "growing does more than a constant work on average");
	c = vf_cost(); FN(grow)(&X(a), (tommy_size_t)vf_range(0, n, "size")); c = vf_cost() - c; vf_assert(c <= per, "growing to a size that is not larger does more than a constant work");
	c = vf_cost(); i = FN(size)(&X(a)); c = vf_cost() - c; vf_assert(c <= per, "the size needs more than a constant work"); c = vf_cost(); i = FN(memory_usage)(&X(a)); c = vf_cost() - c; vf_assert(c <= acc, "the memory usage needs more than a constant work");
	pos = vf_range(0, n - 1, "position"); c = vf_cost(); (void)REF(pos); c = vf_cost() - c; vf_assert(c <= acc, "reaching an element does more than a constant work");
	/* one large growth: a constant for each block obtained */
	{ uint64_t b0 = vf_heap_blocks(), s = vf_range(n, 40 * n, "size"); c = vf_cost(); FN(grow)(&X(a), (tommy_size_t)s); c = vf_cost() - c; vf_assert(c <= per * (vf_heap_blocks() - b0 + 8) + 200, "growing at once does work for each element"); }
	/* then by one block more */
	if (vf_param(6, 0)) { uint64_t s = FN(size)(&X(a)) + vf_param(6, 0); FN(grow)(&X(a), (tommy_size_t)s); for (i = 1; i < 6; i++) { uint64_t b0 = vf_heap_blocks(); c = vf_cost(); FN(grow)(&X(a), (tommy_size_t)(s + i * 4096)); c = vf_cost() - c; vf_assert(c <= per * (vf_heap_blocks() - b0 + 8) + 200, "growing a large array does work for what it had"); } }
	X(end)(); }
#undef REF
#undef ES
#undef BLK
#undef MINS
