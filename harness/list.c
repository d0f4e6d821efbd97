/* double linked lists and their sort */
#include "common.h"
#define MAXL 1100
typedef struct { uint64_t key; tommy_node node; tommy_node node2; uint32_t id; uint32_t in; uint32_t seen; } EL;
static tommy_list L[3]; static EL* M[3][MAXL]; static unsigned N[3]; /* the lists and what they must contain */
static uint64_t ncmp; static unsigned cmpmode; static void* cmp_lists;
static int keycmp(const void* a, const void* b) { uint64_t x = ((const EL*)a)->key, y = ((const EL*)b)->key; ncmp++;
	switch (cmpmode) { case 0: return (int)(x > y) - (int)(x < y); case 1: return x == y ? 0 : (int)vf_ite(x > y, 0x7fffffff, (uint64_t)(int64_t)(-0x7fffffff - 1)); default: return (int)x - (int)y; } }
static void check_list(unsigned l) { /* forward and backward walks, accessors */
	tommy_node* i; unsigned n = 0; tommy_node *h = tommy_list_head(&L[l]), *t;
	vf_assert(!tommy_list_empty(&L[l]) == (N[l] != 0), "emptiness is wrong");
	for (i = h; i; i = i->next) { vf_assert(n < N[l], "the forward walk meets too many elements"); vf_assert(i == &M[l][n]->node, "the forward walk meets another element"); vf_assert(i->data == (void*)M[l][n], "an element lost its object"); n++; }
	vf_assert(n == N[l], "the forward walk misses elements"); CK(G_MAP, tommy_list_count(&L[l]) == N[l], "the count is wrong");
	vf_assert((h != 0) == (N[l] != 0), "the head of an empty list"); t = tommy_list_tail(&L[l]); vf_assert((t != 0) == (N[l] != 0), "the tail is wrong");
	if (N[l]) { n = N[l]; for (i = t; ; i = i->prev) { n--; vf_assert(i == &M[l][n]->node, "the backward walk meets another element"); if (n == 0) break; } vf_assert(i == h, "the backward walk does not end at the head"); } }
static void add_head(unsigned l, EL* e) { unsigned i; tommy_list_insert_head(&L[l], &e->node, e); for (i = N[l]; i > 0; i--) M[l][i] = M[l][i - 1]; M[l][0] = e; N[l]++; e->in = 1; }
static void add_tail(unsigned l, EL* e) { tommy_list_insert_tail(&L[l], &e->node, e); M[l][N[l]++] = e; e->in = 1; }
static void take(unsigned l, unsigned k) { unsigned i; EL* e = M[l][k]; tommy_node old = e->node; void* d = tommy_list_remove_existing(&L[l], &e->node); vf_assert(d == (void*)e, "removal does not return the object"); CK(G_NODE, (e->node.next == old.next) & (e->node.prev == old.prev) & (e->node.data == old.data), "the node of a removed element changed"); for (i = k; i + 1 < N[l]; i++) M[l][i] = M[l][i + 1]; N[l]--; e->in = 0; if (G & G_OWN) vf_release(e); }
static void join(unsigned a, unsigned b) { unsigned i; tommy_list_concat(&L[a], &L[b]); for (i = 0; i < N[b]; i++) M[a][N[a]++] = M[b][i]; N[b] = 0; }
static EL* mk(uint64_t key, uint32_t id) { EL* e = (EL*)vf_alloc(sizeof(EL)); e->key = key; e->id = id; e->in = 0; e->seen = 0; return e; }
static unsigned calls; static void* argw; static unsigned cur;
static void each(void* o) { vf_assert(calls < N[cur], "foreach calls too many times"); vf_assert(o == (void*)M[cur][calls], "foreach visits another object"); calls++; }
static void each_arg(void* a, void* o) { vf_assert(a == argw, "foreach passes another argument"); each(o); }
static void burn(void* o) { unsigned k; EL* e = (EL*)o; vf_assert(calls < N[cur] && o == (void*)M[cur][calls], "foreach visits another object"); calls++; for (k = 0; k < sizeof(tommy_node); k++) ((volatile char*)&e->node)[k] = 0x5a; vf_release(e); }
static void burn_arg(void* a, void* o) { vf_assert(a == argw, "foreach passes another argument"); burn(o); }
static void check_each(unsigned l) { cur = l; calls = 0; tommy_list_foreach(&L[l], each); vf_assert(calls == N[l], "foreach misses elements"); calls = 0; argw = &calls; tommy_list_foreach_arg(&L[l], each_arg, argw); vf_assert(calls == N[l], "foreach_arg misses elements"); }
/* the order after a sort: the elements that were there, sorted, equal ones in their old order */
static void sort_list(unsigned l, unsigned checks) {
	static EL* old[MAXL]; static EL* now[MAXL]; unsigned i, j, n = N[l], c = 0; int sorted = 1, stable = 1; tommy_node* p; for (i = 0; i < n; i++) { old[i] = M[l][i]; old[i]->id = i; old[i]->seen = 0; }
	ncmp = 0; tommy_list_sort(&L[l], keycmp);
	for (p = tommy_list_head(&L[l]); p; p = p->next) { EL* e; vf_assert(c < n, "the sorted list has too many elements"); e = (EL*)p->data; j = 0; if (n <= 64) { for (; j < n && old[j] != e; j++) ; } else { vf_assert(p == &e->node, "the sorted list has a foreign element"); j = e->id; if (j < n && old[j] != e) j = n; } vf_assert(j < n && p == &e->node, "the sorted list has a foreign element"); vf_assert(!e->seen, "the sorted list has an element twice"); e->seen = 1; now[c++] = e; }
	vf_assert(c == n, "the sorted list lost elements"); for (i = 0; i + 1 < n; i++) { sorted &= now[i]->key <= now[i + 1]->key; stable &= (now[i]->key != now[i + 1]->key) | (now[i]->id < now[i + 1]->id); }
	if (checks) { vf_assert(sorted, "the sorted list is not in order"); vf_assert(stable, "the sort is not stable"); }
	for (i = 0; i < n; i++) M[l][i] = now[i]; }
/* p0 groups, p1 elements of the first list, p2 of the second, p3 operations, p4 kinds of operation, p5 key bits */
HARNESS(list_ops) {
	unsigned n0, n1, ops, k, id = 0, i; G = (unsigned)vf_param(0, 0xffff); ops = (unsigned)vf_param(3, 2);
	for (i = 0; i < 3; i++) { tommy_list_init(&L[i]); N[i] = 0; check_list(i); }
	n0 = pick((unsigned)vf_param(1, 4) + 1, "first list"); n1 = pick((unsigned)vf_param(2, 3) + 1, "second list");
	for (i = 0; i < n0; i++) { EL* e = mk(vf_sym((unsigned)vf_param(5, 3), "key"), id++); if (i & 1) add_head(0, e); else add_tail(0, e); } for (i = 0; i < n1; i++) add_tail(1, mk(vf_sym((unsigned)vf_param(5, 3), "key"), id++));
	check_list(0); check_list(1);
	for (k = 0; k < ops; k++) { unsigned op = pick((unsigned)vf_param(4, 8), "operation");
		switch (op) {
		case 0: i = pick(2, "list"); add_head(i, mk(vf_sym((unsigned)vf_param(5, 3), "key"), id++)); break;
		case 1: i = pick(2, "list"); add_tail(i, mk(vf_sym((unsigned)vf_param(5, 3), "key"), id++)); break;
		case 2: case 3: vf_assume(N[op - 2] > 0); take(op - 2, pick(N[op - 2], "position")); break;
		case 4: join(0, 1); check_list(0); tommy_list_init(&L[1]); break;
		case 5: join(1, 0); check_list(1); tommy_list_init(&L[0]); break;
		case 6: sort_list(0, 1); break;
		default: vf_assume(N[0] > 0); { EL* e; k = k; take(0, 0); e = mk(1, id++); add_tail(1, e); } break; }
		for (i = 0; i < 2; i++) { check_list(i); if (G & G_EACH) check_each(i); } }
	if (G & G_EACH) { cur = 0; calls = 0; if (pick(2, "with argument")) { argw = &G; tommy_list_foreach_arg(&L[0], burn_arg, argw); } else tommy_list_foreach(&L[0], burn); vf_assert(calls == N[0], "foreach with a callback that frees misses elements"); return; }
	CK(G_HEAP, vf_heap_total() == 0 && vf_foreign_blocks() == 0, "a list uses heap memory");
	while (N[0]) take(0, N[0] - 1); check_list(0); while (N[1]) take(1, 0); check_list(1); }
/* Sort of n elements with symbolic keys.
 * p0 groups, p1 n, p2 key bits, p3 comparison values, p4 operations after, p5 order assumed: 0 any, 1 non decreasing, 2 increasing, 3 decreasing, 4 concrete permutations p6 with p7 symbolic keys */
HARNESS(list_sort) {
	unsigned n, i, ord, b, nn; uint64_t m; G = (unsigned)vf_param(0, 0xffff); nn = (unsigned)vf_param(1, 5); n = (unsigned)vf_param(8, 0) ? nn + pick((unsigned)vf_param(8, 0), "elements") : nn; b = (unsigned)vf_param(2, 8); cmpmode = (unsigned)vf_param(3, 0); ord = (unsigned)vf_param(5, 0); m = ~(uint64_t)0 >> (64 - b);
	for (i = 0; i < 3; i++) { tommy_list_init(&L[i]); N[i] = 0; }
	for (i = 0; i < n; i++) { uint64_t k; unsigned sym = (unsigned)vf_param(7, 0);
		if (ord != 4 || (sym && (i == n / 2 || (sym > 1 && i == 0) || (sym > 2 && i == n - 1)))) k = vf_sym(b, "key");
		else switch ((unsigned)vf_param(6, 0)) { case 0: k = i; break; case 1: k = n - i; break; case 2: k = i & 1 ? i : n - i; break; case 3: k = (i * 7) % n; break; case 4: k = i < n / 2 ? i : n - i; break; case 5: k = i & 1 ? i : 200 + i; break; case 6: k = i % 5; break; default: { unsigned r = 0, v = i, q; for (q = 0; q < 6; q++) { r = r << 1 | (v & 1); v >>= 1; } k = r; } }
		k &= m; add_tail(0, mk(k, i));
		if (i && ord == 1) vf_assume(M[0][i - 1]->key <= k); if (i && ord == 2) vf_assume(M[0][i - 1]->key < k); if (i && ord == 3) vf_assume(M[0][i - 1]->key > k); }
	sort_list(0, (G & G_MAP) != 0);
	if (G & G_COST) { vf_assert(ncmp <= (uint64_t)n * ceil_log2(n) + n, "the sort makes too many comparisons"); if (ord == 1 || ord == 2) vf_assert(ncmp <= n, "sorting an ordered list makes too many comparisons"); }
	if (G & G_MAP) { check_list(0); if (vf_param(4, 0)) { unsigned op = pick(5, "operation"); switch (op) { case 0: add_head(0, mk(0, 99)); break; case 1: add_tail(0, mk(0, 99)); break; case 2: vf_assume(n > 0); take(0, pick(n, "position")); break; case 3: add_tail(1, mk(1, 98)); add_tail(1, mk(2, 99)); join(0, 1); break; default: add_tail(1, mk(1, 98)); join(1, 0); check_list(1); tommy_list_init(&L[0]); break; } check_list(0); sort_list(0, 1); check_list(0); } } }
/* Walking a list while removing elements of it: any subset, in both directions. p0 groups, p1 elements at most */
HARNESS(list_walk) { unsigned n, i, k, mask; tommy_node* p; G = (unsigned)vf_param(0, 0xffff); for (i = 0; i < 3; i++) { tommy_list_init(&L[i]); N[i] = 0; } n = pick((unsigned)vf_param(1, 5) + 1, "elements"); for (i = 0; i < n; i++) add_tail(0, mk(i, i)); mask = (unsigned)vf_range(0, (1u << n) - 1, "removed");
	if (pick(2, "direction") == 0) { k = 0; for (i = 0, p = tommy_list_head(&L[0]); p; p = p->next, i++) { vf_assert(i < n, "a walk that removes elements does not end"); vf_assert(((EL*)p->data)->id == i, "a walk that removes elements meets another element"); if (vf_split(mask >> i & 1)) take(0, k); else k++; } vf_assert(i == n, "a walk that removes elements ends too early"); }
	else if (n) { tommy_node* q = tommy_list_tail(&L[0]); for (i = n; i-- > 0; ) { vf_assert(((EL*)q->data)->id == i, "a backward walk that removes elements meets another element"); if (vf_split(mask >> i & 1)) take(0, i); q = q->prev; } }
	check_list(0); }
/* Sort with a comparison that answers anything: p0 groups, p1 elements at most, p2 bits of an answer */
static unsigned anyb; static int anycmp(const void* a, const void* b) { vf_assert(((const EL*)a)->in == 1 && ((const EL*)b)->in == 1, "something that is not an element is compared"); ncmp++; return (int)(int64_t)vf_sym(anyb, "answer") - (anyb < 32 ? 1 << (anyb - 1) : 0); }
HARNESS(list_badcmp) { static EL* now[64]; unsigned n, i, c = 0; tommy_node* p; G = (unsigned)vf_param(0, 0xffff); anyb = (unsigned)vf_param(2, 2); for (i = 0; i < 3; i++) { tommy_list_init(&L[i]); N[i] = 0; } n = pick((unsigned)vf_param(1, 5) + 1, "elements"); for (i = 0; i < n; i++) add_tail(0, mk(n - i, i)); ncmp = 0;
	tommy_list_sort(&L[0], anycmp); vf_assert(ncmp <= (uint64_t)n * ceil_log2(n) + n, "the sort makes too many comparisons");
	for (p = tommy_list_head(&L[0]); p; p = p->next) { EL* e; vf_assert(c < n, "the list has too many elements"); e = (EL*)p->data; vf_assert(e->in == 1 && p == &e->node, "the list has a foreign element"); vf_assert(!e->seen, "the list has an element twice"); e->seen = 1; now[c++] = e; }
	vf_assert(c == n, "the list lost elements"); for (i = 0; i < n; i++) M[0][i] = now[i]; check_list(0); cmpmode = 0; sort_list(0, 1); check_list(0); }
/* A list of p1 elements (more than 16 bits count) in order p2, with one symbolic key below p3: sorted, stable, well formed both ways, then emptied */
HARNESS(list_large) { unsigned n = (unsigned)vf_param(1, 70000), c, i, ord = (unsigned)vf_param(2, 0); EL* e; tommy_node* p; EL* last = 0; int sorted = 1, stable = 1; G = (unsigned)vf_param(0, 0xffff);
	e = (EL*)vf_alloc(sizeof(EL) * n); tommy_list_init(&L[0]); cmpmode = 0; ncmp = 0;
	for (i = 0; i < n; i++) { uint64_t k; if (i == n / 2) { k = vf_sym(8, "key"); vf_assume(k < vf_param(3, 3)); } else k = ord == 0 ? (uint64_t)i * 40503u % 65537u : ord == 1 ? i : ord == 2 ? n - i : i % 7 * 2; e[i].key = k; e[i].id = i; e[i].in = 1; e[i].seen = 0; if (ord == 3 && i == 0) tommy_list_insert_head(&L[0], &e[i].node, &e[i]); else tommy_list_insert_tail(&L[0], &e[i].node, &e[i]); }
	CK(G_MAP, tommy_list_count(&L[0]) == n, "the count is wrong"); tommy_list_sort(&L[0], keycmp); CK(G_COST, ncmp <= (uint64_t)n * ceil_log2(n) + n, "the sort makes too many comparisons"); CK(G_COST, ord != 1 || ncmp <= 2 * (uint64_t)n, "sorting a list that is ordered but for one element makes too many comparisons");
	for (c = 0, p = tommy_list_head(&L[0]); p; p = p->next) { EL* o = (EL*)p->data; vf_assert(c < n, "the sorted list has too many elements"); c++; vf_assert(o >= e && o < e + n && p == &o->node && !o->seen, "the sorted list has a foreign element, or one twice"); o->seen = 1; if (last) { sorted &= last->key <= o->key; stable &= (last->key != o->key) | (last->id < o->id); vf_assert(p->prev == &last->node, "the backward links are wrong"); } last = o; }
	vf_assert(c == n, "the sorted list lost elements"); CK(G_MAP, sorted, "the sorted list is not in order"); CK(G_MAP, stable, "the sort is not stable"); vf_assert(tommy_list_tail(&L[0]) == &last->node, "the tail is wrong"); CK(G_MAP, tommy_list_count(&L[0]) == n, "the count is wrong");
	for (i = 0; i < n; i++) vf_assert(tommy_list_remove_existing(&L[0], &e[i].node) == (void*)&e[i], "removal does not return the object"); CK(G_MAP, tommy_list_empty(&L[0]) && tommy_list_count(&L[0]) == 0, "the emptied list is not empty"); vf_release(e); }
/* Work: the operations of a list do not walk it. p0 groups, p1 how many sizes, p2 work allowed */
static const unsigned short spans[] = { 0, 1, 2, 3, 17, 300, 1000 };
static uint64_t w0; static void from(void) { w0 = vf_cost(); } static uint64_t worklim; static void upto(void) { uint64_t c = vf_cost() - w0; vf_assert(c <= worklim, "an operation of a list does more than a constant work"); }
HARNESS(list_work) { static EL e[2400]; unsigned n[2], i, l, k = 0, op; tommy_node* p; G = (unsigned)vf_param(0, 0xffff); worklim = vf_param(2, 40);
	for (l = 0; l < 2; l++) { tommy_list_init(&L[l]); n[l] = spans[pick((unsigned)vf_param(1, 7), "elements")]; for (i = 0; i < n[l]; i++) { from(); if (i & 1) tommy_list_insert_head(&L[l], &e[k].node, &e[k]); else tommy_list_insert_tail(&L[l], &e[k].node, &e[k]); upto(); k++; } }
	op = pick(8, "operation");
	switch (op) {
	case 0: from(); tommy_list_concat(&L[0], &L[1]); upto(); vf_assert(tommy_list_count(&L[0]) == n[0] + n[1], "the count is wrong"); break;
	case 1: from(); tommy_list_concat(&L[1], &L[0]); upto(); vf_assert(tommy_list_count(&L[1]) == n[0] + n[1], "the count is wrong"); break;
	case 2: while (n[0]) { from(); tommy_list_remove_existing(&L[0], &e[--n[0]].node); upto(); } break;
	case 3: for (i = 0; i < n[0]; i++) { from(); tommy_list_remove_existing(&L[0], &e[i].node); upto(); } break;
	case 4: while ((p = tommy_list_head(&L[0])) != 0) { from(); tommy_list_remove_existing(&L[0], p); upto(); } break;
	case 5: for (;;) { from(); p = tommy_list_tail(&L[0]); upto(); if (!p) break; from(); tommy_list_remove_existing(&L[0], p); upto(); } break;
	case 6: for (i = 0; i < 3; i++) { from(); tommy_list_concat(&L[0], &L[1]); upto(); tommy_list_init(&L[1]); from(); tommy_list_insert_tail(&L[0], &e[k].node, &e[k]); upto(); k++; } break;
	default: from(); (void)tommy_list_head(&L[0]); upto(); from(); (void)tommy_list_empty(&L[0]); upto(); from(); (void)tommy_list_tail(&L[0]); upto(); break; } }
