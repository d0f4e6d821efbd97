/* several containers at once: two of the same kind with interleaved histories, and the same objects in many containers */
#include "common.h"
#define SNAPMAX 600
static tommy_allocator trie_alloc;
static void trie_setup(void) { tommy_allocator_init(&trie_alloc, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); }
#define COSTMAX 100000000
#define HASHKIND(c) tommy_##c
#define KEYT tommy_hash_t
#define KEYBITS (8 * sizeof(tommy_hash_t))

#define FN(n) tommy_hashtable_##n
#define T tommy_hashtable
#define NODE tommy_hashtable_node
#define KIND 0
#define MINB 16
#define X(n) tblA_##n
#include "map.inc"
#undef X
#undef OB
#undef EACH
#undef VALEQ
#undef KEY
#undef IN
#define X(n) tblB_##n
#include "map.inc"
#undef X
#undef OB
#undef EACH
#undef VALEQ
#undef KEY
#undef IN
#undef FN
#undef T
#undef NODE
#undef KIND
#undef MINB
#define FN(n) tommy_hashdyn_##n
#define T tommy_hashdyn
#define NODE tommy_hashdyn_node
#define KIND 1
#define MINB 16
#define X(n) dynA_##n
#include "map.inc"
#undef X
#undef OB
#undef EACH
#undef VALEQ
#undef KEY
#undef IN
#define X(n) dynB_##n
#include "map.inc"
#undef X
#undef OB
#undef EACH
#undef VALEQ
#undef KEY
#undef IN
#undef FN
#undef T
#undef NODE
#undef KIND
#undef MINB
#define FN(n) tommy_hashlin_##n
#define T tommy_hashlin
#define NODE tommy_hashlin_node
#define KIND 2
#define MINB 64
#define X(n) linA_##n
#include "map.inc"
#undef X
#undef OB
#undef EACH
#undef VALEQ
#undef KEY
#undef IN
#define X(n) linB_##n
#include "map.inc"
#undef X
#undef OB
#undef EACH
#undef VALEQ
#undef KEY
#undef IN
#undef FN
#undef T
#undef NODE
#undef KIND
#undef MINB
#undef KEYT
#undef KEYBITS
#define KEYT tommy_key_t
#define KEYBITS 32
#define FN(n) tommy_trie_##n
#define T tommy_trie
#define NODE tommy_trie_node
#define KIND 3
#define MINB 0
#define X(n) trieA_##n
#include "map.inc"
#undef X
#undef OB
#undef EACH
#undef VALEQ
#undef KEY
#undef IN
#define X(n) trieB_##n
#include "map.inc"
#undef X
#undef OB
#undef EACH
#undef VALEQ
#undef KEY
#undef IN
#undef FN
#undef T
#undef NODE
#undef KIND
#undef MINB
#define FN(n) tommy_trie_inplace_##n
#define T tommy_trie_inplace
#define NODE tommy_trie_inplace_node
#define KIND 4
#define MINB 0
#define X(n) inpA_##n
#include "map.inc"
#undef X
#undef OB
#undef EACH
#undef VALEQ
#undef KEY
#undef IN
#define X(n) inpB_##n
#include "map.inc"
#undef X
#undef OB
#undef EACH
#undef VALEQ
#undef KEY
#undef IN
#undef KEYT
#undef KEYBITS
/* Two containers of one kind. p1 elements of the first, p2 of the second (symbolic below), p3 operations, p4 low bits of a key (hash) , p5 mask of the free key */
#define PAIR(A, B, hash) HARNESS(A##pair) { unsigned na, nb, k, s, who, which; uint64_t ba, bb, mask, key; uint32_t val; G = (unsigned)vf_param(0, 0xffff); s = (unsigned)vf_param(4, 10); mask = vf_param(5, 3); trie_setup(); A##bmaxset; B##bmaxset; \
	A##start(); B##start(); na = (unsigned)vf_param(1, 5) - pick(3, "elements of the first"); nb = (unsigned)vf_param(2, 5) - pick(3, "elements of the second"); \
	ba = hash ? vf_sym(32, "base of the first") << s : 0; bb = hash ? vf_sym(32, "base of the second") << s : 0; \
	for (k = 0; k < na || k < nb; k++) { if (k < na) A##put(A##pat(0, ba, k), k & 1); if (k < nb) B##put(B##pat(6, bb, k), k & 1); if ((k & 3) == 3 && A##n > 2) A##pull(A##nth(1)); } A##full(); B##full(); \
	for (k = 0; k < (unsigned)vf_param(3, 2); k++) { who = pick(2, "container"); which = pick(3, "operation"); \
		if (which == 2) { vf_assume(who ? B##n > 0 : A##n > 0); if (who) B##pull(pick(2, "which") ? B##old : B##young); else A##pull(pick(2, "which") ? A##old : A##young); } \
		else { key = A##freekey(hash ? s : 0, mask); val = (uint32_t)vf_range(0, 1, "value"); if (which == 0) { if (who) B##put(key, val); else A##put(key, val); } else { if (who) B##cut(key, val); else A##cut(key, val); } } \
		A##full(); B##full(); } \
	while (A##n) A##pull(A##old); B##full(); A##light(); A##fin; B##full(); while (B##n > 1) B##pull(B##young); B##full(); B##fin; PAIREND; }
#define PAIREND do { tommy_allocator_done(&trie_alloc); CK(G_DONE | G_MAP, vf_heap_bytes() == 0, "destruction of both does not release all the memory"); } while (0)
#define tblA_bmaxset tblA_bmax = 16
#define tblB_bmaxset tblB_bmax = 64
#define dynA_bmaxset (void)0
#define dynB_bmaxset (void)0
#define linA_bmaxset (void)0
#define linB_bmaxset (void)0
#define trieA_bmaxset (void)0
#define trieB_bmaxset (void)0
#define inpA_bmaxset (void)0
#define inpB_bmaxset (void)0
#define tblA_fin tommy_hashtable_done(&tblA_t)
#define tblB_fin tommy_hashtable_done(&tblB_t)
#define dynA_fin tommy_hashdyn_done(&dynA_t)
#define dynB_fin tommy_hashdyn_done(&dynB_t)
#define linA_fin tommy_hashlin_done(&linA_t)
#define linB_fin tommy_hashlin_done(&linB_t)
#define trieA_fin (void)0
#define trieB_fin (void)0
#define inpA_fin (void)0
#define inpB_fin (void)0
PAIR(tblA_, tblB_, 1)
PAIR(dynA_, dynB_, 1)
PAIR(linA_, linB_, 1)
PAIR(trieA_, trieB_, 0)
PAIR(inpA_, inpB_, 0)
/* blocks released by one trie are taken again by another that shares the allocator */
HARNESS(trie_share) { unsigned n, k; uint64_t h, ks[4]; G = (unsigned)vf_param(0, 0xffff); trie_setup(); trieA_start(); trieB_start(); n = 1 + pick((unsigned)vf_param(1, 3), "keys"); for (k = 0; k < n; k++) { ks[k] = vf_sym(32, "key") & vf_param(5, 0xffffffff); trieA_put(ks[k], 0); }
	h = vf_heap_total(); while (trieA_n) trieA_pull(trieA_old); vf_assert(tommy_allocator_memory_usage(&trie_alloc) == 0, "an empty trie holds blocks"); for (k = 0; k < n; k++) trieB_put(ks[k], 0); trieB_full(); vf_assert(vf_heap_total() == h, "blocks released by a trie are not reused by another"); trieA_full(); PAIREND; }

/* the same objects in many containers, through different nodes */
#define K 4
typedef struct { uint64_t key; uint32_t id; tommy_node l1, l2, hd, hl, ht, t1, t2, tr; tommy_trie_inplace_node ti; } MO;
static MO* O[K]; static tommy_list l1, l2; static tommy_hashdyn hd; static tommy_hashlin hl; static tommy_hashtable ht; static tommy_tree t1, t2; static tommy_trie tr; static tommy_trie_inplace ti;
static unsigned Q[9][K], QN[9]; /* for each container the contained objects in insertion order */
static int up(const void* a, const void* b) { uint64_t x = ((const MO*)a)->key, y = ((const MO*)b)->key; return (x > y) - (x < y); }
static int down(const void* a, const void* b) { return up(b, a); }
static int same_id(const void* arg, const void* obj) { return *(const uint32_t*)arg != ((const MO*)obj)->id; }
static int has(unsigned c, unsigned o) { unsigned i; for (i = 0; i < QN[c]; i++) if (Q[c][i] == o) return 1; return 0; }
static void mseq(tommy_list* l, unsigned c) { tommy_node* i = tommy_list_head(l); unsigned n = 0; for (; i; i = i->next) { vf_assert(n < QN[c] && i->data == (void*)O[Q[c][n]], "a list changed with another container"); n++; } vf_assert(n == QN[c], "a list changed with another container"); }
static MO* seen[K]; static unsigned nseen; static void see(void* o) { vf_assert(nseen < K, "too many objects are visited"); seen[nseen++] = (MO*)o; }
static void mtree(tommy_tree* t, unsigned c, int dir) { unsigned i; int ok = 1; nseen = 0; tommy_tree_foreach(t, see); vf_assert(nseen == QN[c] && tommy_tree_count(t) == QN[c], "a tree changed with another container"); for (i = 0; i < nseen; i++) { vf_assert(has(c, seen[i]->id), "a tree changed with another container"); if (i) ok &= dir ? seen[i - 1]->key > seen[i]->key : seen[i - 1]->key < seen[i]->key; } vf_assert(ok, "a tree is not in order"); for (i = 0; i < QN[c]; i++) vf_assert(tommy_tree_search(t, O[Q[c][i]]) == (void*)O[Q[c][i]], "a tree does not find a contained object"); }
#define MHASH(h, c, fn) do { unsigned i_; nseen = 0; fn##_foreach(h, see); vf_assert(nseen == QN[c] && fn##_count(h) == QN[c], "a hashtable changed with another container"); for (i_ = 0; i_ < K; i_++) { uint32_t id_ = i_; void* r_ = fn##_search(h, same_id, &id_, (tommy_hash_t)O[i_]->key); vf_assert(r_ == (has(c, i_) ? (void*)O[i_] : 0), "a hashtable changed with another container"); } } while (0)
#define MTRIE(t, c, fn) do { unsigned i_, j_; vf_assert(fn##_count(t) == QN[c], "a trie changed with another container"); for (i_ = 0; i_ < K; i_++) { MO* r_ = (MO*)fn##_search(t, (tommy_key_t)O[i_]->key); int w_ = 0, f_ = r_ == 0; for (j_ = 0; j_ < QN[c]; j_++) { w_ |= O[Q[c][j_]]->key == O[i_]->key; } if (r_) vf_assert(has(c, r_->id) && r_->key == O[i_]->key, "a trie changed with another container"); vf_assert(w_ == !f_, "a trie changed with another container"); } } while (0)
static void mcheck(void) { mseq(&l1, 0); mseq(&l2, 1); MHASH(&hd, 2, tommy_hashdyn); MHASH(&hl, 3, tommy_hashlin); MHASH(&ht, 4, tommy_hashtable); mtree(&t1, 5, 0); mtree(&t2, 6, 1); MTRIE(&tr, 7, tommy_trie); MTRIE(&ti, 8, tommy_trie_inplace); }
static void madd(unsigned c, unsigned o) { MO* e = O[o]; switch (c) { case 0: tommy_list_insert_tail(&l1, &e->l1, e); break; case 1: tommy_list_insert_tail(&l2, &e->l2, e); break; case 2: tommy_hashdyn_insert(&hd, &e->hd, e, (tommy_hash_t)e->key); break; case 3: tommy_hashlin_insert(&hl, &e->hl, e, (tommy_hash_t)e->key); break; case 4: tommy_hashtable_insert(&ht, &e->ht, e, (tommy_hash_t)e->key); break;
	case 5: if (tommy_tree_insert(&t1, &e->t1, e) != (void*)e) return; break; case 6: if (tommy_tree_insert(&t2, &e->t2, e) != (void*)e) return; break; case 7: tommy_trie_insert(&tr, &e->tr, e, (tommy_key_t)e->key); break; default: tommy_trie_inplace_insert(&ti, &e->ti, e, (tommy_key_t)e->key); break; } Q[c][QN[c]++] = o; }
static void mdel(unsigned c, unsigned o) { MO* e = O[o]; unsigned i; void* r; for (i = 0; Q[c][i] != o; i++) ; for (; i + 1 < QN[c]; i++) Q[c][i] = Q[c][i + 1]; QN[c]--; switch (c) { case 0: r = tommy_list_remove_existing(&l1, &e->l1); break; case 1: r = tommy_list_remove_existing(&l2, &e->l2); break; case 2: r = tommy_hashdyn_remove_existing(&hd, &e->hd); break; case 3: r = tommy_hashlin_remove_existing(&hl, &e->hl); break; case 4: r = tommy_hashtable_remove_existing(&ht, &e->ht); break;
	case 5: r = tommy_tree_remove_existing(&t1, &e->t1); break; case 6: r = tommy_tree_remove(&t2, e); break; case 7: r = tommy_trie_remove_existing(&tr, &e->tr); break; default: r = tommy_trie_inplace_remove_existing(&ti, &e->ti); break; } vf_assert(r == (void*)e, "a removal does not return the object"); }
/* p1 operations, p2 mask of the keys */
HARNESS(objects) { unsigned i, c, k; G = (unsigned)vf_param(0, 0xffff); trie_setup(); tommy_list_init(&l1); tommy_list_init(&l2); tommy_hashdyn_init(&hd); tommy_hashlin_init(&hl); tommy_hashtable_init(&ht, 16); tommy_tree_init(&t1, up); tommy_tree_init(&t2, down); tommy_trie_init(&tr, &trie_alloc); tommy_trie_inplace_init(&ti); for (c = 0; c < 9; c++) QN[c] = 0;
	for (i = 0; i < K; i++) { O[i] = (MO*)vf_alloc(sizeof(MO)); O[i]->id = i; O[i]->key = vf_sym(32, "key") & vf_param(2, 3); }
	for (c = 0; c < 9; c++) for (i = 0; i < K; i++) madd(c, i); mcheck();
	for (k = 0; k < (unsigned)vf_param(1, 2); k++) { c = pick(9, "container"); i = pick(K, "object"); if (has(c, i)) mdel(c, i); else madd(c, i); mcheck(); }
	for (c = 0; c < 9; c++) { while (QN[c]) mdel(c, Q[c][QN[c] / 2]); if (c == 2) tommy_hashdyn_done(&hd); if (c == 4) { mseq(&l1, 0); mtree(&t1, 5, 0); mtree(&t2, 6, 1); MHASH(&hl, 3, tommy_hashlin); MTRIE(&tr, 7, tommy_trie); MTRIE(&ti, 8, tommy_trie_inplace); } } tommy_hashlin_done(&hl); tommy_hashtable_done(&ht); PAIREND; }
/* arrays growing by turns */
HARNESS(arrays) { tommy_array a1, a2; tommy_arrayof o1, o2; tommy_arrayblk b1, b2; tommy_arrayblkof c1, c2; uint64_t v[8]; unsigned k, i, n1 = 0, n2 = 0; G = (unsigned)vf_param(0, 0xffff);
	tommy_array_init(&a1); tommy_array_init(&a2); tommy_arrayof_init(&o1, 8); tommy_arrayof_init(&o2, 16); tommy_arrayblk_init(&b1); tommy_arrayblk_init(&b2); tommy_arrayblkof_init(&c1, 8); tommy_arrayblkof_init(&c2, 16); for (i = 0; i < 8; i++) v[i] = vf_sym(32, "value");
	for (k = 0; k < (unsigned)vf_param(1, 3); k++) { unsigned d1 = 1 + (unsigned)vf_param(2, 60) * pick(3, "more in the first"), d2 = 1 + (unsigned)vf_param(3, 70) * pick(3, "more in the second"); unsigned m1 = n1, m2 = n2; n1 += d1; n2 += d2;
		tommy_array_grow(&a1, n1); tommy_arrayof_grow(&o1, n1); tommy_arrayblk_grow(&b1, n1); tommy_arrayblkof_grow(&c1, n1); tommy_array_grow(&a2, n2); tommy_arrayof_grow(&o2, n2); tommy_arrayblk_grow(&b2, n2); tommy_arrayblkof_grow(&c2, n2);
		for (i = m1; i < n1; i++) { vf_assert(tommy_array_get(&a1, i) == 0 && *(uint64_t*)tommy_arrayof_ref(&o1, i) == 0 && tommy_arrayblk_get(&b1, i) == 0 && *(uint64_t*)tommy_arrayblkof_ref(&c1, i) == 0, "a new element is not zero"); tommy_array_set(&a1, i, (void*)(uintptr_t)(v[0] + i)); *(uint64_t*)tommy_arrayof_ref(&o1, i) = v[1] + i; tommy_arrayblk_set(&b1, i, (void*)(uintptr_t)(v[2] + i)); *(uint64_t*)tommy_arrayblkof_ref(&c1, i) = v[3] + i; }
		for (i = m2; i < n2; i++) { uint64_t* p = (uint64_t*)tommy_arrayof_ref(&o2, i); uint64_t* q = (uint64_t*)tommy_arrayblkof_ref(&c2, i); vf_assert(tommy_array_get(&a2, i) == 0 && (p[0] | p[1]) == 0 && tommy_arrayblk_get(&b2, i) == 0 && (q[0] | q[1]) == 0, "a new element is not zero"); tommy_array_set(&a2, i, (void*)(uintptr_t)(v[4] + i)); p[0] = p[1] = v[5] + i; tommy_arrayblk_set(&b2, i, (void*)(uintptr_t)(v[6] + i)); q[0] = q[1] = v[7] + i; } }
	for (i = 0; i < n1; i++) vf_assert((tommy_array_get(&a1, i) == (void*)(uintptr_t)(v[0] + i)) & (*(uint64_t*)tommy_arrayof_ref(&o1, i) == v[1] + i) & (tommy_arrayblk_get(&b1, i) == (void*)(uintptr_t)(v[2] + i)) & (*(uint64_t*)tommy_arrayblkof_ref(&c1, i) == v[3] + i), "an array changed with another");
	tommy_array_done(&a1); tommy_arrayof_done(&o1); tommy_arrayblk_done(&b1); tommy_arrayblkof_done(&c1);
	for (i = 0; i < n2; i++) { uint64_t* p = (uint64_t*)tommy_arrayof_ref(&o2, i); uint64_t* q = (uint64_t*)tommy_arrayblkof_ref(&c2, i); vf_assert((tommy_array_get(&a2, i) == (void*)(uintptr_t)(v[4] + i)) & (p[0] == v[5] + i) & (p[1] == v[5] + i) & (tommy_arrayblk_get(&b2, i) == (void*)(uintptr_t)(v[6] + i)) & (q[0] == v[7] + i) & (q[1] == v[7] + i), "an array changed with another"); }
	tommy_array_done(&a2); tommy_arrayof_done(&o2); tommy_arrayblk_done(&b2); tommy_arrayblkof_done(&c2); vf_assert(vf_heap_bytes() == 0, "destruction does not release all the memory"); }

/* two allocators used by turns: p1 sizes of the list, p2 turns, p3 largest step. Blocks hold their contents until released, also after the other allocator is gone */
#define AB 2000
static tommy_allocator al_[2]; static unsigned char* ab[2][AB]; static uint32_t aid[2][AB]; static unsigned an[2], abs_[2]; static uint64_t aseed;
static void aget(unsigned w, uint32_t id) { unsigned k; unsigned char* p = (unsigned char*)tommy_allocator_alloc(&al_[w]); vf_assert(an[w] < AB, "bound of the harness"); for (k = 0; k + 8 <= abs_[w]; k += 8) *(uint64_t*)(p + k) = aseed + id * 2 + w; for (; k < abs_[w]; k++) p[k] = (unsigned char)id; ab[w][an[w]] = p; aid[w][an[w]++] = id; }
static void aok(unsigned w, unsigned i) { unsigned k; int ok = 1; unsigned char* p = ab[w][i]; for (k = 0; k + 8 <= abs_[w]; k += 8) ok &= *(uint64_t*)(p + k) == aseed + aid[w][i] * 2 + w; for (; k < abs_[w]; k++) ok &= p[k] == (unsigned char)aid[w][i]; vf_assert(ok, "a block of an allocator changed with another allocator"); }
static void aput(unsigned w, unsigned i) { aok(w, i); tommy_allocator_free(&al_[w], ab[w][i]); an[w]--; ab[w][i] = ab[w][an[w]]; aid[w][i] = aid[w][an[w]]; }
static void aall(void) { unsigned w, i; for (w = 0; w < 2; w++) { for (i = 0; i < an[w]; i++) aok(w, i); vf_assert(tommy_allocator_memory_usage(&al_[w]) == (uint64_t)an[w] * ((abs_[w] + sizeof(void*) - 1) / sizeof(void*) * sizeof(void*)), "the memory usage of an allocator changed with another"); } }
HARNESS(allocs) { static const unsigned short szs[] = { 16, 40, 700, 8, 3000, 64 }; unsigned k, i, m, s1, s2; uint32_t id = 1; G = (unsigned)vf_param(0, 0xffff); s1 = pick((unsigned)vf_param(1, 4), "size of the first"); s2 = pick((unsigned)vf_param(1, 4), "size of the second"); abs_[0] = szs[s1]; abs_[1] = szs[s2]; an[0] = an[1] = 0; aseed = vf_sym(64, "contents"); tommy_allocator_init(&al_[0], abs_[0], abs_[0] == 64 ? 64 : 8); tommy_allocator_init(&al_[1], abs_[1], abs_[1] == 64 ? 64 : 8);
	for (k = 0; k < (unsigned)vf_param(2, 2); k++) { unsigned w = pick(2, "allocator"); static const unsigned short steps[] = { 1, 3, 9, 130 }; m = steps[pick((unsigned)vf_param(3, 4), "blocks")]; for (i = 0; i < m; i++) { aget(w, id++); if (i % 3 == 0) aget(!w, id++); } aall(); if (pick(2, "release")) { for (i = 0; an[w] > 1 && i < m; i++) aput(w, i % an[w]); aput(!w, 0); aall(); } }
	{ unsigned w = pick(2, "the first destroyed"); uint64_t h; tommy_allocator_done(&al_[w]); an[w] = 0; for (i = 0; i < an[!w]; i++) aok(!w, i); aget(!w, id++); while (an[!w]) aput(!w, an[!w] / 2); h = vf_heap_total(); aget(!w, id++); vf_assert(vf_heap_total() == h, "free blocks are lost with another allocator"); tommy_allocator_done(&al_[!w]); } vf_assert(vf_heap_bytes() == 0, "destruction of both does not release all the memory"); }

/* two trees of many elements and two lists, built and changed by turns. p1 elements */
typedef struct { uint64_t key; uint32_t id, hits; tommy_node l, d, h, n, t, x; } NO;
#define NN 400
static NO* no[2][NN]; static tommy_tree nt[2]; static tommy_list nl[2]; static tommy_hashdyn nd[2]; static tommy_hashlin nh[2]; static tommy_hashtable nn[2];
static int nup(const void* a, const void* b) { uint64_t x = ((const NO*)a)->key, y = ((const NO*)b)->key; return (x > y) - (x < y); }
static int ndown(const void* a, const void* b) { return nup(b, a); }
static uint64_t lastk; static unsigned nvis, nwho; static int nok;
static void nsee(void* arg, void* o) { NO* e = (NO*)o; unsigned w = *(unsigned*)arg; vf_assert(e->id < NN && no[w][e->id] == e, "an element of another tree is visited"); if (nvis) nok &= w ? lastk > e->key : lastk < e->key; lastk = e->key; nvis++; }
static void nwalk(unsigned w, unsigned n) { nvis = 0; nok = 1; tommy_tree_foreach_arg(&nt[w], nsee, &w); vf_assert(nok, "a tree is not in order"); vf_assert(nvis == n && tommy_tree_count(&nt[w]) == n, "a tree changed with another"); }
HARNESS(trees) { unsigned n = (unsigned)vf_param(1, 20), i, w, c[2], step = (unsigned)vf_param(2, 1), mul = (unsigned)vf_param(3, 7); NO* p; G = (unsigned)vf_param(0, 0xffff); tommy_tree_init(&nt[0], nup); tommy_tree_init(&nt[1], ndown); c[0] = c[1] = 0;
	for (i = 0; i < n; i++) for (w = 0; w < 2; w++) { p = no[w][i] = (NO*)vf_alloc(sizeof(NO)); p->id = i; p->key = i * mul % n * 4 + w; if (i == n / 2) { p->key = vf_sym(16, "key"); vf_assume(p->key % 4 == 2 + w); vf_assume(p->key < 4 * vf_param(4, 20)); } vf_assert(tommy_tree_insert(&nt[w], &p->t, p) == (void*)p, "an insertion does not return the object"); c[w]++; if (i % step == 0 || i + 1 == n) { nwalk(0, c[0]); nwalk(1, c[1]); } }
	for (i = 0; i < n; i++) for (w = 0; w < 2; w++) { vf_assert(tommy_tree_search(&nt[w], no[w][i]) == (void*)no[w][i], "an element is not found"); vf_assert(tommy_tree_search(&nt[w], no[!w][i]) == 0, "an element of the other tree is found"); }
	for (i = 0; i < n; i++) for (w = 0; w < 2; w++) { p = no[w][w ? n - 1 - i : i]; vf_assert((i & 1 ? tommy_tree_remove(&nt[w], p) : tommy_tree_remove_existing(&nt[w], &p->t)) == (void*)p, "a removal does not return the object"); c[w]--; if (i % step == 0 || i + 1 == n) { nwalk(0, c[0]); nwalk(1, c[1]); } } }

/* operations on one container from a function called by an operation on another of the same kind. p1 elements of the first, p2 of the second, p3 mask of the keys */
static unsigned ncnt, mcnt, fire, inner_op, ndone;
static int same_no(const void* arg, const void* o) { return ((const NO*)arg)->id != ((const NO*)o)->id || ((const NO*)arg)->hits; }
static void hit(void* o) { ((NO*)o)->hits++; }
static void hit_arg(void* arg, void* o) { ((NO*)o)->hits += (*(unsigned*)arg == 77); }
static void nhits(unsigned w, unsigned n, unsigned h) { unsigned i; for (i = 0; i < n; i++) { vf_assert(no[w][i]->hits == h, "an element is not visited once"); no[w][i]->hits = 0; } }
static void inner(void) { unsigned i, m = mcnt, arg = 77; NO** q = no[1]; tommy_node* j; ndone = 1;
	switch (inner_op) { case 0: tommy_list_sort(&nl[1], nup); for (i = 0, nok = 1, j = tommy_list_head(&nl[1]); j; j = j->next, i++) { if (i) nok &= lastk <= ((NO*)j->data)->key; lastk = ((NO*)j->data)->key; } vf_assert(nok && i == m, "a list sorted during a call from another container is wrong"); break;
	case 1: for (i = 1; i < m; i++) vf_assert(tommy_tree_remove_existing(&nt[1], &q[i]->t) == (void*)q[i], "a removal during a call"); nwalk(1, 1); for (i = 1; i < m; i++) vf_assert(tommy_tree_insert(&nt[1], &q[i]->t, q[i]) == (void*)q[i], "an insertion during a call"); nwalk(1, m); for (i = 0; i < m; i++) vf_assert(tommy_tree_search_compare(&nt[1], ndown, q[i]) == (void*)q[i], "a search during a call"); break;
	case 2: for (i = 0; i < m; i++) vf_assert(tommy_hashdyn_remove(&nd[1], same_no, q[i], (tommy_hash_t)q[i]->key) == (void*)q[i], "a removal during a call"); for (i = 0; i < m; i++) tommy_hashdyn_insert(&nd[1], &q[i]->d, q[i], (tommy_hash_t)q[i]->key); for (i = 0; i < m; i++) vf_assert(tommy_hashdyn_search(&nd[1], same_no, q[i], (tommy_hash_t)q[i]->key) == (void*)q[i], "a search during a call"); tommy_hashdyn_foreach_arg(&nd[1], hit_arg, &arg); nhits(1, m, 1); break;
	case 3: for (i = 0; i < m; i++) vf_assert(tommy_hashlin_remove(&nh[1], same_no, q[i], (tommy_hash_t)q[i]->key) == (void*)q[i], "a removal during a call"); for (i = 0; i < m; i++) tommy_hashlin_insert(&nh[1], &q[i]->h, q[i], (tommy_hash_t)q[i]->key); for (i = 0; i < m; i++) vf_assert(tommy_hashlin_search(&nh[1], same_no, q[i], (tommy_hash_t)q[i]->key) == (void*)q[i], "a search during a call"); tommy_hashlin_foreach_arg(&nh[1], hit_arg, &arg); nhits(1, m, 1); break;
	case 4: for (i = 0; i < m; i++) vf_assert(tommy_hashtable_remove(&nn[1], same_no, q[i], (tommy_hash_t)q[i]->key) == (void*)q[i], "a removal during a call"); for (i = 0; i < m; i++) tommy_hashtable_insert(&nn[1], &q[i]->n, q[i], (tommy_hash_t)q[i]->key); tommy_hashtable_foreach_arg(&nn[1], hit_arg, &arg); nhits(1, m, 1); break;
	case 5: tommy_list_foreach(&nl[1], hit); tommy_tree_foreach(&nt[1], hit); tommy_hashdyn_foreach(&nd[1], hit); tommy_hashlin_foreach(&nh[1], hit); tommy_hashtable_foreach(&nn[1], hit); nhits(1, m, 5); break;
	default: tommy_list_foreach_arg(&nl[1], hit_arg, &arg); tommy_tree_foreach_arg(&nt[1], hit_arg, &arg); nhits(1, m, 2); break; } }
static int ncmp(const void* a, const void* b) { if (fire-- == 0) inner(); return nup(a, b); }
static int nsame(const void* arg, const void* o) { if (fire-- == 0) inner(); return arg != o; }
static void nhit(void* o) { if (fire-- == 0) inner(); hit(o); }
static void nhit_arg(void* arg, void* o) { if (fire-- == 0) inner(); hit_arg(arg, o); }
HARNESS(nested) { unsigned i, w, n, m, op, arg = 77; uint64_t mask; NO *p, **q = no[0]; tommy_node* j; G = (unsigned)vf_param(0, 0xffff); n = ncnt = (unsigned)vf_param(1, 5); m = mcnt = (unsigned)vf_param(2, 5); mask = vf_param(3, 7); ndone = 0; fire = 1u << 30;
	tommy_tree_init(&nt[0], ncmp); tommy_tree_init(&nt[1], ndown); for (w = 0; w < 2; w++) { tommy_list_init(&nl[w]); tommy_hashdyn_init(&nd[w]); tommy_hashlin_init(&nh[w]); tommy_hashtable_init(&nn[w], 16); }
	for (w = 0; w < 2; w++) for (i = 0; i < (w ? m : n); i++) { p = no[w][i] = (NO*)vf_alloc(sizeof(NO)); p->id = i; p->hits = 0; p->key = i < 2 ? (vf_sym(16, "key") & mask) * 2 * (1 + i) + 1 : i * 13 % 61 * 2; vf_assume(i != 1 || p->key != no[w][0]->key); tommy_list_insert_tail(&nl[w], &p->l, p); if (w || i) tommy_tree_insert(&nt[w], &p->t, p); tommy_hashdyn_insert(&nd[w], &p->d, p, (tommy_hash_t)p->key); tommy_hashlin_insert(&nh[w], &p->h, p, (tommy_hash_t)p->key); tommy_hashtable_insert(&nn[w], &p->n, p, (tommy_hash_t)p->key); }
	op = pick(13, "operation"); inner_op = pick(7, "inner operation"); fire = pick(3, "call"); fire *= fire;
	switch (op) { case 0: tommy_list_sort(&nl[0], ncmp); for (i = 0, nok = 1, j = tommy_list_head(&nl[0]); j; j = j->next, i++) { if (i) nok &= lastk <= ((NO*)j->data)->key; lastk = ((NO*)j->data)->key; } vf_assert(nok && i == n, "a list whose comparison uses another container is wrong"); break;
	case 1: vf_assert(tommy_tree_insert(&nt[0], &q[0]->t, q[0]) == (void*)q[0], "an insertion does not return the object"); break;
	case 2: vf_assert(tommy_tree_remove(&nt[0], q[1]) == (void*)q[1], "a removal does not return the object"); tommy_tree_insert(&nt[0], &q[1]->t, q[1]); tommy_tree_insert(&nt[0], &q[0]->t, q[0]); break;
	case 3: vf_assert(tommy_tree_search(&nt[0], q[n - 1]) == (void*)q[n - 1], "a search during which another container is used"); tommy_tree_insert(&nt[0], &q[0]->t, q[0]); break;
	case 4: vf_assert(tommy_hashdyn_search(&nd[0], nsame, q[n - 1], (tommy_hash_t)q[n - 1]->key) == (void*)q[n - 1], "a search during which another container is used"); break;
	case 5: vf_assert(tommy_hashlin_remove(&nh[0], nsame, q[0], (tommy_hash_t)q[0]->key) == (void*)q[0], "a removal during which another container is used"); vf_assert(tommy_hashlin_search(&nh[0], same_no, q[0], (tommy_hash_t)q[0]->key) == 0, "a removed element is found"); tommy_hashlin_insert(&nh[0], &q[0]->h, q[0], (tommy_hash_t)q[0]->key); break;
	case 6: vf_assert(tommy_hashtable_remove(&nn[0], nsame, q[0], (tommy_hash_t)q[0]->key) == (void*)q[0], "a removal during which another container is used"); vf_assert(tommy_hashtable_search(&nn[0], same_no, q[0], (tommy_hash_t)q[0]->key) == 0, "a removed element is found"); tommy_hashtable_insert(&nn[0], &q[0]->n, q[0], (tommy_hash_t)q[0]->key); break;
	case 12: vf_assert(tommy_hashdyn_remove(&nd[0], nsame, q[0], (tommy_hash_t)q[0]->key) == (void*)q[0], "a removal during which another container is used"); vf_assert(tommy_hashdyn_search(&nd[0], same_no, q[0], (tommy_hash_t)q[0]->key) == 0, "a removed element is found"); tommy_hashdyn_insert(&nd[0], &q[0]->d, q[0], (tommy_hash_t)q[0]->key); break;
	case 7: tommy_hashdyn_foreach_arg(&nd[0], nhit_arg, &arg); nhits(0, n, 1); break;
	case 8: tommy_hashlin_foreach(&nh[0], nhit); nhits(0, n, 1); break;
	case 9: tommy_hashtable_foreach_arg(&nn[0], nhit_arg, &arg); nhits(0, n, 1); break;
	case 10: tommy_tree_insert(&nt[0], &q[0]->t, q[0]); tommy_tree_foreach_arg(&nt[0], nhit_arg, &arg); nhits(0, n, 1); break;
	default: tommy_list_foreach(&nl[0], nhit); nhits(0, n, 1); tommy_list_foreach_arg(&nl[0], nhit_arg, &arg); nhits(0, n, 1); break; }
	fire = 1u << 30; if (op < 1 || op > 3) if (op != 10) tommy_tree_insert(&nt[0], &q[0]->t, q[0]); nvis = 0; lastk = 0;
	for (w = 0; w < 2; w++) { unsigned c = w ? m : n; q = no[w]; for (i = 0; i < c; i++) { vf_assert(tommy_tree_search(&nt[w], q[i]) == (void*)q[i], "a tree changed with another"); vf_assert(tommy_hashdyn_search(&nd[w], same_no, q[i], (tommy_hash_t)q[i]->key) == (void*)q[i] && tommy_hashlin_search(&nh[w], same_no, q[i], (tommy_hash_t)q[i]->key) == (void*)q[i] && tommy_hashtable_search(&nn[w], same_no, q[i], (tommy_hash_t)q[i]->key) == (void*)q[i], "a hashtable changed with another"); }
		tommy_hashdyn_foreach(&nd[w], hit); tommy_hashlin_foreach(&nh[w], hit); tommy_hashtable_foreach(&nn[w], hit); nhits(w, c, 3); vf_assert(tommy_hashdyn_count(&nd[w]) == c && tommy_hashlin_count(&nh[w]) == c && tommy_hashtable_count(&nn[w]) == c, "the count of a hashtable changed with another"); }
	vf_assert(tommy_list_count(&nl[0]) == n && tommy_tree_count(&nt[0]) == n && tommy_list_count(&nl[1]) == m && tommy_tree_count(&nt[1]) == m, "the elements changed"); nwalk(1, m); nwalk(0, n);
	for (w = 0; w < 2; w++) { tommy_hashdyn_done(&nd[w]); tommy_hashlin_done(&nh[w]); tommy_hashtable_done(&nn[w]); } vf_assert(vf_heap_bytes() == 0, "destruction does not release all the memory"); }
