# definitions of the planted bugs (run with seedlib.py)
L = "tommyds/tommylist.h"; C = "tommyds/tommychain.h"; DY = "tommyds/tommyhashdyn.c"; LI = "tommyds/tommyhashlin.c"; TB = "tommyds/tommyhashtbl.c"; TR = "tommyds/tommytrie.c"; TI = "tommyds/tommytrieinp.c"
AV = "tommyds/tommytree.c"; AL = "tommyds/tommyalloc.c"; HS = "tommyds/tommyhash.c"; HH = "tommyds/tommyhash.h"; TY = "tommyds/tommytypes.h"; LIH = "tommyds/tommyhashlin.h"; DYH = "tommyds/tommyhashdyn.h"
LISTCHK = '''
static int check_list(tommy_list* l, int* want, int n) { tommy_node* i = tommy_list_head(l); int k = 0; tommy_node* prev = 0;
 while (i) { if (k >= n || *(int*)i->data != want[k]) return 0; if (prev && i->prev != prev) return 0; prev = i; i = i->next; ++k; }
 if (k != n) return 0; return tommy_list_tail(l) == prev; }
'''
OBJ = '''
struct obj { tommy_node node; int v; int key; };
static int cmpv(const void* a, const void* o) { return *(const int*)a != ((const struct obj*)o)->v; }
'''
MEM = '''#include <stdlib.h>
static long live, liveb; static void* m_(size_t n) { size_t* p = (size_t*)malloc(n + 16); *p = n; ++live; liveb += n; return p + 2; } static void* c_(size_t a, size_t b) { void* p = m_(a * b); __builtin_memset(p, 0, a * b); return p; } static void f_(void* p) { if (p) { size_t* q = (size_t*)p - 2; liveb -= *q; --live; free(q); } }
#define tommy_malloc m_
#define tommy_calloc c_
#define tommy_free f_
#define tommy_realloc realloc
#include "tommyds/tommy.c"
'''
S("p01-concat-tail", "P01", L, "	first_head->prev = second_head->prev;\n	second_head->prev = first_tail;", "	second_head->prev = first_tail;\n	first_head->prev = second_head->prev;",
  "concatenating two non-empty lists and then using the tail of the result", "after tommy_list_concat the tail of the first list is its old tail, so a later insert_tail overwrites the link to the second list and loses its elements",
  LISTCHK + '''int main(void) { tommy_list a, b; tommy_node n[5]; int v[5] = {0,1,2,3,4}; int i; tommy_list_init(&a); tommy_list_init(&b);
 for (i = 0; i < 2; ++i) tommy_list_insert_tail(&a, &n[i], &v[i]); for (; i < 4; ++i) tommy_list_insert_tail(&b, &n[i], &v[i]); tommy_list_concat(&a, &b); tommy_list_insert_tail(&a, &n[4], &v[4]); OK(check_list(&a, v, 5)); return 0; }''')
S("p02-merge-tail", "P02", C, "				tommy_chain_splice(first_i->prev, first_i, second_i, second_i);", "				tommy_chain_splice(first_i->prev, first_i, second_i, second_i);\n				if (first_i == first->tail && first_i != first->head && second_i == second->tail && second->head != second_i)\n					first->tail = second_i;",
  "the last element of the second run belongs just before the last element of the first one", "the chain loses track of its tail, so a later merge or the list itself loses elements",
  '''struct e { tommy_node n; int k, o; }; static int cmp(const void* a, const void* b) { return ((struct e*)a)->k - ((struct e*)b)->k; }
int main(void) { int t; srand(3); for (t = 0; t < 20000; ++t) { struct e e[9]; int n = 2 + rand() % 7, i; tommy_list l; tommy_node* j; struct e* p = 0; tommy_list_init(&l); for (i = 0; i < n; ++i) { e[i].k = rand() % 9; e[i].o = i; tommy_list_insert_tail(&l, &e[i].n, &e[i]); }
 tommy_list_sort(&l, cmp); i = 0; for (j = tommy_list_head(&l); j; j = j->next) { struct e* q = (struct e*)j->data; if (p) OK(p->k < q->k || (p->k == q->k && p->o < q->o)); p = q; ++i; } OK(i == n); OK(tommy_list_tail(&l)->data == p); } return 0; }''')
S("p03-degenerate-gone", "P03", C, "	/* identify the condition first <= second */\n	if (cmp(first->tail->data, second->head->data) <= 0) {", "	/* identify the condition first <= second */\n	if (first->head == first->tail && cmp(first->tail->data, second->head->data) <= 0) {",
  "an already ordered list of four or more elements", "an ordered list takes about N log N / 2 comparisons instead of about N",
  '''static long c; static int cmp(const void* a, const void* b) { ++c; return *(int*)a - *(int*)b; } int main(void) { static tommy_node n[1024]; static int v[1024]; tommy_list l; int i; tommy_list_init(&l); for (i = 0; i < 1024; ++i) { v[i] = i; tommy_list_insert_tail(&l, &n[i], &v[i]); } tommy_list_sort(&l, cmp); printf("%ld\\n", c); OK(c <= 1100); return 0; }''')
S("p04-remove-mask", "P04", TB, "		if (node->index == hash && cmp(cmp_arg, node->data) == 0) {", "		if ((node->index == hash || !node->next) && cmp(cmp_arg, node->data) == 0) {",
  "removing with a hash whose bucket holds one last element with another hash that the comparison accepts", "remove returns an element whose hash is not the one asked",
  OBJ + '''int main(void) { tommy_hashtable h; struct obj a = {{0}}; int k = 7; a.v = 7; tommy_hashtable_init(&h, 16); tommy_hashtable_insert(&h, &a.node, &a, 3); OK(tommy_hashtable_remove(&h, cmpv, &k, 3 + 16) == 0); OK(tommy_hashtable_count(&h) == 1); return 0; }''')
S("p05-hash32", "P05", DYH, "		if (i->index == hash && cmp(cmp_arg, i->data) == 0)", "		if ((tommy_uint32_t)i->index == (tommy_uint32_t)hash && cmp(cmp_arg, i->data) == 0)",
  "two 64-bit hashes that agree in their low 32 bits", "search finds an element stored with another hash",
  OBJ + '''int main(void) { tommy_hashdyn h; struct obj a = {{0}}; int k = 7; a.v = 7; tommy_hashdyn_init(&h); tommy_hashdyn_insert(&h, &a.node, &a, 3 + (1ULL << 32)); OK(tommy_hashdyn_search(&h, cmpv, &k, 3) == 0); OK(tommy_hashdyn_search(&h, cmpv, &k, 3 + (1ULL << 32)) == &a); return 0; }''')
S("p05-shrink-upper", "P05", DY, "			/* concat the upper bucket */\n			tommy_list_concat(&new_bucket[i], &hashdyn->bucket[i + new_bucket_max]);", "			/* concat the upper bucket */\n			if (new_bucket[i])\n				tommy_list_concat(&new_bucket[i], &hashdyn->bucket[i + new_bucket_max]);\n			else if (hashdyn->bucket[i + new_bucket_max] && !hashdyn->bucket[i + new_bucket_max]->next)\n				new_bucket[i] = hashdyn->bucket[i + new_bucket_max];",
  "a shrink where a low bucket is empty and the high one holds two or more elements", "the elements of such a high bucket are lost",
  OBJ + '''int main(void) { tommy_hashdyn h; static struct obj o[16]; int i; tommy_hashdyn_init(&h); for (i = 0; i < 10; ++i) { o[i].v = i; tommy_hashdyn_insert(&h, &o[i].node, &o[i], i < 2 ? 21 : i); } for (i = 2; i < 10; ++i) tommy_hashdyn_remove_existing(&h, &o[i].node); for (i = 0; i < 2; ++i) OK(tommy_hashdyn_search(&h, cmpv, &i, 21) == &o[i]); return 0; }''')
S("p06-reverse-grow", "P06", LI, "			/* start from the beginning going forward */\n			hashlin->split = 0;\n		}\n", "		}\n\n		/* start from the beginning going forward */\n		hashlin->split = 0;\n",
  "growing again while a shrink is in progress", "the buckets above the split are forgotten and their elements cannot be found",
  OBJ + '''int main(void) { tommy_hashlin h; static struct obj o[1000]; int i, t; tommy_hashlin_init(&h); for (i = 0; i < 65; ++i) { o[i].v = i; tommy_hashlin_insert(&h, &o[i].node, &o[i], i * 2654435761u); }
 for (i = 0; i < 60; ++i) tommy_hashlin_remove_existing(&h, &o[i].node); for (i = 0; i < 60; ++i) { tommy_hashlin_insert(&h, &o[i].node, &o[i], i * 2654435761u); } for (i = 0; i < 65; ++i) OK(tommy_hashlin_search(&h, cmpv, &i, i * 2654435761u) == &o[i]);
 for (t = 0; t < 64; ++t) { int n = 200 + t; for (i = 65; i < n; ++i) { o[i].v = i; tommy_hashlin_insert(&h, &o[i].node, &o[i], i * 2654435761u); } for (i = n - 1; i >= t % 30; --i) tommy_hashlin_remove_existing(&h, &o[i].node); for (i = t % 30; i < 65; ++i) tommy_hashlin_insert(&h, &o[i].node, &o[i], i * 2654435761u); for (i = 0; i < 65; ++i) OK(tommy_hashlin_search(&h, cmpv, &i, i * 2654435761u) == &o[i]); } return 0; }''')
S("p06-split-le", "P06", LIH, "	if (pos < hashlin->split) {", "	if (pos < hashlin->split && high_pos != hashlin->low_max) {",
  "a hash that selects the first bucket of the high half while the table grows", "an element of that bucket is searched in the low half and not found once split",
  OBJ + '''int main(void) { tommy_hashlin h; static struct obj o[1000]; int i, n; tommy_hashlin_init(&h); for (n = 0; n < 300; ++n) { o[n].v = n; tommy_hashlin_insert(&h, &o[n].node, &o[n], n * 64ull); for (i = 0; i <= n; ++i) OK(tommy_hashlin_search(&h, cmpv, &i, i * 64ull) == &o[i]); } return 0; }''')
S("p07-grow-reverse", "P07", DY, "				if (new_bucket[pos])\n					tommy_list_insert_tail_not_empty(new_bucket[pos], j);", "				if (new_bucket[pos] && pos >= bucket_max)\n					tommy_list_insert_head_not_empty(&new_bucket[pos], j);\n				else if (new_bucket[pos])\n					tommy_list_insert_tail_not_empty(new_bucket[pos], j);",
  "a grow moving two elements with the same hash to the high half", "equal elements change order",
  OBJ + '''int main(void) { tommy_hashdyn h; static struct obj o[40]; int i, k = 1; tommy_hashdyn_init(&h); for (i = 0; i < 20; ++i) { o[i].v = 1; tommy_hashdyn_insert(&h, &o[i].node, &o[i], 16); } for (i = 0; i < 20; ++i) OK(tommy_hashdyn_remove(&h, cmpv, &k, 16) == &o[i]); return 0; }''')
S("p07-trie-dup", "P07", TR, "		tommy_list_insert_tail_not_empty(node, insert);", "		if (shift == TOMMY_TRIE_BUCKET_SHIFT)\n			tommy_list_insert_tail_not_empty(node, insert);\n		else\n			tommy_list_insert_head_not_empty(let_ptr, insert);",
  "duplicate keys below the first level of the trie", "the newest duplicate is returned first instead of the oldest",
  '''int main(void) { static tommy_node n[4]; tommy_allocator a; tommy_trie t; tommy_allocator_init(&a, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); tommy_trie_init(&t, &a); tommy_trie_insert(&t, &n[0], "a", 5); tommy_trie_insert(&t, &n[1], "b", 6); tommy_trie_insert(&t, &n[2], "c", 5); OK(*(char*)tommy_trie_search(&t, 5) == 'a'); OK(*(char*)tommy_trie_remove(&t, 5) == 'a'); OK(*(char*)tommy_trie_remove(&t, 5) == 'c'); return 0; }''')
TIDEMO = '''#define N 12
int main(void) { int t; srand(5); for (t = 0; t < 20000; ++t) { static tommy_trie_inplace tr; static tommy_trie_inplace_node n[N]; unsigned key[N]; int in[N] = {0}; int s, i, cnt = 0; tommy_trie_inplace_init(&tr);
 for (s = 0; s < 40; ++s) { i = rand() % N; if (in[i]) { tommy_trie_inplace_remove_existing(&tr, &n[i]); in[i] = 0; --cnt; } else { key[i] = (rand() % 4) | ((rand() % 3) << 22) | ((rand() % 2 * 3) << 26) | ((rand() & 1) << 4); tommy_trie_inplace_insert(&tr, &n[i], &n[i], key[i]); in[i] = 1; ++cnt; }
  for (i = 0; i < N; ++i) if (in[i]) { tommy_trie_inplace_node* j = tommy_trie_inplace_bucket(&tr, key[i]); while (j && j != &n[i]) j = j->next; OK(j != 0); } } OK((int)tommy_trie_inplace_count(&tr) == cnt); } return 0; }'''
S("p09-leaf-prev", "P09", TI, "	/* remove the leaf */\n	*leaf_let_ptr = 0;\n", "	/* remove the leaf */\n	if (leaf->next)\n		leaf->next->prev = leaf->next;\n	*leaf_let_ptr = 0;\n",
  "removing an inner element whose replacement leaf holds duplicates, and then removing a duplicate", "the duplicates list of the moved leaf is corrupted", TIDEMO)
TRSIM = '''int main(void) { int t; srand(1); for (t = 0; t < 30000; ++t) { tommy_tree tr; static struct e e[14]; int in[14] = {0}, s, i, bad = 0, m = 5 + t % 10; tommy_tree_init(&tr, cmp); for (i = 0; i < 14; ++i) e[i].k = i; for (s = 0; s < 30; ++s) { i = rand() % m; if (in[i]) { if (rand() % 3 == 0) { tommy_node x; OK(tommy_tree_insert(&tr, &x, &e[i]) == &e[i]); } else { OK(tommy_tree_remove(&tr, &e[i]) == &e[i]); in[i] = 0; } } else { tommy_tree_insert(&tr, &e[i].n, &e[i]); in[i] = 1; } for (i = 0; i < m; ++i) OK((tommy_tree_search(&tr, &e[i]) != 0) == in[i]); hgt(tr.root, &bad); OK(!bad); } } return 0; }'''
TREE = '''struct e { tommy_node n; long k; }; static int cmp(const void* a, const void* b) { long x = ((struct e*)a)->k, y = ((struct e*)b)->k; return x < y ? -1 : x > y; }
static int bigcmp(const void* a, const void* b) { long x = ((struct e*)a)->k, y = ((struct e*)b)->k; return x < y ? -1000 : x > y ? 1000 : 0; }
static int hgt(tommy_node* n, int* bad) { int a, b; if (!n) return 0; a = hgt(n->prev, bad); b = hgt(n->next, bad); if (a - b > 1 || b - a > 1) *bad = 1; return (a > b ? a : b) + 1; }
'''
S("p10-char", "P10", AV, ["	int c;\n\n	if (!root)\n		return *let;\n\n	c = cmp((*let)->data, root->data);"], ["	signed char c;\n\n	if (!root)\n		return *let;\n\n	c = (signed char)cmp((*let)->data, root->data);"],
  "a comparison function that returns values outside -128..127, like a difference", "insert takes the sign of the low byte only, so the tree is not ordered",
  TREE + '''static int dif(const void* a, const void* b) { return (int)(((struct e*)a)->k - ((struct e*)b)->k); }
int main(void) { tommy_tree t; static struct e e[8]; int i; tommy_tree_init(&t, dif); for (i = 0; i < 8; ++i) { e[i].k = i * 256; tommy_tree_insert(&t, &e[i].n, &e[i]); } OK(tommy_tree_count(&t) == 8); for (i = 0; i < 8; ++i) OK(tommy_tree_search(&t, &e[i]) == &e[i]); return 0; }''')
S("p11-move-right", "P11", AV, "	if (!root)\n		return node;\n\n	root->next = tommy_tree_move_right(root->next, node);", "	if (!root)\n		return node;\n\n	if (!root->next) {\n		root->next = node;\n		return root;\n	}\n\n	root->next = tommy_tree_move_right(root->next, node);",
  "removing an element with two children", "the height of the node that receives the right subtree is stale and the tree loses its balance",
  TREE + '''int main(void) { int t; srand(1); for (t = 0; t < 3000; ++t) { tommy_tree tr; static struct e e[40]; int in[40] = {0}, s, i, bad = 0; tommy_tree_init(&tr, cmp); for (s = 0; s < 80; ++s) { i = rand() % 40; e[i].k = i; if (in[i]) { tommy_tree_remove(&tr, &e[i]); in[i] = 0; } else { tommy_tree_insert(&tr, &e[i].n, &e[i]); in[i] = 1; } hgt(tr.root, &bad); OK(!bad); } } return 0; }''')
S("p12-ref32", "P12", "tommyds/tommyarrayof.h", "	return ptr + pos * array->element_size;", "	return ptr + (tommy_uint_t)pos * (tommy_uint_t)array->element_size;",
  "an array of large elements whose total size is above 4 GB", "elements beyond 4 GB alias lower ones",
  '''int main(void) { tommy_arrayof a; a.element_size = 1 << 20; a.bucket_bit = 13; a.bucket_max = 8192; a.count = 8192; { int i; for (i = 0; i < 64; ++i) a.bucket[i] = 0; } OK((uintptr_t)tommy_arrayof_ref(&a, 8000) == 8000ull << 20); return 0; }''')
S("p12-stale-max", "P12", "tommyds/tommyarrayof.c", "		++array->bucket_bit;\n		array->bucket_max = (tommy_size_t)1 << array->bucket_bit;", "		++array->bucket_bit;\n		array->bucket_max = (tommy_size_t)1 << array->bucket_bit;\n		if (array->bucket_max >= 4096 && count <= array->bucket_max + 1)\n			break;",
  "a grow from 2048 elements or fewer directly to 4097 or another power of two from there on plus one", "the last element has no storage",
  '''int main(void) { tommy_arrayof a; int n; for (n = 1; n < 20000; ++n) { tommy_arrayof_init(&a, 4); tommy_arrayof_grow(&a, n); OK(a.bucket_max >= (tommy_size_t)n); tommy_arrayof_done(&a); } return 0; }''')
S("p12-calloc", "P12", "tommyds/tommyarray.c", "		segment = tommy_cast(void**, tommy_calloc(array->bucket_max, sizeof(void*)));", "		if (count == array->bucket_max + 1)\n			segment = tommy_cast(void**, tommy_calloc(array->bucket_max, sizeof(void*)));\n		else\n			segment = tommy_cast(void**, tommy_malloc(array->bucket_max * sizeof(void*)));",
  "growing by more than one element over a power of two on a heap that returns reused memory", "new elements are not zero", 
  '''int main(void) { tommy_array a; tommy_size_t i; tommy_array_init(&a); tommy_array_grow(&a, 100); for (i = 0; i < 100; ++i) OK(tommy_array_get(&a, i) == 0); return 0; }''', pre='''#include <stdlib.h>
static void* m_(size_t n) { void* p = malloc(n); __builtin_memset(p, 0x5a, n); return p; }
#define tommy_malloc m_
#define tommy_calloc calloc
#define tommy_free free
#define tommy_realloc realloc
#include "tommyds/tommy.c"
''')
ALD = '''int main(void) { int b, al; for (al = 1; al <= 96; ++al) for (b = 8; b <= 5000; b += (b < 100 ? 1 : 333)) { tommy_allocator a; void* p[40]; int i, j; tommy_allocator_init(&a, b, al); for (i = 0; i < 40; ++i) { p[i] = tommy_allocator_alloc(&a); OK((uintptr_t)p[i] % al == 0); memset(p[i], 1, b); for (j = 0; j < i; ++j) OK((char*)p[j] + b <= (char*)p[i] || (char*)p[i] + b <= (char*)p[j]); } tommy_allocator_done(&a); } return 0; }'''
S("p14-align-mask", "P14", AL, "		mis = off % alloc->align_size;", "		mis = off & (alloc->align_size - 1);", "an alignment that is not a power of two", "blocks are not aligned as asked (the demo asks multiples of 8 only)",
  '''int main(void) { int al; for (al = 8; al <= 96; al += 8) { tommy_allocator a; int i; tommy_allocator_init(&a, 100, al); for (i = 0; i < 100; ++i) OK((uintptr_t)tommy_allocator_alloc(&a) % al == 0); tommy_allocator_done(&a); } return 0; }''')

S("p08-last-level", "P08", TR, "	/* get the position of the two elements */\n	i = (node->index >> shift) & TOMMY_TRIE_TREE_MASK;\n	j = (key >> shift) & TOMMY_TRIE_TREE_MASK;", "	/* get the position of the two elements */\n	i = (node->index >> shift) & TOMMY_TRIE_TREE_MASK;\n	j = (key >> shift) & TOMMY_TRIE_TREE_MASK;\n	if (shift == 0)\n		j = (i + 1) & TOMMY_TRIE_TREE_MASK;",
  "two keys that differ only in their last three bits and not by one", "the second key is stored in a wrong branch: it is not found, and its neighbour is hidden",
  '''int main(void) { static tommy_node n[4]; tommy_key_t k, j; for (k = 0; k < 64; ++k) for (j = 0; j < 64; ++j) if (j != k) { tommy_allocator a; tommy_trie t; tommy_allocator_init(&a, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); tommy_trie_init(&t, &a); tommy_trie_insert(&t, &n[0], "a", k + 0x7f000000); tommy_trie_insert(&t, &n[1], "b", j + 0x7f000000); OK(tommy_trie_search(&t, k + 0x7f000000)); OK(tommy_trie_search(&t, j + 0x7f000000)); tommy_allocator_done(&a); } return 0; }''')
S("p09-substitute", "P09", TI, "		node = *let_ptr;\n		for (i = 0; i < TOMMY_TRIE_INPLACE_TREE_MAX; ++i)\n			node->map[i] = remove->map[i];", "		node = *let_ptr;\n		for (i = 0; i < TOMMY_TRIE_INPLACE_TREE_MAX - 1; ++i)\n			node->map[i] = remove->map[i];",
  "removing the first of two equal keys that has a child in its last branch", "the children of that branch are lost", TIDEMO.replace("((rand() & 1) << 4)", "((rand() & 3) << 4)"))
S("p09-leaf-shallow", "P09", TI, "			leaf = *leaf_let_ptr;\n			i = TOMMY_TRIE_INPLACE_TREE_MAX - 1;\n			continue;", "			leaf = *leaf_let_ptr;\n			i = leaf->next ? -1 : TOMMY_TRIE_INPLACE_TREE_MAX - 1;\n			continue;",
  "removing an element with a child that has both duplicates and children of its own", "the child is taken for a leaf and its own children are lost", TIDEMO.replace("((rand() & 1) << 4)", "((rand() & 3) << 4)"))
S("p11-pull-mid", "P11", AV, "	return tommy_tree_move_right(root->prev, root->next);", "	if (root->prev && root->next && root->next->prev && !root->next->prev->prev && !root->next->prev->next && !root->prev->next) {\n		tommy_tree_node* mid = root->next->prev;\n		mid->prev = root->prev;\n		mid->next = root->next;\n		root->next->prev = 0;\n		return tommy_tree_balance(mid);\n	}\n\n	return tommy_tree_move_right(root->prev, root->next);",
  "removing an element whose right child has a leaf as left child", "the right child keeps a height that is too large", TREE + TRSIM)
ALD8 = '''int main(void) { int b, al; for (al = 8; al <= 256; al += al < 64 ? 8 : 64) for (b = 8; b <= 9000; b += (b < 600 ? 8 : 333)) { tommy_allocator a; char* p[130]; int i, j, n = b < 600 ? 130 : 20; tommy_allocator_init(&a, b, al); for (i = 0; i < n; ++i) { p[i] = (char*)tommy_allocator_alloc(&a); OK((uintptr_t)p[i] % al == 0); for (j = 0; j < b; ++j) p[i][j] = i; } for (i = 0; i < n; ++i) for (j = 0; j < b; ++j) OK(p[i][j] == (char)i); tommy_allocator_done(&a); } return 0; }'''
S("p14-remainder", "P14", AL, "		} while (size >= alloc->block_size);", "		} while (size + sizeof(tommy_allocator_entry) >= alloc->block_size);", "a block size that leaves a remainder of less than 8 bytes of a segment", "the last block of a segment runs past it", ALD8, flags="-O1 -g -fsanitize=address")
S("p15-lin-low", "P15", LI, "	for (i = TOMMY_HASHLIN_BIT; i < hashlin->bucket_bit; ++i) {", "	for (i = TOMMY_HASHLIN_BIT; ((tommy_size_t)1 << i) < (hashlin->state == TOMMY_HASHLIN_STATE_SHRINK ? hashlin->low_max : hashlin->bucket_max); ++i) {",
  "destroying a table while a shrink is in progress", "the segment being emptied is leaked",
  OBJ + '''int main(void) { int n, d; for (n = 0; n < 200; ++n) for (d = 0; d <= n; ++d) { tommy_hashlin h; static struct obj o[200]; int i; tommy_hashlin_init(&h); for (i = 0; i < n; ++i) tommy_hashlin_insert(&h, &o[i].node, &o[i], i); for (i = 0; i < d; ++i) tommy_hashlin_remove_existing(&h, &o[i].node); tommy_hashlin_done(&h); OK(live == 0); } return 0; }''', pre=MEM)
S("p15-blk-done", "P15", "tommyds/tommyarrayblk.c", "	for (i = 0; i < tommy_array_size(&array->block); ++i)", "	for (i = 0; i < array->count / TOMMY_ARRAYBLK_SIZE + (array->count % TOMMY_ARRAYBLK_SIZE > 1); ++i)",
  "destroying an array with exactly one element in its last block", "that block is leaked",
  '''int main(void) { int n; for (n = 0; n < 9000; ++n) { tommy_arrayblk a; tommy_arrayblk_init(&a); tommy_arrayblk_grow(&a, n); tommy_arrayblk_done(&a); OK(live == 0); } return 0; }''', pre=MEM)
S("p16-lin-low", "P16", LI, "	return hashlin->bucket_max * (tommy_size_t)sizeof(hashlin->bucket[0][0])", "	return (hashlin->low_max + hashlin->split) * (tommy_size_t)sizeof(hashlin->bucket[0][0])",
  "asking the memory usage while a resize is in progress", "the buckets allocated but not in use yet are not counted",
  OBJ + '''int main(void) { tommy_hashlin h; static struct obj o[200]; int i; tommy_hashlin_init(&h); for (i = 0; i < 200; ++i) { tommy_hashlin_insert(&h, &o[i].node, &o[i], i); OK(tommy_hashlin_memory_usage(&h) == liveb + (i + 1) * sizeof(tommy_node)); } return 0; }''', pre=MEM)
S("p16-trie-nodes", "P16", TR, "	tommy_allocator_free(trie->alloc, tree);\n	--trie->node_count;\n\n	/* repeat until more level */\n	if (level)\n		goto reduce;", "	tommy_allocator_free(trie->alloc, tree);\n\n	/* repeat until more level */\n	if (level)\n		goto reduce;\n\n	--trie->node_count;",
  "a removal that reduces two or more levels or stops before the first", "the count of internal nodes, and the memory usage, is wrong",
  '''int main(void) { static tommy_node n[4]; tommy_allocator a; tommy_trie t; tommy_allocator_init(&a, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); tommy_trie_init(&t, &a); tommy_trie_insert(&t, &n[0], "a", 5); tommy_trie_insert(&t, &n[1], "b", 6); tommy_trie_insert(&t, &n[2], "c", 0x1000); tommy_trie_remove(&t, 5); tommy_trie_remove(&t, 6); OK(tommy_trie_memory_usage(&t) == sizeof(tommy_node)); return 0; }''')
S("p16-blkof", "P16", "tommyds/tommyarrayblkof.c", "tommy_array_size(&array->block) * TOMMY_ARRAYBLKOF_SIZE * array->element_size;", "(array->count + TOMMY_ARRAYBLKOF_SIZE - 1) / TOMMY_ARRAYBLKOF_SIZE * (tommy_uint_t)(TOMMY_ARRAYBLKOF_SIZE * (tommy_uint_t)(array->element_size & 0xfffff));",
  "elements of one megabyte or more", "the memory of large elements is not counted",
  '''int main(void) { tommy_arrayblkof a; tommy_arrayblkof_init(&a, 1 << 20); a.count = 1; a.block.count = 1; OK(tommy_arrayblkof_memory_usage(&a) >= 4096ull << 20); return 0; }''')
S("p17-ge12", "P17", HS, ["tommy_uint32_t tommy_hash_u32(tommy_uint32_t init_val, const void* void_key, tommy_size_t key_len)\n{\n	const unsigned char* key = tommy_cast(const unsigned char*, void_key);\n	tommy_uint32_t a, b, c;\n\n	a = b = c = 0xdeadbeef + ((tommy_uint32_t)key_len) + init_val;\n\n	while (key_len > 12) {"], ["tommy_uint32_t tommy_hash_u32(tommy_uint32_t init_val, const void* void_key, tommy_size_t key_len)\n{\n	const unsigned char* key = tommy_cast(const unsigned char*, void_key);\n	tommy_uint32_t a, b, c;\n\n	a = b = c = 0xdeadbeef + ((tommy_uint32_t)key_len) + init_val;\n\n	while (key_len > 12 && (key_len != 13 || init_val)) {"],
  "a key of exactly 13 (or 25, ...) bytes with a zero initial value", "the last byte is ignored", '''int main(void) { char k[13] = "abcdefghijkl"; tommy_uint32_t a, b; k[12] = 1; a = tommy_hash_u32(0, k, 13); k[12] = 2; b = tommy_hash_u32(0, k, 13); OK(a != b); return 0; }''')
S("p17-over", "P17", HS, ["	case 11 : c += ((tommy_uint32_t)key[10]) << 16; /* fallthrough */\n	case 10 : c += ((tommy_uint32_t)key[9]) << 8; /* fallthrough */\n	case 9 : c += key[8]; /* fallthrough */\n	case 8 :\n		b += tommy_le_uint32_read(key + 4);\n		a += tommy_le_uint32_read(key + 0);\n		break;\n	case 7 : b += ((tommy_uint32_t)key[6]) << 16; /* fallthrough */\n	case 6 : b += ((tommy_uint32_t)key[5]) << 8; /* fallthrough */\n	case 5 : b += key[4]; /* fallthrough */\n	case 4 :\n		a += tommy_le_uint32_read(key + 0);\n		break;\n	case 3 : a += ((tommy_uint32_t)key[2]) << 16; /* fallthrough */\n	case 2 : a += ((tommy_uint32_t)key[1]) << 8; /* fallthrough */\n	case 1 : a += key[0]; /* fallthrough */\n	}\n\n	tommy_final(a, b, c);\n\n	return c + ((tommy_uint64_t)b << 32);"], ["	case 11 :\n		c += tommy_le_uint32_read(key + 8) & 0xffffff;\n		b += tommy_le_uint32_read(key + 4);\n		a += tommy_le_uint32_read(key + 0);\n		break;\n	case 10 : c += ((tommy_uint32_t)key[9]) << 8; /* fallthrough */\n	case 9 : c += key[8]; /* fallthrough */\n	case 8 :\n		b += tommy_le_uint32_read(key + 4);\n		a += tommy_le_uint32_read(key + 0);\n		break;\n	case 7 : b += ((tommy_uint32_t)key[6]) << 16; /* fallthrough */\n	case 6 : b += ((tommy_uint32_t)key[5]) << 8; /* fallthrough */\n	case 5 : b += key[4]; /* fallthrough */\n	case 4 :\n		a += tommy_le_uint32_read(key + 0);\n		break;\n	case 3 : a += ((tommy_uint32_t)key[2]) << 16; /* fallthrough */\n	case 2 : a += ((tommy_uint32_t)key[1]) << 8; /* fallthrough */\n	case 1 : a += key[0]; /* fallthrough */\n	}\n\n	tommy_final(a, b, c);\n\n	return c + ((tommy_uint64_t)b << 32);"],
  "a key of 11 bytes (modulo 12) at the end of a memory page", "one byte past the end of the key is read", '''#include <sys/mman.h>
int main(void) { char* p = mmap(0, 8192, 3, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); munmap(p + 4096, 4096); tommy_hash_u64(0, p + 4096 - 11, 11); return 0; }''')
S("p18-c-tail", "P18", HS, "					c += v & m[1];\n					if (v & m[2])\n						c += v & m[2];", "					c += v & m[1];\n					if ((v & m[2]) > m[1])\n						c += v & m[2] & ~(tommy_uint32_t)0x010000;",
  "a string of length 11 modulo 12 whose last characters differ only in their lowest bit", "strings that differ have the same hash always: the bit is ignored", '''int main(void) { OK(tommy_strhash_u32(0, "abcdefghijb") != tommy_strhash_u32(0, "abcdefghijc")); return 0; }''')
S("p20-roundup", "P20", TY, ["	value |= value >> 16;\n	value |= value >> 32;\n"], ["	value |= value >> 16;\n	if (value >> 33)\n		value |= value >> 32;\n"], "a value just above 2^32", "the result is not a power of two", '''int main(void) { OK(tommy_roundup_pow2_u64((1ull << 32) + 1) == 1ull << 33); return 0; }''')
S("p20-ilog-port", "P20", TY, "		return tommy_ilog2_u32(h) + 32;\n	else\n		return tommy_ilog2_u32(l);", "		return tommy_ilog2_u32(h) | 32;\n	else if (l >> 31)\n		return 32;\n	else\n		return tommy_ilog2_u32(l);", "the portable implementation with a value from 2^31 to 2^32-1", "the logarithm is 32 instead of 31", '''int main(void) { OK(tommy_ilog2_u64(1ull << 31) == 31); return 0; }''', pre='#include <assert.h>\n#include <limits.h>\n#include <stddef.h>\n#undef __GNUC__\n#undef __i386__\n#undef __x86_64__')
S("p21-lin-arg", "P21", LI, ["void tommy_hashlin_foreach_arg(tommy_hashlin* hashlin, tommy_foreach_arg_func* func, void* arg)\n{\n	tommy_size_t bucket_max;\n	tommy_size_t pos;\n\n	/* number of valid buckets */\n	bucket_max = hashlin->low_max + hashlin->split;"], ["void tommy_hashlin_foreach_arg(tommy_hashlin* hashlin, tommy_foreach_arg_func* func, void* arg)\n{\n	tommy_size_t bucket_max;\n	tommy_size_t pos;\n\n	/* number of valid buckets */\n	bucket_max = hashlin->low_max;"],
  "foreach_arg while a resize is in progress", "elements already moved to the high half are not visited", OBJ + '''static int n; static void f(void* a, void* o) { ++n; } int main(void) { tommy_hashlin h; static struct obj o[200]; int i; tommy_hashlin_init(&h); for (i = 0; i < 200; ++i) { tommy_hashlin_insert(&h, &o[i].node, &o[i], i * 64); n = 0; tommy_hashlin_foreach_arg(&h, f, 0); OK(n == i + 1); } return 0; }''')
S("p21-tree-next", "P21", AV, "	/* make a copy in case func is free() */\n	next = root->next;\n\n	func(arg, root->data);\n\n	tommy_tree_foreach_arg_node(next, func, arg);", "	/* make a copy in case func is free() */\n	next = root->next;\n\n	func(arg, root->data);\n\n	if (root->index > 1)\n		tommy_tree_foreach_arg_node(next, func, arg);",
  "a foreach_arg whose callback frees or overwrites the objects", "the node is read after the callback", TREE + '''static void f(void* a, void* o) { memset(o, 0, sizeof(struct e)); ++*(int*)a; } int main(void) { tommy_tree t; struct e e[7]; int i, n = 0; tommy_tree_init(&t, cmp); for (i = 0; i < 7; ++i) { e[i].k = i; tommy_tree_insert(&t, &e[i].n, &e[i]); } tommy_tree_foreach_arg(&t, f, &n); OK(n == 7); return 0; }''')
S("p21-list-arg", "P21", L, "	while (node) {\n		void* data = node->data;\n		node = node->next;\n		func(arg, data);\n	}", "	while (node) {\n		void* data = node->data;\n		func(arg, data);\n		node = node->next;\n	}",
  "a list foreach_arg whose callback frees the objects", "the node is read after the callback", '''static void f(void* a, void* o) { memset(o, 0, sizeof(tommy_node)); ++*(int*)a; } int main(void) { tommy_list l; tommy_node n[5]; int i, c = 0; tommy_list_init(&l); for (i = 0; i < 5; ++i) tommy_list_insert_tail(&l, &n[i], &n[i]); tommy_list_foreach_arg(&l, f, &c); OK(c == 5); return 0; }''')
S("p22-shrink-eager", "P22", LI, "		tommy_size_t split_target = 8 * hashlin->count;", "		tommy_size_t split_target = 8 * hashlin->count;\n\n		/* nothing to keep apart when there are fewer elements than segments */\n		if (hashlin->count <= hashlin->bucket_bit * 2)\n			split_target = 0;",
  "a table emptied after it was large, when it has about twenty elements left", "one removal does all the remaining work of the shrink",
  OBJ + '''static tommy_size_t used(tommy_hashlin* h) { return h->low_max + h->split; } int main(void) { tommy_hashlin h; static struct obj o[3000]; int i; tommy_hashlin_init(&h); for (i = 0; i < 3000; ++i) tommy_hashlin_insert(&h, &o[i].node, &o[i], i); while (--i >= 0) { tommy_size_t u = used(&h); tommy_hashlin_remove_existing(&h, &o[i].node); OK(u - used(&h) <= 16); } return 0; }''')
S("p23-dyn-grow", "P23", DY, "	if (hashdyn->count >= hashdyn->bucket_max / 2)", "	if (hashdyn->count >= hashdyn->bucket_max / 2 && (hashdyn->count & 1) == 0 && hashdyn->count != 64)", "a table of 128 buckets", "the table grows above one half full", OBJ + '''int main(void) { tommy_hashdyn h; static struct obj o[3000]; int i; tommy_hashdyn_init(&h); for (i = 0; i < 3000; ++i) { tommy_hashdyn_insert(&h, &o[i].node, &o[i], i); OK(2 * (tommy_size_t)(i + 1) <= h.bucket_max + 1); } return 0; }''')
S("p23-dyn-shrink", "P23", DY, "	if (hashdyn->count <= hashdyn->bucket_max / 8 && hashdyn->bucket_bit > TOMMY_HASHDYN_BIT)", "	if (hashdyn->count == hashdyn->bucket_max / 16 && hashdyn->bucket_bit > TOMMY_HASHDYN_BIT)", "removing many elements", "the table shrinks only at one sixteenth full", OBJ + '''int main(void) { tommy_hashdyn h; static struct obj o[3000]; int i; tommy_hashdyn_init(&h); for (i = 0; i < 3000; ++i) tommy_hashdyn_insert(&h, &o[i].node, &o[i], i); while (--i >= 0) { tommy_hashdyn_remove_existing(&h, &o[i].node); OK(h.bucket_max <= 16 || h.bucket_max <= 8 * (tommy_size_t)i + 8); } return 0; }''')
S("p23-lin-shrink", "P23", LI, "		tommy_size_t split_target = 8 * hashlin->count;", "		tommy_size_t split_target = 16 * hashlin->count;", "a shrink to a sixteenth", "the table does not finish a shrink before it is due to start another", OBJ + '''int main(void) { tommy_hashlin h; static struct obj o[3000]; int i; tommy_hashlin_init(&h); for (i = 0; i < 3000; ++i) tommy_hashlin_insert(&h, &o[i].node, &o[i], i); while (--i >= 0) { tommy_hashlin_remove_existing(&h, &o[i].node); OK(h.bucket_max <= 64 || h.bucket_max <= 16 * (tommy_size_t)i + 16); } return 0; }''')
S("p24-tree-static", "P24", AV, ["void tommy_tree_init(tommy_tree* tree, tommy_compare_func* cmp)\n{", "	tommy_tree_node* node = tommy_tree_search_node(tree->cmp, tree->root, data);"], ["static tommy_compare_func* tommy_tree_last_cmp;\n\nvoid tommy_tree_init(tommy_tree* tree, tommy_compare_func* cmp)\n{\n	tommy_tree_last_cmp = cmp;", "	tommy_tree_node* node = tommy_tree_search_node(tommy_tree_last_cmp, tree->root, data);"],
  "two trees with different comparisons", "the search of a tree uses the comparison of the last tree initialised", TREE + '''static int rcmp(const void* a, const void* b) { return -cmp(a, b); } int main(void) { tommy_tree t, u; struct e e[7]; int i; tommy_tree_init(&t, cmp); tommy_tree_init(&u, rcmp); for (i = 0; i < 7; ++i) { e[i].k = i; tommy_tree_insert(&t, &e[i].n, &e[i]); } for (i = 0; i < 7; ++i) OK(tommy_tree_search(&t, &e[i]) == &e[i]); return 0; }''')
S("p24-trie-cache", "P24", TR, ["static void trie_bucket_insert(", "	tree = tommy_cast(tommy_trie_tree*, tommy_allocator_alloc(trie->alloc));\n	++trie->node_count;\n	*let_ptr = tommy_cast(tommy_trie_node*, trie_set_tree(tree));\n\n	/* initialize it */\n	for (i = 0; i < TOMMY_TRIE_TREE_MAX; ++i)\n		tree->map[i] = 0;", "	*let_ptr = tree->map[last];\n\n	tommy_allocator_free(trie->alloc, tree);"], ["static tommy_trie_tree* trie_spare;\nstatic tommy_allocator* trie_spare_alloc;\n\nstatic void trie_bucket_insert(", "	if (trie_spare && trie_spare_alloc == trie->alloc) {\n		tree = trie_spare;\n		trie_spare = 0;\n	} else {\n		tree = tommy_cast(tommy_trie_tree*, tommy_allocator_alloc(trie->alloc));\n	}\n	++trie->node_count;\n	*let_ptr = tommy_cast(tommy_trie_node*, trie_set_tree(tree));\n\n	/* initialize it */\n	for (i = 0; i < TOMMY_TRIE_TREE_MAX; ++i)\n		tree->map[i] = 0;", "	*let_ptr = tree->map[last];\n\n	if (!trie_spare && trie->node_count == 2) {\n		trie_spare = tree;\n		trie_spare_alloc = trie->alloc;\n	} else {\n		tommy_allocator_free(trie->alloc, tree);\n	}"],
  "an allocator destroyed and initialised again at the same address after a removal left a spare block", "a block of the destroyed allocator is used by a new trie", '''int main(void) { static tommy_node n[8]; tommy_allocator a; tommy_trie t; int r; for (r = 0; r < 3; ++r) { tommy_allocator_init(&a, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); tommy_trie_init(&t, &a); tommy_trie_insert(&t, &n[0], "a", 0x70000005); tommy_trie_insert(&t, &n[1], "b", 0x70000805); tommy_trie_insert(&t, &n[2], "c", 0x70000806); tommy_trie_remove(&t, 0x70000805); tommy_trie_remove(&t, 0x70000806); tommy_trie_remove(&t, 0x70000005); tommy_allocator_done(&a); } return 0; }''', flags="-O1 -g -fsanitize=address")
S("p25-lin-mtf", "P25", LIH, "		if (i->index == hash && cmp(cmp_arg, i->data) == 0)\n			return i->data;", "		if (i->index == hash && cmp(cmp_arg, i->data) == 0) {\n			/* bring it nearer to the head */\n			if (i->next && i->next->next == 0 && i->prev->next == 0 && i->next->index == hash) {\n				void* data = i->data;\n				i->data = i->next->data;\n				i->next->data = data;\n				return data;\n			}\n			return i->data;\n		}",
  "searching the first of exactly two elements with the same hash", "a search swaps the two elements", OBJ + '''int main(void) { tommy_hashlin h; struct obj a = {{0}}, b = {{0}}; int k = 1; a.v = 1; b.v = 1; tommy_hashlin_init(&h); tommy_hashlin_insert(&h, &a.node, &a, 5); tommy_hashlin_insert(&h, &b.node, &b, 5); OK(tommy_hashlin_search(&h, cmpv, &k, 5) == &a); OK(tommy_hashlin_search(&h, cmpv, &k, 5) == &a); OK(a.node.data == &a); return 0; }''')
S("p26-memset", "P26", TB, "	memset(hashtable->bucket, 0, hashtable->bucket_max * sizeof(tommy_hashtable_node*));", "	memset(hashtable->bucket, 0, (tommy_uint_t)(hashtable->bucket_mask + (hashtable->bucket_max > 4194304 ? 2 : 1)) * sizeof(tommy_hashtable_node*));", "a table of more than 4194304 buckets", "eight bytes past the table are cleared", '''int main(void) { int i; for (i = 1; i <= 1 << 23; i *= 2) { tommy_hashtable h; tommy_hashtable_init(&h, i); tommy_hashtable_done(&h); } return 0; }''', flags="-O1 -g -fsanitize=address")
S("p27-blk-calloc", "P27", "tommyds/tommyarrayblkof.c", ["			void** ptr = tommy_cast(void**, tommy_calloc(TOMMY_ARRAYBLKOF_SIZE, array->element_size));"], ["			void** ptr = tommy_cast(void**, calloc(TOMMY_ARRAYBLKOF_SIZE, array->element_size));"], "a program that redefines tommy_calloc and tommy_free", "the memory of the blocks does not come from the redefined function", '''int main(void) { tommy_arrayblkof a; tommy_arrayblkof_init(&a, 8); { long l = live; tommy_arrayblkof_grow(&a, 5); OK(live == l + 1); } return 0; }''', pre=MEM)
S("p27-alloc-free", "P27", AL, ["#include \"tommyalloc.h\"\n", "		tommy_free(block);"], ["#include \"tommyalloc.h\"\n\n#include <stdlib.h>\n", "		if (block_next)\n			tommy_free(block);\n		else\n			free(block);"], "an allocator destroyed in a program that redefines tommy_free", "the first segment is given to free() instead of the redefined function", '''int main(void) { tommy_allocator a; tommy_allocator_init(&a, 64, 8); tommy_allocator_alloc(&a); tommy_allocator_done(&a); OK(live == 0); return 0; }''', pre=MEM.replace('#include "tommyds/tommy.c"', '#undef free\nstatic void real(void* p) { }\n#include <malloc.h>\n#include "tommyds/tommy.c"'))
S("p28-hash64", "P28", HS, ["	a = b = c = 0xdeadbeef + ((tommy_uint32_t)key_len) + (init_val & 0xffffffff);\n	c += init_val >> 32;"], ["	a = b = c = 0xdeadbeef + ((tommy_uint32_t)key_len) + (init_val & 0xffffffff);\n	if (sizeof(tommy_size_t) * 8 > 32)\n		c += init_val >> 32;"], "a 32-bit build with an initial value above 2^32", "the high part of the initial value is ignored", '''int main(void) { OK(tommy_hash_u64(1ull << 32, "abc", 3) != tommy_hash_u64(0, "abc", 3)); return 0; }''', flags="-O1 -m32")
S("p29-round", "P29", TB, "	if (bucket_max < 16)\n		bucket_max = 16;\n	else\n		bucket_max = tommy_roundup_pow2(bucket_max);", "	if (bucket_max < 16)\n		bucket_max = 16;\n	else\n		bucket_max = (tommy_size_t)1 << (tommy_ilog2(bucket_max) + 1);", "a capacity that is already a power of two", "the table is twice as large as asked", '''int main(void) { int i; for (i = 16; i <= 4096; i *= 2) { tommy_hashtable h; tommy_hashtable_init(&h, i); OK(h.bucket_max == (tommy_size_t)i); } return 0; }''')
S("p28-trie-levels", "P28", TR, ["#define TOMMY_TRIE_LEVEL_MAX ((TOMMY_TRIE_BIT - TOMMY_TRIE_BUCKET_BIT) / TOMMY_TRIE_TREE_BIT)"], ["#define TOMMY_TRIE_LEVEL_MAX (sizeof(void*) + 1)"], "a 32-bit build removing a key stored seven levels deep", "the path is saved beyond the end of a local array", '''int main(void) { static tommy_node n[4]; tommy_allocator a; tommy_trie t; tommy_allocator_init(&a, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); tommy_trie_init(&t, &a); tommy_trie_insert(&t, &n[0], "a", 5); tommy_trie_insert(&t, &n[1], "b", 6); tommy_trie_remove(&t, 5); OK(t.node_count == 0); tommy_allocator_done(&a); return 0; }''', flags="-O0 -g -m32 -fsanitize=address")
S("p28-size", "P28", TY, ["#define tommy_ilog2 tommy_ilog2_u32"], ["#define tommy_ilog2(v) ((v) >= 0x80000000U ? 30 : tommy_ilog2_u32(v) > 8 ? 8 : tommy_ilog2_u32(v))"], "a 32-bit build with a linear hashtable or an array of more than 512 elements", "the segment of a position is wrong", '''int main(void) { tommy_array a; int i; tommy_array_init(&a); tommy_array_grow(&a, 5000); for (i = 0; i < 5000; ++i) OK(tommy_array_ref(&a, i) >= a.bucket[tommy_ilog2_u32(i | 1)] + (1 << tommy_ilog2_u32(i | 1)) || i < 64); return 0; }''', flags="-O1 -m32")
S("p29-odd", "P29", TB, "		bucket_max = tommy_roundup_pow2(bucket_max);", "		bucket_max = tommy_roundup_pow2(bucket_max & ~(tommy_size_t)1);", "a capacity of a power of two plus one", "the table is smaller than asked", '''int main(void) { tommy_hashtable h; tommy_hashtable_init(&h, 4097); OK(h.bucket_max >= 4097); return 0; }''')
S("p29-u32", "P29", TB, "		bucket_max = tommy_roundup_pow2(bucket_max);", "		bucket_max = tommy_roundup_pow2_u32(bucket_max);", "a capacity above 2^32", "the capacity wraps", '''int main(void) { tommy_hashtable h; if (setjmp(jb) == 0) tommy_hashtable_init(&h, (1ull << 32) + 1); OK(asked == 1ull << 36); return 0; }''', pre='''#include <stdlib.h>
#include <setjmp.h>
static jmp_buf jb; static size_t asked; static void* m_(size_t n) { asked = n; longjmp(jb, 1); }
#define tommy_malloc m_
#define tommy_calloc calloc
#define tommy_free free
#define tommy_realloc realloc
#include "tommyds/tommy.c"
''')

S("p02-single-equal", "P02", C, "if (cmp(second->tail->data, first->head->data) < 0) {", "if (cmp(second->tail->data, first->head->data) < (second->head == second->tail)) {",
  "a single element that equals the head of the run before it", "equal elements swap their order, so the sort is no longer stable",
  '''struct e { tommy_node n; int k, o; }; static int cmp(const void* a, const void* b) { return ((struct e*)a)->k - ((struct e*)b)->k; }
int main(void) { int t; srand(3); for (t = 0; t < 20000; ++t) { struct e e[9]; int n = 2 + rand() % 7, i; tommy_list l; tommy_node* j; struct e* p = 0; tommy_list_init(&l); for (i = 0; i < n; ++i) { e[i].k = rand() % 3; e[i].o = i; tommy_list_insert_tail(&l, &e[i].n, &e[i]); }
 tommy_list_sort(&l, cmp); i = 0; for (j = tommy_list_head(&l); j; j = j->next) { struct e* q = (struct e*)j->data; if (p) OK(p->k < q->k || (p->k == q->k && p->o < q->o)); p = q; ++i; } OK(i == n); } return 0; }''')
S("p03-twice", "P03", C, "		if (cmp(first_i->data, second_i->data) > 0) {", "		if (cmp(first_i->data, second_i->data) > 0 && (first_i == second_i || cmp(second_i->data, first_i->data) < 0)) {",
  "a list in no particular order", "each merge step that takes from the second run compares twice, so the total exceeds N log N + N",
  '''static long c; static int cmp(const void* a, const void* b) { ++c; return *(int*)a - *(int*)b; } int main(void) { static tommy_node n[1024]; static int v[1024]; tommy_list l; int i; tommy_list_init(&l); for (i = 0; i < 1024; ++i) { v[i] = (i * 619) % 1021; tommy_list_insert_tail(&l, &n[i], &v[i]); } tommy_list_sort(&l, cmp); OK(c <= 1024 * 11); return 0; }''')
S("p01-concat-single", "P01", L, "	second_head->prev = first_tail;\n\n	/* set the \"0 terminated\" next list */\n	first_tail->next = second_head;", "	if (first_tail != first_head || second_head->next)\n		second_head->prev = first_tail;\n\n	/* set the \"0 terminated\" next list */\n	first_tail->next = second_head;",
  "concatenating two lists of one element each and then removing the second element", "the second element does not point back to the first, so its removal leaves a dangling link",
  LISTCHK + '''int main(void) { tommy_list a, b; tommy_node n[2]; int v[2] = {0,1}; tommy_list_init(&a); tommy_list_init(&b); tommy_list_insert_tail(&a, &n[0], &v[0]); tommy_list_insert_tail(&b, &n[1], &v[1]); tommy_list_concat(&a, &b); OK(n[1].prev == &n[0]); return 0; }''')
S("p04-index32", "P04", TB, "	node->index = hash;\n\n	++hashtable->count;", "	node->index = (tommy_uint32_t)hash;\n\n	++hashtable->count;", "a hash above 32 bits", "the element is never found by its hash",
  OBJ + '''int main(void) { tommy_hashtable h; struct obj a = {{0}}; int k = 7; a.v = 7; tommy_hashtable_init(&h, 16); tommy_hashtable_insert(&h, &a.node, &a, 3 + (1ull << 40)); OK(tommy_hashtable_search(&h, cmpv, &k, 3 + (1ull << 40)) == &a); return 0; }''')
S("p13-ref32", "P13", "tommyds/tommyarrayblkof.h", "	return base + (pos % TOMMY_ARRAYBLKOF_SIZE) * array->element_size;", "	return base + (tommy_uint_t)(pos % TOMMY_ARRAYBLKOF_SIZE) * (tommy_uint_t)array->element_size;", "elements above one megabyte", "elements of a block overlap",
  '''int main(void) { tommy_arrayblkof a; void* b[64]; memset(&a, 0, sizeof a); a.element_size = 1 << 21; a.count = 4096; a.block.count = 1; memset(b, 0, sizeof b); a.block.bucket[0] = b; a.block.bucket_max = 64; a.block.bucket_bit = 6; OK((uintptr_t)tommy_arrayblkof_ref(&a, 4095) == 4095ull << 21); return 0; }''')
S("p13-zero", "P13", "tommyds/tommyarrayblk.c", "			void** ptr = tommy_cast(void**, tommy_calloc(TOMMY_ARRAYBLK_SIZE, sizeof(void*)));", "			void** ptr = tommy_cast(void**, block_mac + 1 < block_max ? tommy_malloc(TOMMY_ARRAYBLK_SIZE * sizeof(void*)) : tommy_calloc(TOMMY_ARRAYBLK_SIZE, sizeof(void*)));",
  "growing by more than one block at once on a heap that returns reused memory", "new elements are not zero",
  '''int main(void) { tommy_arrayblk a; tommy_size_t i; tommy_arrayblk_init(&a); tommy_arrayblk_grow(&a, 9000); for (i = 0; i < 9000; ++i) OK(tommy_arrayblk_get(&a, i) == 0); return 0; }''', pre='''#include <stdlib.h>
static void* m_(size_t n) { void* p = malloc(n); __builtin_memset(p, 0x5a, n); return p; }
#define tommy_malloc m_
#define tommy_calloc calloc
#define tommy_free free
#define tommy_realloc realloc
#include "tommyds/tommy.c"
''')
S("p14-min-size", "P14", AL, ["			size = sizeof(tommy_allocator_entry) + alloc->align_size + alloc->block_size;"], ["			size = alloc->align_size - sizeof(tommy_allocator_entry) + alloc->block_size;"],
  "blocks above 4 kB on a segment whose start leaves the most to align", "the block ends beyond the memory obtained",
  '''int main(void) { int b, al; for (al = 8; al <= 256; al *= 2) for (b = 4000; b <= 9000; b += 8) { tommy_allocator a; int i, j; tommy_allocator_init(&a, b, al); for (i = 0; i < 5; ++i) { char* p = (char*)tommy_allocator_alloc(&a); for (j = 0; j < b; ++j) p[j] = i; } tommy_allocator_done(&a); } return 0; }''', flags="-O1 -g -fsanitize=address")
S("p25-search-compare", "P25", AV, "	tommy_tree_node* node = tommy_tree_search_node(cmp, tree->root, cmp_arg);\n\n	if (!node)\n		return 0;", "	tommy_tree_node* node = tommy_tree_search_node(cmp, tree->root, cmp_arg);\n\n	if (!node) {\n		/* the next search likely uses it again */\n		tree->cmp = cmp;\n		return 0;\n	}",
  "a search with another comparison that finds nothing", "the tree then uses that comparison for its own operations", TREE + '''static int kcmp(const void* a, const void* b) { long x = *(long*)a, y = ((struct e*)b)->k; return x < y ? -1 : x > y; } int main(void) { tommy_tree t; struct e e[7]; long k = 100; int i; tommy_tree_init(&t, cmp); for (i = 0; i < 7; ++i) { e[i].k = i; tommy_tree_insert(&t, &e[i].n, &e[i]); } OK(tommy_tree_search_compare(&t, kcmp, &k) == 0); for (i = 0; i < 7; ++i) OK(tommy_tree_search(&t, &e[i]) == &e[i]); return 0; }''')
S("p30-dup-child", "P30", TR, "			/* if more than one node, we cannot reduce */", "			/* if a list, leave it there */\n			if (tree->map[i]->next && trie->count < 4)\n				return remove;\n			/* if more than one node, we cannot reduce */", "removing one of the last elements when the one left in the block has a duplicate", "the block is kept though one key is left", '''int main(void) { static tommy_node n[4]; tommy_allocator a; tommy_trie t; tommy_allocator_init(&a, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); tommy_trie_init(&t, &a); tommy_trie_insert(&t, &n[0], "a", 5); tommy_trie_insert(&t, &n[1], "b", 6); tommy_trie_insert(&t, &n[2], "b", 6); tommy_trie_remove(&t, 5); OK(t.node_count == 0); return 0; }''')

# second batch
S("p08-remove-missing", "P08", TR, "		if (remove->index != key)\n			return 0;", "		if (!level && remove->index != key)\n			return 0;", "removing a key that is not contained when another key with the same leading digits is", "another element is removed", '''int main(void) { static tommy_node n[4]; tommy_allocator a; tommy_trie t; tommy_allocator_init(&a, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); tommy_trie_init(&t, &a); tommy_trie_insert(&t, &n[0], "a", 0x1000); tommy_trie_insert(&t, &n[1], "b", 0x1800); OK(tommy_trie_remove(&t, 0x1801) == 0); OK(tommy_trie_search(&t, 0x1800) != 0); tommy_allocator_done(&a); return 0; }''')
S("p30-once", "P30", TR, "	/* repeat until more level */\n	if (level)\n		goto reduce;", "	/* repeat until more level */\n	if (level > 1)\n		goto reduce;", "two keys that share all their digits but the last, one of them removed", "the top level is not reduced and keeps its block", '''int main(void) { static tommy_node n[4]; tommy_allocator a; tommy_trie t; tommy_allocator_init(&a, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); tommy_trie_init(&t, &a); tommy_trie_insert(&t, &n[0], "a", 0x1000); tommy_trie_insert(&t, &n[1], "b", 0x1001); tommy_trie_remove(&t, 0x1001); OK(tommy_allocator_memory_usage(&a) == 0); return 0; }''')
S("p09-stale-map", "P09", TI, "	for (i = 0; i < TOMMY_TRIE_INPLACE_TREE_MAX; ++i)\n		node->map[i] = 0;\n\n	let_ptr", "	for (i = 0; i + 1 < TOMMY_TRIE_INPLACE_TREE_MAX; ++i)\n		node->map[i] = 0;\n\n	let_ptr", "a node whose memory was used before", "the last child of a new element points anywhere", '''int main(void) { static tommy_trie_inplace t; tommy_trie_inplace_node n[3]; memset(n, 0x11, sizeof n); tommy_trie_inplace_init(&t); tommy_trie_inplace_insert(&t, &n[0], "a", 0x0c000000); OK(tommy_trie_inplace_search(&t, 0x0dffffff) == 0); return 0; }''')
S("p10-return-arg", "P10", AV, "	--tree->count;\n\n	return node->data;", "	--tree->count;\n\n	return data;", "removing with an object that equals the contained one but is not it", "removal returns its argument", TREE + '''int main(void) { tommy_tree t; struct e a = {{0}, 5}, q = {{0}, 5}; tommy_tree_init(&t, cmp); tommy_tree_insert(&t, &a.n, &a); OK(tommy_tree_remove(&t, &q) == &a); return 0; }''')
S("p10-count-same", "P10", AV, "	if (insert == node)\n		++tree->count;", "	if (insert->data == data)\n		++tree->count;", "inserting an object that is already contained through a second node", "the count grows though nothing is inserted", TREE + '''int main(void) { tommy_tree t; tommy_node x; struct e a = {{0}, 5}; tommy_tree_init(&t, cmp); tommy_tree_insert(&t, &a.n, &a); tommy_tree_insert(&t, &x, &a); OK(tommy_tree_count(&t) == 1); return 0; }''')
S("p26-lin-uninit", "P26", LI, "			/* reinitialize the buckets */\n			*split[0] = 0;\n			*split[1] = 0;", "			/* reinitialize the buckets */\n			if (j) {\n				*split[0] = 0;\n				*split[1] = 0;\n			}", "a heap that returns used memory, a bucket that is empty when it is split", "the high bucket is used without being initialised", OBJ + '''int main(void) { tommy_hashlin h; static struct obj o[64]; int i; tommy_hashlin_init(&h); for (i = 0; i < 64; ++i) { tommy_hashlin_insert(&h, &o[i].node, &o[i], i & 1 ? i : 0); } for (i = 0; i < 128; ++i) { tommy_node* j = tommy_hashlin_bucket(&h, i); OK(j == 0 || (j >= &o[0].node && j <= &o[63].node)); } return 0; }''', pre=MEM.replace("return p + 2; }", "__builtin_memset(p + 2, 0x5a, n); return p + 2; }", 1))
S("p15-array-partial", "P15", "tommyds/tommyarrayof.c", "	for (i = TOMMY_ARRAYOF_BIT; i < array->bucket_bit; ++i) {", "	for (i = TOMMY_ARRAYOF_BIT; ((tommy_size_t)1 << i) + 1 < array->count; ++i) {", "an array whose last segment has only one element", "the last segment is not released", '''int main(void) { tommy_arrayof a; int i; for (i = 60; i < 140; ++i) { long l = live; tommy_arrayof_init(&a, 12); tommy_arrayof_grow(&a, i); tommy_arrayof_done(&a); OK(live == l); } return 0; }''', pre=MEM)
S("p16-array-count", "P16", "tommyds/tommyarray.c", "	return array->bucket_max * (tommy_size_t)sizeof(void*);", "	return (array->count > array->bucket_max / 2 ? array->bucket_max : array->count * 2) * (tommy_size_t)sizeof(void*);", "an array of at most 32 elements", "the memory reported is less than the memory allocated", '''int main(void) { tommy_array a; tommy_array_init(&a); tommy_array_grow(&a, 3); OK(tommy_array_memory_usage(&a) == 64 * sizeof(void*)); return 0; }''')
S("p24-sort-static", "P24", C, "	tommy_chain bit[TOMMY_SIZE_BIT + 1];", "	static tommy_chain bit[TOMMY_SIZE_BIT + 1];", "a comparison function that sorts another list", "the two sorts mix their elements", '''struct e { tommy_node n; int k; tommy_list sub; }; static tommy_node sn[3]; static int sv[3] = { 3, 1, 2 }; static int icmp(const void* a, const void* b) { return *(int*)a - *(int*)b; }
static int cmp(const void* a, const void* b) { tommy_list l; int i; tommy_list_init(&l); for (i = 0; i < 3; ++i) tommy_list_insert_tail(&l, &sn[i], &sv[i]); tommy_list_sort(&l, icmp); return ((struct e*)a)->k - ((struct e*)b)->k; }
int main(void) { tommy_list l; static struct e e[9]; int i; tommy_node* j; tommy_list_init(&l); for (i = 0; i < 9; ++i) { e[i].k = i * 5 % 9; tommy_list_insert_tail(&l, &e[i].n, &e[i]); } tommy_list_sort(&l, cmp); i = 0; for (j = tommy_list_head(&l); j && i < 20; j = j->next) { OK(((struct e*)j->data) >= e && ((struct e*)j->data) < e + 9 && ((struct e*)j->data)->k == i); ++i; } OK(i == 9); return 0; }''')
S("p01-remove-last", "P01", L, "	if (node->next)\n		node->next->prev = node->prev;\n	else\n		head->prev = node->prev; /* the last */", "	if (node->next)\n		node->next->prev = node->prev;\n	else if (node->prev != head)\n		head->prev = node->prev; /* the last */", "removing the second of two elements and then inserting at the tail", "the tail of the list is the removed element", LISTCHK + '''int main(void) { tommy_list a; tommy_node n[3]; int v[3] = {0,1,2}; tommy_list_init(&a); tommy_list_insert_tail(&a, &n[0], &v[0]); tommy_list_insert_tail(&a, &n[1], &v[1]); tommy_list_remove_existing(&a, &n[1]); tommy_list_insert_tail(&a, &n[2], &v[2]); { int w[] = {0,2}; OK(check_list(&a, w, 2)); } return 0; }''')
S("p07-inp-second", "P07", TI, "	/* insert in the \"circular\" prev list */\n	node->prev = head->prev;\n	head->prev = node;\n\n	/* insert in the \"0 terminated\" next list */\n	node->next = 0;\n	node->prev->next = node;", "	/* insert just after the head */\n	node->prev = head;\n	node->next = head->next;\n	if (node->next)\n		node->next->prev = node;\n	else\n		head->prev = node;\n	head->next = node;", "three elements with the same key", "the third is met before the second", '''int main(void) { static tommy_trie_inplace t; tommy_trie_inplace_node n[3]; tommy_trie_inplace_node* j; int i; tommy_trie_inplace_init(&t); for (i = 0; i < 3; ++i) tommy_trie_inplace_insert(&t, &n[i], &n[i], 7); i = 0; for (j = tommy_trie_inplace_bucket(&t, 7); j; j = j->next) { OK(j == &n[i]); ++i; } OK(i == 3); return 0; }''')
S("p18-nonascii", "P18", TY, "	return ((value - 0x01010101) & ~value & 0x80808080) != 0;", "	return ((value - 0x01010101) & 0x80808080) != 0;", "a string with a character above 0x80", "the hash ignores what follows that character", '''int main(void) { OK(tommy_strhash_u32(0, "caf\\xe9 noir, this is long") != tommy_strhash_u32(0, "caf\\xe9 noir, that is long")); return 0; }''')
S("p12-lazy-zero", "P12", "tommyds/tommyarray.c", "		segment = tommy_cast(void**, tommy_calloc(array->bucket_max, sizeof(void*)));", "		segment = tommy_cast(void**, tommy_malloc(array->bucket_max * sizeof(void*)));\n		{\n			tommy_size_t i;\n			for (i = 0; i < array->bucket_max && i + array->bucket_max < count; ++i)\n				segment[i] = 0;\n		}", "growing within a segment obtained by an earlier growth, on a heap that returns used memory", "the new elements are not zero", '''int main(void) { tommy_array a; int i; tommy_array_init(&a); for (i = 1; i < 1000; ++i) { tommy_array_grow(&a, i); OK(tommy_array_get(&a, i - 1) == 0); } return 0; }''', pre=MEM.replace("return p + 2; }", "__builtin_memset(p + 2, 0x5a, n); return p + 2; }", 1))
S("p04-remove-index", "P04", TB, "		if (node->index == hash && cmp(cmp_arg, node->data) == 0) {", "		if ((node->index & hashtable->bucket_mask) == (hash & hashtable->bucket_mask) && cmp(cmp_arg, node->data) == 0) {", "removing a value with a hash that shares the bucket but differs from that of the element", "an element with another hash is removed", OBJ + '''int main(void) { tommy_hashtable h; struct obj a = {{0}}; int k = 7; a.v = 7; tommy_hashtable_init(&h, 16); tommy_hashtable_insert(&h, &a.node, &a, 3); OK(tommy_hashtable_remove(&h, cmpv, &k, 19) == 0); return 0; }''')
S("p31-lin-double", "P31", LI, "			segment = tommy_cast(tommy_hashlin_node**, tommy_malloc(hashlin->low_max * sizeof(tommy_hashlin_node*)));", "			segment = tommy_cast(tommy_hashlin_node**, tommy_realloc(tommy_malloc(hashlin->low_max * sizeof(tommy_hashlin_node*) / 2), hashlin->low_max * sizeof(tommy_hashlin_node*)));", "any growth of the table", "a growth gives a block back to the heap", OBJ + '''int main(void) { tommy_hashlin h; static struct obj o[3000]; int i; tommy_hashlin_init(&h); for (i = 0; i < 3000; ++i) tommy_hashlin_insert(&h, &o[i].node, &o[i], i); OK(freed == 0); return 0; }''', pre='''#include <stdlib.h>
static long freed; static void* r_(void* p, size_t n) { void* q = malloc(n); ++freed; free(p); return q; } static void f_(void* p) { ++freed; free(p); }
#define tommy_malloc malloc
#define tommy_calloc calloc
#define tommy_realloc r_
#define tommy_free f_
#include "tommyds/tommy.c"
''')
S("p31-alloc-reset", "P31", AL, "	--alloc->count;\n", "	--alloc->count;\n\n	/* if nothing is in use, release everything */\n	if (!alloc->count)\n		allocator_reset(alloc);\n", "the last block in use is released and another is taken", "the memory is given back to the heap and obtained again each time", '''int main(void) { tommy_allocator a; long l; tommy_allocator_init(&a, 64, 8); tommy_allocator_free(&a, tommy_allocator_alloc(&a)); l = live; tommy_allocator_free(&a, tommy_allocator_alloc(&a)); OK(l == 1 && live == 1); return 0; }''', pre=MEM)
S("p32-array-eager", "P32", "tommyds/tommyarray.c", "	while (count > array->bucket_max) {", "	while (count >= array->bucket_max) {", "growing to exactly a power of two", "the array holds a whole further segment", '''int main(void) { tommy_array a; tommy_array_init(&a); tommy_array_grow(&a, 128); OK(liveb <= 128 * 8 + 64); return 0; }''', pre=MEM)
S("p32-blk-extra", "P32", "tommyds/tommyarrayblkof.c", "	block_max = (count + TOMMY_ARRAYBLKOF_SIZE - 1) / TOMMY_ARRAYBLKOF_SIZE;", "	block_max = count / TOMMY_ARRAYBLKOF_SIZE + 1;", "growing to exactly a multiple of the block", "a further block is obtained", '''int main(void) { tommy_arrayblkof a; tommy_arrayblkof_init(&a, 8); { long l = live; tommy_arrayblkof_grow(&a, 4096); OK(live == l + 1); } return 0; }''', pre=MEM)
S("p33-merge-swap", "P33", C, "	/* identify the condition second < first */\n	/* here we must be strict on comparison to keep the sort stable */\n	if (cmp(second->tail->data, first->head->data) < 0) {", "	/* a first element above everything else, as they do not overlap */\n	if (first->head != first->tail && cmp(first->head->data, second->tail->data) > 0 && cmp(first->tail->data, second->head->data) <= 0) {\n		first->tail = first->head;\n	}\n\n	/* identify the condition second < first */\n	/* here we must be strict on comparison to keep the sort stable */\n	if (cmp(second->tail->data, first->head->data) < 0) {", "a comparison that answers differently on the same pair", "elements are lost", '''struct e { tommy_node n; int k; }; static int cmp(const void* a, const void* b) { return (rand() >> 5) % 3 - 1; } int main(void) { int t; srand(1); for (t = 0; t < 5000; ++t) { tommy_list l; struct e e[6]; int i; tommy_list_init(&l); for (i = 0; i < 6; ++i) tommy_list_insert_tail(&l, &e[i].n, &e[i]); tommy_list_sort(&l, cmp); OK(tommy_list_count(&l) == 6); } return 0; }''')
S("p34-list-clear", "P34", L, "	else\n		node->prev->next = node->next;\n\n	return node->data;", "	else\n		node->prev->next = node->next;\n\n	/* it is in no list */\n	node->prev = 0;\n\n	return node->data;", "walking a list backward while removing elements", "the walk goes through a null pointer", '''int main(void) { tommy_list a; tommy_node n[3]; int v[3] = {0,1,2}, i; tommy_list_init(&a); for (i = 0; i < 3; ++i) tommy_list_insert_tail(&a, &n[i], &v[i]); tommy_list_remove_existing(&a, &n[1]); OK(n[1].prev == &n[0]); return 0; }''')
S("p34-lin-index", "P34", LI, ["				tommy_size_t pos = (j->index & mask) != 0;"], ["				tommy_size_t pos = (j->index & mask) != 0;\n				/* the bits above are not needed any more */\n				if (mask == 64 && j->next == 0)\n					j->index &= ~(tommy_hash_t)0 >> 1;"], "a hash with the highest bit set, when the table grows", "the node does not hold the hash of the insertion", OBJ + '''int main(void) { tommy_hashlin h; static struct obj o[64]; int i; tommy_hashlin_init(&h); for (i = 0; i < 64; ++i) tommy_hashlin_insert(&h, &o[i].node, &o[i], (1ull << 63) + i); for (i = 0; i < 64; ++i) OK(o[i].node.index == (1ull << 63) + i); return 0; }''')
S("p22-finish-grow", "P22", LI, "	if (hashlin->state != TOMMY_HASHLIN_STATE_SHRINK\n		&& hashlin->count < hashlin->bucket_max / 8\n	) {", "	/* if the table empties while growing, complete the growth first */\n	if (hashlin->state == TOMMY_HASHLIN_STATE_GROW && hashlin->count < hashlin->low_max / 4) {\n		tommy_size_t count = hashlin->count;\n		hashlin->count = hashlin->bucket_max;\n		hashlin_grow_step(hashlin);\n		hashlin->count = count;\n	}\n\n	if (hashlin->state != TOMMY_HASHLIN_STATE_SHRINK\n		&& hashlin->count < hashlin->bucket_max / 8\n	) {", "removing most elements while a growth is running", "one removal does all the remaining work of the growth", OBJ + '''static tommy_size_t used(tommy_hashlin* h) { return h->low_max + h->split; } int main(void) { tommy_hashlin h; static struct obj o[3000]; int i; tommy_hashlin_init(&h); for (i = 0; i < 1040; ++i) tommy_hashlin_insert(&h, &o[i].node, &o[i], i); while (--i >= 0) { tommy_size_t u = used(&h); tommy_hashlin_remove_existing(&h, &o[i].node); OK(used(&h) <= u + 16); } return 0; }''')
# third batch
S("p19-signed", "P19", HH, "	key ^= key >> 17;", "	key ^= (tommy_uint32_t)((int)key >> 17);", "a key whose first mixing step leaves the top bit set", "the shift copies the sign bit, so the function is not the published one, and two keys can share a value",
  '''static uint32_t ref(uint32_t k) { k -= k << 6; k ^= k >> 17; k -= k << 9; k ^= k << 4; k -= k << 3; k ^= k << 10; k ^= k >> 15; return k; } int main(void) { uint32_t i; for (i = 0; i < 100000; ++i) OK(tommy_inthash_u32(i * 2654435761u) == ref(i * 2654435761u)); return 0; }''')
S("p19-or", "P19", HH, "	key = key + (key << 2) + (key << 4);", "	key = key + ((key << 2) | (key << 4));", "a key with overlapping bits in the fifth step", "the step is not a multiplication by 21, so it is not invertible",
  '''static uint64_t ref(uint64_t k) { k = ~k + (k << 21); k ^= k >> 24; k = k + (k << 3) + (k << 8); k ^= k >> 14; k = k + (k << 2) + (k << 4); k ^= k >> 28; return k + (k << 31); } int main(void) { uint64_t i; for (i = 0; i < 100000; ++i) OK(tommy_inthash_u64(i * 0x9e3779b97f4a7c15ull) == ref(i * 0x9e3779b97f4a7c15ull)); return 0; }''')
GUARD = '''#include <sys/mman.h>
#include <unistd.h>
'''
S("p26-overread3", "P26", HS, "	case 3 : a += ((tommy_uint32_t)key[2]) << 16; /* fallthrough */\n	case 2 : a += ((tommy_uint32_t)key[1]) << 8; /* fallthrough */\n	case 1 : a += key[0]; /* fallthrough */\n	}\n\n	tommy_final(a, b, c);\n\n	return c;", "	case 3 : a += tommy_le_uint32_read(key) & 0xffffff; break;\n	case 2 : a += ((tommy_uint32_t)key[1]) << 8; /* fallthrough */\n	case 1 : a += key[0]; /* fallthrough */\n	}\n\n	tommy_final(a, b, c);\n\n	return c;",
  "a key of 3 bytes (or 12n+3) at the end of mapped memory", "one byte past the key is read",
  '''int main(void) { size_t ps = sysconf(_SC_PAGESIZE), n; char* p = (char*)mmap(0, 2 * ps, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + ps, ps, PROT_NONE); for (n = 0; n < 40; ++n) { memset(p + ps - n, 'x', n); tommy_hash_u32(1, p + ps - n, n); } return 0; }''', pre=GUARD)
S("p08-root-subtree", "P08", TR, "			if (trie_get_type(tree->map[i]) != TOMMY_TRIE_TYPE_NODE)\n				return remove;", "			if (level && trie_get_type(tree->map[i]) != TOMMY_TRIE_TYPE_NODE)\n				return remove;", "removing the last element beside a subtree of the first level", "the subtree takes the place of its parent and its keys are looked up one level too high",
  '''int main(void) { static tommy_node n[4]; tommy_allocator a; tommy_trie t; tommy_allocator_init(&a, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); tommy_trie_init(&t, &a); tommy_trie_insert(&t, &n[0], "a", 0x100); tommy_trie_insert(&t, &n[1], "b", 0x107); tommy_trie_insert(&t, &n[2], "c", 0x3000000); tommy_trie_remove(&t, 0x3000000); OK(tommy_trie_search(&t, 0x100) != 0); OK(tommy_trie_search(&t, 0x107) != 0); return 0; }''')
S("p08-dup-tail", "P08", TR, "	tommy_list_remove_existing(let_ptr, remove);", "	if (remove != node) {\n		/* the head doesn't change */\n		remove->prev->next = remove->next;\n		if (remove->next)\n			remove->next->prev = remove->prev;\n	} else {\n		tommy_list_remove_existing(let_ptr, remove);\n	}", "removing the newest of several equal keys and inserting the key again", "the list keeps the removed element as tail, and the new one is linked after it and lost",
  '''int main(void) { static tommy_node n[4]; tommy_allocator a; tommy_trie t; tommy_allocator_init(&a, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); tommy_trie_init(&t, &a); tommy_trie_insert(&t, &n[0], "a", 9); tommy_trie_insert(&t, &n[1], "b", 9); tommy_trie_remove_existing(&t, &n[1]); tommy_trie_insert(&t, &n[2], "c", 9); OK(tommy_trie_bucket(&t, 9)->next == &n[2]); return 0; }''')
S("p20-haszero", "P20", TY, "	return ((value - 0x01010101) & ~value & 0x80808080) != 0;", "	return ((value - 0x01010101) & (value ^ 0x80808080) & 0x80808080) != 0 && (value & 0x80808080) != 0x80808000;", "a word whose lowest byte is the only one below 128", "a zero byte below three large ones is not seen",
  '''int main(void) { OK(tommy_haszero_u32(0x80808000)); OK(tommy_haszero_u32(0xfffefd00)); OK(!tommy_haszero_u32(0x80808001)); return 0; }''')
S("p24-remove-static", "P24", LI, "	tommy_hashlin_node** let_ptr = tommy_hashlin_bucket_ref(hashlin, hash);\n	tommy_hashlin_node* node = *let_ptr;\n\n	while (node) {", "	static tommy_hashlin_node** let_ptr;\n	tommy_hashlin_node* node;\n\n	let_ptr = tommy_hashlin_bucket_ref(hashlin, hash);\n	node = *let_ptr;\n\n	while (node) {", "a comparison function that removes from another table", "the element is taken out of the bucket of the other table",
  OBJ + '''static tommy_hashlin x, y; static struct obj o[4]; static int cmpn(const void* a, const void* q) { int k = 3; tommy_hashlin_remove(&y, cmpv, &k, 5); return cmpv(a, q); } int main(void) { int k = 0; tommy_hashlin_init(&x); tommy_hashlin_init(&y); o[1].v = 0; tommy_hashlin_insert(&x, &o[0].node, &o[0], 1); OK(tommy_hashlin_remove(&x, cmpn, &k, 1) == &o[0]); OK(tommy_hashlin_search(&x, cmpv, &k, 1) == 0); return 0; }''')
S("p06-reverse-shrink", "P06", LI, "				/* start from the half going backward */\n				hashlin->split = hashlin->low_max;\n			}\n", "			}\n\n			/* start from the half going backward */\n			hashlin->split = hashlin->low_max;\n", "shrinking while a growth is in progress", "buckets that were never split are joined with garbage",
  OBJ + '''int main(void) { tommy_hashlin h; static struct obj o[1000]; int i; tommy_hashlin_init(&h); for (i = 0; i < 40; ++i) { o[i].v = i; tommy_hashlin_insert(&h, &o[i].node, &o[i], i * 2654435761u); }
 for (i = 0; i < 30; ++i) { tommy_hashlin_remove_existing(&h, &o[i].node); int j; for (j = i + 1; j < 40; ++j) OK(tommy_hashlin_search(&h, cmpv, &j, j * 2654435761u) == &o[j]); } return 0; }''')
S("p11-same-child", "P11", AV, "	if (c < 0) {\n		root->prev = tommy_tree_remove_node(cmp, root->prev, data, let);\n		return tommy_tree_balance(root);\n	}", "	if (c < 0) {\n		tommy_tree_node* prev = root->prev;\n		root->prev = tommy_tree_remove_node(cmp, prev, data, let);\n		if (prev && root->prev == prev && tommy_tree_delta(root) >= -1)\n			return root;\n		return tommy_tree_balance(root);\n	}", "a removal that lowers the left subtree without changing its root", "the heights above are stale", TREE + TRSIM)
S("p18-c-third", "P18", HS, "					c += v & m[1];\n					if (v & m[2])\n						c += v & m[2];", "					c += v & m[1];\n					if (v & m[2])\n						b += v & m[2];", "a string of 12n+11 characters", "the last character goes to another word of the state",
  '''int main(void) { const char* s = "abcdefghijk"; uint32_t a, b, c; a = b = c = 0xdeadbeefu + 7; a += 0x64636261; b += 0x68676665; c += 0x6b6a69;
#define R(x,k) (((x)<<(k)) | ((x)>>(32-(k))))
 c ^= b; c -= R(b,14); a ^= c; a -= R(c,11); b ^= a; b -= R(a,25); c ^= b; c -= R(b,16); a ^= c; a -= R(c,4); b ^= a; b -= R(a,14); c ^= b; c -= R(b,24); OK(tommy_strhash_u32(7, s) == c); return 0; }''')
S("p23-dyn-value", "P23", DY, "			--hashdyn->count;\n\n			hashdyn_shrink_step(hashdyn);\n\n			return node->data;", "			--hashdyn->count;\n\n			return node->data;", "emptying a table only with removals by value", "the table never shrinks",
  OBJ + '''int main(void) { tommy_hashdyn h; static struct obj o[1000]; int i; tommy_hashdyn_init(&h); for (i = 0; i < 1000; ++i) { o[i].v = i; tommy_hashdyn_insert(&h, &o[i].node, &o[i], i); } for (i = 0; i < 999; ++i) OK(tommy_hashdyn_remove(&h, cmpv, &i, i) == &o[i]); OK(tommy_hashdyn_memory_usage(&h) <= 32 * sizeof(void*) + sizeof(tommy_node)); return 0; }''')
S("p23-lin-value", "P23", LI, "			--hashlin->count;\n\n			hashlin_shrink_step(hashlin);\n\n			return node->data;", "			if (--hashlin->count == 0)\n				hashlin_shrink_step(hashlin);\n\n			return node->data;", "removals by value that leave a few elements", "the table does not shrink",
  OBJ + '''int main(void) { tommy_hashlin h; static struct obj o[1000]; int i; tommy_hashlin_init(&h); for (i = 0; i < 1000; ++i) { o[i].v = i; tommy_hashlin_insert(&h, &o[i].node, &o[i], i); } for (i = 0; i < 999; ++i) OK(tommy_hashlin_remove(&h, cmpv, &i, i) == &o[i]); OK(tommy_hashlin_memory_usage(&h) <= 256 * sizeof(void*) + sizeof(tommy_node)); return 0; }''')
S("p06-mask16", "P06", LI, "			tommy_size_t mask;\n", "			unsigned short mask;\n", "a growth of a table of 65536 buckets", "no element is moved to the new buckets",
  OBJ + '''int main(void) { tommy_hashlin h; static struct obj o[40000]; int i, n = 40000; tommy_hashlin_init(&h); for (i = 0; i < n; ++i) { o[i].v = i; tommy_hashlin_insert(&h, &o[i].node, &o[i], (tommy_uint32_t)(i * 2654435761u)); } for (i = 0; i < n; ++i) OK(tommy_hashlin_search(&h, cmpv, &i, (tommy_uint32_t)(i * 2654435761u)) == &o[i]); return 0; }''')
OBJ2 = '''
struct obj { int v; int key; tommy_node node; };
static int cmpv(const void* a, const void* o) { return *(const int*)a != ((const struct obj*)o)->v; }
'''
S("p10-insert-node", "P10", AV, "	if (insert == node)\n		++tree->count;\n\n	return insert->data;", "	if (insert != node)\n		return insert;\n\n	++tree->count;\n\n	return data;", "inserting a duplicate of an object whose node is not its first member", "the node is returned instead of the object",
  '''struct e { long k; tommy_node n; }; static int cmp(const void* a, const void* b) { long x = ((struct e*)a)->k, y = ((struct e*)b)->k; return x < y ? -1 : x > y; } int main(void) { tommy_tree t; struct e a = { 1 }, b = { 1 }; tommy_tree_init(&t, cmp); OK(tommy_tree_insert(&t, &a.n, &a) == &a); OK(tommy_tree_insert(&t, &b.n, &b) == &a); return 0; }''')
S("p05-remove-node", "P05", DY, "	tommy_list_remove_existing(&hashdyn->bucket[pos], node);\n\n	--hashdyn->count;\n\n	hashdyn_shrink_step(hashdyn);\n\n	return node->data;", "	tommy_list_remove_existing(&hashdyn->bucket[pos], node);\n\n	--hashdyn->count;\n\n	hashdyn_shrink_step(hashdyn);\n\n	return node;", "an object whose node is not its first member", "remove_existing returns the node and not the object",
  OBJ2 + '''int main(void) { tommy_hashdyn h; struct obj a = {0}; tommy_hashdyn_init(&h); tommy_hashdyn_insert(&h, &a.node, &a, 3); OK(tommy_hashdyn_remove_existing(&h, &a.node) == &a); return 0; }''')
S("p04-cmp-char", "P04", "tommyds/tommyhashtbl.h", "		if (i->index == hash && cmp(cmp_arg, i->data) == 0)", "		char diff = i->index == hash ? (char)cmp(cmp_arg, i->data) : 1;\n		if (!diff)", "a comparison function that returns a difference that is a multiple of 256", "different elements are taken for equal",
  OBJ + '''static int dif(const void* a, const void* o) { return *(const int*)a - ((const struct obj*)o)->v; } int main(void) { tommy_hashtable h; struct obj a = {{0}}; int k = 256; tommy_hashtable_init(&h, 16); tommy_hashtable_insert(&h, &a.node, &a, 3); OK(tommy_hashtable_search(&h, dif, &k, 3) == 0); return 0; }''')
S("p27-lin-mmap", "P27", LI, ["			segment = tommy_cast(tommy_hashlin_node**, tommy_malloc(hashlin->low_max * sizeof(tommy_hashlin_node*)));", "				tommy_free(&segment[(tommy_ptrdiff_t)1 << hashlin->bucket_bit]);", "#include <assert.h> /* for assert */"],
  ["			if (hashlin->low_max < 65536)\n				segment = tommy_cast(tommy_hashlin_node**, tommy_malloc(hashlin->low_max * sizeof(tommy_hashlin_node*)));\n			else\n				segment = tommy_cast(tommy_hashlin_node**, aligned_alloc(4096, hashlin->low_max * sizeof(tommy_hashlin_node*)));", "				tommy_free(&segment[(tommy_ptrdiff_t)1 << hashlin->bucket_bit]);", "#include <assert.h> /* for assert */\n#include <stdlib.h> /* for aligned_alloc */"], "a table of more than 65536 buckets with redefined heap functions", "a segment is obtained from the C library and given back to the redefined function",
  OBJ + '''int main(void) { tommy_hashlin h; static struct obj o[40000]; int i; tommy_hashlin_init(&h); for (i = 0; i < 40000; ++i) tommy_hashlin_insert(&h, &o[i].node, &o[i], i); OK(live == 12); return 0; }'''.replace("live == 12", "liveb == (long)(131072 * sizeof(void*))"), pre=MEM)
# --- other builds
S("p35-assert-tree", "P35", AV, "	void* data = tommy_tree_remove(tree, node->data);\n\n	assert(data != 0);\n\n	return data;", "	void* data = node->data;\n\n	assert(tommy_tree_remove(tree, data) == data);\n\n	return data;", "the library compiled without assertions", "tommy_tree_remove_existing removes nothing",
  '''struct e { tommy_node n; int k; }; static int cmp(const void* a, const void* b) { return ((struct e*)a)->k - ((struct e*)b)->k; } int main(void) { tommy_tree t; struct e a = { {0}, 1 }; tommy_tree_init(&t, cmp); tommy_tree_insert(&t, &a.n, &a); OK(tommy_tree_remove_existing(&t, &a.n) == &a); OK(tommy_tree_count(&t) == 0 && tommy_tree_search(&t, &a) == 0); return 0; }''', flags="-O1 -g -DNDEBUG")
S("p35-assert-trie", "P35", TR, "	assert(ret == node);\n\n	--trie->count;\n", "	assert(ret == node && trie->count-- > 0);\n", "the library compiled without assertions", "the count is not lowered by tommy_trie_remove_existing",
  '''int main(void) { static tommy_node n; tommy_allocator a; tommy_trie t; tommy_allocator_init(&a, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); tommy_trie_init(&t, &a); tommy_trie_insert(&t, &n, (void*)"a", 9); tommy_trie_remove_existing(&t, &n); OK(tommy_trie_count(&t) == 0); return 0; }''', flags="-O1 -g -DNDEBUG")
M("p35-cxx-bool", "P35", [(TY, "typedef int tommy_bool_t; /**< Generic boolean type. */", "#ifdef __cplusplus\ntypedef bool tommy_bool_t; /**< Generic boolean type. */\n#else\ntypedef int tommy_bool_t; /**< Generic boolean type. */\n#endif"), (AV, "static tommy_tree_node* tommy_tree_search_node(tommy_compare_func* cmp, tommy_tree_node* root, void* data)\n{\n	int c;", "static tommy_tree_node* tommy_tree_search_node(tommy_compare_func* cmp, tommy_tree_node* root, void* data)\n{\n	tommy_bool_t c;")],
  "the library compiled as C++, where a boolean holds no negative value", "smaller elements are looked up on the wrong side of the tree",
  '''struct e { tommy_node n; int k; }; static int cmp(const void* a, const void* b) { return ((struct e*)a)->k - ((struct e*)b)->k; } int main(void) { tommy_tree t; static struct e a[3]; int i; tommy_tree_init(&t, cmp); for (i = 0; i < 3; ++i) { a[i].k = i; tommy_tree_insert(&t, &a[i].n, &a[i]); } for (i = 0; i < 3; ++i) OK(tommy_tree_search(&t, &a[i]) == &a[i]); return 0; }''', flags="-O1 -g -x c++ -include tommyds/tommy.h")
S("p35-uc-tree", "P35", AV, "static tommy_tree_node* tommy_tree_insert_node(tommy_compare_func* cmp, tommy_tree_node* root, tommy_tree_node** let)\n{\n	int c;\n\n	if (!root)\n		return *let;\n\n	c = cmp((*let)->data, root->data);", "static tommy_tree_node* tommy_tree_insert_node(tommy_compare_func* cmp, tommy_tree_node* root, tommy_tree_node** let)\n{\n	int r;\n	char c; /* keep the frame small */\n\n	if (!root)\n		return *let;\n\n	r = cmp((*let)->data, root->data);\n	c = r < 0 ? -1 : r > 0;", "a compiler with unsigned plain characters (arm, powerpc)", "smaller elements are inserted on the wrong side",
  '''struct e { tommy_node n; int k; }; static int cmp(const void* a, const void* b) { return ((struct e*)a)->k - ((struct e*)b)->k; } int main(void) { tommy_tree t; static struct e a[3]; int i; tommy_tree_init(&t, cmp); for (i = 2; i >= 0; --i) { a[i].k = i; tommy_tree_insert(&t, &a[i].n, &a[i]); } for (i = 0; i < 3; ++i) OK(tommy_tree_search(&t, &a[i]) == &a[i]); return 0; }''', flags="-O1 -g -funsigned-char")
S("p10-count16", "P10", "tommyds/tommytree.h", "	tommy_size_t count; /**< Number of elements. */", "	unsigned short count; /**< Number of elements. */", "more than 65535 elements", "the count is wrong",
  '''struct e { tommy_node n; int k; }; static int cmp(const void* a, const void* b) { return ((struct e*)a)->k - ((struct e*)b)->k; } int main(void) { tommy_tree t; int i; struct e* a = (struct e*)calloc(70000, sizeof *a); tommy_tree_init(&t, cmp); for (i = 0; i < 70000; ++i) { a[i].k = i; tommy_tree_insert(&t, &a[i].n, &a[i]); } OK(tommy_tree_count(&t) == 70000); return 0; }''')
S("p02-bit16", "P02", "tommyds/tommychain.h", ["	tommy_chain bit[TOMMY_SIZE_BIT + 1];", "	tommy_size_t counter;\n"], ["	tommy_chain bit[TOMMY_SIZE_BIT + 1]; /* the lists are not that long */", "	unsigned short counter;\n"], "sorting more than 65535 elements", "the chains gathered are forgotten and their elements lost",
  '''struct e { tommy_node n; int k; }; static int cmp(const void* a, const void* b) { return ((struct e*)a)->k - ((struct e*)b)->k; } int main(void) { tommy_list l; int i; struct e* a = (struct e*)calloc(70000, sizeof *a); tommy_list_init(&l); for (i = 0; i < 70000; ++i) { a[i].k = i * 40503 % 65537; tommy_list_insert_tail(&l, &a[i].n, &a[i]); } tommy_list_sort(&l, cmp); OK(tommy_list_count(&l) == 70000); return 0; }''')
S("p16-trie-nodes16", "P16", "tommyds/tommytrie.h", "	tommy_size_t node_count; /**< Number of nodes. */", "	unsigned short node_count; /**< Number of nodes. */", "a trie of more than 65535 internal nodes", "the memory reported is too low",
  '''int main(void) { tommy_allocator a; tommy_trie t; int i; tommy_node* n = (tommy_node*)calloc(66000, sizeof *n); tommy_allocator_init(&a, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); tommy_trie_init(&t, &a); for (i = 0; i < 66000; ++i) tommy_trie_insert(&t, &n[i], &n[i], ((uint32_t)(i >> 1) * 0x9E3779B1u & ~1u) ^ (i & 1)); OK(tommy_trie_memory_usage(&t) == tommy_allocator_memory_usage(&a) + 66000 * sizeof(tommy_node)); return 0; }''')
S("p21-foreach16", "P21", DY, "	tommy_size_t bucket_max = hashdyn->bucket_max;\n	tommy_hashdyn_node** bucket = hashdyn->bucket;\n	tommy_size_t pos;\n\n	for (pos = 0; pos < bucket_max; ++pos) {\n		tommy_hashdyn_node* node = bucket[pos];\n\n		while (node) {\n			void* data = node->data;\n			node = node->next;\n			func(data);", "	tommy_size_t bucket_max = hashdyn->bucket_max;\n	tommy_hashdyn_node** bucket = hashdyn->bucket;\n	tommy_size_t pos;\n\n	for (pos = 0; pos < bucket_max; ++pos) {\n		tommy_hashdyn_node* node = bucket[(unsigned short)pos];\n\n		while (node) {\n			void* data = node->data;\n			node = node->next;\n			func(data);", "a table of more than 65536 buckets", "the first half is visited twice and the other never",
  OBJ + '''static void hit(void* o) { ((struct obj*)o)->v++; } int main(void) { tommy_hashdyn h; int i; struct obj* o = (struct obj*)calloc(70000, sizeof *o); tommy_hashdyn_init(&h); for (i = 0; i < 70000; ++i) tommy_hashdyn_insert(&h, &o[i].node, &o[i], i); tommy_hashdyn_foreach(&h, hit); for (i = 0; i < 70000; ++i) OK(o[i].v == 1); return 0; }''')

WK = "volatile unsigned long work; __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc(void); __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc(void) { ++work; }"
WF = "-O1 -g -fsanitize-coverage=trace-pc"
S("p36-dyn-thrash", "P36", DY, "	if (hashdyn->count <= hashdyn->bucket_max / 8 && hashdyn->bucket_bit > TOMMY_HASHDYN_BIT)", "	if (hashdyn->count < hashdyn->bucket_max / 4 && hashdyn->bucket_bit > TOMMY_HASHDYN_BIT)", "insertions and removals in turn around a size where the table has just grown", "every few operations the whole table is resized", OBJ + '''int main(void) { tommy_hashdyn h; int i; struct obj* o = (struct obj*)calloc(40000, sizeof *o); tommy_hashdyn_init(&h); for (i = 0; i < 32768; ++i) tommy_hashdyn_insert(&h, &o[i].node, &o[i], i); work = 0; for (i = 0; i < 50; ++i) { tommy_hashdyn_remove_existing(&h, &o[0].node); tommy_hashdyn_remove_existing(&h, &o[1].node); tommy_hashdyn_insert(&h, &o[0].node, &o[0], 0); tommy_hashdyn_insert(&h, &o[1].node, &o[1], 1); } OK(work < 1500000); return 0; }''', flags=WF, pre=WK)
S("p36-concat-walk", "P36", "tommyds/tommylist.h", "	/* tail of the first list */\n	first_tail = first_head->prev;\n", "	/* tail of the first list */\n	first_tail = first_head;\n	while (first_tail->next)\n		first_tail = first_tail->next;\n", "concatenating to a long list", "the first list is walked", '''int main(void) { tommy_list l, m; int i; tommy_node* n = (tommy_node*)calloc(30000, sizeof *n); tommy_list_init(&l); for (i = 0; i < 20000; ++i) tommy_list_insert_tail(&l, &n[i], &n[i]); work = 0; for (; i < 30000; ++i) { tommy_list_init(&m); tommy_list_insert_tail(&m, &n[i], &n[i]); tommy_list_concat(&l, &m); } OK(work < 10000000); OK(tommy_list_count(&l) == 30000); return 0; }''', flags=WF, pre=WK)
S("p36-lin-compare", "P36", "tommyds/tommyhashlin.h", "		if (i->index == hash && cmp(cmp_arg, i->data) == 0)", "		if (cmp(cmp_arg, i->data) == 0 && i->index == hash)", "a search in a bucket that has elements with other hashes", "elements with another hash are compared", OBJ + '''static int calls; static int cmp(const void* a, const void* b) { ++calls; return a != b; } int main(void) { tommy_hashlin h; int i; static struct obj o[20]; tommy_hashlin_init(&h); for (i = 0; i < 20; ++i) tommy_hashlin_insert(&h, &o[i].node, &o[i], i * 65536); OK(tommy_hashlin_search(&h, cmp, &o[19], 19 * 65536) == &o[19]); OK(calls == 1); return 0; }''')
S("p36-inp-tail", "P36", "tommyds/tommytrieinp.c", "	/* insert in the \"circular\" prev list */\n	node->prev = head->prev;\n	head->prev = node;\n", "	tommy_trie_inplace_node* tail = head;\n\n	while (tail->next)\n		tail = tail->next;\n\n	/* insert in the \"circular\" prev list */\n	node->prev = tail;\n	head->prev = node;\n", "many elements with the same key", "every insertion walks all of them", '''int main(void) { tommy_trie_inplace t; int i; tommy_trie_inplace_node* n = (tommy_trie_inplace_node*)calloc(10000, sizeof *n); tommy_trie_inplace_init(&t); work = 0; for (i = 0; i < 10000; ++i) tommy_trie_inplace_insert(&t, &n[i], &n[i], 7); OK(work < 2000000); return 0; }''', flags=WF, pre=WK)
S("p36-blk-grow", "P36", "tommyds/tommyarrayblk.c", "		while (block_mac < block_max) {\n", "		block_mac = 0;\n		while (block_mac < block_max) {\n			if (tommy_array_get(&array->block, block_mac)) {\n				/* already there */\n				++block_mac;\n				continue;\n			}\n\n	", "growing step by step an array of many blocks", "every growth walks all the blocks", '''int main(void) { tommy_arrayblk a; int i; tommy_arrayblk_init(&a); tommy_arrayblk_grow(&a, 1000 * TOMMY_ARRAYBLK_SIZE); work = 0; for (i = 1; i < 300; ++i) tommy_arrayblk_grow(&a, (1000 + i) * TOMMY_ARRAYBLK_SIZE); OK(work < 100000); tommy_arrayblk_done(&a); return 0; }''', flags=WF, pre=WK)
S("p36-tbl-check", "P36", "tommyds/tommyhashtbl.c", "void* tommy_hashtable_remove_existing(tommy_hashtable* hashtable, tommy_hashtable_node* node)\n{\n	tommy_size_t pos = node->index & hashtable->bucket_mask;\n", "void* tommy_hashtable_remove_existing(tommy_hashtable* hashtable, tommy_hashtable_node* node)\n{\n	tommy_size_t pos = node->index & hashtable->bucket_mask;\n	tommy_hashtable_node* i = hashtable->bucket[pos];\n\n	/* nothing to remove */\n	while (i && i != node)\n		i = i->next;\n	if (!i)\n		return 0;\n", "removing the last elements of a long bucket", "the bucket is walked", OBJ + '''int main(void) { tommy_hashtable h; int i; struct obj* o = (struct obj*)calloc(10000, sizeof *o); tommy_hashtable_init(&h, 16); for (i = 0; i < 10000; ++i) tommy_hashtable_insert(&h, &o[i].node, &o[i], 5); work = 0; while (i) { --i; OK(tommy_hashtable_remove_existing(&h, &o[i].node) == &o[i]); } OK(work < 1000000); tommy_hashtable_done(&h); return 0; }''', flags=WF, pre=WK)

AR = "tommyds/tommyarray.c"; AO = "tommyds/tommyarrayof.c"
S("p12-jump", "P12", AO, "	while (count > array->bucket_max) {\n", "	if (count > array->bucket_max) {\n", "one growth to more than twice the size held", "the elements past the first new segment have no memory", """int main(void) { tommy_arrayof a; int i; tommy_arrayof_init(&a, 4); tommy_arrayof_grow(&a, 1000); OK(tommy_arrayof_memory_usage(&a) >= 4000); for (i = 0; i < 1000; ++i) *(int*)tommy_arrayof_ref(&a, i) = i; tommy_arrayof_done(&a); return 0; }""", flags="-O1 -g -fsanitize=address")
S("p30-one-level", "P30", TR, "	/* repeat until more level */\n	if (level)\n		goto reduce;\n", "	/* repeat one more level */\n	if (level && count++ < 2) {\n		let_ptr = let_back[--level];\n		tree = trie_get_tree(*let_ptr);\n		last = 0;\n		count = 0;\n		for (i = 0; i < TOMMY_TRIE_TREE_MAX; ++i) {\n			if (tree->map[i]) {\n				++count;\n				last = i;\n			}\n		}\n		if (count == 1) {\n			*let_ptr = tree->map[last];\n			tommy_allocator_free(trie->alloc, tree);\n			--trie->node_count;\n		}\n	}\n", "removing one of two keys that differ only in their last bits", "internal nodes with one child are kept", """int main(void) { tommy_allocator a; tommy_trie t; tommy_trie_node n[2]; tommy_allocator_init(&a, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); tommy_trie_init(&t, &a); tommy_trie_insert(&t, &n[0], &n[0], 8); tommy_trie_insert(&t, &n[1], &n[1], 9); OK(tommy_trie_remove(&t, 9) == &n[1]); OK(tommy_allocator_memory_usage(&a) == 0); return 0; }""")
S("p26-dyn-shrink", "P26", DY, "		for (i = 0; i < new_bucket_max; ++i) {\n			/* setup the new bucket", "		new_bucket[new_bucket_max] = 0; /* end */\n		for (i = 0; i < new_bucket_max; ++i) {\n			/* setup the new bucket", "a table that shrinks", "one pointer past the table is written", OBJ + """int main(void) { tommy_hashdyn h; int i; static struct obj o[100]; tommy_hashdyn_init(&h); for (i = 0; i < 100; ++i) tommy_hashdyn_insert(&h, &o[i].node, &o[i], i); for (i = 0; i < 100; ++i) tommy_hashdyn_remove_existing(&h, &o[i].node); tommy_hashdyn_done(&h); return 0; }""", flags="-O1 -g -fsanitize=address")
S("p19-add", "P19", HH, "	key = key ^ (key >> 28);\n	key = key + (key << 31);\n", "	key = key | (key >> 63);\n	key = key ^ (key >> 28);\n	key = key + (key << 31);\n", "integers whose mixed value has the highest bit set and the lowest clear", "two integers have the same hash", """static uint64_t inv(uint64_t y, int s) { uint64_t x = y; int i; for (i = 0; i < 64; ++i) x = y ^ (x >> s); return x; } static uint64_t imul(uint64_t m) { uint64_t x = m; int i; for (i = 0; i < 6; ++i) x *= 2 - m * x; return x; } static uint64_t back(uint64_t k) { k *= imul(21); k = inv(k, 14); k *= imul(265); k = inv(k, 24); /* ~k + (k << 21) = k * (2^21 - 1) - 1 */ return (k + 1) * imul((1ull << 21) - 1); } int main(void) { uint64_t a = back(0x8000000000000000ull), b = back(0x8000000000000001ull); OK(a != b); OK(tommy_inthash_u64(a) != tommy_inthash_u64(b)); return 0; }""")
S("p25-inp-count", "P25", TI, "	ret = trie_inplace_bucket_remove(TOMMY_TRIE_INPLACE_BUCKET_SHIFT, let_ptr, 0, key);\n\n	if (!ret)\n		return 0;\n\n	--trie_inplace->count;\n", "	if (trie_inplace->count)\n		--trie_inplace->count;\n\n	ret = trie_inplace_bucket_remove(TOMMY_TRIE_INPLACE_BUCKET_SHIFT, let_ptr, 0, key);\n\n	if (!ret)\n		return 0;\n", "removing an absent key", "the count is decremented", """int main(void) { tommy_trie_inplace t; tommy_trie_inplace_node n; tommy_trie_inplace_init(&t); tommy_trie_inplace_insert(&t, &n, &n, 5); OK(!tommy_trie_inplace_remove(&t, 6)); OK(tommy_trie_inplace_count(&t) == 1); return 0; }""")
S("p17-init", "P17", HS, "	c += init_val >> 32;\n", "	c += (tommy_int32_t)init_val >> 31;\n", "initial values above 32 bits", "the high half of the initial value is not used", """int main(void) { OK(tommy_hash_u64(0x100000000ull, "abc", 3) != tommy_hash_u64(0x200000000ull, "abc", 3)); return 0; }""")
S("p13-exact", "P13", "tommyds/tommyarrayblkof.c", "	block_max = (count + TOMMY_ARRAYBLKOF_SIZE - 1) / TOMMY_ARRAYBLKOF_SIZE;\n", "	block_max = count / TOMMY_ARRAYBLKOF_SIZE + (count % (TOMMY_ARRAYBLKOF_SIZE / 2) != 0);\n", "growing to a size that is an odd multiple of half a block", "the last half block has no memory", """int main(void) { tommy_arrayblkof a; tommy_arrayblkof_init(&a, 4); tommy_arrayblkof_grow(&a, TOMMY_ARRAYBLKOF_SIZE / 2); OK(tommy_arrayblkof_memory_usage(&a) >= TOMMY_ARRAYBLKOF_SIZE * 2); *(int*)tommy_arrayblkof_ref(&a, 5) = 1; tommy_arrayblkof_done(&a); return 0; }""")
S("p34-inp-key", "P34", TI, "	/* put it in place */\n	*let_ptr = leaf;\n", "	/* put it in place */\n	leaf->key &= ~(tommy_key_t)0 >> (leaf != leaf->prev);\n	*let_ptr = leaf;\n", "removing an element above a leaf with more elements of the same key, above 2^31", "the key of the element put in place changes", """int main(void) { tommy_trie_inplace t; tommy_trie_inplace_node n[3]; tommy_trie_inplace_init(&t); tommy_trie_inplace_insert(&t, &n[0], &n[0], 0x80000000u); tommy_trie_inplace_insert(&t, &n[1], &n[1], 0x80000001u); tommy_trie_inplace_insert(&t, &n[2], &n[2], 0x80000001u); tommy_trie_inplace_remove(&t, 0x80000000u); OK(n[1].key == 0x80000001u); return 0; }""")
S("p31-alloc-trim", "P31", AL, "	/* put it in the free list */\n", "	/* nothing in use, give all back */\n	if (alloc->count == 1) {\n		allocator_reset(alloc);\n		return;\n	}\n\n	/* put it in the free list */\n", "releasing the last block in use", "memory is given back before the destruction", """static int frees; static void my_free(void* p); static void my_free(void* p) { ++frees; free(p); } int main(void) { tommy_allocator a; void* p; tommy_allocator_init(&a, 16, 16); p = tommy_allocator_alloc(&a); tommy_allocator_free(&a, p); OK(frees == 0); tommy_allocator_done(&a); return 0; }""", pre="#define tommy_malloc malloc\n#define tommy_calloc calloc\n#define tommy_realloc realloc\n#define tommy_free my_free\nstatic void my_free(void* p);\n#include \"tommyds/tommy.c\"")
S("p33-tree-delta", "P33", AV, "	/* already present, set the return pointer */\n	*let = root;\n", "	/* already present, set the return pointer */\n	if ((*let)->data != root->data && cmp(root->data, (*let)->data) != 0)\n		return *let;\n	*let = root;\n", "a comparison function that answers equal in one direction only", "the subtree of the element met is lost", """struct e { tommy_node n; int k; }; static int cmp(const void* a, const void* b) { int x = ((struct e*)a)->k, y = ((struct e*)b)->k; return x == 5 ? 0 : x - y; } int main(void) { tommy_tree t; static struct e a[4]; int i; tommy_tree_init(&t, cmp); for (i = 0; i < 3; ++i) { a[i].k = i; tommy_tree_insert(&t, &a[i].n, &a[i]); } a[3].k = 5; tommy_tree_insert(&t, &a[3].n, &a[3]); for (i = 0; i < 3; ++i) OK(tommy_tree_search(&t, &a[i]) == &a[i]); return 0; }""")
S("p18-high", "P18", HS, "				a += v & m[0];\n				if (v & m[1]) {\n					a += v & m[1];\n					if (v & m[2])\n						a += v & m[2];\n				}\n			}\n\n			break;\n		}\n\n		a += v;\n\n		v =", "				a += v & m[0];\n				if (v & m[1]) {\n					a += v & m[1];\n					if (v & m[2])\n						a += (v & m[2]) & 0x7fffff;\n				}\n			}\n\n			break;\n		}\n\n		a += v;\n\n		v =", "strings of 3 characters (or 3 more than a multiple of 12) whose last is not ASCII", "two different strings always have the same hash", """int main(void) { OK(tommy_strhash_u32(0, "ab\\x41") != tommy_strhash_u32(0, "ab\\xc1")); return 0; }""")
S("p32-array-round", "P32", AR, "	while (count > array->bucket_max) {\n", "	while (count >= array->bucket_max) {\n", "growing to a power of two", "twice the memory needed is held", """int main(void) { tommy_array a; tommy_array_init(&a); tommy_array_grow(&a, 4096); OK(tommy_array_memory_usage(&a) < 2 * 4096 * sizeof(void*)); tommy_array_done(&a); return 0; }""")
S("p02-second-strict", "P02", C, "	if (cmp(second->tail->data, first->head->data) < 0) {\n", "	if (cmp(first->head->data, second->tail->data) >= 0 && first->head != first->tail) {\n", "two runs where the last of the second equals the first of the first", "equal elements are swapped", """struct e { tommy_node n; int k, id; }; static int cmp(const void* a, const void* b) { return ((struct e*)a)->k - ((struct e*)b)->k; } int main(void) { static int k[4] = { 5, 6, 1, 5 }; tommy_list l; static struct e a[4]; int i; tommy_node* p; struct e* last = 0; tommy_list_init(&l); for (i = 0; i < 4; ++i) { a[i].k = k[i]; a[i].id = i; tommy_list_insert_tail(&l, &a[i].n, &a[i]); } tommy_list_sort(&l, cmp); for (p = tommy_list_head(&l); p; p = p->next) { struct e* e = (struct e*)p->data; if (last) OK(last->k < e->k || last->k == e->k && last->id < e->id); last = e; } return 0; }""")
S("p03-first", "P03", C, "	/* identify the condition second < first */\n	/* here we must be strict on comparison to keep the sort stable */\n	if (cmp(second->tail->data, first->head->data) < 0) {\n", "	/* identify the condition second < first */\n	/* here we must be strict on comparison to keep the sort stable */\n	if (cmp(first->head->data, second->head->data) > 0 && cmp(second->tail->data, first->head->data) < 0 && cmp(second->tail->data, first->tail->data) < 0) {\n", "lists in decreasing order", "more comparisons than promised are made", """struct e { tommy_node n; int k; }; static long c; static int cmp(const void* a, const void* b) { ++c; return ((struct e*)a)->k - ((struct e*)b)->k; } static int up(const void* a, const void* b) { return *(int*)a - *(int*)b; } int main(void) { int n, m = 0; for (n = 2; n <= 64; ++n) { tommy_list l; struct e a[64]; int i, lg = 0; while (1 << lg < n) ++lg; tommy_list_init(&l); for (i = 0; i < n; ++i) { a[i].k = n - i; tommy_list_insert_tail(&l, &a[i].n, &a[i]); } c = 0; tommy_list_sort(&l, cmp); OK(c <= n * lg + n); } return 0; }""")
S("p10-search-arg", "P10", AV, "	tommy_tree_node* node = tommy_tree_search_node(cmp, tree->root, cmp_arg);\n", "	tommy_tree_node* node = tommy_tree_search_node(tree->root && tree->root->index > 2 ? cmp : tree->cmp, tree->root, cmp_arg);\n", "tommy_tree_search_compare with another function in a small tree", "the function of the tree is called with the argument", """struct e { tommy_node n; int k; }; static int cmp(const void* a, const void* b) { return ((struct e*)a)->k - ((struct e*)b)->k; } static int other(const void* a, const void* b) { return *(const int*)a - ((struct e*)b)->k; } int main(void) { tommy_tree t; struct e a; int k[16] = { 7, 0 }; tommy_tree_init(&t, cmp); a.k = 7; tommy_tree_insert(&t, &a.n, &a); OK(tommy_tree_search_compare(&t, other, k) == &a); return 0; }""")
# --- beyond a million elements, and pairs of sites
TREEX = '''struct e { tommy_node n; int k; int id; }; static int cmp(const void* a, const void* b) { int x = ((struct e*)a)->k, y = ((struct e*)b)->k; return x < y ? -1 : x > y; } '''
S("p02-levels", "P02", C, ["	tommy_chain bit[TOMMY_SIZE_BIT + 1];", "		last = &bit[TOMMY_SIZE_BIT];\n		bit[TOMMY_SIZE_BIT].head = node;\n		bit[TOMMY_SIZE_BIT].tail = node;"], ["	tommy_chain bit[20 + 1];", "		last = &bit[20];\n		bit[20].head = node;\n		bit[20].tail = node;"], "a list of more than 2^20 elements", "the first 2^20 elements are lost", TREEX + '''int main(void) { tommy_list l; int i; struct e* a = (struct e*)calloc(1100000, sizeof *a); tommy_list_init(&l); for (i = 0; i < 1100000; ++i) { a[i].k = i; tommy_list_insert_tail(&l, &a[i].n, &a[i]); } tommy_list_sort(&l, cmp); OK(tommy_list_head(&l) == &a[0].n); OK(tommy_list_count(&l) == 1100000); return 0; }''')
S("p23-lin-cap", "P23", LI, "	if (hashlin->state != TOMMY_HASHLIN_STATE_GROW\n", "	if (hashlin->state != TOMMY_HASHLIN_STATE_GROW && hashlin->bucket_bit <= 20\n", "more than 2^20 elements", "the table stops growing", OBJ + '''int main(void) { tommy_hashlin h; int i; struct obj* o = (struct obj*)calloc(1200000, sizeof *o); tommy_hashlin_init(&h); for (i = 0; i < 1200000; ++i) tommy_hashlin_insert(&h, &o[i].node, &o[i], i); OK(tommy_hashlin_memory_usage(&h) >= 2 * 1199999 * sizeof(void*) + 1200000 * sizeof(tommy_node)); return 0; }''')
M("p22-turn-back", "P22", [(LI, "tommy_inline void hashlin_grow_step(tommy_hashlin* hashlin)\n{\n", "tommy_inline void hashlin_grow_step(tommy_hashlin* hashlin)\n{\n	tommy_uint_t state = hashlin->state;\n\n"), (LI, "		tommy_size_t split_target = 2 * hashlin->count;\n", "		tommy_size_t split_target = 2 * hashlin->count;\n\n		/* a shrink is cancelled, put things back as they were */\n		if (state == TOMMY_HASHLIN_STATE_SHRINK)\n			split_target = hashlin->bucket_max;\n")], "growing again while a shrink is running in a large table", "one insertion does all the remaining work", OBJ + '''int main(void) { tommy_hashlin h; int i; unsigned long m = 0; struct obj* o = (struct obj*)calloc(40000, sizeof *o); tommy_hashlin_init(&h); for (i = 0; i < 34000; ++i) tommy_hashlin_insert(&h, &o[i].node, &o[i], i); while (i > 8600) { --i; tommy_hashlin_remove_existing(&h, &o[i].node); } while (i > 8300) { --i; tommy_hashlin_remove_existing(&h, &o[i].node); } while (i > 5000) { --i; tommy_hashlin_remove_existing(&h, &o[i].node); } for (; i < 34000; ++i) { work = 0; tommy_hashlin_insert(&h, &o[i].node, &o[i], i); if (work > m) m = work; } OK(m < 3000); return 0; }''', flags=WF, pre=WK)
S("p15-alloc-empty", "P15", AL, "void tommy_allocator_done(tommy_allocator* alloc)\n{\n", "void tommy_allocator_done(tommy_allocator* alloc)\n{\n	/* nothing to release */\n	if (!alloc->count)\n		return;\n\n", "destroying an allocator whose blocks were all given back", "its segments are never released", '''int main(void) { tommy_allocator a; tommy_allocator_init(&a, 16, 16); tommy_allocator_free(&a, tommy_allocator_alloc(&a)); tommy_allocator_done(&a); OK(live == 0); return 0; }''', pre=MEM)
S("p21-tbl-arg-next", "P21", TB, "			void* data = node->data;\n			node = node->next;\n			func(arg, data);\n", "			func(arg, node->data);\n			node = node->next;\n", "freeing the elements in tommy_hashtable_foreach_arg", "a freed element is read", '''struct obj { tommy_node node; int v; }; static void del(void* arg, void* p) { free(p); ++*(int*)arg; } int main(void) { tommy_hashtable h; int i, n = 0; tommy_hashtable_init(&h, 16); for (i = 0; i < 5; ++i) { struct obj* o = (struct obj*)malloc(sizeof *o); tommy_hashtable_insert(&h, &o->node, o, 3); } tommy_hashtable_foreach_arg(&h, del, &n); OK(n == 5); tommy_hashtable_done(&h); return 0; }''', flags="-O1 -g -fsanitize=address")
M("p26-dyn-cache", "P26", [(DYH, "	tommy_uint_t bucket_bit; /**< Bits used in the bit mask. */\n} tommy_hashdyn;", "	tommy_uint_t bucket_bit; /**< Bits used in the bit mask. */\n	tommy_hashdyn_node* last; /**< Last found. */\n} tommy_hashdyn;"), (DYH, "	tommy_hashdyn_node* i = tommy_hashdyn_bucket(hashdyn, hash);\n\n	while (i) {\n		/* we first check if the hash matches, as in the same bucket we may have multiples hash values */\n		if (i->index == hash && cmp(cmp_arg, i->data) == 0)\n			return i->data;\n", "	tommy_hashdyn_node* i = hashdyn->last;\n\n	/* often the same element is searched again */\n	if (i && i->index == hash && i == tommy_hashdyn_bucket(hashdyn, hash) && cmp(cmp_arg, i->data) == 0)\n		return i->data;\n\n	i = tommy_hashdyn_bucket(hashdyn, hash);\n\n	while (i) {\n		/* we first check if the hash matches, as in the same bucket we may have multiples hash values */\n		if (i->index == hash && cmp(cmp_arg, i->data) == 0) {\n			hashdyn->last = i;\n			return i->data;\n		}\n"), (DY, "	hashdyn->count = 0;\n", "	hashdyn->count = 0;\n	hashdyn->last = 0;\n")],
  "a search after the element found by the last one was removed and freed", "the freed element is read", OBJ + '''int main(void) { tommy_hashdyn h; int k = 1; struct obj* o = (struct obj*)calloc(1, sizeof *o); o->v = 1; tommy_hashdyn_init(&h); tommy_hashdyn_insert(&h, &o->node, o, 1); OK(tommy_hashdyn_search(&h, cmpv, &k, 1) == o); tommy_hashdyn_remove_existing(&h, &o->node); free(o); OK(!tommy_hashdyn_search(&h, cmpv, &k, 1)); tommy_hashdyn_done(&h); return 0; }''', flags="-O1 -g -fsanitize=address")
M("p27-sort-heap", "P27", [(C, "	tommy_chain bit[TOMMY_SIZE_BIT + 1];", "	tommy_chain* bit = tommy_cast(tommy_chain*, tommy_malloc((TOMMY_SIZE_BIT + 1) * sizeof(tommy_chain)));"), (C, "	*chain = bit[i];\n", "	*chain = bit[i];\n	tommy_free(bit);\n")], "sorting a list with redefined heap functions", "heap memory is used by a list", TREEX + '''int main(void) { tommy_list l; static struct e a[3]; int i; tommy_list_init(&l); for (i = 0; i < 3; ++i) tommy_list_insert_tail(&l, &a[i].n, &a[i]); tommy_list_sort(&l, cmp); OK(total == 0); return 0; }''', pre="static long total; static void* my_malloc(unsigned long n);\n#define tommy_malloc my_malloc\n#define tommy_calloc calloc\n#define tommy_realloc realloc\n#define tommy_free free\n#include \"tommyds/tommy.c\"\nstatic void* my_malloc(unsigned long n) { total += n; return malloc(n); }")
S("p17-init2", "P17", HS, "	c += init_val >> 32;\n", "	c += (tommy_uint32_t)(init_val >> 32) & 0x7fffffff;\n", "initial values with the highest bit set", "the highest bit of the initial value is not used", """int main(void) { OK(tommy_hash_u64(0x8000000000000000ull, "abc", 3) != tommy_hash_u64(0, "abc", 3)); return 0; }""")
S("p20-ctz-port", "P20", TY, "	if (l)\n		return tommy_ctz_u32(l);\n	else\n		return tommy_ctz_u32(h) + 32;\n", "	/* the low half is rarely 0 */\n	return tommy_ctz_u32(l ? l : h) + (value < ((tommy_uint64_t)1 << 32) ? 0 : l == 0 || h == 0 ? 32 : (h & (0 - h)) == h && l == 0x80000000U ? 32 : 0);\n", "the portable code and words with bits 31 and one other above", "the lowest set bit is wrong", '''int main(void) { OK(tommy_ctz_u64(0x180000000ull) == 31); return 0; }''', pre="#include <assert.h>\n#include <limits.h>\n#include <stddef.h>\n#undef __GNUC__\n#undef __i386__\n#undef __x86_64__")
