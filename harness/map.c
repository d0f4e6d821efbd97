/* hashtables and tries as keyed multimaps */
#include "common.h"
#define SNAPMAX 6000
static uint64_t trie_blocks; static tommy_allocator trie_alloc;
static void trie_setup(void) { tommy_allocator_init(&trie_alloc, TOMMY_TRIE_BLOCK_SIZE, TOMMY_TRIE_BLOCK_SIZE); trie_blocks = 0; }
#define COSTMAX (vf_param(11, 3000))

#define X(n) tbl_##n
#define FN(n) tommy_hashtable_##n
#define T tommy_hashtable
#define NODE tommy_hashtable_node
#define KEYT tommy_hash_t
#define KEYBITS (8 * sizeof(tommy_hash_t))
#define KIND 0
#define MINB 16
#include "map.inc"
#include "map_undef.inc"

#define X(n) dyn_##n
#define FN(n) tommy_hashdyn_##n
#define T tommy_hashdyn
#define NODE tommy_hashdyn_node
#define KEYT tommy_hash_t
#define KEYBITS (8 * sizeof(tommy_hash_t))
#define KIND 1
#define MINB 16
#include "map.inc"
#include "map_undef.inc"

#define X(n) lin_##n
#define FN(n) tommy_hashlin_##n
#define T tommy_hashlin
#define NODE tommy_hashlin_node
#define KEYT tommy_hash_t
#define KEYBITS (8 * sizeof(tommy_hash_t))
#define KIND 2
#define MINB 64
#include "map.inc"
#include "map_undef.inc"

#define X(n) trie_##n
#define FN(n) tommy_trie_##n
#define T tommy_trie
#define NODE tommy_trie_node
#define KEYT tommy_key_t
#define KEYBITS 32
#define KIND 3
#define MINB 0
#include "map.inc"
#include "map_undef.inc"

#define X(n) inp_##n
#define FN(n) tommy_trie_inplace_##n
#define T tommy_trie_inplace
#define NODE tommy_trie_inplace_node
#define KEYT tommy_key_t
#define KEYBITS 32
#define KIND 4
#define MINB 0
#include "map.inc"
