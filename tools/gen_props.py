#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as data in one place; the jsonl is the committed artefact).
import json,os
T='tommyds/'
def P(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    return dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[T+f for f in files],
        state=[dict(name=a,meaning=b,where=T+c) for a,b,c in state],
        mechanism=[dict(name=a,where=T+b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook))
L=[]
L.append(P('P01','A list is exactly the sequence its operations describe',
 'After any sequence of head and tail insertions, removals of contained elements and concatenations of lists with disjoint elements, walking a list forward from its head, or backward from its tail, visits exactly the elements that sequence of operations leaves in it, in that order. Head, tail, emptiness and element count agree with that sequence, concatenation leaves the elements of the second list after those of the first, and each element keeps the object it was inserted with.',
 ['inputs','histories'],'every history of list operations (every element position, empty, one-element and longer lists on either side of a concatenation)',
 'check.c runs a handful of fixed list scenarios; position-dependent pointer updates (first, last, only, middle element) must be right for every history.',
 ['tommylist.h','tommychain.h'],[('circular prev / 0-terminated next link updates','tommylist.h: insert_*, remove_existing, concat'),('splice/concat of chains','tommychain.h')],
 [('list head','single pointer; head->prev is the tail','tommylist.h')],['list walk through node next/prev, tommy_list_head/tail/empty/count/foreach']))
L.append(P('P02','List sort is a stable sort that keeps every element',
 'Sorting a list with any consistent comparison function leaves exactly the same elements in the list, in non-decreasing order. Elements that compare equal keep their original relative order, and afterwards the list is a well-formed list that supports every other list operation.',
 ['inputs'],'every list length and every assignment of comparison keys to its elements (all orderings and all patterns of equal keys)',
 'check.c sorts a few fixed patterns (forward, reverse, random, partially ordered) and checks order; it cannot cover every permutation with every pattern of ties, nor every run-length pairing in the bottom-up merge.',
 ['tommylist.c','tommychain.h'],[('bottom-up merge sort with a stack of runs','tommychain.h: tommy_chain_mergesort'),('merge that skips already ordered chains','tommychain.h: tommy_chain_merge*')],
 (),['list walk after sort']))
L.append(P('P03','List sort needs at most N log N comparisons, about N when already ordered',
 'Sorting N elements calls the comparison function at most N times the ceiling of log2 N, plus N, times, for every initial order of the elements. If the list is already in order, it calls it at most N times.',
 ['inputs'],'every list length and every initial order',
 'Tests only measure time on a few inputs and never assert a comparison count; a worst case is a property of all permutations.',
 ['tommychain.h','tommylist.h'],[('balanced pairing of runs by counter bits and degenerate-merge shortcut','tommychain.h: tommy_chain_mergesort, tommy_chain_merge_degenerated')],
 (),['count of comparison callback calls']))
def multi(id,kind,fn,files,mech,extra_over,text,why):
    return P(id,f'The {kind} behaves as a multimap for every history',
     f'After any sequence of insertions, searches and removals on the {kind}, a search returns an object that is in the table and matches both the given hash and the comparison function if there is one, and nothing otherwise. Removal by value takes out exactly one such matching object and returns it, or returns nothing and changes nothing; removal of a given element takes out exactly that element; the element count and the contents as enumerated by bucket or by visiting all elements always equal the elements inserted and not yet removed.',
     extra_over,text,why,files,mech,(),[fn+'_insert/_search/_remove/_remove_existing/_bucket/_count/_foreach'])
L.append(multi('P04','fixed size hashtable','tommy_hashtable',['tommyhashtbl.c','tommyhashtbl.h','tommylist.h'],[('masking to a power-of-two bucket array','tommyhashtbl.c: tommy_hashtable_init'),('hash check before compare','tommyhashtbl.h: tommy_hashtable_search; tommyhashtbl.c: tommy_hashtable_remove')],['inputs','histories'],
 'every requested number of buckets, every hash value of the full word, every pattern of colliding and equal hashes, every history','check.c uses one bucket count and sequential keys; collisions of distinct hashes in one bucket, equal hashes with different contents and odd bucket counts must work for every combination.'))
L.append(multi('P05','dynamic hashtable','tommy_hashdyn',['tommyhashdyn.c','tommyhashdyn.h','tommylist.h'],[('doubling/halving redistributes every bucket','tommyhashdyn.c: tommy_hashdyn_resize'),('resize triggers','tommyhashdyn.c: hashdyn_grow_step, hashdyn_shrink_step')],['inputs','histories'],
 'every history including those that cross each grow and shrink threshold, every hash value of the full word','check.c inserts and removes sequential keys; an element misplaced by a resize is only visible for particular hashes at particular thresholds.'))
L.append(multi('P06','linear hashtable','tommy_hashlin',['tommyhashlin.c','tommyhashlin.h','tommylist.h'],[('progressive split / join with a moving split position','tommyhashlin.c: hashlin_grow_step, hashlin_shrink_step'),('bucket choice by split position','tommyhashlin.h: tommy_hashlin_bucket_ref, tommy_hashlin_pos')],['inputs','histories'],
 'every history, including every intermediate state of a progressive grow or shrink and reversals of one into the other; every hash value of the full word','check.c mostly grows then shrinks with sequential keys; intermediate split positions combined with reversals and arbitrary hashes cannot be enumerated by examples.'))
L.append(P('P07','Elements with equal keys keep their insertion order in hashtables and tries',
 'In every hashtable and every trie, enumerating the bucket of a key visits the elements that have that key (or hash) in the order they were inserted, whatever resizes, splits, joins, and insertions or removals of other elements happened in between. A search or removal by that key that any of them would match returns the one inserted first among those still present.',
 ['inputs','histories'],'every history of inserts and removes mixing equal and different keys, in every resize state',
 'Tests do not check the order among duplicates after resizes or tree-node splits; order is lost only for particular duplicate patterns at particular resize states.',
 ['tommyhashtbl.c','tommyhashdyn.c','tommyhashlin.c','tommytrie.c','tommytrieinp.c','tommylist.h'],[('tail insertion and order-preserving redistribution','tommyhashdyn.c: tommy_hashdyn_resize; tommyhashlin.c: hashlin_grow_step, hashlin_shrink_step'),('bucket list moved as a whole when a trie level is added or merged','tommytrie.c, tommytrieinp.c')],
 (),['*_bucket walk, *_search, *_remove']))
L.append(P('P08','The trie is a multimap over all 32-bit keys',
 'After any sequence of insertions and removals in a trie, looking up any 32-bit key finds exactly the elements inserted with that key and not yet removed, and removing by key or by element takes out exactly one of them and returns its object, or nothing when there is none. The element count always equals the number of elements contained.',
 ['inputs','histories'],'every 32-bit key, every set of keys sharing any prefix length, every order of insertion and removal',
 'check.c uses dense or strided key ranges; levels created by long shared prefixes and their removal for arbitrary keys are not covered.',
 ['tommytrie.c','tommytrie.h','tommyalloc.c'],[('level creation on prefix clash and collapse on removal','tommytrie.c: trie_bucket_insert, trie_bucket_remove'),('tagged pointers distinguishing inner nodes from elements','tommytrie.c')],
 (),['tommy_trie_insert/_bucket/_search/_remove/_remove_existing/_count']))
L.append(P('P09','The in-place trie is a multimap over all 32-bit keys',
 'After any sequence of insertions and removals in an in-place trie, looking up any 32-bit key finds exactly the elements inserted with that key and not yet removed, and removing by key or by element takes out exactly one of them and returns its object, or nothing when there is none. The element count always equals the number of elements contained, and the trie never allocates memory.',
 ['inputs','histories'],'every 32-bit key, every tree shape built by colliding prefixes, removal of every position (leaf, inner, root, duplicate)',
 'check.c uses dense key ranges; removal of an inner element whose replacement comes from a deep leaf, with duplicates, needs specific key patterns.',
 ['tommytrieinp.c','tommytrieinp.h'],[('elements act as inner tree nodes; a leaf replaces a removed inner node','tommytrieinp.c: trie_inplace_bucket_remove')],
 (),['tommy_trie_inplace_insert/_bucket/_search/_remove/_remove_existing/_count']))
L.append(P('P10','The tree is an ordered set for every history',
 'After any sequence of insertions and removals in a tree, visiting it yields exactly the contained elements once each in increasing order of the comparison function, and a search (with the tree comparison or a compatible one with its own argument) finds an element exactly when one equal to the argument is contained. Inserting an element equal to a contained one changes nothing and returns the contained object, other insertions return the inserted object; removing returns the removed object, or nothing and changes nothing when no equal element is contained; the count is exact.',
 ['inputs','histories'],'every history and every order of keys; equivalently every balanced tree shape and every operation on it',
 'check.c inserts forward, reverse and random keys; every rotation case at every depth, combined with removal of every position, is needed.',
 ['tommytree.c','tommytree.h'],[('recursive insertion/removal with rebalancing','tommytree.c: tommy_tree_insert_node, tommy_tree_remove_node, tommy_tree_move_right, tommy_tree_balance')],
 (),['tommy_tree_insert/_remove/_search/_search_compare/_remove_existing/_foreach/_count']))
L.append(P('P11','The tree is always AVL balanced, so every operation is logarithmic',
 'After every insertion and removal, the depths of the two subtrees of every element of a tree differ by at most one. As a consequence the number of comparison calls made by a search, an insertion or a removal in a tree of N elements never exceeds 1.4405 log2(N+2).',
 ['inputs','histories'],'every history of insertions and removals',
 'Tests check contents only, not balance; a missing rotation leaves a correct but degenerate tree.',
 ['tommytree.c'],[('height kept in each node and rotations','tommytree.c: tommy_tree_balance, tommy_tree_rotate_left/right')],
 [('node height','height of the subtree rooted at the node','tommytree.c')],['comparison call counts; node links']))
L.append(P('P12','Exponential arrays: zero-initialised, persistent elements at stable addresses',
 'In the arrays that grow by segments of exponentially growing size (of pointers and of elements of any size), every position below the requested size is usable, new positions read as zero, and a stored value is read back unchanged after any later growth and any writes to other positions. The address of an element never changes, distinct positions never overlap, growing to a smaller size changes nothing, and the size always equals the largest size requested (or number of elements appended).',
 ['inputs','histories'],'every sequence of grow requests and sizes, every position and every element size',
 'check.c grows one by one and reads sequentially with one element size; segment boundary arithmetic must hold for every index, jump size and element size.',
 ['tommyarray.c','tommyarray.h','tommyarrayof.c','tommyarrayof.h'],[('segment chosen by highest set bit, stored with a negative offset','tommyarray.h: tommy_array_ref; tommyarrayof.h: tommy_arrayof_ref'),('segment allocation','tommyarray.c, tommyarrayof.c: *_grow')],
 (),['tommy_array_ref/get/set/insert/size, tommy_arrayof_ref/size']))
L.append(P('P13','Block arrays: zero-initialised, persistent elements at stable addresses',
 'In the arrays that grow by blocks of a fixed number of elements (of pointers and of elements of any size), every position below the requested size is usable, new positions read as zero, and a stored value is read back unchanged after any later growth and any writes to other positions. The address of an element never changes, distinct positions never overlap, growing to a smaller size changes nothing, and the size always equals the largest size requested (or number of elements appended).',
 ['inputs','histories'],'every sequence of grow requests and sizes, every position and every element size',
 'check.c grows one by one and reads sequentially; block boundaries with multi-block jumps and different element sizes are not covered.',
 ['tommyarrayblk.c','tommyarrayblk.h','tommyarrayblkof.c','tommyarrayblkof.h','tommyarray.c'],[('block count rounding and block directory','tommyarrayblk.c, tommyarrayblkof.c: *_grow'),('block/offset split of the position','tommyarrayblk.h, tommyarrayblkof.h: *_ref')],
 (),['tommy_arrayblk_ref/get/set/insert/size, tommy_arrayblkof_ref/size']))
L.append(P('P14','The allocator hands out aligned, disjoint, in-bounds, reusable blocks',
 'For every block size and alignment, every block an allocator returns is aligned as requested, lies wholly inside memory obtained from the heap, overlaps no other block in use nor any of the bookkeeping the allocator depends on, and keeps its contents until it is freed. Freed blocks are handed out again before more memory is obtained from the heap.',
 ['inputs','histories'],'every block size, alignment, heap address alignment, and every sequence of allocations and frees',
 'check.c uses one block size and never looks at the end of a segment; overruns depend on the remainder of the segment size for a particular size, alignment and heap address.',
 ['tommyalloc.c','tommyalloc.h'],[('segment carving with alignment correction','tommyalloc.c: tommy_allocator_alloc'),('free list','tommyalloc.c: tommy_allocator_alloc, tommy_allocator_free')],
 (),['tommy_allocator_alloc/free; heap hook calls']))
L.append(P('P15','Destroying a container returns to the heap exactly what it obtained',
 'After any history, destroying an array, a hashtable or an allocator releases every block of heap memory it obtained and still holds, exactly once, and never releases anything else such as the elements of the user. During its life a container never releases the same memory twice nor memory that it still uses, and hashtables can be destroyed with elements still inside.',
 ['histories'],'every history before destruction: every number of segments, blocks and resize states, including the middle of a progressive resize',
 'Tests do not check the heap balance; leaks and double frees depend on the exact number of segments or the resize state at destruction.',
 ['tommyarray.c','tommyarrayof.c','tommyarrayblk.c','tommyarrayblkof.c','tommyhashtbl.c','tommyhashdyn.c','tommyhashlin.c','tommyalloc.c'],[('done functions walking all segments','*_done in each file'),('release of the old table or last segment on resize','tommyhashdyn.c: tommy_hashdyn_resize; tommyhashlin.c: hashlin_shrink_step')],
 (),['heap hook calls (redefinable malloc/calloc/realloc/free)']))
L.append(P('P16','Reported memory usage equals the memory actually used',
 'At every moment of every history, the memory usage reported by a container equals the bytes of heap memory it holds for its tables plus one node for each contained element. For allocators and tries it equals the size of the blocks in use plus the nodes of the elements; for arrays it equals the bytes of storage allocated for the elements.',
 ['histories','inputs'],'every history, resize state, element size, block size',
 'Tests only call the function without checking the value; it must be right in every state.',
 ['tommyarray.c','tommyarrayof.c','tommyarrayblk.c','tommyarrayblkof.c','tommyhashtbl.c','tommyhashdyn.c','tommyhashlin.c','tommyalloc.c','tommytrie.c','tommytrieinp.c','tommytree.c','tommylist.h'],[('memory_usage functions','*_memory_usage in each file'),('count maintenance','insert/remove functions')],
 (),['*_memory_usage against heap hook accounting']))
L.append(P('P17','The generic hash functions compute lookup3 of exactly the key bytes',
 'For every key content, key length, initial value and key address, the 32-bit and the 64-bit generic hash functions return the values of Bob Jenkins lookup3 (hashlittle and the pair of hashlittle2). The result depends on nothing but the key bytes, the length and the initial value, no byte outside the key is read, and it is the same whether or not the platform allows unaligned word reads.',
 ['inputs','configurations'],'every key content, length, alignment and initial value',
 'check.c compares a few fixed strings with known values; tail handling differs for each length modulo 12 and each byte.',
 ['tommyhash.c','tommyhash.h'],[('12-byte mixing rounds and tail switch','tommyhash.c: tommy_hash_u32, tommy_hash_u64'),('little endian word read','tommyhash.c: tommy_le_uint32_read')],
 (),['tommy_hash_u32, tommy_hash_u64']))
L.append(P('P18','The string hash depends only on the string and reads nothing past it',
 'For every string and initial value, the string hash reads no byte past the terminator, and its result depends only on the characters before the terminator and the initial value, not on where the string is stored nor what follows it. Its values are the documented mixing of the characters in little endian words, so they are the same on every platform.',
 ['inputs','configurations'],'every string content, length, alignment and bytes following the terminator',
 'check.c hashes a few literals, in memory that is readable past the end; the terminator position modulo 12 and bytes with special values matter.',
 ['tommyhash.c','tommytypes.h'],[('terminator detection in words','tommyhash.c: tommy_strhash_u32; tommytypes.h: tommy_haszero_u32')],
 (),['tommy_strhash_u32']))
L.append(P('P19','The integer hash functions are reversible',
 'The 32-bit and the 64-bit integer hash functions are one-to-one: two different integers never have the same hash value. They compute the published functions they are taken from, for every integer.',
 ['inputs'],'all 2^32 and all 2^64 inputs, and all pairs of them',
 'Tests compare a few values; injectivity quantifies over all pairs of 64-bit inputs.',
 ['tommyhash.h'],[('composition of invertible add/xor/shift steps','tommyhash.h: tommy_inthash_u32, tommy_inthash_u64')],
 (),['tommy_inthash_u32, tommy_inthash_u64']))
L.append(P('P20','The bit utilities are exact for every word and every implementation',
 'For every non-zero word, the highest set bit, the lowest set bit and the round-up to a power of two (when representable) are exact, for 32 and 64 bits, and the zero-byte test is true exactly when one of the four bytes is zero. The portable implementations give the same results as those based on compiler intrinsics.',
 ['inputs','configurations'],'all 2^32 and 2^64 words; intrinsic and portable builds',
 'Tests use powers of two and neighbours in the intrinsic build only.',
 ['tommytypes.h'],[('intrinsics or de Bruijn tables','tommytypes.h: tommy_ilog2_*, tommy_ctz_*, tommy_roundup_pow2_*, tommy_haszero_u32')],
 (),['inline functions of tommytypes.h']))
L.append(P('P21','Visiting all elements calls back once per element and tolerates freeing them',
 'Visiting all the elements of a list, hashtable or tree calls the function exactly once for each contained element and for nothing else, with the object it was inserted with and the given argument. It does so in every resize state, and the function may free or overwrite the object it receives, including its node.',
 ['histories','inputs'],'every container content and resize state',
 'check.c counts callbacks in stable states; in the middle of a progressive resize, or when the callback frees objects, an element may be visited twice, skipped, or read after being freed.',
 ['tommylist.h','tommyhashtbl.c','tommyhashdyn.c','tommyhashlin.c','tommytree.c'],[('next pointer copied before the callback','*_foreach, *_foreach_arg'),('number of buckets in use during a progressive resize','tommyhashlin.c: tommy_hashlin_foreach')],
 (),['*_foreach, *_foreach_arg callbacks']))
L.append(P('P22','The linear hashtable does a bounded amount of work at every operation',
 'Every insertion and every removal in the linear hashtable moves the elements of at most a small constant number of buckets, independent of the number of elements contained, in every history including those that alternate growing and shrinking. No single operation ever rehashes the whole table and searching never moves anything.',
 ['histories'],'every history of insertions and removals',
 'Tests measure no per-operation cost; a spike needs a particular alternation of growth and shrinkage.',
 ['tommyhashlin.c'],[('split target proportional to the count','tommyhashlin.c: hashlin_grow_step, hashlin_shrink_step')],
 (),['work per call as executed code blocks']))
L.append(P('P23','Dynamic hashtables keep the load factor between 1/8 and 1/2',
 'After every insertion the buckets in use by a dynamic or linear hashtable are at least twice the elements contained, within one element of tolerance. After every removal, unless the table has its minimal size, the buckets of a dynamic hashtable are at most eight times the elements contained, plus the same tolerance, and the linear one progresses toward that limit so that its memory is at most twice of it; so both speed and memory stay proportional to the contents.',
 ['histories'],'every history of insertions and removals',
 'Tests never look at the table size; a wrong threshold only degrades performance or memory.',
 ['tommyhashdyn.c','tommyhashlin.c'],[('grow and shrink thresholds','tommyhashdyn.c: hashdyn_grow_step, hashdyn_shrink_step; tommyhashlin.c: hashlin_grow_step, hashlin_shrink_step')],
 (),['*_memory_usage, bucket function distinctness']))
L.append(P('P24','Containers are independent, also when sharing objects or an allocator',
 'Operations on one container never change the contents of another, even when the same objects are in both through different nodes, or when several tries share one allocator. Tries sharing an allocator each keep behaving as if they were alone, and blocks released by one may be reused by another.',
 ['histories','inputs'],'every interleaving of operations on several containers',
 'check.c mostly exercises one container at a time.',
 ['tommytrie.c','tommyalloc.c','tommylist.h','tommyhashdyn.c','tommyhashlin.c','tommytree.c'],[('no global state; all state in container, node or allocator','all containers'),('node allocation and release','tommytrie.c, tommyalloc.c')],
 (),['all container APIs']))
L.append(P('P25','Searches and failed operations change nothing',
 'Searching, enumerating, counting, asking for memory usage, removing a value that is not contained, and inserting a duplicate in a tree leave the container observably unchanged and obtain or release no heap memory. They return nothing (or the already contained object for the duplicate), and the container behaves afterwards exactly as if the operation had not been made.',
 ['histories','inputs'],'every container state, every absent key or hash',
 'Tests check the return value of few failed lookups, not the absence of side effects in every state.',
 ['tommyhashtbl.c','tommyhashdyn.c','tommyhashlin.c','tommytrie.c','tommytrieinp.c','tommytree.c','tommylist.h'],[('early return before any update','*_remove, *_search, *_bucket')],
 (),['container state before and after']))
L.append(P('P26','The library touches only memory it owns, at any time',
 'No operation of a valid history reads or writes outside the container, the nodes and objects currently contained in it, the arguments of the call and the heap memory it holds, or makes a result depend on memory never written. Once an operation has removed an element, neither that element nor its node is accessed by any later operation, so it may be freed or reused at once.',
 ['histories','inputs'],'every history; every element freed immediately after its removal',
 'Tests free elements at the end or run without memory checking; a stale link or an off-by-one read is normally silent.',
 ['tommylist.h','tommychain.h','tommyhashtbl.c','tommyhashdyn.c','tommyhashlin.c','tommytrie.c','tommytrieinp.c','tommytree.c','tommyarray.c','tommyarrayof.c','tommyarrayblk.c','tommyarrayblkof.c','tommyalloc.c'],[('unlinking from all lists and levels on removal','*_remove, *_remove_existing'),('initialisation of every table entry before use','*_init, *_grow, resize functions')],
 (),['memory accesses of every operation']))
L.append(P('P27','All heap memory goes through the redefinable allocation functions',
 'When the four allocation functions are redefined, every piece of heap memory the library obtains or releases goes through them, in matching pairs, and it never passes to the release function anything that they did not return. Lists, trees and in-place tries use no heap memory at all, and inserting in a trie uses only its allocator.',
 ['configurations','histories'],'every history, with allocation functions that are not those of the C library',
 'Tests use the C library functions, where a direct call makes no difference.',
 ['tommytypes.h','tommyarray.c','tommyarrayof.c','tommyarrayblk.c','tommyarrayblkof.c','tommyhashtbl.c','tommyhashdyn.c','tommyhashlin.c','tommyalloc.c','tommytrie.c'],[('tommy_malloc, tommy_calloc, tommy_realloc, tommy_free macros','tommytypes.h')],
 (),['calls of the redefined functions']))
L.append(P('P28','The containers behave the same when built for 32 bits',
 'Built for a platform with 32-bit sizes and pointers, every container keeps the same guarantees: hashtables and tries are exact multimaps that keep insertion order, the tree is an ordered balanced set, arrays keep their elements at stable addresses up to the sizes that fit, and the allocator hands out disjoint in-bounds blocks. The hash functions return the same values as in a 64-bit build.',
 ['configurations','inputs','histories'],'the 32-bit configuration, every history and input',
 'The tests are run in a 64-bit build only.',
 ['tommytypes.h','tommyhashlin.h','tommyarray.h','tommytrie.c','tommytrieinp.c','tommyhash.c'],[('size type selection and bit width dependent constants','tommytypes.h'),('trie fan-out derived from the pointer size','tommytrie.h')],
 (),['all container APIs in a 32-bit build']))
L.append(P('P29','A fixed hashtable has the requested capacity rounded to a power of two',
 'For every requested number of buckets, a fixed size hashtable is created with the smallest power of two not less than it, with a minimum of 16, and it never changes afterwards. Two elements share a bucket exactly when their hashes agree on the corresponding low bits, so elements whose hashes are spread over the buckets are found without comparing others.',
 ['inputs'],'every requested bucket count and hash',
 'check.c creates tables of one size.',
 ['tommyhashtbl.c','tommytypes.h'],[('rounding in init','tommyhashtbl.c: tommy_hashtable_init'),('mask','tommyhashtbl.h: tommy_hashtable_bucket')],
 (),['tommy_hashtable_memory_usage, heap hook sizes, tommy_hashtable_bucket']))
L.append(P('P30','Tries release and reuse their internal blocks',
 'The number of allocator blocks a trie holds depends only on the set of keys contained, not on the history: removing elements gives back every internal block that the remaining keys do not need, and an empty trie holds none. The number of levels a lookup crosses is bounded by the key length.',
 ['histories','inputs'],'every set of 32-bit keys and every order of insertions and removals leading to it',
 'Tests never look at internal blocks; a level that is not collapsed only wastes memory and time.',
 ['tommytrie.c','tommyalloc.c'],[('collapse of levels with a single remaining child on removal','tommytrie.c: trie_bucket_remove')],
 (),['tommy_allocator_memory_usage, tommy_trie_memory_usage']))
L.append(P('P31','Growing never moves memory or gives it back to the heap',
 'Arrays, block arrays, linear hashtables, tries and allocators grow only by obtaining further blocks: no block obtained before is given back or reallocated by an insertion or a growth, so growing does not fragment the heap. An insertion in a linear hashtable obtains at most one block, at least as large as all its table before; a removal obtains nothing and gives back at most the last segment. A fixed hashtable uses the heap only when it is created and destroyed, an in-place trie never, an allocator gives memory back only when it is destroyed.',
 ['histories','inputs'],'every history of growth and shrinking, every requested size',
 'The tests use the C library heap and never look at the calls made to it.',
 ['tommyarray.c','tommyarrayof.c','tommyarrayblk.c','tommyarrayblkof.c','tommyhashlin.c','tommyalloc.c','tommytrie.c'],[('segments of exponentially growing size','tommyarray.c: tommy_array_grow, tommyhashlin.c: hashlin_grow_step'),('blocks of fixed size','tommyarrayblk.c: tommy_arrayblk_grow'),('list of segments','tommyalloc.c: tommy_allocator_alloc')],
 (),['calls of the redefined heap functions']))
L.append(P('P32','Arrays hold little more memory than their elements need',
 'After every growth an exponential array holds memory for fewer than twice the elements of its size (never less than its initial 64), in at most one block for each power of two. A block array holds memory for less than one block of 4096 elements more than its size, in blocks of that fixed size, and a table of the blocks.',
 ['inputs','histories'],'every size and sequence of sizes requested, every element size',
 'Tests look at the elements only; an array that obtains more than it needs, or in other blocks, passes them.',
 ['tommyarray.c','tommyarrayof.c','tommyarrayblk.c','tommyarrayblkof.c'],[('growth loop','tommyarray.c: tommy_array_grow'),('number of blocks','tommyarrayblk.c: tommy_arrayblk_grow')],
 (),['bytes and blocks held on the heap after tommy_*_grow and tommy_*_insert']))
L.append(P('P33','Sort and tree operations stay safe whatever comparisons answer',
 'Whatever the comparison function answers, even inconsistently, a list sort ends after at most N log N + N comparisons of elements of the list and leaves a well-formed list with exactly the same elements. In the same conditions insertions and removals in a tree keep every contained element exactly once in it, the count exact and the tree balanced, compare only contained elements and the argument, and return only contained elements.',
 ['inputs'],'every sequence of answers of the comparison function',
 'Tests use consistent comparison functions only; user functions that are not transitive (floating point NaN, keys that overflow a subtraction) must not lose elements or corrupt memory.',
 ['tommychain.h','tommylist.c','tommytree.c'],[('merge loops','tommychain.h: tommy_chain_merge, tommy_chain_mergesort'),('descent and rebalancing','tommytree.c: tommy_tree_insert_node, tommy_tree_remove_node')],
 (),['list and tree walks after tommy_list_sort, tommy_tree_insert, tommy_tree_remove']))
L.append(P('P34','Nodes hold their object and key, and survive removal from a list',
 'The node of every contained element holds the object it was inserted with and, for hashtables and tries, the hash or key of the insertion, in every state of the container. Removing an element from a list leaves the content of its node unchanged, so that a list can be walked, forward or backward, while removing any of the elements met on the way, and the walk meets every element exactly once.',
 ['histories','inputs'],'every history, every key, every subset of elements removed during a walk',
 'Tests never read a node after the removal of its element.',
 ['tommylist.h','tommyhashtbl.c','tommyhashdyn.c','tommyhashlin.c','tommytrie.c','tommytrieinp.c'],[('list removal','tommylist.h: tommy_list_remove_existing'),('setting of data and index','tommyhashdyn.c: tommy_hashdyn_insert, tommytrie.c: tommy_trie_insert')],
 [('tommy_node','next, prev, data, index','tommytypes.h')],['fields of the nodes of contained and removed elements']))
L.append(P('P35','The way the library is compiled does not change what it does',
 'Compiled as C or as C++, with or without assertions, with signed or unsigned plain characters, with the bit operations of the compiler or the portable ones, the library behaves the same: containers, sort, allocators, arrays and hash functions keep the guarantees stated by the other properties in every one of these builds.',
 ['histories','inputs'],'every history, key, size and string, in every one of these builds',
 'The tests run in one build only, as C with assertions enabled; a needed effect inside an assertion or a difference of the two languages passes them.',
 ['tommytypes.h','tommychain.h','tommytree.c','tommytrie.c','tommyhash.c'],[('casts and inline functions of both languages, bit operations','tommytypes.h'),('assertions','tommytrie.c, tommytrieinp.c, tommyarrayblk.h, tommyarray.h: assert')],
 (),['results of every public function in each build']))
L.append(P('P36','Operations take constant work on average, whatever the size',
 'The work of an operation does not grow with the number of elements contained: inserting in a list at either end, reaching its tail, removing an element and concatenating lists never walk them; insertions and removals of elements in hashtables and tries, appends and growths of arrays, and blocks taken from and given back to an allocator take a constant work on average over every history, also when insertions and removals alternate around any size; lookups in a table that is not overfull, of keys without duplicates, and accesses to array elements take a constant work. A search calls the comparison only for elements that have exactly the hash sought.',
 ['histories','inputs'],'every history, size and key',
 'Tests measure nothing of the work done; a resize that comes back at every operation, a list that is walked, or a comparison called for other hashes only makes them slower.',
 ['tommylist.h','tommyhashtbl.c','tommyhashdyn.c','tommyhashlin.c','tommytrie.c','tommytrieinp.c','tommyarray.c','tommyarrayblk.c','tommyalloc.c'],[('circular prev list','tommylist.h: tommy_list_insert_tail_not_empty, tommy_list_concat'),('resize thresholds','tommyhashdyn.c: hashdyn_grow_step, hashdyn_shrink_step'),('comparison after the hash','tommyhashdyn.c: tommy_hashdyn_remove')],
 (),['basic blocks executed by each operation, comparison calls']))
seen=set()
for p in L:
    assert len(p['title'])<=80,(p['id'],len(p['title'])); assert p['id'] not in seen; seen.add(p['id'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in L: f.write(json.dumps(p)+'\n')
print(len(L))
