"""What each check decides, its bounds and what lies outside them (used by the evidence, MANIFEST.json and DESIGN.md)."""
TABLE = "hash: every key has its own symbolic high bits (all bits above the low 10 or 12) and a low part that is symbolic in a small range, so any table of at most 1024 buckets and any equality between keys is decided by the solver; in the jobs named huge (18 low bits concrete, the bits above symbolic, one free key) histories of up to 34000 elements and 131072 buckets; one history of 66000 (thorough: and one of 1050000) elements, every element looked up, then emptied; removals by element, by value, and by turns"
ASSUME = ["clang -O0 and the passes sroa, early-cse, instsimplify, simplifycfg translate the C source faithfully", "the heap never fails: the library does not handle failed allocations", "heap blocks and user objects do not overlap and are placed at multiples of 16 unless a harness chooses otherwise", "comparison functions are consistent and callbacks respect the documentation"]
D = {}
def d(pid, decides, bounds, outside): D[pid] = dict(decides=decides, bounds=bounds, outside=outside)
d("P01", "Two lists, symbolic operation sequences (insert head/tail, remove any contained element, concatenate both ways, sort, re-insert a removed element); after each one both lists are walked in both directions and compared with an array model, with head, tail, emptiness, count and data.",
  "lists of up to 3+2 elements before, then every sequence of 2 or 3 operations (thorough: 4), 8 kinds of operation, symbolic sort keys", "longer sequences from larger lists (all operations but sort and count are local to the ends and the neighbours)")
d("P02", "A list of elements with symbolic keys is sorted; the result must be a permutation, in order, stable, well-formed in both directions, and stay right under one more operation and a second sort.",
  "every assignment of 8-bit keys to 6 elements (thorough 8), 64-bit keys up to 4, 1-bit keys (every pattern of ties) for 8 (thorough 11), eight fixed shapes of 33 and 63 elements with 2 or 3 symbolic 8-bit keys, four shapes of 1000 elements with one symbolic 10-bit key, four orders of 70000 elements and two of 1050000, comparison functions returning -1/0/1 and INT_MIN/INT_MAX", "every order of more than 8 elements")
d("P03", "The comparison calls of a sort are counted on every path.", "every order of up to 6 elements (thorough 8), 1-bit keys up to 12, every non-decreasing, increasing and decreasing list of 0 to 64 symbolic keys, eight shapes of 33 and 64 elements with symbolic keys, four of 1000 elements with one, four orders of 70000 and two of 1050000, non-decreasing lists of 127 to 129", "every order of more than 8 elements")
H = "a free element, then up to 3 phases growing or shrinking to any of a list of sizes (also turning back while a resize of the linear table is running) with one of 9 key patterns over a symbolic base, then every window of 1 to 3 operations (insert, remove by value, remove element, search) with symbolic free keys; "
for p, t, sz in (("P04", "fixed table of 16, 17 (rounded to 32) and 40 buckets", "up to 70"), ("P05", "dynamic hashtable, 16 to 1024 buckets, growing and shrinking", "up to 140 (thorough 520)"), ("P06", "linear hashtable, 64 to 2048 buckets, in stable, growing and shrinking states", "up to 150 (thorough 520)")):
	d(p, "Histories of the " + t + ", compared after each phase and each operation of the window with a model (list of contained objects): result of search and removal, bucket enumeration, visit of all, count.", H + sz + " elements; " + TABLE, "longer windows, more elements, tables beyond the sizes listed")
d("P07", "In the histories of the three hashtables and two tries every bucket enumeration, search and removal must meet equal keys in insertion order; the key patterns make many elements equal (all, or four classes).", H + "up to 130 elements (thorough 300); 1050000 elements in pairs of equal keys", "as P04 to P09")
d("P08", "Histories of the trie, every lookup compared with the model.", "2 symbolic keys (thorough 3 or 4) whose symbolic bits are one of the masks: one bit in each of the 10 digits (low or high end), all the 32 bits, the top, middle or bottom digits; patterns of up to 40 keys; tries of 700 to 1500 keys (concrete but for the top and the bottom bit, which are symbolic), 66000 and 1050000 keys; then every window of 1 or 2 operations (thorough 3) with a free key under the same mask", "more than 4 independent full-width keys at a time")
d("P09", "Histories of the in-place trie, every lookup compared with the model; the heap is never used.", "as P08, with masks for the 14 digits of this trie; up to 4 independent keys; equal keys with children in every branch at the first, second and last digit", "more than 4 independent full-width keys at a time")
d("P10", "A tree is built in every balanced shape, or by insertions of symbolic keys, then a window of symbolic operations (insert, insert a contained object again through another node, remove, remove existing, search); after each the in-order walk, search of every key, count and return values are compared with the model.", "all 315 AVL shapes of height 4 with 1 symbolic operation, all 15 of height 3 with 2, the sparsest shapes of height 5, 4 symbolic 8-bit keys (thorough 6, all shapes of a range of height 5), runs of 20 and 300 (three orders; one symbolic key), of 66000 (thorough 1050000); comparison results -1/0/1 and INT_MIN/INT_MAX", "histories not ending in a window of 1 or 2 operations from such a shape; an AVL operation depends only on the shape, so all shapes up to height 4 are covered by induction over the history")
d("P11", "As P10: after every operation the depths of the subtrees of every element differ by at most one, and comparison calls stay within 1.4405 log2(N+2).", "as P10, and the sparsest shapes of height 6 (thorough 7) and runs of 30 (thorough 70) and 500 elements in four orders, 66000 (thorough 1050000) in two", "trees higher than 7")
d("P12", "Symbolic sizes are requested; any symbolic position below the size must be inside the heap memory, zero unless written, any two positions must not overlap, written values and addresses must survive growth and writes; append checked against size.", "one request of any size up to 2^33 elements of 8 or 12 bytes, up to 2000 elements of 16 MB, two requests up to 4096, two appends or growths in between; element sizes 3, 12, 13, 24 (thorough 1, 100); element-by-element growth to 70000 and 1050000 elements with symbolic values", "more than 3 requests, other element sizes")
d("P13", "As P12 for block arrays.", "one request up to 2^20 elements, elements of 2 and 4 MB (so block offsets beyond 2^32), requests of up to 20000 in two steps (thorough 3), the growth of the table of blocks through 64 and 65 blocks; element sizes 3, 13, 24 bytes (thorough 1, 100); element-by-element growth to 1050000 elements with symbolic values", "more than 3 requests, other element sizes")
d("P14", "Blocks are taken until the second segment is opened and beyond, filled wholly by the user with symbolic data, released in three orders and taken again; each must be aligned, inside one live heap block, and hold its contents; nothing more is obtained while free blocks exist; symbolic histories of take and release.", "every block size 1 to 80 (thorough 1 to 600), 81 to 1473 in steps of 7, 3900 to 4159, listed large sizes; alignments 1 to 4096 including 24 and 40; several placements of the heap blocks; 12000, 66000 and 350000 blocks at once of 8 bytes and 700 of 1000 and more; histories of 7 operations (thorough 9)", "other sizes and alignments")
d("P15", "At the end of every history the heap, tracked block by block, must hold nothing of the container; double, foreign and dangling releases and uses stop the path with a violation at once.", "the histories of the hashtables (with elements inside and emptied), tries, arrays and allocators of P04 to P14 at smaller bounds", "as there")
d("P16", "After every few operations memory_usage is compared with the bytes the heap tracks (tables, arrays) or the blocks in use (allocator, trie), plus a node per element.", "as P15, and trees", "as there; bookkeeping of segments (arrays, allocators) is not counted as storage")
d("P17", "The key bytes, initial value, length and address offset are symbolic; the result is compared as a formula with an independent bytewise lookup3; the key is an object of exactly its length, read-only.", "every key of 0 to 28 and 47 to 50 bytes with 8 offsets (with and without unaligned word reads, 64 and 32 bits), of 29 to 100 bytes with one (thorough 16 offsets), keys of 255 to 257 bytes; keys of 1023 to 1025, 65535 to 65548 and 2^20+6 bytes with concrete content but for 12 or 14 symbolic bytes at the end (thorough: 510 to 513 and 1020 to 1027 wholly symbolic)", "other lengths, and the content of the long keys before their end")
d("P18", "As P17 for the string hash, against the published bytewise mixing; the object ends 0 to 2 bytes after the terminator, with arbitrary bytes there.", "strings of 0 to 13, 22 to 25 characters with 8 offsets (four builds), of 14 to 80 with one (thorough 16 offsets to 49), of 254 to 256; strings of 1022 to 1025 and 65530 to 65543 with concrete content but for 12 symbolic characters at the end (thorough: 510 to 513 and 1022 to 1025 wholly symbolic)", "other lengths, and the content of the long strings before their end")
d("P19", "The formula of each function is compared with the published one and shown to be one-to-one by solver queries over all pairs.", "none: all 2^32 and 2^64 integers", "nothing")
d("P20", "Each function is compared with its definition over a wholly symbolic word.", "none: all words, four builds (intrinsics and portable code, 64 and 32 bits)", "the MSVC intrinsics")
d("P21", "After symbolic histories in all resize states, foreach and foreach_arg must call once per element with its object and the argument; in a last visit the callback overwrites the node and releases the object, after which any access to it is a violation.", "histories of the three hashtables, lists of up to 5, all trees of height 3 and 4", "as P01, P04 to P06, P10")
d("P22", "The basic blocks executed by the library in each single insertion and removal are counted, for hashes spread over the buckets, and must stay below a constant (450 up to 520 elements, 1500 beyond; measured maximum 110; the constants leave room for an implementation that scans the bits of a position) at every size up to 1050000; searches must leave the whole state unchanged.", "sizes up to 520 in 2 to 4 phases, alternating growth and shrinking, then a symbolic window; up to 34000 elements in 2 phases and 1050000 in one with concrete low bits", "larger tables; work inside calloc and memset is not counted, as the directory of the next segment is one allocation")
d("P23", "After every insertion and removal the number of buckets, as the memory usage reports it, is compared with the count: at least twice it after an insertion (half of the buckets at most in use), at most eight times it (linear: the memory of twice that) plus a constant after a removal.", "sizes up to 520 in 2 to 4 phases, every element of the way, windows of 3 symbolic operations; up to 34000 in 2 and 3 phases and 1050000 in one with concrete low bits; removals by element and by value", "larger tables")
d("P24", "Two containers of a kind run interleaved symbolic operations and are both compared with their models; objects belong at the same time to nine containers of all kinds; tries share an allocator; arrays and allocators grow by turns, one being destroyed before the other; trees of opposite orders; functions called back by a sort, an insertion, a search, a removal or a visit run operations on another container of the same kind.", "1 or 2 interleaved operations on tables of up to 260 elements and tries of up to 80 (thorough 2 or 3), 4 objects with symbolic keys; trees of 17 and 300 elements; two allocators of 4 block sizes (thorough 6); 12 operations, 7 kinds of nested operation at 3 points, with 4, 5 and 20 elements", "more operations")
d("P25", "After a history the whole observable state is recorded (count, memory, heap blocks, all elements, bucket enumeration, tree structure); the operation with a symbolic key is made; the state must be the same.", "the hashtable and trie histories, all trees of height 3 and 4", "as P04 to P10")
d("P26", "Removed elements are released at once and every access of the library is checked by the executor: outside live objects, in released ones, in read-only arguments, or branches and results depending on bytes never written (such bytes are fresh symbolic values).", "histories of every container, sort, hashes", "as P01 to P18")
d("P27", "The four functions are redefined to tracked ones; direct use of the C library heap is counted, releases of anything else are violations; list, tree, in-place trie must not allocate.", "histories of every container", "as P01 to P14")
d("P28", "The harnesses of the other properties are compiled with the library for 32 bits and decided again.", "as listed in the evidence, smaller than for 64 bits", "as P01 to P18")
d("P29", "The requested number is symbolic; the capacity obtained from the heap must be the smallest sufficient power of two, at least 16, and never change; a symbolic hash meets an element in its bucket exactly when the low bits agree.", "the size of the table for every request from 0 to 2^60 (2^28 for 32 bits; four builds), whole tables for every request to 2^28 (2^24), every hash; up to 20 further elements (thorough 60)", "requests whose table exceeds the address space")
d("P30", "At the end of each phase and operation a new trie is built with the contained keys in another order in a second allocator and must hold the same number of blocks; an empty trie none; lookups cross a bounded number of basic blocks.", "as P08 at smaller bounds", "as P08")

d("P31", "The blocks obtained from and given back to the heap are counted around every operation: growth of an array, an insertion in a linear hashtable or trie gives nothing back and obtains one block at most for a table (at least as large as all the table before), a removal obtains nothing and gives back one block at most; allocators and fixed tables give nothing back before the end.",
  "the histories of P06, P08, P12, P13, P14 at smaller bounds; arrays up to 2^33 (block arrays 2^20) elements in one request, filled to 20000 one by one", "as there")
d("P32", "After every growth the heap bytes and blocks held are compared with the size of the array.",
  "one request of any size up to 2^33 elements (block arrays 2^20), two requests up to 16384, element by element up to 70000, by 5000 to 300000; elements of 3, 8, 12 bytes and 16 MB", "more requests (thorough 3), other element sizes")
d("P33", "The comparison function is symbolic: every call may answer anything, consistently or not. The sort must end, compare only contained elements, within the usual number of calls, and leave a well-formed list of the same elements; tree insertions, searches and removals must keep every element once, the count and the balance.",
  "lists of up to 7 elements (thorough 9), trees of 7 (thorough 8), every sequence of answers", "more elements")
d("P34", "After histories the node of every contained element is read: its object and its key; around every list removal the node removed is compared; lists are walked in both directions while any subset of the elements is removed on the way.",
  "the histories of P04 to P09 at smaller bounds, lists of up to 8 elements (thorough 12)", "as there")
d("P35", "The harnesses of the other properties are compiled with the library as C++, without assertions (NDEBUG), with unsigned plain characters and with the portable bit operations, and decided again.",
  "as listed in the evidence, smaller than for the default build", "the builds of P28; other compilers; a library that does not compile as C++ is reported as not covered, not as a violation")
d("P36", "The basic blocks executed by the library are counted around every operation: list insertions, removals and concatenations between lists of 0 to 1000 elements; hashtable and trie updates one by one, and their sum while a table is filled, while elements are inserted and removed in turn around a size, and while it is emptied; lookups; appends, growths and accesses of arrays; blocks taken and released. Each must stay below a constant, the sums below a constant for each operation. Comparison functions called by a search check that the element has the hash sought.",
  "list sizes 0, 1, 2, 3, 17, 300, 1000 (every pair), tables filled to 11 sizes from 0 to 66 (thorough 22, to 260) from below or from above and emptied, the same at 1024, 1025, 2048, 1000 and 20000 (thorough to 32768), 100 insertions and removals in turn in six ways at each, keys sharing a symbolic high part, all equal keys, keys over all 32 bits (tries); arrays of 2000 and 20000 elements grown in steps, then by any size to 40 times that, access to any position; allocators of up to 2000 blocks of six sizes", "other sizes; removals by value in long chains; constants that are larger but do not grow")
