/* the four kinds of array */
#include "common.h"
#define X(n) arr_##n
#define FN(n) tommy_array_##n
#define BLK 0
#define MINS ((uint64_t)1 << TOMMY_ARRAY_BIT)
#define T tommy_array
#define OF 0
#include "arr.inc"
#undef X
#undef FN
#undef T
#undef OF
#define X(n) arrof_##n
#define FN(n) tommy_arrayof_##n
#define BLK 0
#define MINS ((uint64_t)1 << TOMMY_ARRAYOF_BIT)
#define T tommy_arrayof
#define OF 1
#include "arr.inc"
#undef X
#undef FN
#undef T
#undef OF
#define X(n) blk_##n
#define FN(n) tommy_arrayblk_##n
#define BLK TOMMY_ARRAYBLK_SIZE
#define T tommy_arrayblk
#define OF 0
#include "arr.inc"
#undef X
#undef FN
#undef T
#undef OF
#define X(n) blkof_##n
#define FN(n) tommy_arrayblkof_##n
#define BLK TOMMY_ARRAYBLKOF_SIZE
#define T tommy_arrayblkof
#define OF 1
#include "arr.inc"
