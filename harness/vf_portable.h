/* pre-included for the portable build: the compiler-specific branches of the library are switched off, as for a compiler
 * that is neither gcc-compatible nor MSVC. The system headers are read first because they depend on the real macros. */
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <assert.h>
#include <limits.h>
#undef __GNUC__
#undef __GNUC_MINOR__
#undef __GNUC_PATCHLEVEL__
#undef __clang__
#undef __i386__
#undef __x86_64__
