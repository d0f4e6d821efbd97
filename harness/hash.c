/* hash functions and bit utilities */
#include "common.h"
static uint32_t rot(uint32_t x, unsigned k) { return x << k | x >> (32 - k); }
#define MIX(a, b, c) do { a -= c; a ^= rot(c, 4); c += b; b -= a; b ^= rot(a, 6); a += c; c -= b; c ^= rot(b, 8); b += a; a -= c; a ^= rot(c, 16); c += b; b -= a; b ^= rot(a, 19); a += c; c -= b; c ^= rot(b, 4); b += a; } while (0)
#define FINAL(a, b, c) do { c ^= b; c -= rot(b, 14); a ^= c; a -= rot(c, 11); b ^= a; b -= rot(a, 25); c ^= b; c -= rot(b, 16); a ^= c; a -= rot(c, 4); b ^= a; b -= rot(a, 14); c ^= b; c -= rot(b, 24); } while (0)
/* lookup3, written from its description on single bytes: the initial values of c (pc) and b (pb), results in the same */
static void lookup3(const unsigned char* k, uint64_t len, uint32_t* pc, uint32_t* pb) {
	uint32_t s[3]; uint64_t i; s[0] = s[1] = s[2] = 0xdeadbeefu + (uint32_t)len + *pc; s[2] += *pb;
	while (len > 12) { for (i = 0; i < 12; i++) s[i / 4] += (uint32_t)k[i] << 8 * (i % 4); MIX(s[0], s[1], s[2]); k += 12; len -= 12; }
	if (len) { for (i = 0; i < len; i++) s[i / 4] += (uint32_t)k[i] << 8 * (i % 4); FINAL(s[0], s[1], s[2]); }
	*pc = s[2]; *pb = s[1]; }
/* a long key: symbolic in its last n bytes and a symbolic initial value only without n */
static unsigned char byte_at(unsigned i, unsigned len, unsigned tail) { return tail == 0 || i + tail >= len ? (unsigned char)vf_sym(8, "byte") : (unsigned char)(i * 37 + i / 256 + 1); }
/* p0 lowest length, p1 number of lengths, p2 number of offsets, p3 symbolic bytes at the end, or 0: all */
HARNESS(hash_any) {
	unsigned len = (unsigned)vf_param(0, 0) + pick((unsigned)vf_param(1, 1), "length"), off = pick((unsigned)vf_param(2, 1), "offset"), i; unsigned tail = (unsigned)vf_param(3, 0); uint64_t init = tail ? 0x123456789abcdefULL : vf_sym(64, "initial value"); uint32_t c, b, r; uint64_t q;
	unsigned char* p = (unsigned char*)vf_alloc(off + len); unsigned char* keep = (unsigned char*)vf_alloc(len + 1); for (i = 0; i < len; i++) keep[i] = p[off + i] = byte_at(i, len, tail);
	vf_ro(p, 1);
	c = (uint32_t)init; b = 0; lookup3(keep, len, &c, &b); r = tommy_hash_u32((tommy_uint32_t)init, p + off, len); vf_observe(r); vf_assert(r == c, "the 32-bit hash is not lookup3 of the key");
	c = (uint32_t)init; b = (uint32_t)(init >> 32); lookup3(keep, len, &c, &b); q = tommy_hash_u64(init, p + off, len); vf_observe(q); vf_assert(q == (c | (uint64_t)b << 32), "the 64-bit hash is not lookup3 of the key");
	vf_ro(p, 0); }
/* p0 lowest length, p1 number of lengths, p2 offsets, p3 bytes after the terminator, p4 symbolic characters at the end, or 0: all */
HARNESS(str_any) {
	unsigned len = (unsigned)vf_param(0, 0) + pick((unsigned)vf_param(1, 1), "length"), off = pick((unsigned)vf_param(2, 1), "offset"), extra = pick((unsigned)vf_param(3, 1), "bytes after"), i; unsigned tail = (unsigned)vf_param(4, 0); uint64_t init = tail ? 0x123456789abcdefULL : vf_sym(64, "initial value"); uint32_t s[3], r;
	unsigned char* p = (unsigned char*)vf_alloc(off + len + 1 + extra); unsigned char* keep = (unsigned char*)vf_alloc(len + 1);
	for (i = 0; i < len; i++) { unsigned char ch = byte_at(i, len, tail); if (ch == 0 && tail && i + tail < len) ch = 1; vf_assume(ch != 0); keep[i] = p[off + i] = ch; } p[off + len] = 0; for (i = 0; i < extra; i++) p[off + len + 1 + i] = (unsigned char)vf_sym(8, "after"); for (i = 0; i < off; i++) p[i] = (unsigned char)vf_sym(8, "before");
	vf_ro(p, 1); s[0] = s[1] = s[2] = 0xdeadbeefu + (uint32_t)init;
	for (i = 0; i < len; i++) { s[i % 12 / 4] += (uint32_t)keep[i] << 8 * (i % 4); if (i % 12 == 11) MIX(s[0], s[1], s[2]); } FINAL(s[0], s[1], s[2]);
	r = tommy_strhash_u32(init, p + off); vf_observe(r); vf_assert(r == s[2], "the string hash is not the mixing of its characters"); vf_ro(p, 0); }
static void collision(uint64_t (*f)(uint64_t), uint64_t x, unsigned bits) { vf_assert_injective(x, f(x), bits); if (vf_is_native() == 2) { uint64_t y = vf_sym(bits, "collides_with"); vf_assert(x == y || f(x) != f(y), "two different integers have the same hash"); } }
static uint64_t f32(uint64_t x) { return tommy_inthash_u32((tommy_uint32_t)x); }
static uint64_t f64(uint64_t x) { return tommy_inthash_u64(x); }
HARNESS(int32_one) { collision(f32, vf_sym(32, "integer"), 32); }
HARNESS(int64_one) { collision(f64, vf_sym(64, "integer"), 64); }
HARNESS(int_ref) { uint32_t k = (uint32_t)vf_sym(32, "32-bit integer"), a = tommy_inthash_u32(k); uint64_t q = vf_sym(64, "64-bit integer"), b = tommy_inthash_u64(q);
	k -= k << 6; k ^= k >> 17; k -= k << 9; k ^= k << 4; k -= k << 3; k ^= k << 10; k ^= k >> 15; vf_observe(a); vf_assert(a == k, "the 32-bit integer hash is not the published one");
	q = ~q + (q << 21); q ^= q >> 24; q = q + (q << 3) + (q << 8); q ^= q >> 14; q = q + (q << 2) + (q << 4); q ^= q >> 28; q = q + (q << 31); vf_observe(b); vf_assert(b == q, "the 64-bit integer hash is not the published one"); }
/* bit utilities: every word */
#define LOG(T, v, r) (((uint64_t)(v) >> ((r) & 63)) == 1)
HARNESS(bits32) { uint32_t v = (uint32_t)vf_sym(32, "word"), r; unsigned q;
	vf_assert((tommy_haszero_u32(v) != 0) == (((v & 0xff) == 0) | ((v & 0xff00) == 0) | ((v & 0xff0000) == 0) | ((v & 0xff000000u) == 0)), "the zero byte test is wrong");
	vf_assume(v != 0); q = tommy_ilog2_u32(v); vf_observe(q); vf_assert((q < 32) & LOG(32, v, q), "the highest bit is wrong");
	q = tommy_ctz_u32(v); vf_observe(q); vf_assert((q < 32) & ((v >> (q & 31) & 1) == 1) & ((v & (((uint32_t)1 << (q & 31)) - 1)) == 0), "the lowest bit is wrong");
	vf_assume(v <= 0x80000000u); r = tommy_roundup_pow2_u32(v); vf_observe(r); vf_assert((r != 0) & ((r & (r - 1)) == 0) & (r >= v) & (r / 2 < v), "the round-up to a power of two is wrong"); }
HARNESS(bits64) { uint64_t v = vf_sym(64, "word"), r; vf_assume(v != 0);
#if SIZE_MAX > 0xffffffff
	{ unsigned q = tommy_ilog2_u64(v); vf_observe(q); vf_assert((q < 64) & LOG(64, v, q), "the highest bit is wrong");
	q = tommy_ctz_u64(v); vf_observe(q); vf_assert((q < 64) & ((v >> (q & 63) & 1) == 1) & ((v & (((uint64_t)1 << (q & 63)) - 1)) == 0), "the lowest bit is wrong"); }
#endif
	vf_assume(v <= (uint64_t)1 << 63); r = tommy_roundup_pow2_u64(v); vf_observe(r); vf_assert((r != 0) & ((r & (r - 1)) == 0) & (r >= v) & (r / 2 < v), "the round-up to a power of two is wrong"); }
HARNESS(bits_size) { tommy_size_t v = (tommy_size_t)vf_sym(8 * sizeof(tommy_size_t), "word"), r; unsigned q; vf_assume(v != 0); vf_assume(v <= (tommy_size_t)1 << (8 * sizeof v - 1));
	q = tommy_ilog2(v); vf_assert((q < 8 * sizeof v) & (v >> (q & (8 * sizeof v - 1)) == 1), "the highest bit is wrong"); q = tommy_ctz(v); vf_assert((q < 8 * sizeof v) & (v >> (q & (8 * sizeof v - 1)) & 1) & ((v & (((tommy_size_t)1 << (q & (8 * sizeof v - 1))) - 1)) == 0), "the lowest bit is wrong");
	r = tommy_roundup_pow2(v); vf_assert((r != 0) & ((r & (r - 1)) == 0) & (r >= v) & (r / 2 < v), "the round-up to a power of two is wrong"); }
