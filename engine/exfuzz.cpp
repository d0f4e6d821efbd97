// Differential test of ex.h: every simplifying constructor against direct evaluation, and the z3 translation against both.
#include "ex.h"
static u64 rs = 88172645463325252ULL; static u64 rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
int main(int argc, char** argv) {
	ExCtx X; X.zinit(); u64 rounds = argc > 1 ? atoll(argv[1]) : 2000; const int NM = 6; u64 bad = 0, zn = 0;
	static const unsigned WS[] = {1, 8, 16, 32, 64, 5, 33};
	for (u64 r = 0; r < rounds && !bad; r++) {
		std::vector<std::vector<u64>> models(NM, std::vector<u64>(8)); for (auto& m : models) for (auto& v : m) { v = rnd(); if (rnd() % 3 == 0) v &= 15; if (rnd() % 5 == 0) v = ~0ULL << (rnd() % 64); }
		struct N { E e; u64 v[NM]; }; std::vector<N> p;
		auto add = [&](E e, const u64* v) { N n; n.e = e; for (int i = 0; i < NM; i++) n.v[i] = v[i] & maskw(e->w); for (int i = 0; i < NM; i++) { X.setModel(&models[i]); u64 g = X.eval(e); u64 x = n.v[i]; bool kb = (x & e->kz) || (~x & e->ko & maskw(e->w)); if (g != x || kb) { printf("MISMATCH round %llu k=%d w=%d got %llx want %llx kb=%d\n", (unsigned long long)r, e->k, e->w, (unsigned long long)g, (unsigned long long)x, kb); bad++; return; } } p.push_back(n); };
		for (int i = 0; i < 8; i++) { unsigned w = WS[i < 7 ? i : rnd() % 7]; u64 v[NM]; for (int k = 0; k < NM; k++) v[k] = models[k][i]; add(X.var(i, w), v); }
		for (int s = 0; s < 60 && !bad; s++) {
			N a = p[rnd() % p.size()]; unsigned w = a.e->w; u64 v[NM]; E e = nullptr;
			std::vector<N*> same; for (auto& n : p) if (n.e->w == w) same.push_back(&n); N b = *same[rnd() % same.size()];
			if (rnd() % 3 == 0) { u64 c = rnd(); switch (rnd() % 5) { case 0: c &= 7; break; case 1: c = 1ULL << (c & 63); break; case 2: c = ~0ULL; break; case 3: c = maskw(1 + c % 64); break; } b.e = X.cst(c, w); for (int i = 0; i < NM; i++) b.v[i] = c & maskw(w); if (rnd() % 2) std::swap(a, b); }
			#define FOR(x) for (int i = 0; i < NM; i++) { u64 A = a.v[i], B = b.v[i]; (void)A; (void)B; v[i] = (x); }
			switch (rnd() % 24) {
			case 0: e = X.add(a.e, b.e); FOR(A + B) break; case 1: e = X.sub(a.e, b.e); FOR(A - B) break; case 2: e = X.mul(a.e, b.e); FOR(A * B) break;
			case 3: e = X.and_(a.e, b.e); FOR(A & B) break; case 4: e = X.or_(a.e, b.e); FOR(A | B) break; case 5: e = X.xor_(a.e, b.e); FOR(A ^ B) break;
			case 6: e = X.shl(a.e, b.e); FOR(B >= w ? 0 : A << B) break; case 7: e = X.lshr(a.e, b.e); FOR(B >= w ? 0 : A >> B) break; case 8: e = X.ashr(a.e, b.e); FOR((u64)(sx(A, w) >> (B >= w ? 63 : B))) break;
			case 9: { unsigned lo = rnd() % w, n = 1 + rnd() % (w - lo); e = X.extract(a.e, lo, n); FOR(A >> lo) break; }
			case 10: { if (w >= 64) continue; unsigned n = w + 1 + rnd() % (64 - w); e = X.zext(a.e, n); FOR(A) break; }
			case 11: { if (w >= 64) continue; unsigned n = w + 1 + rnd() % (64 - w); e = X.sext(a.e, n); FOR((u64)sx(A, w)) break; }
			case 12: e = X.eq(a.e, b.e); FOR(A == B) break; case 13: e = X.ult(a.e, b.e); FOR(A < B) break; case 14: e = X.ule(a.e, b.e); FOR(A <= B) break; case 15: e = X.slt(a.e, b.e); FOR(sx(A, w) < sx(B, w)) break; case 16: e = X.sle(a.e, b.e); FOR(sx(A, w) <= sx(B, w)) break;
			case 17: case 18: { std::vector<N*> c1; for (auto& n : p) if (n.e->w == 1) c1.push_back(&n); N& c = *c1[rnd() % c1.size()]; e = X.ite(c.e, a.e, b.e); for (int i = 0; i < NM; i++) v[i] = c.v[i] ? a.v[i] : b.v[i]; break; }
			case 19: e = X.notw(a.e); FOR(~A) break; case 20: { N& c = p[rnd() % p.size()]; if (c.e->w + w > 64) continue; e = X.concat({a.e, c.e}); for (int i = 0; i < NM; i++) v[i] = (w >= 64 ? 0 : a.v[i] << c.e->w) | c.v[i]; break; }
			case 21: { u64 k = rnd(); if (rnd() & 1) k &= 15; e = X.mulc(a.e, k); FOR(A * k) break; }
			case 22: { if (!ExCtx::isC(b.e) || !b.e->c) continue; e = X.udiv(a.e, b.e); FOR(A / B) break; } case 23: { if (!ExCtx::isC(b.e) || !b.e->c) continue; e = X.urem(a.e, b.e); FOR(A % B) break; } }
			add(e, v);
			if (!bad && rnd() % 40 == 0) { E f = p.back().e; Z3_solver s = Z3_mk_simple_solver(X.z); Z3_solver_inc_ref(X.z, s); for (int i = 0; i < 8; i++) { E x = p[i].e; Z3_solver_assert(X.z, s, X.boolean(X.eq(x, X.cst(p[i].v[0], x->w)))); } Z3_solver_assert(X.z, s, Z3_mk_not(X.z, X.keep(Z3_mk_eq(X.z, X.bv(f), X.bv(X.cst(p.back().v[0], f->w)))))); zn++; if (Z3_solver_check(X.z, s) != Z3_L_FALSE) { printf("Z3 MISMATCH k=%d w=%d\n", f->k, f->w); bad++; } Z3_solver_dec_ref(X.z, s); } } }
	printf("%s: %llu rounds, %llu z3 cross-checks\n", bad ? "FAIL" : "ok", (unsigned long long)rounds, (unsigned long long)zn); return bad != 0; }
