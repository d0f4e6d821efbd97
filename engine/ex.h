// Hash-consed bit-vector expressions (width 1..64) with a normaliser, a concrete evaluator and a z3 back end.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <map>
#include <string>
#include <algorithm>
#include <z3.h>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;
typedef unsigned __int128 u128;

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

enum K : u8 { KCONST, KVAR, KLIN, KMUL, KUDIV, KUREM, KSDIV, KSREM, KAND, KOR, KXOR, KSHL, KLSHR, KASHR, KCONCAT, KEXTRACT, KSEXT, KITE, KEQ, KULT, KULE, KSLT, KSLE };

struct Ex {
	K k; u8 w; u32 id; u32 nk; u64 c; // c: constant / var index / extract lo / LIN constant
	const Ex** kid; u64* coef;
	u64 kz, ko; // known zero / known one bits
	mutable Z3_ast zbv, zbool;
	mutable u64 evEp, evVal, pvEp, knEp, knVal; mutable const Ex* pv;
	u32 size; // dag size upper bound (saturating)
	u32 depth;
};
typedef const Ex* E;

struct ExCtx {
	std::unordered_multimap<u64, E> tab; u32 nid = 0;
	std::vector<E> constCache[65];
	static u64 h(u64 a, u64 b) { a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdULL; return a ^ (a >> 32); }
	E intern(K k, unsigned w, u64 c, const std::vector<E>& kids, const std::vector<u64>* coef) {
		u64 hv = h(h(k, w), c); for (E x : kids) hv = h(hv, x->id); if (coef) for (u64 x : *coef) hv = h(hv, x);
		auto r = tab.equal_range(hv);
		for (auto it = r.first; it != r.second; ++it) { E e = it->second;
			if (e->k != k || e->w != w || e->c != c || e->nk != kids.size()) continue;
			bool ok = true; for (u32 i = 0; i < e->nk && ok; i++) if (e->kid[i] != kids[i]) ok = false;
			if (ok && coef) for (u32 i = 0; i < e->nk && ok; i++) if (e->coef[i] != (*coef)[i]) ok = false;
			if (ok) return e; }
		Ex* e = (Ex*)calloc(1, sizeof(Ex)); e->k = k; e->w = w; e->c = c; e->id = nid++; e->nk = kids.size();
		if (e->nk) { e->kid = (const Ex**)malloc(e->nk * sizeof(E)); for (u32 i = 0; i < e->nk; i++) e->kid[i] = kids[i]; }
		if (coef) { e->coef = (u64*)malloc(e->nk * 8); for (u32 i = 0; i < e->nk; i++) e->coef[i] = (*coef)[i]; }
		u64 sz = 1; u32 dp = 0; for (E x : kids) { sz += x->size; dp = std::max(dp, x->depth); } e->size = sz > 1000000 ? 1000000 : sz; e->depth = dp + 1;
		known(e); tab.emplace(hv, e); return e; }
	void known(Ex* e) { u64 m = maskw(e->w);
		switch (e->k) {
		case KCONST: e->ko = e->c; e->kz = ~e->c & m; break;
		case KCONCAT: { u64 z = 0, o = 0; for (u32 i = 0; i < e->nk; i++) { E x = e->kid[i]; z = (x->w >= 64 ? 0 : z << x->w) | x->kz; o = (x->w >= 64 ? 0 : o << x->w) | x->ko; } e->kz = z; e->ko = o; break; }
		case KEXTRACT: e->kz = (e->kid[0]->kz >> e->c) & m; e->ko = (e->kid[0]->ko >> e->c) & m; break;
		case KAND: e->kz = e->kid[0]->kz | e->kid[1]->kz; e->ko = e->kid[0]->ko & e->kid[1]->ko; break;
		case KOR: e->ko = e->kid[0]->ko | e->kid[1]->ko; e->kz = e->kid[0]->kz & e->kid[1]->kz; break;
		case KITE: e->kz = e->kid[1]->kz & e->kid[2]->kz; e->ko = e->kid[1]->ko & e->kid[2]->ko; break;
		case KLIN: { // trailing zeros
			unsigned tz = e->c ? __builtin_ctzll(e->c) : 64; u128 mx = e->c; bool ov = false;
			for (u32 i = 0; i < e->nk; i++) { E x = e->kid[i]; u64 possible = ~x->kz & maskw(x->w); unsigned t = (possible ? __builtin_ctzll(possible) : 64) + (e->coef[i] ? __builtin_ctzll(e->coef[i]) : 64); if (t < tz) tz = t;
				u128 p = (u128)possible * e->coef[i]; if (p >> 64) ov = true; mx += p; if (mx >> 64) ov = true; }
			u64 z = tz >= 64 ? m : (maskw(tz) & m); if (tz == 0) z = 0; if (!ov && !(mx >> e->w) ) { u64 mm = (u64)mx; unsigned hb = mm ? 64 - __builtin_clzll(mm) : 0; z |= m & ~maskw(hb); if (hb == 0) z = m; }
			e->kz = z; break; }
		default: break; } }
	E cst(u64 v, unsigned w) { v &= maskw(w); if (v < 256) { auto& cc = constCache[w]; if (cc.empty()) cc.resize(256); if (!cc[v]) cc[v] = intern(KCONST, w, v, {}, nullptr); return cc[v]; } return intern(KCONST, w, v, {}, nullptr); }
	E var(u32 idx, unsigned w) { return intern(KVAR, w, idx, {}, nullptr); }
	static bool isC(E e) { return e->k == KCONST; }
	static bool isC(E e, u64 v) { return e->k == KCONST && e->c == (v & maskw(e->w)); }
	struct Lin { std::vector<std::pair<E, u64>> t; u64 c = 0; };
	// ---- concat / extract
	E concat(const std::vector<E>& in) { // high .. low
		std::vector<E> f;
		for (E x : in) { if (x->k == KCONCAT) for (u32 i = 0; i < x->nk; i++) push(f, x->kid[i]); else push(f, x); }
		if (f.size() == 1) return f[0];
		unsigned w = 0; for (E x : f) w += x->w;
		if (f.size() == 2 && isC(f[0], 0) && f[1]->k == KLIN) { // a sum that does not overflow is extended inside
			E e = f[1]; u128 mx = e->c; bool ov = false; for (u32 i = 0; i < e->nk && !ov; i++) { u128 p = (u128)(~e->kid[i]->kz & maskw(e->w)) * e->coef[i]; if (p >> 64) ov = true; mx += p; if (mx >> 64) ov = true; }
			if (!ov && !(mx >> e->w)) { Lin l; l.c = e->c; for (u32 i = 0; i < e->nk; i++) l.t.push_back({zext(e->kid[i], w), e->coef[i]}); return fromLin(l, w); } }
		return intern(KCONCAT, w, 0, f, nullptr); }
	void push(std::vector<E>& f, E x) { // merge with previous if possible
		if (x->w == 0) return;
		if (!f.empty()) { E p = f.back();
			if (isC(p) && isC(x)) { f.back() = cst((p->c << x->w) | x->c, p->w + x->w); return; }
			E ps = p->k == KEXTRACT ? p->kid[0] : nullptr; u64 pl = p->k == KEXTRACT ? p->c : 0;
			E xs = x->k == KEXTRACT ? x->kid[0] : x; u64 xl = x->k == KEXTRACT ? x->c : 0;
			if (ps && ps == xs && pl == xl + x->w) { E n = extract(ps, xl, p->w + x->w); f.pop_back(); if (n->k == KCONCAT) for (u32 i = 0; i < n->nk; i++) push(f, n->kid[i]); else push(f, n); return; }
			// the low part of a sum or of an operation with a constant is not an extraction any more
			if (ps && pl >= x->w && (ps->k == KLIN || ps->k == KXOR || ps->k == KAND || ps->k == KOR) && extract(ps, pl - x->w, x->w) == x) { E n = extract(ps, pl - x->w, p->w + x->w); f.pop_back(); if (n->k == KCONCAT) for (u32 i = 0; i < n->nk; i++) push(f, n->kid[i]); else push(f, n); return; } }
		f.push_back(x); }
	E extract(E e, unsigned lo, unsigned w) {
		if (lo == 0 && w == e->w) return e;
		if (isC(e)) return cst(e->c >> lo, w);
		u64 m = maskw(w); if ((((e->kz | e->ko) >> lo) & m) == m) return cst(e->ko >> lo, w);
		if (e->k == KEXTRACT) return extract(e->kid[0], e->c + lo, w);
		if (e->k == KCONCAT) { std::vector<E> f; unsigned pos = e->w; // pos = bit above current kid
			for (u32 i = 0; i < e->nk; i++) { E x = e->kid[i]; unsigned l = pos - x->w, hgh = pos; pos = l; unsigned a = std::max(l, lo), b = std::min(hgh, lo + w); if (a < b) f.push_back(extract(x, a - l, b - a)); }
			return concat(f); }
		if (e->k == KITE && isC(e->kid[1]) && isC(e->kid[2])) return ite(e->kid[0], extract(e->kid[1], lo, w), extract(e->kid[2], lo, w));
		if (e->k == KSEXT && lo + w <= e->kid[0]->w) return extract(e->kid[0], lo, w);
		if (e->k == KLIN && lo == 0) { std::vector<E> ks; std::vector<u64> cf; E r = cst(e->c, w); for (u32 i = 0; i < e->nk; i++) r = add(r, mulc(extract(e->kid[i], 0, w), e->coef[i])); return r; }
		if (e->k == KXOR || e->k == KAND || e->k == KOR) { if (isC(e->kid[1])) { E a = extract(e->kid[0], lo, w), b = extract(e->kid[1], lo, w); return e->k == KXOR ? xor_(a, b) : e->k == KAND ? and_(a, b) : or_(a, b); } }
		return intern(KEXTRACT, w, lo, {e}, nullptr); }
	E zext(E e, unsigned w) { if (w == e->w) return e; return concat({cst(0, w - e->w), e}); }
	E sext(E e, unsigned w) { if (w == e->w) return e; if (isC(e)) return cst((u64)sx(e->c, e->w), w); u64 sb = 1ULL << (e->w - 1); if (e->kz & sb) return zext(e, w);
		if (e->ko & sb) return concat({cst(~0ULL, w - e->w), e}); return intern(KSEXT, w, 0, {e}, nullptr); }
	E trunc(E e, unsigned w) { return extract(e, 0, w); }
	// assemble an expression by choosing each bit from a or b (disjoint possible-one bits). returns null if too fragmented
	E disjoint(E a, E b) { u64 pa = ~a->kz & maskw(a->w), pb = ~b->kz & maskw(b->w); if (pa & pb) return nullptr;
		std::vector<E> f; int runs = 0; int hi = a->w - 1;
		while (hi >= 0) { u64 bit = 1ULL << hi; int o = (pa & bit) ? 1 : (pb & bit) ? 2 : 0; int lo = hi; while (lo > 0) { u64 b2 = 1ULL << (lo - 1); int o2 = (pa & b2) ? 1 : (pb & b2) ? 2 : 0; if (o2 != o) break; lo--; }
			if (o == 0) f.push_back(cst(0, hi - lo + 1)); else f.push_back(extract(o == 1 ? a : b, lo, hi - lo + 1));
			if (++runs > 20) return nullptr; hi = lo - 1; }
		return concat(f); }
	// ---- arithmetic
	void toLin(E e, u64 k, Lin& l, unsigned w) {
		if (isC(e)) { l.c += e->c * k; return; }
		if (e->k == KLIN) { l.c += e->c * k; for (u32 i = 0; i < e->nk; i++) l.t.push_back({e->kid[i], e->coef[i] * k}); return; }
		if (e->k == KXOR && isC(e->kid[1], ~0ULL) && w > 1) { toLin(e->kid[0], -k, l, w); l.c -= k; return; }
		if (e->k == KCONCAT && e->nk == 2 && isC(e->kid[1], 0)) { E x = e->kid[0]; unsigned s = e->kid[1]->w; if (x->k == KEXTRACT && x->c == 0 && x->kid[0]->w == w) { toLin(x->kid[0], k << s, l, w); return; } }
		if (e->k == KCONCAT) { // the sum of its shifted parts
			unsigned nv = 0; for (u32 i = 0; i < e->nk; i++) nv += !isC(e->kid[i]);
			if (nv >= 2 || isC(e->kid[e->nk - 1])) { unsigned pos = w; for (u32 i = 0; i < e->nk; i++) { E x = e->kid[i]; pos -= x->w; if (isC(x)) { l.c += (x->c << pos) * k; continue; }
				if (pos + x->w == w && x->k == KEXTRACT && x->c == 0 && x->kid[0]->w == w) toLin(x->kid[0], k << pos, l, w); else l.t.push_back({zext(x, w), k << pos}); } return; } }
		l.t.push_back({e, k}); }
	E fromLin(Lin& l, unsigned w) { u64 m = maskw(w); l.c &= m;
		std::sort(l.t.begin(), l.t.end(), [](const std::pair<E, u64>& a, const std::pair<E, u64>& b) { return a.first->id < b.first->id; });
		std::vector<E> k; std::vector<u64> c;
		for (size_t i = 0; i < l.t.size();) { size_t j = i; u64 s = 0; while (j < l.t.size() && l.t[j].first == l.t[i].first) s += l.t[j++].second; s &= m; if (s) { k.push_back(l.t[i].first); c.push_back(s); } i = j; }
		if (k.empty()) return cst(l.c, w);
		if (k.size() == 1 && l.c == 0) { if (c[0] == 1) return k[0];
			if ((c[0] & (c[0] - 1)) == 0) { unsigned s = __builtin_ctzll(c[0]); return concat({extract(k[0], 0, w - s), cst(0, s)}); } }
		if (k.size() == 1 && c[0] == m && l.c == m && w > 1) return intern(KXOR, w, 0, {k[0], cst(m, w)}, nullptr);
		if (k.size() + (l.c != 0) <= 8) { // parts that cannot overlap are a concatenation
			u64 seen = l.c; bool ok = true; for (size_t i = 0; i < k.size() && ok; i++) { if (c[i] & (c[i] - 1)) ok = false; else { u64 z = (~k[i]->kz & m) << __builtin_ctzll(c[i]) & m; if (z & seen) ok = false; seen |= z; } }
			if (ok) { E r = cst(l.c, w); for (size_t i = 0; i < k.size() && r; i++) { unsigned s = __builtin_ctzll(c[i]); r = disjoint(r, s ? concat({extract(k[i], 0, w - s), cst(0, s)}) : k[i]); } if (r) return r; } }
		return intern(KLIN, w, l.c, k, &c); }
	E add(E a, E b) { unsigned w = a->w; if (isC(a) && isC(b)) return cst(a->c + b->c, w); if (isC(a, 0)) return b; if (isC(b, 0)) return a; if (w == 1) return xor_(a, b);
		if (E d = disjoint(a, b)) return d; Lin l; toLin(a, 1, l, w); toLin(b, 1, l, w); return fromLin(l, w); }
	E sub(E a, E b) { unsigned w = a->w; if (isC(a) && isC(b)) return cst(a->c - b->c, w); if (isC(b, 0)) return a; if (a == b) return cst(0, w); if (w == 1) return xor_(a, b); Lin l; toLin(a, 1, l, w); toLin(b, (u64)-1, l, w); return fromLin(l, w); }
	E mulc(E a, u64 k) { unsigned w = a->w; k &= maskw(w); if (k == 0) return cst(0, w); if (k == 1) return a; if (isC(a)) return cst(a->c * k, w); if (w == 1) return a; Lin l; toLin(a, k, l, w); return fromLin(l, w); }
	E mul(E a, E b) { if (isC(a)) return mulc(b, a->c); if (isC(b)) return mulc(a, b->c); if (a->id > b->id) std::swap(a, b); return intern(KMUL, a->w, 0, {a, b}, nullptr); }
	E udiv(E a, E b) { unsigned w = a->w; if (isC(b) && b->c) { if (isC(a)) return cst(a->c / b->c, w); if ((b->c & (b->c - 1)) == 0) return lshr(a, cst(__builtin_ctzll(b->c), w)); } return intern(KUDIV, w, 0, {a, b}, nullptr); }
	E urem(E a, E b) { unsigned w = a->w; if (isC(b) && b->c) { if (isC(a)) return cst(a->c % b->c, w); if ((b->c & (b->c - 1)) == 0) return and_(a, cst(b->c - 1, w)); } return intern(KUREM, w, 0, {a, b}, nullptr); }
	E sdiv(E a, E b) { if (isC(a) && isC(b) && b->c && !(isC(b, ~0ULL))) return cst((u64)(sx(a->c, a->w) / sx(b->c, b->w)), a->w); return intern(KSDIV, a->w, 0, {a, b}, nullptr); }
	E srem(E a, E b) { if (isC(a) && isC(b) && b->c && !(isC(b, ~0ULL))) return cst((u64)(sx(a->c, a->w) % sx(b->c, b->w)), a->w); return intern(KSREM, a->w, 0, {a, b}, nullptr); }
	// ---- bitwise
	E and_(E a, E b) { unsigned w = a->w; if (isC(a)) std::swap(a, b); if (isC(a)) return cst(a->c & b->c, w); if (a == b) return a;
		u64 m = maskw(w);
		if (isC(b)) { if (b->c == 0) return cst(0, w); if ((b->c | a->kz) == m) return a;
			// split in runs
			std::vector<E> f; int runs = 0; int hi = w - 1; bool ok = true;
			while (hi >= 0) { int o = (b->c >> hi) & 1; int lo = hi; while (lo > 0 && (int)((b->c >> (lo - 1)) & 1) == o) lo--; if (++runs > 16) { ok = false; break; } f.push_back(o ? extract(a, lo, hi - lo + 1) : cst(0, hi - lo + 1)); hi = lo - 1; }
			if (ok && w > 1) return concat(f); }
		if (w == 1) { if (a == not1(b)) return cst(0, 1); }
		if (((a->kz | b->kz) & m) == m) return cst(0, w);
		if (!isC(b) && a->id > b->id) std::swap(a, b); return intern(KAND, w, 0, {a, b}, nullptr); }
	E or_(E a, E b) { unsigned w = a->w; if (isC(a)) std::swap(a, b); if (isC(a)) return cst(a->c | b->c, w); if (a == b) return a; if (isC(b, 0)) return a; u64 m = maskw(w); if (isC(b, m)) return b;
		if (E d = disjoint(a, b)) return d;
		if (isC(b) && w > 1) { std::vector<E> f; int runs = 0; int hi = w - 1; bool ok = true; while (hi >= 0) { int o = (b->c >> hi) & 1; int lo = hi; while (lo > 0 && (int)((b->c >> (lo - 1)) & 1) == o) lo--; if (++runs > 16) { ok = false; break; } f.push_back(o ? cst(~0ULL, hi - lo + 1) : extract(a, lo, hi - lo + 1)); hi = lo - 1; } if (ok) return concat(f); }
		if (w == 1 && a == not1(b)) return cst(1, 1);
		if (!isC(b) && a->id > b->id) std::swap(a, b); return intern(KOR, w, 0, {a, b}, nullptr); }
	E xor_(E a, E b) { unsigned w = a->w; if (isC(a)) std::swap(a, b); if (isC(a)) return cst(a->c ^ b->c, w); if (a == b) return cst(0, w); if (isC(b, 0)) return a;
		if (E d = disjoint(a, b)) return d;
		// flatten to n-ary xor with canonical order
		std::vector<E> t; u64 c = 0; flatXor(a, t, c); flatXor(b, t, c); std::sort(t.begin(), t.end(), [](E x, E y) { return x->id < y->id; });
		std::vector<E> u; for (size_t i = 0; i < t.size(); i++) { if (!u.empty() && u.back() == t[i]) u.pop_back(); else u.push_back(t[i]); }
		E r = nullptr; for (E x : u) r = r ? intern(KXOR, w, 0, {r, x}, nullptr) : x; // left-assoc chain
		if (!r) return cst(c, w); if (c) r = intern(KXOR, w, 0, {r, cst(c, w)}, nullptr); return r; }
	void flatXor(E e, std::vector<E>& t, u64& c) { if (isC(e)) { c ^= e->c; return; } if (e->k == KXOR) { flatXor(e->kid[0], t, c); flatXor(e->kid[1], t, c); } else t.push_back(e); }
	E not1(E a) { // boolean negation
		if (a->k == KULT) return ule(a->kid[1], a->kid[0]); if (a->k == KULE) return ult(a->kid[1], a->kid[0]); if (a->k == KSLT) return sle(a->kid[1], a->kid[0]); if (a->k == KSLE) return slt(a->kid[1], a->kid[0]);
		return xor_(a, cst(1, 1)); }
	E notw(E a) { return a->w == 1 ? not1(a) : xor_(a, cst(~0ULL, a->w)); }
	E shl(E a, E b) { unsigned w = a->w; if (isC(b)) { u64 s = b->c; if (s >= w) return cst(0, w); if (s == 0) return a; if (a->k == KLIN) return mulc(a, 1ULL << s); return concat({extract(a, 0, w - s), cst(0, s)}); } return intern(KSHL, w, 0, {a, b}, nullptr); }
	E lshr(E a, E b) { unsigned w = a->w; if (isC(b)) { u64 s = b->c; if (s >= w) return cst(0, w); if (s == 0) return a; return concat({cst(0, s), extract(a, s, w - s)}); } return intern(KLSHR, w, 0, {a, b}, nullptr); }
	E ashr(E a, E b) { unsigned w = a->w; if (isC(b)) { u64 s = b->c; if (s == 0) return a; if (s >= w) s = w - 1; return sext(extract(a, s, w - s), w); } return intern(KASHR, w, 0, {a, b}, nullptr); }
	// ---- predicates
	E ite(E c, E a, E b) { if (isC(c)) return c->c ? a : b; if (a == b) return a; unsigned w = a->w; if (w == 1) { if (isC(a, 1) && isC(b, 0)) return c; if (isC(a, 0) && isC(b, 1)) return not1(c); if (isC(a, 0)) return and_(not1(c), b); if (isC(a, 1)) return or_(c, b); if (isC(b, 0)) return and_(c, a); if (isC(b, 1)) return or_(not1(c), a); }
		if (c->k == KXOR && isC(c->kid[1], 1)) return ite(c->kid[0], b, a);
		if (a->k == KITE && a->kid[0] == c) a = a->kid[1]; if (b->k == KITE && b->kid[0] == c) b = b->kid[2]; if (a == b) return a;
		return intern(KITE, w, 0, {c, a, b}, nullptr); }
	E eq(E a, E b) { if (a == b) return cst(1, 1); if (isC(a)) std::swap(a, b); if (isC(a)) return cst(a->c == b->c, 1); unsigned w = a->w;
		if ((a->kz & b->ko) | (a->ko & b->kz)) return cst(0, 1);
		if (w == 1) { if (isC(b)) return b->c ? a : not1(a); return not1(xor_(a, b)); }
		if (isC(b)) {
			if (a->k == KITE && isC(a->kid[1]) && isC(a->kid[2])) return a->kid[1]->c == b->c ? a->kid[0] : a->kid[2]->c == b->c ? not1(a->kid[0]) : cst(0, 1);
			if (a->k == KITE && isC(a->kid[1])) { if (a->kid[1]->c != b->c) return and_(not1(a->kid[0]), eq(a->kid[2], b)); else return or_(a->kid[0], eq(a->kid[2], b)); }
			if (a->k == KITE && isC(a->kid[2])) { if (a->kid[2]->c != b->c) return and_(a->kid[0], eq(a->kid[1], b)); else return or_(not1(a->kid[0]), eq(a->kid[1], b)); }
			if (a->k == KCONCAT) { // drop constant pieces, keep one piece if the rest is constant
				int nv = 0; for (u32 i = 0; i < a->nk; i++) if (!isC(a->kid[i])) nv++;
				if (nv < (int)a->nk || nv == 1) { E r = cst(1, 1); unsigned pos = w; for (u32 i = 0; i < a->nk; i++) { E x = a->kid[i]; pos -= x->w; r = and_(r, eq(x, cst(b->c >> pos, x->w))); } return r; } }
			if (a->k == KSEXT) { E x = a->kid[0]; u64 t = b->c & maskw(x->w); if (((u64)sx(t, x->w) & maskw(w)) != b->c) return cst(0, 1); return eq(x, cst(t, x->w)); }
			if (a->k == KXOR && isC(a->kid[1])) return eq(a->kid[0], cst(a->kid[1]->c ^ b->c, w));
			if (a->k == KLIN && a->nk == 1 && (a->coef[0] & 1)) { u64 k = a->coef[0], inv = k; for (int i = 0; i < 6; i++) inv *= 2 - k * inv; return eq(a->kid[0], cst((b->c - a->c) * inv, w)); }
			if (a->k == KLIN && a->nk == 2 && ((a->coef[0] + a->coef[1]) & maskw(w)) == 0 && (a->coef[0] & 1)) { u64 k = a->coef[0], inv = k; for (int i = 0; i < 6; i++) inv *= 2 - k * inv; u64 d = ((b->c - a->c) * inv) & maskw(w); if (d == 0) return eq(a->kid[0], a->kid[1]); }
			if (a->k == KLIN && a->nk == 1) { unsigned s = __builtin_ctzll(a->coef[0]); u64 r = (b->c - a->c) & maskw(w); if (r & maskw(s)) return cst(0, 1); } }
		else if (a->k == KCONCAT && b->k == KCONCAT && a->nk == b->nk) { bool al = true; for (u32 i = 0; i < a->nk; i++) if (a->kid[i]->w != b->kid[i]->w) al = false;
			if (al) { E r = cst(1, 1); for (u32 i = 0; i < a->nk; i++) r = and_(r, eq(a->kid[i], b->kid[i])); return r; } }
		else if (a->k == KLIN || b->k == KLIN) { E d = sub(a, b); if (isC(d)) return cst(d->c == 0, 1); if (d->k != KLIN || d->nk < 2 ) return eq(d, cst(0, w)); }
		if (a->id > b->id && !isC(b)) std::swap(a, b); return intern(KEQ, 1, 0, {a, b}, nullptr); }
	u64 umax(E e) { return ~e->kz & maskw(e->w); } u64 umin(E e) { return e->ko; }
	E ult(E a, E b) { if (a == b) return cst(0, 1); if (isC(a) && isC(b)) return cst(a->c < b->c, 1); if (umax(a) < umin(b)) return cst(1, 1); if (umin(a) >= umax(b)) return cst(0, 1); if (a->w == 1) return and_(not1(a), b);
		if (isC(b, 1)) return eq(a, cst(0, a->w)); unsigned t = lz(a, b); if (t) return ult(extract(a, 0, a->w - t), extract(b, 0, b->w - t)); return intern(KULT, 1, 0, {a, b}, nullptr); }
	unsigned lz(E a, E b) { u64 m = maskw(a->w); u64 nz = (~a->kz | ~b->kz) & m; unsigned hb = nz ? 64 - __builtin_clzll(nz) : 1; return a->w - hb; }
	E ule(E a, E b) { if (a == b) return cst(1, 1); if (isC(a) && isC(b)) return cst(a->c <= b->c, 1); if (umax(a) <= umin(b)) return cst(1, 1); if (umin(a) > umax(b)) return cst(0, 1); if (a->w == 1) return or_(not1(a), b);
		if (isC(b, 0)) return eq(a, b); unsigned t = lz(a, b); if (t) return ule(extract(a, 0, a->w - t), extract(b, 0, b->w - t)); return intern(KULE, 1, 0, {a, b}, nullptr); }
	E slt(E a, E b) { if (a == b) return cst(0, 1); if (isC(a) && isC(b)) return cst(sx(a->c, a->w) < sx(b->c, b->w), 1); u64 sb = 1ULL << (a->w - 1); if ((a->kz & sb) && (b->kz & sb)) return ult(a, b); if ((a->ko & sb) && (b->kz & sb)) return cst(1, 1); if ((a->kz & sb) && (b->ko & sb)) return cst(0, 1);
		if (a->k == KITE && isC(a->kid[1]) && isC(a->kid[2]) && isC(b)) return ite(a->kid[0], slt(a->kid[1], b), slt(a->kid[2], b)); if (b->k == KITE && isC(b->kid[1]) && isC(b->kid[2]) && isC(a)) return ite(b->kid[0], slt(a, b->kid[1]), slt(a, b->kid[2]));
		return intern(KSLT, 1, 0, {a, b}, nullptr); }
	E sle(E a, E b) { if (a == b) return cst(1, 1); if (isC(a) && isC(b)) return cst(sx(a->c, a->w) <= sx(b->c, b->w), 1); u64 sb = 1ULL << (a->w - 1); if ((a->kz & sb) && (b->kz & sb)) return ule(a, b); if ((a->ko & sb) && (b->kz & sb)) return cst(1, 1); if ((a->kz & sb) && (b->ko & sb)) return cst(0, 1);
		if (a->k == KITE && isC(a->kid[1]) && isC(a->kid[2]) && isC(b)) return ite(a->kid[0], sle(a->kid[1], b), sle(a->kid[2], b)); if (b->k == KITE && isC(b->kid[1]) && isC(b->kid[2]) && isC(a)) return ite(b->kid[0], sle(a, b->kid[1]), sle(a, b->kid[2]));
		return intern(KSLE, 1, 0, {a, b}, nullptr); }
	E build(E e, const std::vector<E>& k) { // rebuild node e with new kids through the simplifier
		switch (e->k) {
		case KLIN: { Lin l; l.c = e->c; for (u32 i = 0; i < e->nk; i++) toLin(k[i], e->coef[i], l, e->w); return fromLin(l, e->w); }
		case KMUL: return mul(k[0], k[1]); case KUDIV: return udiv(k[0], k[1]); case KUREM: return urem(k[0], k[1]); case KSDIV: return sdiv(k[0], k[1]); case KSREM: return srem(k[0], k[1]);
		case KAND: return and_(k[0], k[1]); case KOR: return or_(k[0], k[1]); case KXOR: return xor_(k[0], k[1]); case KSHL: return shl(k[0], k[1]); case KLSHR: return lshr(k[0], k[1]); case KASHR: return ashr(k[0], k[1]);
		case KCONCAT: return concat(k); case KEXTRACT: return extract(k[0], e->c, e->w); case KSEXT: return sext(k[0], e->w); case KITE: return ite(k[0], k[1], k[2]); case KEQ: return eq(k[0], k[1]); case KULT: return ult(k[0], k[1]); case KULE: return ule(k[0], k[1]); case KSLT: return slt(k[0], k[1]); case KSLE: return sle(k[0], k[1]);
		default: return e; } }
	// ---- concrete evaluation under an assignment
	u64 epoch = 1; const std::vector<u64>* model = nullptr;
	void setModel(const std::vector<u64>* m) { model = m; epoch++; }
	u64 eval(E e) {
		if (e->k == KCONST) return e->c;
		if (e->evEp == epoch) return e->evVal;
		u64 m = maskw(e->w), r = 0;
		switch (e->k) {
		case KVAR: r = e->c < model->size() ? (*model)[e->c] : 0; break;
		case KLIN: r = e->c; for (u32 i = 0; i < e->nk; i++) r += e->coef[i] * eval(e->kid[i]); break;
		case KMUL: r = eval(e->kid[0]) * eval(e->kid[1]); break;
		case KUDIV: { u64 b = eval(e->kid[1]); r = b ? eval(e->kid[0]) / b : m; break; }
		case KUREM: { u64 b = eval(e->kid[1]), a = eval(e->kid[0]); r = b ? a % b : a; break; }
		case KSDIV: { i64 a = sx(eval(e->kid[0]), e->w), b = sx(eval(e->kid[1]), e->w); r = b == 0 ? (a < 0 ? 1 : m) : b == -1 ? (u64)0 - (u64)a : (u64)(a / b); break; }
		case KSREM: { i64 a = sx(eval(e->kid[0]), e->w), b = sx(eval(e->kid[1]), e->w); r = b == 0 ? (u64)a : b == -1 ? 0 : (u64)(a % b); break; }
		case KAND: r = eval(e->kid[0]) & eval(e->kid[1]); break;
		case KOR: r = eval(e->kid[0]) | eval(e->kid[1]); break;
		case KXOR: r = eval(e->kid[0]) ^ eval(e->kid[1]); break;
		case KSHL: { u64 s = eval(e->kid[1]); r = s >= e->w ? 0 : eval(e->kid[0]) << s; break; }
		case KLSHR: { u64 s = eval(e->kid[1]); r = s >= e->w ? 0 : eval(e->kid[0]) >> s; break; }
		case KASHR: { u64 s = eval(e->kid[1]); i64 a = sx(eval(e->kid[0]), e->w); r = (u64)(a >> (s >= e->w ? 63 : s)); break; }
		case KCONCAT: for (u32 i = 0; i < e->nk; i++) r = (e->kid[i]->w >= 64 ? 0 : r << e->kid[i]->w) | eval(e->kid[i]); break;
		case KEXTRACT: r = eval(e->kid[0]) >> e->c; break;
		case KSEXT: r = (u64)sx(eval(e->kid[0]), e->kid[0]->w); break;
		case KITE: r = eval(e->kid[0]) ? eval(e->kid[1]) : eval(e->kid[2]); break;
		case KEQ: r = eval(e->kid[0]) == eval(e->kid[1]); break;
		case KULT: r = eval(e->kid[0]) < eval(e->kid[1]); break;
		case KULE: r = eval(e->kid[0]) <= eval(e->kid[1]); break;
		case KSLT: r = sx(eval(e->kid[0]), e->kid[0]->w) < sx(eval(e->kid[1]), e->kid[1]->w); break;
		case KSLE: r = sx(eval(e->kid[0]), e->kid[0]->w) <= sx(eval(e->kid[1]), e->kid[1]->w); break;
		default: break; }
		r &= m; e->evEp = epoch; e->evVal = r; return r; }
	// ---- z3
	Z3_context z = nullptr;
	static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
	void zinit() { Z3_config cfg = Z3_mk_config(); z = Z3_mk_context_rc(cfg); Z3_del_config(cfg); Z3_set_error_handler(z, zerr); }
	Z3_ast keep(Z3_ast a) { Z3_inc_ref(z, a); return a; }
	Z3_ast bv(E e) {
		if (e->zbv) return e->zbv;
		std::vector<Z3_ast> k; Z3_ast r = nullptr;
		bool pred = e->k == KEQ || e->k == KULT || e->k == KULE || e->k == KSLT || e->k == KSLE;
		if (pred) { Z3_sort s1 = Z3_mk_bv_sort(z, 1); r = Z3_mk_ite(z, boolean(e), keep(Z3_mk_unsigned_int64(z, 1, s1)), keep(Z3_mk_unsigned_int64(z, 0, s1))); e->zbv = keep(r); return r; }
		if (e->k == KITE) { Z3_ast c = boolean(e->kid[0]); r = Z3_mk_ite(z, c, bv(e->kid[1]), bv(e->kid[2])); e->zbv = keep(r); return r; }
		for (u32 i = 0; i < e->nk; i++) k.push_back(bv(e->kid[i]));
		Z3_sort s = Z3_mk_bv_sort(z, e->w);
		switch (e->k) {
		case KCONST: r = Z3_mk_unsigned_int64(z, e->c, s); break;
		case KVAR: { char n[32]; snprintf(n, sizeof n, "v%u_%u", (unsigned)e->c, e->w); r = Z3_mk_const(z, Z3_mk_string_symbol(z, n), s); break; }
		case KLIN: { for (u32 i = 0; i < e->nk; i++) { u64 c = e->coef[i]; Z3_ast t = k[i]; bool neg = false; if (c != 1) { if (c == maskw(e->w)) neg = true; else t = keep(Z3_mk_bvmul(z, keep(Z3_mk_unsigned_int64(z, c, s)), t)); }
				if (!r) r = keep(neg ? Z3_mk_bvneg(z, t) : t); else r = keep(neg ? Z3_mk_bvsub(z, r, t) : Z3_mk_bvadd(z, r, t)); }
			if (e->c) r = keep(Z3_mk_bvadd(z, r, keep(Z3_mk_unsigned_int64(z, e->c, s)))); break; }
		case KMUL: r = Z3_mk_bvmul(z, k[0], k[1]); break; case KUDIV: r = Z3_mk_bvudiv(z, k[0], k[1]); break; case KUREM: r = Z3_mk_bvurem(z, k[0], k[1]); break; case KSDIV: r = Z3_mk_bvsdiv(z, k[0], k[1]); break; case KSREM: r = Z3_mk_bvsrem(z, k[0], k[1]); break;
		case KAND: r = Z3_mk_bvand(z, k[0], k[1]); break; case KOR: r = Z3_mk_bvor(z, k[0], k[1]); break; case KXOR: r = Z3_mk_bvxor(z, k[0], k[1]); break;
		case KSHL: r = Z3_mk_bvshl(z, k[0], k[1]); break; case KLSHR: r = Z3_mk_bvlshr(z, k[0], k[1]); break; case KASHR: r = Z3_mk_bvashr(z, k[0], k[1]); break;
		case KCONCAT: r = k[0]; for (u32 i = 1; i < e->nk; i++) r = keep(Z3_mk_concat(z, r, k[i])); break;
		case KEXTRACT: r = Z3_mk_extract(z, e->c + e->w - 1, e->c, k[0]); break;
		case KSEXT: r = Z3_mk_sign_ext(z, e->w - e->kid[0]->w, k[0]); break;
		default: abort(); }
		e->zbv = keep(r); return r; }
	Z3_ast boolean(E e) {
		if (e->zbool) return e->zbool; Z3_ast r = nullptr;
		switch (e->k) {
		case KCONST: r = e->c ? Z3_mk_true(z) : Z3_mk_false(z); break;
		case KEQ: r = Z3_mk_eq(z, bv(e->kid[0]), bv(e->kid[1])); break;
		case KULT: r = Z3_mk_bvult(z, bv(e->kid[0]), bv(e->kid[1])); break; case KULE: r = Z3_mk_bvule(z, bv(e->kid[0]), bv(e->kid[1])); break;
		case KSLT: r = Z3_mk_bvslt(z, bv(e->kid[0]), bv(e->kid[1])); break; case KSLE: r = Z3_mk_bvsle(z, bv(e->kid[0]), bv(e->kid[1])); break;
		case KAND: { Z3_ast a[2] = {boolean(e->kid[0]), boolean(e->kid[1])}; r = Z3_mk_and(z, 2, a); break; }
		case KOR: { Z3_ast a[2] = {boolean(e->kid[0]), boolean(e->kid[1])}; r = Z3_mk_or(z, 2, a); break; }
		case KXOR: if (isC(e->kid[1], 1)) r = Z3_mk_not(z, boolean(e->kid[0])); else r = Z3_mk_xor(z, boolean(e->kid[0]), boolean(e->kid[1])); break;
		case KITE: r = Z3_mk_ite(z, boolean(e->kid[0]), boolean(e->kid[1]), boolean(e->kid[2])); break;
		default: { Z3_sort s1 = Z3_mk_bv_sort(z, 1); r = Z3_mk_eq(z, bv(e), keep(Z3_mk_unsigned_int64(z, 1, s1))); } }
		e->zbool = keep(r); return r; }
};
