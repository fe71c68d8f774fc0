#include "expr.hpp"
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <algorithm>
#include <cassert>
#include <cstdio>
#include <cstdlib>

namespace vs {

uint32_t Evaluator::epoch = 0;

namespace {
std::deque<Expr> pool;
struct H { size_t operator()(E e) const {
	uint64_t h = (uint64_t)e->k * 0x9E3779B97F4A7C15ull ^ e->w * 0x100000001b3ull ^ (uint64_t)e->aux << 20 ^ e->c * 0xff51afd7ed558ccdull;
	for (int i = 0; i < 3; i++) { h ^= (e->a[i] ? e->a[i]->id + 1 : 0) * 0xc4ceb9fe1a85ec53ull; h = (h << 13) | (h >> 51); h *= 0x9E3779B97F4A7C15ull; }
	h ^= (uint64_t)(uintptr_t)e->lut >> 4;
	return h ^ (h >> 29); } };
struct Q { bool operator()(E x, E y) const {
	return x->k == y->k && x->w == y->w && x->aux == y->aux && x->c == y->c && x->a[0] == y->a[0] && x->a[1] == y->a[1] && x->a[2] == y->a[2] && x->lut == y->lut; } };
std::unordered_set<E, H, Q> tabl;
struct LH { size_t operator()(const LutData* l) const { uint64_t h = l->t.size(); for (auto v : l->t) { h = (h ^ v) * 0x100000001b3ull; h ^= h >> 31; } return h; } };
struct LQ { bool operator()(const LutData* a, const LutData* b) const { return a->t == b->t; } };
std::unordered_set<const LutData*, LH, LQ> luts;

E intern(Expr& t) {
	auto it = tabl.find(&t);
	if (it != tabl.end()) return *it;
	t.id = pool.size(); t.ep = 0; t.tt = nullptr; t.tab = nullptr; t.z3 = nullptr;
	t.vs = VarSet(); t.sv = -1; t.depth = 0;
	if (t.k == K::Var) { t.vs.set(t.aux); t.sv = t.aux; }
	else for (int i = 0; i < 3; i++) if (t.a[i]) {
		t.vs.merge(t.a[i]->vs);
		if (t.a[i]->depth >= t.depth) t.depth = t.a[i]->depth < 65000 ? t.a[i]->depth + 1 : 65000;
		int s = t.a[i]->sv;
		if (s == -1) continue;
		if (t.sv == -1) t.sv = s; else if (t.sv != s) t.sv = -2;
	}
	// interval
	uint64_t M = maskw(t.w); t.lo = 0; t.hi = M;
	auto A = t.a[0], B = t.a[1];
	switch (t.k) {
		case K::Const: t.lo = t.hi = t.c; break;
		case K::And: t.hi = std::min(A->hi, B->hi); break;
		case K::Or: { uint64_t h = A->hi | B->hi; h |= h >> 1; h |= h >> 2; h |= h >> 4; h |= h >> 8; h |= h >> 16; h |= h >> 32; t.hi = h & M; t.lo = std::max(A->lo, B->lo); break; }
		case K::Xor: { uint64_t h = A->hi | B->hi; h |= h >> 1; h |= h >> 2; h |= h >> 4; h |= h >> 8; h |= h >> 16; h |= h >> 32; t.hi = h & M; break; }
		case K::Add: if (A->hi <= M - B->hi) { t.lo = A->lo + B->lo; t.hi = A->hi + B->hi; }
			else if (B->isC() && A->lo >= ((~B->c + 1) & M) && B->c) { uint64_t n = (~B->c + 1) & M; t.lo = A->lo - n; t.hi = A->hi - n; } break;
		case K::Sub: if (A->lo >= B->hi) { t.lo = A->lo - B->hi; t.hi = A->hi - B->lo; } break;
		case K::Mul: { unsigned __int128 p = (unsigned __int128)A->hi * B->hi; if (p <= M) { t.lo = A->lo * B->lo; t.hi = (uint64_t)p; } break; }
		case K::UDiv: if (B->isC() && B->c) { t.lo = A->lo / B->c; t.hi = A->hi / B->c; } break;
		case K::URem: if (B->isC() && B->c) t.hi = std::min(A->hi, B->c - 1); break;
		case K::LShr: if (B->isC() && B->c < t.w) { t.lo = A->lo >> B->c; t.hi = A->hi >> B->c; } else t.hi = A->hi; break;
		case K::Shl: if (B->isC() && B->c < t.w && (A->hi << B->c >> B->c) == A->hi && (A->hi << B->c) <= M) { t.lo = A->lo << B->c; t.hi = A->hi << B->c; } break;
		case K::ZExt: t.lo = A->lo; t.hi = A->hi; break;
		case K::SExt: if (A->hi <= maskw(A->w) >> 1) { t.lo = A->lo; t.hi = A->hi; } break;
		case K::Extract: if (t.aux == 0 && A->hi <= M) { t.lo = A->lo; t.hi = A->hi; } break;
		case K::Concat: t.lo = A->lo << B->w | B->lo; t.hi = A->hi << B->w | B->hi; break;
		case K::Ite: t.lo = std::min(B->lo, t.a[2]->lo); t.hi = std::max(B->hi, t.a[2]->hi); break;
		case K::Lut: { t.lo = M; t.hi = 0; for (auto v : t.lut->t) { t.lo = std::min(t.lo, v); t.hi = std::max(t.hi, v); } break; }
		default: break;
	}
	pool.push_back(t);
	E e = &pool.back();
	tabl.insert(e);
	return e;
}
Expr blank(K k, unsigned w) { Expr t; memset((void*)&t, 0, sizeof t); t.k = k; t.w = w; return t; }
E raw(K k, unsigned w, E a, E b = nullptr, E c = nullptr, unsigned aux = 0) {
	Expr t = blank(k, w); t.a[0] = a; t.a[1] = b; t.a[2] = c; t.aux = aux; return intern(t);
}
bool isBool(E e) { return e->w == 1; }
}

size_t exprCount() { return pool.size(); }

E mkConst(uint64_t v, unsigned w) { Expr t = blank(K::Const, w); t.c = v & maskw(w); return intern(t); }
E mkVar(unsigned i) { Expr t = blank(K::Var, 8); t.aux = i; return intern(t); }

uint64_t foldBin(K k, uint64_t a, uint64_t b, unsigned w) {
	uint64_t M = maskw(w);
	switch (k) {
		case K::Add: return (a + b) & M;
		case K::Sub: return (a - b) & M;
		case K::Mul: return (a * b) & M;
		case K::UDiv: return b ? a / b : M;
		case K::URem: return b ? a % b : a;
		case K::SDiv: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (0 - (uint64_t)x) & M; return (uint64_t)(x / y) & M; }
		case K::SRem: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & M; }
		case K::And: return a & b;
		case K::Or: return a | b;
		case K::Xor: return a ^ b;
		case K::Shl: return b >= w ? 0 : (a << b) & M;
		case K::LShr: return b >= w ? 0 : a >> b;
		case K::AShr: return b >= w ? (sx(a, w) < 0 ? M : 0) : (uint64_t)(sx(a, w) >> b) & M;
		case K::Eq: return a == b;
		case K::Ult: return a < b;
		case K::Slt: return sx(a, w) < sx(b, w);
		default: abort();
	}
}

E mkNot(E a) {
	if (a->isC()) return mkConst(!a->c, 1);
	if (a->k == K::Xor && a->a[1]->isC()) return a->a[0];
	return raw(K::Xor, 1, a, mkConst(1, 1));
}

static bool iteConst(E e) { return e->k == K::Ite && (e->a[1]->isC() || e->a[2]->isC()); }
static bool iteConst2(E e) { return e->k == K::Ite && e->a[1]->isC() && e->a[2]->isC(); }
static bool deepIte(E e, int d) { return e->isC() || (d > 0 && e->k == K::Ite && deepIte(e->a[1], d - 1) && deepIte(e->a[2], d - 1)); }

E mkBin(K k, E a, E b) {
	unsigned w = a->w;
	if (a->w != b->w) { fprintf(stderr, "width mismatch %d %d\n", a->w, b->w); abort(); }
	bool cmp = k == K::Eq || k == K::Ult || k == K::Slt;
	unsigned rw = cmp ? 1 : w;
	uint64_t M = maskw(w);
	if (a->isC() && b->isC()) return mkConst(foldBin(k, a->c, b->c, w), rw);
	bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq;
	if (comm && (a->isC() || (!b->isC() && a->id > b->id))) std::swap(a, b);
	if (k == K::Sub && b->isC()) return mkBin(K::Add, a, mkConst(0 - b->c, w));
	if (cmp) {
		if (a == b) return mkConst(k == K::Eq ? 1 : 0, 1);
		if (k == K::Ult) { if (a->hi < b->lo) return mkConst(1, 1); if (a->lo >= b->hi) return mkConst(0, 1); }
		if (k == K::Eq) { if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1); }
		if (k == K::Slt) { uint64_t s = M >> 1; if (a->hi <= s && b->hi <= s) return mkBin(K::Ult, a, b); }
	}
	switch (k) {
		case K::Add:
			if (b->isC()) {
				if (!b->c) return a;
				if (a->k == K::Add && a->a[1]->isC()) return mkBin(K::Add, a->a[0], mkConst(a->a[1]->c + b->c, w));
			} else {
				if (a->k == K::Add && a->a[1]->isC()) return mkBin(K::Add, mkBin(K::Add, a->a[0], b), a->a[1]);
				if (b->k == K::Add && b->a[1]->isC()) return mkBin(K::Add, mkBin(K::Add, a, b->a[0]), b->a[1]);
				if (a->k == K::Sub && a->a[1] == b) return a->a[0];
				if (b->k == K::Sub && b->a[1] == a) return b->a[0];
				if (w == 1) return mkBin(K::Xor, a, b);
			}
			break;
		case K::Sub:
			if (a == b) return mkConst(0, w);
			if (a->k == K::Add && a->a[1]->isC()) return mkBin(K::Add, mkBin(K::Sub, a->a[0], b), a->a[1]);
			if (b->k == K::Add && b->a[1]->isC()) return mkBin(K::Add, mkBin(K::Sub, a, b->a[0]), mkConst(0 - b->a[1]->c, w));
			if (a->k == K::Add && !a->a[1]->isC()) { if (a->a[0] == b) return a->a[1]; if (a->a[1] == b) return a->a[0]; }
			break;
		case K::Mul:
			if (b->isC()) { if (!b->c) return b; if (b->c == 1) return a;
				if ((b->c & (b->c - 1)) == 0) return mkBin(K::Shl, a, mkConst(__builtin_ctzll(b->c), w)); }
			break;
		case K::UDiv: if (b->isC()) { if (b->c == 1) return a; if (b->c && (b->c & (b->c - 1)) == 0) return mkBin(K::LShr, a, mkConst(__builtin_ctzll(b->c), w)); if (a->hi < b->c) return mkConst(0, w); } 
			if (b->isC() && b->c && a->k == K::ZExt && b->c <= maskw(a->a[0]->w)) return mkZExt(mkBin(K::UDiv, a->a[0], mkConst(b->c, a->a[0]->w)), w);
			break;
		case K::URem: if (b->isC()) { if (b->c && (b->c & (b->c - 1)) == 0) return mkBin(K::And, a, mkConst(b->c - 1, w)); if (a->hi < b->c) return a; }
			if (b->isC() && b->c && a->k == K::ZExt && b->c <= maskw(a->a[0]->w)) return mkZExt(mkBin(K::URem, a->a[0], mkConst(b->c, a->a[0]->w)), w);
			break;
		case K::SDiv: if (b->isC() && b->c == 1) return a; if (b->isC() && b->c && sx(b->c, w) > 0 && a->hi <= M >> 1) return mkBin(K::UDiv, a, b); break;
		case K::SRem: if (b->isC() && b->c && sx(b->c, w) > 0 && a->hi <= M >> 1) return mkBin(K::URem, a, b); break;
		case K::And:
			if (a == b) return a;
			if (b->isC()) {
				if (!b->c) return b;
				if (b->c == M) return a;
				if (a->k == K::And && a->a[1]->isC()) return mkBin(K::And, a->a[0], mkConst(a->a[1]->c & b->c, w));
				if (a->k == K::ZExt) return mkZExt(mkBin(K::And, a->a[0], mkConst(b->c, a->a[0]->w)), w);
				if ((b->c & (b->c + 1)) == 0 && a->hi <= b->c) return a;
				if ((b->c & (b->c + 1)) == 0) return mkZExt(mkExtract(a, 0, 64 - __builtin_clzll(b->c)), w);
				if (a->k == K::Or && a->a[1]->isC()) return mkBin(K::Or, mkBin(K::And, a->a[0], b), mkConst(a->a[1]->c & b->c, w));
			}
			if (w == 1 && ((a->k == K::Xor && a->a[1]->isC() && a->a[0] == b) || (b->k == K::Xor && b->a[1]->isC() && b->a[0] == a))) return mkConst(0, 1);
			break;
		case K::Or:
			if (a == b) return a;
			if (b->isC()) { if (!b->c) return a; if (b->c == M) return b;
				if (a->k == K::Or && a->a[1]->isC()) return mkBin(K::Or, a->a[0], mkConst(a->a[1]->c | b->c, w)); 
				if (a->k == K::ZExt && b->c <= maskw(a->a[0]->w)) return mkZExt(mkBin(K::Or, a->a[0], mkConst(b->c, a->a[0]->w)), w); }
			else if (w > 1) {
				// disjoint bits: (zext x) | (y << n)
				E x = a, y = b;
				for (int r = 0; r < 2; r++, std::swap(x, y))
					if (x->k == K::ZExt && y->k == K::Shl && y->a[1]->isC()) {
						unsigned n = y->a[1]->c;
						if (n < w && x->a[0]->w <= n) {
							E low = mkZExt(x->a[0], n);
							return mkConcat(mkExtract(y->a[0], 0, w - n), low);
						}
					}
					else if (x->k == K::ZExt && y->k == K::Concat && y->a[1]->isC() && y->a[1]->c == 0 && x->a[0]->w <= y->a[1]->w)
						return mkConcat(y->a[0], mkZExt(x->a[0], y->a[1]->w));
			}
			if (w == 1 && ((a->k == K::Xor && a->a[1]->isC() && a->a[0] == b) || (b->k == K::Xor && b->a[1]->isC() && b->a[0] == a))) return mkConst(1, 1);
			break;
		case K::Xor:
			if (a == b) return mkConst(0, w);
			if (b->isC()) { if (!b->c) return a; if (w == 1) return mkNot(a); if (a->k == K::Xor && a->a[1]->isC()) return mkBin(K::Xor, a->a[0], mkConst(a->a[1]->c ^ b->c, w));
				if (a->k == K::ZExt && b->c <= maskw(a->a[0]->w)) return mkZExt(mkBin(K::Xor, a->a[0], mkConst(b->c, a->a[0]->w)), w); }
			else { if (b->k == K::Xor && b->a[0] == a) return b->a[1]; if (b->k == K::Xor && b->a[1] == a) return b->a[0]; if (a->k == K::Xor && a->a[0] == b) return a->a[1]; if (a->k == K::Xor && a->a[1] == b) return a->a[0]; }
			break;
		case K::Shl:
			if (b->isC()) { if (!b->c) return a; if (b->c >= w) return mkConst(0, w);
				if (a->k == K::Shl && a->a[1]->isC()) return mkBin(K::Shl, a->a[0], mkConst(a->a[1]->c + b->c, w)); 
				if (a->k == K::ZExt && a->a[0]->w + b->c < w) return mkZExt(mkConcat(a->a[0], mkConst(0, b->c)), w);
				return mkConcat(mkExtract(a, 0, w - b->c), mkConst(0, b->c)); }
			break;
		case K::LShr:
			if (b->isC()) { if (!b->c) return a; if (b->c >= w) return mkConst(0, w);
				return mkZExt(mkExtract(a, b->c, w - b->c), w); }
			break;
		case K::AShr:
			if (b->isC()) { if (!b->c) return a; if (b->c < w && a->hi <= M >> 1) return mkBin(K::LShr, a, b);
				if (b->c < w) return mkSExt(mkExtract(a, b->c, w - b->c), w); }
			break;
		case K::Eq:
			if (w == 1) { if (b->isC()) return b->c ? a : mkNot(a); return mkNot(mkBin(K::Xor, a, b)); }
			if (b->isC()) {
				if (a->k == K::ZExt) return b->c > maskw(a->a[0]->w) ? mkConst(0, 1) : mkBin(K::Eq, a->a[0], mkConst(b->c, a->a[0]->w));
				if (a->k == K::SExt) { E t = mkConst(b->c, a->a[0]->w); return (uint64_t)(sx(t->c, t->w)) == (uint64_t)sx(b->c, w) ? mkBin(K::Eq, a->a[0], t) : mkConst(0, 1); }
				if (a->k == K::Add && a->a[1]->isC()) return mkBin(K::Eq, a->a[0], mkConst(b->c - a->a[1]->c, w));
				if (a->k == K::Xor && a->a[1]->isC()) return mkBin(K::Eq, a->a[0], mkConst(b->c ^ a->a[1]->c, w));
				if (a->k == K::Sub && a->a[0]->isC()) return mkBin(K::Eq, a->a[1], mkConst(a->a[0]->c - b->c, w));
				if (a->k == K::Sub && b->c == 0) return mkBin(K::Eq, a->a[0], a->a[1]);
				if (iteConst(a)) {
					E x = mkBin(K::Eq, a->a[1], b), y = mkBin(K::Eq, a->a[2], b);
					return mkIte(a->a[0], x, y);
				}
				if (a->k == K::Concat) return mkBin(K::And, mkBin(K::Eq, a->a[0], mkConst(b->c >> a->a[1]->w, a->a[0]->w)), mkBin(K::Eq, a->a[1], mkConst(b->c, a->a[1]->w)));
			} else {
				if (a->k == K::ZExt && b->k == K::ZExt && a->a[0]->w == b->a[0]->w) return mkBin(K::Eq, a->a[0], b->a[0]);
				if (a->k == K::SExt && b->k == K::SExt && a->a[0]->w == b->a[0]->w) return mkBin(K::Eq, a->a[0], b->a[0]);
				if (a->k == K::Concat && b->k == K::Concat && a->a[0]->w == b->a[0]->w) return mkBin(K::And, mkBin(K::Eq, a->a[0], b->a[0]), mkBin(K::Eq, a->a[1], b->a[1]));
				if (a->k == K::Add && b->k == K::Add && a->a[1] == b->a[1]) return mkBin(K::Eq, a->a[0], b->a[0]);
				if (a->k == K::Add && a->a[1]->isC() && a->a[0] == b) return mkConst(0, 1);
				if (b->k == K::Add && b->a[1]->isC() && b->a[0] == a) return mkConst(0, 1);
			}
			break;
		case K::Ult:
			if (b->isC()) {
				if (b->c == 1) return mkBin(K::Eq, a, mkConst(0, w));
				if (b->c == M) return mkNot(mkBin(K::Eq, a, b));
				if (a->k == K::ZExt) return b->c > maskw(a->a[0]->w) ? mkConst(1, 1) : mkBin(K::Ult, a->a[0], mkConst(b->c, a->a[0]->w));
			}
			if (a->isC()) {
				if (a->c == 0) return mkNot(mkBin(K::Eq, b, a));
				if (a->c == M - 1) return mkBin(K::Eq, b, mkConst(M, w));
				if (b->k == K::ZExt) return a->c >= maskw(b->a[0]->w) ? mkConst(0, 1) : mkBin(K::Ult, mkConst(a->c, b->a[0]->w), b->a[0]);
			}
			if (a->k == K::ZExt && b->k == K::ZExt && a->a[0]->w == b->a[0]->w) return mkBin(K::Ult, a->a[0], b->a[0]);
			break;
		case K::Slt:
			if (a->k == K::SExt && b->k == K::SExt && a->a[0]->w == b->a[0]->w) return mkBin(K::Slt, a->a[0], b->a[0]);
			if (a->k == K::SExt && b->isC()) { unsigned u = a->a[0]->w; int64_t c = sx(b->c, w), mn = -(int64_t)(1ull << (u - 1)), mx = (int64_t)(maskw(u) >> 1);
				if (c > mx) return mkConst(1, 1); if (c <= mn) return mkConst(0, 1); return mkBin(K::Slt, a->a[0], mkConst(b->c, u)); }
			if (b->k == K::SExt && a->isC()) { unsigned u = b->a[0]->w; int64_t c = sx(a->c, w), mn = -(int64_t)(1ull << (u - 1)), mx = (int64_t)(maskw(u) >> 1);
				if (c >= mx) return mkConst(0, 1); if (c < mn) return mkConst(1, 1); return mkBin(K::Slt, mkConst(a->c, u), b->a[0]); }
			break;
		default: break;
	}
	// push through constant-armed ite
	if (b->isC() && deepIte(a, 3) && a->k == K::Ite) return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
	if (a->isC() && deepIte(b, 3) && b->k == K::Ite) return mkIte(b->a[0], mkBin(k, a, b->a[1]), mkBin(k, a, b->a[2]));
	if (cmp && b->isC() && iteConst(a)) return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
	if (cmp && a->isC() && iteConst(b)) return mkIte(b->a[0], mkBin(k, a, b->a[1]), mkBin(k, a, b->a[2]));
	return raw(k, rw, a, b);
}

E mkIte(E c, E a, E b) {
	if (c->isC()) return c->c ? a : b;
	if (a == b) return a;
	if (c->k == K::Xor && c->a[1]->isC()) return mkIte(c->a[0], b, a);
	if (a->w == 1) {
		if (a->isC()) return a->c ? (b->isC() ? c : mkBin(K::Or, c, b)) : (b->isC() ? mkNot(c) : mkBin(K::And, mkNot(c), b));
		if (b->isC()) return b->c ? mkBin(K::Or, mkNot(c), a) : mkBin(K::And, c, a);
	}
	if (a->k == K::Ite && a->a[0] == c) a = a->a[1];
	if (b->k == K::Ite && b->a[0] == c) b = b->a[2];
	if (a == b) return a;
	return raw(K::Ite, a->w, c, a, b);
}

E mkZExt(E a, unsigned w) {
	if (a->w == w) return a;
	if (a->isC()) return mkConst(a->c, w);
	if (a->k == K::ZExt) return mkZExt(a->a[0], w);
	if (iteConst2(a)) return mkIte(a->a[0], mkZExt(a->a[1], w), mkZExt(a->a[2], w));
	return raw(K::ZExt, w, a);
}
E mkSExt(E a, unsigned w) {
	if (a->w == w) return a;
	if (a->isC()) return mkConst(sx(a->c, a->w), w);
	if (a->k == K::ZExt) return mkZExt(a->a[0], w);
	if (a->k == K::SExt) return mkSExt(a->a[0], w);
	if (a->hi <= maskw(a->w) >> 1) return mkZExt(a, w);
	if (iteConst2(a)) return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
	if (a->w == 1) return mkIte(a, mkConst(~0ull, w), mkConst(0, w));
	return raw(K::SExt, w, a);
}
E mkExtract(E a, unsigned off, unsigned w) {
	if (off == 0 && w == a->w) return a;
	if (a->isC()) return mkConst(a->c >> off, w);
	switch (a->k) {
		case K::Extract: return mkExtract(a->a[0], a->aux + off, w);
		case K::ZExt: {
			unsigned u = a->a[0]->w;
			if (off >= u) return mkConst(0, w);
			if (off + w <= u) return mkExtract(a->a[0], off, w);
			return mkZExt(mkExtract(a->a[0], off, u - off), w);
		}
		case K::SExt: {
			unsigned u = a->a[0]->w;
			if (off + w <= u) return mkExtract(a->a[0], off, w);
			if (off < u) return mkSExt(mkExtract(a->a[0], off, u - off), w);
			break;
		}
		case K::Concat: {
			unsigned l = a->a[1]->w;
			if (off + w <= l) return mkExtract(a->a[1], off, w);
			if (off >= l) return mkExtract(a->a[0], off - l, w);
			return mkConcat(mkExtract(a->a[0], 0, off + w - l), mkExtract(a->a[1], off, l - off));
		}
		case K::And: case K::Or: case K::Xor:
			if (a->depth > 12) break;
			return mkBin(a->k, mkExtract(a->a[0], off, w), mkExtract(a->a[1], off, w));
		case K::Add: case K::Sub: case K::Mul:
			if (off == 0 && a->depth <= 12) return mkBin(a->k, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
			break;
		case K::Ite:
			if (a->a[1]->isC() || a->a[2]->isC()) return mkIte(a->a[0], mkExtract(a->a[1], off, w), mkExtract(a->a[2], off, w));
			break;
		case K::Lut: {
			std::vector<uint64_t> t = a->lut->t; for (auto& v : t) v = (v >> off) & maskw(w);
			return mkLut(a->a[0], t, w);
		}
		default: break;
	}
	if (off == 0 && a->hi == 0) return mkConst(0, w);
	if (off > 0 && off < 64 && (a->hi >> off) == 0) return mkConst(0, w);
	return raw(K::Extract, w, a, nullptr, nullptr, off);
}
E mkConcat(E h, E l) {
	unsigned w = h->w + l->w;
	if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
	if (h->isC() && l->isC()) return mkConst(h->c << l->w | l->c, w);
	if (h->isC() && h->c == 0) return mkZExt(l, w);
	if (h->k == K::Extract && l->k == K::Extract && h->a[0] == l->a[0] && h->aux == l->aux + l->w) return mkExtract(h->a[0], l->aux, w);
	if (h->k == K::Extract && h->a[0] == l && h->aux == l->w && h->aux + h->w == l->w) return l;
	if (l->k == K::Concat && h->k == K::Extract && l->a[0]->k == K::Extract && l->a[0]->a[0] == h->a[0] && h->aux == l->a[0]->aux + l->a[0]->w)
		return mkConcat(mkExtract(h->a[0], l->a[0]->aux, h->w + l->a[0]->w), l->a[1]);
	if (h->k == K::ZExt) return mkZExt(mkConcat(h->a[0], l), w);
	// right-assoc normal form
	if (h->k == K::Concat) return mkConcat(h->a[0], mkConcat(h->a[1], l));
	if (l->k == K::Concat && h->isC() && l->a[0]->isC()) return mkConcat(mkConst(h->c << l->a[0]->w | l->a[0]->c, h->w + l->a[0]->w), l->a[1]);
	return raw(K::Concat, w, h, l);
}
E mkLut(E idx, const std::vector<uint64_t>& t, unsigned w) {
	bool same = true;
	for (auto v : t) if (v != t[0]) { same = false; break; }
	if (same) return mkConst(t[0], w);
	if (idx->isC()) return mkConst(t[idx->c < t.size() ? idx->c : t.size() - 1], w);
	LutData tmp; tmp.t = t;
	auto it = luts.find(&tmp);
	const LutData* l;
	if (it != luts.end()) l = *it; else { auto n = new LutData(tmp); luts.insert(n); l = n; }
	Expr x = blank(K::Lut, w); x.a[0] = idx; x.lut = l;
	return intern(x);
}

uint64_t Evaluator::operator()(E e) {
	if (e->k == K::Const) return e->c;
	if (e->k == K::Var) return m[e->aux];
	if (e->ep == epoch) return e->val;
	uint64_t r;
	switch (e->k) {
		case K::Ite: r = (*this)(e->a[0]) ? (*this)(e->a[1]) : (*this)(e->a[2]); break;
		case K::ZExt: r = (*this)(e->a[0]); break;
		case K::SExt: r = (uint64_t)sx((*this)(e->a[0]), e->a[0]->w) & maskw(e->w); break;
		case K::Extract: r = ((*this)(e->a[0]) >> e->aux) & maskw(e->w); break;
		case K::Concat: r = (*this)(e->a[0]) << e->a[1]->w | (*this)(e->a[1]); break;
		case K::Lut: { uint64_t i = (*this)(e->a[0]); r = e->lut->t[i < e->lut->t.size() ? i : e->lut->t.size() - 1]; break; }
		default: r = foldBin(e->k, (*this)(e->a[0]), (*this)(e->a[1]), e->a[0]->w);
	}
	e->ep = epoch; e->val = r;
	return r;
}

const std::vector<uint64_t>& table(E e) {
	if (!e->tab) {
		auto t = new std::vector<uint64_t>(256);
		uint8_t m[MAXV]; memset(m, 0, sizeof m);
		if (e->k == K::Lut && e->a[0]->k == K::Var && e->lut->t.size() >= 256) { for (int i = 0; i < 256; i++) (*t)[i] = e->lut->t[i]; }
		else for (int i = 0; i < 256; i++) { m[e->sv < 0 ? 0 : e->sv] = i; Evaluator ev(m); (*t)[i] = ev(e); }
		e->tab = t;
	}
	return *e->tab;
}
const B256& truth(E e) {
	if (!e->tt) {
		auto b = new B256(B256::none());
		uint8_t m[MAXV]; memset(m, 0, sizeof m);
		for (int i = 0; i < 256; i++) { m[e->sv < 0 ? 0 : e->sv] = i; Evaluator ev(m); if (ev(e)) b->set(i); }
		e->tt = b;
	}
	return *e->tt;
}

std::string show(E e, int d) {
	static const char* n[] = {"const", "v", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<s", "ite", "zext", "sext", "ext", "cat", "lut"};
	if (e->isC()) return std::to_string(e->c);
	if (e->k == K::Var) return "v" + std::to_string(e->aux);
	if (d == 0) return "..";
	std::string s = "("; s += n[(int)e->k];
	if (e->k == K::Extract) s += "@" + std::to_string(e->aux);
	s += ":" + std::to_string(e->w);
	for (int i = 0; i < 3; i++) if (e->a[i]) s += " " + show(e->a[i], d - 1);
	return s + ")";
}

static E substRec(E e, unsigned var, uint8_t value, std::unordered_map<E, E>& memo) {
	if (!e->vs.has(var)) return e;
	auto it = memo.find(e); if (it != memo.end()) return it->second;
	E a[3] = {nullptr, nullptr, nullptr}; for (int i = 0; i < 3; i++) if (e->a[i]) a[i] = substRec(e->a[i], var, value, memo);
	E r = nullptr;
	switch (e->k) {
	case K::Const: r = e; break;
	case K::Var: r = mkConst(value, 8); break;
	case K::Ite: r = mkIte(a[0], a[1], a[2]); break;
	case K::ZExt: r = mkZExt(a[0], e->w); break;
	case K::SExt: r = mkSExt(a[0], e->w); break;
	case K::Extract: r = mkExtract(a[0], e->aux, e->w); break;
	case K::Concat: r = mkConcat(a[0], a[1]); break;
	case K::Lut: r = mkLut(a[0], e->lut->t, e->w); break;
	default: r = mkBin(e->k, a[0], a[1]);
	}
	memo[e] = r; return r;
}
E subst(E e, unsigned var, uint8_t value) { std::unordered_map<E, E> memo; return substRec(e, var, value, memo); }
}
