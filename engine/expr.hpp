// Hash-consed bit-vector expressions (width 1..64), their simplifier and their evaluator.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <array>
#include <memory>

namespace vs {

static const int MAXV = 256;  // symbolic bytes per path

enum class K : uint8_t { Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
	Eq, Ult, Slt, Ite, ZExt, SExt, Extract, Concat, Lut };

struct VarSet {
	uint64_t w[MAXV / 64] = {0, 0, 0, 0};
	void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
	bool has(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
	bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
	bool intersects(const VarSet& o) const { return (w[0] & o.w[0]) | (w[1] & o.w[1]) | (w[2] & o.w[2]) | (w[3] & o.w[3]); }
	void merge(const VarSet& o) { for (int i = 0; i < 4; i++) w[i] |= o.w[i]; }
	int count() const { return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) + __builtin_popcountll(w[2]) + __builtin_popcountll(w[3]); }
	template <class F> void each(F f) const {
		for (int i = 0; i < 4; i++) { uint64_t x = w[i]; while (x) { int b = __builtin_ctzll(x); f(i * 64 + b); x &= x - 1; } }
	}
};

struct B256 {  // a set of byte values
	uint64_t w[4];
	static B256 full() { B256 b; for (auto& x : b.w) x = ~0ull; return b; }
	static B256 none() { B256 b; for (auto& x : b.w) x = 0; return b; }
	bool has(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
	void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
	B256 operator&(const B256& o) const { B256 r; for (int i = 0; i < 4; i++) r.w[i] = w[i] & o.w[i]; return r; }
	B256 operator|(const B256& o) const { B256 r; for (int i = 0; i < 4; i++) r.w[i] = w[i] | o.w[i]; return r; }
	B256 operator~() const { B256 r; for (int i = 0; i < 4; i++) r.w[i] = ~w[i]; return r; }
	bool operator==(const B256& o) const { return !memcmp(w, o.w, sizeof w); }
	bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
	int count() const { int n = 0; for (auto x : w) n += __builtin_popcountll(x); return n; }
	int first() const { for (int i = 0; i < 4; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
	template <class F> void each(F f) const {
		for (int i = 0; i < 4; i++) { uint64_t x = w[i]; while (x) { int b = __builtin_ctzll(x); f(i * 64 + b); x &= x - 1; } }
	}
};

struct LutData { std::vector<uint64_t> t; };

struct Expr {
	K k; uint8_t w;
	uint16_t aux;         // Extract: offset; Var: index
	uint16_t depth;       // height of the expression
	int16_t sv;           // the only variable, -1 none (const), -2 several
	uint32_t id;
	uint64_t c;           // Const value
	const Expr* a[3];
	const LutData* lut;
	VarSet vs;
	uint64_t lo, hi;      // unsigned interval (no path information)
	mutable uint32_t ep; mutable uint64_t val;   // evaluation memo
	mutable B256* tt;     // truth table of a one-byte boolean
	mutable std::vector<uint64_t>* tab; // value table of a one-byte expression
	mutable void* z3;     // solver term
	bool isC() const { return k == K::Const; }
};
typedef const Expr* E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

E mkConst(uint64_t v, unsigned w);
E mkVar(unsigned idx);
E mkBin(K k, E a, E b);
E mkIte(E c, E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkNot(E a);           // boolean
E mkLut(E idx, const std::vector<uint64_t>& t, unsigned w);
inline E mkEq(E a, E b) { return mkBin(K::Eq, a, b); }
uint64_t foldBin(K k, uint64_t a, uint64_t b, unsigned w);

E subst(E e, unsigned var, uint8_t value);   // the expression with a variable fixed

// Evaluation under an assignment of bytes to variables.
struct Evaluator {
	static uint32_t epoch;
	const uint8_t* m;
	explicit Evaluator(const uint8_t* model) : m(model) { ++epoch; }
	uint64_t operator()(E e);
};
const B256& truth(E boolExpr);                       // one-byte boolean
const std::vector<uint64_t>& table(E e);             // one-byte expression, 256 values
std::string show(E e, int depth = 6);
size_t exprCount();

}
