// Path constraints: per-byte value sets (exact for one-byte constraints) + a list of
// several-byte constraints decided by Z3 (QF_BV).
#pragma once
#include "expr.hpp"
#include <z3.h>
#include <unordered_map>

namespace vs {

struct Model { uint8_t b[MAXV]; Model() { memset(b, 0, sizeof b); } };
typedef std::shared_ptr<const Model> ModelP;

struct Cons { E e; std::shared_ptr<Cons> prev; ~Cons() {
	// unlink iteratively
	auto p = std::move(prev); while (p && p.use_count() == 1) { auto q = std::move(p->prev); p = std::move(q); } } };

struct PathCond {
	std::vector<std::shared_ptr<const B256>> dom;   // null = full
	std::shared_ptr<Cons> multi;
	VarSet multiVars;
	ModelP model;                                    // satisfies everything above
	B256 domain(int v) const { return v < (int)dom.size() && dom[v] ? *dom[v] : B256::full(); }
};

enum class Sat { No, Yes, Unknown };

struct Stats {
	uint64_t z3Queries = 0, z3Sat = 0, z3Unsat = 0, z3Unknown = 0, byteDecisions = 0, modelHits = 0, searchHits = 0, cacheHits = 0, bruteDecisions = 0;
	double z3Time = 0; uint64_t crossChecked = 0, crossMismatch = 0;
};

class Solver {
public:
	Solver();
	Stats st;
	unsigned timeoutMs = 30000;
	// May cond be true under pc? On Yes, model satisfies pc and cond. force: always ask Z3.
	Sat mayBeTrue(const PathCond& pc, E cond, ModelP& model, bool force = false);
	// Adds cond, which must be satisfiable with pc; model (optional) satisfies both.
	void add(PathCond& pc, E cond, ModelP model);
	// Every value e can take (up to max); returns false if there are more or the solver gave up.
	bool values(const PathCond& pc, E e, std::vector<std::pair<uint64_t, ModelP>>& out, size_t max);
	unsigned crossEvery = 0;
private:
	Z3_context ctx; Z3_sort sorts[65];
	Z3_ast tr(E e);
	Z3_ast domAst(int v, const B256& d);
	Sat z3check(const PathCond& pc, E cond, ModelP& model);
	struct CacheVal { Sat s; ModelP m; };
	std::unordered_map<std::string, CacheVal> cache;
	std::vector<Z3_ast> varAst;
};
void splitConj(E c, std::vector<E>& out);
}
