#include "solver.hpp"
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

namespace vs {

static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "vsym: z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }

Solver::Solver() {
	Z3_config cfg = Z3_mk_config();
	ctx = Z3_mk_context(cfg);
	Z3_del_config(cfg);
	Z3_set_error_handler(ctx, onErr);
	for (auto& s : sorts) s = nullptr;
}

static Z3_ast keep(Z3_context c, Z3_ast a) { Z3_inc_ref(c, a); return a; }

Z3_ast Solver::tr(E e) {
	if (e->z3) return (Z3_ast)e->z3;
	auto sort = [&](unsigned w) { if (!sorts[w]) { sorts[w] = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, sorts[w])); } return sorts[w]; };
	auto b2 = [&](Z3_ast boolean) { return Z3_mk_ite(ctx, boolean, Z3_mk_unsigned_int64(ctx, 1, sort(1)), Z3_mk_unsigned_int64(ctx, 0, sort(1))); };
	Z3_ast r, x = e->a[0] ? tr(e->a[0]) : nullptr, y = e->a[1] ? tr(e->a[1]) : nullptr, z = e->a[2] ? tr(e->a[2]) : nullptr;
	switch (e->k) {
		case K::Const: r = Z3_mk_unsigned_int64(ctx, e->c, sort(e->w)); break;
		case K::Var: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, e->aux), sort(8)); break;
		case K::Add: r = Z3_mk_bvadd(ctx, x, y); break;
		case K::Sub: r = Z3_mk_bvsub(ctx, x, y); break;
		case K::Mul: r = Z3_mk_bvmul(ctx, x, y); break;
		case K::UDiv: r = Z3_mk_bvudiv(ctx, x, y); break;
		case K::SDiv: r = Z3_mk_bvsdiv(ctx, x, y); break;
		case K::URem: r = Z3_mk_bvurem(ctx, x, y); break;
		case K::SRem: r = Z3_mk_bvsrem(ctx, x, y); break;
		case K::And: r = Z3_mk_bvand(ctx, x, y); break;
		case K::Or: r = Z3_mk_bvor(ctx, x, y); break;
		case K::Xor: r = Z3_mk_bvxor(ctx, x, y); break;
		case K::Shl: r = Z3_mk_bvshl(ctx, x, y); break;
		case K::LShr: r = Z3_mk_bvlshr(ctx, x, y); break;
		case K::AShr: r = Z3_mk_bvashr(ctx, x, y); break;
		case K::Eq: r = b2(Z3_mk_eq(ctx, x, y)); break;
		case K::Ult: r = b2(Z3_mk_bvult(ctx, x, y)); break;
		case K::Slt: r = b2(Z3_mk_bvslt(ctx, x, y)); break;
		case K::Ite: r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, x, Z3_mk_unsigned_int64(ctx, 1, sort(1))), y, z); break;
		case K::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a[0]->w, x); break;
		case K::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a[0]->w, x); break;
		case K::Extract: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, x); break;
		case K::Concat: r = Z3_mk_concat(ctx, x, y); break;
		case K::Lut: {
			// runs of equal values, selected by idx < bound
			auto& t = e->lut->t; size_t n = t.size();
			r = Z3_mk_unsigned_int64(ctx, t[n - 1], sort(e->w));
			unsigned iw = e->a[0]->w;
			for (size_t i = n; i-- > 0;) {
				if (i + 1 < n && t[i] != t[i + 1]) {
					Z3_ast c = Z3_mk_bvult(ctx, x, Z3_mk_unsigned_int64(ctx, i + 1, sort(iw)));
					r = Z3_mk_ite(ctx, c, Z3_mk_unsigned_int64(ctx, t[i], sort(e->w)), r);
				}
			}
			break;
		}
		default: abort();
	}
	e->z3 = keep(ctx, r);
	return r;
}

Z3_ast Solver::domAst(int v, const B256& d) {
	E var = mkVar(v);
	// union of intervals
	std::vector<Z3_ast> ors;
	for (int i = 0; i < 256;) {
		if (!d.has(i)) { i++; continue; }
		int j = i; while (j < 255 && d.has(j + 1)) j++;
		E c = mkBin(K::Ult, mkConst(j, 8), var); c = mkNot(c);
		E l = mkNot(mkBin(K::Ult, var, mkConst(i, 8)));
		E both = mkBin(K::And, c, l);
		ors.push_back(Z3_mk_eq(ctx, tr(both), tr(mkConst(1, 1))));
		i = j + 1;
	}
	return ors.size() == 1 ? ors[0] : Z3_mk_or(ctx, ors.size(), ors.data());
}

Sat Solver::z3check(const PathCond& pc, E cond, ModelP& model) {
	// relevant slice
	VarSet rel = cond->vs;
	std::vector<E> cs;
	std::vector<E> all;
	for (auto p = pc.multi.get(); p; p = p->prev.get()) all.push_back(p->e);
	std::vector<bool> used(all.size(), false);
	bool ch = true;
	while (ch) { ch = false;
		for (size_t i = 0; i < all.size(); i++) if (!used[i] && all[i]->vs.intersects(rel)) { used[i] = true; cs.push_back(all[i]); rel.merge(all[i]->vs); ch = true; } }
	std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
	cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
	std::string key; key.reserve(64);
	key.append((const char*)&cond->id, 4);
	for (auto e : cs) key.append((const char*)&e->id, 4);
	key.push_back('|');
	rel.each([&](int v) { if (v < (int)pc.dom.size() && pc.dom[v] && !(*pc.dom[v] == B256::full())) { key.append((const char*)&v, 2); key.append((const char*)pc.dom[v]->w, 32); } });
	auto it = cache.find(key);
	auto overlay = [&](const Model& src) { auto m = std::make_shared<Model>(*pc.model); rel.each([&](int v) { m->b[v] = src.b[v]; }); return ModelP(m); };
	if (it != cache.end()) { st.cacheHits++; if (it->second.s == Sat::Yes) model = overlay(*it->second.m); return it->second.s; }

	auto t0 = std::chrono::steady_clock::now();
	Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
	Z3_solver_inc_ref(ctx, s);
	Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
	Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
	Z3_solver_set_params(ctx, s, p);
	Z3_ast one = tr(mkConst(1, 1));
	Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(cond), one));
	for (auto e : cs) Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(e), one));
	rel.each([&](int v) { B256 d = pc.domain(v); if (!(d == B256::full())) Z3_solver_assert(ctx, s, domAst(v, d)); });
	Z3_lbool r = Z3_solver_check(ctx, s);
	Sat res = r == Z3_L_TRUE ? Sat::Yes : r == Z3_L_FALSE ? Sat::No : Sat::Unknown;
	st.z3Queries++;
	if (res == Sat::Yes) {
		st.z3Sat++;
		Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
		auto mm = std::make_shared<Model>(*pc.model);
		rel.each([&](int v) {
			Z3_ast out; uint64_t val = 0;
			if (Z3_model_eval(ctx, m, tr(mkVar(v)), true, &out)) { Z3_inc_ref(ctx, out); Z3_get_numeral_uint64(ctx, out, &val); Z3_dec_ref(ctx, out); }
			mm->b[v] = (uint8_t)val;
		});
		Z3_model_dec_ref(ctx, m);
		// the model must satisfy what was asked (guards the translation)
		Evaluator ev(mm->b); bool ok = ev(cond) == 1;
		for (auto e : cs) ok = ok && ev(e) == 1;
		rel.each([&](int v) { ok = ok && pc.domain(v).has(mm->b[v]); });
		if (!ok) { fprintf(stderr, "vsym: z3 model does not satisfy the query (encoding mismatch)\n"); abort(); }
		model = mm;
	} else if (res == Sat::No) st.z3Unsat++; else st.z3Unknown++;
	Z3_params_dec_ref(ctx, p);
	Z3_solver_dec_ref(ctx, s);
	st.z3Time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	if (cache.size() > 400000) cache.clear();
	cache[key] = CacheVal{res, model};
	if (res != Sat::Yes) cache[key].m = nullptr;
	return res;
}

void splitConj(E c, std::vector<E>& out) {
	if (c->w == 1 && c->k == K::And) { splitConj(c->a[0], out); splitConj(c->a[1], out); return; }
	if (c->w == 1 && c->k == K::Xor && c->a[1]->isC() && c->a[0]->k == K::Or) { splitConj(mkNot(c->a[0]->a[0]), out); splitConj(mkNot(c->a[0]->a[1]), out); return; }
	out.push_back(c);
}

Sat Solver::mayBeTrue(const PathCond& pc, E cond, ModelP& model, bool force) {
	if (cond->isC()) { model = pc.model; return cond->c ? Sat::Yes : Sat::No; }
	if (force) { return z3check(pc, cond, model); }
	{ Evaluator ev(pc.model->b); if (ev(cond)) { st.modelHits++; model = pc.model; return Sat::Yes; } }
	if (cond->sv >= 0) {
		int v = cond->sv;
		B256 t = truth(cond) & pc.domain(v);
		if (t.empty()) {
			st.byteDecisions++;
			if (crossEvery && st.byteDecisions % crossEvery == 0) { ModelP mm; st.crossChecked++; if (z3check(pc, cond, mm) == Sat::Yes) { st.crossMismatch++; fprintf(stderr, "vsym: cross-check mismatch\n"); abort(); } }
			return Sat::No;
		}
		if (!pc.multiVars.has(v)) {
			st.byteDecisions++;
			auto m = std::make_shared<Model>(*pc.model); m->b[v] = t.first(); model = m;
			return Sat::Yes;
		}
	}
	// local search: change one byte of the current model
	{
		std::vector<E> rel; 
		for (auto p = pc.multi.get(); p; p = p->prev.get()) rel.push_back(p->e);
		Model m = *pc.model; Sat found = Sat::No; int tries = 0;
		cond->vs.each([&](int v) {
			if (found == Sat::Yes || tries > 2048) return;
			uint8_t old = m.b[v];
			B256 d = pc.domain(v);
			if (cond->sv == v) d = d & truth(cond);
			for (int x = 0; x < 256 && tries <= 2048; x++) if (d.has(x) && x != old) {
				m.b[v] = x; tries++;
				Evaluator ev(m.b);
				if (!ev(cond)) continue;
				bool ok = true;
				for (auto e : rel) if (e->vs.has(v) && !ev(e)) { ok = false; break; }
				if (ok) { found = Sat::Yes; break; }
			}
			if (found != Sat::Yes) m.b[v] = old;
		});
		if (found == Sat::Yes) { st.searchHits++; model = std::make_shared<Model>(m); return Sat::Yes; }
	}
	return z3check(pc, cond, model);
}

void Solver::add(PathCond& pc, E cond, ModelP model) {
	if (model) pc.model = model;
	std::vector<E> parts; splitConj(cond, parts);
	for (auto c : parts) {
		if (c->isC()) continue;
		if (c->sv >= 0) {
			int v = c->sv;
			if ((int)pc.dom.size() <= v) pc.dom.resize(v + 1);
			B256 n = pc.domain(v) & truth(c);
			pc.dom[v] = std::make_shared<B256>(n);
		} else {
			bool dup = false; int k = 0;
			for (auto p = pc.multi.get(); p && k < 64; p = p->prev.get(), k++) if (p->e == c) { dup = true; break; }
			if (dup) continue;
			auto n = std::make_shared<Cons>(); n->e = c; n->prev = pc.multi; pc.multi = n;
			pc.multiVars.merge(c->vs);
		}
	}
}

bool Solver::values(const PathCond& pc0, E e, std::vector<std::pair<uint64_t, ModelP>>& out, size_t max) {
	if (e->isC()) { out.push_back({e->c, pc0.model}); return true; }
	if (e->sv >= 0) {
		auto& t = table(e);
		std::vector<std::pair<uint64_t, B256>> by;
		std::unordered_map<uint64_t, size_t> ix;
		pc0.domain(e->sv).each([&](int i) { auto it = ix.find(t[i]); if (it == ix.end()) { ix[t[i]] = by.size(); by.push_back({t[i], B256::none()}); by.back().second.set(i); } else by[it->second].second.set(i); });
		bool m = pc0.multiVars.has(e->sv);
		if (!m) {
			for (auto& p : by) {
				if (out.size() >= max) return false;
				st.byteDecisions++;
				auto mm = std::make_shared<Model>(*pc0.model); mm->b[e->sv] = p.second.first(); out.push_back({p.first, mm});
			}
			return true;
		}
		for (auto& p : by) {
			ModelP mm; Sat s = mayBeTrue(pc0, mkEq(e, mkConst(p.first, e->w)), mm);
			if (s == Sat::Unknown) return false;
			if (s == Sat::Yes) { if (out.size() >= max) return false; out.push_back({p.first, mm}); }
		}
		return true;
	}
	PathCond pc = pc0;
	E cond = mkConst(1, 1);
	// start with the current model
	ModelP m = pc.model;
	while (true) {
		Evaluator ev(m->b); uint64_t v = ev(e);
		if (out.size() >= max) return false;
		out.push_back({v, m});
		E ne = mkNot(mkEq(e, mkConst(v, e->w)));
		if (ne->isC()) return ne->c == 0;
		ModelP m2; Sat s = mayBeTrue(pc, ne, m2);
		if (s == Sat::Unknown) return false;
		if (s == Sat::No) return true;
		add(pc, ne, m2); m = m2;
	}
}
}
