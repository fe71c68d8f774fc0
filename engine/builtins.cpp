// Functions the engine models itself: allocation, raw memory, C++ exception ABI, the harness API.
#include "exec.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>

namespace vs {
#define B(name) static BR name(Exec& x, State& s, const Call& c)
static Val arg(Exec& x, State& s, const Call& c, unsigned i) { int32_t o = c.args[i]; return o >= 0 ? s.regs[s.frames.back().base + o] : x.P.consts[~o]; }
static void ret(Exec& x, State& s, const Call&, Val v, int k = 0) { auto& f = s.frames.back(); auto& I = f.fn->code[f.pc]; if (I.dst >= 0) s.regs[f.base + I.dst + k] = v; (void)x; }
static Val cv(uint64_t c) { return Val{nullptr, c}; }
#define CONC(v, i) Val v = arg(x, s, c, i); if (v.e) { bool rt_; if (!x.conc(s, c.args[i], c.widths[i], v, rt_)) return BR::Kill; }
static BR fallback(Exec& x, State& s, const Call& c, const char* fn) {
	auto it = x.P.byName.find(fn);
	if (it == x.P.byName.end() || it->second->decl) { x.fail(s, "engine", std::string("missing rt function ") + fn); return BR::Kill; }
	std::vector<Val> a; for (unsigned i = 0; i < c.args.size(); i++) a.push_back(arg(x, s, c, i));
	x.push(s, it->second, a); return BR::Pushed;
}
static BR doAlloc(Exec& x, State& s, const Call& c, ObjKind k, bool throws, bool init = false, uint64_t mul = 1) {
	CONC(n, 0);
	uint64_t sz = n.c * mul;
	if (sz > x.maxAlloc) { if (throws) { x.push(s, x.P.byName.at("__rt_throw_bad_alloc"), {}); return BR::Pushed; } ret(x, s, c, cv(0)); return BR::Done; }
	uint32_t id = x.alloc(s, sz, k, init); s.liveHeap += sz; ret(x, s, c, cv(mkAddr(id))); return BR::Done;
}
B(b_malloc) { return doAlloc(x, s, c, OK_MALLOC, false); }
B(b_calloc) { CONC(m, 1); return doAlloc(x, s, c, OK_MALLOC, false, true, m.c); }
B(b_new) { return doAlloc(x, s, c, OK_NEW, true); }
B(b_newa) { return doAlloc(x, s, c, OK_NEWA, true); }
B(b_newnt) { return doAlloc(x, s, c, OK_NEW, false); }

static BR doFree(Exec& x, State& s, const Call& c, ObjKind k) {
	CONC(p, 0);
	if (!p.c) return BR::Done;
	uint32_t id = p.c >> 32; Obj* o = s.mem.find(id);
	if (!o) { x.fail(s, "bad-free", "wild pointer"); return BR::Kill; }
	if (o->kind == OK_FREED) { x.fail(s, "double-free", ""); return BR::Kill; }
	if (p.c != mkAddr(id) || o->kind != k) { x.fail(s, "bad-free", "wrong address or allocator"); return BR::Kill; }
	s.mem.set(id, &FREED_HEAP); return BR::Done;
}
B(b_free) { return doFree(x, s, c, OK_MALLOC); }
B(b_del) { return doFree(x, s, c, OK_NEW); }
B(b_dela) { return doFree(x, s, c, OK_NEWA); }
B(b_realloc) {
	CONC(p, 0); CONC(n, 1);
	uint32_t id = x.alloc(s, n.c, OK_MALLOC, false);
	if (p.c) { Obj* o = s.mem.find(p.c >> 32); if (!o || o->kind != OK_MALLOC) { x.fail(s, "bad-free", "realloc"); return BR::Kill; } if (!x.copy(s, mkAddr(id), p.c, std::min<uint64_t>(n.c, o->size))) return BR::Kill; s.mem.set(p.c >> 32, &FREED_HEAP); }
	ret(x, s, c, cv(mkAddr(id))); return BR::Done;
}
static BR doCopy(Exec& x, State& s, const Call& c, bool retDst) {
	CONC(d, 0); CONC(p, 1); CONC(n, 2);
	if (!x.copy(s, d.c, p.c, n.c)) return BR::Kill;
	if (retDst) ret(x, s, c, d); return BR::Done;
}
B(b_memcpy) { return doCopy(x, s, c, true); }
static BR doSet(Exec& x, State& s, const Call& c, bool r) {
	CONC(d, 0); Val v = arg(x, s, c, 1); CONC(n, 2);
	if (n.c) {
		uint32_t off; if (!x.check(s, d.c, n.c, off, true)) return BR::Kill;
		Obj* o = s.mem.own(d.c >> 32);
		E e = v.e ? (v.e->w > 8 ? mkExtract(v.e, 0, 8) : v.e) : mkConst(v.c & 255, 8);
		for (uint64_t i = 0; i < n.c; i++) x.setByte(o, off + i, e);
	}
	if (r) ret(x, s, c, d); return BR::Done;
}
B(b_memset) { return doSet(x, s, c, true); }
static BR doCmp(Exec& x, State& s, const Call& c, bool eqOnly) {
	CONC(a, 0); CONC(b, 1); CONC(n, 2);
	if (!n.c) { ret(x, s, c, cv(0)); return BR::Done; }
	uint32_t ao, bo; Obj* A = x.check(s, a.c, n.c, ao, false); if (!A) return BR::Kill; Obj* Bo = x.check(s, b.c, n.c, bo, false); if (!Bo) return BR::Kill;
	std::vector<std::pair<E, E>> d;
	bool decided = false; uint64_t last = 0;
	for (uint64_t i = 0; i < n.c; i++) {
		E p = x.byteAt(A, ao + i), q = x.byteAt(Bo, bo + i);
		if (p == q) continue;
		if (p->isC() && q->isC()) { if (eqOnly) { ret(x, s, c, cv(1)); return BR::Done; } last = p->c < q->c ? 0xffffffff : 1; decided = true; break; }
		E eq = mkEq(p, q);
		if (eq->sv >= 0) { B256 t = truth(eq), dm = s.pc.domain(eq->sv); if ((t & dm).empty()) { if (eqOnly) { ret(x, s, c, cv(1)); return BR::Done; } } else if ((~t & dm).empty()) continue; }
		d.push_back({p, q});
	}
	if (eqOnly) {
		E ne = mkConst(0, 1); for (auto& p : d) ne = mkBin(K::Or, ne, mkNot(mkEq(p.first, p.second)));
		ret(x, s, c, mkv(mkZExt(ne, 32))); return BR::Done;
	}
	E r = mkConst(decided ? last : 0, 32);
	for (size_t i = d.size(); i-- > 0;) { E lt = mkIte(mkBin(K::Ult, d[i].first, d[i].second), mkConst(0xffffffff, 32), mkConst(1, 32)); r = mkIte(mkEq(d[i].first, d[i].second), r, lt); }
	ret(x, s, c, mkv(r)); return BR::Done;
}
B(b_memcmp) { return doCmp(x, s, c, false); }
B(b_bcmp) { return doCmp(x, s, c, true); }
B(b_strlen) {
	CONC(p, 0); uint64_t n = 0;
	for (;; n++) { Val v; if (!x.load(s, p.c + n, 1, v, 8)) return BR::Kill; if (v.e) return fallback(x, s, c, "__rt_strlen"); if (!v.c) break; }
	ret(x, s, c, cv(n)); return BR::Done;
}
B(b_memchr) {
	CONC(p, 0); Val ch = arg(x, s, c, 1); CONC(n, 2);
	if (ch.e) return fallback(x, s, c, "__rt_memchr");
	for (uint64_t i = 0; i < n.c; i++) { Val v; if (!x.load(s, p.c + i, 1, v, 8)) return BR::Kill; if (v.e) { E q = mkEq(v.e, mkConst(ch.c & 255, 8)); if (q->isC()) { if (q->c) { ret(x, s, c, cv(p.c + i)); return BR::Done; } continue; }
			if (q->sv >= 0 && (truth(q) & s.pc.domain(q->sv)).empty()) continue;
			return fallback(x, s, c, "__rt_memchr"); }
		if (v.c == (ch.c & 255)) { ret(x, s, c, cv(p.c + i)); return BR::Done; } }
	ret(x, s, c, cv(0)); return BR::Done;
}
B(b_abort) { x.fail(s, "abort", "abort() called"); return BR::Kill; }
B(b_term) { x.fail(s, "terminate", "std::terminate"); return BR::Kill; }
B(b_assertfail) { std::string m; Val a = arg(x, s, c, c.args.size() == 4 ? 3 : 0); if (!a.e && a.c) x.cstr(s, a.c, m); x.fail(s, "library-assertion", m); return BR::Kill; }
B(b_exit) { x.fail(s, "exit", "process exit"); return BR::Kill; }
// exceptions
B(b_alloc_exc) { CONC(n, 0); uint32_t id = x.alloc(s, n.c, OK_EXC, false); ret(x, s, c, cv(mkAddr(id))); return BR::Done; }
B(b_free_exc) { CONC(p, 0); s.mem.set(p.c >> 32, &FREED_HEAP); return BR::Done; }
B(b_throw) { CONC(p, 0); CONC(t, 1); CONC(d, 2); s.excs.push_back(ExcRec{p.c, t.c, d.c, 0, 0}); BR r = x.unwind(s, p.c); return r == BR::Kill ? r : BR::Threw; }
B(b_begin) { CONC(p, 0); for (auto& e : s.excs) if (e.addr == p.c) { e.flying = false; e.handlers = e.handlers < 0 ? -e.handlers + 1 : e.handlers + 1; if (s.caught.empty() || s.caught.back() != p.c) s.caught.push_back(p.c); ret(x, s, c, cv(e.adj)); return BR::Done; } x.fail(s, "engine", "begin_catch"); return BR::Kill; }
B(b_end) {
	if (s.caught.empty()) { x.fail(s, "engine", "end_catch"); return BR::Kill; }
	uint64_t a = s.caught.back();
	for (size_t i = 0; i < s.excs.size(); i++) if (s.excs[i].addr == a) {
		auto& e = s.excs[i];
		if (e.handlers < 0) { if (++e.handlers == 0) s.caught.pop_back(); return BR::Done; }
		if (--e.handlers == 0) {
			s.caught.pop_back(); if (e.refs > 0) return BR::Done; // kept by an exception_ptr
			uint64_t d = e.dtor; s.excs.erase(s.excs.begin() + i);
			Fn* f = d ? x.P.fnAt(d) : nullptr;
			if (f && !f->decl) { x.push(s, f, {cv(a)}); return BR::Pushed; }
		}
		return BR::Done;
	}
	x.fail(s, "engine", "end_catch"); return BR::Kill;
}
B(b_rethrow) {
	if (s.caught.empty()) { x.fail(s, "terminate", "rethrow without exception"); return BR::Kill; }
	uint64_t a = s.caught.back(); for (auto& e : s.excs) if (e.addr == a) e.handlers = -e.handlers;
	(void)c; BR r = x.unwind(s, a); return r == BR::Kill ? r : BR::Threw;
}
// std::exception_ptr: one pointer, to the exception object
B(b_curexc) { CONC(p, 0); uint64_t a = s.caught.empty() ? 0 : s.caught.back(); for (auto& e : s.excs) if (e.addr == a) e.refs++; if (!x.store(s, p.c, 8, cv(a), 64)) return BR::Kill; return BR::Done; }
B(b_excaddref) { CONC(p, 0); uint64_t a = x.rd(s, p.c, 8); for (auto& e : s.excs) if (a && e.addr == a) e.refs++; return BR::Done; }
B(b_excrelease) {
	CONC(p, 0); uint64_t a = x.rd(s, p.c, 8); if (!a) return BR::Done; if (!x.store(s, p.c, 8, cv(0), 64)) return BR::Kill;
	for (size_t i = 0; i < s.excs.size(); i++) if (s.excs[i].addr == a) { auto& e = s.excs[i]; if (--e.refs > 0 || e.handlers != 0 || e.flying) return BR::Done; uint64_t d = e.dtor; s.excs.erase(s.excs.begin() + i); Fn* f = d ? x.P.fnAt(d) : nullptr; if (f && !f->decl) { x.push(s, f, {cv(a)}); return BR::Pushed; } return BR::Done; }
	return BR::Done;
}
B(b_rethrowexc) { CONC(p, 0); uint64_t a = x.rd(s, p.c, 8); for (auto& e : s.excs) if (a && e.addr == a) { if (e.handlers) { x.fail(s, "engine", "an exception is rethrown while it is handled"); return BR::Kill; } e.flying = true; BR r = x.unwind(s, a); return r == BR::Kill ? r : BR::Threw; } x.fail(s, "terminate", "rethrow_exception without exception"); return BR::Kill; }
B(b_getexc) { CONC(p, 0); for (auto& e : s.excs) if (e.addr == p.c) { ret(x, s, c, cv(e.adj ? e.adj : e.addr)); return BR::Done; } ret(x, s, c, p); return BR::Done; }
B(b_uncaught) { ret(x, s, c, cv(0)); return BR::Done; }
B(b_dyncast) {
	CONC(p, 0); CONC(st, 1); CONC(dt, 2);
	if (!p.c) { ret(x, s, c, cv(0)); return BR::Done; }
	uint64_t vt = x.rd(s, p.c, 8); int64_t ott = x.rd(s, vt - 16, 8); uint64_t ti = x.rd(s, vt - 8, 8);
	if (!(vt >> 32) || !(ti >> 32)) { x.fail(s, "bad-vtable", "dynamic_cast"); return BR::Kill; }
	std::vector<uint64_t> v; x.subobjects(s, ti, p.c + ott, dt.c, v);
	if (v.size() > 1) { // the one that contains the source subobject
		std::vector<uint64_t> w; for (auto a : v) { std::vector<uint64_t> q; x.subobjects(s, dt.c, a, st.c, q); if (std::find(q.begin(), q.end(), p.c) != q.end()) w.push_back(a); }
		v = w;
	}
	ret(x, s, c, cv(v.size() == 1 ? v[0] : 0)); return BR::Done;
}
// harness API
static int newVar(Exec& x, State& s) { if (s.nvars >= UNDEFV) { x.fail(s, "engine", "too many symbolic bytes"); return -1; } int v = s.nvars++; s.input.push_back({v, 0, 1}); return v; }
B(v_bytes) { CONC(p, 0); CONC(n, 1); for (uint64_t i = 0; i < n.c; i++) { int v = newVar(x, s); if (v < 0) return BR::Kill; if (!x.store(s, p.c + i, 1, Val{mkVar(v), 0}, 8)) return BR::Kill; } return BR::Done; }
static bool restrictDom(Exec& x, State& s, int v, const B256& d) {
	if ((int)s.pc.dom.size() <= v) s.pc.dom.resize(v + 1);
	if (d.empty()) return false;
	s.pc.dom[v] = std::make_shared<B256>(d);
	if (!d.has(s.pc.model->b[v])) { auto m = std::make_shared<Model>(*s.pc.model); m->b[v] = d.first(); s.pc.model = m; }
	(void)x; return true;
}
B(v_bytes_in) { // (ptr, n, set, setlen)
	CONC(p, 0); CONC(n, 1); CONC(q, 2); CONC(m, 3);
	B256 d = B256::none(); for (uint64_t i = 0; i < m.c; i++) { Val b; if (!x.load(s, q.c + i, 1, b, 8) || b.e) return BR::Kill; d.set(b.c); }
	for (uint64_t i = 0; i < n.c; i++) { int v = newVar(x, s); if (v < 0) return BR::Kill; if (!restrictDom(x, s, v, d)) return BR::Kill; if (!x.store(s, p.c + i, 1, Val{mkVar(v), 0}, 8)) return BR::Kill; }
	return BR::Done;
}
B(v_u8) { int v = newVar(x, s); if (v < 0) return BR::Kill; ret(x, s, c, Val{mkVar(v), 0}); return BR::Done; }
static BR vWide(Exec& x, State& s, const Call& c, int n) { E e = nullptr; for (int i = 0; i < n; i++) { int v = newVar(x, s); if (v < 0) return BR::Kill; E b = mkVar(v); e = e ? mkConcat(b, e) : b; } ret(x, s, c, Val{e, 0}); return BR::Done; }
B(v_u16) { return vWide(x, s, c, 2); }
B(v_u32) { return vWide(x, s, c, 4); }
B(v_u64) { return vWide(x, s, c, 8); }
B(v_range) { // symbolic value in [lo, hi], hi - lo <= 255
	CONC(lo, 0); CONC(hi, 1); int64_t l = sx(lo.c, 32), h = sx(hi.c, 32);
	if (h < l || h - l > 255) { x.fail(s, "engine", "vs_range"); return BR::Kill; }
	int v = newVar(x, s); if (v < 0) return BR::Kill; B256 d = B256::none(); for (int i = 0; i <= h - l; i++) d.set(i);
	if (!restrictDom(x, s, v, d)) return BR::Kill;
	ret(x, s, c, mkv(mkBin(K::Add, mkZExt(mkVar(v), 32), mkConst(l, 32)))); return BR::Done;
}
B(v_choice) {
	CONC(n, 0); if (!n.c) { x.killed++; return BR::Kill; }
	auto& f = s.frames.back(); Inst& I = f.fn->code[f.pc];
	for (uint64_t k = n.c; k-- > 1;) {
		State* t = x.clone(s); t->input.push_back({-1, (uint32_t)k, 4}); auto& tf = t->frames.back(); if (I.dst >= 0) t->regs[tf.base + I.dst] = cv(k);
		if (I.op == O_INVOKE) { // continue on the normal edge
			auto& e = tf.fn->edges[c.normal]; std::vector<Val> tmp; for (auto& cp : e.copies) tmp.push_back(cp.second >= 0 ? t->regs[tf.base + cp.second] : x.P.consts[~cp.second]); for (size_t i = 0; i < tmp.size(); i++) t->regs[tf.base + e.copies[i].first] = tmp[i]; tf.pc = e.target; }
		else tf.pc++;
		x.out->push_back(t);
	}
	s.input.push_back({-1, 0, 4}); ret(x, s, c, cv(0)); return BR::Done;
}
static Val asBool(Val v, unsigned w) { if (!v.e) return cv((v.c & maskw(w)) != 0); return mkv(mkNot(mkEq(v.e, mkConst(0, v.e->w)))); }
B(v_assume) { return x.assume(s, asBool(arg(x, s, c, 0), c.widths[0])); }
B(v_check) { CONC(l, 1); std::string lab; if (!x.cstr(s, l.c, lab)) return BR::Kill; return x.check_(s, asBool(arg(x, s, c, 0), c.widths[0]), lab); }
B(v_fail) { CONC(l, 0); std::string lab; if (!x.cstr(s, l.c, lab)) return BR::Kill; x.asserts++; x.fail(s, "assert", lab); return BR::Kill; }
B(v_reach) { CONC(l, 0); std::string lab; if (!x.cstr(s, l.c, lab)) return BR::Kill; int i = x.label(lab); if ((int)s.reach.size() <= i) s.reach.resize(i + 1); s.reach[i] = true; return BR::Done; }
B(v_end) { x.killed++; return BR::Kill; }
B(v_observe) {
	CONC(l, 0); CONC(p, 1); CONC(n, 2); std::string lab; if (!x.cstr(s, l.c, lab)) return BR::Kill;
	auto o = std::make_shared<Obs>(); o->label = x.label(lab);
	if (n.c) { uint32_t off; Obj* ob = x.check(s, p.c, n.c, off, false); if (!ob) return BR::Kill; for (uint64_t i = 0; i < n.c; i++) { E e = x.byteAt(ob, off + i); if (e->vs.has(UNDEFV)) { Val t{e, 0}; if (!x.settle(s, t, 8, "never-written byte in observed output " + lab)) return BR::Kill; e = ex(t, 8); } o->bytes.push_back(e); } }
	s.obs.push_back(o); return BR::Done;
}
B(v_obsint) {
	CONC(l, 0); Val v = arg(x, s, c, 1); std::string lab; if (!x.cstr(s, l.c, lab)) return BR::Kill;
	auto o = std::make_shared<Obs>(); o->label = x.label(lab); E e = ex(v, 64); if (e->vs.has(UNDEFV)) { Val t{e, 0}; if (!x.settle(s, t, 64, "observed value " + lab)) return BR::Kill; e = ex(t, 64); }
	for (int i = 0; i < 8; i++) o->bytes.push_back(mkExtract(e, i * 8, 8)); s.obs.push_back(o); return BR::Done;
}
B(v_init) { // every byte of [p, p+n) has been written
	CONC(p, 0); CONC(n, 1); if (!n.c) return BR::Done; uint32_t off; Obj* ob = x.check(s, p.c, n.c, off, false); if (!ob) return BR::Kill;
	for (uint64_t i = 0; i < n.c; i++) { E e = x.byteAt(ob, off + i); if (e->vs.has(UNDEFV)) { Val t{e, 0}; if (!x.settle(s, t, 8, "never-written byte in output")) return BR::Kill; } }
	return BR::Done;
}
B(v_param) { CONC(l, 0); CONC(d, 1); std::string lab; if (!x.cstr(s, l.c, lab)) return BR::Kill; auto it = x.params.find(lab); ret(x, s, c, it == x.params.end() ? d : cv((uint64_t)it->second & maskw(64))); return BR::Done; }
B(v_symbolic) { ret(x, s, c, cv(1)); return BR::Done; }
B(v_concrete) { CONC(v, 0); ret(x, s, c, v); return BR::Done; }
B(v_issym) { ret(x, s, c, cv(arg(x, s, c, 0).e != nullptr)); return BR::Done; }
B(v_known) { CONC(l, 0); std::string lab; if (!x.cstr(s, l.c, lab)) return BR::Kill; s.known = lab.empty() ? -1 : x.label(lab); return BR::Done; }
B(v_log) { CONC(l, 0); std::string lab; if (!x.cstr(s, l.c, lab)) return BR::Kill; fprintf(stderr, "[log] %s\n", lab.c_str()); return BR::Done; }
// and/or without forking
B(v_and) { Val a = asBool(arg(x, s, c, 0), 32), b = asBool(arg(x, s, c, 1), 32); ret(x, s, c, mkv(mkZExt(mkBin(K::And, ex(a, 1), ex(b, 1)), 32))); return BR::Done; }
B(v_or) { Val a = asBool(arg(x, s, c, 0), 32), b = asBool(arg(x, s, c, 1), 32); ret(x, s, c, mkv(mkZExt(mkBin(K::Or, ex(a, 1), ex(b, 1)), 32))); return BR::Done; }

B(b_snprintf) { // (buf, n, fmt, ...)
	CONC(buf, 0); CONC(n, 1); CONC(fm, 2); std::string fmt; if (!x.cstr(s, fm.c, fmt)) return BR::Kill;
	std::string r; unsigned ai = 3;
	for (size_t i = 0; i < fmt.size(); i++) {
		if (fmt[i] != '%') { r += fmt[i]; continue; }
		size_t j = i + 1; if (fmt[j] == '%') { r += '%'; i = j; continue; }
		while (j < fmt.size() && strchr("-+ 0#123456789.lhzjt", fmt[j])) j++;
		std::string spec = fmt.substr(i, j - i + 1); char cv_ = fmt[j]; i = j;
		if (ai >= c.args.size()) { x.fail(s, "engine", "printf args"); return BR::Kill; }
		char tmp[512];
		if (cv_ == 's') { CONC(p, ai); std::string str; if (!x.cstr(s, p.c, str)) return BR::Kill; snprintf(tmp, sizeof tmp, spec.c_str(), str.c_str()); r += tmp; }
		else if (strchr("fgeE", cv_)) { CONC(p, ai); double d; memcpy(&d, &p.c, 8); snprintf(tmp, sizeof tmp, spec.c_str(), d); r += tmp; }
		else { CONC(p, ai); std::string sp; for (char ch : spec) if (!strchr("lhzjt", ch)) sp += ch; sp.insert(sp.size() - 1, "ll"); uint64_t v = p.c; if (cv_ == 'd' || cv_ == 'i') v = sx(v, c.widths[ai]); if (cv_ == 'c') { r += (char)v; ai++; continue; } snprintf(tmp, sizeof tmp, sp.c_str(), (long long)v); r += tmp; }
		ai++;
	}
	for (uint64_t i = 0; i < n.c; i++) { uint8_t ch = i < r.size() && i + 1 < n.c ? r[i] : 0; if (!x.store(s, buf.c + i, 1, cv(ch), 8)) return BR::Kill; if (i >= r.size() || i + 1 >= n.c) break; }
	ret(x, s, c, cv(r.size())); return BR::Done;
}

BR Exec::intrinsic(State& s, const Inst& I, const Call& c) {
	Exec& x = *this; unsigned w = I.w;
	auto A = [&](int i) { return arg(x, s, c, i); };
	switch (c.intrin) {
		case 1: case 2: return doCopy(x, s, c, false);
		case 3: return doSet(x, s, c, false);
		case 4: { Val t = A(0); ret(x, s, c, cv(t.c >> 32)); return BR::Done; }
		case 5: fail(s, "trap", "trap instruction"); return BR::Kill;
		case 10: case 11: case 12: case 13: { E a = ex(A(0), w), b = ex(A(1), w); E lt = mkBin(c.intrin < 12 ? K::Ult : K::Slt, a, b); bool mx = c.intrin == 10 || c.intrin == 12; ret(x, s, c, mkv(mx ? mkIte(lt, b, a) : mkIte(lt, a, b))); return BR::Done; }
		case 14: case 15: { CONC(n, 2); unsigned k = n.c % w; E a = ex(A(0), w), b = ex(A(1), w); E r; if (!k) r = c.intrin == 14 ? a : b; else { unsigned l = c.intrin == 14 ? k : w - k; r = mkBin(K::Or, mkBin(K::Shl, a, mkConst(l, w)), mkBin(K::LShr, b, mkConst(w - l, w))); } ret(x, s, c, mkv(r)); return BR::Done; }
		case 16: { E a = ex(A(0), w), r = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(a, i, 8); r = r ? mkConcat(r, b) : b; } ret(x, s, c, mkv(r)); return BR::Done; }
		case 17: { E a = ex(A(0), w), b = ex(A(1), w); ret(x, s, c, mkv(mkIte(mkBin(K::Ult, a, b), mkConst(0, w), mkBin(K::Sub, a, b)))); return BR::Done; }
		case 29: { E a = ex(A(0), w), b = ex(A(1), w), r = mkBin(K::Add, a, b); ret(x, s, c, mkv(mkIte(mkBin(K::Ult, r, a), mkConst(maskw(w), w), r))); return BR::Done; }
		case 18: { CONC(a, 0); unsigned n = 0; while (n < w && !((a.c >> (w - 1 - n)) & 1)) n++; ret(x, s, c, cv(n)); return BR::Done; }
		case 22: { CONC(a, 0); unsigned n = 0; while (n < w && !((a.c >> n) & 1)) n++; ret(x, s, c, cv(n)); return BR::Done; }
		case 23: { CONC(a, 0); ret(x, s, c, cv(__builtin_popcountll(a.c))); return BR::Done; }
		case 19: { E a = ex(A(0), w); E neg = mkBin(K::Slt, a, mkConst(0, w)); ret(x, s, c, mkv(mkIte(neg, mkBin(K::Sub, mkConst(0, w), a), a))); return BR::Done; }
		case 20: ret(x, s, c, A(0)); return BR::Done;
		case 21: { CONC(p, 0); CONC(o, 1); Val v; if (!load(s, p.c + o.c, 4, v, 32)) return BR::Kill; ret(x, s, c, cv(p.c + sx(v.c, 32))); return BR::Done; }
		case 24: { CONC(a, 0); CONC(b, 1); unsigned ww = c.retw[0]; unsigned __int128 p = (unsigned __int128)a.c * b.c; ret(x, s, c, cv((uint64_t)p & maskw(ww)), 0); ret(x, s, c, cv(p > maskw(ww)), 1); return BR::Done; }
		case 25: { unsigned ww = c.retw[0]; E a = ex(A(0), ww), b = ex(A(1), ww), r = mkBin(K::Add, a, b); ret(x, s, c, mkv(r), 0); ret(x, s, c, mkv(mkBin(K::Ult, r, a)), 1); return BR::Done; }
		case 26: { unsigned ww = c.retw[0]; E a = ex(A(0), ww), b = ex(A(1), ww); ret(x, s, c, mkv(mkBin(K::Sub, a, b)), 0); ret(x, s, c, mkv(mkBin(K::Ult, a, b)), 1); return BR::Done; }
		case 30: case 31: case 32: { CONC(a, 0); CONC(b, 1); unsigned ww = c.retw[0]; __int128 p = sx(a.c, ww), q = sx(b.c, ww), r = c.intrin == 30 ? p + q : c.intrin == 31 ? p - q : p * q; uint64_t lo = (uint64_t)r & maskw(ww); ret(x, s, c, cv(lo), 0); ret(x, s, c, cv((__int128)sx(lo, ww) != r), 1); return BR::Done; }
		case 27: ret(x, s, c, cv(0)); return BR::Done;
		case 28: ret(x, s, c, cv(~0ull)); return BR::Done;
		default: fail(s, "engine", "intrinsic " + c.iname + " in " + s.frames.back().fn->name); return BR::Kill;
	}
}

void Exec::install() {
	static const std::map<std::string, Builtin> t = {
		{"malloc", b_malloc}, {"calloc", b_calloc}, {"realloc", b_realloc}, {"free", b_free}, {"_Znwm", b_new}, {"_Znam", b_newa}, {"_ZnwmSt11align_val_t", b_new}, {"_ZnamSt11align_val_t", b_newa},
		{"_ZnwmRKSt9nothrow_t", b_newnt}, {"_ZdlPv", b_del}, {"_ZdlPvm", b_del}, {"_ZdlPvSt11align_val_t", b_del}, {"_ZdlPvmSt11align_val_t", b_del}, {"_ZdaPv", b_dela}, {"_ZdaPvm", b_dela}, {"_ZdaPvSt11align_val_t", b_dela}, {"_ZdlPvRKSt9nothrow_t", b_del},
		{"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset}, {"memcmp", b_memcmp}, {"bcmp", b_bcmp}, {"strlen", b_strlen}, {"memchr", b_memchr},
		{"abort", b_abort}, {"_ZSt9terminatev", b_term}, {"__assert_fail", b_assertfail}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", b_assertfail}, {"__cxa_pure_virtual", b_abort}, {"__stack_chk_fail", b_abort}, {"exit", b_exit}, {"_exit", b_exit},
		{"__cxa_allocate_exception", b_alloc_exc}, {"__cxa_free_exception", b_free_exc}, {"__cxa_throw", b_throw}, {"__cxa_begin_catch", b_begin}, {"__cxa_end_catch", b_end}, {"__cxa_rethrow", b_rethrow}, {"__cxa_get_exception_ptr", b_getexc}, {"_ZSt17current_exceptionv", b_curexc}, {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", b_excaddref}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", b_excrelease}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", b_rethrowexc}, {"__dynamic_cast", b_dyncast}, {"_ZSt18uncaught_exceptionv", b_uncaught}, {"_ZSt19uncaught_exceptionsv", b_uncaught},
		{"snprintf", b_snprintf},
		{"vs_bytes", v_bytes}, {"vs_bytes_in", v_bytes_in}, {"vs_u8", v_u8}, {"vs_u16", v_u16}, {"vs_u32", v_u32}, {"vs_u64", v_u64}, {"vs_range", v_range}, {"vs_choice", v_choice}, {"vs_assume", v_assume}, {"vs_check", v_check}, {"vs_fail", v_fail}, {"vs_reach", v_reach}, {"vs_end", v_end},
		{"vs_observe", v_observe}, {"vs_observe_int", v_obsint}, {"vs_assert_init", v_init}, {"vs_param", v_param}, {"vs_symbolic", v_symbolic}, {"vs_concrete", v_concrete}, {"vs_is_symbolic", v_issym}, {"vs_log", v_log}, {"vs_known", v_known}, {"vs_and", v_and}, {"vs_or", v_or},
	};
	for (auto f : P.fns) { auto it = t.find(f->name); if (it != t.end()) f->builtin = it->second; }
}
}
