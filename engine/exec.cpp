#include "exec.hpp"
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <cxxabi.h>

namespace vs {
double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- memory
Obj FREED_HEAP = {1u << 30, 0, OK_FREED, 0, 0, 0, nullptr, nullptr, nullptr};

static Obj* newObj(uint32_t size, uint8_t kind, bool init) {
	size_t d = (size + 7) & ~7ull, nw = init ? 0 : (size + 63) / 64;
	auto p = (char*)malloc(sizeof(Obj) + d + nw * 8);
	auto o = (Obj*)p; o->rc = 1; o->size = size; o->kind = kind; o->ro = 0; o->npages = (size + 63) / 64; o->pages = nullptr;
	o->data = (uint8_t*)(p + sizeof(Obj)); o->init = nw ? (uint64_t*)(p + sizeof(Obj) + d) : nullptr;
	if (nw) memset(o->init, 0, nw * 8);
	memset(o->data, init ? 0 : 0xAA, d);
	return o;
}
static void freeObj(Obj* o) {
	if (o == &FREED_HEAP) return;
	if (--o->rc) return;
	if (o->pages) { for (uint32_t i = 0; i < o->npages; i++) free(o->pages[i]); free(o->pages); }
	free(o);
}
static Obj* cloneObj(Obj* o) {
	size_t d = (o->size + 7) & ~7ull, nw = o->init ? (o->size + 63) / 64 : 0;
	auto p = (char*)malloc(sizeof(Obj) + d + nw * 8);
	auto n = (Obj*)p; *n = *o; n->rc = 1; n->data = (uint8_t*)(p + sizeof(Obj)); memcpy(n->data, o->data, d);
	if (nw) { n->init = (uint64_t*)(p + sizeof(Obj) + d); memcpy(n->init, o->init, nw * 8); }
	if (o->pages) { n->pages = (E**)calloc(o->npages, sizeof(E*)); for (uint32_t i = 0; i < o->npages; i++) if (o->pages[i]) { n->pages[i] = (E*)malloc(64 * sizeof(E)); memcpy(n->pages[i], o->pages[i], 64 * sizeof(E)); } }
	return n;
}
static void freePage(Page* p) { if (!p || --p->rc) return; for (auto o : p->o) if (o) freeObj(o); delete p; }
Mem::~Mem() { for (auto p : top) freePage(p); }
static Page* ownPage(Page*& p) {
	if (!p) { p = new Page; p->rc = 1; memset(p->o, 0, sizeof p->o); return p; }
	if (p->rc > 1) { auto n = new Page; n->rc = 1; for (int i = 0; i < 256; i++) { n->o[i] = p->o[i]; if (n->o[i] && n->o[i] != &FREED_HEAP) n->o[i]->rc++; } p->rc--; p = n; }
	return p;
}
Obj* Mem::own(uint32_t id) {
	Page* p = ownPage(top[id >> 8]); Obj*& o = p->o[id & 255];
	if (o->rc > 1 && o != &FREED_HEAP) { Obj* n = cloneObj(o); o->rc--; o = n; }
	return o;
}
void Mem::set(uint32_t id, Obj* o) {
	if ((id >> 8) >= top.size()) top.resize((id >> 8) + 1, nullptr);
	Page* p = ownPage(top[id >> 8]); if (p->o[id & 255]) freeObj(p->o[id & 255]); p->o[id & 255] = o;
}
uint32_t Mem::add(Obj* o) { uint32_t id = next++; set(id, o); return id; }

static inline bool initOK(Obj* o, uint32_t off, unsigned n) {
	if (!o->init) return true;
	unsigned b = off & 63; uint64_t m = n >= 64 ? ~0ull : (1ull << n) - 1;
	if (b + n <= 64) return ((o->init[off >> 6] >> b) & m) == m;
	for (unsigned i = 0; i < n; i++) if (!((o->init[(off + i) >> 6] >> ((off + i) & 63)) & 1)) return false;
	return true;
}
static inline void setInit(Obj* o, uint32_t off, unsigned n) {
	if (!o->init) return;
	unsigned b = off & 63;
	if (b + n <= 64) { uint64_t m = n >= 64 ? ~0ull : (1ull << n) - 1; o->init[off >> 6] |= m << b; return; }
	for (unsigned i = 0; i < n; i++) o->init[(off + i) >> 6] |= 1ull << ((off + i) & 63);
}
static inline bool anySym(Obj* o, uint32_t off, unsigned n) {
	if (!o->pages) return false;
	for (unsigned i = 0; i < n; i++) { auto p = o->pages[(off + i) >> 6]; if (p && p[(off + i) & 63]) return true; }
	return false;
}
static inline void clearSym(Obj* o, uint32_t off, unsigned n) {
	if (!o->pages) return;
	for (unsigned i = 0; i < n; i++) { auto p = o->pages[(off + i) >> 6]; if (p) p[(off + i) & 63] = nullptr; }
}
E Exec::byteAt(Obj* o, uint32_t off) {
	if (o->pages) { auto p = o->pages[off >> 6]; if (p && p[off & 63]) return p[off & 63]; }
	if (o->init && !((o->init[off >> 6] >> (off & 63)) & 1)) return mkVar(UNDEFV);
	return mkConst(o->data[off], 8);
}
void Exec::setByte(Obj* o, uint32_t off, E e) {
	if (e->k == K::Var && e->aux == UNDEFV) { if (o->init) o->init[off >> 6] &= ~(1ull << (off & 63)); else { // becomes unwritten again: keep as symbolic marker
			} if (o->init) { clearSym(o, off, 1); return; } }
	setInit(o, off, 1);
	if (e->isC()) { o->data[off] = e->c; clearSym(o, off, 1); return; }
	if (!o->pages) o->pages = (E**)calloc(o->npages, sizeof(E*));
	auto& p = o->pages[off >> 6]; if (!p) p = (E*)calloc(64, sizeof(E)); p[off & 63] = e;
}
uint32_t Exec::alloc(State& s, uint64_t size, ObjKind k, bool init) { return s.mem.add(newObj(size, k, init || !checkUninit)); }

Obj* Exec::check(State& s, uint64_t addr, uint64_t n, uint32_t& off, bool write) {
	uint32_t id = addr >> 32; uint64_t lo = (addr & 0xffffffff);
	if (id == 0) { fail(s, "null-deref", ""); return nullptr; }
	Obj* o = s.mem.find(id);
	if (!o) { fail(s, id == 1 ? "function-memory" : "wild-pointer", ""); return nullptr; }
	if (o->kind == OK_FREED) { fail(s, "use-after-free", ""); return nullptr; }
	if (lo < BASE || lo - BASE > o->size || n > o->size - (lo - BASE)) { 
		std::string l = std::string(write ? "write" : "read") + " of " + std::to_string(n) + " at offset " + std::to_string((int64_t)lo - (int64_t)BASE) + " of " + std::to_string(o->size) + "-byte " + (o->kind == OK_STACK ? "stack" : o->kind == OK_GLOBAL ? ("global " + P.globalName(id)).c_str() : "heap") + " object";
		fail(s, "out-of-bounds", l); return nullptr; }
	if (write && o->ro) { fail(s, "write-to-constant", P.globalName(id)); return nullptr; }
	off = lo - BASE;
	return o;
}

bool Exec::load(State& s, uint64_t addr, unsigned n, Val& v, unsigned w) {
	uint32_t off; Obj* o = check(s, addr, n, off, false);
	if (!o) return false;
	if (!anySym(o, off, n) && initOK(o, off, n)) { uint64_t x = 0; memcpy(&x, o->data + off, n); v = Val{nullptr, x & maskw(w)}; return true; }
	E e = byteAt(o, off);
	for (unsigned i = 1; i < n; i++) e = mkConcat(byteAt(o, off + i), e);
	if (e->w > w) e = mkExtract(e, 0, w);
	// a byte whose value the path has fixed is a constant
	if (e->sv >= 0 && e->sv < (int)s.pc.dom.size() && s.pc.dom[e->sv] && s.pc.dom[e->sv]->count() == 1) { v = Val{nullptr, table(e)[s.pc.dom[e->sv]->first()]}; return true; }
	v = mkv(e);
	return true;
}
bool Exec::store(State& s, uint64_t addr, unsigned n, Val v, unsigned w) {
	uint32_t off; Obj* o = check(s, addr, n, off, true);
	if (!o) return false;
	uint32_t id = addr >> 32;
	if (o->rc > 1 || s.mem.top[id >> 8]->rc > 1) o = s.mem.own(id);
	if (!v.e) { memcpy(o->data + off, &v.c, n); setInit(o, off, n); clearSym(o, off, n); return true; }
	E e = v.e; if (e->w < n * 8) e = mkZExt(e, n * 8);
	for (unsigned i = 0; i < n; i++) setByte(o, off + i, n == 1 ? e : mkExtract(e, i * 8, 8));
	return true;
}
bool Exec::copy(State& s, uint64_t d, uint64_t src, uint64_t n) {
	if (!n) return true;
	uint32_t so, dof; Obj* a = check(s, src, n, so, false); if (!a) return false;
	Obj* b = check(s, d, n, dof, true); if (!b) return false;
	b = s.mem.own(d >> 32); a = s.mem.find(src >> 32);
	if (!a->pages && !a->init) { memmove(b->data + dof, a->data + so, n); clearSym(b, dof, n); for (uint64_t i = 0; i < n; i += 32) setInit(b, dof + i, std::min<uint64_t>(32, n - i)); return true; }
	if (a == b && so < dof) for (uint64_t i = n; i-- > 0;) setByte(b, dof + i, byteAt(a, so + i));
	else for (uint64_t i = 0; i < n; i++) setByte(b, dof + i, byteAt(a, so + i));
	return true;
}
uint64_t Exec::rd(State& s, uint64_t addr, int n) { uint32_t id = addr >> 32; Obj* o = s.mem.find(id); uint64_t off = (addr & 0xffffffff) - BASE; if (!o || off + n > o->size) return 0; uint64_t x = 0; memcpy(&x, o->data + off, n); return x; }
bool Exec::cstr(State& s, uint64_t addr, std::string& out) {
	out.clear();
	for (;; addr++) { Val v; if (!load(s, addr, 1, v, 8)) return false; if (v.e) { fail(s, "engine", "symbolic string literal"); return false; } if (!v.c) return true; out.push_back((char)v.c); }
}

// ---------------------------------------------------------------- bookkeeping
int Exec::label(const std::string& l) { auto it = labelIx.find(l); if (it != labelIx.end()) return it->second; int i = labels.size(); labels.push_back(l); labelIx[l] = i; return i; }
static std::string demangle(const std::string& n) { int st; char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st); if (!d) return n; std::string r = d; free(d); if (r.size() > 120) r = r.substr(0, 117) + "..."; return r; }
std::string Exec::where(State& s, std::string* stack) {
	std::string w; int n = 0;
	for (size_t i = s.frames.size(); i-- > 0 && n < 14; n++) {
		auto& f = s.frames[i]; std::string x = demangle(f.fn->name) + ":" + std::to_string(f.pc < f.fn->code.size() ? f.fn->code[f.pc].line : 0);
		if (w.empty() || (w.find("vmime::") == std::string::npos && w.find("harness") == std::string::npos && n < 6 && x.find("vmime::") != std::string::npos && x.compare(0, 7, "vmime::") == 0)) w = w.empty() ? x : w + " < " + x;
		if (stack) *stack += x + "\n";
	}
	return w;
}
static std::string hex(const std::string& b) { static const char* d = "0123456789abcdef"; std::string r; for (unsigned char c : b) { r += d[c >> 4]; r += d[c & 15]; } return r; }
std::string Exec::inputOf(State& s, const Model& m) {
	std::string r;
	for (auto& i : s.input) { if (i.var >= 0) r.push_back((char)m.b[i.var]); else for (int k = 0; k < i.n; k++) r.push_back((char)(i.choice >> (8 * k))); }
	return hex(r);
}
std::string Exec::obsOf(State& s, const Model& m) {
	std::string r;
	Evaluator ev(m.b);
	for (auto& o : s.obs) { std::string b; for (auto e : o->bytes) b.push_back((char)ev(e)); r += labels[o->label] + "=" + hex(b) + ";"; }
	return r;
}
void Exec::fail(State& s, const std::string& kind, const std::string& lab, ModelP m) {
	errPaths++;
	if (!m) m = s.pc.model;
	std::string kn = s.known >= 0 ? "known:" + labels[s.known] + "|" : "";
	Error e; e.kind = kind; e.label = kn + lab; e.where = where(s, &e.stack); e.count = 1; e.input = inputOf(s, *m); e.obs = obsOf(s, *m);
	std::string key = kind + "|" + kn + (kind == "assert" ? lab : e.where);
	auto it = errors.find(key);
	if (it != errors.end()) { it->second.count++; return; }
	if (kind == "engine") incomplete["engine: " + lab]++;
	errors[key] = e;
}
State* Exec::clone(State& s) { forks++; s.forks++; auto n = new State(s); return n; }

// ---------------------------------------------------------------- frames
void Exec::push(State& s, Fn* f, const std::vector<Val>& args, const Call* c) {
	if (!f->decoded) P.decode(f);
	f->seen = true;
	Frame fr; fr.fn = f; fr.pc = 0; fr.base = s.frames.empty() ? 0 : s.frames.back().base + s.frames.back().fn->nregs; fr.allocaBase = s.allocas.size();
	if (s.regs.size() < fr.base + f->nregs) s.regs.resize(fr.base + f->nregs + 64, Val{nullptr, 0});
	for (size_t i = 0; i < f->nregs; i++) s.regs[fr.base + i] = Val{nullptr, 0};
	for (size_t i = 0; i < args.size() && i < f->nargs; i++) s.regs[fr.base + i] = args[i];
	(void)c;
	s.frames.push_back(fr);
}
void Exec::take(State& s, Frame& f, uint32_t edge) {
	Edge& e = f.fn->edges[edge];
	Val* R = s.regs.data() + f.base; const Val* C = P.consts.data();
	size_t n = e.copies.size();
	if (n == 1) { auto& c = e.copies[0]; R[c.first] = c.second >= 0 ? R[c.second] : C[~c.second]; }
	else if (n) { Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
		for (size_t i = 0; i < n; i++) { int32_t x = e.copies[i].second; t[i] = x >= 0 ? R[x] : C[~x]; }
		for (size_t i = 0; i < n; i++) R[e.copies[i].first] = t[i]; }
	f.pc = e.target;
}
// A value that mentions never-written bytes: an error if it depends on them for some input of this path,
// else the value without them.
bool Exec::settle(State& s, Val& v, unsigned w, const std::string& what) {
	E e0 = subst(v.e, UNDEFV, 0);
	for (unsigned k : {0xffu, 0xa5u, 1u}) {
		E d = mkNot(mkEq(e0, subst(v.e, UNDEFV, k)));
		if (d->isC() && !d->c) continue;
		ModelP m; Sat r = S.mayBeTrue(s.pc, d, m);
		if (r == Sat::Unknown) incomplete["solver gave up"]++;
		if (r == Sat::Yes) { fail(s, "uninitialised", what, m); return false; }
	}
	v = mkv(e0); return true;
}
// Makes a register operand concrete, forking over its values. retry: the state's register changed; re-read it.
bool Exec::conc(State& s, int32_t op, unsigned w, Val& v, bool& retry) {
	retry = false;
	if (!v.e) return true;
	if (v.e->vs.has(UNDEFV)) { if (!settle(s, v, w, "value used as an address, size or operand")) return false; s.regs[s.frames.back().base + op] = v; if (!v.e) return true; }
	std::vector<std::pair<uint64_t, ModelP>> vals;
	E e = v.e;
	if (!S.values(s.pc, e, vals, maxValues)) incomplete["too many values to enumerate at " + where(s)]++;
	if (vals.empty()) { incomplete["no value"]++; killed++; return false; }
	uint32_t base = s.frames.back().base;
	for (size_t i = 1; i < vals.size(); i++) {
		State* n = clone(s);
		S.add(n->pc, mkEq(e, mkConst(vals[i].first, w)), vals[i].second);
		n->regs[base + op] = Val{nullptr, vals[i].first};
		out->push_back(n);
	}
	if (vals.size() > 1) S.add(s.pc, mkEq(e, mkConst(vals[0].first, w)), vals[0].second);
	s.regs[base + op] = Val{nullptr, vals[0].first};
	v = Val{nullptr, vals[0].first};
	retry = vals.size() > 1;
	return true;
}

// ---------------------------------------------------------------- exceptions
static int clsKind(Exec& x, State& s, uint64_t ti) {
	uint64_t v = x.rd(s, ti, 8); auto n = x.P.globalName(v >> 32);
	if (n.find("si_class") != std::string::npos) return 1;
	if (n.find("vmi_class") != std::string::npos) return 2;
	if (n.find("__class_type") != std::string::npos) return 0;
	return -1;
}
bool Exec::upcast(State& s, uint64_t ti, uint64_t ptr, uint64_t target, uint64_t& outp, int d) {
	std::vector<uint64_t> v; subobjects(s, ti, ptr, target, v, 0); (void)d;
	if (v.empty()) return false; outp = v[0]; return true;
}
void Exec::subobjects(State& s, uint64_t ti, uint64_t ptr, uint64_t target, std::vector<uint64_t>& o, int d) {
	if (d > 24) return;
	if (ti == target) { if (std::find(o.begin(), o.end(), ptr) == o.end()) o.push_back(ptr); return; }
	int k = clsKind(*this, s, ti);
	if (k == 1) { subobjects(s, rd(s, ti + 16, 8), ptr, target, o, d + 1); return; }
	if (k == 2) {
		uint32_t n = rd(s, ti + 20, 4);
		for (uint32_t i = 0; i < n; i++) {
			uint64_t b = rd(s, ti + 24 + 16 * i, 8); int64_t of = rd(s, ti + 32 + 16 * i, 8); int64_t off = of >> 8;
			if (of & 1) { uint64_t vt = rd(s, ptr, 8); off = (int64_t)rd(s, vt + off, 8); }
			subobjects(s, b, ptr + off, target, o, d + 1);
		}
	}
}
static ExcRec* excOf(State& s, uint64_t a) { for (size_t i = s.excs.size(); i-- > 0;) if (s.excs[i].addr == a) return &s.excs[i]; return nullptr; }
BR Exec::unwind(State& s, uint64_t exc) {
	ExcRec* r = excOf(s, exc);
	if (!r) { fail(s, "engine", "unknown exception"); return BR::Kill; }
	// phase 1
	auto match = [&](LPad& lp, uint64_t& sel, bool& isCatch) -> bool {
		for (auto& c : lp.clauses) {
			if (c.first == 0) {
				uint64_t t = c.second[0]; uint64_t adj = r->addr;
				if (t == 0) { sel = 1; isCatch = true; r->adj = r->addr; return true; }
				bool m = false;
				if (t == r->ti) m = true;
				else if (clsKind(*this, s, r->ti) >= 0 && clsKind(*this, s, t) >= 0 && upcast(s, r->ti, r->addr, t, adj)) m = true;
				if (m) { 
					sel = (t >> 32); isCatch = true; r->adj = adj;
					if (clsKind(*this, s, r->ti) < 0) { // thrown pointer: the catch variable gets the pointer value
						auto n = P.globalName(rd(s, r->ti, 8) >> 32); if (n.find("pointer_type") != std::string::npos) r->adj = rd(s, r->addr, 8); }
					return true; }
			} else {
				bool ok = false; for (auto t : c.second) { uint64_t adj; if (t == r->ti || upcast(s, r->ti, r->addr, t, adj)) ok = true; }
				if (!ok) { sel = (uint64_t)-1; isCatch = true; return true; }
			}
		}
		return false;
	};
	auto padOf = [&](Frame& f, LPad*& lp) -> bool {
		Inst& I = f.fn->code[f.pc]; if (I.op != O_INVOKE) return false;
		Call& c = f.fn->calls[I.x]; Edge& e = f.fn->edges[c.unwind]; Inst& L = f.fn->code[e.target];
		if (L.op != O_LPAD) return false; lp = &f.fn->pads[L.x]; return true;
	};
	bool found = false; uint64_t sel = 0; bool ic = false;
	for (size_t i = s.frames.size(); i-- > 0 && !found;) { LPad* lp; if (padOf(s.frames[i], lp) && match(*lp, sel, ic)) found = true; }
	if (!found) {
		std::string n = P.globalName(r->ti >> 32); fail(s, "uncaught-exception", demangle(n)); return BR::Kill; }
	while (!s.frames.empty()) {
		Frame& f = s.frames.back(); LPad* lp; sel = 0; ic = false;
		if (padOf(f, lp) && (match(*lp, sel, ic) || lp->cleanup)) {
			if (!ic) sel = 0;
			Call& c = f.fn->calls[f.fn->code[f.pc].x];
			take(s, f, c.unwind);
			Inst& L = f.fn->code[f.pc]; Val* R = s.regs.data() + f.base;
			R[L.dst] = Val{nullptr, exc}; R[L.dst + 1] = Val{nullptr, sel & 0xffffffff};
			f.pc++;
			return BR::Done;
		}
		while (s.allocas.size() > f.allocaBase) { s.mem.set(s.allocas.back(), &FREED_HEAP); s.allocas.pop_back(); }
		s.frames.pop_back();
	}
	fail(s, "engine", "unwind"); return BR::Kill;
}

// ---------------------------------------------------------------- branching on conditions
BR Exec::assume(State& s, Val v) {
	if (!v.e) { if (v.c) return BR::Done; killed++; return BR::Kill; }
	if (v.e->vs.has(UNDEFV)) { if (!settle(s, v, 1, "assumption")) return BR::Kill; return assume(s, v); }
	E c = v.e; ModelP m; Sat r = S.mayBeTrue(s.pc, c, m);
	if (r == Sat::Unknown) { incomplete["solver gave up"]++; killed++; return BR::Kill; }
	if (r == Sat::No) { killed++; return BR::Kill; }
	S.add(s.pc, c, m);
	return BR::Done;
}
BR Exec::check_(State& s, Val v, const std::string& lab) {
	asserts++;
	if (!v.e) { if (v.c) return BR::Done; fail(s, "assert", lab); return BR::Kill; }
	if (v.e->vs.has(UNDEFV)) { asserts--; if (!settle(s, v, 1, "assert " + lab)) return BR::Kill; return check_(s, v, lab); }
	assertsSymbolic++;
	E nc = mkNot(v.e); ModelP m; Sat r = S.mayBeTrue(s.pc, nc, m, true);
	if (r == Sat::Unknown) { incomplete["solver gave up on an assertion: " + lab]++; return BR::Done; }
	if (r == Sat::No) { assertsProved++; return BR::Done; }
	fail(s, "assert", lab, m);
	ModelP m2; Sat r2 = S.mayBeTrue(s.pc, v.e, m2);
	if (r2 != Sat::Yes) return BR::Kill;
	S.add(s.pc, v.e, m2);
	return BR::Done;
}

bool Exec::symLoad(State& s, const Inst& I, Val& r, bool& retry, unsigned w) {
	uint32_t base = s.frames.back().base; Val p = s.regs[base + I.a];
	unsigned n = (w + 7) / 8; retry = false;
	E e = p.e;
	if (e->vs.has(UNDEFV)) { if (!settle(s, p, 64, "address")) return false; s.regs[base + I.a] = p; retry = true; return true; }
	uint64_t c = 0; E x = e;
	if (e->k == K::Add && e->a[1]->isC()) { c = e->a[1]->c; x = e->a[0]; }
	auto mkTable = [&](uint64_t addr0, uint64_t stride, uint64_t cnt, E idx) -> bool {
		uint32_t id = addr0 >> 32; Obj* o = s.mem.find(id);
		if (!o || o->kind == OK_FREED || cnt > 4096) return false;
		uint64_t off = (addr0 & 0xffffffff); if (off < BASE) return false; off -= BASE;
		if (off + (cnt - 1) * stride + n > o->size) return false;
		std::vector<uint64_t> t(cnt); bool symb = false;
		for (uint64_t i = 0; i < cnt; i++) { uint32_t a = off + i * stride; if (anySym(o, a, n) || !initOK(o, a, n)) { symb = true; break; } uint64_t v = 0; memcpy(&v, o->data + a, n); t[i] = v & maskw(w); }
		if (!symb) { r = mkv(mkLut(idx, t, w)); return true; }
		if (cnt > 48) return false;
		E acc = nullptr;
		for (uint64_t i = cnt; i-- > 0;) {
			uint32_t a = off + i * stride; E v = byteAt(o, a); for (unsigned k = 1; k < n; k++) v = mkConcat(byteAt(o, a + k), v); if (v->w > w) v = mkExtract(v, 0, w);
			acc = acc ? mkIte(mkEq(idx, mkConst(i, idx->w)), v, acc) : v; }
		r = mkv(acc); return true;
	};
	if (c >> 32 && x->hi <= 1u << 20) {
		if (x->k == K::ZExt && x->a[0]->hi <= 4095 && mkTable(c, 1, x->a[0]->hi + 1, x->a[0])) return true;
		E y = x; if (y->k == K::ZExt) y = y->a[0];
		if (y->k == K::Concat && y->a[1]->isC() && y->a[1]->c == 0 && y->a[1]->w < 12) { E ix = y->a[0]; if (ix->k == K::ZExt) ix = ix->a[0]; if (ix->hi <= 4095 && mkTable(c, 1ull << y->a[1]->w, ix->hi + 1, ix)) return true; }
		if (x->hi <= 4095 && mkTable(c, 1, x->hi + 1, x)) return true;
	}
	if (e->sv >= 0) {
		// one input byte decides the address
		auto& t = table(e); B256 d = s.pc.domain(e->sv);
		uint32_t id = 0; bool ok = true, first = true;
		d.each([&](int i) { if (first) { id = t[i] >> 32; first = false; } else if ((t[i] >> 32) != id) ok = false; });
		Obj* o = ok ? s.mem.find(id) : nullptr;
		if (o && o->kind != OK_FREED) {
			std::vector<uint64_t> tb(256, 0);
			d.each([&](int i) { if (!ok) return; uint64_t off = (t[i] & 0xffffffff) - BASE; if ((t[i] & 0xffffffff) < BASE || off + n > o->size || anySym(o, off, n) || !initOK(o, off, n)) { ok = false; return; } uint64_t v = 0; memcpy(&v, o->data + off, n); tb[i] = v & maskw(w); });
			if (ok) { uint64_t fv = tb[d.first()]; for (int i = 0; i < 256; i++) if (!d.has(i)) tb[i] = fv; r = mkv(mkLut(mkVar(e->sv), tb, w)); return true; }
		}
	}
	if (!conc(s, I.a, 64, p, retry)) return false;
	retry = true; return true;
}

// ---------------------------------------------------------------- the interpreter
static double d64(uint64_t c) { double d; memcpy(&d, &c, 8); return d; }
static uint64_t u64(double d) { uint64_t c; memcpy(&c, &d, 8); return c; }
static float f32(uint64_t c) { uint32_t x = c; float f; memcpy(&f, &x, 4); return f; }
static uint64_t u32(float f) { uint32_t x; memcpy(&x, &f, 4); return x; }
static double toD(uint64_t c, unsigned w) { return w == 32 ? f32(c) : d64(c); }
static uint64_t frD(double d, unsigned w) { return w == 32 ? u32((float)d) : u64(d); }

BR Exec::step(State& s) {
	uint64_t budget = 200000;
	Frame* f = &s.frames.back(); Val* R = s.regs.data() + f->base; const Val* C = P.consts.data();
	#define RELOAD() do { if (s.frames.empty()) return BR::Yield; f = &s.frames.back(); R = s.regs.data() + f->base; C = P.consts.data(); } while (0)
	#define OPN(x) ((x) >= 0 ? R[x] : C[~(x)])
	size_t forked = out->size();
	while (budget--) {
		if (yieldOnFork && out->size() != forked) return BR::Yield;
		Inst& I = f->fn->code[f->pc];
		s.instrs++; instrs++;
		switch (I.op) {
		case O_BIN: {
			Val a = OPN(I.a), b = OPN(I.b); K k = (K)I.flag;
			if (!a.e && !b.e) {
				if ((k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem) && b.c == 0) { fail(s, "division-by-zero", ""); return BR::Kill; }
				uint64_t M = maskw(I.w), r;
				switch (k) { case K::Add: r = (a.c + b.c) & M; break; case K::Sub: r = (a.c - b.c) & M; break; case K::And: r = a.c & b.c; break; case K::Or: r = a.c | b.c; break; case K::Xor: r = a.c ^ b.c; break; case K::Mul: r = (a.c * b.c) & M; break; default: r = foldBin(k, a.c, b.c, I.w); }
				R[I.dst] = Val{nullptr, r}; f->pc++; break;
			}
			if (k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem) {
				if (b.e) { ModelP m; E z = mkEq(b.e, mkConst(0, I.w)); if (!z->isC() || z->c) { Sat r = S.mayBeTrue(s.pc, z, m); if (r == Sat::Yes) { fail(s, "division-by-zero", "", m); ModelP m2; E nz = mkNot(z); if (S.mayBeTrue(s.pc, nz, m2) != Sat::Yes) return BR::Kill; S.add(s.pc, nz, m2); } } }
				else if (!b.c) { fail(s, "division-by-zero", ""); return BR::Kill; }
			}
			R[I.dst] = mkv(mkBin(k, ex(a, I.w), ex(b, I.w))); f->pc++; break; }
		case O_ICMP: {
			Val a = OPN(I.a), b = OPN(I.b); unsigned w = I.w2;
			if (!a.e && !b.e) {
				bool r;
				switch (I.flag) { case P_EQ: r = a.c == b.c; break; case P_NE: r = a.c != b.c; break; case P_UGT: r = a.c > b.c; break; case P_UGE: r = a.c >= b.c; break; case P_ULT: r = a.c < b.c; break; case P_ULE: r = a.c <= b.c; break;
					case P_SGT: r = sx(a.c, w) > sx(b.c, w); break; case P_SGE: r = sx(a.c, w) >= sx(b.c, w); break; case P_SLT: r = sx(a.c, w) < sx(b.c, w); break; default: r = sx(a.c, w) <= sx(b.c, w); }
				R[I.dst] = Val{nullptr, r}; f->pc++; break;
			}
			E x = ex(a, w), y = ex(b, w), r;
			switch (I.flag) { case P_EQ: r = mkEq(x, y); break; case P_NE: r = mkNot(mkEq(x, y)); break; case P_UGT: r = mkBin(K::Ult, y, x); break; case P_UGE: r = mkNot(mkBin(K::Ult, x, y)); break; case P_ULT: r = mkBin(K::Ult, x, y); break; case P_ULE: r = mkNot(mkBin(K::Ult, y, x)); break;
				case P_SGT: r = mkBin(K::Slt, y, x); break; case P_SGE: r = mkNot(mkBin(K::Slt, x, y)); break; case P_SLT: r = mkBin(K::Slt, x, y); break; default: r = mkNot(mkBin(K::Slt, y, x)); }
			R[I.dst] = mkv(r); f->pc++; break; }
		case O_LOAD: {
			if (I.x != ~0u) {
				Val p = OPN(I.a); bool rt; if (p.e) { if (!conc(s, I.a, 64, p, rt)) return BR::Kill; RELOAD(); }
				auto& m = f->fn->accs[I.x]; unsigned k = 0;
				for (auto& l : m.leaves) { if (l.w == 255) { fail(s, "engine", "wide load"); return BR::Kill; } Val v; if (!load(s, p.c + l.off, (l.w + 7) / 8, v, l.w)) return BR::Kill; R[I.dst + k++] = v; }
				f->pc++; break;
			}
			Val p = OPN(I.a);
			if (p.e) { Val r; bool rt; if (!symLoad(s, I, r, rt, I.w)) return BR::Kill; RELOAD(); if (rt) break; R[I.dst] = r; f->pc++; break; }
			if (I.w == 255) { fail(s, "engine", "wide load"); return BR::Kill; }
			{ // fast path
				uint32_t id = p.c >> 32; unsigned n = (I.w + 7) >> 3; uint64_t off = (p.c & 0xffffffff) - BASE; Obj* o = id ? s.mem.find(id) : nullptr;
				if (o && !o->pages && off < o->size && off + n <= o->size && initOK(o, off, n)) { uint64_t x = 0; memcpy(&x, o->data + off, n); R[I.dst] = Val{nullptr, x & maskw(I.w)}; f->pc++; break; } }
			Val v; if (!load(s, p.c, (I.w + 7) / 8, v, I.w)) return BR::Kill;
			R[I.dst] = v; f->pc++; break; }
		case O_STORE: {
			Val p = OPN(I.b);
			if (p.e) { bool rt; if (!conc(s, I.b, 64, p, rt)) return BR::Kill; RELOAD(); }
			if (I.x != ~0u) { auto& m = f->fn->accs[I.x]; unsigned k = 0; for (auto& l : m.leaves) { if (!store(s, p.c + l.off, (l.w + 7) / 8, R[I.a + k++], l.w)) return BR::Kill; } f->pc++; break; }
			if (I.w == 255) { fail(s, "engine", "wide store"); return BR::Kill; }
			if (!store(s, p.c, (I.w + 7) / 8, OPN(I.a), I.w)) return BR::Kill;
			f->pc++; break; }
		case O_GEP: {
			Val p = OPN(I.a); Gep& g = f->fn->geps[I.x]; uint64_t off = g.off; E se = nullptr;
			for (auto& ix : g.idx) { Val v = OPN(ix.op); if (!v.e) off += sx(v.c, ix.w) * ix.scale; else { E e = v.e; if (ix.w < 64) e = mkSExt(e, 64); e = mkBin(K::Mul, e, mkConst(ix.scale, 64)); se = se ? mkBin(K::Add, se, e) : e; } }
			if (!p.e && !se) { R[I.dst] = Val{nullptr, p.c + off}; f->pc++; break; }
			E e = p.e ? mkBin(K::Add, p.e, mkConst(off, 64)) : nullptr;
			if (se) e = e ? mkBin(K::Add, e, se) : mkBin(K::Add, se, mkConst(p.c + off, 64));
			R[I.dst] = mkv(e); f->pc++; break; }
		case O_BR: take(s, *f, I.x); break;
		case O_CBR: {
			Val c = OPN(I.a);
			if (!c.e) { take(s, *f, c.c ? I.x : I.c); break; }
			if (c.e->vs.has(UNDEFV)) { if (!settle(s, c, 1, "branch")) return BR::Kill; if (!c.e) { take(s, *f, c.c ? I.x : I.c); break; } }
			E e = c.e, ne = mkNot(e); ModelP m1, m0; Sat s1 = S.mayBeTrue(s.pc, e, m1), s0 = S.mayBeTrue(s.pc, ne, m0);
			if (s1 == Sat::Unknown || s0 == Sat::Unknown) { incomplete["solver gave up"]++; }
			if (s1 == Sat::Yes && s0 == Sat::Yes) {
				State* n = clone(s); S.add(n->pc, ne, m0); take(*n, n->frames.back(), I.c); out->push_back(n);
				S.add(s.pc, e, m1); take(s, *f, I.x);
			} else if (s1 == Sat::Yes) { if (s0 == Sat::Unknown) S.add(s.pc, e, m1); take(s, *f, I.x); }
			else if (s0 == Sat::Yes) { if (s1 == Sat::Unknown) S.add(s.pc, ne, m0); take(s, *f, I.c); }
			else { killed++; incomplete["both sides undecided"]++; return BR::Kill; }
			break; }
		case O_SWITCH: {
			Val v = OPN(I.a); Switch& sw = f->fn->switches[I.x];
			if (!v.e) { uint32_t e = sw.def; for (auto& c : sw.cases) if (c.first == v.c) { e = c.second; break; } take(s, *f, e); break; }
			if (v.e->vs.has(UNDEFV)) { if (!settle(s, v, I.w2, "switch")) return BR::Kill; if (!v.e) { uint32_t e = sw.def; for (auto& c : sw.cases) if (c.first == v.c) { e = c.second; break; } take(s, *f, e); break; } }
			std::map<uint32_t, E> by; E any = nullptr;
			for (auto& c : sw.cases) { E q = mkEq(v.e, mkConst(c.first, I.w2)); if (c.second == sw.def) continue; auto& x = by[c.second]; x = x ? mkBin(K::Or, x, q) : q; any = any ? mkBin(K::Or, any, q) : q; }
			std::vector<std::pair<uint32_t, E>> opts(by.begin(), by.end()); opts.push_back({sw.def, any ? mkNot(any) : mkConst(1, 1)});
			std::vector<std::tuple<uint32_t, E, ModelP>> ok;
			for (auto& o : opts) { ModelP m; Sat r = S.mayBeTrue(s.pc, o.second, m); if (r == Sat::Unknown) incomplete["solver gave up"]++; if (r == Sat::Yes) ok.push_back({o.first, o.second, m}); }
			if (ok.empty()) { killed++; return BR::Kill; }
			for (size_t i = 1; i < ok.size(); i++) { State* n = clone(s); S.add(n->pc, std::get<1>(ok[i]), std::get<2>(ok[i])); take(*n, n->frames.back(), std::get<0>(ok[i])); out->push_back(n); }
			if (ok.size() > 1) S.add(s.pc, std::get<1>(ok[0]), std::get<2>(ok[0]));
			take(s, *f, std::get<0>(ok[0]));
			break; }
		case O_CALL: case O_INVOKE: {
			Call& c = f->fn->calls[I.x];
			BR r = c.intrin ? intrinsic(s, I, c) : call(s, I, c);
			if (r == BR::Kill) return r;
			if (r == BR::Done) { RELOAD(); if (I.op == O_INVOKE) take(s, *f, c.normal); else f->pc++; }
			RELOAD();
			break; }
		case O_RET: {
			Val rv[8]; for (int k = 0; k < I.c && k < 8; k++) rv[k] = OPN(I.a + (I.a >= 0 ? k : 0));
			int nr = I.c;
			while (s.allocas.size() > f->allocaBase) { s.mem.set(s.allocas.back(), &FREED_HEAP); s.allocas.pop_back(); }
			s.frames.pop_back();
			if (s.frames.empty()) return BR::Yield;
			RELOAD();
			Inst& CI = f->fn->code[f->pc]; Call& c = f->fn->calls[CI.x];
			for (int k = 0; k < nr && k < (int)c.nret; k++) R[CI.dst + k] = rv[k];
			if (CI.op == O_INVOKE) take(s, *f, c.normal); else f->pc++;
			break; }
		case O_SELECT: {
			Val c = OPN(I.a);
			if (!c.e) { R[I.dst] = c.c ? OPN(I.b) : OPN(I.c); f->pc++; break; }
			Val a = OPN(I.b), b = OPN(I.c);
			R[I.dst] = mkv(mkIte(c.e, ex(a, I.w), ex(b, I.w))); f->pc++; break; }
		case O_ZEXT: { Val a = OPN(I.a); R[I.dst] = a.e ? mkv(mkZExt(a.e, I.w)) : a; f->pc++; break; }
		case O_SEXT: { Val a = OPN(I.a); R[I.dst] = a.e ? mkv(mkSExt(a.e, I.w)) : Val{nullptr, (uint64_t)sx(a.c, I.w2) & maskw(I.w)}; f->pc++; break; }
		case O_TRUNC: { Val a = OPN(I.a); R[I.dst] = a.e ? mkv(mkExtract(a.e, 0, I.w)) : Val{nullptr, a.c & maskw(I.w)}; f->pc++; break; }
		case O_MOV: R[I.dst] = OPN(I.a); f->pc++; break;
		case O_MOVN: for (int k = 0; k < I.c; k++) R[I.dst + k] = OPN(I.a + (I.a >= 0 ? k : 0)); f->pc++; break;
		case O_ALLOCA: { Val n = OPN(I.a); if (n.e) { bool rt; if (!conc(s, I.a, 64, n, rt)) return BR::Kill; RELOAD(); } uint64_t sz = n.c * I.x; if (sz > maxAlloc) { fail(s, "stack-overflow", ""); return BR::Kill; }
			uint32_t id = alloc(s, sz, OK_STACK, false); s.allocas.push_back(id); R[I.dst] = Val{nullptr, mkAddr(id)}; f->pc++; break; }
		case O_RESUME: { Val a = OPN(I.a); // pop this frame, continue
			while (s.allocas.size() > f->allocaBase) { s.mem.set(s.allocas.back(), &FREED_HEAP); s.allocas.pop_back(); }
			s.frames.pop_back(); if (s.frames.empty()) { fail(s, "uncaught-exception", ""); return BR::Kill; }
			BR r = unwind(s, a.c); if (r == BR::Kill) return r; RELOAD(); break; }
		case O_LPAD: fail(s, "engine", "fell into landing pad"); return BR::Kill;
		case O_FENCE: f->pc++; break;
		case O_UNREACH: fail(s, "unreachable", "undefined behaviour reached"); return BR::Kill;
		case O_ARMW: {
			Val p = OPN(I.a), v = OPN(I.b), o; if (p.e) { bool rt; if (!conc(s, I.a, 64, p, rt)) return BR::Kill; RELOAD(); }
			unsigned n = (I.w + 7) / 8; if (!load(s, p.c, n, o, I.w)) return BR::Kill;
			E a = ex(o, I.w), b = ex(v, I.w), r = nullptr;
			switch (I.flag) { case 0: r = b; break; case 1: r = mkBin(K::Add, a, b); break; case 2: r = mkBin(K::Sub, a, b); break; case 3: r = mkBin(K::And, a, b); break; case 5: r = mkBin(K::Or, a, b); break; case 6: r = mkBin(K::Xor, a, b); break; default: fail(s, "engine", "atomicrmw"); return BR::Kill; }
			if (!store(s, p.c, n, mkv(r), I.w)) return BR::Kill;
			R[I.dst] = o; f->pc++; break; }
		case O_CMPXCHG: {
			Val p = OPN(I.a), cv = OPN(I.b), nv = OPN(I.c), o; if (p.e) { bool rt; if (!conc(s, I.a, 64, p, rt)) return BR::Kill; RELOAD(); }
			unsigned n = (I.w + 7) / 8; if (!load(s, p.c, n, o, I.w)) return BR::Kill;
			E q = mkEq(ex(o, I.w), ex(cv, I.w)); E r = mkIte(q, ex(nv, I.w), ex(o, I.w));
			if (!store(s, p.c, n, mkv(r), I.w)) return BR::Kill;
			R[I.dst] = o; R[I.dst + 1] = mkv(q); f->pc++; break; }
		case O_FBIN: {
			Val a = OPN(I.a), b = OPN(I.b); bool rt; if (a.e) { if (!conc(s, I.a, I.w, a, rt)) return BR::Kill; RELOAD(); break; } if (b.e) { if (!conc(s, I.b, I.w, b, rt)) return BR::Kill; RELOAD(); break; }
			double x = toD(a.c, I.w), y = toD(b.c, I.w), r; switch (I.flag) { case 0: r = I.w == 32 ? (float)x + (float)y : x + y; break; case 1: r = x - y; break; case 2: r = I.w == 32 ? (float)x * (float)y : x * y; break; case 3: r = I.w == 32 ? (float)x / (float)y : x / y; break; default: r = -x; }
			R[I.dst] = Val{nullptr, frD(r, I.w)}; f->pc++; break; }
		case O_FCMP: {
			Val a = OPN(I.a), b = OPN(I.b); bool rt; if (a.e) { if (!conc(s, I.a, I.w2, a, rt)) return BR::Kill; RELOAD(); break; } if (b.e) { if (!conc(s, I.b, I.w2, b, rt)) return BR::Kill; RELOAD(); break; }
			double x = toD(a.c, I.w2), y = toD(b.c, I.w2); bool un = std::isnan(x) || std::isnan(y); int p = I.flag; // LLVM: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
			bool r = ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y) || ((p & 8) && un);
			R[I.dst] = Val{nullptr, r}; f->pc++; break; }
		case O_FCAST: {
			Val a = OPN(I.a); bool rt; if (a.e) { if (!conc(s, I.a, I.w2, a, rt)) return BR::Kill; RELOAD(); break; }
			uint64_t r; switch (I.flag) { case 0: r = frD((double)sx(a.c, I.w2), I.w); break; case 1: r = frD((double)a.c, I.w); break; case 2: r = (uint64_t)(int64_t)toD(a.c, I.w2) & maskw(I.w); break; case 3: r = (uint64_t)toD(a.c, I.w2) & maskw(I.w); break; default: r = frD(toD(a.c, I.w2), I.w); }
			R[I.dst] = Val{nullptr, r}; f->pc++; break; }
		default: fail(s, "engine", "unsupported instruction in " + f->fn->name); return BR::Kill;
		}
		if (s.instrs > maxInstr) { fail(s, "hang", "instruction budget exhausted"); incomplete["instruction budget"]++; return BR::Kill; }
	}
	return BR::Done;
}

BR Exec::call(State& s, const Inst& I, Call& c) {
	Fn* fn = c.direct; uint32_t base = s.frames.back().base;
	if (!fn) {
		Val v = c.callee >= 0 ? s.regs[base + c.callee] : P.consts[~c.callee];
		if (v.e) { bool rt; if (!conc(s, c.callee, 64, v, rt)) return BR::Kill; return BR::Retry; }
		fn = P.fnAt(v.c);
		if (!fn) { fail(s, v.c >> 32 ? "bad-call" : "null-call", ""); return BR::Kill; }
	}
	if (fn->builtin) { BR r = fn->builtin(*this, s, c); return r; }
	if (fn->decl) { fail(s, "engine", "no model for external function " + fn->name); return BR::Kill; }
	if (s.frames.size() > maxDepth) { fail(s, "stack-overflow", "recursion deeper than " + std::to_string(maxDepth)); return BR::Kill; }
	if (!fn->decoded) P.decode(fn);
	fn->seen = true;
	Frame fr; fr.fn = fn; fr.pc = 0; fr.base = base + s.frames.back().fn->nregs; fr.allocaBase = s.allocas.size();
	if (s.regs.size() < fr.base + fn->nregs) s.regs.resize(fr.base + fn->nregs + 256, Val{nullptr, 0});
	Val* N = s.regs.data() + fr.base; Val* R = s.regs.data() + base;
	size_t na = std::min<size_t>(c.args.size(), fn->nargs);
	for (size_t i = 0; i < na; i++) {
		Val v = c.args[i] >= 0 ? R[c.args[i]] : P.consts[~c.args[i]];
		if (c.byval[i]) { uint32_t id = alloc(s, c.byval[i], OK_STACK, false); s.allocas.push_back(id); if (v.e) { fail(s, "engine", "symbolic byval"); return BR::Kill; } if (!copy(s, mkAddr(id), v.c, c.byval[i])) return BR::Kill; v = Val{nullptr, mkAddr(id)}; }
		N[i] = v;
	}
	(void)I;
	s.frames.push_back(fr);
	return BR::Pushed;
}

void Exec::finish(State& s) {
	paths++;
	for (size_t i = 0; i < s.reach.size(); i++) if (s.reach[i]) reachCount[labels[i]]++;
	sampleSeen++;
	rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	size_t slot = samples.size() < maxSamples ? samples.size() : rng % sampleSeen < maxSamples ? rng % maxSamples : (size_t)-1;
	if (slot == (size_t)-1) return;
	// any assignment of the bytes no joint constraint mentions is as good as the model's
	Model m = *s.pc.model;
	for (int v = 0; v < s.nvars; v++) if (!s.pc.multiVars.has(v)) {
		rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
		std::vector<int> d; s.pc.domain(v).each([&](int i) { d.push_back(i); });
		if (!d.empty()) m.b[v] = (uint8_t)d[(rng >> 20) % d.size()];
	}
	Sample sm{inputOf(s, m), obsOf(s, m)};
	if (slot == samples.size()) samples.push_back(sm); else samples[slot] = sm;
}
void Exec::run(State* s) {
	size_t n0 = out->size();
	if ((++runs & 31) == 0 && now() > deadline) { timedOut = true; incomplete["time limit"]++; delete s; return; }
	while (true) {
		BR r = step(*s);
		if (r == BR::Kill) { delete s; return; }
		if (s->frames.empty()) { finish(*s); delete s; return; }
		if (yieldOnFork && out->size() != n0) { out->push_back(s); return; }
		if (now() > deadline) { timedOut = true; incomplete["time limit"]++; delete s; return; }
	}
}

State* Exec::initial(const std::string& entry) {
	install();
	auto s = new State; s->pc.model = std::make_shared<Model>();
	s->mem.next = 2;
	for (auto& g : P.globals) { Obj* o = newObj(g.size, OK_GLOBAL, true); memcpy(o->data, g.data.data(), g.size); o->ro = g.ro; uint32_t id = s->mem.add(o); if (id != g.objId) abort(); g.data.clear(); g.data.shrink_to_fit(); }
	std::vector<State*> tmp; out = &tmp; deadline = now() + 300;
	auto runFn = [&](Fn* f) -> bool {
		push(*s, f, {});
		while (!s->frames.empty()) { BR r = step(*s); if (r == BR::Kill) return false; }
		s->instrs = 0; s->forks = 0;
		return true;
	};
	for (auto& c : P.ctors) if (!runFn(c.second)) { fprintf(stderr, "vsym: static initialiser failed\n"); return nullptr; }
	if (!tmp.empty()) { fprintf(stderr, "vsym: fork in static initialiser\n"); return nullptr; }
	auto it = P.byName.find(entry);
	if (it == P.byName.end()) { fprintf(stderr, "vsym: no entry %s\n", entry.c_str()); return nullptr; }
	instrs = 0;
	push(*s, it->second, {});
	return s;
}
}
