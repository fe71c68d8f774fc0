#pragma once
#include "prog.hpp"
#include "solver.hpp"
#include <set>
#include <string>
#include <vector>
#include <map>

namespace vs {

static const int UNDEFV = MAXV - 1;   // stands for bytes that were never written

enum ObjKind : uint8_t { OK_GLOBAL, OK_MALLOC, OK_NEW, OK_NEWA, OK_STACK, OK_EXC, OK_FREED };
struct Obj {
	uint32_t rc, size; uint8_t kind, ro; uint16_t pad; uint32_t npages;
	uint64_t* init;   // null: every byte written
	E** pages;        // null: no symbolic byte
	uint8_t* data;
};
extern Obj FREED_HEAP;
struct Page { uint32_t rc; Obj* o[256]; };
struct Mem {
	std::vector<Page*> top; uint32_t next = 1;
	Mem() {}
	Mem(const Mem& m) : top(m.top), next(m.next) { for (auto p : top) if (p) p->rc++; }
	Mem& operator=(const Mem&) = delete;
	~Mem();
	Obj* find(uint32_t id) const { uint32_t t = id >> 8; if (t >= top.size() || !top[t]) return nullptr; return top[t]->o[id & 255]; }
	Obj* own(uint32_t id);
	uint32_t add(Obj* o);
	void set(uint32_t id, Obj* o);
};

struct Frame { Fn* fn; uint32_t pc, base, allocaBase; };
struct ExcRec { uint64_t addr, ti, dtor, adj; int handlers; int refs = 0; bool flying = false; };
struct InItem { int var; uint32_t choice; uint8_t n; };   // var>=0: one symbolic byte; else a choice of n bytes
struct Obs { int label; std::vector<E> bytes; };

struct State {
	std::vector<Val> regs; std::vector<Frame> frames; std::vector<uint32_t> allocas;
	Mem mem; PathCond pc; int nvars = 0;
	std::vector<InItem> input; std::vector<std::shared_ptr<Obs>> obs; std::vector<bool> reach;
	std::vector<ExcRec> excs; std::vector<uint64_t> caught; uint64_t thrown = 0;
	uint64_t instrs = 0; uint32_t forks = 0; uint64_t liveHeap = 0;
	int counter = 0; int known = -1;
};

struct Error { std::string kind, label, where, stack, input; uint64_t count; std::string obs; };
struct Sample { std::string input, obs; };

struct Exec {
	Program P; Solver S;
	std::map<std::string, long long> params;
	// limits
	uint64_t maxInstr = 20000000; double maxTime = 600; uint32_t maxDepth = 1500; size_t maxValues = 300; uint64_t maxAlloc = 64ull << 20; int maxErrors = 8;
	bool checkUninit = true;
	// results
	uint64_t paths = 0, killed = 0, errPaths = 0, forks = 0, instrs = 0, asserts = 0, assertsSymbolic = 0, assertsProved = 0;
	std::map<std::string, Error> errors; std::map<std::string, uint64_t> incomplete; std::map<std::string, uint64_t> reachCount;
	std::vector<Sample> samples; uint64_t sampleSeen = 0; size_t maxSamples = 4; uint64_t rng = 88172645463325252ull;
	std::vector<std::string> labels; std::map<std::string, int> labelIx;
	std::vector<State*>* out = nullptr; bool yieldOnFork = false;
	double deadline = 0; uint64_t runs = 0; bool timedOut = false;

	State* initial(const std::string& entry);
	// Runs s until it ends (deletes it) or, with yieldOnFork, until its first fork (then pushes it to out).
	void run(State* s);
	int label(const std::string& s);

	// used by builtins
	void fail(State& s, const std::string& kind, const std::string& label, ModelP m = nullptr);
	bool settle(State& s, Val& v, unsigned w, const std::string& what);
	bool conc(State& s, int32_t operand, unsigned w, Val& v, bool& retry);
	bool load(State& s, uint64_t addr, unsigned bytes, Val& v, unsigned w);
	bool store(State& s, uint64_t addr, unsigned bytes, Val v, unsigned w);
	Obj* check(State& s, uint64_t addr, uint64_t n, uint32_t& off, bool write);
	E byteAt(Obj* o, uint32_t off);
	void setByte(Obj* o, uint32_t off, E e);
	bool cstr(State& s, uint64_t addr, std::string& out);
	uint64_t rd(State& s, uint64_t addr, int n);
	uint32_t alloc(State& s, uint64_t size, ObjKind k, bool init);
	bool copy(State& s, uint64_t d, uint64_t src, uint64_t n);
	State* clone(State& s);
	BR unwind(State& s, uint64_t exc);
	bool upcast(State& s, uint64_t ti, uint64_t ptr, uint64_t target, uint64_t& out, int d = 0);
	void subobjects(State& s, uint64_t ti, uint64_t ptr, uint64_t target, std::vector<uint64_t>& out, int d = 0);
	void push(State& s, Fn* f, const std::vector<Val>& args, const Call* c = nullptr);
	BR assume(State& s, Val v);
	BR check_(State& s, Val v, const std::string& label);
	std::string inputOf(State& s, const Model& m);
	std::string obsOf(State& s, const Model& m);
	std::string where(State& s, std::string* stack = nullptr);
	void finish(State& s);
	void install();
private:
	BR step(State& s);
	BR call(State& s, const Inst& I, Call& c);
	BR intrinsic(State& s, const Inst& I, const Call& c);
	void take(State& s, Frame& f, uint32_t edge);
	bool symLoad(State& s, const Inst& I, Val& r, bool& retry, unsigned w);
};

inline Val mkv(E e) { return e->isC() ? Val{nullptr, e->c} : Val{e, 0}; }
inline E ex(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
double now();
}
