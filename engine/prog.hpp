// The decoded program: LLVM IR lowered to a compact register form. Everything here is derived
// from the bitcode that the current sources compile to.
#pragma once
#include "expr.hpp"
#include <map>
#include <unordered_map>

namespace vs {

struct Val { E e; uint64_t c; };

enum Op : uint8_t { O_BIN, O_ICMP, O_LOAD, O_STORE, O_GEP, O_BR, O_CBR, O_SWITCH, O_CALL, O_INVOKE, O_RET, O_SELECT,
	O_ZEXT, O_SEXT, O_TRUNC, O_MOV, O_MOVN, O_INSERT, O_ALLOCA, O_RESUME, O_LPAD, O_UNREACH, O_ARMW, O_CMPXCHG,
	O_FBIN, O_FCMP, O_FCAST, O_UNSUP, O_FENCE };

enum Pred : uint8_t { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };

struct Inst { uint8_t op, w, w2, flag; int32_t dst, a, b, c; uint32_t x; uint32_t line; };

struct Leaf { uint8_t w; uint8_t isFP; uint32_t off; };       // flattened member of a first-class value
struct Edge { uint32_t target; std::vector<std::pair<int32_t, int32_t>> copies; };
struct GepIdx { int32_t op; uint8_t w; int64_t scale; };
struct Gep { int64_t off; std::vector<GepIdx> idx; };
struct Switch { std::vector<std::pair<uint64_t, uint32_t>> cases; uint32_t def; };
struct Fn;
struct Call {
	Fn* direct = nullptr; int32_t callee = 0; int intrin = 0; std::string iname;
	std::vector<int32_t> args; std::vector<uint8_t> widths; std::vector<uint32_t> byval; // byval size per arg, 0 none
	uint32_t nret = 0; std::vector<uint8_t> retw; uint32_t normal = 0, unwind = 0; bool invoke = false;
};
struct LPad { bool cleanup; std::vector<std::pair<int, std::vector<uint64_t>>> clauses; /* 0 catch, 1 filter */ };
struct MemAcc { std::vector<Leaf> leaves; };

struct State;
struct Exec;
enum class BR { Done, Retry, Kill, Pushed, Threw, Yield };
typedef BR (*Builtin)(Exec&, State&, const Call&);

struct Fn {
	std::string name; void* llvm = nullptr; bool decl = false, decoded = false, seen = false, vararg = false;
	uint32_t id = 0, nregs = 0, nargs = 0;
	std::vector<Inst> code; std::vector<Edge> edges; std::vector<Gep> geps; std::vector<Switch> switches;
	std::vector<Call> calls; std::vector<LPad> pads; std::vector<MemAcc> accs;
	Builtin builtin = nullptr;
};

struct GInit { uint64_t off; std::vector<uint8_t> bytes; };
struct Global { std::string name; uint32_t size; bool ro; bool external; std::vector<uint8_t> data; std::vector<uint8_t> undef; uint32_t objId; bool tls; };

static const uint64_t BASE = 0x10000000ull;
inline uint64_t mkAddr(uint32_t id, uint64_t off = 0) { return ((uint64_t)id << 32) + BASE + off; }

struct Program {
	std::vector<Fn*> fns;
	std::unordered_map<std::string, Fn*> byName;
	std::vector<Global> globals;                   // objId = index + 2
	std::unordered_map<std::string, uint32_t> gByName;
	std::vector<Val> consts;
	std::vector<std::pair<int, Fn*>> ctors;
	void load(const std::string& path);
	void decode(Fn* f);
	int32_t constVal(uint64_t c);
	std::unordered_map<uint64_t, int32_t> constIx;
	Fn* fnAt(uint64_t addr) { if ((addr >> 32) != 1) return nullptr; uint64_t o = (addr & 0xffffffff) - BASE; if (o % 16 || o / 16 >= fns.size()) return nullptr; return fns[o / 16]; }
	std::string globalName(uint32_t objId) { return objId >= 2 && objId - 2 < globals.size() ? globals[objId - 2].name : ""; }
};
inline uint64_t fnAddr(const Fn* f) { return mkAddr(1, (uint64_t)f->id * 16); }
}
