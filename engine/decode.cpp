#include "prog.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

using namespace llvm;
namespace vs {
static LLVMContext* ctx; static Module* mod; static const DataLayout* DL;
static DenseMap<const Function*, Fn*> fnOf;
static DenseMap<const GlobalVariable*, uint32_t> gvOf;

static void die(const std::string& m) { fprintf(stderr, "vsym: decode: %s\n", m.c_str()); exit(3); }

static void flatten(Type* t, uint64_t off, std::vector<Leaf>& out) {
	if (auto s = dyn_cast<StructType>(t)) { auto l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatten(s->getElementType(i), off + l->getElementOffset(i), out); return; }
	if (auto a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) flatten(a->getElementType(), off + i * es, out); return; }
	if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); out.push_back({(uint8_t)(w > 64 ? 255 : w), 0, (uint32_t)off}); return; }
	if (t->isPointerTy()) { out.push_back({64, 0, (uint32_t)off}); return; }
	if (t->isDoubleTy()) { out.push_back({64, 1, (uint32_t)off}); return; }
	if (t->isFloatTy()) { out.push_back({32, 1, (uint32_t)off}); return; }
	if (t->isVoidTy() || t->isTokenTy() || t->isMetadataTy()) return;
	out.push_back({255, 0, (uint32_t)off});
}
static unsigned nleaf(Type* t) { std::vector<Leaf> l; flatten(t, 0, l); return l.size(); }

int32_t Program::constVal(uint64_t c) {
	auto it = constIx.find(c); if (it != constIx.end()) return it->second;
	consts.push_back(Val{nullptr, c}); int32_t ix = -(int32_t)consts.size(); constIx[c] = ix; return ix;
}

static Program* P;
static uint64_t scalarConst(const Constant* c, bool* undef = nullptr);
static uint64_t gepOff(const GEPOperator* g) { APInt o(64, 0); if (!g->accumulateConstantOffset(*DL, o)) die("gep const"); return o.getZExtValue(); }
static uint64_t scalarConst(const Constant* c, bool* undef) {
	if (auto i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) return 0; return i->getZExtValue(); }
	if (isa<ConstantPointerNull>(c)) return 0;
	if (auto f = dyn_cast<ConstantFP>(c)) return f->getValueAPF().bitcastToAPInt().getLimitedValue();
	if (isa<UndefValue>(c)) { if (undef) *undef = true; return 0; }
	if (auto f = dyn_cast<Function>(c)) return fnAddr(fnOf[f]);
	if (auto g = dyn_cast<GlobalVariable>(c)) return mkAddr(gvOf[g]);
	if (auto a = dyn_cast<GlobalAlias>(c)) return scalarConst(a->getAliasee());
	if (auto ce = dyn_cast<ConstantExpr>(c)) {
		auto w = ce->getType()->isIntegerTy() ? ce->getType()->getIntegerBitWidth() : 64;
		switch (ce->getOpcode()) {
			case Instruction::GetElementPtr: return scalarConst(ce->getOperand(0)) + gepOff(cast<GEPOperator>(ce));
			case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr: case Instruction::PtrToInt: return scalarConst(ce->getOperand(0)) & maskw(w);
			case Instruction::Trunc: if (scalarConst(ce->getOperand(0)) & ~maskw(w)) die("truncated address constant"); return scalarConst(ce->getOperand(0)) & maskw(w);
			case Instruction::Sub: return (scalarConst(ce->getOperand(0)) - scalarConst(ce->getOperand(1))) & maskw(w);
			case Instruction::Add: return (scalarConst(ce->getOperand(0)) + scalarConst(ce->getOperand(1))) & maskw(w);
			case Instruction::ICmp: {
				uint64_t x = scalarConst(ce->getOperand(0)), y = scalarConst(ce->getOperand(1));
				switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y; case CmpInst::ICMP_UGT: return x > y; case CmpInst::ICMP_ULT: return x < y; default: break; } break; }
			case Instruction::Select: return scalarConst(ce->getOperand(0)) ? scalarConst(ce->getOperand(1)) : scalarConst(ce->getOperand(2));
		}
		std::string s; raw_string_ostream o(s); ce->print(o); die("constexpr " + s);
	}
	if (c->isNullValue()) return 0;
	std::string s; raw_string_ostream o(s); c->print(o); die("constant " + s);
	return 0;
}
static void flatConst(const Constant* c, std::vector<uint64_t>& out) {
	Type* t = c->getType();
	if (t->isAggregateType()) {
		unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
		for (unsigned i = 0; i < n; i++) { auto e = c->getAggregateElement(i); flatConst(e, out); }
		return;
	}
	out.push_back(scalarConst(c));
}
static void writeConst(const Constant* c, uint64_t off, Global& g) {
	Type* t = c->getType();
	if (isa<UndefValue>(c)) { return; }
	if (c->isNullValue() && !isa<GlobalValue>(c)) return;
	if (auto d = dyn_cast<ConstantDataSequential>(c)) { auto s = d->getRawDataValues(); memcpy(&g.data[off], s.data(), s.size()); return; }
	if (auto s = dyn_cast<StructType>(t)) { auto l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) writeConst(c->getAggregateElement(i), off + l->getElementOffset(i), g); return; }
	if (auto a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); i++) writeConst(c->getAggregateElement(i), off + i * es, g); return; }
	if (auto ci = dyn_cast<ConstantInt>(c)) if (ci->getBitWidth() > 64) { auto v = ci->getValue(); memcpy(&g.data[off], v.getRawData(), (ci->getBitWidth() + 7) / 8); return; }
	uint64_t v = scalarConst(c);
	memcpy(&g.data[off], &v, DL->getTypeStoreSize(t));
}

void Program::load(const std::string& path) {
	P = this; ctx = new LLVMContext; SMDiagnostic err;
	mod = parseIRFile(path, err, *ctx).release();
	if (!mod) die("cannot read " + path + ": " + err.getMessage().str());
	DL = &mod->getDataLayout();
	for (auto& f : *mod) {
		auto n = new Fn; n->name = f.getName().str(); n->llvm = &f; n->decl = f.isDeclaration(); n->id = fns.size(); n->vararg = f.isVarArg();
		fns.push_back(n); fnOf[&f] = n; byName[n->name] = n;
	}
	for (auto& g : mod->globals()) {
		if (g.getName().starts_with("llvm.")) continue;
		gvOf[&g] = globals.size() + 2;
		Global x; x.name = g.getName().str(); x.size = g.isDeclaration() ? 256 : DL->getTypeAllocSize(g.getValueType()); x.ro = g.isConstant(); x.external = g.isDeclaration(); x.objId = globals.size() + 2; x.tls = g.isThreadLocal();
		x.data.assign(x.size, 0); gByName[x.name] = globals.size(); globals.push_back(std::move(x));
	}
	for (auto& a : mod->aliases()) { if (auto f = dyn_cast<Function>(a.getAliasee()->stripPointerCasts())) byName[a.getName().str()] = fnOf[f]; }
	for (auto& g : mod->globals()) if (g.hasInitializer() && gvOf.count(&g)) writeConst(g.getInitializer(), 0, globals[gvOf[&g] - 2]);
	if (auto gc = mod->getGlobalVariable("llvm.global_ctors")) if (auto arr = dyn_cast<ConstantArray>(gc->getInitializer()))
		for (unsigned i = 0; i < arr->getNumOperands(); i++) {
			auto st = cast<ConstantStruct>(arr->getOperand(i));
			ctors.push_back({(int)cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fnOf[cast<Function>(st->getOperand(1)->stripPointerCasts())]});
		}
	std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
}

void Program::decode(Fn* fn) {
	fn->decoded = true;
	auto F = (Function*)fn->llvm;
	DenseMap<const Value*, int32_t> slot;
	uint32_t n = 0;
	for (auto& a : F->args()) { slot[&a] = n; n += std::max(1u, nleaf(a.getType())); }
	fn->nargs = n;
	for (auto& b : *F) for (auto& i : b) if (!i.getType()->isVoidTy()) { slot[&i] = n; n += std::max(1u, nleaf(i.getType())); }
	fn->nregs = n;
	// leaf k of value v
	auto opnd = [&](const Value* v, unsigned k = 0) -> int32_t {
		auto it = slot.find(v); if (it != slot.end()) return it->second + k;
		if (auto c = dyn_cast<Constant>(v)) {
			if (c->getType()->isAggregateType()) { std::vector<uint64_t> f; flatConst(c, f); return constVal(f[k]); }
			return constVal(scalarConst(c));
		}
		if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return constVal(0);
		die("operand"); return 0;
	};
	DenseMap<const BasicBlock*, uint32_t> start;
	struct Fix { uint32_t edge; const BasicBlock* bb; }; std::vector<Fix> fixes;
	auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> uint32_t {
		Edge e; e.target = 0;
		for (auto& phi : to->phis()) {
			auto v = phi.getIncomingValueForBlock(from);
			unsigned k = std::max(1u, nleaf(phi.getType()));
			for (unsigned j = 0; j < k; j++) { int32_t s = opnd(v, j), d = slot[&phi] + j; if (s != d) e.copies.push_back({d, s}); }
		}
		fixes.push_back({(uint32_t)fn->edges.size(), to}); fn->edges.push_back(e); return fn->edges.size() - 1;
	};
	auto width = [&](Type* t) -> unsigned { std::vector<Leaf> l; flatten(t, 0, l); return l.empty() ? 0 : l[0].w; };
	for (auto& b : *F) {
		start[&b] = fn->code.size();
		for (auto& i : b) {
			if (isa<PHINode>(i)) continue;
			Inst I; memset(&I, 0, sizeof I); I.dst = i.getType()->isVoidTy() ? -1 : slot[&i];
			if (auto& dl = i.getDebugLoc()) I.line = dl.getLine();
			I.w = width(i.getType());
			bool wide = false;
			for (auto& o : i.operands()) if (o->getType()->isIntegerTy() && o->getType()->getIntegerBitWidth() > 64) wide = true;
			if (i.getType()->isIntegerTy() && i.getType()->getIntegerBitWidth() > 64) wide = true;
			if (i.getType()->isVectorTy()) wide = true;
			for (auto& o : i.operands()) if (o->getType()->isVectorTy() || o->getType()->isX86_FP80Ty()) wide = true;
			if (wide && !isa<CallBase>(i)) { I.op = O_UNSUP; fn->code.push_back(I); continue; }
			switch (i.getOpcode()) {
				case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
				case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
					static const std::map<unsigned, K> m = {{Instruction::Add, K::Add}, {Instruction::Sub, K::Sub}, {Instruction::Mul, K::Mul}, {Instruction::UDiv, K::UDiv}, {Instruction::SDiv, K::SDiv}, {Instruction::URem, K::URem}, {Instruction::SRem, K::SRem}, {Instruction::And, K::And}, {Instruction::Or, K::Or}, {Instruction::Xor, K::Xor}, {Instruction::Shl, K::Shl}, {Instruction::LShr, K::LShr}, {Instruction::AShr, K::AShr}};
					I.op = O_BIN; I.flag = (uint8_t)m.at(i.getOpcode()); I.a = opnd(i.getOperand(0)); I.b = opnd(i.getOperand(1)); break; }
				case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FNeg:
					I.op = O_FBIN; I.flag = i.getOpcode() == Instruction::FAdd ? 0 : i.getOpcode() == Instruction::FSub ? 1 : i.getOpcode() == Instruction::FMul ? 2 : i.getOpcode() == Instruction::FDiv ? 3 : 4;
					I.a = opnd(i.getOperand(0)); I.b = i.getNumOperands() > 1 ? opnd(i.getOperand(1)) : I.a; break;
				case Instruction::FCmp: { I.op = O_FCMP; I.w2 = width(i.getOperand(0)->getType()); I.flag = cast<FCmpInst>(i).getPredicate(); I.a = opnd(i.getOperand(0)); I.b = opnd(i.getOperand(1)); break; }
				case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc:
					I.op = O_FCAST; I.w2 = width(i.getOperand(0)->getType()); I.a = opnd(i.getOperand(0));
					I.flag = i.getOpcode() == Instruction::SIToFP ? 0 : i.getOpcode() == Instruction::UIToFP ? 1 : i.getOpcode() == Instruction::FPToSI ? 2 : i.getOpcode() == Instruction::FPToUI ? 3 : i.getOpcode() == Instruction::FPExt ? 4 : 5; break;
				case Instruction::ICmp: {
					I.op = O_ICMP; I.w2 = width(i.getOperand(0)->getType()); I.a = opnd(i.getOperand(0)); I.b = opnd(i.getOperand(1));
					switch (cast<ICmpInst>(i).getPredicate()) { case CmpInst::ICMP_EQ: I.flag = P_EQ; break; case CmpInst::ICMP_NE: I.flag = P_NE; break; case CmpInst::ICMP_UGT: I.flag = P_UGT; break; case CmpInst::ICMP_UGE: I.flag = P_UGE; break; case CmpInst::ICMP_ULT: I.flag = P_ULT; break; case CmpInst::ICMP_ULE: I.flag = P_ULE; break; case CmpInst::ICMP_SGT: I.flag = P_SGT; break; case CmpInst::ICMP_SGE: I.flag = P_SGE; break; case CmpInst::ICMP_SLT: I.flag = P_SLT; break; default: I.flag = P_SLE; break; }
					break; }
				case Instruction::Load: { I.op = O_LOAD; I.a = opnd(i.getOperand(0)); MemAcc m; flatten(i.getType(), 0, m.leaves); if (m.leaves.size() == 1) I.x = ~0u; else { I.x = fn->accs.size(); fn->accs.push_back(m); } break; }
				case Instruction::Store: { I.op = O_STORE; I.a = opnd(i.getOperand(0)); I.b = opnd(i.getOperand(1)); MemAcc m; flatten(i.getOperand(0)->getType(), 0, m.leaves); I.w = m.leaves.empty() ? 0 : m.leaves[0].w;
					if (m.leaves.size() == 1) I.x = ~0u; else { if (isa<Constant>(i.getOperand(0))) { // constant aggregate: per-leaf stores
							bool first = true; for (unsigned k = 0; k < m.leaves.size(); k++) { (void)first; Gep g; g.off = m.leaves[k].off; Inst G; memset(&G, 0, sizeof G); int32_t tmp = fn->nregs++; G.op = O_GEP; G.w = 64; G.dst = tmp; G.a = I.b; G.x = fn->geps.size(); G.line = I.line; fn->geps.push_back(g); fn->code.push_back(G); Inst S = I; S.a = opnd(i.getOperand(0), k); S.b = tmp; S.w = m.leaves[k].w; S.x = ~0u; fn->code.push_back(S); }
							continue; }
						I.x = fn->accs.size(); fn->accs.push_back(m); } break; }
				case Instruction::GetElementPtr: {
					I.op = O_GEP; I.a = opnd(i.getOperand(0)); Gep g; g.off = 0;
					for (auto gi = gep_type_begin(i), ge = gep_type_end(i); gi != ge; ++gi) {
						Value* ix = gi.getOperand();
						if (auto s = gi.getStructTypeOrNull()) { g.off += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
						int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
						if (auto ci = dyn_cast<ConstantInt>(ix)) { g.off += sc * ci->getSExtValue(); continue; }
						g.idx.push_back({opnd(ix), (uint8_t)width(ix->getType()), sc});
					}
					I.x = fn->geps.size(); fn->geps.push_back(g); break; }
				case Instruction::Br: { auto& br = cast<BranchInst>(i); if (br.isConditional()) { I.op = O_CBR; I.a = opnd(br.getCondition()); I.x = edge(&b, br.getSuccessor(0)); I.c = edge(&b, br.getSuccessor(1)); } else { I.op = O_BR; I.x = edge(&b, br.getSuccessor(0)); } break; }
				case Instruction::Switch: { auto& sw = cast<SwitchInst>(i); I.op = O_SWITCH; I.a = opnd(sw.getCondition()); I.w2 = width(sw.getCondition()->getType()); Switch s;
					DenseMap<const BasicBlock*, uint32_t> es; auto ge = [&](const BasicBlock* t) { auto it = es.find(t); if (it != es.end()) return it->second; uint32_t e = edge(&b, t); es[t] = e; return e; };
					for (auto c : sw.cases()) s.cases.push_back({c.getCaseValue()->getZExtValue(), ge(c.getCaseSuccessor())}); s.def = ge(sw.getDefaultDest()); I.x = fn->switches.size(); fn->switches.push_back(s); break; }
				case Instruction::Ret: { auto& r = cast<ReturnInst>(i); I.op = O_RET; if (r.getReturnValue()) { I.c = nleaf(r.getReturnValue()->getType()); if (I.c == 1 || !isa<Constant>(r.getReturnValue())) I.a = opnd(r.getReturnValue()); else {
							// constant aggregate return
							int32_t t0 = fn->nregs; fn->nregs += I.c; for (int k = 0; k < I.c; k++) { Inst M; memset(&M, 0, sizeof M); M.op = O_MOV; M.dst = t0 + k; M.a = opnd(r.getReturnValue(), k); fn->code.push_back(M); } I.a = t0; } } else I.c = 0; break; }
				case Instruction::Select: { unsigned k = nleaf(i.getType()); I.op = O_SELECT; if (k != 1) { I.op = O_UNSUP; break; } I.a = opnd(i.getOperand(0)); I.b = opnd(i.getOperand(1)); I.c = opnd(i.getOperand(2)); break; }
				case Instruction::ZExt: I.op = O_ZEXT; I.w2 = width(i.getOperand(0)->getType()); I.a = opnd(i.getOperand(0)); break;
				case Instruction::SExt: I.op = O_SEXT; I.w2 = width(i.getOperand(0)->getType()); I.a = opnd(i.getOperand(0)); break;
				case Instruction::Trunc: I.op = O_TRUNC; I.w2 = width(i.getOperand(0)->getType()); I.a = opnd(i.getOperand(0)); break;
				case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned sw = width(i.getOperand(0)->getType()); I.w2 = sw; I.a = opnd(i.getOperand(0)); I.op = sw == I.w ? O_MOV : sw > I.w ? O_TRUNC : O_ZEXT; break; }
				case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: { unsigned k = nleaf(i.getType()); if (k == 1) { I.op = O_MOV; I.a = opnd(i.getOperand(0)); } else { I.op = O_MOVN; I.a = opnd(i.getOperand(0)); I.c = k; } break; }
				case Instruction::ExtractValue: { auto& ev = cast<ExtractValueInst>(i); Type* t = ev.getAggregateOperand()->getType(); unsigned k = 0;
					for (unsigned ix : ev.getIndices()) { for (unsigned j = 0; j < ix; j++) k += nleaf(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
					I.op = O_MOVN; I.c = nleaf(i.getType()); I.a = opnd(ev.getAggregateOperand(), k);
					if (isa<Constant>(ev.getAggregateOperand()) && I.c != 1) I.op = O_UNSUP; break; }
				case Instruction::InsertValue: { auto& iv = cast<InsertValueInst>(i); Type* t = i.getType(); unsigned tot = nleaf(t), k = 0;
					for (unsigned ix : iv.getIndices()) { for (unsigned j = 0; j < ix; j++) k += nleaf(t->isStructTy() ? t->getStructElementType(j) : t->getArrayElementType()); t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); }
					unsigned cnt = nleaf(iv.getInsertedValueOperand()->getType());
					// emit moves
					for (unsigned j = 0; j < tot; j++) { Inst M; memset(&M, 0, sizeof M); M.op = O_MOV; M.dst = I.dst + j; M.line = I.line; M.a = (j >= k && j < k + cnt) ? opnd(iv.getInsertedValueOperand(), j - k) : opnd(iv.getAggregateOperand(), j); fn->code.push_back(M); }
					continue; }
				case Instruction::Alloca: { auto& al = cast<AllocaInst>(i); I.op = O_ALLOCA; I.x = DL->getTypeAllocSize(al.getAllocatedType()); I.a = opnd(al.getArraySize()); break; }
				case Instruction::Resume: I.op = O_RESUME; I.a = opnd(i.getOperand(0)); break;
				case Instruction::LandingPad: { auto& lp = cast<LandingPadInst>(i); I.op = O_LPAD; LPad p; p.cleanup = lp.isCleanup();
					for (unsigned k = 0; k < lp.getNumClauses(); k++) { std::vector<uint64_t> v; if (lp.isCatch(k)) v.push_back(scalarConst(lp.getClause(k))); else flatConst(lp.getClause(k), v); p.clauses.push_back({lp.isCatch(k) ? 0 : 1, v}); }
					I.x = fn->pads.size(); fn->pads.push_back(p); break; }
				case Instruction::Unreachable: I.op = O_UNREACH; break;
				case Instruction::Fence: I.op = O_FENCE; break;
				case Instruction::AtomicRMW: { auto& r = cast<AtomicRMWInst>(i); I.op = O_ARMW; I.a = opnd(r.getPointerOperand()); I.b = opnd(r.getValOperand()); I.flag = r.getOperation(); break; }
				case Instruction::AtomicCmpXchg: { auto& r = cast<AtomicCmpXchgInst>(i); I.op = O_CMPXCHG; I.a = opnd(r.getPointerOperand()); I.b = opnd(r.getCompareOperand()); I.c = opnd(r.getNewValOperand()); I.w = width(r.getCompareOperand()->getType()); break; }
				case Instruction::Call: case Instruction::Invoke: {
					auto& cb = cast<CallBase>(i); Call c;
					I.op = O_CALL;
					if (auto ii = dyn_cast<IntrinsicInst>(&cb)) {
						auto id = ii->getIntrinsicID();
						switch (id) {
							case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: continue;
							default: break;
						}
						c.iname = Intrinsic::getBaseName(id).str();
						if (id == Intrinsic::memcpy || id == Intrinsic::memcpy_inline) c.intrin = 1; else if (id == Intrinsic::memmove) c.intrin = 2; else if (id == Intrinsic::memset) c.intrin = 3;
						else if (id == Intrinsic::eh_typeid_for) c.intrin = 4; else if (id == Intrinsic::trap || id == Intrinsic::ubsantrap) c.intrin = 5;
						else if (id == Intrinsic::umax) c.intrin = 10; else if (id == Intrinsic::umin) c.intrin = 11; else if (id == Intrinsic::smax) c.intrin = 12; else if (id == Intrinsic::smin) c.intrin = 13;
						else if (id == Intrinsic::fshl) c.intrin = 14; else if (id == Intrinsic::fshr) c.intrin = 15; else if (id == Intrinsic::bswap) c.intrin = 16; else if (id == Intrinsic::usub_sat) c.intrin = 17; else if (id == Intrinsic::ctlz) c.intrin = 18; else if (id == Intrinsic::abs) c.intrin = 19;
						else if (id == Intrinsic::threadlocal_address) c.intrin = 20; else if (id == Intrinsic::load_relative) c.intrin = 21; else if (id == Intrinsic::cttz) c.intrin = 22; else if (id == Intrinsic::ctpop) c.intrin = 23; else if (id == Intrinsic::umul_with_overflow) c.intrin = 24; else if (id == Intrinsic::uadd_with_overflow) c.intrin = 25; else if (id == Intrinsic::usub_with_overflow) c.intrin = 26; else if (id == Intrinsic::expect) c.intrin = 20; else if (id == Intrinsic::is_constant) c.intrin = 27; else if (id == Intrinsic::objectsize) c.intrin = 28; else if (id == Intrinsic::uadd_sat) c.intrin = 29;
						else if (id == Intrinsic::vastart || id == Intrinsic::vaend || id == Intrinsic::vacopy) c.intrin = 90; else if (id == Intrinsic::stacksave) c.intrin = 27; else if (id == Intrinsic::stackrestore) continue;
						else if (id == Intrinsic::sadd_with_overflow) c.intrin = 30; else if (id == Intrinsic::ssub_with_overflow) c.intrin = 31; else if (id == Intrinsic::smul_with_overflow) c.intrin = 32;
						else c.intrin = 99;
					} else if (cb.isInlineAsm()) { c.intrin = 98; }
					else {
						auto cv = cb.getCalledOperand()->stripPointerCasts();
						if (auto ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
						if (auto cf = dyn_cast<Function>(cv)) c.direct = fnOf[cf]; else c.callee = opnd(cb.getCalledOperand());
					}
					for (unsigned k = 0; k < cb.arg_size(); k++) {
						std::vector<Leaf> lv; auto a = cb.getArgOperand(k);
						if (a->getType()->isMetadataTy()) continue;
						flatten(a->getType(), 0, lv); if (lv.empty()) lv.push_back({0, 0, 0});
						for (unsigned j = 0; j < lv.size(); j++) { c.args.push_back(opnd(a, j)); c.widths.push_back(lv[j].w); c.byval.push_back(0); }
						if (cb.isByValArgument(k)) c.byval.back() = DL->getTypeAllocSize(cb.getParamByValType(k));
					}
					if (!i.getType()->isVoidTy()) { std::vector<Leaf> lv; flatten(i.getType(), 0, lv); for (auto& l : lv) c.retw.push_back(l.w); c.nret = lv.size(); }
					if (auto inv = dyn_cast<InvokeInst>(&cb)) { c.invoke = true; c.normal = edge(&b, inv->getNormalDest()); c.unwind = edge(&b, inv->getUnwindDest()); I.op = O_INVOKE; }
					I.x = fn->calls.size(); fn->calls.push_back(std::move(c)); break; }
				default: I.op = O_UNSUP; break;
			}
			fn->code.push_back(I);
		}
	}
	for (auto& f : fixes) fn->edges[f.edge].target = start[f.bb];
}
}
