// symx: bounded symbolic execution of LLVM IR, deciding assertions with Z3.
#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <random>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;

static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::vector<SV> pool; // flattened constants
static std::map<const Constant*, int> poolIdx;
static std::map<const GlobalVariable*, uint64_t> gaddr;
static std::map<const Function*, std::unique_ptr<FuncInfo>> finfo;
static std::map<uint64_t, FuncInfo*> faddr;
static std::map<Type*, Layout> layouts;
static std::map<std::string, Handler> handlers;
static std::map<std::string, std::string> params;
static std::map<uint64_t, std::string> tiName; // typeinfo address -> name
static std::string repoRoot = "/repo";

struct Stats
{
	uint64_t instrs = 0, paths = 0, forks = 0, assertsChecked = 0, assertQueries = 0, completed = 0, assumeEnded = 0, unsupported = 0, incomplete = 0, memChecks = 0, states = 1, transitions = 0, unknownAsserts = 0, fpApprox = 0, accessSym = 0, hbPruned = 0;
} S;
static std::map<std::string, uint64_t> covers, unsupportedMsgs, incompleteMsgs;
static std::map<std::string, std::vector<std::pair<std::string, std::string>>> coverModels;
static double timeLimit = 60;
static double memLimitMb = 3500;
static std::string searchMode = "dfs";
static uint64_t maxLoop = 0;
static int accessMode = 0; // 0 plain access, 1 atomic or volatile access
static int preemptBound = 2;
static std::chrono::steady_clock::time_point T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static std::vector<std::unique_ptr<State>> work;
static uint64_t nextStateId = 1;
static std::mt19937_64 rng(1);

struct Violation
{
	std::string kind, msg, func, where, stack;
	std::vector<std::pair<std::string, std::string>> model; // name, hex bytes
	std::vector<int> sched;
	std::vector<std::pair<std::vector<std::pair<std::string, std::string>>, std::vector<int>>> alts; // further paths reaching it
	uint64_t count = 1;
	bool confirmed = true; // false when the solver could not decide
};
static std::vector<Violation> violations;
static std::vector<std::pair<std::string, std::vector<std::pair<std::string, std::string>>>> pathSamples;
static unsigned maxViol = 20;

static inline SV cv(uint64_t c) { return SV{ nullptr, c }; }
static inline SV norm(E e)
{
	if (e->width <= 64 && e->isConst())
		return SV{ nullptr, e->c };
	return SV{ e, 0 };
}
static inline E toE(const SV& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ------------------------------------------------------------------ types
static bool isWide(unsigned w) { return w > 64; }
static void flatten(Type* t, uint64_t off, std::vector<Lane>& out)
{
	if (auto* it = dyn_cast<IntegerType>(t))
		out.push_back(Lane{ (uint32_t)off, (uint16_t)it->getBitWidth(), false });
	else if (t->isPointerTy())
		out.push_back(Lane{ (uint32_t)off, 64, false });
	else if (t->isFloatTy())
		out.push_back(Lane{ (uint32_t)off, 32, true });
	else if (t->isDoubleTy())
		out.push_back(Lane{ (uint32_t)off, 64, true });
	else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
		Type* et = vt->getElementType();
		uint64_t es = DL->getTypeStoreSize(et);
		for (unsigned i = 0; i < vt->getNumElements(); ++i)
			flatten(et, off + i * es, out);
	}
	else if (auto* st = dyn_cast<StructType>(t)) {
		const StructLayout* sl = DL->getStructLayout(st);
		for (unsigned i = 0; i < st->getNumElements(); ++i)
			flatten(st->getElementType(i), off + sl->getElementOffset(i), out);
	}
	else if (auto* at = dyn_cast<ArrayType>(t)) {
		uint64_t es = DL->getTypeAllocSize(at->getElementType());
		for (uint64_t i = 0; i < at->getNumElements(); ++i)
			flatten(at->getElementType(), off + i * es, out);
	}
	else if (t->isX86_FP80Ty()) {
		out.push_back(Lane{ (uint32_t)off, 80, true });
	}
	else {
		std::string s;
		raw_string_ostream os(s);
		t->print(os);
		fprintf(stderr, "unsupported type %s\n", os.str().c_str());
		exit(3);
	}
}
static const Layout& layout(Type* t)
{
	auto it = layouts.find(t);
	if (it != layouts.end())
		return it->second;
	Layout l;
	if (!t->isVoidTy() && !t->isTokenTy() && !t->isMetadataTy() && !t->isLabelTy()) {
		flatten(t, 0, l.lanes);
		l.size = DL->getTypeStoreSize(t);
	}
	else
		l.size = 0;
	return layouts[t] = l;
}
static unsigned laneCount(Type* t) { return (unsigned)layout(t).lanes.size(); }

// ------------------------------------------------------------------ constants
static uint64_t funcAddr(const Function* f);
static SV apToSV(const APInt& v)
{
	unsigned w = v.getBitWidth();
	if (w <= 64)
		return cv(v.getZExtValue());
	std::vector<E> hi;
	unsigned nw = (w + 63) / 64;
	for (int i = (int)nw - 1; i >= 0; --i) {
		unsigned pw = std::min(64u, w - (unsigned)i * 64);
		hi.push_back(mkConst(v.getRawData()[i], pw));
	}
	return SV{ mkConcat(hi), 0 };
}
static uint64_t constAddr(const Constant* c);
static void flattenConst(const Constant* c, std::vector<SV>& out)
{
	Type* t = c->getType();
	if (auto* ci = dyn_cast<ConstantInt>(c)) {
		out.push_back(apToSV(ci->getValue()));
		return;
	}
	if (auto* cf = dyn_cast<ConstantFP>(c)) {
		out.push_back(apToSV(cf->getValueAPF().bitcastToAPInt()));
		return;
	}
	if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) {
		for (auto& l : layout(t).lanes)
			out.push_back(l.width > 64 ? SV{ mkConst(0, l.width), 0 } : cv(0));
		return;
	}
	if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
		for (unsigned i = 0; i < cd->getNumElements(); ++i)
			flattenConst(cd->getElementAsConstant(i), out);
		return;
	}
	if (isa<ConstantVector>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
		for (unsigned i = 0; i < c->getNumOperands(); ++i)
			flattenConst(cast<Constant>(c->getOperand(i)), out);
		return;
	}
	if (t->isPointerTy()) {
		out.push_back(cv(constAddr(c)));
		return;
	}
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		if (ce->getOpcode() == Instruction::PtrToInt) {
			uint64_t a = constAddr(cast<Constant>(ce->getOperand(0)));
			out.push_back(cv(a & maskOf(t->getIntegerBitWidth())));
			return;
		}
		if (t->isIntegerTy()) {
			std::vector<SV> a, b;
			flattenConst(cast<Constant>(ce->getOperand(0)), a);
			unsigned w = t->getIntegerBitWidth();
			if (ce->getOpcode() == Instruction::Trunc) {
				out.push_back(cv(a[0].c & maskOf(w)));
				return;
			}
			flattenConst(cast<Constant>(ce->getOperand(1)), b);
			uint64_t r = 0;
			switch (ce->getOpcode()) {
				case Instruction::Add: r = a[0].c + b[0].c; break;
				case Instruction::Sub: r = a[0].c - b[0].c; break;
				case Instruction::Mul: r = a[0].c * b[0].c; break;
				case Instruction::Xor: r = a[0].c ^ b[0].c; break;
				default: goto bad;
			}
			out.push_back(cv(r & maskOf(w)));
			return;
		}
	}
bad:
	std::string s;
	raw_string_ostream os(s);
	c->print(os);
	fprintf(stderr, "unsupported constant %s\n", os.str().c_str());
	exit(3);
}
static uint64_t constAddr(const Constant* c)
{
	if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c))
		return 0;
	if (auto* f = dyn_cast<Function>(c))
		return funcAddr(f);
	if (auto* g = dyn_cast<GlobalVariable>(c)) {
		auto it = gaddr.find(g);
		return it == gaddr.end() ? 0 : it->second;
	}
	if (auto* a = dyn_cast<GlobalAlias>(c))
		return constAddr(a->getAliasee());
	if (auto* ce = dyn_cast<ConstantExpr>(c)) {
		if (ce->getOpcode() == Instruction::IntToPtr) {
			std::vector<SV> v;
			flattenConst(cast<Constant>(ce->getOperand(0)), v);
			return v[0].c;
		}
		if (auto* gep = dyn_cast<GEPOperator>(ce)) {
			APInt off(64, 0);
			if (gep->accumulateConstantOffset(*DL, off))
				return constAddr(cast<Constant>(gep->getPointerOperand())) + off.getZExtValue();
		}
		if (ce->isCast())
			return constAddr(cast<Constant>(ce->getOperand(0)));
	}
	std::string s;
	raw_string_ostream os(s);
	c->print(os);
	fprintf(stderr, "unsupported constant address %s\n", os.str().c_str());
	exit(3);
}
static std::vector<const GlobalVariable*> poolTls; // constants that are addresses of thread local variables
static bool haveTls = false;
static int constPool(const Constant* c)
{
	auto it = poolIdx.find(c);
	if (it != poolIdx.end())
		return it->second;
	int idx = (int)pool.size();
	std::vector<SV> v;
	flattenConst(c, v);
	pool.insert(pool.end(), v.begin(), v.end());
	poolTls.resize(pool.size(), nullptr);
	if (c->getType()->isPointerTy())
		if (auto* g = dyn_cast<GlobalVariable>(c->stripInBoundsConstantOffsets()))
			if (g->isThreadLocal()) {
				poolTls[(size_t)idx] = g;
				haveTls = true;
			}
	poolIdx[c] = -idx - 1;
	return -idx - 1;
}

// ------------------------------------------------------------------ functions
static FuncInfo* getFunc(const Function* f)
{
	auto& p = finfo[f];
	if (!p) {
		p.reset(new FuncInfo());
		p->F = const_cast<Function*>(f);
		p->name = f->getName().str();
		auto it = handlers.find(p->name);
		if (it != handlers.end())
			p->handler = &it->second;
		if (auto* sp = f->getSubprogram()) {
			p->file = (sp->getDirectory().empty() || sp->getFilename().starts_with("/")) ? sp->getFilename().str() : (sp->getDirectory() + "/" + sp->getFilename()).str();
			p->repo = p->file.compare(0, repoRoot.size(), repoRoot) == 0;
		}
	}
	return p.get();
}
static uint64_t nextFuncAddr = 1ull << 32;
static uint64_t funcAddr(const Function* f)
{
	FuncInfo* fi = getFunc(f);
	if (!fi->addr) {
		fi->addr = nextFuncAddr;
		nextFuncAddr += 64;
		faddr[fi->addr] = fi;
	}
	return fi->addr;
}

static void decode(FuncInfo* fi)
{
	if (fi->decoded)
		return;
	fi->decoded = true;
	Function& F = *fi->F;
	auto slotFor = [&](const Value* v, Type* t) {
		int s = (int)fi->nslots;
		fi->slots[v] = s;
		fi->nslots += std::max(1u, laneCount(t));
		return s;
	};
	for (auto& a : F.args()) {
		fi->argSlots.push_back(slotFor(&a, a.getType()));
		fi->argN.push_back(laneCount(a.getType()));
	}
	for (auto& bb : F) {
		auto bi = std::make_unique<BlockInfo>();
		bi->bb = &bb;
		bi->f = fi;
		fi->bmap[&bb] = bi.get();
		fi->blocks.push_back(std::move(bi));
		for (auto& I : bb)
			if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy())
				slotFor(&I, I.getType());
	}
	auto opOf = [&](const Value* v) -> int {
		if (auto* c = dyn_cast<Constant>(v))
			return constPool(c);
		auto it = fi->slots.find(v);
		if (it == fi->slots.end())
			return INT32_MAX;
		return it->second;
	};
	for (auto& bp : fi->blocks) {
		BlockInfo* bi = bp.get();
		for (auto& I : *bi->bb) {
			if (auto* ph = dyn_cast<PHINode>(&I)) {
				PhiIn p;
				p.dst = fi->slots[ph];
				p.n = laneCount(ph->getType());
				for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i)
					p.in[fi->bmap[ph->getIncomingBlock(i)]] = opOf(ph->getIncomingValue(i));
				bi->phis.push_back(std::move(p));
				continue;
			}
			if (isa<DbgInfoIntrinsic>(&I))
				continue;
			Ins in;
			in.I = &I;
			in.opc = I.getOpcode();
			in.parent = fi;
			in.bb = bi;
			Type* t = I.getType();
			if (!t->isVoidTy() && !t->isTokenTy()) {
				in.dst = fi->slots[&I];
				auto& l = layout(t);
				in.n = (unsigned)l.lanes.size();
				in.w = in.n ? l.lanes[0].width : 0;
			}
			if (auto* cb = dyn_cast<CallBase>(&I)) {
				for (unsigned i = 0; i < cb->arg_size(); ++i) {
					Value* a = cb->getArgOperand(i);
					if (isa<MetadataAsValue>(a) || isa<InlineAsm>(a))
						in.ops.push_back(INT32_MAX);
					else
						in.ops.push_back(opOf(a));
				}
				Value* cal = cb->getCalledOperand()->stripPointerCasts();
				if (auto* ga = dyn_cast<GlobalAlias>(cal))
					cal = ga->getAliasee()->stripPointerCasts();
				if (auto* f = dyn_cast<Function>(cal)) {
					in.callee = getFunc(f);
					if (f->isIntrinsic()) {
						switch (f->getIntrinsicID()) {
							case Intrinsic::lifetime_start:
							case Intrinsic::lifetime_end:
							case Intrinsic::experimental_noalias_scope_decl:
							case Intrinsic::invariant_start:
							case Intrinsic::invariant_end:
							case Intrinsic::assume:
							case Intrinsic::prefetch:
							case Intrinsic::donothing:
								continue;
							default: break;
						}
					}
				}
				else if (!isa<InlineAsm>(cal))
					in.aux = 1, in.ops.push_back(opOf(cal)); // indirect: callee operand last
				in.lay = &layout(t);
			}
			else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
				in.ops.push_back(opOf(gep->getPointerOperand()));
				if (gep->getType()->isVectorTy()) {
					in.aux = 99; // unsupported
				}
				for (auto gti = gep_type_begin(gep), e = gep_type_end(gep); gti != e; ++gti) {
					Value* idx = gti.getOperand();
					if (StructType* st = gti.getStructTypeOrNull()) {
						in.cst += (int64_t)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
						continue;
					}
					int64_t sc = (int64_t)gti.getSequentialElementStride(*DL);
					if (auto* ci = dyn_cast<ConstantInt>(idx)) {
						in.cst += ci->getSExtValue() * sc;
						continue;
					}
					in.terms.push_back({ opOf(idx), sc });
					in.termW.push_back(idx->getType()->isIntegerTy() ? idx->getType()->getIntegerBitWidth() : 64);
				}
			}
			else {
				for (unsigned i = 0; i < I.getNumOperands(); ++i) {
					Value* a = I.getOperand(i);
					if (isa<BasicBlock>(a) || (isa<LandingPadInst>(&I)))
						in.ops.push_back(INT32_MAX);
					else
						in.ops.push_back(opOf(a));
				}
				if (isa<LoadInst>(&I))
					in.lay = &layout(t);
				else if (auto* st = dyn_cast<StoreInst>(&I))
					in.lay = &layout(st->getValueOperand()->getType());
				else if (auto* rm = dyn_cast<AtomicRMWInst>(&I))
					in.lay = &layout(rm->getValOperand()->getType());
				else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I))
					in.lay = &layout(cx->getCompareOperand()->getType());
			}
			if ((I.isAtomic() && !isa<FenceInst>(&I)) || (isa<LoadInst>(&I) && cast<LoadInst>(I).isVolatile()) || (isa<StoreInst>(&I) && cast<StoreInst>(I).isVolatile()))
				in.visible = true;
			bi->ins.push_back(std::move(in));
		}
	}
}

// ------------------------------------------------------------------ state helpers
static std::unique_ptr<State> cloneState(State& s)
{
	auto n = std::make_unique<State>(s);
	n->id = nextStateId++;
	n->depth = s.depth + 1;
	++s.depth;
	++S.forks;
	++S.states;
	return n;
}
static uint64_t tlsAddr(State& s, const GlobalVariable* g);
static const SV* poolVal(State& s, size_t i)
{
	if (haveTls && s.cur != 0 && poolTls[i]) { // each thread has its own
		static SV ring[16];
		static unsigned at = 0;
		SV& r = ring[at++ & 15];
		r = cv(pool[i].c - gaddr[poolTls[i]] + tlsAddr(s, poolTls[i]));
		return &r;
	}
	return &pool[i];
}
static inline const SV* opnd(State& s, Ins& in, unsigned i)
{
	int o = in.ops[i];
	return o >= 0 ? &s.f().regs[(size_t)o] : poolVal(s, (size_t)(-o - 1));
}
static inline SV* dstp(State& s, Ins& in) { return &s.f().regs[(size_t)in.dst]; }

static std::string shortName(const std::string& mangled)
{
	std::string d = llvm::demangle(mangled);
	// strip arguments
	int depth = 0;
	for (size_t i = 0; i < d.size(); ++i) {
		if (d[i] == '<')
			++depth;
		else if (d[i] == '>')
			--depth;
		else if (d[i] == '(' && depth == 0 && i > 0) {
			if (d.compare(i, 11, "(anonymous ") == 0)
				continue;
			d.resize(i);
			break;
		}
	}
	return d;
}
static std::string whereOf(Ins& in, std::string* funcOut = nullptr)
{
	std::string r = in.parent->name, fn = shortName(in.parent->name);
	if (auto dl = in.I->getDebugLoc()) {
		auto* loc = dl.get();
		if (auto* sp = loc->getScope()->getSubprogram()) {
			std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str();
			fn = shortName(nm);
		}
		r = (loc->getFilename() + ":" + std::to_string(loc->getLine())).str();
	}
	if (funcOut)
		*funcOut = fn;
	return r;
}
static std::string stackOf(State& s)
{
	std::string r;
	for (auto it = s.t().st.rbegin(); it != s.t().st.rend(); ++it) {
		if (it->ip < it->bb->ins.size()) {
			Ins& in = it->bb->ins[it->ip];
			std::string fn, w = whereOf(in, &fn);
			r += fn + " (" + w + ")";
			// inlined-at chain
			if (auto dl = in.I->getDebugLoc()) {
				const DILocation* l = dl.get()->getInlinedAt();
				while (l) {
					std::string nm = l->getScope()->getSubprogram()->getLinkageName().str();
					if (nm.empty())
						nm = l->getScope()->getSubprogram()->getName().str();
					r += " < " + shortName(nm) + " (" + l->getFilename().str() + ":" + std::to_string(l->getLine()) + ")";
					l = l->getInlinedAt();
				}
			}
			r += " < ";
		}
	}
	return r;
}
static std::vector<std::pair<std::string, std::string>> modelOf(State& s, const Model& m)
{
	std::vector<std::pair<std::string, std::string>> out;
	for (auto& r : s.syms) {
		std::string h;
		char b[4];
		for (E e : r.bytes) {
			snprintf(b, sizeof b, "%02x", (unsigned)evalE(e, m));
			h += b;
		}
		out.push_back({ r.name, h });
	}
	return out;
}
static void report(State& s, const std::string& kind, const std::string& msg, const ModelP& m, bool confirmed = true)
{
	std::string fn = "?", wh = "?";
	Frame& f = s.f();
	if (f.ip < f.bb->ins.size())
		wh = whereOf(f.bb->ins[f.ip], &fn);
	for (auto& v : violations)
		if (v.kind == kind && v.func == fn && v.msg == msg && v.where == wh) {
			++v.count;
			if (v.alts.size() < 5)
				v.alts.push_back({ modelOf(s, m ? *m : *s.model), s.schedTrace });
			return;
		}
	if (violations.size() >= maxViol)
		return;
	Violation v;
	v.kind = kind;
	v.msg = msg;
	v.func = fn;
	v.where = wh;
	v.stack = stackOf(s);
	v.model = modelOf(s, m ? *m : *s.model);
	v.sched = s.schedTrace;
	v.confirmed = confirmed;
	violations.push_back(v);
}
static void killUnsupported(State& s, const std::string& msg)
{
	++S.unsupported;
	std::string fn, wh;
	if (!s.t().st.empty()) {
		Frame& f = s.f();
		if (f.ip < f.bb->ins.size())
			wh = whereOf(f.bb->ins[f.ip], &fn);
	}
	++unsupportedMsgs[msg + " in " + fn + " at " + wh];
	s.dead = true;
}
static void incomplete(const std::string& msg)
{
	++S.incomplete;
	++incompleteMsgs[msg];
}
// must be called with model of s satisfying the violation (already in pc) or explicit m
static void violate(State& s, const std::string& kind, const std::string& msg, const ModelP& m = nullptr)
{
	report(s, kind, msg, m ? m : s.model);
	s.dead = true;
}

static uint64_t mix(uint64_t a, uint64_t b)
{
	a ^= b + 0x9E3779B97F4A7C15ull + (a << 12) + (a >> 4);
	a = (a ^ (a >> 30)) * 0xBF58476D1CE4E5B9ull;
	a = (a ^ (a >> 27)) * 0x94D049BB133111EBull;
	return a ^ (a >> 31);
}
// the current thread made a choice
static void hbChoice(State& s, uint64_t v)
{
	if (s.sched)
		s.hh[s.cur] = mix(s.hh[s.cur], v);
}
// the current thread used the shared object at this address
static void hbObject(State& s, uint64_t a, uint64_t tag = 0)
{
	if (!s.sched)
		return;
	uint64_t& o = s.oh[a];
	o = s.hh[s.cur] = mix(mix(s.hh[s.cur], o), tag + 1);
}
static void addPc(State& s, E c)
{
	if (isTrue(c))
		return;
	if (c->kind == K_AND && c->width == 1) {
		addPc(s, c->k[0]);
		addPc(s, c->k[1]);
		return;
	}
	for (E p : s.pc)
		if (p == c)
			return;
	hbChoice(s, (uint64_t)(uintptr_t)c);
	s.pc.push_back(c);
}

// Decide a branch on c. Returns 1 (continue in s with c), 0 (continue in s with !c). When both feasible, forks: the
// clone gets the other side and re-executes the current instruction with the knowledge added (via replaceReg when possible).
enum Br { B_FALSE, B_TRUE, B_BOTH, B_DEAD };
static Br feasible(State& s, E c, ModelP& mT, ModelP& mF)
{
	if (isTrue(c)) {
		mT = s.model;
		return B_TRUE;
	}
	if (isFalse(c)) {
		mF = s.model;
		return B_FALSE;
	}
	bool v = evalE(c, *s.model);
	E other = v ? mkNot(c) : c;
	ModelP mo;
	Res r = solve(s.pc, other, s.model, mo);
	if (r == R_UNKNOWN)
		incomplete("branch feasibility undecided by the solver (other side not explored)");
	(v ? mT : mF) = s.model;
	if (r == R_SAT) {
		(v ? mF : mT) = mo;
		return B_BOTH;
	}
	return v ? B_TRUE : B_FALSE;
}

static void replaceEverywhere(State& s, E e, uint64_t c)
{
	for (auto& r : s.f().regs)
		if (r.e == e)
			r = cv(c);
}

// Make an operand concrete, forking over every feasible value. Returns false when s must be abandoned
// for this step (clones that re-execute the same instruction were queued, or s itself was updated).
static const unsigned CONC_LIMIT = 700;
static bool concretize(State& s, E e, uint64_t& out, unsigned limit = CONC_LIMIT)
{
	if (e->isConst()) {
		out = e->c;
		return true;
	}
	std::vector<std::pair<uint64_t, ModelP>> vals;
	uint64_t v0 = evalE(e, *s.model);
	vals.push_back({ v0, s.model });
	std::vector<E> block{ mkNot(mkEq(e, mkConst(v0, e->width))) };
	while (true) {
		ModelP m;
		Res r = solveMany(s.pc, block, s.model, m);
		if (r == R_UNSAT)
			break;
		if (r == R_UNKNOWN) {
			incomplete("value enumeration undecided by the solver");
			break;
		}
		uint64_t v = evalE(e, *m);
		vals.push_back({ v, m });
		block.push_back(mkNot(mkEq(e, mkConst(v, e->width))));
		if (vals.size() >= limit) {
			std::string fn, wh = whereOf(s.f().bb->ins[s.f().ip], &fn);
			incomplete("more than " + std::to_string(limit) + " values at " + wh + " (" + fn + ")");
			break;
		}
		if (now() > timeLimit)
			break;
	}
	for (size_t i = 1; i < vals.size(); ++i) {
		auto n = cloneState(s);
		addPc(*n, mkEq(e, mkConst(vals[i].first, e->width)));
		n->model = vals[i].second;
		replaceEverywhere(*n, e, vals[i].first);
		work.push_back(std::move(n));
	}
	if (vals.size() > 1)
		addPc(s, mkEq(e, mkConst(v0, e->width)));
	replaceEverywhere(s, e, v0);
	out = v0;
	return true; // s continues with v0 directly
}
static bool concArg(State& s, const SV& v, uint64_t& out)
{
	if (!v.e) {
		out = v.c;
		return true;
	}
	E e = v.e;
	return concretize(s, e, out);
}

// ------------------------------------------------------------------ memory access
static E readByte(Obj* o, uint64_t off)
{
	Page* p = o->pages[off / PG];
	unsigned i = off % PG;
	if (!p) {
		if (o->zero)
			return mkConst(0, 8);
		p = o->wpage(off / PG);
	}
	if (p->sym && p->sym[i]) {
		if (p->sym[i] == UNINIT) {
			// an uninitialised byte reads as an arbitrary but fixed value
			E v = mkVar("uninit", 8, true);
			p = o->wpage(off / PG);
			p->sym[i] = v;
			return v;
		}
		return p->sym[i];
	}
	return mkConst(p->d[i], 8);
}
static void writeByte(Obj* o, uint64_t off, E b)
{
	Page* p = o->wpage(off / PG);
	unsigned i = off % PG;
	if (b->isConst()) {
		p->d[i] = (uint8_t)b->c;
		if (p->sym)
			p->sym[i] = nullptr;
	}
	else {
		p->needSym();
		p->sym[i] = b;
	}
}
// the object must be writable (unshared) when it has uninitialised bytes to read
static Obj* readObj(State& s, size_t idx, uint64_t off, uint64_t n)
{
	Obj* o = s.mem.objs[idx].o;
	if (o->refs > 1) {
		// need unsharing only if an uninit byte is in range
		for (uint64_t p = off / PG; p <= (off + n - 1) / PG; ++p) {
			Page* pg = o->pages[p];
			if (!pg) {
				if (!o->zero)
					return s.mem.w(idx);
				continue;
			}
			if (pg->sym)
				for (unsigned i = 0; i < PG; ++i)
					if (pg->sym[i] == UNINIT)
						return s.mem.w(idx);
		}
	}
	return o;
}
static SV loadLane(Obj* o, uint64_t off, unsigned width)
{
	unsigned nb = (width + 7) / 8;
	if (nb <= 8) {
		// fast path
		uint64_t pi = off / PG;
		if (off % PG + nb <= PG) {
			Page* p = o->pages[pi];
			if (!p && o->zero)
				return cv(0);
			if (p) {
				bool sym = false;
				if (p->sym)
					for (unsigned i = 0; i < nb; ++i)
						if (p->sym[off % PG + i]) {
							sym = true;
							break;
						}
				if (!sym) {
					uint64_t v = 0;
					memcpy(&v, p->d + off % PG, nb);
					return cv(v & maskOf(width));
				}
			}
		}
	}
	std::vector<E> bs(nb);
	for (unsigned i = 0; i < nb; ++i)
		bs[nb - 1 - i] = readByte(o, off + i);
	E e = mkConcat(bs);
	if (width != nb * 8)
		e = mkExtract(e, 0, width);
	return norm(e);
}
static void storeLane(Obj* o, uint64_t off, unsigned width, const SV& v)
{
	unsigned nb = (width + 7) / 8;
	if (!v.e && nb <= 8 && off % PG + nb <= PG) {
		Page* p = o->wpage(off / PG);
		memcpy(p->d + off % PG, &v.c, nb);
		if (p->sym)
			for (unsigned i = 0; i < nb; ++i)
				p->sym[off % PG + i] = nullptr;
		return;
	}
	E e = toE(v, width);
	if (width != nb * 8)
		e = mkZExt(e, nb * 8);
	for (unsigned i = 0; i < nb; ++i)
		writeByte(o, off + i, mkExtract(e, i * 8, 8));
}
static std::string descAddr(State& s, uint64_t a)
{
	// nearest object
	auto& v = s.mem.objs;
	size_t lo = 0, hi = v.size();
	while (lo < hi) {
		size_t mid = (lo + hi) / 2;
		if (v[mid].base <= a)
			lo = mid + 1;
		else
			hi = mid;
	}
	if (a < 4096)
		return "null pointer";
	Obj* b = nullptr;
	int64_t d = 0;
	if (lo > 0) {
		b = v[lo - 1].o;
		d = (int64_t)(a - b->base);
	}
	if (lo < v.size() && (!b || v[lo].base - a < a - b->base)) {
		b = v[lo].o;
		d = -(int64_t)(v[lo].base - a);
	}
	if (!b || d > (1ll << 32) || d < -(1ll << 32))
		return "wild address";
	static const char* kn[] = { "global", "constant", "heap", "stack", "function" };
	char buf[160];
	snprintf(buf, sizeof buf, "offset %lld of %s object of %llu bytes", (long long)d, kn[b->kind], (unsigned long long)b->size);
	return std::string(buf) + (b->name ? " (" + *b->name + ")" : "");
}
static std::string lastAccess;
// check that [addr, addr+n) is inside one live object
// ------------------------------------------------------------------ data races
static std::vector<Ins*> raceLocs(1, nullptr);
static void vcJoin(VC& a, const VC& b)
{
	for (unsigned i = 0; i < MAXT; ++i)
		a.c[i] = std::max(a.c[i], b.c[i]);
}
static void hbAcquire(State& s, uint64_t sync)
{
	if (!s.sched)
		return;
	auto it = s.syncs.find(sync);
	if (it != s.syncs.end())
		vcJoin(s.vc[s.cur], it->second);
}
// replace: the synchronisation object only carries this release (a store); otherwise a release sequence goes on
static void hbRelease(State& s, uint64_t sync, bool replace)
{
	if (!s.sched)
		return;
	VC& v = s.syncs[sync];
	if (replace)
		v = s.vc[s.cur];
	else
		vcJoin(v, s.vc[s.cur]);
	++s.vc[s.cur].c[s.cur];
}
static void hbThread(State& s, unsigned t)
{
	if (!s.sched)
		return;
	if (t >= MAXT) {
		incomplete("too many threads for race tracking");
		s.dead = true;
		return;
	}
	s.vc.resize(s.th.size());
	s.vc[t] = s.vc[s.cur];
	s.vc[t].c[t] = 2;
	++s.vc[s.cur].c[s.cur];
	s.hh.resize(s.th.size());
	s.hh[t] = mix(s.hh[s.cur], 77);
	hbChoice(s, 78);
}
static uint32_t raceLoc(Ins* in)
{
	static std::unordered_map<Ins*, uint32_t> ids;
	auto it = ids.find(in);
	if (it != ids.end())
		return it->second;
	raceLocs.push_back(in);
	return ids[in] = (uint32_t)raceLocs.size() - 1;
}
static bool raceAccess(State& s, uint64_t addr, uint64_t n, bool write);
static bool raceFree(State& s, uint64_t base, uint64_t size, bool check)
{
	for (uint64_t pg = base / PG; pg * PG < base + size; ++pg) {
		auto it = s.shadow.find(pg);
		if (it == s.shadow.end())
			continue;
		uint64_t lo = std::max<uint64_t>(base, pg * PG), hi = std::min<uint64_t>(base + size, (pg + 1) * PG);
		if (check && !raceAccess(s, lo, hi - lo, true))
			return false;
		s.shadow.erase(pg);
	}
	return true;
}
static bool raceAccess(State& s, uint64_t addr, uint64_t n, bool write)
{
	unsigned t = s.cur;
	VC& v = s.vc[t];
	uint32_t loc = 0;
	for (uint64_t i = 0; i < n;) {
		uint64_t a = addr + i, pg = a / PG;
		unsigned o = (unsigned)(a % PG), k = (unsigned)std::min<uint64_t>(PG - o, n - i);
		auto it = s.shadow.find(pg);
		if (it == s.shadow.end()) {
			if (accessMode) { i += k; continue; }
			auto sh = std::make_shared<Shadow>();
			memset(sh.get(), 0, sizeof(Shadow));
			it = s.shadow.emplace(pg, sh).first;
		}
		for (unsigned j = 0; j < k; ++j) {
			const Cell& c = it->second->c[o + j];
			int other = -1;
			const char* what = "write";
			if (c.wclk && c.wt != t && c.wclk > v.c[c.wt])
				other = c.wt;
			else if (write)
				for (unsigned q = 0; q < MAXT; ++q)
					if (q != t && c.r[q] && (q >= s.vc.size() || c.r[q] > v.c[q])) {
						other = (int)q;
						what = "read";
						break;
					}
			if (other >= 0) {
				std::string fn = "?", w = "";
				if (what[0] == 'w' && c.loc)
					w = " at " + whereOf(*raceLocs[c.loc], &fn);
				report(s, "race", std::string(write ? "write" : "read") + " of memory not ordered after the " + what + " by another thread" + w + ", " + descAddr(s, a), s.model);
				s.dead = true;
				return false;
			}
		}
		if (!accessMode) {
			bool change = false;
			for (unsigned j = 0; j < k && !change; ++j) {
				const Cell& c = it->second->c[o + j];
				change = write ? !(c.wt == t && c.wclk == v.c[t]) : c.r[t] != v.c[t];
			}
			if (change) {
				if (it->second.use_count() > 1)
					it->second = std::make_shared<Shadow>(*it->second);
				if (write && !loc)
					loc = raceLoc(&s.f().bb->ins[s.f().ip]);
				for (unsigned j = 0; j < k; ++j) {
					Cell& c = it->second->c[o + j];
					if (write) {
						c.wt = (uint16_t)t;
						c.wclk = v.c[t];
						c.loc = loc;
						memset(c.r, 0, sizeof c.r);
					}
					else
						c.r[t] = v.c[t];
				}
			}
		}
		i += k;
	}
	return true;
}

static bool locate(State& s, uint64_t addr, uint64_t n, bool write, size_t& idx, uint64_t& off)
{
	++S.memChecks;
	long i = s.mem.find(addr);
	if (i >= 0) {
		Obj* o = s.mem.objs[(size_t)i].o;
		off = addr - o->base;
		if (off + n <= o->size && o->kind != O_FUNC) {
			if (write && o->kind == O_CONST) {
				lastAccess = descAddr(s, addr);
				violate(s, "write-const", "write to constant memory");
				return false;
			}
			idx = (size_t)i;
			if (s.sched && o->heapKind == 9)
				hbObject(s, 1);
			return !s.sched || n == 0 || o->kind == O_CONST || o->heapKind == 9 || raceAccess(s, addr, n, write);
		}
	}
	lastAccess = descAddr(s, addr);
	std::string k = addr < 4096 ? "null-deref" : (write ? "oob-write" : "oob-read");
	report(s, k, write ? "invalid write" : "invalid read", s.model);
	if (!violations.empty() && violations.back().kind == k && violations.back().msg.find("invalid") == 0)
		violations.back().stack = lastAccess + ", " + std::to_string(n) + " bytes; " + violations.back().stack;
	s.dead = true;
	return false;
}

static SV muxLoad(Obj* o, E t, unsigned bits, uint64_t base, int64_t scale, uint64_t tbase, unsigned width, uint64_t tmax)
{
	// value of lane at base + scale * (tbase + low 'bits' of t)
	if (bits == 0) {
		uint64_t off = base + (uint64_t)scale * tbase;
		if (tbase > tmax || off + (width + 7) / 8 > o->size)
			return SV{ (E)2, 0 }; // don't care
		return loadLane(o, off, width);
	}
	SV lo = muxLoad(o, t, bits - 1, base, scale, tbase, width, tmax);
	SV hi = muxLoad(o, t, bits - 1, base, scale, tbase | (1ull << (bits - 1)), width, tmax);
	if (lo.e == (E)2)
		return hi;
	if (hi.e == (E)2)
		return lo;
	if (!lo.e && !hi.e && lo.c == hi.c)
		return lo;
	return norm(mkIte(mkExtract(t, bits - 1, 1), toE(hi, width), toE(lo, width)));
}

// Resolve a symbolic address to one object; on return true: in-bounds is implied by pc, idx set, offE = offset expression.
static bool locateSym(State& s, E addr, uint64_t n, bool write, size_t& idx, E& offE)
{
	++S.accessSym;
	uint64_t a = evalE(addr, *s.model);
	long i = s.mem.find(a);
	bool ok = false;
	Obj* o = nullptr;
	if (i >= 0) {
		o = s.mem.objs[(size_t)i].o;
		ok = a - o->base + n <= o->size && o->kind != O_FUNC;
	}
	if (!ok) {
		size_t dummy;
		uint64_t dummy2;
		return locate(s, a, n, write, dummy, dummy2); // reports
	}
	offE = mkSub(addr, mkConst(o->base, 64));
	E inb = mkUle(offE, mkConst(o->size - n, 64));
	ModelP mo;
	Res r = solve(s.pc, mkNot(inb), s.model, mo);
	if (r == R_UNKNOWN)
		incomplete("bounds check undecided by the solver");
	if (r == R_SAT) {
		auto c = cloneState(s);
		addPc(*c, mkNot(inb));
		c->model = mo;
		work.push_back(std::move(c)); // re-executes; reports if its address is invalid
		addPc(s, inb);
	}
	if (write && o->kind == O_CONST) {
		violate(s, "write-const", "write to constant memory");
		return false;
	}
	idx = (size_t)i;
	return true;
}

// load lanes from (possibly symbolic) address. returns false if state died/forked
static bool doLoad(State& s, const SV& addr, const Layout& l, SV* out, unsigned align = 1)
{
	size_t idx;
	uint64_t off;
	uint64_t a = addr.c;
	E offE = nullptr;
	if (addr.e) {
		if (!locateSym(s, addr.e, l.size, false, idx, offE))
			return false;
		Obj* o0 = s.mem.objs[idx].o;
		// decompose offset
		E t = offE;
		int64_t scale = 1;
		uint64_t base = 0;
		if (t->kind == K_LIN && t->n == 1) {
			base = t->c;
			scale = sx(t->co[0], 64);
			t = t->k[0];
		}
		if (t->kind == K_CONCAT && t->k[t->n - 1]->isConst() && t->k[t->n - 1]->c == 0 && scale == 1 && t->n >= 2) {
			unsigned z = t->k[t->n - 1]->width;
			scale = 1ll << z;
			t = mkExtract(t, z, t->width - z);
		}
		uint64_t tm = umaxOf(t);
		if (scale > 0 && tm <= 4095 && (base < o0->size)) {
			unsigned bits = tm ? 64 - (unsigned)__builtin_clzll(tm) : 0;
			Obj* o = s.mem.w(idx);
			for (size_t k = 0; k < l.lanes.size(); ++k) {
				SV v = muxLoad(o, t, bits, base + l.lanes[k].off, scale, 0, l.lanes[k].width, tm);
				out[k] = v;
			}
			return true;
		}
		// enumerate by solver
		uint64_t v;
		E full = addr.e;
		if (!concretize(s, full, v))
			return false;
		a = v;
		(void)off;
	}
	if (!locate(s, a, l.size, false, idx, off))
		return false;
	if (align > 8 && (a % align) != 0) {
		violate(s, "misaligned", "aligned vector load from misaligned address");
		return false;
	}
	if (l.size == 0)
		return true;
	Obj* o = readObj(s, idx, off, l.size);
	for (size_t k = 0; k < l.lanes.size(); ++k)
		out[k] = loadLane(o, off + l.lanes[k].off, l.lanes[k].width);
	return true;
}
static bool doStore(State& s, const SV& addr, const Layout& l, const SV* v, unsigned align = 1)
{
	size_t idx;
	uint64_t off;
	uint64_t a = addr.c;
	if (addr.e) {
		E offE;
		if (!locateSym(s, addr.e, l.size, true, idx, offE))
			return false;
		if (!concretize(s, addr.e, a))
			return false;
	}
	if (!locate(s, a, l.size, true, idx, off))
		return false;
	if (align > 8 && (a % align) != 0) {
		violate(s, "misaligned", "aligned vector store to misaligned address");
		return false;
	}
	if (l.size == 0)
		return true;
	Obj* o = s.mem.w(idx);
	// vectors of sub-byte lanes would need bit packing
	for (size_t k = 0; k < l.lanes.size(); ++k)
		storeLane(o, off + l.lanes[k].off, l.lanes[k].width, v[k]);
	return true;
}
static bool memCopy(State& s, uint64_t d, uint64_t src, uint64_t n)
{
	if (n == 0)
		return true;
	size_t di, si;
	uint64_t doff, soff;
	if (!locate(s, src, n, false, si, soff))
		return false;
	if (!locate(s, d, n, true, di, doff))
		return false;
	Obj* so = readObj(s, si, soff, n);
	Obj* dO = s.mem.w(di);
	if (si == di)
		so = dO;
	// gather then scatter (handles overlap); reading an uninitialised byte fixes its (arbitrary) value
	std::vector<E> sym;
	std::vector<uint8_t> data(n);
	bool anySym = false;
	for (uint64_t i = 0; i < n;) {
		uint64_t off = soff + i;
		uint64_t k = std::min<uint64_t>(PG - off % PG, n - i);
		Page* p = so->pages[off / PG];
		if (!p && so->zero)
			memset(&data[i], 0, k);
		else if (p && !p->sym)
			memcpy(&data[i], p->d + off % PG, k);
		else
			for (uint64_t j = 0; j < k; ++j) {
				E e = readByte(so, off + j);
				if (e->isConst())
					data[i + j] = (uint8_t)e->c;
				else {
					if (!anySym) {
						sym.assign(n, nullptr);
						anySym = true;
					}
					sym[i + j] = e;
				}
			}
		i += k;
	}
	for (uint64_t i = 0; i < n;) {
		uint64_t off = doff + i;
		uint64_t k = std::min<uint64_t>(PG - off % PG, n - i);
		Page* p = dO->wpage(off / PG);
		memcpy(p->d + off % PG, &data[i], k);
		if (anySym)
			p->needSym();
		if (p->sym)
			for (uint64_t j = 0; j < k; ++j)
				p->sym[off % PG + j] = anySym ? sym[i + j] : nullptr;
		i += k;
	}
	return true;
}
static bool memSet(State& s, uint64_t d, const SV& v, uint64_t n)
{
	if (n == 0)
		return true;
	size_t di;
	uint64_t doff;
	if (!locate(s, d, n, true, di, doff))
		return false;
	Obj* o = s.mem.w(di);
	E e = toE(v, 8);
	for (uint64_t i = 0; i < n; ++i)
		writeByte(o, doff + i, e);
	return true;
}
static uint64_t rdU64(State& s, uint64_t a)
{
	size_t i;
	uint64_t off;
	if (!locate(s, a, 8, false, i, off))
		return 0;
	SV v = loadLane(readObj(s, i, off, 8), off, 64);
	if (v.e)
		return evalE(v.e, *s.model);
	return v.c;
}
static bool wrU(State& s, uint64_t a, uint64_t v, unsigned w)
{
	size_t i;
	uint64_t off;
	if (!locate(s, a, w / 8, true, i, off))
		return false;
	storeLane(s.mem.w(i), off, w, cv(v));
	return true;
}
static std::string rdStr(State& s, uint64_t a)
{
	std::string r;
	long i = s.mem.find(a);
	if (i < 0)
		return "?";
	Obj* o = s.mem.objs[(size_t)i].o;
	for (uint64_t off = a - o->base; off < o->size; ++off) {
		Page* p = o->pages[off / PG];
		char c = p ? (char)p->d[off % PG] : 0;
		if (!c)
			break;
		r += c;
	}
	return r;
}

#include "interp.inc"
