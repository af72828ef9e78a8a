// ------------------------------------------------------------------ control flow
static void enterBlock(State& s, BlockInfo* to)
{
	Frame& f = s.f();
	BlockInfo* from = f.bb;
	if (!to->phis.empty()) {
		static std::vector<SV> tmp;
		tmp.clear();
		for (auto& p : to->phis) {
			int o = p.in[from];
			const SV* src = o >= 0 ? &f.regs[(size_t)o] : poolVal(s, (size_t)(-o - 1));
			tmp.insert(tmp.end(), src, src + p.n);
		}
		size_t k = 0;
		for (auto& p : to->phis) {
			std::copy(tmp.begin() + (long)k, tmp.begin() + (long)(k + p.n), f.regs.begin() + p.dst);
			k += p.n;
		}
	}
	f.bb = to;
	f.ip = 0;
}
static void pushFrame(State& s, FuncInfo* fi, const std::vector<std::vector<SV>>& args, uint64_t va = 0)
{
	decode(fi);
	++fi->calls;
	Frame fr;
	fr.f = fi;
	fr.bb = fi->blocks[0].get();
	fr.regs.assign(fi->nslots, SV{ nullptr, 0 });
	for (size_t i = 0; i < fi->argSlots.size() && i < args.size(); ++i)
		for (size_t j = 0; j < args[i].size() && j < fi->argN[i]; ++j)
			fr.regs[(size_t)fi->argSlots[i] + j] = args[i][j];
	fr.va = va;
	s.t().st.push_back(std::move(fr));
	if (s.t().st.size() > 400)
		violate(s, "stack-overflow", "recursion deeper than 400 frames");
}
// continue after a completed call
static void advance(State& s, Ins& in)
{
	if (in.opc == Instruction::Invoke) {
		auto* iv = cast<InvokeInst>(in.I);
		enterBlock(s, in.parent->bmap[iv->getNormalDest()]);
	}
	else
		++s.f().ip;
}
static void popFrame(State& s)
{
	Frame& f = s.f();
	for (uint64_t a : f.allocs) {
		long i = s.mem.find(a);
		if (i >= 0 && s.mem.objs[(size_t)i].base == a)
			s.mem.remove((size_t)i);
	}
	s.t().st.pop_back();
}
static void threadExit(State& s);
static void doReturn(State& s, const SV* v, unsigned n)
{
	popFrame(s);
	if (s.t().st.empty()) {
		threadExit(s);
		return;
	}
	Frame& f = s.f();
	Ins& in = f.bb->ins[f.ip];
	if (in.dst >= 0)
		for (unsigned i = 0; i < n && i < in.n; ++i)
			f.regs[(size_t)in.dst + i] = v[i];
	advance(s, in);
}
static void setRes(State& s, Ins& in, const SV& v)
{
	if (in.dst >= 0)
		*dstp(s, in) = v;
}

// ------------------------------------------------------------------ exceptions
static const std::map<std::string, std::string> stdBases = {
	{ "_ZTISt9bad_alloc", "_ZTISt9exception" }, { "_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc" }, { "_ZTISt11logic_error", "_ZTISt9exception" },
	{ "_ZTISt13runtime_error", "_ZTISt9exception" }, { "_ZTISt12out_of_range", "_ZTISt11logic_error" }, { "_ZTISt12length_error", "_ZTISt11logic_error" },
	{ "_ZTISt16invalid_argument", "_ZTISt11logic_error" }, { "_ZTISt12domain_error", "_ZTISt11logic_error" }, { "_ZTISt12system_error", "_ZTISt13runtime_error" },
	{ "_ZTISt14overflow_error", "_ZTISt13runtime_error" }, { "_ZTISt8bad_cast", "_ZTISt9exception" }, { "_ZTISt17bad_function_call", "_ZTISt9exception" }
};
static bool typeMatches(const std::string& thrown, const std::string& want)
{
	std::string t = thrown;
	for (int i = 0; i < 8; ++i) {
		if (t == want)
			return true;
		auto it = stdBases.find(t);
		if (it != stdBases.end()) {
			t = it->second;
			continue;
		}
		// user type: look at the typeinfo initializer {vtable, name, base}
		GlobalVariable* g = M->getNamedGlobal(t);
		if (!g || !g->hasInitializer())
			return false;
		auto* cs = dyn_cast<ConstantStruct>(g->getInitializer());
		if (!cs || cs->getNumOperands() < 3)
			return false;
		t = cs->getOperand(2)->stripPointerCasts()->getName().str();
	}
	return false;
}
static void unwind(State& s)
{
	// pending exception in s.t().pending; find the innermost frame stopped at an invoke
	Thread& t = s.t();
	while (!t.st.empty()) {
		Frame& f = t.st.back();
		Ins& in = f.bb->ins[f.ip];
		if (in.opc == Instruction::Invoke) {
			auto* iv = cast<InvokeInst>(in.I);
			enterBlock(s, in.parent->bmap[iv->getUnwindDest()]);
			return;
		}
		if (t.st.size() == 1) {
			violate(s, "uncaught-exception", "exception " + shortName(t.pending.type) + " leaves the program");
			return;
		}
		popFrame(s);
	}
}
static void throwType(State& s, const std::string& type, uint64_t obj = 0)
{
	if (!obj)
		obj = s.mem.alloc(64, O_HEAP, true, 16, 16, nullptr);
	s.t().pending = Exc{ obj, type, 1 };
	unwind(s);
}
static int32_t typeId(const std::string& n)
{
	static std::map<std::string, int32_t> ids;
	auto it = ids.find(n);
	if (it != ids.end())
		return it->second;
	int32_t id = (int32_t)ids.size() + 1;
	return ids[n] = id;
}

// ------------------------------------------------------------------ threads
static bool runnable(State& s, unsigned i)
{
	Thread& t = s.th[i];
	switch (t.status) {
		case T_RUN: return true;
		case T_MUTEX: return s.mutexOwner[t.waitOn] == 0;
		case T_COND: return false;
		case T_JOIN: return s.th[t.waitOn].status == T_DONE;
		default: return false;
	}
}
static void switchTo(State& s, unsigned i)
{
	s.cur = i;
	if (s.sched) {
		s.schedTrace.push_back((int)s.vis);
		s.schedTrace.push_back((int)i);
	}
	s.th[i].yielded = false;
	if (s.th[i].status == T_MUTEX) {
		s.mutexOwner[s.th[i].waitOn] = (int)i + 1;
		hbAcquire(s, s.th[i].waitOn);
		hbObject(s, s.th[i].waitOn);
		s.th[i].status = T_RUN;
		// the blocked instruction completed
		Ins& in = s.f().bb->ins[s.f().ip];
		if (s.th[i].waitMutex == 1) { // plain lock call: return 0
			setRes(s, in, cv(0));
		}
		s.th[i].waitMutex = 0;
		advance(s, in);
	}
	else if (s.th[i].status == T_JOIN) {
		if (s.sched) {
			vcJoin(s.vc[i], s.vc[s.th[i].waitOn]);
			hbChoice(s, s.hh[s.th[i].waitOn]);
		}
		s.th[i].status = T_RUN;
		Ins& in = s.f().bb->ins[s.f().ip];
		setRes(s, in, cv(0));
		advance(s, in);
	}
}
// an equivalent interleaving was followed from here already, with at least as many preemptions left
static bool seenBefore(State& s, uint64_t tag)
{
	if (params.count("nohb"))
		return false;
	uint64_t k = mix(mix(tag, s.cur), (uint64_t)s.mallocFail * 1000 + (uint64_t)s.mallocFailed * 10 + s.phase);
	for (unsigned i = 0; i < s.th.size(); ++i)
		k = mix(k, mix(s.hh[i], s.th[i].status * 2 + s.th[i].yielded));
	if (k == s.lastKey)
		return false;
	s.lastKey = k;
	static std::unordered_map<uint64_t, int> seen;
	int left = preemptBound - s.preempt;
	auto it = seen.emplace(k, left);
	if (it.second)
		return false;
	if (it.first->second >= left) {
		++S.hbPruned;
		s.dead = true;
		return true;
	}
	it.first->second = left;
	return false;
}
// current thread cannot continue: choose another one
static void mustSwitch(State& s, bool voluntary)
{
	if (s.sched && seenBefore(s, 1))
		return;
	std::vector<unsigned> c;
	unsigned n = (unsigned)s.th.size();
	for (unsigned k = 1; k <= n; ++k) {
		unsigned i = (s.cur + k) % n;
		if (i == s.cur && voluntary)
			continue;
		if (runnable(s, i) && !(s.th[i].yielded))
			c.push_back(i);
	}
	s.spins = c.empty() ? s.spins + 1 : 0;
	if (s.spins > 200) {
		std::string d = "the threads wait for each other, spinning:";
		unsigned cur = s.cur;
		for (unsigned i = 0; i < n; ++i)
			if (runnable(s, i)) {
				s.cur = i;
				d += " [t" + std::to_string(i) + "] " + stackOf(s);
			}
		s.cur = cur;
		violate(s, "deadlock", d);
		return;
	}
	if (c.empty())
		for (unsigned k = 1; k <= n; ++k) {
			unsigned i = (s.cur + k) % n;
			if (runnable(s, i) && (i != s.cur || c.empty()))
				c.push_back(i);
		}
	if (c.empty()) {
		std::string d = "no thread can run:";
		for (unsigned i = 0; i < n; ++i) {
			static const char* nm[] = { "running", "waits for a mutex", "waits on a condition variable", "waits to join", "done" };
			d += " t" + std::to_string(i) + " " + nm[s.th[i].status] + ";";
		}
		if (s.t().st.empty())
			s.cur = 0;
		violate(s, "deadlock", d);
		return;
	}
	if (s.sched)
		for (size_t k = 1; k < c.size(); ++k) {
			auto nst = cloneState(s);
			switchTo(*nst, c[k]);
			nst->schedDone = true;
			work.push_back(std::move(nst));
		}
	switchTo(s, c[0]);
	s.schedDone = true;
}
// returns true when the visible operation may execute now
static bool schedPoint(State& s)
{
	if (!s.sched || s.th.size() < 2)
		return true;
	if (s.schedDone) {
		s.schedDone = false;
		++s.vis;
		return true;
	}
	if (seenBefore(s, 2))
		return false;
	if (s.preempt < preemptBound) {
		for (unsigned i = 0; i < s.th.size(); ++i)
			if (i != s.cur && runnable(s, i)) {
				auto n = cloneState(s);
				++n->preempt;
				switchTo(*n, i);
				n->schedDone = true;
				work.push_back(std::move(n));
			}
	}
	++s.vis;
	return true;
}
static void endPath(State& s, const char* how)
{
	++S.completed;
	(void)how;
	s.dead = true;
}
static void threadExit(State& s)
{
	if (s.cur == 0 && s.phase == 1) {
		endPath(s, "exit");
		return;
	}
	if (s.cur == 0) { // constructor finished; the driver pushes the next one
		return;
	}
	s.t().status = T_DONE;
	mustSwitch(s, true);
}

// ------------------------------------------------------------------ integer ops
static uint64_t fold(unsigned opc, uint64_t a, uint64_t b, unsigned w, bool& bad)
{
	uint64_t m = maskOf(w);
	switch (opc) {
		case Instruction::Add: return (a + b) & m;
		case Instruction::Sub: return (a - b) & m;
		case Instruction::Mul: return (a * b) & m;
		case Instruction::And: return a & b;
		case Instruction::Or: return a | b;
		case Instruction::Xor: return a ^ b;
		case Instruction::Shl: return b >= w ? 0 : (a << b) & m;
		case Instruction::LShr: return b >= w ? 0 : a >> b;
		case Instruction::AShr: return (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
		case Instruction::UDiv:
			if (!b) { bad = true; return 0; }
			return a / b;
		case Instruction::URem:
			if (!b) { bad = true; return 0; }
			return a % b;
		case Instruction::SDiv:
		case Instruction::SRem: {
			int64_t x = sx(a, w), y = sx(b, w);
			if (!y || (y == -1 && x == sx(1ull << (w - 1), w))) { bad = true; return 0; }
			return (uint64_t)(opc == Instruction::SDiv ? x / y : x % y) & m;
		}
	}
	bad = true;
	return 0;
}
static E symOp(unsigned opc, E a, E b)
{
	switch (opc) {
		case Instruction::Add: return mkAdd(a, b);
		case Instruction::Sub: return mkSub(a, b);
		case Instruction::Mul: return mkMul(a, b);
		case Instruction::And: return mkAnd(a, b);
		case Instruction::Or: return mkOr(a, b);
		case Instruction::Xor: return mkXor(a, b);
		case Instruction::Shl: return mkShl(a, b);
		case Instruction::LShr: return mkLShr(a, b);
		case Instruction::AShr: return mkAShr(a, b);
		case Instruction::UDiv: return mkUDiv(a, b);
		case Instruction::URem: return mkURem(a, b);
		case Instruction::SDiv: return mkSDiv(a, b);
		case Instruction::SRem: return mkSRem(a, b);
	}
	return nullptr;
}
static E cmpE(unsigned pred, E a, E b)
{
	switch (pred) {
		case CmpInst::ICMP_EQ: return mkEq(a, b);
		case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
		case CmpInst::ICMP_ULT: return mkUlt(a, b);
		case CmpInst::ICMP_ULE: return mkUle(a, b);
		case CmpInst::ICMP_UGT: return mkUlt(b, a);
		case CmpInst::ICMP_UGE: return mkUle(b, a);
		case CmpInst::ICMP_SLT: return mkSlt(a, b);
		case CmpInst::ICMP_SLE: return mkSle(a, b);
		case CmpInst::ICMP_SGT: return mkSlt(b, a);
		case CmpInst::ICMP_SGE: return mkSle(b, a);
	}
	return nullptr;
}
static bool cmpC(unsigned pred, uint64_t a, uint64_t b, unsigned w)
{
	switch (pred) {
		case CmpInst::ICMP_EQ: return a == b;
		case CmpInst::ICMP_NE: return a != b;
		case CmpInst::ICMP_ULT: return a < b;
		case CmpInst::ICMP_ULE: return a <= b;
		case CmpInst::ICMP_UGT: return a > b;
		case CmpInst::ICMP_UGE: return a >= b;
		case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w);
		case CmpInst::ICMP_SLE: return sx(a, w) <= sx(b, w);
		case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w);
		case CmpInst::ICMP_SGE: return sx(a, w) >= sx(b, w);
	}
	return false;
}
static SV binop(unsigned opc, const SV& a, const SV& b, unsigned w, bool& bad)
{
	if (!a.e && !b.e)
		return cv(fold(opc, a.c, b.c, w, bad));
	return norm(symOp(opc, toE(a, w), toE(b, w)));
}
// floating point: concrete exactly, symbolic operands give an arbitrary (but functionally consistent) result
static std::map<std::vector<uint64_t>, E> fpCache;
static SV fpAny(unsigned op, std::vector<SV> args, unsigned w)
{
	++S.fpApprox;
	std::vector<uint64_t> k{ op, w };
	for (auto& a : args) {
		k.push_back(a.e ? a.e->id : ~0ull);
		k.push_back(a.c);
	}
	E& e = fpCache[k];
	if (!e)
		e = mkVar("fp", w);
	return norm(e);
}
static double asD(const SV& v, unsigned w)
{
	if (w == 32) {
		uint32_t u = (uint32_t)v.c;
		float f;
		memcpy(&f, &u, 4);
		return f;
	}
	double d;
	memcpy(&d, &v.c, 8);
	return d;
}
static SV ofD(double d, unsigned w)
{
	uint64_t r = 0;
	if (w == 32) {
		float f = (float)d;
		memcpy(&r, &f, 4);
	}
	else
		memcpy(&r, &d, 8);
	return cv(r);
}

// bit string conversions between lane shapes
static void reshape(const SV* in, unsigned n, unsigned w, SV* out, unsigned m, unsigned w2)
{
	if (n == m && w == w2) {
		std::copy(in, in + n, out);
		return;
	}
	bool conc = true;
	for (unsigned i = 0; i < n; ++i)
		if (in[i].e)
			conc = false;
	if (conc && w <= 64 && w2 <= 64) {
		uint8_t bits[2048];
		unsigned p = 0;
		for (unsigned i = 0; i < n; ++i)
			for (unsigned b = 0; b < w; ++b)
				bits[p++] = (in[i].c >> b) & 1;
		p = 0;
		for (unsigned i = 0; i < m; ++i) {
			uint64_t v = 0;
			for (unsigned b = 0; b < w2; ++b)
				v |= (uint64_t)bits[p++] << b;
			out[i] = cv(v);
		}
		return;
	}
	std::vector<E> hl(n);
	for (unsigned i = 0; i < n; ++i)
		hl[n - 1 - i] = toE(in[i], w);
	E all = n == 1 ? hl[0] : mkConcat(hl);
	std::vector<SV> r(m);
	for (unsigned i = 0; i < m; ++i)
		r[i] = norm(mkExtract(all, i * w2, w2));
	std::copy(r.begin(), r.end(), out);
}

#include "handlers.inc"

static void doCall(State& s, Ins& in)
{
	auto* cb = cast<CallBase>(in.I);
	FuncInfo* fi = in.callee;
	if (auto* ia = dyn_cast<InlineAsm>(cb->getCalledOperand())) {
		inlineAsm(s, in, ia);
		return;
	}
	if (!fi) {
		uint64_t a;
		SV tv = *opnd(s, in, (unsigned)in.ops.size() - 1);
		if (!concArg(s, tv, a))
			return;
		auto it = faddr.find(a);
		if (it == faddr.end()) {
			violate(s, "bad-call", "call through invalid function pointer");
			return;
		}
		fi = it->second;
	}
	if (fi->F->isIntrinsic()) {
		intrinsic(s, in, fi);
		return;
	}
	if (fi->handler) {
		++fi->calls;
		(*fi->handler)(s, in);
		return;
	}
	if (fi->F->isDeclaration()) {
		killUnsupported(s, "call to external function " + fi->name);
		return;
	}
	std::vector<std::vector<SV>> args;
	unsigned na = cb->arg_size();
	args.reserve(na);
	for (unsigned i = 0; i < na; ++i) {
		unsigned n = laneCount(cb->getArgOperand(i)->getType());
		const SV* p = opnd(s, in, i);
		std::vector<SV> v(p, p + n);
		// byval: copy
		if (i < fi->F->arg_size() && cb->isByValArgument(i)) {
			Type* bt = cb->getParamByValType(i);
			uint64_t sz = DL->getTypeAllocSize(bt);
			uint64_t a = s.mem.alloc(sz, O_STACK, false, 64, 0, nullptr);
			s.f().allocs.push_back(a);
			if (!memCopy(s, a, v[0].c, sz))
				return;
			v[0] = cv(a);
		}
		args.push_back(std::move(v));
	}
	pushFrame(s, fi, args);
}

static void branchOn(State& s, Ins& in, E c, BlockInfo* bt, BlockInfo* bf)
{
	ModelP mT, mF;
	Br b = feasible(s, c, mT, mF);
	if (b == B_TRUE) {
		enterBlock(s, bt);
		return;
	}
	if (b == B_FALSE) {
		enterBlock(s, bf);
		return;
	}
	auto n = cloneState(s);
	// the clone takes the side not satisfied by the current model
	bool cur = evalE(c, *s.model);
	addPc(*n, cur ? mkNot(c) : c);
	n->model = cur ? mF : mT;
	enterBlock(*n, cur ? bf : bt);
	work.push_back(std::move(n));
	addPc(s, cur ? c : mkNot(c));
	enterBlock(s, cur ? bt : bf);
}

static bool acquires(AtomicOrdering o, bool vol) { return vol || isAcquireOrStronger(o); }
static bool releases(AtomicOrdering o, bool vol) { return vol || isReleaseOrStronger(o); }
static uint64_t addrOf(State& s, const SV& a) { return a.e ? evalE(a.e, *s.model) : a.c; }
static void step(State& s)
{
	Frame& f = s.f();
	Ins& in = f.bb->ins[f.ip];
	++S.instrs;
	++s.icount;
	++in.parent->icount;
	accessMode = 0;
	if (in.visible) {
		accessMode = 1;
		if (!schedPoint(s))
			return;
		if (s.sched)
			hbObject(s, addrOf(s, *opnd(s, in, in.opc == Instruction::Store ? 1 : 0)), in.opc == Instruction::Store);
	}
	if (s.dead)
		return;
	Instruction* I = in.I;
	switch (in.opc) {
		case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
		case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
		{
			const SV *a = opnd(s, in, 0), *b = opnd(s, in, 1);
			SV* d = dstp(s, in);
			bool bad = false;
			for (unsigned i = 0; i < in.n; ++i) {
				if (!a[i].e && !b[i].e && in.w <= 64)
					d[i] = cv(fold(in.opc, a[i].c, b[i].c, in.w, bad));
				else
					d[i] = norm(symOp(in.opc, toE(a[i], in.w), toE(b[i], in.w)));
			}
			++f.ip;
			return;
		}
		case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
			const SV *a = opnd(s, in, 0), *b = opnd(s, in, 1);
			for (unsigned i = 0; i < in.n; ++i) {
				if (b[i].e) {
					E z = mkEq(b[i].e, mkConst(0, in.w));
					ModelP m;
					Res r = isFalse(z) ? R_UNSAT : solve(s.pc, z, s.model, m);
					if (r == R_SAT) {
						report(s, "div-by-zero", "division by zero", m);
						addPc(s, mkNot(z));
						if (evalE(z, *s.model)) {
							ModelP m2;
							if (solveMany(s.pc, {}, nullptr, m2), solve(s.pc, mkNot(z), nullptr, m2) != R_SAT) {
								s.dead = true;
								return;
							}
							s.model = m2;
						}
					}
				}
				else if (in.w <= 64 && b[i].c == 0) {
					violate(s, "div-by-zero", "division by zero");
					return;
				}
			}
			SV* d = dstp(s, in);
			for (unsigned i = 0; i < in.n; ++i) {
				bool bad = false;
				d[i] = in.w <= 64 ? binop(in.opc, a[i], b[i], in.w, bad) : norm(symOp(in.opc, toE(a[i], in.w), toE(b[i], in.w)));
				if (bad) {
					violate(s, "div-by-zero", "division overflow");
					return;
				}
			}
			++f.ip;
			return;
		}
		case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
			const SV *a = opnd(s, in, 0), *b = opnd(s, in, 1);
			SV* d = dstp(s, in);
			for (unsigned i = 0; i < in.n; ++i) {
				if (a[i].e || b[i].e || in.w > 64) {
					d[i] = fpAny(in.opc, { a[i], b[i] }, in.w);
					continue;
				}
				double x = asD(a[i], in.w), y = asD(b[i], in.w), r = 0;
				switch (in.opc) {
					case Instruction::FAdd: r = x + y; break;
					case Instruction::FSub: r = x - y; break;
					case Instruction::FMul: r = x * y; break;
					case Instruction::FDiv: r = x / y; break;
					default: r = std::fmod(x, y);
				}
				d[i] = ofD(r, in.w);
			}
			++f.ip;
			return;
		}
		case Instruction::FNeg: {
			const SV* a = opnd(s, in, 0);
			SV* d = dstp(s, in);
			for (unsigned i = 0; i < in.n; ++i)
				d[i] = a[i].e ? fpAny(in.opc, { a[i] }, in.w) : ofD(-asD(a[i], in.w), in.w);
			++f.ip;
			return;
		}
		case Instruction::FCmp: {
			const SV *a = opnd(s, in, 0), *b = opnd(s, in, 1);
			auto* fc = cast<FCmpInst>(I);
			unsigned w = layout(I->getOperand(0)->getType()).lanes[0].width;
			SV* d = dstp(s, in);
			for (unsigned i = 0; i < in.n; ++i) {
				if (a[i].e || b[i].e || w > 64) {
					d[i] = fpAny(1000 + fc->getPredicate(), { a[i], b[i] }, 1);
					continue;
				}
				double x = asD(a[i], w), y = asD(b[i], w);
				bool un = std::isnan(x) || std::isnan(y), r = false;
				switch (fc->getPredicate()) {
					case CmpInst::FCMP_FALSE: r = false; break;
					case CmpInst::FCMP_OEQ: r = !un && x == y; break;
					case CmpInst::FCMP_OGT: r = !un && x > y; break;
					case CmpInst::FCMP_OGE: r = !un && x >= y; break;
					case CmpInst::FCMP_OLT: r = !un && x < y; break;
					case CmpInst::FCMP_OLE: r = !un && x <= y; break;
					case CmpInst::FCMP_ONE: r = !un && x != y; break;
					case CmpInst::FCMP_ORD: r = !un; break;
					case CmpInst::FCMP_UNO: r = un; break;
					case CmpInst::FCMP_UEQ: r = un || x == y; break;
					case CmpInst::FCMP_UGT: r = un || x > y; break;
					case CmpInst::FCMP_UGE: r = un || x >= y; break;
					case CmpInst::FCMP_ULT: r = un || x < y; break;
					case CmpInst::FCMP_ULE: r = un || x <= y; break;
					case CmpInst::FCMP_UNE: r = un || x != y; break;
					default: r = true; break;
				}
				d[i] = cv(r);
			}
			++f.ip;
			return;
		}
		case Instruction::ICmp: {
			const SV *a = opnd(s, in, 0), *b = opnd(s, in, 1);
			auto* ic = cast<ICmpInst>(I);
			unsigned w = layout(I->getOperand(0)->getType()).lanes[0].width;
			SV* d = dstp(s, in);
			for (unsigned i = 0; i < in.n; ++i)
				d[i] = (!a[i].e && !b[i].e) ? cv(cmpC(ic->getPredicate(), a[i].c, b[i].c, w)) : norm(cmpE(ic->getPredicate(), toE(a[i], w), toE(b[i], w)));
			++f.ip;
			return;
		}
		case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
			const SV* a = opnd(s, in, 0);
			unsigned w = layout(I->getOperand(0)->getType()).lanes[0].width;
			SV* d = dstp(s, in);
			for (unsigned i = 0; i < in.n; ++i) {
				if (!a[i].e && in.w <= 64)
					d[i] = cv(in.opc == Instruction::SExt ? (uint64_t)sx(a[i].c, w) & maskOf(in.w) : a[i].c & maskOf(in.w));
				else {
					E e = toE(a[i], w);
					d[i] = norm(in.opc == Instruction::Trunc ? mkTrunc(e, in.w) : in.opc == Instruction::ZExt ? mkZExt(e, in.w) : mkSExt(e, in.w));
				}
			}
			++f.ip;
			return;
		}
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
			const SV* a = opnd(s, in, 0);
			unsigned w = layout(I->getOperand(0)->getType()).lanes[0].width;
			SV* d = dstp(s, in);
			for (unsigned i = 0; i < in.n; ++i) {
				if (!a[i].e)
					d[i] = cv(a[i].c & maskOf(in.w));
				else
					d[i] = norm(in.w <= w ? mkTrunc(a[i].e, in.w) : mkZExt(a[i].e, in.w));
			}
			++f.ip;
			return;
		}
		case Instruction::BitCast: {
			const SV* a = opnd(s, in, 0);
			auto& li = layout(I->getOperand(0)->getType());
			std::vector<SV> tmp(in.n);
			reshape(a, (unsigned)li.lanes.size(), li.lanes[0].width, tmp.data(), in.n, in.w);
			std::copy(tmp.begin(), tmp.end(), dstp(s, in));
			++f.ip;
			return;
		}
		case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: {
			const SV* a = opnd(s, in, 0);
			unsigned w = layout(I->getOperand(0)->getType()).lanes[0].width;
			SV* d = dstp(s, in);
			for (unsigned i = 0; i < in.n; ++i) {
				SV ai = a[i];
				if (ai.e && w <= 64 && (in.opc == Instruction::UIToFP || in.opc == Instruction::SIToFP)) {
					uint64_t v0 = evalE(ai.e, *s.model); // the only value on this path?
					ModelP m2;
					if (solve(s.pc, mkNot(mkEq(ai.e, mkConst(v0, ai.e->width))), nullptr, m2) == R_UNSAT)
						ai = cv(v0);
				}
				if (ai.e || in.w > 64 || w > 64) {
					d[i] = fpAny(in.opc, { ai }, in.w);
					continue;
				}
				switch (in.opc) {
					case Instruction::FPToUI: {
						double x = asD(a[i], w);
						d[i] = (x > -1 && x < std::ldexp(1.0, (int)in.w)) ? cv((uint64_t)x) : fpAny(in.opc, { a[i] }, in.w);
						break;
					}
					case Instruction::FPToSI: {
						double x = asD(a[i], w);
						d[i] = (std::fabs(x) < std::ldexp(1.0, (int)in.w - 1)) ? cv((uint64_t)(int64_t)x & maskOf(in.w)) : fpAny(in.opc, { a[i] }, in.w);
						break;
					}
					case Instruction::UIToFP: d[i] = ofD((double)ai.c, in.w); break;
					case Instruction::SIToFP: d[i] = ofD((double)sx(ai.c, w), in.w); break;
					default: d[i] = ofD(asD(a[i], w), in.w);
				}
			}
			++f.ip;
			return;
		}
		case Instruction::Freeze: {
			const SV* a = opnd(s, in, 0);
			std::copy(a, a + in.n, dstp(s, in));
			++f.ip;
			return;
		}
		case Instruction::Select: {
			const SV *c = opnd(s, in, 0), *a = opnd(s, in, 1), *b = opnd(s, in, 2);
			bool vec = I->getOperand(0)->getType()->isVectorTy();
			SV* d = dstp(s, in);
			const Layout& l = layout(I->getType());
			for (unsigned i = 0; i < in.n; ++i) {
				const SV& cc = vec ? c[i] : c[0];
				if (!cc.e)
					d[i] = cc.c ? a[i] : b[i];
				else
					d[i] = norm(mkIte(cc.e, toE(a[i], l.lanes[i].width), toE(b[i], l.lanes[i].width)));
			}
			++f.ip;
			return;
		}
		case Instruction::GetElementPtr: {
			if (in.aux == 99) {
				killUnsupported(s, "vector GEP");
				return;
			}
			SV p = *opnd(s, in, 0);
			bool sym = p.e != nullptr;
			for (auto& t : in.terms) {
				const SV& v = t.first >= 0 ? f.regs[(size_t)t.first] : pool[(size_t)(-t.first - 1)];
				if (v.e)
					sym = true;
			}
			if (!sym) {
				uint64_t a = p.c + (uint64_t)in.cst;
				for (size_t i = 0; i < in.terms.size(); ++i) {
					int o = in.terms[i].first;
					const SV& v = o >= 0 ? f.regs[(size_t)o] : pool[(size_t)(-o - 1)];
					a += (uint64_t)(sx(v.c, in.termW[i]) * in.terms[i].second);
				}
				*dstp(s, in) = cv(a);
			}
			else {
				E e = mkAdd(toE(p, 64), mkConst((uint64_t)in.cst, 64));
				for (size_t i = 0; i < in.terms.size(); ++i) {
					int o = in.terms[i].first;
					const SV& v = o >= 0 ? f.regs[(size_t)o] : pool[(size_t)(-o - 1)];
					unsigned w = in.termW[i];
					E x = toE(v, w);
					x = w < 64 ? mkSExt(x, 64) : mkTrunc(x, 64);
					e = mkAdd(e, mkMul(x, mkConst((uint64_t)in.terms[i].second, 64)));
				}
				*dstp(s, in) = norm(e);
			}
			++f.ip;
			return;
		}
		case Instruction::Load: {
			SV a = *opnd(s, in, 0);
			static std::vector<SV> tmp;
			tmp.resize(in.n);
			unsigned al = I->getType()->isVectorTy() ? (unsigned)cast<LoadInst>(I)->getAlign().value() : 1;
			if (I->getType()->isVectorTy() && I->getType()->getScalarSizeInBits() % 8) {
				unsigned bits = in.n * in.w;
				Layout l;
				l.lanes.push_back(Lane{ 0, (uint16_t)bits, false });
				l.size = (bits + 7) / 8;
				SV v;
				if (!doLoad(s, a, l, &v))
					return;
				reshape(&v, 1, bits, tmp.data(), in.n, in.w);
			}
			else if (!doLoad(s, a, *in.lay, tmp.data(), al))
				return;
			if (s.dead)
				return;
			std::copy(tmp.begin(), tmp.end(), s.f().regs.begin() + in.dst);
			if (in.visible && s.sched && acquires(cast<LoadInst>(I)->getOrdering(), cast<LoadInst>(I)->isVolatile()))
				hbAcquire(s, addrOf(s, a));
			++s.f().ip;
			return;
		}
		case Instruction::Store: {
			SV a = *opnd(s, in, 1);
			Type* vt = I->getOperand(0)->getType();
			unsigned al = vt->isVectorTy() ? (unsigned)cast<StoreInst>(I)->getAlign().value() : 1;
			if (vt->isVectorTy() && vt->getScalarSizeInBits() % 8) {
				unsigned nn = (unsigned)in.lay->lanes.size(), ww = in.lay->lanes[0].width, bits = nn * ww;
				Layout l;
				l.lanes.push_back(Lane{ 0, (uint16_t)bits, false });
				l.size = (bits + 7) / 8;
				SV v;
				reshape(opnd(s, in, 0), nn, ww, &v, 1, bits);
				if (!doStore(s, a, l, &v))
					return;
			}
			else {
				const SV* v = opnd(s, in, 0);
				std::vector<SV> tmp(v, v + in.lay->lanes.size());
				if (!doStore(s, a, *in.lay, tmp.data(), al))
					return;
			}
			if (s.dead)
				return;
			if (in.visible && s.sched) {
				if (releases(cast<StoreInst>(I)->getOrdering(), cast<StoreInst>(I)->isVolatile()))
					hbRelease(s, addrOf(s, a), true);
				else
					s.syncs.erase(addrOf(s, a));
			}
			++s.f().ip;
			return;
		}
		case Instruction::Alloca: {
			auto* ai = cast<AllocaInst>(I);
			uint64_t n = 1;
			if (!concArg(s, *opnd(s, in, 0), n))
				return;
			uint64_t sz = DL->getTypeAllocSize(ai->getAllocatedType()) * n;
			unsigned al = (unsigned)ai->getAlign().value();
			static std::map<Ins*, std::shared_ptr<std::string>> names;
			auto& nm = names[&in];
			if (!nm)
				nm = std::make_shared<std::string>(shortName(in.parent->name) + "/" + I->getName().str());
			uint64_t a = s.mem.alloc(sz, O_STACK, false, al, al < 16 ? 16 : 0, nm);
			s.f().allocs.push_back(a);
			*dstp(s, in) = cv(a);
			++s.f().ip;
			return;
		}
		case Instruction::Br: {
			auto* br = cast<BranchInst>(I);
			if (br->isUnconditional()) {
				enterBlock(s, in.parent->bmap[br->getSuccessor(0)]);
				return;
			}
			const SV& c = *opnd(s, in, 0);
			BlockInfo *bt = in.parent->bmap[br->getSuccessor(0)], *bf = in.parent->bmap[br->getSuccessor(1)];
			if (!c.e)
				enterBlock(s, c.c ? bt : bf);
			else
				branchOn(s, in, c.e, bt, bf);
			return;
		}
		case Instruction::Switch: {
			auto* sw = cast<SwitchInst>(I);
			SV v = *opnd(s, in, 0);
			uint64_t x = v.c;
			if (v.e) {
				// fork per target block, not per value
				unsigned w = v.e->width;
				std::map<BlockInfo*, E> conds;
				E any = mkFalse();
				std::vector<BlockInfo*> order;
				for (auto& cs : sw->cases()) {
					E c = mkEq(v.e, mkConst(cs.getCaseValue()->getZExtValue(), w));
					any = mkOr(any, c);
					BlockInfo* b = in.parent->bmap[cs.getCaseSuccessor()];
					auto it = conds.find(b);
					if (it == conds.end()) {
						conds[b] = c;
						order.push_back(b);
					}
					else
						it->second = mkOr(it->second, c);
				}
				BlockInfo* db = in.parent->bmap[sw->getDefaultDest()];
				if (conds.count(db))
					conds[db] = mkOr(conds[db], mkNot(any));
				else {
					conds[db] = mkNot(any);
					order.push_back(db);
				}
				BlockInfo* mine = nullptr;
				for (BlockInfo* b : order) {
					E c = conds[b];
					if (isFalse(c))
						continue;
					if (evalE(c, *s.model)) {
						mine = b;
						continue;
					}
					ModelP m;
					Res r = solve(s.pc, c, s.model, m);
					if (r == R_UNKNOWN)
						incomplete("switch case undecided by the solver");
					if (r == R_SAT) {
						auto n = cloneState(s);
						addPc(*n, c);
						n->model = m;
						enterBlock(*n, b);
						work.push_back(std::move(n));
					}
				}
				addPc(s, conds[mine]);
				enterBlock(s, mine);
				return;
			}
			BlockInfo* to = in.parent->bmap[sw->getDefaultDest()];
			for (auto& cs : sw->cases())
				if (cs.getCaseValue()->getZExtValue() == x) {
					to = in.parent->bmap[cs.getCaseSuccessor()];
					break;
				}
			enterBlock(s, to);
			return;
		}
		case Instruction::Ret: {
			std::vector<SV> v;
			if (I->getNumOperands()) {
				const SV* p = opnd(s, in, 0);
				unsigned n = laneCount(I->getOperand(0)->getType());
				v.assign(p, p + n);
			}
			doReturn(s, v.data(), (unsigned)v.size());
			return;
		}
		case Instruction::Call:
		case Instruction::Invoke:
			doCall(s, in);
			return;
		case Instruction::Unreachable:
			violate(s, "unreachable", "unreachable code executed");
			return;
		case Instruction::ExtractElement: {
			const SV* v = opnd(s, in, 0);
			SV ix = *opnd(s, in, 1);
			unsigned n = laneCount(I->getOperand(0)->getType());
			if (ix.e) {
				SV r = v[0];
				for (unsigned i = 1; i < n; ++i)
					r = norm(mkIte(mkEq(ix.e, mkConst(i, ix.e->width)), toE(v[i], in.w), toE(r, in.w)));
				*dstp(s, in) = r;
			}
			else
				*dstp(s, in) = ix.c < n ? v[ix.c] : cv(0);
			++f.ip;
			return;
		}
		case Instruction::InsertElement: {
			const SV *v = opnd(s, in, 0), *x = opnd(s, in, 1);
			SV ix = *opnd(s, in, 2);
			std::vector<SV> r(v, v + in.n);
			if (ix.e) {
				for (unsigned i = 0; i < in.n; ++i)
					r[i] = norm(mkIte(mkEq(ix.e, mkConst(i, ix.e->width)), toE(*x, in.w), toE(r[i], in.w)));
			}
			else if (ix.c < in.n)
				r[ix.c] = *x;
			std::copy(r.begin(), r.end(), dstp(s, in));
			++f.ip;
			return;
		}
		case Instruction::ShuffleVector: {
			auto* sv = cast<ShuffleVectorInst>(I);
			const SV *a = opnd(s, in, 0), *b = opnd(s, in, 1);
			unsigned n = laneCount(I->getOperand(0)->getType());
			std::vector<SV> r(in.n);
			for (unsigned i = 0; i < in.n; ++i) {
				int m = sv->getMaskValue(i);
				r[i] = m < 0 ? cv(0) : ((unsigned)m < n ? a[m] : b[(unsigned)m - n]);
			}
			std::copy(r.begin(), r.end(), dstp(s, in));
			++f.ip;
			return;
		}
		case Instruction::ExtractValue:
		case Instruction::InsertValue: {
			Type* at = I->getOperand(0)->getType();
			ArrayRef<unsigned> idx = in.opc == Instruction::ExtractValue ? cast<ExtractValueInst>(I)->getIndices() : cast<InsertValueInst>(I)->getIndices();
			unsigned off = 0;
			Type* t = at;
			for (unsigned i : idx) {
				if (auto* st = dyn_cast<StructType>(t)) {
					for (unsigned k = 0; k < i; ++k)
						off += laneCount(st->getElementType(k));
					t = st->getElementType(i);
				}
				else {
					t = cast<ArrayType>(t)->getElementType();
					off += i * laneCount(t);
				}
			}
			if (in.opc == Instruction::ExtractValue) {
				const SV* a = opnd(s, in, 0);
				std::vector<SV> r(a + off, a + off + in.n);
				std::copy(r.begin(), r.end(), dstp(s, in));
			}
			else {
				const SV *a = opnd(s, in, 0), *b = opnd(s, in, 1);
				std::vector<SV> r(a, a + in.n);
				std::copy(b, b + laneCount(t), r.begin() + off);
				std::copy(r.begin(), r.end(), dstp(s, in));
			}
			++f.ip;
			return;
		}
		case Instruction::Fence: ++f.ip; return;
		case Instruction::AtomicRMW: {
			auto* rm = cast<AtomicRMWInst>(I);
			SV a = *opnd(s, in, 0), v = *opnd(s, in, 1), old;
			if (a.e) {
				uint64_t x;
				concretize(s, a.e, x);
				a = cv(x);
			}
			if (!doLoad(s, a, *in.lay, &old))
				return;
			unsigned w = in.w;
			SV nv = v;
			bool bad = false;
			switch (rm->getOperation()) {
				case AtomicRMWInst::Xchg: break;
				case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, v, w, bad); break;
				case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, v, w, bad); break;
				case AtomicRMWInst::And: nv = binop(Instruction::And, old, v, w, bad); break;
				case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, v, w, bad); break;
				case AtomicRMWInst::Xor: nv = binop(Instruction::Xor, old, v, w, bad); break;
				default: killUnsupported(s, "atomicrmw kind"); return;
			}
			if (!doStore(s, a, *in.lay, &nv))
				return;
			if (s.sched) {
				if (acquires(rm->getOrdering(), false)) hbAcquire(s, a.c);
				if (releases(rm->getOrdering(), false)) hbRelease(s, a.c, false);
			}
			*dstp(s, in) = old;
			++s.f().ip;
			return;
		}
		case Instruction::AtomicCmpXchg: {
			SV a = *opnd(s, in, 0), cmp = *opnd(s, in, 1), nv = *opnd(s, in, 2), old;
			if (a.e) {
				uint64_t x;
				concretize(s, a.e, x);
				a = cv(x);
			}
			if (!doLoad(s, a, *in.lay, &old))
				return;
			unsigned w = in.lay->lanes[0].width;
			E eq = mkEq(toE(old, w), toE(cmp, w));
			SV st = norm(mkIte(eq, toE(nv, w), toE(old, w)));
			if (!doStore(s, a, *in.lay, &st))
				return;
			if (s.sched) {
				auto* cx = cast<AtomicCmpXchgInst>(I);
				SV ok = norm(eq);
				bool done = !ok.e && (ok.c & 1);
				if (ok.e) incomplete("symbolic compare-exchange while exploring schedules");
				if (acquires(done ? cx->getSuccessOrdering() : cx->getFailureOrdering(), false)) hbAcquire(s, a.c);
				if (done && releases(cx->getSuccessOrdering(), false)) hbRelease(s, a.c, false);
			}
			SV* d = dstp(s, in);
			d[0] = old;
			d[1] = norm(eq);
			++s.f().ip;
			return;
		}
		case Instruction::LandingPad: {
			auto* lp = cast<LandingPadInst>(I);
			Thread& t = s.t();
			int32_t sel = 0;
			bool hit = false;
			for (unsigned i = 0; i < lp->getNumClauses() && !hit; ++i) {
				if (!lp->isCatch(i))
					continue;
				Constant* c = lp->getClause(i);
				if (c->isNullValue()) {
					sel = typeId("");
					hit = true;
				}
				else {
					std::string want = c->stripPointerCasts()->getName().str();
					if (typeMatches(t.pending.type, want)) {
						sel = typeId(want);
						hit = true;
					}
				}
			}
			if (!hit && !lp->isCleanup()) {
				// not interested: continue unwinding from the caller
				if (t.st.size() <= 1) {
					violate(s, "uncaught-exception", "exception " + shortName(t.pending.type) + " leaves the program");
					return;
				}
				popFrame(s);
				unwind(s);
				return;
			}
			SV* d = dstp(s, in);
			d[0] = cv(t.pending.obj);
			d[1] = cv((uint32_t)sel);
			++f.ip;
			return;
		}
		case Instruction::Resume: {
			const SV* v = opnd(s, in, 0);
			Thread& t = s.t();
			t.pending.obj = v[0].c;
			if (t.st.size() <= 1) {
				violate(s, "uncaught-exception", "exception " + shortName(t.pending.type) + " leaves the program");
				return;
			}
			popFrame(s);
			unwind(s);
			return;
		}
		default: {
			std::string str;
			raw_string_ostream os(str);
			I->print(os);
			killUnsupported(s, "instruction " + std::string(I->getOpcodeName()));
			return;
		}
	}
}

#include "driver.inc"
