// ------------------------------------------------------------------ driver
#include <llvm/Linker/Linker.h>
static std::vector<FuncInfo*> ctorList;
static FuncInfo* mainFn;

static void initGlobals(State& s)
{
	// addresses first
	for (auto& g : M->globals()) {
		if (g.getName().starts_with("llvm."))
			continue;
		uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64;
		if (g.isDeclaration())
			sz = std::max<uint64_t>(sz, 512);
		unsigned al = g.getAlign() ? (unsigned)g.getAlign()->value() : 16;
		bool cst = g.isConstant() && !g.isDeclaration();
		// heapKind 9: the state of the environment model (namespace env) is no shared memory of the program
		gaddr[&g] = s.mem.alloc(sz, cst ? O_CONST : O_GLOBAL, true, al, 0, std::make_shared<std::string>(g.getName().str()), g.getName().starts_with("_ZN3env") ? 9 : 0);
	}
	for (auto& f : *M)
		if (!f.isIntrinsic())
			funcAddr(&f);
	for (auto& g : M->globals()) {
		if (g.getName().starts_with("llvm.") || !g.hasInitializer())
			continue;
		if (g.getInitializer()->isNullValue() || isa<UndefValue>(g.getInitializer()))
			continue;
		std::vector<SV> v;
		flattenConst(g.getInitializer(), v);
		auto& l = layout(g.getValueType());
		long i = s.mem.find(gaddr[&g]);
		Obj* o = s.mem.w((size_t)i);
		for (size_t k = 0; k < l.lanes.size(); ++k)
			storeLane(o, l.lanes[k].off, l.lanes[k].width, v[k]);
	}
}
static void nextPhase(State& s)
{
	// main thread has an empty stack: run the next constructor or main
	uint64_t& i = s.vars["ctor"];
	if (i < ctorList.size()) {
		pushFrame(s, ctorList[i++], {});
		return;
	}
	s.phase = 1;
	std::vector<std::vector<SV>> args;
	for (size_t k = 0; k < mainFn->F->arg_size(); ++k)
		args.push_back({ cv(0) });
	pushFrame(s, mainFn, args);
}
static double rssMb()
{
	FILE* f = fopen("/proc/self/statm", "r");
	if (!f)
		return 0;
	long a = 0, b = 0;
	if (fscanf(f, "%ld %ld", &a, &b) != 2)
		b = 0;
	fclose(f);
	return (double)b * 4096.0 / 1048576.0;
}
static std::string js(const std::string& s)
{
	std::string r = "\"";
	for (char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if ((unsigned char)c < 32) r += ' ';
		else r += c;
	}
	return r + "\"";
}
static void jsModel(std::ostream& o, const std::vector<std::pair<std::string, std::string>>& m)
{
	o << "[";
	for (size_t i = 0; i < m.size(); ++i)
		o << (i ? "," : "") << "[" << js(m[i].first) << "," << js(m[i].second) << "]";
	o << "]";
}
struct PathSample { std::vector<std::pair<std::string, std::string>> model, obs; std::vector<int> sched; bool approx = false; };
static std::vector<PathSample> samples;
static uint64_t sampleSeen = 0;
static unsigned maxSamples = 6;
static uint64_t hangLimit = 60000000;

static void sampleState(State& s)
{
	// reservoir of completed paths, to be replayed against the real build
	++sampleSeen;
	size_t slot;
	if (samples.size() < maxSamples) {
		slot = samples.size();
		samples.push_back({});
	}
	else {
		slot = (size_t)(rng() % sampleSeen);
		if (slot >= maxSamples)
			return;
	}
	PathSample p;
	// a fresh solution of the whole path condition makes the sample less trivial
	p.model = modelOf(s, *s.model);
	for (auto& o : s.obs) {
		std::string h;
		char b[4];
		for (E e : o.second) {
			bool g = false;
			if (!e->isConst())
				for (uint32_t v : varsOf(e))
					if (g_vars[v].garbage || g_vars[v].name == "fp")
						g = true;
			if (g)
				h += "??";
			else {
				snprintf(b, sizeof b, "%02x", (unsigned)evalE(e, *s.model));
				h += b;
			}
		}
		p.obs.push_back({ o.first, h });
	}
	for (E e : s.pc)
		for (uint32_t v : varsOf(e))
			if (g_vars[v].garbage || g_vars[v].name == "fp")
				p.approx = true;
	p.sched = s.schedTrace;
	if (s.th.size() > 1 && !s.sched)
		p.approx = true;
	samples[slot] = p;
}

int main(int argc, char** argv)
{
	{ // the evaluator and the simplifier recurse
		struct rlimit rl;
		getrlimit(RLIMIT_STACK, &rl);
		if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ul << 30)) {
			rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (4ul << 30) : rl.rlim_max;
			if (setrlimit(RLIMIT_STACK, &rl) == 0 && !getenv("SYMX_REEXEC")) {
				setenv("SYMX_REEXEC", "1", 1);
				execv("/proc/self/exe", argv);
			}
		}
	}
	T0 = std::chrono::steady_clock::now();
	std::vector<std::string> files;
	std::string out = "-";
	uint64_t seed = 1;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "-o") out = nx();
		else if (a == "-t") timeLimit = atof(nx().c_str());
		else if (a == "-m") memLimitMb = atof(nx().c_str());
		else if (a == "-q") g_timeoutMs = (unsigned)atoi(nx().c_str());
		else if (a == "-search") searchMode = nx();
		else if (a == "-seed") seed = strtoull(nx().c_str(), 0, 0);
		else if (a == "-repo") repoRoot = nx();
		else if (a == "-maxviol") maxViol = (unsigned)atoi(nx().c_str());
		else if (a == "-hang") hangLimit = strtoull(nx().c_str(), 0, 0);
		else if (a == "-samples") maxSamples = (unsigned)atoi(nx().c_str());
		else if (a == "-p") {
			std::string p = nx();
			size_t e = p.find('=');
			params[p.substr(0, e)] = e == std::string::npos ? "1" : p.substr(e + 1);
		}
		else files.push_back(a);
	}
	rng.seed(seed);
	SMDiagnostic err;
	for (auto& f : files) {
		auto m = parseIRFile(f, err, LC);
		if (!m) {
			err.print("symx", errs());
			return 3;
		}
		if (!M)
			M = std::move(m);
		else if (Linker::linkModules(*M, std::move(m))) {
			fprintf(stderr, "link error\n");
			return 3;
		}
	}
	DL = &M->getDataLayout();
	registerHandlers();
	// module definitions win over models of library functions
	for (auto& f : *M)
		if (!f.isDeclaration() && handlers.count(f.getName().str()) && f.getName() != "__clang_call_terminate")
			handlers.erase(f.getName().str());
	auto s0 = std::make_unique<State>();
	s0->model = std::make_shared<Model>();
	s0->th.emplace_back();
	initGlobals(*s0);
	if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) {
		std::vector<std::pair<uint64_t, FuncInfo*>> l;
		if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
			for (auto& op : ca->operands()) {
				auto* cs = cast<ConstantStruct>(op);
				if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
					l.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), getFunc(f) });
			}
		std::stable_sort(l.begin(), l.end(), [](auto& a, auto& b) { return a.first < b.first; });
		for (auto& p : l)
			ctorList.push_back(p.second);
	}
	Function* mf = M->getFunction("main");
	if (!mf) {
		fprintf(stderr, "no main\n");
		return 3;
	}
	mainFn = getFunc(mf);
	work.push_back(std::move(s0));
	bool timeout = false, memout = false;
	uint64_t tick = 0;
	uint64_t lastSample = 0;
	while (!work.empty() && !timeout) {
		if (searchMode == "random" || (searchMode == "mix" && (S.paths & 1))) {
			size_t k = (size_t)(rng() % work.size());
			std::swap(work[k], work.back());
		}
		std::unique_ptr<State> s = std::move(work.back());
		work.pop_back();
		while (!s->dead) {
			if (s->th[s->cur].st.empty() && s->cur == 0 && s->phase == 0)
				nextPhase(*s);
			step(*s);
			if (s->icount > hangLimit && !s->dead)
				violate(*s, "hang", "does not end");
			if ((++tick & 1023) == 0) {
				if (now() > timeLimit) {
					timeout = true;
					break;
				}
				if ((tick & 0xfffff) == 0 && rssMb() > memLimitMb) {
					memout = timeout = true;
					break;
				}
			}
		}
		if (timeout) {
			work.push_back(std::move(s));
			break;
		}
		++S.paths;
		if (S.completed > lastSample) {
			lastSample = S.completed;
			sampleState(*s);
		}
		if (now() > timeLimit)
			timeout = true;
		if ((S.paths & 63) == 0 && rssMb() > memLimitMb)
			memout = timeout = true;
		if (violations.size() >= maxViol)
			break;
	}
	if (!work.empty() && !timeout)
		incomplete("stopped at the violation limit");
	if (timeout && !work.empty())
		incomplete(memout ? "memory limit" : "time limit");
	std::ofstream fo;
	std::ostream* os = &std::cout;
	if (out != "-") {
		fo.open(out);
		os = &fo;
	}
	std::ostream& o = *os;
	o << "{\n\"time\":" << now() << ",\"exhausted\":" << (work.empty() && S.incomplete == 0 && S.unsupported == 0 ? "true" : "false") << ",\"pending_states\":" << work.size() << ",\n";
	o << "\"paths\":" << S.paths << ",\"completed\":" << S.completed << ",\"states\":" << S.states << ",\"forks\":" << S.forks << ",\"instructions\":" << S.instrs << ",\"asserts\":" << S.assertsChecked << ",\"assert_queries\":" << S.assertQueries
	  << ",\"assume_ended\":" << S.assumeEnded << ",\"equivalent_pruned\":" << S.hbPruned << ",\"mem_checks\":" << S.memChecks << ",\"symbolic_accesses\":" << S.accessSym << ",\"unsupported\":" << S.unsupported << ",\"incomplete\":" << S.incomplete << ",\"unknown_asserts\":" << S.unknownAsserts << ",\"fp_approx\":" << S.fpApprox << ",\n";
	o << "\"queries\":" << g_ss.queries << ",\"sat_calls\":" << g_ss.satcalls << ",\"sat_time\":" << g_ss.sattime << ",\"crosschecks\":" << g_ss.crosschecks << ",\"z3_calls\":" << g_ss.z3calls << ",\"cache_hits\":" << g_ss.cacheHits << ",\"fixed_hits\":" << g_ss.fixedHits << ",\"model_hits\":" << g_ss.modelHits << ",\"unknown\":" << g_ss.unknowns << ",\"z3_time\":" << g_ss.z3time << ",\"max_query\":" << g_ss.maxq << ",\"exprs\":" << g_exprCount << ",\"vars\":" << g_vars.size() << ",\"rss_mb\":" << rssMb() << ",\n";
	auto jm = [&](const char* k, const std::map<std::string, uint64_t>& m) {
		o << "\"" << k << "\":{";
		bool first = true;
		for (auto& p : m) {
			o << (first ? "" : ",") << js(p.first) << ":" << p.second;
			first = false;
		}
		o << "},\n";
	};
	jm("covers", covers);
	jm("unsupported_msgs", unsupportedMsgs);
	jm("incomplete_msgs", incompleteMsgs);
	std::map<std::string, uint64_t> fns;
	for (auto& p : finfo)
		if (p.second->repo && p.second->icount)
			fns[shortName(p.second->name)] += p.second->icount;
	jm("functions", fns);
	o << "\"samples\":[";
	for (size_t i = 0; i < samples.size(); ++i) {
		o << (i ? ",\n" : "") << "{\"model\":";
		jsModel(o, samples[i].model);
		o << ",\"obs\":";
		jsModel(o, samples[i].obs);
		o << ",\"approx\":" << (samples[i].approx ? "true" : "false") << ",\"sched\":[";
		for (size_t k = 0; k < samples[i].sched.size(); ++k)
			o << (k ? "," : "") << samples[i].sched[k];
		o << "]}";
	}
	o << "],\n\"violations\":[";
	for (size_t i = 0; i < violations.size(); ++i) {
		auto& v = violations[i];
		o << (i ? ",\n" : "") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"func\":" << js(v.func) << ",\"where\":" << js(v.where) << ",\"count\":" << v.count << ",\"stack\":" << js(v.stack) << ",\"sched\":[";
		for (size_t k = 0; k < v.sched.size(); ++k)
			o << (k ? "," : "") << v.sched[k];
		o << "],\"model\":";
		jsModel(o, v.model);
		o << ",\"alts\":[";
		for (size_t k = 0; k < v.alts.size(); ++k) {
			o << (k ? "," : "") << "{\"model\":";
			jsModel(o, v.alts[k].first);
			o << ",\"sched\":[";
			for (size_t q = 0; q < v.alts[k].second.size(); ++q)
				o << (q ? "," : "") << v.alts[k].second[q];
			o << "]}";
		}
		o << "]}";
	}
	o << "]}\n";
	o.flush();
	if (getenv("SYMX_PROF")) exit(0);
	_exit(0);
}
