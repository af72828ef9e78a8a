#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>

SolverStats g_ss;
unsigned g_timeoutMs = 20000;
static const int64_t g_satBudget = 20000;

// ------------------------------------------------------------ evaluation
static std::vector<uint64_t> evVal;
static std::vector<uint32_t> evStamp;
static uint32_t evCur = 1;
static uint64_t evModel = 0;
uint64_t g_modelUid = 0;

static uint64_t evalRec(E e, const Model& m)
{
	if (e->kind == K_CONST)
		return e->c;
	if (evStamp[e->id] == evCur)
		return evVal[e->id];
	uint64_t r = 0;
	unsigned w = e->width;
	uint64_t mk = maskOf(w);
	auto K = [&](unsigned i) { return evalRec(e->k[i], m); };
	switch (e->kind) {
		case K_VAR: r = m.get((uint32_t)e->c) & mk; break;
		case K_LIN:
			r = e->c;
			for (unsigned i = 0; i < e->n; ++i)
				r += K(i) * e->co[i];
			break;
		case K_MUL: r = K(0) * K(1); break;
		case K_UDIV: { uint64_t a = K(0), b = K(1); r = b ? a / b : mk; break; }
		case K_UREM: { uint64_t a = K(0), b = K(1); r = b ? a % b : a; break; }
		case K_SDIV: {
			int64_t a = sx(K(0), w), b = sx(K(1), w);
			r = b == 0 ? (a < 0 ? 1 : mk) : (b == -1 ? (uint64_t)0 - (uint64_t)a : (uint64_t)(a / b));
			break;
		}
		case K_SREM: {
			int64_t a = sx(K(0), w), b = sx(K(1), w);
			r = b == 0 ? (uint64_t)a : (b == -1 ? 0 : (uint64_t)(a % b));
			break;
		}
		case K_AND: r = K(0) & K(1); break;
		case K_OR: r = K(0) | K(1); break;
		case K_XOR: r = K(0) ^ K(1); break;
		case K_SHL: { uint64_t s = K(1); r = s >= w ? 0 : K(0) << s; break; }
		case K_LSHR: { uint64_t s = K(1); r = s >= w ? 0 : K(0) >> s; break; }
		case K_ASHR: { uint64_t s = K(1); int64_t a = sx(K(0), w); r = (uint64_t)(a >> (s >= w ? w - 1 : s)); break; }
		case K_CONCAT:
			for (unsigned i = 0; i < e->n; ++i)
				r = (e->k[i]->width >= 64 ? 0 : r << e->k[i]->width) | K(i);
			break;
		case K_EXTRACT: r = K(0) >> e->c; break;
		case K_SEXT: r = (uint64_t)sx(K(0), e->k[0]->width); break;
		case K_EQ: r = K(0) == K(1); break;
		case K_ULT: r = K(0) < K(1); break;
		case K_SLT: r = sx(K(0), e->k[0]->width) < sx(K(1), e->k[0]->width); break;
		case K_ITE: r = K(0) ? K(1) : K(2); break;
		default: abort();
	}
	r &= mk;
	evStamp[e->id] = evCur;
	evVal[e->id] = r;
	return r;
}
uint64_t evalE(E e, const Model& m)
{
	if (e->kind == K_CONST)
		return e->c;
	if (evStamp.size() < g_exprCount) {
		evStamp.resize(g_exprCount * 2, 0);
		evVal.resize(g_exprCount * 2, 0);
	}
	if (evModel != m.uid) {
		++evCur;
		evModel = m.uid;
	}
	return evalRec(e, m);
}

// ------------------------------------------------------------ z3 translation
static Z3_context zc = nullptr;
static std::unordered_map<uint32_t, Z3_ast> bvCache, boolCache;
static std::unordered_map<uint32_t, Z3_ast> varAst;
static size_t converted = 0;
static void zerr(Z3_context, Z3_error_code c) { fprintf(stderr, "z3 error %d: %s\n", (int)c, Z3_get_error_msg(zc, c)); exit(3); }
static void zinit()
{
	if (zc) {
		Z3_del_context(zc);
		bvCache.clear();
		boolCache.clear();
		varAst.clear();
	}
	Z3_config cfg = Z3_mk_config();
	zc = Z3_mk_context(cfg); // non-rc: asts live as long as the context
	Z3_set_error_handler(zc, zerr);
	Z3_del_config(cfg);
	converted = 0;
}
static Z3_ast toBv(E e);
static Z3_ast toBool(E e);
static Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(zc, v, Z3_mk_bv_sort(zc, w)); }
static Z3_ast zvar(E e)
{
	uint32_t id = (uint32_t)e->c;
	auto it = varAst.find(id);
	if (it != varAst.end())
		return it->second;
	Z3_symbol s = Z3_mk_int_symbol(zc, (int)id);
	return varAst[id] = Z3_mk_const(zc, s, Z3_mk_bv_sort(zc, e->width));
}
static Z3_ast toBool(E e)
{
	if (e->kind == K_CONST)
		return e->c ? Z3_mk_true(zc) : Z3_mk_false(zc);
	auto it = boolCache.find(e->id);
	if (it != boolCache.end())
		return it->second;
	Z3_ast r;
	switch (e->kind) {
		case K_AND: { Z3_ast a[2] = { toBool(e->k[0]), toBool(e->k[1]) }; r = Z3_mk_and(zc, 2, a); break; }
		case K_OR: { Z3_ast a[2] = { toBool(e->k[0]), toBool(e->k[1]) }; r = Z3_mk_or(zc, 2, a); break; }
		case K_XOR:
			if (e->k[1]->isConst())
				r = Z3_mk_not(zc, toBool(e->k[0]));
			else
				r = Z3_mk_xor(zc, toBool(e->k[0]), toBool(e->k[1]));
			break;
		case K_EQ: r = Z3_mk_eq(zc, toBv(e->k[0]), toBv(e->k[1])); break;
		case K_ULT: r = Z3_mk_bvult(zc, toBv(e->k[0]), toBv(e->k[1])); break;
		case K_SLT: r = Z3_mk_bvslt(zc, toBv(e->k[0]), toBv(e->k[1])); break;
		case K_ITE: r = Z3_mk_ite(zc, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
		default: r = Z3_mk_eq(zc, toBv(e), num(1, 1)); break;
	}
	++converted;
	boolCache[e->id] = r;
	return r;
}
static Z3_ast toBv(E e)
{
	if (e->kind == K_CONST)
		return num(e->c, e->width);
	if (e->kind == K_VAR)
		return zvar(e);
	auto it = bvCache.find(e->id);
	if (it != bvCache.end())
		return it->second;
	unsigned w = e->width;
	Z3_ast r;
	if (w == 1 && e->kind != K_EXTRACT) {
		r = Z3_mk_ite(zc, toBool(e), num(1, 1), num(0, 1));
		bvCache[e->id] = r;
		return r;
	}
	auto K = [&](unsigned i) { return toBv(e->k[i]); };
	switch (e->kind) {
		case K_LIN: {
			r = nullptr;
			for (unsigned i = 0; i < e->n; ++i) {
				Z3_ast t = K(i);
				if (e->co[i] == maskOf(w)) {
					r = r ? Z3_mk_bvsub(zc, r, t) : Z3_mk_bvneg(zc, t);
					continue;
				}
				if (e->co[i] != 1)
					t = Z3_mk_bvmul(zc, t, num(e->co[i], w));
				r = r ? Z3_mk_bvadd(zc, r, t) : t;
			}
			if (e->c)
				r = Z3_mk_bvadd(zc, r, num(e->c, w));
			break;
		}
		case K_MUL: r = Z3_mk_bvmul(zc, K(0), K(1)); break;
		case K_UDIV: r = Z3_mk_bvudiv(zc, K(0), K(1)); break;
		case K_SDIV: r = Z3_mk_bvsdiv(zc, K(0), K(1)); break;
		case K_UREM: r = Z3_mk_bvurem(zc, K(0), K(1)); break;
		case K_SREM: r = Z3_mk_bvsrem(zc, K(0), K(1)); break;
		case K_AND: r = Z3_mk_bvand(zc, K(0), K(1)); break;
		case K_OR: r = Z3_mk_bvor(zc, K(0), K(1)); break;
		case K_XOR: r = Z3_mk_bvxor(zc, K(0), K(1)); break;
		case K_SHL: r = Z3_mk_bvshl(zc, K(0), K(1)); break;
		case K_LSHR: r = Z3_mk_bvlshr(zc, K(0), K(1)); break;
		case K_ASHR: r = Z3_mk_bvashr(zc, K(0), K(1)); break;
		case K_CONCAT:
			r = K(0);
			for (unsigned i = 1; i < e->n; ++i)
				r = Z3_mk_concat(zc, r, K(i));
			break;
		case K_EXTRACT: r = Z3_mk_extract(zc, (unsigned)e->c + w - 1, (unsigned)e->c, K(0)); break;
		case K_SEXT: r = Z3_mk_sign_ext(zc, w - e->k[0]->width, K(0)); break;
		case K_ITE: r = Z3_mk_ite(zc, toBool(e->k[0]), K(1), K(2)); break;
		default: abort();
	}
	++converted;
	bvCache[e->id] = r;
	return r;
}

// ------------------------------------------------------------ query cache
struct QRes { Res r; std::vector<std::pair<uint32_t, uint64_t>> vals; };
static std::unordered_map<std::string, QRes> qcache;
static double crossTime = 0;

static void flattenAnd(E e, std::vector<E>& out)
{
	if (e->kind == K_AND && e->width == 1) {
		flattenAnd(e->k[0], out);
		flattenAnd(e->k[1], out);
	}
	else
		out.push_back(e);
}

Res solveMany(const std::vector<E>& pc, const std::vector<E>& conds, const ModelP& base, ModelP& out)
{
	++g_ss.queries;
	std::vector<E> extra;
	for (E c : conds) {
		if (isFalse(c))
			return R_UNSAT;
		if (!isTrue(c))
			flattenAnd(c, extra);
	}
	if (extra.empty()) {
		out = base;
		return R_SAT;
	}
	// base model quick check (base satisfies pc)
	if (base) {
		bool ok = true;
		for (E c : extra)
			if (!evalE(c, *base)) {
				ok = false;
				break;
			}
		if (ok) {
			++g_ss.modelHits;
			out = base;
			return R_SAT;
		}
	}
	// slice
	std::set<uint32_t> vs;
	for (E c : extra)
		for (uint32_t v : varsOf(c))
			vs.insert(v);
	// every variable of the query is fixed by the path: the base model has the only possible values
	if (base) {
		size_t fixed = 0;
		std::set<uint32_t> fx;
		for (E c : pc)
			if (c->kind == K_EQ) {
				E x = c->k[0]->kind == K_VAR && c->k[1]->isConst() ? c->k[0] : c->k[1]->kind == K_VAR && c->k[0]->isConst() ? c->k[1] : nullptr;
				if (x && vs.count((uint32_t)x->c) && fx.insert((uint32_t)x->c).second)
					++fixed;
			}
		if (fixed == vs.size()) {
			++g_ss.fixedHits;
			return R_UNSAT;
		}
	}
	std::vector<E> cs = extra, slice;
	std::vector<char> used(pc.size(), 0);
	bool grow = true;
	while (grow) {
		grow = false;
		for (size_t i = 0; i < pc.size(); ++i) {
			if (used[i])
				continue;
			const auto& pv = varsOf(pc[i]);
			bool hit = false;
			for (uint32_t v : pv)
				if (vs.count(v)) {
					hit = true;
					break;
				}
			if (hit) {
				used[i] = 1;
				grow = true;
				cs.push_back(pc[i]);
				slice.push_back(pc[i]);
				vs.insert(pv.begin(), pv.end());
			}
		}
	}
	std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
	cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
	std::string k;
	k.reserve(cs.size() * 4);
	for (E c : cs)
		k.append((const char*)&c->id, 4);
	auto deliver = [&](const QRes& q) {
		if (q.r == R_SAT) {
			auto m = std::make_shared<Model>(base ? *base : Model());
			for (auto& p : q.vals)
				m->set(p.first, p.second);
			out = m;
		}
		return q.r;
	};
	auto it = qcache.find(k);
	if (it != qcache.end()) {
		++g_ss.cacheHits;
		return deliver(it->second);
	}
	auto t0 = std::chrono::steady_clock::now();
	QRes q{ R_UNKNOWN, {} };
	q.r = satSolve(pc, slice, extra, vs, g_satBudget, q.vals);
	++g_ss.satcalls;
	double es = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	g_ss.sattime += es;
	if (es > g_ss.maxq)
		g_ss.maxq = es;
	// part of the refutations is confirmed by the second solver
	Res first = q.r;
	if (q.r == R_UNSAT && g_ss.crosschecks < 40 && crossTime < 3 && (g_ss.satcalls < 12 || g_ss.satcalls % 256 == 0)) {
		q.r = R_UNKNOWN;
		++g_ss.crosschecks;
	}
	t0 = std::chrono::steady_clock::now();
	if (q.r == R_UNKNOWN && (!zc || converted > 4000000))
		zinit();
	// the SMT solver decides what the incremental solver left open; if it gives up, its default strategy gets a second chance
	for (int attempt = 0; attempt < (first == R_UNSAT ? 1 : 2) && q.r == R_UNKNOWN; ++attempt) {
		Z3_solver s = attempt == 0 ? Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV")) : Z3_mk_solver(zc);
		Z3_solver_inc_ref(zc, s);
		Z3_params p = Z3_mk_params(zc);
		Z3_params_inc_ref(zc, p);
		Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), first == R_UNSAT ? 1500 : attempt == 0 ? g_timeoutMs : g_timeoutMs / 4);
		Z3_solver_set_params(zc, s, p);
		for (E c : cs)
			Z3_solver_assert(zc, s, toBool(c));
		Z3_lbool r = Z3_solver_check(zc, s);
		++g_ss.z3calls;
		if (r == Z3_L_FALSE)
			q.r = R_UNSAT;
		else if (r == Z3_L_TRUE) {
			q.r = R_SAT;
			Z3_model m = Z3_solver_get_model(zc, s);
			Z3_model_inc_ref(zc, m);
			for (uint32_t v : vs) {
				Z3_ast o;
				uint64_t val = 0;
				auto va = varAst.find(v);
				if (va != varAst.end() && Z3_model_eval(zc, m, va->second, true, &o))
					Z3_get_numeral_uint64(zc, o, &val);
				q.vals.push_back({ v, val });
			}
			Z3_model_dec_ref(zc, m);
		}
		Z3_params_dec_ref(zc, p);
		Z3_solver_dec_ref(zc, s);
	}
	if (first == R_UNSAT && q.r == R_SAT) {
		fprintf(stderr, "internal error: solvers disagree\n");
		exit(3);
	}
	if (first == R_UNSAT)
		q.r = R_UNSAT;
	double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	g_ss.z3time += el;
	if (first == R_UNSAT)
		crossTime += el;
	if (el > g_ss.maxq)
		g_ss.maxq = el;
	if (q.r == R_UNKNOWN)
		++g_ss.unknowns;
	if (q.r == R_SAT) {
		// independent check of the solver's answer against our own evaluator
		auto m = std::make_shared<Model>(base ? *base : Model());
		for (auto& pr : q.vals)
			m->set(pr.first, pr.second);
		for (E c : cs)
			if (!evalE(c, *m)) {
				fprintf(stderr, "internal error: model does not satisfy query\n");
				exit(3);
			}
	}
	if (qcache.size() > 2000000)
		qcache.clear();
	qcache[k] = q;
	return deliver(q);
}
Res solve(const std::vector<E>& pc, E cond, const ModelP& base, ModelP& out)
{
	std::vector<E> v{ cond };
	return solveMany(pc, v, base, out);
}
std::string toSmt2(const std::vector<E>& cs)
{
	if (!zc)
		zinit();
	std::vector<Z3_ast> as;
	for (E c : cs)
		as.push_back(toBool(c));
	if (as.empty())
		as.push_back(Z3_mk_true(zc));
	Z3_ast last = as.back();
	as.pop_back();
	return Z3_benchmark_to_smtlib_string(zc, "q", "QF_BV", "unknown", "", (unsigned)as.size(), as.data(), last);
}
