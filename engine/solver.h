#pragma once
#include "expr.h"
#include <memory>
#include <unordered_map>
#include <map>
#include <set>

extern uint64_t g_modelUid;
struct Model
{
	std::vector<uint64_t> v; // by variable id, default 0
	uint64_t uid = ++g_modelUid;
	Model() {}
	Model(const Model& o) : v(o.v) {}
	uint64_t get(uint32_t id) const { return id < v.size() ? v[id] : 0; }
	void set(uint32_t id, uint64_t x)
	{
		uid = ++g_modelUid;
		if (v.size() <= id)
			v.resize(id + 1, 0);
		v[id] = x;
	}
};
typedef std::shared_ptr<Model> ModelP;
uint64_t evalE(E e, const Model& m); // width<=64

enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats { uint64_t queries = 0, satcalls = 0, crosschecks = 0, z3calls = 0, cacheHits = 0, fixedHits = 0, modelHits = 0, unknowns = 0; double sattime = 0; double z3time = 0; double maxq = 0; };
extern SolverStats g_ss;
extern unsigned g_timeoutMs;
// Is pc && cond satisfiable? On SAT, out = full model (base overwritten by slice values).
Res solve(const std::vector<E>& pc, E cond, const ModelP& base, ModelP& out);
// Convenience with several extra conjuncts
Res solveMany(const std::vector<E>& pc, const std::vector<E>& conds, const ModelP& base, ModelP& out);
std::string toSmt2(const std::vector<E>& cs);

// incremental bit-blasting SAT solver (sat.cpp); R_UNKNOWN when the conflict budget is exhausted
Res satSolve(const std::vector<E>& pc, const std::vector<E>& slice, const std::vector<E>& extra, const std::set<uint32_t>& vars, int64_t budget, std::vector<std::pair<uint32_t, uint64_t>>& vals);
