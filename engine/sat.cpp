// Bit-blasting of bit-vector terms into incremental SAT solvers (MiniSat). Every term is blasted once; a solver has the
// constraints of one path, a query is solved under assumptions.
#include "solver.h"
#include <minisat/core/Solver.h>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <cstdio>
#include <cstdlib>

namespace
{
	using Minisat::Lit;
	using Minisat::mkLit;
	typedef int L; // literal: 2*var+sign ; 0 = true, 1 = false (variable 0 is fixed to true... literal 0 positive)
	struct Gate { L a, b, c; uint8_t kind; }; // 0 input, 1 and, 2 xor, 3 ite(a,b,c), 4 maj
	struct Key
	{
		L a, b, c;
		uint8_t k;
		bool operator==(const Key& o) const { return a == o.a && b == o.b && c == o.c && k == o.k; }
	};
	struct KH
	{
		size_t operator()(const Key& k) const
		{
			uint64_t h = (uint64_t)(uint32_t)k.a * 0x9E3779B97F4A7C15ull;
			h ^= ((uint64_t)(uint32_t)k.b + (h << 6) + (h >> 2)) * 0xC2B2AE3D27D4EB4Full;
			h ^= ((uint64_t)(uint32_t)k.c + (h << 6) + (h >> 2)) * 0x165667B19E3779F9ull;
			return (size_t)(h ^ k.k ^ (h >> 29));
		}
	};
	struct Blaster
	{
		std::vector<Gate> gates;
		// open addressing: gate -> literal (0: empty)
		struct Table
		{
			struct S { Key k; L v; };
			std::vector<S> t = std::vector<S>(1 << 16, S{ Key{ 0, 0, 0, 0 }, 0 });
			size_t n = 0;
			L& operator[](const Key& k)
			{
				if (n * 2 > t.size()) {
					std::vector<S> o = std::move(t);
					t.assign(o.size() * 2, S{ Key{ 0, 0, 0, 0 }, 0 });
					for (auto& s : o)
						if (s.k.k)
							slot(s.k) = s;
				}
				S& s = slot(k);
				if (!s.k.k) {
					s.k = k;
					++n;
				}
				return s.v;
			}
			S& slot(const Key& k)
			{
				size_t i = KH()(k) & (t.size() - 1);
				while (t[i].k.k && !(t[i].k == k))
					i = (i + 1) & (t.size() - 1);
				return t[i];
			}
		} hash;
		std::vector<std::unique_ptr<std::vector<L>>> bits; // expr id -> literals
		Blaster()
		{
			newVar();
		}
		L newVar()
		{
			int v = (int)gates.size();
			gates.push_back(Gate{ 0, 0, 0, 0 });
			return v * 2;
		}
		enum : L { T = 0, F = 1 };
		L And(L a, L b)
		{
			if (a == F || b == F || a == (b ^ 1)) return F;
			if (a == T || a == b) return b;
			if (b == T) return a;
			if (a > b) std::swap(a, b);
			L& r = hash[Key{ a, b, 0, 1 }];
			if (r) return r;
			L v = newVar();
			r = v;
			gates[v >> 1] = Gate{ a, b, 0, 1 };
			return v;
		}
		L Or(L a, L b) { return And(a ^ 1, b ^ 1) ^ 1; }
		L Xor(L a, L b)
		{
			if (a == T) return b ^ 1;
			if (a == F) return b;
			if (b == T) return a ^ 1;
			if (b == F) return a;
			if (a == b) return F;
			if (a == (b ^ 1)) return T;
			L flip = (a & 1) ^ (b & 1);
			a &= ~1;
			b &= ~1;
			if (a > b) std::swap(a, b);
			L& r = hash[Key{ a, b, 0, 2 }];
			if (r) return r ^ flip;
			L v = newVar();
			r = v;
			gates[v >> 1] = Gate{ a, b, 0, 2 };
			return v ^ flip;
		}
		L Ite(L c, L a, L b)
		{
			if (c == T) return a;
			if (c == F) return b;
			if (a == b) return a;
			if (a == (b ^ 1)) return Xor(c, b);
			if (a == T || a == c) return Or(c, b);
			if (a == F || a == (c ^ 1)) return And(c ^ 1, b);
			if (b == T || b == (c ^ 1)) return Or(c ^ 1, a);
			if (b == F || b == c) return And(c, a);
			if (c & 1) { c ^= 1; std::swap(a, b); }
			L flip = a & 1;
			if (flip) { a ^= 1; b ^= 1; }
			L& r = hash[Key{ c, a, b, 3 }];
			if (r) return r ^ flip;
			L v = newVar();
			r = v;
			gates[v >> 1] = Gate{ c, a, b, 3 };
			return v ^ flip;
		}
		L Maj(L a, L b, L c)
		{
			if (a == b) return a;
			if (a == (b ^ 1)) return c;
			if (a == c) return a;
			if (a == (c ^ 1)) return b;
			if (b == c) return b;
			if (b == (c ^ 1)) return a;
			if (a <= 1) return a == T ? Or(b, c) : And(b, c);
			if (b <= 1) return b == T ? Or(a, c) : And(a, c);
			if (c <= 1) return c == T ? Or(a, b) : And(a, b);
			if (a > b) std::swap(a, b);
			if (b > c) std::swap(b, c);
			if (a > b) std::swap(a, b);
			L& r = hash[Key{ a, b, c, 4 }];
			if (r) return r;
			L v = newVar();
			r = v;
			gates[v >> 1] = Gate{ a, b, c, 4 };
			return v;
		}
		typedef std::vector<L> B;
		static B cst(uint64_t v, unsigned w)
		{
			B r(w);
			for (unsigned i = 0; i < w; ++i)
				r[i] = (i < 64 && (v >> i & 1)) ? T : F;
			return r;
		}
		B add(const B& a, const B& b, L cin)
		{
			B r(a.size());
			L c = cin;
			for (size_t i = 0; i < a.size(); ++i) {
				L x = Xor(a[i], b[i]);
				r[i] = Xor(x, c);
				if (i + 1 < a.size())
					c = Maj(a[i], b[i], c);
			}
			return r;
		}
		static B inv(B a)
		{
			for (auto& x : a)
				x ^= 1;
			return a;
		}
		B neg(const B& a) { return add(inv(a), cst(0, (unsigned)a.size()), T); }
		B mul(const B& a, const B& b)
		{
			unsigned w = (unsigned)a.size();
			B r = cst(0, w);
			for (unsigned i = 0; i < w; ++i) {
				if (b[i] == F)
					continue;
				B t = cst(0, w);
				for (unsigned k = i; k < w; ++k)
					t[k] = And(a[k - i], b[i]);
				r = add(r, t, F);
			}
			return r;
		}
		// a < b unsigned
		L ult(const B& a, const B& b)
		{
			L r = F;
			for (size_t i = 0; i < a.size(); ++i)
				r = Maj(a[i] ^ 1, b[i], r);
			return r;
		}
		L slt(B a, B b)
		{
			a.back() ^= 1;
			b.back() ^= 1;
			return ult(a, b);
		}
		L eq(const B& a, const B& b)
		{
			L r = T;
			for (size_t i = 0; i < a.size(); ++i)
				r = And(r, Xor(a[i], b[i]) ^ 1);
			return r;
		}
		B ite(L c, const B& a, const B& b)
		{
			B r(a.size());
			for (size_t i = 0; i < a.size(); ++i)
				r[i] = Ite(c, a[i], b[i]);
			return r;
		}
		void udivrem(const B& a, const B& b, B& q, B& r)
		{
			unsigned w = (unsigned)a.size();
			q = cst(0, w);
			B rem = cst(0, w + 1), bx = b;
			bx.push_back(F);
			for (int i = (int)w - 1; i >= 0; --i) {
				rem.insert(rem.begin(), a[i]);
				rem.pop_back();
				L ge = ult(rem, bx) ^ 1;
				q[i] = ge;
				rem = ite(ge, add(rem, inv(bx), T), rem);
			}
			rem.pop_back();
			r = rem;
			// division by zero: q = all ones (restoring division gives that), r = a
		}
		B shift(const B& a, const B& sh, int kind)
		{
			unsigned w = (unsigned)a.size();
			B r = a;
			L fill = kind == 2 ? a.back() : F;
			L big = F;
			for (unsigned k = 0; k < sh.size(); ++k) {
				if ((1ull << std::min(k, 62u)) >= w) {
					big = Or(big, sh[k]);
					continue;
				}
				unsigned d = 1u << k;
				B t(w);
				for (unsigned i = 0; i < w; ++i)
					t[i] = kind == 0 ? (i >= d ? r[i - d] : F) : (i + d < w ? r[i + d] : fill);
				r = ite(sh[k], t, r);
			}
			B f(w, fill);
			return ite(big, f, r);
		}
		const B& get(E e)
		{
			if (bits.size() < g_exprCount)
				bits.resize(g_exprCount * 2);
			if (bits[e->id])
				return *bits[e->id];
			// iterative over children to keep the recursion shallow is not needed: the stack is large
			unsigned w = e->width;
			B r;
			auto K = [&](unsigned i) -> const B& { return get(e->k[i]); };
			switch (e->kind) {
				case K_CONST: r = cst(e->c, w); break;
				case K_VAR: for (unsigned i = 0; i < w; ++i) r.push_back(newVar()); break;
				case K_LIN: {
					r = cst(e->c, w);
					bool first = e->c == 0;
					for (unsigned i = 0; i < e->n; ++i) {
						B t = K(i);
						uint64_t co = e->co[i], nco = (0 - co) & maskOf(w);
						bool sub = __builtin_popcountll(nco) < __builtin_popcountll(co);
						uint64_t c = sub ? nco : co;
						// r +/- c*t by shift and add
						for (unsigned k = 0; k < w && k < 64; ++k)
							if (c >> k & 1) {
								B u = cst(0, w);
								for (unsigned j = k; j < w; ++j) u[j] = t[j - k];
								if (sub) r = add(r, inv(u), T);
								else if (first) r = u;
								else r = add(r, u, F);
								first = false;
							}
					}
					break;
				}
				case K_MUL: { B a = K(0), b = K(1); r = mul(a, b); break; }
				case K_UDIV: { B a = K(0), b = K(1), q, m; udivrem(a, b, q, m); r = q; break; }
				case K_UREM: { B a = K(0), b = K(1), q, m; udivrem(a, b, q, m); r = m; break; }
				case K_SDIV: case K_SREM: {
					B a = K(0), b = K(1), q, m;
					L sa = a.back(), sb = b.back();
					udivrem(ite(sa, neg(a), a), ite(sb, neg(b), b), q, m);
					r = e->kind == K_SDIV ? ite(Xor(sa, sb), neg(q), q) : ite(sa, neg(m), m);
					break;
				}
				case K_AND: { B a = K(0), b = K(1); r.resize(w); for (unsigned i = 0; i < w; ++i) r[i] = And(a[i], b[i]); break; }
				case K_OR: { B a = K(0), b = K(1); r.resize(w); for (unsigned i = 0; i < w; ++i) r[i] = Or(a[i], b[i]); break; }
				case K_XOR: { B a = K(0), b = K(1); r.resize(w); for (unsigned i = 0; i < w; ++i) r[i] = Xor(a[i], b[i]); break; }
				case K_SHL: { B a = K(0), b = K(1); r = shift(a, b, 0); break; }
				case K_LSHR: { B a = K(0), b = K(1); r = shift(a, b, 1); break; }
				case K_ASHR: { B a = K(0), b = K(1); r = shift(a, b, 2); break; }
				case K_CONCAT:
					for (unsigned i = e->n; i-- > 0;) { B t = K(i); r.insert(r.end(), t.begin(), t.end()); }
					break;
				case K_EXTRACT: { const B& a = K(0); r.assign(a.begin() + (long)e->c, a.begin() + (long)(e->c + w)); break; }
				case K_SEXT: r = K(0); while (r.size() < w) r.push_back(r.back()); break;
				case K_EQ: { B a = K(0), b = K(1); r = B{ eq(a, b) }; break; }
				case K_ULT: { B a = K(0), b = K(1); r = B{ ult(a, b) }; break; }
				case K_SLT: { B a = K(0), b = K(1); r = B{ slt(a, b) }; break; }
				case K_ITE: { L c = K(0)[0]; B a = K(1), b = K(2); r = ite(c, a, b); break; }
				default: abort();
			}
			bits[e->id].reset(new std::vector<L>(std::move(r)));
			return *bits[e->id];
		}
	};
	Blaster* bl = nullptr;
	struct Inc
	{
		Minisat::Solver s;
		std::vector<int> local;			// gate -> solver variable
		std::unordered_set<uint32_t> asserted; // expressions asserted for good
	};
	std::vector<Inc*> incs;
}
// pc: constraints of the current path (satisfiable together), slice: those of them connected to the query, extra: the query
Res satSolve(const std::vector<E>& pc, const std::vector<E>& slice, const std::vector<E>& extra, const std::set<uint32_t>& vars, int64_t budget, std::vector<std::pair<uint32_t, uint64_t>>& vals)
{
	if (bl && bl->gates.size() > 12000000) {
		delete bl;
		bl = nullptr;
		for (Inc* i : incs)
			delete i;
		incs.clear();
	}
	if (!bl)
		bl = new Blaster();
	Blaster& b = *bl;
	// a solver that has only constraints of this path can be extended, with everything it learnt
	static std::vector<uint32_t> mark;
	static uint32_t markCur = 0;
	++markCur;
	if (mark.size() < g_exprCount)
		mark.resize(g_exprCount * 2, 0);
	for (E c : pc)
		mark[c->id] = markCur;
	Inc* inc = nullptr;
	for (size_t k = incs.size(); k-- > 0 && !inc;) {
		bool ok = true;
		for (uint32_t id : incs[k]->asserted)
			if (mark[id] != markCur) {
				ok = false;
				break;
			}
		if (ok) {
			inc = incs[k];
			incs.erase(incs.begin() + (long)k);
		}
	}
	if (inc && inc->s.nVars() > 1500000) {
		delete inc;
		inc = nullptr;
	}
	if (!inc) {
		if (incs.size() >= 3) {
			delete incs[0];
			incs.erase(incs.begin());
		}
		inc = new Inc();
	}
	incs.push_back(inc);
	Minisat::Solver& s = inc->s;
	std::vector<int>& local = inc->local;
	auto ml = [&](L l) { return mkLit(local[l >> 1], l & 1); };
	auto load = [&](L root) {
		if (local.size() < b.gates.size())
			local.resize(b.gates.size() * 2, -1);
		std::vector<int> st, fresh;
		auto go = [&](L x) {
			int u = x >> 1;
			if (local[u] < 0) {
				local[u] = s.newVar();
				fresh.push_back(u);
				st.push_back(u);
			}
		};
		go(root);
		while (!st.empty()) {
			int v = st.back();
			st.pop_back();
			const Gate& g = b.gates[v];
			if (g.kind) { go(g.a); go(g.b); }
			if (g.kind >= 3) go(g.c);
		}
		// inputs first: gates over known values are propagated as they are added
		std::sort(fresh.begin(), fresh.end());
		for (int v : fresh) {
			const Gate& g = b.gates[v];
			Lit o = mkLit(local[v]);
			switch (g.kind) {
				case 0:
					if (v == 0)
						s.addClause(o);
					break;
				case 1:
					s.addClause(~o, ml(g.a));
					s.addClause(~o, ml(g.b));
					s.addClause(o, ml(g.a ^ 1), ml(g.b ^ 1));
					break;
				case 2:
					s.addClause(~o, ml(g.a), ml(g.b));
					s.addClause(~o, ml(g.a ^ 1), ml(g.b ^ 1));
					s.addClause(o, ml(g.a ^ 1), ml(g.b));
					s.addClause(o, ml(g.a), ml(g.b ^ 1));
					break;
				case 3:
					s.addClause(ml(g.a ^ 1), ml(g.b ^ 1), o);
					s.addClause(ml(g.a ^ 1), ml(g.b), ~o);
					s.addClause(ml(g.a), ml(g.c ^ 1), o);
					s.addClause(ml(g.a), ml(g.c), ~o);
					s.addClause(ml(g.b ^ 1), ml(g.c ^ 1), o);
					s.addClause(ml(g.b), ml(g.c), ~o);
					break;
				default:
					s.addClause(ml(g.a ^ 1), ml(g.b ^ 1), o);
					s.addClause(ml(g.a ^ 1), ml(g.c ^ 1), o);
					s.addClause(ml(g.b ^ 1), ml(g.c ^ 1), o);
					s.addClause(ml(g.a), ml(g.b), ~o);
					s.addClause(ml(g.a), ml(g.c), ~o);
					s.addClause(ml(g.b), ml(g.c), ~o);
					break;
			}
		}
	};
	for (E c : slice) {
		if (!inc->asserted.insert(c->id).second)
			continue;
		L l = b.get(c)[0];
		if (l == Blaster::T)
			continue;
		load(l);
		if (!s.addClause(ml(l)))
			break;
	}
	if (!s.okay()) {
		incs.pop_back();
		delete inc;
		return R_UNSAT;
	}
	Minisat::vec<Lit> as;
	for (E c : extra) {
		L l = b.get(c)[0];
		if (l == Blaster::F)
			return R_UNSAT;
		if (l == Blaster::T)
			continue;
		load(l);
		as.push(ml(l));
	}
	s.setConfBudget(budget);
	Minisat::lbool r = s.solveLimited(as);
	if (r == Minisat::lbool((uint8_t)1))
		return R_UNSAT;
	if (r != Minisat::lbool((uint8_t)0))
		return R_UNKNOWN;
	for (uint32_t v : vars) {
		const auto& lb = b.get(varExpr(v));
		uint64_t x = 0;
		for (size_t i = 0; i < lb.size() && i < 64; ++i) {
			size_t gv = (size_t)(lb[i] >> 1);
			if (gv < local.size() && local[gv] >= 0 && s.model[local[gv]] == Minisat::lbool((uint8_t)0))
				x |= 1ull << i;
		}
		vals.push_back({ v, x });
	}
	return R_SAT;
}
