#include "expr.h"
#include <unordered_map>
#include <algorithm>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <set>

std::vector<VarInfo> g_vars;
size_t g_exprCount = 0;

// ---------------------------------------------------------------- arena + interning
static char* arenaCur = nullptr;
static char* arenaEnd = nullptr;
static void* arenaAlloc(size_t n)
{
	n = (n + 15) & ~size_t(15);
	if (arenaCur == nullptr || arenaCur + n > arenaEnd) {
		size_t blk = std::max<size_t>(n, 1u << 22);
		arenaCur = (char*)malloc(blk);
		if (!arenaCur) { fprintf(stderr, "out of memory\n"); exit(3); }
		arenaEnd = arenaCur + blk;
	}
	void* r = arenaCur;
	arenaCur += n;
	return r;
}

static std::vector<Expr*> table(1u << 16, nullptr);
static std::vector<Expr*> chainNext; // open addressing instead

static inline uint64_t mixh(uint64_t h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull;
	return h ^ (h >> 32);
}

static uint64_t computeKz(Kind kind, unsigned w, uint64_t c, E const* k, const uint64_t* co, unsigned n)
{
	if (w > 64)
		return 0;
	uint64_t m = maskOf(w);
	auto top = [&](uint64_t mx) -> uint64_t { // known zeros given max value
		if (mx == 0)
			return m;
		unsigned hb = 64 - __builtin_clzll(mx);
		return hb >= w ? 0 : (m & ~maskOf(hb));
	};
	switch (kind) {
		case K_CONST: return m & ~c;
		case K_VAR: return 0;
		case K_AND: return k[0]->kz | k[1]->kz;
		case K_OR:
		case K_XOR: return k[0]->kz & k[1]->kz;
		case K_ITE: return k[1]->kz & k[2]->kz;
		case K_CONCAT: {
			uint64_t r = 0;
			for (unsigned i = 0; i < n; ++i)
				r = (k[i]->width >= 64 ? 0 : (r << k[i]->width)) | k[i]->kz;
			return r;
		}
		case K_EXTRACT: return k[0]->width <= 64 ? ((k[0]->kz >> c) & m) : 0;
		case K_LIN: {
			unsigned __int128 s = c;
			for (unsigned i = 0; i < n; ++i) {
				s += (unsigned __int128)umaxOf(k[i]) * co[i];
				if (s > m)
					return 0;
			}
			return top((uint64_t)s);
		}
		case K_MUL: {
			unsigned __int128 s = (unsigned __int128)umaxOf(k[0]) * umaxOf(k[1]);
			return s > m ? 0 : top((uint64_t)s);
		}
		case K_UDIV: return k[1]->isConst() && k[1]->c ? top(umaxOf(k[0]) / k[1]->c) : 0;
		case K_UREM: return k[1]->isConst() && k[1]->c ? top(std::min(umaxOf(k[0]), k[1]->c - 1)) : 0;
		case K_LSHR: return top(umaxOf(k[0]));
		case K_SEXT: {
			unsigned sw = k[0]->width;
			if (k[0]->kz >> (sw - 1) & 1)
				return k[0]->kz | (m & ~maskOf(sw));
			return k[0]->kz & maskOf(sw);
		}
		default: return 0;
	}
}

static void rehash()
{
	std::vector<Expr*> old;
	old.swap(table);
	table.assign(old.size() * 2, nullptr);
	size_t msk = table.size() - 1;
	for (Expr* e : old)
		if (e) {
			size_t i = e->hash & msk;
			while (table[i])
				i = (i + 1) & msk;
			table[i] = e;
		}
}

static E intern(Kind kind, unsigned w, uint64_t c, E const* k, unsigned n, const uint64_t* co = nullptr)
{
	uint64_t h = mixh(mixh(mixh(0x1234, kind), w), c);
	for (unsigned i = 0; i < n; ++i)
		h = mixh(h, k[i]->id);
	if (co)
		for (unsigned i = 0; i < n; ++i)
			h = mixh(h, co[i]);
	size_t msk = table.size() - 1;
	size_t i = h & msk;
	while (Expr* e = table[i]) {
		if (e->hash == h && e->kind == kind && e->width == w && e->c == c && e->n == n && memcmp(e->k, k, n * sizeof(E)) == 0 && (!co || memcmp(e->co, co, n * 8) == 0))
			return e;
		i = (i + 1) & msk;
	}
	Expr* e = (Expr*)arenaAlloc(sizeof(Expr) + n * sizeof(E) + (co ? n * 8 : 0));
	e->kind = kind;
	e->width = (uint16_t)w;
	e->n = n;
	e->c = c;
	e->hash = h;
	e->k = (E*)(e + 1);
	memcpy(e->k, k, n * sizeof(E));
	e->co = nullptr;
	if (co) {
		e->co = (uint64_t*)(e->k + n);
		memcpy(e->co, co, n * 8);
	}
	e->id = (uint32_t)g_exprCount++;
	e->kz = computeKz(kind, w, c, e->k, e->co, n);
	table[i] = e;
	if (g_exprCount * 2 > table.size())
		rehash();
	return e;
}
static E intern1(Kind k, unsigned w, uint64_t c, E a) { return intern(k, w, c, &a, 1); }
static E intern2(Kind k, unsigned w, E a, E b)
{
	E t[2] = { a, b };
	return intern(k, w, 0, t, 2);
}

struct OpKey { uint64_t a, b; };
struct OpKeyH { size_t operator()(const OpKey& k) const { return mixh(k.a * 0x9E3779B97F4A7C15ull, k.b); } };
static inline bool operator==(const OpKey& x, const OpKey& y) { return x.a == y.a && x.b == y.b; }
static std::unordered_map<OpKey, E, OpKeyH> opcache;
static inline OpKey key(unsigned op, uint32_t a, uint32_t b, unsigned x = 0) { return OpKey{ ((uint64_t)op << 56) ^ ((uint64_t)x << 32) ^ a, b }; }

// ---------------------------------------------------------------- constructors
E mkConst(uint64_t v, unsigned w)
{
	if (w > 64)
		return mkConcat2(mkConst(0, w - 64), mkConst(v, 64));
	return intern(K_CONST, w, v & maskOf(w), nullptr, 0);
}
E mkVar(const std::string& name, unsigned w, bool garbage)
{
	g_vars.push_back(VarInfo{ name, w, garbage });
	return intern(K_VAR, w, g_vars.size() - 1, nullptr, 0);
}

// Linear forms -----------------------------------------------------
typedef std::vector<std::pair<E, uint64_t>> Terms;
static void addLin(Terms& t, uint64_t& c, E a, uint64_t f)
{
	if (a->kind == K_CONST) {
		c += a->c * f;
		return;
	}
	if (a->kind == K_LIN) {
		c += a->c * f;
		for (unsigned i = 0; i < a->n; ++i)
			t.push_back({ a->k[i], a->co[i] * f });
		return;
	}
	t.push_back({ a, f });
}
static E buildLin(Terms& t, uint64_t c, unsigned w)
{
	uint64_t m = maskOf(w);
	std::sort(t.begin(), t.end(), [](const auto& x, const auto& y) { return x.first->id < y.first->id; });
	std::vector<E> ks;
	std::vector<uint64_t> co;
	for (size_t i = 0; i < t.size();) {
		uint64_t f = 0;
		size_t j = i;
		for (; j < t.size() && t[j].first == t[i].first; ++j)
			f += t[j].second;
		f &= m;
		if (f) {
			ks.push_back(t[i].first);
			co.push_back(f);
		}
		i = j;
	}
	c &= m;
	if (ks.empty())
		return mkConst(c, w);
	if (ks.size() == 1 && c == 0) {
		if (co[0] == 1)
			return ks[0];
		if ((co[0] & (co[0] - 1)) == 0) // power of two
			return mkShl(ks[0], mkConst(__builtin_ctzll(co[0]), w));
	}
	if (w == 1) {
		// xor of bits
		E r = mkConst(c, 1);
		for (E e : ks)
			r = mkXor(r, e);
		return r;
	}
	return intern(K_LIN, w, c, ks.data(), (unsigned)ks.size(), co.data());
}
E mkAdd(E a, E b)
{
	assert(a->width == b->width);
	unsigned w = a->width;
	if (w > 64) { // only constants / zero handled structurally
		assert(w <= 128);
		// ripple with 64-bit limbs
		E al = mkExtract(a, 0, 64), bl = mkExtract(b, 0, 64);
		E lo = mkAdd(al, bl);
		E carry = mkZExt(mkUlt(lo, al), w - 64);
		E hi = mkAdd(mkAdd(mkExtract(a, 64, w - 64), mkExtract(b, 64, w - 64)), carry);
		return mkConcat2(hi, lo);
	}
	if (a->kind == K_CONST && b->kind == K_CONST)
		return mkConst(a->c + b->c, w);
	if (b->kind == K_CONST && b->c == 0)
		return a;
	if (a->kind == K_CONST && a->c == 0)
		return b;
	if (a->kind != K_CONST && b->kind != K_CONST && a->kind != K_LIN && b->kind != K_LIN && ((a->kz | b->kz) == maskOf(w)))
		return mkOr(a, b);
	Terms t;
	uint64_t c = 0;
	addLin(t, c, a, 1);
	addLin(t, c, b, 1);
	return buildLin(t, c, w);
}
E mkNeg(E a) { return mkSub(mkConst(0, a->width), a); }
E mkSub(E a, E b)
{
	assert(a->width == b->width);
	unsigned w = a->width;
	if (a == b)
		return mkConst(0, w);
	if (w > 64)
		return mkAdd(a, mkAdd(mkNot(b), mkConst(1, w)));
	if (a->kind == K_CONST && b->kind == K_CONST)
		return mkConst(a->c - b->c, w);
	if (b->kind == K_CONST && b->c == 0)
		return a;
	if (a->kind == K_CONST && a->c == maskOf(w))
		return mkNot(b);
	Terms t;
	uint64_t c = 0;
	addLin(t, c, a, 1);
	addLin(t, c, b, ~0ull);
	return buildLin(t, c, w);
}
E mkMul(E a, E b)
{
	unsigned w = a->width;
	if (a->kind == K_CONST)
		std::swap(a, b);
	if (w > 64) {
		assert(w <= 128);
		// schoolbook when the operands fit in 64 bits, 32-bit limbs
		E al = mkExtract(a, 0, 64), bl = mkExtract(b, 0, 64);
		E ah = mkExtract(a, 64, w - 64), bh = mkExtract(b, 64, w - 64);
		auto lo32 = [](E x) { return mkZExt(mkExtract(x, 0, 32), 64); };
		auto hi32 = [](E x) { return mkZExt(mkExtract(x, 32, 32), 64); };
		E a0 = lo32(al), a1 = hi32(al), b0 = lo32(bl), b1 = hi32(bl);
		E p00 = mkMul(a0, b0), p01 = mkMul(a0, b1), p10 = mkMul(a1, b0), p11 = mkMul(a1, b1);
		E mid = mkAdd(mkAdd(hi32(p00), lo32(p01)), lo32(p10));
		E lo = mkConcat2(mkExtract(mid, 0, 32), mkExtract(p00, 0, 32));
		E hi = mkAdd(mkAdd(p11, hi32(mid)), mkAdd(hi32(p01), hi32(p10)));
		unsigned hw = w - 64;
		E hi2 = mkAdd(mkAdd(mkTrunc(hi, hw), mkMul(mkTrunc(al, hw), bh)), mkMul(ah, mkTrunc(bl, hw)));
		return mkConcat2(hi2, lo);
	}
	if (b->kind == K_CONST) {
		if (a->kind == K_CONST)
			return mkConst(a->c * b->c, w);
		if (b->c == 0)
			return b;
		if (b->c == 1)
			return a;
		Terms t;
		uint64_t c = 0;
		addLin(t, c, a, b->c);
		return buildLin(t, c, w);
	}
	if (w == 1)
		return mkAnd(a, b);
	if (a->id > b->id)
		std::swap(a, b);
	return intern2(K_MUL, w, a, b);
}
E mkUDiv(E a, E b)
{
	unsigned w = a->width;
	if (w > 64) {
		// both operands known to fit 64 bits?
		E ah = mkExtract(a, 64, w - 64), bh = mkExtract(b, 64, w - 64);
		if (ah->isConst() && ah->c == 0 && bh->isConst() && bh->c == 0)
			return mkZExt(mkUDiv(mkExtract(a, 0, 64), mkExtract(b, 0, 64)), w);
		assert(0 && "wide division");
	}
	if (b->kind == K_CONST && b->c) {
		if (a->kind == K_CONST)
			return mkConst(a->c / b->c, w);
		if ((b->c & (b->c - 1)) == 0)
			return mkLShr(a, mkConst(__builtin_ctzll(b->c), w));
		if (umaxOf(a) < b->c)
			return mkConst(0, w);
	}
	return intern2(K_UDIV, w, a, b);
}
E mkURem(E a, E b)
{
	unsigned w = a->width;
	if (w > 64) {
		E ah = mkExtract(a, 64, w - 64), bh = mkExtract(b, 64, w - 64);
		if (ah->isConst() && ah->c == 0 && bh->isConst() && bh->c == 0)
			return mkZExt(mkURem(mkExtract(a, 0, 64), mkExtract(b, 0, 64)), w);
		assert(0 && "wide remainder");
	}
	if (b->kind == K_CONST && b->c) {
		if (a->kind == K_CONST)
			return mkConst(a->c % b->c, w);
		if ((b->c & (b->c - 1)) == 0)
			return mkAnd(a, mkConst(b->c - 1, w));
		if (umaxOf(a) < b->c)
			return a;
	}
	return intern2(K_UREM, w, a, b);
}
E mkSDiv(E a, E b)
{
	unsigned w = a->width;
	if (a->kind == K_CONST && b->kind == K_CONST && b->c && !(sx(b->c, w) == -1))
		return mkConst((uint64_t)(sx(a->c, w) / sx(b->c, w)), w);
	if ((a->kz >> (w - 1) & 1) && (b->kz >> (w - 1) & 1))
		return mkUDiv(a, b);
	return intern2(K_SDIV, w, a, b);
}
E mkSRem(E a, E b)
{
	unsigned w = a->width;
	if (a->kind == K_CONST && b->kind == K_CONST && b->c && !(sx(b->c, w) == -1))
		return mkConst((uint64_t)(sx(a->c, w) % sx(b->c, w)), w);
	if ((a->kz >> (w - 1) & 1) && (b->kz >> (w - 1) & 1))
		return mkURem(a, b);
	return intern2(K_SREM, w, a, b);
}

// Pieces -----------------------------------------------------------
static void piecesLoHi(E a, std::vector<E>& out)
{
	if (a->kind == K_CONCAT)
		for (int i = (int)a->n - 1; i >= 0; --i)
			out.push_back(a->k[i]);
	else
		out.push_back(a);
}
static void boundaries(E a, std::vector<unsigned>& b)
{
	unsigned pos = 0;
	if (a->kind == K_CONCAT)
		for (int i = (int)a->n - 1; i >= 0; --i) {
			pos += a->k[i]->width;
			b.push_back(pos);
		}
	else
		b.push_back(a->width);
}
static bool hasConstPiece(E a)
{
	if (a->kind == K_CONCAT)
		for (unsigned i = 0; i < a->n; ++i)
			if (a->k[i]->kind == K_CONST)
				return true;
	return false;
}
template<class F>
static E piecewise(E a, E b, F f, bool fineConst = false)
{
	std::vector<unsigned> bd;
	boundaries(a, bd);
	boundaries(b, bd);
	if (fineConst) {
		for (E x : { a, b }) {
			unsigned pos = 0;
			std::vector<E> ps;
			piecesLoHi(x, ps);
			for (E p : ps) {
				if (p->kind == K_CONST) {
					for (unsigned i = 1; i < p->width; ++i)
						if (((p->c >> i) ^ (p->c >> (i - 1))) & 1)
							bd.push_back(pos + i);
				}
				pos += p->width;
			}
		}
	}
	std::sort(bd.begin(), bd.end());
	bd.erase(std::unique(bd.begin(), bd.end()), bd.end());
	std::vector<E> out; // lo->hi
	unsigned prev = 0;
	for (unsigned p : bd) {
		while (p - prev > 64) {
			out.push_back(f(mkExtract(a, prev, 64), mkExtract(b, prev, 64)));
			prev += 64;
		}
		if (p > prev)
			out.push_back(f(mkExtract(a, prev, p - prev), mkExtract(b, prev, p - prev)));
		prev = p;
	}
	std::reverse(out.begin(), out.end());
	return mkConcat(out);
}
static unsigned runs(uint64_t c, unsigned w)
{
	uint64_t t = (c ^ (c >> 1)) & maskOf(w - 1);
	return w <= 1 ? 1 : (unsigned)__builtin_popcountll(t) + 1;
}
static inline bool isBoolSext(E a) { return a->kind == K_SEXT && a->k[0]->width == 1; }
static inline bool isNot(E a) { return a->kind == K_XOR && a->k[1]->kind == K_CONST && a->k[1]->c == maskOf(a->width); }

E mkAnd(E a, E b)
{
	assert(a->width == b->width);
	unsigned w = a->width;
	if (a == b)
		return a;
	if (w > 64)
		return piecewise(a, b, mkAnd, true);
	if (a->kind == K_CONST)
		std::swap(a, b);
	uint64_t m = maskOf(w);
	if (b->kind == K_CONST) {
		if (a->kind == K_CONST)
			return mkConst(a->c & b->c, w);
		if (b->c == 0)
			return b;
		if ((b->c | a->kz) == m)
			return a;
		uint64_t eff = b->c & ~a->kz;
		if (eff == 0)
			return mkConst(0, w);
		if (w > 1 && (runs(b->c, w) <= 16)) {
			// piecewise by runs
			std::vector<E> out;
			unsigned i = 0;
			while (i < w) {
				unsigned j = i;
				bool one = (b->c >> i) & 1;
				while (j < w && (((b->c >> j) & 1) != 0) == one)
					++j;
				out.push_back(one ? mkExtract(a, i, j - i) : mkConst(0, j - i));
				i = j;
			}
			std::reverse(out.begin(), out.end());
			return mkConcat(out);
		}
	}
	if (isBoolSext(b) && !isBoolSext(a))
		std::swap(a, b);
	if (isBoolSext(a)) {
		if (isBoolSext(b))
			return mkSExt(mkAnd(a->k[0], b->k[0]), w);
		if (w > 1)
			return mkIte(a->k[0], b, mkConst(0, w));
	}
	if (w > 1 && (hasConstPiece(a) || hasConstPiece(b)))
		return piecewise(a, b, mkAnd, true);
	if ((isNot(a) && a->k[0] == b) || (isNot(b) && b->k[0] == a))
		return mkConst(0, w);
	if (a->kind == K_AND && (a->k[0] == b || a->k[1] == b))
		return a;
	if (b->kind == K_AND && (b->k[0] == a || b->k[1] == a))
		return b;
	if ((a->kz | b->kz) == m)
		return mkConst(0, w);
	if (a->id > b->id)
		std::swap(a, b);
	return intern2(K_AND, w, a, b);
}
E mkOr(E a, E b)
{
	assert(a->width == b->width);
	unsigned w = a->width;
	if (a == b)
		return a;
	if (w > 64)
		return piecewise(a, b, mkOr, true);
	if (a->kind == K_CONST)
		std::swap(a, b);
	uint64_t m = maskOf(w);
	if (b->kind == K_CONST) {
		if (a->kind == K_CONST)
			return mkConst(a->c | b->c, w);
		if (b->c == 0)
			return a;
		if (b->c == m)
			return b;
		if (w > 1 && runs(b->c, w) <= 16)
			return piecewise(a, b, [](E x, E y) { return y->c == 0 ? x : (y->c == maskOf(y->width) ? y : mkOr(x, y)); }, true);
	}
	if (isBoolSext(b) && !isBoolSext(a))
		std::swap(a, b);
	if (isBoolSext(a)) {
		if (isBoolSext(b))
			return mkSExt(mkOr(a->k[0], b->k[0]), w);
		if (w > 1)
			return mkIte(a->k[0], mkConst(m, w), b);
	}
	if (w > 1 && (hasConstPiece(a) || hasConstPiece(b)))
		return piecewise(a, b, mkOr, true);
	if ((isNot(a) && a->k[0] == b) || (isNot(b) && b->k[0] == a))
		return mkConst(m, w);
	if (a->kind == K_OR && (a->k[0] == b || a->k[1] == b))
		return a;
	if (b->kind == K_OR && (b->k[0] == a || b->k[1] == a))
		return b;
	if (a->id > b->id)
		std::swap(a, b);
	return intern2(K_OR, w, a, b);
}
E mkNot(E a) { return mkXor(a, a->width > 64 ? mkSExt(mkConst(1, 1), a->width) : mkConst(~0ull, a->width)); }
E mkXor(E a, E b)
{
	assert(a->width == b->width);
	unsigned w = a->width;
	if (a == b)
		return mkConst(0, w);
	if (w > 64)
		return piecewise(a, b, mkXor, false);
	if (a->kind == K_CONST)
		std::swap(a, b);
	if (b->kind == K_CONST) {
		if (a->kind == K_CONST)
			return mkConst(a->c ^ b->c, w);
		if (b->c == 0)
			return a;
		if (a->kind == K_XOR && a->k[1]->kind == K_CONST)
			return mkXor(a->k[0], mkConst(a->k[1]->c ^ b->c, w));
		if (isBoolSext(a) && b->c == maskOf(w))
			return mkSExt(mkNot(a->k[0]), w);
		if (a->kind == K_ITE && a->k[1]->isConst() && a->k[2]->isConst())
			return mkIte(a->k[0], mkConst(a->k[1]->c ^ b->c, w), mkConst(a->k[2]->c ^ b->c, w));
		if (a->kind == K_CONCAT)
			return piecewise(a, b, mkXor, false);
		return intern2(K_XOR, w, a, b); // const kept second
	}
	if (isBoolSext(a) && isBoolSext(b))
		return mkSExt(mkXor(a->k[0], b->k[0]), w);
	if (a->kind == K_XOR && a->k[1]->kind == K_CONST)
		return mkXor(mkXor(a->k[0], b), a->k[1]);
	if (b->kind == K_XOR && b->k[1]->kind == K_CONST)
		return mkXor(mkXor(a, b->k[0]), b->k[1]);
	if (a->kind == K_XOR && (a->k[0] == b || a->k[1] == b))
		return a->k[0] == b ? a->k[1] : a->k[0];
	if (b->kind == K_XOR && (b->k[0] == a || b->k[1] == a))
		return b->k[0] == a ? b->k[1] : b->k[0];
	if (w > 1 && (hasConstPiece(a) || hasConstPiece(b)))
		return piecewise(a, b, mkXor, false);
	if (a->id > b->id)
		std::swap(a, b);
	return intern2(K_XOR, w, a, b);
}

// Shifts -----------------------------------------------------------
E mkShl(E a, E b)
{
	unsigned w = a->width;
	if (b->kind == K_CONCAT && b->width > 64) {
		b = mkExtract(b, 0, 64);
	}
	if (b->kind == K_CONST) {
		if (b->c == 0)
			return a;
		if (b->c >= w)
			return mkConst(0, w);
		unsigned s = (unsigned)b->c;
		return mkConcat2(mkExtract(a, 0, w - s), mkConst(0, s));
	}
	if (w > 64 || (b->width <= 64 && umaxOf(b) < 64 && w <= 64 && false)) {
		// wide symbolic shift: barrel
		E r = a;
		for (unsigned i = 0; i < 9 && i < b->width; ++i) {
			E bit = mkExtract(b, i, 1);
			r = mkIte(bit, mkShl(r, mkConst(1ull << i, 64)), r);
		}
		return r;
	}
	if (a->kind == K_CONST && a->c == 0)
		return a;
	return intern2(K_SHL, w, a, b);
}
E mkLShr(E a, E b)
{
	unsigned w = a->width;
	if (b->width > 64)
		b = mkExtract(b, 0, 64);
	if (b->kind == K_CONST) {
		if (b->c == 0)
			return a;
		if (b->c >= w)
			return mkConst(0, w);
		unsigned s = (unsigned)b->c;
		return mkConcat2(mkConst(0, s), mkExtract(a, s, w - s));
	}
	if (w > 64) {
		E r = a;
		for (unsigned i = 0; i < 9 && i < b->width; ++i) {
			E bit = mkExtract(b, i, 1);
			r = mkIte(bit, mkLShr(r, mkConst(1ull << i, 64)), r);
		}
		return r;
	}
	if (a->kind == K_CONST && a->c == 0)
		return a;
	return intern2(K_LSHR, w, a, b);
}
E mkAShr(E a, E b)
{
	unsigned w = a->width;
	if (b->width > 64)
		b = mkExtract(b, 0, 64);
	if (b->kind == K_CONST) {
		if (b->c == 0)
			return a;
		unsigned s = b->c >= w ? w - 1 : (unsigned)b->c;
		return mkSExt(mkExtract(a, s, w - s), w);
	}
	assert(w <= 64);
	if (a->kz >> (w - 1) & 1)
		return mkLShr(a, b);
	return intern2(K_ASHR, w, a, b);
}

// Concat / extract --------------------------------------------------
E mkConcat2(E hi, E lo)
{
	std::vector<E> v{ hi, lo };
	return mkConcat(v);
}
static E mergeAdj(E hi, E lo)
{
	unsigned tot = hi->width + lo->width;
	if (tot > 64)
		return nullptr;
	if (hi->kind == K_CONST && lo->kind == K_CONST)
		return mkConst((hi->c << lo->width) | lo->c, tot);
	// contiguous extracts
	{
		E hb = hi->kind == K_EXTRACT ? hi->k[0] : nullptr;
		E lb = lo->kind == K_EXTRACT ? lo->k[0] : nullptr;
		if (hb && lb && hb == lb && hi->c == lo->c + lo->width)
			return mkExtract(hb, (unsigned)lo->c, tot);
		// hi = upper part of a sum or product whose lower part was simplified to lo
		if (hb && (hb->kind == K_LIN || hb->kind == K_MUL) && hi->c >= lo->width && mkExtract(hb, (unsigned)hi->c - lo->width, lo->width) == lo)
			return mkExtract(hb, (unsigned)hi->c - lo->width, tot);
		// SEXT pieces: hi = sign bits of lo
		if (isBoolSext(hi) || hi->width == 1) {
			E hb1 = hi->width == 1 ? hi : hi->k[0];
			if (isBoolSext(lo) && lo->k[0] == hb1)
				return mkSExt(hb1, tot);
			if (lo->width == 1 && lo == hb1)
				return mkSExt(hb1, tot);
			if (isBoolSext(hi) && lo->width > 1) {
				E sb = mkExtract(lo, lo->width - 1, 1);
				if (sb == hb1)
					return mkSExt(lo, tot);
			}
		}
	}
	if (hi->kind == K_ITE && lo->kind == K_ITE && hi->k[0] == lo->k[0])
		return mkIte(hi->k[0], mkConcat2(hi->k[1], lo->k[1]), mkConcat2(hi->k[2], lo->k[2]));
	// bitwise ops over contiguous extracts are left alone
	return nullptr;
}
E mkConcat(const std::vector<E>& in)
{
	std::vector<E> st; // hi -> lo
	for (E x : in) {
		auto push = [&](E p) {
			while (!st.empty()) {
				E m = mergeAdj(st.back(), p);
				if (!m || m->kind == K_CONCAT)
					break;
				st.pop_back();
				p = m;
			}
			st.push_back(p);
		};
		if (x->kind == K_CONCAT)
			for (unsigned i = 0; i < x->n; ++i)
				push(x->k[i]);
		else
			push(x);
	}
	if (st.size() == 1)
		return st[0];
	unsigned w = 0;
	for (E e : st)
		w += e->width;
	return intern(K_CONCAT, w, 0, st.data(), (unsigned)st.size());
}
E mkExtract(E a, unsigned lo, unsigned w)
{
	assert(lo + w <= a->width && w > 0);
	if (w == a->width)
		return a;
	switch (a->kind) {
		case K_CONST: return mkConst(a->c >> lo, w);
		case K_EXTRACT: return mkExtract(a->k[0], (unsigned)a->c + lo, w);
		case K_CONCAT: {
			std::vector<E> out; // hi->lo
			unsigned pos = a->width;
			for (unsigned i = 0; i < a->n; ++i) {
				unsigned pw = a->k[i]->width;
				unsigned plo = pos - pw; // piece covers [plo,pos)
				unsigned l = std::max(plo, lo), h = std::min(pos, lo + w);
				if (l < h)
					out.push_back(mkExtract(a->k[i], l - plo, h - l));
				pos = plo;
			}
			return out.size() == 1 ? out[0] : mkConcat(out);
		}
		default: break;
	}
	if (w <= 64 && a->width <= 64 && ((a->kz >> lo) & maskOf(w)) == maskOf(w))
		return mkConst(0, w);
	OpKey ck = key(1, a->id, (lo << 8) | w);
	auto it = opcache.find(ck);
	if (it != opcache.end())
		return it->second;
	E r = nullptr;
	switch (a->kind) {
		case K_SEXT: {
			E s = a->k[0];
			unsigned sw = s->width;
			if (lo + w <= sw)
				r = mkExtract(s, lo, w);
			else if (lo >= sw - 1)
				r = mkSExt(mkExtract(s, sw - 1, 1), w);
			else
				r = mkSExt(mkExtract(s, lo, sw - lo), w);
			break;
		}
		case K_AND: r = mkAnd(mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w)); break;
		case K_OR: r = mkOr(mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w)); break;
		case K_XOR: r = mkXor(mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w)); break;
		case K_ITE: r = mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
		case K_LIN:
			if (lo == 0) {
				Terms t;
				uint64_t c = a->c;
				for (unsigned i = 0; i < a->n; ++i)
					addLin(t, c, mkExtract(a->k[i], 0, w), a->co[i]);
				r = buildLin(t, c, w);
			}
			break;
		case K_MUL:
			if (lo == 0)
				r = mkMul(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
			break;
		default: break;
	}
	if (!r)
		r = intern1(K_EXTRACT, w, lo, a);
	opcache[ck] = r;
	return r;
}
E mkZExt(E a, unsigned w)
{
	if (a->width == w)
		return a;
	return mkConcat2(mkConst(0, w - a->width), a);
}
E mkSExt(E a, unsigned w)
{
	if (a->width == w)
		return a;
	if (w > 64) {
		E top = mkExtract(a, a->width - 1, 1);
		std::vector<E> v;
		unsigned rem = w - a->width;
		while (rem) {
			unsigned q = std::min(rem, 64u);
			v.push_back(mkSExt(top, q));
			rem -= q;
		}
		v.push_back(a);
		return mkConcat(v);
	}
	if (a->kind == K_CONST)
		return mkConst((uint64_t)sx(a->c, a->width), w);
	if (a->kz >> (a->width - 1) & 1)
		return mkZExt(a, w);
	if (a->kind == K_SEXT)
		return mkSExt(a->k[0], w);
	if (a->kind == K_ITE && a->k[1]->isConst() && a->k[2]->isConst())
		return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
	return intern1(K_SEXT, w, 0, a);
}
E mkTrunc(E a, unsigned w) { return mkExtract(a, 0, w); }

// Comparisons --------------------------------------------------------
static bool constTree(E a, int d)
{
	if (a->isConst())
		return true;
	if (d == 0 || a->kind != K_ITE)
		return false;
	return constTree(a->k[1], d - 1) && constTree(a->k[2], d - 1);
}
static E eqTreeConst(E a, E k)
{
	if (a->isConst())
		return mkConst(a->c == k->c, 1);
	if (a->kind != K_ITE)
		return mkEq(a, k);
	OpKey ck = key(2, a->id, k->id);
	auto it = opcache.find(ck);
	if (it != opcache.end())
		return it->second;
	E r = mkIte(a->k[0], eqTreeConst(a->k[1], k), eqTreeConst(a->k[2], k));
	opcache[ck] = r;
	return r;
}
E mkEq(E a, E b)
{
	assert(a->width == b->width);
	unsigned w = a->width;
	if (a == b)
		return mkTrue();
	if (a->kind == K_CONST)
		std::swap(a, b);
	if (w <= 64) {
		if (a->kind == K_CONST && b->kind == K_CONST)
			return mkFalse(); // interned: different
		if (w == 1) {
			if (b->kind == K_CONST)
				return b->c ? a : mkNot(a);
			return mkNot(mkXor(a, b));
		}
		if (b->kind == K_CONST && (b->c & a->kz))
			return mkFalse();
	}
	bool ca = a->kind == K_CONCAT, cb = b->kind == K_CONCAT;
	if (w > 64 || (ca && (cb || b->isConst() || hasConstPiece(a))) || (cb && hasConstPiece(b))) {
		// piecewise
		std::vector<unsigned> bd;
		boundaries(a, bd);
		boundaries(b, bd);
		std::sort(bd.begin(), bd.end());
		bd.erase(std::unique(bd.begin(), bd.end()), bd.end());
		std::vector<E> parts;
		unsigned prev = 0;
		for (unsigned p : bd) {
			while (p > prev) {
				unsigned q = std::min(p - prev, 64u);
				E x = mkEq(mkExtract(a, prev, q), mkExtract(b, prev, q));
				if (isFalse(x))
					return x;
				if (!isTrue(x))
					parts.push_back(x);
				prev += q;
			}
		}
		E r = mkTrue();
		for (E x : parts)
			r = mkAnd(r, x);
		return r;
	}
	if (b->isConst()) {
		if (a->kind == K_SEXT) {
			E s = a->k[0];
			uint64_t t = b->c & maskOf(s->width);
			if ((uint64_t)sx(t, s->width) != (uint64_t)sx(b->c, w))
				return mkFalse();
			return mkEq(s, mkConst(t, s->width));
		}
		if (a->kind == K_ITE && (a->k[1]->isConst() || a->k[2]->isConst() || constTree(a, 12)))
			return eqTreeConst(a, b);
		if (a->kind == K_XOR && a->k[1]->isConst())
			return mkEq(a->k[0], mkConst(a->k[1]->c ^ b->c, w));
	}
	if (a->kind == K_SEXT && b->kind == K_SEXT && a->k[0]->width == b->k[0]->width)
		return mkEq(a->k[0], b->k[0]);
	if (a->kind == K_LIN || b->kind == K_LIN) {
		E d = mkSub(a, b);
		if (d->isConst())
			return mkConst(d->c == 0, 1);
		if (d->kind == K_LIN) {
			if (d->n == 1 && (d->co[0] == 1 || d->co[0] == maskOf(w)))
				return mkEq(d->k[0], mkConst(d->co[0] == 1 ? (0 - d->c) : d->c, w));
			if (d->n == 2 && d->c == 0 && ((d->co[0] == 1 && d->co[1] == maskOf(w)) || (d->co[1] == 1 && d->co[0] == maskOf(w))))
				return mkEq(d->k[0], d->k[1]);
			// canonical sign
			if (d->co[0] > (maskOf(w) >> 1))
				d = mkNeg(d);
			if (d->kind == K_LIN) {
				E z = mkConst(0, w);
				return intern2(K_EQ, 1, d, z);
			}
		}
		else if (d->kind != K_LIN && !(a->kind == K_LIN && b->isConst() && b->c == 0))
			return mkEq(d, mkConst(0, w));
	}
	if (!b->isConst() && a->id > b->id)
		std::swap(a, b);
	return intern2(K_EQ, 1, a, b);
}
E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
static E cmpTree(E a, E b, bool sgn)
{
	return sgn ? mkSlt(a, b) : mkUlt(a, b);
}
E mkUlt(E a, E b)
{
	unsigned w = a->width;
	if (a == b)
		return mkFalse();
	if (w > 64) {
		E ah = mkExtract(a, 64, w - 64), bh = mkExtract(b, 64, w - 64);
		return mkOr(mkUlt(ah, bh), mkAnd(mkEq(ah, bh), mkUlt(mkExtract(a, 0, 64), mkExtract(b, 0, 64))));
	}
	if (a->kind == K_CONST && b->kind == K_CONST)
		return mkConst(a->c < b->c, 1);
	if (w == 1)
		return mkAnd(mkNot(a), b);
	if (b->kind == K_CONST) {
		if (b->c == 0)
			return mkFalse();
		if (umaxOf(a) < b->c)
			return mkTrue();
		if (b->c == 1)
			return mkEq(a, mkConst(0, w));
		if (b->c == maskOf(w))
			return mkNot(mkEq(a, b));
	}
	if (a->kind == K_CONST) {
		if (umaxOf(b) <= a->c)
			return mkFalse();
		if (a->c == 0)
			return mkNot(mkEq(b, a));
	}
	// strip common known-zero prefix
	uint64_t kz = a->kz & b->kz;
	unsigned hz = 0;
	while (hz < w && (kz >> (w - 1 - hz) & 1))
		++hz;
	if (hz > 0 && hz < w)
		return mkUlt(mkExtract(a, 0, w - hz), mkExtract(b, 0, w - hz));
	if (b->isConst() && a->kind == K_ITE && constTree(a, 3))
		return mkIte(a->k[0], cmpTree(a->k[1], b, false), cmpTree(a->k[2], b, false));
	if (a->isConst() && b->kind == K_ITE && constTree(b, 3))
		return mkIte(b->k[0], cmpTree(a, b->k[1], false), cmpTree(a, b->k[2], false));
	// common low/high piece (concat with identical leading piece)
	if (a->kind == K_CONCAT && b->kind == K_CONCAT && a->k[0] == b->k[0])
		return mkUlt(mkExtract(a, 0, w - a->k[0]->width), mkExtract(b, 0, w - a->k[0]->width));
	return intern2(K_ULT, 1, a, b);
}
E mkSlt(E a, E b)
{
	unsigned w = a->width;
	if (a == b)
		return mkFalse();
	if (w > 64) {
		// flip sign bits
		E sa = mkConcat2(mkNot(mkExtract(a, w - 1, 1)), mkExtract(a, 0, w - 1));
		E sb = mkConcat2(mkNot(mkExtract(b, w - 1, 1)), mkExtract(b, 0, w - 1));
		return mkUlt(sa, sb);
	}
	if (a->kind == K_CONST && b->kind == K_CONST)
		return mkConst(sx(a->c, w) < sx(b->c, w), 1);
	if (w == 1)
		return mkAnd(a, mkNot(b));
	bool az = a->kz >> (w - 1) & 1, bz = b->kz >> (w - 1) & 1;
	if (az && bz)
		return mkUlt(a, b);
	if (b->kind == K_CONST && b->c == 0)
		return mkExtract(a, w - 1, 1);
	if (a->kind == K_CONST && a->c == maskOf(w))
		return mkNot(mkExtract(b, w - 1, 1));
	if (a->kind == K_CONST && az == false && bz)
		return mkTrue(); // negative const < nonneg
	if (b->kind == K_CONST && bz == false && az)
		return mkFalse();
	if (a->kind == K_SEXT && b->kind == K_SEXT && a->k[0]->width == b->k[0]->width)
		return mkSlt(a->k[0], b->k[0]);
	if (a->kind == K_SEXT && b->kind == K_CONST) {
		unsigned sw = a->k[0]->width;
		if ((uint64_t)sx(b->c & maskOf(sw), sw) == (uint64_t)sx(b->c, w))
			return mkSlt(a->k[0], mkConst(b->c, sw));
		return mkConst(sx(b->c, w) > 0, 1);
	}
	if (b->kind == K_SEXT && a->kind == K_CONST) {
		unsigned sw = b->k[0]->width;
		if ((uint64_t)sx(a->c & maskOf(sw), sw) == (uint64_t)sx(a->c, w))
			return mkSlt(mkConst(a->c, sw), b->k[0]);
		return mkConst(sx(a->c, w) < 0, 1);
	}
	return intern2(K_SLT, 1, a, b);
}
E mkIte(E c, E a, E b)
{
	assert(a->width == b->width && c->width == 1);
	unsigned w = a->width;
	if (c->kind == K_CONST)
		return c->c ? a : b;
	if (a == b)
		return a;
	if (isNot(c))
		return mkIte(c->k[0], b, a);
	if (w > 64)
		return piecewise(a, b, [&](E x, E y) { return mkIte(c, x, y); });
	if (w == 1) {
		if (a->isConst() && b->isConst())
			return a->c ? c : mkNot(c);
		if (a->isConst())
			return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
		if (b->isConst())
			return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
		if (a == c)
			return mkOr(c, b);
		if (b == c)
			return mkAnd(c, a);
	}
	if (a->kind == K_ITE && a->k[0] == c)
		a = a->k[1];
	if (b->kind == K_ITE && b->k[0] == c)
		b = b->k[2];
	if (a == b)
		return a;
	if (w > 1 && a->isConst() && b->isConst()) {
		if (a->c == maskOf(w) && b->c == 0)
			return mkSExt(c, w);
		if (b->c == maskOf(w) && a->c == 0)
			return mkSExt(mkNot(c), w);
		if (a->c == 1 && b->c == 0)
			return mkZExt(c, w);
		if (b->c == 1 && a->c == 0)
			return mkZExt(mkNot(c), w);
	}
	if (w == 64 && !a->isConst() && !b->isConst() && (a->kind == K_LIN || b->kind == K_LIN)) {
		// (the complement of y is -1 - y)
		auto add = [](Terms& t, uint64_t& k, E e, uint64_t f) {
			E n = e->kind == K_LIN ? nullptr : mkNot(e);
			if (n && n->id < e->id) {
				k -= f;
				addLin(t, k, n, 0 - f);
			}
			else
				addLin(t, k, e, f);
		};
		Terms td;
		uint64_t kd = 0;
		add(td, kd, a, 1);
		add(td, kd, b, ~0ull);
		E d = buildLin(td, kd, w);
		if (d->isConst()) // differ by a constant
			{
			Terms tr;
			uint64_t kr = 0;
			add(tr, kr, b, 1);
			addLin(tr, kr, mkZExt(c, w), d->c);
			return buildLin(tr, kr, w);
		}
	}
	if (b->kind == K_ITE && b->k[1] == a) // ite(c,a,ite(d,a,e)) -> ite(c|d,a,e)
		return mkIte(mkOr(c, b->k[0]), a, b->k[2]);
	// pull out common known-zero high bits
	if (w > 1) {
		uint64_t kz = a->kz & b->kz;
		unsigned hz = 0;
		while (hz < w && (kz >> (w - 1 - hz) & 1))
			++hz;
		if (hz > 0 && hz < w)
			return mkZExt(mkIte(c, mkExtract(a, 0, w - hz), mkExtract(b, 0, w - hz)), w);
	}
	E t[3] = { c, a, b };
	return intern(K_ITE, w, 0, t, 3);
}

// Misc ---------------------------------------------------------------
static const char* kn[] = { "const", "var", "lin", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>u", ">>s", "concat", "extract", "sext", "==", "<u", "<s", "ite" };
std::string toStr(E e, int depth)
{
	char buf[64];
	if (e->kind == K_CONST) {
		snprintf(buf, sizeof buf, "%llu:%u", (unsigned long long)e->c, e->width);
		return buf;
	}
	if (e->kind == K_VAR)
		return g_vars[e->c].name;
	if (depth == 0)
		return "#" + std::to_string(e->id);
	std::string s = "(";
	s += kn[e->kind];
	if (e->kind == K_EXTRACT || e->kind == K_LIN) {
		snprintf(buf, sizeof buf, "[%llu,%u]", (unsigned long long)e->c, e->width);
		s += buf;
	}
	for (unsigned i = 0; i < e->n; ++i) {
		s += ' ';
		if (e->co && e->co[i] != 1) {
			snprintf(buf, sizeof buf, "%lld.", (long long)sx(e->co[i], e->width));
			s += buf;
		}
		s += toStr(e->k[i], depth - 1);
	}
	return s + ")";
}

static std::unordered_map<uint32_t, std::vector<uint32_t>> varsCache;
static std::vector<uint32_t> stampv;
static uint32_t stampCur = 0;
// small variable sets are shared and kept for every term, big ones only for the asked terms
static std::vector<const std::vector<uint32_t>*> smallVars;
static std::set<std::vector<uint32_t>> smallSets;
static const std::vector<uint32_t> bigMark{ 0xFFFFFFFFu, 0 };
static const std::vector<uint32_t> noVars;
static const std::vector<uint32_t>* smallOf(E e)
{
	if (e->kind == K_CONST)
		return &noVars;
	const std::vector<uint32_t>*& m0 = smallVars[e->id];
	if (m0)
		return m0;
	const std::vector<uint32_t>* r = &noVars;
	if (e->kind == K_VAR)
		r = &*smallSets.insert(std::vector<uint32_t>{ (uint32_t)e->c }).first;
	else
		for (unsigned i = 0; i < e->n; ++i) {
			const std::vector<uint32_t>* k = smallOf(e->k[i]);
			if (k == &bigMark) {
				r = k;
				break;
			}
			if (k == r || k->empty())
				continue;
			if (r->empty()) {
				r = k;
				continue;
			}
			std::vector<uint32_t> u;
			std::set_union(r->begin(), r->end(), k->begin(), k->end(), std::back_inserter(u));
			if (u.size() > 48) {
				r = &bigMark;
				break;
			}
			if (u.size() == r->size())
				continue;
			r = u.size() == k->size() ? k : &*smallSets.insert(std::move(u)).first;
		}
	smallVars[e->id] = r;
	return r;
}
const std::vector<uint32_t>& varsOf(E root)
{
	if (smallVars.size() < g_exprCount)
		smallVars.resize(g_exprCount * 2, nullptr);
	const std::vector<uint32_t>* sm = smallOf(root);
	if (sm != &bigMark)
		return *sm;
	auto it = varsCache.find(root->id);
	if (it != varsCache.end())
		return it->second;
	std::vector<uint32_t> out;
	if (stampv.size() < g_exprCount)
		stampv.resize(g_exprCount * 2, 0);
	++stampCur;
	std::vector<E> st{ root };
	stampv[root->id] = stampCur;
	while (!st.empty()) {
		E e = st.back();
		st.pop_back();
		if (e->kind == K_VAR) {
			out.push_back((uint32_t)e->c);
			continue;
		}
		for (unsigned i = 0; i < e->n; ++i)
			if (stampv[e->k[i]->id] != stampCur) {
				stampv[e->k[i]->id] = stampCur;
				st.push_back(e->k[i]);
			}
	}
	std::sort(out.begin(), out.end());
	return varsCache[root->id] = std::move(out);
}
E varExpr(uint32_t id) { return intern(K_VAR, g_vars[id].width, id, nullptr, 0); }
