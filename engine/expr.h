// Hash-consed bit-vector expressions with aggressive local normalisation.
// All nodes are at most 64 bits wide, except CONCAT, which may be wider (pieces are <= 64 bits).
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <cassert>

enum Kind : uint8_t { K_CONST, K_VAR, K_LIN, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
	K_SHL, K_LSHR, K_ASHR, K_CONCAT, K_EXTRACT, K_SEXT, K_EQ, K_ULT, K_SLT, K_ITE };

struct Expr
{
	Kind kind;
	uint16_t width;
	uint32_t n;	   // number of kids
	uint32_t id;	   // unique
	uint64_t c;	   // const value / var id / LIN constant / EXTRACT low bit
	uint64_t kz;	   // known zero bits (width<=64)
	uint64_t hash;
	const Expr** k;	   // kids
	uint64_t* co;	   // LIN coefficients
	bool isConst() const { return kind == K_CONST; }
};
typedef const Expr* E;

struct VarInfo { std::string name; unsigned width; bool garbage; };
extern std::vector<VarInfo> g_vars;
extern size_t g_exprCount;

static inline uint64_t maskOf(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

E mkConst(uint64_t v, unsigned w);	// w<=64
E mkVar(const std::string& name, unsigned w, bool garbage = false);
E varExpr(uint32_t id);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkNeg(E a);
E mkMul(E a, E b);
E mkUDiv(E a, E b);
E mkSDiv(E a, E b);
E mkURem(E a, E b);
E mkSRem(E a, E b);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkXor(E a, E b);
E mkNot(E a);
E mkShl(E a, E b);
E mkLShr(E a, E b);
E mkAShr(E a, E b);
E mkConcat(const std::vector<E>& hiToLo);
E mkConcat2(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkTrunc(E a, unsigned w);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkUle(E a, E b);
E mkSlt(E a, E b);
E mkSle(E a, E b);
E mkIte(E c, E a, E b);
static inline E mkTrue() { return mkConst(1, 1); }
static inline E mkFalse() { return mkConst(0, 1); }
static inline bool isTrue(E e) { return e->kind == K_CONST && e->width == 1 && e->c == 1; }
static inline bool isFalse(E e) { return e->kind == K_CONST && e->width == 1 && e->c == 0; }
std::string toStr(E e, int depth = 6);
// variables occurring in e (sorted ids, cached)
const std::vector<uint32_t>& varsOf(E e);
// maximum unsigned value by known bits
static inline uint64_t umaxOf(E e) { return maskOf(e->width) & ~e->kz; }
