// Hash-consed bit-vector expressions (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <unordered_set>
#include <vector>
#include <z3.h>

enum class Op : uint8_t {
	Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
	Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt
};

struct Expr {
	Op op;
	uint8_t w;
	uint32_t id;
	uint64_t c; // Const: value; Var: index; Extract: low bit
	bool u; // depends on uninitialised memory
	const Expr *a, *b, *d;
	mutable Z3_ast z;
	mutable uint64_t epoch;
	mutable uint64_t val;
};
typedef const Expr *E;
static const uint64_t UNINIT_BIT = 1ull << 62;

inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w)
{
	if(w >= 64)
		return (int64_t)v;
	uint64_t s = 1ull << (w - 1);
	return (int64_t)(((v & mask(w)) ^ s) - s);
}

struct EHash {
	size_t operator()(E e) const
	{
		uint64_t h = (uint64_t)e->op * 0x9E3779B97F4A7C15ull + e->w * 1315423911u + e->c * 0xC2B2AE3D27D4EB4Full;
		h ^= (uint64_t)(e->a ? e->a->id : 0) * 0x165667B19E3779F9ull;
		h = (h << 13) | (h >> 51);
		h ^= (uint64_t)(e->b ? e->b->id : 0) * 0x27D4EB2F165667C5ull;
		h = (h << 17) | (h >> 47);
		h ^= (uint64_t)(e->d ? e->d->id : 0) * 0x85EBCA77C2B2AE63ull;
		return h ^ (h >> 29);
	}
};
struct EEq {
	bool operator()(E x, E y) const
	{
		return x->op == y->op && x->w == y->w && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d;
	}
};

extern std::unordered_set<E, EHash, EEq> g_exprs;
extern uint32_t g_expr_id;

inline E intern(Op op, unsigned w, uint64_t c, E a = nullptr, E b = nullptr, E d = nullptr)
{
	bool u = (op == Op::Var && (c & UNINIT_BIT)) || (a && a->u) || (b && b->u) || (d && d->u);
	Expr t{op, (uint8_t)w, 0, c, u, a, b, d, nullptr, 0, 0};
	auto it = g_exprs.find(&t);
	if(it != g_exprs.end())
		return *it;
	Expr *n = new Expr(t);
	n->id = ++g_expr_id;
	g_exprs.insert(n);
	return n;
}

inline E mkConst(uint64_t v, unsigned w) { return intern(Op::Const, w, v & mask(w)); }
inline E mkVar(uint64_t idx, unsigned w) { return intern(Op::Var, w, idx); }
inline bool isC(E e) { return e->op == Op::Const; }

inline uint64_t foldBin(Op op, unsigned w, uint64_t x, uint64_t y)
{
	uint64_t m = mask(w);
	switch(op)
	{
		case Op::Add: return (x + y) & m;
		case Op::Sub: return (x - y) & m;
		case Op::Mul: return (x * y) & m;
		case Op::UDiv: return y ? x / y : m;
		case Op::URem: return y ? x % y : x;
		case Op::SDiv:
		{
			int64_t p = sx(x, w), q = sx(y, w);
			if(q == 0)
				return p >= 0 ? m : 1;
			if(q == -1)
				return (0 - x) & m;
			return (uint64_t)(p / q) & m;
		}
		case Op::SRem:
		{
			int64_t p = sx(x, w), q = sx(y, w);
			if(q == 0)
				return x;
			if(q == -1)
				return 0;
			return (uint64_t)(p % q) & m;
		}
		case Op::And: return x & y;
		case Op::Or: return x | y;
		case Op::Xor: return x ^ y;
		case Op::Shl: return y >= w ? 0 : (x << y) & m;
		case Op::LShr: return y >= w ? 0 : x >> y;
		case Op::AShr: return (uint64_t)(sx(x, w) >> (y >= w ? (w > 63 ? 63 : w) : y)) & m;
		case Op::Eq: return x == y;
		case Op::Ult: return x < y;
		case Op::Ule: return x <= y;
		case Op::Slt: return sx(x, w) < sx(y, w);
		case Op::Sle: return sx(x, w) <= sx(y, w);
		default: abort();
	}
}

E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
inline E mkNot(E a) { return mkBin(Op::Eq, a, mkConst(0, 1)); }

uint64_t evalE(E e, const std::vector<uint64_t> &model, uint64_t epoch);
Z3_ast toZ3(Z3_context ctx, E e);
