#include "expr.h"
#include <cstdio>

std::unordered_set<E, EHash, EEq> g_exprs;
uint32_t g_expr_id;

static bool isCmp(Op op) { return op >= Op::Eq && op <= Op::Sle; }

E mkZExt(E a, unsigned w)
{
	if(a->w == w)
		return a;
	if(isC(a))
		return mkConst(a->c, w);
	if(a->op == Op::ZExt)
		return mkZExt(a->a, w);
	return intern(Op::ZExt, w, 0, a);
}

E mkSExt(E a, unsigned w)
{
	if(a->w == w)
		return a;
	if(isC(a))
		return mkConst((uint64_t)sx(a->c, a->w), w);
	if(a->op == Op::ZExt)
		return mkZExt(a->a, w);
	if(a->op == Op::SExt)
		return mkSExt(a->a, w);
	return intern(Op::SExt, w, 0, a);
}

E mkExtract(E a, unsigned lo, unsigned w)
{
	if(lo == 0 && w == a->w)
		return a;
	if(isC(a))
		return mkConst(a->c >> lo, w);
	if(a->op == Op::Extract)
		return mkExtract(a->a, lo + (unsigned)a->c, w);
	if(a->op == Op::ZExt)
	{
		unsigned iw = a->a->w;
		if(lo >= iw)
			return mkConst(0, w);
		if(lo + w <= iw)
			return mkExtract(a->a, lo, w);
		return mkZExt(mkExtract(a->a, lo, iw - lo), w);
	}
	if(a->op == Op::SExt && lo + w <= a->a->w)
		return mkExtract(a->a, lo, w);
	if(a->op == Op::SExt && lo == 0)
		return mkSExt(a->a, w);
	if(a->op == Op::Concat)
	{
		unsigned lw = a->b->w;
		if(lo + w <= lw)
			return mkExtract(a->b, lo, w);
		if(lo >= lw)
			return mkExtract(a->a, lo - lw, w);
	}
	if(a->op == Op::Ite)
		return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
	if(lo == 0 && (a->op == Op::And || a->op == Op::Or || a->op == Op::Xor || a->op == Op::Add || a->op == Op::Sub))
		return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
	return intern(Op::Extract, w, lo, a);
}

E mkConcat(E hi, E lo)
{
	unsigned w = hi->w + lo->w;
	if(isC(hi) && isC(lo))
		return mkConst((hi->c << lo->w) | lo->c, w);
	if(isC(hi) && hi->c == 0)
		return mkZExt(lo, w);
	if(hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->c == lo->c + lo->w)
		return mkExtract(lo->a, (unsigned)lo->c, w);
	return intern(Op::Concat, w, 0, hi, lo);
}

E mkIte(E c, E a, E b)
{
	if(isC(c))
		return c->c ? a : b;
	if(a == b)
		return a;
	if(a->w == 1 && isC(a) && isC(b))
		return a->c ? c : mkNot(c);
	return intern(Op::Ite, a->w, 0, c, a, b);
}

E mkBin(Op op, E a, E b)
{
	unsigned w = a->w, rw = isCmp(op) ? 1 : w;
	if(isC(a) && isC(b))
		return mkConst(foldBin(op, w, a->c, b->c), rw);
	bool comm = op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq;
	if(comm && (isC(a) || (!isC(b) && a->id > b->id)))
	{
		E t = a;
		a = b;
		b = t;
	}
	if(isC(b))
	{
		uint64_t k = b->c;
		switch(op)
		{
			case Op::Add:
				if(k == 0)
					return a;
				if(a->op == Op::Add && isC(a->b))
					return mkBin(Op::Add, a->a, mkConst(a->b->c + k, w));
				break;
			case Op::Sub:
				return mkBin(Op::Add, a, mkConst(0 - k, w));
			case Op::Or:
			case Op::Xor:
				if(k == 0)
					return a;
				if(op == Op::Or && k == mask(w))
					return b;
				break;
			case Op::Shl:
			case Op::LShr:
			case Op::AShr:
				if(k == 0)
					return a;
				if(op == Op::LShr && k < w)
					return mkZExt(mkExtract(a, (unsigned)k, w - (unsigned)k), w);
				break;
			case Op::And:
				if(k == 0)
					return b;
				if(k == mask(w))
					return a;
				if((k & (k + 1)) == 0)
				{
					unsigned n = 0;
					while(n < 64 && (k >> n) & 1)
						++n;
					return mkZExt(mkExtract(a, 0, n), w);
				}
				break;
			case Op::Mul:
				if(k == 0)
					return b;
				if(k == 1)
					return a;
				break;
			case Op::UDiv:
				if(k == 1)
					return a;
				if(a->op == Op::ZExt && k <= mask(a->a->w) && k)
					return mkZExt(mkBin(op, a->a, mkConst(k, a->a->w)), w);
				break;
			case Op::URem:
				if(k == 1)
					return mkConst(0, w);
				if(a->op == Op::ZExt && k)
				{
					if(k > mask(a->a->w))
						return a;
					return mkZExt(mkBin(op, a->a, mkConst(k, a->a->w)), w);
				}
				break;
			case Op::Eq:
				if(w == 1 && k == 1)
					return a;
				if(w == 1 && k == 0)
				{
					// negations
					if(a->op == Op::Eq && a->a->w == 1 && isC(a->b) && a->b->c == 0)
						return a->a;
					if(a->op == Op::Ult)
						return mkBin(Op::Ule, a->b, a->a);
					if(a->op == Op::Ule)
						return mkBin(Op::Ult, a->b, a->a);
					if(a->op == Op::Slt)
						return mkBin(Op::Sle, a->b, a->a);
					if(a->op == Op::Sle)
						return mkBin(Op::Slt, a->b, a->a);
				}
				if(a->op == Op::ZExt)
				{
					if(k > mask(a->a->w))
						return mkConst(0, 1);
					return mkBin(Op::Eq, a->a, mkConst(k, a->a->w));
				}
				if(a->op == Op::SExt)
				{
					uint64_t low = k & mask(a->a->w);
					if(((uint64_t)sx(low, a->a->w) & mask(w)) != k)
						return mkConst(0, 1);
					return mkBin(Op::Eq, a->a, mkConst(low, a->a->w));
				}
				if(a->op == Op::Ite && isC(a->b) && isC(a->d))
					return mkIte(a->a, mkConst(a->b->c == k, 1), mkConst(a->d->c == k, 1));
				if(a->op == Op::Add && isC(a->b))
					return mkBin(Op::Eq, a->a, mkConst(k - a->b->c, w));
				if(a->op == Op::Sub && k == 0)
					return mkBin(Op::Eq, a->a, a->b);
				break;
			case Op::Ult:
				if(k == 0)
					return mkConst(0, 1);
				if(a->op == Op::ZExt)
				{
					if(k > mask(a->a->w))
						return mkConst(1, 1);
					return mkBin(op, a->a, mkConst(k, a->a->w));
				}
				break;
			case Op::Ule:
				if(k == mask(w))
					return mkConst(1, 1);
				if(a->op == Op::ZExt)
				{
					if(k >= mask(a->a->w))
						return mkConst(1, 1);
					return mkBin(op, a->a, mkConst(k, a->a->w));
				}
				break;
			case Op::Slt:
			case Op::Sle:
				if(a->op == Op::ZExt && sx(k, w) < 0)
					return mkConst(0, 1);
				if(a->op == Op::ZExt)
					return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
				if(a->op == Op::Ite && isC(a->b) && isC(a->d))
					return mkIte(a->a, mkConst(foldBin(op, w, a->b->c, k), 1), mkConst(foldBin(op, w, a->d->c, k), 1));
				break;
			default:
				break;
		}
	}
	if(isC(a) && !isC(b))
	{
		uint64_t k = a->c;
		if((op == Op::Ult || op == Op::Ule) && b->op == Op::ZExt)
		{
			if(k > mask(b->a->w))
				return mkConst(0, 1);
			return mkBin(op, mkConst(k, b->a->w), b->a);
		}
		if(op == Op::Ule && k == 0)
			return mkConst(1, 1);
		if((op == Op::Slt || op == Op::Sle) && b->op == Op::ZExt)
		{
			if(sx(k, w) < 0)
				return mkConst(1, 1);
			return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
		}
		if((op == Op::Slt || op == Op::Sle) && b->op == Op::Ite && isC(b->b) && isC(b->d))
			return mkIte(b->a, mkConst(foldBin(op, w, k, b->b->c), 1), mkConst(foldBin(op, w, k, b->d->c), 1));
	}
	if(a == b)
	{
		switch(op)
		{
			case Op::Eq:
			case Op::Ule:
			case Op::Sle: return mkConst(1, 1);
			case Op::Ult:
			case Op::Slt: return mkConst(0, 1);
			case Op::Sub:
			case Op::Xor: return mkConst(0, w);
			case Op::And:
			case Op::Or: return a;
			default: break;
		}
	}
	if(isCmp(op) && a->op == Op::ZExt && b->op == Op::ZExt)
	{
		unsigned n = a->a->w > b->a->w ? a->a->w : b->a->w;
		if(n < w)
		{
			Op o = op == Op::Slt ? Op::Ult : op == Op::Sle ? Op::Ule : op;
			return mkBin(o, mkZExt(a->a, n), mkZExt(b->a, n));
		}
	}
	return intern(op, rw, 0, a, b);
}

uint64_t evalE(E e, const std::vector<uint64_t> &m, uint64_t ep)
{
	if(e->op == Op::Const)
		return e->c;
	if(e->epoch == ep)
		return e->val;
	uint64_t r;
	switch(e->op)
	{
		case Op::Var:
		{
			uint64_t i = e->c & ~UNINIT_BIT;
			r = i < m.size() ? m[i] & mask(e->w) : 0;
			break;
		}
		case Op::Ite: r = evalE(e->a, m, ep) ? evalE(e->b, m, ep) : evalE(e->d, m, ep); break;
		case Op::Concat: r = (evalE(e->a, m, ep) << e->b->w) | evalE(e->b, m, ep); break;
		case Op::Extract: r = (evalE(e->a, m, ep) >> e->c) & mask(e->w); break;
		case Op::ZExt: r = evalE(e->a, m, ep); break;
		case Op::SExt: r = (uint64_t)sx(evalE(e->a, m, ep), e->a->w) & mask(e->w); break;
		default: r = foldBin(e->op, e->a->w, evalE(e->a, m, ep), evalE(e->b, m, ep)); break;
	}
	e->epoch = ep;
	e->val = r;
	return r;
}

Z3_ast toZ3(Z3_context c, E e)
{
	if(e->z)
		return e->z;
	Z3_ast r = nullptr;
	auto bv1 = [&](Z3_ast b) {
		return Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)), Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 1)));
	};
	switch(e->op)
	{
		case Op::Const: r = Z3_mk_unsigned_int64(c, e->c, Z3_mk_bv_sort(c, e->w)); break;
		case Op::Var:
		{
			char name[48];
			snprintf(name, sizeof name, "v%llu_%u", (unsigned long long)e->c, e->w);
			r = Z3_mk_const(c, Z3_mk_string_symbol(c, name), Z3_mk_bv_sort(c, e->w));
			break;
		}
		case Op::Ite:
		{
			Z3_ast cond = Z3_mk_eq(c, toZ3(c, e->a), Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1)));
			r = Z3_mk_ite(c, cond, toZ3(c, e->b), toZ3(c, e->d));
			break;
		}
		case Op::Concat: r = Z3_mk_concat(c, toZ3(c, e->a), toZ3(c, e->b)); break;
		case Op::Extract: r = Z3_mk_extract(c, (unsigned)e->c + e->w - 1, (unsigned)e->c, toZ3(c, e->a)); break;
		case Op::ZExt: r = Z3_mk_zero_ext(c, e->w - e->a->w, toZ3(c, e->a)); break;
		case Op::SExt: r = Z3_mk_sign_ext(c, e->w - e->a->w, toZ3(c, e->a)); break;
		default:
		{
			Z3_ast x = toZ3(c, e->a), y = toZ3(c, e->b);
			switch(e->op)
			{
				case Op::Add: r = Z3_mk_bvadd(c, x, y); break;
				case Op::Sub: r = Z3_mk_bvsub(c, x, y); break;
				case Op::Mul: r = Z3_mk_bvmul(c, x, y); break;
				case Op::UDiv: r = Z3_mk_bvudiv(c, x, y); break;
				case Op::SDiv: r = Z3_mk_bvsdiv(c, x, y); break;
				case Op::URem: r = Z3_mk_bvurem(c, x, y); break;
				case Op::SRem: r = Z3_mk_bvsrem(c, x, y); break;
				case Op::And: r = Z3_mk_bvand(c, x, y); break;
				case Op::Or: r = Z3_mk_bvor(c, x, y); break;
				case Op::Xor: r = Z3_mk_bvxor(c, x, y); break;
				case Op::Shl: r = Z3_mk_bvshl(c, x, y); break;
				case Op::LShr: r = Z3_mk_bvlshr(c, x, y); break;
				case Op::AShr: r = Z3_mk_bvashr(c, x, y); break;
				case Op::Eq: r = bv1(Z3_mk_eq(c, x, y)); break;
				case Op::Ult: r = bv1(Z3_mk_bvult(c, x, y)); break;
				case Op::Ule: r = bv1(Z3_mk_bvule(c, x, y)); break;
				case Op::Slt: r = bv1(Z3_mk_bvslt(c, x, y)); break;
				case Op::Sle: r = bv1(Z3_mk_bvsle(c, x, y)); break;
				default: abort();
			}
		}
	}
	Z3_inc_ref(c, r);
	e->z = r;
	return r;
}
