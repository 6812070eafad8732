#include "expr.hpp"
ExprPool g_pool;
uint32_t g_epoch = 1;
std::vector<VarInfo> g_vars;
Z3_context g_z3;

E mkIte(E c, E a, E b)
{
	if( isC(c) ) return c->val ? a : b;
	if( a == b ) return a;
	if( a->w == 1 ) {
		if( isC(a) and isC(b) ) return a->val ? c : mkNot1(c);
		if( isC(a) ) return a->val ? mkBin(KOr, c, b) : mkBin(KAnd, mkNot1(c), b);
		if( isC(b) ) return b->val ? mkBin(KOr, mkNot1(c), a) : mkBin(KAnd, c, a);
	}
	if( a->k == KIte and a->a == c ) a = a->b;
	if( b->k == KIte and b->a == c ) b = b->c;
	if( a == b ) return a;
	return g_pool.get(KIte, a->w, 0, 0, c, a, b);
}
E mkExtract(E a, unsigned lo, unsigned w)
{
	if( lo == 0 and w == a->w ) return a;
	if( isC(a) ) return mkConst(a->val >> lo, w);
	if( a->k == KExtract ) return mkExtract(a->a, a->aux + lo, w);
	if( a->k == KZExt ) {
		if( lo + w <= a->a->w ) return mkExtract(a->a, lo, w);
		if( lo >= a->a->w ) return mkConst(0, w);
		return mkZExt(mkExtract(a->a, lo, a->a->w - lo), w);
	}
	if( a->k == KSExt and lo + w <= a->a->w ) return mkExtract(a->a, lo, w);
	if( a->k == KConcat ) {
		unsigned lw = a->b->w;
		if( lo + w <= lw ) return mkExtract(a->b, lo, w);
		if( lo >= lw ) return mkExtract(a->a, lo - lw, w);
		return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
	}
	if( a->k == KIte and (isC(a->b) or isC(a->c)) ) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
	if( a->k == KAnd or a->k == KOr or a->k == KXor ) {
		if( isC(a->a) or isC(a->b) or w == 1 ) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
	}
	if( (a->k == KLShr) and isC(a->b) and lo + w + a->b->val <= a->w ) return mkExtract(a->a, lo + a->b->val, w);
	if( (a->k == KShl) and isC(a->b) and lo >= a->b->val ) return mkExtract(a->a, lo - a->b->val, w);
	return g_pool.get(KExtract, w, lo, 0, a, 0, 0);
}
E mkZExt(E a, unsigned w)
{
	if( w == a->w ) return a;
	if( isC(a) ) return mkConst(a->val, w);
	if( a->k == KZExt ) return mkZExt(a->a, w);
	if( a->k == KIte and isC(a->b) and isC(a->c) ) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
	return g_pool.get(KZExt, w, 0, 0, a, 0, 0);
}
E mkSExt(E a, unsigned w)
{
	if( w == a->w ) return a;
	if( isC(a) ) return mkConst((uint64_t)sx(a->val, a->w), w);
	if( a->k == KZExt ) return mkZExt(a->a, w);
	if( a->k == KSExt ) return mkSExt(a->a, w);
	if( a->k == KIte and isC(a->b) and isC(a->c) ) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
	return g_pool.get(KSExt, w, 0, 0, a, 0, 0);
}
E mkConcat(E hi, E lo)
{
	if( isC(hi) and isC(lo) ) return mkConst((hi->val << lo->w) | lo->val, hi->w + lo->w);
	if( isC(hi) and hi->val == 0 ) return mkZExt(lo, hi->w + lo->w);
	if( hi->k == KExtract and lo->k == KExtract and hi->a == lo->a and hi->aux == lo->aux + lo->w ) return mkExtract(lo->a, lo->aux, hi->w + lo->w);
	if( hi->k == KExtract and hi->a == lo and hi->aux == lo->w ) {}
	return g_pool.get(KConcat, hi->w + lo->w, 0, 0, hi, lo, 0);
}
E mkBin(Kind k, E a, E b)
{
	unsigned w = a->w;
	bool cmp = k >= KEq and k <= KSle;
	unsigned rw = cmp ? 1 : w;
	if( isC(a) and isC(b) ) return mkConst(foldBin(k, w, a->val, b->val), rw);
	// canonicalise constants to the right for commutative operators
	if( isC(a) and (k == KAdd or k == KMul or k == KAnd or k == KOr or k == KXor or k == KEq) ) std::swap(a, b);
	uint64_t m = maskw(w);
	switch( k ) {
	case KAdd:
		if( isC(b) and b->val == 0 ) return a;
		if( isC(b) and a->k == KAdd and isC(a->b) ) return mkBin(KAdd, a->a, mkConst(a->b->val + b->val, w));
		if( isC(b) and a->k == KIte and isC(a->b) and isC(a->c) ) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
		break;
	case KSub:
		if( isC(b) ) return mkBin(KAdd, a, mkConst(0 - b->val, w));
		if( a == b ) return mkConst(0, w);
		break;
	case KMul:
		if( isC(b) and b->val == 1 ) return a;
		if( isC(b) and b->val == 0 ) return b;
		break;
	case KAnd:
		if( a == b ) return a;
		if( isC(b) ) {
			if( b->val == 0 ) return b;
			if( b->val == m ) return a;
			if( a->k == KZExt ) {
				uint64_t im = maskw(a->a->w);
				if( (b->val & im) == im ) return a;
				return mkZExt(mkBin(KAnd, a->a, mkConst(b->val, a->a->w)), w);
			}
			if( a->k == KAnd and isC(a->b) ) return mkBin(KAnd, a->a, mkConst(a->b->val & b->val, w));
			if( a->k == KIte and isC(a->b) and isC(a->c) ) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
		}
		break;
	case KOr:
		if( a == b ) return a;
		if( isC(b) ) {
			if( b->val == 0 ) return a;
			if( b->val == m ) return b;
		}
		// reassemble bytes: (zext lo) | (zext hi << n)
		if( a->k == KZExt and b->k == KShl and isC(b->b) and b->a->k == KZExt and b->b->val == a->a->w and b->a->a->w + a->a->w <= w ) return mkZExt(mkConcat(b->a->a, a->a), w);
		if( b->k == KZExt and a->k == KShl and isC(a->b) and a->a->k == KZExt and a->b->val == b->a->w and a->a->a->w + b->a->w <= w ) return mkZExt(mkConcat(a->a->a, b->a), w);
		break;
	case KXor:
		if( a == b ) return mkConst(0, w);
		if( isC(b) ) {
			if( b->val == 0 ) return a;
			if( a->k == KXor and isC(a->b) ) return mkBin(KXor, a->a, mkConst(a->b->val ^ b->val, w));
			if( a->k == KZExt ) {
				uint64_t im = maskw(a->a->w);
				if( (b->val & ~im) == 0 ) return mkZExt(mkBin(KXor, a->a, mkConst(b->val, a->a->w)), w);
			}
			if( a->k == KIte and isC(a->b) and isC(a->c) ) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
		}
		break;
	case KShl:
	case KLShr:
	case KAShr:
		if( isC(b) and b->val == 0 ) return a;
		if( isC(b) and k == KLShr ) {
			if( b->val >= w ) return mkConst(0, w);
			return mkZExt(mkExtract(a, b->val, w - b->val), w);
		}
		if( isC(b) and b->val >= w and k == KShl ) return mkConst(0, w);
		break;
	case KEq:
		if( a == b ) return mkConst(1, 1);
		if( w == 1 and isC(b) ) return b->val ? a : mkNot1(a);
		if( isC(b) ) {
			if( a->k == KZExt ) {
				if( b->val >> a->a->w ) return mkConst(0, 1);
				return mkEq(a->a, mkConst(b->val, a->a->w));
			}
			if( a->k == KSExt ) {
				uint64_t t = b->val & maskw(a->a->w);
				if( ((uint64_t)sx(t, a->a->w) & m) != b->val ) return mkConst(0, 1);
				return mkEq(a->a, mkConst(t, a->a->w));
			}
			if( a->k == KAdd and isC(a->b) ) return mkEq(a->a, mkConst(b->val - a->b->val, w));
			if( a->k == KXor and isC(a->b) ) return mkEq(a->a, mkConst(b->val ^ a->b->val, w));
			if( a->k == KIte and (isC(a->b) or isC(a->c)) ) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
			if( a->k == KConcat ) return mkBin(KAnd, mkEq(a->a, mkConst(b->val >> a->b->w, a->a->w)), mkEq(a->b, mkConst(b->val, a->b->w)));
		}
		else if( a->k == KZExt and b->k == KZExt and a->a->w == b->a->w ) return mkEq(a->a, b->a);
		if( a > b and not isC(b) ) std::swap(a, b);
		break;
	case KUlt:
		if( a == b ) return mkConst(0, 1);
		if( isC(b) and b->val == 0 ) return b->w ? mkConst(0, 1) : nullptr;
		if( isC(b) and b->val == 1 ) return mkEq(a, mkConst(0, w));
		if( isC(b) and a->k == KZExt ) {
			if( b->val > maskw(a->a->w) ) return mkConst(1, 1);
			return mkBin(KUlt, a->a, mkConst(b->val, a->a->w));
		}
		if( isC(a) and b->k == KZExt ) {
			if( a->val >= maskw(b->a->w) ) return mkConst(0, 1);
			return mkBin(KUlt, mkConst(a->val, b->a->w), b->a);
		}
		if( isC(b) and a->k == KIte and (isC(a->b) or isC(a->c)) ) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
		break;
	case KUle:
		return mkNot1(mkBin(KUlt, b, a));
	case KSlt:
		if( a == b ) return mkConst(0, 1);
		// zero-extended operands are non-negative: signed comparison is unsigned
		if( a->k == KZExt and b->k == KZExt ) return mkBin(KUlt, a, b);
		if( a->k == KZExt and isC(b) ) return sx(b->val, w) < 0 ? mkConst(0, 1) : mkBin(KUlt, a, b);
		if( isC(a) and b->k == KZExt ) return sx(a->val, w) < 0 ? mkConst(1, 1) : mkBin(KUlt, a, b);
		if( isC(b) and a->k == KIte and (isC(a->b) or isC(a->c)) ) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
		if( isC(a) and b->k == KIte and (isC(b->b) or isC(b->c)) ) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
		break;
	case KSle:
		return mkNot1(mkBin(KSlt, b, a));
	default: break;
	}
	return g_pool.get(k, rw, 0, 0, a, b, 0);
}

uint64_t evalE(E e, const Model &m)
{
	if( e->k == KConst ) return e->val;
	if( e->k == KVar ) return e->aux < m.v.size() ? m.v[e->aux] & maskw(e->w) : 0;
	if( e->epoch == g_epoch ) return e->cv;
	uint64_t r;
	switch( e->k ) {
	case KIte: r = evalE(e->a, m) ? evalE(e->b, m) : evalE(e->c, m); break;
	case KConcat: r = (evalE(e->a, m) << e->b->w) | evalE(e->b, m); break;
	case KExtract: r = (evalE(e->a, m) >> e->aux) & maskw(e->w); break;
	case KZExt: r = evalE(e->a, m); break;
	case KSExt: r = (uint64_t)sx(evalE(e->a, m), e->a->w) & maskw(e->w); break;
	default: r = foldBin(e->k, e->a->w, evalE(e->a, m), evalE(e->b, m)); break;
	}
	e->cv = r;
	e->epoch = g_epoch;
	return r;
}

// booleans (width 1) are translated as 1-bit bit-vectors
Z3_ast toZ3(E e)
{
	if( e->z ) return e->z;
	Z3_context c = g_z3;
	auto bv1 = [&](Z3_ast b) { Z3_sort s = Z3_mk_bv_sort(c, 1); return Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s)); };
	Z3_ast r = nullptr;
	switch( e->k ) {
	case KConst: r = Z3_mk_unsigned_int64(c, e->val, Z3_mk_bv_sort(c, e->w)); break;
	case KVar: r = Z3_mk_const(c, Z3_mk_string_symbol(c, ("v" + std::to_string(e->aux)).c_str()), Z3_mk_bv_sort(c, e->w)); break;
	case KIte: {
		Z3_ast cc = toZ3(e->a);
		r = Z3_mk_ite(c, Z3_mk_eq(c, cc, Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))), toZ3(e->b), toZ3(e->c));
		break;
	}
	case KConcat: r = Z3_mk_concat(c, toZ3(e->a), toZ3(e->b)); break;
	case KExtract: r = Z3_mk_extract(c, e->aux + e->w - 1, e->aux, toZ3(e->a)); break;
	case KZExt: r = Z3_mk_zero_ext(c, e->w - e->a->w, toZ3(e->a)); break;
	case KSExt: r = Z3_mk_sign_ext(c, e->w - e->a->w, toZ3(e->a)); break;
	default: {
		Z3_ast x = toZ3(e->a), y = toZ3(e->b);
		switch( e->k ) {
		case KAdd: r = Z3_mk_bvadd(c, x, y); break;
		case KSub: r = Z3_mk_bvsub(c, x, y); break;
		case KMul: r = Z3_mk_bvmul(c, x, y); break;
		case KUDiv: r = Z3_mk_bvudiv(c, x, y); break;
		case KSDiv: r = Z3_mk_bvsdiv(c, x, y); break;
		case KURem: r = Z3_mk_bvurem(c, x, y); break;
		case KSRem: r = Z3_mk_bvsrem(c, x, y); break;
		case KAnd: r = Z3_mk_bvand(c, x, y); break;
		case KOr: r = Z3_mk_bvor(c, x, y); break;
		case KXor: r = Z3_mk_bvxor(c, x, y); break;
		case KShl: r = Z3_mk_bvshl(c, x, y); break;
		case KLShr: r = Z3_mk_bvlshr(c, x, y); break;
		case KAShr: r = Z3_mk_bvashr(c, x, y); break;
		case KEq: r = bv1(Z3_mk_eq(c, x, y)); break;
		case KUlt: r = bv1(Z3_mk_bvult(c, x, y)); break;
		case KUle: r = bv1(Z3_mk_bvule(c, x, y)); break;
		case KSlt: r = bv1(Z3_mk_bvslt(c, x, y)); break;
		case KSle: r = bv1(Z3_mk_bvsle(c, x, y)); break;
		default: abort();
		}
	}
	}
	Z3_inc_ref(c, r);
	e->z = r;
	return r;
}
