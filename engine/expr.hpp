// Hash-consed bit-vector expressions (width 1..64) with constant folding, evaluation under a model, and translation to Z3.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

enum Kind : uint8_t { KConst, KVar, KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr, KEq, KUlt, KUle, KSlt, KSle, KIte, KConcat, KExtract, KZExt, KSExt };

struct Expr {
	Kind k;
	uint8_t w; // width in bits
	uint32_t aux = 0; // Extract: low bit; Var: id
	uint64_t val = 0; // Const
	const Expr *a = nullptr, *b = nullptr, *c = nullptr;
	mutable uint64_t cv = 0;
	mutable uint32_t epoch = 0;
	mutable Z3_ast z = nullptr;
	uint64_t h = 0;
	Expr *next = nullptr;
};
typedef const Expr *E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct ExprPool {
	std::vector<Expr *> buckets;
	size_t n = 0;
	std::vector<char *> arena;
	size_t apos = 0;
	static const size_t CH = 1 << 20;
	ExprPool() : buckets(1 << 16, nullptr) {}
	Expr *alloc()
	{
		if( arena.empty() or apos + sizeof(Expr) > CH ) {
			arena.push_back((char *)malloc(CH));
			apos = 0;
		}
		Expr *e = new(arena.back() + apos) Expr;
		apos += sizeof(Expr);
		return e;
	}
	static uint64_t hash(Kind k, unsigned w, uint32_t aux, uint64_t val, E a, E b, E c)
	{
		uint64_t h = k * 0x9E3779B97F4A7C15ull + w;
		auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
		mix(aux); mix(val); mix((uint64_t)a); mix((uint64_t)b); mix((uint64_t)c);
		return h;
	}
	E get(Kind k, unsigned w, uint32_t aux, uint64_t val, E a, E b, E c)
	{
		uint64_t h = hash(k, w, aux, val, a, b, c);
		for( Expr *e = buckets[h & (buckets.size() - 1)]; e; e = e->next )
			if( e->h == h and e->k == k and e->w == w and e->aux == aux and e->val == val and e->a == a and e->b == b and e->c == c ) return e;
		Expr *e = alloc();
		e->k = k; e->w = w; e->aux = aux; e->val = val; e->a = a; e->b = b; e->c = c; e->h = h;
		Expr *&s = buckets[h & (buckets.size() - 1)];
		e->next = s;
		s = e;
		if( ++n > buckets.size() ) {
			std::vector<Expr *> nb(buckets.size() * 2, nullptr);
			for( Expr *p : buckets )
				while( p ) {
					Expr *q = p->next;
					p->next = nb[p->h & (nb.size() - 1)];
					nb[p->h & (nb.size() - 1)] = p;
					p = q;
				}
			buckets.swap(nb);
		}
		return e;
	}
};
extern ExprPool g_pool;

static inline E mkConst(uint64_t v, unsigned w) { return g_pool.get(KConst, w, 0, v & maskw(w), 0, 0, 0); }
static inline E mkVar(uint32_t id, unsigned w) { return g_pool.get(KVar, w, id, 0, 0, 0, 0); }
static inline bool isC(E e) { return e->k == KConst; }

static inline uint64_t foldBin(Kind k, unsigned w, uint64_t x, uint64_t y)
{
	uint64_t m = maskw(w);
	switch( k ) {
	case KAdd: return (x + y) & m;
	case KSub: return (x - y) & m;
	case KMul: return (x * y) & m;
	case KUDiv: return y ? (x / y) : m;
	case KURem: return y ? (x % y) : x;
	case KSDiv: { int64_t a = sx(x, w), b = sx(y, w); if( !b ) return a < 0 ? 1 : m; if( b == -1 ) return (0 - x) & m; return (uint64_t)(a / b) & m; }
	case KSRem: { int64_t a = sx(x, w), b = sx(y, w); if( !b ) return x; if( b == -1 ) return 0; return (uint64_t)(a % b) & m; }
	case KAnd: return x & y;
	case KOr: return x | y;
	case KXor: return x ^ y;
	case KShl: return y >= w ? 0 : (x << y) & m;
	case KLShr: return y >= w ? 0 : x >> y;
	case KAShr: return (uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)) & m;
	case KEq: return x == y;
	case KUlt: return x < y;
	case KUle: return x <= y;
	case KSlt: return sx(x, w) < sx(y, w);
	case KSle: return sx(x, w) <= sx(y, w);
	default: abort();
	}
}

E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkConcat(E hi, E lo);
E mkBin(Kind k, E a, E b);
static inline E mkNot1(E a) { return mkBin(KXor, a, mkConst(1, 1)); }
static inline E mkEq(E a, E b) { return mkBin(KEq, a, b); }

struct Model {
	std::vector<uint64_t> v; // by var id
};
extern uint32_t g_epoch; // bump when the model changes
uint64_t evalE(E e, const Model &m);

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;

extern Z3_context g_z3;
Z3_ast toZ3(E e);
