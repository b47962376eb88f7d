// Hash-consed bit-vector expressions (width 1..64), evaluation, translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <z3.h>

enum Op : uint8_t {
	CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
	EQ, ULT, ULE, SLT, SLE, CONCAT, EXTRACT, ZEXT, SEXT, ITE,
	FADD, FSUB, FMUL, FDIV, FCMP, FTOSI, FTOUI, SITOF, UITOF, FTOF
};

struct Expr {
	Op op;
	uint8_t w;
	uint16_t aux;          // EXTRACT: low bit, FCMP: predicate
	uint32_t id;
	const Expr *a, *b, *c;
	uint64_t v;            // CONST: value, VAR: number
	const std::vector<uint32_t> * vars;
	mutable Z3_ast z, zb;
	mutable uint64_t stamp, val;
};
typedef const Expr * E;

static inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct ExprHash {
	size_t operator()(E e) const {
		uint64_t h = e->op * 0x9e3779b97f4a7c15ull + e->w * 1000003 + e->aux * 7919;
		h ^= (uint64_t)(uintptr_t)e->a * 0xff51afd7ed558ccdull;
		h = (h << 13 | h >> 51) ^ (uint64_t)(uintptr_t)e->b * 0xc4ceb9fe1a85ec53ull;
		h = (h << 17 | h >> 47) ^ (uint64_t)(uintptr_t)e->c * 0x87c37b91114253d5ull;
		h = (h << 29 | h >> 35) ^ e->v * 0x4cf5ad432745937full;
		return h ^ h >> 31;
	}
};
struct ExprEq {
	bool operator()(E x, E y) const {
		return x->op == y->op && x->w == y->w && x->aux == y->aux && x->a == y->a && x->b == y->b && x->c == y->c && x->v == y->v;
	}
};
static std::unordered_set<E, ExprHash, ExprEq> exprs;
static uint32_t exprCount;
static const std::vector<uint32_t> noVars;

static const std::vector<uint32_t> * mergeVars(const std::vector<uint32_t> * x, const std::vector<uint32_t> * y)
{
	if (x == y || y->empty()) return x;
	if (x->empty()) return y;
	if (std::includes(x->begin(), x->end(), y->begin(), y->end())) return x;
	if (std::includes(y->begin(), y->end(), x->begin(), x->end())) return y;
	auto * r = new std::vector<uint32_t>();
	std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(*r));
	return r;
}

static E raw(Op op, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, uint64_t v = 0, unsigned aux = 0)
{
	Expr t;
	t.op = op; t.w = w; t.aux = aux; t.a = a; t.b = b; t.c = c; t.v = v;
	auto it = exprs.find(&t);
	if (it != exprs.end()) return *it;
	Expr * n = new Expr(t);
	n->id = ++exprCount;
	n->z = n->zb = nullptr;
	n->stamp = 0;
	if (op == VAR) n->vars = new std::vector<uint32_t>{(uint32_t)v};
	else if (op == CONST) n->vars = &noVars;
	else {
		n->vars = a->vars;
		if (b) n->vars = mergeVars(n->vars, b->vars);
		if (c) n->vars = mergeVars(n->vars, c->vars);
	}
	exprs.insert(n);
	return n;
}

static E K(unsigned w, uint64_t v) { return raw(CONST, w, nullptr, nullptr, nullptr, v & mask(w)); }
static inline bool isK(E e) { return e->op == CONST; }
static E mk(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, unsigned aux = 0);

static double fpv(uint64_t v, unsigned w) { if (w == 64) { double d; memcpy(&d, &v, 8); return d; } float f; uint32_t x = v; memcpy(&f, &x, 4); return f; }
static uint64_t vfp(double d, unsigned w) { if (w == 64) { uint64_t v; memcpy(&v, &d, 8); return v; } float f = d; uint32_t x; memcpy(&x, &f, 4); return x; }
// llvm predicate numbers: 1 oeq 2 ogt 3 oge 4 olt 5 ole 6 one 7 ord 8 uno 9 ueq 10 ugt 11 uge 12 ult 13 ule 14 une
static bool fcmp(unsigned p, double x, double y)
{
	bool u = std::isnan(x) || std::isnan(y);
	bool r = (p & 1 && x == y) || (p & 2 && x > y) || (p & 4 && x < y) || (p & 8 && u);
	return r;
}

static uint64_t fold(Op op, unsigned w, unsigned aux, uint64_t a, unsigned aw, uint64_t b, unsigned bw, uint64_t c)
{
	switch (op) {
	case ADD: return (a + b) & mask(w);
	case SUB: return (a - b) & mask(w);
	case MUL: return (a * b) & mask(w);
	case UDIV: return b ? a / b : mask(w);
	case UREM: return b ? a % b : a;
	case SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : mask(w); if (y == -1) return (0 - a) & mask(w); return (uint64_t)(x / y) & mask(w); }
	case SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & mask(w); }
	case AND: return a & b;
	case OR: return a | b;
	case XOR: return a ^ b;
	case SHL: return b >= w ? 0 : (a << b) & mask(w);
	case LSHR: return b >= w ? 0 : a >> b;
	case ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? w - 1 : b)) & mask(w);
	case EQ: return a == b;
	case ULT: return a < b;
	case ULE: return a <= b;
	case SLT: return sx(a, aw) < sx(b, aw);
	case SLE: return sx(a, aw) <= sx(b, aw);
	case CONCAT: return (a << bw | b) & mask(w);
	case EXTRACT: return a >> aux & mask(w);
	case ZEXT: return a;
	case SEXT: return (uint64_t)sx(a, aw) & mask(w);
	case ITE: return a ? b : c;
	case FADD: return w == 32 ? vfp((float)fpv(a, w) + (float)fpv(b, w), w) : vfp(fpv(a, w) + fpv(b, w), w);
	case FSUB: return w == 32 ? vfp((float)fpv(a, w) - (float)fpv(b, w), w) : vfp(fpv(a, w) - fpv(b, w), w);
	case FMUL: return w == 32 ? vfp((float)fpv(a, w) * (float)fpv(b, w), w) : vfp(fpv(a, w) * fpv(b, w), w);
	case FDIV: return w == 32 ? vfp((float)fpv(a, w) / (float)fpv(b, w), w) : vfp(fpv(a, w) / fpv(b, w), w);
	case FCMP: return fcmp(aux, fpv(a, aw), fpv(b, aw));
	case FTOSI: return (uint64_t)(int64_t)fpv(a, aw) & mask(w);
	case FTOUI: return (uint64_t)fpv(a, aw) & mask(w);
	case SITOF: return vfp((double)sx(a, aw), w);
	case UITOF: return vfp((double)a, w);
	case FTOF: return vfp(fpv(a, aw), w);
	default: abort();
	}
}

static E mkNot(E a) { return mk(XOR, a->w, a, K(a->w, mask(a->w))); }
static E mkExtract(E a, unsigned lo, unsigned w) { return mk(EXTRACT, w, a, nullptr, nullptr, lo); }

static E mk(Op op, unsigned w, E a, E b, E c, unsigned aux)
{
	if (isK(a) && (!b || isK(b)) && (!c || isK(c)))
		return K(w, fold(op, w, aux, a->v, a->w, b ? b->v : 0, b ? b->w : 0, c ? c->v : 0));
	switch (op) {
	case ADD: case MUL: case AND: case OR: case XOR: case EQ:
		if (isK(a)) std::swap(a, b);       // constant to the right
		break;
	default: break;
	}
	switch (op) {
	case ADD:
		if (isK(b) && !b->v) return a;
		if (isK(b) && a->op == ADD && isK(a->b)) return mk(ADD, w, a->a, K(w, a->b->v + b->v));
		break;
	case SUB:
		if (a == b) return K(w, 0);
		if (isK(b)) return mk(ADD, w, a, K(w, 0 - b->v));
		break;
	case MUL:
		if (isK(b)) {
			if (!b->v) return b;
			if (b->v == 1) return a;
			if (!(b->v & (b->v - 1))) return mk(SHL, w, a, K(w, __builtin_ctzll(b->v)));
		}
		break;
	case UDIV:
		if (isK(b) && b->v && !(b->v & (b->v - 1))) return mk(LSHR, w, a, K(w, __builtin_ctzll(b->v)));
		break;
	case UREM:
		if (isK(b) && b->v && !(b->v & (b->v - 1))) return mk(AND, w, a, K(w, b->v - 1));
		break;
	case AND:
		if (a == b) return a;
		if (isK(b)) {
			if (!b->v) return b;
			if (b->v == mask(w)) return a;
			// low mask
			if (!(b->v & (b->v + 1))) {
				unsigned n = __builtin_popcountll(b->v);
				return mk(ZEXT, w, mkExtract(a, 0, n));
			}
			if (a->op == AND && isK(a->b)) return mk(AND, w, a->a, K(w, a->b->v & b->v));
			if (a->op == ZEXT && !(b->v & ~mask(a->a->w))) return mk(ZEXT, w, mk(AND, a->a->w, a->a, K(a->a->w, b->v)));
			if (a->op == ZEXT) return mk(AND, w, a, K(w, b->v & mask(a->a->w)));
		}
		if (w == 1 && a == mkNot(b)) return K(1, 0);
		break;
	case OR:
		if (a == b) return a;
		if (isK(b)) {
			if (!b->v) return a;
			if (b->v == mask(w)) return b;
		}
		// disjoint halves: zext(x) | (y << n)
		for (int s = 0; s < 2; ++s) {
			E x = s ? b : a, y = s ? a : b;
			if (x->op == ZEXT && y->op == CONCAT && isK(y->b) && !y->b->v && x->a->w <= y->b->w)
				return mk(CONCAT, w, y->a, mk(ZEXT, y->b->w, x->a));
			if (x->op == ZEXT && y->op == ZEXT && x->a->w <= y->a->w && y->a->op == CONCAT && isK(y->a->b) && !y->a->b->v && x->a->w <= y->a->b->w)
				return mk(ZEXT, w, mk(CONCAT, y->a->w, y->a->a, mk(ZEXT, y->a->b->w, x->a)));
		}
		if (w == 1 && a == mkNot(b)) return K(1, 1);
		break;
	case XOR:
		if (a == b) return K(w, 0);
		if (isK(b)) {
			if (!b->v) return a;
			if (a->op == XOR && isK(a->b)) return mk(XOR, w, a->a, K(w, a->b->v ^ b->v));
			if (w == 1) {
				if (a->op == ULT) return mk(ULE, 1, a->b, a->a);
				if (a->op == ULE) return mk(ULT, 1, a->b, a->a);
				if (a->op == SLT) return mk(SLE, 1, a->b, a->a);
				if (a->op == SLE) return mk(SLT, 1, a->b, a->a);
			}
		}
		break;
	case SHL:
		if (isK(b)) {
			if (!b->v) return a;
			if (b->v >= w) return K(w, 0);
			return mk(CONCAT, w, mkExtract(a, 0, w - b->v), K(b->v, 0));
		}
		break;
	case LSHR:
		if (isK(b)) {
			if (!b->v) return a;
			if (b->v >= w) return K(w, 0);
			return mk(ZEXT, w, mkExtract(a, b->v, w - b->v));
		}
		break;
	case ASHR:
		if (isK(b)) {
			if (!b->v) return a;
			unsigned n = b->v >= w ? w - 1 : b->v;
			return mk(SEXT, w, mkExtract(a, n, w - n));
		}
		break;
	case EQ:
		if (a == b) return K(1, 1);
		if (isK(b)) {
			if (w == 1 && a->w == 1) return b->v ? a : mkNot(a);
			if (a->op == ZEXT) {
				if (b->v & ~mask(a->a->w)) return K(1, 0);
				return mk(EQ, 1, a->a, K(a->a->w, b->v));
			}
			if (a->op == SEXT) {
				uint64_t lo = b->v & mask(a->a->w);
				if (((uint64_t)sx(lo, a->a->w) & mask(a->w)) != b->v) return K(1, 0);
				return mk(EQ, 1, a->a, K(a->a->w, lo));
			}
			if (a->op == ADD && isK(a->b)) return mk(EQ, 1, a->a, K(a->w, b->v - a->b->v));
			if (a->op == XOR && isK(a->b)) return mk(EQ, 1, a->a, K(a->w, b->v ^ a->b->v));
			if (a->op == CONCAT)
				return mk(AND, 1, mk(EQ, 1, a->a, K(a->a->w, b->v >> a->b->w)), mk(EQ, 1, a->b, K(a->b->w, b->v)));
			if (a->op == ITE && isK(a->b) && isK(a->c)) {
				bool x = a->b->v == b->v, y = a->c->v == b->v;
				if (x && y) return K(1, 1);
				if (!x && !y) return K(1, 0);
				return x ? a->a : mkNot(a->a);
			}
		} else if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w)
			return mk(EQ, 1, a->a, b->a);
		else if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w)
			return mk(EQ, 1, a->a, b->a);
		if (!isK(b) && a->id > b->id) std::swap(a, b);
		break;
	case ULT:
		if (a == b) return K(1, 0);
		if (isK(b) && !b->v) return K(1, 0);
		if (isK(a) && a->v == mask(a->w)) return K(1, 0);
		if (isK(b) && b->v == 1) return mk(EQ, 1, a, K(a->w, 0));
		if (a->op == ZEXT && isK(b)) {
			if (b->v > mask(a->a->w)) return K(1, 1);
			return mk(ULT, 1, a->a, K(a->a->w, b->v));
		}
		if (b->op == ZEXT && isK(a)) {
			if (a->v >= mask(b->a->w)) return K(1, 0);
			return mk(ULT, 1, K(b->a->w, a->v), b->a);
		}
		if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mk(ULT, 1, a->a, b->a);
		break;
	case ULE:
		if (a == b) return K(1, 1);
		if (isK(a) && !a->v) return K(1, 1);
		if (isK(b) && b->v == mask(b->w)) return K(1, 1);
		if (a->op == ZEXT && isK(b)) {
			if (b->v >= mask(a->a->w)) return K(1, 1);
			return mk(ULE, 1, a->a, K(a->a->w, b->v));
		}
		if (b->op == ZEXT && isK(a)) {
			if (a->v > mask(b->a->w)) return K(1, 0);
			return mk(ULE, 1, K(b->a->w, a->v), b->a);
		}
		if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mk(ULE, 1, a->a, b->a);
		break;
	case SLT: case SLE:
		if (a == b) return K(1, op == SLE);
		// both operands known non-negative -> unsigned
		{
			auto nn = [](E x) { return (isK(x) && !(x->v >> (x->w - 1))) || (x->op == ZEXT && x->a->w < x->w); };
			if (nn(a) && nn(b)) return mk(op == SLT ? ULT : ULE, 1, a, b);
			auto neg = [](E x) { return isK(x) && (x->v >> (x->w - 1)); };
			if (nn(a) && neg(b)) return K(1, 0);
			if (neg(a) && nn(b)) return K(1, 1);
		}
		break;
	case CONCAT:
		if (isK(a) && !a->v) return mk(ZEXT, w, b);
		if (a->op == EXTRACT && b->op == EXTRACT && a->a == b->a && b->aux + b->w == a->aux)
			return mkExtract(a->a, b->aux, w);
		if (a->op == ZEXT) return mk(ZEXT, w, mk(CONCAT, a->a->w + b->w, a->a, b));
		// right-associate adjacent extracts: concat(x.hi, concat(x.lo, y))
		if (b->op == CONCAT && a->op == EXTRACT && b->a->op == EXTRACT && a->a == b->a->a && b->a->aux + b->a->w == a->aux)
			return mk(CONCAT, w, mkExtract(a->a, b->a->aux, a->w + b->a->w), b->b);
		if (a->op == CONCAT) return mk(CONCAT, w, a->a, mk(CONCAT, a->b->w + b->w, a->b, b));
		if (isK(a) && b->op == CONCAT && isK(b->a)) return mk(CONCAT, w, K(a->w + b->a->w, a->v << b->a->w | b->a->v), b->b);
		break;
	case EXTRACT:
		if (w == a->w) return a;
		if (a->op == EXTRACT) return mkExtract(a->a, a->aux + aux, w);
		if (a->op == CONCAT) {
			if (aux >= a->b->w) return mkExtract(a->a, aux - a->b->w, w);
			if (aux + w <= a->b->w) return mkExtract(a->b, aux, w);
			return mk(CONCAT, w, mkExtract(a->a, 0, aux + w - a->b->w), mkExtract(a->b, aux, a->b->w - aux));
		}
		if (a->op == ZEXT) {
			if (aux >= a->a->w) return K(w, 0);
			if (aux + w <= a->a->w) return mkExtract(a->a, aux, w);
			return mk(ZEXT, w, mkExtract(a->a, aux, a->a->w - aux));
		}
		if (a->op == SEXT && aux + w <= a->a->w) return mkExtract(a->a, aux, w);
		if (a->op == SEXT && !aux) return mk(SEXT, w, a->a);
		if (a->op == AND || a->op == OR || a->op == XOR)
			return mk(a->op, w, mkExtract(a->a, aux, w), mkExtract(a->b, aux, w));
		if (a->op == ITE && (isK(a->b) || isK(a->c)))
			return mk(ITE, w, a->a, mkExtract(a->b, aux, w), mkExtract(a->c, aux, w));
		if (!aux && (a->op == ADD || a->op == SUB || a->op == MUL))
			return mk(a->op, w, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
		break;
	case ZEXT:
		if (w == a->w) return a;
		if (a->op == ZEXT) return mk(ZEXT, w, a->a);
		break;
	case SEXT:
		if (w == a->w) return a;
		if (a->op == SEXT) return mk(SEXT, w, a->a);
		if (a->op == ZEXT && a->a->w < a->w) return mk(ZEXT, w, a->a);
		break;
	case ITE:
		if (isK(a)) return a->v ? b : c;
		if (b == c) return b;
		if (w == 1) {
			if (isK(b) && isK(c)) return b->v ? a : mkNot(a);
			if (isK(b)) return b->v ? mk(OR, 1, a, c) : mk(AND, 1, mkNot(a), c);
			if (isK(c)) return c->v ? mk(OR, 1, mkNot(a), b) : mk(AND, 1, a, b);
		}
		break;
	default: break;
	}
	return raw(op, w, a, b, c, 0, aux);
}

static uint64_t stampCtr;
static uint64_t evalRec(E e, const std::vector<uint64_t> & m)
{
	if (e->op == CONST) return e->v;
	if (e->op == VAR) return e->v < m.size() ? m[e->v] & mask(e->w) : 0;
	if (e->stamp == stampCtr) return e->val;
	uint64_t r;
	if (e->op == ITE)
		r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m);
	else
		r = fold(e->op, e->w, e->aux, evalRec(e->a, m), e->a->w, e->b ? evalRec(e->b, m) : 0, e->b ? e->b->w : 0, 0);
	e->stamp = stampCtr;
	e->val = r;
	return r;
}
static uint64_t eval(E e, const std::vector<uint64_t> & m) { ++stampCtr; return evalRec(e, m); }

// ---- Z3 ----
static Z3_context zc;
static bool usesFp;
static Z3_ast zbv(E e);
static Z3_ast keep(Z3_ast a) { return a; } // context without reference counting keeps all terms
static Z3_sort fsort(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(zc) : Z3_mk_fpa_sort_single(zc); }
static Z3_ast zfp(E e) { usesFp = true; return Z3_mk_fpa_to_fp_bv(zc, zbv(e), fsort(e->w)); }
static Z3_ast zbool(E e)
{
	if (e->zb) return e->zb;
	Z3_ast r;
	switch (e->op) {
	case CONST: r = e->v ? Z3_mk_true(zc) : Z3_mk_false(zc); break;
	case EQ: r = e->a->w == 1 ? Z3_mk_iff(zc, zbool(e->a), zbool(e->b)) : Z3_mk_eq(zc, zbv(e->a), zbv(e->b)); break;
	case ULT: r = Z3_mk_bvult(zc, zbv(e->a), zbv(e->b)); break;
	case ULE: r = Z3_mk_bvule(zc, zbv(e->a), zbv(e->b)); break;
	case SLT: r = Z3_mk_bvslt(zc, zbv(e->a), zbv(e->b)); break;
	case SLE: r = Z3_mk_bvsle(zc, zbv(e->a), zbv(e->b)); break;
	case AND: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; r = Z3_mk_and(zc, 2, x); break; }
	case OR: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; r = Z3_mk_or(zc, 2, x); break; }
	case XOR: r = isK(e->b) && e->b->v ? Z3_mk_not(zc, zbool(e->a)) : Z3_mk_xor(zc, zbool(e->a), zbool(e->b)); break;
	case ITE: r = Z3_mk_ite(zc, zbool(e->a), zbool(e->b), zbool(e->c)); break;
	case FCMP: {
		Z3_ast x = zfp(e->a), y = zfp(e->b), t[4];
		unsigned n = 0, p = e->aux;
		if (p & 1) t[n++] = Z3_mk_fpa_eq(zc, x, y);
		if (p & 2) t[n++] = Z3_mk_fpa_gt(zc, x, y);
		if (p & 4) t[n++] = Z3_mk_fpa_lt(zc, x, y);
		if (p & 8) { Z3_ast u[2] = {Z3_mk_fpa_is_nan(zc, x), Z3_mk_fpa_is_nan(zc, y)}; t[n++] = Z3_mk_or(zc, 2, u); }
		r = n ? Z3_mk_or(zc, n, t) : Z3_mk_false(zc);
		break;
	}
	default: r = Z3_mk_eq(zc, zbv(e), Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1)));
	}
	return e->zb = keep(r);
}
static Z3_ast zbv(E e)
{
	if (e->z) return e->z;
	Z3_ast r;
	Z3_sort s = Z3_mk_bv_sort(zc, e->w);
	auto rne = [] { return Z3_mk_fpa_rne(zc); };
	auto back = [&](Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(zc, f); };
	if (e->w == 1 && (e->op == AND || e->op == OR || e->op == XOR)) {
		Z3_ast x = zbool(e);
		r = Z3_mk_ite(zc, x, Z3_mk_unsigned_int64(zc, 1, s), Z3_mk_unsigned_int64(zc, 0, s));
		return e->z = keep(r);
	}
	switch (e->op) {
	case CONST: r = Z3_mk_unsigned_int64(zc, e->v, s); break;
	case VAR: { char n[32]; snprintf(n, sizeof n, "v%lu", (unsigned long)e->v); r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, n), s); break; }
	case ADD: r = Z3_mk_bvadd(zc, zbv(e->a), zbv(e->b)); break;
	case SUB: r = Z3_mk_bvsub(zc, zbv(e->a), zbv(e->b)); break;
	case MUL: r = Z3_mk_bvmul(zc, zbv(e->a), zbv(e->b)); break;
	case UDIV: r = Z3_mk_bvudiv(zc, zbv(e->a), zbv(e->b)); break;
	case SDIV: r = Z3_mk_bvsdiv(zc, zbv(e->a), zbv(e->b)); break;
	case UREM: r = Z3_mk_bvurem(zc, zbv(e->a), zbv(e->b)); break;
	case SREM: r = Z3_mk_bvsrem(zc, zbv(e->a), zbv(e->b)); break;
	case AND: r = Z3_mk_bvand(zc, zbv(e->a), zbv(e->b)); break;
	case OR: r = Z3_mk_bvor(zc, zbv(e->a), zbv(e->b)); break;
	case XOR: r = Z3_mk_bvxor(zc, zbv(e->a), zbv(e->b)); break;
	case SHL: r = Z3_mk_bvshl(zc, zbv(e->a), zbv(e->b)); break;
	case LSHR: r = Z3_mk_bvlshr(zc, zbv(e->a), zbv(e->b)); break;
	case ASHR: r = Z3_mk_bvashr(zc, zbv(e->a), zbv(e->b)); break;
	case CONCAT: r = Z3_mk_concat(zc, zbv(e->a), zbv(e->b)); break;
	case EXTRACT: r = Z3_mk_extract(zc, e->aux + e->w - 1, e->aux, zbv(e->a)); break;
	case ZEXT: r = Z3_mk_zero_ext(zc, e->w - e->a->w, zbv(e->a)); break;
	case SEXT: r = Z3_mk_sign_ext(zc, e->w - e->a->w, zbv(e->a)); break;
	case ITE: r = Z3_mk_ite(zc, zbool(e->a), zbv(e->b), zbv(e->c)); break;
	case FADD: r = back(Z3_mk_fpa_add(zc, rne(), zfp(e->a), zfp(e->b))); break;
	case FSUB: r = back(Z3_mk_fpa_sub(zc, rne(), zfp(e->a), zfp(e->b))); break;
	case FMUL: r = back(Z3_mk_fpa_mul(zc, rne(), zfp(e->a), zfp(e->b))); break;
	case FDIV: r = back(Z3_mk_fpa_div(zc, rne(), zfp(e->a), zfp(e->b))); break;
	case FTOSI: r = Z3_mk_fpa_to_sbv(zc, Z3_mk_fpa_rtz(zc), zfp(e->a), e->w); break;
	case FTOUI: r = Z3_mk_fpa_to_ubv(zc, Z3_mk_fpa_rtz(zc), zfp(e->a), e->w); break;
	case SITOF: usesFp = true; r = back(Z3_mk_fpa_to_fp_signed(zc, rne(), zbv(e->a), fsort(e->w))); break;
	case UITOF: usesFp = true; r = back(Z3_mk_fpa_to_fp_unsigned(zc, rne(), zbv(e->a), fsort(e->w))); break;
	case FTOF: r = back(Z3_mk_fpa_to_fp_float(zc, rne(), zfp(e->a), fsort(e->w))); break;
	default: {
		Z3_ast x = zbool(e);
		r = Z3_mk_ite(zc, x, Z3_mk_unsigned_int64(zc, 1, s), Z3_mk_unsigned_int64(zc, 0, s));
	}
	}
	return e->z = keep(r);
}
