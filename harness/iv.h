// Reference intervals over the rationals with exact set semantics, independent of carl's arithmetic.
#pragma once
#include "gen.h"
#include <carl/interval/Interval.h>
#include <carl/interval/operators.h>

namespace iv {
using gen::Q;
using gen::Z;

// Extended rational: inf is -1, 0 or 1.
struct E {
	int inf = 0;
	Q v;
};
inline int cmpE(const E& a, const E& b) {
	if (a.inf != b.inf) return a.inf < b.inf ? -1 : 1;
	if (a.inf != 0) return 0;
	return cmp(a.v, b.v);
}
inline E negE(const E& a) { return E{-a.inf, Q(-a.v)}; }
// A set {x : lo <(=) x <(=) hi}; closed ends are attained.
struct RI {
	bool empty = true;
	E lo, hi;
	bool lc = false, hc = false;
	bool has(const Q& q) const {
		if (empty) return false;
		E e{0, q};
		int a = cmpE(lo, e), b = cmpE(e, hi);
		return (a < 0 || (a == 0 && lc)) && (b < 0 || (b == 0 && hc));
	}
	bool point() const { return !empty && lo.inf == 0 && cmpE(lo, hi) == 0; }
	bool bounded() const { return !empty && lo.inf == 0 && hi.inf == 0; }
};
inline RI make(const E& lo, bool lc, const E& hi, bool hc) {
	RI r;
	if (lo.inf != 0) lc = false;
	if (hi.inf != 0) hc = false;
	int c = cmpE(lo, hi);
	if (c > 0 || (c == 0 && !(lc && hc))) return r;
	r.empty = false; r.lo = lo; r.hi = hi; r.lc = lc; r.hc = hc;
	return r;
}
inline RI all() { return make(E{-1, Q(0)}, false, E{1, Q(0)}, false); }
inline RI pt(const Q& q) { return make(E{0, q}, true, E{0, q}, true); }
inline bool operator==(const RI& a, const RI& b) {
	if (a.empty || b.empty) return a.empty == b.empty;
	return cmpE(a.lo, b.lo) == 0 && cmpE(a.hi, b.hi) == 0 && a.lc == b.lc && a.hc == b.hc;
}
inline std::ostream& operator<<(std::ostream& os, const RI& a) {
	if (a.empty) return os << "{}";
	os << (a.lc ? "[" : "(");
	if (a.lo.inf) os << "-oo"; else os << a.lo.v;
	os << ", ";
	if (a.hi.inf) os << "oo"; else os << a.hi.v;
	return os << (a.hc ? "]" : ")");
}
inline bool covers(const RI& big, const RI& small) {
	if (small.empty) return true;
	if (big.empty) return false;
	int a = cmpE(big.lo, small.lo), b = cmpE(small.hi, big.hi);
	return (a < 0 || (a == 0 && (big.lc || !small.lc))) && (b < 0 || (b == 0 && (big.hc || !small.hc)));
}
inline RI hull(const RI& a, const RI& b) {
	if (a.empty) return b;
	if (b.empty) return a;
	RI r; r.empty = false;
	int l = cmpE(a.lo, b.lo), h = cmpE(a.hi, b.hi);
	r.lo = l <= 0 ? a.lo : b.lo; r.lc = l < 0 ? a.lc : l > 0 ? b.lc : (a.lc || b.lc);
	r.hi = h >= 0 ? a.hi : b.hi; r.hc = h > 0 ? a.hc : h < 0 ? b.hc : (a.hc || b.hc);
	return r;
}
inline RI meet(const RI& a, const RI& b) {
	if (a.empty || b.empty) return RI();
	int l = cmpE(a.lo, b.lo), h = cmpE(a.hi, b.hi);
	return make(l >= 0 ? a.lo : b.lo, l > 0 ? a.lc : l < 0 ? b.lc : (a.lc && b.lc), h <= 0 ? a.hi : b.hi, h < 0 ? a.hc : h > 0 ? b.hc : (a.hc && b.hc));
}
// True iff a and b together form one interval.
inline bool connected(const RI& a, const RI& b) {
	if (a.empty || b.empty) return true;
	if (!meet(a, b).empty) return true;
	return (cmpE(a.hi, b.lo) == 0 && (a.hc || b.lc)) || (cmpE(b.hi, a.lo) == 0 && (b.hc || a.lc));
}
inline RI neg(const RI& a) { return a.empty ? a : make(negE(a.hi), a.hc, negE(a.lo), a.lc); }
inline E addE(const E& a, const E& b) { return a.inf ? a : b.inf ? b : E{0, Q(a.v + b.v)}; }
inline RI add(const RI& a, const RI& b) {
	if (a.empty || b.empty) return RI();
	return make(addE(a.lo, b.lo), a.lc && b.lc, addE(a.hi, b.hi), a.hc && b.hc);
}
inline int sgnE(const E& a) { return a.inf ? a.inf : sgn(a.v); }
inline E mulE(const E& a, const E& b) {
	int s = sgnE(a) * sgnE(b);
	if (s == 0) return E{0, Q(0)};
	if (a.inf || b.inf) return E{s, Q(0)};
	return E{0, Q(a.v * b.v)};
}
inline RI mul(const RI& a, const RI& b) {
	if (a.empty || b.empty) return RI();
	struct C { E v; bool att; };
	std::vector<C> cs;
	for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
		const E& x = i ? a.hi : a.lo; const E& y = j ? b.hi : b.lo;
		bool xc = i ? a.hc : a.lc, yc = j ? b.hc : b.lc;
		cs.push_back({mulE(x, y), (xc && yc) || (xc && sgnE(x) == 0) || (yc && sgnE(y) == 0)});
	}
	RI r; r.empty = false; r.lo = r.hi = cs[0].v; r.lc = r.hc = false;
	for (auto& k : cs) { if (cmpE(k.v, r.lo) < 0) r.lo = k.v; if (cmpE(k.v, r.hi) > 0) r.hi = k.v; }
	for (auto& k : cs) { if (k.att && cmpE(k.v, r.lo) == 0) r.lc = true; if (k.att && cmpE(k.v, r.hi) == 0) r.hc = true; }
	// a zero inside one factor attains a zero end of the product
	bool z = a.has(Q(0)) || b.has(Q(0));
	if (z && sgnE(r.lo) == 0) r.lc = true;
	if (z && sgnE(r.hi) == 0) r.hc = true;
	return make(r.lo, r.lc, r.hi, r.hc);
}
// Part of a below (side -1) or above (side 1) zero.
inline RI side(const RI& a, int s) {
	return meet(a, s > 0 ? make(E{0, Q(0)}, false, E{1, Q(0)}, false) : make(E{-1, Q(0)}, false, E{0, Q(0)}, false));
}
inline E invE(const E& a, int s) { return a.inf ? E{0, Q(0)} : sgn(a.v) == 0 ? E{s, Q(0)} : E{0, Q(1 / a.v)}; }
// {1/x : x in a}, for a on one side of zero.
inline RI recip(const RI& a) {
	if (a.empty) return a;
	int s = (a.lo.inf < 0 || sgnE(a.lo) < 0) ? -1 : 1;
	return make(invE(a.hi, s), a.hc, invE(a.lo, s), a.lc);
}
inline RI powr(const RI& a, unsigned e) {
	if (a.empty) return a;
	if (e == 0) return pt(Q(1));
	auto p = [&](const E& x) { return x.inf ? E{e % 2 ? x.inf : 1, Q(0)} : E{0, gen::q_pow(x.v, e)}; };
	if (e % 2) return make(p(a.lo), a.lc, p(a.hi), a.hc);
	RI n = side(a, -1), q = side(a, 1), r = a.has(Q(0)) ? pt(Q(0)) : RI();
	if (!n.empty) r = hull(r, make(p(n.hi), n.hc, p(n.lo), n.lc));
	if (!q.empty) r = hull(r, make(p(q.lo), q.lc, p(q.hi), q.hc));
	return r;
}
inline RI absr(const RI& a) {
	RI n = neg(side(a, -1)), q = side(a, 1), r = a.has(Q(0)) ? pt(Q(0)) : RI();
	return hull(hull(r, n), q);
}

template<typename N> N to_num(const Q& q);
template<> inline Q to_num<Q>(const Q& q) { return q; }
template<> inline double to_num<double>(const Q& q) { return q.get_d(); }
template<typename N> carl::Interval<N> to_carl(const RI& a) {
	using carl::BoundType;
	if (a.empty) return carl::Interval<N>::emptyInterval();
	return carl::Interval<N>(a.lo.inf ? N(0) : to_num<N>(a.lo.v), a.lo.inf ? BoundType::INFTY : a.lc ? BoundType::WEAK : BoundType::STRICT,
		a.hi.inf ? N(0) : to_num<N>(a.hi.v), a.hi.inf ? BoundType::INFTY : a.hc ? BoundType::WEAK : BoundType::STRICT);
}
inline E end_of(const Q& q) { return E{0, q}; }
inline E end_of(double d) {
	CHK(!std::isnan(d), "an interval has an end that is not a number");
	if (std::isinf(d)) return E{d < 0 ? -1 : 1, Q(0)};
	return E{0, Q(d)};
}
template<typename N> RI of(const carl::Interval<N>& i) {
	using carl::BoundType;
	E lo, hi;
	if (i.lowerBoundType() == BoundType::INFTY) lo.inf = -1; else lo = end_of(i.lower());
	if (i.upperBoundType() == BoundType::INFTY) hi.inf = 1; else hi = end_of(i.upper());
	return make(lo, i.lowerBoundType() == BoundType::WEAK, hi, i.upperBoundType() == BoundType::WEAK);
}

// End points near zero and near each other, so that the special cases of all operations are common.
template<typename N> Q endpoint(pbt::Ctx& c);
template<> inline Q endpoint<Q>(pbt::Ctx& c) {
	switch (c.weighted({6, 3, 1})) {
		case 0: return Q(long(c.range(-4, 4)));
		case 1: return gen::small_rational(c, 9, 4);
		default: return gen::rational(c);
	}
}
template<> inline Q endpoint<double>(pbt::Ctx& c) {
	switch (c.weighted({6, 3, 1})) {
		case 0: return Q(long(c.range(-4, 4)));
		case 1: return Q(double(c.range(-30, 30)) / double(1 + c.draw(9)));
		default: { double d = gen::dbl(c); return Q(std::fabs(d) > 1e150 ? d * 1e-200 : std::fabs(d) < 1e-150 ? 0.0 : d); }
	}
}
// Non-empty interval; unbounded ends with probability ~1/5 each.
template<typename N> RI interval(pbt::Ctx& c, bool may_be_empty = true, bool may_be_unbounded = true) {
	if (may_be_empty && c.chance(1, 25)) return RI();
	if (c.chance(1, 10)) return pt(endpoint<N>(c));
	E lo{0, endpoint<N>(c)}, hi{0, endpoint<N>(c)};
	if (cmpE(lo, hi) > 0) std::swap(lo, hi);
	bool lc = !c.coin(), hc = !c.coin();
	if (may_be_unbounded && c.chance(1, 6)) lo = E{-1, Q(0)};
	if (may_be_unbounded && c.chance(1, 6)) hi = E{1, Q(0)};
	if (cmpE(lo, hi) == 0) lc = hc = true;
	return make(lo, lc, hi, hc);
}
// A point of a non-empty interval (not necessarily an end).
inline Q inside(pbt::Ctx& c, const RI& a) {
	if (a.lo.inf && a.hi.inf) return gen::small_rational(c, 12, 5);
	Q t = gen::frac(Z(long(c.draw(17))), Z(16));
	if (a.lo.inf) return a.hi.v - (t == 0 && !a.hc ? Q(1, 7) : Q(t * 9));
	if (a.hi.inf) return a.lo.v + (t == 0 && !a.lc ? Q(1, 7) : Q(t * 9));
	if (t == 0 && !a.lc) t = Q(1, 64);
	if (t == 1 && !a.hc) t = Q(63, 64);
	return a.lo.v + t * (a.hi.v - a.lo.v);
}
} // namespace iv
