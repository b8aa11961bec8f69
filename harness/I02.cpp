// I02: intervals behave like the sets of numbers they denote.
#include "iv.h"
#include <carl/interval/set_theory.h>
#include <carl/interval/sampling.h>
#include <carl/interval/evaluate.h>
#include <unordered_set>
using namespace gen;
using iv::RI; using iv::E;
using carl::Interval; using carl::BoundType;

template<typename N> static RI of(const Interval<N>& i, const char* what) {
	CHK(i.isConsistent(), what << " is inconsistent");
	RI r = iv::of(i);
	CHK_EQ(i.isEmpty(), r.empty, what);
	return r;
}
static void classify(pbt::Ctx& c, const RI& a, const RI& b) {
	c.label_if(a.empty || b.empty, "empty operand");
	c.label_if(!a.empty && !a.bounded(), "unbounded");
	RI m = iv::meet(a, b);
	c.label(m.empty ? (iv::connected(a, b) ? "touching" : "disjoint") : m == a || m == b ? "nested" : "overlapping");
	c.nontrivial(!a.empty && !b.empty);
}
// Ends, points just beside them and points in between: enough to distinguish any two intervals over these ends.
static std::vector<Q> probes(std::initializer_list<RI> is) {
	std::vector<Q> e{Q(0)}, r;
	for (auto& i : is) if (!i.empty) { if (!i.lo.inf) e.push_back(i.lo.v); if (!i.hi.inf) e.push_back(i.hi.v); }
	std::sort(e.begin(), e.end());
	r.push_back(e.front() - 1);
	for (std::size_t i = 0; i < e.size(); ++i) { r.push_back(e[i]); if (i + 1 < e.size()) r.push_back(Q((e[i] + e[i + 1]) / 2)); }
	r.push_back(e.back() + 1);
	return r;
}
template<typename N> static bool representable(const Q& q) { return std::is_same<N, Q>::value || Q(iv::to_num<double>(q)) == q; }

// Two interval generator that likes shared ends.
template<typename N> static std::pair<RI, RI> two(pbt::Ctx& c) {
	RI a = iv::interval<N>(c), b = iv::interval<N>(c);
	if (!a.empty && !b.empty && c.chance(1, 2)) {
		const E& e = c.coin() ? a.lo : a.hi;
		if (!e.inf) {
			bool cl = c.coin();
			if (c.coin()) { if (iv::cmpE(e, b.hi) <= 0) b = iv::make(e, cl || iv::cmpE(e, b.hi) == 0, b.hi, b.hc || iv::cmpE(e, b.hi) == 0); }
			else { if (iv::cmpE(b.lo, e) <= 0) b = iv::make(b.lo, b.lc || iv::cmpE(b.lo, e) == 0, e, cl || iv::cmpE(b.lo, e) == 0); }
		}
	}
	return {a, b};
}

template<typename N> void sets(pbt::Ctx& c) {
	auto ab = two<N>(c); const RI &a = ab.first, &b = ab.second;
	c.in("a", a); c.in("b", b); classify(c, a, b);
	Interval<N> x = iv::to_carl<N>(a), y = iv::to_carl<N>(b);
	auto ps = probes({a, b});
	auto same = [&](const char* what, const RI& r, const RI& s, auto&& pred) {
		for (auto& p : ps) CHK_EQ(r.has(p) || s.has(p), bool(pred(p)), what << " = " << r << " and " << s << " at " << p);
	};
	for (auto& p : ps) if (representable<N>(p)) CHK_EQ(x.contains(iv::to_num<N>(p)), a.has(p), "a contains " << p);
	same("intersection", of(carl::set_intersection(x, y), "intersection"), RI(), [&](const Q& p) { return a.has(p) && b.has(p); });
	CHK_EQ(x.contains(y), iv::covers(a, b), "a contains b");
	CHK_EQ(carl::set_is_subset(x, y), iv::covers(b, a), "a subset of b");
	CHK_EQ(carl::set_is_proper_subset(x, y), iv::covers(b, a) && !(a == b), "a proper subset of b");
	Interval<N> r(7), s(7);
	bool t;
	t = carl::set_complement(x, r, s);
	same("complement", of(r, "complement"), of(s, "complement"), [&](const Q& p) { return !a.has(p); });
	if (!t) CHK(s.isEmpty(), "the complement is reported as one interval but has two parts");
	r = Interval<N>(7); s = Interval<N>(7);
	t = carl::set_difference(x, y, r, s);
	same("difference", of(r, "difference"), of(s, "difference"), [&](const Q& p) { return a.has(p) && !b.has(p); });
	CHK_EQ(t, !r.isEmpty() && !s.isEmpty(), "difference twofold");
	CHK_EQ(carl::set_have_intersection(x, y), !iv::meet(a, b).empty, "a meets b");
	r = Interval<N>(7); s = Interval<N>(7);
	t = carl::set_union(x, y, r, s);
	same("union", of(r, "union"), of(s, "union"), [&](const Q& p) { return a.has(p) || b.has(p); });
	CHK_EQ(t, !iv::connected(a, b), "union twofold");
	r = Interval<N>(7); s = Interval<N>(7);
	t = carl::set_symmetric_difference(x, y, r, s);
	same("symmetric difference", of(r, "symmetric difference"), of(s, "symmetric difference"), [&](const Q& p) { return a.has(p) != b.has(p); });
	RI h = of(x.convexHull(y), "hull");
	CHK(h == iv::hull(a, b), "hull of a and b is " << h << " instead of " << iv::hull(a, b));
}
LAW(sets_rational, 80000, 1500000) { sets<Q>(c); }
LAW(sets_double, 60000, 1000000) { sets<double>(c); }

// Comparisons hold iff they hold for all pairs of points (up to a shared end for <=).
template<typename N> void order(pbt::Ctx& c) {
	auto ab = two<N>(c); const RI &a = ab.first, &b = ab.second; Q n = c.coin() && a.bounded() ? (c.coin() ? a.lo.v : a.hi.v) : iv::endpoint<N>(c);
	if (a.empty || b.empty) c.discard();
	c.in("a", a); c.in("b", b); c.in("n", n); classify(c, a, b);
	Interval<N> x = iv::to_carl<N>(a), y = iv::to_carl<N>(b); N m = iv::to_num<N>(n);
	auto lt = [](const RI& a, const RI& b) { int k = iv::cmpE(a.hi, b.lo); return k < 0 || (k == 0 && a.hi.inf == 0 && !(a.hc && b.lc)); };
	auto le = [](const RI& a, const RI& b) { int k = iv::cmpE(a.hi, b.lo); return k < 0 || (k == 0 && a.hi.inf == 0); };
	RI p = iv::pt(n);
	CHK_EQ(x < y, lt(a, b), "a<b"); CHK_EQ(x > y, lt(b, a), "a>b"); CHK_EQ(x <= y, le(a, b), "a<=b"); CHK_EQ(x >= y, le(b, a), "a>=b");
	CHK_EQ(x < m, lt(a, p), "a<n"); CHK_EQ(x > m, lt(p, a), "a>n"); CHK_EQ(x <= m, le(a, p), "a<=n"); CHK_EQ(x >= m, le(p, a), "a>=n");
	CHK_EQ(m < x, lt(p, a), "n<a"); CHK_EQ(m > x, lt(a, p), "n>a"); CHK_EQ(m <= x, le(p, a), "n<=a"); CHK_EQ(m >= x, le(a, p), "n>=a");
	CHK_EQ(x == m, a == p, "a==n"); CHK_EQ(m == x, a == p, "n==a"); CHK_EQ(x != m, !(a == p), "a!=n"); CHK_EQ(m != x, !(a == p), "n!=a");
	// equality of double intervals is documented as approximate
	if (std::is_same<N, Q>::value || a == b) { CHK_EQ(x == y, a == b, "a==b"); CHK_EQ(x != y, !(a == b), "a!=b"); }
	if (a == b) CHK_EQ(std::hash<Interval<N>>()(x), std::hash<Interval<N>>()(y), "hash of equal intervals");
	CHK(!(x < x), "a<a");
}
LAW(order_rational, 60000, 1000000) { order<Q>(c); }
LAW(order_double, 60000, 1000000) { order<double>(c); }

template<typename N> void predicates(pbt::Ctx& c) {
	RI a = iv::interval<N>(c); Q n = c.coin() && a.bounded() ? (c.coin() ? a.lo.v : a.hi.v) : iv::endpoint<N>(c);
	c.in("a", a); c.in("n", n); classify(c, a, a);
	Interval<N> x = iv::to_carl<N>(a);
	CHK_EQ(x.isEmpty(), a.empty, "isEmpty");
	CHK_EQ(x.contains(iv::to_num<N>(n)), a.has(n), "contains");
	if (a.empty) return;
	CHK_EQ(x.isInfinite(), a.lo.inf && a.hi.inf, "isInfinite"); CHK_EQ(x.isUnbounded(), !a.bounded(), "isUnbounded");
	CHK_EQ(x.isHalfBounded(), (a.lo.inf != 0) != (a.hi.inf != 0), "isHalfBounded");
	CHK_EQ(x.isPointInterval(), a.point(), "isPointInterval");
	CHK_EQ(x.isOpenInterval(), a.bounded() && !a.lc && !a.hc, "isOpenInterval"); CHK_EQ(x.isClosedInterval(), a.lc && a.hc, "isClosedInterval");
	CHK_EQ(x.isZero(), a == iv::pt(Q(0)), "isZero"); CHK_EQ(x.isOne(), a == iv::pt(Q(1)), "isOne");
	bool pos = iv::side(a, 1) == a, neg = iv::side(a, -1) == a, spos = iv::side(a, -1).empty, sneg = iv::side(a, 1).empty, zero = a == iv::pt(Q(0));
	CHK_EQ(x.isPositive(), pos, "isPositive"); CHK_EQ(x.isNegative(), neg, "isNegative");
	CHK_EQ(x.isSemiPositive(), spos, "isSemiPositive"); CHK_EQ(x.isSemiNegative(), sneg, "isSemiNegative");
	CHK_EQ(int(x.sgn()), pos ? 1 : neg ? -1 : 0, "sgn");
	int k = iv::cmpE(a.lo, E{0, n}) , l = iv::cmpE(E{0, n}, a.hi);
	CHK_EQ(x.meets(iv::to_num<N>(n)), k <= 0 && l <= 0, "meets the closure");
	// relation against zero: true or false for all points, undecided otherwise
	using R = carl::Relation;
	for (R r : {R::EQ, R::NEQ, R::LESS, R::LEQ, R::GREATER, R::GEQ}) {
		auto holds = [&](int s) { switch (r) { case R::EQ: return s == 0; case R::NEQ: return s != 0; case R::LESS: return s < 0; case R::LEQ: return s <= 0; case R::GREATER: return s > 0; default: return s >= 0; } };
		bool some = false, all = true;
		for (int s : {-1, 0, 1}) {
			bool possible = s == 0 ? a.has(Q(0)) : !iv::side(a, s).empty;
			if (possible) { if (holds(s)) some = true; else all = false; }
		}
		auto t = carl::evaluate(x, r);
		if (boost::indeterminate(t)) CHK(some && !all, "relation " << r << " is decided for all points but reported as undecided");
		else { CHK_EQ(bool(t), all, "relation " << r); CHK_EQ(bool(t), some, "relation " << r); }
	}
	(void)zero;
	// integers
	bool ints;
	RI ip;
	if (a.bounded()) {
		Q l1 = q_ceil(a.lo.v), u1 = q_floor(a.hi.v);
		if (l1 == a.lo.v && !a.lc) l1 += 1;
		if (u1 == a.hi.v && !a.hc) u1 -= 1;
		ints = l1 <= u1;
		if (ints) ip = iv::make(E{0, l1}, true, E{0, u1}, true);
	} else {
		ints = true;
		E lo = a.lo, hi = a.hi;
		if (!lo.inf) { lo.v = q_ceil(a.lo.v); if (lo.v == a.lo.v && !a.lc) lo.v += 1; }
		if (!hi.inf) { hi.v = q_floor(a.hi.v); if (hi.v == a.hi.v && !a.hc) hi.v -= 1; }
		ip = iv::make(lo, true, hi, true);
	}
	if (std::is_same<N, double>::value && ((!a.lo.inf && qabs(a.lo.v) > 1000000000) || (!a.hi.inf && qabs(a.hi.v) > 1000000000))) return;
	c.label_if(!ints, "no integer");
	CHK_EQ(x.containsInteger(), ints, "containsInteger");
	RI g = of(x.integralPart(), "integralPart");
	CHK(g == ip, "integral part is " << g << " instead of " << ip);
	auto t = x; t.integralPart_assign(); CHK(iv::of(t) == ip, "integralPart_assign");
}
LAW(predicates_rational, 60000, 1000000) { predicates<Q>(c); }
LAW(predicates_double, 60000, 1000000) { predicates<double>(c); }

template<typename N> void measures(pbt::Ctx& c) {
	auto ab = two<N>(c); const RI &a = ab.first, &b = ab.second;
	if (a.empty || b.empty) c.discard();
	c.in("a", a); c.in("b", b); classify(c, a, b);
	Interval<N> x = iv::to_carl<N>(a), y = iv::to_carl<N>(b);
	constexpr bool exact = std::is_same<N, Q>::value;
	auto eq = [&](const N& g, const Q& w, const char* what) {
		if (exact) CHK_EQ(Q(g), w, what);
		else CHK(std::fabs(double(Q(Q(g) - w).get_d())) <= 1e-12 * (1 + std::fabs(w.get_d())), what << " is " << g << " instead of about " << w);
	};
	if (a.bounded()) {
		eq(x.diameter(), Q(a.hi.v - a.lo.v), "diameter"); eq(x.magnitude(), std::max(qabs(a.lo.v), qabs(a.hi.v)), "magnitude");
		eq(carl::center(x), Q((a.hi.v + a.lo.v) / 2), "center");
		if (b.bounded() && !b.point()) {
			Q q = (a.hi.v - a.lo.v) / (b.hi.v - b.lo.v);
			if (exact || qabs(q) < 1000000) { N d = x.diameterRatio(y); if (exact) CHK_EQ(Q(d), q, "diameterRatio"); else CHK(std::fabs(iv::to_num<double>(Q(Q(d) - q))) <= 1e-6 * (1 + q.get_d()), "diameterRatio " << d); }
		}
		Q w = small_integer(c, 5); if (w < 0) w = -w;
		c.in("w", w);
		auto t = x; t.bloat_by(iv::to_num<N>(w));
		RI g = of(t, "bloated");
		if (exact) CHK(g == iv::make(E{0, Q(a.lo.v - w)}, a.lc, E{0, Q(a.hi.v + w)}, a.hc), "bloat_by gives " << g);
		else CHK(iv::covers(g, a), "bloat_by gives " << g);
		if (exact && Q(2 * w) < a.hi.v - a.lo.v) { t = x; t.shrink_by(iv::to_num<N>(w)); g = of(t, "shrunk"); CHK(g == iv::make(E{0, Q(a.lo.v + w)}, a.lc, E{0, Q(a.hi.v - w)}, a.hc), "shrink_by gives " << g); }
	}
	if (iv::meet(a, b).empty) {
		const RI &l = iv::cmpE(a.lo, b.lo) < 0 || (iv::cmpE(a.lo, b.lo) == 0 && iv::cmpE(a.hi, b.hi) < 0) ? a : b, &h = &l == &a ? b : a;
		eq(x.distance(y), Q(h.lo.v - l.hi.v), "distance");
	} else CHK_EQ(Q(x.distance(y)), Q(0), "distance of overlapping intervals");
	// splitting
	auto check_parts = [&](const std::vector<RI>& ps, const char* what) {
		for (auto& q : ps) CHK(!q.empty && (iv::covers(a, q) || !exact), what << ": the part " << q << " is wrong");
		CHK(ps.front().lc == a.lc && ps.back().hc == a.hc, what << ": types of the outer ends");
		CHK(iv::cmpE(ps.front().lo, a.lo) == 0, what << ": lower end");
		if (exact) {
			CHK(iv::cmpE(ps.back().hi, a.hi) == 0, what << ": upper end");
			for (std::size_t i = 0; i + 1 < ps.size(); ++i) { CHK(iv::meet(ps[i], ps[i + 1]).empty && iv::connected(ps[i], ps[i + 1]), what << ": parts " << ps[i] << " and " << ps[i + 1] << " do not fit"); }
		}
	};
	if (a.bounded() && !a.point()) {
		auto pr = x.split();
		std::vector<RI> ps{iv::of(pr.first), iv::of(pr.second)};
		if (exact || representable<N>(Q((a.lo.v + a.hi.v) / 2))) {
			check_parts(ps, "split");
			if (exact) CHK_EQ(ps[0].hi.v, Q((a.lo.v + a.hi.v) / 2), "split point");
			CHK(iv::meet(ps[0], ps[1]).empty && iv::connected(ps[0], ps[1]), "split: parts " << ps[0] << " and " << ps[1] << " do not fit");
		}
		unsigned n = unsigned(2 + c.draw(4)); c.in("n", n);
		auto ls = x.split(n);
		CHK_EQ(ls.size(), std::size_t(n), "number of parts");
		if (exact) {
			ps.clear(); for (auto& l : ls) ps.push_back(iv::of(l));
			check_parts(ps, "split(n)");
			for (auto& q : ps) CHK_EQ(Q(q.hi.v - q.lo.v), Q((a.hi.v - a.lo.v) / n), "width of a part");
		}
	}
}
LAW(measures_rational, 50000, 800000) { measures<Q>(c); }
LAW(measures_double, 50000, 800000) { measures<double>(c); }

static std::size_t bits(const RI& a) {
	std::size_t r = 0;
	for (const E* e : {&a.lo, &a.hi}) if (!e->inf) r = std::max({r, mpz_sizeinbase(e->v.get_num().get_mpz_t(), 2), mpz_sizeinbase(e->v.get_den().get_mpz_t(), 2)});
	return r;
}
// Every sampling strategy returns a point of the interval.
LAW(sampling_rational, 60000, 1000000) {
	RI a = iv::interval<Q>(c, false);
	c.in("a", a); classify(c, a, a);
	Interval<Q> x = iv::to_carl<Q>(a);
	auto inner = [&](const Q& q) { return a.has(q) && (a.lo.inf || q != a.lo.v) && (a.hi.inf || q != a.hi.v); };
	Q s;
	s = carl::center(x); CHK(a.has(s), "center gives " << s);
	s = carl::sample(x); CHK(a.has(s), "sample gives " << s);
	// the tree search takes as many steps as the size of the numbers involved
	bool tree = bits(a) <= 10;
	if (tree) { s = carl::sample_stern_brocot(x); CHK(a.has(s), "sample_stern_brocot gives " << s); }
	s = carl::sample_left(x); CHK(a.has(s), "sample_left gives " << s);
	s = carl::sample_right(x); CHK(a.has(s), "sample_right gives " << s);
	s = carl::sample_zero(x); CHK(a.has(s), "sample_zero gives " << s);
	s = carl::sample_infty(x); CHK(a.has(s), "sample_infty gives " << s);
	if (!a.point()) {
		s = carl::sample(x, false); CHK(inner(s), "sample without bounds gives " << s);
		if (tree) { s = carl::sample_stern_brocot(x, false); CHK(inner(s), "sample_stern_brocot without bounds gives " << s); }
	}
}
LAW(sampling_double, 40000, 600000) {
	RI a = iv::interval<double>(c, false);
	if (a.bounded() && (Q(iv::to_num<double>(Q((a.lo.v + a.hi.v) / 2))) <= a.lo.v || Q(iv::to_num<double>(Q((a.lo.v + a.hi.v) / 2))) >= a.hi.v) && !a.point()) c.discard();
	if ((!a.lo.inf && qabs(a.lo.v) > 1000000000) || (!a.hi.inf && qabs(a.hi.v) > 1000000000)) c.discard();
	c.in("a", a); classify(c, a, a);
	Interval<double> x = iv::to_carl<double>(a);
	Q s;
	s = Q(carl::center(x)); CHK(a.has(s), "center gives " << s);
	s = Q(carl::sample(x)); CHK(a.has(s), "sample gives " << s);
	s = Q(carl::sample_left(x)); CHK(a.has(s), "sample_left gives " << s);
	s = Q(carl::sample_right(x)); CHK(a.has(s), "sample_right gives " << s);
	s = Q(carl::sample_zero(x)); CHK(a.has(s), "sample_zero gives " << s);
	s = Q(carl::sample_infty(x)); CHK(a.has(s), "sample_infty gives " << s);
}

// The mutators give the same interval as constructing it anew.
LAW(mutation, 40000, 600000) {
	RI a = iv::interval<Q>(c, false); Q n = iv::endpoint<Q>(c); int t = int(c.draw(3)); bool lower = c.coin();
	c.in("a", a); c.in("n", n); c.in("t", t); c.in("lower", lower); classify(c, a, a);
	BoundType bt = BoundType(t);
	Interval<Q> x = iv::to_carl<Q>(a);
	E e = bt == BoundType::INFTY ? E{lower ? -1 : 1, Q(0)} : E{0, n};
	if (lower ? iv::cmpE(e, a.hi) >= 0 : iv::cmpE(e, a.lo) <= 0) c.discard();
	RI w = lower ? iv::make(e, bt == BoundType::WEAK, a.hi, a.hc) : iv::make(a.lo, a.lc, e, bt == BoundType::WEAK);
	if (lower) x.setLowerBound(n, bt); else x.setUpperBound(n, bt);
	RI g = of(x, "changed interval");
	CHK(g == w, "changing a bound gives " << g << " instead of " << w);
	CHK(x == iv::to_carl<Q>(w), "changed interval differs from the constructed one");
	x = iv::to_carl<Q>(a);
	if (!a.point()) {
		if (lower && !a.lo.inf) { x.setLowerBoundType(bt); w = iv::make(bt == BoundType::INFTY ? E{-1, Q(0)} : a.lo, bt == BoundType::WEAK, a.hi, a.hc); g = of(x, "changed interval"); CHK(g == w, "changing the lower type gives " << g << " instead of " << w); }
		if (!lower && !a.hi.inf) { x.setUpperBoundType(bt); w = iv::make(a.lo, a.lc, bt == BoundType::INFTY ? E{1, Q(0)} : a.hi, bt == BoundType::WEAK); g = of(x, "changed interval"); CHK(g == w, "changing the upper type gives " << g << " instead of " << w); }
	}
	// text
	std::ostringstream os; os << iv::to_carl<Q>(a);
	std::ostringstream want; want << (a.lc ? "[" : "]"); if (a.lo.inf) want << "-INF"; else want << a.lo.v; want << ", "; if (a.hi.inf) want << "INF"; else want << a.hi.v; want << (a.hc ? "]" : "[");
	CHK_EQ(os.str(), want.str(), "printed interval");
}
PBT_MAIN("I02", "a case is non-trivial when no operand is empty")
