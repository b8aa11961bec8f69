// I01: interval arithmetic encloses the exact image, and is exact over the rationals.
#include "iv.h"
#include <carl/interval/power.h>
#include <carl/interval/conversion.h>
#include <carl/interval/evaluate.h>
using namespace gen;
using iv::RI; using iv::E;
using carl::Interval;

// exact: the result must be the exact image, except that an end at zero may be closed instead of open
// (carl documents no promise about it); otherwise it has to cover the image.
static bool tight(const RI& g, RI w) {
	if (g.empty || w.empty) return g.empty == w.empty;
	if (w.lo.inf == 0 && sgn(w.lo.v) == 0) w.lc = g.lc;
	if (w.hi.inf == 0 && sgn(w.hi.v) == 0) w.hc = g.hc;
	return g == w;
}
template<typename N> void expect(const Interval<N>& got, const RI& want, bool exact, const std::string& what) {
	CHK(got.isConsistent(), what << " is inconsistent");
	RI g = iv::of(got);
	CHK(iv::covers(g, want), what << " = " << g << " does not cover " << want);
	if (exact) CHK(tight(g, want), what << " = " << g << " is not " << want);
	CHK_EQ(got.isEmpty(), g.empty, what);
}
template<typename N> constexpr bool ex() { return std::is_same<N, Q>::value; }
static void classify(pbt::Ctx& c, const RI& a, const RI& b) {
	c.label_if(a.empty || b.empty, "empty");
	c.label_if(!a.empty && !a.bounded(), "unbounded");
	c.label_if(a.has(Q(0)) || b.has(Q(0)), "contains zero");
	c.nontrivial(!a.empty && !b.empty && !(a.point() && b.point()));
}

template<typename N> void sums(pbt::Ctx& c) {
	RI a = iv::interval<N>(c), b = iv::interval<N>(c); Q n = iv::endpoint<N>(c);
	c.in("a", a); c.in("b", b); c.in("n", n); classify(c, a, b);
	Interval<N> x = iv::to_carl<N>(a), y = iv::to_carl<N>(b); N m = iv::to_num<N>(n);
	expect(x, a, true, "a");
	expect(x + y, iv::add(a, b), ex<N>(), "a+b"); expect(x.add(y), iv::add(a, b), ex<N>(), "a.add(b)");
	expect(x - y, iv::add(a, iv::neg(b)), ex<N>(), "a-b"); expect(x.sub(y), iv::add(a, iv::neg(b)), ex<N>(), "a.sub(b)");
	expect(-x, iv::neg(a), true, "-a"); expect(x.inverse(), iv::neg(a), true, "a.inverse()");
	auto t = x; t += y; expect(t, iv::add(a, b), ex<N>(), "a+=b");
	t = x; t -= y; expect(t, iv::add(a, iv::neg(b)), ex<N>(), "a-=b");
	t = x; t.add_assign(y); expect(t, iv::add(a, b), ex<N>(), "a.add_assign(b)");
	t = x; t.sub_assign(y); expect(t, iv::add(a, iv::neg(b)), ex<N>(), "a.sub_assign(b)");
	t = x; t.inverse_assign(); expect(t, iv::neg(a), true, "inverse_assign");
	RI p = iv::pt(n);
	expect(x + m, iv::add(a, p), ex<N>(), "a+n"); expect(m + x, iv::add(a, p), ex<N>(), "n+a");
	expect(x - m, iv::add(a, iv::neg(p)), ex<N>(), "a-n"); expect(m - x, iv::add(p, iv::neg(a)), ex<N>(), "n-a");
	t = x; t += m; expect(t, iv::add(a, p), ex<N>(), "a+=n");
	t = x; t -= m; expect(t, iv::add(a, iv::neg(p)), ex<N>(), "a-=n");
}
LAW(sums_rational, 60000, 1000000) { sums<Q>(c); }
LAW(sums_double, 60000, 1000000) { sums<double>(c); }

template<typename N> void products(pbt::Ctx& c) {
	RI a = iv::interval<N>(c), b = iv::interval<N>(c); Q n = iv::endpoint<N>(c);
	c.in("a", a); c.in("b", b); c.in("n", n); classify(c, a, b);
	Interval<N> x = iv::to_carl<N>(a), y = iv::to_carl<N>(b); N m = iv::to_num<N>(n);
	RI ab = iv::mul(a, b), an = iv::mul(a, iv::pt(n));
	expect(x * y, ab, ex<N>(), "a*b"); expect(x.mul(y), ab, ex<N>(), "a.mul(b)");
	auto t = x; t *= y; expect(t, ab, ex<N>(), "a*=b");
	t = x; t.mul_assign(y); expect(t, ab, ex<N>(), "a.mul_assign(b)");
	expect(x * m, an, ex<N>(), "a*n"); expect(m * x, an, ex<N>(), "n*a");
	t = x; t *= m; expect(t, an, ex<N>(), "a*=n");
}
LAW(products_rational, 80000, 1500000) { products<Q>(c); }
LAW(products_double, 60000, 1000000) { products<double>(c); }

template<typename N> void quotients(pbt::Ctx& c) {
	RI a = iv::interval<N>(c, false), b = iv::interval<N>(c, false); Q n = iv::endpoint<N>(c);
	if (n == 0) n = 1;
	c.in("a", a); c.in("b", b); c.in("n", n); classify(c, a, b);
	Interval<N> x = iv::to_carl<N>(a), y = iv::to_carl<N>(b); N m = iv::to_num<N>(n);
	RI an = iv::mul(a, iv::pt(Q(1 / n)));
	expect(x / m, an, ex<N>(), "a/n");
	auto t = x; t /= m; expect(t, an, ex<N>(), "a/=n");
	if (!b.has(Q(0))) {
		c.label("zero-free divisor");
		RI q = iv::mul(a, iv::recip(b));
		expect(x.div(y), q, ex<N>(), "a.div(b)");
		t = x; t.div_assign(y); expect(t, q, ex<N>(), "a.div_assign(b)");
	}
}
LAW(quotients_rational, 60000, 1000000) { quotients<Q>(c); }
LAW(quotients_double, 60000, 1000000) { quotients<double>(c); }

// The extended quotient covers {x/y : x in a, y in b, y != 0} by one or two intervals.
template<typename N> void ext_quotients(pbt::Ctx& c) {
	RI a = iv::interval<N>(c, false), b = iv::interval<N>(c, false);
	c.in("a", a); c.in("b", b); classify(c, a, b);
	Interval<N> x = iv::to_carl<N>(a), y = iv::to_carl<N>(b), r, s;
	bool two = x.div_ext(y, r, s);
	RI n = iv::mul(a, iv::recip(iv::side(b, -1))), p = iv::mul(a, iv::recip(iv::side(b, 1)));
	RI g = iv::of(r), h = two ? iv::of(s) : RI();
	c.label(two ? "split" : "one part");
	for (const RI& q : {n, p}) CHK(iv::covers(g, q) || iv::covers(h, q) || (iv::connected(g, h) && iv::covers(iv::hull(g, h), q)), "a/b = " << g << " and " << h << " does not cover " << q);
	if (!b.has(Q(0)) && ex<N>()) CHK(!two, "the divisor has no zero but the quotient is split");
}
LAW(ext_quotients_rational, 50000, 800000) { ext_quotients<Q>(c); }
LAW(ext_quotients_double, 40000, 600000) { ext_quotients<double>(c); }

template<typename N> void recips(pbt::Ctx& c) {
	RI b = iv::interval<N>(c, false);
	c.in("b", b); classify(c, b, b);
	Interval<N> y = iv::to_carl<N>(b), r, s;
	if (b.point() && b.has(Q(0))) c.discard();
	bool two = y.reciprocal(r, s);
	RI n = iv::recip(iv::side(b, -1)), p = iv::recip(iv::side(b, 1));
	RI g = iv::of(r), h = two ? iv::of(s) : RI();
	c.label(two ? "split" : "one part");
	for (const RI& q : {n, p}) CHK(iv::covers(g, q) || iv::covers(h, q) || (iv::connected(g, h) && iv::covers(iv::hull(g, h), q)), "1/b = " << g << " and " << h << " does not cover " << q);
}
LAW(reciprocals_rational, 30000, 500000) { recips<Q>(c); }
LAW(reciprocals_double, 30000, 500000) { recips<double>(c); }

template<typename N> void powers(pbt::Ctx& c) {
	RI a = iv::interval<N>(c); unsigned e = unsigned(1 + c.draw(6));
	c.in("a", a); c.in("e", e); classify(c, a, a);
	Interval<N> x = iv::to_carl<N>(a);
	RI w = iv::powr(a, e);
	expect(carl::pow(x, e), w, ex<N>(), "a^e");
	auto t = x; carl::pow_assign(t, e); expect(t, w, ex<N>(), "pow_assign");
	expect(x.abs(), iv::absr(a), true, "abs");
	t = x; t.abs_assign(); expect(t, iv::absr(a), true, "abs_assign");
}
LAW(powers_rational, 60000, 1000000) { powers<Q>(c); }
LAW(powers_double, 60000, 1000000) { powers<double>(c); }

// Square and n-th roots: x^k in a, x >= 0 implies x in the result.
LAW(roots_double, 40000, 600000) {
	RI a = iv::interval<double>(c, false); unsigned k = unsigned(2 + c.draw(4));
	if (c.chance(1, 16)) { // ends that are too small for a normalised number
		Q t = Q(std::ldexp(1.0, -1022 - int(c.draw(53)))), u = a.hi.inf ? Q(1) : qabs(a.hi.v); if (u < t) u = t;
		a = iv::make(E{0, t}, c.coin(), c.chance(1, 4) ? E{0, t} : E{0, u}, c.coin()); if (a.empty) a = iv::pt(t);
		if (c.coin()) a = iv::neg(a);
	}
	c.in("a", a); c.in("k", k); classify(c, a, a);
	Interval<double> x = iv::to_carl<double>(a);
	auto inside_of = [&](const RI& a, const RI& r, unsigned e, const char* what) {
		RI pos = iv::meet(a, iv::make(E{0, Q(0)}, true, E{1, Q(0)}, false));
		if (pos.empty) return;
		CHK(!r.empty, what << " is empty");
		// lower end of r must not cut off the root of the lower end of pos, and likewise above
		if (r.lo.inf == 0 && sgn(r.lo.v) > 0) {
			int cm = cmp(q_pow(r.lo.v, e), pos.lo.v);
			CHK(cm < 0 || (cm == 0 && (r.lc || !pos.lc)), what << " = " << r << " is too high below for " << a);
		} else if (r.lo.inf == 0 && sgn(r.lo.v) == 0) CHK(r.lc || !pos.has(Q(0)), what << " = " << r << " misses 0");
		if (r.hi.inf == 0) {
			CHK(pos.hi.inf == 0, what << " = " << r << " is bounded");
			int cm = sgn(r.hi.v) < 0 ? -1 : cmp(q_pow(r.hi.v, e), pos.hi.v);
			CHK(cm > 0 || (cm == 0 && (r.hc || !pos.hc)), what << " = " << r << " is too low above for " << a);
		}
	};
	auto inside = [&](const RI& r, unsigned e, const char* what) { inside_of(a, r, e, what); };
	if (a.hi.inf || a.hi.v >= 0) inside(iv::of(carl::sqrt(x)), 2, "sqrt");
	else CHK(carl::sqrt(x).isEmpty(), "sqrt of a negative interval");
	if (a.hi.inf || a.hi.v >= 0) inside(iv::of(x.root(int(k))), k, "root");
	else if (k % 2 == 0) CHK(x.root(int(k)).isEmpty(), "even root of a negative interval");
	if (k % 2 == 1) inside_of(iv::neg(a), iv::neg(iv::of(x.root(int(k)))), k, "mirrored odd root");
	Interval<double> y = x; y.root_assign(k); CHK(iv::of(y) == iv::of(x.root(int(k))), "root in place");
}

// Construction and conversion between number types never loses points.
LAW(conversion, 50000, 800000) {
	RI a = iv::interval<Q>(c);
	c.in("a", a); classify(c, a, a);
	Interval<Q> x = iv::to_carl<Q>(a);
	expect(x, a, true, "construction");
	if (!a.empty) {
		Interval<double> d(a.lo.inf ? Q(0) : a.lo.v, x.lowerBoundType(), a.hi.inf ? Q(0) : a.hi.v, x.upperBoundType());
		CHK(iv::covers(iv::of(d), a), "as doubles: " << iv::of(d) << " does not cover " << a);
		if (a.bounded() && a.lc && a.hc) { Interval<double> d2(a.lo.v, a.hi.v); CHK(iv::covers(iv::of(d2), a), "as doubles: " << iv::of(d2) << " does not cover " << a); }
		if (a.point()) { Interval<double> d3(a.lo.v); CHK(iv::covers(iv::of(d3), a), "as doubles: " << iv::of(d3) << " does not cover " << a); }
	}
	RI b = iv::interval<double>(c, false);
	c.in("b", b);
	Interval<double> y = iv::to_carl<double>(b);
	expect(y, b, true, "double construction");
	Interval<Q> z(y);
	expect(z, b, true, "rational interval from a double interval");
	expect(carl::convert<double, Q>(y), b, true, "convert");
	expect(carl::convert<Q, Q>(x), a, true, "convert to itself");
	if (!b.lo.inf && !b.hi.inf) {
		Interval<Q> f(iv::to_num<double>(b.lo.v), y.lowerBoundType(), iv::to_num<double>(b.hi.v), y.upperBoundType());
		expect(f, b, true, "rational interval from doubles");
	}
	int l = int(c.range(-5, 5)), u = int(c.range(-5, 5));
	for (auto lt : {carl::BoundType::STRICT, carl::BoundType::WEAK, carl::BoundType::INFTY}) for (auto ut : {carl::BoundType::STRICT, carl::BoundType::WEAK, carl::BoundType::INFTY}) {
		RI w = iv::make(lt == carl::BoundType::INFTY ? E{-1, Q(0)} : E{0, Q(l)}, lt == carl::BoundType::WEAK, ut == carl::BoundType::INFTY ? E{1, Q(0)} : E{0, Q(u)}, ut == carl::BoundType::WEAK);
		expect(Interval<Q>(l, lt, u, ut), w, true, "from int"); expect(Interval<double>(double(l), lt, double(u), ut), w, true, "from double");
		expect(Interval<Q>(Q(l), lt, Q(u), ut), w, true, "from rational");
	}
	// ends of another number type: exact from doubles, and from rationals as close as two neighbouring doubles
	static const carl::BoundType types[] = {carl::BoundType::STRICT, carl::BoundType::WEAK, carl::BoundType::INFTY};
	carl::BoundType lt = types[c.idx(3)], ut = types[c.idx(3)];
	c.in("lower type", int(lt)); c.in("upper type", int(ut));
	auto given = [&](const Q& p, const Q& q) { return iv::make(lt == carl::BoundType::INFTY ? E{-1, Q(0)} : E{0, p}, lt == carl::BoundType::WEAK, ut == carl::BoundType::INFTY ? E{1, Q(0)} : E{0, q}, ut == carl::BoundType::WEAK); };
	Q dl = iv::endpoint<double>(c), du = c.chance(1, 6) ? dl : iv::endpoint<double>(c);
	c.in("lower double", dl); c.in("upper double", du);
	expect(Interval<Q>(iv::to_num<double>(dl), lt, iv::to_num<double>(du), ut), given(dl, du), true, "rational interval from doubles and bound types");
	// also beyond what doubles can express
	auto end = [&]() { Q q = iv::endpoint<Q>(c); if (c.chance(1, 20)) { Z big; mpz_ui_pow_ui(big.get_mpz_t(), 10, 300 + c.idx(30)); q = c.coin() ? Q(q * big) : Q(q / big); c.label("extreme ends"); } return q; };
	Q ql = end(), qu = c.chance(1, 6) ? ql : end(), most(std::numeric_limits<double>::max());
	c.in("lower rational", ql); c.in("upper rational", qu);
	RI w = given(ql, qu), g = iv::of(Interval<double>(ql, lt, qu, ut));
	CHK(iv::covers(g, w), "double interval from rationals " << g << " does not cover " << w);
	CHK_EQ(g.empty, w.empty, "double interval from rationals " << g << " for " << w);
	if (!w.empty) {
		CHK(g.lo.inf == (w.lo.inf || w.lo.v < -most ? -1 : 0) && g.hi.inf == (w.hi.inf || w.hi.v > most ? 1 : 0), "double interval from rationals " << g << " for " << w);
		double above = std::nextafter(std::nextafter(g.lo.v.get_d(), INFINITY), INFINITY), below = std::nextafter(std::nextafter(g.hi.v.get_d(), -INFINITY), -INFINITY);
		if (!g.lo.inf) CHK(g.lc == w.lc && (std::isinf(above) || Q(above) > w.lo.v), "lower end of " << g << " for " << w);
		if (!g.hi.inf) CHK(g.hc == w.hc && (std::isinf(below) || Q(below) < w.hi.v), "upper end of " << g << " for " << w);
	}
	expect(Interval<Q>(l, u), iv::make(E{0, Q(l)}, true, E{0, Q(u)}, true), true, "from int bounds");
	expect(Interval<Q>(Q(l)), iv::pt(Q(l)), true, "point");
}

PBT_MAIN("I01", "a case is non-trivial when no operand is empty and not all operands are points")
