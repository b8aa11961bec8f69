// R02: root bounds, Sturm sequences, sign variations, root counts and removal of roots.
#include "roots.h"
#include <carl/core/polynomialfunctions/RootBounds.h>
#include <carl/core/polynomialfunctions/RootCounting.h>
#include <carl/core/polynomialfunctions/RootElimination.h>
#include <carl/core/polynomialfunctions/SignVariations.h>
#include <carl/core/polynomialfunctions/SturmSequence.h>
#include <carl/core/polynomialfunctions/Chebyshev.h>
using namespace gen;
using rt::U; using rt::Root; using rp::vars;
using UP = carl::UnivariatePolynomial<Q>;
using Iv = carl::Interval<Q>;
using carl::Sign;

static UP up(const U& a) { return UP(vars()[0], a); }
static U of(const UP& p) { CHK(p.coefficients().empty() || p.coefficients().back() != 0, "leading coefficient is zero"); return p.coefficients(); }

LAW(bounds, 20000, 400000) {
	U a = rt::poly(c, 4);
	if (c.chance(1, 6)) { a = U(1 + c.draw(9)); for (auto& q : a) if (c.coin()) q = small_rational(c, 40, 9); a = rt::trim(a); if (a.empty()) a = {Q(3)}; }
	if (c.chance(1, 8)) a = rt::compose(a, {Q(0), frac(Z(1), Z(1) << unsigned(c.draw(12)))});
	c.in("p", rt::show(a));
	auto roots = rt::isolate(a); UP p = up(a);
	c.nontrivial(!roots.empty()); c.label_if(roots.empty(), "no real root"); c.label_if(rt::deg(a) < 1, "constant");
	Q ca = carl::cauchyBound(p), hm = carl::hirstMaceyBound(p), la = carl::lagrangeBound(p);
	Q pu = carl::lagrangePositiveUpperBound(p), pl = carl::lagrangePositiveLowerBound(p), nu = carl::lagrangeNegativeUpperBound(p);
	CHK(ca >= 0 && hm >= 0 && la >= 0 && pu >= 0 && pl >= 0 && nu <= 0, "sign of a bound");
	for (auto& r : roots) {
		for (auto& b : {std::make_pair("Cauchy", ca), std::make_pair("Hirst-Macey", hm), std::make_pair("Lagrange", la)}) CHK(rt::cmp(r, b.second) <= 0 && rt::cmp(r, Q(-b.second)) >= 0, b.first << " bound " << b.second << " excludes " << rt::show(r));
		int s = rt::cmp(r, Q(0));
		if (s > 0) { CHK(rt::cmp(r, pu) <= 0, "upper bound " << pu << " of positive roots excludes " << rt::show(r)); CHK(rt::cmp(r, pl) >= 0, "lower bound " << pl << " of positive roots excludes " << rt::show(r)); }
		if (s < 0) CHK(rt::cmp(r, nu) <= 0, "upper bound " << nu << " of negative roots excludes " << rt::show(r));
	}
	// A zero bound says that there are no roots of that sign.
	int np = 0, nn = 0; for (auto& r : roots) { int s = rt::cmp(r, Q(0)); np += s > 0; nn += s < 0; }
	if (pu == 0) CHK(np == 0, "zero bound for positive roots");
	if (pl == 0 && np) CHK(false, "zero lower bound although there are positive roots");
	if (nu == 0 && nn) CHK(false, "zero upper bound although there are negative roots");
}

LAW(counting, 20000, 400000) {
	U a = rt::poly(c, 4); c.in("p", rt::show(a));
	UP p = up(a);
	Q l = small_rational(c, 20, 4), u = small_rational(c, 20, 4); if (u < l) std::swap(l, u);
	if (c.chance(1, 6)) { l = -rt::bound(a); u = rt::bound(a); }
	c.in("lower", l); c.in("upper", u);
	auto seq = carl::sturm_sequence(p);
	// The sequence is the chain of negated remainders.
	CHK(seq.size() >= 2 && of(seq[0]) == a && of(seq[1]) == rt::diff(a), "start of the Sturm sequence");
	for (std::size_t i = 2; i < seq.size(); ++i) { U q, r; rt::divmod(of(seq[i - 2]), of(seq[i - 1]), q, r); CHK(rt::neg(r) == of(seq[i]), "element of the Sturm sequence"); }
	if (!of(seq[seq.size() - 1]).empty()) CHK(rt::rem(of(seq[seq.size() - 2]), of(seq.back())).empty(), "end of the Sturm sequence");
	auto roots = rt::isolate(a);
	int n = 0; for (auto& r : roots) n += rt::cmp(r, l) > 0 && rt::cmp(r, u) < 0;
	c.nontrivial(roots.size() > 1); c.label_if(n > 1, "several roots");
	if (rt::eval(a, l) != 0 && rt::eval(a, u) != 0) {
		c.label("ends are no roots");
		CHK_EQ(carl::count_real_roots(p, Iv(l, u)), n, "number of roots in the interval");
		CHK_EQ(carl::count_real_roots(seq, Iv(l, carl::BoundType::STRICT, u, carl::BoundType::STRICT)), n, "number of roots by the sequence");
		// With another polynomial: the sum of its signs at the roots.
		U b = rt::poly(c, 2); c.in("q", rt::show(b));
		int s = 0; for (auto& r : roots) if (rt::cmp(r, l) > 0 && rt::cmp(r, u) < 0) { Root t = r; s += rt::sign_at(b, t); }
		U da = rt::mul(rt::diff(a), b);
		if (!da.empty()) CHK_EQ(carl::count_real_roots(carl::sturm_sequence(p, up(da)), Iv(l, u)), s, "sum of signs at the roots");
	}
}

LAW(sign_variations, 20000, 400000) {
	U a = rt::poly(c, 4); c.in("p", rt::show(a));
	UP p = up(a);
	Q l = small_rational(c, 20, 4), u = small_rational(c, 20, 4); if (u < l) std::swap(l, u); if (l == u) u = l + frac(Z(1), Z(long(1 + c.draw(40))));
	c.in("lower", l); c.in("upper", u);
	// Descartes: roots in the open interval with multiplicity, the count exceeds it by an even number.
	int n = 0; U rest = a;
	while (rt::deg(rest) >= 1) { for (auto& r : rt::isolate(rest)) n += rt::cmp(r, l) > 0 && rt::cmp(r, u) < 0; rest = rt::gcd(rest, rt::diff(rest)); }
	int v = int(carl::sign_variations(p, Iv(l, carl::BoundType::STRICT, u, carl::BoundType::STRICT)));
	c.nontrivial(n > 0); c.label_if(n > 1, "several roots"); c.label_if(v > n, "overestimated");
	CHK(v >= n && (v - n) % 2 == 0, v << " variations for " << n << " roots");
	// The exact number by the transformed polynomial.
	U t{}; std::size_t d = a.size() - 1;
	for (std::size_t i = 0; i < a.size(); ++i) { U lin1 = {u, l}, lin2 = {Q(1), Q(1)}, f{a[i]}; for (std::size_t k = 0; k < i; ++k) f = rt::mul(f, rt::trim(lin1)); for (std::size_t k = i; k < d; ++k) f = rt::mul(f, lin2); t = rt::add(t, rt::trim(f)); }
	std::vector<int> sg; for (auto& q : t) sg.push_back(sgn(q));
	CHK_EQ(v, rt::changes(sg), "variations of the transformed polynomial");
	CHK_EQ(carl::sign_variations(p, Iv::emptyInterval()), 0u, "variations in the empty interval");
	// Sequences of signs
	std::vector<Sign> s; std::vector<int> raw; std::size_t len = c.draw(9);
	for (std::size_t i = 0; i < len; ++i) { int k = int(c.range(-1, 1)); raw.push_back(k); s.push_back(k < 0 ? Sign::NEGATIVE : k > 0 ? Sign::POSITIVE : Sign::ZERO); }
	{ std::ostringstream o; for (int k : raw) o << k << " "; c.in("signs", o.str()); }
	CHK_EQ(int(carl::sign_variations(s.begin(), s.end())), rt::changes(raw), "variations of signs");
	CHK_EQ(int(carl::sign_variations(raw.begin(), raw.end(), [](int k) { return carl::sgn(k); })), rt::changes(raw), "variations of numbers");
	std::list<Sign> ls(s.begin(), s.end());
	CHK_EQ(int(carl::sign_variations(ls.begin(), ls.end())), rt::changes(raw), "variations of a list");
}

LAW(elimination, 10000, 200000) {
	U a = rt::poly(c, 4); Q r = small_rational(c, 6, 3); unsigned k = unsigned(c.draw(4));
	for (unsigned i = 0; i < k; ++i) a = rt::mul(a, rt::from_roots({r}));
	if (c.coin()) { unsigned z = unsigned(c.draw(3)); for (unsigned i = 0; i < z; ++i) a = rt::mul(a, {Q(0), Q(1)}); }
	c.in("p", rt::show(a)); c.in("root", r);
	auto without = [](U p, const Q& q) { while (rt::deg(p) >= 1 && rt::eval(p, q) == 0) p = rt::quo(p, rt::from_roots({q})); return p; };
	UP p = up(a); carl::eliminate_zero_root(p);
	CHK(of(p) == without(a, Q(0)), "removing zero gave " << p);
	c.nontrivial(rt::deg(a) >= 2); c.label_if(rt::eval(a, Q(0)) == 0, "zero is a root");
	if (rt::eval(a, r) == 0) { UP q = up(a); carl::eliminate_root(q, r); c.label("root"); CHK(of(q) == without(a, r), "removing the root gave " << q); }
	CHK_EQ(carl::is_root_of(up(a), r), rt::eval(a, r) == 0, "root test");
	CHK_EQ(up(a).zeroIsRoot(), rt::eval(a, Q(0)) == 0, "zero is a root");
}

LAW(chebyshev, 200, 2000) {
	std::size_t n = c.idx(20); c.in("n", n); c.nontrivial(n > 2);
	U t = of(carl::Chebyshev<Q>(vars()[0])(n));
	CHK_EQ(rt::deg(t), int(n), "degree");
	// T_n(T_m) = T_nm, T_n(1) = 1, and T_n((z + 1/z)/2) = (z^n + z^-n)/2
	CHK_EQ(rt::eval(t, Q(1)), Q(1), "value at one");
	Q z = small_rational(c, 5, 3); if (z == 0) z = 2;
	CHK_EQ(rt::eval(t, Q((z + 1 / z) / 2)), Q((q_pow(z, unsigned(n)) + 1 / q_pow(z, unsigned(n))) / 2), "value");
}

PBT_MAIN("R02", "the polynomial has real roots (bounds), several (counts), roots in the interval (variations), or degree two (removal)")
