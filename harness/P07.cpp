// P07: resultants, subresultants and discriminants against determinants of the Sylvester matrices.
#include "poly.h"
#include <carl/core/polynomialfunctions/Resultant.h>
using namespace gen;
using rp::P; using rp::Exp; using rp::CP; using rp::CZ; using rp::Shape; using rp::K; using rp::vars;
template<typename C> using UP = carl::UnivariatePolynomial<C>;
using S = carl::SubresultantStrategy;

// Fraction-free elimination.
static P det(std::vector<std::vector<P>> m) {
	std::size_t n = m.size();
	if (n == 0) return P(Q(1));
	P prev(Q(1)); bool neg = false;
	for (std::size_t k = 0; k + 1 < n; ++k) {
		std::size_t r = k;
		while (r < n && m[r][k].zero()) ++r;
		if (r == n) return P();
		if (r != k) { std::swap(m[r], m[k]); neg = !neg; }
		for (std::size_t i = k + 1; i < n; ++i) for (std::size_t j = k + 1; j < n; ++j) {
			P q; bool ok = rp::divide(m[i][j] * m[k][k] - m[i][k] * m[k][j], prev, q);
			CHK(ok, "reference determinant");
			m[i][j] = q;
		}
		prev = m[k][k];
	}
	return neg ? -m[n - 1][n - 1] : m[n - 1][n - 1];
}
// j-th subresultant of p and q with respect to v, deg p >= deg q > j (or both positive for j = 0).
static P subresultant(const P& p, const P& q, std::size_t v, std::size_t j) {
	auto a = rp::coeffs(p, v), b = rp::coeffs(q, v);
	std::size_t m = a.size() - 1, n = b.size() - 1, d = m + n - 2 * j;
	P r;
	for (std::size_t i = 0; i <= j; ++i) {
		std::vector<std::vector<P>> M(d, std::vector<P>(d));
		for (std::size_t row = 0; row < d; ++row) {
			bool first = row < n - j;
			auto& f = first ? a : b;
			std::size_t shift = first ? n - j - 1 - row : m - j - 1 - (row - (n - j));
			for (std::size_t col = 0; col < d; ++col) {
				std::size_t power = col + 1 < d ? m + n - j - 1 - col : i;
				if (power >= shift && power - shift < f.size()) M[row][col] = f[power - shift];
			}
		}
		r = r + det(M) * rp::mono(v, unsigned(i));
	}
	return r;
}
static P sylvester(const P& p, const P& q, std::size_t v) {
	auto a = rp::coeffs(p, v), b = rp::coeffs(q, v);
	std::size_t m = a.size() - 1, n = b.size() - 1;
	std::vector<std::vector<P>> M(m + n, std::vector<P>(m + n));
	for (std::size_t r = 0; r < n; ++r) for (std::size_t i = 0; i <= m; ++i) M[r][r + i] = a[m - i];
	for (std::size_t r = 0; r < m; ++r) for (std::size_t i = 0; i <= n; ++i) M[n + r][r + i] = b[n - i];
	return det(M);
}
template<typename C> P back(const UP<C>& p) {
	CHK(p.coefficients().empty() || !carl::isZero(p.coefficients().back()), "leading coefficient is zero");
	std::size_t v = std::size_t(rp::index(p.mainVar())); P r;
	for (std::size_t i = 0; i < p.coefficients().size(); ++i) r = r + rp::of(p.coefficients()[i]) * rp::mono(v, unsigned(i));
	return r;
}
template<typename C> UP<C> fwd(const P& p, std::size_t v) {
	std::vector<C> cs;
	for (auto& k : rp::coeffs(p, v)) cs.push_back(rp::to_carl<typename C::CoeffType>(k));
	return UP<C>(vars()[v], cs);
}
static bool pm(const P& a, const P& b) { return a == b || a == -b; }
// A number times b, with a nonzero number.
static bool multiple(const P& a, const P& b) { return a.zero() == b.zero() && rp::associated(a, b); }

struct Pair { P p, q; std::size_t v = 0; };
// Polynomials of degree at most n in x whose coefficients are polynomials in the other variables.
static P in_x(pbt::Ctx& c, unsigned n, unsigned others, bool integral) {
	P r; unsigned d = 1 + unsigned(c.draw(n)); Shape s; s.maxexp = 2; s.maxterms = 2; s.integral = integral; s.nvars = 1 + others;
	for (unsigned i = 0; i <= d; ++i) if (!c.chance(1, 3) || i == d) {
		P k = others ? rp::poly(c, s) : P(rp::gen_coeff(c, s));
		k = rp::subst(k, 0, P(Q(1)));
		if (i == d && k.zero()) k = P(Q(1));
		r = r + k * rp::mono(0, i);
	}
	return r;
}
static Pair operands(pbt::Ctx& c, unsigned n, unsigned others, bool integral) {
	Pair r;
	r.p = in_x(c, n, others, integral); r.q = in_x(c, n, others, integral);
	if (c.chance(1, 4)) { P f = in_x(c, 2, others ? 1 : 0, integral); r.p = r.p * f; r.q = r.q * f; c.label("common factor"); }
	if (c.chance(1, 12)) { r.q = r.p; c.label("equal"); }
	if (c.chance(1, 8)) { r.q = rp::diff(r.p, 0); c.label("derivative"); }
	if (r.q.zero()) r.q = P(Q(1));
	// Another main variable: the coefficients then contain smaller variables.
	if (others && c.coin()) { auto sw = [](const P& p) { P t = rp::subst(p, 0, rp::mono(4)); t = rp::subst(t, 1, rp::mono(0)); return rp::subst(t, 4, rp::mono(1)); }; r.p = sw(r.p); r.q = sw(r.q); r.v = 1; }
	c.in("p", r.p); c.in("q", r.q); c.in("main variable", vars()[r.v].name());
	return r;
}

template<typename C> void check_chain(pbt::Ctx& c, const Pair& o, S strategy) {
	std::size_t v = o.v;
	UP<C> p = fwd<C>(o.p, v), q = fwd<C>(o.q, v);
	P hi = o.p, lo = o.q;
	if (hi.degree(v) < lo.degree(v)) std::swap(hi, lo);
	auto list = carl::subresultants(p, q, strategy);
	std::vector<P> chain; for (auto& s : list) chain.push_back(back(s));
	std::reverse(chain.begin(), chain.end());
	CHK(chain.size() >= 2 && chain[0] == hi && chain[1] == lo, "the chain does not start with the polynomials");
	unsigned n = lo.degree(v);
	// Every further element is a subresultant of its degree up to sign, or the defective one above it.
	std::set<unsigned> regular;
	for (std::size_t i = 2; i < chain.size(); ++i) {
		CHK(!chain[i].zero(), "zero in the chain");
		unsigned d = chain[i].degree(v), above = chain[i - 1].degree(v);
		CHK(d <= above && d < n, "degrees of the chain do not decrease");
		bool last = i + 1 == chain.size() || chain[i + 1].degree(v) < d;
		if (last) { regular.insert(d); P s = subresultant(hi, lo, v, d); CHK(pm(chain[i], s), "element of degree " << d << " is " << chain[i] << ", the subresultant is " << s); }
		else { P s = subresultant(hi, lo, v, above - 1); CHK(pm(chain[i], s), "defective element of degree " << d << " is " << chain[i] << ", the subresultant is " << s); c.label("defective"); }
	}
	for (unsigned d = 0; d < n; ++d) {
		P s = subresultant(hi, lo, v, d);
		if (!s.zero() && s.degree(v) == d) CHK(regular.count(d), "no element of degree " << d << " although the subresultant is " << s);
	}
	auto coeffs = carl::principalSubresultantsCoefficients(p, q, strategy);
	CHK_EQ(coeffs.size(), chain.size(), "number of principal coefficients");
	for (std::size_t i = 0; i < coeffs.size(); ++i) CHK(back(coeffs[i]) == rp::lcoeff(chain[chain.size() - 1 - i], v), "principal coefficient");
	c.label_if(chain.size() > 3, "long chain");
}
template<typename C> void check_resultant(pbt::Ctx& c, const Pair& o, S strategy) {
	std::size_t v = o.v;
	UP<C> p = fwd<C>(o.p, v), q = fwd<C>(o.q, v);
	P r = back(carl::resultant(p, q, strategy)), rr = back(carl::resultant(q, p, strategy));
	CHK(!r.has(v), "the resultant contains the main variable");
	P ref = sylvester(o.p, o.q, v);
	c.label_if(ref.zero(), "zero resultant"); c.label_if(!ref.constant(), "nonconstant resultant");
	if (o.p.has(v) && o.q.has(v)) {
		CHK(multiple(r, ref), "resultant is " << r << ", the determinant is " << ref);
		CHK(multiple(rr, ref), "resultant with swapped arguments is " << rr << ", the determinant is " << ref);
		P z = back(carl::resultant_debug::resultant_z3(p, q));
		CHK(multiple(z, ref), "resultant by remainder sequences is " << z << ", the determinant is " << ref);
		P g = rp::gcd(o.p, o.q); CHK(ref.zero() == g.has(v), "reference");
	} else {
		// With a constant operand only the zeroes are promised.
		P k = o.p.has(v) ? o.q : o.p; if (!o.p.has(v) && !o.q.has(v)) return;
		CHK(multiple(r, k) || multiple(r, ref), "resultant with a constant is " << r << ", expected " << ref << " or its radical");
	}
	// Zero operands
	UP<C> zero(vars()[v]);
	CHK(carl::isZero(carl::resultant(p, zero, strategy)) && carl::isZero(carl::resultant(zero, q, strategy)), "resultant with zero");
	// Discriminants
	if (o.p.degree(v) >= 1) {
		P d = back(carl::discriminant(p, strategy));
		P lc = rp::lcoeff(o.p, v), dr, full = sylvester(o.p, rp::diff(o.p, v), v);
		if (o.p.degree(v) == 1) full = lc; // resultant with a constant
		bool ok = rp::divide(full, lc, dr); CHK(ok, "reference discriminant");
		CHK(!d.has(v), "the discriminant contains the main variable");
		CHK(multiple(d, dr), "discriminant is " << d << ", expected a multiple of " << dr);
	}
}
template<typename C> void all(pbt::Ctx& c, unsigned n, unsigned others, bool integral) {
	Pair o = operands(c, n, others, integral);
	c.nontrivial(o.p.degree(o.v) >= 2 && o.q.degree(o.v) >= 1);
	S s = c.pick({S::Lazard, S::Generic, S::Ducos});
	c.in("strategy", s == S::Lazard ? "Lazard" : s == S::Ducos ? "Ducos" : "generic");
	check_chain<C>(c, o, s); check_resultant<C>(c, o, s);
}
LAW(numbers, 8000, 150000) { all<CP>(c, 6, 0, c.coin()); }
LAW(one_parameter, 3000, 60000) { all<CP>(c, 4, 1, c.coin()); }
LAW(two_parameters, 2000, 40000) { all<CP>(c, 3, 2, c.coin()); }

PBT_MAIN("P07", "p has degree at least two and q is not constant in the main variable")
