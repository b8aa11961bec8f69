// P06: division with remainder, exact division, pseudo division and S-polynomials.
#include "poly.h"
#include <carl/core/polynomialfunctions/Division.h>
#include <carl/core/polynomialfunctions/Remainder.h>
#include <carl/core/polynomialfunctions/Quotient.h>
#include <carl/core/polynomialfunctions/SPolynomial.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/numbers/GFNumber.h>
using namespace gen;
using rp::P; using rp::Exp; using rp::CP; using rp::CZ; using rp::Shape; using rp::K; using rp::vars;
using carl::Term; using carl::Monomial;
template<typename C> using UP = carl::UnivariatePolynomial<C>;

static int cmp(const Exp& a, const Exp& b) {
	unsigned da = 0, db = 0;
	for (std::size_t i = 0; i < K; ++i) { da += a[i]; db += b[i]; }
	if (da != db) return da < db ? -1 : 1;
	for (std::size_t i = 0; i < K; ++i) if (a[i] != b[i]) return a[i] > b[i] ? -1 : 1;
	return 0;
}
static Exp lead(const P& p) { Exp e = p.t.begin()->first; for (auto& m : p.t) if (cmp(m.first, e) > 0) e = m.first; return e; }
static bool div(const Exp& a, const Exp& b) { for (std::size_t i = 0; i < K; ++i) if (a[i] < b[i]) return false; return true; }
// Division by leading terms in the documented order of monomials.
static void reduce(P a, const P& b, P& q, P& r) {
	q = P(); r = P();
	Exp lb = lead(b);
	while (!a.zero()) {
		Exp la = lead(a); Q k = a.at(la); P m;
		if (div(la, lb)) { Exp e; for (std::size_t i = 0; i < K; ++i) e[i] = la[i] - lb[i]; m.t[e] = k / b.at(lb); q = q + m; a = a - m * b; }
		else { m.t[la] = k; r = r + m; a = a - m; }
	}
}
static void same(const CP& p, const P& r, const char* what) {
	P q = rp::of(p);
	CHK(q == r, what << " is " << q << ", expected " << r);
	CP e = rp::to_carl(r);
	CHK(p == e, what << " differs from the polynomial built from its terms");
	if (!r.zero()) CHK(p.lmon() == e.lmon() && p.lcoeff() == e.lcoeff() && p.constantPart() == r.at(Exp{}), what << " has leading term " << p.lterm());
}
static Shape shape(pbt::Ctx& c) { Shape s; s.nvars = 1 + c.draw(3); s.maxexp = 1 + unsigned(c.draw(3)); s.maxterms = 1 + unsigned(c.draw(5)); s.integral = c.coin(); s.big = true; return s; }

LAW(multivariate, 20000, 500000) {
	Shape s = shape(c), sd = s; sd.maxterms = 3; sd.maxexp = 2;
	P b = rp::nonzero(c, sd), a;
	switch (c.weighted({3, 3, 1, 1})) {
		case 0: a = rp::poly(c, s); break;
		case 1: a = b * rp::poly(c, sd); if (c.coin()) a = a + rp::poly(c, sd); break;
		case 2: a = b; break;
		default: a = b * b; break;
	}
	c.in("dividend", a); c.in("divisor", b);
	P q, r; reduce(a, b, q, r);
	c.label_if(r.zero() && !a.zero(), "divisible"); c.label_if(b.constant(), "constant divisor"); c.label_if(!r.zero() && !q.zero(), "quotient and remainder");
	c.nontrivial(!a.zero() && !b.constant());
	CP x = rp::to_carl(a), y = rp::to_carl(b);
	auto d = carl::divide(x, y);
	same(d.quotient, q, "quotient of the division"); same(d.remainder, r, "remainder of the division");
	same(carl::quotient(x, y), q, "quotient"); same(carl::remainder(x, y), r, "remainder");
	CP e(Q(7)); bool ok = carl::try_divide(x, y, e);
	CHK_EQ(ok, r.zero(), "divisibility");
	if (ok) { same(e, q, "exact quotient"); same(x / y, q, "quotient by the operator"); }
	P same_; CHK_EQ(rp::divide(a, b, same_), r.zero(), "reference divisions disagree");
	// The same objects again: results must not depend on what was computed before.
	CP e2; CHK_EQ(carl::try_divide(x, y, e2), ok, "divisibility, second time"); if (ok) same(e2, q, "exact quotient, second time");
	same(carl::quotient(x * y, y), a, "quotient of a product"); CHK(carl::isZero(carl::remainder(x * y, y)), "remainder of a product");
	same(x, a, "the dividend"); same(y, b, "the divisor");
	// Aliasing
	same(carl::quotient(x, x.nrTerms() ? x : y), a.zero() ? P() : P(Q(1)), "quotient by itself");
	Q k = rp::gen_coeff(c, s); if (k == 0) k = 1;
	same(carl::divide(x, k), rp::scale(a, Q(1) / k), "division by a number");
}

LAW(terms, 10000, 200000) {
	Shape s = shape(c); s.nvars = 1 + c.draw(4);
	Exp ea = rp::gen_exp(c, s), eb = c.coin() ? rp::gen_exp(c, s) : ea;
	if (c.coin()) for (std::size_t i = 0; i < K; ++i) if (eb[i] > ea[i]) std::swap(ea[i], eb[i]);
	Q p = nonzero_rational(c), q = nonzero_rational(c);
	Term<Q> a(p, rp::monomial(ea)), b(q, rp::monomial(eb));
	c.in("dividend", a); c.in("divisor", b); bool ok = div(ea, eb);
	c.nontrivial(ea != Exp{} && eb != Exp{}); c.label_if(ok, "divisible");
	Exp ed{}; for (std::size_t i = 0; i < K; ++i) ed[i] = ea[i] - eb[i];
	auto is = [&](const Term<Q>& t, const Q& k, const Exp& e, const char* what) { CHK(t.coeff() == k && rp::exp_of(t.monomial()) == e, what << " is " << t); };
	Term<Q> r;
	CHK_EQ(a.divide(b, r), ok, "divisibility by a term"); if (ok) is(r, p / q, ed, "quotient of terms");
	CHK_EQ(a.divisible(b), ok, "divisible by a term");
	Term<Q> m; CHK_EQ(a.divide(b.monomial(), m), ok, "divisibility by a monomial"); if (ok) is(m, p, ed, "quotient by a monomial");
	is(carl::divide(a, q), p / q, ea, "quotient by a number");
	Term<Q> t; CHK(carl::try_divide(a, q, t), "not divisible by a number"); is(t, p / q, ea, "quotient by a number");
	CHK(!carl::try_divide(a, Q(0), t), "divisible by zero");
	std::size_t v = c.idx(K); Exp ev = ea; c.in("variable", vars()[v]);
	bool has = ea[v] > 0; if (has) --ev[v];
	Term<Q> w; CHK_EQ(carl::try_divide(a, vars()[v], w), has, "divisibility by a variable"); if (has) is(w, p, ev, "quotient by a variable");
	if (a.monomial() && b.monomial()) {
		Exp l; for (std::size_t i = 0; i < K; ++i) l[i] = std::max(ea[i], eb[i]) - eb[i];
		Term<Q> u = Term<Q>(Q(1), a.monomial()).calcLcmAndDivideBy(b.monomial());
		CHK(rp::exp_of(u.monomial()) == l, "lcm divided by the monomial is " << u);
	}
}

LAW(s_polynomial, 10000, 250000) {
	Shape s = shape(c);
	P a = rp::nonconstant(c, s), b = c.chance(1, 5) ? a : rp::nonconstant(c, s);
	a = rp::scale(a, Q(1) / a.at(lead(a))); b = rp::scale(b, Q(1) / b.at(lead(b))); // required
	c.in("p", a); c.in("q", b); c.nontrivial(true);
	Exp la = lead(a), lb = lead(b);
	P ma, mb; Exp ea, eb;
	for (std::size_t i = 0; i < K; ++i) { unsigned m = std::max(la[i], lb[i]); ea[i] = m - la[i]; eb[i] = m - lb[i]; }
	ma.t[ea] = b.at(lb); mb.t[eb] = a.at(la);
	P e = ma * a - mb * b; // lcm of the leading terms cancels
	P g = rp::of(carl::SPolynomial(rp::to_carl(a), rp::to_carl(b)));
	c.label_if(e.zero(), "zero"); c.label_if(a.t.size() == 1 || b.t.size() == 1, "a single term");
	CHK(e == g, "S-polynomial is " << g << ", expected " << e);
}

static UP<Q> U(const P& p) { return rp::to_uni<Q>(rp::dense(p, 0)); }
LAW(univariate, 20000, 500000) {
	Shape s; s.nvars = 1; s.integral = c.coin(); s.big = true;
	P b = rp::uni(c, 0, 4, s), a = rp::uni(c, 0, 8, s);
	if (b.zero()) b = P(Q(2));
	if (c.chance(1, 3)) a = b * rp::uni(c, 0, 4, s);
	c.in("dividend", a); c.in("divisor", b); c.nontrivial(a.total() >= b.total() && !b.constant()); c.label_if(b.constant(), "constant divisor"); c.label_if(a.total() < b.total(), "larger divisor"); c.label_if(a.zero(), "zero dividend");
	P q, r; reduce(a, b, q, r);
	c.label_if(r.zero() && !a.zero(), "divisible");
	UP<Q> x = U(a), y = U(b);
	auto d = carl::divide(x, y);
	CHK(rp::of_num(d.quotient) == q, "quotient is " << d.quotient << ", expected " << q); CHK(rp::of_num(d.remainder) == r, "remainder is " << d.remainder << ", expected " << r);
	CHK(rp::of_num(carl::remainder(x, y)) == r, "remainder is " << carl::remainder(x, y) << ", expected " << r);
	Q k = rp::gen_coeff(c, s); if (k == 0) k = Q(3, 2);
	CHK(rp::of_num(carl::divide(x, k).quotient) == rp::scale(a, Q(1) / k), "quotient by a number");
	// A prefactor multiplies the dividend.
	P f = rp::of_num(carl::remainder(x, y, k));
	CHK(f == rp::scale(r, k) || (a.total() < b.total() && f == a) || a.zero(), "remainder with prefactor " << k << " is " << f << ", expected " << rp::scale(r, k));
}

LAW(integers, 10000, 250000) {
	Shape s; s.nvars = 1; s.integral = true; s.big = true;
	P b = rp::uni(c, 0, 4, s); if (b.zero()) b = P(Q(1));
	if (c.coin()) { auto d = rp::dense(b, 0); b = b + rp::scale(rp::mono(0, unsigned(d.size() - 1)), Q(1) - d.back()); } // monic
	P a = c.coin() ? b * rp::uni(c, 0, 4, s) : rp::uni(c, 0, 8, s);
	c.in("dividend", a); c.in("divisor", b); c.nontrivial(!b.constant() && !a.zero());
	auto z = [&](const P& p) { return rp::to_uni<Z>(rp::dense(p, 0)); };
	auto d = carl::divide(z(a), z(b));
	P q = rp::of_num(d.quotient), r = rp::of_num(d.remainder), eq, er; reduce(a, b, eq, er);
	CHK(q * b + r == a, "quotient " << q << " and remainder " << r << " do not give the dividend");
	bool integral = true; for (auto& m : eq.t) if (m.second.get_den() != 1) integral = false;
	c.label_if(integral, "exact in the integers"); c.label_if(er.zero() && integral, "divisible");
	if (integral) CHK(q == eq && r == er, "quotient is " << q << " and remainder " << r << ", expected " << eq << " and " << er);
}

LAW_B(pseudo, 8000, 200000, 100) {
	Shape s; s.nvars = 1 + c.draw(3); s.maxexp = 3; s.maxterms = 4; s.integral = c.coin();
	std::size_t v = c.idx(s.nvars);
	P a = rp::nonzero(c, s), b = rp::nonzero(c, s);
	if (!b.has(v)) b = b + rp::mono(v, 1 + unsigned(c.draw(2)));
	if (c.chance(1, 3)) a = a * b;
	if (a.t.size() > 15) c.discard();
	c.in("dividend", a); c.in("divisor", b); c.in("variable", vars()[v]);
	unsigned da = a.degree(v), db = b.degree(v);
	c.nontrivial(da >= db); c.label_if(da < db, "larger divisor");
	auto x = rp::to_uni_mv(a, v), y = rp::to_uni_mv(b, v);
	P r = rp::of(carl::pseudo_remainder(x, y)), m = rp::of(carl::pseudo_remainder(rp::to_carl(a), rp::to_carl(b), vars()[v])), q;
	CHK(r == m, "pseudo remainders differ: " << r << " and " << m);
	if (da < db) { CHK(r == a, "the pseudo remainder is " << r); return; }
	CHK(r.zero() || r.degree(v) < db, "the degree of the pseudo remainder " << r << " is too large");
	P l = rp::pow(rp::lcoeff(b, v), da - db + 1);
	CHK(rp::divide(l * a - r, b, q), "the pseudo remainder " << r << " is not congruent to the dividend times " << l);
	c.label_if(r.zero(), "divisible");
	P g = rp::of(carl::signed_pseudo_remainder(x, y));
	P le = rp::pow(rp::lcoeff(b, v), (da - db + 1) + (da - db + 1) % 2);
	CHK((g.zero() || g.degree(v) < db) && rp::divide(le * a - g, b, q), "the signed pseudo remainder is " << g);
	P k = rp::of(carl::remainder(x, y, rp::to_carl(l)));
	CHK(k == r, "remainder with the prefactor " << l << " is " << k << ", expected " << r);
}

LAW(coefficient_division, 8000, 200000) {
	Shape s; s.nvars = 3; s.maxexp = 2; s.maxterms = 4;
	std::size_t v = c.idx(3);
	P k = rp::subst(rp::nonzero(c, s), v, P(Q(2))); if (k.zero()) k = P(Q(1));
	P a = rp::poly(c, s); bool ex = c.coin(); P m = ex ? a * k : a, q;
	c.in("dividend", m); c.in("divisor", k); c.in("main variable", vars()[v]); c.nontrivial(!k.constant() && !m.zero());
	bool ok = rp::divide(m, k, q);
	auto x = rp::to_uni_mv(m, v); UP<CP> r(vars()[v]);
	CHK_EQ(carl::try_divide(x, rp::to_carl(k), r), ok, "divisibility by a coefficient");
	if (ok) { CHK(rp::of(r) == q, "quotient by a coefficient is " << rp::of(r) << ", expected " << q); CHK(rp::of(x / rp::to_carl(k)) == q, "quotient by the operator"); }
	Q n = nonzero_rational(c);
	CHK(rp::of(carl::divide(x, n).quotient) == rp::scale(m, Q(1) / n), "quotient by a number");
}

LAW(finite_field, 8000, 200000) {
	static const int primes[] = {2, 3, 5, 7, 13, 101};
	static std::map<int, carl::GaloisField<Z>*> fields;
	int m = primes[c.idx(6)];
	auto*& gf = fields[m]; if (!gf) gf = new carl::GaloisField<Z>(unsigned(m));
	using G = carl::GFNumber<Z>;
	auto rnd = [&](unsigned n) { std::vector<G> v; for (unsigned i = 0; i < n; ++i) v.emplace_back(Z(long(c.draw(unsigned(m)))), gf); v.emplace_back(Z(1 + long(c.draw(unsigned(m) - 1))), gf); return UP<G>(vars()[0], v); };
	UP<G> b = rnd(unsigned(c.draw(4))), a = rnd(unsigned(c.draw(8)));
	c.in("modulus", m); c.in("dividend", a); c.in("divisor", b); c.nontrivial(a.degree() >= b.degree() && b.degree() > 0);
	auto d = carl::divide(a, b);
	CHK(d.quotient * b + d.remainder == a, "quotient " << d.quotient << " and remainder " << d.remainder);
	CHK(carl::isZero(d.remainder) || d.remainder.degree() < b.degree(), "remainder " << d.remainder << " is too large");
	CHK(carl::remainder(a, b) == d.remainder, "remainder is " << carl::remainder(a, b) << ", expected " << d.remainder);
	CHK(carl::isZero(carl::remainder(a * b, b)), "remainder of a product");
}
PBT_MAIN("P06", "non-trivial means that the divisor is not constant and the dividend is large enough to be divided")
