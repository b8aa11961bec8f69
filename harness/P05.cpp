// P05: greatest common divisors, least common multiples, contents, square-free parts and factorisations.
#include "poly.h"
#include <carl/core/polynomialfunctions/GCD.h>
#include <carl/core/polynomialfunctions/GCD_Term.h>
#include <carl/core/polynomialfunctions/LCM.h>
#include <carl/core/polynomialfunctions/Content.h>
#include <carl/core/polynomialfunctions/PrimitivePart.h>
#include <carl/core/polynomialfunctions/PrimitiveEuclidean.h>
#include <carl/core/polynomialfunctions/SquareFreePart.h>
#include <carl/core/polynomialfunctions/CoprimePart.h>
#include <carl/core/polynomialfunctions/Quotient.h>
#include <carl/core/polynomialfunctions/Factorization.h>
#include <carl/core/polynomialfunctions/Factorization_univariate.h>
#include <carl/numbers/GFNumber.h>
using namespace gen;
using rp::P; using rp::Exp; using rp::CP; using rp::CZ; using rp::Shape; using rp::K; using rp::vars;
template<typename C> using UP = carl::UnivariatePolynomial<C>;
template<typename C> using MP = carl::MultivariatePolynomial<C>;

static bool divides(const P& b, const P& a) { P q; return rp::divide(a, b, q); }
static Shape small(pbt::Ctx& c, bool integral, unsigned e = 2, unsigned t = 3) { Shape s; s.nvars = 1 + c.draw(3); s.maxexp = 1 + unsigned(c.draw(e)); s.maxterms = 1 + unsigned(c.draw(t)); s.integral = integral; return s; }

template<typename C> static void multivariate(pbt::Ctx& c) {
	Shape s = small(c, std::is_same<C, Z>::value);
	P g = rp::nonzero(c, s), u = rp::nonzero(c, s), v = rp::nonzero(c, s);
	if (c.chance(1, 6)) v = u;
	if (c.chance(1, 6)) g = g * (rp::mono(c.idx(s.nvars)));
	if (c.chance(1, 10)) u = P(Q(c.coin() ? 1 : -3));
	P a = g * u, b = g * v;
	if (a.t.size() > 14 || b.t.size() > 14) c.discard();
	c.in("a", a); c.in("b", b);
	P r = rp::gcd(a, b);
	c.label_if(!r.constant(), "common factor"); c.label_if(r.constant() && !a.constant() && !b.constant(), "coprime");
	c.label_if(r.nvars() >= 2, "common factor in several variables"); c.label_if(r.total() > g.total(), "more than the planned factor");
	c.nontrivial(!a.constant() && !b.constant());
	MP<C> x = rp::to_carl<C>(a), y = rp::to_carl<C>(b);
	MP<C> h = carl::gcd(x, y);
	P hr = rp::of(h);
	CHK(rp::associated(hr, r), "gcd is " << hr << ", expected a multiple of " << r);
	if (std::is_same<C, Z>::value) {
		// Over the integers the common numeric factor belongs to it.
		Z n = 0; for (const P* p : {&a, &b}) for (auto& m : p->t) mpz_gcd(n.get_mpz_t(), n.get_mpz_t(), m.second.get_num_mpz_t());
		P e = rp::scale(r, Q(n));
		CHK(hr == e || hr == -e, "gcd over the integers is " << hr << ", expected " << e);
	}
	if (a.constant() && b.constant()) { Q e = frac(0, 1); mpz_gcd(e.get_num_mpz_t(), a.at(Exp{}).get_num_mpz_t(), b.at(Exp{}).get_num_mpz_t()); if (a.at(Exp{}).get_den() == 1 && b.at(Exp{}).get_den() == 1) CHK(hr == P(e), "gcd of constants is " << hr); }
	CHK(rp::associated(rp::of(carl::gcd(y, x)), r), "gcd with exchanged operands is " << carl::gcd(y, x));
	CHK(rp::associated(rp::of(carl::gcd(x, x)), a) || a.constant(), "gcd with itself is " << carl::gcd(x, x));
	if constexpr (std::is_same<C, Q>::value) {
		P l = rp::of(carl::lcm(x, y)), e; rp::divide(a * b, r, e);
		CHK(rp::associated(l, e), "lcm is " << l << ", expected " << e);
	}
	CHK(rp::of(x) == a && rp::of(y) == b, "an operand changed");
}
LAW_B(gcd_rational, 6000, 150000, 50) { multivariate<Q>(c); }
LAW_B(gcd_integer, 4000, 100000, 50) { multivariate<Z>(c); }

LAW_B(recursive, 4000, 100000, 50) {
	Shape s = small(c, true); s.nvars = 2 + c.draw(2);
	std::size_t v = c.idx(s.nvars);
	P g = rp::nonzero(c, s), u = rp::nonzero(c, s), w = rp::nonzero(c, s);
	P a = g * u, b = g * w;
	if (a.t.size() > 12 || b.t.size() > 12) c.discard();
	c.in("a", a); c.in("b", b); c.in("variable", vars()[v]);
	c.nontrivial(a.has(v) && b.has(v));
	auto x = rp::to_uni_mv(a, v).normalized(), y = rp::to_uni_mv(b, v).normalized();
	P ct = rp::content(a, v), cc = rp::of(carl::content(x));
	CHK(rp::associated(cc, ct), "content is " << cc << ", expected " << ct);
	P pp = rp::of(carl::primitive_part(x)), e; rp::divide(a, ct, e);
	CHK(rp::associated(pp, e), "primitive part is " << pp << ", expected " << e);
	CHK(rp::associated(cc * pp, a), "content times primitive part is " << cc * pp);
	c.label_if(!ct.constant(), "content");
	P h = rp::of(carl::primitive_euclidean(x, y)), r = rp::gcd(a, b);
	CHK(rp::associated(h, r), "gcd is " << h << ", expected " << r);
}

// ---- one variable
static P known_factors(pbt::Ctx& c, const Shape& s, unsigned n) {
	P r(Q(1));
	for (unsigned i = 0; i < n; ++i) {
		P f = c.chance(1, 2) ? rp::mono(0) - P(Q(long(c.range(-3, 3)))) : rp::uni(c, 0, 3, s);
		if (f.zero()) f = P(Q(1));
		r = r * rp::pow(f, 1 + unsigned(c.chance(1, 3)));
	}
	return r;
}
static UP<Q> U(const P& p) { return rp::to_uni<Q>(rp::dense(p, 0)); }
static P monic(const P& p) { return p.zero() ? p : rp::scale(p, Q(1) / rp::dense(p, 0).back()); }

LAW(univariate, 8000, 240000) {
	Shape s; s.nvars = 1; s.integral = c.coin();
	P g = known_factors(c, s, 1 + unsigned(c.draw(2))), a = g * known_factors(c, s, unsigned(c.draw(3))), b = g * known_factors(c, s, unsigned(c.draw(3)));
	if (c.coin()) a = rp::scale(a, nonzero_rational(c));
	c.in("a", a); c.in("b", b);
	P r = monic(rp::gcd(a, b));
	c.nontrivial(!a.constant() && !b.constant()); c.label_if(!r.constant(), "common factor"); c.label_if(a.constant() || b.constant(), "constant operand");
	UP<Q> x = U(a), y = U(b);
	P h = rp::of_num(carl::gcd(x, y));
	CHK(h == r, "gcd is " << h << ", expected " << r);
	UP<Q> u(vars()[0]), v(vars()[0]);
	P k = rp::of_num(carl::extended_gcd(x, y, u, v));
	CHK(k == r, "extended gcd is " << k << ", expected " << r);
	CHK(rp::of_num(u) * a + rp::of_num(v) * b == r, "cofactors are " << u << " and " << v);
	// Square-free part: same roots, no repetition.
	P d = rp::diff(a, 0), sf;
	if (d.zero()) sf = P(Q(1)); else { P q; rp::divide(a, rp::gcd(a, d), q); sf = q; }
	P got = rp::of_num(carl::squareFreePart(x));
	c.label_if(sf.total() < a.total(), "repeated factor");
	CHK(rp::associated(got, sf) || (a.constant() && got.constant()), "square-free part is " << got << ", expected " << sf);
}

LAW(square_free_factorisation, 8000, 240000) {
	Shape s; s.nvars = 1; s.integral = c.coin();
	P a = known_factors(c, s, 1 + unsigned(c.draw(4)));
	if (c.coin()) a = rp::scale(a, nonzero_rational(c));
	if (a.constant()) a = a * rp::mono(0);
	if (a.total() > 14) c.discard();
	c.in("polynomial", a); c.nontrivial(a.total() > 1);
	auto fs = carl::squareFreeFactorization(U(a));
	P prod(Q(1)), all(Q(1));
	for (auto& f : fs) {
		P p = rp::of_num(f.second);
		CHK(!p.zero(), "factor zero");
		if (!p.constant()) {
			CHK(rp::gcd(p, rp::diff(p, 0)).constant(), "factor " << p << " is not square-free");
			CHK(rp::gcd(p, all).constant(), "factors are not coprime");
		}
		all = all * p; prod = prod * rp::pow(p, unsigned(f.first));
	}
	c.label_if(fs.size() > 1, "several multiplicities");
	CHK(rp::associated(prod, a), "the product of the factors is " << prod);
}

LAW_B(factorisation, 4000, 100000, 50) {
	Shape s; s.nvars = 1; s.integral = true;
	P a(Q(1)); unsigned n = 1 + unsigned(c.draw(4));
	for (unsigned i = 0; i < n; ++i) {
		P f = c.chance(2, 3) ? rp::scale(rp::mono(0), Q(1 + long(c.draw(4)))) - P(Q(long(c.range(-8, 8)))) : rp::uni(c, 0, 2, s);
		if (f.zero()) f = P(Q(1));
		a = a * f;
	}
	if (c.chance(1, 3)) a = rp::scale(a, gen::small_rational(c) == 0 ? Q(1) : gen::small_rational(c));
	if (a.zero()) a = rp::mono(0);
	c.in("polynomial", a); c.nontrivial(a.total() > 1);
	auto fs = carl::factorization(U(a));
	P prod(Q(1)), all(Q(1));
	for (auto& f : fs) {
		P p = rp::of_num(f.first);
		CHK(f.second >= 1, "multiplicity zero");
		if (!p.constant()) {
			CHK(rp::gcd(p, rp::diff(p, 0)).constant(), "factor " << p << " is not square-free");
			CHK(rp::gcd(p, all).constant(), "factors are not coprime");
		}
		c.label_if(p.total() > 1, "factor of higher degree");
		all = all * p; prod = prod * rp::pow(p, unsigned(f.second));
	}
	CHK(prod == a, "the product of the factors is " << prod);
}

LAW(finite_field, 6000, 180000) {
	static const int primes[] = {2, 3, 5, 7, 13, 101};
	static std::map<int, carl::GaloisField<Z>*> fields;
	int m = primes[c.idx(6)];
	auto*& gf = fields[m]; if (!gf) gf = new carl::GaloisField<Z>(unsigned(m));
	using G = carl::GFNumber<Z>;
	auto rnd = [&](unsigned n) { std::vector<G> v; for (unsigned i = 0; i < n; ++i) v.emplace_back(Z(long(c.draw(unsigned(m)))), gf); v.emplace_back(Z(1), gf); return UP<G>(vars()[0], v); };
	UP<G> g = rnd(unsigned(c.draw(3))), a = g * rnd(unsigned(c.draw(4))), b = g * rnd(unsigned(c.draw(4)));
	c.in("modulus", m); c.in("a", a); c.in("b", b); c.nontrivial(a.degree() > 0 && b.degree() > 0); c.label_if(g.degree() > 0, "planned common factor");
	UP<G> u(vars()[0]), v(vars()[0]);
	UP<G> h = carl::extended_gcd(a, b, u, v);
	CHK(carl::isOne(h.lcoeff()), "leading coefficient of the gcd is " << h.lcoeff());
	CHK(u * a + v * b == h, "cofactors " << u << " and " << v << " do not give " << h);
	for (const UP<G>* p : {&a, &b}) CHK(carl::isZero(carl::divide(*p, h).remainder), h << " does not divide " << *p);
	CHK(carl::isZero(carl::divide(h, g).remainder), "the common factor " << g << " does not divide " << h);
	CHK(carl::gcd(a, b) == h, "gcd is " << carl::gcd(a, b) << ", extended gcd is " << h);
}

LAW(multivariate_factors, 4000, 80000) {
	Shape s = small(c, false, 2, 4);
	P a = rp::nonzero(c, s);
	c.in("polynomial", a); c.nontrivial(!a.constant());
	CP x = rp::to_carl(a);
	bool incl = c.coin();
	P prod(Q(1)); bool konst = false;
	for (auto& f : carl::factorization(x, incl)) { P p = rp::of(f.first); konst = konst || p.constant(); prod = prod * rp::pow(p, unsigned(f.second)); }
	if (incl || !a.constant()) CHK(incl ? prod == a : rp::associated(prod, a), "the product of the factors is " << prod);
	if (!incl) CHK(!konst, "a constant factor is listed");
	P all(Q(1)); for (auto& f : carl::irreducibleFactors(x, incl)) all = all * rp::of(f);
	if (!a.constant()) CHK(divides(all, a), "the irreducible factors " << all << " do not divide the polynomial");
	P sf = rp::of(carl::squareFreePart(x));
	CHK(divides(sf, a), "the square-free part " << sf << " does not divide the polynomial");
	if (!a.constant()) CHK(divides(a, rp::pow(sf, a.total())), "the square-free part " << sf << " misses a factor");
}
// Terms and monomials: the greatest common divisor has the smallest exponents that occur.
LAW(terms, 10000, 150000) {
	Shape s; s.nvars = 1 + c.draw(3); s.maxexp = 3; s.maxterms = 4;
	auto exps = [&] { Exp e{}; for (std::size_t i = 0; i < s.nvars; ++i) e[i] = c.chance(1, 3) ? 0 : unsigned(c.draw(4)); return e; };
	Exp a = exps(), b = exps(); Z p = 1 + Z(long(c.draw(12))), q = 1 + Z(long(c.draw(12))); if (c.coin()) p = -p; if (c.coin()) q = -q;
	P f = rp::nonzero(c, s); if (c.coin()) { P m; m.add(exps(), Q(1)); f = f * m; }
	P ta, tb; ta.add(a, Q(p)); tb.add(b, Q(q));
	c.in("a", ta); c.in("b", tb); c.in("f", f);
	Exp ab{}, fa = a; for (std::size_t i = 0; i < K; ++i) { ab[i] = std::min(a[i], b[i]); for (auto& t : f.t) fa[i] = std::min(fa[i], t.first[i]); }
	c.nontrivial(ab != Exp{} && ab != a && ab != b); c.label_if(fa != Exp{}, "common with a polynomial"); c.label_if(ab == Exp{}, "coprime");
	carl::Term<Q> x(Q(p), rp::monomial(a)), y(Q(q), rp::monomial(b));
	Z g; mpz_gcd(g.get_mpz_t(), p.get_mpz_t(), q.get_mpz_t());
	for (const auto& r : {carl::gcd(x, y), carl::gcd(y, x)}) { CHK(rp::exp_of(r.monomial()) == ab, "gcd of the terms is " << r); CHK(qabs(r.coeff()) == Q(g), "coefficient of the gcd of the terms is " << r.coeff()); }
	CP h = rp::to_carl(f);
	for (const auto& r : {carl::gcd(h, x), carl::gcd(x, h)}) { CHK(rp::exp_of(r.monomial()) == fa, "gcd of the polynomial and the term is " << r); CHK(r.coeff() != 0, "gcd of the polynomial and the term is " << r); }
	for (const auto& r : {carl::gcd(h, rp::monomial(a)), carl::gcd(rp::monomial(a), h)}) CHK(rp::exp_of(r) == fa, "gcd of the polynomial and the monomial is " << r);
}
PBT_MAIN("P05", "non-trivial means that the polynomials are not constant")
