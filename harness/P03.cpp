// P03: substitution, evaluation, differentiation and changes of representation of polynomials.
#include "poly.h"
#include <carl/core/polynomialfunctions/Substitution.h>
#include <carl/core/polynomialfunctions/Evaluation.h>
#include <carl/core/polynomialfunctions/Derivative.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/core/polynomialfunctions/Representation.h>
#include <carl/core/polynomialfunctions/to_univariate_polynomial.h>
#include <carl/core/polynomialfunctions/Chebyshev.h>
#include <carl/core/polynomialfunctions/SeparablePart.h>
using namespace gen;
using rp::P; using rp::Exp; using rp::CP; using rp::CZ; using rp::Shape; using rp::K; using rp::vars;
using carl::Monomial; using carl::Term; using carl::Variable;
template<typename C> using MP = carl::MultivariatePolynomial<C>;
template<typename C> using UP = carl::UnivariatePolynomial<C>;

static Shape shape(pbt::Ctx& c, bool integral = false, unsigned maxexp = 4, unsigned maxterms = 6) {
	Shape s; s.integral = integral; s.big = true;
	s.nvars = 1 + c.draw(4); s.maxexp = 1 + unsigned(c.draw(maxexp)); s.maxterms = 1 + unsigned(c.draw(maxterms));
	return s;
}
template<typename C> static void same(const MP<C>& p, const P& r, const char* what) {
	P q = rp::of(p);
	CHK(q == r, what << " is " << q << ", expected " << r);
	auto e = rp::to_carl<C>(r);
	CHK(p == e && e == p, what << " differs from the polynomial built from its terms");
	if (!r.zero()) {
		CHK(p.lmon() == e.lmon() && p.lcoeff() == e.lcoeff(), what << " has leading term " << p.lterm());
		CHK(Q(p.constantPart()) == r.at(Exp{}), what << " has constant part " << p.constantPart());
	}
}
// What is put in for a variable: now and then zero, one, the variable itself or something containing it.
static P value(pbt::Ctx& c, std::size_t v, const Shape& s) {
	switch (c.weighted({1, 1, 2, 2, 4})) {
		case 0: return P();
		case 1: return P(Q(c.coin() ? 1 : -1));
		case 2: { P r = rp::scale(rp::mono(v, 1 + unsigned(c.draw(2))), Q(c.coin() ? 1 : -1)); return c.coin() ? r : r + P(rp::gen_coeff(c, s)); }
		case 3: return P(rp::gen_coeff(c, s));
		default: { Shape t = s; t.maxterms = 3; t.maxexp = 2; t.big = false; return rp::poly(c, t); }
	}
}
// Simultaneous substitution.
static P subst_all(const P& p, const std::map<std::size_t, P>& m) {
	P r;
	for (auto& t : p.t) {
		P x(t.second);
		for (std::size_t i = 0; i < K; ++i) if (t.first[i]) { auto it = m.find(i); x = x * rp::pow(it == m.end() ? rp::mono(i) : it->second, t.first[i]); }
		r = r + x;
	}
	return r;
}

template<typename C> static void one_variable(pbt::Ctx& c) {
	Shape s = shape(c, std::is_same<C, Z>::value);
	P a = rp::poly(c, s);
	std::size_t v = c.idx(s.nvars);
	P b = value(c, v, s);
	c.in("polynomial", a); c.in("variable", vars()[v]); c.in("value", b);
	P r = rp::subst(a, v, b);
	c.label_if(b.zero(), "by zero"); c.label_if(b.has(v), "value contains the variable"); c.label_if(r.t.size() < a.t.size(), "terms merge");
	c.label_if(a.degree(v) >= 2, "power");
	c.nontrivial(a.has(v));
	MP<C> p = rp::to_carl<C>(a), q = rp::to_carl<C>(b);
	same(carl::substitute(p, vars()[v], q), r, "substitution");
	MP<C> w = p; carl::substitute_inplace(w, vars()[v], q);
	same(w, r, "substitution in place");
	same(carl::substitute(p, std::map<Variable, MP<C>>{{vars()[v], q}}), r, "substitution by a map");
	same(p, a, "the original"); same(q, b, "the value");
	// The leading term has to be right for what is computed next.
	same(w - carl::substitute(p, vars()[v], q), P(), "the difference of both");
	same(w * q + p, r * b + a, "a polynomial computed from the result");
}
LAW(substitute_rational, 32000, 960000) { one_variable<Q>(c); }
LAW(substitute_integer, 16000, 480000) { one_variable<Z>(c); }

template<typename C> static void many(pbt::Ctx& c) {
	Shape s = shape(c, std::is_same<C, Z>::value, 3, 5);
	P a = rp::poly(c, s);
	std::map<std::size_t, P> m;
	for (std::size_t i = 0; i < s.nvars; ++i) if (c.chance(2, 3)) m[i] = value(c, i, s);
	c.in("polynomial", a);
	std::map<Variable, MP<C>> cm;
	for (auto& e : m) { c.in("value", e.second); cm.emplace(vars()[e.first], rp::to_carl<C>(e.second)); }
	MP<C> p = rp::to_carl<C>(a);
	P r = subst_all(a, m);
	bool cross = false;
	for (auto& e : m) for (auto& f : m) if (e.first != f.first && e.second.has(f.first)) cross = true;
	c.label_if(cross, "values mention substituted variables"); c.label_if(m.size() >= 2, "several variables");
	c.nontrivial(!m.empty() && !a.constant());
	same(carl::substitute(p, cm), r, "substitution of polynomials");
	// Numbers, for some of the variables.
	std::map<Variable, C> nm; std::map<std::size_t, P> nr;
	for (std::size_t i = 0; i < s.nvars; ++i) if (c.chance(2, 3)) { Q q = c.chance(1, 4) ? Q(0) : rp::gen_coeff(c, s); nm[vars()[i]] = rp::coeff<C>(q); nr[i] = P(q); }
	r = subst_all(a, nr);
	same(carl::substitute(p, nm), r, "substitution of numbers");
	// Terms.
	std::map<Variable, Term<C>> tm; std::map<std::size_t, P> tr;
	for (std::size_t i = 0; i < s.nvars; ++i) if (c.chance(2, 3)) {
		Exp e = rp::gen_exp(c, s); Q q = c.chance(1, 5) ? Q(0) : rp::gen_coeff(c, s);
		if (q == 0) e = Exp{};
		P x; x.add(e, q);
		tm.emplace(vars()[i], Term<C>(rp::coeff<C>(q), rp::monomial(e))); tr[i] = x;
	}
	for (auto& e : tm) c.in("term", e.second);
	r = subst_all(a, tr);
	same(carl::substitute(p, tm), r, "substitution of terms");
	// Single terms.
	for (auto& t : p) {
		P one; one.add(rp::exp_of(t.monomial()), Q(t.coeff()));
		Term<C> x = carl::substitute(t, nm), y = carl::substitute(t, tm);
		P er = subst_all(one, nr), et = subst_all(one, tr), ex, et2;
		ex.add(rp::exp_of(x.monomial()), Q(x.coeff())); et2.add(rp::exp_of(y.monomial()), Q(y.coeff()));
		CHK(ex == er, "substituting numbers in the term " << t << " gives " << ex << ", expected " << er);
		CHK(et2 == et, "substituting terms in the term " << t << " gives " << et2 << ", expected " << et);
	}
}
LAW(substitute_many_rational, 24000, 720000) { many<Q>(c); }
LAW(substitute_many_integer, 12000, 360000) { many<Z>(c); }

LAW(substitute_univariate, 16000, 480000) {
	Shape s = shape(c, false, 3, 5); s.big = false;
	std::size_t mv = c.idx(s.nvars), v = c.idx(s.nvars);
	P a = rp::poly(c, s), b = value(c, v, s);
	// A value may not bring the main variable back into the coefficients.
	b = rp::subst(b, mv, P(Q(2)));
	c.in("polynomial", a); c.in("main variable", vars()[mv]); c.in("variable", vars()[v]); c.in("value", b);
	P r = rp::subst(a, v, b);
	c.label_if(v == mv, "main variable"); c.label_if(b.has(v), "value contains the variable"); c.label_if(r.degree(mv) < a.degree(mv) && v != mv, "degree drops");
	c.nontrivial(a.has(v));
	UP<CP> p = rp::to_uni_mv(a, mv);
	CP q = rp::to_carl(b);
	UP<CP> x = carl::substitute(p, vars()[v], q);
	CHK(rp::of(x) == r, "substitution is " << rp::of(x) << ", expected " << r);
	UP<CP> y = p; carl::substitute_inplace(y, vars()[v], q);
	CHK(rp::of(y) == r, "substitution in place is " << rp::of(y) << ", expected " << r);
	// Number coefficients.
	P u = rp::uni(c, 0, 6, s); Q k = rp::gen_coeff(c, s);
	c.in("univariate", u); c.in("number", k);
	UP<Q> n = rp::to_uni<Q>(rp::dense(u, 0));
	P ur = rp::subst(u, 0, P(k));
	CHK(rp::of_num(carl::substitute(n, vars()[0], k)) == ur, "substituting a number gives " << carl::substitute(n, vars()[0], k) << ", expected " << ur);
	CHK(rp::of_num(carl::substitute(n, vars()[1], k)) == u, "substituting another variable changed the polynomial");
	UP<Q> m = n; carl::substitute_inplace(m, vars()[0], k);
	CHK(rp::of_num(m) == ur, "substituting a number in place gives " << m << ", expected " << ur);
	m = n; carl::substitute_inplace(m, vars()[1], k);
	CHK(rp::of_num(m) == u, "substituting another variable in place changed the polynomial");
}

template<typename C> static void evaluation(pbt::Ctx& c) {
	Shape s = shape(c, std::is_same<C, Z>::value, 5, 8); s.nvars = 1 + c.draw(K);
	P a = rp::poly(c, s);
	std::array<Q, K> pt;
	for (auto& q : pt) q = c.chance(1, 8) ? Q(0) : rp::gen_coeff(c, s);
	c.in("polynomial", a); for (std::size_t i = 0; i < s.nvars; ++i) c.in("value", pt[i]);
	c.nontrivial(!a.constant());
	std::map<Variable, C> m;
	for (std::size_t i = 0; i < K; ++i) m[vars()[i]] = rp::coeff<C>(pt[i]);
	MP<C> p = rp::to_carl<C>(a);
	Q r = rp::eval(a, pt);
	CHK(Q(carl::evaluate(p, m)) == r, "value is " << carl::evaluate(p, m) << ", expected " << r);
	CHK(Q(C(carl::substitute(p, m).constantPart())) == r && carl::substitute(p, m).isConstant(), "substituting all variables is not the value");
	for (auto& t : p) {
		P one; one.add(rp::exp_of(t.monomial()), Q(t.coeff()));
		CHK(Q(carl::evaluate(t, m)) == rp::eval(one, pt), "value of the term " << t << " is " << carl::evaluate(t, m));
		if (t.monomial()) { P mo; mo.add(rp::exp_of(t.monomial()), Q(1)); CHK(Q(C(carl::evaluate(*t.monomial(), m))) == rp::eval(mo, pt), "value of the monomial " << t.monomial() << " is " << C(carl::evaluate(*t.monomial(), m))); }
	}
	// Univariate, with a root half of the time.
	P u = rp::uni(c, 0, 6, s); Q k = pt[0];
	if (c.coin()) u = u * (rp::mono(0) - P(k));
	c.in("univariate", u);
	UP<C> n = rp::to_uni<C>(rp::dense(u, 0));
	Q ur = rp::eval(u, pt);
	CHK(Q(carl::evaluate(n, m[vars()[0]])) == ur, "univariate value is " << carl::evaluate(n, m[vars()[0]]) << ", expected " << ur);
	CHK_EQ(carl::is_root_of(n, m[vars()[0]]), ur == 0, "root test");
	CHK(Q(n.evaluate(m[vars()[0]])) == ur && n.isRoot(m[vars()[0]]) == (ur == 0) && int(n.sgn(m[vars()[0]])) == sgn(ur), "member functions disagree with the value " << ur);
}
LAW(evaluate_rational, 24000, 720000) { evaluation<Q>(c); }
LAW(evaluate_integer, 12000, 360000) { evaluation<Z>(c); }

template<typename C> static void derivatives(pbt::Ctx& c) {
	Shape s = shape(c, std::is_same<C, Z>::value, 9, 7);
	P a = rp::poly(c, s);
	std::size_t v = c.idx(s.nvars), mv = c.idx(s.nvars), n = c.draw(6);
	c.in("polynomial", a); c.in("variable", vars()[v]); c.in("times", n); c.in("main variable", vars()[mv]);
	auto D = [&](P x) { for (std::size_t i = 0; i < n; ++i) x = rp::diff(x, v); return x; };
	c.nontrivial(a.has(v) && n > 0); c.label_if(n > 1, "repeated"); c.label_if(n > a.degree(v), "vanishes");
	MP<C> p = rp::to_carl<C>(a);
	P r = D(a);
	same(carl::derivative(p, vars()[v], n), r, "derivative");
	if (n == 1) same(carl::derivative(p, vars()[v]), r, "derivative without a count");
	for (auto& t : p) {
		P one; one.add(rp::exp_of(t.monomial()), Q(t.coeff()));
		Term<C> x = carl::derivative(t, vars()[v], n);
		P got; got.add(rp::exp_of(x.monomial()), Q(x.coeff()));
		CHK(got == D(one), "derivative of the term " << t << " is " << x);
		if (t.monomial()) {
			P mo; mo.add(rp::exp_of(t.monomial()), Q(1));
			auto y = carl::derivative(t.monomial(), vars()[v], n);
			P gm; gm.add(rp::exp_of(y.second), Q(Z(static_cast<unsigned long>(y.first))));
			CHK(gm == D(mo), "derivative of the monomial " << t.monomial() << " is " << y.first << " * " << y.second);
		}
	}
	auto cst = carl::derivative(Monomial::Arg(), vars()[v], n);
	CHK_EQ(cst.first, std::size_t(n == 0), "derivative of the constant monomial");
	if constexpr (std::is_same<C, Q>::value) {
		UP<CP> u = rp::to_uni_mv(a, mv);
		P du = rp::of(carl::derivative(u, vars()[v], n));
		CHK(du == r, "derivative of the univariate representation is " << du << ", expected " << r);
		P e = a; for (std::size_t i = 0; i < n; ++i) e = rp::diff(e, mv);
		P dm = rp::of(carl::derivative(u, n));
		CHK(dm == e, "derivative by the main variable is " << dm << ", expected " << e);
	}
	P u = rp::uni(c, 0, 9, s);
	c.in("univariate", u);
	UP<C> w = rp::to_uni<C>(rp::dense(u, 0));
	P e = u; for (std::size_t i = 0; i < n; ++i) e = rp::diff(e, 0);
	CHK(rp::of_num(carl::derivative(w, n)) == e, "derivative of a univariate polynomial is " << carl::derivative(w, n) << ", expected " << e);
	CHK(rp::of_num(carl::derivative(w, vars()[0], n)) == e, "derivative by the named variable is " << carl::derivative(w, vars()[0], n) << ", expected " << e);
	if (n > 0) CHK(carl::isZero(carl::derivative(w, vars()[1], n)), "derivative by another variable is not zero");
	C k = rp::coeff<C>(rp::gen_coeff(c, s));
	CHK(carl::derivative(k, vars()[0], n) == (n == 0 ? k : C(0)), "derivative of a number");
}
LAW(derivative_rational, 24000, 720000) { derivatives<Q>(c); }
LAW(derivative_integer, 12000, 360000) { derivatives<Z>(c); }

template<typename C> static void representation(pbt::Ctx& c) {
	Shape s = shape(c, std::is_same<C, Z>::value, 5, 8);
	P a = rp::poly(c, s);
	std::size_t v = c.idx(s.nvars), w = c.idx(s.nvars);
	c.in("polynomial", a); c.in("variable", vars()[v]); c.in("other", vars()[w]);
	c.nontrivial(a.has(v)); c.label_if(a.zero(), "zero"); c.label_if(!a.zero() && a.constant(), "constant");
	auto read = [](const UP<MP<C>>& u) {
		P r; std::size_t x = std::size_t(rp::index(u.mainVar()));
		for (std::size_t i = 0; i < u.coefficients().size(); ++i) { P k = rp::of(u.coefficients()[i]); CHK(!k.has(x), "main variable in a coefficient"); r = r + k * rp::mono(x, unsigned(i)); }
		CHK(u.coefficients().empty() || !carl::isZero(u.coefficients().back()), "leading coefficient is zero");
		return r;
	};
	MP<C> p = rp::to_carl<C>(a);
	UP<MP<C>> u = carl::to_univariate_polynomial(p, vars()[v]);
	CHK(u.mainVar() == vars()[v], "main variable is " << u.mainVar());
	CHK(read(u) == a, "univariate representation is " << read(u));
	auto cs = rp::coeffs(a, v);
	if (!a.zero()) { CHK_EQ(u.degree(), carl::uint(cs.size() - 1), "degree"); for (std::size_t i = 0; i < cs.size(); ++i) same(u.coefficients()[i], cs[i], "coefficient"); }
	same(MP<C>(u), a, "converted back");
	UP<MP<C>> x = carl::switch_main_variable(u, vars()[w]);
	CHK(x.mainVar() == vars()[w] && read(x) == a, "after changing the main variable: " << read(x));
	CHK(x == carl::to_univariate_polynomial(p, vars()[w]), "changing the main variable differs from the direct conversion");
	// Renaming the main variable.
	P b = rp::subst(a, w, P(Q(c.coin() ? 1 : 3)));
	UP<MP<C>> y = carl::replace_main_variable(carl::to_univariate_polynomial(rp::to_carl<C>(b), vars()[v]), vars()[w]);
	CHK(y.mainVar() == vars()[w] && read(y) == rp::subst(b, v, rp::mono(w)), "after renaming the main variable: " << read(y));
	// Really univariate.
	P un = rp::uni(c, v, 7, s);
	if (un.constant()) un = un + rp::mono(v);
	c.in("univariate", un);
	UP<C> n = carl::to_univariate_polynomial(rp::to_carl<C>(un));
	CHK(n.mainVar() == vars()[v] && rp::of_num(n) == un, "conversion of a univariate polynomial is " << n);
	CHK(n == rp::to_uni<C>(rp::dense(un, v), v), "conversion differs from the polynomial built from its coefficients");
	same(MP<C>(n), un, "converted back");
	UP<MP<C>> nx = carl::switch_main_variable(n, vars()[w]);
	CHK(read(nx) == un, "after changing the main variable: " << read(nx));
	UP<C> ny = carl::replace_main_variable(n, vars()[w]);
	CHK(ny.mainVar() == vars()[w] && rp::of_num(ny) == rp::subst(un, v, rp::mono(w)), "after renaming the main variable: " << ny);
	UP<MP<C>> lifted = carl::to_univariate_polynomial(rp::to_carl<C>(un), vars()[v]);
	CHK(lifted.isUnivariate(), "not recognised as univariate");
	CHK(rp::of_num(lifted.toNumberCoefficients()) == un, "number coefficients are " << lifted.toNumberCoefficients());
	CHK(lifted == n.template convert<MP<C>>(), "converting the coefficients");
}
LAW(representation_rational, 24000, 720000) { representation<Q>(c); }
LAW(representation_integer, 12000, 360000) { representation<Z>(c); }

LAW(special, 8000, 160000) {
	std::size_t n = c.draw(20);
	c.in("index", n);
	carl::Chebyshev<Q> T(vars()[1]);
	P a(Q(1)), b = rp::mono(1);
	for (std::size_t i = 0; i < n; ++i) { P d = rp::scale(rp::mono(1), Q(2)) * b - a; a = b; b = d; }
	CHK(rp::of_num(T(n)) == a, "Chebyshev polynomial " << n << " is " << T(n));
	Shape s = shape(c);
	Exp e = rp::gen_exp(c, s);
	auto m = rp::monomial(e);
	c.in("monomial", rp::of(CP(Term<Q>(Q(1), m))));
	c.nontrivial(n > 1);
	if (m) {
		Exp f{}; for (std::size_t i = 0; i < K; ++i) f[i] = e[i] ? 1 : 0;
		CHK(carl::separable_part(*m) == rp::monomial(f), "separable part of " << m << " is " << carl::separable_part(*m));
	}
}
PBT_MAIN("P03", "non-trivial means that the variable concerned occurs in the polynomial")
