// P04: univariate polynomials over integers, rationals, finite fields and polynomials.
#include "poly.h"
#include <carl/core/polynomialfunctions/Degree.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/core/polynomialfunctions/Evaluation.h>
#include <carl/core/polynomialfunctions/Content.h>
#include <carl/core/polynomialfunctions/PrimitivePart.h>
#include <carl/numbers/GFNumber.h>
using namespace gen;
using rp::P; using rp::Exp; using rp::CP; using rp::CZ; using rp::Shape; using rp::K; using rp::vars;
using carl::Variable;
template<typename C> using UP = carl::UnivariatePolynomial<C>;
using V = std::vector<Q>; // coefficients, no trailing zeroes

static V trim(V a) { while (!a.empty() && a.back() == 0) a.pop_back(); return a; }
static V add(const V& a, const V& b, int s = 1) { V r(std::max(a.size(), b.size()), Q(0)); for (std::size_t i = 0; i < a.size(); ++i) r[i] += a[i]; for (std::size_t i = 0; i < b.size(); ++i) r[i] += s * b[i]; return trim(r); }
static V mul(const V& a, const V& b) { if (a.empty() || b.empty()) return {}; V r(a.size() + b.size() - 1, Q(0)); for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; return trim(r); }
static V scaled(V a, const Q& q) { for (auto& x : a) x *= q; return trim(a); }
static std::string str(const V& a) { std::ostringstream o; o << "["; for (auto& q : a) o << " " << q; o << " ]"; return o.str(); }
template<typename C> static V of(const UP<C>& p) {
	V r;
	for (auto& k : p.coefficients()) r.push_back(Q(k));
	CHK(r.empty() || r.back() != 0, "leading coefficient is zero");
	return r;
}
template<typename C> static void same(const UP<C>& p, const V& r, const char* what) {
	V q = of(p);
	CHK(q == r, what << " is " << str(q) << ", expected " << str(r));
	CHK(p.mainVar() == vars()[0], what << " has main variable " << p.mainVar());
	CHK_EQ(carl::isZero(p), r.empty(), what << " is zero");
	CHK_EQ(carl::isOne(p), (r.size() == 1 && r[0] == 1), what << " is one");
	CHK_EQ(carl::is_constant(p), r.size() <= 1, what << " is constant");
	if (!r.empty()) {
		CHK_EQ(p.degree(), carl::uint(r.size() - 1), what << " degree");
		CHK(Q(p.lcoeff()) == r.back() && Q(p.tcoeff()) == r.front(), what << " leading or trailing coefficient");
	}
	CHK(Q(p.constantPart()) == (r.empty() ? Q(0) : r[0]), what << " constant part");
}
static V gen_v(pbt::Ctx& c, bool integral, unsigned maxdeg = 7) {
	Shape s; s.integral = integral; s.big = true;
	return trim(rp::dense(rp::uni(c, 0, maxdeg, s), 0));
}
static V related(pbt::Ctx& c, const V& a, bool integral) {
	V b = gen_v(c, integral);
	switch (c.weighted({3, 2, 1})) {
		case 0: return b;
		case 1: { V r = b; r.resize(std::max(a.size(), b.size()), Q(0)); for (std::size_t i = a.size(); i-- > 0;) { if (c.chance(1, 4)) break; r[i] = c.coin() ? a[i] : Q(-a[i]); } return trim(r); }
		default: return c.coin() ? a : scaled(a, Q(-1));
	}
}
template<typename C> static UP<C> mk(const V& a, std::size_t v = 0) { return rp::to_uni<C>(a, v); }

template<typename C> static void ring(pbt::Ctx& c) {
	constexpr bool I = std::is_same<C, Z>::value;
	V a = gen_v(c, I), b = related(c, a, I);
	Shape s; s.integral = I; s.big = true;
	Q q = c.chance(1, 6) ? Q(0) : c.chance(1, 5) && !a.empty() ? Q(-a[0]) : rp::gen_coeff(c, s);
	unsigned n = unsigned(c.draw(6));
	c.in("a", str(a)); c.in("b", str(b)); c.in("number", q); c.in("power", n);
	UP<C> x = mk<C>(a), y = mk<C>(b); C k = rp::coeff<C>(q);
	c.label_if(add(a, b).size() < std::max(a.size(), b.size()), "leading coefficients cancel");
	c.label_if(a.empty() || b.empty(), "zero operand"); c.nontrivial(a.size() > 1 && b.size() > 1);
	same(x + y, add(a, b), "sum"); same(x - y, add(a, b, -1), "difference"); same(x * y, mul(a, b), "product"); same(-x, scaled(a, Q(-1)), "negation");
	UP<C> t = x; t += y; same(t, add(a, b), "sum in place");
	t = x; t -= y; same(t, add(a, b, -1), "difference in place");
	t = x; t *= y; same(t, mul(a, b), "product in place");
	V kv = trim({q});
	same(x + k, add(a, kv), "sum with a number"); same(k + x, add(a, kv), "number plus polynomial");
	same(x - k, add(a, kv, -1), "difference with a number"); same(k - x, add(kv, a, -1), "number minus polynomial");
	same(x * k, mul(a, kv), "product with a number"); same(k * x, mul(a, kv), "number times polynomial");
	t = x; t += k; same(t, add(a, kv), "sum in place with a number");
	t = x; t -= k; same(t, add(a, kv, -1), "difference in place with a number");
	t = x; t *= k; same(t, mul(a, kv), "product in place with a number");
	t = x; t *= vars()[0]; same(t, mul(a, {Q(0), Q(1)}), "product in place with the variable");
	same(x * vars()[0], mul(a, {Q(0), Q(1)}), "product with the variable"); same(vars()[0] * x, mul(a, {Q(0), Q(1)}), "variable times polynomial");
	if (q != 0) {
		if (!I) { same(x / k, scaled(a, Q(1) / q), "quotient by a number"); t = x; t /= k; same(t, scaled(a, Q(1) / q), "quotient in place by a number"); }
		else { V m = scaled(a, q); same(mk<C>(m) / k, a, "exact quotient by a number"); t = mk<C>(m); t /= k; same(t, a, "exact quotient in place by a number"); }
	}
	t = x; t += t; same(t, scaled(a, Q(2)), "doubling in place");
	t = x; t *= t; same(t, mul(a, a), "squaring in place");
	t = x; t -= t; same(t, {}, "subtracting itself");
	V pw{Q(1)}; for (unsigned i = 0; i < n; ++i) pw = mul(pw, a);
	same(carl::pow(x, n), pw, "power"); same(x.pow(n), pw, "power by the member function");
	same(x, a, "the first operand"); same(y, b, "the second operand");
	CHK_EQ((x == y), (a == b), "equality"); CHK_EQ((x != y), (a != b), "inequality");
	CHK_EQ((x == k), (a == kv), "equality with a number"); CHK_EQ((k == x), (a == kv), "number equals polynomial");
	std::hash<UP<C>> h;
	CHK_EQ(h((x + y) - y), h(x), "hash of equal polynomials");
	same(x.one(), {Q(1)}, "one");
	UP<C> mv = mk<C>(a); UP<C> moved(std::move(mv)); same(moved, a, "moved polynomial");
	UP<C> asg(vars()[1]); asg = x; same(asg, a, "assigned polynomial"); asg = std::move(moved); same(asg, a, "move assigned polynomial");
}
LAW(ring_rational, 20000, 600000) { ring<Q>(c); }
LAW(ring_integer, 15000, 450000) { ring<Z>(c); }

template<typename C> static void constructors(pbt::Ctx& c) {
	constexpr bool I = std::is_same<C, Z>::value;
	V a = gen_v(c, I, 5);
	V padded = a; for (std::size_t i = c.draw(4); i > 0; --i) padded.push_back(Q(0));
	c.in("coefficients", str(padded)); c.nontrivial(a.size() > 1); c.label_if(padded.size() > a.size(), "leading zeroes");
	std::vector<C> cs; for (auto& q : padded) cs.push_back(rp::coeff<C>(q));
	Variable x = vars()[0];
	same(UP<C>(x, cs), a, "from coefficients"); same(UP<C>(x, std::vector<C>(cs)), a, "from moved coefficients");
	same(UP<C>(x), {}, "zero");
	while (cs.size() < 3) cs.push_back(C(0));
	{ V e; for (int i = 0; i < 3; ++i) e.push_back(Q(cs[std::size_t(i)])); same(UP<C>(x, {cs[0], cs[1], cs[2]}), trim(e), "from a list"); }
	std::map<carl::uint, C> m;
	V e(padded.size() + 3, Q(0));
	for (std::size_t i = 0; i < padded.size(); ++i) if (padded[i] != 0 || c.chance(1, 3)) { m[i] = rp::coeff<C>(padded[i]); e[i] = padded[i]; }
	if (!m.empty()) same(UP<C>(x, m), trim(e), "from a map of coefficients");
	Q q = c.chance(1, 5) ? Q(0) : a.empty() ? Q(1) : a.back(); std::size_t d = c.draw(9);
	c.in("coefficient", q); c.in("degree", d);
	V mo(d + 1, Q(0)); mo[d] = q;
	same(UP<C>(x, rp::coeff<C>(q), d), trim(mo), "from a coefficient and degree");
	same(UP<C>(x, rp::coeff<C>(q)), trim({q}), "from a constant");
}
LAW(constructors_rational, 10000, 200000) { constructors<Q>(c); }
LAW(constructors_integer, 10000, 200000) { constructors<Z>(c); }

template<typename C> static void observers(pbt::Ctx& c) {
	constexpr bool I = std::is_same<C, Z>::value;
	V a = gen_v(c, I);
	c.in("polynomial", str(a)); c.nontrivial(a.size() > 1); c.label_if(a.empty(), "zero"); c.label_if(!a.empty() && a[0] == 0, "zero is a root");
	UP<C> p = mk<C>(a);
	CHK_EQ(p.isLinearInMainVar(), a.size() <= 2, "linear"); CHK_EQ(p.isNumber(), a.size() <= 1, "number"); CHK(p.isUnivariate(), "not univariate");
	V neg = a; for (std::size_t i = 1; i < neg.size(); i += 2) neg[i] = -neg[i];
	same(p.negateVariable(), neg, "negated variable");
	Z den(1), num(0);
	for (auto& q : a) { mpz_lcm(den.get_mpz_t(), den.get_mpz_t(), q.get_den_mpz_t()); }
	for (auto& q : a) { Z t = Z(Q(q * den).get_num()); mpz_gcd(num.get_mpz_t(), num.get_mpz_t(), t.get_mpz_t()); }
	CHK(Z(p.mainDenom()) == den, "common denominator is " << p.mainDenom() << ", expected " << den);
	Q content = frac(num, den);
	if constexpr (!I) CHK(qabs(Q(p.numericContent())) == content, "numeric content is " << p.numericContent() << ", expected " << content);
	V prim = a.empty() ? a : scaled(a, Q(1) / content);
	if (a.empty()) {
		CHK(carl::isZero(p.normalized()), "zero polynomial is not kept when normalised");
		if constexpr (!I) CHK(carl::isZero(p.coprimeCoefficients()) && carl::isZero(p.coprimeCoefficientsSignPreserving()), "zero polynomial is not kept");
		return;
	}
	CHK_EQ(p.zeroIsRoot(), a[0] == 0, "zero is root");
	V rev(a.rbegin(), a.rend()); same(p.reverseCoefficients(), trim(rev), "reversed coefficients");
	V tr = a; tr.pop_back(); UP<C> t = p; t.truncate(); same(t, trim(tr), "truncated polynomial");
	if constexpr (!I) {
		CHK(p.unitPart() == C(a.back()), "unit part"); same(p.normalized(), scaled(a, Q(1) / a.back()), "normalised polynomial"); CHK_EQ(p.isNormal(), (a.back() == 1), "normal");
		Q f = p.coprimeFactor();
		CHK(abs(f) == Q(1) / content, "coprime factor is " << f << ", expected " << Q(1) / content);
		V cc = of(p.coprimeCoefficients()), cs = of(p.coprimeCoefficientsSignPreserving());
		CHK(cc == prim || cc == scaled(prim, Q(-1)), "coprime coefficients are " << str(cc) << ", expected " << str(prim) << " up to sign");
		CHK(cs == prim, "coprime coefficients with signs are " << str(cs) << ", expected " << str(prim));
		V pp = of(carl::pseudo_primitive_part(p));
		CHK(pp == prim || pp == scaled(prim, Q(-1)), "pseudo primitive part is " << str(pp) << ", expected " << str(prim) << " up to sign");
	} else {
		V nrm = a.back() < 0 ? scaled(a, Q(-1)) : a;
		CHK(Q(p.unitPart()) == Q(a.back() < 0 ? -1 : 1), "unit part"); same(p.normalized(), nrm, "normalised polynomial"); CHK_EQ(p.isNormal(), (a.back() > 0), "normal");
		V np = scaled(nrm, Q(1) / content);
		CHK(Q(carl::content(p.normalized())) == content, "content is " << carl::content(p.normalized()) << ", expected " << content);
		same(carl::primitive_part(p.normalized()), np, "primitive part");
		Z m = Z(2 + c.draw(30)); c.in("modulus", m);
		UP<C> r = p; r.mod(m);
		CHK_EQ(r.coefficients().size(), a.size(), "number of coefficients after reduction");
		for (std::size_t i = 0; i < a.size(); ++i) { Z w = r.coefficients()[i]; Z d = w - Z(a[i].get_num()); CHK(abs(w) < m && mpz_divisible_p(d.get_mpz_t(), m.get_mpz_t()), "coefficient modulo " << m << " is " << w); }
	}
	// Integer coefficients again.
	if (den == 1) { auto z = p.toIntegerDomain(); CHK(of(z) == a, "integer polynomial is " << z); }
	CHK(of(p.template convert<Q>()) == a, "converted polynomial");
	std::function<Q(const C&)> twice = [](const C& k) { return Q(Q(k) * 2); };
	CHK(of(p.template convert<Q>(twice)) == scaled(a, Q(2)), "converted with a function");
	// Dividing by (x - r): the remainder is returned, an exact quotient is stored.
	Q r = c.coin() ? Q(long(c.range(-3, 3))) : Q(0);
	V b = c.coin() ? mul(a, {Q(-r), Q(1)}) : a;
	c.in("root", r);
	Q val(0); for (std::size_t i = b.size(); i-- > 0;) val = val * r + b[i];
	UP<C> sd = mk<C>(b);
	C rem = sd.syntheticDivision(rp::coeff<C>(r));
	CHK(Q(rem) == val, "synthetic division of " << str(b) << " leaves " << rem << ", expected " << val);
	if (val == 0) CHK(mul(of(sd), {Q(-r), Q(1)}) == b, "synthetic division of " << str(b) << " gives " << sd);
	else same(sd, b, "the polynomial after an inexact synthetic division");
}
LAW(observers_rational, 15000, 450000) { observers<Q>(c); }
LAW(observers_integer, 15000, 450000) { observers<Z>(c); }

LAW(comparison, 15000, 450000) {
	bool I = c.coin();
	std::vector<V> vs; std::vector<std::size_t> mv; std::vector<UP<Q>> ps;
	for (int i = 0; i < 3; ++i) {
		V a = i == 0 ? gen_v(c, I, 3) : c.chance(1, 3) ? vs[0] : related(c, vs[0], I);
		vs.push_back(a); mv.push_back(c.draw(3)); ps.push_back(mk<Q>(a, mv.back()));
		c.in("polynomial", str(a)); c.in("variable", vars()[mv.back()]);
	}
	c.nontrivial(vs[0] != vs[1]); c.label_if(mv[0] != mv[1], "different main variables");
	auto order = [&](const char* what, auto lt) {
		for (int i = 0; i < 3; ++i) {
			CHK(!lt(ps[i], ps[i]), what << " is not irreflexive");
			for (int j = 0; j < 3; ++j) {
				CHK(!(lt(ps[i], ps[j]) && lt(ps[j], ps[i])), what << " holds both ways");
				if (mv[i] == mv[j]) CHK_EQ((!lt(ps[i], ps[j]) && !lt(ps[j], ps[i])), (vs[i] == vs[j]), what << " is not total on one variable");
				for (int k = 0; k < 3; ++k) if (lt(ps[i], ps[j]) && lt(ps[j], ps[k])) CHK(lt(ps[i], ps[k]), what << " is not transitive");
			}
		}
	};
	order("the order", [](const UP<Q>& a, const UP<Q>& b) { return a < b; });
	order("the order by degree", [](const UP<Q>& a, const UP<Q>& b) { return a.less(b); });
	order("the default functor", [](const UP<Q>& a, const UP<Q>& b) { return std::less<UP<Q>>()(a, b); });
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
		bool eq = mv[i] == mv[j] ? vs[i] == vs[j] : vs[i].size() <= 1 && vs[i] == vs[j];
		CHK_EQ((ps[i] == ps[j]), eq, "equality of " << ps[i] << " and " << ps[j]); CHK_EQ((ps[i] != ps[j]), !eq, "inequality");
		if (vs[i].size() != vs[j].size()) CHK_EQ(ps[i].less(ps[j]), vs[i].size() < vs[j].size(), "order by degree of " << ps[i] << " and " << ps[j]);
		const UP<Q>* none = nullptr; std::less<UP<Q>> lt;
		CHK(!(lt(&ps[i], none) && lt(none, &ps[i])) && !lt(none, none), "the functor on pointers is not an order for null");
		CHK_EQ(lt(&ps[i], &ps[j]), lt(ps[i], ps[j]), "the functor on pointers");
	}
}

LAW(polynomial_coefficients, 8000, 240000) {
	Shape s; s.nvars = 3; s.maxexp = 3; s.maxterms = 5;
	std::size_t mv = c.idx(3), o = (mv + 1 + c.draw(2)) % 3;
	P a = rp::poly(c, s), b = c.chance(1, 4) ? a : c.chance(1, 3) ? -a + rp::poly(c, s) : rp::poly(c, s);
	P k = rp::subst(rp::poly(c, s), mv, P(Q(1)));
	unsigned n = unsigned(c.draw(4));
	c.in("a", a); c.in("b", b); c.in("coefficient", k); c.in("main variable", vars()[mv]);
	c.nontrivial(a.has(mv) && b.has(mv)); c.label_if((a + b).degree(mv) < std::max(a.degree(mv), b.degree(mv)), "leading coefficients cancel");
	auto x = rp::to_uni_mv(a, mv), y = rp::to_uni_mv(b, mv); CP q = rp::to_carl(k);
	auto eq = [&](const UP<CP>& p, const P& r, const char* what) {
		CHK(rp::of(p) == r, what << " is " << rp::of(p) << ", expected " << r);
		CHK(p == rp::to_uni_mv(r, mv), what << " differs from the polynomial built from its coefficients");
		CHK_EQ(carl::isZero(p), r.zero(), what << " is zero"); CHK_EQ(carl::is_constant(p), !r.has(mv), what << " is constant in the main variable");
		CHK_EQ(p.isNumber(), r.constant(), what << " is a number"); CHK(p.constantPart() == r.at(Exp{}), what << " constant part");
		if (!r.zero()) { CHK_EQ(p.degree(), carl::uint(r.degree(mv)), what << " degree"); CHK_EQ(carl::total_degree(p), std::size_t(r.total()), what << " total degree"); }
	};
	eq(x + y, a + b, "sum"); eq(x - y, a - b, "difference"); eq(x * y, a * b, "product"); eq(-x, -a, "negation");
	eq(x - q, a - k, "difference with a coefficient"); eq(q - x, k - a, "coefficient minus polynomial");
	auto ip = x; ip += q; eq(ip, a + k, "sum in place with a coefficient"); ip -= q; eq(ip, a, "difference in place with a coefficient");
	eq(x * q, a * k, "product with a coefficient"); eq(q * x, a * k, "coefficient times polynomial");
	auto t = x; t *= q; eq(t, a * k, "product in place with a coefficient");
	t = x; t *= vars()[mv]; eq(t, a * rp::mono(mv), "product with the main variable");
	t = x; t *= vars()[o]; eq(t, a * rp::mono(o), "product with another variable");
	eq(x * vars()[o], a * rp::mono(o), "product with another variable"); eq(vars()[mv] * x, a * rp::mono(mv), "main variable times polynomial");
	eq(carl::pow(x, n), rp::pow(a, n), "power"); eq(x, a, "the operand");
	CHK_EQ((x == y), (a == b), "equality");
	auto z = rp::to_uni_mv(b, o);
	CHK_EQ((x == z), (a == b), "equality across main variables of " << x << " and " << z); CHK_EQ((x != z), (a != b), "inequality across main variables");
	bool univ = true; for (std::size_t i = 0; i < 3; ++i) if (i != mv && a.has(i)) univ = false;
	CHK_EQ(x.isUnivariate(), univ, "is univariate");
	if (univ) CHK(rp::of_num(x.toNumberCoefficients()) == a, "number coefficients");
	for (std::size_t i = 0; i < 3; ++i) if (i != mv) CHK_EQ(x.has(vars()[i]), a.has(i), "occurrence of " << vars()[i]);
	auto vs = carl::variables(x);
	for (std::size_t i = 0; i < K; ++i) CHK_EQ(vs.has(vars()[i]), a.has(i), "variable " << vars()[i] << " in the set of variables");
	if (!a.zero()) {
		Q f = rp::prim_factor(a);
		CHK(abs(Q(1) / x.numericContent()) == f, "numeric content is " << x.numericContent() << ", expected " << Q(1) / f);
		P g = rp::of(carl::pseudo_primitive_part(x));
		CHK(g == rp::scale(a, f) || g == rp::scale(a, -f), "pseudo primitive part is " << g);
		bool holes = false; for (auto& w : rp::coeffs(a, mv)) if (w.zero()) holes = true;
		if (!holes) {
			P h = rp::of(x.coprimeCoefficients()), hs = rp::of(x.coprimeCoefficientsSignPreserving());
			CHK(h == rp::scale(a, f) || h == rp::scale(a, -f), "coprime coefficients are " << h); CHK(hs == rp::scale(a, f), "coprime coefficients with signs are " << hs);
		}
		CHK(x.mainDenom() == [&] { Z l(1); for (auto& m : a.t) mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), m.second.get_den_mpz_t()); return l; }(), "common denominator is " << x.mainDenom());
		CHK(carl::isOne(x.unitPart()) || carl::isOne(-x.unitPart()), "unit part " << x.unitPart()); 
		P nn = rp::of(x.normalized());
		CHK(nn == a || nn == -a, "normalised polynomial is " << nn); CHK(x.normalized().isNormal(), "normalised polynomial is not normal");
	}
}

LAW(finite_field, 10000, 300000) {
	static const int primes[] = {2, 3, 5, 7, 13, 101};
	static std::map<int, carl::GaloisField<Z>*> fields;
	int m = primes[c.idx(6)];
	auto*& gf = fields[m]; if (!gf) gf = new carl::GaloisField<Z>(unsigned(m));
	using G = carl::GFNumber<Z>;
	V a = gen_v(c, true, 5), b = related(c, a, true); Q k = Q(long(c.range(-8, 8)));
	c.in("modulus", m); c.in("a", str(a)); c.in("b", str(b)); c.in("number", k);
	auto red = [&](V v) { for (auto& q : v) { Z r; mpz_fdiv_r_ui(r.get_mpz_t(), q.get_num_mpz_t(), unsigned(m)); q = Q(r); } return trim(v); };
	auto mkf = [&](const V& v) { std::vector<G> cs; for (auto& q : v) cs.emplace_back(q.get_num(), gf); return UP<G>(vars()[0], cs); };
	auto check = [&](const UP<G>& p, const V& e, const char* what) {
		V r; for (auto& g : p.coefficients()) { Z z; mpz_fdiv_r_ui(z.get_mpz_t(), Z(g.representingInteger()).get_mpz_t(), unsigned(m)); r.push_back(Q(z)); }
		CHK(r.empty() || r.back() != 0, what << ": leading coefficient is zero");
		CHK(r == red(e), what << " is " << str(r) << ", expected " << str(red(e)));
	};
	UP<G> x = mkf(a), y = mkf(b); G kg(k.get_num(), gf);
	V ra = red(a), rb = red(b); c.nontrivial(ra.size() > 1 && rb.size() > 1);
	check(x, a, "constructed"); check(x + y, add(a, b), "sum"); check(x - y, add(a, b, -1), "difference"); check(x * y, mul(a, b), "product");
	check(x * kg, scaled(a, k), "product with a number");
	CHK_EQ((x == y), (ra == rb), "equality");
	check(mk<Z>(a).toFiniteDomain(gf), a, "reduced from the integers");
	auto back = x.toIntegerDomain(); check(back.toFiniteDomain(gf), a, "reduced again");
	for (auto& w : back.coefficients()) CHK(2 * abs(w) <= m, "representative " << w << " is not minimal");
	if (!carl::isZero(x)) { auto nx = x.normalized(); CHK(carl::isOne(nx.lcoeff()), "normalised polynomial has leading coefficient " << nx.lcoeff()); check(nx * x.lcoeff(), a, "normalised times leading coefficient"); check(x / x.lcoeff() * x.lcoeff(), a, "divided and multiplied"); }
}
PBT_MAIN("P04", "non-trivial means that the operands are not constant")
