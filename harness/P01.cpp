// P01: multivariate polynomials form a ring with a canonical representation.
#include "poly.h"
#include <carl/core/polynomialfunctions/Degree.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/core/polynomialfunctions/Complexity.h>
#include <carl/numbers/GFNumber.h>
#include <unordered_set>
using namespace gen;
using rp::P; using rp::Exp; using rp::CP; using rp::CZ; using rp::Shape; using rp::K;
using carl::Monomial; using carl::Term; using carl::Variable;

// Documented order of monomials: total degree first, then more of a smaller variable is smaller.
static int cmp(const Exp& a, const Exp& b) {
	unsigned da = 0, db = 0;
	for (std::size_t i = 0; i < K; ++i) { da += a[i]; db += b[i]; }
	if (da != db) return da < db ? -1 : 1;
	for (std::size_t i = 0; i < K; ++i) if (a[i] != b[i]) return a[i] > b[i] ? -1 : 1;
	return 0;
}
static std::vector<std::pair<Exp, Q>> descending(const P& p) {
	std::vector<std::pair<Exp, Q>> r(p.t.begin(), p.t.end());
	std::sort(r.begin(), r.end(), [](auto& a, auto& b) { return cmp(a.first, b.first) > 0; });
	return r;
}
static int cmp(const P& a, const P& b) {
	if (a.constant() && b.constant()) return cmp(a.at(Exp{}), b.at(Exp{}));
	auto x = descending(a), y = descending(b);
	for (std::size_t i = 0; i < x.size() && i < y.size(); ++i) {
		int k = cmp(x[i].first, y[i].first);
		if (k) return k;
		if (x[i].second != y[i].second) return x[i].second < y[i].second ? -1 : 1;
	}
	return x.size() == y.size() ? 0 : x.size() < y.size() ? -1 : 1;
}
static Exp lead(const P& p) { return descending(p).front().first; }

// Everything that a polynomial reports about itself agrees with the terms it should have.
template<typename C> static void same(const carl::MultivariatePolynomial<C>& p, const P& r, const char* what) {
	P q = rp::of(p);
	CHK(q == r, what << " is " << q << ", expected " << r);
	CHK_EQ(p.nrTerms(), r.t.size(), what << " number of terms");
	CHK_EQ(carl::isZero(p), r.zero(), what << " is zero");
	CHK_EQ(p.isConstant(), r.constant(), what << " is constant");
	CHK(Q(p.constantPart()) == r.at(Exp{}), what << " has constant part " << p.constantPart());
	if (!r.zero()) {
		auto l = descending(r).front();
		CHK(rp::exp_of(p.lmon()) == l.first && Q(p.lcoeff()) == l.second, what << " has leading term " << p.lterm());
		CHK_EQ(p.totalDegree(), std::size_t(r.total()), what << " total degree");
	}
}
template<typename C> static void equal_and_hash(const carl::MultivariatePolynomial<C>& p, const P& r, const char* what) {
	auto q = rp::to_carl<C>(r);
	CHK(p == q && q == p && !(p != q), what << " differs from the polynomial built from its terms");
	CHK(!(p < q) && !(q < p) && p <= q && p >= q, what << " compares unequal to itself");
	std::hash<carl::MultivariatePolynomial<C>> h;
	CHK_EQ(h(p), h(q), what << " hash");
}
static Shape shape(pbt::Ctx& c, bool integral = false) {
	Shape s; s.integral = integral; s.big = true;
	s.nvars = 1 + c.draw(K); s.maxexp = 1 + unsigned(c.draw(4)); s.maxterms = 1 + unsigned(c.draw(8));
	return s;
}
// A second polynomial that shares monomials with the first, so that terms cancel.
static P related(pbt::Ctx& c, const P& a, const Shape& s) {
	P b = rp::poly(c, s);
	switch (c.weighted({2, 2, 1, 1})) {
		case 0: return b;
		case 1: { P r; for (auto& m : a.t) if (c.chance(2, 3)) r.add(m.first, c.chance(2, 3) ? (c.coin() ? m.second : Q(-m.second)) : rp::gen_coeff(c, s)); for (auto& m : b.t) if (c.chance(1, 3)) r.add(m.first, m.second); return r; }
		case 2: return c.coin() ? a : -a;
		default: return P(rp::gen_coeff(c, s));
	}
}

template<typename C> void ring(pbt::Ctx& c) {
	Shape s = shape(c, std::is_same<C, Z>::value);
	P a = rp::poly(c, s), b = related(c, a, s);
	c.in("a", a); c.in("b", b);
	P sum = a + b, diff = a - b, prod = a * b;
	c.label_if(sum.t.size() < a.t.size() + b.t.size(), "sum has shared monomials");
	c.label_if(sum.zero() || diff.zero(), "cancels to zero");
	c.label_if(prod.t.size() < a.t.size() * b.t.size(), "product has shared monomials");
	c.nontrivial(!a.constant() && !b.constant());
	auto x = rp::to_carl<C>(a), y = rp::to_carl<C>(b);
	same(x, a, "a"); same(y, b, "b");
	auto z = x + y; same(z, sum, "a+b"); equal_and_hash(z, sum, "a+b");
	z = y + x; same(z, sum, "b+a");
	z = x - y; same(z, diff, "a-b"); equal_and_hash(z, diff, "a-b");
	z = x * y; same(z, prod, "a*b"); equal_and_hash(z, prod, "a*b");
	z = y * x; same(z, prod, "b*a");
	z = x; z += y; same(z, sum, "a+=b"); z -= y; same(z, a, "(a+b)-b"); equal_and_hash(z, a, "(a+b)-b");
	z = x; z -= y; same(z, diff, "a-=b"); z += y; same(z, a, "(a-b)+b");
	z = x; z *= y; same(z, prod, "a*=b");
	z = -x; same(z, -a, "-a"); equal_and_hash(z, -a, "-a");
	z = x; z += z; same(z, rp::scale(a, 2), "a+=a");
	z = x; z -= z; same(z, P(), "a-=a");
	if (a.t.size() <= 6) { z = x; z *= z; same(z, a * a, "a*=a"); }
	CHK_EQ(x == y, a == b, "equality");
	if (x == y) CHK_EQ(std::hash<carl::MultivariatePolynomial<C>>()(x), std::hash<carl::MultivariatePolynomial<C>>()(y), "hash of equal polynomials");
	same(x, a, "a (after being an operand)"); same(y, b, "b (after being an operand)");
	auto mv = std::move(x); same(mv, a, "moved a");
	// assignments
	carl::MultivariatePolynomial<C> w(y); w = mv; same(w, a, "assigned"); w = std::move(y); same(w, b, "move-assigned");
}
LAW(ring_rational, 40000, 600000) { ring<Q>(c); }
LAW(ring_integer, 20000, 300000) { ring<Z>(c); }

LAW(powers, 8000, 100000) {
	Shape s; s.nvars = 1 + c.draw(4); s.maxterms = 1 + unsigned(c.draw(4)); s.maxexp = 2;
	P a = rp::poly(c, s); unsigned n = unsigned(c.draw(6));
	c.in("a", a); c.in("n", n); c.nontrivial(!a.constant() && n > 1);
	CP x = rp::to_carl(a);
	P r = rp::pow(a, n);
	if (n > 0 || !a.zero()) { same(carl::pow(x, n), r, "pow"); same(carl::pow_naive(x, n), r, "naive pow"); }
	if (!a.zero()) {
		P m; m.t[lead(a)] = a.at(lead(a));
		Term<Q> t = x.lterm();
		Term<Q> q = carl::pow(t, n);
		P e = rp::pow(m, n);
		CHK(rp::exp_of(q.monomial()) == e.t.begin()->first && q.coeff() == e.t.begin()->second, "power of term " << t << " is " << q);
	}
}

// Operators that mix polynomials, terms, monomials, variables and numbers.
template<typename C> void mixed(pbt::Ctx& c) {
	Shape s = shape(c, std::is_same<C, Z>::value);
	P a = rp::poly(c, s);
	Exp e = !a.zero() && c.chance(1, 2) ? std::next(a.t.begin(), long(c.idx(a.t.size())))->first : rp::gen_exp(c, s);
	Q k = a.t.count(e) && c.chance(1, 2) ? (c.coin() ? a.at(e) : Q(-a.at(e))) : rp::gen_coeff(c, s);
	std::size_t vi = c.idx(s.nvars);
	if (c.chance(1, 3)) { a.add(e, Q(c.coin() ? 1 : -1) - a.at(e)); }      // so that adding the bare monomial cancels
	if (c.chance(1, 4)) { Exp ve{}; ve[vi] = 1; a.add(ve, Q(c.coin() ? 1 : -1) - a.at(ve)); }
	c.in("a", a); P tm; tm.add(e, 1); c.in("monomial", tm); c.in("k", k); c.in("v", vi);
	c.label_if(a.t.count(e), "monomial occurs"); c.label_if(e == Exp{}, "monomial is 1"); c.label_if(k == 0, "zero factor");
	c.label_if(!a.zero() && lead(a) == e, "leading monomial");
	c.nontrivial(!a.zero());
	C kc = rp::coeff<C>(k);
	auto x = rp::to_carl<C>(a);
	Monomial::Arg m = rp::monomial(e);
	Term<C> t(kc, m);
	Variable v = rp::vars()[vi];
	P pt = rp::scale(tm, k), pv = rp::mono(vi), pk = P(k);
	using MP = carl::MultivariatePolynomial<C>;
	auto ops = [&](const auto& o, const P& r, const char* n) {
		std::string w = n;
		MP z;
		z = x + o; same(z, a + r, (w + ": a+o").c_str()); equal_and_hash(z, a + r, (w + ": a+o").c_str());
		z = o + x; same(z, a + r, (w + ": o+a").c_str());
		z = x - o; same(z, a - r, (w + ": a-o").c_str()); equal_and_hash(z, a - r, (w + ": a-o").c_str());
		z = o - x; same(z, r - a, (w + ": o-a").c_str());
		z = x * o; same(z, a * r, (w + ": a*o").c_str()); equal_and_hash(z, a * r, (w + ": a*o").c_str());
		z = o * x; same(z, a * r, (w + ": o*a").c_str());
		z = x; z += o; same(z, a + r, (w + ": a+=o").c_str()); z -= o; same(z, a, (w + ": a+=o, a-=o").c_str());
		z = x; z -= o; same(z, a - r, (w + ": a-=o").c_str()); z += o; same(z, a, (w + ": a-=o, a+=o").c_str());
		z = x; z *= o; same(z, a * r, (w + ": a*=o").c_str());
		// after the ordering of the terms has been established
		z = x; z.makeOrdered(); z += o; same(z, a + r, (w + ": ordered a+=o").c_str()); equal_and_hash(z, a + r, (w + ": ordered a+=o").c_str());
		z = x; z.makeOrdered(); z -= o; same(z, a - r, (w + ": ordered a-=o").c_str()); equal_and_hash(z, a - r, (w + ": ordered a-=o").c_str());
		z = x; z.makeOrdered(); z *= o; same(z, a * r, (w + ": ordered a*=o").c_str()); equal_and_hash(z, a * r, (w + ": ordered a*=o").c_str());
		CHK_EQ(x == o, a == r, w << ": a==o"); CHK_EQ(o == x, a == r, w << ": o==a");
		CHK_EQ(x != o, a != r, w << ": a!=o"); CHK_EQ(o != x, a != r, w << ": o!=a");
	};
	ops(t, pt, "term"); ops(m, tm, "monomial"); ops(v, pv, "variable"); ops(kc, pk, "number");
	if (k != 0) {
		MP z = x; z /= kc;
		if (std::is_same<C, Q>::value) { same(z, rp::scale(a, 1 / k), "a/=k"); z = x / kc; same(z, rp::scale(a, 1 / k), "a/k"); }
	}
	same(x, a, "a (afterwards)");
	// constructors
	same(MP(t), pt, "from term"); same(MP(m), tm, "from monomial"); same(MP(v), pv, "from variable"); same(MP(kc), pk, "from number");
	int i = int(c.range(-5, 5)); c.in("i", i);
	same(MP(i), P(Q(i)), "from int"); CHK_EQ(x == i, a == P(Q(i)), "comparison with int");
	// sums and differences of the smaller types
	same(t + t, rp::scale(pt, 2), "term+term"); same(t - t, P(), "term-term");
	same(t + v, pt + pv, "term+variable"); same(v + t, pt + pv, "variable+term"); same(t - v, pt - pv, "term-variable"); same(v - t, pv - pt, "variable-term");
	same(t + m, pt + tm, "term+monomial"); same(m + t, pt + tm, "monomial+term"); same(t - m, pt - tm, "term-monomial"); same(m - t, tm - pt, "monomial-term");
	same(t + kc, pt + pk, "term+number"); same(kc + t, pt + pk, "number+term"); same(t - kc, pt - pk, "term-number"); same(kc - t, pk - pt, "number-term");
	same(m + kc, tm + pk, "monomial+number"); same(kc + m, tm + pk, "number+monomial"); same(m - kc, tm - pk, "monomial-number"); same(kc - m, pk - tm, "number-monomial");
	same(v + kc, pv + pk, "variable+number"); same(kc + v, pv + pk, "number+variable"); same(v - kc, pv - pk, "variable-number"); same(kc - v, pk - pv, "number-variable");
}
LAW(mixed_rational, 30000, 400000) { mixed<Q>(c); }
LAW(mixed_integer, 15000, 200000) { mixed<Z>(c); }

LAW(constructors, 20000, 300000) {
	Shape s = shape(c);
	std::size_t n = c.draw(8);
	P r; std::vector<Term<Q>> ts;
	for (std::size_t i = 0; i < n; ++i) {
		Exp e = rp::gen_exp(c, s); Q k = rp::gen_coeff(c, s);
		if (!r.zero() && c.chance(1, 3)) { auto it = std::next(r.t.begin(), long(c.idx(r.t.size()))); e = it->first; if (c.coin()) k = -it->second; }
		if (k == 0) continue;
		r.add(e, k); ts.emplace_back(k, rp::monomial(e));
	}
	c.in("terms", ts.size()); c.in("sum", r); c.label_if(r.t.size() < ts.size(), "repeated monomials"); c.nontrivial(ts.size() > 1);
	CP p(ts); same(p, r, "from terms"); equal_and_hash(p, r, "from terms");
	CP q(std::vector<Term<Q>>(ts), true, false); same(q, r, "from terms (moved)");
	std::vector<Term<Q>> u; for (auto& m : r.t) u.emplace_back(m.second, rp::monomial(m.first));
	// any order of distinct terms
	for (std::size_t i = u.size(); i > 1; --i) std::swap(u[i - 1], u[c.idx(i)]);
	same(CP(u, false, false), r, "from distinct terms"); equal_and_hash(CP(u, false, false), r, "from distinct terms");
	std::sort(u.begin(), u.end(), [](auto& a, auto& b) { return cmp(rp::exp_of(a.monomial()), rp::exp_of(b.monomial())) < 0; });
	same(CP(u, false, true), r, "from ordered terms"); equal_and_hash(CP(u, false, true), r, "from ordered terms");
	// conversions through univariate polynomials
	std::size_t v = c.idx(s.nvars); c.in("v", v);
	CP w(rp::to_uni_mv(r, v)); same(w, r, "from univariate with polynomial coefficients"); equal_and_hash(w, r, "from univariate with polynomial coefficients");
	P g = rp::uni(c, v, 5, s); c.in("g", g);
	auto ug = rp::to_uni<Q>(rp::dense(g, v), v);
	same(CP(ug), g, "from univariate"); equal_and_hash(CP(ug), g, "from univariate");
	CHK(ug == CP(ug), "univariate and its multivariate form differ");
	CHK_EQ(ug == p, g == r, "comparison of univariate and multivariate"); CHK_EQ(p != ug, g != r, "comparison of univariate and multivariate");
	// variadic construction
	std::vector<CP> os; std::vector<P> rs; std::size_t k = 1 + c.draw(4);
	Shape t; t.maxterms = 3; t.maxexp = 2;
	for (std::size_t i = 0; i < k; ++i) { rs.push_back(rp::poly(c, t)); os.push_back(rp::to_carl(rs.back())); c.in("operand", rs.back()); }
	P sum = rs[0], dif = rs[0], pro = rs[0];
	for (std::size_t i = 1; i < k; ++i) { sum = sum + rs[i]; dif = dif - rs[i]; pro = pro * rs[i]; }
	if (k == 1) dif = -rs[0];
	using Op = CP::ConstructorOperation;
	same(CP(Op::ADD, os), sum, "sum"); same(CP(Op::SUB, os), dif, "difference"); same(CP(Op::MUL, os), pro, "product");
	same(CP(std::make_pair(Op::MUL, os)), pro, "product");
	Q d = gen::small_rational(c, 6, 4);
	if (d != 0) same(CP(Op::DIV, std::vector<CP>{os[0], CP(d)}), rp::scale(rs[0], 1 / d), "quotient");
}

LAW(observers, 30000, 400000) {
	Shape s = shape(c);
	P a = rp::poly(c, s); std::size_t v = c.idx(K);
	if (c.chance(1, 6)) a = rp::uni(c, c.idx(s.nvars), 4, s);
	if (c.chance(1, 8)) { P b; for (auto& m : a.t) { Exp e = m.first; for (auto& k : e) k *= 2; b.add(e, c.chance(4, 5) ? gen::qabs(m.second) : m.second); } a = b; }
	c.in("a", a); c.in("v", v); c.nontrivial(a.t.size() > 1);
	CP x = rp::to_carl(a); Variable var = rp::vars()[v];
	if (c.coin()) x.makeOrdered();
	same(x, a, "a");
	CHK_EQ(x.size(), a.t.size(), "size");
	CHK_EQ(x.degree(var), std::size_t(a.degree(v)), "degree");
	CHK_EQ(x.has(var), a.has(v), "has");
	auto cs = rp::coeffs(a, v);
	for (std::size_t i = 0; i <= cs.size(); ++i) same(x.coeff(var, i), i < cs.size() ? cs[i] : P(), "coefficient");
	same(x.lcoeff(var), cs.back(), "leading coefficient");
	CHK_EQ(x.isNumber(), a.constant(), "isNumber");
	bool isvar = a.t.size() == 1 && a.total() == 1 && a.t.begin()->second == 1;
	CHK_EQ(x.isVariable(), isvar, "isVariable");
	CHK_EQ(carl::isOne(x), a == P(Q(1)), "isOne"); CHK_EQ(carl::is_one(x), a == P(Q(1)), "is_one"); CHK_EQ(carl::is_zero(x), a.zero(), "is_zero"); CHK_EQ(carl::is_constant(x), a.constant(), "is_constant");
	CHK_EQ(x.isLinear(), a.total() <= 1, "isLinear");
	CHK_EQ(carl::total_degree(x), std::size_t(a.total()), "total_degree");
	CHK_EQ(x.hasConstantTerm(), a.at(Exp{}) != 0, "hasConstantTerm");
	CHK_EQ(x.isUnivariate(), a.nvars() <= 1, "isUnivariate");
	bool tsos = true, intc = true;
	for (auto& m : a.t) { bool sq = m.second >= 0; for (auto k : m.first) sq = sq && k % 2 == 0; tsos = tsos && sq; intc = intc && m.second.get_den() == 1; }
	CHK_EQ(x.isTsos(), tsos, "isTsos");
	CHK_EQ(x.integerValued(), a.constant() && intc, "integerValued over real variables");
	std::set<Variable> vs; for (std::size_t i = 0; i < K; ++i) if (a.has(i)) vs.insert(rp::vars()[i]);
	CHK(carl::variables(x).as_set() == vs, "variables");
	if (!a.zero()) {
		P l; l.t[lead(a)] = a.at(lead(a));
		CP t = x.tail(c.coin()); same(t, a - l, "tail"); equal_and_hash(t, a - l, "tail");
		CP u = x; u.stripLT(); same(u, a - l, "stripLT"); equal_and_hash(u, a - l, "stripLT");
		same(x.normalize(), rp::scale(a, 1 / a.at(lead(a))), "normalize");
		Q f = rp::prim_factor(a); bool neg = a.at(lead(a)) < 0;
		CHK(x.coprimeFactor() == (neg ? Q(-f) : f), "coprime factor is " << x.coprimeFactor());
		same(x.coprimeCoefficients(), rp::scale(a, neg ? Q(-f) : f), "coprime coefficients");
		same(x.coprimeCoefficientsSignPreserving(), rp::scale(a, f), "coprime coefficients, sign preserving");
		CHK(gen::qabs(x.numericContent()) == 1 / f, "numeric content is " << x.numericContent());
		if (!a.constant()) {
			P b = a; b.t.erase(Exp{}); Q g = rp::prim_factor(b);
			CHK(x.coprimeFactorWithoutConstant() == (neg ? Q(-g) : g), "coprime factor without constant is " << x.coprimeFactorWithoutConstant());
		}
		CHK_EQ(rp::exp_of(x.trailingTerm().monomial()) == Exp{}, a.t.count(Exp{}) > 0, "trailing term");
		if (a.t.size() == 1) CHK_EQ(x.hasSingleVariable(), a.total() == 1, "hasSingleVariable");
	}
	Z den = 1; for (auto& m : a.t) mpz_lcm(den.get_mpz_t(), den.get_mpz_t(), m.second.get_den_mpz_t());
	CHK(x.mainDenom() == den, "main denominator is " << x.mainDenom());
	// occurrences of variables
	auto all = x.getVarInfo<true>();
	for (std::size_t i = 0; i < K; ++i) {
		Variable w = rp::vars()[i];
		unsigned occ = 0, mn = ~0u; for (auto& m : a.t) if (m.first[i]) { ++occ; mn = std::min(mn, m.first[i]); }
		CHK_EQ(all.occurs(w), occ > 0, "occurs");
		if (occ) {
			auto* inf = all.getVarInfo(w);
			CHK(inf, "no information on an occurring variable");
			CHK_EQ(inf->maxDegree(), std::size_t(a.degree(i)), "maximal degree"); CHK_EQ(inf->minDegree(), std::size_t(mn), "minimal degree"); CHK_EQ(inf->occurence(), std::size_t(occ), "occurrences");
			auto k = rp::coeffs(a, i);
			for (auto& e : inf->coeffs()) if (e.first > 0) same(e.second, e.first < k.size() ? k[e.first] : P(), "collected coefficient");
			for (std::size_t j = 1; j < k.size(); ++j) if (!k[j].zero()) CHK(inf->coeffs().count(j), "coefficient is missing");
		}
		auto one = x.getVarInfo<true>(w);
		CHK_EQ(one.maxDegree(), std::size_t(a.degree(i)), "maximal degree"); CHK_EQ(one.occurence(), std::size_t(occ), "occurrences");
		auto k = rp::coeffs(a, i);
		for (auto& e : one.coeffs()) same(e.second, e.first < k.size() ? k[e.first] : P(), "collected coefficient");
		for (std::size_t j = 0; j < k.size(); ++j) if (!k[j].zero()) CHK(one.coeffs().count(j), "coefficient is missing");
		auto deg = x.getVarInfo<false>(w);
		CHK_EQ(deg.maxDegree(), std::size_t(a.degree(i)), "maximal degree"); CHK_EQ(deg.occurence(), std::size_t(occ), "occurrences");
	}
	// square roots of terms
	CP root;
	if (x.sqrt(root)) { P r = rp::of(root); CHK(r * r == a, "square root " << r); }
	else if (a.t.size() == 1) {
		auto& m = *a.t.begin(); bool sq = m.second > 0 && mpz_perfect_square_p(m.second.get_num_mpz_t()) && mpz_perfect_square_p(m.second.get_den_mpz_t());
		for (auto k : m.first) sq = sq && k % 2 == 0;
		CHK(!sq, "no square root found");
	}
}

LAW(comparison, 40000, 600000) {
	Shape s = shape(c); s.big = c.chance(1, 5);
	P a = rp::poly(c, s), b = related(c, a, s), d = c.coin() ? related(c, b, s) : related(c, a, s);
	if (c.chance(1, 6)) { a = P(rp::gen_coeff(c, s)); }
	c.in("a", a); c.in("b", b); c.in("d", d);
	CP x = rp::to_carl(a), y = rp::to_carl(b), z = rp::to_carl(d);
	if (c.coin()) x.makeOrdered();
	if (c.coin()) y.makeOrdered();
	int k = cmp(a, b);
	c.label(k == 0 ? "equal" : !a.zero() && !b.zero() && lead(a) == lead(b) ? "same leading monomial" : "different leading monomial"); c.nontrivial(!a.constant() && !b.constant());
	CHK_EQ(x == y, k == 0, "a==b"); CHK_EQ(x != y, k != 0, "a!=b"); CHK_EQ(x < y, k < 0, "a<b"); CHK_EQ(x > y, k > 0, "a>b"); CHK_EQ(x <= y, k <= 0, "a<=b"); CHK_EQ(x >= y, k >= 0, "a>=b");
	std::set<CP> st{x, y, z}; std::set<P> rst{a, b, d}; CHK_EQ(st.size(), rst.size(), "size of an ordered set");
	std::unordered_set<CP> us{x, y, z}; CHK_EQ(us.size(), rst.size(), "size of a hash set");
	CHK(st.count(rp::to_carl(b)) && us.count(rp::to_carl(b)), "b is not found again");
	if (!a.zero() && !b.zero()) CHK_EQ(CP::compareByLeadingTerm(x, y), cmp(lead(a), lead(b)) < 0, "compare by leading term");
	CHK_EQ(CP::compareByNrTerms(x, y), a.t.size() < b.t.size(), "compare by number of terms");
	// comparison with the smaller types is the comparison of the polynomials they stand for
	Exp e = !b.zero() && c.coin() ? lead(b) : rp::gen_exp(c, s); Q q = b.t.count(e) && c.coin() ? b.at(e) : rp::gen_coeff(c, s); std::size_t vi = c.idx(s.nvars);
	if (q == 0) e = Exp{};
	P tm; tm.add(e, 1); P pt = rp::scale(tm, q); c.in("monomial", tm); c.in("q", q); c.in("v", vi);
	auto with = [&](const auto& o, const P& r, const char* n) {
		int i = cmp(b, r);
		CHK_EQ(y == o, i == 0, "b==" << n); CHK_EQ(o == y, i == 0, n << "==b");
		CHK_EQ(y < o, i < 0, "b<" << n); CHK_EQ(o < y, i > 0, n << "<b");
		CHK_EQ(y > o, i > 0, "b>" << n); CHK_EQ(o > y, i < 0, n << ">b");
		CHK_EQ(y <= o, i <= 0, "b<=" << n); CHK_EQ(o <= y, i >= 0, n << "<=b");
		CHK_EQ(y >= o, i >= 0, "b>=" << n); CHK_EQ(o >= y, i <= 0, n << ">=b");
	};
	with(Term<Q>(q, rp::monomial(e)), pt, "term");
	if (e != Exp{}) with(rp::monomial(e), tm, "monomial");
	with(rp::vars()[vi], rp::mono(vi), "variable");
	with(q, P(q), "number");
}

// A short program over a few polynomial registers: shared state (monomial pool, addition manager, term order
// established lazily) must never leak from one operation into another.
LAW_B(programs, 6000, 100000, 50) {
	constexpr std::size_t R = 4;
	Shape s; s.nvars = 1 + c.draw(4); s.maxexp = 2; s.maxterms = 4;
	std::vector<CP> x; std::vector<P> r;
	for (std::size_t i = 0; i < R; ++i) { r.push_back(rp::poly(c, s)); x.push_back(rp::to_carl(r.back())); c.in("r", r.back()); }
	std::size_t n = 4 + c.draw(16);
	std::ostringstream prog;
	for (std::size_t step = 0; step < n; ++step) {
		std::size_t i = c.idx(R), j = c.idx(R), v = c.idx(s.nvars);
		Q k = gen::small_rational(c, 3, 2); Exp e = rp::gen_exp(c, s);
		if (!r[i].zero() && c.coin()) e = std::next(r[i].t.begin(), long(c.idx(r[i].t.size())))->first;
		P pe; pe.add(e, 1);
		std::size_t op = c.draw(16);
		prog << op << ":" << i << "," << j << "; ";
		switch (op) {
			case 0: x[i] += x[j]; r[i] = r[i] + r[j]; break;
			case 1: x[i] -= x[j]; r[i] = r[i] - r[j]; break;
			case 2: if (r[i].t.size() * r[j].t.size() > 60 || r[i].total() + r[j].total() > 12) break; x[i] *= x[j]; r[i] = r[i] * r[j]; break;
			case 3: x[i] = x[j]; r[i] = r[j]; break;
			case 4: x[i] += Term<Q>(k, rp::monomial(e)); r[i] = r[i] + rp::scale(pe, k); break;
			case 5: x[i] -= Term<Q>(k, rp::monomial(e)); r[i] = r[i] - rp::scale(pe, k); break;
			case 6: x[i] += rp::monomial(e); r[i] = r[i] + pe; break;
			case 7: x[i] -= rp::monomial(e); r[i] = r[i] - pe; break;
			case 8: x[i] += rp::vars()[v]; r[i] = r[i] + rp::mono(v); break;
			case 9: x[i] -= rp::vars()[v]; r[i] = r[i] - rp::mono(v); break;
			case 10: x[i] += k; r[i] = r[i] + P(k); break;
			case 11: x[i] *= k; r[i] = rp::scale(r[i], k); break;
			case 12: if (!r[i].zero()) { x[i].stripLT(); P l; l.t[lead(r[i])] = r[i].at(lead(r[i])); r[i] = r[i] - l; } break;
			case 13: x[i].makeOrdered(); break;
			case 14: x[i].subtractProduct(Term<Q>(k, rp::monomial(e)), x[j]); r[i] = r[i] - rp::scale(pe, k) * r[j]; break;
			default: x[i].addTerm(Term<Q>(k == 0 ? Q(1) : k, rp::monomial(e))); r[i] = r[i] + rp::scale(pe, k == 0 ? Q(1) : k); break;
		}
		same(x[i], r[i], "register");
	}
	c.in("program", prog.str()); c.label_if(n > 10, "long"); c.nontrivial(true);
	for (std::size_t i = 0; i < R; ++i) { equal_and_hash(x[i], r[i], "register at the end"); for (std::size_t j = 0; j < i; ++j) CHK_EQ(x[i] == x[j], r[i] == r[j], "equality of registers"); }
}

// Residue coefficients: the polynomial ring over a finite field, where products of nonzero coefficients stay
// nonzero but sums wrap around.
LAW(finite_field, 15000, 200000) {
	using G = carl::GFNumber<Z>;
	static const std::vector<unsigned> primes{2, 3, 5, 7};
	Z p(primes[c.idx(primes.size())]);
	const carl::GaloisField<Z>* gf = carl::GaloisFieldManager<Z>::getInstance().getField(static_cast<unsigned>(p.get_ui()), 1);
	Shape s; s.integral = true; s.nvars = 1 + c.draw(3); s.maxexp = 2; s.maxterms = 5;
	P a = rp::poly(c, s), b = related(c, a, s);
	auto red = [&](const P& q) { P r; for (auto& m : q.t) { Z k = m.second.get_num() % p; if (k < 0) k += p; r.add(m.first, Q(k)); } return r; };
	a = red(a); b = red(b);
	c.in("p", p); c.in("a", a); c.in("b", b); c.nontrivial(!a.constant() && !b.constant());
	using MP = carl::MultivariatePolynomial<G>;
	auto to = [&](const P& q) { std::vector<Term<G>> ts; for (auto& m : q.t) ts.emplace_back(G(Z(m.second.get_num()), gf), rp::monomial(m.first)); return MP(std::move(ts), false, false); };
	auto check = [&](const MP& x, const P& q, const char* what) {
		P r; for (std::size_t i = 0; i < x.nrTerms(); ++i) { Exp e = rp::exp_of(x[i].monomial()); CHK(!r.t.count(e), what << ": monomial occurs twice"); Z k = x[i].coeff().representingInteger() % p; if (k < 0) k += p; CHK(k != 0, what << ": zero coefficient"); r.t[e] = Q(k); }
		P w = red(q); CHK(r == w, what << " is " << r << ", expected " << w << " mod " << p);
	};
	MP x = to(a), y = to(b);
	check(x + y, a + b, "a+b"); check(x - y, a - b, "a-b"); check(x * y, a * b, "a*b"); check(-x, -a, "-a");
	MP z = x; z += y; check(z, a + b, "a+=b"); z -= y; check(z, a, "a+b-b"); z = x; z *= y; check(z, a * b, "a*=b");
	CHK_EQ(x == y, a == b, "equality");
}

PBT_MAIN("P01", "a case is one choice of polynomials and other operands; it counts as nontrivial if the polynomials involved are not constants (constructors: several terms; comparison and observers: more than one term), and distinct by the rendered operands")
