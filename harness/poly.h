// Reference polynomials over the rationals: maps from exponent vectors to coefficients, with schoolbook
// arithmetic, and their translation from and to carl's polynomials.
#pragma once
#include "gen.h"
#include <array>
#include <carl/core/VariablePool.h>
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/UnivariatePolynomial.h>

namespace rp {
using gen::Q;
using gen::Z;
constexpr std::size_t K = 5; // number of variables
using Exp = std::array<unsigned, K>;
using CP = carl::MultivariatePolynomial<Q>;
using CZ = carl::MultivariatePolynomial<Z>;

inline const std::vector<carl::Variable>& vars() {
	static const std::vector<carl::Variable> v = [] {
		std::vector<carl::Variable> r;
		for (const char* n : {"x", "y", "z", "u", "v"}) r.push_back(carl::freshRealVariable(n));
		return r;
	}();
	return v;
}
inline int index(carl::Variable v) {
	for (std::size_t i = 0; i < K; ++i) if (vars()[i] == v) return int(i);
	return -1;
}

struct P {
	std::map<Exp, Q> t; // no zero coefficients
	P() = default;
	explicit P(const Q& q) { if (q != 0) t[Exp{}] = q; }
	void add(const Exp& e, const Q& q) {
		if (q == 0) return;
		Q& r = t[e];
		r += q;
		if (r == 0) t.erase(e);
	}
	bool zero() const { return t.empty(); }
	bool constant() const { return t.empty() || (t.size() == 1 && t.begin()->first == Exp{}); }
	Q at(const Exp& e) const { auto i = t.find(e); return i == t.end() ? Q(0) : i->second; }
	unsigned degree(std::size_t v) const { unsigned d = 0; for (auto& m : t) d = std::max(d, m.first[v]); return d; }
	unsigned total() const { unsigned d = 0; for (auto& m : t) { unsigned s = 0; for (unsigned e : m.first) s += e; d = std::max(d, s); } return d; }
	bool has(std::size_t v) const { return degree(v) > 0; }
	std::size_t nvars() const { std::size_t n = 0; for (std::size_t i = 0; i < K; ++i) n += has(i); return n; }
};
inline bool operator==(const P& a, const P& b) { return a.t == b.t; }
inline bool operator!=(const P& a, const P& b) { return !(a == b); }
inline bool operator<(const P& a, const P& b) { return a.t < b.t; }
inline std::ostream& operator<<(std::ostream& os, const P& p) {
	static const char* names[] = {"x", "y", "z", "u", "v"};
	if (p.zero()) return os << "0";
	bool first = true;
	for (auto it = p.t.rbegin(); it != p.t.rend(); ++it) {
		if (!first) os << " + ";
		first = false;
		bool one = it->second == 1 && it->first != Exp{};
		if (!one) os << (sgn(it->second) < 0 || it->second.get_den() != 1 ? "(" : "") << it->second << (sgn(it->second) < 0 || it->second.get_den() != 1 ? ")" : "");
		bool star = !one;
		for (std::size_t i = 0; i < K; ++i) if (it->first[i]) { if (star) os << "*"; star = true; os << names[i]; if (it->first[i] > 1) os << "^" << it->first[i]; }
	}
	return os;
}
inline P mono(std::size_t v, unsigned e = 1) { P r; Exp x{}; x[v] = e; r.t[x] = 1; return r; }
inline P operator+(const P& a, const P& b) { P r = a; for (auto& m : b.t) r.add(m.first, m.second); return r; }
inline P operator-(const P& a) { P r = a; for (auto& m : r.t) m.second = -m.second; return r; }
inline P operator-(const P& a, const P& b) { return a + (-b); }
inline P scale(const P& a, const Q& q) { P r; if (q != 0) for (auto& m : a.t) r.t[m.first] = m.second * q; return r; }
inline P operator*(const P& a, const P& b) {
	P r;
	for (auto& m : a.t) for (auto& n : b.t) { Exp e; for (std::size_t i = 0; i < K; ++i) e[i] = m.first[i] + n.first[i]; r.add(e, m.second * n.second); }
	return r;
}
inline P pow(const P& a, unsigned n) { P r(Q(1)); for (unsigned i = 0; i < n; ++i) r = r * a; return r; }
inline Q eval(const P& a, const std::array<Q, K>& v) {
	Q r(0);
	for (auto& m : a.t) { Q x = m.second; for (std::size_t i = 0; i < K; ++i) if (m.first[i]) x *= gen::q_pow(v[i], m.first[i]); r += x; }
	return r;
}
inline P subst(const P& a, std::size_t v, const P& b) {
	P r;
	std::vector<P> pw{P(Q(1))};
	for (auto& m : a.t) {
		while (pw.size() <= m.first[v]) pw.push_back(pw.back() * b);
		P s; Exp e = m.first; e[v] = 0; s.t[e] = m.second;
		r = r + s * pw[m.first[v]];
	}
	return r;
}
inline P diff(const P& a, std::size_t v) {
	P r;
	for (auto& m : a.t) if (m.first[v]) { Exp e = m.first; --e[v]; r.add(e, m.second * m.first[v]); }
	return r;
}
// Coefficients with respect to v, index = exponent (at least one entry).
inline std::vector<P> coeffs(const P& a, std::size_t v) {
	std::vector<P> r(a.degree(v) + 1);
	for (auto& m : a.t) { Exp e = m.first; e[v] = 0; r[m.first[v]].t[e] = m.second; }
	return r;
}
inline P collect(const std::vector<P>& cs, std::size_t v) { P r; for (std::size_t i = 0; i < cs.size(); ++i) r = r + cs[i] * mono(v, unsigned(i)); return r; }
inline P lcoeff(const P& a, std::size_t v) { return coeffs(a, v).back(); }
// Exact division by leading terms in the lexicographic order; false when b does not divide a.
inline bool divide(P a, const P& b, P& q) {
	q = P();
	if (b.zero()) return false;
	auto lb = *b.t.rbegin();
	while (!a.zero()) {
		auto la = *a.t.rbegin();
		Exp e;
		for (std::size_t i = 0; i < K; ++i) { if (la.first[i] < lb.first[i]) return false; e[i] = la.first[i] - lb.first[i]; }
		P m; m.t[e] = la.second / lb.second;
		q = q + m;
		a = a - m * b;
	}
	return true;
}
// Multiply by a rational so that all coefficients are coprime integers and the first is positive.
inline Q prim_factor(const P& a) {
	Z g = 0, l = 1;
	for (auto& m : a.t) { mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), m.second.get_num_mpz_t()); mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), m.second.get_den_mpz_t()); }
	return g == 0 ? Q(1) : gen::frac(l, g);
}
inline P primitive(const P& a) {
	if (a.zero()) return a;
	P r = scale(a, prim_factor(a));
	return sgn(r.t.rbegin()->second) < 0 ? -r : r;
}
// Pseudo remainder by repeated elimination of the leading coefficient with respect to v.
inline P prem(P a, const P& b, std::size_t v) {
	unsigned n = b.degree(v); P lb = lcoeff(b, v);
	while (!a.zero() && a.degree(v) >= n) { unsigned d = a.degree(v); a = a * lb - b * lcoeff(a, v) * mono(v, d - n); }
	return a;
}
P gcd(P a, P b);
inline P content(const P& a, std::size_t v) { P g; for (auto& k : coeffs(a, v)) g = gcd(g, k); return g; }
// Greatest common divisor over the rationals, primitive with positive leading coefficient.
inline P gcd(P a, P b) {
	a = primitive(a); b = primitive(b);
	if (a.zero()) return b;
	if (b.zero()) return a;
	if (a.constant() || b.constant()) return P(Q(1));
	std::size_t v = K;
	while (v-- > 0) if (a.has(v) || b.has(v)) break;
	P ca = content(a, v), cb = content(b, v), g = gcd(ca, cb), q;
	divide(a, ca, q); a = q; divide(b, cb, q); b = q;
	if (a.degree(v) < b.degree(v)) std::swap(a, b);
	while (!b.zero()) {
		if (!b.has(v)) { a = P(Q(1)); break; }
		P r = primitive(prem(a, b, v));
		if (!r.zero()) { P cr = content(r, v); divide(r, cr, q); r = q; }
		a = b; b = r;
	}
	return primitive(g * a);
}
inline bool associated(const P& a, const P& b) { return primitive(a) == primitive(b); }

// ---- carl
inline carl::Monomial::Arg monomial(const Exp& e) {
	std::vector<std::pair<carl::Variable, carl::exponent>> v;
	for (std::size_t i = 0; i < K; ++i) if (e[i]) v.emplace_back(vars()[i], e[i]);
	if (v.empty()) return nullptr;
	return carl::createMonomial(std::move(v));
}
template<typename C> C coeff(const Q& q);
template<> inline Q coeff<Q>(const Q& q) { return q; }
template<> inline Z coeff<Z>(const Q& q) { return q.get_num(); }
template<typename C = Q> carl::MultivariatePolynomial<C> to_carl(const P& p) {
	std::vector<carl::Term<C>> ts;
	for (auto& m : p.t) ts.emplace_back(coeff<C>(m.second), monomial(m.first));
	return carl::MultivariatePolynomial<C>(std::move(ts), false, false);
}
inline Exp exp_of(const carl::Monomial::Arg& m) {
	Exp e{};
	if (m) for (std::size_t i = 0; i < m->nrVariables(); ++i) {
		int k = index((*m)[i].first);
		CHK(k >= 0, "unexpected variable");
		CHK(e[std::size_t(k)] == 0, "a variable occurs twice in a monomial");
		CHK((*m)[i].second > 0, "a variable has exponent zero");
		e[std::size_t(k)] = unsigned((*m)[i].second);
	}
	return e;
}
// Reads a carl polynomial and insists on the canonical form: no zero coefficient, no monomial twice.
template<typename C, typename O, typename Po> P of(const carl::MultivariatePolynomial<C, O, Po>& p) {
	P r;
	for (std::size_t i = 0; i < p.nrTerms(); ++i) {
		Exp e = exp_of(p[i].monomial());
		CHK(!r.t.count(e), "a monomial occurs twice");
		Q q(p[i].coeff());
		CHK(q != 0, "a term has coefficient zero");
		r.t[e] = q;
	}
	return r;
}
template<typename C> carl::UnivariatePolynomial<C> to_uni(const std::vector<Q>& a, std::size_t v = 0) {
	std::vector<C> cs;
	for (auto& q : a) cs.push_back(coeff<C>(q));
	return carl::UnivariatePolynomial<C>(vars()[v], cs);
}
inline carl::UnivariatePolynomial<CP> to_uni_mv(const P& p, std::size_t v) {
	std::vector<CP> cs;
	for (auto& k : coeffs(p, v)) cs.push_back(to_carl(k));
	return carl::UnivariatePolynomial<CP>(vars()[v], cs);
}
inline P of(const carl::UnivariatePolynomial<CP>& p) {
	P r;
	int v = index(p.mainVar());
	CHK(v >= 0, "unexpected main variable");
	auto& cs = p.coefficients();
	CHK(cs.empty() || !carl::isZero(cs.back()), "leading coefficient is zero");
	for (std::size_t i = 0; i < cs.size(); ++i) { P k = of(cs[i]); CHK(!k.has(std::size_t(v)), "main variable in a coefficient"); r = r + k * mono(std::size_t(v), unsigned(i)); }
	return r;
}
template<typename C> P of_num(const carl::UnivariatePolynomial<C>& p) {
	P r;
	int v = index(p.mainVar());
	CHK(v >= 0, "unexpected main variable");
	auto& cs = p.coefficients();
	CHK(cs.empty() || cs.back() != 0, "leading coefficient is zero");
	for (std::size_t i = 0; i < cs.size(); ++i) { Exp e{}; e[std::size_t(v)] = unsigned(i); r.add(e, Q(cs[i])); }
	return r;
}

// ---- generators
struct Shape {
	std::size_t nvars = 3;   // variables are taken from the first nvars
	unsigned maxexp = 3;     // per variable
	unsigned maxterms = 5;
	bool integral = false;
	bool big = false;        // now and then coefficients of many digits
};
inline Q gen_coeff(pbt::Ctx& c, const Shape& s) {
	if (s.big && c.chance(1, 12)) return s.integral ? Q(gen::integer(c)) : gen::rational(c);
	if (s.integral) return Q(long(c.range(-6, 6)));
	return gen::small_rational(c, 6, 4);
}
inline Exp gen_exp(pbt::Ctx& c, const Shape& s) {
	Exp e{};
	for (std::size_t i = 0; i < s.nvars; ++i) if (c.chance(3, 5)) e[i] = unsigned(c.draw(s.maxexp + 1));
	return e;
}
inline P poly(pbt::Ctx& c, const Shape& s = Shape()) {
	P r;
	unsigned n = c.chance(11, 12) ? 1 + unsigned(c.draw(s.maxterms)) : 0;
	for (unsigned i = 0; i < n; ++i) { Exp e = gen_exp(c, s); r.add(e, gen_coeff(c, s)); }
	return r;
}
inline P nonzero(pbt::Ctx& c, const Shape& s = Shape()) { P r = poly(c, s); if (r.zero()) r = P(Q(1)); return r; }
inline P nonconstant(pbt::Ctx& c, const Shape& s = Shape()) { P r = poly(c, s); if (r.constant()) r = r + mono(c.idx(s.nvars)); return r; }
inline std::array<Q, K> point(pbt::Ctx& c, long n = 5, long d = 3) { std::array<Q, K> a; for (auto& q : a) q = gen::small_rational(c, n, d); return a; }
// Dense univariate polynomial over variable v with degree at most n.
inline P uni(pbt::Ctx& c, std::size_t v, unsigned n, const Shape& s = Shape()) {
	P r; unsigned d = unsigned(c.draw(n + 1));
	for (unsigned i = 0; i <= d; ++i) { Exp e{}; e[v] = i; if (!c.chance(1, 4)) r.add(e, gen_coeff(c, s)); }
	return r;
}
inline std::vector<Q> dense(const P& p, std::size_t v) { std::vector<Q> r; for (auto& k : coeffs(p, v)) r.push_back(k.at(Exp{})); return r; }
} // namespace rp
