// P08: definiteness, sums of squares, Horner schemes, linear Diophantine equations, degrees and complexity.
#include "poly.h"
#include <carl/core/polynomialfunctions/Definiteness.h>
#include <carl/core/polynomialfunctions/SoSDecomposition.h>
#include <carl/core/polynomialfunctions/Complexity.h>
#include <carl/core/polynomialfunctions/SeparablePart.h>
#include <carl/core/polynomialfunctions/Degree.h>
#include <carl/core/MultivariateHorner.h>
#include <carl/core/DiophantineEquation.h>
#include <carl/interval/IntervalEvaluation.h>
using namespace gen;
using rp::P; using rp::Exp; using rp::CP; using rp::CZ; using rp::Shape; using rp::K; using rp::vars;
using carl::Definiteness;

// Positive semidefinite symmetric matrix, by elimination; entry (n,n) stands for the constant.
static bool psd(std::vector<std::vector<Q>> m) {
	std::size_t n = m.size();
	for (std::size_t k = 0; k < n; ++k) {
		if (m[k][k] < 0) return false;
		if (m[k][k] == 0) { for (std::size_t j = k; j < n; ++j) if (m[k][j] != 0) return false; continue; }
		for (std::size_t i = k + 1; i < n; ++i) for (std::size_t j = i; j < n; ++j) { m[i][j] -= m[k][i] * m[k][j] / m[k][k]; m[j][i] = m[i][j]; }
	}
	return true;
}
static bool nonnegative_quadratic(const P& p) {
	std::vector<std::vector<Q>> m(K + 1, std::vector<Q>(K + 1));
	for (auto& t : p.t) {
		std::vector<std::size_t> f; for (std::size_t i = 0; i < K; ++i) for (unsigned e = 0; e < t.first[i]; ++e) f.push_back(i);
		while (f.size() < 2) f.push_back(K);
		if (f[0] == f[1]) m[f[0]][f[0]] += t.second; else { m[f[0]][f[1]] += t.second / 2; m[f[1]][f[0]] += t.second / 2; }
	}
	return psd(m);
}
static P linear(pbt::Ctx& c, std::size_t n, bool constant) { P r; for (std::size_t i = 0; i < n; ++i) r = r + rp::scale(rp::mono(i), small_rational(c, 3, 2)); if (constant) r = r + P(small_rational(c, 3, 2)); return r; }
static P quadratic(pbt::Ctx& c) {
	std::size_t n = 1 + c.draw(3); P r;
	for (unsigned k = 1 + unsigned(c.draw(n + 1)); k; --k) { P l = linear(c, n, c.coin()); r = r + rp::scale(l * l, small_rational(c, 5, 2)); }
	if (c.coin()) { r = P(); for (unsigned k = 1 + unsigned(c.draw(n + 1)); k; --k) { P l = linear(c, n, c.coin()); r = r + rp::scale(l * l, qabs(small_rational(c, 5, 2))); } }
	if (c.chance(1, 3)) r = r + P(small_rational(c, 2, 3));
	if (c.chance(1, 4)) r = -r;
	return r;
}
LAW(sums_of_squares, 15000, 300000) {
	P p = quadratic(c); if (c.chance(1, 8)) { Shape s; s.maxexp = 4; p = rp::poly(c, s); }
	if (p.zero()) p = P(Q(1));
	c.in("p", p); bool trivial = c.coin(); c.in("only nontrivial", trivial);
	auto d = carl::sos_decomposition(rp::to_carl(p), trivial);
	P sum; for (auto& t : d) { CHK(t.first > 0, "coefficient " << t.first); P q = rp::of(t.second); sum = sum + rp::scale(q * q, t.first); }
	c.nontrivial(p.total() == 2); c.label_if(!d.empty(), "decomposed");
	if (!d.empty()) CHK(sum == p, "the squares sum up to " << sum);
	if (p.total() == 2) { bool nn = nonnegative_quadratic(p); CHK_EQ(!d.empty(), nn, "a quadratic polynomial is a sum of squares exactly if it is nowhere negative"); }
}
LAW(definiteness, 15000, 300000) {
	P p;
	switch (c.weighted({3, 3, 1})) {
		case 0: p = quadratic(c); break;
		case 1: { // monomials with even exponents, mostly of one sign
			bool neg = c.coin(); unsigned n = 1 + unsigned(c.draw(4));
			for (unsigned i = 0; i < n; ++i) { Exp e{}; for (std::size_t v = 0; v < 3; ++v) e[v] = 2 * unsigned(c.draw(3)); Q q = qabs(small_rational(c, 4, 2)); if (q == 0) q = 1; p.add(e, neg ? Q(-q) : q); }
			if (c.chance(1, 3)) { Exp e{}; e[c.idx(3)] = 1 + unsigned(c.draw(3)); p.add(e, small_rational(c, 3, 2)); }
			break; }
		default: p = rp::poly(c); break;
	}
	c.in("p", p); bool full = c.coin(); c.in("full effort", full);
	Definiteness d = carl::definiteness(rp::to_carl(p), full); c.in("definiteness", d);
	c.nontrivial(!p.constant()); c.label_if(d != Definiteness::NON, "definite"); c.label_if(p.total() == 2 && d != Definiteness::NON, "definite quadratic");
	auto ok = [&](const Q& v) { switch (d) { case Definiteness::POSITIVE: return v > 0; case Definiteness::POSITIVE_SEMI: return v >= 0; case Definiteness::NEGATIVE: return v < 0; case Definiteness::NEGATIVE_SEMI: return v <= 0; default: return true; } };
	auto at = [&](const std::array<Q, K>& x) { Q v = rp::eval(p, x); CHK(ok(v), "value " << v << " at (" << x[0] << ", " << x[1] << ", " << x[2] << ")"); };
	if (d != Definiteness::NON) {
		at(std::array<Q, K>{});
		for (int i = 0; i < 12; ++i) at(rp::point(c, 4, 3));
		for (int i = 0; i < 3; ++i) { std::array<Q, K> x{}; x[std::size_t(i)] = c.coin() ? 1 : -1; at(x); x[std::size_t(i)] *= 1000; at(x); x[std::size_t(i)] /= 1000000; at(x); }
	}
	// Exact for quadratic polynomials that claim a sign: the claim must be true everywhere.
	if (p.total() == 2) {
		if (d == Definiteness::POSITIVE || d == Definiteness::POSITIVE_SEMI) CHK(nonnegative_quadratic(p), "has negative values");
		if (d == Definiteness::NEGATIVE || d == Definiteness::NEGATIVE_SEMI) CHK(nonnegative_quadratic(-p), "has positive values");
		if (full && !p.at(Exp{}).get_num().get_si() && nonnegative_quadratic(p)) CHK(d >= Definiteness::POSITIVE_SEMI, "a nonnegative quadratic form is not recognised");
		if (full && !p.at(Exp{}).get_num().get_si() && nonnegative_quadratic(-p)) CHK(d <= Definiteness::NEGATIVE_SEMI, "a nonpositive quadratic form is not recognised");
	}
	// Sums of even monomials of one sign are always recognised, with the constant deciding strictness.
	bool even = !p.zero(); int sign = 0;
	for (auto& t : p.t) { for (unsigned e : t.first) even = even && e % 2 == 0; int s = sgn(t.second); if (sign && s != sign) even = false; sign = s; }
	if (even) {
		bool strict = p.at(Exp{}) != 0;
		CHK(d == (sign > 0 ? strict ? Definiteness::POSITIVE : Definiteness::POSITIVE_SEMI : strict ? Definiteness::NEGATIVE : Definiteness::NEGATIVE_SEMI), "a sum of even monomials of one sign is " << d);
	}
	for (auto& t : p.t) { carl::Term<Q> term(t.second, rp::monomial(t.first)); bool ev = true; for (unsigned e : t.first) ev = ev && e % 2 == 0; bool k = t.first == Exp{}; int s = sgn(t.second);
		CHK(carl::definiteness(term) == (!ev ? Definiteness::NON : s > 0 ? k ? Definiteness::POSITIVE : Definiteness::POSITIVE_SEMI : k ? Definiteness::NEGATIVE : Definiteness::NEGATIVE_SEMI), "definiteness of the term " << term); }
}

struct strat_I { static constexpr carl::variableSelectionHeurisics selectionType = carl::GREEDY_I; static constexpr double targetDiameter = 0.1; static constexpr bool use_arithmeticOperationsCounter = false; };
struct strat_Is { static constexpr carl::variableSelectionHeurisics selectionType = carl::GREEDY_Is; static constexpr double targetDiameter = 0.1; static constexpr bool use_arithmeticOperationsCounter = false; };
struct strat_II { static constexpr carl::variableSelectionHeurisics selectionType = carl::GREEDY_II; static constexpr double targetDiameter = 0.1; static constexpr bool use_arithmeticOperationsCounter = false; };
struct strat_IIs { static constexpr carl::variableSelectionHeurisics selectionType = carl::GREEDY_IIs; static constexpr double targetDiameter = 0.1; static constexpr bool use_arithmeticOperationsCounter = false; };
template<typename H> P expand(const H& h) {
	if (h.getVariable() == carl::Variable::NO_VARIABLE) return P(Q(h.getIndepConstant()));
	P dep = h.getDependent() ? expand(*h.getDependent()) : P(Q(h.getDepConstant())), ind = h.getIndependent() ? expand(*h.getIndependent()) : P(Q(h.getIndepConstant()));
	int v = rp::index(h.getVariable()); CHK(v >= 0, "unexpected variable");
	return dep * rp::mono(std::size_t(v), h.getExponent()) + ind;
}
LAW(horner, 10000, 200000) {
	Shape s; s.nvars = 1 + c.draw(3); s.maxexp = 4; s.maxterms = 6; P p = rp::poly(c, s); c.in("p", p); c.nontrivial(p.t.size() > 1);
	CP q = rp::to_carl(p);
	carl::MultivariateHorner<CP, strat_I> h1(q); CHK(expand(h1) == p, "Horner scheme I is " << expand(h1));
	carl::MultivariateHorner<CP, strat_Is> h2(q); CHK(expand(h2) == p, "Horner scheme Is is " << expand(h2));
	carl::MultivariateHorner<CP, strat_II> h3(q); CHK(expand(h3) == p, "Horner scheme II is " << expand(h3));
	carl::MultivariateHorner<CP, strat_IIs> h4(q); CHK(expand(h4) == p, "Horner scheme IIs is " << expand(h4));
	std::map<carl::Variable, carl::Interval<double>> m;
	auto x = rp::point(c, 5, 1);
	for (std::size_t i = 0; i < s.nvars; ++i) { double a = x[i].get_d(), b = a + double(c.draw(3)); m.emplace(vars()[i], carl::Interval<double>(a, b)); }
	auto i1 = carl::IntervalEvaluation::evaluate(h1, m), i2 = carl::IntervalEvaluation::evaluate(h2, m);
	Q v = rp::eval(p, x); double lo = v.get_d();
	auto in = [&](const carl::Interval<double>& i) { return i.contains(lo); };
	CHK(in(i1) && in(i2), "interval evaluation of the scheme misses the value " << v << ": " << i1 << " " << i2);
}
LAW(diophantine, 15000, 300000) {
	Z a = integer(c), b = integer(c); if (c.chance(1, 3)) { Z g = integer(c); a *= g; b *= g; }
	c.in("a", a); c.in("b", b);
	Z s, t, g = carl::extended_gcd_integer(a, b, s, t), r; mpz_gcd(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
	CHK_EQ(g, r, "gcd"); CHK_EQ(Z(s * a + t * b), g, "combination");
	// Linear equations; solutions are given in the order of the terms.
	P p; std::size_t n = 1 + c.draw(4); for (std::size_t i = 0; i < n; ++i) { Q k(long(c.range(-20, 20))); if (k == 0) k = 6; p = p + rp::scale(rp::mono(i), k); }
	if (!c.chance(1, 8)) p = p + P(Q(long(c.range(-60, 60))));
	c.in("p", p); CZ e = rp::to_carl<Z>(p);
	auto sol = carl::solveDiophantine(e);
	CHK_EQ(sol.size(), n, "number of values");
	Z gg = 0; for (std::size_t i = 0; i < n; ++i) { Exp x{}; x[i] = 1; mpz_gcd(gg.get_mpz_t(), gg.get_mpz_t(), p.at(x).get_num_mpz_t()); }
	Z k = p.at(Exp{}).get_num(), val = k; bool solvable = mpz_divisible_p(k.get_mpz_t(), gg.get_mpz_t());
	std::size_t i = 0; for (auto& term : e) if (term.monomial()) val += term.coeff() * sol[i++];
	c.nontrivial(n > 1 && k != 0); c.label_if(solvable, "solvable");
	if (solvable) CHK_EQ(val, Z(0), "value at the solution");
	else for (auto& z : sol) CHK(z == 0, "an unsolvable equation has a solution");
}
LAW(degrees, 10000, 200000) {
	Shape s; s.nvars = 1 + c.draw(4); s.maxexp = 3; P p = rp::poly(c, s); c.in("p", p); c.nontrivial(!p.constant());
	CP q = rp::to_carl(p);
	CHK_EQ(carl::total_degree(q), std::size_t(p.total()), "total degree");
	CHK_EQ(carl::is_constant(q), p.constant(), "constant"); CHK_EQ(carl::is_zero(q), p.zero(), "zero"); CHK_EQ(carl::is_one(q), p == P(Q(1)), "one");
	CHK_EQ(carl::is_linear(q), p.zero() || p.total() == 1, "linear");
	std::size_t cx = 0;
	for (auto& t : p.t) { auto m = rp::monomial(t.first); std::size_t d = 0; for (unsigned e : t.first) d += e; carl::Term<Q> term(t.second, m); cx += d + 1;
		CHK_EQ(carl::total_degree(term), d, "degree of a term"); CHK_EQ(carl::is_constant(term), d == 0, "constant term"); CHK_EQ(carl::is_linear(term), d == 1, "linear term"); CHK_EQ(carl::is_at_most_linear(term), d <= 1, "at most linear term"); CHK_EQ(carl::is_one(term), d == 0 && t.second == 1, "one"); CHK_EQ(carl::complexity(term), d + 1, "complexity of a term");
		if (m) { Exp e{}; for (std::size_t i = 0; i < K; ++i) e[i] = t.first[i] ? 1 : 0; auto sep = carl::separable_part(*m); CHK(rp::exp_of(sep) == e, "separable part"); CHK(sep == rp::monomial(e), "separable part is not unique"); CHK_EQ(sep->tdeg(), std::size_t(std::count(e.begin(), e.end(), 1u)), "degree of the separable part"); CHK_EQ(carl::total_degree(*m), d, "degree of the monomial"); CHK_EQ(carl::complexity(*m), d, "complexity"); CHK_EQ(carl::is_linear(*m), d == 1, "linear monomial"); CHK(!carl::is_constant(*m), "constant monomial"); CHK_EQ(carl::is_at_most_linear(*m), d <= 1, "at most linear monomial"); } }
	CHK_EQ(carl::complexity(q), cx, "complexity");
	if (!p.zero()) { std::size_t v = c.idx(s.nvars); auto u = rp::to_uni_mv(p, v); CHK_EQ(carl::total_degree(u), std::size_t(p.total()), "total degree with a main variable"); CHK_EQ(carl::is_constant(u), !p.has(v), "constant in the main variable"); CHK_EQ(carl::is_one(u), p == P(Q(1)), "one with a main variable"); }
}
PBT_MAIN("P08", "quadratic (squares), not constant (definiteness, degrees), several terms (Horner), several unknowns and a constant (equations)")
