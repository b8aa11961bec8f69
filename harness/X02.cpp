// Factorised polynomials against expanded reference polynomials, over histories that share one cache.
#include "poly.h"
#include "rd.h"
#include <carl-extpolys/FactorizedPolynomial.h>
#include <carl-extpolys/evaluation.h>
#include <carl-extpolys/substitution.h>

using rp::P;
using gen::Q;
using gen::Z;
using MP = rp::CP;
using FP = carl::FactorizedPolynomial<MP>;
using Cache = carl::Cache<carl::PolynomialFactorizationPair<MP>>;

static P piece(pbt::Ctx& c, std::size_t nv) {
	P x = rp::mono(c.idx(nv)), y = rp::mono(c.idx(nv));
	switch (c.weighted({3, 3, 2, 2, 1, 1})) {
	case 0: return x;
	case 1: return x + P(Q(c.range(-2, 2)));
	case 2: return x + rp::scale(y, Q(c.range(-1, 2))) + P(Q(c.range(-1, 1)));
	case 3: return x * y + P(Q(c.range(-1, 2)));
	case 4: return x * x + P(Q(c.range(1, 3)));
	default: { rp::Shape s; s.nvars = nv; s.maxterms = 3; s.maxexp = 2; return rp::poly(c, s); }
	}
}
static P part(pbt::Ctx& c, std::size_t nv, bool nonzero, unsigned most = 3) {
	P r(gen::small_rational(c, 4, 3));
	if (r.zero() && (nonzero || c.coin())) r = P(Q(1));
	unsigned n = unsigned(c.range(0, most));
	for (unsigned i = 0; i < n; ++i) r = r * piece(c, nv);
	if (nonzero && r.zero()) r = P(Q(1));
	return r;
}
static P read(const FP& p) { return rp::of(carl::computePolynomial(p)); }

static void judge(pbt::Ctx& c, const FP& p, const P& r, const char* what) {
	CHK(read(p) == r, what << ": expected " << r << ", got " << read(p));
	CHK_EQ(p.isZero(), r.zero(), what << ": zero test");
	CHK_EQ(carl::isZero(p), r.zero(), what << ": zero test");
	CHK_EQ(p.isOne(), r == P(Q(1)), what << ": one test");
	CHK_EQ(p.isConstant(), r.constant(), what << ": constant test");
	if (p.isConstant()) { CHK_EQ(p.coefficient(), r.at(rp::Exp{}), what << ": coefficient of a constant"); return; }
	// The polynomial is a multiple of the primitive polynomial it stores, which is the product of the factors.
	P prod(Q(1));
	for (const auto& f : p.factorization()) {
		CHK(f.second > 0, what << ": factor with exponent zero");
		CHK(!f.first.isConstant(), what << ": constant factor");
		CHK_EQ(f.first.coefficient(), Q(1), what << ": coefficient of a factor");
		prod = prod * rp::pow(read(f.first), unsigned(f.second));
	}
	CHK(rp::scale(prod, p.coefficient()) == r, what << ": the factors multiply to " << prod << " with coefficient " << p.coefficient() << ", expected " << r);
	CHK(rp::scale(rp::of(p.polynomial()), p.coefficient()) == r, what << ": stored polynomial");
	CHK(rp::of(p.polynomialWithCoefficient()) == r, what << ": polynomial with coefficient");
	CHK(rp::of(MP(p)) == r, what << ": conversion");
}

// What a factorised polynomial says about itself.
static void inspect(pbt::Ctx& c, const FP& p, const P& r, std::size_t nv) {
	MP m = rp::to_carl(r);
	CHK_EQ(p.constantPart(), r.at(rp::Exp{}), "constant part");
	CHK_EQ(p.hasConstantTerm(), r.at(rp::Exp{}) != 0, "has a constant term");
	for (std::size_t i = 0; i < nv; ++i) CHK_EQ(p.has(rp::vars()[i]), r.has(i), "occurrence of a variable");
	CHK_EQ(p.isUnivariate(), r.nvars() <= 1, "univariate");
	if (!r.zero()) {
		CHK_EQ(p.totalDegree(), r.total(), "total degree");
		CHK_EQ(p.lcoeff(), m.lcoeff(), "leading coefficient");
		CHK_EQ(p.coprimeFactor() * p.coefficient(), Q(1), "coprime factor");
	}
	if (r.nvars() == 1) CHK_EQ(rp::index(p.getSingleVariable()) >= 0 && r.has(std::size_t(rp::index(p.getSingleVariable()))), true, "single variable");
	if (r.total() <= 1) CHK(p.isLinear(), "linear polynomial is not recognised");
	else CHK(!p.isLinear(), "nonlinear polynomial is said to be linear");
	if (!r.constant()) {
		P q = read(p.coprimeCoefficients());
		CHK(rp::associated(q, r), "coprime coefficients");
		for (auto& t : q.t) CHK(t.second.get_den() == 1, "coprime coefficients are not integral");
		CHK_EQ(p.nrTerms(), r.t.size(), "number of terms");
	}
	std::size_t v = c.idx(nv);
	judge(c, p.derivative(rp::vars()[v]), rp::diff(r, v), "derivative");
	auto pt = rp::point(c);
	std::map<carl::Variable, Q> total, partial;
	P s = r;
	for (std::size_t i = 0; i < nv; ++i) {
		total[rp::vars()[i]] = pt[i];
		if (c.coin()) { partial[rp::vars()[i]] = pt[i]; s = rp::subst(s, i, P(pt[i])); }
	}
	CHK_EQ(carl::evaluate(p, total), rp::eval(r, pt), "value");
	judge(c, carl::substitute(p, partial), s, "partial assignment");
	std::map<carl::Variable, MP> by;
	P t = r;
	{
		std::size_t i = c.idx(nv);
		P q = part(c, nv, false, 1);
		if (r.degree(i) * q.total() + r.total() <= 8) { by[rp::vars()[i]] = rp::to_carl(q); t = rp::subst(r, i, q); judge(c, carl::substitute(p, by), t, "substitution"); }
	}
	std::ostringstream os;
	os << p;
	CHK_EQ(os.str(), p.toString(), "printing");
	try { P q = rd::Infix(os.str(), rd::plain()).all(); CHK(q == r, "printed as " << os.str() << ", which means " << q); }
	catch (const rd::Bad& e) { CHK(false, "printed as " << os.str() << ": " << e.why); }
	if (p.isConstant()) { std::ostringstream o2; o2 << r.at(rp::Exp{}); CHK_EQ(os.str(), o2.str(), "printing a constant"); }
}

static void run(pbt::Ctx& c, bool ask) {
	auto cache = std::make_shared<Cache>();
	const std::size_t nv = c.range(1, 2);
	std::vector<FP> p;
	std::vector<P> r;
	for (int i = 0; i < 3; ++i) {
		P q = part(c, nv, false, 2);
		c.in("start", q);
		r.push_back(q);
		p.push_back(q.constant() && c.coin() ? FP(q.at(rp::Exp{})) : FP(rp::to_carl(q), cache));
		judge(c, p.back(), q, "construction");
	}
	unsigned steps = unsigned(c.range(1, 7)), done = 0;
	for (unsigned s = 0; s < steps; ++s) {
		std::size_t i = c.idx(3), j = c.idx(3), k = c.idx(3);
		if (r[j].total() + r[k].total() > 9) continue;
		std::ostringstream os;
		switch (c.weighted({3, 3, 6, 2, 2, 3, 2, 2, 1, 1, 1, 2})) {
		case 0: os << "p" << i << " = p" << j << " + p" << k; { P q = r[j] + r[k]; if (i == j && c.coin()) p[i] += p[k]; else p[i] = p[j] + p[k]; r[i] = q; } break;
		case 1: os << "p" << i << " = p" << j << " - p" << k; { P q = r[j] - r[k]; if (i == j && c.coin()) p[i] -= p[k]; else p[i] = p[j] - p[k]; r[i] = q; } break;
		case 2: os << "p" << i << " = p" << j << " * p" << k; { P q = r[j] * r[k]; if (i == j && c.coin()) p[i] *= p[k]; else p[i] = p[j] * p[k]; r[i] = q; } break;
		case 3: { // number operand
			Q n = gen::small_rational(c, 4, 3);
			std::size_t o = c.idx(4);
			if (o == 3 && n == 0) n = -2;
			os << "p" << i << " = p" << j << " " << "+-*/"[o] << " " << n;
			bool b = i == j && c.coin(), l = c.coin();
			if (o == 0) { if (b) p[i] += n; else p[i] = l ? p[j] + n : n + p[j]; r[i] = r[j] + P(n); }
			else if (o == 1) { if (b) { p[i] -= n; r[i] = r[j] - P(n); } else if (l) { p[i] = p[j] - n; r[i] = r[j] - P(n); } else { p[i] = n - p[j]; r[i] = P(n) - r[j]; } }
			else if (o == 2) { if (b) p[i] *= n; else p[i] = l ? p[j] * n : n * p[j]; r[i] = rp::scale(r[j], n); }
			else { if (b) p[i] /= n; else p[i] = l ? p[j] / n : p[j].divideBy(n); r[i] = rp::scale(r[j], Q(1 / n)); }
			break;
		}
		case 4: { // exact quotient
			if (r[k].zero()) continue;
			P q;
			os << "p" << i << " = (p" << j << " * p" << k << ") / p" << k;
			FP m = p[j] * p[k];
			p[i] = c.coin() ? m.quotient(p[k]) : carl::quotient(m, p[k]);
			r[i] = r[j];
			break;
		}
		case 5: { // greatest common divisor with cofactors
			if (r[j].zero() || r[k].zero()) continue;
			os << "gcd of p" << j << " and p" << k;
			c.in("step", os.str());
			FP ra, rb, g = c.coin() ? carl::gcd(p[j], p[k]) : carl::gcd(p[j], p[k], ra, rb);
			P e = rp::gcd(r[j], r[k]);
			CHK(rp::associated(read(g), e), os.str() << ": expected a multiple of " << e << ", got " << read(g));
			judge(c, g, read(g), "greatest common divisor");
			if (!ra.isZero()) CHK(read(g) * read(ra) == r[j] && read(g) * read(rb) == r[k], os.str() << ": the cofactors are wrong");
			break;
		}
		case 6: { // least common multiple
			if (r[j].zero() || r[k].zero()) continue;
			os << "lcm of p" << j << " and p" << k;
			c.in("step", os.str());
			FP l = carl::lcm(p[j], p[k]);
			P g = rp::gcd(r[j], r[k]), e;
			rp::divide(r[j] * r[k], g, e);
			CHK(rp::associated(read(l), e), os.str() << ": expected a multiple of " << e << ", got " << read(l));
			judge(c, l, read(l), "least common multiple");
			break;
		}
		case 7: { // some common divisor and multiple
			if (r[j].zero() || r[k].zero()) continue;
			os << "common divisor and multiple of p" << j << " and p" << k;
			c.in("step", os.str());
			P d = read(carl::commonDivisor(p[j], p[k])), m = read(carl::commonMultiple(p[j], p[k])), q;
			CHK(rp::divide(r[j], d, q) && rp::divide(r[k], d, q), os.str() << ": " << d << " does not divide both");
			CHK(rp::divide(m, r[j], q) && rp::divide(m, r[k], q), os.str() << ": " << m << " is not a multiple of both");
			break;
		}
		case 8: { // reduced fraction
			if (r[k].zero()) continue;
			os << "lazy division of p" << j << " by p" << k;
			c.in("step", os.str());
			auto d = carl::lazyDiv(p[j], p[k]);
			CHK(!read(d.second).zero(), os.str() << ": zero denominator");
			CHK(read(d.first) * r[k] == read(d.second) * r[j], os.str() << ": " << read(d.first) << " over " << read(d.second) << " is not the quotient");
			break;
		}
		case 9: { unsigned e = unsigned(c.range(0, r[j].total() <= 3 ? 3 : 1)); os << "p" << i << " = p" << j << "^" << e; p[i] = c.coin() ? p[j].pow(e) : carl::pow(p[j], e); r[i] = rp::pow(r[j], e); break; }
		case 10: os << "p" << i << " = -p" << j; p[i] = -p[j]; r[i] = -r[j]; break;
		default: os << "p" << i << " = copy of p" << j; if (c.coin()) { FP t(p[j]); p[i] = std::move(t); } else p[i] = p[j]; r[i] = r[j]; break;
		}
		++done;
		c.in("step", os.str());
		for (std::size_t n = 0; n < 3; ++n) judge(c, p[n], r[n], os.str().c_str());
		if (ask && c.chance(1, 2)) inspect(c, p[i], r[i], nv);
	}
	c.nontrivial(done > 0);
	for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) {
		bool eq = p[i] == p[j];
		CHK_EQ(eq, r[i] == r[j], "equality of " << r[i] << " and " << r[j]);
		CHK_EQ(p[i] != p[j], !eq, "unequal of " << r[i] << " and " << r[j]);
		CHK_EQ(int(eq) + int(p[i] < p[j]) + int(p[j] < p[i]), 1, "order of " << r[i] << " and " << r[j]);
		CHK_EQ(p[i] <= p[j], !(p[j] < p[i]), "less or equal");
		CHK_EQ(p[i] > p[j], p[j] < p[i], "greater");
		CHK_EQ(p[i] >= p[j], !(p[i] < p[j]), "greater or equal");
		if (eq) CHK(std::hash<FP>()(p[i]) == std::hash<FP>()(p[j]), "equal polynomials have different hashes");
		for (std::size_t k = 0; k < 3; ++k) if (p[i] < p[j] && p[j] < p[k]) CHK(p[i] < p[k], "the order is not transitive");
	}
	for (std::size_t i = 0; i < 3; ++i) {
		Q k = c.coin() ? r[i].at(rp::Exp{}) : gen::small_rational(c, 3, 2);
		CHK_EQ(p[i] == k, r[i] == P(k), "equality with a number");
		CHK_EQ(k == p[i], r[i] == P(k), "equality with a number");
		CHK_EQ(p[i] != k, r[i] != P(k), "unequal to a number");
		CHK_EQ(k != p[i], r[i] != P(k), "unequal to a number");
	}
}
LAW_B(arithmetic, 2000, 40000, 50) { run(c, false); }
LAW_B(questions, 2000, 40000, 50) { run(c, true); }

// Repeated divisors computed in one cache refine factors that other polynomials share.
LAW_B(shared_factors, 2000, 40000, 50) {
	auto cache = std::make_shared<Cache>();
	std::size_t nv = c.range(1, 2);
	std::vector<P> base;
	for (int i = 0; i < 3; ++i) base.push_back(piece(c, nv));
	for (auto& b : base) { if (b.constant()) b = b + rp::mono(0); c.in("factor", b); }
	std::vector<FP> p;
	std::vector<P> r;
	std::size_t n = c.range(2, 4);
	for (std::size_t i = 0; i < n; ++i) {
		P q(Q(c.range(1, 3)));
		std::ostringstream os;
		std::size_t split = c.idx(2);
		FP f(Q(q.at(rp::Exp{})));
		for (auto& b : base) {
			unsigned e = unsigned(c.range(0, 2));
			if (q.total() + b.total() * e > 6) e = 0;
			P x = rp::pow(b, e);
			if (split) f *= FP(rp::to_carl(x), cache);
			q = q * x;
			os << e;
		}
		if (!split) f = FP(rp::to_carl(q), cache);
		os << (split ? " as a product" : " expanded");
		c.in("exponents", os.str());
		p.push_back(f);
		r.push_back(q);
	}
	c.nontrivial();
	unsigned rounds = unsigned(c.range(1, 4));
	for (unsigned t = 0; t < rounds; ++t) {
		std::size_t i = c.idx(n), j = c.idx(n);
		std::ostringstream os;
		os << "gcd of " << i << " and " << j;
		c.in("round", os.str());
		FP g = carl::gcd(p[i], p[j]);
		P e = rp::gcd(r[i], r[j]);
		CHK(rp::associated(read(g), e), os.str() << ": expected a multiple of " << e << ", got " << read(g));
		for (std::size_t k = 0; k < n; ++k) judge(c, p[k], r[k], "after a greatest common divisor");
		if (c.coin()) { p[i] = p[i].quotient(g); P q; rp::divide(r[i], read(g), q); r[i] = q; judge(c, p[i], r[i], "quotient by the divisor"); }
	}
}

KNOWN(hash_of_factors, "the product x * (x+1) and the polynomial x^2 + x are equal but have different hashes") {
	auto cache = std::make_shared<Cache>();
	P x = rp::mono(0), y = x + P(Q(1));
	FP a = FP(rp::to_carl(x), cache) * FP(rp::to_carl(y), cache);
	std::size_t h = std::hash<FP>()(a);
	auto other = std::make_shared<Cache>();
	FP b(rp::to_carl(x * y), other);
	return a == b && h != std::hash<FP>()(b);
}

PBT_MAIN("X02", "distinct histories of factorised polynomials with at least one operation")
