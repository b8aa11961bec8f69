// Rational functions over expanded and over factorised polynomials, simplified always or on demand, against
// pairs of reference polynomials.
#include "poly.h"
#include "rd.h"
#include <carl-extpolys/FactorizedPolynomial.h>
#include <carl-extpolys/RationalFunction.h>
#include <carl-extpolys/substitution.h>

using rp::P;
using gen::Q;
using gen::Z;
using MP = rp::CP;
using FP = carl::FactorizedPolynomial<MP>;
using Cache = carl::Cache<carl::PolynomialFactorizationPair<MP>>;

struct Frac { P n, d; };
static P times(const P& a, const P& b) { return a * b; }
static bool same(const Frac& a, const Frac& b) { return times(a.n, b.d) == times(b.n, a.d); }
static bool constant(const Frac& f) { // is the value a constant?
	if (f.n.zero()) return true;
	Q k = f.n.t.rbegin()->second / f.d.t.rbegin()->second;
	return f.n == rp::scale(f.d, k);
}
static std::ostream& operator<<(std::ostream& os, const Frac& f) { return os << "(" << f.n << ")/(" << f.d << ")"; }

template<typename Pol> struct World;
template<> struct World<MP> {
	MP make(const P& p) { return rp::to_carl(p); }
	static P read(const MP& p) { return rp::of(p); }
};
template<> struct World<FP> {
	std::shared_ptr<Cache> cache = std::make_shared<Cache>();
	FP make(const P& p) { return FP(rp::to_carl(p), cache); }
	static P read(const FP& p) { return rp::of(carl::computePolynomial(p)); }
};

// Polynomials are products of few small pieces so that common factors are frequent.
static P piece(pbt::Ctx& c, std::size_t nv) {
	P x = rp::mono(c.idx(nv)), y = rp::mono(c.idx(nv));
	switch (c.weighted({3, 3, 2, 2, 1})) {
	case 0: return x;
	case 1: return x + P(Q(c.range(-2, 2)));
	case 2: return x + rp::scale(y, Q(c.range(-1, 2))) + P(Q(c.range(-1, 1)));
	case 3: return x * y + P(Q(c.range(-1, 2)));
	default: { rp::Shape s; s.nvars = nv; s.maxterms = 3; s.maxexp = 2; return rp::poly(c, s); }
	}
}
// With a pool all parts are products of the same few pieces, so that the same product arises in different ways.
static P part(pbt::Ctx& c, std::size_t nv, bool nonzero, unsigned most = 2, const std::vector<P>& pool = {}) {
	P r(pool.empty() || c.coin() ? gen::small_rational(c, 4, 3) : Q(1));
	if (r.zero() && (nonzero || c.coin())) r = P(Q(1));
	unsigned n = unsigned(c.range(0, most));
	if (!pool.empty() && n) n += unsigned(c.range(0, 1));
	for (unsigned i = 0; i < n; ++i) r = r * (pool.empty() ? piece(c, nv) : c.pick(pool));
	if (nonzero && r.zero()) r = P(Q(1));
	return r;
}

template<typename Pol, bool AS> Frac read(const carl::RationalFunction<Pol, AS>& r) {
	return {World<Pol>::read(r.nominator()), World<Pol>::read(r.denominator())};
}
template<typename Pol, bool AS> void judge(pbt::Ctx& c, const carl::RationalFunction<Pol, AS>& r, const Frac& f, const char* what) {
	Frac g = read(r);
	CHK(!g.d.zero(), what << ": zero denominator");
	CHK(same(f, g), what << ": expected " << f << ", got " << g);
	if (f.n.zero()) CHK(r.isZero() == true, what << ": zero is not recognised in " << g);
	else CHK(!r.isZero(), what << ": " << g << " is said to be zero");
	if (r.isOne()) CHK(f.n == f.d, what << ": " << g << " is said to be one");
	if (f.n == f.d && r.isSimplified()) CHK(r.isOne(), what << ": one is not recognised in " << g);
	if (r.isConstant()) {
		CHK(constant(f), what << ": " << g << " is said to be constant");
		Q k = f.n.zero() ? Q(0) : Q(f.n.t.rbegin()->second / f.d.t.rbegin()->second);
		CHK_EQ(r.constantPart(), k, what << ": constant part");
		CHK_EQ(Q(r.nominatorAsNumber() / r.denominatorAsNumber()), k, what << ": quotient of the numbers");
	} else {
		CHK(World<Pol>::read(r.nominatorAsPolynomial()) == g.n, what << ": nominator as polynomial");
		CHK(World<Pol>::read(r.denominatorAsPolynomial()) == g.d, what << ": denominator as polynomial");
		if (constant(f)) CHK(!r.isSimplified(), what << ": the simplified function " << g << " is constant but not said to be");
	}
	if (!r.isConstant()) { // printed as (nominator)/(denominator)
		std::ostringstream os;
		os << r;
		std::string s = os.str();
		std::size_t at = s.find(")/(", 0), next;
		CHK(at != std::string::npos && s[0] == '(' && s.back() == ')', what << ": printed as " << s);
		while ((next = s.find(")/(", at + 1)) != std::string::npos) at = next;
		try {
			P n = rd::Infix(s.substr(0, at + 1), rd::plain()).all(), d = rd::Infix(s.substr(at + 2), rd::plain()).all();
			CHK(n == g.n && d == g.d, what << ": " << g << " is printed as " << s);
		} catch (const rd::Bad& e) { CHK(false, what << ": printed as " << s << ": " << e.why); }
	} else {
		std::ostringstream os, want;
		os << r;
		want << (f.n.zero() ? Q(0) : Q(f.n.t.rbegin()->second / f.d.t.rbegin()->second));
		CHK_EQ(os.str(), want.str(), what << ": printed constant");
	}
	if (r.isSimplified() && !r.isConstant()) {
		P q = rp::gcd(g.n, g.d);
		CHK(q.constant(), what << ": the simplified function " << g << " has a common factor " << q);
	}
}

template<typename Pol, bool AS> void history(pbt::Ctx& c) {
	using RF = carl::RationalFunction<Pol, AS>;
	World<Pol> w;
	const std::size_t nv = c.range(1, 3);
	std::vector<RF> r;
	std::vector<Frac> f;
	std::vector<P> pool;
	if (nv < 3 && c.coin()) for (std::size_t i = 0, n = c.range(1, 3); i < n; ++i) pool.push_back(i < nv ? rp::mono(i) : piece(c, nv));
	c.label_if(!pool.empty(), "few pieces");
	for (int i = 0; i < 3; ++i) {
		Frac g;
		switch (c.weighted({4, 2, 1, 1})) {
		case 0: g = {part(c, nv, false, 2, pool), part(c, nv, true, 2, pool)}; r.push_back(RF(w.make(g.n), w.make(g.d))); break;
		case 1: g = {part(c, nv, false, 2, pool), P(Q(1))}; r.push_back(RF(w.make(g.n))); break;
		case 2: g = {P(gen::small_rational(c, 4, 3)), P(Q(1))}; r.push_back(RF(g.n.at(rp::Exp{}))); break;
		default: { int k = int(c.range(-2, 2)); g = {P(Q(k)), P(Q(1))}; r.push_back(k == 0 && c.coin() ? RF() : RF(k)); }
		}
		c.in("start", g);
		f.push_back(g);
		judge(c, r.back(), g, "construction");
	}
	unsigned steps = unsigned(c.range(1, 5)), done = 0;
	for (unsigned s = 0; s < steps; ++s) {
		std::size_t i = c.idx(3), j = c.idx(3);
		if (f[i].n.total() + f[i].d.total() > (nv == 3 ? 5 : 9)) break;
		if (nv == 3 && f[j].n.total() + f[j].d.total() > 5) j = i;
		std::ostringstream os;
		switch (c.weighted({4, 4, 4, 4, 3, 3, 2, 2, 1, 1, 1})) {
		case 0: os << "r" << i << " += r" << j; f[i] = {f[i].n * f[j].d + f[j].n * f[i].d, f[i].d * f[j].d}; r[i] += r[j]; break;
		case 1: os << "r" << i << " -= r" << j; f[i] = {f[i].n * f[j].d - f[j].n * f[i].d, f[i].d * f[j].d}; r[i] -= r[j]; break;
		case 2: os << "r" << i << " *= r" << j; f[i] = {f[i].n * f[j].n, f[i].d * f[j].d}; r[i] *= r[j]; break;
		case 3: if (f[j].n.zero()) continue; os << "r" << i << " /= r" << j; f[i] = {f[i].n * f[j].d, f[i].d * f[j].n}; r[i] /= r[j]; break;
		case 4: { // polynomial operand
			std::size_t o = c.idx(4);
			P p = part(c, nv, o == 3, 2, pool);
			os << "r" << i << " " << "+-*/"[o] << "= polynomial " << p;
			Pol q = w.make(p);
			if (o == 0) { f[i].n = f[i].n + p * f[i].d; if (c.coin()) r[i] += q; else r[i] = r[i] + q; }
			else if (o == 1) { f[i].n = f[i].n - p * f[i].d; if (c.coin()) r[i] -= q; else r[i] = r[i] - q; }
			else if (o == 2) { f[i].n = f[i].n * p; if (c.coin()) r[i] *= q; else r[i] = r[i] * q; }
			else { f[i].d = f[i].d * p; if (c.coin()) r[i] /= q; else r[i] = r[i] / q; }
			break;
		}
		case 5: { // number operand
			std::size_t o = c.idx(4);
			Q k = gen::small_rational(c, 4, 3);
			if (o == 3 && k == 0) k = 2;
			os << "r" << i << " " << "+-*/"[o] << "= " << k;
			bool b = c.coin();
			if (o == 0) { f[i].n = f[i].n + rp::scale(f[i].d, k); if (b) r[i] += k; else r[i] = r[i] + k; }
			else if (o == 1) { f[i].n = f[i].n - rp::scale(f[i].d, k); if (b) r[i] -= k; else r[i] = r[i] - k; }
			else if (o == 2) {
				f[i].n = rp::scale(f[i].n, k);
				if (k.get_den() == 1 && c.coin()) { carl::sint l = k.get_num().get_si(); if (b) r[i] *= l; else r[i] = c.coin() ? r[i] * l : l * r[i]; }
				else if (b) r[i] *= k;
				else r[i] = c.coin() ? r[i] * k : k * r[i];
			} else {
				f[i].n = rp::scale(f[i].n, Q(1 / k));
				if (b) r[i] /= k; else r[i] = r[i] / k;
			}
			break;
		}
		case 6: { // variable, term or monomial operand
			if constexpr (std::is_same<Pol, MP>::value) {
				std::size_t o = c.idx(4), kind = c.idx(3), v = c.idx(nv);
				rp::Exp e{};
				e[v] = 1;
				if (kind) e[c.idx(nv)] += 1;
				Q k = kind == 2 ? Q(c.range(1, 3)) : Q(1);
				P p; p.add(e, k);
				os << "r" << i << " " << "+-*/"[o] << "= " << (kind == 0 ? "variable " : kind == 1 ? "monomial " : "term ") << p;
				auto apply = [&](const auto& q) {
					bool b = c.coin();
					if (o == 0) { if (b) r[i] += q; else r[i] = r[i] + q; }
					else if (o == 1) { if (b) r[i] -= q; else r[i] = r[i] - q; }
					else if (o == 2) { if (b) r[i] *= q; else r[i] = r[i] * q; }
					else { if (b) r[i] /= q; else r[i] = r[i] / q; }
				};
				if (o == 0) f[i].n = f[i].n + p * f[i].d;
				else if (o == 1) f[i].n = f[i].n - p * f[i].d;
				else if (o == 2) f[i].n = f[i].n * p;
				else f[i].d = f[i].d * p;
				if (kind == 0) apply(rp::vars()[v]);
				else if (kind == 1) apply(rp::monomial(e));
				else apply(carl::Term<Q>(k, rp::monomial(e)));
			} else continue;
			break;
		}
		case 7: os << "r" << i << ".simplify()"; r[i].simplify(); break;
		case 8: if (f[i].n.zero()) continue; os << "r" << i << " = inverse"; std::swap(f[i].n, f[i].d); r[i] = r[i].inverse(); break;
		case 9: os << "r" << i << " = -r" << j; f[i] = {-f[j].n, f[j].d}; r[i] = -r[j]; break;
		default: { os << "r" << i << " = copy of r" << j; f[i] = f[j]; RF t(r[j]); r[i] = std::move(t); break; }
		}
		++done;
		c.in("step", os.str());
		for (std::size_t k = 0; k < 3; ++k) judge(c, r[k], f[k], os.str().c_str());
	}
	c.nontrivial(done > 0);
	c.label_if(AS, "simplified always");
	// comparisons
	for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) {
		bool eq = r[i] == r[j];
		CHK_EQ(r[i] != r[j], !eq, "unequal is not the negation of equal");
		if (eq) {
			CHK(same(f[i], f[j]), "functions with different values are equal: " << f[i] << " and " << f[j]);
			// For factorised polynomials the hash depends on how far the factors are known, see X02.
			if (std::is_same<Pol, MP>::value) CHK(std::hash<RF>()(r[i]) == std::hash<RF>()(r[j]), "equal functions have different hashes");
			CHK(!(r[i] < r[j]) && !(r[j] < r[i]), "equal functions are ordered");
		}
		CHK(!(r[i] < r[j] && r[j] < r[i]), "each function is less than the other");
		if (!same(f[i], f[j])) CHK(r[i] < r[j] || r[j] < r[i], "different functions " << f[i] << " and " << f[j] << " are not ordered");
	}
	// Simplified functions with equal values are equal.
	std::vector<RF> t;
	for (std::size_t i = 0; i < 3; ++i) {
		t.push_back(r[i]);
		t[i].simplify();
		judge(c, t[i], f[i], "simplify");
		t[i] = RF(t[i].nominator(), t[i].denominator());
		t[i].simplify();
		judge(c, t[i], f[i], "simplify");
		Frac g = read(t[i]);
		CHK(rp::gcd(g.n, g.d).constant(), "after simplifying " << g << " has a common factor");
	}
	for (std::size_t i = 0; i < 3; ++i) for (std::size_t j = 0; j < 3; ++j) if (same(f[i], f[j])) CHK(t[i] == t[j], "simplified functions with the same value differ: " << read(t[i]) << " and " << read(t[j]));
}
// The expanded product is known before it arises again as a product of other parts.
LAW_B(known_products, 1500, 30000, 50) {
	World<FP> w;
	const std::size_t nv = c.range(1, 2);
	std::vector<P> pool;
	for (std::size_t i = 0; i < 3; ++i) pool.push_back(i < nv ? rp::mono(i) : piece(c, nv));
	auto product = [&] { P r(Q(1)); for (std::size_t i = 0, n = c.range(1, 2); i < n; ++i) r = r * c.pick(pool); return r.zero() ? P(Q(1)) : r; };
	P a = product(), b = product(), n = product(), m = product();
	c.in("nominators", n); c.in("nominators", m);
	c.in("denominators", a); c.in("denominators", b);
	std::vector<FP> known;
	if (c.chance(3, 4)) known.push_back(w.make(a * b));
	if (c.chance(1, 2)) known.push_back(w.make(n * m));
	using RF = carl::RationalFunction<FP, false>;
	RF r(w.make(n), w.make(a)), s(w.make(m), w.make(b));
	Frac f{n * m, a * b};
	r *= s;
	judge(c, r, f, "product");
	r.simplify();
	judge(c, r, f, "simplified product");
	c.label_if(!known.empty(), "known");
	c.nontrivial(!constant(f));
}
LAW_B(plain, 2000, 40000, 50) { history<MP, false>(c); }
LAW_B(plain_simplified, 2000, 40000, 50) { history<MP, true>(c); }
LAW_B(factorised, 1200, 24000, 50) { history<FP, false>(c); }
LAW_B(factorised_simplified, 1200, 24000, 50) { history<FP, true>(c); }

// An operation of a function with itself.
template<typename Pol, bool AS> void self(pbt::Ctx& c) {
	using RF = carl::RationalFunction<Pol, AS>;
	World<Pol> w;
	std::size_t nv = c.range(1, 2);
	Frac f{part(c, nv, false), c.coin() ? part(c, nv, true) : part(c, nv, true, 0)};
	RF r(w.make(f.n), w.make(f.d));
	std::size_t o = c.idx(4);
	if (o == 3 && f.n.zero()) c.discard();
	c.in("function", f);
	c.in("operation", std::string(1, "+-*/"[o]));
	c.nontrivial(!constant(f));
	RF before(r);
	if (o == 0) { r += r; f = {f.n + f.n, f.d}; }
	else if (o == 1) { r -= r; f = {P(), f.d}; }
	else if (o == 2) { r *= r; f = {f.n * f.n, f.d * f.d}; }
	else { r /= r; f = {P(Q(1)), P(Q(1))}; }
	judge(c, r, f, "operation with itself");
}
LAW_B(with_itself, 1500, 30000, 50) { if (c.coin()) { if (c.coin()) self<MP, true>(c); else self<MP, false>(c); } else { if (c.coin()) self<FP, true>(c); else self<FP, false>(c); } }

// Values, partial assignments, derivatives and powers.
template<typename Pol, bool AS> void values(pbt::Ctx& c) {
	using RF = carl::RationalFunction<Pol, AS>;
	World<Pol> w;
	std::size_t nv = c.range(1, 3);
	Frac f{part(c, nv, false), part(c, nv, true)};
	RF r(w.make(f.n), w.make(f.d));
	c.in("function", f);
	auto pt = rp::point(c);
	std::map<carl::Variable, Q> total, partial;
	Frac g = f;
	for (std::size_t i = 0; i < nv; ++i) {
		total[rp::vars()[i]] = pt[i];
		if (c.coin()) { partial[rp::vars()[i]] = pt[i]; g.n = rp::subst(g.n, i, P(pt[i])); g.d = rp::subst(g.d, i, P(pt[i])); }
	}
	for (std::size_t i = 0; i < nv; ++i) c.in("at", pt[i]);
	c.nontrivial(!constant(f));
	if (rp::eval(f.d, pt) != 0) CHK_EQ(r.evaluate(total), Q(rp::eval(f.n, pt) / rp::eval(f.d, pt)), "value");
	if constexpr (std::is_same<Pol, MP>::value) {
		if (!g.d.zero()) { Frac h = read(r); for (auto& a : partial) { std::size_t i = std::size_t(rp::index(a.first)); h.d = rp::subst(h.d, i, P(a.second)); } if (!h.d.zero()) judge(c, r.substitute(partial), g, "partial assignment"); }
	} else {
		std::size_t v = c.idx(nv);
		judge(c, r.derivative(rp::vars()[v]), Frac{rp::diff(f.n, v) * f.d - f.n * rp::diff(f.d, v), f.d * f.d}, "derivative");
	}
	unsigned e = unsigned(c.range(0, f.n.total() + f.d.total() <= 4 && nv < 3 ? 3 : 1));
	judge(c, carl::pow(r, e), Frac{rp::pow(f.n, e), rp::pow(f.d, e)}, "power");
	std::ostringstream os;
	os << r;
	if (r.isConstant()) { std::ostringstream o2; o2 << r.constantPart(); CHK_EQ(os.str(), o2.str(), "printed constant"); }
}
LAW_B(values, 2000, 40000, 50) { if (c.coin()) { if (c.coin()) values<MP, true>(c); else values<MP, false>(c); } else { if (c.coin()) values<FP, true>(c); else values<FP, false>(c); } }

PBT_MAIN("X01", "distinct histories of rational functions with at least one operation on a function that is not constant")
