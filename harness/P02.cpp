// P02: monomials, terms and variables: arithmetic, documented order, sharing in the pool.
#include "poly.h"
#include <carl/core/Variables.h>
#include <carl/core/polynomialfunctions/Degree.h>
#include <carl/core/polynomialfunctions/Power.h>
#include <carl/core/polynomialfunctions/Derivative.h>
#include <carl/core/polynomialfunctions/Substitution.h>
#include <carl/core/polynomialfunctions/GCD_Monomial.h>
#include <carl/core/polynomialfunctions/Complexity.h>
#include <unordered_set>
using namespace gen;
using rp::Exp; using rp::K; using rp::P;
using carl::Monomial; using carl::Term; using carl::Variable; using carl::CompareResult;
using M = Monomial::Arg;

static unsigned deg(const Exp& e) { unsigned d = 0; for (auto k : e) d += k; return d; }
static int cmp(const Exp& a, const Exp& b) {
	if (deg(a) != deg(b)) return deg(a) < deg(b) ? -1 : 1;
	for (std::size_t i = 0; i < K; ++i) if (a[i] != b[i]) return a[i] > b[i] ? -1 : 1;
	return 0;
}
static std::string str(const Exp& e) { P p; p.t[e] = 1; std::ostringstream o; o << p; return o.str(); }
static Exp exponents(pbt::Ctx& c, unsigned big = 0) {
	Exp e{}; std::size_t n = 1 + c.draw(K);
	for (std::size_t i = 0; i < K; ++i) if (c.draw(K) < n) e[i] = big && c.chance(1, 10) ? unsigned(c.draw(big)) : unsigned(c.draw(4));
	return e;
}
static Exp related(pbt::Ctx& c, const Exp& a) {
	Exp b = exponents(c);
	switch (c.weighted({2, 2, 2, 1})) {
		case 0: return b;
		case 1: for (std::size_t i = 0; i < K; ++i) b[i] = std::min(a[i], b[i]); return b;
		case 2: { b = a; std::size_t i = c.idx(K), j = c.idx(K); if (b[i]) { --b[i]; ++b[j]; } return b; }
		default: return a;
	}
}
static Exp op(const Exp& a, const Exp& b, unsigned (*f)(unsigned, unsigned)) { Exp r; for (std::size_t i = 0; i < K; ++i) r[i] = f(a[i], b[i]); return r; }
static bool divides(const Exp& b, const Exp& a) { for (std::size_t i = 0; i < K; ++i) if (b[i] > a[i]) return false; return true; }
// A monomial has the expected exponents, and it is the very object that any other construction yields.
static void is(const M& m, const Exp& e, const char* what) {
	CHK(rp::exp_of(m) == e, what << " is " << m << ", expected " << str(e));
	if (!m) { return; }
	CHK(deg(e) > 0, what << " is an object for the monomial 1");
	CHK_EQ(m->tdeg(), carl::exponent(deg(e)), what << " total degree");
	M n = rp::monomial(e);
	CHK(n == m && n.get() == m.get(), what << " is not shared with an equal monomial");
	CHK(m->id() != 0 && m->id() == n->id() && m->hash() == n->hash() && std::hash<M>()(m) == std::hash<M>()(n), what << " has another identity than an equal monomial");
	for (std::size_t i = 1; i < m->nrVariables(); ++i) CHK((*m)[i - 1].first < (*m)[i].first, what << " is not sorted by variables");
}

LAW(monomial_arithmetic, 60000, 800000) {
	Exp a = exponents(c, 40), b = related(c, a); std::size_t v = c.idx(K), w = c.idx(K); unsigned n = unsigned(c.draw(5));
	c.in("a", str(a)); c.in("b", str(b)); c.in("v", v); c.in("w", w); c.in("n", n);
	c.label_if(divides(b, a), "b divides a"); c.label_if(a == b, "equal"); c.label_if(deg(a) == 0 || deg(b) == 0, "one"); c.nontrivial(deg(a) && deg(b));
	M x = rp::monomial(a), y = rp::monomial(b); Variable var = rp::vars()[v], war = rp::vars()[w];
	is(x, a, "a"); is(y, b, "b");
	Exp ev{}; ev[v] = 1; Exp ew{}; ew[w] = 1;
	auto plus = [](unsigned i, unsigned j) { return i + j; };
	is(x * y, op(a, b, plus), "a*b"); is(y * x, op(a, b, plus), "b*a");
	is(x * var, op(a, ev, plus), "a*v"); is(var * x, op(a, ev, plus), "v*a"); is(var * war, op(ev, ew, plus), "v*w");
	is(Monomial::lcm(x, y), op(a, b, [](unsigned i, unsigned j) { return std::max(i, j); }), "lcm");
	if (x && y) is(carl::gcd(x, y), op(a, b, [](unsigned i, unsigned j) { return std::min(i, j); }), "gcd");
	if (x || y) is(Monomial::calcLcmAndDivideBy(x, y), op(a, b, [](unsigned i, unsigned j) { return i > j ? i - j : 0u; }), "lcm(a,b)/b");
	is(carl::pow(var, n ? n : 1), [&] { Exp e{}; e[v] = n ? n : 1; return e; }(), "v^n");
	if (x) {
		M r;
		CHK_EQ(x->divisible(y), divides(b, a), "divisible");
		bool d = x->divide(y, r); CHK_EQ(d, divides(b, a), "divide"); if (d) is(r, op(a, b, [](unsigned i, unsigned j) { return i - j; }), "a/b");
		d = x->divide(var, r); CHK_EQ(d, a[v] > 0, "divide by variable"); if (d) is(r, op(a, ev, [](unsigned i, unsigned j) { return i - j; }), "a/v");
		Exp dr = a; dr[v] = 0; is(x->dropVariable(var), dr, "a without v");
		CHK_EQ(x->exponentOfVariable(var), carl::exponent(a[v]), "exponent"); CHK_EQ(x->has(var), a[v] > 0, "has");
		std::size_t nv = 0; bool sq = true; for (auto k : a) { nv += k > 0; sq = sq && k % 2 == 0; }
		CHK_EQ(x->nrVariables(), nv, "number of variables"); CHK_EQ(x->isSquare(), sq, "isSquare");
		CHK_EQ(x->isLinear(), deg(a) == 1, "isLinear"); CHK_EQ(x->isAtMostLinear(), deg(a) <= 1, "isAtMostLinear"); CHK(!x->isConstant(), "isConstant");
		CHK_EQ(x->hasNoOtherVariable(var), nv == 1 && a[v] > 0, "hasNoOtherVariable");
		if (nv == 1) CHK(x->exponents().front().first == x->getSingleVariable(), "getSingleVariable");
		M s = x->sqrt(); CHK_EQ(bool(s), sq, "sqrt"); if (s) { Exp h = a; for (auto& k : h) k /= 2; is(s, h, "sqrt"); }
		CHK(!x->integerValued(), "integer valued over reals");
		std::set<Variable> vs; for (std::size_t i = 0; i < K; ++i) if (a[i]) vs.insert(rp::vars()[i]);
		carl::carlVariables cv; carl::variables(*x, cv); CHK(cv.as_set() == vs, "variables");
		if (n) { Exp p = a; for (auto& k : p) k *= n; is(carl::pow(x, n), p, "a^n"); }
		auto dv = carl::derivative(x, var, n);
		std::size_t f = 1; for (unsigned i = 0; i < n; ++i) f *= a[v] >= i ? a[v] - i : 0;
		CHK_EQ(dv.first, f, "factor of the derivative"); if (f) { Exp e = a; e[v] -= n; is(dv.second, e, "derivative"); }
		std::map<Variable, Q> sub; Q val(1); for (std::size_t i = 0; i < K; ++i) if (c.chance(2, 3)) { Q q = small_rational(c, 3, 2); sub[rp::vars()[i]] = q; }
		// construction from the variables in any order
		std::vector<std::size_t> perm; for (std::size_t i = 0; i < K; ++i) if (a[i]) perm.push_back(i);
		M z; for (std::size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[c.idx(i)]);
		for (auto i : perm) z = z * carl::createMonomial(rp::vars()[i], carl::exponent(a[i]));
		is(z, a, "a from powers of variables");
		M z2; for (auto i : perm) for (unsigned k = 0; k < a[i] && k < 50; ++k) z2 = z2 * rp::vars()[i];
		is(z2, a, "a from variables");
	}
	if (v != w) is(carl::createMonomial(std::initializer_list<std::pair<Variable, carl::exponent>>{{war, 2}, {var, 1}}), op(ev, op(ew, ew, plus), plus), "w^2*v");
}

LAW(monomial_order, 60000, 800000) {
	Exp a = exponents(c), b = related(c, a), d = c.coin() ? related(c, b) : related(c, a); std::size_t v = c.idx(K);
	c.in("a", str(a)); c.in("b", str(b)); c.in("d", str(d)); c.in("v", v); c.label_if(deg(a) == deg(b), "same degree"); c.nontrivial(deg(a) && deg(b));
	M x = rp::monomial(a), y = rp::monomial(b), z = rp::monomial(d); Variable var = rp::vars()[v];
	int k = cmp(a, b);
	CHK_EQ(x == y, k == 0, "a==b"); CHK_EQ(x != y, k != 0, "a!=b"); CHK_EQ(x < y, k < 0, "a<b"); CHK_EQ(x > y, k > 0, "a>b"); CHK_EQ(x <= y, k <= 0, "a<=b"); CHK_EQ(x >= y, k >= 0, "a>=b");
	CHK_EQ(std::less<M>()(x, y), k < 0, "std::less"); CHK_EQ(std::equal_to<M>()(x, y), k == 0, "std::equal_to");
	CHK_EQ(int(Monomial::compareGradedLexical(x, y)), k, "graded comparison"); CHK_EQ(carl::GrLexOrdering::less(x, y), k < 0, "ordering"); CHK_EQ(carl::GrLexOrdering::equal(x, y), k == 0, "ordering");
	CHK_EQ(carl::GrLexOrdering()(x, y), k < 0, "ordering");
	// compatible with multiplication, which division algorithms and Groebner bases rely on
	CHK_EQ(x * z < y * z, k < 0, "order after multiplication"); CHK(!(x * z < x), "a product is smaller than a factor");
	CHK_EQ(int(Monomial::compareLexical(x, y)), -int(Monomial::compareLexical(y, x)), "lexical comparison is not antisymmetric"); CHK_EQ(Monomial::compareLexical(x, y) == CompareResult::EQUAL, a == b, "lexical comparison");
	std::set<M> s{x, y, z}; std::set<Exp> rs{a, b, d}; CHK_EQ(s.size(), rs.size(), "ordered set"); std::unordered_set<M> us{x, y, z}; CHK_EQ(us.size(), rs.size(), "hash set");
	Exp ev{}; ev[v] = 1; int i = cmp(a, ev);
	CHK_EQ(x == var, i == 0, "a==v"); CHK_EQ(var == x, i == 0, "v==a"); CHK_EQ(x != var, i != 0, "a!=v"); CHK_EQ(var != x, i != 0, "v!=a");
	CHK_EQ(x < var, i < 0, "a<v"); CHK_EQ(var < x, i > 0, "v<a"); CHK_EQ(x > var, i > 0, "a>v"); CHK_EQ(var > x, i < 0, "v>a");
	CHK_EQ(x <= var, i <= 0, "a<=v"); CHK_EQ(var <= x, i >= 0, "v<=a"); CHK_EQ(x >= var, i >= 0, "a>=v"); CHK_EQ(var >= x, i <= 0, "v>=a");
}

static void term_is(const Term<Q>& t, const Q& k, const Exp& e, const char* what) {
	CHK(t.coeff() == k, what << " has coefficient " << t.coeff() << ", expected " << k);
	if (k != 0) is(t.monomial(), e, what);
}
LAW(terms, 60000, 800000) {
	Exp a = exponents(c), b = related(c, a); Q p = small_rational(c, 4, 3), q = c.chance(1, 3) ? p : small_rational(c, 4, 3); std::size_t v = c.idx(K); unsigned n = unsigned(c.draw(4));
	if (c.chance(1, 4)) { for (auto& k : a) k *= 2; p = p * p; }
	c.in("a", str(a)); c.in("b", str(b)); c.in("p", p); c.in("q", q); c.in("v", v); c.in("n", n); c.label_if(p == 0 || q == 0, "zero"); c.label_if(divides(b, a), "b divides a"); c.nontrivial(deg(a) && deg(b) && p != 0 && q != 0);
	Variable var = rp::vars()[v]; M x = rp::monomial(a), y = rp::monomial(b); Term<Q> s(p, x), t(q, y);
	Exp ev{}; ev[v] = 1; auto plus = [](unsigned i, unsigned j) { return i + j; }; auto minus = [](unsigned i, unsigned j) { return i - j; };
	term_is(s, p, a, "s"); term_is(-s, -p, a, "-s");
	term_is(s * t, p * q, op(a, b, plus), "s*t"); term_is(s * y, p, op(a, b, plus), "s*m"); term_is(y * s, p, op(a, b, plus), "m*s");
	term_is(s * var, p, op(a, ev, plus), "s*v"); term_is(var * s, p, op(a, ev, plus), "v*s"); term_is(s * q, p * q, a, "s*q"); term_is(q * s, p * q, a, "q*s");
	term_is(x * q, q, a, "m*q"); term_is(q * x, q, a, "q*m"); term_is(var * q, q, ev, "v*q"); term_is(q * var, q, ev, "q*v");
	Term<Q> u = s; u *= t; term_is(u, p * q, op(a, b, plus), "s*=t"); u = s; u *= y; term_is(u, p, op(a, b, plus), "s*=m"); u = s; u *= var; term_is(u, p, op(a, ev, plus), "s*=v"); u = s; u *= q; term_is(u, p * q, a, "s*=q");
	u = s; u *= u; term_is(u, p * p, op(a, a, plus), "s*=s"); u = s; u.negate(); term_is(u, -p, a, "negate"); u = s; u.clear(); CHK(carl::isZero(u) && !u.monomial(), "clear");
	term_is(Term<Q>(p, var, 1), p, ev, "constructed"); term_is(Term<Q>(var), 1, ev, "constructed"); term_is(Term<Q>(x), 1, a, "constructed"); term_is(Term<Q>(p), p, Exp{}, "constructed");
	if (q != 0) {
		term_is(s / q, p / q, a, "s/q"); if (p != 0) term_is(x / q, 1 / q, a, "m/q");
		Term<Q> r; bool d = s.divide(t, r); CHK_EQ(d, divides(b, a), "divide"); if (d) term_is(r, p / q, op(a, b, minus), "s/t");
		CHK_EQ(s.divisible(t), divides(b, a), "divisible");
		if (n) term_is(s / carl::uint(n), p / Q(n), a, "s/n");
	}
	Term<Q> r; bool d = s.divide(y, r); CHK_EQ(d, divides(b, a), "divide by monomial"); if (d) term_is(r, p, op(a, b, minus), "s/m");
	std::size_t nv = 0; bool sq = p >= 0; for (auto k : a) { nv += k > 0; sq = sq && k % 2 == 0; }
	CHK_EQ(carl::isZero(s), p == 0, "isZero"); CHK_EQ(carl::isOne(s), p == 1 && deg(a) == 0, "isOne"); CHK_EQ(s.isConstant(), deg(a) == 0, "isConstant"); CHK_EQ(s.isLinear(), deg(a) <= 1, "isLinear");
	CHK_EQ(s.tdeg(), carl::uint(deg(a)), "degree"); CHK_EQ(s.getNrVariables(), nv, "variables"); CHK_EQ(s.has(var), a[v] > 0, "has"); CHK_EQ(s.hasNoOtherVariable(var), nv == 0 || (nv == 1 && a[v]), "hasNoOtherVariable");
	CHK_EQ(s.isSingleVariable(), deg(a) == 1, "isSingleVariable"); CHK_EQ(s.isSquare(), sq, "isSquare"); CHK_EQ(s.integerValued(), deg(a) == 0 && p.get_den() == 1, "integerValued");
	if (x) { Exp dr = a; dr[v] = 0; term_is(s.dropVariable(var), p, dr, "dropVariable"); }
	Term<Q> root; bool ok = p >= 0 && s.sqrt(root);
	bool exp_ok = sq && mpz_perfect_square_p(p.get_num_mpz_t()) && mpz_perfect_square_p(p.get_den_mpz_t());
	CHK_EQ(ok, exp_ok, "sqrt"); if (ok) { Exp h = a; for (auto& k : h) k /= 2; Q rc = root.coeff(); CHK(rc * rc == p, "sqrt of coefficient"); term_is(root, rc, h, "sqrt"); }
	if (n && p != 0) { Exp e = a; for (auto& k : e) k *= n; term_is(carl::pow(s, n), q_pow(p, n), e, "power"); }
	Exp de = a; Q df = p; for (unsigned i = 0; i < n; ++i) { df *= de[v]; if (de[v]) --de[v]; }
	term_is(carl::derivative(s, var, n), df, de, "derivative");
	// order: monomial first, then coefficient
	int k = cmp(a, b); if (k == 0) k = ::cmp(p, q) < 0 ? -1 : ::cmp(p, q) > 0 ? 1 : 0;
	if (p != 0 && q != 0) {
		CHK_EQ(s == t, k == 0, "s==t"); CHK_EQ(s != t, k != 0, "s!=t"); CHK_EQ(s < t, k < 0, "s<t"); CHK_EQ(s > t, k > 0, "s>t"); CHK_EQ(s <= t, k <= 0, "s<=t"); CHK_EQ(s >= t, k >= 0, "s>=t");
		if (s == t) CHK_EQ(std::hash<Term<Q>>()(s), std::hash<Term<Q>>()(t), "hash");
		CHK_EQ(Term<Q>::monomialEqual(s, t), a == b, "monomialEqual"); CHK_EQ(Term<Q>::monomialLess(s, t), cmp(a, b) < 0, "monomialLess"); CHK_EQ(carl::GrLexOrdering::less(s, t), cmp(a, b) < 0, "ordering of terms");
		auto with = [&](const auto& o, const Q& oc, const Exp& oe, const char* name) {
			int i = cmp(a, oe); if (i == 0) i = ::cmp(p, oc) < 0 ? -1 : ::cmp(p, oc) > 0 ? 1 : 0;
			CHK_EQ(s == o, i == 0, "s==" << name); CHK_EQ(o == s, i == 0, name << "==s"); CHK_EQ(s != o, i != 0, "s!=" << name); CHK_EQ(s < o, i < 0, "s<" << name); CHK_EQ(o < s, i > 0, name << "<s");
			CHK_EQ(s > o, i > 0, "s>" << name); CHK_EQ(o > s, i < 0, name << ">s"); CHK_EQ(s <= o, i <= 0, "s<=" << name); CHK_EQ(o <= s, i >= 0, name << "<=s"); CHK_EQ(s >= o, i >= 0, "s>=" << name); CHK_EQ(o >= s, i <= 0, name << ">=s");
		};
		with(y, Q(1), b, "monomial"); with(var, Q(1), ev, "variable"); with(q, q, Exp{}, "number");
	}
}

// Monomials come and go: identities are unique among the living, sharing is never lost, and freed identities
// are reused without disturbing the others.
LAW_B(pool_histories, 3000, 40000, 25) {
	std::map<Exp, M> alive; std::size_t steps = 20 + c.draw(200); unsigned range = 2 + unsigned(c.draw(6));
	c.in("steps", steps); c.in("range", range); std::size_t created = 0, dropped = 0; std::ostringstream log;
	for (std::size_t i = 0; i < steps; ++i) {
		Exp e{}; for (auto& k : e) if (c.coin()) k = unsigned(c.draw(range));
		std::size_t o = c.draw(6);
		if (deg(e) == 0) continue;
		if (o < 3) { M m = o == 0 ? rp::monomial(e) : nullptr; if (o == 1) for (std::size_t v = 0; v < K; ++v) for (unsigned k = 0; k < e[v]; ++k) m = rp::vars()[v] * m;
			if (o == 2) { Exp f = e, g = e; for (std::size_t v = 0; v < K; ++v) { f[v] = unsigned(c.draw(e[v] + 1)); g[v] = e[v] - f[v]; } m = rp::monomial(f) * rp::monomial(g); }
			auto it = alive.find(e); if (it != alive.end()) CHK(it->second.get() == m.get(), "a second object for a living monomial " << str(e)); else { alive[e] = m; ++created; } }
		else if (o < 5 && !alive.empty()) { auto it = std::next(alive.begin(), long(c.idx(alive.size()))); alive.erase(it); ++dropped; }
		else { M tmp = rp::monomial(e); M big = tmp * tmp; (void)big; }
		if (i % 16 == 0) {
			std::set<std::size_t> ids; for (auto& m : alive) { CHK(ids.insert(m.second->id()).second, "two living monomials share an identity"); CHK(m.second->id() <= carl::MonomialPool::getInstance().largestID(), "identity beyond the largest"); CHK(rp::exp_of(m.second) == m.first, "a living monomial changed"); }
			CHK(carl::MonomialPool::getInstance().size() >= alive.size(), "the pool has lost monomials");
		}
	}
	std::set<std::size_t> ids; for (auto& m : alive) { CHK(ids.insert(m.second->id()).second, "two living monomials share an identity"); CHK(m.second.get() == rp::monomial(m.first).get(), "sharing lost"); }
	std::size_t before = carl::MonomialPool::getInstance().size(), n = alive.size();
	alive.clear();
	CHK_EQ(carl::MonomialPool::getInstance().size(), before - n, "released monomials stay in the pool");
	c.label_if(created > 60, "many monomials"); c.nontrivial(created > 5 && dropped > 0);
}

// Sets of variables with filters, against plain sets.
LAW(variable_sets, 20000, 300000) {
	static std::vector<Variable> pool = [] { std::vector<Variable> r; for (int i = 0; i < 3; ++i) for (auto t : {carl::VariableType::VT_BOOL, carl::VariableType::VT_REAL, carl::VariableType::VT_INT, carl::VariableType::VT_UNINTERPRETED, carl::VariableType::VT_BITVECTOR}) r.push_back(carl::freshVariable(t)); return r; }();
	using VT = carl::VariableType;
	std::size_t fi = c.draw(6); c.in("filter", fi);
	std::function<bool(VT)> pred; carl::variable_type_filter f = carl::variable_type_filter::all();
	switch (fi) {
		case 0: pred = [](VT) { return true; }; break;
		case 1: f = carl::variable_type_filter::arithmetic(); pred = [](VT t) { return t == VT::VT_REAL || t == VT::VT_INT; }; break;
		case 2: f = carl::variable_type_filter::boolean(); pred = [](VT t) { return t == VT::VT_BOOL; }; break;
		case 3: f = carl::variable_type_filter::excluding({VT::VT_BITVECTOR, VT::VT_REAL}); pred = [](VT t) { return t != VT::VT_BITVECTOR && t != VT::VT_REAL; }; break;
		case 4: f = carl::variable_type_filter::only({VT::VT_INT, VT::VT_UNINTERPRETED}); pred = [](VT t) { return t == VT::VT_INT || t == VT::VT_UNINTERPRETED; }; break;
		default: f = carl::variable_type_filter::excluding({VT::VT_BOOL, VT::VT_INT, VT::VT_UNINTERPRETED}); pred = [](VT t) { return t == VT::VT_BITVECTOR || t == VT::VT_REAL; }; break;
	}
	for (auto v : pool) { CHK_EQ(f.apply(v), pred(v.type()), "filter on variable"); CHK_EQ(f.apply(v.type()), pred(v.type()), "filter on type"); }
	carl::carlVariables s(f); std::set<Variable> r; std::size_t n = c.draw(25); std::ostringstream log;
	for (std::size_t i = 0; i < n; ++i) {
		Variable v = pool[c.idx(pool.size())]; std::size_t o = c.draw(9); log << o << "," << v.id() << "," << int(v.type()) << " ";
		switch (o) {
			case 0: s.erase(v); r.erase(v); break;
			case 1: { std::vector<Variable> vs; for (std::size_t k = c.draw(5); k > 0; --k) vs.push_back(pool[c.idx(pool.size())]); s.add(vs.begin(), vs.end()); for (auto w : vs) if (pred(w.type())) r.insert(w); break; }
			case 2: CHK_EQ(s.has(v), r.count(v) > 0, "has"); break;
			case 3: CHK_EQ(s.size(), r.size(), "size"); break;
			case 4: if (c.chance(1, 6)) { s.clear(); r.clear(); } break;
			case 5: CHK(std::vector<Variable>(s.begin(), s.end()) == std::vector<Variable>(r.begin(), r.end()), "iteration after " << log.str()); break;
			default: s.add(v); if (pred(v.type())) r.insert(v); break;
		}
		CHK_EQ(s.empty(), r.empty(), "empty");
	}
	c.in("history", log.str()); c.nontrivial(n > 3);
	carl::carlVariables t(r.begin(), r.end()); CHK(s == t, "equality with the same set built at once");
	CHK(s.as_set() == r, "as set"); CHK(s.as_vector() == std::vector<Variable>(r.begin(), r.end()), "as vector"); CHK(std::vector<Variable>(s.begin(), s.end()) == std::vector<Variable>(r.begin(), r.end()), "iteration");
	for (auto v : pool) CHK_EQ(s.has(v), r.count(v) > 0, "has");
	auto part = [&](const carl::carlVariables& p, std::initializer_list<VT> ts, const char* what) { std::set<Variable> e; for (auto v : r) if (std::find(ts.begin(), ts.end(), v.type()) != ts.end()) e.insert(v); CHK(p.as_set() == e, what); };
	part(s.boolean(), {VT::VT_BOOL}, "boolean"); part(s.integer(), {VT::VT_INT}, "integer"); part(s.real(), {VT::VT_REAL}, "real"); part(s.arithmetic(), {VT::VT_INT, VT::VT_REAL}, "arithmetic"); part(s.bitvector(), {VT::VT_BITVECTOR}, "bitvector"); part(s.uninterpreted(), {VT::VT_UNINTERPRETED}, "uninterpreted");
}

// Variables: fresh ones are new, names belong to the variable they were given to.
LAW_B(variables, 3000, 40000, 50) {
	auto& vp = carl::VariablePool::getInstance(); using VT = carl::VariableType;
	std::vector<std::pair<Variable, std::string>> all; std::size_t n = 2 + c.draw(20); static int uniq = 0; std::ostringstream log;
	for (std::size_t i = 0; i < n; ++i) {
		VT t = c.pick<VT>({VT::VT_BOOL, VT::VT_REAL, VT::VT_INT, VT::VT_UNINTERPRETED, VT::VT_BITVECTOR}); std::size_t o = c.draw(4); log << int(t) << o << " ";
		std::size_t cnt = vp.nrVariables(t);
		if (o < 3 || all.empty()) {
			std::string name = o == 0 ? "" : "n" + std::to_string(++uniq);
			Variable v = o == 0 ? carl::freshVariable(t) : o == 1 ? carl::freshVariable(name, t) : vp.getFreshPersistentVariable(name, t);
			CHK(v.type() == t, "type of a fresh variable"); CHK(v.id() > 0 && v.rank() == 0, "id of a fresh variable"); CHK_EQ(vp.nrVariables(t), cnt + 1, "number of variables");
			for (auto& w : all) { CHK(w.first != v && !(w.first == v), "a fresh variable equals an older one"); CHK((w.first < v) != (v < w.first), "order of variables"); if (w.first.type() == t) CHK(w.first < v, "later variables of a type are larger"); }
			all.emplace_back(v, name);
		} else { auto& p = all[c.idx(all.size())]; p.second = "r" + std::to_string(++uniq); vp.setName(p.first, p.second); }
		for (auto& w : all) if (!w.second.empty()) { CHK_EQ(w.first.name(), w.second, "name"); CHK(vp.findVariableWithName(w.second) == w.first, "variable not found by name " << w.second); std::ostringstream os; os << w.first; CHK_EQ(os.str(), w.second, "printed name"); }
		else { CHK(!w.first.name().empty(), "unnamed variables print something"); CHK(vp.getName(w.first) == vp.getName(w.first, false), "default name"); }
	}
	c.in("history", log.str()); c.nontrivial(n > 3);
	CHK(vp.findVariableWithName("no such variable") == Variable::NO_VARIABLE, "unknown name");
	for (auto& a : all) for (auto& b : all) { CHK_EQ(a.first.name() == b.first.name(), a.first == b.first, "distinct variables have distinct names"); CHK_EQ(vp.getName(a.first, false) == vp.getName(b.first, false), a.first == b.first, "distinct default names"); CHK_EQ(a.first <= b.first, a.first < b.first || a.first == b.first, "order"); CHK_EQ(a.first >= b.first, b.first <= a.first, "order"); CHK_EQ(a.first > b.first, b.first < a.first, "order"); }
}

PBT_MAIN("P02", "a case is a choice of monomials, coefficients and variables or a history of pool operations; nontrivial if no operand is the constant monomial or zero, or if the history creates and drops objects; distinct by the rendered operands")
