// Models: evaluation of polynomials, constraints, comparisons and formulas under (partial) models whose values are numbers, algebraic numbers, polynomials or roots.
#include "fm.h"
#include "ran.h"
#include <carl-model/Model.h>
#include <carl-model/Assignment.h>
#include <carl-model/evaluation/ModelEvaluation.h>
using namespace fm;
using RAN = rr::RAN; using Mo = carl::Model<Q, CP>; using MV = carl::ModelValue<Q, CP>; using MR = carl::MultivariateRoot<CP>; using VC = carl::VariableComparison<CP>; using VA = carl::VariableAssignment<CP>; using T = FormulaType;
// Exact numbers a + b sqrt(2).
struct E { Q a, b; E(const Q& x = 0, const Q& y = 0) : a(x), b(y) {} };
static E operator+(const E& x, const E& y) { return {Q(x.a + y.a), Q(x.b + y.b)}; }
static E operator-(const E& x, const E& y) { return {Q(x.a - y.a), Q(x.b - y.b)}; }
static E operator*(const E& x, const E& y) { return {Q(x.a * y.a + 2 * x.b * y.b), Q(x.a * y.b + x.b * y.a)}; }
static bool operator==(const E& x, const E& y) { return x.a == y.a && x.b == y.b; }
static int sign(const E& x) { if (x.b == 0) return sgn(x.a); if (x.a == 0) return sgn(x.b); if (sgn(x.a) == sgn(x.b)) return sgn(x.a); Q d = x.a * x.a - 2 * x.b * x.b; return d > 0 ? sgn(x.a) : sgn(x.b); }
static int cmp(const E& x, const E& y) { return sign(x - y); }
static std::ostream& operator<<(std::ostream& o, const E& e) { o << e.a; if (e.b != 0) o << "+" << e.b << "*sqrt2"; return o; }
using Pt = std::array<E, K>;
static E eval(const P& p, const Pt& x) { E r; for (auto& t : p.t) { E m(t.second); for (std::size_t i = 0; i < K; ++i) for (unsigned k = 0; k < t.first[i]; ++k) m = m * x[i]; r = r + m; } return r; }
static bool holds_s(int s, Relation r) { return holds(Q(s), r); }
// Representations of a number as a real algebraic number.
static RAN ran(const E& e, bool interval) {
	if (e.b != 0) { rr::UP p(rp::vars()[0], std::vector<Q>{Q(e.a * e.a - 2 * e.b * e.b), Q(-2 * e.a), Q(1)}); Q lo = e.b > 0 ? e.a : Q(e.a + 2 * e.b), hi = e.b > 0 ? Q(e.a + 2 * e.b) : e.a; return RAN::create_safe(p, rr::open(lo, hi)); }
	if (!interval) return RAN(e.a);
	rr::UP p(rp::vars()[0], std::vector<Q>{Q(e.a * (e.a + 3)), Q(-2 * e.a - 3), Q(1)}); return RAN::create_safe(p, rr::open(Q(e.a - 1), Q(e.a + 1)));
}
static void is(const RAN& r, const E& e, const std::string& what) {
	if (r.is_numeric()) { CHK(e.b == 0 && e.a == r.value(), what << " is " << r.value() << ", expected " << e); return; }
	E v; auto& co = r.polynomial().coefficients(); for (std::size_t i = co.size(); i-- > 0;) v = v * e + E(co[i]);
	CHK(sign(v) == 0, what << " is a root of " << r.polynomial() << ", expected " << e); CHK(cmp(E(r.interval().lower()), e) < 0 && cmp(e, E(r.interval().upper())) < 0, what << " lies in " << r.interval() << ", expected " << e);
}
static void is(const MV& m, const E& e, const std::string& what) { if (m.isRational()) CHK(e.b == 0 && e.a == m.asRational(), what << " is " << m.asRational() << ", expected " << e); else { CHK(m.isRAN(), what << " is no number but " << m << ", expected " << e); is(m.asRAN(), e, what); } }
static E gen_e(pbt::Ctx& c, bool irrational = true) { Q a = Q(long(c.range(-4, 4))) / 2; if (!irrational || c.chance(1, 2)) return E(a); static const long B[] = {1, -1, 2}; return E(a, Q(B[c.idx(3)]) / (1 + long(c.draw(2)))); }
// What a model says about one variable.
struct Def { enum { NONE, NUM, RANNUM, RANIV, POLY, ROOT } k = NONE; E e; P p; std::vector<P> f; bool square = false; std::size_t n = 1; };
static std::ostream& operator<<(std::ostream& o, const Def& d) { switch (d.k) { case Def::NONE: return o << "-"; case Def::POLY: return o << "{" << d.p << "}"; case Def::ROOT: o << "root " << d.n << " of"; for (auto& f : d.f) o << " (z-(" << f << "))"; return o << (d.square ? " (z^2+1)" : ""); default: return o << d.e << (d.k == Def::RANIV ? "[interval]" : d.k == Def::RANNUM ? "[algebraic]" : ""); } }
static P gen_in(pbt::Ctx& c, std::size_t from) { P p(Q(long(c.range(-3, 3))) / 2); for (std::size_t i = from; i < K; ++i) if (c.chance(1, 2)) p = p + rp::scale(c.chance(1, 4) ? rp::mono(i, 2) : rp::mono(i), Q(long(c.range(-2, 2)))); return p; }
static Def gen_def(pbt::Ctx& c, std::size_t i, bool partial) {
	Def d; if (partial && c.chance(1, 3)) return d;
	if (i == 2) { d.k = Def::NUM; d.e = E(Q(long(c.range(-3, 3)))); return d; }
	switch (c.weighted({4, 1, 4, i < 3 ? 3u : 0u, i < 3 ? 2u : 0u})) {
		case 0: d.k = Def::NUM; d.e = gen_e(c, false); break; case 1: d.k = Def::RANNUM; d.e = gen_e(c, false); break; case 2: d.k = Def::RANIV; d.e = gen_e(c); break;
		case 3: d.k = Def::POLY; d.p = gen_in(c, i + 1); break;
		default: d.k = Def::ROOT; d.n = 1 + c.idx(2); for (unsigned j = 0; j < 1 + c.draw(2); ++j) d.f.push_back(gen_in(c, i + 1)); d.square = c.chance(1, 4) && d.f.size() == 1; break;
	}
	return d;
}
static CP root_poly(const Def& d) { CP z(MR::var()), r(Q(1)); for (auto& f : d.f) r = r * (z - build(f)); if (d.square) r = r * (z * z + CP(Q(1))); return r; }
static MV value(const Def& d) {
	switch (d.k) {
		case Def::NUM: return MV(d.e.a); case Def::RANNUM: return MV(ran(d.e, false)); case Def::RANIV: return MV(ran(d.e, true));
		case Def::POLY: return carl::createSubstitution<Q, CP, carl::ModelPolynomialSubstitution<Q, CP>>(build(d.p));
		default: return carl::createSubstitution<Q, CP>(MR(root_poly(d), d.n));
	}
}
static std::vector<E> distinct(std::vector<E> v) { std::sort(v.begin(), v.end(), [](const E& a, const E& b) { return cmp(a, b) < 0; }); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
// Values of all variables; free[i] gives the value chosen for an undefined one. False when a root does not exist.
static bool solve(const std::array<Def, K>& d, const Pt& free, Pt& x) {
	for (std::size_t i = K; i-- > 0;) switch (d[i].k) {
		case Def::NONE: x[i] = free[i]; break; case Def::POLY: x[i] = eval(d[i].p, x); break;
		case Def::ROOT: { std::vector<E> r; for (auto& f : d[i].f) r.push_back(eval(f, x)); r = distinct(r); if (r.size() < d[i].n) return false; x[i] = r[d[i].n - 1]; break; }
		default: x[i] = d[i].e;
	}
	return true;
}
static bool determined(const std::array<Def, K>& d, std::size_t i) { // the value does not depend on a variable without a definition
	if (d[i].k == Def::NONE) return false; auto dep = [&](const P& p) { for (std::size_t j = 0; j < K; ++j) if (p.has(j) && !determined(d, j)) return false; return true; };
	if (d[i].k == Def::POLY) return dep(d[i].p); if (d[i].k == Def::ROOT) { for (auto& f : d[i].f) if (!dep(f)) return false; } return true;
}
static std::string show(const std::array<Def, K>& d) { static const char* nm[] = {"x", "y", "i", "u", "v"}; std::ostringstream s; for (std::size_t i = 0; i < K; ++i) s << nm[i] << ": " << d[i] << "  "; return s.str(); }
// Mostly one irrational number only: the library's cost grows quickly with the number of independent ones.
static std::array<Def, K> gen_defs(pbt::Ctx& c, bool partial) { std::array<Def, K> d; bool one = c.chance(5, 6), seen = false; for (std::size_t i = K; i-- > 0;) { d[i] = gen_def(c, i, partial); if (d[i].k == Def::RANIV && d[i].e.b != 0) { if (one && seen && i > 2) d[i].e.b = 0; seen = true; } }
	unsigned many = 0; for (auto& k : d) many += k.k == Def::RANIV && k.e.b != 0; if (many > 1) for (auto& k : d) if (k.k == Def::ROOT) { k = Def(); k.k = Def::NUM; k.e = gen_e(c, false); }
	return d;
}
static Mo model_of(const std::array<Def, K>& d) { Mo m; for (std::size_t i = 0; i < K; ++i) if (d[i].k != Def::NONE) m.emplace(vars()[i], value(d[i])); return m; }
static Pt gen_free(pbt::Ctx& c) { Pt x; for (std::size_t i = 0; i < K; ++i) x[i] = i == 2 ? E(Q(long(c.range(-3, 3)))) : gen_e(c, false); return x; }
static P gen_p(pbt::Ctx& c) { return c.chance(1, 2) ? small_poly(c) : c.chance(1, 2) ? gen_in(c, 0) : rp::poly(c, {3, 2, 3, false, false}); }

LAW(polynomials, 2500, 60000) {
	auto d = gen_defs(c, false); Pt x; if (!solve(d, {}, x)) { c.discard(); } c.in("model", show(d)); Mo m = model_of(d);
	for (std::size_t i = 0; i < K; ++i) { is(m.evaluated(vars()[i]), x[i], "value of variable " + std::to_string(i)); is(carl::model::evaluate(CP(vars()[i]), m), x[i], "variable " + std::to_string(i)); }
	P p = gen_p(c); c.in("polynomial", p); c.nontrivial(!p.constant()); E e = eval(p, x); is(carl::model::evaluate(build(p), m), e, "value"); c.label_if(e.b != 0, "irrational");
	Relation r = RELS[c.idx(6)]; carl::Constraint<CP> k(build(p), r); c.in("relation", r); auto mv = carl::model::evaluate(k, m); CHK(mv.isBool(), "the constraint is not decided"); CHK_EQ(mv.asBool(), holds_s(sign(e), r), "constraint with left-hand side " << e);
	CHK_EQ(carl::model::satisfiedBy(k, m), holds_s(sign(e), r) ? 1u : 0u, "satisfied");
	// A factor that vanishes exactly at an algebraic value.
	std::size_t i = c.chance(1, 2) ? 0 : 1; P q = rp::pow(rp::mono(i) - P(x[i].a), 2) - P(Q(2 * x[i].b * x[i].b)); P pq = p * q; auto z = carl::model::evaluate(carl::Constraint<CP>(build(pq), Relation::EQ), m); CHK(z.isBool() && z.asBool(), "the product with the minimal polynomial vanishes");
	// Roots of a polynomial in one further variable under the model.
	std::size_t v = c.idx(2); auto d2 = d; d2[v] = Def(); for (std::size_t j = 0; j < v; ++j) d2[j] = Def(); // nothing may depend on it
	P l1 = gen_in(c, v + 1), l2 = gen_in(c, v + 1); P f = (rp::mono(v) - l1) * (rp::mono(v) - l2); std::vector<E> want = distinct({eval(l1, x), eval(l2, x)});
	auto rs = carl::model::real_roots(build(f), vars()[v], model_of(d2)); CHK(rs.is_univariate(), "roots found"); CHK_EQ(rs.roots().size(), want.size(), "number of roots of " << f); for (std::size_t j = 0; j < want.size(); ++j) is(rs.roots()[j], want[j], "root");
	MR mr(root_poly([&] { Def t; t.f = {l1, l2}; return t; }()), 1 + c.idx(3)); auto ev = carl::model::evaluate(mr, model_of(d2)); if (mr.k() > want.size()) CHK(ev.isBool() && !ev.asBool(), "a root that does not exist is " << ev); else is(ev, want[mr.k() - 1], "multivariate root");
}
// Trees with comparisons of a variable with a root or number; b is the index in the list.
struct Cmp { std::size_t v = 0; Def d; Relation r = Relation::EQ; bool neg = false; bool assign = false; };
static std::ostream& operator<<(std::ostream& o, const Cmp& k) { return o << "(" << (k.neg ? "not " : "") << "xyiuv"[k.v] << (k.assign ? " -> " : " ") << k.r << " " << k.d << ")"; }
static Cmp gen_cmp(pbt::Ctx& c) { Cmp k; k.v = c.idx(2); do k.d = gen_def(c, k.v, false); while (k.d.k == Def::POLY); k.r = RELS[c.idx(6)]; k.neg = c.coin(); if (k.d.k != Def::ROOT && c.chance(1, 3)) { k.assign = true; k.r = Relation::EQ; } return k; }
static bool eval(const Cmp& k, const Pt& x) { E e = k.d.e; if (k.d.k == Def::ROOT) { std::vector<E> r; for (auto& f : k.d.f) r.push_back(eval(f, x)); r = distinct(r); if (r.size() < k.d.n) return k.neg; e = r[k.d.n - 1]; } return holds_s(cmp(x[k.v], e), k.r) != k.neg; }
static VC comparison(const Cmp& k) { VC v = k.d.k == Def::ROOT ? VC(vars()[k.v], MR(root_poly(k.d), k.d.n), k.r) : VC(vars()[k.v], ran(k.d.e, k.d.k == Def::RANIV), k.r); return k.neg ? v.negation() : v; }
static F formula_of(const Cmp& k) { if (k.assign) { if (k.d.k == Def::NUM) return F(VA(vars()[k.v], k.d.e.a, k.neg)); return F(VA(vars()[k.v], ran(k.d.e, k.d.k == Def::RANIV), k.neg)); } return F(comparison(k)); }
static void cmps(pbt::Ctx& c, N& n, std::vector<Cmp>& l) { if (n.s.empty() && l.size() < 3 && c.chance(1, 4)) { n.t = T::VARCOMPARE; n.b = l.size(); l.push_back(gen_cmp(c)); return; } for (auto& k : n.s) cmps(c, k, l); }
static F lib(const N& n, const std::vector<Cmp>& l) {
	if (n.t == T::VARCOMPARE) return formula_of(l[n.b]); if (n.s.empty()) return to_carl(n); if (n.t == T::NOT) return F(T::NOT, lib(n.s[0], l)); carl::Formulas<CP> v; for (auto& k : n.s) v.push_back(lib(k, l)); return F(n.t, std::move(v));
}
static bool eval(const N& n, const std::vector<Cmp>& l, const std::array<bool, NB>& b, const Pt& x) {
	switch (n.t) { case T::VARCOMPARE: return eval(l[n.b], x); case T::BOOL: return b[n.b]; case T::CONSTRAINT: return holds_s(sign(eval(n.p, x)), n.r); case T::TRUE: return true; case T::FALSE: return false; default: break; }
	std::vector<bool> v; for (auto& k : n.s) v.push_back(eval(k, l, b, x)); return combine(n.t, v);
}
static std::string show(const N& n, const std::vector<Cmp>& l) { std::ostringstream s; s << n; for (std::size_t i = 0; i < l.size(); ++i) s << "  #" << i << "=" << l[i]; return s.str(); }
static bool only_rational(const std::array<Def, K>& d) { for (auto& x : d) if (x.k != Def::NUM && x.k != Def::RANNUM && x.k != Def::NONE) return false; return true; }

LAW(formulas, 4000, 80000) {
	auto d = gen_defs(c, false); Pt x; if (!solve(d, {}, x)) { c.discard(); } c.in("model", show(d)); Mo m = model_of(d); std::array<bool, NB> b; for (std::size_t i = 0; i < NB; ++i) { b[i] = c.coin(); m.emplace(bools()[i], b[i]); }
	c.in("a b c d", std::string(b[0] ? "1" : "0") + (b[1] ? "1" : "0") + (b[2] ? "1" : "0") + (b[3] ? "1" : "0"));
	Shape sh; sh.depth = 2; sh.width = 3; N n = formula(c, sh); std::vector<Cmp> l; cmps(c, n, l); c.in("formula", show(n, l)); c.label_if(!l.empty(), "with comparisons");
	bool want = eval(n, l, b, x); F f = lib(n, l); c.in("stored", f); c.nontrivial(!f.isTrue() && !f.isFalse());
	auto mv = carl::model::evaluate(f, m); CHK(mv.isBool(), "not decided: " << mv); CHK_EQ(mv.asBool(), want, "truth value"); CHK_EQ(carl::model::satisfiedBy(f, m), want ? 1u : 0u, "satisfied"); F s = carl::model::substitute(f, m); CHK(want ? s.isTrue() : s.isFalse(), "substituted: " << s);
	CHK_EQ(carl::model::satisfiedBy(F(T::NOT, f), m), want ? 0u : 1u, "negation satisfied");
	std::map<Variable, Q> ra; bool total = carl::getRationalAssignmentsFromModel(m, ra); for (std::size_t i = 0; i < K; ++i) { bool rat = d[i].k == Def::NUM || d[i].k == Def::RANNUM; if (rat) { CHK(ra.count(vars()[i]), "rational value of variable " << i << " missing"); CHK_EQ(ra.at(vars()[i]), x[i].a, "rational value"); } else if (ra.count(vars()[i])) CHK_EQ(E(ra.at(vars()[i])), x[i], "rational value"); }
	CHK(carl::isPartOf(ra, m), "the rational part is part of the model"); bool irr = false; for (auto& q : d) if ((q.k == Def::RANIV) && q.e.b != 0) irr = true; if (irr) CHK(!total, "an irrational value was not transformed");  if (std::all_of(d.begin(), d.end(), [](const Def& q) { return q.k == Def::NUM || q.k == Def::RANNUM; })) CHK(total, "all values are rational");
	if (l.empty()) { unsigned s2 = carl::satisfies(m, f); c.label_if(s2 != 2, "decided by rationals"); if (only_rational(d)) CHK_EQ(s2, want ? 1u : 0u, "satisfies"); else CHK(s2 == 2 || s2 == (want ? 1u : 0u), "satisfies says " << s2); }
}
LAW(partial_models, 4000, 80000) {
	auto d = gen_defs(c, true); c.in("model", show(d)); Mo m = model_of(d); std::array<int, NB> b; for (std::size_t i = 0; i < NB; ++i) { b[i] = int(c.draw(3)); if (b[i] < 2) m.emplace(bools()[i], b[i] == 1); }
	c.in("a b c d", std::to_string(b[0]) + std::to_string(b[1]) + std::to_string(b[2]) + std::to_string(b[3]));
	Shape sh; sh.depth = 2; sh.width = 3; N n = formula(c, sh); std::vector<Cmp> l; cmps(c, n, l); c.in("formula", show(n, l)); F f = lib(n, l); F s = carl::model::substitute(f, m); unsigned r = carl::model::satisfiedBy(f, m); c.in("substituted", s);
	P p = gen_p(c); c.in("polynomial", p); CP sp = carl::model::substitute(build(p), m); auto pv = carl::model::evaluate(build(p), m); auto cv = carl::model::evaluate(carl::Constraint<CP>(build(p), Relation::LEQ), m);
	unsigned r2 = l.empty() ? carl::satisfies(m, f) : 2; c.label_if(r != 2, "decided"); unsigned done = 0;
	for (std::size_t j = 0; j < K; ++j) if (d[j].k == Def::NUM || d[j].k == Def::RANNUM || (d[j].k == Def::POLY && !determined(d, j))) CHK(!carl::variables(sp).has(vars()[j]), "variable " << j << " is left in " << sp);
	for (int t = 0; t < 4; ++t) {
		Pt x; if (!solve(d, gen_free(c), x)) continue; ++done; std::array<bool, NB> bb; for (std::size_t i = 0; i < NB; ++i) bb[i] = b[i] == 2 ? c.coin() : b[i] == 1;
		std::ostringstream at; at << "at"; for (auto& e : x) at << " " << e; for (bool q : bb) at << " " << q;
		bool want = eval(n, l, bb, x); if (r != 2) CHK_EQ(r, want ? 1u : 0u, "decided, but not so " << at.str()); if (r2 != 2) CHK_EQ(r2, want ? 1u : 0u, "satisfies decides, but not so " << at.str());
		if (pv.isRational() || pv.isRAN()) is(pv, eval(p, x), "value of the polynomial " + at.str()); if (cv.isBool()) CHK_EQ(cv.asBool(), sign(eval(p, x)) <= 0, "constraint " << at.str());
		// The rest evaluated in a completion of the model.
		Mo full; for (std::size_t i = 0; i < K; ++i) full.emplace(vars()[i], x[i].b == 0 && c.coin() ? MV(x[i].a) : MV(ran(x[i], c.coin()))); for (std::size_t i = 0; i < NB; ++i) full.emplace(bools()[i], bb[i]);
		CHK_EQ(carl::model::satisfiedBy(s, full), want ? 1u : 0u, "the substituted formula " << at.str()); is(carl::model::evaluate(sp, full), eval(p, x), "the substituted polynomial " + at.str());
		if (pv.isSubstitution()) { auto su = pv.asSubstitution()->clone(); is(su->evaluate(full), eval(p, x), "the remaining polynomial " + at.str()); }
		if (cv.isSubstitution()) { auto su = cv.asSubstitution()->clone(); MV w = su->evaluate(full); CHK(w.isBool(), "remaining constraint decided"); CHK_EQ(w.asBool(), sign(eval(p, x)) <= 0, "the remaining constraint " << at.str()); }
	}
	if (!done) { c.discard(); } c.nontrivial(!f.isTrue() && !f.isFalse());
}
LAW(comparisons, 8000, 200000) {
	Cmp k = gen_cmp(c); c.in("comparison", k); F f = formula_of(k); c.in("stored", f); c.nontrivial(k.d.k == Def::ROOT || k.d.e.b != 0);
	std::array<std::pair<VC, bool>, 4> vs{{{comparison(k), false}, {comparison(k).negation(), true}, {comparison(k).negation().negation(), false}, {comparison(k), false}}}; CHK(vs[0].first == vs[2].first && !(vs[0].first < vs[2].first), "negated twice"); CHK(!(vs[0].first == vs[1].first) && (vs[0].first < vs[1].first) != (vs[1].first < vs[0].first), "ordered");
	const VC& vc = vs[0].first; CHK(vc.var() == vars()[k.v] && vc.relation() == k.r && vc.negated() == k.neg, "parts"); Relation eff = k.neg ? carl::inverse(k.r) : k.r; CHK_EQ(vc.isEquality(), eff == Relation::EQ, "equality"); CHK(vc.invertRelation().relation() == carl::inverse(k.r) && vc.invertRelation().negated() == k.neg, "inverted");
	CHK(std::hash<VC>()(vc) == std::hash<VC>()(comparison(k)), "hash"); carl::carlVariables cv; vc.gatherVariables(cv); CHK(cv.has(vars()[k.v]), "its variable"); CHK(!cv.has(MR::var()), "the auxiliary variable is not a variable of it");
	CHK(lib(N{}, {}) == F(T::TRUE), "true"); CHK(f.negated().negated() == f, "formula negated twice");
	if (f.getType() == T::VARCOMPARE || f.getType() == T::VARASSIGN) { F g(T::OR, std::vector<F>{f, F(bools()[0])}); carl::carlVariables gv; g.gatherVariables(gv); CHK(gv.has(bools()[0]), "Boolean variable of " << g); CHK_EQ(gv.size(), cv.size() + 1, "number of variables of " << g); for (auto v : cv) CHK(gv.has(v), "variable " << v << " of " << g); }
	auto con = vc.asConstraint(); if (k.d.k == Def::NUM || k.d.k == Def::RANNUM) CHK(bool(con), "a comparison with a rational number is no constraint"); { Cmp k2 = gen_cmp(c); k2.v = k.v; if (c.coin()) k2.d = k.d; VC b = comparison(k2); CHK_EQ(int(vc < b) + int(b < vc) + int(vc == b), 1, "order of " << vc << " and " << b); } P dp; bool readable = true; CP def = vc.definingPolynomial(); dp = read(def);
	for (int t = 0; t < 4; ++t) {
		Pt x = gen_free(c); for (std::size_t i = 0; i < K; ++i) if (i != 2 && c.chance(1, 3)) x[i] = gen_e(c); std::vector<E> r; bool exists = true; E e = k.d.e;
		if (k.d.k == Def::ROOT) { for (auto& g : k.d.f) r.push_back(eval(g, x)); r = distinct(r); exists = r.size() >= k.d.n; if (exists) { e = r[k.d.n - 1]; if (c.coin()) x[k.v] = e; } } else if (c.coin()) x[k.v] = e;
		std::ostringstream at; at << "at"; for (auto& q : x) at << " " << q; if (t == 0) c.in("first point", at.str()); bool want = eval(k, x); Mo m; for (std::size_t i = 0; i < K; ++i) m.emplace(vars()[i], x[i].b == 0 && c.coin() ? MV(x[i].a) : MV(ran(x[i], c.coin())));
		CHK_EQ(carl::model::satisfiedBy(f, m), want ? 1u : 0u, "truth " << at.str()); CHK_EQ(carl::model::satisfiedBy(f.negated(), m), want ? 0u : 1u, "negation " << at.str()); CHK_EQ(carl::model::satisfiedBy(F(T::NOT, f), m), want ? 0u : 1u, "not " << at.str());
		if (!k.assign) { F rn = F(T::NOT, f).resolveNegation(); CHK_EQ(carl::model::satisfiedBy(rn, m), want ? 0u : 1u, "resolved negation " << rn << " " << at.str()); CHK_EQ(carl::model::satisfiedBy(F(vs[1].first), m), want ? 0u : 1u, "comparison negated " << at.str()); }
		if (con) { auto w = carl::model::evaluate(*con, m); CHK(w.isBool() && w.asBool() == want, "as a constraint " << *con << " " << at.str()); } if (exists) { Pt y = x; y[k.v] = e; CHK(sign(eval(dp, y)) == 0, "the defining polynomial " << def << " does not vanish " << at.str()); }
	}
	(void)readable;
}
// A formula changed in place that nothing else refers to.
LAW(in_place, 4000, 40000) {
	Cmp k = gen_cmp(c); c.in("comparison", k); c.nontrivial(true); Pt x = gen_free(c); if (k.d.k != Def::ROOT && c.coin()) x[k.v] = k.d.e; bool want = eval(k, x); Mo m; for (std::size_t i = 0; i < K; ++i) m.emplace(vars()[i], x[i].b == 0 && c.coin() ? MV(x[i].a) : MV(ran(x[i], c.coin())));
	F f = formula_of(k); carl::model::substituteIn(f, m); CHK(want ? f.isTrue() : f.isFalse(), "substituted in place: " << f); P p = small_poly(c); Relation r = RELS[c.idx(6)]; c.in("polynomial", p); c.in("relation", r); F g(build(p), r); carl::model::substituteIn(g, m); CHK(holds_s(sign(eval(p, x)), r) ? g.isTrue() : g.isFalse(), "constraint substituted in place: " << g);
	// Values taken from variables that are used afterwards.
	Q q = Q(long(c.range(-9, 9))) / 7, q0 = q; MV a(q); CHK(q == q0 && a.isRational() && a.asRational() == q0, "the number a value was made from"); MV b; b = q; CHK(q == q0 && b == a, "the number a value was assigned from"); RAN n = ran(gen_e(c), true), n0 = n; MV d(n); CHK(n == n0, "the algebraic number a value was made from"); carl::BVValue w(5, 11); MV e(w); CHK(w.width() == 5 && e.asBVValue() == w, "the bit-vector a value was made from"); F h = formula_of(k); MV s = carl::createSubstitution<Q, CP, carl::ModelFormulaSubstitution<Q, CP>>(h); MV s2(s); CHK(s.isSubstitution() && s2.isSubstitution() && s.asSubstitution() && s2.asSubstitution(), "copied substitution"); Mo ma; ma.assign(vars()[0], q); CHK(q == q0 && ma.at(vars()[0]).asRational() == q0, "the number a variable was assigned");
}
// Models that change between evaluations.
LAW(histories, 2500, 50000) {
	std::array<Def, K> d; Mo m; std::array<int, NB> b; b.fill(2); std::ostringstream h; auto N_ = [&] { std::size_t n = 0; for (auto& x : d) n += x.k != Def::NONE; for (int x : b) n += x != 2; return n; };
	unsigned steps = 4 + unsigned(c.draw(10)); c.nontrivial(true);
	for (unsigned t = 0; t < steps; ++t) {
		std::size_t i = c.idx(K); Def n = gen_def(c, i, false); bool was = d[i].k != Def::NONE; static const char* nm[] = {"x", "y", "i", "u", "v"}; std::size_t j = c.idx(NB);
		switch (c.draw(9)) {
			case 0: { h << "emplace " << nm[i] << " " << n << "; "; auto r = m.emplace(vars()[i], value(n)); CHK_EQ(r.second, !was, "emplaced after " << h.str()); if (!was) d[i] = n; break; }
			case 1: { h << "insert " << nm[i] << " " << n << "; "; auto r = m.insert(std::make_pair(carl::ModelVariable(vars()[i]), value(n))); CHK_EQ(r.second, !was, "inserted after " << h.str()); if (!was) d[i] = n; break; }
			case 2: case 3: h << "assign " << nm[i] << " " << n << "; "; m.assign(vars()[i], value(n)); d[i] = n; break;
			case 4: h << "erase " << nm[i] << "; "; if (c.coin()) m.erase(vars()[i]); else m.erase(m.find(vars()[i])); d[i] = Def(); break;
			case 5: { bool v = c.coin(); h << "assign " << "abcd"[j] << " " << v << "; "; m.assign(bools()[j], v); b[j] = v; break; }
			case 6: { h << "update"; Mo o; std::array<Def, K> od; for (std::size_t q = 0; q < K; ++q) if (c.chance(1, 3)) { od[q] = gen_def(c, q, false); o.emplace(vars()[q], value(od[q])); h << " " << nm[q] << " " << od[q]; } h << "; "; m.update(o, false); for (std::size_t q = 0; q < K; ++q) if (od[q].k != Def::NONE) d[q] = od[q]; break; }
			case 7: if (c.chance(1, 3)) { h << "clear; "; m.clear(); d = {}; b.fill(2); } else { Mo o(m); h << "copy, then"; for (std::size_t q = 0; q < K; ++q) { if (c.chance(1, 3)) { Def e = gen_def(c, q, false); h << " " << nm[q] << " " << e; m.assign(vars()[q], value(e)); } else if (c.chance(1, 4)) { h << " erase " << nm[q]; m.erase(vars()[q]); } } for (std::size_t q = 0; q < K; ++q) if (m.find(vars()[q]) != m.end() && !m.at(vars()[q]).isSubstitution()) (void)m.evaluated(vars()[q]); if (c.coin()) for (std::size_t q = 0; q < K; ++q) if (d[q].k == Def::POLY) (void)o.evaluated(vars()[q]); h << ", back; "; if (c.coin()) m = o; else { Mo p(std::move(o)); m = std::move(p); } } break;
			default: { // clean: substitutions that have become numbers are replaced by them
				Pt x; bool ok = solve(d, {}, x); for (std::size_t q = 0; q < K; ++q) if (d[q].k != Def::NONE && !determined(d, q)) ok = false; if (!ok) break;
				h << "clean; "; m.clean(); for (std::size_t q = 0; q < K; ++q) if (d[q].k != Def::NONE) { CHK(!m.at(vars()[q]).isSubstitution(), "substitution left after " << h.str()); if (d[q].k == Def::POLY || d[q].k == Def::ROOT) { d[q] = Def(); d[q].k = x[q].b == 0 ? Def::NUM : Def::RANIV; d[q].e = x[q]; } } break; }
		}
		CHK_EQ(m.size(), N_(), "size after " << h.str()); CHK_EQ(m.empty(), N_() == 0, "empty after " << h.str()); Pt x, fr = gen_free(c); bool ok = solve(d, fr, x); std::vector<Variable> has;
		for (std::size_t q = 0; q < K; ++q) { CHK_EQ(m.find(vars()[q]) != m.end(), d[q].k != Def::NONE, "variable " << nm[q] << " after " << h.str()); if (d[q].k != Def::NONE) has.push_back(vars()[q]); if (ok && c.coin() && determined(d, q)) is(m.evaluated(vars()[q]), x[q], std::string("value of ") + nm[q] + " after " + h.str()); else if (d[q].k == Def::POLY && c.coin()) { h << "look at " << nm[q] << "; "; const MV& w = m.evaluated(vars()[q]); if (ok && !determined(d, q)) CHK(w.isSubstitution() || w.isRational() || w.isRAN(), "value of " << nm[q] << " after " << h.str()); } }
		for (std::size_t q = 0; q < NB; ++q) { CHK_EQ(m.find(bools()[q]) != m.end(), b[q] != 2, "Boolean after " << h.str()); if (b[q] != 2) CHK(m.at(bools()[q]).isBool() && m.at(bools()[q]).asBool() == (b[q] == 1), "Boolean value after " << h.str()); }
		CHK(m.contains(has), "contains after " << h.str()); if (has.size() < K) { for (auto v : vars()) if (std::find(has.begin(), has.end(), v) == has.end()) { has.push_back(v); break; } CHK(!m.contains(has), "contains too much after " << h.str()); }
	}
	c.in("history", h.str());
}
LAW(descriptions, 6000, 100000) {
	Shape sh; sh.depth = 2; sh.width = 3; N n = formula(c, sh); c.in("formula", n); F f = to_carl(n); c.in("stored", f); c.nontrivial(!f.isTrue() && !f.isFalse());
	// A default model assigns every variable and keeps what was assigned.
	Mo m; std::array<bool, NB> b{}; Pt x{}; for (std::size_t i = 0; i < NB; ++i) if (c.chance(1, 3)) { b[i] = c.coin(); m.emplace(bools()[i], b[i]); } for (std::size_t i = 0; i < 3; ++i) if (c.chance(1, 3)) { x[i] = E(Q(long(c.range(-3, 3)))); m.emplace(vars()[i], x[i].a); }
	{ std::ostringstream s; s << m; c.in("given", s.str()); } std::map<Variable, Q> keep; for (std::size_t i = 0; i < 3; ++i) if (m.find(vars()[i]) != m.end()) keep.emplace(vars()[i], x[i].a);
	carl::getDefaultModel(m, f); CHK_EQ(carl::model::satisfiedBy(f, m), fm::eval(n, [&] { Env e; e.b = b; for (std::size_t i = 0; i < K; ++i) e.x[i] = x[i].a; return e; }()) ? 1u : 0u, "truth in the default model " << m);
	CHK(carl::isPartOf(keep, m), "part of the model"); for (std::size_t i = 0; i < K; ++i) if (m.find(vars()[i]) == m.end()) { auto o = keep; o.emplace(vars()[i], Q(1)); CHK(!carl::isPartOf(o, m), "not part of the model"); }
	// The formula that represents one value holds in the model and only for that value.
	auto d = gen_defs(c, false); Pt y; if (!solve(d, {}, y)) { c.discard(); } c.in("model", show(d)); Mo mm = model_of(d); std::size_t i = c.idx(2); F rf = carl::representingFormula(carl::ModelVariable(vars()[i]), mm); CHK_EQ(carl::model::satisfiedBy(rf, mm), 1u, "representing formula " << rf);
	Mo other; Pt z = y; z[i] = z[i] + E(Q(1)); for (std::size_t q = 0; q < K; ++q) other.emplace(vars()[q], z[q].b == 0 ? MV(z[q].a) : MV(ran(z[q], true))); CHK_EQ(carl::model::satisfiedBy(rf, other), 0u, "representing formula " << rf << " for another value"); bool bv = c.coin(); mm.emplace(bools()[0], bv); F bf = carl::representingFormula(carl::ModelVariable(bools()[0]), mm); CHK(bf == (bv ? F(bools()[0]) : F(T::NOT, F(bools()[0]))), "representing formula of a Boolean " << bf);
	{ // Square root expressions are rational values if they are constant without a root.
		Q a = gen::small_rational(c, 6, 4), den(long(c.range(1, 4))), rad(long(c.range(2, 3))), fac(long(c.coin() ? 0 : c.range(1, 3))); carl::SqrtEx<CP> e{CP(a), CP(fac), CP(den), CP(rad)}; Mo sm; sm.emplace(vars()[0], MV(e)); sm.emplace(vars()[1], MV(Q(3))); std::map<Variable, Q> got; bool all = carl::getRationalAssignmentsFromModel(sm, got);
		CHK_EQ(all, fac == 0, "all values rational with " << e); CHK_EQ(got.count(vars()[0]), std::size_t(fac == 0), "rational value of " << e); if (fac == 0) CHK_EQ(got.at(vars()[0]), Q(a / den), "value of " << e); CHK(got.count(vars()[1]) && got.at(vars()[1]) == 3, "other value");
	}
	// Values.
	MV v1 = value(d[0]), v2 = v1; CHK(v2.isSubstitution() == v1.isSubstitution() && v2.isRational() == v1.isRational() && v2.isRAN() == v1.isRAN(), "copied kind"); MV v3; v3 = v1; v1 = MV(true); CHK(v1.isBool() && v1.asBool() && !v3.isBool(), "assigned"); MV inf{carl::InfinityValue{true}}; CHK(inf.isPlusInfinity() && !inf.isMinusInfinity(), "infinity");
}
PBT_MAIN("M01", "the polynomial or formula is not constant, the comparison is with a root or an irrational number")
