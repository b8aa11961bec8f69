// I03: evaluating polynomials over boxes encloses all values, and contracting boxes loses no solution.
#include "iv.h"
#include "poly.h"
#include <carl/interval/IntervalEvaluation.h>
#include <carl/interval/Contractor.h>
#include <carl/interval/Contraction.h>
#include <carl/interval/trigonometric.h>
#include <carl/interval/exponential.h>
#include <carl/core/MultivariateHorner.h>
using namespace gen;
using iv::RI; using iv::E;
using carl::Interval; using carl::Variable;
using rp::P; using rp::K;

template<typename N> struct Box {
	std::array<RI, K> r;
	std::array<Q, K> pt;
	std::map<Variable, Interval<N>> m;
};
template<typename N> static Box<N> box(pbt::Ctx& c, std::size_t n, bool unbounded) {
	Box<N> b;
	for (std::size_t i = 0; i < K; ++i) {
		if (i < n) {
			b.r[i] = iv::interval<N>(c, false, unbounded);
			if (b.r[i].bounded() && qabs(b.r[i].lo.v) + qabs(b.r[i].hi.v) > 1000000) b.r[i] = iv::pt(Q(1));
			b.pt[i] = iv::inside(c, b.r[i]);
		} else { b.r[i] = iv::pt(Q(0)); b.pt[i] = 0; }
		b.m[rp::vars()[i]] = iv::to_carl<N>(b.r[i]);
	}
	return b;
}
template<typename N> static void show(pbt::Ctx& c, const Box<N>& b, std::size_t n) {
	static const char* names[] = {"x", "y", "z", "u", "v"};
	for (std::size_t i = 0; i < n; ++i) { std::ostringstream o; o << b.r[i] << " with " << b.pt[i]; c.in(names[i], o.str()); }
}
static bool pointbox(const std::array<RI, K>& r) { for (auto& i : r) if (!i.point()) return false; return true; }

template<typename N> void eval(pbt::Ctx& c) {
	rp::Shape s; s.nvars = 1 + c.idx(3); s.maxexp = 4;
	P p = rp::poly(c, s);
	Box<N> b = box<N>(c, s.nvars, true);
	c.in("p", p); show(c, b, s.nvars); c.nontrivial(!p.constant() && !pointbox(b.r));
	Q v = rp::eval(p, b.pt);
	auto q = rp::to_carl(p);
	RI g = iv::of(carl::IntervalEvaluation::evaluate(q, b.m));
	CHK(g.has(v), "the value " << v << " is not in " << g);
	if (std::is_same<N, Q>::value && pointbox(b.r)) CHK(g == iv::pt(v), "evaluation over a point gives " << g << " instead of " << v);
	for (auto& t : q) {
		P tp; tp.t[rp::exp_of(t.monomial())] = t.coeff();
		g = iv::of(carl::IntervalEvaluation::evaluate(t, b.m)); CHK(g.has(rp::eval(tp, b.pt)), "term: not in " << g);
		if (t.monomial()) { tp.t.begin()->second = 1; g = iv::of(carl::IntervalEvaluation::evaluate(*t.monomial(), b.m)); CHK(g.has(rp::eval(tp, b.pt)), "monomial: not in " << g); }
	}
	std::size_t mv = c.idx(s.nvars);
	g = iv::of(carl::IntervalEvaluation::evaluate(rp::to_uni_mv(p, mv), b.m));
	CHK(g.has(v), "as a polynomial in variable " << mv << ": the value " << v << " is not in " << g);
	// Horner's scheme
	if (!p.constant()) {
		c.label("Horner");
		carl::MultivariateHorner<rp::CP, carl::strategy> h{rp::CP(q)};
		g = iv::of(carl::IntervalEvaluation::evaluate(h, b.m));
		CHK(g.has(v), "Horner's scheme: the value " << v << " is not in " << g);
	}
}
LAW(evaluation_rational, 20000, 400000) { eval<Q>(c); }
LAW(evaluation_double, 20000, 400000) { eval<double>(c); }

LAW(evaluation_univariate, 20000, 400000) {
	P p = rp::uni(c, 0, 6);
	Box<Q> b = box<Q>(c, 1, true);
	c.in("p", p); show(c, b, 1); c.nontrivial(!p.constant() && !b.r[0].point());
	RI g = iv::of(carl::IntervalEvaluation::evaluate(rp::to_uni<Q>(rp::dense(p, 0)), b.m));
	Q v = rp::eval(p, b.pt);
	CHK(g.has(v), "the value " << v << " is not in " << g);
}

static carl::Relation holding(pbt::Ctx& c, const Q& v) {
	using R = carl::Relation;
	if (v == 0) return c.pick({R::EQ, R::LEQ, R::GEQ});
	return v < 0 ? c.pick({R::LESS, R::LEQ}) : c.pick({R::GREATER, R::GEQ});
}
static bool covered(const std::vector<RI>& rs, const Q& q) { for (auto& r : rs) if (r.has(q)) return true; return false; }

// Contracting with a constraint keeps the value of every solution in the box.
LAW(contractor, 40000, 800000) {
	rp::Shape s; s.nvars = 1 + c.idx(3); s.maxexp = 3; s.maxterms = 4;
	P p = rp::nonconstant(c, s);
	Box<double> b = box<double>(c, s.nvars, true);
	bool tight = !c.coin();
	Q v = rp::eval(p, b.pt);
	if (tight) { p = p - P(v); v = 0; }
	if (p.constant()) c.discard();
	std::vector<std::size_t> vs;
	for (std::size_t i = 0; i < s.nvars; ++i) if (p.has(i)) vs.push_back(i);
	std::size_t w = c.pick(vs);
	carl::Relation r = holding(c, v);
	c.in("p", p); c.in("relation", r); c.in("variable", w); show(c, b, s.nvars); c.nontrivial();
	c.label_if(tight, "equality possible");
	carl::Constraint<rp::CP> con(rp::to_carl(p), r);
	// the constructor may normalize the constraint, which must not matter
	if (!con.hasVariable(rp::vars()[w]) || con.relation() == carl::Relation::NEQ) c.discard();
	carl::contractor::Contractor<carl::Constraint<rp::CP>, rp::CP> k(con, con, rp::vars()[w]);
	std::vector<RI> e, res;
	for (auto& i : k.evaluate(b.m)) e.push_back(iv::of(i));
	CHK(covered(e, b.pt[w]), "evaluate loses " << b.pt[w]);
	for (auto& i : k.contract(b.m)) res.push_back(iv::of(i));
	CHK(covered(res, b.pt[w]), "contract loses " << b.pt[w]);
	for (auto& i : res) CHK(iv::covers(b.r[w], i), "contract leaves the box: " << i);
	c.label(res.size() == 1 ? (res[0] == b.r[w] ? "unchanged" : "contracted") : "split");
}
// Contracting for a root by an interval Newton step.
LAW(newton, 40000, 800000) {
	rp::Shape s; s.nvars = 1 + c.idx(3); s.maxexp = 3; s.maxterms = 4;
	P p = rp::nonconstant(c, s);
	Box<double> b = box<double>(c, s.nvars, !c.chance(3, 4));
	p = p - P(rp::eval(p, b.pt));
	if (p.constant()) c.discard();
	std::vector<std::size_t> vs;
	for (std::size_t i = 0; i < s.nvars; ++i) if (p.has(i)) vs.push_back(i);
	std::size_t w = c.pick(vs); bool nice = c.coin();
	c.in("p", p); c.in("variable", w); c.in("nice center", nice); show(c, b, s.nvars); c.nontrivial();
	carl::Contraction<carl::SimpleNewton, rp::CP> k(rp::to_carl(p));
	Interval<double> ra, rb;
	bool split = k(b.m, rp::vars()[w], ra, rb, nice, false);
	std::vector<RI> rs{iv::of(ra)};
	if (split) rs.push_back(iv::of(rb));
	CHK(covered(rs, b.pt[w]), "the root " << b.pt[w] << " is lost in " << rs[0] << (split ? " and a second part" : ""));
	for (auto& i : rs) CHK(iv::covers(b.r[w], i), "the result leaves the box: " << i);
	c.label(split ? "split" : rs[0] == b.r[w] ? "unchanged" : "contracted");
}
// Contracting with a linear equation or a product definition by solving for one variable.
LAW(propagation, 40000, 800000) {
	P p; std::size_t w = 0;
	Box<double> b = box<double>(c, 3, !c.chance(3, 4));
	bool linear = c.coin();
	if (linear) {
		for (std::size_t i = 0; i < 3; ++i) { Q q = rp::gen_coeff(c, rp::Shape()); if (i == 0 && q == 0) q = 1; p = p + rp::scale(rp::mono(i), q); }
		w = c.idx(3);
		if (!p.has(w)) w = 0;
		// make the point a root by moving the last coordinate of the box
		Q v = rp::eval(p, b.pt) / p.at([] { rp::Exp e{}; e[0] = 1; return e; }());
		b.pt[0] -= v;
		Q nx = b.pt[0];
		if (qabs(nx) > 1000000000) c.discard();
		if (!b.r[0].has(nx)) { b.r[0] = iv::hull(b.r[0], iv::pt(Q(iv::to_num<double>(nx)))); if (!b.r[0].has(nx)) c.discard(); }
		b.m[rp::vars()[0]] = iv::to_carl<double>(b.r[0]);
	} else {
		// u = monomial over x,y,z
		rp::Exp e{}; for (std::size_t i = 0; i < 3; ++i) e[i] = unsigned(c.draw(4));
		if (e[0] + e[1] + e[2] < 2) e[0] += 2;
		P m; m.t[e] = 1;
		p = m - rp::mono(3);
		b.pt[3] = rp::eval(m, b.pt);
		if (qabs(b.pt[3]) > 1000000000) c.discard();
		RI t = iv::interval<double>(c, false);
		b.r[3] = iv::hull(t, iv::pt(Q(iv::to_num<double>(b.pt[3]))));
		if (!b.r[3].has(b.pt[3])) c.discard();
		b.m[rp::vars()[3]] = iv::to_carl<double>(b.r[3]);
		std::vector<std::size_t> vs{3}; for (std::size_t i = 0; i < 3; ++i) if (e[i]) vs.push_back(i);
		w = c.pick(vs);
	}
	c.label(linear ? "linear" : "monomial");
	c.in("p", p); c.in("variable", w); show(c, b, 4); c.nontrivial();
	carl::Contraction<carl::SimpleNewton, rp::CP> k(rp::to_carl(p));
	Interval<double> ra, rb;
	bool split = k(b.m, rp::vars()[w], ra, rb, false, true);
	std::vector<RI> rs{iv::of(ra)};
	if (split) rs.push_back(iv::of(rb));
	CHK(covered(rs, b.pt[w]), "the root " << b.pt[w] << " is lost in " << rs[0] << (split ? " and a second part" : ""));
	c.label(split ? "split" : rs[0] == b.r[w] ? "unchanged" : "contracted");
}

// Variables over the integers: results may be shrunk to integers, but no integer solution is lost.
static const std::vector<Variable>& ints() { static std::vector<Variable> v{carl::freshIntegerVariable("i"), carl::freshIntegerVariable("j"), carl::freshIntegerVariable("k"), carl::freshIntegerVariable("l")}; return v; }
static rp::CP over_ints(const P& p) { rp::CP r(Q(0)); for (auto& t : p.t) { rp::CP m(t.second); for (std::size_t i = 0; i < 4; ++i) for (unsigned e = 0; e < t.first[i]; ++e) m *= ints()[i]; r += m; } return r; }
LAW(integers, 40000, 800000) {
	std::array<Q, K> pt; for (auto& q : pt) q = Q(long(c.range(-6, 6))); P p; int kind = int(c.draw(4)); std::size_t n = 4; P lin;
	if (kind == 0) { n = 3; for (std::size_t i = 0; i < 3; ++i) p = p + rp::scale(rp::mono(i), Q(long(c.range(-3, 3)))); if (!p.has(0)) p = p + rp::mono(0); P rest = p - rp::scale(rp::mono(0), p.at([] { rp::Exp e{}; e[0] = 1; return e; }())); Q one(c.coin() ? 1 : -1); p = rest + rp::scale(rp::mono(0), one); pt[0] = -rp::eval(rest, pt) / one; }
	else if (kind == 3) { // a nonlinear part is replaced by the variable that stands for it
		rp::Exp e{}; e[0] = unsigned(c.draw(3)); e[1] = 1 + unsigned(c.draw(2)); P m; m.t[e] = 1; Q a(long(c.range(-3, 3))), k(c.coin() ? long(c.range(1, 3)) : -1), one(c.coin() ? 1 : -1); P rest = rp::scale(rp::mono(0), a) + rp::scale(m, k); pt[3] = rp::eval(m, pt); pt[2] = -rp::eval(rest, pt) / one; p = rest + rp::scale(rp::mono(2), one); lin = rp::scale(rp::mono(0), a) + rp::scale(rp::mono(3), k) + rp::scale(rp::mono(2), one); }
	else if (kind == 1) { rp::Exp e{}; for (std::size_t i = 0; i < 3; ++i) e[i] = unsigned(c.draw(4)); if (e[0] + e[1] + e[2] < 2) e[0] += 2; P m; m.t[e] = 1; p = m - rp::mono(3); pt[3] = rp::eval(m, pt); }
	else { n = 1 + c.idx(3); rp::Shape s; s.nvars = n; s.maxexp = 3; s.maxterms = 4; s.integral = true; p = rp::nonconstant(c, s); p = p - P(rp::eval(p, pt)); if (p.constant()) c.discard(); }
	Box<double> b; for (std::size_t i = 0; i < n; ++i) { b.pt[i] = pt[i]; Q lo = pt[i] - Q(long(c.draw(9))) / 2, hi = pt[i] + Q(long(c.draw(9))) / 2; using B = carl::BoundType; B lt = lo < pt[i] && c.coin() ? B::STRICT : B::WEAK, ut = hi > pt[i] && c.coin() ? B::STRICT : B::WEAK; if (c.chance(1, 12)) ut = B::INFTY; if (c.chance(1, 12)) lt = B::INFTY; Interval<double> iv_(lo.get_d(), lt, hi.get_d(), ut); b.r[i] = iv::of(iv_); b.m[ints()[i]] = iv_; }
	bool nice = c.coin(), solve = kind != 2 && c.coin(); std::vector<std::size_t> vs; for (std::size_t i = 0; i < n; ++i) if (kind == 3 && solve ? lin.has(i) : p.has(i)) vs.push_back(i);
	std::size_t w = c.pick(vs); c.in("p", p); if (kind == 3) c.in("linear", lin); c.in("variable", w); c.in("nice center", nice); c.in("solve", solve); show(c, b, n); c.nontrivial(); rp::CP q = over_ints(p);
	{ using Con = carl::Contraction<carl::SimpleNewton, rp::CP>; Con k = kind == 3 ? Con(over_ints(lin), q) : Con(q); Interval<double> ra, rb; bool split = k(b.m, ints()[w], ra, rb, nice, solve); std::vector<RI> rs{iv::of(ra)}; if (split) rs.push_back(iv::of(rb));
	CHK(covered(rs, pt[w]), "the root " << pt[w] << " is lost in " << rs[0] << (split ? " and a second part" : "")); c.label(split ? "split" : rs[0] == b.r[w] ? "unchanged" : "contracted"); c.label_if(solve, "solved"); }
	carl::Relation r = holding(c, Q(0)); carl::Constraint<rp::CP> con(q, r); if (!con.hasVariable(ints()[w]) || con.relation() == carl::Relation::NEQ) return;
	carl::contractor::Contractor<carl::Constraint<rp::CP>, rp::CP> k(con, con, ints()[w]); std::vector<RI> res; for (auto& i : k.contract(b.m)) res.push_back(iv::of(i)); CHK(covered(res, pt[w]), "the contractor of " << con << " loses " << pt[w]);
}
// Elementary functions. The mathematical library is not correctly rounded, so a tiny slack is granted.
template<typename F, typename G> void elementary(const char* name, const Interval<double>& x, const RI& a, const Q& at, F&& f, G&& g) {
	RI r = iv::of(f(x));
	double v = g(at.get_d());
	if (!std::isfinite(v)) return;
	double slack = 1e-9 * (1 + std::fabs(v));
	bool ok = !r.empty && (r.lo.inf || r.lo.v.get_d() <= v + slack) && (r.hi.inf || r.hi.v.get_d() >= v - slack);
	CHK(ok, name << " of " << a << " is " << r << " and lacks " << v << " taken at " << at);
}
LAW(elementary_functions, 40000, 800000) {
	RI a = iv::interval<double>(c, false);
	if ((!a.lo.inf && qabs(a.lo.v) > 500) || (!a.hi.inf && qabs(a.hi.v) > 500)) c.discard();
	Q at = Q(iv::to_num<double>(iv::inside(c, a)));
	if (!a.has(at)) c.discard();
	c.in("a", a); c.in("at", at); c.nontrivial(!a.point());
	// where the function hardly changes over the interval the ends may cross because of the mathematical library (known finding)
	if (a.bounded() && a.hi.v - a.lo.v < Q(1, 1000)) c.discard();
	Interval<double> x = iv::to_carl<double>(a);
#define EL(F) elementary(#F, x, a, at, [](const Interval<double>& i) { return carl::F(i); }, [](double d) { return std::F(d); })
#define ELA(F) elementary(#F "_assign", x, a, at, [](Interval<double> i) { carl::F##_assign(i); return i; }, [](double d) { return std::F(d); })
	EL(exp); EL(sinh); EL(sin); EL(cos); EL(cosh); EL(atan); EL(asinh);
	if (a.bounded()) { ELA(exp); ELA(sinh); ELA(sin); ELA(cos); ELA(cosh); ELA(atan); ELA(asinh); }
	if (iv::covers(iv::make(E{0, Q(-5)}, true, E{0, Q(5)}, true), a)) { EL(tanh); ELA(tanh); }
	if (iv::covers(iv::make(E{0, Q(-3, 2)}, true, E{0, Q(3, 2)}, true), a)) { EL(tan); ELA(tan); }
	if (iv::covers(iv::make(E{0, Q(-1)}, true, E{0, Q(1)}, true), a)) { EL(asin); EL(acos); ELA(asin); ELA(acos); }
	if (iv::covers(iv::make(E{0, Q(-1)}, false, E{0, Q(1)}, false), a)) { EL(atanh); ELA(atanh); }
	if (iv::side(a, 1) == a && a.lo.v != 0) { EL(log); if (a.bounded()) ELA(log); }
	if (iv::covers(iv::make(E{0, Q(1)}, true, E{1, Q(0)}, true), a)) { EL(acosh); if (a.bounded()) ELA(acosh); }
	// exact values at zero must not be lost by open ends
	if (a.has(Q(0))) {
		CHK(iv::of(carl::sin(x)).has(Q(0)), "sin lacks 0"); CHK(iv::of(carl::cos(x)).has(Q(1)), "cos lacks 1"); CHK(iv::of(carl::cosh(x)).has(Q(1)), "cosh lacks 1"); CHK(iv::of(carl::exp(x)).has(Q(1)), "exp lacks 1");
	}
}
KNOWN(sinh_of_point, "the hyperbolic sine of the point interval [-2,-2] over doubles is the empty interval") { return carl::sinh(Interval<double>(-2.0)).isEmpty(); }
KNOWN(tanh_of_point, "the hyperbolic tangent of the point interval [-1,-1] over doubles is the empty interval") { return carl::tanh(Interval<double>(-1.0)).isEmpty(); }
PBT_MAIN("I03", "a case is non-trivial when the polynomial is not constant and the box is more than a point")
