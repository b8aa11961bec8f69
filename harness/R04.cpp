// R04: values of polynomials and truth of constraints at points with algebraic coordinates.
#include "ran.h"
namespace carl::ran::interval { template<typename N, typename P> class LazardEvaluation; } // only there with CoCoA, but named by the next header
#include <carl/ran/interval/ran_interval_extra.h>
using namespace gen;
using rt::U; using rt::Root; using rt::Field; using rt::El; using rp::P; using rp::CP; using rp::vars; using rr::RAN; using carl::Relation;

static const std::vector<Relation> rels{Relation::EQ, Relation::NEQ, Relation::LESS, Relation::LEQ, Relation::GREATER, Relation::GEQ};
static bool holds(int s, Relation r) {
	switch (r) { case Relation::EQ: return s == 0; case Relation::NEQ: return s != 0; case Relation::LESS: return s < 0; case Relation::LEQ: return s <= 0; case Relation::GREATER: return s > 0; default: return s >= 0; }
}
static El value(const Field& f, const P& p, const std::vector<El>& vals) {
	El r;
	for (auto& t : p.t) { El k{t.second}; for (std::size_t i = 0; i < vals.size(); ++i) for (unsigned e = 0; e < t.first[i]; ++e) k = rt::fmul(f, k, vals[i]); r = rt::add(r, k); }
	return rt::rem(r, f.m);
}
static void point(pbt::Ctx& c, std::size_t n, int maxdeg, unsigned maxexp) {
	Field f = rt::field(c, maxdeg); c.in("field", rt::show(f.g));
	std::vector<El> vals; std::vector<Root> refs; carl::ran_assignment<Q> m;
	for (std::size_t i = 0; i < n; ++i) {
		El e;
		switch (c.weighted({3, 2, 1, 1})) {
			case 0: e = rt::element(c, f); break;
			case 1: e = {Q(0), Q(1)}; break;
			case 2: e = i ? c.coin() ? vals[0] : rt::neg(vals[0]) : El{Q(1), Q(1)}; break;
			default: e = rt::trim({small_rational(c)}); break;
		}
		vals.push_back(e); refs.push_back(rt::element_root(f, e));
		c.in(vars()[i].name().c_str(), rt::show(refs.back()));
		m.emplace(vars()[i], rr::make(c, refs.back()));
	}
	if (c.chance(1, 6)) m.emplace(vars()[4], RAN(Q(3))); // a variable that does not occur
	rp::Shape s; s.nvars = n; s.maxexp = maxexp; s.maxterms = 4; s.integral = c.coin();
	P p = rp::poly(c, s);
	if (c.chance(1, 3)) { // make it zero or close to zero
		P rel = rt::to_p(refs[0].p, 0); if (n > 1 && c.coin()) rel = rp::mono(0) - rp::mono(1);
		if (n > 1 && c.chance(1, 4)) rel = rp::mono(0) + rp::mono(1);
		p = rel * (c.coin() ? P(Q(1)) : rp::nonzero(c, s)); if (c.chance(1, 3)) p = p + P(frac(Z(long(c.range(-1, 1))), Z(1) << unsigned(c.draw(30))));
	}
	c.in("p", p);
	El v = value(f, p, vals); int sg = rt::fsign(f, v);
	c.nontrivial(v.size() > 1 || p.nvars() > 0); c.label_if(sg == 0 && !p.zero(), "vanishes"); c.label_if(v.size() > 1, "irrational value");
	Root ref = rt::element_root(f, v);
	CP cp = rp::to_carl(p);
	bool refine = c.coin();
	auto r = carl::evaluate(cp, m, refine);
	CHK(bool(r), "no value");
	rr::is(*r, ref, "the value");
	for (std::size_t i = 0; i < n; ++i) rr::is(m.at(vars()[i]), refs[i], "coordinate " + std::to_string(i) + " afterwards");
	Relation rel = rels[c.idx(6)]; bool bounds = c.coin(); c.in("relation", rel); c.in("root bounds", bounds);
	carl::Constraint<CP> con(cp, rel);
	carl::ran_assignment<Q> m2; for (std::size_t i = 0; i < n; ++i) m2.emplace(vars()[i], rr::make(c, refs[i]));
	// The constraint may be normalized, but must have the same truth value.
	auto t = carl::evaluate(con, m2, c.coin(), bounds);
	CHK(!boost::logic::indeterminate(t), "no truth value");
	CHK_EQ(bool(t), holds(sg, rel), "truth of p " << rel << " 0");
	for (std::size_t i = 0; i < n; ++i) rr::is(m2.at(vars()[i]), refs[i], "coordinate " + std::to_string(i) + " after the constraint");
}
LAW_B(one_coordinate, 4000, 80000, 100) { point(c, 1, 4, 4); }
LAW_B(two_coordinates, 1500, 30000, 50) { point(c, 2, 3, 2); }
LAW_B(three_coordinates, 400, 8000, 20) { point(c, 3, 2, 1); }

// The same value when the coordinates are assigned one after the other.
static void stepwise(pbt::Ctx& c, std::size_t n, int maxdeg, unsigned maxexp) {
	Field f = rt::field(c, maxdeg); c.in("field", rt::show(f.g)); std::vector<El> vals; std::vector<Root> refs; std::map<carl::Variable, RAN> m;
	for (std::size_t i = 0; i < n; ++i) {
		El e = c.chance(1, 5) ? rt::trim({small_rational(c)}) : c.chance(1, 3) ? El{Q(0), Q(1)} : rt::element(c, f); if (i && c.chance(1, 5)) e = rt::neg(vals[0]);
		vals.push_back(e); refs.push_back(rt::element_root(f, e)); c.in(vars()[i].name().c_str(), rt::show(refs.back())); m.emplace(vars()[i], rr::make(c, refs.back()));
	}
	rp::Shape s; s.nvars = n; s.maxexp = maxexp; s.maxterms = 4; s.integral = c.coin(); P p = rp::poly(c, s); if (c.chance(1, 4)) p = rt::to_p(refs[0].p, 0) * (c.coin() ? P(Q(1)) : rp::nonzero(c, s)); c.in("p", p);
	El v = value(f, p, vals); Root ref = rt::element_root(f, v); c.nontrivial(p.nvars() > 0); c.label_if(v.size() > 1, "irrational value"); c.label_if(v.empty(), "vanishes");
	carl::ran::interval::ran_evaluator<Q> ev(rp::to_carl(p)); bool all = c.coin(); std::vector<std::size_t> order; for (std::size_t i = 0; i < n; ++i) order.insert(order.begin() + long(c.draw(i + 1)), i);
	if (all) CHK_EQ(ev.assign(m, c.coin()) || ev.has_value(), true, "all coordinates are assigned");
	else for (auto i : order) if (!ev.has_value()) { bool done = ev.assign(vars()[i], m.at(vars()[i]), c.coin()); CHK_EQ(done, ev.has_value(), "assigning " << vars()[i] << " says whether there is a value"); }
	c.label(all ? "at once" : "one by one"); CHK(ev.has_value(), "no value"); rr::is(ev.value(), ref, "the value"); for (std::size_t i = 0; i < n; ++i) rr::is(m.at(vars()[i]), refs[i], "coordinate " + std::to_string(i) + " afterwards");
}
LAW_B(stepwise_one, 1500, 30000, 50) { stepwise(c, 1, 4, 3); }
LAW_B(stepwise_two, 500, 10000, 20) { stepwise(c, 2, 3, 2); }

LAW(rational_points, 5000, 100000) {
	rp::Shape s; s.nvars = 3; s.maxexp = 3; s.maxterms = 5; P p = rp::poly(c, s); auto x = rp::point(c);
	c.in("p", p); c.in("x", x[0]); c.in("y", x[1]); c.in("z", x[2]); c.nontrivial(p.nvars() > 1);
	carl::ran_assignment<Q> m; std::map<carl::Variable, Q> mq;
	for (std::size_t i = 0; i < 3; ++i) { m.emplace(vars()[i], RAN(x[i])); mq.emplace(vars()[i], x[i]); }
	Q v = rp::eval(p, x); CP cp = rp::to_carl(p);
	auto r = carl::evaluate(cp, m); CHK(r && r->is_numeric() && r->value() == v, "value at a rational point");
	CHK_EQ(carl::evaluate(cp, mq), v, "value at numbers");
	for (auto rel : rels) {
		carl::Constraint<CP> con(cp, rel);
		CHK_EQ(bool(carl::evaluate(con, m)), holds(sgn(v), rel), "truth of p " << rel << " 0");
		CHK_EQ(carl::evaluate(con, mq), holds(sgn(v), rel), "truth at numbers of p " << rel << " 0");
	}
	Q a = x[0], b = x[1]; if (b < a) std::swap(a, b);
	CHK(carl::sample_above(a) > a && carl::sample_below(a) < a && carl::branching_point(a) == a, "samples around a number");
	if (a < b) { Q t = carl::sample_between(a, b); CHK(a < t && t < b, "sample between numbers is " << t); }
}
PBT_MAIN("R04", "the polynomial has a variable (algebraic points) or two (rational points)")
