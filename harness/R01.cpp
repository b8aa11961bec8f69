// R01: real algebraic numbers: construction, order, signs, rounding, sampling, and histories of refinements.
#include "ran.h"
#include <carl/ran/RealAlgebraicPoint.h>
using namespace gen;
using rt::U; using rt::Root; using rr::RAN; using rr::Iv; using rr::Bd; using carl::Relation; using carl::Sign;

static int sg(Sign s) { return s == Sign::NEGATIVE ? -1 : s == Sign::POSITIVE ? 1 : 0; }
static bool holds(int s, Relation r) {
	switch (r) { case Relation::EQ: return s == 0; case Relation::NEQ: return s != 0; case Relation::LESS: return s < 0; case Relation::LEQ: return s <= 0; case Relation::GREATER: return s > 0; default: return s >= 0; }
}
static const std::vector<Relation> rels{Relation::EQ, Relation::NEQ, Relation::LESS, Relation::LEQ, Relation::GREATER, Relation::GEQ};
static bool root(pbt::Ctx& c, int factors, Root& out) { auto rs = rt::isolate(rt::poly(c, factors)); if (rs.empty()) return false; out = rs[c.idx(rs.size())]; return true; }
static Q floor_of(Root r) { Z z = 0; rt::refine_to(r, Q(1, 4)); mpz_fdiv_q(z.get_mpz_t(), r.l.get_num_mpz_t(), r.l.get_den_mpz_t()); while (rt::cmp(r, Q(z + 1)) >= 0) ++z; while (rt::cmp(r, Q(z)) < 0) --z; return Q(z); }
// Numbers near the root or at interval ends, where mistakes show.
static Q nearby(pbt::Ctx& c, Root r) {
	switch (c.weighted({2, 2, 2, 1, 1})) {
		case 0: return small_rational(c, 12, 4);
		case 1: return floor_of(r) + Q(long(c.range(-1, 2)));
		case 2: for (unsigned k = unsigned(c.draw(12)); k > 0; --k) rt::refine(r); return c.coin() ? r.l : r.u;
		case 3: return (r.l + r.u) / 2;
		default: return -r.u;
	}
}

LAW(single, 15000, 300000) {
	Root r; if (!root(c, 3, r)) c.discard();
	c.in("root", rt::show(r));
	c.nontrivial(r.l != r.u); c.label_if(r.l == r.u, "rational");
	RAN a = rr::make(c, r);
	rr::is(a, r, "the constructed number");
	Root z = r; int s = rt::cmp(z, Q(0));
	CHK_EQ(sg(a.sgn()), s, "sign"); CHK_EQ(a.is_zero(), s == 0, "zero");
	Q f = floor_of(r); bool integral = rt::cmp(z, f) == 0;
	CHK_EQ(carl::floor(a), f, "floor"); CHK_EQ(carl::ceil(a), Q(integral ? f : f + 1), "ceiling");
	CHK_EQ(a.integer_below(), f, "integer below"); CHK_EQ(a.is_integral(), integral, "integrality"); CHK_EQ(carl::isInteger(a), integral, "integrality");
	if (integral) CHK(a.is_numeric() && a.value() == f, "an integer is not represented as such");
	Q above = carl::sample_above(a), below = carl::sample_below(a);
	CHK(rt::cmp(z, above) < 0, "sample above is " << above); CHK(rt::cmp(z, below) > 0, "sample below is " << below);
	Q branch = carl::branching_point(a); CHK(a.is_numeric() ? branch == a.value() : a.interval().contains(branch), "branching point");
	// Absolute value
	Root m = r; if (s < 0) { m.p = rt::compose(r.p, {Q(0), Q(-1)}); m.l = -r.u; m.u = -r.l; }
	rr::is(a.abs(), m, "absolute value"); rr::is(carl::abs(a), m, "absolute value");
	rr::is(a, r, "the number after taking the absolute value");
	CHK(a.size() > 0 || s == 0, "size");
	// Refinement keeps the value and shrinks the interval.
	unsigned n = unsigned(c.draw(12));
	for (unsigned k = 0; k < n && !a.is_numeric(); ++k) { auto i = a.interval(); a.refine(); if (!a.is_numeric()) CHK(i.contains(a.interval()) && a.interval() != i, "refining " << i << " gave " << a.interval()); else CHK(i.contains(a.value()), "refined out of the interval"); }
	rr::is(a, r, "the refined number");
	// Sign of polynomials
	U q = rt::poly(c, 2); if (c.coin()) q = rt::mul(q, r.p); if (c.chance(1, 4)) q = rt::mul(q, rt::diff(r.p)); if (c.chance(1, 8)) q = r.p; if (c.chance(1, 12)) q = {small_rational(c)}; q = rt::trim(q);
	c.in("q", rt::show(q));
	Root t = r; int sq = rt::sign_at(q, t);
	c.label_if(sq == 0, "root of the polynomial");
	CHK_EQ(sg(a.sgn(rr::up(q))), sq, "sign of the polynomial at the number");
	CHK_EQ(sg(a.sgn(rr::up(q, 2))), sq, "sign of the polynomial in another variable");
	CHK_EQ(bool(carl::is_root_of(rr::up(q), a) != 0), sq == 0, "root test");
	rr::is(a, r, "the number in the end");
}

LAW(against_numbers, 15000, 300000) {
	Root r; if (!root(c, 3, r)) c.discard();
	c.in("root", rt::show(r));
	RAN a = rr::make(c, r); Q q = nearby(c, r); c.in("number", q);
	Root t = r; int s = rt::cmp(t, q);
	c.nontrivial(r.l != r.u); c.label_if(s == 0, "equal");
	std::size_t from = c.idx(6);
	for (std::size_t i = 0; i < 6; ++i) { auto rel = rels[(from + i) % 6]; CHK_EQ(carl::compare(a, q, rel), holds(s, rel), "comparison " << rel << " with the number"); }
	CHK_EQ(a == q, s == 0, "=="); CHK_EQ(a != q, s != 0, "!="); CHK_EQ(a < q, s < 0, "<"); CHK_EQ(a <= q, s <= 0, "<="); CHK_EQ(a > q, s > 0, ">"); CHK_EQ(a >= q, s >= 0, ">=");
	CHK_EQ(q == a, s == 0, "reversed =="); CHK_EQ(q != a, s != 0, "reversed !="); CHK_EQ(q < a, s > 0, "reversed <"); CHK_EQ(q <= a, s >= 0, "reversed <="); CHK_EQ(q > a, s < 0, "reversed >"); CHK_EQ(q >= a, s <= 0, "reversed >=");
	rr::is(a, r, "the compared number");
	RAN b = rr::make(c, r);
	if (s < 0) { Q m = carl::sample_between(b, q); CHK(rt::cmp(t, m) < 0 && m < q, "sample between the root and " << q << " is " << m); }
	if (s > 0) { Q m = carl::sample_between(q, b); CHK(rt::cmp(t, m) > 0 && m > q, "sample between " << q << " and the root is " << m); }
	rr::is(b, r, "the sampled number");
	// Membership in intervals
	Q q2 = nearby(c, r); if (q2 < q) std::swap(q, q2);
	Bd lt = c.pick({Bd::STRICT, Bd::WEAK, Bd::INFTY}), ut = c.pick({Bd::STRICT, Bd::WEAK, Bd::INFTY});
	if (q == q2 && (lt != Bd::WEAK || ut != Bd::WEAK)) lt = ut = Bd::INFTY;
	Iv i(q, lt, q2, ut); c.in("interval", i);
	int sl = rt::cmp(t, q), su = rt::cmp(t, q2);
	bool in = (lt == Bd::INFTY || sl > 0 || (sl == 0 && lt == Bd::WEAK)) && (ut == Bd::INFTY || su < 0 || (su == 0 && ut == Bd::WEAK));
	RAN d = rr::make(c, r);
	CHK_EQ(d.contained_in(i), in, "membership in the interval"); c.label_if(in, "contained");
	rr::is(d, r, "the number after testing membership");
}

LAW(against_each_other, 15000, 300000) {
	// Roots of polynomials that share factors, so that equal numbers have different descriptions.
	U f = rt::poly(c, 2), g = rt::poly(c, 2), h = rt::poly(c, 2);
	if (c.chance(1, 5)) { f = rt::irreducible(c); }
	auto ra = rt::isolate(rt::mul(f, g)), rb = c.coin() ? rt::isolate(rt::mul(f, h)) : c.coin() ? rt::isolate(rt::compose(f, {Q(0), Q(-1)})) : rt::isolate(f);
	if (ra.empty() || rb.empty()) c.discard();
	std::size_t ia = c.idx(ra.size()); Root x = ra[ia], y = rb[c.idx(rb.size())];
	if (c.chance(1, 2)) for (auto& r : rb) { Root s = ra[ia], t = r; if (rt::cmp(s, t) == 0) y = r; }
	c.in("a", rt::show(x)); c.in("b", rt::show(y));
	Root s1 = x, s2 = y; int s = rt::cmp(s1, s2);
	c.nontrivial(x.l != x.u || y.l != y.u); c.label_if(s == 0, "equal"); c.label_if(s == 0 && x.p != y.p && x.l != x.u, "equal with different polynomials");
	RAN a = rr::make(c, x), b = rr::make(c, y);
	if (s == 0) CHK_EQ(std::hash<RAN>()(a), std::hash<RAN>()(b), "hash of equal numbers");
	std::size_t from = c.idx(6);
	for (std::size_t i = 0; i < 6; ++i) {
		auto rel = rels[(from + i) % 6];
		CHK_EQ(carl::compare(a, b, rel), holds(s, rel), "comparison " << rel);
		RAN a2 = rr::make(c, x), b2 = rr::make(c, y);
		CHK_EQ(carl::compare(b2, a2, rel), holds(-s, rel), "comparison " << rel << " of fresh copies, reversed");
		rr::is(a2, x, "first number"); rr::is(b2, y, "second number");
	}
	CHK_EQ(a == b, s == 0, "=="); CHK_EQ(a != b, s != 0, "!="); CHK_EQ(a < b, s < 0, "<"); CHK_EQ(a <= b, s <= 0, "<="); CHK_EQ(a > b, s > 0, ">"); CHK_EQ(a >= b, s >= 0, ">=");
	rr::is(a, x, "first number"); rr::is(b, y, "second number");
	if (s != 0) {
		RAN lo = rr::make(c, s < 0 ? x : y), hi = rr::make(c, s < 0 ? y : x);
		if (c.coin()) (void)(lo < hi);
		Q m = carl::sample_between(lo, hi);
		CHK(rt::cmp(s < 0 ? s1 : s2, m) < 0 && rt::cmp(s < 0 ? s2 : s1, m) > 0, "sample between is " << m);
	}
}

LAW(histories, 4000, 100000) {
	// Copies share their representation; whatever is done to one must leave the value of all others.
	struct N { RAN r; Root ref; };
	std::vector<N> pool; U f = rt::poly(c, 2), g = rt::poly(c, 2);
	for (auto& p : {f, g, rt::mul(f, g)}) for (auto& r : rt::isolate(p)) if (pool.size() < 7) pool.push_back({rr::make(c, r), r});
	if (pool.empty()) c.discard();
	c.in("f", rt::show(f)); c.in("g", rt::show(g)); c.nontrivial(pool.size() > 2);
	unsigned steps = 3 + unsigned(c.draw(15)); std::ostringstream log;
	for (unsigned k = 0; k < steps; ++k) {
		std::size_t i = c.idx(pool.size()), j = c.idx(pool.size());
		Root x = pool[i].ref, y = pool[j].ref; int s = rt::cmp(x, y);
		switch (c.weighted({3, 3, 2, 2, 2, 1, 1, 1})) {
			case 0: { log << "compare " << i << " " << j << "; "; auto rel = rels[c.idx(6)]; CHK_EQ(carl::compare(pool[i].r, pool[j].r, rel), holds(s, rel), "comparison " << rel); break; }
			case 1: { log << "copy " << i << " to " << j << "; "; if (c.coin()) { pool[j].r = pool[i].r; } else { RAN t(pool[i].r); pool[j].r = std::move(t); } pool[j].ref = pool[i].ref; break; }
			case 2: log << "refine " << i << "; "; pool[i].r.refine(); break;
			case 3: { Q q = nearby(c, x); log << "compare " << i << " with " << q << "; "; auto rel = rels[c.idx(6)]; CHK_EQ(carl::compare(pool[i].r, q, rel), holds(rt::cmp(x, q), rel), "comparison with a number"); break; }
			case 4: if (s < 0) { log << "sample between " << i << " " << j << "; "; Q m = carl::sample_between(pool[i].r, pool[j].r); CHK(rt::cmp(x, m) < 0 && rt::cmp(y, m) > 0, "sample between is " << m); } break;
			case 5: { Q q = nearby(c, x); log << "membership " << i << " " << q << "; "; CHK_EQ(pool[i].r.contained_in(Iv(q, Bd::WEAK, Q(0), Bd::INFTY)), rt::cmp(x, q) >= 0, "membership"); break; }
			case 6: log << "sign " << i << "; "; CHK_EQ(sg(pool[i].r.sgn()), rt::cmp(x, Q(0)), "sign"); CHK_EQ(carl::floor(pool[i].r), floor_of(x), "floor"); break;
			default: log << "sign of g at " << i << "; "; CHK_EQ(sg(pool[i].r.sgn(rr::up(g))), rt::sign_at(g, x), "sign of g"); break;
		}
		c.in("steps", log.str());
		for (std::size_t n = 0; n < pool.size(); ++n) rr::is(pool[n].r, pool[n].ref, "number " + std::to_string(n));
	}
	std::vector<RAN> v; for (auto& n : pool) v.push_back(n.r);
	std::sort(v.begin(), v.end());
	std::vector<Root> w; for (auto& n : pool) w.push_back(n.ref);
	std::sort(w.begin(), w.end(), [](Root a, Root b) { return rt::cmp(a, b) < 0; });
	for (std::size_t n = 0; n < v.size(); ++n) rr::is(v[n], w[n], "sorted number " + std::to_string(n));
}

// Points consist of the numbers they were made of, whatever their representation.
LAW(points, 2000, 30000) {
	using Pt = carl::RealAlgebraicPoint<Q>;
	std::vector<Root> rs; std::vector<RAN> xs, ys; std::size_t n = c.idx(4);
	for (std::size_t i = 0; i < n; ++i) { Root r; if (!root(c, 2, r)) c.discard(); c.in("root", rt::show(r)); rs.push_back(r); xs.push_back(rr::make(c, r)); ys.push_back(rr::make(c, r)); }
	c.nontrivial(n > 1);
	Pt p(xs), q(std::list<RAN>(ys.begin(), ys.end())), e;
	CHK(e.dim() == 0 && p.dim() == n && q.dim() == n, "dimension");
	CHK(p == q, p << " and " << q << " are different");
	if (n) {
		std::size_t k = c.idx(n + 1); Pt f = p.prefixPoint(k); CHK_EQ(f.dim(), k, "dimension of the prefix"); CHK(!(f == p) || k == n, "a proper prefix is equal");
		Pt g = f; for (std::size_t i = k; i < n; ++i) { Pt h = g.conjoin(ys[i]); CHK_EQ(g.dim(), i, "the point was changed"); g = h; }
		CHK(g == p, "the rebuilt point is " << g);
		for (std::size_t i = 0; i < n; ++i) rr::is(static_cast<const Pt&>(g)[i], rs[i], "component");
		std::size_t j = c.idx(n); Root o; if (root(c, 2, o)) { q[j] = rr::make(c, o); bool same = rt::cmp(o, rs[j]) == 0; CHK_EQ(p == q, same, p << " == " << q); rr::is(p[j], rs[j], "component of the other point"); c.label_if(!same, "different"); }
	}
	CHK((Pt{RAN(Q(1)), RAN(Q(2))}.dim()) == 2, "list");
}

PBT_MAIN("R01", "a root without an exact rational description is involved, or (histories) the pool has at least three numbers")
