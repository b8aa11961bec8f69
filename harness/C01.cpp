// C01: constraints keep their solutions through normalisation, and what they report about themselves is true.
#include "poly.h"
#include "iv.h"
#include <carl/formula/Constraint.h>
#include <carl/formula/ConstraintPool.h>
#include <carl/core/SimpleConstraint.h>
#include <carl/core/polynomialfunctions/Factorization.h>
using namespace gen;
using rp::P; using rp::Exp; using rp::CP; using rp::Shape; using rp::K;
using carl::Relation; using carl::Variable;
using C = carl::Constraint<CP>;

static const Relation RELS[] = {Relation::EQ, Relation::NEQ, Relation::LESS, Relation::LEQ, Relation::GREATER, Relation::GEQ};
static bool holds(int s, Relation r) { switch (r) { case Relation::EQ: return s == 0; case Relation::NEQ: return s != 0; case Relation::LESS: return s < 0; case Relation::LEQ: return s <= 0; case Relation::GREATER: return s > 0; default: return s >= 0; } }
static bool holds(const Q& v, Relation r) { return holds(sgn(v), r); }
static Relation neg(Relation r) { switch (r) { case Relation::EQ: return Relation::NEQ; case Relation::NEQ: return Relation::EQ; case Relation::LESS: return Relation::GEQ; case Relation::LEQ: return Relation::GREATER; case Relation::GREATER: return Relation::LEQ; default: return Relation::LESS; } }
static Relation turn(Relation r) { switch (r) { case Relation::LESS: return Relation::GREATER; case Relation::LEQ: return Relation::GEQ; case Relation::GREATER: return Relation::LESS; case Relation::GEQ: return Relation::LEQ; default: return r; } }

// Variables: some real, some integer; positions 0 and 2 may be of either kind.
struct Vars { std::vector<Variable> v; std::vector<bool> integral; };
static const std::vector<Variable>& ints() { static std::vector<Variable> v = [] { std::vector<Variable> r; for (const char* n : {"i", "j", "k", "l", "m"}) r.push_back(carl::freshIntegerVariable(n)); return r; }(); return v; }
static Vars choose(pbt::Ctx& c) {
	Vars r; unsigned kind = unsigned(c.weighted({3, 3, 2})); (void)ints();
	for (std::size_t i = 0; i < K; ++i) { bool in = kind == 1 || (kind == 2 && c.coin()); r.v.push_back(in ? ints()[i] : rp::vars()[i]); r.integral.push_back(in); }
	std::string s; for (bool b : r.integral) s += b ? 'i' : 'r'; c.in("kinds", s);
	return r;
}
static CP build(const P& p, const Vars& vs) {
	CP r; for (auto& t : p.t) { CP m(t.second); for (std::size_t i = 0; i < K; ++i) for (unsigned e = 0; e < t.first[i]; ++e) m = m * CP(vs.v[i]); r = r + m; }
	return r;
}
static P read(const CP& p, const Vars& vs) {
	P r; for (auto& t : p) { Exp e{}; if (t.monomial()) for (auto& ve : *t.monomial()) { bool f = false; for (std::size_t i = 0; i < K; ++i) if (vs.v[i] == ve.first) { e[i] = unsigned(ve.second); f = true; } CHK(f, "unexpected variable " << ve.first); } r.add(e, t.coeff()); }
	return r;
}
static std::array<Q, K> point(pbt::Ctx& c, const Vars& vs) { std::array<Q, K> x; for (std::size_t i = 0; i < K; ++i) x[i] = vs.integral[i] ? Q(long(c.range(-4, 4))) : small_rational(c, 6, 3); return x; }
static P gen_poly(pbt::Ctx& c) {
	Shape s; s.nvars = 1 + c.draw(3); s.maxexp = 1 + unsigned(c.draw(3)); s.maxterms = 1 + unsigned(c.draw(4)); s.integral = c.coin();
	switch (c.weighted({4, 3, 2, 1, 2, 1})) {
		case 0: return rp::poly(c, s);
		case 1: { P r(small_rational(c, 9, 4)); for (std::size_t i = 0; i < s.nvars; ++i) r = r + rp::scale(rp::mono(i), small_rational(c, 6, 3)); return r; } // linear
		case 2: return rp::scale(rp::mono(c.idx(3)), nonzero_rational(c)) + P(small_rational(c, 9, 4)); // bound
		case 3: { P r; r.add(Exp{}, small_rational(c, 3, 1)); return r; }
		case 4: return rp::scale(rp::mono(c.idx(3), 1 + unsigned(c.draw(4))), small_rational(c, 3, 2)); // one monomial
		default: { P r(small_rational(c, 2, 1)); for (std::size_t i = 0; i < s.nvars; ++i) r = r + rp::scale(rp::mono(i, 2), qabs(small_rational(c, 3, 1))); return c.coin() ? r : -r; }
	}
}
static std::string show(const P& p, Relation r) { std::ostringstream s; s << p << " " << r << " 0"; return s.str(); }
static void at_points(pbt::Ctx& c, const C& con, const P& p, Relation r, const Vars& vs, const char* what, int n = 12) {
	P l = read(con.lhs(), vs);
	for (int i = 0; i < n; ++i) {
		auto x = point(c, vs); bool e = holds(rp::eval(p, x), r);
		std::ostringstream at; for (std::size_t k = 0; k < 3; ++k) at << (k ? ", " : "") << x[k];
		CHK_EQ(holds(rp::eval(l, x), con.relation()), e, what << " " << con << " at (" << at.str() << ")");
		if (con.isConsistent() != 2) CHK_EQ(con.isConsistent() == 1, e, what << " is constant but differs at (" << at.str() << ")");
		std::map<Variable, Q> m; for (std::size_t k = 0; k < K; ++k) m[vs.v[k]] = x[k];
		CHK_EQ(con.satisfiedBy(m), e ? 1u : 0u, what << " evaluated at (" << at.str() << ")");
	}
}

LAW(normalisation, 12000, 250000) {
	Vars vs = choose(c); P p = gen_poly(c); Relation r = RELS[c.idx(6)]; c.in("constraint", show(p, r));
	C a(build(p, vs), r); c.in("stored as", a);
	c.nontrivial(!p.constant()); c.label_if(a.isConsistent() == 2 && !p.constant(), "neither true nor false"); c.label_if(a.isConsistent() != 2 && !p.constant(), "decided");
	at_points(c, a, p, r, vs, "constraint");
	at_points(c, a.negation(), p, neg(r), vs, "negation");
	if (p.constant()) CHK_EQ(a.isConsistent(), holds(p.at(Exp{}), r) ? 1u : 0u, "a constant constraint");
	if (a.isConsistent() == 1) CHK(a == C(true) && a == C(), "a valid constraint is not the trivial one");
	if (a.isConsistent() == 0) CHK(a == C(false), "an unsatisfiable constraint is not the trivial one");
	// The same constraint written differently is the same constraint.
	Q k = nonzero_rational(c); C b(build(rp::scale(p, k), vs), k > 0 ? r : turn(r)); c.in("scaled by", k);
	CHK(a == b && !(a != b), "scaled constraint is " << b);
	CHK_EQ(a.id(), b.id(), "identity"); CHK_EQ(a.getHash(), b.getHash(), "hash"); CHK_EQ(std::hash<C>()(a), std::hash<C>()(b), "hash");
	C cp(a), mv(std::move(cp)); cp = mv; CHK(cp == a && mv == a, "copy");
	// A constraint with other points is a different one.
	P q = c.coin() ? p + P(Q(1)) : gen_poly(c); Relation r2 = RELS[c.idx(6)]; C d(build(q, vs), r2); c.in("other", show(q, r2));
	if (d == a) at_points(c, d, p, r, vs, "equal constraint");
	CHK((d < a) + (a < d) + (d == a) == 1, "order"); CHK((d <= a) == !(a < d) && (d >= a) == !(d < a) && (d > a) == (a < d), "order");
	if (!a.hasIntegerValuedVariable()) CHK(a.negation().negation() == a, "double negation is " << a.negation().negation()); else at_points(c, a.negation().negation(), p, r, vs, "double negation");
	// Bounds built from variable, relation and number.
	std::size_t v = c.idx(3); Q n = small_rational(c, 9, 3); P bp = rp::mono(v) - P(n); C bd(vs.v[v], r, n); c.in("bound", show(bp, r));
	at_points(c, bd, bp, r, vs, "bound"); { auto x = point(c, vs); x[v] = vs.integral[v] ? Q(frac(n.get_num(), n.get_den()).get_num() / n.get_den()) : n; CHK_EQ(holds(rp::eval(read(bd.lhs(), vs), x), bd.relation()), holds(Q(x[v] - n), r), "bound near its number"); }
}
LAW(description, 10000, 200000) {
	Vars vs = choose(c); P p0 = gen_poly(c); Relation r0 = RELS[c.idx(6)]; c.in("constraint", show(p0, r0));
	C a(build(p0, vs), r0); P p = read(a.lhs(), vs); Relation r = a.relation(); c.in("stored as", a); c.nontrivial(!p.constant());
	std::size_t ni = 0, nr = 0; std::vector<Variable> used; for (std::size_t i = 0; i < K; ++i) if (p.has(i)) { (vs.integral[i] ? ni : nr)++; used.push_back(vs.v[i]); }
	CHK_EQ(a.integerValued(), nr == 0, "only integer variables"); CHK_EQ(a.realValued(), ni == 0, "only real variables"); CHK_EQ(a.hasIntegerValuedVariable(), ni > 0, "some integer variable"); CHK_EQ(a.hasRealValuedVariable(), nr > 0, "some real variable"); CHK(!a.isPseudoBoolean(), "Boolean variable");
	CHK_EQ(a.variables().size(), used.size(), "number of variables"); carl::carlVariables gv; a.gatherVariables(gv); CHK_EQ(gv.size(), used.size(), "gathered variables");
	CHK_EQ(a.constantPart(), p.at(Exp{}), "constant part"); CHK_EQ(a.relationIsStrict(), r == Relation::LESS || r == Relation::GREATER || r == Relation::NEQ, "strict"); CHK_EQ(a.relationIsWeak(), !a.relationIsStrict(), "weak");
	std::size_t cx = 1; for (auto& t : p.t) { ++cx; for (unsigned e : t.first) cx += e; } CHK_EQ(a.complexity(), cx, "complexity");
	// Degrees and coefficients, in any order of questions and also repeatedly.
	unsigned md = 0; for (std::size_t i = 0; i < K; ++i) md = std::max(md, p.degree(i)); CHK_EQ(a.maxDegree(), md, "maximal degree");
	for (int round = 0; round < 6; ++round) {
		std::size_t i = c.idx(K); Variable v = vs.v[i]; auto cs = rp::coeffs(p, i); bool has = p.has(i);
		CHK_EQ(a.hasVariable(v), has, "whether variable " << v << " occurs");
		unsigned mn = 0, occ = 0; for (auto& t : p.t) if (t.first[i]) { mn = mn ? std::min(mn, t.first[i]) : t.first[i]; ++occ; }
		CHK_EQ(a.maxDegree(v), cs.size() - 1, "degree in " << v); CHK_EQ(a.minDegree(v), mn, "least degree in " << v); CHK_EQ(a.occurences(v), occ, "occurrences of " << v);
		if (!has) continue;
		switch (c.draw(3)) {
			case 0: { unsigned e = unsigned(c.draw(5)); P k = read(a.coefficient(v, e), vs); CHK(k == (e < cs.size() ? cs[e] : P()), "coefficient of " << v << "^" << e << " is " << k); break; }
			case 1: { auto& vi = a.varInfo(v, true); CHK(vi.hasCoeff(), "no coefficients"); for (auto& k : vi.coeffs()) CHK(k.first < cs.size() && read(k.second, vs) == cs[k.first], "coefficient " << k.first); for (std::size_t e = 0; e < cs.size(); ++e) if (!cs[e].zero()) CHK(vi.coeffs().count(e), "missing coefficient of degree " << e); break; }
			default: { auto& vi = a.varInfo(v); CHK_EQ(vi.maxDegree(), cs.size() - 1, "degree"); CHK_EQ(vi.occurence(), occ, "occurrences"); break; }
		}
	}
	// Bounds: exactly the constraints on one variable with degree one, of the right direction.
	bool one = used.size() == 1 && md == 1; CHK_EQ(a.isBound(), one && r != Relation::NEQ, "bound"); CHK_EQ(a.isBound(true), one && r != Relation::EQ, "negated bound");
	bool lower = false, upper = false;
	if (one && r != Relation::NEQ) { std::size_t i = 0; while (!p.has(i)) ++i; Q k = rp::coeffs(p, i)[1].at(Exp{}); bool le = r == Relation::LEQ || r == Relation::LESS, ge = r == Relation::GEQ || r == Relation::GREATER; lower = r == Relation::EQ || (k > 0 ? ge : le); upper = r == Relation::EQ || (k > 0 ? le : ge); }
	CHK_EQ(a.isLowerBound(), lower, "lower bound"); CHK_EQ(a.isUpperBound(), upper, "upper bound");
	// Factors multiply to the left-hand side.
	P f(Q(1)); for (auto& k : a.factorization()) f = f * rp::pow(read(k.first, vs), unsigned(k.second)); CHK(p.zero() || f == p, "factors multiply to " << f);
	// Partial assignments decide only what they determine.
	std::map<Variable, Q> m; auto x = point(c, vs); P s = p; for (std::size_t i = 0; i < K; ++i) if (c.coin()) { m[vs.v[i]] = x[i]; s = rp::subst(s, i, P(x[i])); }
	CHK_EQ(a.satisfiedBy(m), s.constant() ? holds(s.at(Exp{}), r) ? 1u : 0u : 2u, "partial assignment leaves " << s);
	// Substitutions and assignments that follow from an equation.
	Variable v; CP t; bool neg_ = c.coin(); bool excl = c.coin(); std::size_t ex = c.idx(3); Variable exv = excl ? vs.v[ex] : Variable::NO_VARIABLE;
	bool got = a.getSubstitution(v, t, neg_, exv); bool can = false;
	if (r == (neg_ ? Relation::NEQ : Relation::EQ)) for (std::size_t i = 0; i < K; ++i) if (p.degree(i) == 1 && vs.v[i] != exv) { P k = rp::coeffs(p, i)[1]; if (k.constant() && (!vs.integral[i] || qabs(k.at(Exp{})) == 1)) can = true; }
	CHK_EQ(got, can, "whether a substitution follows");
	if (got) { std::size_t i = 0; while (i < K && vs.v[i] != v) ++i; CHK(i < K && vs.v[i] != exv, "variable"); P q = read(t, vs); CHK(!q.has(i), "the substituted variable is in the term"); CHK(rp::subst(p, i, q).zero(), v << " = " << q << " is not what the equation says"); }
	Q val; bool asg = a.getAssignment(v, val); CHK_EQ(asg, r == Relation::EQ && one, "whether an assignment follows");
	if (asg) { std::size_t i = 0; while (i < K && vs.v[i] != v) ++i; CHK(i < K && rp::subst(p, i, P(val)).zero(), v << " = " << val << " does not follow"); }
}
LAW(comparison, 15000, 300000) {
	Vars vs = choose(c); if (!c.chance(1, 4)) vs = Vars{rp::vars(), std::vector<bool>(K, false)};
	P base = gen_poly(c); while (base.constant()) base = base + rp::mono(c.idx(2)); base = base - P(base.at(Exp{}));
	auto var = [&] { return rp::scale(base, nonzero_rational(c)) + P(small_rational(c, 3, 2)); };
	P p = var(), q = c.chance(1, 8) ? gen_poly(c) : var(); Relation r1 = RELS[c.idx(6)], r2 = RELS[c.idx(6)];
	if (c.chance(1, 4)) { Q k = nonzero_rational(c); q = rp::scale(p, k); }
	c.in("A", show(p, r1)); c.in("B", show(q, r2));
	C a(build(p, vs), r1), b(build(q, vs), r2); if (a.isConsistent() != 2 || b.isConsistent() != 2) { c.discard(); }
	c.in("A stored", a); c.in("B stored", b);
	signed s = carl::compare(a, b); c.in("result", s); c.nontrivial(s != 0); c.label(std::to_string(s));
	P pa = read(a.lhs(), vs), pb = read(b.lhs(), vs);
	auto x = point(c, vs); std::vector<std::array<Q, K>> pts; for (int i = 0; i < 30; ++i) pts.push_back(point(c, vs));
	for (auto& y : pts) {
		bool A = holds(rp::eval(pa, y), a.relation()), B = holds(rp::eval(pb, y), b.relation());
		std::ostringstream at; at << "at (" << y[0] << ", " << y[1] << ", " << y[2] << ")";
		switch (s) { case 2: CHK(A == B, "not equivalent " << at.str()); break; case 1: CHK(!A || B, "A does not imply B " << at.str()); break; case -1: CHK(!B || A, "B does not imply A " << at.str()); break; case -2: CHK(!(A && B), "common solution " << at.str()); break; case -4: CHK(A != B, "not the inverse " << at.str()); break; default: break; }
	}
	// Exact for multiples of one polynomial that takes both signs unboundedly (a linear form): compare the sets of its values.
	bool lin = base.total() == 1; for (std::size_t i = 0; i < K; ++i) if (base.has(i) && vs.integral[i]) lin = false;
	P l0 = base; P na = pa - P(pa.at(Exp{})), nb = pb - P(pb.at(Exp{})); Exp le = base.t.rbegin()->first; Q ka = na.at(le) / base.at(le), kb = nb.at(le) / base.at(le);
	if (lin && na == rp::scale(base, ka) && nb == rp::scale(base, kb)) {
		Q ca = -pa.at(Exp{}) / ka, cb = -pb.at(Exp{}) / kb; Relation ra = ka > 0 ? a.relation() : turn(a.relation()), rb = kb > 0 ? b.relation() : turn(b.relation());
		std::vector<Q> test{Q(std::min(ca, cb) - 1), std::min(ca, cb), Q((ca + cb) / 2), std::max(ca, cb), Q(std::max(ca, cb) + 1)};
		bool iff = true, ab = true, ba = true, none = true, xr = true;
		for (auto& t : test) { bool A = holds(Q(t - ca), ra), B = holds(Q(t - cb), rb); iff = iff && A == B; ab = ab && (!A || B); ba = ba && (!B || A); none = none && !(A && B); xr = xr && A != B; }
		c.label("exact");
		signed e = iff ? 2 : xr ? -4 : ab ? 1 : ba ? -1 : none ? -2 : 0;
		if (e) CHK_EQ(s, e, "comparison"); else CHK(s == 0 || s == -3, "comparison claims " << s);
		if (s == -3) CHK(ca == cb, "claims an intersection that is no constraint");
	}
}
// Constraints that are kept as they are given.
LAW(plain, 8000, 120000) {
	using S = carl::SimpleConstraint<CP>;
	Vars vs = choose(c); P p = gen_poly(c), q = c.coin() ? p : gen_poly(c); if (c.chance(1, 3)) p = P(Q(long(c.range(-1, 1)))); Relation r = RELS[c.idx(6)], t = c.coin() ? r : RELS[c.idx(6)];
	c.in("p", show(p, r)); c.in("q", show(q, t)); c.nontrivial(!p.constant()); c.label_if(p.constant(), "constant");
	S a(build(p, vs), r), b(build(q, vs), t);
	CHK(read(a.lhs(), vs) == p && a.rel() == r, "constructed " << a);
	bool v = p.constant() && holds(p.at(Exp{}), r);
	CHK_EQ(a.isTrivialTrue(), p.constant() && v, "trivially true"); CHK_EQ(a.isTrivialFalse(), p.constant() && !v, "trivially false");
	CHK_EQ(a == b, p == q && r == t, "a==b"); CHK_EQ(a != b, !(p == q && r == t), "a!=b"); if (a == b) CHK_EQ(std::hash<S>()(a), std::hash<S>()(b), "hash");
	std::ostringstream o, l; o << a; l << a.lhs() << " " << r << " 0"; CHK(o.str() == l.str() && to_string(a, true) == l.str(), "printed as " << o.str() << " and " << to_string(a, true));
	CHK(S(true).isTrivialTrue() && !S(true).isTrivialFalse() && S(false).isTrivialFalse() && !S(false).isTrivialTrue(), "true and false");
}
LAW(over_boxes, 10000, 200000) {
	Vars vs{rp::vars(), std::vector<bool>(K, false)};
	P p = gen_poly(c); Relation r = RELS[c.idx(6)]; c.in("constraint", show(p, r)); C a(build(p, vs), r); P l = read(a.lhs(), vs); c.in("stored as", a);
	std::map<Variable, carl::Interval<double>> md; std::map<Variable, carl::Interval<Q>> mq; std::array<Q, K> lo, hi; bool inside = true;
	using B = carl::BoundType; static const B BTS[] = {B::WEAK, B::STRICT, B::INFTY};
	std::array<B, K> bl, bu;
	for (std::size_t i = 0; i < K; ++i) {
		long x = long(c.range(-4, 4)), y = x + long(c.draw(4)); lo[i] = Q(x) / 2; hi[i] = Q(y) / 2; bl[i] = BTS[c.idx(3)]; bu[i] = BTS[c.idx(3)]; if (x == y) bl[i] = bu[i] = B::WEAK;
		if (i < 3 && c.chance(1, 8)) continue; // not given
		md.emplace(vs.v[i], carl::Interval<double>(lo[i].get_d(), bl[i], hi[i].get_d(), bu[i]));
		mq.emplace(vs.v[i], carl::Interval<Q>(lo[i], bl[i], hi[i], bu[i]));
		std::ostringstream s; s << mq.at(vs.v[i]); static const char* nm[] = {"x in", "y in", "z in", "u in", "v in"}; if (i < 3) c.in(nm[i], s.str());
	}
	for (std::size_t i = 0; i < K; ++i) if (l.has(i) && !md.count(vs.v[i])) inside = false;
	unsigned e = a.consistentWith(md); Relation str = Relation::EQ; unsigned e2 = a.consistentWith(md, str); c.in("result", e); c.in("stricter", str);
	CHK_EQ(e, e2, "both forms of the test"); if (!inside) CHK_EQ(e, 2u, "undetermined variables");
	unsigned ev = 2; if (inside) ev = a.evaluate(mq); c.in("exact result", ev);
	c.nontrivial(e != 2 || ev != 2); c.label_if(e != 2, "decided"); c.label_if(str != a.relation(), "stricter relation"); c.label_if(ev == 1, "only zero");
	CHK(ev <= 3, "unexpected result");
	for (int n = 0; n < 16; ++n) {
		std::array<Q, K> x;
		for (std::size_t i = 0; i < K; ++i) {
			if (!md.count(vs.v[i])) { x[i] = small_rational(c, 5, 2); continue; }
			Q w = hi[i] - lo[i];
			switch (c.draw(6)) {
				case 0: x[i] = bl[i] == B::WEAK ? lo[i] : bl[i] == B::INFTY ? Q(std::min(lo[i], hi[i]) - Q(long(c.draw(9)))) : Q(lo[i] + w / 1000); break;
				case 1: x[i] = bu[i] == B::WEAK ? hi[i] : bu[i] == B::INFTY ? Q(hi[i] + Q(long(c.draw(9)))) : Q(hi[i] - w / 1000); break;
				case 2: x[i] = (lo[i] <= 0 && hi[i] >= 0 && (lo[i] < 0 || bl[i] != B::STRICT) && (hi[i] > 0 || bu[i] != B::STRICT)) ? Q(0) : Q(lo[i] + w / 2); break;
				default: x[i] = lo[i] + w * Q(long(1 + c.draw(7))) / 8; break;
			}
		}
		Q v = rp::eval(l, x); bool h = holds(v, a.relation()); std::ostringstream at; at << "at (" << x[0] << ", " << x[1] << ", " << x[2] << ")";
		if (e == 1) CHK(h, "claimed to hold in the box, fails " << at.str()); if (e == 0) CHK(!h, "claimed to fail in the box, holds " << at.str());
		if (h && e != 0) CHK(holds(v, str), "holds " << at.str() << " but the stricter relation " << str << " does not");
		if (ev == 3) CHK(h, "claimed to hold in the exact box, fails " << at.str()); if (ev == 0) CHK(!h, "claimed to fail in the exact box, holds " << at.str()); if (ev == 1) CHK_EQ(h, v == 0, "claimed to hold exactly for zero, not so " << at.str());
	}
}
// Constraints that are created, released and created again.
LAW(histories, 4000, 80000) {
	Vars vs{rp::vars(), std::vector<bool>(K, false)};
	std::vector<std::pair<P, Relation>> pool; for (unsigned i = 0; i < 4; ++i) pool.emplace_back(gen_poly(c), RELS[c.idx(6)]);
	std::vector<C> live; std::vector<std::size_t> what; std::ostringstream h;
	for (unsigned step = 0; step < 24; ++step) {
		if (live.empty() || c.chance(3, 5)) { std::size_t i = c.idx(4); Q k = qabs(nonzero_rational(c)); live.emplace_back(build(rp::scale(pool[i].first, k), vs), pool[i].second); what.push_back(i); h << "+" << i << " "; }
		else { std::size_t i = c.idx(live.size()); h << "-" << what[i] << " "; live.erase(live.begin() + long(i)); what.erase(what.begin() + long(i)); }
		for (std::size_t i = 0; i < live.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (what[i] == what[j]) CHK(live[i] == live[j] && live[i].id() == live[j].id(), "the same constraint twice after " << h.str());
	}
	for (std::size_t i = 0; i < pool.size(); ++i) { static const char* nm[] = {"0", "1", "2", "3"}; c.in(nm[i], show(pool[i].first, pool[i].second)); }
	c.in("history", h.str()); c.nontrivial(true);
	for (std::size_t i = 0; i < live.size(); ++i) at_points(c, live[i], pool[what[i]].first, pool[what[i]].second, vs, "constraint", 3);
	for (auto r : RELS) { CHK(carl::inverse(r) == neg(r), "inverse of " << r); CHK(carl::turn_around(r) == turn(r), "turned " << r); CHK(carl::isStrict(r) == !holds(0, r) , "strict " << r); Q v = small_rational(c, 2, 2), w = small_rational(c, 2, 2); CHK_EQ(carl::evaluate(v, r), holds(v, r), "value " << v << r); CHK_EQ(carl::evaluate(v, r, w), holds(Q(v - w), r), "values " << v << r << w); }
}
PBT_MAIN("C01", "the left-hand side is not constant (normalisation, description), the comparison says something, the box decides")
