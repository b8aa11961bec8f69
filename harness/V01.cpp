// Virtual substitution: square root expressions, zeros of constraints and substitution of (infinitesimally shifted or infinite) test points.
#include "fm.h"
#include "ran.h"
#include <carl/core/polynomialfunctions/Factorization.h>
#include <carl/vs/SqrtEx.h>
namespace smtrat { using Rational = mpq_class; using Poly = rp::CP; using SqrtEx = carl::SqrtEx<Poly>; using Factorization = carl::Factors<Poly>; }
#include <carl/vs/substitute.h>
#include <carl/vs/zeros.h>
using namespace fm;
using SE = carl::SqrtEx<CP>; using C = carl::Constraint<CP>; using Tm = carl::vs::Term<CP>; using CD = carl::vs::CaseDistinction<CP>; using VC = carl::VariableComparison<CP>; using RAN = rr::RAN;
using Pt = std::array<Q, K>;
static const std::size_t VI[] = {0, 1, 3};
// The sign of a + sqrt(p) * s + sqrt(q) * t for s, t in {-1, 0, 1}, p, q >= 0.
static int sign2(int s, const Q& p, int t, const Q& q) { if (p == 0) s = 0; if (q == 0) t = 0; if (!s) return t; if (!t || s == t) return s; int c = cmp(p, q); return c == 0 ? 0 : c > 0 ? s : t; }
static int sign3(const Q& a, int s, const Q& p, int t, const Q& q) {
	int x = sgn(a), y = sign2(s, p, t, q); if (!y) return x; if (!x || x == y) return y;
	// |a| against |s sqrt p + t sqrt q|: a^2 - p' - q' against 2 s t sqrt(p' q')
	Q pp = s ? p : Q(0), qq = t ? q : Q(0), d = a * a - pp - qq, m = pp * qq * 4; int z = s * t * sgn(m); int c; // sign of d - z*sqrt(m)
	if (z == 0) c = sgn(d); else if (sgn(d) != z) c = sgn(d) > 0 || (sgn(d) == 0 && z < 0) ? 1 : -1; else { Q d2 = d * d; c = cmp(d2, m) * z; c = c > 0 ? 1 : c < 0 ? -1 : 0; }
	return c > 0 ? x : c < 0 ? y : 0;
}
// A number a + s sqrt(q).
struct V { Q a, q; int s = 0; };
static std::ostream& operator<<(std::ostream& o, const V& v) { o << v.a; if (v.s) o << (v.s > 0 ? " + sqrt(" : " - sqrt(") << v.q << ")"; return o; }
static int cmpv(const V& x, const V& y) { return sign3(Q(x.a - y.a), x.s, x.q, -y.s, y.q); }
static bool is(const V& x, const Q& q) { V y; y.a = q; return cmpv(x, y) == 0; }
struct S { P c, f, d, r; };
static std::ostream& operator<<(std::ostream& o, const S& s) { return o << "((" << s.c << ") + (" << s.f << ")*sqrt(" << s.r << "))/(" << s.d << ")"; }
static std::optional<V> value(const S& s, const Pt& x) {
	Q d = rp::eval(s.d, x), f = rp::eval(s.f, x), r = rp::eval(s.r, x), c = rp::eval(s.c, x); if (d == 0 || r < 0) return std::nullopt;
	V v; v.a = c / d; v.q = f * f * r / (d * d); v.s = v.q == 0 ? 0 : sgn(f) * sgn(d); return v;
}
static S parts(const SE& e) { return {read(e.constantPart()), read(e.factor()), read(e.denominator()), read(e.radicand())}; }
static SE make(const S& s) { return SE(build(s.c), build(s.f), build(s.d), build(s.r)); }
static std::vector<Pt> points(pbt::Ctx& c, unsigned n) { std::vector<Pt> r; for (unsigned i = 0; i < n; ++i) { Pt p{}; for (auto v : VI) p[v] = c.chance(1, 4) ? Q(long(c.range(-7, 7))) / 2 : Q(long(c.range(-2, 3))); r.push_back(p); } return r; }
static std::string show(const Pt& p) { std::ostringstream s; s << "x=" << p[0] << " y=" << p[1] << " u=" << p[3]; return s.str(); }
static void agrees(const SE& e, const S& s, const std::vector<Pt>& pts, const std::string& what) {
	S t = parts(e);
	for (auto& p : pts) { auto v = value(s, p); if (!v) continue; auto w = value(t, p); CHK(w, what << " is " << e << ", undefined at " << show(p) << " where its value is " << *v); CHK(cmpv(*v, *w) == 0, what << " is " << e << " with the value " << *w << " at " << show(p) << ", expected " << *v); }
}
static P lin(pbt::Ctx& c, std::size_t skip = K) { P p(Q(long(c.range(-3, 3)))); for (auto v : VI) if (v != skip && c.chance(1, 2)) p = p + rp::scale(rp::mono(v), Q(long(c.range(-2, 2)))); return p; }
static P gen_poly(pbt::Ctx& c, std::size_t skip = K) {
	switch (c.draw(6)) { case 0: return P(Q(long(c.range(-4, 4))) / (1 + long(c.draw(3)))); case 1: return rp::scale(lin(c, skip), Q(long(c.pick({1, -1, 2, -6}))) / (1 + long(c.draw(3)))); case 2: return lin(c, skip) * lin(c, skip); case 3: { P l = lin(c, skip); return l * l; } default: return lin(c, skip); }
}
static P gen_radicand(pbt::Ctx& c, std::size_t skip = K) {
	P p;
	switch (c.draw(8)) {
		case 0: p = P(Q(long(c.draw(13))) / (1 + long(c.draw(4)))); break; case 1: { std::size_t v; do v = VI[c.idx(3)]; while (v == skip); p = rp::scale(rp::mono(v, 2), Q(c.pick({1, 4, 2, 9})) / (1 + 3 * long(c.draw(2)))); break; }
		case 2: { P l = lin(c, skip); p = l * l; break; } case 3: { P l = lin(c, skip); p = l * l + P(Q(long(c.range(0, 5)))); break; } case 4: p = rp::scale(lin(c, skip), Q(c.pick({4, 9, 2, 1})) / 4); break; case 5: { P l = lin(c, skip); p = l * l * lin(c, skip); break; }
		default: p = lin(c, skip); break;
	}
	if (p.constant() && p.at(Exp{}) < 0) p = -p;
	return p;
}
static P nz(P p) { return p.zero() ? P(Q(1)) : p; }
static S gen_s(pbt::Ctx& c, std::size_t skip = K) {
	S s; s.c = gen_poly(c, skip); if (!c.chance(1, 4)) { s.f = gen_poly(c, skip); s.r = gen_radicand(c, skip); } s.d = c.chance(1, 3) ? P(Q(1)) : nz(gen_poly(c, skip));
	if (c.chance(1, 4)) { P g = nz(gen_poly(c, skip)); s.c = s.c * g; s.f = s.f * g; s.d = s.d * g; }
	return s;
}

LAW(expressions, 4000, 60000) {
	S s = gen_s(c); c.in("s", s); auto pts = points(c, 12); c.nontrivial(!s.f.zero() && !s.r.zero());
	SE e = make(s); agrees(e, s, pts, "the expression"); S t = parts(e);
	CHK_EQ(e.hasSqrt(), !t.f.zero(), "has a root"); c.label_if(e.hasSqrt(), "root");
	CHK_EQ(e.isConstant(), t.c.constant() && t.f.constant() && t.d.constant() && t.r.constant(), "constant");
	if (e.isPolynomial()) { P q = read(e.asPolynomial()); for (auto& p : pts) if (auto v = value(s, p)) CHK(is(*v, rp::eval(q, p)), "as a polynomial " << q << " at " << show(p) << ", expected " << *v); c.label("polynomial"); }
	if (e.isRational()) { Q q = e.asRational(); for (auto& p : pts) if (auto v = value(s, p)) CHK(is(*v, q), "as a rational " << q << ", expected " << *v); c.label("rational"); CHK_EQ(e.isInteger(), q.get_den() == 1, "integral"); if (e.isInteger()) CHK_EQ(e.asConstant(), q, "as an integer"); }
	if (e.isInteger()) { CHK(e.isRational(), "integral but not rational"); c.label("integral"); }
	// expressions without variables or roots are recognised
	if (s.c.constant() && s.d.constant() && (s.f.zero() || s.r.zero())) CHK(e.isRational() && e.isPolynomial(), e << " is rational");
	SE copy(e); CHK(copy == e, "a copy differs"); CHK_EQ(std::hash<SE>()(copy), std::hash<SE>()(e), "hash of a copy");
	SE as; as = e; CHK(as == e, "an assigned expression differs"); agrees(as, s, pts, "the assigned expression");
	CP p = build(s.c); SE fp(p), ap = e; ap = p; S sp{s.c, P(), P(Q(1)), P()}; agrees(fp, sp, pts, "the expression of a polynomial"); agrees(ap, sp, pts, "the assigned polynomial"); CHK(fp.isPolynomial() && !fp.hasSqrt(), "the expression of a polynomial is none");
	SE z; agrees(z, S{P(), P(), P(Q(1)), P()}, pts, "zero"); SE fv(vars()[0]); agrees(fv, S{rp::mono(0), P(), P(Q(1)), P()}, pts, "a variable");
	carl::carlVariables vs; carl::variables(e, vs); for (auto v : VI) { bool in = false; for (auto* q : {&t.c, &t.f, &t.d, &t.r}) for (auto& m : q->t) in = in || m.first[v]; CHK_EQ(vs.has(vars()[v]), in, "variable " << vars()[v]); }
}
LAW(arithmetic, 4000, 60000) {
	S a = gen_s(c), b = gen_s(c); if (c.chance(1, 3)) { a.f = P(); a.r = P(); } else if (c.chance(1, 2)) b.r = a.r; else { b.f = P(); b.r = P(); }
	if (c.chance(1, 2)) std::swap(a, b);
	c.in("a", a); c.in("b", b); auto pts = points(c, 10);
	SE x = make(a), y = make(b); S A = parts(x), B = parts(y);
	if (x.hasSqrt() && y.hasSqrt() && !(x.radicand() == y.radicand())) c.discard();
	c.nontrivial(x.hasSqrt() || y.hasSqrt()); c.label_if(x.hasSqrt() && y.hasSqrt(), "both with a root"); c.label_if(!x.hasSqrt() && y.hasSqrt(), "only the second with a root");
	P r = A.r.zero() ? B.r : A.r; auto wide = [](const P& p) { for (auto& m : p.t) { unsigned d = 0; for (auto e : m.first) d += e; if (d > 5) return true; } return false; }; if (wide(A.c * B.d) || wide(B.c * A.d) || wide(A.f * B.f * r) || wide(A.d * B.d) || wide(A.f * B.d) || wide(B.f * A.d)) c.discard(); // slow common divisors
	agrees(x + y, S{A.c * B.d + B.c * A.d, A.f * B.d + B.f * A.d, A.d * B.d, r}, pts, "the sum");
	agrees(x - y, S{A.c * B.d - B.c * A.d, A.f * B.d - B.f * A.d, A.d * B.d, r}, pts, "the difference");
	agrees(x * y, S{A.c * B.c + A.f * B.f * r, A.c * B.f + A.f * B.c, A.d * B.d, r}, pts, "the product");
	if (!y.hasSqrt() && !B.c.zero()) { agrees(x / y, S{A.c * B.d, A.f * B.d, A.d * B.c, A.r}, pts, "the quotient"); c.label("quotient"); }
	if (!x.hasSqrt() && !A.c.zero()) agrees(y / x, S{B.c * A.d, B.f * A.d, B.d * A.c, B.r}, pts, "the reverse quotient");
}
LAW(evaluation, 4000, 60000) {
	S s = gen_s(c); c.in("s", s); SE e = make(s); S t = parts(e); auto pts = points(c, 6);
	for (auto& p : pts) {
		auto v = value(t, p); if (!v) continue;
		std::map<Variable, Q> m; for (auto i : VI) m[vars()[i]] = p[i];
		auto r = rp::eval(t.r, p), f = rp::eval(t.f, p); bool exact = v->s == 0; Q w; if (!exact) { mpz_class n, d; mpz_sqrt(n.get_mpz_t(), r.get_num_mpz_t()); mpz_sqrt(d.get_mpz_t(), r.get_den_mpz_t()); exact = n * n == r.get_num() && d * d == r.get_den(); }
		int rd = int(c.range(-1, 1)); if (!exact && rd == 0) rd = 1; c.label(exact ? "exact" : "rounded"); if (!exact) c.nontrivial(true);
		bool ex = e.evaluate(w, m, rd); V got; got.a = w;
		if (ex) CHK(cmpv(*v, got) == 0, "the value at " << show(p) << " is " << w << ", expected " << *v);
		CHK(ex == exact, "exactness of the value at " << show(p) << " rounded in direction " << rd);
		if (rd < 0) CHK(cmpv(got, *v) <= 0, "the value at " << show(p) << " rounded down to " << w << ", above " << *v); if (rd > 0) CHK(cmpv(got, *v) >= 0, "the value at " << show(p) << " rounded up to " << w << ", below " << *v);
		Q tol = Q(1) / 1000000; tol *= 1 + abs(f / rp::eval(t.d, p)); V lo = *v, hi = *v; lo.a -= tol; hi.a += tol; CHK(cmpv(lo, got) <= 0 && cmpv(got, hi) <= 0, "the value at " << show(p) << " is " << w << ", far from " << *v);
	}
}
LAW(partial_values, 3000, 45000) {
	S s = gen_s(c); c.in("s", s); SE e = make(s); S t = parts(e); auto pts = points(c, 10); std::map<Variable, Q> m; std::vector<bool> fix(K); for (auto i : VI) if (c.coin()) { fix[i] = true; m[vars()[i]] = pts[0][i]; }
	for (auto& p : pts) for (auto i : VI) if (fix[i]) p[i] = pts[0][i];
	S u = t; for (auto i : VI) if (fix[i]) for (auto* q : {&u.c, &u.f, &u.d, &u.r}) *q = rp::subst(*q, i, P(pts[0][i]));
	if (u.d.zero() || (u.r.constant() && u.r.at(Exp{}) < 0)) c.discard();
	c.nontrivial(!m.empty() && e.hasSqrt()); agrees(e.substitute(m), t, pts, "after the partial assignment");
}
// p(x) at x = v as numbers a + b sqrt(n), through the coefficients with respect to one variable
static int sign_at(const std::vector<Q>& co, const V& v) { // sign of sum co[i] v^i, v = a + s sqrt(q)
	Q A = 0, B = 0; for (std::size_t i = co.size(); i-- > 0;) { Q a = A * v.a + B * Q(v.s) * v.q + co[i], b = A * Q(v.s) + B * v.a; A = a; B = b; } // (A + B sqrt q)(a + s sqrt q)
	return sign3(A, sgn(B), Q(B * B * v.q), 0, Q(0));
}
static std::vector<Q> at(const P& p, std::size_t v, const Pt& x) { std::vector<Q> r; for (auto& k : rp::coeffs(p, v)) r.push_back(rp::eval(k, x)); while (!r.empty() && r.back() == 0) r.pop_back(); return r; }
static std::vector<Q> derive(const std::vector<Q>& a) { std::vector<Q> r; for (std::size_t i = 1; i < a.size(); ++i) r.push_back(Q(a[i] * Q(long(i)))); while (!r.empty() && r.back() == 0) r.pop_back(); return r; }
LAW(composition, 3000, 45000) {
	P p = gen_poly(c); if (c.chance(2, 3)) p = p + rp::mono(0, 1 + unsigned(c.draw(3))) * lin(c); S s = gen_s(c, c.coin() ? 0 : K); if (rp::coeffs(p, 0).size() == 3) { s.c = lin(c); s.d = nz(lin(c, 0)); s.f = lin(c, 0); } if (rp::coeffs(p, 0).size() > 3) { if (!s.r.constant()) { s.r = lin(c, 0); if (s.r.constant()) s.r = P(Q(2)); } s.c = lin(c, 0); s.d = nz(lin(c, 0)); s.f = P(Q(long(c.range(-2, 2)))); } c.in("p", p); c.in("s", s); SE e = make(s); auto pts = points(c, 10);
	SE r = SE::subBySqrtEx(build(p), vars()[0], e); S t = parts(r), se = parts(e); c.nontrivial(e.hasSqrt() && rp::coeffs(p, 0).size() > 1);
	for (auto& x : pts) {
		auto v = value(s, x); if (!v) continue; auto w = value(t, x); CHK(w, "the result " << r << " is undefined at " << show(x)); auto co = at(p, 0, x);
		// p(v) - w = 0: w lies in the same quadratic extension, so compare rational and irrational part through sign of p(v) - a - s sqrt(q)
		Q A = 0, B = 0; for (std::size_t i = co.size(); i-- > 0;) { Q a = A * v->a + B * Q(v->s) * v->q + co[i], b = A * Q(v->s) + B * v->a; A = a; B = b; }
		V ex; ex.a = A; ex.q = B * B * v->q; ex.s = ex.q == 0 ? 0 : sgn(B); CHK(cmpv(ex, *w) == 0, "the result " << r << " is " << *w << " at " << show(x) << ", expected " << ex);
	}
}
static P gen_in_x(pbt::Ctx& c, unsigned deg) { std::vector<P> k; for (unsigned i = 0; i <= deg; ++i) k.push_back(c.chance(1, 3) ? P(Q(long(c.range(-3, 3)))) : gen_poly(c, 0)); P p = rp::collect(k, 0); if (c.chance(1, 5)) p = p * lin(c, 0); return p; }
static bool eval_cd(const CD& d, const Pt& x) { for (auto& k : d) { bool all = true; for (auto& q : k) all = all && holds(rp::eval(read(q.lhs()), x), q.relation()); if (all) return true; } return false; }
static std::string show(const CD& d) { std::ostringstream s; for (auto& k : d) { s << "{"; for (auto& q : k) s << " " << q; s << " }"; } return s.str(); }
LAW(zeros, 3000, 45000) {
	P p = gen_in_x(c, 1 + unsigned(c.draw(c.chance(1, 6) ? 3 : 2))); if (c.chance(1, 4)) p = p * gen_in_x(c, 1); Relation rel = RELS[c.idx(6)]; C k(build(p), rel); c.in("constraint", k); P q = read(k.lhs());
	std::vector<carl::vs::zero<CP>> zs; bool ok = carl::vs::gather_zeros(k, vars()[0], zs); auto cs = rp::coeffs(q, 0);
	if (!ok) { CHK(cs.size() > 3, "gave up on a polynomial of degree " << cs.size() - 1); c.label("degree"); return; }
	c.nontrivial(!zs.empty());
	for (auto& x : points(c, 10)) {
		auto co = at(q, 0, x); if (co.empty()) continue; // vanishes identically
		std::vector<V> real; for (auto& z : zs) { bool side = true; for (auto& s : z.side_condition) side = side && holds(rp::eval(read(s.lhs()), x), s.relation()); if (!side) continue; auto v = value(parts(z.sqrt_ex), x); CHK(v, "the zero " << z.sqrt_ex << " is undefined at " << show(x)); CHK(sign_at(co, *v) == 0, "the value " << *v << " of " << z << " at " << show(x) << " is no zero"); real.push_back(*v); }
		std::vector<V> want; if (co.size() == 2) { V v; v.a = -co[0] / co[1]; want.push_back(v); } else if (co.size() == 3) { Q D = co[1] * co[1] - 4 * co[0] * co[2]; if (D >= 0) for (int s : {-1, 1}) { V v; v.a = -co[1] / (2 * co[2]); v.q = D / (4 * co[2] * co[2]); v.s = D == 0 ? 0 : s; want.push_back(v); } }
		for (auto& w : want) { bool f = false; for (auto& r : real) f = f || cmpv(r, w) == 0; CHK(f, "the zero " << w << " at " << show(x) << " is missing"); }
		c.label_if(!want.empty(), "zeros");
	}
}
// Signs at and right of a point and at the infinities.
static int sign_right(std::vector<Q> co, const V& v) { while (!co.empty()) { int s = sign_at(co, v); if (s) return s; co = derive(co); } return 0; }
static int sign_inf(const std::vector<Q>& co, bool minus) { if (co.empty()) return 0; return sgn(co.back()) * (minus && co.size() % 2 == 0 ? -1 : 1); }
static void judge(pbt::Ctx& c, const C& k, const S& s, int type, const CD& d, const std::vector<Pt>& pts) {
	P q = read(k.lhs());
	for (auto& x : pts) {
		auto co = at(q, 0, x); int sg; if (type < 2) { auto v = value(s, x); if (!v) continue; sg = type == 0 ? sign_at(co, *v) : sign_right(co, *v); } else sg = sign_inf(co, type == 2);
		bool want = holds(Q(sg), k.relation()), got = eval_cd(d, x); CHK(want == got, "substituting in " << k << " gives " << show(d) << ", which is " << (got ? "true" : "false") << " at " << show(x)); c.label(want ? "holds" : "fails");
	}
	for (auto& cs : d) for (auto& q2 : cs) CHK(!q2.hasVariable(vars()[0]), "the variable is still in " << q2);
}
static Tm term(int type, const SE& e) { switch (type) { case 0: return Tm::normal(e); case 1: return Tm::plus_eps(e); case 2: return Tm::minus_infty(); default: return Tm::plus_infty(); } }
static S gen_test_point(pbt::Ctx& c) { S s = gen_s(c, 0); if (c.chance(1, 2)) { s.c = lin(c, 0); s.f = s.r.zero() ? P() : P(Q(long(c.range(-2, 2)))); } return s; }
LAW(constraints, 5000, 80000) {
	P p = gen_in_x(c, unsigned(c.draw(4))); Relation rel = RELS[c.idx(6)]; int type = int(c.weighted({4, 3, 1, 1})); S s = gen_test_point(c);
	// make the test point a zero now and then
	if (c.chance(1, 3) && type < 2) { P l = s.d * rp::mono(0) - s.c; p = s.f.zero() ? l : l * l - s.f * s.f * s.r; if (c.chance(1, 4)) p = p * lin(c); if (c.chance(1, 4)) p = p + P(Q(long(c.range(-1, 1)))); c.label("near a zero"); }
	C k(build(p), rel); c.in("constraint", k); c.in("type", type); if (type < 2) c.in("term", s); SE e = make(s); auto pts = points(c, 14);
	if (!k.hasVariable(vars()[0]) && k.variables().size() == 0) c.discard();
	auto r = carl::vs::substitute(k, vars()[0], term(type, e));
	if (!r) { CHK(type < 2, "gave up at infinity"); double w = double(e.constantPart().size()) + double(e.factor().size()) * double(e.radicand().size()); CHK(type == 1 || std::pow(w, double(k.maxDegree(vars()[0]))) > 256, "gave up on a small substitution"); c.label("gave up"); return; }
	c.nontrivial(k.hasVariable(vars()[0])); judge(c, k, s, type, *r, pts);
	if (type < 2 && c.chance(1, 3)) {
		CD d; carl::Variables cv; carl::vs::detail::EvalDoubleIntervalMap box; auto tm = term(type, e); auto v = vars()[0];
		if (carl::vs::detail::substitute(k, carl::vs::detail::Substitution<CP>(v, tm), d, true, cv, box)) { judge(c, k, s, type, d, pts); c.label("compact cases"); }
	}
}
LAW(boxes, 2000, 30000) {
	// with a box known for the variables, the cases only need to agree inside it
	P p = gen_in_x(c, unsigned(c.draw(3))); C k(build(p), RELS[c.idx(6)]); S s = gen_test_point(c); int type = int(c.draw(4)); c.in("constraint", k); c.in("type", type); c.in("term", s); if (k.variables().size() == 0) c.discard(); SE e = make(s);
	carl::vs::detail::EvalDoubleIntervalMap box; std::vector<Pt> pts = points(c, 12); for (auto i : VI) if (i != 0) { long lo = c.range(-3, 3), hi = lo + c.draw(3); box[vars()[i]] = carl::Interval<double>(double(lo), carl::BoundType::WEAK, double(hi), carl::BoundType::WEAK); for (auto& x : pts) { if (x[i] < lo) x[i] = lo; if (x[i] > hi) x[i] = hi; } c.in("box", box[vars()[i]]); }
	CD d; carl::Variables cv; auto tm = term(type, e); auto v = vars()[0];
	if (!carl::vs::detail::substitute(k, carl::vs::detail::Substitution<CP>(v, tm), d, false, cv, box)) { c.label("gave up"); return; }
	c.nontrivial(k.hasVariable(vars()[0])); judge(c, k, s, type, d, pts); for (auto q : cv) CHK(q != vars()[0], "conflict with the substituted variable");
}
LAW(comparisons, 2500, 40000) {
	Relation rel = RELS[c.idx(6)]; bool neg = c.chance(1, 4); S s = gen_test_point(c); int type = int(c.weighted({4, 3, 2, 1})); V val; std::optional<VC> vc; P mp; bool mv = false, product = false;
	switch (c.draw(3)) {
		case 0: val.a = Q(long(c.range(-6, 6))) / 2; vc = VC(vars()[0], RAN(val.a), rel); break;
		case 1: { Q a = Q(long(c.range(-4, 4))) / 2; long n = c.pick({2, 3, 5, 8}); bool up = c.coin(); long h = n == 2 || n == 3 ? 2 : 3; val.a = a; val.q = n; val.s = up ? 1 : -1; int lead = c.coin() ? 1 : -1; rr::UP u(vars()[0], std::vector<Q>{Q(lead * (a * a - n)), Q(-2 * lead * a), Q(lead)}); if (c.chance(1, 3)) product = true, u = rr::UP(u * rr::UP(vars()[0], std::vector<Q>{Q(-9), Q(1)})); vc = VC(vars()[0], RAN::create_safe(u, up ? rr::open(a, Q(a + h)) : rr::open(Q(a - h), a)), rel); break; }
		default: { mv = true; mp = lin(c, 0); Q l = Q(long(c.pick({1, -1, 2, -3}))); CP z(carl::MultivariateRoot<CP>::var()); vc = VC(vars()[0], carl::MultivariateRoot<CP>(CP(l) * z - CP(l) * build(mp), 1), rel); break; }
	}
	if (neg) vc = vc->negation();
	c.in("comparison", *vc); c.in("type", type); c.in("term", s); SE e = make(s); auto pts = points(c, 12); Relation eff = neg ? carl::inverse(rel) : rel;
	if (c.chance(1, 8)) { auto r = carl::vs::substitute(*vc, vars()[4], term(type, e)); CHK(r && std::holds_alternative<VC>(*r) && std::get<VC>(*r) == *vc, "substituting another variable changed the comparison"); }
	std::vector<carl::vs::zero<CP>> zs; if (!carl::vs::gather_zeros(*vc, vars()[0], zs)) { CHK(product, "no zero found"); auto r = carl::vs::substitute(*vc, vars()[0], term(type, e)); CHK(!r || type == 2, "substituted without knowing the zero"); c.label("not factorised"); return; }
	for (auto& x : pts) { std::size_t n = 0; V want = val; if (mv) want.a = rp::eval(mp, x); for (auto& z : zs) { bool side = true; for (auto& q : z.side_condition) side = side && holds(rp::eval(read(q.lhs()), x), q.relation()); if (!side) continue; ++n; auto w = value(parts(z.sqrt_ex), x); CHK(w && cmpv(*w, want) == 0, "the zero " << z << " is not " << want); } CHK_EQ(n, 1u, "number of zeros"); }
	auto r = carl::vs::substitute(*vc, vars()[0], term(type, e)); c.nontrivial(type < 2);
	if (!r) { CHK(type == 3, "gave up"); c.label("gave up"); return; }
	CHK(std::holds_alternative<CD>(*r), "the comparison was not substituted"); auto& d = std::get<CD>(*r);
	for (auto& x : pts) {
		V want = val; if (mv) want.a = rp::eval(mp, x); int sg; if (type < 2) { auto v = value(s, x); if (!v) continue; sg = cmpv(*v, want); if (type == 1 && sg == 0) sg = 1; } else sg = type == 2 ? -1 : 1;
		bool w = holds(Q(sg), eff), got = eval_cd(d, x); CHK(w == got, "substituting gives " << show(d) << ", which is " << (got ? "true" : "false") << " at " << show(x)); c.label(w ? "holds" : "fails");
	}
}
PBT_MAIN("V01", "the test point or expression contains a square root, or the constraint contains the substituted variable")
