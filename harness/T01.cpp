// Tarski queries, sign determination and Thom encodings against isolated roots.
#include "roots.h"
#include <carl/core/polynomialfunctions/SturmSequence.h>
#include <carl/core/polynomialfunctions/SignVariations.h>
#include <carl/formula/Constraint.h>
#include <carl/groebner/groebner.h>
// This part of the library is not enabled in the usual configuration; it refers to types of other configurations by name only.
namespace carl { template<typename N> class real_algebraic_number_z3; template<typename N> class real_algebraic_number_thom; template<typename N> class ThomEncoding; }
#include <carl/ran/thom/SignDetermination/SignDetermination.h>
#include <carl/ran/thom/ThomRootFinder.h>
using gen::Q; using rp::P; using rp::CP; using rt::U; using rt::Root; using TE = carl::ThomEncoding<Q>; using UP = carl::UnivariatePolynomial<Q>; using Iv = carl::Interval<Q>; using Bd = carl::BoundType; using Mtx = carl::CoeffMatrix<Q>;
static CP cp(const U& a, std::size_t v = 0) { return rp::to_carl(rt::to_p(a, v)); }
static UP up(const U& a) { return UP(rp::vars()[0], a); }
static U line(pbt::Ctx& c, unsigned d) { U a(1 + c.draw(d + 1)); for (auto& q : a) q = c.chance(1, 4) ? gen::small_rational(c, 4, 3) : Q(long(c.range(-4, 4))); return rt::trim(a); }
static U query(pbt::Ctx& c, const U& p) { // polynomials that vanish at some of the roots, or at none
	switch (c.weighted({4, 2, 1, 1, 1})) { case 0: return line(c, 3); case 1: { auto rs = rt::isolate(p); if (rs.empty()) return line(c, 3); auto& r = rs[c.idx(rs.size())]; return rt::trim({-(r.l + r.u) / 2, Q(1)}); } case 2: return rt::mul(rt::from_roots({gen::small_rational(c, 4, 2)}), line(c, 1)); case 3: return rt::diff(p); default: return rt::rem(rt::mul(p, line(c, 1)), U{Q(1), Q(0), Q(0), Q(0), Q(1)}); }
}
static U small_poly(pbt::Ctx& c, int factors, int most) { U p = rt::poly(c, factors); if (rt::deg(p) > most) p = rt::irreducible(c); if (rt::deg(p) < 1) p = {Q(-2), Q(1)}; return p; }
LAW(queries, 3000, 40000) {
	U q = small_poly(c, 3, 8), p = query(c, q); c.in("zeros of", rt::show(q)); c.in("polynomial", rt::show(p)); int want = 0, zero = 0; auto rs = rt::isolate(q); for (auto& r : rs) { int s = rt::sign_at(p, r); want += s; zero += s == 0; } c.nontrivial(rs.size() > 1); c.label_if(zero > 0, "vanishes at a zero"); c.label_if(want < 0, "negative");
	if (!p.empty()) { CHK_EQ(carl::univariateTarskiQuery(up(p), up(q)), want, "positive minus negative zeros"); CHK_EQ(carl::univariateTarskiQuery(up(p), up(q), up(rt::diff(q))), want, "positive minus negative zeros"); }
	int low = p.empty() ? 0 : sgn(p.back()) * (rt::deg(p) % 2 ? -1 : 1), high = p.empty() ? 0 : sgn(p.back()); CHK_EQ(int(carl::signAtMinusInf(up(p))), low, "sign towards minus infinity"); CHK_EQ(int(carl::signAtPlusInf(up(p))), high, "sign towards infinity");
	std::vector<CP> zs{cp(q)}; carl::TarskiQueryManager<Q> m(zs.begin(), zs.end()); for (int i = 0; i < 2; ++i) { CHK_EQ(m(cp(p)), want, "query number " << i); Q k = c.pick<long>({-3, -1, 2}); CHK_EQ(m(cp(rt::scale(p, k))), sgn(k) * want, "query of a multiple by " << k); } CHK_EQ(m(Q(1)), int(rs.size()), "number of zeros"); CHK_EQ(m(Q(-2)), -int(rs.size()), "minus the number of zeros");
	U z = rt::trim(rp::dense(rp::of(m.reduceProduct(cp(p), cp(q))), 0)); for (auto& r : rs) CHK_EQ(rt::sign_at(z, r), 0, "a product with the polynomial itself does not vanish");
}
// Systems whose zeros are known: x at the zeros of p, y = h(x) or y^2 = h(x), z = k(x).
struct Sys { U p, h, k; int kind; std::vector<P> gen; };
static Sys system(pbt::Ctx& c) {
	Sys s; s.p = small_poly(c, 2, 4); s.h = line(c, 2); s.k = line(c, 2); s.kind = int(c.draw(3)); P x = rt::to_p(s.p, 0), y = rp::mono(1, s.kind == 1 ? 2 : 1) - rt::to_p(s.h, 0); s.gen = {x, y}; if (s.kind == 2) s.gen.push_back(rp::mono(2) - rt::to_p(s.k, 0));
	if (rt::deg(s.p) > 3 && s.kind == 1) { s.p = rt::irreducible(c); if (rt::deg(s.p) > 3) s.p = {Q(-2), Q(0), Q(1)}; s.gen[0] = rt::to_p(s.p, 0); }
	for (unsigned i = 0, n = unsigned(c.draw(3)); i < n; ++i) { std::size_t a = c.idx(s.gen.size()), b = c.idx(s.gen.size()); if (a != b) s.gen[a] = s.gen[a] + rp::scale(s.gen[b], Q(long(c.range(-2, 2)))); } if (c.chance(1, 4)) s.gen.push_back(s.gen[0] * rp::mono(1)); if (c.coin()) std::reverse(s.gen.begin(), s.gen.end());
	std::ostringstream o; for (auto& g : s.gen) o << g << ", "; c.in("zeros of", o.str()); return s;
}
// A polynomial over the system, and its signs at all zeros in a fixed order.
struct Query { P p; std::vector<int> signs; };
static Query query(pbt::Ctx& c, const Sys& s, std::vector<Root> rs) {
	Query q; U a = c.chance(1, 12) ? U() : line(c, 2), b = c.chance(1, 4) ? U() : line(c, 1); if (c.chance(1, 5)) a = query(c, s.p);
	if (s.kind == 1) { q.p = rt::to_p(a, 0) + rt::to_p(b, 0) * rp::mono(1); for (auto& r : rs) { int h = rt::sign_at(s.h, r); if (h < 0) continue; int sa = rt::sign_at(a, r); if (h == 0) { q.signs.push_back(sa); continue; } for (int t : {-1, 1}) { int sb = t * rt::sign_at(b, r); int d = rt::sign_at(rt::sub(rt::mul(a, a), rt::mul(s.h, rt::mul(b, b))), r); q.signs.push_back(sa == 0 ? sb : sb == 0 || sa == sb ? sa : d > 0 ? sa : d < 0 ? sb : 0); } } return q; }
	P p = rt::to_p(a, 0) + rt::to_p(b, 0) * rp::mono(1); U v = rt::add(a, rt::mul(b, s.h)); if (c.chance(1, 3)) { p = p + rp::mono(1, 2); v = rt::add(v, rt::mul(s.h, s.h)); } if (s.kind == 2) { U d = line(c, 1); p = p + rt::to_p(d, 0) * rp::mono(2); v = rt::add(v, rt::mul(d, s.k)); if (c.chance(1, 3)) { p = p * rp::mono(2); v = rt::mul(v, s.k); } }
	q.p = p; for (auto& r : rs) q.signs.push_back(rt::sign_at(v, r)); return q;
}
static std::size_t zeros(const Sys& s, std::vector<Root> rs) { if (s.kind != 1) return rs.size(); std::size_t n = 0; for (auto& r : rs) { int h = rt::sign_at(s.h, r); n += h > 0 ? 2 : h == 0 ? 1 : 0; } return n; }
LAW(system_queries, 800, 9000) {
	Sys s = system(c); auto rs = rt::isolate(s.p); std::vector<CP> zs; for (auto& g : s.gen) zs.push_back(rp::to_carl(g)); carl::TarskiQueryManager<Q> m(zs.begin(), zs.end()); CHK_EQ(m(Q(1)), int(zeros(s, rs)), "number of zeros"); c.nontrivial(rs.size() > 1); c.label(s.kind == 1 ? "square" : "shape");
	for (int i = 0; i < 3; ++i) { auto q = query(c, s, rs); c.in("polynomial", q.p); int want = 0; for (int t : q.signs) want += t; CHK_EQ(m(rp::to_carl(q.p)), want, "positive minus negative zeros of " << q.p); CHK_EQ(m(rp::to_carl(-q.p)), -want, "positive minus negative zeros of the negation"); auto r = query(c, s, rs); want = 0; for (std::size_t k = 0; k < q.signs.size(); ++k) want += q.signs[k] * r.signs[k]; CHK_EQ(m(m.reduceProduct(rp::to_carl(q.p), rp::to_carl(r.p))), want, "query of the product with " << r.p); }
}
static std::string show(const std::set<std::vector<int>>& s) { std::ostringstream o; for (auto& v : s) { o << "("; for (int t : v) o << (t < 0 ? "-" : t > 0 ? "+" : "0"); o << ") "; } return o.str(); }
static std::set<std::vector<int>> set_of(const std::list<carl::SignCondition>& l) { std::set<std::vector<int>> r; for (auto& s : l) { std::vector<int> v; for (auto t : s) v.push_back(int(t)); CHK(r.insert(v).second, "a sign condition is listed twice"); } return r; }
LAW(signs, 700, 8000) {
	bool uni = c.coin(); Sys s; std::vector<CP> zs; if (uni) { s.kind = 0; s.p = small_poly(c, 3, 7); c.in("zeros of", rt::show(s.p)); zs = {cp(s.p)}; } else { s = system(c); for (auto& g : s.gen) zs.push_back(rp::to_carl(g)); }
	auto rs = rt::isolate(s.p); std::size_t n = uni ? rs.size() : zeros(s, rs); carl::SignDetermination<Q> sd(zs.begin(), zs.end()); CHK_EQ(sd.sizeOfZeroSet(), carl::uint(n), "number of zeros"); if (n == 0) { c.label("no zeros"); return; } c.nontrivial(n > 1);
	std::vector<std::vector<int>> have(n); unsigned added = 0; for (unsigned i = 0, steps = 1 + unsigned(c.draw(5)); i < steps; ++i) {
		Query q; if (uni) { U a = query(c, s.p); if (a.empty()) a = {Q(1)}; q.p = rt::to_p(a, 0); for (auto& r : rs) q.signs.push_back(rt::sign_at(a, r)); } else q = query(c, s, rs);
		bool add = c.chance(2, 3); c.in(add ? "add" : "ask", q.p); auto now = have; for (std::size_t k = 0; k < n; ++k) now[k].insert(now[k].begin(), q.signs[k]); std::set<std::vector<int>> want(now.begin(), now.end());
		if (c.chance(1, 5)) { carl::SignDetermination<Q> copy(sd); auto g = set_of(copy.getSigns(rp::to_carl(q.p))); CHK(g == want, "a copy finds the signs " << show(g) << "instead of " << show(want)); }
		auto g = set_of(add ? sd.getSignsAndAdd(rp::to_carl(q.p)) : sd.getSigns(rp::to_carl(q.p))); CHK(g == want, "the signs are " << show(g) << "instead of " << show(want)); if (add) { have = now; ++added; CHK(set_of(sd.signs()) == want, "stored signs"); CHK_EQ(sd.processedPolynomials().size(), std::size_t(added), "number of processed polynomials"); CHK(rp::of(sd.processedPolynomials().front()) == q.p, "last processed polynomial"); } }
	c.label_if(added > 2, "several");
}
LAW(tables, 500, 6000) {
	Sys s = system(c); std::vector<CP> zs; for (auto& g : s.gen) zs.push_back(rp::to_carl(g)); carl::GroebnerBase<Q> gb(zs.begin(), zs.end()); CHK(!gb.isTrivialBase(), "the basis is trivial"); CHK(gb.hasFiniteMon(), "infinitely many monomials"); std::size_t dim = std::size_t(rt::deg(s.p)) * (s.kind == 1 ? 2 : 1); auto mon = gb.mon(), cor = gb.cor(), bor = gb.bor(); CHK_EQ(mon.size(), dim, "dimension"); c.nontrivial(dim > 1);
	auto ex = [](const carl::Term<Q>& t) { return t.monomial() ? rp::exp_of(t.monomial()) : rp::Exp{}; }; std::set<rp::Exp> M, B; for (auto& t : mon) { CHK(t.coeff() == 1, "coefficient of a monomial"); M.insert(ex(t)); for (auto& l : cor) { bool d = true; for (std::size_t i = 0; i < rp::K; ++i) d = d && ex(t)[i] >= ex(l)[i]; CHK(!d, "monomial " << t << " is divisible by " << l); } } CHK_EQ(M.size(), dim, "different monomials"); for (auto& e : M) for (auto v : gb.gatherVariables()) { auto f = e; ++f[std::size_t(rp::index(v))]; if (!M.count(f)) B.insert(f); } std::set<rp::Exp> got; for (auto& t : bor) got.insert(ex(t)); CHK(got == B && bor.size() == B.size(), "border");
	auto nf = [&](const P& p) { // normal form over the shape: substitute and divide
		P a = p; if (s.kind != 1) a = rp::subst(a, 1, rt::to_p(s.h, 0)); else { P b; for (auto& t : a.t) { auto e = t.first; P m(t.second); unsigned k = e[1]; e[1] = k % 2; P x; x.add(e, Q(1)); m = m * x * rp::pow(rt::to_p(s.h, 0), k / 2); b = b + m; } a = b; } if (s.kind == 2) a = rp::subst(a, 2, rt::to_p(s.k, 0)); P r; auto cs = rp::coeffs(a, 1); for (std::size_t i = 0; i < cs.size(); ++i) r = r + rt::to_p(rt::rem(rt::trim(rp::dense(cs[i], 0)), s.p), 0) * rp::mono(1, unsigned(i)); return r; };
	carl::MultiplicationTable<Q> tab(gb); auto rs = rt::isolate(s.p); for (int i = 0; i < 2; ++i) { P f = query(c, s, rs).p, g = query(c, s, rs).p; c.in("f", f); c.in("g", g); auto F = tab.reduce(rp::to_carl(f)), G = tab.reduce(rp::to_carl(g)); P prod = rp::of(tab.baseReprToPolynomial(tab.multiply(F, G))); for (auto& t : prod.t) CHK(M.count(t.first), "the product has other monomials than the base"); CHK(nf(prod) == nf(f * g), "f * g is " << prod); CHK(rp::of(gb.reduce(rp::to_carl(f * g))) == prod, "the reduced product is not the product in the table");
		Q tr(0); for (auto& b : tab.getBase()) { P e = rp::of(gb.reduce(rp::to_carl(f) * b)); auto it = e.t.find(ex(b)); if (it != e.t.end()) tr += it->second; } CHK_EQ(tab.trace(F), tr, "trace"); // traces do not depend on the base: sum over the reference base 1, x, ..
		Q t2(0); for (unsigned a = 0; a < unsigned(rt::deg(s.p)); ++a) for (unsigned b = 0; b < (s.kind == 1 ? 2u : 1u); ++b) { P e = rp::mono(0, a) * rp::mono(1, b); P r = nf(f * e); rp::Exp x{}; x[0] = a; x[1] = b; auto it = r.t.find(x); if (it != r.t.end()) t2 += it->second; } CHK_EQ(tab.trace(F), t2, "trace by another base"); }
}
static Q det(std::vector<std::vector<Q>> m) { Q d(1); std::size_t n = m.size(); for (std::size_t i = 0; i < n; ++i) { std::size_t p = i; while (p < n && m[p][i] == 0) ++p; if (p == n) return Q(0); if (p != i) { std::swap(m[p], m[i]); d = -d; } d *= m[i][i]; for (std::size_t j = i + 1; j < n; ++j) { Q k = m[j][i] / m[i][i]; for (std::size_t l = i; l < n; ++l) m[j][l] -= k * m[i][l]; } } return d; }
LAW(characteristic, 1500, 20000) {
	std::size_t n = 1 + c.draw(9); std::vector<std::vector<Q>> m(n, std::vector<Q>(n)); Mtx M(n, n); bool sym = c.coin(); for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) { m[i][j] = sym && j < i ? m[j][i] : c.chance(1, 3) ? Q(0) : gen::small_rational(c, 4, 2); M(long(i), long(j)) = m[i][j]; } c.in("size", n); { std::ostringstream o; for (auto& r : m) { for (auto& q : r) o << q << " "; o << "; "; } c.in("matrix", o.str()); }
	U p = carl::charPol(M); CHK_EQ(p.size(), n + 1, "number of coefficients"); for (std::size_t i = 0; i <= n; ++i) { Q t(long(i) - long(n) / 2); auto a = m; for (std::size_t r = 0; r < n; ++r) for (std::size_t k = 0; k < n; ++k) a[r][k] = (r == k ? t : Q(0)) - m[r][k]; CHK_EQ(rt::eval(p, t), det(a), "characteristic polynomial at " << t); } c.nontrivial(n > 1);
	std::vector<Q> roots; for (std::size_t i = 0; i < n; ++i) roots.push_back(gen::small_rational(c, 4, 2)); std::vector<Q> sums{Q(long(n))}; for (std::size_t k = 1; k <= n; ++k) { Q t(0); for (auto& r : roots) t += gen::q_pow(r, k); sums.push_back(t); } CHK(carl::newtonSums(sums) == rt::from_roots(roots), "polynomial with given sums of powers of its roots");
}
struct Quiet { std::ostringstream s; std::streambuf* old; Quiet() : old(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(old); } };
// The encoding stands for the root: compared with rationals around it.
static void is(pbt::Ctx& c, const TE& t, Root r, const char* what) {
	std::vector<Q> qs{r.l, r.u, Q(0), gen::small_rational(c, 5, 3)}; Root f = r; rt::refine(f); qs.push_back(f.l);
	for (auto& q : qs) { int want = rt::cmp(r, q); CHK_EQ(t < q, want < 0, what << " " << t << " < " << q); CHK_EQ(t == q, want == 0, what << " " << t << " == " << q); CHK_EQ(q < t, want > 0, q << " < " << what << " " << t); if (c.chance(1, 3)) { CHK_EQ(t <= q, want <= 0, what << " <= " << q); CHK_EQ(t >= q, want >= 0, what << " >= " << q); CHK_EQ(t > q, want > 0, what << " > " << q); CHK_EQ(t != q, want != 0, what << " != " << q); CHK_EQ(q <= t, want >= 0, q << " <= " << what); CHK_EQ(q == t, want == 0, q << " == " << what); } }
}
static std::list<TE> thom(const U& p) { return carl::realRootsThom<Q>(cp(p), rp::vars()[0], std::shared_ptr<TE>(), Iv::unboundedInterval()); }
LAW(encodings, 500, 6000) {
	U p = small_poly(c, 2, 6), q = c.chance(1, 4) ? rt::mul(rt::from_roots({gen::small_rational(c, 3, 2)}), p) : small_poly(c, 2, 6); c.in("p", rt::show(p)); c.in("q", rt::show(q)); auto rp_ = rt::isolate(p), rq = rt::isolate(q); Iv iv = Iv::unboundedInterval(); auto end = [&] { return c.coin() && !rp_.empty() ? rp_[c.idx(rp_.size())].l : gen::small_rational(c, 6, 2); };
	Q l = end(), u = end(); if (l > u) std::swap(l, u); static const Bd BS[] = {Bd::INFTY, Bd::WEAK, Bd::STRICT}; Bd lt = BS[c.idx(3)], ut = BS[c.idx(3)]; if (l < u || lt == Bd::INFTY || ut == Bd::INFTY || (lt == Bd::WEAK && ut == Bd::WEAK)) iv = Iv(l, lt, u, ut); c.in("interval", iv);
	auto inside = [&](Root r) { if (iv.lowerBoundType() != Bd::INFTY) { int k = rt::cmp(r, iv.lower()); if (k < 0 || (k == 0 && iv.lowerBoundType() == Bd::STRICT)) return false; } if (iv.upperBoundType() != Bd::INFTY) { int k = rt::cmp(r, iv.upper()); if (k > 0 || (k == 0 && iv.upperBoundType() == Bd::STRICT)) return false; } return true; };
	auto tp = thom(p), tq = thom(q); CHK_EQ(tp.size(), rp_.size(), "number of roots of p"); CHK_EQ(tq.size(), rq.size(), "number of roots of q"); std::vector<TE> a(tp.begin(), tp.end()), b(tq.begin(), tq.end()); c.nontrivial(a.size() > 1);
	std::vector<Root> in; for (auto& r : rp_) if (inside(r)) in.push_back(r); auto ti = carl::realRootsThom<Q>(cp(p), rp::vars()[0], std::map<carl::Variable, TE>{}, iv); CHK_EQ(ti.size(), in.size(), "number of roots of p in the interval"); std::size_t k = 0; for (auto& t : ti) is(c, t, in[k++], "root");
	for (std::size_t i = 0; i < a.size(); ++i) { CHK_EQ(a[i].containedIn(iv), inside(rp_[i]), "root number " << i << " is contained in the interval"); CHK_EQ(int(a[i].sgn()), rt::cmp(rp_[i], Q(0)), "sign of root number " << i); CHK_EQ(a[i].is_zero(), rt::cmp(rp_[i], Q(0)) == 0, "root number " << i << " is zero"); CHK_EQ(a[i].dimension(), carl::uint(1), "dimension"); U s = query(c, p); CHK_EQ(int(a[i].signOnPolynomial(cp(s))), rt::sign_at(s, rp_[i]), "sign of " << rt::show(s) << " at root number " << i); CHK_EQ(int(a[i].sgn(up(s))), rt::sign_at(s, rp_[i]), "sign of " << rt::show(s) << " at root number " << i);
		for (std::size_t j = 0; j < b.size(); ++j) { int w = rt::cmp(rp_[i], rq[j]); c.label(w == 0 ? "equal" : "different"); CHK_EQ(a[i] < b[j], w < 0, "root " << i << " of p < root " << j << " of q"); CHK_EQ(b[j] < a[i], w > 0, "root " << j << " of q < root " << i << " of p"); CHK_EQ(a[i] == b[j], w == 0, "root " << i << " of p == root " << j << " of q"); if (c.chance(1, 3)) { CHK_EQ(a[i] <= b[j], w <= 0, "p " << i << " <= q " << j); CHK_EQ(a[i] >= b[j], w >= 0, "p " << i << " >= q " << j); CHK_EQ(a[i] != b[j], w != 0, "p " << i << " != q " << j); } if (c.chance(1, 4) && w != 0) { Quiet quiet; TE m = w < 0 ? TE::intermediatePoint(a[i], b[j]) : TE::intermediatePoint(b[j], a[i]); CHK((w < 0 ? a[i] : b[j]) < m && m < (w < 0 ? b[j] : a[i]), m << " is not between"); } }
		for (std::size_t j = 0; j < a.size(); ++j) { CHK_EQ(a[i] < a[j], i < j, "order of roots " << i << " and " << j); CHK_EQ(a[i] == a[j], i == j, "equality of roots " << i << " and " << j); } }
	if (!a.empty()) { std::size_t i = c.idx(a.size()); Q k = gen::small_rational(c, 4, 3); TE t = c.coin() ? a[i] + k : k + a[i]; c.in("plus", k); Root r = rp_[i]; r.p = rt::compose(r.p, rt::trim({-k, Q(1)})); r.l += k; r.u += k; is(c, t, r, "sum"); Q lo = rp_[i].l - 1, hi = rp_[i].u + 1; Q m = TE::intermediatePoint(lo, a[i]); CHK(m > lo && rt::cmp(rp_[i], m) > 0, m << " is not between"); m = TE::intermediatePoint(a[i], hi); CHK(m < hi && rt::cmp(rp_[i], m) < 0, m << " is not between"); is(c, TE(k, rp::vars()[0]), Root{rt::from_roots({k}), k, k}, "number"); auto ds = carl::der(cp(p), rp::vars()[0], 1, carl::uint(rt::deg(p))); U d = rt::diff(p); CHK_EQ(ds.size(), std::size_t(rt::deg(p)), "number of derivatives"); for (auto& e : ds) { CHK(rp::of(e) == rt::to_p(d, 0), "derivative " << e); d = rt::diff(d); } }
}
// Roots of a polynomial in y whose coefficients are evaluated at an encoded x.
LAW(towers, 120, 1500) {
	rt::Field f = rt::field(c, 3); auto conj = rt::isolate(f.m); std::size_t which = 0; for (std::size_t i = 0; i < conj.size(); ++i) if (conj[i].l == f.g.l && conj[i].u == f.g.u) which = i; auto tx = thom(f.m); CHK_EQ(tx.size(), conj.size(), "number of roots"); auto it = tx.begin(); std::advance(it, long(which)); TE x = *it; c.in("x", rt::show(f.g));
	auto make = [&] { rt::FP q; unsigned d = 1 + unsigned(c.draw(3)); for (unsigned i = 0; i <= d; ++i) q.push_back(c.chance(1, 3) ? rt::El{} : rt::element(c, f)); return rt::ftrim(q); }; auto poly = [&](const rt::FP& q) { P r; for (std::size_t i = 0; i < q.size(); ++i) r = r + rt::to_p(q[i], 0) * rp::mono(1, unsigned(i)); return r; };
	auto q = make(); if (q.size() < 2) c.discard(); P qp = poly(q); bool hasx = false; for (auto& t : qp.t) hasx = hasx || t.first[0] > 0; if (!hasx) c.discard(); c.in("q", qp); auto st = rt::fsturm(f, q); int n = rt::fvar_inf(f, st, false) - rt::fvar_inf(f, st, true); c.nontrivial(n > 0); c.label(n > 1 ? "several" : n ? "one" : "none");
	auto roots = carl::realRootsThom<Q>(rp::to_carl(qp), rp::vars()[1], std::map<carl::Variable, TE>{{rp::vars()[0], x}}); CHK_EQ(roots.size(), std::size_t(n), "number of roots"); std::vector<TE> ts(roots.begin(), roots.end());
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { CHK_EQ(ts[std::size_t(i)] < ts[std::size_t(j)], i < j, "order of the roots " << i << " and " << j); CHK_EQ(ts[std::size_t(i)] == ts[std::size_t(j)], i == j, "equality of the roots " << i << " and " << j); }
	// over another conjugate: never the same, in an order of some kind
	if (conj.size() > 1 && c.coin()) { std::size_t o = c.idx(conj.size() - 1); if (o >= which) ++o; auto ot = tx.begin(); std::advance(ot, long(o)); CHK(!x.equals(*ot) && x.equals(x), "different roots are literally the same"); auto rs = carl::realRootsThom<Q>(rp::to_carl(qp), rp::vars()[1], std::map<carl::Variable, TE>{{rp::vars()[0], *ot}}); c.label_if(n && !rs.empty(), "two points"); for (auto& r : rs) for (auto& t : ts) { CHK(!(r == t) && !(t == r) && !r.equals(t), "roots over different points are equal"); CHK((r < t) != (t < r) && (r < t) == (t > r), "roots over different points are not ordered"); } }
	Q at = gen::small_rational(c, 4, 2); if (rt::fsign(f, rt::feval(f, q, at)) == 0) at += gen::frac(1, 97); int below = rt::fvar_inf(f, st, false) - rt::fvar(f, st, at); for (int i = 0; i < n; ++i) { CHK_EQ(ts[std::size_t(i)] < at, i < below, "root number " << i << " < " << at); CHK_EQ(ts[std::size_t(i)].dimension(), carl::uint(2), "dimension"); CHK(ts[std::size_t(i)].point().equals(x), "the point below"); CHK_EQ(ts[std::size_t(i)].signOnPolynomial(rp::to_carl(qp)) == carl::Sign::ZERO, true, "root number " << i << " is a root"); CHK_EQ(int(ts[std::size_t(i)].signOnPolynomial(rp::to_carl(rt::to_p(rt::trim({-at, Q(1)}), 1)))), i < below ? -1 : 1, "sign of y - " << at); U e = rt::element(c, f); CHK_EQ(int(ts[std::size_t(i)].signOnPolynomial(rp::to_carl(rt::to_p(e, 0)))), rt::fsign(f, e), "sign of " << rt::show(e)); }
}
PBT_MAIN("T01", "there are at least two zeros")
