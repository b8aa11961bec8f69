// R03: isolation of the real roots of univariate polynomials, also with algebraic numbers for other variables.
#include "ran.h"
using namespace gen;
using rt::U; using rt::Root; using rt::Field; using rt::El; using rt::FP; using rp::P; using rp::vars; using rr::RAN; using rr::Iv; using rr::Bd;

static bool in(Root r, const Iv& i) {
	if (i.isEmpty()) return false;
	int l = i.lowerBoundType() == Bd::INFTY ? 1 : rt::cmp(r, i.lower()), u = i.upperBoundType() == Bd::INFTY ? -1 : rt::cmp(r, i.upper());
	return (l > 0 || (l == 0 && i.lowerBoundType() == Bd::WEAK)) && (u < 0 || (u == 0 && i.upperBoundType() == Bd::WEAK));
}
static Iv interval(pbt::Ctx& c, const std::vector<Root>& rs) {
	if (c.chance(1, 3)) return Iv::unboundedInterval();
	auto end = [&] { if (!rs.empty() && c.coin()) { Root r = rs[c.idx(rs.size())]; for (unsigned k = unsigned(c.draw(6)); k; --k) rt::refine(r); return c.coin() ? r.l : r.u; } return small_rational(c, 15, 4); };
	Q l = end(), u = end(); if (u < l) std::swap(l, u);
	Bd lt = c.pick({Bd::STRICT, Bd::WEAK, Bd::WEAK, Bd::INFTY}), ut = c.pick({Bd::STRICT, Bd::WEAK, Bd::WEAK, Bd::INFTY});
	if (l == u && !(lt == Bd::WEAK && ut == Bd::WEAK) && lt != Bd::INFTY && ut != Bd::INFTY) u = l + 1;
	return Iv(l, lt, u, ut);
}
LAW(univariate, 15000, 300000) {
	U a = rt::poly(c, 5);
	if (c.chance(1, 3)) { a = U(1 + c.draw(9)); for (auto& q : a) if (!c.chance(1, 3)) q = c.chance(1, 6) ? rational(c) : small_rational(c, 30, 5); a = rt::trim(a); if (a.empty()) a = {Q(1)}; }
	if (c.chance(1, 4)) a = rt::mul(a, {Q(0), Q(1)});
	auto rs = rt::isolate(a); Iv i = interval(c, rs);
	c.in("p", rt::show(a)); c.in("interval", i);
	std::vector<Root> want; for (auto& r : rs) if (in(r, i)) want.push_back(r);
	c.nontrivial(rt::deg(a) >= 3 && !rs.empty()); c.label_if(want.size() < rs.size(), "roots outside the interval"); c.label_if(want.size() > 2, "three or more roots");
	auto res = carl::real_roots(rr::up(a), i);
	CHK(res.is_univariate() && !res.is_nullified() && !res.is_non_univariate(), "the result has no roots");
	auto& got = res.roots();
	std::ostringstream o; for (auto& g : got) o << g << " ";
	CHK(got.size() == want.size(), got.size() << " roots instead of " << want.size() << ": " << o.str());
	for (std::size_t k = 0; k < got.size(); ++k) rr::is(got[k], want[k], "root " + std::to_string(k));
	// The same with polynomial coefficients, and the zero polynomial
	auto res2 = carl::real_roots(rp::to_uni_mv(rt::to_p(a, 0), 0), i);
	CHK(res2.is_univariate() && res2.roots().size() == want.size(), "roots with polynomial coefficients");
	for (std::size_t k = 0; k < want.size(); ++k) rr::is(res2.roots()[k], want[k], "root with polynomial coefficients " + std::to_string(k));
	CHK(carl::real_roots(rr::UP(vars()[0]), i).is_nullified(), "the zero polynomial is not nullified");
}

// A polynomial in x with coefficients in algebraic numbers; y, z and u are assigned elements of one field.
static void nested(pbt::Ctx& c, std::size_t others) {
	Field f = rt::field(c, others > 1 ? 2 : 4); // two parameters: the cost of resultants grows exponentially
	c.in("field", rt::show(f.g));
	std::vector<El> vals; carl::ran_assignment<Q> m; std::vector<Root> refs;
	for (std::size_t i = 0; i < others; ++i) {
		El e = rt::element(c, f); if (i == 0 && c.coin()) e = {Q(0), Q(1)};
		if (others > 1 && e.size() < 2 && c.coin()) e = {Q(1), Q(-1)};
		if (i == 1 && c.chance(1, 3)) e = c.coin() ? vals[0] : rt::neg(vals[0]);
		vals.push_back(e); refs.push_back(rt::element_root(f, e));
		c.in(("value of " + vars()[i + 1].name()).c_str(), rt::show(refs.back()));
		m.emplace(vars()[i + 1], rr::make(c, refs.back()));
	}
	rp::Shape s; s.nvars = others + 1; s.maxexp = 2; s.maxterms = 4; s.integral = true;
	P p;
	switch (c.weighted({3, 2, 1})) {
		case 0: p = rp::poly(c, s); break;
		case 1: { rp::Shape t = s; t.maxterms = 2; t.maxexp = 1; p = (rp::mono(0) - rp::subst(rp::poly(c, t), 0, P(Q(1)))) * (rp::mono(0, 2) - rp::subst(rp::poly(c, t), 0, P(Q(2)))); break; } // planned roots
		default: { // often vanishes identically: a multiple of the relation between the values
			P rel = rt::to_p(refs[0].p, 1); if (others > 1 && c.coin()) rel = c.coin() ? rp::mono(1) - rp::mono(2) : rp::mono(1) + rp::mono(2); p = rel * rp::poly(c, s); if (c.coin()) p = p + rel * rp::mono(0); break; }
	}
	if (others > 1) { P small; for (auto& t : p.t) if (t.first[0] <= 2 && t.first[1] <= 2 && t.first[2] <= 1) small.add(t.first, t.second); p = small; }
	c.in("p", p);
	// The polynomial over the field
	auto at = [&](const std::vector<El>& w) {
		FP r(p.degree(0) + 1);
		for (auto& t : p.t) { El k{t.second}; for (std::size_t i = 0; i < others; ++i) for (unsigned e = 0; e < t.first[i + 1]; ++e) k = rt::fmul(f, k, w[i]); r[t.first[0]] = rt::add(r[t.first[0]], k); }
		for (auto& k : r) k = rt::rem(k, f.m);
		return rt::ftrim(r);
	};
	FP q = at(vals);
	auto poly = rp::to_uni_mv(p, 0);
	auto res = carl::real_roots(poly, m);
	c.nontrivial(q.size() >= 2); c.label_if(q.empty(), "vanishes"); c.label_if(q.size() < poly.coefficients().size(), "degree drops");
	if (q.empty()) { CHK(!res.is_univariate(), "the polynomial vanishes but has roots"); return; }
	if (others > 1 && res.is_non_univariate()) { // the resultants vanish when the polynomial vanishes at conjugates of the values
		El b = vals[1]; b.resize(2); Q t = -f.m[1] / f.m[2]; std::vector<El> w{vals[0], rt::trim({Q(b[0] + b[1] * t), Q(-b[1])})};
		CHK(at(w).empty(), "no roots were computed although no resultant vanishes");
		c.label("gave up"); return;
	}
	CHK(res.is_univariate(), "the polynomial does not vanish but is reported as vanishing");
	auto sturm = rt::fsturm(f, q);
	int n = rt::fvar_inf(f, sturm, false) - rt::fvar_inf(f, sturm, true);
	auto roots = res.roots();
	std::ostringstream o; for (auto& g : roots) o << g << " ";
	CHK(int(roots.size()) == n, roots.size() << " roots instead of " << n << ": " << o.str());
	c.label_if(n > 0, "has roots");
	for (std::size_t k = 0; k < roots.size(); ++k) {
		if (k) CHK(roots[k - 1] < roots[k], "roots are not sorted");
		if (roots[k].is_numeric()) { CHK(rt::fsign(f, rt::feval(f, q, roots[k].value())) == 0, "the number " << roots[k].value() << " is no root"); continue; }
		// Refine until the interval has exactly one root of the polynomial, which must happen.
		bool ok = false;
		for (int i = 0; i < 200 && !roots[k].is_numeric(); ++i) {
			Q l = roots[k].interval().lower(), u = roots[k].interval().upper();
			bool el = rt::fsign(f, rt::feval(f, q, l)) == 0, eu = rt::fsign(f, rt::feval(f, q, u)) == 0;
			if (!el && !eu) { int cnt = rt::fvar(f, sturm, l) - rt::fvar(f, sturm, u); CHK(cnt > 0, "no root in " << roots[k].interval()); if (cnt == 1) { ok = true; break; } }
			roots[k].refine();
		}
		if (roots[k].is_numeric()) CHK(rt::fsign(f, rt::feval(f, q, roots[k].value())) == 0, "the number " << roots[k].value() << " is no root");
		else CHK(ok, "no isolating interval was reached for root " << k);
	}
}
LAW_B(one_parameter, 1500, 30000, 50) { nested(c, 1); }
LAW_B(two_parameters, 500, 10000, 20) { nested(c, 2); }

// Eliminates variables that are defined by a triangular system all of whose zeros are known: the remaining polynomial
// has exactly the zeros of the polynomials at these points.
LAW_B(elimination, 3000, 60000, 100) {
	using carl::ran::interval::AlgebraicSubstitutionStrategy;
	std::size_t n = 1 + c.idx(2);
	std::vector<std::array<Q, rp::K>> pts(1);
	std::vector<P> defs;
	for (std::size_t v = 1; v <= n; ++v) { // the variable equals one of some linear functions of the variable before
		P d(Q(1)); std::vector<P> vals;
		for (unsigned k = 1 + unsigned(c.draw(v == 1 ? 3 : 2)); k; --k) { P w(small_rational(c, 5, 2)); if (v > 1 && c.coin()) w = w + rp::scale(rp::mono(v - 1), Q(long(c.range(-2, 2)))); vals.push_back(w); d = d * (rp::mono(v) - w); }
		defs.push_back(rp::scale(d, Q(long(1 + c.draw(3)))));
		std::vector<std::array<Q, rp::K>> next;
		for (auto& a : pts) for (auto& w : vals) { auto b = a; b[v] = rp::eval(w, a); next.push_back(b); }
		pts = next;
	}
	rp::Shape s; s.nvars = n + 1; s.maxterms = 4; s.maxexp = 2;
	P p = rp::nonzero(c, s);
	if (c.coin()) p = p + rp::mono(0, 1 + unsigned(c.draw(2)));
	c.in("polynomial", p); for (auto& d : defs) c.in("defined by", d);
	U want{Q(1)};
	for (auto& a : pts) { P q = p; for (std::size_t v = 1; v <= n; ++v) q = rp::subst(q, v, P(a[v])); want = rt::mul(want, rt::trim(rp::dense(q, 0))); }
	c.nontrivial(want.size() > 1); c.label_if(want.empty(), "vanishes");
	std::vector<carl::UnivariatePolynomial<rp::CP>> defining; std::vector<rp::CP> polys; std::vector<carl::Variable> order;
	for (std::size_t v = 1; v <= n; ++v) { defining.push_back(rp::to_uni_mv(defs[v - 1], v)); polys.push_back(rp::to_carl(defs[v - 1])); order.push_back(vars()[v]); }
	polys.push_back(rp::to_carl(p)); order.push_back(vars()[0]);
	auto one = carl::ran::interval::algebraic_substitution(rp::to_uni_mv(p, 0), defining);
	auto two = carl::ran::interval::algebraic_substitution(polys, order);
	for (auto& r : {one, two}) {
		CHK(bool(r), "no polynomial remains");
		CHK(r->mainVar() == vars()[0], "the remaining variable is " << r->mainVar());
		U g = rt::trim(r->coefficients());
		CHK(rt::monic(rt::sqfree(g)) == rt::monic(rt::sqfree(want)), "the remaining polynomial is " << *r << ", expected the zeros of " << rt::show(want));
	}
}

PBT_MAIN("R03", "degree at least three and real roots, or a nonconstant polynomial over the number field")
