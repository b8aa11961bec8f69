// G01: Groebner bases, ideals and reduction.
#include "grob.h"
#include <carl/groebner/groebner.h>
#include <carl/groebner/GBProcedure.h>
#include <carl/core/polynomialfunctions/SPolynomial.h>
using namespace gen;
using rp::P; using rp::Exp; using rp::CP; using rp::Shape; using rp::K; using rp::vars;
using RP = carl::MultivariatePolynomial<Q, carl::GrLexOrdering, carl::StdMultivariatePolynomialPolicies<carl::BVReasons, carl::NoAllocator>>;
template<typename T> using Std = carl::GBProcedure<T, carl::Buchberger, carl::StdAdding>;
template<typename T> using Real = carl::GBProcedure<T, carl::Buchberger, carl::RealRadicalAwareAdding>;

template<typename T> static P ref(const T& p) { P r; for (auto& t : p) { Exp e{}; if (t.monomial()) e = rp::exp_of(t.monomial()); CHK(t.coeff() != 0 && r.at(e) == 0, "repeated or zero term"); r.add(e, t.coeff()); } return r; }
static std::string show(const std::vector<P>& v) { std::ostringstream s; s << "{"; for (std::size_t i = 0; i < v.size(); ++i) s << (i ? ", " : "") << v[i]; s << "}"; return s.str(); }
static P small(pbt::Ctx& c, std::size_t nv, unsigned maxe) { Shape s; s.nvars = nv; s.maxexp = maxe; s.maxterms = 3; s.integral = true; P p = rp::poly(c, s); P r; for (auto& t : p.t) { unsigned d = 0; for (unsigned e : t.first) d += e; if (d <= 3) r.add(t.first, t.second); } return r; }
static std::vector<P> system(pbt::Ctx& c, std::size_t n) {
	std::size_t nv = 1 + c.draw(3); std::vector<P> r;
	for (std::size_t i = 0; i < n; ++i) {
		P p = small(c, nv, 2);
		switch (c.weighted({8, 2, 2, 1})) {
			case 1: if (!r.empty()) p = rp::scale(r[c.idx(r.size())], Q(long(c.range(-3, 3)))); break;
			case 2: if (!r.empty()) p = r[c.idx(r.size())] * small(c, nv, 1) + (c.coin() ? r[c.idx(r.size())] : P()); break;
			case 3: p = P(); break;
			default: break;
		}
		r.push_back(p);
	}
	return r;
}
static bool constant_one(const std::vector<P>& b) { return b.size() == 1 && b[0].constant(); }

// Any history of adding, pre-reducing, computing, resetting and copying.
LAW(histories, 4000, 80000) {
	std::size_t n = 1 + c.draw(5); auto sys = system(c, n);
	c.in("polynomials", show(sys));
	Std<CP> gb; std::vector<P> done, sched; std::size_t left = 0; std::ostringstream hist; gr::Work w; std::size_t i = 0; unsigned computed = 0; bool fresh = true, pre = false;
	try {
		for (unsigned step = 0; step < 12 && (i < n || step < 8); ++step) {
			switch (i < n ? c.weighted({6, 2, 3, 1, 1}) : c.weighted({0, 2, 3, 1, 1})) {
				case 0: hist << "add "; gb.addPolynomial(rp::to_carl(sys[i])); sched.push_back(sys[i]); ++left; ++i; break;
				case 1: {
					hist << "pre-reduce "; c.in("history", hist.str());
					auto red = gb.reduceInput(); std::size_t nz = 0; std::vector<P> now = gr::basis(done, w); std::vector<P> in = sched;
					std::vector<P> all = done; all.insert(all.end(), sched.begin(), sched.end()); auto before = gr::basis(all, w);
					(void)nz; CHK(red.size() <= left, "more redundant polynomials than polynomials");
					if (before.empty()) CHK_EQ(red.size(), left, "number of polynomials reduced to zero");
					CHK_EQ(gb.inputEmpty(), red.size() == left, "whether input is left");
					if (!fresh && gr::basis(done, w) == before) CHK_EQ(red.size(), left, "number of polynomials in the ideal already");
					left -= red.size(); pre = true;
					break; }
				case 2: {
					hist << "compute "; c.in("history", hist.str()); ++computed;
					done.insert(done.end(), sched.begin(), sched.end()); sched.clear(); left = 0; fresh = false; pre = false;
					auto e = gr::basis(done, w); c.in("expected", show(e));
					gb.calculate();
					std::vector<P> b; for (auto& p : gb.getBasisPolynomials()) b.push_back(ref(p));
					std::sort(b.begin(), b.end(), [](const P& x, const P& y) { return x.zero() || y.zero() ? x.zero() && !y.zero() : gr::cmp(gr::lead(x), gr::lead(y)) < 0; });
					CHK(b == e, "basis is " << show(b));
					CHK_EQ(gb.basisIsConstant(), constant_one(e), "whether the basis is constant");
					CHK(gb.inputEmpty(), "input left after computing");
					CHK_EQ(gb.getIdeal().nrGenerators(), e.size(), "number of generators"); CHK_EQ(gb.listBasisPolynomials().size(), e.size(), "length of the list");
					break; }
				case 3: if (pre) break; hist << "reset "; gb.reset(); done.clear(); fresh = true; CHK(gb.getBasisPolynomials().empty(), "basis after reset"); break;
				default: { // a copy is continued with, after other things were done to the original
					hist << "copy "; Std<CP> q; if (c.coin()) { q.addPolynomial(rp::to_carl(rp::mono(0))); if (c.coin()) q.calculate(); } if (c.coin()) q = gb; else { Std<CP> o(gb); q = o; }
					for (std::size_t k = c.draw(4); k-- > 0;) { P p = sys[c.idx(n)]; if (c.coin()) p = p + P(Q(1)); hist << "(add " << p << ") "; gb.addPolynomial(rp::to_carl(p)); } if (c.coin()) { hist << "(compute) "; c.in("history", hist.str()); gb.calculate(); }
					if (c.coin()) gb = q; else { Std<CP> o(q); gb = o; } break; }
			}
		}
	} catch (gr::too_long&) { c.label("too long"); return; }
	CHK_EQ(gb.nrOrigGenerators(), i, "number of polynomials ever added");
	c.nontrivial(computed > 0 && done.size() > 1); c.label_if(computed > 1, "computed repeatedly"); c.label_if(constant_one(gr::basis(done, w)), "unit ideal");
}
// The reasons attached to basis elements are enough to derive them.
LAW(reasons, 4000, 80000) {
	std::size_t n = 2 + c.draw(3); auto sys = system(c, n); for (auto& p : sys) if (p.zero()) p = rp::mono(c.idx(3), 2);
	if (c.coin()) sys.push_back(sys[0] + P(Q(1)));
	c.in("polynomials", show(sys)); bool pre = c.coin(); c.in("pre-reduce", pre);
	gr::Work w;
	try {
		Std<RP> gb; std::vector<P> all;
		std::size_t cut = c.draw(sys.size() + 1); c.in("computed after", cut);
		std::list<std::pair<carl::BitVector, carl::BitVector>> red;
		for (std::size_t i = 0; i < sys.size(); ++i) {
			RP p(rp::to_carl(gr::monic(sys[i]))); p.setReasons(carl::BitVector(unsigned(i))); gb.addPolynomial(p); all.push_back(sys[i]);
			if (i + 1 == cut) gb.calculate();
		}
		auto span = [&](const carl::BitVector& b) { std::vector<P> s; for (std::size_t j = 0; j < sys.size(); ++j) if (b.getBit(unsigned(j))) s.push_back(sys[j]); return gr::basis(s, w); };
		if (pre) { red = gb.reduceInput(); for (auto& r : red) { std::vector<P> s; std::size_t own = 99; for (std::size_t j = 0; j < sys.size(); ++j) if (r.first.getBit(unsigned(j))) own = j; CHK(own < sys.size(), "a redundant polynomial without origin"); for (std::size_t j = 0; j < sys.size(); ++j) if (j != own && r.second.getBit(unsigned(j))) s.push_back(sys[j]); CHK(gr::reduce(sys[own], gr::basis(s, w), w).zero(), sys[own] << " is not redundant because of the recorded polynomials"); } }
		gb.calculate();
		auto e = gr::basis(all, w); std::vector<P> b;
		for (auto& p : gb.getBasisPolynomials()) { P r = ref(p); b.push_back(r); auto s = span(p.getReasons()); CHK(gr::reduce(r, s, w).zero(), r << " does not follow from the polynomials recorded as its reasons " << p.getReasons()); }
		std::sort(b.begin(), b.end(), [](const P& x, const P& y) { return gr::cmp(gr::lead(x), gr::lead(y)) < 0; });
		CHK(b == e, "basis is " << show(b) << ", expected " << show(e));
		c.nontrivial(e.size() > 1 || constant_one(e)); c.label_if(!red.empty(), "redundant input");
	} catch (gr::too_long&) { c.label("too long"); }
}
// With real zeros in mind the basis may grow, but never loses a real zero.
LAW(real_zeros, 4000, 80000) {
	std::array<Q, K> x{}; for (auto& v : x) v = Q(long(c.range(-2, 2)));
	std::size_t n = 1 + c.draw(4); std::vector<P> sys; std::size_t nv = 1 + c.draw(3);
	for (std::size_t i = 0; i < n; ++i) {
		P p = small(c, nv, 2);
		if (c.coin()) { p = P(); for (unsigned k = 1 + unsigned(c.draw(3)); k; --k) { Exp e{}; for (std::size_t v = 0; v < nv; ++v) e[v] = 2 * unsigned(c.draw(2)); p.add(e, Q(long(c.range(1, 4)))); } if (c.coin()) p = -p; }
		bool at = !c.chance(1, 4); if (at) p = p - P(rp::eval(p, x)); if (c.chance(1, 6)) { for (auto& v : x) v = 0; p = p - P(rp::eval(p, x)); }
		sys.push_back(p);
	}
	c.in("polynomials", show(sys)); gr::Work w;
	bool zero = true; for (auto& p : sys) zero = zero && rp::eval(p, x) == 0;
	c.label_if(zero, "has the planned zero"); c.nontrivial(n > 1);
	try {
		auto small_basis = gr::basis(sys, w); if (small_basis.size() > 12) return;
		Real<CP> gb; for (auto& p : sys) gb.addPolynomial(rp::to_carl(p));
		bool pre = c.coin(); c.in("pre-reduce", pre); if (pre) gb.reduceInput();
		gb.calculate();
		std::vector<P> b; for (auto& p : gb.getBasisPolynomials()) b.push_back(ref(p));
		c.in("basis", show(b));
		for (auto& p : sys) CHK(gr::reduce(p, b, w).zero(), p << " is not in the computed ideal");
		if (zero) for (auto& p : b) CHK(rp::eval(p, x) == 0, p << " does not vanish at the common zero (" << x[0] << ", " << x[1] << ", " << x[2] << ")");
		auto e = gr::basis(b, w); std::sort(b.begin(), b.end(), [](const P& s, const P& t) { return gr::cmp(gr::lead(s), gr::lead(t)) < 0; });
		CHK(b == e, "not a reduced basis of its ideal; expected " << show(e));
		if (!pre) for (auto& p : sys) { bool even = !p.zero(); int s = 0; for (auto& t : p.t) { for (unsigned k : t.first) even = even && k % 2 == 0; if (s && sgn(t.second) != s) even = false; s = sgn(t.second); } if (even && p.at(Exp{}) != 0) CHK(constant_one(b), p << " has no real zero"); }
	} catch (gr::too_long&) { c.label("too long"); }
}
// Ideals as containers, and reduction by arbitrary generators.
LAW(reduction, 8000, 160000) {
	std::size_t n = c.draw(5); auto sys = system(c, n); std::vector<P> g; for (auto& p : sys) if (!p.zero()) g.push_back(p);
	P f = small(c, 3, 3) + (g.empty() ? P() : g[c.idx(g.size())] * small(c, 2, 1));
	c.in("generators", show(g)); c.in("f", f); c.nontrivial(!g.empty() && !f.zero());
	carl::Ideal<CP> I; std::vector<std::size_t> alive;
	for (std::size_t i = 0; i < g.size(); ++i) { CHK_EQ(I.addGenerator(rp::to_carl(g[i])), i, "index of the generator"); alive.push_back(i); }
	CHK_EQ(I.nrGenerators(), g.size(), "number of generators");
	auto check = [&](const carl::Ideal<CP>& J, const std::vector<P>& gen, const char* what) {
		carl::Reductor<CP, CP> red(J, rp::to_carl(f)); P r = ref(red.fullReduce());
		bool reducible = false; for (auto& t : f.t) for (auto& p : gen) reducible = reducible || gr::div(t.first, gr::lead(p));
		for (auto& t : r.t) for (auto& p : gen) CHK(!gr::div(t.first, gr::lead(p)), what << ": the remainder " << r << " can be reduced by " << p);
		gr::Work w; try { CHK(gr::reduce(f - r, gr::basis(gen, w), w).zero(), what << ": " << f << " and its remainder " << r << " differ by more than the ideal"); } catch (gr::too_long&) {}
		if (!reducible) { CHK(r == f, what << ": an irreducible polynomial was reduced to " << r); CHK(!red.reductionOccured(), what << ": reports a reduction"); }
		else CHK(red.reductionOccured(), what << ": reports no reduction");
		for (auto& t : f.t) { carl::Term<Q> term(t.second, rp::monomial(t.first)); auto d = J.getDivisor(term); bool dv = false; for (auto& p : gen) dv = dv || gr::div(t.first, gr::lead(p)); CHK_EQ(d.success(), dv, what << ": whether a generator divides " << term);
			if (dv) { P q = ref(*d.mDivisor); CHK(std::find(gen.begin(), gen.end(), q) != gen.end(), what << ": divisor is no generator"); P fac; fac.add(d.mFactor.monomial() ? rp::exp_of(d.mFactor.monomial()) : Exp{}, d.mFactor.coeff()); P prod = q * fac; CHK(prod.at(t.first) == -t.second && gr::lead(prod) == t.first, what << ": the factor does not cancel the term"); } }
	};
	check(I, g, "ideal");
	auto idx = I.getOrderedIndices(); CHK_EQ(idx.size(), g.size(), "number of ordered indices");
	for (std::size_t i = 1; i < idx.size(); ++i) CHK(gr::cmp(gr::lead(g[idx[i - 1]]), gr::lead(g[idx[i]])) <= 0, "generators are not ordered by leading term");
	bool lin = true; for (auto& p : g) lin = lin && p.total() <= 1; 
	CHK_EQ(I.isConstant(), constant_one(g), "constant"); CHK_EQ(I.isLinear(), lin, "linear"); 
	if (!g.empty() && c.coin()) {
		std::vector<P> h; for (std::size_t i = 0; i < g.size(); ++i) if (c.chance(1, 3)) I.eliminateGenerator(i); else h.push_back(g[i]);
		c.in("kept", show(h));
		if (c.coin()) check(I, h, "ideal with eliminated generators");
		if (c.coin()) { carl::Ideal<CP> J(I); check(J, h, "copy"); CHK_EQ(J.nrGenerators(), h.size(), "generators of the copy"); }
		if (c.coin()) { carl::Ideal<CP> J; for (std::size_t k = c.draw(3); k-- > 0;) { P q = small(c, 2, 2); if (!q.zero()) J.addGenerator(rp::to_carl(q)); } if (J.nrGenerators() > 1 && c.coin()) J.eliminateGenerator(0); J = I; check(J, h, "assigned"); CHK_EQ(J.nrGenerators(), h.size(), "generators of the assigned ideal"); P q = small(c, 2, 2); if (!q.zero()) { J.addGenerator(rp::to_carl(q)); auto h2 = h; h2.push_back(q); check(J, h2, "assigned and extended"); check(I, h, "ideal after its copy was extended"); } }
		I.removeEliminated(); CHK_EQ(I.nrGenerators(), h.size(), "generators after removing"); for (std::size_t i = 0; i < h.size(); ++i) CHK(ref(I.getGenerator(i)) == h[i], "generator after removing");
		check(I, h, "ideal after removing generators");
		P extra = small(c, 2, 2); if (!extra.zero()) { I.addGenerator(rp::to_carl(extra)); h.push_back(extra); check(I, h, "ideal after removing and adding"); }
		I.clear(); CHK_EQ(I.nrGenerators(), std::size_t(0), "generators after clearing"); check(I, {}, "cleared ideal");
	}
}
PBT_MAIN("G01", "at least two polynomials and a computation (bases), generators and a polynomial (reduction)")
