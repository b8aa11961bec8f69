// Symmetries of formulas and formulas breaking them.
#include "fm.h"
#define BLISS_USE_GMP // the installed one is built like this
#include <bliss/digraph.hh>
#include <bliss/graph.hh>
// The library is written for an older interface of bliss.
namespace old_bliss {
using bliss::Stats;
struct Digraph : bliss::Digraph { void find_automorphisms(Stats& s, void (*hook)(void*, const unsigned, const unsigned*), void* p) { bliss::Digraph::find_automorphisms(s, [=](unsigned n, const unsigned* a) { hook(p, n, a); }); } };
}
#define bliss old_bliss
#include <carl/formula/symmetry/symmetry.h>
#undef bliss
#include <carl/formula/SortManager.h>
using namespace fm;
using T = FormulaType; using carl::VariableType;
using Perm = std::map<Variable, Variable>;
// Own variables: several of each type. All values are small numbers.
constexpr std::size_t NT = 5; // Booleans, reals, integers, bit-vectors, uninterpreted ones
static const std::size_t COUNT[NT] = {5, 4, 3, 3, 3};
struct World { std::vector<Variable> v[NT]; carl::Sort bv, s; };
static World& world() {
	static World w = [] { World r; auto& m = carl::SortManager::getInstance(); carl::Sort b = m.addSort("BV", VariableType::VT_BITVECTOR); m.makeSortIndexable(b, 1, VariableType::VT_BITVECTOR); r.bv = m.index(b, {2}); m.declare("S", 0); r.s = m.getSort("S");
		static const VariableType TY[] = {VariableType::VT_BOOL, VariableType::VT_REAL, VariableType::VT_INT, VariableType::VT_BITVECTOR, VariableType::VT_UNINTERPRETED};
		for (std::size_t t = 0; t < NT; ++t) for (std::size_t i = 0; i < COUNT[t]; ++i) r.v[t].push_back(carl::freshVariable(std::string(1, "bxkvu"[t]) + std::to_string(i), TY[t])); return r; }();
	return w;
}
using Pi = std::array<std::vector<std::size_t>, NT>; // where each variable goes
static Pi identity() { Pi p; for (std::size_t t = 0; t < NT; ++t) for (std::size_t i = 0; i < COUNT[t]; ++i) p[t].push_back(i); return p; }
static Pi random_pi(pbt::Ctx& c, std::size_t types) { Pi p = identity(); for (std::size_t t = 0; t < types; ++t) { if (!c.chance(2, 3)) continue; if (c.coin()) { std::size_t a = c.idx(COUNT[t]), b = c.idx(COUNT[t]); std::swap(p[t][a], p[t][b]); } else for (std::size_t i = COUNT[t]; i-- > 1;) std::swap(p[t][i], p[t][c.idx(i + 1)]); } return p; }
static Pi after(const Pi& a, const Pi& b) { Pi r = b; for (std::size_t t = 0; t < NT; ++t) for (auto& x : r[t]) x = a[t][x]; return r; }
// Recipes of formulas, so that variables can be renamed before the library sees them.
struct N2 { T t = T::BOOL; std::size_t a = 0, b = 0, k = 0; std::vector<std::pair<int, std::vector<std::pair<std::size_t, std::size_t>>>> p; int con = 0; Relation rel = Relation::EQ; std::vector<N2> s; };
static N2 gen_recipe(pbt::Ctx& c, unsigned depth, unsigned kinds) { // kinds: 1 Booleans only, 2 also constraints, 3 everything
	N2 n;
	if (depth == 0 || c.chance(1, 5)) {
		switch (kinds == 1 ? 0 : kinds == 2 ? c.weighted({2, 3}) : c.weighted({2, 3, 2, 2})) {
			case 0: n.a = c.idx(COUNT[0]); break;
			case 1: { n.t = T::CONSTRAINT; n.rel = RELS[c.idx(6)]; std::size_t k = 1 + c.draw(3); for (std::size_t i = 0; i < k; ++i) { std::vector<std::pair<std::size_t, std::size_t>> m; std::size_t d = 1 + c.draw(2); for (std::size_t j = 0; j < d; ++j) { std::size_t ty = 1 + c.idx(2); m.push_back({ty, c.idx(COUNT[ty])}); } int q = 0; while (q == 0) q = c.chance(2, 3) ? 1 : int(c.range(-2, 2)); n.p.push_back({q, m}); } n.con = int(c.range(-2, 2)); break; }
			case 2: n.t = T::BITVECTOR; n.a = c.idx(COUNT[3]); n.b = c.idx(COUNT[3]); n.k = c.draw(4); break;
			default: n.t = T::UEQ; n.a = c.idx(COUNT[4]); n.b = c.idx(COUNT[4]); n.k = c.draw(2); break;
		}
		return n;
	}
	static const T OPS[] = {T::AND, T::OR, T::XOR, T::IFF, T::IMPLIES, T::ITE, T::NOT, T::EXISTS, T::FORALL};
	n.t = OPS[c.idx(kinds == 3 ? 9 : 7)]; std::size_t k = n.t == T::NOT || n.t == T::EXISTS || n.t == T::FORALL ? 1 : n.t == T::IMPLIES ? 2 : n.t == T::ITE ? 3 : 2 + c.draw(2); n.a = c.idx(COUNT[0]);
	for (std::size_t i = 0; i < k; ++i) n.s.push_back(gen_recipe(c, depth - 1, kinds)); return n;
}
static F build(const N2& n, const Pi& p) {
	auto& w = world();
	switch (n.t) {
		case T::BOOL: return F(w.v[0][p[0][n.a]]);
		case T::CONSTRAINT: { CP q(Q(n.con)); for (auto& t : n.p) { CP m{Q(t.first)}; for (auto& x : t.second) m *= CP(w.v[x.first][p[x.first][x.second]]); q += m; } return F(q, n.rel); }
		case T::BITVECTOR: { static const carl::BVCompareRelation R[] = {carl::BVCompareRelation::EQ, carl::BVCompareRelation::ULT, carl::BVCompareRelation::SLE, carl::BVCompareRelation::UGE}; auto tm = [&](std::size_t i) { return carl::BVTerm(carl::BVTermType::VARIABLE, carl::BVVariable(w.v[3][p[3][i]], w.bv)); }; return F(carl::BVConstraint::create(R[n.k % 4], tm(n.a), tm(n.b))); }
		case T::UEQ: { auto tm = [&](std::size_t i) { return carl::UTerm(carl::UVariable(w.v[4][p[4][i]], w.s)); }; return F(tm(n.a), tm(n.b), n.k == 1); }
		case T::NOT: return F(T::NOT, build(n.s[0], p));
		case T::EXISTS: case T::FORALL: return F(n.t, std::vector<Variable>{w.v[0][p[0][n.a]]}, build(n.s[0], p));
		default: { std::vector<F> s; for (auto& k : n.s) s.push_back(build(k, p)); return F(n.t, s); }
	}
}
using Val = std::map<Variable, int>; // 0/1 for Booleans
static int sgn2(int v) { return v >= 2 ? v - 4 : v; }
static bool eval(const F& f, Val& e) {
	switch (f.getType()) {
		case T::TRUE: return true; case T::FALSE: return false; case T::BOOL: return e.at(f.boolean()) != 0; case T::NOT: return !eval(f.subformula(), e);
		case T::CONSTRAINT: { Q s(0); for (auto& t : f.constraint().lhs()) { Q m = t.coeff(); if (t.monomial()) for (auto& x : *t.monomial()) for (std::size_t i = 0; i < x.second; ++i) m *= e.at(x.first); s += m; } return holds(s, f.constraint().relation()); }
		case T::BITVECTOR: { auto& b = f.bvConstraint(); CHK(b.lhs().type() == carl::BVTermType::VARIABLE && b.rhs().type() == carl::BVTermType::VARIABLE, "bit-vector atom " << f); int l = e.at(b.lhs().variable().variable()), r = e.at(b.rhs().variable().variable()); switch (b.relation()) { case carl::BVCompareRelation::EQ: return l == r; case carl::BVCompareRelation::ULT: return l < r; case carl::BVCompareRelation::SLE: return sgn2(l) <= sgn2(r); case carl::BVCompareRelation::UGE: return l >= r; case carl::BVCompareRelation::NEQ: return l != r; case carl::BVCompareRelation::ULE: return l <= r; case carl::BVCompareRelation::UGT: return l > r; case carl::BVCompareRelation::SLT: return sgn2(l) < sgn2(r); case carl::BVCompareRelation::SGE: return sgn2(l) >= sgn2(r); case carl::BVCompareRelation::SGT: return sgn2(l) > sgn2(r); } return false; }
		case T::UEQ: return (e.at(f.uequality().lhs().asUVariable().variable()) == e.at(f.uequality().rhs().asUVariable().variable())) != f.uequality().negated();
		case T::EXISTS: case T::FORALL: { auto& vs = f.quantifiedVariables(); bool r = f.getType() == T::FORALL; Val o = e; for (std::size_t k = 0; k < (std::size_t(1) << vs.size()); ++k) { for (std::size_t i = 0; i < vs.size(); ++i) o[vs[i]] = (k >> i) & 1; bool b = eval(f.quantifiedFormula(), o); r = f.getType() == T::FORALL ? r && b : r || b; } return r; }
		default: { std::vector<bool> v; for (auto& k : f.subformulas()) v.push_back(eval(k, e)); return combine(f.getType(), v); }
	}
}
static Val gen_val(pbt::Ctx& c) { auto& w = world(); Val e; for (std::size_t t = 0; t < NT; ++t) for (auto& v : w.v[t]) e[v] = t == 0 ? int(c.draw(2)) : t == 3 ? int(c.draw(4)) : int(c.range(-2, 2)); return e; }
static std::string show(const Val& e) { std::ostringstream os; for (auto& k : e) os << k.first << "=" << k.second << " "; return os.str(); }
static Val moved(const Val& e, const Perm& p) { Val r = e; for (auto& k : p) r[k.first] = e.at(k.second); return r; }
static F symmetric(pbt::Ctx& c, unsigned kinds, Pi& pi, N2* top = nullptr) { // a formula made of renamed copies of one
	N2 n = gen_recipe(c, kinds == 1 ? 2 : 1 + c.draw(2), kinds); std::size_t types = kinds == 1 ? 1 : kinds == 2 ? 3 : NT; pi = random_pi(c, types); std::size_t copies = c.weighted({1, 2, 2, 2}); static const T OPS[] = {T::AND, T::OR, T::XOR, T::IFF};
	std::vector<F> s; Pi p = identity(); for (std::size_t i = 0; i < copies + 1; ++i) { s.push_back(build(n, p)); p = after(pi, p); } T op = OPS[c.idx(4)]; (void)top; return s.size() == 1 ? s[0] : F(op, s);
}
static std::vector<Perm> perms(const carl::formula::Symmetries& ss, const F& f) {
	carl::carlVariables cv; f.gatherVariables(cv); std::set<Variable> vs(cv.begin(), cv.end()); std::vector<Perm> r;
	for (auto& s : ss) { Perm p; std::set<Variable> to; bool moves = false; for (auto& k : s) { CHK(p.emplace(k.first, k.second).second, "variable " << k.first << " is mapped twice"); CHK(to.insert(k.second).second, "two variables are mapped to " << k.second); CHK(vs.count(k.first) && vs.count(k.second), "a variable that does not occur"); CHK(k.first.type() == k.second.type(), "type of " << k.first << " and " << k.second); moves = moves || k.first != k.second; } CHK(moves, "the identity"); r.push_back(p); }
	return r;
}
static void check_find(pbt::Ctx& c, const F& f, const std::vector<Perm>& ps) {
	c.label_if(!ps.empty(), "symmetries"); c.label_if(ps.size() > 1, "several"); if (ps.empty()) return;
	for (int i = 0; i < 12; ++i) { Val e = gen_val(c); bool want = eval(f, e); for (auto& p : ps) { Val o = moved(e, p); std::ostringstream os; for (auto& k : p) os << k.first << "->" << k.second << " "; CHK_EQ(eval(f, o), want, "symmetry " << os.str() << " at " << show(e)); } }
}
LAW(find, 12000, 240000) {
	Pi pi; F f = symmetric(c, 3, pi); c.in("formula", f); auto ps = perms(carl::formula::findSymmetries(f), f); c.nontrivial(!ps.empty()); check_find(c, f, ps);
}
LAW(find_arithmetic, 12000, 240000) {
	Pi pi; F f = symmetric(c, 2, pi); c.in("formula", f); auto ps = perms(carl::formula::findSymmetries(f), f); c.nontrivial(!ps.empty()); check_find(c, f, ps);
}
// For formulas over Booleans everything that renames the formula to itself is found.
LAW(complete, 12000, 240000) {
	Pi pi; N2 n = gen_recipe(c, 2, 1); auto& w = world(); std::vector<F> s; pi = random_pi(c, 1); Pi p = identity(); std::size_t copies = 1 + c.draw(4); for (std::size_t i = 0; i < copies; ++i) { s.push_back(build(n, p)); p = after(pi, p); } static const T OPS[] = {T::AND, T::OR, T::XOR, T::IFF}; T op = OPS[c.idx(4)]; F f = s.size() == 1 ? s[0] : F(op, s); c.in("formula", f);
	auto ps = perms(carl::formula::findSymmetries(f), f); check_find(c, f, ps); carl::carlVariables cv; f.gatherVariables(cv); std::vector<Variable> vs(cv.begin(), cv.end()); std::sort(vs.begin(), vs.end());
	// the group that is generated
	using V = std::vector<Variable>; std::set<V> group{vs}; std::vector<V> todo{vs}; while (!todo.empty()) { V v = todo.back(); todo.pop_back(); for (auto& q : ps) { V o; for (auto& x : v) o.push_back(q.at(x)); if (group.insert(o).second) todo.push_back(o); } }
	std::function<F(const F&, const Perm&)> rename = [&](const F& g, const Perm& q) -> F { switch (g.getType()) { case T::BOOL: return F(q.at(g.boolean())); case T::TRUE: case T::FALSE: return g; case T::NOT: return F(T::NOT, rename(g.subformula(), q)); default: { std::vector<F> k; for (auto& x : g.subformulas()) k.push_back(rename(x, q)); return F(g.getType(), k); } } };
	V o = vs; std::size_t n_sym = 0; do { Perm q; for (std::size_t i = 0; i < vs.size(); ++i) q.emplace(vs[i], o[i]); if (rename(f, q) != f) continue; ++n_sym; std::ostringstream os; for (auto& k : q) os << k.first << "->" << k.second << " "; CHK(group.count(o), "the formula is unchanged by " << os.str()); } while (std::next_permutation(o.begin(), o.end()));
	c.nontrivial(n_sym > 1); c.label_if(n_sym > 1, "symmetric"); (void)w;
}
LAW(breaking, 12000, 240000) {
	Pi pi; unsigned kinds = 1 + c.idx(3); F f = symmetric(c, kinds, pi); c.in("formula", f); auto ss = carl::formula::findSymmetries(f); auto ps = perms(ss, f); bool first = c.coin(); c.in("only the first", first); c.nontrivial(!ps.empty());
	F b = c.coin() ? carl::formula::breakSymmetries(f, first) : carl::formula::breakSymmetries<CP>(ss, first); c.in("breaking", b); CHK(carl::formula::breakSymmetries(f, first) == carl::formula::breakSymmetries<CP>(ss, first), "computed from the symmetries"); if (ps.empty()) { CHK(b.isTrue(), "nothing to break"); return; }
	bool some = false; for (int i = 0; i < 5; ++i) { Val e = gen_val(c); std::set<Val> seen{e}; std::vector<Val> todo{e}; bool ok = false, all = true; while (!todo.empty() && seen.size() < 2000) { Val v = todo.back(); todo.pop_back(); bool h = eval(b, v); ok = ok || h; all = all && h; for (std::size_t k = 0; k < (first ? std::size_t(1) : ps.size()); ++k) { Val o = moved(v, ps[k]); if (seen.insert(o).second) todo.push_back(o); } } if (!todo.empty() && !ok) continue; CHK(ok, "no image of " << show(e) << " is left"); some = some || !all; }
	c.label_if(some, "some image is excluded");
	// the first symmetry excludes one of a pair of different images of an exchange
	for (int i = 0; i < 5; ++i) { Val e = gen_val(c), o = moved(e, ps[0]); bool inv = true; for (auto& k : ps[0]) inv = inv && ps[0].at(k.second) == k.first; if (!inv || o == e) continue; CHK(!(eval(b, e) && eval(b, o)), "both " << show(e) << " and its image " << show(o) << " are left"); c.label("exchange"); }
}
PBT_MAIN("Y01", "symmetries of formulas")
