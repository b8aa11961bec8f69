// F01: formulas mean what they were built from; transformations keep the meaning.
#include "fm.h"
using namespace fm;
using T = FormulaType;

static void same(const F& f, const N& n, const std::vector<Env>& es, const char* what) { for (auto& e : es) CHK_EQ(eval(f, e), eval(n, e), what << " " << f << " at " << show(e)); }
static void same(const F& f, const F& g, const std::vector<Env>& es, const char* what, bool complement = false) { for (auto& e : es) CHK_EQ(eval(f, e), eval(g, e) != complement, what << " " << f << " at " << show(e)); }
static std::size_t nodes(const N& n) { std::size_t r = 1; for (auto& k : n.s) r += nodes(k); return r; }

LAW(construction, 12000, 250000) {
	N n = formula(c); c.in("formula", n); auto es = envs(c, 6); c.nontrivial(nodes(n) > 3);
	F f = to_carl(n); c.in("built", f);
	same(f, n, es, "formula");
	CHK(to_carl(n) == f, "building the same again gives " << to_carl(n)); CHK_EQ(to_carl(n).getId(), f.getId(), "identity"); CHK_EQ(to_carl(n).getHash(), f.getHash(), "hash");
	F g = f.negated(); same(g, f, es, "negation", true); CHK(g.negated() == f && (!f) == g && F(T::NOT, f) == g, "double negation"); CHK(f != g, "a formula is its negation");
	CHK((f < g) + (g < f) + (f == g) == 1 && (f > g) == (g < f) && (f <= g) == !(g < f) && (f >= g) == !(f < g), "order");
	CHK(f.baseFormula() == f || f.baseFormula() == g, "base formula"); CHK(f.baseFormula() == g.baseFormula() || f.isTrue() || f.isFalse(), "base formula of the negation");
	same(f.removeNegations(), f, es, "without negation", f.removeNegations() != f);
	bool t = true, ff = true; for (auto& e : es) (eval(n, e) ? ff : t) = false; if (f.isTrue()) CHK(t, "claimed true"); if (f.isFalse()) CHK(ff, "claimed false");
	// The same connective through every constructor.
	std::size_t k = c.draw(5); std::vector<N> sub; carl::Formulas<CP> v; std::vector<N> seen; for (std::size_t i = 0; i < k; ++i) { sub.push_back(gen_formula(c, Shape{}, unsigned(c.draw(2)), seen)); v.push_back(to_carl(sub.back())); }
	std::ostringstream os; for (auto& s : sub) os << s << " "; c.in("operands", os.str());
	static const T NARY[] = {T::AND, T::OR, T::XOR, T::IFF}; T ty = NARY[c.idx(4)]; c.in("connective", ty);
	if (k == 1 && ty == T::IFF) return; // one operand: defined by its constructor only
	N w = node(ty, sub); if (k == 0) w.t = ty == T::AND || ty == T::IFF ? T::TRUE : T::FALSE;
	F a(ty, v); same(a, w, es, "from a vector"); carl::Formulas<CP> v2(v); CHK(F(ty, std::move(v2)) == a, "from a moved vector");
	carl::Formulas<CP> sh(v); for (std::size_t i = sh.size(); i > 1; --i) std::swap(sh[i - 1], sh[c.idx(i)]); CHK(F(ty, sh) == a, "from another order: " << F(ty, sh));
	if (k == 2) CHK(F(ty, v[0], v[1]) == a && F(ty, {v[0], v[1]}) == a, "from two operands"); if (k == 3) CHK(F(ty, v[0], v[1], v[2]) == a, "from three operands");
	if (ty == T::AND || ty == T::OR) { carl::FormulaSet<CP> st(v.begin(), v.end()); same(F(ty, st), w, es, "from a set"); same(F(ty, std::move(st)), w, es, "from a moved set"); }
	if (ty == T::XOR) { carl::FormulasMulti<CP> ms(v.begin(), v.end()); same(F(ty, ms), w, es, "from a multiset"); }
}
LAW(transformation, 12000, 250000) {
	N n = formula(c); c.in("formula", n); auto es = envs(c, 5); c.nontrivial(nodes(n) > 3); F f = to_carl(n);
	bool keep = c.coin(); c.in("keep constraints", keep);
	F r = f.resolveNegation(keep); same(r, f, es, "resolved negation"); F g = f.negated().resolveNegation(keep); same(g, f, es, "resolved negation", true);
	if (f.getType() == T::NOT && !f.subformula().isAtom()) CHK(r.getType() != T::NOT || r.subformula().isAtom(), "the negation is still there: " << r);
	if (f.isNary() && f.subformulas().size() > 1 && (f.getType() == T::AND || f.getType() == T::OR || f.getType() == T::XOR)) { F p = f.connectPrecedingSubformulas(); CHK(F(f.getType(), {p, f.back()}) == f, "connected but the last operand: " << p); same(F(f.getType(), {p, f.back()}), f, es, "reconnected"); }
	// Substitution of Booleans and arithmetic variables at once.
	std::map<Variable, F> bs; std::map<Variable, CP> as; std::map<std::size_t, N> rb; std::map<std::size_t, P> ra; std::ostringstream os;
	for (std::size_t i = 0; i < NB; ++i) if (c.chance(1, 3)) { std::vector<N> seen; N s = gen_formula(c, Shape{}, unsigned(c.draw(2)), seen); rb[i] = s; bs.emplace(bools()[i], to_carl(s)); os << "abcd"[i] << ":=" << s << " "; }
	for (std::size_t i = 0; i < 2; ++i) if (c.chance(1, 2)) { P s = small_poly(c); ra[i] = s; as.emplace(vars()[i], build(s)); os << "xy"[i] << ":=" << s << " "; }
	c.in("substitution", os.str()); 
	F sb = f.substitute(bs, as), sb1 = f.substitute(bs), sb2 = f.substitute(as);
	for (auto& e : es) {
		Env eb = e, ea = e, eo = e; for (auto& k : rb) eb.b[k.first] = eval(k.second, e); for (auto& k : ra) ea.x[k.first] = rp::eval(k.second, e.x); eo.b = eb.b; eo.x = ea.x;
		CHK_EQ(eval(sb, e), eval(n, eo), "substituted " << sb << " at " << show(e)); CHK_EQ(eval(sb1, e), eval(n, eb), "Booleans substituted " << sb1 << " at " << show(e)); CHK_EQ(eval(sb2, e), eval(n, ea), "arithmetic substituted " << sb2 << " at " << show(e));
	}
	if (!ra.empty()) { auto& k = *ra.begin(); same(f.substitute(vars()[k.first], build(k.second)), f.substitute(std::map<Variable, CP>{{vars()[k.first], build(k.second)}}), es, "one substitution"); bool again = false; for (auto& q : ra) for (auto& w : ra) again = again || q.second.has(w.first); carl::FormulaSubstitutor<F> fs; if (!again) same(fs.substitute(f, as), sb2, es, "substitution by visitor"); }
	// Replace one atom everywhere.
	{ std::size_t i = c.idx(NB); std::vector<N> seen; N s = gen_formula(c, Shape{}, 1, seen); std::function<bool(const N&)> occ = [&](const N& m) { if (m.t == T::BOOL && m.b == i) return true; for (auto& k : m.s) if (occ(k)) return true; return false; }; if (occ(s)) s = atom_bool((i + 1) % NB); /* known: see below */ c.in("atom", bools()[i]); c.in("replacement", s); carl::FormulaSubstitutor<F> fs; F q = fs.substitute(f, F(bools()[i]), to_carl(s)); for (auto& e : es) { Env o = e; o.b[i] = eval(s, e); CHK_EQ(eval(q, e), eval(n, o), "replaced " << q << " at " << show(e)); } }
}

// The substitution by visitor substitutes again in what it has already replaced when a connective collapses around it.
KNOWN(substitutor_atom, "replacing the atom a by (not a) in (not a) with the formula substitutor gives (not a) instead of a") {
	F a(bools()[0]); carl::FormulaSubstitutor<F> fs; return fs.substitute(F(T::NOT, a), a, F(T::NOT, a)) != a;
}
KNOWN(substitutor_polynomial, "substituting x := i + 1/2, y := x in (or x = 0 y = 0) with the formula substitutor gives false instead of x = 0") {
	F f(T::OR, {F(CP(fm::vars()[0]), Relation::EQ), F(CP(fm::vars()[1]), Relation::EQ)}); std::map<Variable, CP> m{{fm::vars()[0], CP(fm::vars()[2]) + CP(Q(1) / 2)}, {fm::vars()[1], CP(fm::vars()[0])}};
	carl::FormulaSubstitutor<F> fs; return fs.substitute(f, m) != F(CP(fm::vars()[0]), Relation::EQ);
}

// A small search for values of the additional variables.
using Lit = std::pair<Variable, bool>; using Clause = std::vector<Lit>;
static unsigned models(std::vector<Clause> cl, std::set<Variable> free, unsigned limit) {
	for (;;) {
		const Lit* unit = nullptr; for (auto& k : cl) { if (k.empty()) return 0; if (k.size() == 1) { unit = &k[0]; break; } }
		bool branch = !unit; Lit l;
		if (unit) l = *unit; else { if (free.empty()) return 1; l = {cl.empty() ? *free.begin() : cl[0][0].first, true}; if (cl.empty()) { unsigned r = 1; for (std::size_t i = 0; i < free.size() && r < limit; ++i) r *= 2; return std::min(r, limit); } }
		auto assign = [](const std::vector<Clause>& in, Lit x) { std::vector<Clause> out; for (auto& k : in) { bool sat = false; Clause n; for (auto& y : k) { if (y == x) sat = true; else if (y.first != x.first) n.push_back(y); } if (!sat) out.push_back(n); } return out; };
		if (branch) { auto f2 = free; f2.erase(l.first); unsigned r = models(assign(cl, l), f2, limit); if (r >= limit) return r; return r + models(assign(cl, {l.first, false}), f2, limit - r); }
		cl = assign(cl, l); free.erase(l.first);
	}
}
static bool literal(const F& f) { return f.isAtom() || (f.getType() == T::NOT && f.subformula().isAtom()); }
static bool clause(const F& f) { if (literal(f)) return true; if (f.getType() != T::OR) return false; for (auto& k : f.subformulas()) if (!literal(k)) return false; return true; }
static bool cnf(const F& f) { if (clause(f)) return true; if (f.getType() != T::AND) return false; for (auto& k : f.subformulas()) if (!clause(k)) return false; return true; }

LAW(clauses, 8000, 160000) {
	N n = formula(c, Shape{3, 3, true, true}); c.in("formula", n); F f = to_carl(n); auto es = envs(c, 3);
	bool keep = c.coin(), simp = c.coin(), equiv = c.coin(); c.in("keep constraints", keep); c.in("simplify", simp); c.in("equivalence", equiv);
	F g = carl::to_cnf(f, keep, simp, equiv); c.in("clauses", g); c.nontrivial(!literal(f)); 
	CHK(cnf(g), "not a conjunction of clauses"); CHK(g.propertyHolds(carl::PROP_IS_IN_CNF), "not marked as conjunction of clauses");
	std::vector<const F*> cls; if (g.getType() == T::AND) for (auto& k : g.subformulas()) cls.push_back(&k); else cls.push_back(&g);
	std::set<Variable> known(bools().begin(), bools().end()), extra;
	for (auto k : cls) { std::vector<const F*> ls; if (k->getType() == T::OR) for (auto& l : k->subformulas()) ls.push_back(&l); else ls.push_back(k); for (auto l : ls) { const F& a = l->getType() == T::NOT ? l->subformula() : *l; if (a.getType() == T::BOOL && !known.count(a.boolean())) extra.insert(a.boolean()); if (!keep && !f.isAtom()) CHK(l->getType() != T::NOT || a.getType() != T::CONSTRAINT, "a negated constraint is left"); } }
	c.label_if(!extra.empty(), "new variables");
	for (auto& e : es) {
		bool want = eval(n, e), dead = false; std::vector<Clause> rest;
		for (auto k : cls) { std::vector<const F*> ls; if (k->getType() == T::OR) for (auto& l : k->subformulas()) ls.push_back(&l); else ls.push_back(k); Clause q; bool sat = false; for (auto l : ls) { bool ng = l->getType() == T::NOT; const F& a = ng ? l->subformula() : *l; if (a.getType() == T::BOOL && extra.count(a.boolean())) q.emplace_back(a.boolean(), !ng); else sat = sat || eval(*l, e); } if (!sat) { rest.push_back(q); dead = dead || q.empty(); } }
		unsigned m = dead ? 0 : models(rest, extra, 2);
		CHK_EQ(m > 0, want, "the clauses can be satisfied at " << show(e)); if (equiv && want && !simp) CHK_EQ(m, 1u, "number of extensions (2: several) at " << show(e));
	}
}
// Several bounds on the same polynomial, merged.
LAW(bounds, 12000, 250000) {
	P base = small_poly(c); base = base - P(base.at(Exp{})); std::size_t k = 2 + c.draw(4); T ty = c.coin() ? T::AND : T::OR; std::vector<N> s;
	for (std::size_t i = 0; i < k; ++i) { static const long M[] = {1, 1, -1, 2, -2}; Q m(M[c.idx(5)]); N a = atom_con(rp::scale(base, m) + P(m * Q(long(c.range(-2, 2)))), RELS[c.idx(6)]); s.push_back(c.chance(1, 5) ? node(T::NOT, {a}) : a); }
	if (c.chance(1, 4)) s.push_back(atom_bool(0)); if (c.chance(1, 4)) s.push_back(atom_con(small_poly(c), RELS[c.idx(6)]));
	N n = node(ty, s); if (c.coin()) n = node(T::AND, {n, c.coin() ? atom_bool(1) : node(ty == T::AND ? T::OR : T::AND, {s[0], s[1]})}); c.in("formula", n); c.nontrivial(true);
	F f = to_carl(n); bool keep = c.coin(); F g = carl::to_cnf(f, keep, true, c.coin()); c.in("clauses", g); c.label_if(g.isTrue() || g.isFalse(), "decided");
	std::set<Variable> known(bools().begin(), bools().end()); std::set<Variable> ex; for (auto v : g.variables()) if (v.type() == carl::VariableType::VT_BOOL && !known.count(v)) ex.insert(v);
	if (ex.size() > 8) return;
	auto es = envs(c, 1); for (long x = -6; x <= 6; ++x) { Env e = es[c.idx(es.size())]; e.x[0] = Q(x) / 2; if (c.coin()) e.x[1] = 0; e.x[2] = Q(long(x)); bool some = false; for (unsigned m = 0; m < (1u << ex.size()) && !some; ++m) { std::map<Variable, bool> val; unsigned b = 0; for (auto v : ex) val[v] = (m >> b++) & 1; some = eval(g, e, &val); } CHK_EQ(some, eval(n, e), "merged bounds at " << show(e)); }
}
static std::set<Variable> used(const F& f) {
	switch (f.getType()) { case T::TRUE: case T::FALSE: return {}; case T::BOOL: return {f.boolean()}; case T::CONSTRAINT: { auto& v = f.constraint().variables(); return {v.begin(), v.end()}; } case T::NOT: return used(f.subformula()); case T::EXISTS: case T::FORALL: return used(f.quantifiedFormula()); default: break; }
	std::set<Variable> r; for (auto& k : f.subformulas()) { auto s = used(k); r.insert(s.begin(), s.end()); } return r;
}
static void atoms(const F& f, std::vector<F>& out) { switch (f.getType()) { case T::NOT: atoms(f.subformula(), out); break; case T::EXISTS: case T::FORALL: atoms(f.quantifiedFormula(), out); break; default: if (f.isAtom()) out.push_back(f); else for (auto& k : f.subformulas()) atoms(k, out); } }
static std::size_t cost(const F& f) { switch (f.getType()) { case T::TRUE: case T::FALSE: return 0; case T::CONSTRAINT: return f.constraint().complexity(); case T::BOOL: return 1; case T::NOT: return 1 + cost(f.subformula()); default: break; } std::size_t r = 1; for (auto& k : f.subformulas()) r += cost(k); return r; }
static bool negative_only_atoms(const F& f) { if (f.isAtom()) return true; if (f.getType() == T::NOT) return f.subformula().isAtom(); for (auto& k : f.subformulas()) if (!negative_only_atoms(k)) return false; return true; }

LAW(description, 10000, 200000) {
	N n = formula(c); c.in("formula", n); F f = to_carl(n); c.in("built", f); c.nontrivial(nodes(n) > 3);
	auto has = [&](const carl::Condition& p) { return f.propertyHolds(p); };
	bool at = f.isAtom(), lit = literal(f), cl = clause(f), nary = f.isNary(); bool all_atoms = true, all_lits = true; if (f.getType() == T::AND) for (auto& k : f.subformulas()) { all_atoms = all_atoms && k.isAtom(); all_lits = all_lits && literal(k); }
	CHK_EQ(f.isBooleanCombination(), !at, "combination"); CHK_EQ(f.isLiteral(), lit, "literal"); CHK_EQ(has(carl::PROP_IS_AN_ATOM), at, "atom"); CHK_EQ(has(carl::PROP_IS_A_CLAUSE), cl, "clause"); CHK_EQ(has(carl::PROP_IS_IN_CNF), cnf(f), "conjunction of clauses");
	CHK_EQ(has(carl::PROP_IS_PURE_CONJUNCTION), at || (f.getType() == T::AND && all_atoms), "conjunction of atoms"); CHK_EQ(has(carl::PROP_IS_LITERAL_CONJUNCTION), lit || (f.getType() == T::AND && all_lits), "conjunction of literals"); if (has(carl::PROP_IS_IN_NNF)) CHK(negative_only_atoms(f), "negation normal form");
	std::vector<F> as; atoms(f, as); bool bo = false, in = false, re = false, eq = false, le = false, lt = false, wk = false, li = false, nl = false;
	for (auto& a : as) { if (a.getType() == T::BOOL) bo = true; if (a.getType() != T::CONSTRAINT) continue; auto& k = a.constraint(); in = in || k.hasIntegerValuedVariable(); re = re || k.hasRealValuedVariable(); eq = eq || k.relation() == Relation::EQ; le = le || k.relation() == Relation::LEQ || k.relation() == Relation::GEQ; lt = lt || k.relation() == Relation::LESS || k.relation() == Relation::GREATER || k.relation() == Relation::NEQ; wk = wk || k.relation() == Relation::EQ || k.relation() == Relation::LEQ || k.relation() == Relation::GEQ; bool lin = k.lhs().totalDegree() <= 1; li = li || lin; nl = nl || !lin; }
	CHK_EQ(has(carl::PROP_CONTAINS_BOOLEAN), bo, "contains Booleans"); CHK_EQ(has(carl::PROP_CONTAINS_INTEGER_VALUED_VARS), in, "contains integers"); CHK_EQ(has(carl::PROP_CONTAINS_REAL_VALUED_VARS), re, "contains reals");
	if (!f.isTrue() && !f.isFalse()) { CHK_EQ(has(carl::PROP_CONTAINS_EQUATION), eq, "contains equations"); CHK_EQ(has(carl::PROP_CONTAINS_INEQUALITY), le, "contains inequalities"); CHK_EQ(has(carl::PROP_CONTAINS_STRICT_INEQUALITY), lt, "contains strict inequalities"); CHK_EQ(has(carl::PROP_CONTAINS_WEAK_INEQUALITY), wk, "contains weak inequalities"); CHK_EQ(has(carl::PROP_CONTAINS_LINEAR_POLYNOMIAL), li, "contains linear polynomials"); }
	CHK_EQ(has(carl::PROP_CONTAINS_NONLINEAR_POLYNOMIAL), nl, "contains nonlinear polynomials"); CHK(!has(carl::PROP_CONTAINS_BITVECTOR) && !has(carl::PROP_CONTAINS_UNINTERPRETED_EQUATIONS) && !has(carl::PROP_CONTAINS_PSEUDOBOOLEAN), "contains other theories");
	CHK_EQ(f.isOnlyPropositional(), !in && !re, "only propositional"); bool pc = at || (f.getType() == T::AND && all_atoms); CHK_EQ(f.isConstraintConjunction(), pc && !bo, "conjunction of constraints"); CHK_EQ(f.isRealConstraintConjunction(), pc && !bo && !in, "conjunction of real constraints"); CHK_EQ(f.isIntegerConstraintConjunction(), pc && !bo && !re, "conjunction of integer constraints");
	auto u = used(f); std::set<Variable> gv(f.variables().begin(), f.variables().end()); CHK(gv == u, "variables"); carl::carlVariables cv; f.gatherVariables(cv); CHK_EQ(cv.size(), u.size(), "gathered variables"); CHK_EQ(carl::variables(f).size(), u.size(), "variables");
	CHK_EQ(f.complexity(), cost(f), "complexity");
	std::vector<carl::Constraint<CP>> cons; f.getConstraints(cons); std::vector<F> cf; f.getConstraints(cf); std::vector<F> exp; for (auto& a : as) if (a.getType() == T::CONSTRAINT) exp.push_back(a); CHK(cf == exp, "constraints in the formula"); CHK_EQ(cons.size(), exp.size(), "number of constraints"); for (std::size_t i = 0; i < cons.size(); ++i) CHK(cons[i] == exp[i].constraint(), "constraint " << i);
	CHK(f.contains(f), "contains itself"); if (nary) { CHK_EQ(f.size(), f.subformulas().size(), "size"); CHK(!f.empty(), "empty"); for (auto& k : f.subformulas()) CHK(f.contains(k), "contains its operand"); CHK(f.back() == f.subformulas().back(), "last operand"); std::size_t m = 0; for (auto it = f.begin(); it != f.end(); ++it) CHK(*it == f.subformulas()[m++], "operand"); CHK_EQ(m, f.size(), "operands"); for (auto it = f.rbegin(); it != f.rend(); ++it) CHK(*it == f.subformulas()[--m], "operand from the end"); } else CHK_EQ(f.size(), std::size_t(1), "size");
	if (f.getType() == T::AND || f.getType() == T::OR || f.getType() == T::XOR) for (auto& k : f.subformulas()) CHK(k.getType() != f.getType() && !k.isTrue() && !k.isFalse(), "operand " << k << " could be merged");
	bool bd = f.getType() == T::CONSTRAINT ? f.constraint().isBound() : f.getType() == T::NOT && f.subformula().getType() == T::CONSTRAINT && f.subformula().constraint().isBound(true); CHK_EQ(f.isBound(), bd, "bound");
	f.setActivity(2.5); CHK_EQ(to_carl(n).activity(), 2.5, "activity"); f.setDifficulty(1.5); CHK_EQ(f.difficulty(), 1.5, "difficulty");
	carl::FormulaVisitor<F> vis; std::size_t seen = 0; vis.visit(f, [&](F) { ++seen; }); std::function<std::size_t(const F&)> cnt = [&](const F& g) -> std::size_t { if (g.isAtom()) return 1; if (g.getType() == T::NOT) return 1 + cnt(g.subformula()); std::size_t r = 1; for (auto& k : g.subformulas()) r += cnt(k); return r; }; CHK_EQ(seen, cnt(f), "visited subformulas");
	CHK(vis.visitResult(f, [](F g) { return g; }) == f, "visiting without change");
}
LAW(quantifiers, 6000, 120000) {
	N n = formula(c, Shape{2, 3, true, true}); c.in("formula", n); F f = to_carl(n); std::vector<Variable> vs; std::size_t k = c.draw(3); for (std::size_t i = 0; i < k; ++i) vs.push_back(c.coin() ? bools()[c.idx(NB)] : fm::vars()[c.idx(3)]);
	T ty = c.coin() ? T::EXISTS : T::FORALL; c.in("quantifier", ty); c.in("variables", k); c.nontrivial(k > 0);
	F q(ty, vs, f); auto vs2 = vs; CHK(F(ty, std::move(vs2), f) == q, "same again");
	if (k == 0) { CHK(q == f, "nothing quantified"); return; }
	CHK(q.getType() == ty && q.quantifiedVariables() == vs && q.quantifiedFormula() == f, "parts of the formula"); CHK(!q.isAtom() && !q.isNary(), "kind");
	F m = q.negated(); CHK(m.negated() == q && m != q, "negation"); CHK(m.getType() == T::NOT && m.subformula() == q, "negation");
	F r = m.resolveNegation(); CHK(r.getType() == (ty == T::EXISTS ? T::FORALL : T::EXISTS) && r.quantifiedVariables() == vs && r.quantifiedFormula() == f.negated(), "resolved negation is " << r);
	std::set<Variable> u = used(f); std::set<Variable> g(q.variables().begin(), q.variables().end()); for (auto& v : u) CHK(g.count(v) || std::find(vs.begin(), vs.end(), v) != vs.end(), "free variable " << v << " is missing");
	F outer(c.coin() ? T::AND : T::OR, {q, F(bools()[0])}); CHK(outer.contains(q), "operand");
	carl::FormulaVisitor<F> vis; CHK(vis.visitResult(outer, [](F h) { return h; }) == outer, "visiting");
	P s = small_poly(c); F sq = q.substitute(fm::vars()[1], build(s)); c.in("substitution", s);
	if (std::find(vs.begin(), vs.end(), fm::vars()[1]) == vs.end()) { CHK(sq.getType() == ty && sq.quantifiedVariables() == vs, "after the substitution " << sq); for (auto& e : envs(c, 3)) { Env o = e; o.x[1] = rp::eval(s, e.x); CHK_EQ(eval(sq.quantifiedFormula(), e), eval(n, o), "body after the substitution " << sq << " at " << show(e)); } }
	F o(ty == T::EXISTS ? T::FORALL : T::EXISTS, vs, f); CHK(o != q, "the other quantifier is the same formula");
	F t(ty, vs, F(bools()[1])); if (f != F(bools()[1])) CHK(t != q, "another body is the same formula");
}
// Formulas that come and go, including the auxiliary variables for subformulas.
LAW(histories, 3000, 60000) {
	std::vector<N> pool; for (int i = 0; i < 5; ++i) pool.push_back(formula(c, Shape{2, 3, true, true})); auto es = envs(c, 2);
	std::vector<F> live; std::vector<std::size_t> what; std::ostringstream h; c.nontrivial(true);
	for (std::size_t i = 0; i < 5; ++i) { static const char* nm[] = {"0", "1", "2", "3", "4"}; c.in(nm[i], pool[i]); }
	for (unsigned step = 0; step < 20; ++step) {
		switch (live.empty() ? 0 : c.draw(5)) {
			case 0: case 1: { std::size_t i = c.idx(5); live.push_back(to_carl(pool[i])); what.push_back(i); h << "+" << i << " "; break; }
			case 2: { std::size_t i = c.idx(live.size()); h << "-" << what[i] << " "; live.erase(live.begin() + long(i)); what.erase(what.begin() + long(i)); break; }
			case 3: { std::size_t i = c.idx(live.size()); h << "cnf" << what[i] << " "; F g = carl::to_cnf(live[i], c.coin(), c.coin(), c.coin()); if (c.coin()) CHK(cnf(g), "not clauses"); break; }
			default: { std::size_t i = c.idx(live.size()); h << "aux" << what[i] << " "; auto& p = carl::FormulaPool<CP>::getInstance(); F v = p.createTseitinVar(live[i]); CHK(v.getType() == T::BOOL, "auxiliary variable"); CHK(p.createTseitinVar(live[i]) == v, "another auxiliary variable for the same formula"); break; }
		}
		c.in("history", h.str());
		for (std::size_t i = 0; i < live.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (what[i] == what[j]) CHK(live[i] == live[j], "the same formula twice after " << h.str());
	}
	for (std::size_t i = 0; i < live.size(); ++i) same(live[i], pool[what[i]], es, "formula");
}
PBT_MAIN("F01", "the formula has at least one connective above another (construction, transformation, description), is no literal (clauses), quantifies something (quantifiers)")
