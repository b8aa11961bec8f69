// O01: printed numbers, polynomials, constraints, formulas, models and clause sets say what the objects are.
#include "rd.h"
#include "bv.h"
#include <carl-io/DIMACSExporter.h>
#include <carl-io/MapleStream.h>
#include <carl-io/QEPCADStream.h>
#include <carl-io/SMTLIBStream.h>
#include <carl-extpolys/FactorizedPolynomial.h>
#include <carl-extpolys/RationalFunction.h>
using namespace fm;
using rd::str; using rd::Bad; using rd::Infix;
using MP = CP;

template<typename S, typename X> static std::string through(const X& x) { S s; s << x; return str(s); }
template<typename X> static std::string smt(const X& x) { carl::SMTLIBStream s; s << x; return s.str(); }
// Judges one printed polynomial in every format.
template<typename X> static void formats(const X& x, const P& want, const char* what, bool maple = true) {
	std::string s;
	try {
		s = str(x); CHK(Infix(s, rd::plain()).all() == want, what << " printed as " << s);
		s = smt(x); CHK(rd::poly(rd::only(s), rd::plain()) == want, what << " in SMT-LIB: " << s);
		if (maple) {
			s = through<carl::MapleStream>(x); CHK(Infix(s, rd::plain()).all() == want, what << " for Maple: " << s);
			s = through<carl::QEPCADStream>(x); CHK(Infix(s, rd::plain(), true).all() == want, what << " for QEPCAD: " << s);
		}
	} catch (const Bad& b) { CHK(false, what << " cannot be read (" << b.why << "): " << s); }
}
static rp::Shape shape(pbt::Ctx& c) { rp::Shape s; s.nvars = 3; s.maxterms = 4; s.maxexp = 4; s.big = c.chance(1, 8); return s; }
LAW(polynomials, 12000, 240000) {
	P p = rp::poly(c, shape(c)); c.in("polynomial", p); c.nontrivial(!p.constant());
	formats(rp::to_carl(p), p, "polynomial");
	if (!p.zero()) {
		auto& t = *p.t.rbegin(); P m; m.add(t.first, t.second); carl::Term<Q> ct(t.second, rp::monomial(t.first)); formats(ct, m, "term");
		P mm; mm.add(t.first, Q(1)); carl::Monomial::Arg a = rp::monomial(t.first); formats(a, mm, "monomial"); if (a) formats(*a, mm, "monomial");
	}
	Q q = p.zero() ? Q(0) : p.t.begin()->second;
	try {
		std::string s = carl::toString(q, true); CHK(Infix(s, rd::plain()).all() == P(q), "number " << s); s = carl::toString(q, false); CHK(rd::poly(rd::only(s), rd::plain()) == P(q), "number " << s); s = smt(q); CHK(rd::poly(rd::only(s), rd::plain()) == P(q), "number " << s);
		Z z = q.get_num(); s = carl::toString(z, true); CHK(Infix(s, rd::plain()).all() == P(Q(z)), "integer " << s); s = carl::toString(z, false); CHK(rd::poly(rd::only(s), rd::plain()) == P(Q(z)), "integer " << s); s = smt(z); CHK(rd::poly(rd::only(s), rd::plain()) == P(Q(z)), "integer " << s);
	} catch (const Bad& b) { CHK(false, "number " << q << " cannot be read: " << b.why); }
}
LAW(univariate, 8000, 160000) {
	std::size_t v = c.idx(3); unsigned deg = unsigned(c.draw(5)); std::vector<Q> cs; std::vector<MP> ms; P p, r; rp::Shape s; s.nvars = 3; s.maxterms = 2; s.maxexp = 2;
	for (unsigned i = 0; i <= deg; ++i) {
		Q k = c.chance(1, 3) ? Q(long(c.range(-1, 1))) : gen::small_rational(c, 6, 4); cs.push_back(k); p = p + rp::scale(rp::mono(v, i), k);
		P q = c.chance(1, 3) ? P(Q(long(c.range(-1, 1)))) : rp::poly(c, s); q = rp::subst(q, v, P(Q(2))); ms.push_back(rp::to_carl(q)); r = r + q * rp::mono(v, i);
	}
	while (cs.size() > 1 && cs.back() == 0) cs.pop_back(); while (ms.size() > 1 && carl::isZero(ms.back())) ms.pop_back();
	c.in("over the rationals", p); c.in("over polynomials", r); c.nontrivial(!p.constant() || !r.constant());
	carl::UnivariatePolynomial<Q> u(rp::vars()[v], cs); carl::UnivariatePolynomial<MP> w(rp::vars()[v], ms);
	if (!p.zero()) formats(u, p, "univariate polynomial"); else CHK_EQ(str(u), "0", "zero");
	if (!r.zero()) formats(w, r, "univariate polynomial over polynomials");
}
// Formulas. In Maple and QEPCAD text a chain of equivalences is not one of carl's, so these have two operands there.
static bool chained(const F& f) { switch (f.getType()) { case FormulaType::AND: case FormulaType::OR: case FormulaType::XOR: case FormulaType::IFF: case FormulaType::IMPLIES: case FormulaType::ITE: if ((f.getType() == FormulaType::IFF) && f.subformulas().size() > 2) return true; for (auto& s : f.subformulas()) if (chained(s)) return true; return false; case FormulaType::NOT: return chained(f.subformula()); default: return false; } }
static bool has(const F& f, FormulaType t) { if (f.getType() == t) return true; switch (f.getType()) { case FormulaType::AND: case FormulaType::OR: case FormulaType::XOR: case FormulaType::IFF: case FormulaType::IMPLIES: case FormulaType::ITE: for (auto& s : f.subformulas()) if (has(s, t)) return true; return false; case FormulaType::NOT: return has(f.subformula(), t); default: return false; } }
static void same_n(const N& n, const N& want, const std::vector<Env>& es, const char* what, const std::string& s) { for (auto& e : es) CHK_EQ(eval(n, e), eval(want, e), what << " " << s << " at " << show(e)); }
static void same_t(const rd::T& t, const N& want, const std::vector<Env>& es, const char* what, const std::string& s) { for (auto& e : es) CHK_EQ(rd::truth(t, e), eval(want, e), what << " " << s << " at " << show(e)); }
LAW(formulas, 8000, 160000) {
	N n = formula(c); c.in("formula", n); auto es = envs(c, 4); c.nontrivial(!n.s.empty()); F f = to_carl(n); std::string s;
	try {
		s = str(f); same_n(Infix(s, rd::reals()).formula(), n, es, "printed", s);
		s = smt(f); same_t(rd::only(s), n, es, "SMT-LIB", s);
		if (!has(f, FormulaType::ITE) && !chained(f)) {
			s = through<carl::MapleStream>(f); same_n(Infix(s, rd::reals()).formula(), n, es, "Maple", s);
			if (!has(f, FormulaType::XOR)) { s = through<carl::QEPCADStream>(f); same_n(Infix(s, rd::reals(), true).formula(), n, es, "QEPCAD", s); }
		}
		P p = small_poly(c); Relation r = RELS[c.idx(6)]; carl::Constraint<MP> k(build(p), r); N w = atom_con(p, r); c.in("constraint", w);
		s = str(k); same_n(Infix(s, rd::reals()).formula(), w, es, "constraint", s); s = smt(k); same_t(rd::only(s), w, es, "constraint in SMT-LIB", s);
		s = through<carl::MapleStream>(k); same_n(Infix(s, rd::reals()).formula(), w, es, "constraint for Maple", s); s = through<carl::QEPCADStream>(k); same_n(Infix(s, rd::reals(), true).formula(), w, es, "constraint for QEPCAD", s);
	} catch (const Bad& b) { CHK(false, "cannot be read (" << b.why << "): " << s); }
}
LAW(scripts, 5000, 100000) {
	std::vector<N> ns; std::vector<F> fs; std::size_t k = 1 + c.draw(3); Shape sh; sh.depth = 2; sh.width = 3;
	for (std::size_t i = 0; i < k; ++i) { ns.push_back(formula(c, sh)); fs.push_back(to_carl(ns.back())); c.in("formula", ns.back()); }
	static const carl::Logic LOGIC[] = {carl::Logic::QF_BV, carl::Logic::QF_IDL, carl::Logic::QF_LIA, carl::Logic::QF_LIRA, carl::Logic::QF_LRA, carl::Logic::QF_NIA, carl::Logic::QF_NIRA, carl::Logic::QF_NRA, carl::Logic::QF_PB, carl::Logic::QF_RDL, carl::Logic::QF_UF};
	static const char* NAMES[] = {"QF_BV", "QF_IDL", "QF_LIA", "QF_LIRA", "QF_LRA", "QF_NIA", "QF_NIRA", "QF_NRA", "QF_PB", "QF_RDL", "QF_UF"};
	std::size_t l = c.idx(11); bool get = c.coin(); bool objective = c.coin(); P o = objective ? small_poly(c) : P(); c.in("objective", o); MP ob = build(o); std::string s;
	if (objective) s = k == 1 ? str(carl::outputSMTLIB<MP>(LOGIC[l], {fs[0]}, ob, get)) : k == 2 ? str(carl::outputSMTLIB<MP>(LOGIC[l], {fs[0], fs[1]}, ob, get)) : str(carl::outputSMTLIB<MP>(LOGIC[l], {fs[0], fs[1], fs[2]}, ob, get));
	else s = k == 1 ? str(carl::outputSMTLIB<MP>(LOGIC[l], {fs[0]}, get)) : k == 2 ? str(carl::outputSMTLIB<MP>(LOGIC[l], {fs[0], fs[1]}, get)) : str(carl::outputSMTLIB<MP>(LOGIC[l], {fs[0], fs[1], fs[2]}, get));
	c.nontrivial(true); auto es = envs(c, 3);
	try {
		auto cmd = rd::sexps(s); std::set<std::string> declared; std::size_t asserted = 0; bool sat = false, model = false, logic = false, minimized = false;
		for (auto& t : cmd) {
			CHK(t.h == "(" && !t.s.empty(), "not a command in " << s); const std::string& h = t.s[0].h;
			if (h == "set-logic") { CHK(!logic && declared.empty() && asserted == 0, "logic after other commands"); logic = true; CHK_EQ(t.s.at(1).h, std::string(NAMES[l]), "logic"); }
			else if (h == "declare-fun") {
				CHK(t.s.size() == 4 && t.s[2].h == "(" && t.s[2].s.empty(), "declaration in " << s); CHK(asserted == 0, "declaration after use"); CHK(declared.insert(t.s[1].h).second, t.s[1].h << " is declared twice in " << s);
				std::string ty = rd::booleans().count(t.s[1].h) ? "Bool" : t.s[1].h == vars()[2].name() ? "Int" : "Real"; CHK_EQ(t.s[3].h, ty, "type of " << t.s[1].h);
			} else if (h == "assert") { CHK(asserted < k && t.s.size() == 2, "assertion"); same_t(t.s[1], ns[asserted], es, "assertion", s); ++asserted; std::function<void(const rd::T&)> used = [&](const rd::T& x) { if (x.h != "(") { if (rd::booleans().count(x.h) || rd::reals().count(x.h)) CHK(declared.count(x.h), x.h << " is not declared in " << s); } else for (auto& y : x.s) used(y); }; used(t.s[1]); }
			else if (h == "minimize") { CHK(t.s.size() == 2 && asserted == k && !sat, "objective"); minimized = true; CHK(rd::poly(t.s[1], rd::reals()) == o, "objective in " << s); }
			else if (h == "check-sat") { CHK(asserted == k, "checked before all assertions"); sat = true; }
			else if (h == "get-model") { CHK(sat, "model before check"); model = true; }
			else CHK(false, "unknown command " << h);
		}
		CHK(logic && asserted == k && sat, "incomplete script " << s); CHK_EQ(model, get, "model asked for"); CHK_EQ(minimized, !o.zero(), "objective");
	} catch (const Bad& b) { CHK(false, "cannot be read (" << b.why << "): " << s); }
}
LAW(models, 4000, 80000) {
	carl::Model<Q, MP> m; std::map<std::string, Q> qs; std::map<std::string, bool> bs;
	for (std::size_t i = 0; i < NB; ++i) if (c.coin()) { bool v = c.coin(); m.assign(bools()[i], v); bs[bools()[i].name()] = v; }
	for (std::size_t i = 0; i < 3; ++i) if (c.coin()) { Q v = i == 2 ? Q(long(c.range(-9, 9))) : gen::small_rational(c, 9, 5); m.assign(vars()[i], v); qs[vars()[i].name()] = v; }
	std::string s = smt(m); c.in("model", s); c.nontrivial(qs.size() + bs.size() > 1);
	try {
		rd::T t = rd::only(s); CHK(t.s.size() == 1 + qs.size() + bs.size() && t.s[0].h == "model", "model " << s);
		for (std::size_t i = 1; i < t.s.size(); ++i) {
			auto& d = t.s[i]; CHK(d.s.size() == 5 && d.s[0].h == "define-fun" && d.s[2].h == "(" && d.s[2].s.empty(), "definition in " << s); const std::string& x = d.s[1].h;
			if (bs.count(x)) { CHK_EQ(d.s[3].h, std::string("Bool"), "type of " << x); CHK_EQ(d.s[4].h, std::string(bs[x] ? "true" : "false"), "value of " << x); bs.erase(x); }
			else { CHK(qs.count(x), "unexpected " << x); CHK_EQ(d.s[3].h, std::string(x == vars()[2].name() ? "Int" : "Real"), "type of " << x); CHK(rd::poly(d.s[4], rd::reals()) == P(qs[x]), "value of " << x << " in " << s); qs.erase(x); }
		}
	} catch (const Bad& b) { CHK(false, "cannot be read (" << b.why << "): " << s); }
}
LAW(factorised, 3000, 60000) {
	using FP = carl::FactorizedPolynomial<MP>; auto cache = std::make_shared<carl::Cache<carl::PolynomialFactorizationPair<MP>>>();
	P x = rp::mono(c.idx(2)), y = rp::mono(c.idx(2)); P a = x + P(Q(long(c.range(-2, 2)))), b = x * y + P(gen::small_rational(c, 3, 2)); c.in("first", a); c.in("second", b); c.nontrivial(true);
	FP fa(rp::to_carl(a), cache), fb(rp::to_carl(b), cache); Q k = gen::small_rational(c, 4, 3); P w = a; FP f = fa; if (c.coin()) { f = f * fb; w = w * b; } if (c.coin()) { f = f * fa; w = w * a; } if (c.coin()) { f = f + fb; w = w + b; } if (c.coin()) { f = f * k; w = rp::scale(w, k); } if (c.chance(1, 3) && existsFactorization(f)) f.factorization();
	std::string s = str(f);
	try { CHK(Infix(s, rd::plain()).all() == w, "factorised polynomial printed as " << s << ", it is " << w); s = f.toString(true); CHK(Infix(s, rd::plain()).all() == w, "factorised polynomial printed as " << s << ", it is " << w); } catch (const Bad& e) { CHK(false, "cannot be read (" << e.why << "): " << s); }
	if (!b.zero()) {
		carl::RationalFunction<MP> r(rp::to_carl(w), rp::to_carl(b)); s = str(r);
		try { std::size_t cut = s.find(")/("); if (cut == std::string::npos) { P v = Infix(s, rd::plain()).all(); CHK(v * b == w, "rational function printed as " << s); } else { P nu = Infix(s.substr(0, cut + 1), rd::plain()).all(), de = Infix(s.substr(cut + 2), rd::plain()).all(); CHK(nu * b == w * de && !de.zero(), "rational function printed as " << s); } } catch (const Bad& e) { CHK(false, "cannot be read (" << e.why << "): " << s); }
	}
}
// Clauses: satisfiable exactly when the formulas are, and with as many solutions when no variables were added.
static bool satisfiable(const std::vector<std::vector<long>>& cl, long nv, std::vector<int>& a, long v) {
	for (auto& k : cl) { bool open = false; for (long l : k) { int x = a[std::size_t(std::labs(l))]; if (x == 0 || (x > 0) == (l > 0)) { open = true; break; } } if (!open) return false; }
	if (v > nv) return true;
	for (int x : {1, -1}) { a[std::size_t(v)] = x; if (satisfiable(cl, nv, a, v + 1)) { a[std::size_t(v)] = 0; return true; } } a[std::size_t(v)] = 0; return false;
}
LAW(clauses, 4000, 80000) {
	carl::DIMACSExporter<MP> ex; std::vector<N> ns; unsigned k = 1 + unsigned(c.draw(3)); Shape sh; sh.depth = 2; sh.width = 3; sh.constraints = false; bool again = c.chance(1, 4);
	if (again) { ex(to_carl(formula(c, sh))); ex.clear(); }
	for (unsigned i = 0; i < k; ++i) { ns.push_back(formula(c, sh)); c.in("formula", ns.back()); CHK(ex(to_carl(ns.back())), "not exported"); }
	std::string s = str(ex); std::istringstream in(s); std::string p, cnf; long nv = 0, nc = 0; in >> p >> cnf >> nv >> nc; CHK(p == "p" && cnf == "cnf", "header of " << s); std::vector<std::vector<long>> cl; std::vector<long> cur; long l; std::set<long> used;
	while (in >> l) { if (l == 0) { cl.push_back(cur); cur.clear(); } else { CHK(std::labs(l) <= nv, "literal " << l << " in " << s); used.insert(std::labs(l)); cur.push_back(l); } }
	CHK(cur.empty() && long(cl.size()) == nc, "number of clauses in " << s); CHK_EQ(long(used.size()), nv, "number of variables"); c.nontrivial(nc > 1);
	std::size_t models = 0; for (unsigned m = 0; m < 16; ++m) { Env e; for (std::size_t i = 0; i < NB; ++i) e.b[i] = (m >> i) & 1; bool all = true; for (auto& n : ns) all = all && eval(n, e); models += all; }
	std::vector<int> a(std::size_t(nv) + 1, 0); CHK_EQ(satisfiable(cl, nv, a, 1), models > 0, "satisfiability of " << s);
}
// Bit-vectors. The texts are read here and given the meanings of SMT-LIB.
struct BN { FormulaType t = FormulaType::BOOL; std::size_t b = 0; bvr::R r = bvr::R::EQ; std::vector<bvr::N> k; std::vector<BN> s; };
static BN gen_bn(pbt::Ctx& c, unsigned d) {
	BN n;
	if (d == 0 || c.chance(1, 3)) { if (c.chance(1, 5)) { n.b = c.idx(NB); return n; } n.t = FormulaType::BITVECTOR; n.r = bvr::RE[c.idx(10)]; std::size_t w = 1 + c.idx(c.chance(1, 8) ? 66 : 5); unsigned td = unsigned(c.idx(4)); n.k = {bvr::gen_term(c, w, td), bvr::gen_term(c, w, unsigned(c.idx(3)))}; return n; }
	static const FormulaType OPS[] = {FormulaType::AND, FormulaType::OR, FormulaType::XOR, FormulaType::IFF, FormulaType::IMPLIES, FormulaType::ITE, FormulaType::NOT}; n.t = OPS[c.idx(7)];
	std::size_t k = n.t == FormulaType::NOT ? 1 : n.t == FormulaType::ITE ? 3 : 2; for (std::size_t i = 0; i < k; ++i) n.s.push_back(gen_bn(c, d - 1)); return n;
}
static F lib(const BN& n) {
	if (n.t == FormulaType::BOOL) return F(bools()[n.b]); if (n.t == FormulaType::BITVECTOR) return F(bvr::BVConstraint::create(n.r, bvr::build(n.k[0]), bvr::build(n.k[1]))); if (n.t == FormulaType::NOT) return F(FormulaType::NOT, lib(n.s[0]));
	carl::Formulas<MP> v; for (auto& x : n.s) v.push_back(lib(x)); return F(n.t, std::move(v));
}
static void used(const BN& n, std::set<std::pair<std::size_t, std::size_t>>& u) { for (auto& k : n.k) bvr::used(k, u); for (auto& x : n.s) used(x, u); }
static std::string text(const BN& n) { std::ostringstream o; if (n.t == FormulaType::BOOL) o << bools()[n.b].name(); else if (n.t == FormulaType::BITVECTOR) o << "(" << n.r << " " << bvr::show(n.k[0]) << " " << bvr::show(n.k[1]) << ")"; else { o << "(" << n.t; for (auto& x : n.s) o << " " << text(x); o << ")"; } return o.str(); }
struct BE { Env e; bvr::Env v; };
static bool eval(const BN& n, const BE& e) { if (n.t == FormulaType::BOOL) return e.e.b[n.b]; if (n.t == FormulaType::BITVECTOR) return bvr::rel(n.r, bvr::eval(n.k[0], e.v), bvr::eval(n.k[1], e.v)); std::vector<bool> v; for (auto& x : n.s) v.push_back(eval(x, e)); return combine(n.t, v); }
static const std::map<std::string, bvr::T>& bv_names() {
	using T = bvr::T; static const std::map<std::string, T> m{{"bvnot", T::NOT}, {"bvneg", T::NEG}, {"rotate_left", T::LROTATE}, {"rotate_right", T::RROTATE}, {"zero_extend", T::EXT_U}, {"sign_extend", T::EXT_S}, {"repeat", T::REPEAT}, {"concat", T::CONCAT}, {"bvand", T::AND}, {"bvor", T::OR}, {"bvxor", T::XOR}, {"bvnand", T::NAND}, {"bvnor", T::NOR}, {"bvxnor", T::XNOR}, {"bvadd", T::ADD}, {"bvsub", T::SUB}, {"bvmul", T::MUL}, {"bvudiv", T::DIV_U}, {"bvsdiv", T::DIV_S}, {"bvurem", T::MOD_U}, {"bvsrem", T::MOD_S1}, {"bvsmod", T::MOD_S2}, {"bvcomp", T::EQ}, {"bvshl", T::LSHIFT}, {"bvlshr", T::RSHIFT_LOGIC}, {"bvashr", T::RSHIFT_ARITH}, {"extract", T::EXTRACT}}; return m;
}
static bvr::R bv_rel(const std::string& s, bool& ok) { using R = bvr::R; static const std::map<std::string, R> m{{"=", R::EQ}, {"bvult", R::ULT}, {"bvule", R::ULE}, {"bvugt", R::UGT}, {"bvuge", R::UGE}, {"bvslt", R::SLT}, {"bvsle", R::SLE}, {"bvsgt", R::SGT}, {"bvsge", R::SGE}}; auto it = m.find(s); ok = it != m.end(); return ok ? it->second : R::EQ; }
static bvr::B literal(const std::string& s) { bvr::B r{0, Z(0)}; for (std::size_t i = 2; i < s.size(); ++i) { if (s[i] != '0' && s[i] != '1') throw Bad{"literal " + s}; r.v = 2 * r.v + (s[i] - '0'); ++r.w; } if (r.w == 0) throw Bad{"literal " + s}; return r; }
static bvr::B atom(const std::string& s, const bvr::Env& e) { if (s.substr(0, 2) == "#b") return literal(s); for (auto& k : e) if (s == bvr::variable(k.first.first, k.first.second).variable().name()) return k.second; throw Bad{"unknown " + s}; }
static std::size_t numeral(const std::string& s) { Q q = rd::number(s); if (q.get_den() != 1 || q > 100000) throw Bad{"index " + s}; return q.get_num().get_ui(); }
static bvr::B apply(const std::string& f, const std::vector<std::size_t>& ix, const std::vector<bvr::B>& a) {
	auto it = bv_names().find(f); if (it == bv_names().end()) throw Bad{"unknown function " + f}; bvr::T t = it->second; using T = bvr::T;
	if (t == T::EXTRACT) { if (ix.size() != 2 || a.size() != 1 || ix[0] < ix[1] || ix[0] >= a[0].w) throw Bad{"extract"}; return bvr::mk(ix[0] - ix[1] + 1, a[0].v >> ix[1]); }
	bool indexed = t == T::LROTATE || t == T::RROTATE || t == T::EXT_U || t == T::EXT_S || t == T::REPEAT, unary = indexed || t == T::NOT || t == T::NEG;
	if (ix.size() != (indexed ? 1 : 0) || a.size() != (unary ? 1 : 2)) throw Bad{"operands of " + f}; if (t == T::REPEAT && ix[0] == 0) throw Bad{"repeated zero times"};
	if (unary) return bvr::un(t, a[0], indexed ? ix[0] : 0); if (t != T::CONCAT && a[0].w != a[1].w) throw Bad{"widths of " + f}; return bvr::bi(t, a[0], a[1]);
}
static bvr::B bv_term(const rd::T& t, const bvr::Env& e) {
	if (t.h != "(") return atom(t.h, e); if (t.s.size() < 2) throw Bad{"no term"};
	std::vector<std::size_t> ix; std::string f = t.s[0].h; if (f == "(") { auto& h = t.s[0].s; if (h.size() < 3 || h[0].h != "_") throw Bad{"no function"}; f = h[1].h; for (std::size_t i = 2; i < h.size(); ++i) ix.push_back(numeral(h[i].h)); }
	std::vector<bvr::B> a; for (std::size_t i = 1; i < t.s.size(); ++i) a.push_back(bv_term(t.s[i], e)); return apply(f, ix, a);
}
static bool bv_bool(const rd::T& t) { if (t.h != "(") return t.h == "true" || t.h == "false" || rd::booleans().count(t.h); static const std::set<std::string> m{"and", "or", "xor", "not", "=>", "ite", "=", "bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge"}; return !t.s.empty() && m.count(t.s[0].h); }
static bool bv_truth(const rd::T& t, const BE& e) {
	if (t.h == "(" && t.s.size() >= 2 && t.s[0].h != "(") {
		bool ok; bvr::R r = bv_rel(t.s[0].h, ok); if (ok && !(t.s[0].h == "=" && bv_bool(t.s[1]))) { if (t.s.size() != 3) throw Bad{"operands of " + t.s[0].h}; bvr::B a = bv_term(t.s[1], e.v), b = bv_term(t.s[2], e.v); if (a.w != b.w) throw Bad{"widths of " + t.s[0].h}; return bvr::rel(r, a, b); }
		if (bv_bool(t)) { rd::T u = t; for (std::size_t i = 1; i < u.s.size(); ++i) u.s[i] = rd::T{bv_truth(t.s[i], e) ? "true" : "false", {}}; return rd::truth(u, e.e); }
	}
	return rd::truth(t, e.e);
}
// The plain notation: f(a, b), f_k(a), f_{h,l}(a).
struct Calls {
	std::string s; std::size_t i = 0; const bvr::Env& e;
	void need(char ch) { if (i >= s.size() || s[i] != ch) throw Bad{std::string("expected ") + ch + " in " + s}; ++i; }
	bvr::B term() {
		std::size_t j = i; while (j < s.size() && (std::isalnum((unsigned char)s[j]) || s[j] == '_' || s[j] == '#' )) ++j; std::string f = s.substr(i, j - i); i = j; std::vector<std::size_t> ix;
		if (i < s.size() && s[i] == '{') { if (f.empty() || f.back() != '_') throw Bad{"indices in " + s}; f.pop_back(); ++i; std::size_t k = s.find('}', i), m = s.find(',', i); if (k == std::string::npos || m > k) throw Bad{"indices in " + s}; ix = {numeral(s.substr(i, m - i)), numeral(s.substr(m + 1, k - m - 1))}; i = k + 1; }
		if (i >= s.size() || s[i] != '(') { if (!ix.empty()) throw Bad{"no operand"}; return atom(f, e); }
		if (!bv_names().count(f)) { std::size_t k = f.rfind('_'); if (k == std::string::npos) throw Bad{"unknown " + f}; ix = {numeral(f.substr(k + 1))}; f = f.substr(0, k); }
		need('('); std::vector<bvr::B> a{term()}; while (i < s.size() && s[i] == ',') { ++i; while (i < s.size() && s[i] == ' ') ++i; a.push_back(term()); } need(')'); return apply(f, ix, a);
	}
	bvr::B all() { bvr::B r = term(); if (i != s.size()) throw Bad{"rest of " + s}; return r; }
};
LAW(bitvectors, 6000, 120000) {
	bvr::sort_of(1); BN n = gen_bn(c, unsigned(c.idx(3))); c.in("formula", text(n)); F f = lib(n); std::set<std::pair<std::size_t, std::size_t>> u; used(n, u); c.nontrivial(!f.isTrue() && !f.isFalse() && !u.empty());
	std::vector<BE> es; for (auto& e : envs(c, 4)) { BE x; x.e = e; for (auto& k : u) x.v.emplace(k, bvr::gen_b(c, k.second)); es.push_back(x); }
	std::string s; std::map<std::string, std::size_t> known; for (auto& k : u) known[bvr::variable(k.first, k.second).variable().name()] = k.second;
	try {
		s = str(carl::outputSMTLIB<MP>(carl::Logic::QF_BV, {f})); c.in("script", s); std::set<std::string> declared; bool asserted = false;
		for (auto& t : rd::sexps(s)) {
			CHK(t.h == "(" && !t.s.empty(), "not a command in " << s); const std::string& h = t.s[0].h;
			if (h == "declare-fun") { CHK(!asserted && t.s.size() == 4 && t.s[2].h == "(" && t.s[2].s.empty(), "declaration"); CHK(declared.insert(t.s[1].h).second, t.s[1].h << " is declared twice"); std::string ty = rd::text(t.s[3]); if (rd::booleans().count(t.s[1].h)) CHK_EQ(ty, std::string("Bool"), "sort of " << t.s[1].h); else { CHK(known.count(t.s[1].h), "unexpected " << t.s[1].h); CHK_EQ(ty, "(_ BitVec " + std::to_string(known[t.s[1].h]) + ")", "sort of " << t.s[1].h); } }
			else if (h == "assert") { CHK(!asserted && t.s.size() == 2, "assertion"); asserted = true; for (auto& e : es) CHK_EQ(bv_truth(t.s[1], e), eval(n, e), "truth of " << s << " with " << bvr::show(e.v) << show(e.e)); std::function<void(const rd::T&)> in = [&](const rd::T& x) { if (x.h != "(") { if (rd::booleans().count(x.h) || known.count(x.h)) CHK(declared.count(x.h), x.h << " is not declared in " << s); } else for (auto& y : x.s) in(y); }; in(t.s[1]); }
		}
		CHK(asserted, "nothing asserted");
		// Terms and constraints alone, in both notations.
		unsigned td = unsigned(c.idx(4)); bvr::N a = bvr::gen_term(c, 1 + c.idx(6), td); bvr::Env e = bvr::env(c, a); c.in("term", bvr::show(a)); c.in("values", bvr::show(e)); bvr::BVTerm t = bvr::build(a); bvr::B want = bvr::eval(a, e);
		s = smt(t); CHK_EQ(bv_term(rd::only(s), e), want, "term in SMT-LIB: " << s); s = str(t); CHK_EQ((Calls{s, 0, e}.all()), want, "printed term: " << s);
		bvr::B z = bvr::gen_b(c, a.w); bvr::R r = bvr::RE[c.idx(10)]; auto k = bvr::BVConstraint::create(r, t, bvr::BVTerm(bvr::T::CONSTANT, bvr::val(z))); BE x; x.e = es[0].e; x.v = e; s = smt(k); c.in("relation", r); c.in("right-hand side", z); CHK_EQ(bv_truth(rd::only(s), x), bvr::rel(r, want, z), "constraint in SMT-LIB: " << s);
		// A model.
		carl::Model<Q, MP> m; for (auto& q : e) m.emplace(bvr::variable(q.first.first, q.first.second), bvr::val(q.second)); s = smt(m); rd::T mt = rd::only(s); CHK(mt.s.size() == e.size() + 1, "model " << s);
		for (std::size_t i = 1; i < mt.s.size(); ++i) { auto& d = mt.s[i]; CHK(d.s.size() == 5 && d.s[0].h == "define-fun" && d.s[2].h == "(" && d.s[2].s.empty(), "definition in " << s); bvr::B v = atom(d.s[1].h, e); CHK_EQ(rd::text(d.s[3]), "(_ BitVec " + std::to_string(v.w) + ")", "sort in " << s); CHK_EQ(literal(d.s[4].h), v, "value in " << s); }
	} catch (const Bad& b) { CHK(false, "cannot be read (" << b.why << "): " << s); }
}
PBT_MAIN("O01", "distinct objects that are not constant and their texts in all formats")
