// Bit-vectors: values, terms, constraints and formulas over them, against plain integers.
#include "bv.h"
using namespace bvr;

LAW(values, 60000, 2000000) {
	std::size_t w = gen_width(c); B a = gen_b(c, w), b = c.chance(1, 8) ? a : gen_b(c, w); BVValue x = val(a), y = val(b);
	c.in("a", a); c.in("b", b); c.nontrivial(a.v != 0 && b.v != 0); c.label_if(w > 64, "more than a block"); c.label_if(w == 1, "one bit");
	CHK_EQ(x.width(), w, "width"); CHK_EQ(x.isZero(), a.v == 0, "zero"); for (std::size_t i = 0; i < w; ++i) CHK_EQ(bool(x[i]), bit(a, i), "bit " << i);
	CHK_EQ(x.toString(), "#b" + bits(a), "text"); CHK_EQ(str(x), "#b" + bits(a), "printed");
	CHK_EQ(x == y, a == b, "equal"); CHK_EQ(x < y, a.v < b.v, "less"); if (a == b) CHK_EQ(std::hash<BVValue>()(x), std::hash<BVValue>()(y), "hash");
	// Built in other ways.
	if (a.v.fits_ulong_p()) same(BVValue(w, a.v.get_ui()), a, "from a machine number");
	same(BVValue(w, a.v), a, "from an integer"); same(BVValue(w, sgn_(a)), a, "from a signed integer"); Z far = a.v + two(w) * Z(long(c.range(-3, 3))); c.in("same residue", far); same(BVValue(w, far), a, "from an integer out of range");
	if (w > 64 || true) { Z lo = fmod_(a.v, two(64)); same(BVValue(w, lo.get_ui()), mk(w, lo), "from the lowest block"); }
	{ BVValue z = x; std::size_t i = c.idx(w); z[i] = !z[i]; B e = a; mpz_combit(e.v.get_mpz_t(), i); same(z, e, "one bit flipped"); same(x, a, "the original"); }
	// Operations on values.
	same(~x, un(T::NOT, a, 0), "not"); same(-x, un(T::NEG, a, 0), "neg"); same(x + y, bi(T::ADD, a, b), "sum"); same(x - y, bi(T::SUB, a, b), "difference"); same(x * y, bi(T::MUL, a, b), "product");
	same(x & y, bi(T::AND, a, b), "and"); same(x | y, bi(T::OR, a, b), "or"); same(x ^ y, bi(T::XOR, a, b), "xor");
	if (b.v != 0) { same(x / y, bi(T::DIV_U, a, b), "quotient"); same(x % y, bi(T::MOD_U, a, b), "remainder"); same(x.divideUnsigned(y), bi(T::DIV_U, a, b), "quotient"); same(x.divideSigned(y), bi(T::DIV_S, a, b), "signed quotient"); same(x.remSigned(y), bi(T::MOD_S1, a, b), "signed remainder"); same(x.modSigned(y), bi(T::MOD_S2, a, b), "signed modulus"); }
	same(x << y, bi(T::LSHIFT, a, b), "shifted left"); same(x >> y, bi(T::RSHIFT_LOGIC, a, b), "shifted right"); same(x.rightShiftArithmetic(y), bi(T::RSHIFT_ARITH, a, b), "shifted right with the sign");
	std::size_t n = c.draw(2) ? c.idx(2 * w + 3) : c.idx(5); c.in("n", n); same(x.rotateLeft(n), un(T::LROTATE, a, n), "rotated left"); same(x.rotateRight(n), un(T::RROTATE, a, n), "rotated right"); same(x.extendUnsignedBy(n), un(T::EXT_U, a, n), "extended"); same(x.extendSignedBy(n), un(T::EXT_S, a, n), "extended with the sign"); same(x.repeat(n % 5 + 1), un(T::REPEAT, a, n % 5 + 1), "repeated");
	std::size_t l = c.idx(w), h = l + c.idx(w - l); same(x.extract(h, l), mk(h - l + 1, a.v >> l), "extracted");
	B d = gen_b(c, gen_width(c)); c.in("d", d); same(x.concat(val(d)), bi(T::CONCAT, a, d), "concatenated");
	// The shift amount may have another width.
	same(x << val(d), bi(T::LSHIFT, a, d), "shifted left by another width"); same(x >> val(d), bi(T::RSHIFT_LOGIC, a, d), "shifted right by another width"); same(x.rightShiftArithmetic(val(d)), bi(T::RSHIFT_ARITH, a, d), "shifted right with the sign by another width");
}
static std::set<BVVariable> inside(const BVTerm& t) { // by walking through the term
	if (t.type() == T::VARIABLE) return {t.variable()}; if (t.type() == T::CONSTANT) return {}; if (!carl::typeIsBinary(t.type())) return inside(t.operand()); auto a = inside(t.first()), b = inside(t.second()); a.insert(b.begin(), b.end()); return a;
}
LAW(terms, 30000, 600000) {
	std::size_t w = 1 + c.idx(c.chance(1, 10) ? 70 : 8); N n = gen_term(c, w, 1 + unsigned(c.idx(3))); c.in("term", show(n));
	BVTerm t = build(n); c.in("stored", t); CHK_EQ(t.width(), w, "width"); CHK(!t.isInvalid(), "valid"); CHK(build(n) == t, "built again"); CHK(!(t < t), "order"); CHK_EQ(std::hash<BVTerm>()(build(n)), t.hash(), "hash");
	std::set<std::pair<std::size_t, std::size_t>> u; used(n, u); std::set<BVVariable> vs, all; t.gatherBVVariables(vs); for (auto& k : u) all.insert(variable(k.first, k.second));
	CHK(vs == inside(t), "variables of the term"); for (auto& v : vs) CHK(all.count(v), "unexpected variable " << v); c.nontrivial(!u.empty() && !n.s.empty()); c.label_if(t.isConstant() && !u.empty(), "folded"); if (u.empty()) CHK(t.isConstant(), "constant operands give a constant");
	for (int i = 0; i < 4; ++i) {
		Env e = env(c, n); if (i == 0) c.in("values", show(e)); B want = eval(n, e);
		CHK_EQ(eval(t, byvar(e)), want, "value at " << show(e));
		BVTerm s = t.substitute(terms(e)); CHK(s.isConstant(), "constant after replacing all variables"); CHK_EQ(of(s.value()), want, "value after replacing all variables at " << show(e));
		auto mv = carl::model::evaluate(t, model(e)); CHK(mv.isBVValue(), "evaluates to a value"); CHK_EQ(of(mv.asBVValue()), want, "evaluated by the model");
		// Half of the variables first.
		Env p, q; for (auto& k : e) (c.coin() ? p : q).insert(k); BVTerm h = t.substitute(terms(p)); std::set<BVVariable> left; h.gatherBVVariables(left); for (auto& k : p) CHK(!left.count(variable(k.first.first, k.first.second)), "replaced variable still there");
		CHK_EQ(of(h.substitute(terms(q)).value()), want, "value after replacing in two steps"); CHK_EQ(eval(carl::model::substitute(t, model(p)), byvar(e)), want, "partial model");
	}
	// Variables replaced by terms, simultaneously.
	if (!u.empty()) {
		std::map<BVVariable, BVTerm> m; std::map<std::pair<std::size_t, std::size_t>, N> by; for (auto& k : u) if (c.chance(2, 3)) { N r = gen_term(c, k.second, 1); by.emplace(k, r); m.emplace(variable(k.first, k.second), build(r)); }
		BVTerm s = t.substitute(m); Env e = env(c, n); for (auto& r : by) { Env f = env(c, r.second); e.insert(f.begin(), f.end()); }
		Env inner = e; for (auto& r : by) inner[r.first] = eval(r.second, e); CHK_EQ(eval(s, byvar(e)), eval(n, inner), "value after replacing variables by terms");
	}
}
LAW(constraints, 30000, 600000) {
	std::size_t w = 1 + c.idx(6); unsigned d = unsigned(c.idx(3)); N a = gen_term(c, w, d), b = c.chance(1, 6) ? a : gen_term(c, w, d); R r = RE[c.idx(10)]; std::ostringstream tx; tx << show(a) << " " << r << " " << show(b); c.in("constraint", tx.str());
	BVConstraint k = BVConstraint::create(r, build(a), build(b)); c.in("stored", k); BVConstraint k2 = BVConstraint::create(r, build(a), build(b)); CHK(k == k2 && !(k < k2) && k.id() == k2.id() && k.hash() == k2.hash(), "created again");
	CHK(!(k.isAlwaysConsistent() && k.isAlwaysInconsistent()), "both true and false"); N both; both.t = T::CONCAT; both.w = 2 * w; both.s = {a, b}; std::set<std::pair<std::size_t, std::size_t>> u; used(both, u); c.nontrivial(!u.empty());
	if (build(a).isConstant() && build(b).isConstant()) CHK(k.isConstant(), "decided");
	R inv = carl::inverse(r); CHK(carl::inverse(inv) == r, "inverse twice"); BVConstraint nk = BVConstraint::create(inv, build(a), build(b));
	F f(k); F nf(carl::FormulaType::NOT, f); F rn = nf.resolveNegation(); CHK(nf.negated() == f, "negated twice"); CHK(F(BVConstraint(k)) == f, "same formula");
	std::set<BVVariable> vs; k.gatherBVVariables(vs); if (!k.isConstant()) { std::set<BVVariable> in = inside(k.lhs()), in2 = inside(k.rhs()); in.insert(in2.begin(), in2.end()); CHK(vs == in, "variables of the constraint"); } { R r2 = RE[c.idx(10)]; BVConstraint o = BVConstraint::create(r2, build(a), c.coin() ? build(b) : build(gen_term(c, w, d))); CHK_EQ(int(k < o) + int(o < k) + int(k == o), 1, "order of " << k << " and " << o); BVTerm ta = build(a), tb = build(b); CHK_EQ(int(ta < tb) + int(tb < ta) + int(ta == tb), 1, "order of " << ta << " and " << tb); } carl::carlVariables cv; k.gatherVariables(cv); if (!k.isConstant()) { CHK_EQ(cv.size(), vs.size(), "number of variables"); for (auto& v : vs) CHK(cv.has(v.variable()), "variable " << v); }
	std::set<BVVariable> all; for (auto& x : u) all.insert(variable(x.first, x.second)); for (auto& v : vs) CHK(all.count(v), "unexpected variable");
	{ // Variables of formulas around the constraint.
		static const carl::Variable q = carl::freshBooleanVariable("b01_q"); F g = c.coin() ? F(carl::FormulaType::OR, std::vector<F>{f, F(q)}) : F(carl::FormulaType::XOR, std::vector<F>{nf, F(q)}); carl::carlVariables fv; g.gatherVariables(fv); std::set<BVVariable> fb; g.gatherBVVariables(fb); std::set<carl::UninterpretedFunction> uf; g.gatherUFs(uf);
		if (!k.isConstant()) { CHK(fb == vs, "bit-vector variables of " << g); CHK_EQ(fv.size(), vs.size() + 1, "number of variables of " << g); CHK(fv.has(q), "Boolean variable of " << g); for (auto& v : vs) CHK(fv.has(v.variable()), "variable " << v << " of " << g); CHK(g.complexity() > F(q).complexity(), "complexity of " << g); } else CHK(fb.empty(), "a constant has variables"); CHK(uf.empty(), "uninterpreted functions");
	}
	for (int i = 0; i < 4; ++i) {
		Env e = env(c, both); B x = eval(a, e), y = eval(b, e); if (i == 0) c.in("values", show(e)); bool want = rel(r, x, y); auto m = model(e);
		CHK_EQ(rel(inv, x, y), !want, "inverse relation");
		auto holds = [&](const BVConstraint& q) { return q.isConstant() ? q.isAlwaysConsistent() : rel(q.relation(), eval(q.lhs(), byvar(e)), eval(q.rhs(), byvar(e))); };
		CHK_EQ(holds(k), want, "constraint at " << show(e)); CHK_EQ(holds(nk), !want, "inverse constraint at " << show(e));
		auto mv = carl::model::evaluate(k, m); CHK(mv.isBool(), "decided"); CHK_EQ(mv.asBool(), want, "evaluated by the model at " << show(e));
		CHK_EQ(holds(carl::model::substitute(k, m)), want, "substituted"); CHK_EQ(carl::model::satisfiedBy(f, m), want ? 1u : 0u, "formula at " << show(e)); CHK_EQ(carl::model::satisfiedBy(nf, m), want ? 0u : 1u, "negated formula"); CHK_EQ(carl::model::satisfiedBy(rn, m), want ? 0u : 1u, "resolved negation at " << show(e)); CHK_EQ(carl::satisfies(m, f), want ? 1u : 0u, "satisfies at " << show(e)); CHK_EQ(carl::satisfies(m, nf), want ? 0u : 1u, "satisfies, negated");
	}
	{ // Unassigned variables are zero in a default model, others keep their value. With a part of the values, only what all completions agree on is decided.
		Env e = env(c, both), keep; for (auto& x : e) if (c.coin()) keep.insert(x); F g = c.coin() ? f : c.coin() ? nf : F(carl::FormulaType::ITE, std::vector<F>{f, F(carl::FormulaType::FALSE), nf}); bool neg = !(g == f); Mo part = model(keep), m = part; carl::getDefaultModel(m, g); for (int i = 0; i < 3; ++i) { bool want = rel(r, eval(a, e), eval(b, e)) != neg; unsigned s = carl::satisfies(part, g), t = carl::model::satisfiedBy(g, part); CHK(s == 2 || s == (want ? 1u : 0u), "satisfies decides " << s << " by a part of the values at " << show(e)); CHK(t == 2 || t == (want ? 1u : 0u), "decided " << t << " by a part of the values at " << show(e)); for (auto& x : e) if (!keep.count(x.first)) x.second = i == 1 ? B{x.first.second, Z(0)} : gen_b(c, x.first.second); }
		Env zero = keep; for (auto& x : e) if (!keep.count(x.first)) zero.emplace(x.first, B{x.first.second, Z(0)}); bool want = rel(r, eval(a, zero), eval(b, zero)) != neg; CHK_EQ(carl::model::satisfiedBy(g, m), want ? 1u : 0u, "truth in the default model"); for (auto& x : keep) { auto it = m.find(variable(x.first.first, x.first.second)); CHK(it != m.end() && of(it->second.asBVValue()).v == x.second.v, "a given value is kept"); }
	}
	CHK_EQ(carl::relationIsStrict(r), !rel(r, mk(1, 0), mk(1, 0)), "strict"); CHK_EQ(carl::relationIsSigned(r), rel(r, mk(2, 0), mk(2, 3)) == rel(r, mk(2, 1), mk(2, 0)) && r != R::EQ && r != R::NEQ, "signed");
}
// All pairs of values of a small width.
LAW(small_widths, 300, 4000) {
	std::size_t w = 1 + c.idx(4); Z a = Z(long(c.draw(1u << w))); B x{w, a}; c.in("a", x); c.nontrivial(w > 1);
	for (long j = 0; j < (1l << w); ++j) {
		B y{w, Z(j)}; BVTerm s(T::CONSTANT, val(x)), t(T::CONSTANT, val(y));
		for (T op : BI) { BVTerm r(op, s, t); CHK(r.isConstant(), "constant"); CHK_EQ(of(r.value()), bi(op, x, y), op << " with " << y); }
		for (R r : RE) { BVConstraint k = BVConstraint::create(r, s, t); CHK_EQ(k.isAlwaysConsistent(), rel(r, x, y), x << " " << r << " " << y); CHK_EQ(k.isAlwaysInconsistent(), !rel(r, x, y), x << " " << r << " " << y); }
		for (T op : UN) { std::size_t n = op == T::NOT || op == T::NEG ? 0 : op == T::REPEAT ? std::size_t(j) + 1 : std::size_t(j); BVTerm r(op, s, n); CHK_EQ(of(r.value()), un(op, x, n), op << " " << n); }
	}
}
PBT_MAIN("B01", "neither operand is zero (values), the term or constraint mentions a variable, more than one bit")
