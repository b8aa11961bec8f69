// Reference formulas: trees over Boolean variables and constraints, with their truth values at points.
#pragma once
#include "poly.h"
#include <carl/formula/Formula.h>
#include <carl/formula/FormulaPool.h>
#include <carl/formula/helpers/to_cnf.h>
namespace fm {
using namespace gen;
using rp::P; using rp::Exp; using rp::CP; using rp::K;
using carl::Relation; using carl::Variable; using carl::FormulaType;
using F = carl::Formula<CP>;
constexpr std::size_t NB = 4;
inline const std::vector<Variable>& bools() { static std::vector<Variable> v = [] { std::vector<Variable> r; for (const char* n : {"a", "b", "c", "d"}) r.push_back(carl::freshBooleanVariable(n)); return r; }(); return v; }
// Arithmetic variables: x and y real, the third one an integer.
inline const std::vector<Variable>& vars() { static std::vector<Variable> v{rp::vars()[0], rp::vars()[1], carl::freshIntegerVariable("i"), rp::vars()[3], rp::vars()[4]}; return v; }
inline CP build(const P& p) { CP r; for (auto& t : p.t) { CP m(t.second); for (std::size_t i = 0; i < K; ++i) for (unsigned e = 0; e < t.first[i]; ++e) m = m * CP(vars()[i]); r = r + m; } return r; }
inline P read(const CP& p) { P r; for (auto& t : p) { Exp e{}; if (t.monomial()) for (auto& ve : *t.monomial()) { bool f = false; for (std::size_t i = 0; i < K; ++i) if (vars()[i] == ve.first) { e[i] = unsigned(ve.second); f = true; } CHK(f, "unexpected variable " << ve.first); } r.add(e, t.coeff()); } return r; }
inline bool holds(const Q& v, Relation r) { int s = sgn(v); switch (r) { case Relation::EQ: return s == 0; case Relation::NEQ: return s != 0; case Relation::LESS: return s < 0; case Relation::LEQ: return s <= 0; case Relation::GREATER: return s > 0; default: return s >= 0; } }
static const Relation RELS[] = {Relation::EQ, Relation::NEQ, Relation::LESS, Relation::LEQ, Relation::GREATER, Relation::GEQ};
struct Env { std::array<bool, NB> b{}; std::array<Q, K> x{}; };
struct N {
	FormulaType t = FormulaType::TRUE; std::size_t b = 0; P p; Relation r = Relation::EQ; std::vector<N> s;
	bool operator==(const N& o) const { return t == o.t && b == o.b && p == o.p && r == o.r && s == o.s; }
};
inline std::ostream& operator<<(std::ostream& os, const N& n) {
	switch (n.t) { case FormulaType::BOOL: return os << "abcd"[n.b]; case FormulaType::CONSTRAINT: return os << "[" << n.p << " " << n.r << " 0]"; case FormulaType::TRUE: return os << "true"; case FormulaType::FALSE: return os << "false"; default: break; }
	os << "(" << n.t; for (auto& k : n.s) os << " " << k; return os << ")";
}
inline bool combine(FormulaType t, const std::vector<bool>& v) {
	switch (t) {
		case FormulaType::NOT: return !v[0];
		case FormulaType::AND: return std::all_of(v.begin(), v.end(), [](bool x) { return x; });
		case FormulaType::OR: return std::any_of(v.begin(), v.end(), [](bool x) { return x; });
		case FormulaType::XOR: return std::count(v.begin(), v.end(), true) % 2 == 1;
		case FormulaType::IFF: return std::all_of(v.begin(), v.end(), [&](bool x) { return x == v[0]; });
		case FormulaType::IMPLIES: return !v[0] || v[1];
		case FormulaType::ITE: return v[0] ? v[1] : v[2];
		default: CHK(false, "unexpected connective"); return false;
	}
}
inline bool eval(const N& n, const Env& e) {
	switch (n.t) { case FormulaType::BOOL: return e.b[n.b]; case FormulaType::CONSTRAINT: return holds(rp::eval(n.p, e.x), n.r); case FormulaType::TRUE: return true; case FormulaType::FALSE: return false; default: break; }
	std::vector<bool> v; for (auto& k : n.s) v.push_back(eval(k, e)); return combine(n.t, v);
}
inline bool eval(const F& f, const Env& e, const std::map<Variable, bool>* extra = nullptr) {
	switch (f.getType()) {
		case FormulaType::TRUE: return true; case FormulaType::FALSE: return false;
		case FormulaType::BOOL: for (std::size_t i = 0; i < NB; ++i) if (f.boolean() == bools()[i]) return e.b[i]; { CHK(extra && extra->count(f.boolean()), "unknown variable " << f); return extra->at(f.boolean()); }
		case FormulaType::CONSTRAINT: return holds(rp::eval(read(f.constraint().lhs()), e.x), f.constraint().relation());
		case FormulaType::NOT: return !eval(f.subformula(), e, extra);
		default: { std::vector<bool> v; for (auto& k : f.subformulas()) v.push_back(eval(k, e, extra)); return combine(f.getType(), v); }
	}
}
inline N atom_bool(std::size_t i) { N n; n.t = FormulaType::BOOL; n.b = i; return n; }
inline N atom_con(const P& p, Relation r) { N n; n.t = FormulaType::CONSTRAINT; n.p = p; n.r = r; return n; }
inline N node(FormulaType t, std::vector<N> s) { N n; n.t = t; n.s = std::move(s); return n; }
inline P small_poly(pbt::Ctx& c) {
	P p;
	switch (c.weighted({4, 2, 3, 2, 2, 1})) {
		case 0: p = rp::mono(0); break;
		case 1: p = rp::mono(1); break;
		case 2: p = rp::mono(0) + rp::scale(rp::mono(1), Q(long(c.range(-2, 2)))); break;
		case 3: p = rp::mono(2); break;
		case 5: p = rp::mono(2, 2) + rp::scale(rp::mono(c.idx(3)), Q(long(c.range(-1, 1)))); break;
		default: p = rp::mono(0, 2) + rp::scale(rp::mono(c.idx(3)), Q(long(c.range(-1, 1)))); break;
	}
	static const long K1[] = {1, 1, -1, 2, -3}; return rp::scale(p, Q(K1[c.idx(5)])) + P(Q(long(c.range(-4, 4))) / 2);
}
// General shape of the trees: which connectives and how deep.
struct Shape { unsigned depth = 3; unsigned width = 4; bool constants = true; bool constraints = true; };
inline N gen_formula(pbt::Ctx& c, const Shape& s, unsigned d, std::vector<N>& seen) {
	N n;
	if (!seen.empty() && c.chance(1, 5)) { n = seen[c.idx(seen.size())]; if (c.chance(1, 3)) n = node(FormulaType::NOT, {n}); return n; }
	if (d == 0 || c.chance(1, 6)) {
		switch (c.weighted({5, s.constraints ? 4u : 0u, s.constants ? 1u : 0u})) {
			case 0: n = atom_bool(c.idx(NB)); break;
			case 1: n = atom_con(small_poly(c), RELS[c.idx(6)]); break;
			default: n.t = c.coin() ? FormulaType::TRUE : FormulaType::FALSE; break;
		}
	} else {
		static const FormulaType T[] = {FormulaType::NOT, FormulaType::AND, FormulaType::OR, FormulaType::XOR, FormulaType::IFF, FormulaType::IMPLIES, FormulaType::ITE};
		n.t = T[c.weighted({2, 4, 4, 3, 3, 2, 2})];
		unsigned k = n.t == FormulaType::NOT ? 1 : n.t == FormulaType::IMPLIES ? 2 : n.t == FormulaType::ITE ? 3 : 2 + unsigned(c.draw(s.width - 1));
		for (unsigned i = 0; i < k; ++i) n.s.push_back(gen_formula(c, s, d - 1, seen));
	}
	seen.push_back(n); return n;
}
inline N formula(pbt::Ctx& c, const Shape& s = {}) { std::vector<N> seen; return gen_formula(c, s, 1 + unsigned(c.draw(s.depth)), seen); }
inline F to_carl(const N& n) {
	switch (n.t) { case FormulaType::BOOL: return F(bools()[n.b]); case FormulaType::CONSTRAINT: return F(build(n.p), n.r); case FormulaType::TRUE: case FormulaType::FALSE: return F(n.t); case FormulaType::NOT: return F(FormulaType::NOT, to_carl(n.s[0])); default: break; }
	carl::Formulas<CP> v; for (auto& k : n.s) v.push_back(to_carl(k)); return F(n.t, std::move(v));
}
inline std::vector<Env> envs(pbt::Ctx& c, unsigned points) {
	std::vector<Env> r;
	for (unsigned k = 0; k < points; ++k) {
		std::array<Q, K> x{}; x[0] = Q(long(c.range(-4, 4))) / 2; x[1] = Q(long(c.range(-4, 4))) / 2; x[2] = Q(long(c.range(-3, 3)));
		for (unsigned m = 0; m < (1u << NB); ++m) { Env e; for (std::size_t i = 0; i < NB; ++i) e.b[i] = (m >> i) & 1; e.x = x; r.push_back(e); }
	}
	return r;
}
inline std::string show(const Env& e) { std::ostringstream s; s << "a=" << e.b[0] << " b=" << e.b[1] << " c=" << e.b[2] << " d=" << e.b[3] << " x=" << e.x[0] << " y=" << e.x[1] << " i=" << e.x[2]; return s.str(); }
}
