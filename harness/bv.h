// Reference bit-vectors as plain integers, random terms over them and their meaning.
#pragma once
#include "pbt.h"
#include "gen.h"
#include <carl/core/MultivariatePolynomial.h>
#include <carl/core/VariablePool.h>
#include <carl/formula/Formula.h>
#include <carl/formula/FormulaPool.h>
#include <carl/formula/SortManager.h>
#include <carl/formula/bitvector/BVConstraintPool.h>
#include <carl/formula/bitvector/BVTermPool.h>
#include <carl-model/Model.h>
#include <carl-model/Assignment.h>
#include <carl-model/evaluation/ModelEvaluation.h>
#include <set>
namespace bvr {
using gen::Z; using gen::Q;
using carl::BVValue; using carl::BVTerm; using T = carl::BVTermType; using R = carl::BVCompareRelation; using carl::BVConstraint; using carl::BVVariable;
using CP = carl::MultivariatePolynomial<Q>; using F = carl::Formula<CP>; using Mo = carl::Model<Q, CP>;
// Reference value: 0 <= v < 2^w.
struct B { std::size_t w; Z v; };
inline Z two(std::size_t n) { Z r; mpz_ui_pow_ui(r.get_mpz_t(), 2, n); return r; }
inline Z fdiv(const Z& a, const Z& b) { Z r; mpz_fdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
inline Z fmod_(const Z& a, const Z& b) { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
inline Z tdiv(const Z& a, const Z& b) { Z r; mpz_tdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
inline Z trem(const Z& a, const Z& b) { Z r; mpz_tdiv_r(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
inline B mk(std::size_t w, const Z& v) { return {w, fmod_(v, two(w))}; }
inline Z sgn_(const B& b) { return b.v >= two(b.w - 1) ? Z(b.v - two(b.w)) : b.v; }
inline bool bit(const B& b, std::size_t i) { return mpz_tstbit(b.v.get_mpz_t(), i); }
inline std::string bits(const B& b) { std::string s; for (std::size_t i = b.w; i-- > 0;) s += bit(b, i) ? '1' : '0'; return s; }
inline BVValue val(const B& b) { return BVValue(bits(b)); }
inline B of(const BVValue& v) { Z r = 0; for (std::size_t i = v.width(); i-- > 0;) r = 2 * r + (v[i] ? 1 : 0); return {v.width(), r}; }
inline bool operator==(const B& a, const B& b) { return a.w == b.w && a.v == b.v; }
inline std::ostream& operator<<(std::ostream& o, const B& b) { return o << "#b" << bits(b); }

inline Z ilog(const Z& a, const Z& b, int op) { Z r; if (op == 0) mpz_and(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); else if (op == 1) mpz_ior(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); else mpz_xor(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
static const T UN[] = {T::NOT, T::NEG, T::LROTATE, T::RROTATE, T::EXT_U, T::EXT_S, T::REPEAT};
static const T BI[] = {T::CONCAT, T::AND, T::OR, T::XOR, T::NAND, T::NOR, T::XNOR, T::ADD, T::SUB, T::MUL, T::DIV_U, T::DIV_S, T::MOD_U, T::MOD_S1, T::MOD_S2, T::EQ, T::LSHIFT, T::RSHIFT_LOGIC, T::RSHIFT_ARITH};
static const R RE[] = {R::EQ, R::NEQ, R::ULT, R::ULE, R::UGT, R::UGE, R::SLT, R::SLE, R::SGT, R::SGE};
// The meanings fixed by SMT-LIB.
inline B un(T t, const B& a, std::size_t n) {
	switch (t) {
		case T::NOT: return mk(a.w, two(a.w) - 1 - a.v);
		case T::NEG: return mk(a.w, -a.v);
		case T::LROTATE: { std::size_t k = n % a.w; return mk(a.w, (a.v << k) + (a.v >> (a.w - k))); }
		case T::RROTATE: { std::size_t k = n % a.w; return mk(a.w, (a.v << (a.w - k)) + (a.v >> k)); }
		case T::EXT_U: return mk(a.w + n, a.v);
		case T::EXT_S: return mk(a.w + n, sgn_(a));
		default: { Z r = 0; for (std::size_t i = 0; i < n; ++i) r = (r << a.w) + a.v; return mk(a.w * n, r); }
	}
}
inline B bi(T t, const B& a, const B& b) {
	Z m = two(a.w) - 1; Z sa = sgn_(a), sb = sgn_(b);
	switch (t) {
		case T::CONCAT: return mk(a.w + b.w, (a.v << b.w) + b.v);
		case T::AND: return mk(a.w, ilog(a.v, b.v, 0));
		case T::OR: return mk(a.w, ilog(a.v, b.v, 1));
		case T::XOR: return mk(a.w, ilog(a.v, b.v, 2));
		case T::NAND: return mk(a.w, m - ilog(a.v, b.v, 0));
		case T::NOR: return mk(a.w, m - ilog(a.v, b.v, 1));
		case T::XNOR: return mk(a.w, m - ilog(a.v, b.v, 2));
		case T::ADD: return mk(a.w, a.v + b.v);
		case T::SUB: return mk(a.w, a.v - b.v);
		case T::MUL: return mk(a.w, a.v * b.v);
		case T::DIV_U: return b.v == 0 ? mk(a.w, m) : mk(a.w, tdiv(a.v, b.v));
		case T::MOD_U: return b.v == 0 ? a : mk(a.w, trem(a.v, b.v));
		case T::DIV_S: return b.v == 0 ? mk(a.w, sa < 0 ? Z(1) : m) : mk(a.w, tdiv(sa, sb));
		case T::MOD_S1: return b.v == 0 ? a : mk(a.w, trem(sa, sb));
		case T::MOD_S2: return b.v == 0 ? a : mk(a.w, fmod_(sa, sb)); // sign of the divisor
		case T::EQ: return mk(1, a.v == b.v ? 1 : 0);
		case T::LSHIFT: return b.v >= long(a.w) ? mk(a.w, 0) : mk(a.w, a.v << b.v.get_ui());
		case T::RSHIFT_LOGIC: return b.v >= long(a.w) ? mk(a.w, 0) : mk(a.w, a.v >> b.v.get_ui());
		default: return mk(a.w, fdiv(sa, two(b.v >= long(a.w) ? a.w : b.v.get_ui())));
	}
}
inline bool rel(R r, const B& a, const B& b) {
	Z x = a.v, y = b.v; if (r >= R::SLT) { x = sgn_(a); y = sgn_(b); }
	switch (r) { case R::EQ: return x == y; case R::NEQ: return x != y; case R::ULT: case R::SLT: return x < y; case R::ULE: case R::SLE: return x <= y; case R::UGT: case R::SGT: return x > y; default: return x >= y; }
}
inline Z gen_value(pbt::Ctx& c, std::size_t w) {
	switch (c.draw(8)) {
		case 0: return 0; case 1: return fmod_(Z(long(c.draw(9))), two(w)); case 2: return fmod_(Z(two(w) - 1 - long(c.draw(9))), two(w)); case 3: return fmod_(Z(two(w - 1) + long(c.range(-2, 2))), two(w));
		case 4: return two(c.idx(w)); case 5: return fmod_(Z(long(w) + long(c.range(-2, 2))), two(w));
		default: { Z r = 0; for (std::size_t i = 0; i < w; i += 16) r = (r << 16) + Z(long(c.draw(65536))); return fmod_(r, two(w)); }
	}
}
inline std::size_t gen_width(pbt::Ctx& c) { switch (c.draw(6)) { case 0: return 1; case 1: return c.pick({63, 64, 65, 127, 128, 130}); case 2: return 1 + c.idx(70); default: return 1 + c.idx(9); } }
inline B gen_b(pbt::Ctx& c, std::size_t w) { return {w, gen_value(c, w)}; }
template<typename X> void same(const X& got, const B& want, const std::string& what) { CHK_EQ(of(got), want, what); }
template<typename E> std::string str(const E& e) { std::ostringstream s; s << e; return s.str(); }

// Terms: reference trees.
struct N { T t; std::size_t w; B k; int var = -1; std::size_t n = 0, l = 0; std::vector<N> s; };
struct VV { std::vector<BVVariable> v; std::vector<std::size_t> w; };
inline carl::Sort sort_of(std::size_t w) {
	static carl::Sort base; static bool init = false;
	if (!init) { carl::SortManager::getInstance().clear(); base = carl::SortManager::getInstance().addSort("BitVec"); carl::SortManager::getInstance().makeSortIndexable(base, 1, carl::VariableType::VT_BITVECTOR); init = true; }
	return carl::SortManager::getInstance().index(base, {w});
}
inline BVVariable variable(std::size_t i, std::size_t w) { // one variable for each index and width
	static std::map<std::pair<std::size_t, std::size_t>, BVVariable> m; auto it = m.find({i, w});
	if (it == m.end()) it = m.emplace(std::make_pair(i, w), BVVariable(carl::freshBitvectorVariable("bv" + std::to_string(i) + "_" + std::to_string(w)), sort_of(w))).first;
	return it->second;
}
inline N constant(const B& b) { N n; n.t = T::CONSTANT; n.w = b.w; n.k = b; return n; }
inline N leaf(pbt::Ctx& c, std::size_t w) { if (c.chance(1, 3)) return constant(gen_b(c, w)); N n; n.t = T::VARIABLE; n.w = w; n.var = int(c.idx(3)); return n; }
inline N gen_term(pbt::Ctx& c, std::size_t w, unsigned d) {
	if (d == 0 || c.chance(1, 6)) return leaf(c, w);
	N n; n.w = w;
	switch (c.draw(9)) {
		case 0: n.t = c.coin() ? T::NOT : T::NEG; n.s = {gen_term(c, w, d - 1)}; return n;
		case 1: n.t = c.coin() ? T::LROTATE : T::RROTATE; n.n = c.idx(2 * w + 2); n.s = {gen_term(c, w, d - 1)}; return n;
		case 2: if (w > 1) { n.t = c.coin() ? T::EXT_U : T::EXT_S; n.n = c.idx(w); n.s = {gen_term(c, w - n.n, d - 1)}; return n; } break;
		case 3: { std::vector<std::size_t> div; for (std::size_t k = 1; k <= w; ++k) if (w % k == 0) div.push_back(k); n.t = T::REPEAT; n.n = div[c.idx(div.size())]; n.s = {gen_term(c, w / n.n, d - 1)}; return n; }
		case 4: if (w > 1) { n.t = T::CONCAT; std::size_t k = 1 + c.idx(w - 1); n.s = {gen_term(c, k, d - 1), gen_term(c, w - k, d - 1)}; return n; } break;
		case 5: { n.t = T::EXTRACT; n.l = c.idx(4); std::size_t up = c.idx(4); n.n = n.l + w - 1; n.s = {gen_term(c, w + n.l + up, d - 1)}; return n; }
		case 6: if (w == 1) { n.t = T::EQ; std::size_t k = 1 + c.idx(5); n.s = {gen_term(c, k, d - 1), gen_term(c, k, d - 1)}; return n; } break;
		default: break;
	}
	do n.t = BI[1 + c.idx(18)]; while (n.t == T::EQ);
	n.s = {gen_term(c, w, d - 1), gen_term(c, w, d - 1)}; if (c.chance(1, 8)) n.s[1] = n.s[0]; if (c.chance(1, 8)) n.s[1] = constant(mk(w, 0)); return n;
}
inline BVTerm build(const N& n) {
	switch (n.t) {
		case T::CONSTANT: return BVTerm(T::CONSTANT, val(n.k)); case T::VARIABLE: return BVTerm(T::VARIABLE, variable(std::size_t(n.var), n.w)); case T::EXTRACT: return BVTerm(T::EXTRACT, build(n.s[0]), n.n, n.l);
		default: if (n.s.size() == 2) return BVTerm(n.t, build(n.s[0]), build(n.s[1])); return BVTerm(n.t, build(n.s[0]), n.n);
	}
}
using Env = std::map<std::pair<std::size_t, std::size_t>, B>;
inline B eval(const N& n, const Env& e) {
	switch (n.t) {
		case T::CONSTANT: return n.k; case T::VARIABLE: return e.at({std::size_t(n.var), n.w}); case T::EXTRACT: return mk(n.n - n.l + 1, eval(n.s[0], e).v >> n.l);
		default: if (n.s.size() == 2) return bi(n.t, eval(n.s[0], e), eval(n.s[1], e)); return un(n.t, eval(n.s[0], e), n.n);
	}
}
inline B eval(const BVTerm& t, const std::map<BVVariable, B>& e) { // reads the term of the library
	switch (t.type()) {
		case T::CONSTANT: return of(t.value()); case T::VARIABLE: return e.at(t.variable()); case T::EXTRACT: return mk(t.highest() - t.lowest() + 1, eval(t.operand(), e).v >> t.lowest());
		default: if (carl::typeIsBinary(t.type())) return bi(t.type(), eval(t.first(), e), eval(t.second(), e)); return un(t.type(), eval(t.operand(), e), t.index());
	}
}
inline void used(const N& n, std::set<std::pair<std::size_t, std::size_t>>& s) { if (n.t == T::VARIABLE) s.insert({std::size_t(n.var), n.w}); for (auto& x : n.s) used(x, s); }
inline std::string show(const N& n) { std::ostringstream s; if (n.t == T::CONSTANT) s << n.k; else if (n.t == T::VARIABLE) s << "bv" << n.var << "_" << n.w; else { s << "(" << n.t; if (n.s.size() == 1) s << " " << n.n; if (n.t == T::EXTRACT) s << " " << n.l; for (auto& x : n.s) s << " " << show(x); s << ")"; } return s.str(); }
inline Env env(pbt::Ctx& c, const N& n) { std::set<std::pair<std::size_t, std::size_t>> u; used(n, u); Env e; for (auto& k : u) e.emplace(k, gen_b(c, k.second)); return e; }
inline std::map<BVVariable, BVTerm> terms(const Env& e) { std::map<BVVariable, BVTerm> m; for (auto& k : e) m.emplace(variable(k.first.first, k.first.second), BVTerm(T::CONSTANT, val(k.second))); return m; }
inline std::map<BVVariable, B> byvar(const Env& e) { std::map<BVVariable, B> m; for (auto& k : e) m.emplace(variable(k.first.first, k.first.second), k.second); return m; }
inline std::string show(const Env& e) { std::ostringstream s; for (auto& k : e) s << "bv" << k.first.first << "_" << k.first.second << "=" << k.second << " "; return s.str(); }
inline Mo model(const Env& e) { Mo m; for (auto& k : e) m.emplace(variable(k.first.first, k.first.second), val(k.second)); return m; }
}
