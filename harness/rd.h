// Readers for printed polynomials and formulas: s-expressions (SMT-LIB) and infix text, written independently of the library.
#pragma once
#include "fm.h"
#include <cctype>
namespace rd {
using namespace fm;
struct Bad { std::string why; };
struct T { std::string h; std::vector<T> s; }; // a name, number or operator with its operands
inline std::vector<std::string> tokens(const std::string& s, bool sexp) {
	std::vector<std::string> r;
	static const char* OPS[] = {"<==>", "==>", "=>", "/\\", "\\/", "<=", ">=", "!=", "<>", "/=", nullptr};
	for (std::size_t i = 0; i < s.size();) {
		unsigned char ch = (unsigned char)s[i];
		if (std::isspace(ch)) { ++i; continue; }
		if (sexp) {
			if (ch == '(' || ch == ')') { r.push_back(std::string(1, char(ch))); ++i; continue; }
			std::size_t j = i; while (j < s.size() && !std::isspace((unsigned char)s[j]) && s[j] != '(' && s[j] != ')') ++j;
			r.push_back(s.substr(i, j - i)); i = j; continue;
		}
		if (std::isalpha(ch) || ch == '_') { std::size_t j = i; while (j < s.size() && (std::isalnum((unsigned char)s[j]) || s[j] == '_')) ++j; r.push_back(s.substr(i, j - i)); i = j; continue; }
		if (std::isdigit(ch)) { std::size_t j = i; while (j < s.size() && (std::isdigit((unsigned char)s[j]) || s[j] == '.')) ++j; r.push_back(s.substr(i, j - i)); i = j; continue; }
		bool f = false; for (const char** o = OPS; *o; ++o) { std::size_t n = std::string(*o).size(); if (s.compare(i, n, *o) == 0) { r.push_back(*o); i += n; f = true; break; } }
		if (!f) { r.push_back(std::string(1, char(ch))); ++i; }
	}
	return r;
}
// s-expressions
inline T sexp(const std::vector<std::string>& t, std::size_t& i) {
	if (i >= t.size()) throw Bad{"unexpected end"};
	if (t[i] == ")") throw Bad{"unexpected )"};
	if (t[i] != "(") return T{t[i++], {}};
	++i; T r{"", {}}; std::vector<T> all; while (i < t.size() && t[i] != ")") all.push_back(sexp(t, i));
	if (i >= t.size()) throw Bad{"missing )"};
	++i; r.h = "("; r.s = all; return r;
}
inline std::vector<T> sexps(const std::string& s) { auto t = tokens(s, true); std::size_t i = 0; std::vector<T> r; while (i < t.size()) r.push_back(sexp(t, i)); return r; }
inline std::string text(const T& t) { if (t.h != "(") return t.h; std::string s = "("; for (std::size_t i = 0; i < t.s.size(); ++i) s += (i ? " " : "") + text(t.s[i]); return s + ")"; }
inline T only(const std::string& s) { auto v = sexps(s); if (v.size() != 1) throw Bad{"not one expression: " + s}; return v[0]; }

using Names = std::map<std::string, std::size_t>;
inline const Names& reals() { static Names m = [] { Names r; for (std::size_t i = 0; i < K; ++i) r[vars()[i].name()] = i; return r; }(); return m; }
inline const Names& plain() { static Names m = [] { Names r; for (std::size_t i = 0; i < K; ++i) r[rp::vars()[i].name()] = i; return r; }(); return m; }
inline const Names& booleans() { static Names m = [] { Names r; for (std::size_t i = 0; i < NB; ++i) r[bools()[i].name()] = i; return r; }(); return m; }
inline Q number(const std::string& s) {
	if (s.empty()) throw Bad{"empty number"};
	std::size_t dot = s.find('.'); std::string d = s; unsigned long scale = 0; if (dot != std::string::npos) { scale = s.size() - dot - 1; d.erase(dot, 1); }
	for (char ch : d) if (!std::isdigit((unsigned char)ch)) throw Bad{"not a number: " + s};
	Z den; mpz_ui_pow_ui(den.get_mpz_t(), 10, scale); Q r(Z(d, 10), den); r.canonicalize(); return r;
}
inline Q constant(const P& p) { if (!p.constant()) throw Bad{"not constant"}; return p.at(Exp{}); }
inline P poly(const T& t, const Names& v) { // SMT-LIB arithmetic
	if (t.h != "(") { auto it = v.find(t.h); if (it != v.end()) return rp::mono(it->second); return P(number(t.h)); }
	if (t.s.size() < 2 || t.s[0].h == "(") throw Bad{"no term: " + text(t)};
	const std::string& o = t.s[0].h; std::vector<P> a; for (std::size_t i = 1; i < t.s.size(); ++i) a.push_back(poly(t.s[i], v));
	P r = a[0];
	if (o == "-" && a.size() == 1) return -r;
	if (a.size() < 2) throw Bad{"too few operands: " + text(t)};
	for (std::size_t i = 1; i < a.size(); ++i) {
		if (o == "+") r = r + a[i]; else if (o == "-") r = r - a[i]; else if (o == "*") r = r * a[i];
		else if (o == "/") { Q d = constant(a[i]); if (d == 0) throw Bad{"division by zero"}; r = rp::scale(r, Q(1 / d)); }
		else throw Bad{"unknown function " + o};
	}
	return r;
}
inline bool rel_of(const std::string& s, Relation& r) {
	static const std::map<std::string, Relation> m{{"=", Relation::EQ}, {"!=", Relation::NEQ}, {"<>", Relation::NEQ}, {"/=", Relation::NEQ}, {"<", Relation::LESS}, {"<=", Relation::LEQ}, {">", Relation::GREATER}, {">=", Relation::GEQ}};
	auto it = m.find(s); if (it == m.end()) return false; r = it->second; return true;
}
inline bool is_bool(const T& t) {
	if (t.h != "(") return t.h == "true" || t.h == "false" || booleans().count(t.h);
	if (t.s.empty()) return false; const std::string& o = t.s[0].h; Relation r;
	return o == "and" || o == "or" || o == "xor" || o == "=>" || o == "not" || (o == "ite" && t.s.size() == 4 && is_bool(t.s[2])) || rel_of(o, r);
}
inline bool truth(const T& t, const Env& e) { // SMT-LIB core and arithmetic relations
	if (t.h != "(") { if (t.h == "true") return true; if (t.h == "false") return false; auto it = booleans().find(t.h); if (it == booleans().end()) throw Bad{"unknown Boolean " + t.h}; return e.b[it->second]; }
	if (t.s.size() < 2) throw Bad{"no formula: " + text(t)};
	const std::string& o = t.s[0].h; Relation r;
	if (rel_of(o, r) && o != "!=" && o != "<>" && o != "/=") {
		if (t.s.size() < 3) throw Bad{"too few operands: " + text(t)};
		if (is_bool(t.s[1])) { if (o != "=") throw Bad{"order of Booleans"}; for (std::size_t i = 2; i < t.s.size(); ++i) if (truth(t.s[1], e) != truth(t.s[i], e)) return false; return true; }
		bool all = true; for (std::size_t i = 1; i + 1 < t.s.size(); ++i) all = holds(Q(rp::eval(poly(t.s[i], reals()), e.x) - rp::eval(poly(t.s[i + 1], reals()), e.x)), r) && all; return all;
	}
	std::vector<bool> v; for (std::size_t i = 1; i < t.s.size(); ++i) v.push_back(truth(t.s[i], e));
	if (o == "not") { if (v.size() != 1) throw Bad{"operands of not"}; return !v[0]; }
	if (o == "and") return combine(FormulaType::AND, v); if (o == "or") return combine(FormulaType::OR, v);
	if (v.size() < 2) throw Bad{"too few operands: " + text(t)};
	if (o == "xor") return combine(FormulaType::XOR, v);
	if (o == "=>") { bool x = v.back(); for (std::size_t i = v.size() - 1; i-- > 0;) x = !v[i] || x; return x; }
	if (o == "ite") { if (v.size() != 3) throw Bad{"operands of ite"}; return v[0] ? v[1] : v[2]; }
	throw Bad{"unknown connective " + o};
}

// Infix text. A factor may follow another without a sign when `juxtaposed`.
struct Infix {
	std::vector<std::string> t; std::size_t i = 0; const Names& v; bool juxtaposed;
	Infix(const std::string& s, const Names& names, bool j = false) : t(tokens(s, false)), v(names), juxtaposed(j) {}
	bool at(const std::string& s) const { return i < t.size() && t[i] == s; }
	bool take(const std::string& s) { if (!at(s)) return false; ++i; return true; }
	void need(const std::string& s) { if (!take(s)) throw Bad{"expected " + s + " at " + (i < t.size() ? t[i] : "the end")}; }
	bool starts() const { return i < t.size() && (t[i] == "(" || v.count(t[i]) || std::isdigit((unsigned char)t[i][0])); }
	P primary() {
		if (i >= t.size()) throw Bad{"unexpected end"};
		if (take("(")) { P r = sum(); need(")"); return r; }
		if (take("-")) return -primary();
		auto it = v.find(t[i]); if (it != v.end()) { ++i; return rp::mono(it->second); }
		return P(number(t[i++]));
	}
	P power() {
		P r = primary();
		while (take("^")) { if (i >= t.size()) throw Bad{"no exponent"}; Q e = number(t[i++]); if (e.get_den() != 1 || e > 60) throw Bad{"exponent"}; r = rp::pow(r, unsigned(e.get_num().get_ui())); }
		return r;
	}
	P product() {
		bool neg = false; while (take("-")) neg = !neg;
		P r = power();
		for (;;) {
			if (take("*")) r = r * power();
			else if (take("/")) { Q d = constant(power()); if (d == 0) throw Bad{"division by zero"}; r = rp::scale(r, Q(1 / d)); }
			else if (juxtaposed && starts()) r = r * power();
			else return neg ? -r : r;
		}
	}
	P sum() { P r = product(); for (;;) { if (take("+")) r = r + product(); else if (take("-")) r = r - product(); else return r; } }
	P all() { P r = sum(); if (i != t.size()) throw Bad{"rest of the text: " + t[i]}; return r; }
	// formulas
	N operand() {
		if (i >= t.size()) throw Bad{"unexpected end"};
		if (take("true")) { N n; n.t = FormulaType::TRUE; return n; }
		if (take("false")) { N n; n.t = FormulaType::FALSE; return n; }
		auto b = booleans().find(t[i]); if (b != booleans().end()) { ++i; return atom_bool(b->second); }
		if (take("!") || take("~") || take("not")) return node(FormulaType::NOT, {operand()});
		std::size_t at0 = i;
		if (take("[")) { N n = chain(); need("]"); return n; }
		try { P l = sum(); Relation r; if (i >= t.size() || !rel_of(t[i], r)) throw Bad{"no relation"}; ++i; P q = sum(); return atom_con(l - q, r); }
		catch (const Bad&) { i = at0; if (!take("(")) throw; N n = chain(); need(")"); return n; }
	}
	N chain() {
		std::vector<N> s{operand()}; std::string op;
		static const std::map<std::string, FormulaType> m{{"and", FormulaType::AND}, {"/\\", FormulaType::AND}, {"or", FormulaType::OR}, {"\\/", FormulaType::OR}, {"xor", FormulaType::XOR}, {"=", FormulaType::IFF}, {"iff", FormulaType::IFF}, {"<==>", FormulaType::IFF}, {"=>", FormulaType::IMPLIES}, {"==>", FormulaType::IMPLIES}, {"ite", FormulaType::ITE}};
		while (i < t.size() && m.count(t[i])) { if (!op.empty() && t[i] != op) throw Bad{"mixed connectives without parentheses"}; op = t[i++]; s.push_back(operand()); }
		if (op.empty()) return s[0];
		FormulaType ty = m.at(op);
		if ((ty == FormulaType::IMPLIES && s.size() != 2) || (ty == FormulaType::ITE && s.size() != 3)) throw Bad{"number of operands"};
		return node(ty, s);
	}
	N formula() { N n = chain(); if (i != t.size()) throw Bad{"rest of the text: " + t[i]}; return n; }
};
template<typename X> std::string str(const X& x) { std::ostringstream os; os << x; return os.str(); }
}
