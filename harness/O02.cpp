// O02: text that is read as polynomials, rational functions, formulas, clause files and pseudo-Boolean files means what it says.
#include "rd.h"
#include <carl-extpolys/RationalFunction.h>
#include <carl-io/DIMACSImporter.h>
#include <carl-io/OPBImporter.h>
#include <carl/util/parser/Parser.h>
#include <carl/util/stringparser.h>
#include <fstream>
#include <unistd.h>
using namespace fm;
using rd::Bad; using rd::Infix; using rd::str;
using MP = CP;

// The names given to the variables with index 0, 1, 2.
struct Namer { const char* n[3]; rd::Names idx; };
static const Namer& namer(std::size_t i) {
	static const std::vector<Namer> all = [] { std::vector<Namer> r{{{"x", "y", "z"}, {}}, {{"x", "x1", "x10"}, {}}, {{"alpha", "a", "b_2"}, {}}}; for (auto& k : r) for (std::size_t j = 0; j < 3; ++j) k.idx[k.n[j]] = j; return r; }();
	return all[i];
}
static P by_name(const MP& p, const rd::Names& idx) {
	P r;
	for (auto& t : p) { Exp e{}; if (t.monomial()) for (auto& ve : *t.monomial()) { auto it = idx.find(ve.first.name()); CHK(it != idx.end(), "unexpected variable " << ve.first.name()); CHK(e[it->second] == 0, "a variable twice in a monomial"); e[it->second] = unsigned(ve.second); } CHK(r.at(e) == 0 && t.coeff() != 0, "not in normal form: " << p); r.add(e, t.coeff()); }
	return r;
}
static std::string spaces(pbt::Ctx& c) { return c.chance(1, 3) ? (c.coin() ? " " : "  ") : ""; }

// Sums of terms: coefficients in parentheses or not, factors in any order.
static std::string coefficient(pbt::Ctx& c, const Q& q, bool slash) {
	std::string s = str(q); if (!slash) s = q.get_num().get_str();
	return q < 0 ? (c.coin() ? "(" + s + ")" : s) : c.chance(1, 4) ? "(" + s + ")" : s;
}
static std::string sum_text(pbt::Ctx& c, const Namer& nm, P& want, bool slash) {
	std::size_t k = 1 + c.draw(4); std::string s; want = P();
	for (std::size_t i = 0; i < k; ++i) {
		std::vector<std::string> fs; Q q(1); Exp e{};
		for (std::size_t v = 0; v < 3; ++v) if (c.coin()) { unsigned x = unsigned(c.draw(5)); if (x == 1 && c.coin()) fs.push_back(nm.n[v]); else fs.push_back(std::string(nm.n[v]) + "^" + std::to_string(x)); e[v] = x; }
		if (fs.empty() || c.coin()) { q = gen::small_rational(c, 9, 4); if (!slash) q = Q(q.get_num()); fs.push_back(coefficient(c, q, slash)); }
		if (c.chance(1, 8)) { Q q2(long(c.range(-3, 3))); q *= q2; fs.push_back(coefficient(c, q2, slash)); }
		for (std::size_t j = fs.size(); j > 1; --j) std::swap(fs[j - 1], fs[c.idx(j)]);
		if (i) s += spaces(c) + "+" + spaces(c); for (std::size_t j = 0; j < fs.size(); ++j) s += (j ? "*" : "") + fs[j];
		want.add(e, q);
	}
	return s;
}
static carl::StringParser& sums(std::size_t i) { static std::vector<carl::StringParser> v = [] { std::vector<carl::StringParser> r(3); for (std::size_t j = 0; j < 3; ++j) r[j].setVariables({namer(j).n[0], namer(j).n[1], namer(j).n[2]}); return r; }(); return v[i]; }
LAW(sums_of_terms, 12000, 240000) {
	std::size_t i = c.idx(3); const Namer& nm = namer(i); P want; std::string s = sum_text(c, nm, want, true); c.in("text", s); c.nontrivial(want.t.size() > 1);
	CHK(by_name(sums(i).parseMultivariatePolynomial<Q>(s), nm.idx) == want, "'" << s << "' read as " << sums(i).parseMultivariatePolynomial<Q>(s));
	if (s.find('+') == std::string::npos) { auto t = sums(i).parseTerm<Q>(s); CHK(by_name(MP(t), nm.idx) == want, "'" << s << "' read as the term " << t); }
	P nu, de; std::string a = sum_text(c, nm, nu, false), b = sum_text(c, nm, de, false); c.in("numerator", a); c.in("denominator", b);
	try { auto r = sums(i).parseRationalFunction<Q>(a + "/" + b); CHK(!de.zero(), "a zero denominator is accepted"); P n2 = by_name(r.nominator(), nm.idx), d2 = by_name(r.denominator(), nm.idx); CHK(n2 * de == nu * d2, "rational function " << r); }
	catch (const carl::InvalidInputStringException&) { CHK(de.zero(), "a rational function is rejected"); }
	auto r = sums(i).parseRationalFunction<Q>(a); CHK(by_name(r.nominator(), nm.idx) == nu * by_name(r.denominator(), nm.idx), "rational function without denominator");
	{ bool refused = false; try { auto t = sums(i).parseRationalFunction<Q>(a + "/" + b + "/" + (c.coin() ? a : b)); (void)t; } catch (const carl::InvalidInputStringException&) { refused = true; } CHK(refused, "two divisions are accepted"); }
	CHK_EQ(sums(i).variables().size(), std::size_t(3), "number of variables");
}
// What a text means as a sum of terms; nothing when it means nothing.
static bool numeral(std::string s, Q& q) {
	if (s.size() >= 2 && s.front() == '(' && s.back() == ')') s = s.substr(1, s.size() - 2);
	Q r; if (!carl::try_parse<Q>(s, r)) return false; q = r; return true; // reading of numbers is judged on its own
}
static bool meaning(const std::string& s, const Namer& nm, P& want) {
	want = P(); std::vector<std::string> ts(1); for (char ch : s) if (ch == '+') ts.emplace_back(); else ts.back() += ch;
	for (auto t : ts) {
		while (!t.empty() && t.front() == ' ') t.erase(0, 1); while (!t.empty() && t.back() == ' ') t.pop_back();
		std::vector<std::string> fs(1); for (char ch : t) if (ch == '*') fs.emplace_back(); else fs.back() += ch;
		Q q(1); Exp e{}; std::set<std::size_t> seen;
		for (auto& f : fs) {
			std::size_t h = f.find('^'); std::string base = f.substr(0, h); auto it = nm.idx.find(base); unsigned x = 1;
			if (h != std::string::npos) { std::string y = f.substr(h + 1); if (y.empty() || y.size() > 9 || it == nm.idx.end()) return false; for (std::size_t k = 0; k < y.size(); ++k) if (!std::isdigit((unsigned char)y[k]) && !(k == 0 && y[k] == '+' && y.size() > 1)) return false; x = unsigned(std::stoul(y)); }
			if (it != nm.idx.end()) { if (x > 0 && !seen.insert(it->second).second) return false; e[it->second] += x; } else { Q r; if (!numeral(f, r)) return false; q *= r; }
		}
		want.add(e, q);
	}
	return true;
}
LAW(broken_sums, 12000, 240000) {
	std::size_t i = c.idx(3); const Namer& nm = namer(i); P want; std::string s;
	if (c.coin()) { s = sum_text(c, nm, want, true); unsigned k = 1 + unsigned(c.draw(2)); for (unsigned j = 0; j < k; ++j) { std::size_t at = c.idx(s.size() + 1); static const char CH[] = "xyz10^*+-()/. 2a"; if (c.coin() && at < s.size()) s.erase(at, 1); else s.insert(at, 1, CH[c.idx(sizeof CH - 1)]); } }
	else { unsigned k = unsigned(c.draw(9)); static const char* T[] = {"x", "y", "^", "*", "+", "-", "(", ")", "2", "3", " ", "/", "x1", "alpha", "0"}; for (unsigned j = 0; j < k; ++j) s += T[c.idx(15)]; }
	c.in("text", s); bool ok = meaning(s, nm, want); c.label_if(ok, "meaningful"); c.nontrivial(s.size() > 2);
	try { MP p = sums(i).parseMultivariatePolynomial<Q>(s); CHK(ok, "'" << s << "' is read as " << p); CHK(by_name(p, nm.idx) == want, "'" << s << "' is read as " << p); }
	catch (const carl::InvalidInputStringException& e) { CHK(!ok, "'" << s << "' is rejected: " << e.what()); }
}
// The grammar of polynomials.
struct Texts {
	pbt::Ctx& c; const Namer& nm;
	P atom(std::string& s, unsigned depth) {
		switch (c.weighted({4, 3, 2, depth ? 3u : 0u})) {
			case 0: { std::size_t v = c.idx(3); s += nm.n[v]; if (c.chance(1, 3)) { unsigned x = unsigned(c.draw(4)) + 1; s += spaces(c) + "^" + spaces(c) + std::to_string(x); return rp::mono(v, x); } return rp::mono(v); }
			case 1: { long n = long(c.range(0, 12)); s += std::to_string(n); return P(Q(n)); }
			case 2: { std::string t = std::to_string(c.draw(20)) + "." + std::to_string(c.draw(100)); s += t; return P(rd::number(t)); }
			default: { s += "(" + spaces(c); P r = sum(s, depth - 1); s += spaces(c) + ")"; return r; }
		}
	}
	P signed_atom(std::string& s, unsigned depth) { if (c.chance(1, 6)) { s += "-" + spaces(c); return -atom(s, depth); } return atom(s, depth); }
	P product(std::string& s, unsigned depth) { P r = signed_atom(s, depth); std::size_t k = c.draw(3); for (std::size_t i = 0; i < k; ++i) { s += spaces(c) + "*" + spaces(c); r = r * signed_atom(s, depth); } return r; }
	P sum(std::string& s, unsigned depth) { P r = product(s, depth); std::size_t k = c.draw(3); for (std::size_t i = 0; i < k; ++i) { bool add = c.coin(); s += spaces(c) + (add ? "+" : "-") + spaces(c); P p = product(s, depth); r = add ? r + p : r - p; } return r; }
};
static carl::parser::Parser<MP>& grammar(std::size_t i) { static std::vector<std::unique_ptr<carl::parser::Parser<MP>>> v = [] { std::vector<std::unique_ptr<carl::parser::Parser<MP>>> r; for (std::size_t j = 0; j < 3; ++j) { r.emplace_back(new carl::parser::Parser<MP>()); for (auto n : namer(j).n) r.back()->addVariable(carl::freshRealVariable(n)); for (std::size_t b = 0; b < NB; ++b) r.back()->addVariable(bools()[b]); } return r; }(); return *v[i]; }
LAW(polynomials, 10000, 200000) {
	std::size_t i = c.idx(3); Texts t{c, namer(i)}; std::string s; P want = t.sum(s, 2); c.in("text", s); c.nontrivial(want.t.size() > 1);
	MP p = grammar(i).polynomial(s); CHK(by_name(p, namer(i).idx) == want, "'" << s << "' read as " << p << ", it is " << want);
	std::string a, b; P nu = t.sum(a, 1), de = t.sum(b, 1); if (de.zero()) { b = "1"; de = P(Q(1)); } c.in("numerator", a); c.in("denominator", b); bool only = c.chance(1, 4); if (only) de = P(Q(1));
	auto r = grammar(i).rationalFunction(only ? a : "(" + a + ")" + spaces(c) + "/" + spaces(c) + "(" + b + ")"); CHK(by_name(r.nominator(), namer(i).idx) * de == nu * by_name(r.denominator(), namer(i).idx), "rational function " << r);
}
LAW(printed_polynomials, 5000, 100000) { // what the library prints can be read back, coefficients being integers
	rp::Shape sh; sh.nvars = 3; sh.maxterms = 5; sh.maxexp = 4; sh.integral = true; P p = rp::poly(c, sh); c.in("polynomial", p); c.nontrivial(p.t.size() > 1); static carl::parser::Parser<MP>* g = [] { auto* r = new carl::parser::Parser<MP>(); for (std::size_t i = 0; i < K; ++i) r->addVariable(rp::vars()[i]); return r; }();
	std::string s = str(rp::to_carl(p)); c.in("text", s); CHK(g->polynomial(s) == rp::to_carl(p), "'" << s << "' read as " << g->polynomial(s));
}
// Formulas over Boolean variables.
static std::string formula_text(pbt::Ctx& c, N& n, unsigned depth) {
	if (depth == 0 || c.chance(1, 4)) { std::size_t b = c.idx(NB); n = atom_bool(b); std::string s = bools()[b].name(); return c.chance(1, 5) ? "(" + spaces(c) + s + spaces(c) + ")" : s; }
	N a, b; std::string l, r;
	switch (c.idx(6)) {
		case 0: { l = formula_text(c, a, depth - 1); n = node(FormulaType::NOT, {a}); return "(" + spaces(c) + (c.coin() ? "not " : "NOT ") + l + spaces(c) + ")"; }
		case 1: { l = formula_text(c, a, depth - 1); r = formula_text(c, b, depth - 1); n = node(FormulaType::IMPLIES, {a, b}); return "(" + l + " IMPLIES " + r + ")"; }
		case 2: { l = formula_text(c, a, depth - 1); r = formula_text(c, b, depth - 1); n = node(FormulaType::IFF, {a, b}); return "(" + l + " iff " + r + ")"; }
		case 3: { l = formula_text(c, a, depth - 1); r = formula_text(c, b, depth - 1); n = node(FormulaType::XOR, {a, b}); return "(" + l + " xor " + r + spaces(c) + ")"; }
		default: { bool con = c.coin(); std::size_t k = 2 + c.draw(3); std::vector<N> s; std::string t = "("; for (std::size_t i = 0; i < k; ++i) { N x; std::string y = formula_text(c, x, depth - 1); s.push_back(x); t += (i ? (con ? " AND " : " OR ") : "") + y; } n = node(con ? FormulaType::AND : FormulaType::OR, s); return t + ")"; }
	}
}
LAW(formulas, 8000, 160000) {
	N n; std::string s = formula_text(c, n, 3); c.in("text", s); c.nontrivial(!n.s.empty()); F f = grammar(0).formula(s);
	for (unsigned m = 0; m < 16; ++m) { Env e; for (std::size_t i = 0; i < NB; ++i) e.b[i] = (m >> i) & 1; CHK_EQ(eval(f, e), eval(n, e), "'" << s << "' read as " << f); }
}
// Files. The variables they create are anonymous: the formulas must agree for one of the ways to name them.
struct File { std::string name; File(const std::string& text, const char* kind) { static unsigned k = 0; name = std::string("o02-") + kind + "-" + std::to_string(::getpid()) + "-" + std::to_string(k++); std::ofstream(name) << text; } ~File() { ::unlink(name.c_str()); } };
static void leaves(const F& f, std::set<carl::Variable>& r) { carl::carlVariables v; f.gatherVariables(v); for (auto x : v) r.insert(x); }
static bool truth(const F& f, const std::map<carl::Variable, bool>& m) {
	switch (f.getType()) {
		case FormulaType::TRUE: return true; case FormulaType::FALSE: return false; case FormulaType::BOOL: return m.at(f.boolean()); case FormulaType::NOT: return !truth(f.subformula(), m);
		case FormulaType::AND: for (auto& s : f.subformulas()) if (!truth(s, m)) return false; return true;
		case FormulaType::OR: for (auto& s : f.subformulas()) if (truth(s, m)) return true; return false;
		case FormulaType::CONSTRAINT: { Q v(0); for (auto& t : f.constraint().lhs()) { Q x = t.coeff(); if (t.monomial()) for (auto& ve : *t.monomial()) if (!m.at(ve.first)) x = 0; v += x; } return holds(v, f.constraint().relation()); }
		default: CHK(false, "unexpected formula " << f); return false;
	}
}
template<typename Same> static bool some_naming(const std::set<carl::Variable>& used, std::size_t n, Same same) { // injective maps of the used variables to 0..n-1
	std::vector<carl::Variable> v(used.begin(), used.end()); std::vector<std::size_t> p(n); for (std::size_t i = 0; i < n; ++i) p[i] = i; if (v.size() > n) return false;
	do { if (same(v, p)) return true; std::reverse(p.begin() + long(v.size()), p.end()); } while (std::next_permutation(p.begin(), p.end()));
	return false;
}
LAW(clause_files, 3000, 60000) {
	std::size_t n = 1 + c.draw(4), k = 1 + c.draw(3); std::string s; std::vector<std::vector<std::vector<long>>> fs(k);
	if (c.coin()) s += "c a comment 1 2 0\n";
	s += "p cnf " + std::to_string(n) + " 9\n";
	for (std::size_t i = 0; i < k; ++i) {
		if (i) { s += "reset\n"; if (c.coin()) s += "p cnf " + std::to_string(n) + " 9\n"; }
		std::size_t m = c.draw(5);
		for (std::size_t j = 0; j < m; ++j) { std::vector<long> cl; std::size_t w = c.chance(1, 12) ? 0 : 1 + c.draw(3); for (std::size_t l = 0; l < w; ++l) { long x = 1 + long(c.idx(n)); cl.push_back(c.coin() ? x : -x); s += std::to_string(cl.back()) + (c.chance(1, 5) ? "  " : " "); } s += "0\n"; fs[i].push_back(cl); if (c.chance(1, 6)) s += "c 1 2 0\n"; if (c.chance(1, 6)) s += "\n"; }
	}
	if (!fs.back().empty() && c.chance(1, 4)) s.pop_back();
	c.in("text", s); c.nontrivial(k > 1 || fs[0].size() > 1); File file(s, "cnf"); carl::DIMACSImporter<MP> im(file.name); std::vector<F> got; std::set<carl::Variable> used;
	for (std::size_t i = 0; i < k; ++i) { CHK(im.hasNext(), "formula " << i << " is missing"); got.push_back(im.next()); leaves(got.back(), used); } CHK(!im.hasNext(), "more formulas than there are");
	auto same = [&](const std::vector<carl::Variable>& v, const std::vector<std::size_t>& p) { for (unsigned m = 0; m < (1u << n); ++m) { std::map<carl::Variable, bool> e; for (std::size_t i = 0; i < v.size(); ++i) e[v[i]] = (m >> p[i]) & 1; for (std::size_t i = 0; i < k; ++i) { bool w = true; for (auto& cl : fs[i]) { bool a = false; for (long l : cl) a = a || (((m >> (std::labs(l) - 1)) & 1) == (l > 0)); w = w && a; } if (w != truth(got[i], e)) return false; } } return true; };
	CHK(some_naming(used, n, same), "read as " << got[0] << " from\n" << s);
}
LAW(pseudo_boolean_files, 3000, 60000) {
	static const char* NM[] = {"x1", "x12", "x", "y_1"}; using T = std::vector<std::pair<long, std::size_t>>; std::string s; std::size_t n = 1 + c.draw(4);
	auto comment = [&] { if (c.chance(1, 6)) s += "* 1 x1 >= 2 ;\n"; };
	auto poly = [&](T& p) { std::size_t k = 1 + c.draw(4); for (std::size_t i = 0; i < k; ++i) { long q = long(c.range(-5, 5)); std::size_t v = c.idx(n); p.emplace_back(q, v); s += (q >= 0 && c.coin() ? "+" : "") + std::to_string(q) + " " + NM[v] + (c.chance(1, 6) ? "  " : " "); } };
	T obj; bool has = c.coin(); comment(); if (has) { s += "min: "; poly(obj); s += ";\n"; }
	std::size_t k = c.draw(4); std::vector<std::tuple<T, Relation, long>> cs; static const char* RN[] = {"=", "!=", "<", "<=", ">", ">="}; static const Relation RV[] = {Relation::EQ, Relation::NEQ, Relation::LESS, Relation::LEQ, Relation::GREATER, Relation::GEQ};
	for (std::size_t i = 0; i < k; ++i) { comment(); T p; poly(p); std::size_t r = c.idx(6); long b = long(c.range(-6, 6)); s += std::string(RN[r]) + " " + std::to_string(b) + (c.coin() ? " ;" : ";") + (c.coin() ? "\n" : " "); cs.emplace_back(p, RV[r], b); }
	c.in("text", s); c.nontrivial(k > 0); File file(s, "opb"); if (!s.empty() && s.back() != '\n' && s.back() != ' ' && s.back() != ';') return;
	{
		std::ifstream in(file.name); auto f = carl::parseOPBFile(in); CHK(f, "not read:\n" << s); CHK_EQ(f->constraints.size(), k, "number of constraints");
		auto cmp = [&](const carl::OPBPolynomial& g, const T& w) { CHK_EQ(g.size(), w.size(), "number of terms"); for (std::size_t i = 0; i < w.size(); ++i) { CHK_EQ(long(g[i].first), w[i].first, "coefficient"); CHK_EQ(g[i].second.name(), std::string(NM[w[i].second]), "variable"); } };
		cmp(f->objective, obj); for (std::size_t i = 0; i < k; ++i) { cmp(std::get<0>(f->constraints[i]), std::get<0>(cs[i])); CHK(std::get<1>(f->constraints[i]) == std::get<1>(cs[i]), "relation"); CHK_EQ(long(std::get<2>(f->constraints[i])), std::get<2>(cs[i]), "right-hand side"); }
	}
	carl::OPBImporter<MP> im(file.name); auto got = im.parse(); CHK(got, "not read:\n" << s); std::set<carl::Variable> used; leaves(got->first, used); carl::carlVariables ov; carl::variables(got->second, ov); for (auto x : ov) used.insert(x);
	auto value = [&](const T& p, unsigned m) { long v = 0; for (auto& t : p) if ((m >> t.second) & 1) v += t.first; return v; };
	auto same = [&](const std::vector<carl::Variable>& v, const std::vector<std::size_t>& p) { for (unsigned m = 0; m < (1u << n); ++m) { std::map<carl::Variable, bool> e; for (std::size_t i = 0; i < v.size(); ++i) e[v[i]] = (m >> p[i]) & 1; bool w = true; for (auto& q : cs) w = w && holds(Q(value(std::get<0>(q), m) - std::get<2>(q)), std::get<1>(q)); if (w != truth(got->first, e)) return false; Q o(0); for (auto& t : got->second) { Q x = t.coeff(); if (t.monomial()) for (auto& ve : *t.monomial()) if (!e.at(ve.first)) x = 0; o += x; } if (o != value(obj, m)) return false; } return true; };
	CHK(some_naming(used, n, same), "read as " << got->first << " with objective " << got->second << " from\n" << s);
}
LAW(missing_files, 200, 2000) {
	std::string n = "o02-missing-" + std::to_string(::getpid()) + "-" + std::to_string(c.draw(1000)); c.in("name", n); c.nontrivial(true); carl::OPBImporter<MP> im(n); CHK(!im.parse(), "a file that does not exist is read");
}
PBT_MAIN("O02", "distinct texts with more than one term, connective, clause or constraint")
