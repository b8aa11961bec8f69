// Uninterpreted sorts, functions, terms and equalities, and formulas and models over them.
#include "rd.h"
#include <carl/formula/SortManager.h>
#include <carl/formula/uninterpreted/UEquality.h>
#include <carl/formula/uninterpreted/UFInstanceManager.h>
#include <carl/formula/uninterpreted/UFManager.h>
#include <carl/formula/helpers/FormulaVisitor.h>
#include <carl/formula/helpers/to_cnf.h>
#include <carl-model/Model.h>
#include <carl-model/evaluation/ModelEvaluation.h>
#include <carl-model/Assignment.h>
#include <carl-model/uninterpreted/SortValueManager.h>
#include <carl-io/SMTLIBStream.h>
using namespace fm;
using T = FormulaType;
using carl::Sort; using carl::UTerm; using carl::UVariable; using carl::UFInstance; using carl::UninterpretedFunction; using carl::UEquality; using carl::SortValue; using carl::UFModel; using carl::VariableType;
using Mod = carl::Model<Q, CP>;

// ------------------------------------------------------------------ sorts
struct RS { std::string n; std::vector<RS> p; std::vector<std::size_t> i; bool operator<(const RS& o) const { return std::tie(n, p, i) < std::tie(o.n, o.p, o.i); } bool operator==(const RS& o) const { return n == o.n && p == o.p && i == o.i; } };
static std::ostream& operator<<(std::ostream& os, const RS& s) { if (!s.i.empty()) os << "(_ "; if (!s.p.empty()) os << "("; os << s.n; for (auto& q : s.p) os << " " << q; if (!s.p.empty()) os << ")"; for (auto k : s.i) os << " " << k; if (!s.i.empty()) os << ")"; return os; }
struct Registry {
	struct Entry { RS r; Sort s; int type; }; // type -1: not judged
	std::vector<Entry> e; std::map<std::string, std::size_t> decl; std::map<std::string, std::pair<std::vector<std::string>, RS>> def; std::map<RS, std::pair<std::size_t, VariableType>> indexable; std::set<VariableType> taken;
	carl::SortManager& m = carl::SortManager::getInstance();
	bool free(const std::string& n) const { if (decl.count(n) || def.count(n)) return false; for (auto& k : e) if (k.r.n == n) return false; return true; }
	const Entry* find(const RS& r) const { for (auto& k : e) if (k.r == r) return &k; return nullptr; }
	// the library returned s for r
	void expect(const RS& r, Sort s, int type, const std::string& op) {
		if (auto k = find(r)) { CHK(k->s == s, op << " gives another sort for " << r); return; }
		CHK(s.id() != 0, op << " gives no sort instead of " << r); for (auto& k : e) CHK(!(k.s == s), op << " gives " << k.r << " instead of " << r);
		e.push_back({r, s, type});
	}
	RS replace(const RS& r, const std::map<std::string, RS>& w) const { auto it = w.find(r.n); if (it != w.end()) return it->second; RS o = r; for (auto& q : o.p) q = replace(q, w); return o; }
	// every sort that appears while rebuilding is created, too
	void made(const RS& r) { for (auto& q : r.p) made(q); if (!find(r)) fresh.push_back(r); }
	std::vector<RS> fresh;
};
static const VariableType VTS[] = {VariableType::VT_BOOL, VariableType::VT_REAL, VariableType::VT_INT, VariableType::VT_BITVECTOR};
LAW(sorts, 6000, 120000) {
	Registry g; g.m.clear(); static const char* NAMES[] = {"A", "B", "C", "D", "E", "List", "Pair"}; std::ostringstream h; std::size_t steps = 4 + c.draw(12); c.nontrivial(true);
	auto name = [&] { return std::string(NAMES[c.idx(7)]); }; auto some = [&]() -> Registry::Entry { return g.e[c.idx(g.e.size())]; };
	auto params = [&](std::size_t k, std::vector<RS>& r, std::vector<Sort>& s) { for (std::size_t i = 0; i < k; ++i) { auto t = some(); r.push_back(t.r); s.push_back(t.s); } };
	auto indices = [&](std::size_t lo) { std::vector<std::size_t> v; std::size_t k = lo + c.draw(2); for (std::size_t i = 0; i < k; ++i) v.push_back(c.draw(3)); return v; };
	auto do_replace = [&](const Registry::Entry& t, const std::map<std::string, RS>& w, Sort got, const std::string& op) { RS r = g.replace(t.r, w); auto k = g.find(r); if (k) CHK(k->s == got, op << " gives " << got << " instead of " << r); else { CHK(got.id() != 0, op << " gives no sort instead of " << r); g.expect(r, got, r.i.empty() ? 0 : -1, op); } };
	for (std::size_t st = 0; st < steps; ++st) {
		std::size_t op = g.e.empty() ? c.draw(2) : c.draw(10);
		if (op <= 1) { std::string n = name(); std::size_t a = g.e.empty() ? 0 : c.draw(3); h << "declare " << n << " " << a << "; "; c.in("history", h.str()); bool f = g.free(n); CHK_EQ(g.m.declare(n, a), f, "declaring " << n); if (f) { g.decl[n] = a; if (a == 0) g.expect(RS{n, {}, {}}, g.m.getSort(n), 0, "declared"); } }
		else if (op == 2) { std::string n = name(); bool f = g.free(n); std::vector<std::string> ps; for (const char* q : {"A", "B", "C"}) if (c.coin()) ps.push_back(q); auto b = some(); h << "define " << n << "("; for (auto& q : ps) h << q << " "; h << ") := " << b.r << "; "; c.in("history", h.str()); CHK_EQ(g.m.define(n, ps, b.s), f, "defining " << n); if (f) g.def[n] = {ps, b.r}; }
		else if (op == 3) { std::string n = name(); if (!g.free(n)) continue; std::vector<RS> rp_; std::vector<Sort> sp; params(c.draw(3), rp_, sp); std::size_t ty = c.draw(5); VariableType vt = ty < 4 ? VTS[ty] : VariableType::VT_UNINTERPRETED; bool interp = ty < 4 && !g.taken.count(vt) && c.coin(); RS r{n, rp_, {}}; h << "add " << r << " of type " << vt << "; "; c.in("history", h.str());
			Sort s = interp ? (sp.empty() ? g.m.addInterpretedSort(n, vt) : g.m.addInterpretedSort(n, sp, vt)) : sp.empty() ? g.m.addSort(n, vt) : g.m.addSort(n, sp, vt); g.expect(r, s, int(vt) + 1, "adding"); if (interp) { g.taken.insert(vt); CHK(g.m.getInterpreted(vt) == s, "sort of type " << vt); } }
		else if (op == 4) { std::string n = name(); h << "get " << n << "; "; c.in("history", h.str()); Sort s = c.coin() ? g.m.getSort(n) : carl::getSort(n); auto d = g.def.find(n); const Registry::Entry* k = d != g.def.end() && d->second.first.empty() ? g.find(d->second.second) : g.find(RS{n, {}, {}}); CHK_EQ(s.id(), k ? k->s.id() : std::size_t(0), "sort " << n); }
		else if (op <= 6) { std::string n = name(); auto d = g.def.find(n); auto q = g.decl.find(n); std::size_t k = 1 + c.draw(3); if (c.chance(3, 4)) { if (d != g.def.end()) k = d->second.first.size(); else if (q != g.decl.end()) k = q->second; } if (k == 0) continue; std::vector<RS> rp_; std::vector<Sort> sp; params(k, rp_, sp); RS r{n, rp_, {}}; auto ix = c.chance(1, 4) ? indices(1) : std::vector<std::size_t>();
			if (d == g.def.end() && q == g.decl.end() && !g.free(n)) continue;
			bool ok = d != g.def.end() ? d->second.first.size() == k : q != g.decl.end() && q->second == k; if (!ok) ix.clear(); h << "get " << r << (ix.empty() ? "" : " indexed") << "; "; c.in("history", h.str());
			Sort s = g.m.getSort(n, sp);
			if (!ok) CHK_EQ(s.id(), std::size_t(0), "sort " << r);
			else if (q != g.decl.end()) g.expect(r, s, 0, "instantiating");
			else { std::map<std::string, RS> w; for (std::size_t i = 0; i < k; ++i) w[d->second.first[i]] = rp_[i]; RS body = d->second.second; do_replace(*g.find(body), w, s, "instantiating"); }
			if (ok && !ix.empty()) { Sort t = g.m.getSort(n, ix, sp); CHK(t == g.m.index(s, ix), "indexed instance"); for (auto& u : g.e) if (u.s == s) { RS v = u.r; v.i.insert(v.i.end(), ix.begin(), ix.end()); g.expect(v, t, -1, "indexing"); break; } } }
		else if (op == 7) { auto t = some(); auto ix = indices(0); RS r = t.r; r.i.insert(r.i.end(), ix.begin(), ix.end()); h << "index " << t.r; for (auto i : ix) h << " " << i; h << "; "; c.in("history", h.str()); RS base = t.r; base.i.clear(); int ty = 0; auto it = g.indexable.find(base); if (it != g.indexable.end() && it->second.first == r.i.size()) ty = int(it->second.second) + 1; Sort s = t.r.p.empty() && t.r.i.empty() && !g.def.count(t.r.n) && !ix.empty() && c.coin() ? g.m.getSort(t.r.n, ix) : g.m.index(t.s, ix); g.expect(r, s, ty, "indexing"); }
		else if (op == 8) { auto t = some(); std::map<std::string, RS> w; std::map<std::string, Sort> ws; std::size_t k = 1 + c.draw(2); h << "replace in " << t.r; for (std::size_t i = 0; i < k; ++i) { auto u = some(); std::string n = c.chance(3, 4) ? some().r.n : name(); w[n] = u.r; ws[n] = u.s; h << " " << n << ":=" << u.r; } h << "; "; c.in("history", h.str()); Sort s = g.m.replace(t.s, ws); do_replace(t, w, s, "replacing"); }
		else { auto t = some(); if (!t.r.i.empty()) continue; std::size_t k = 1 + c.draw(2); VariableType vt = VTS[c.idx(4)]; h << "indexable " << t.r << " " << k << " " << vt << "; "; c.in("history", h.str()); g.m.makeSortIndexable(t.s, k, vt); g.indexable[t.r] = {k, vt}; }
		// nested sorts that a replacement made on the way exist now, too: they are found again below
		for (auto& k : g.e) {
			CHK(g.m.getName(k.s) == k.r.n, "name of " << k.r); CHK_EQ(g.m.getArity(k.s), k.r.p.size(), "arity of " << k.r); CHK_EQ(k.s.arity(), k.r.p.size(), "arity of " << k.r);
			auto ps = g.m.getParameters(k.s); CHK_EQ(ps == nullptr, k.r.p.empty(), "parameters of " << k.r); auto ix = g.m.getIndices(k.s); CHK_EQ(ix == nullptr, k.r.i.empty(), "indices of " << k.r); if (ix) CHK(*ix == k.r.i, "indices of " << k.r);
			if (ps) for (std::size_t i = 0; i < ps->size(); ++i) { CHK_EQ(rd::str((*ps)[i]), rd::str(k.r.p[i]), "parameter of " << k.r); if (auto q = g.find(k.r.p[i])) CHK(q->s == (*ps)[i], "parameter of " << k.r); }
			CHK_EQ(rd::str(k.s), rd::str(k.r), "printed"); if (k.type >= 0) { VariableType want = k.type == 0 ? VariableType::VT_UNINTERPRETED : VariableType(k.type - 1); CHK_EQ(g.m.getType(k.s), want, "type of " << k.r); CHK_EQ(g.m.isInterpreted(k.s), want != VariableType::VT_UNINTERPRETED, "interpreted " << k.r); }
			for (auto& o : g.e) { CHK_EQ(k.s == o.s, k.r == o.r, "equality of " << k.r << " and " << o.r); CHK_EQ(k.s != o.s, !(k.r == o.r), "difference of " << k.r << " and " << o.r); CHK_EQ((k.s < o.s) + (o.s < k.s), k.r == o.r ? 0 : 1, "order of " << k.r << " and " << o.r); if (k.s == o.s) CHK_EQ(std::hash<Sort>()(k.s), std::hash<Sort>()(o.s), "hash"); }
		}
	}
	std::ostringstream os; g.m.exportDefinitions(os); std::map<std::string, std::size_t> seen; for (auto& t : rd::sexps(os.str())) if (t.s.size() == 3 && t.s[0].h == "declare-sort") { CHK(!seen.count(t.s[1].h), "declared twice: " << t.s[1].h); seen[t.s[1].h] = std::stoul(t.s[2].h); } CHK(seen == g.decl, "exported declarations " << os.str());
}

// ------------------------------------------------------------------ terms
constexpr std::size_t NS = 3, NV = 3, NVAL = 3, NF = 6;
struct World {
	std::vector<Sort> s; std::vector<std::vector<UVariable>> v; std::vector<std::vector<SortValue>> val; std::vector<UninterpretedFunction> f;
	std::vector<std::vector<std::size_t>> dom{{0}, {0}, {1, 0}, {2}, {0, 1, 2}, {1, 1}}; std::vector<std::size_t> cod{0, 1, 0, 2, 1, 0}; std::vector<std::string> fn{"f", "g", "h", "f", "k", "h"}; // some share names
};
static World& world() {
	static World w = [] { World r; auto& m = carl::SortManager::getInstance(); static const char* SN[] = {"S", "T", "Box"};
		m.clear(); for (std::size_t i = 0; i < 2; ++i) { m.declare(SN[i], 0); r.s.push_back(m.getSort(SN[i])); } m.declare("Box", 1); r.s.push_back(m.getSort("Box", std::vector<Sort>{r.s[0]}));
		for (std::size_t i = 0; i < NS; ++i) { r.v.emplace_back(); r.val.emplace_back(); for (std::size_t k = 0; k < NV; ++k) r.v[i].emplace_back(carl::freshVariable(std::string(1, "stb"[i]) + std::to_string(k), VariableType::VT_UNINTERPRETED), r.s[i]); for (std::size_t k = 0; k < NVAL; ++k) r.val[i].push_back(carl::newSortValue(r.s[i])); }
		for (std::size_t i = 0; i < NF; ++i) { std::vector<Sort> d; for (auto k : r.dom[i]) d.push_back(r.s[k]); r.f.push_back(carl::newUninterpretedFunction(r.fn[i], d, r.s[r.cod[i]])); }
		return r; }();
	return w;
}
struct RT { bool var = true; std::size_t i = 0, k = 0; std::vector<RT> a; std::size_t sort() const { return var ? i : world().cod[i]; } bool operator==(const RT& o) const { return var == o.var && i == o.i && k == o.k && a == o.a; } };
static std::ostream& operator<<(std::ostream& os, const RT& t) { if (t.var) return os << "stb"[t.i] << t.k; os << world().fn[t.i] << t.i << "("; for (std::size_t j = 0; j < t.a.size(); ++j) os << (j ? "," : "") << t.a[j]; return os << ")"; }
static RT gen_term(pbt::Ctx& c, std::size_t sort, unsigned depth) {
	auto& w = world(); RT t; t.i = sort;
	if (depth == 0 || c.coin()) { t.k = c.idx(NV); return t; }
	std::vector<std::size_t> fs; for (std::size_t i = 0; i < NF; ++i) if (w.cod[i] == sort) fs.push_back(i);
	t.var = false; t.i = fs[c.idx(fs.size())]; for (auto d : w.dom[t.i]) t.a.push_back(gen_term(c, d, depth - 1)); return t;
}
static UTerm to_carl(pbt::Ctx& c, const RT& t) {
	auto& w = world(); if (t.var) return UTerm(w.v[t.i][t.k]);
	std::vector<UTerm> a; for (auto& q : t.a) a.push_back(to_carl(c, q));
	if (c.coin()) return UTerm(carl::newUFInstance(w.f[t.i], a)); return UTerm(carl::newUFInstance(w.f[t.i], std::move(a)));
}
static std::size_t size(const RT& t) { std::size_t r = 1; for (auto& q : t.a) r += size(q); return r; }
static void used(const RT& t, std::set<Variable>& v, std::set<std::size_t>& f) { if (t.var) v.insert(world().v[t.i][t.k].variable()); else f.insert(t.i); for (auto& q : t.a) used(q, v, f); }
static std::string plain(const RT& t) { if (t.var) return std::string(1, "stb"[t.i]) + std::to_string(t.k); std::string s = world().fn[t.i] + "("; for (std::size_t j = 0; j < t.a.size(); ++j) s += (j ? ", " : "") + plain(t.a[j]); return s + ")"; }

LAW(functions, 6000, 120000) {
	auto& w = world(); struct D { std::string n; std::vector<std::size_t> d; std::size_t cod; bool operator==(const D& o) const { return n == o.n && d == o.d && cod == o.cod; } }; std::vector<D> ds; std::vector<UninterpretedFunction> fs; std::ostringstream h;
	std::size_t k = 2 + c.draw(5); for (std::size_t i = 0; i < k; ++i) { static const char* FN[] = {"f", "g", "p"}; D d{FN[c.idx(3)], {}, c.idx(NS)}; std::size_t n = c.draw(4); for (std::size_t j = 0; j < n; ++j) d.d.push_back(c.idx(NS)); if (i && c.chance(1, 4)) { d = ds[c.idx(i)]; if (c.coin()) d.cod = c.idx(NS); } h << d.n << "("; for (auto j : d.d) h << j; h << ")" << d.cod << " "; std::vector<Sort> dom; for (auto j : d.d) dom.push_back(w.s[j]); ds.push_back(d); fs.push_back(carl::newUninterpretedFunction(d.n, dom, w.s[d.cod])); }
	c.in("functions", h.str()); c.nontrivial(true);
	for (std::size_t i = 0; i < k; ++i) {
		CHK(fs[i].name() == ds[i].n && fs[i].codomain() == w.s[ds[i].cod] && fs[i].domain().size() == ds[i].d.size(), "function " << fs[i]); for (std::size_t j = 0; j < ds[i].d.size(); ++j) CHK(fs[i].domain()[j] == w.s[ds[i].d[j]], "domain of " << fs[i]);
		for (std::size_t j = 0; j < k; ++j) { CHK_EQ(fs[i] == fs[j], ds[i] == ds[j], "equality of " << fs[i] << " and " << fs[j]); CHK_EQ((fs[i] < fs[j]) + (fs[j] < fs[i]), ds[i] == ds[j] ? 0 : 1, "order of " << fs[i] << " and " << fs[j]); if (fs[i] == fs[j]) CHK_EQ(std::hash<UninterpretedFunction>()(fs[i]), std::hash<UninterpretedFunction>()(fs[j]), "hash"); }
	}
}
LAW(terms, 8000, 160000) {
	std::vector<RT> r; std::size_t sort = c.idx(NS); for (int i = 0; i < 3; ++i) r.push_back(gen_term(c, sort, 3)); if (c.chance(1, 3)) r[1] = r[0]; if (c.chance(1, 6)) r[2] = gen_term(c, c.idx(NS), 2); auto& w = world();
	c.in("a", r[0]); c.in("b", r[1]); c.in("c", r[2]); c.nontrivial(!r[0].var || !r[1].var); std::vector<UTerm> t; for (auto& x : r) t.push_back(to_carl(c, x));
	for (std::size_t i = 0; i < 3; ++i) {
		CHK_EQ(t[i].isUVariable(), r[i].var, "kind of term"); CHK_EQ(t[i].isUFInstance(), !r[i].var, "kind of term"); CHK(t[i].domain() == w.s[r[i].sort()], "sort of " << t[i]); CHK_EQ(t[i].complexity(), size(r[i]), "size of " << t[i]); CHK_EQ(rd::str(t[i]), plain(r[i]), "printed");
		if (r[i].var) CHK(t[i].asUVariable() == w.v[r[i].i][r[i].k] && t[i].asUVariable().variable() == w.v[r[i].i][r[i].k].variable() && t[i].asUVariable().domain() == w.s[r[i].i], "variable"); else { UFInstance u = t[i].asUFInstance(); CHK(u.uninterpretedFunction() == w.f[r[i].i], "function of " << t[i]); CHK_EQ(u.args().size(), r[i].a.size(), "arguments of " << t[i]); for (std::size_t j = 0; j < u.args().size(); ++j) CHK(u.args()[j] == to_carl(c, r[i].a[j]), "argument of " << t[i]); CHK_EQ(u.complexity(), size(r[i]), "size of " << t[i]); }
		std::set<Variable> v; std::set<std::size_t> f; used(r[i], v, f); carl::carlVariables gv; t[i].gatherVariables(gv); std::set<Variable> got(gv.begin(), gv.end()); CHK(got == v, "variables of " << t[i]); std::set<UninterpretedFunction> gf, ef; t[i].gatherUFs(gf); for (auto q : f) ef.insert(w.f[q]); CHK(gf == ef, "functions of " << t[i]);
		for (std::size_t j = 0; j < 3; ++j) { bool eq = r[i] == r[j]; CHK_EQ(t[i] == t[j], eq, "equality of " << t[i] << " and " << t[j]); CHK_EQ(t[i] != t[j], !eq, "difference of " << t[i] << " and " << t[j]); CHK_EQ((t[i] < t[j]) + (t[j] < t[i]), eq ? 0 : 1, "order of " << t[i] << " and " << t[j]); if (eq) CHK_EQ(std::hash<UTerm>()(t[i]), std::hash<UTerm>()(t[j]), "hash"); for (std::size_t k = 0; k < 3; ++k) if (t[i] < t[j] && t[j] < t[k]) CHK(t[i] < t[k], "order is not transitive"); }
	}
	// equalities
	if (r[0].sort() != r[2].sort()) return; bool n = c.coin();
	UEquality e(t[0], t[1], n), s(t[1], t[0], n), d(t[0], t[1], !n), o(t[0], t[2], n);
	CHK(e == s && !(e != s) && !(e < s) && !(s < e), "an equality is symmetric"); CHK_EQ(std::hash<UEquality>()(e), std::hash<UEquality>()(s), "hash"); CHK_EQ(e.negated(), n, "negated"); CHK((e.lhs() == t[0] && e.rhs() == t[1]) || (e.lhs() == t[1] && e.rhs() == t[0]), "sides");
	CHK(e.negation() == d && e.negation() != e && e.negation().negation() == e && UEquality(e, true) == d && UEquality(e, false) == e, "negation"); CHK_EQ(e.complexity(), 1 + size(r[0]) + size(r[1]), "size"); CHK_EQ((e < d) + (d < e), 1, "order of negation");
	CHK_EQ(e == o, r[1] == r[2] || (r[0] == r[1] && r[0] == r[2]), "equality with another one"); CHK_EQ((e < o) + (o < e), e == o ? 0 : 1, "order with another one");
	std::set<Variable> v; std::set<std::size_t> f; used(r[0], v, f); used(r[1], v, f); carl::carlVariables gv; e.gatherVariables(gv); std::set<Variable> got(gv.begin(), gv.end()); CHK(got == v, "variables"); std::set<UVariable> gu; e.gatherUVariables(gu); CHK_EQ(gu.size(), v.size(), "uninterpreted variables"); for (auto& u : gu) CHK(v.count(u.variable()), "uninterpreted variable " << u); std::set<UninterpretedFunction> gf, ef; e.gatherUFs(gf); for (auto q : f) ef.insert(w.f[q]); CHK(gf == ef, "functions");
	CHK_EQ(carl::UFInstanceManager::argsCorrect(carl::UFInstanceContent(w.f[2], {t[0], t[1]})), r[0].sort() == 1 && r[1].sort() == 0, "arguments fit");
}

// ------------------------------------------------------------------ formulas and models
struct RN { T t = T::UEQ; std::size_t b = 0; RT l, r; bool neg = false; std::vector<RN> s; };
static std::ostream& operator<<(std::ostream& os, const RN& n) { switch (n.t) { case T::UEQ: return os << n.l << (n.neg ? "!=" : "=") << n.r; case T::BOOL: return os << "abcd"[n.b]; case T::TRUE: return os << "true"; case T::FALSE: return os << "false"; default: break; } os << "(" << n.t; for (auto& k : n.s) os << " " << k; return os << ")"; }
static RN gen_formula(pbt::Ctx& c, unsigned depth, std::vector<RN>& seen) {
	RN n; if (!seen.empty() && c.chance(1, 4)) return seen[c.idx(seen.size())];
	if (depth == 0 || c.chance(1, 4)) { switch (c.weighted({8, 2, 1})) { case 0: { std::size_t s = c.idx(NS); n.l = gen_term(c, s, 2); n.r = c.chance(1, 10) ? n.l : gen_term(c, s, 2); n.neg = c.chance(1, 3); break; } case 1: n.t = T::BOOL; n.b = c.idx(NB); break; default: n.t = c.coin() ? T::TRUE : T::FALSE; } seen.push_back(n); return n; }
	static const T OPS[] = {T::NOT, T::AND, T::OR, T::XOR, T::IFF, T::IMPLIES, T::ITE}; n.t = OPS[c.idx(7)]; std::size_t k = n.t == T::NOT ? 1 : n.t == T::IMPLIES ? 2 : n.t == T::ITE ? 3 : 2 + c.draw(2);
	for (std::size_t i = 0; i < k; ++i) n.s.push_back(gen_formula(c, depth - 1, seen)); seen.push_back(n); return n;
}
static F to_carl(pbt::Ctx& c, const RN& n) {
	switch (n.t) { case T::TRUE: case T::FALSE: return F(n.t); case T::BOOL: return F(bools()[n.b]); case T::UEQ: { UTerm l = to_carl(c, n.l), r = to_carl(c, n.r); if (l == r || c.coin()) return F(l, r, n.neg); return F(UEquality(l, r, n.neg)); } default: break; }
	std::vector<F> s; for (auto& k : n.s) s.push_back(to_carl(c, k)); if (n.t == T::NOT) return F(T::NOT, s[0]); return F(n.t, s);
}
struct UEnv { std::array<bool, NB> b{}; std::size_t v[NS][NV]; std::vector<std::vector<std::size_t>> tab; };
static UEnv gen_env(pbt::Ctx& c) { UEnv e; auto& w = world(); for (auto& x : e.b) x = c.coin(); for (auto& r : e.v) for (auto& x : r) x = c.idx(NVAL); for (std::size_t i = 0; i < NF; ++i) { std::size_t n = 1; for (std::size_t k = 0; k < w.dom[i].size(); ++k) n *= NVAL; std::vector<std::size_t> t; for (std::size_t k = 0; k < n; ++k) t.push_back(c.idx(NVAL)); e.tab.push_back(t); } return e; }
static std::size_t value(const RT& t, const UEnv& e) { if (t.var) return e.v[t.i][t.k]; std::size_t at = 0; for (auto& q : t.a) at = at * NVAL + value(q, e); return e.tab[t.i][at]; }
static bool eval(const RN& n, const UEnv& e) { switch (n.t) { case T::TRUE: return true; case T::FALSE: return false; case T::BOOL: return e.b[n.b]; case T::UEQ: return (value(n.l, e) == value(n.r, e)) != n.neg; default: break; } std::vector<bool> v; for (auto& k : n.s) v.push_back(eval(k, e)); return combine(n.t, v); }
static std::size_t value(const UTerm& t, const UEnv& e) {
	auto& w = world(); if (t.isUVariable()) { for (std::size_t i = 0; i < NS; ++i) for (std::size_t k = 0; k < NV; ++k) if (w.v[i][k].variable() == t.asUVariable().variable()) return e.v[i][k]; CHK(false, "unknown variable " << t); }
	for (std::size_t i = 0; i < NF; ++i) if (w.f[i] == t.asUFInstance().uninterpretedFunction()) { std::size_t at = 0; for (auto& q : t.asUFInstance().args()) at = at * NVAL + value(q, e); return e.tab[i][at]; }
	CHK(false, "unknown function in " << t); return 0;
}
static bool eval(const F& f, const UEnv& e, const std::map<Variable, bool>* extra = nullptr) {
	switch (f.getType()) { case T::TRUE: return true; case T::FALSE: return false; case T::BOOL: for (std::size_t i = 0; i < NB; ++i) if (f.boolean() == bools()[i]) return e.b[i]; { CHK(extra && extra->count(f.boolean()), "unknown variable " << f); return extra->at(f.boolean()); } case T::UEQ: return (value(f.uequality().lhs(), e) == value(f.uequality().rhs(), e)) != f.uequality().negated(); case T::NOT: return !eval(f.subformula(), e, extra); default: break; }
	std::vector<bool> v; for (auto& k : f.subformulas()) v.push_back(eval(k, e, extra)); return combine(f.getType(), v);
}
static std::string show(const UEnv& e) { std::ostringstream os; for (auto b : e.b) os << b; for (auto& r : e.v) { os << " "; for (auto x : r) os << x; } for (auto& t : e.tab) { os << " "; for (auto x : t) os << x; } return os.str(); }
static Mod model(const UEnv& e, std::function<bool()> keep = [] { return true; }) {
	auto& w = world(); Mod m; for (std::size_t i = 0; i < NB; ++i) if (keep()) m.emplace(bools()[i], e.b[i]); for (std::size_t i = 0; i < NS; ++i) for (std::size_t k = 0; k < NV; ++k) if (keep()) m.emplace(w.v[i][k], w.val[i][e.v[i][k]]);
	for (std::size_t i = 0; i < NF; ++i) { UFModel u(w.f[i]); for (std::size_t k = 0; k < e.tab[i].size(); ++k) { std::vector<SortValue> a(w.dom[i].size()); std::size_t r = k; for (std::size_t j = a.size(); j-- > 0;) { a[j] = w.val[w.dom[i][j]][r % NVAL]; r /= NVAL; } CHK(u.extend(a, w.val[w.cod[i]][e.tab[i][k]]), "new entry"); CHK(!u.extend(a, w.val[w.cod[i]][e.tab[i][k]]), "old entry"); } m.emplace(w.f[i], u); }
	return m;
}
static void atoms(const F& f, std::set<Variable>& v, std::set<UninterpretedFunction>& fs, std::size_t& cost) {
	std::function<void(const UTerm&)> tm = [&](const UTerm& t) { ++cost; if (t.isUVariable()) v.insert(t.asUVariable().variable()); else { fs.insert(t.asUFInstance().uninterpretedFunction()); for (auto& a : t.asUFInstance().args()) tm(a); } };
	switch (f.getType()) { case T::TRUE: case T::FALSE: return; case T::BOOL: ++cost; v.insert(f.boolean()); return; case T::UEQ: ++cost; tm(f.uequality().lhs()); tm(f.uequality().rhs()); return; case T::NOT: ++cost; atoms(f.subformula(), v, fs, cost); return; default: ++cost; for (auto& k : f.subformulas()) atoms(k, v, fs, cost); }
}
LAW(formulas, 8000, 160000) {
	std::vector<RN> seen; RN n = gen_formula(c, c.chance(2, 3) ? 2 : 3, seen); c.in("formula", n); F f = to_carl(c, n); c.in("built", f); std::vector<UEnv> es; for (int i = 0; i < 4; ++i) es.push_back(gen_env(c)); c.nontrivial(seen.size() > 3 && !f.isTrue() && !f.isFalse());
	CHK(to_carl(c, n) == f, "building the same again"); F g = f.negated(), r = g.resolveNegation(c.coin()); CHK(g.negated() == f && g != f, "double negation");
	bool simp = c.coin(), keep = c.coin(), equiv = c.coin(); F q = carl::to_cnf(f, keep, simp, equiv); std::set<Variable> known(bools().begin(), bools().end()), v, extra; std::set<UninterpretedFunction> fs; std::size_t cost = 0; { std::set<Variable> all; std::set<UninterpretedFunction> x; std::size_t y = 0; atoms(q, all, x, y); for (auto& a : all) if (a.type() == VariableType::VT_BOOL && !known.count(a)) extra.insert(a); } c.label_if(!extra.empty(), "new variables");
	for (auto& e : es) { bool want = eval(n, e); CHK_EQ(eval(f, e), want, "formula " << f << " at " << show(e)); CHK_EQ(eval(g, e), !want, "negation " << g << " at " << show(e)); CHK_EQ(eval(r, e), !want, "resolved negation " << r << " at " << show(e));
		if (extra.size() > 8) { c.label("too many new variables"); continue; } unsigned sat = 0; for (std::size_t k = 0; k < (std::size_t(1) << extra.size()); ++k) { std::map<Variable, bool> x; std::size_t j = 0; for (auto& a : extra) x[a] = (k >> j++) & 1; if (eval(q, e, &x)) ++sat; } CHK_EQ(sat > 0, want, "clauses " << q << " at " << show(e)); }
	atoms(f, v, fs, cost); carl::carlVariables cv; f.gatherVariables(cv); std::set<Variable> gv(cv.begin(), cv.end()); CHK(gv == v, "variables of " << f); std::set<UninterpretedFunction> gf; f.gatherUFs(gf); CHK(gf == fs, "functions of " << f); std::set<UVariable> gu; f.gatherUVariables(gu); std::set<Variable> gu2, want; for (auto& u : gu) gu2.insert(u.variable()); for (auto& x : v) if (x.type() == VariableType::VT_UNINTERPRETED) want.insert(x); CHK(gu2 == want, "uninterpreted variables of " << f); CHK_EQ(f.complexity(), cost, "size of " << f); CHK_EQ(f.propertyHolds(carl::PROP_CONTAINS_UNINTERPRETED_EQUATIONS), !want.empty() || !fs.empty(), "contains equalities");
	// replacing variables by applications
	std::map<UVariable, UFInstance> rep; std::vector<std::pair<std::size_t, std::pair<std::size_t, RT>>> rr; auto& w = world(); std::ostringstream os; for (std::size_t i = 0; i < NS; ++i) for (std::size_t k = 0; k < NV; ++k) if (c.chance(1, 3)) { RT t = gen_term(c, i, 2); if (t.var) continue; rr.push_back({i, {k, t}}); rep.emplace(w.v[i][k], to_carl(c, t).asUFInstance()); os << w.v[i][k] << ":=" << t << " "; }
	c.in("replacement", os.str()); std::set<Variable> rv, gone; std::set<std::size_t> rf; for (auto& x : rr) { used(x.second.second, rv, rf); gone.insert(w.v[x.first][x.second.first].variable()); } for (auto& x : rv) if (gone.count(x)) return; /* see the known findings: what was replaced may be replaced again */ c.label("replaced"); carl::FormulaSubstitutor<F> fsub; F sub = fsub.substitute(f, rep); for (auto& e : es) { UEnv o = e; for (auto& x : rr) o.v[x.first][x.second.first] = value(x.second.second, e); CHK_EQ(eval(sub, e), eval(n, o), "replaced " << sub << " at " << show(e)); }
}
LAW(models, 6000, 120000) {
	std::vector<RN> seen; RN n = gen_formula(c, 2, seen); c.in("formula", n); F f = to_carl(c, n); UEnv e = gen_env(c); c.in("model", show(e)); c.nontrivial(!f.isTrue() && !f.isFalse()); auto& w = world();
	Mod m = model(e); bool want = eval(n, e); auto val = carl::model::evaluate(f, m); CHK(val.isBool(), "the value is " << val); CHK_EQ(val.asBool(), want, "value"); CHK_EQ(carl::satisfies(m, f), want ? 1u : 0u, "satisfied");
	F s = carl::model::substitute(f, m); CHK(want ? s.isTrue() : s.isFalse(), "substituted " << s);
	RT t = gen_term(c, c.idx(NS), 3); UTerm u = to_carl(c, t); c.in("term", t); carl::ModelValue<Q, CP> tv; if (t.var) carl::model::evaluate(tv, u.asUVariable(), m); else carl::model::evaluate(tv, u.asUFInstance(), m); CHK(tv.isSortValue() && tv.asSortValue() == w.val[t.sort()][value(t, e)], "value of " << u << " is " << tv);
	Mod part = model(e, [&] { return c.chance(2, 3); }); F ps = carl::model::substitute(f, part); for (int i = 0; i < 3; ++i) { UEnv o = gen_env(c); for (std::size_t k = 0; k < NB; ++k) if (part.find(bools()[k]) != part.end()) o.b[k] = e.b[k]; for (std::size_t j = 0; j < NS; ++j) for (std::size_t k = 0; k < NV; ++k) if (part.find(w.v[j][k]) != part.end()) o.v[j][k] = e.v[j][k]; o.tab = e.tab; CHK_EQ(eval(ps, o), eval(n, o), "partly substituted " << ps << " at " << show(o)); unsigned sa = carl::satisfies(part, f); if (sa != 2) CHK_EQ(sa, eval(n, o) ? 1u : 0u, "satisfied by the partial model at " << show(o)); }
	// functions given by some entries only
	std::size_t i = c.idx(NF); UFModel um(w.f[i]); std::map<std::vector<std::size_t>, std::size_t> tab; std::size_t k = 1 + c.draw(5); for (std::size_t j = 0; j < k; ++j) { std::vector<std::size_t> a; std::vector<SortValue> sa; for (auto d : w.dom[i]) { a.push_back(c.idx(NVAL)); sa.push_back(w.val[d][a.back()]); } std::size_t x = c.idx(NVAL); if (tab.count(a)) x = tab[a]; CHK_EQ(um.extend(sa, w.val[w.cod[i]][x]), !tab.count(a), "a new entry"); tab[a] = x; }
	CHK(um.function() == w.f[i], "function"); CHK_EQ(um.values().size(), tab.size(), "entries"); for (std::size_t j = 0; j < 4; ++j) { std::vector<std::size_t> a; std::vector<SortValue> sa; for (auto d : w.dom[i]) { a.push_back(c.idx(NVAL)); sa.push_back(w.val[d][a.back()]); } SortValue got = um.get(sa); CHK(got.sort() == w.s[w.cod[i]], "sort of the value"); CHK(tab.count(a) ? got == w.val[w.cod[i]][tab[a]] : got == carl::defaultSortValue(w.s[w.cod[i]]), "value of the function"); }
	UFModel same(w.f[i]); for (auto it = tab.rbegin(); it != tab.rend(); ++it) { std::vector<SortValue> sa; for (std::size_t d = 0; d < it->first.size(); ++d) sa.push_back(w.val[w.dom[i][d]][it->first[d]]); same.extend(sa, w.val[w.cod[i]][it->second]); } CHK(um == same && !(um < same) && !(same < um), "the same entries in another order"); CHK_EQ(std::hash<UFModel>()(um), std::hash<UFModel>()(same), "hash");
	SortValue a = carl::newSortValue(w.s[0]), b = carl::newSortValue(w.s[0]), dv = carl::defaultSortValue(w.s[0]); CHK(!(a == b) && !(a == dv) && !(b == dv) && (a < b) != (b < a), "new values are different"); CHK(a.sort() == w.s[0] && dv.sort() == w.s[0], "sort of a value"); for (auto& x : w.val[0]) CHK(!(x == a) && !(x == b) && !(x == dv), "new values differ from old ones");
}
// The text for other tools. Functions may share names, so these cases use those with distinct ones.
static std::size_t text_sort(const rd::T& t);
static std::size_t text_value(const rd::T& t, std::size_t sort, const UEnv& e) {
	auto& w = world(); if (t.h != "(") { for (std::size_t k = 0; k < NV; ++k) if (w.v[sort][k].variable().name() == t.h) return e.v[sort][k]; throw rd::Bad{"unknown constant " + t.h}; }
	for (std::size_t i = 0; i < NF; ++i) if (!t.s.empty() && w.fn[i] == t.s[0].h && w.cod[i] == sort && w.dom[i].size() + 1 == t.s.size()) { bool fits = true; for (std::size_t k = 1; k < t.s.size(); ++k) fits = fits && text_sort(t.s[k]) == w.dom[i][k - 1]; if (!fits) continue; std::size_t at = 0; for (std::size_t k = 1; k < t.s.size(); ++k) at = at * NVAL + text_value(t.s[k], w.dom[i][k - 1], e); return e.tab[i][at]; }
	throw rd::Bad{"no term: " + rd::text(t)};
}
static std::size_t text_sort(const rd::T& t) { auto& w = world(); for (std::size_t i = 0; i < NS; ++i) for (std::size_t k = 0; k < NV; ++k) if (w.v[i][k].variable().name() == t.h) return i; if (t.h == "(" && !t.s.empty()) for (std::size_t i = 0; i < NF; ++i) if (w.fn[i] == t.s[0].h && w.dom[i].size() + 1 == t.s.size()) { bool ok = true; for (std::size_t k = 1; k < t.s.size(); ++k) ok = ok && text_sort(t.s[k]) == w.dom[i][k - 1]; if (ok) return w.cod[i]; } return NS; }
static bool text_truth(const rd::T& t, const UEnv& e) {
	if (t.h != "(") { if (t.h == "true") return true; if (t.h == "false") return false; auto it = rd::booleans().find(t.h); if (it == rd::booleans().end()) throw rd::Bad{"unknown Boolean " + t.h}; return e.b[it->second]; }
	if (t.s.size() < 2) throw rd::Bad{"no formula: " + rd::text(t)}; const std::string& o = t.s[0].h;
	if (o == "=" && t.s.size() == 3) { std::size_t s = text_sort(t.s[1]); if (s < NS) return text_value(t.s[1], s, e) == text_value(t.s[2], s, e); }
	std::vector<bool> v; for (std::size_t i = 1; i < t.s.size(); ++i) v.push_back(text_truth(t.s[i], e));
	if (o == "not") return !v.at(0); if (o == "and") return combine(T::AND, v); if (o == "or") return combine(T::OR, v); if (o == "xor") return combine(T::XOR, v); if (o == "=") return combine(T::IFF, v); if (o == "=>" && v.size() == 2) return combine(T::IMPLIES, v); if (o == "ite" && v.size() == 3) return combine(T::ITE, v);
	throw rd::Bad{"unknown connective " + o};
}
LAW(scripts, 6000, 120000) {
	std::vector<RN> seen; RN n = gen_formula(c, 2, seen); c.in("formula", n); F f = to_carl(c, n); auto& w = world(); c.nontrivial(f.getType() != T::TRUE && f.getType() != T::FALSE);
	carl::SMTLIBStream st; st.initialize(carl::Logic::QF_UF, {f}); st.assertFormula(f); std::ostringstream os; os << st; std::string txt = os.str(); c.in("text", txt); std::set<Variable> v; std::set<UninterpretedFunction> fs; std::size_t cost = 0; atoms(f, v, fs, cost);
	try {
		std::set<std::string> sorts, consts, funs; bool asserted = false;
		std::map<std::string, std::string> vs; for (auto& x : v) vs[x.name()] = "Bool"; for (std::size_t i = 0; i < NS; ++i) for (std::size_t k = 0; k < NV; ++k) if (v.count(w.v[i][k].variable())) vs[w.v[i][k].variable().name()] = rd::str(w.s[i]);
		std::set<std::string> want; for (auto& u : fs) { std::string s = u.name() + " ("; for (std::size_t k = 0; k < u.domain().size(); ++k) s += (k ? " " : "") + rd::str(u.domain()[k]); want.insert(s + ") " + rd::str(u.codomain())); }
		auto known = [&](const rd::T& t) { if (t.h != "(") return t.h == "Bool" || sorts.count(t.h) > 0; return true; };
		for (auto& t : rd::sexps(txt)) { if (t.s.empty()) throw rd::Bad{"no command"}; const std::string& o = t.s[0].h;
			if (o == "declare-sort") { CHK(t.s.size() == 3 && sorts.insert(rd::text(t.s[1])).second, "sort declared twice"); }
			else if (o == "declare-fun") { CHK(t.s.size() == 4, "declaration " << rd::text(t)); for (auto& q : t.s[2].s) CHK(known(q), "sort " << rd::text(q) << " is not declared"); CHK(known(t.s[3]), "sort " << rd::text(t.s[3]) << " is not declared"); if (t.s[2].s.empty()) { CHK(vs.count(t.s[1].h) && vs[t.s[1].h] == rd::text(t.s[3]), "constant " << rd::text(t)); CHK(consts.insert(t.s[1].h).second, "declared twice: " << t.s[1].h); } else funs.insert(t.s[1].h + " " + rd::text(t.s[2]) + " " + rd::text(t.s[3])); }
			else if (o == "assert") { asserted = true; for (int i = 0; i < 3; ++i) { UEnv e = gen_env(c); CHK_EQ(text_truth(t.s.at(1), e), eval(n, e), "asserted formula at " << show(e)); } }
			else if (o != "set-logic") throw rd::Bad{"unknown command " + o}; }
		CHK(asserted, "nothing is asserted"); CHK_EQ(consts.size(), vs.size(), "declared constants"); CHK(funs == want, "declared functions");
	} catch (const rd::Bad& b) { c.fail("cannot be read: " + b.why); }
	// a model
	UEnv e = gen_env(c); Mod m = model(e); carl::SMTLIBStream ms; ms << m; std::ostringstream mo; mo << ms; std::string mt = mo.str();
	try {
		auto top = rd::sexps(mt); CHK(top.size() == 1 && top[0].s.size() >= 1 && top[0].s[0].h == "model", "model text " << mt); std::size_t nf = 0, nc = 0; auto val = [&](std::size_t s, std::size_t k) { return rd::text(rd::sexps(rd::str(w.val[s][k])).back()); };
		for (std::size_t d = 1; d < top[0].s.size(); ++d) { auto& t = top[0].s[d]; CHK(t.s.size() >= 5 && t.s[0].h == "define-fun", "definition " << rd::text(t)); CHK(t.s.size() == 5 || rd::text(t.s[3]) != "S" || t.s[2].s.size() > 2, "definition " << rd::text(t)); /* values of sorts with parameters have names with spaces */ if (t.s[2].s.empty()) { ++nc; continue; } ++nf;
			std::vector<std::size_t> cand; for (std::size_t i = 0; i < NF; ++i) { if (w.fn[i] != t.s[1].h || w.dom[i].size() != t.s[2].s.size()) continue; bool ok = rd::text(t.s[3]) == rd::str(w.s[w.cod[i]]); for (std::size_t k = 0; k < w.dom[i].size(); ++k) ok = ok && rd::text(t.s[2].s[k].s.at(1)) == rd::str(w.s[w.dom[i][k]]); if (ok) cand.push_back(i); } CHK_EQ(cand.size(), std::size_t(1), "function " << rd::text(t)); std::size_t i = cand[0];
			if (i == 3 || std::find(w.dom[i].begin(), w.dom[i].end(), std::size_t(2)) != w.dom[i].end()) continue;
			for (int q = 0; q < 3; ++q) { std::map<std::string, std::string> a; std::size_t at = 0; for (std::size_t k = 0; k < w.dom[i].size(); ++k) { std::size_t x = c.idx(NVAL); at = at * NVAL + x; a[t.s[2].s[k].s[0].h] = val(w.dom[i][k], x); }
				const rd::T* b = &t.s[4]; while (b->h == "(" && b->s.size() == 4 && b->s[0].h == "ite") { bool hit = true; for (auto& k : b->s[1].s) if (k.h == "(") hit = hit && a[k.s.at(1).h] == k.s.at(2).h; b = hit ? &b->s[2] : &b->s[3]; } CHK_EQ(b->h, val(w.cod[i], e.tab[i][at]), "value in " << rd::text(t)); } }
		CHK_EQ(nf, NF, "functions of the model"); CHK_EQ(nc, NB + NS * NV, "constants of the model");
	} catch (const rd::Bad& b) { c.fail("the model cannot be read: " + b.why + " in " + mt); }
}
PBT_MAIN("E01", "uninterpreted sorts, functions and equalities")
