// Set covers: the cover structure, the heuristics on it and the interval covering for conflict cores.
#include "pbt.h"
#include <carl/util/Bitset.h>
#include <carl-covering/carl-covering.h>
#include <map>
#include <numeric>
#include <algorithm>
#include <vector>
#include <set>
#include <sstream>
#include <iostream>
#include <carl/util/Covering.h>
namespace cc = carl::covering; namespace ch = carl::covering::heuristic;
using Set = std::set<std::size_t>; using Sets = std::vector<Set>;
static std::string show(const Set& s) { std::ostringstream o; o << "{"; for (auto e : s) o << (e == *s.begin() ? "" : " ") << e; o << "}"; return o.str(); }
template<typename T> static std::string list(const std::vector<T>& v) { std::ostringstream o; for (auto& x : v) o << x << " "; return o.str(); }
static std::string show(const Sets& s) { std::ostringstream o; for (auto& x : s) o << show(x) << " "; return o.str(); }
static Set of(const carl::Bitset& b) { Set r; for (std::size_t i = 0; i < b.size(); ++i) if (b.test(i)) r.insert(i); return r; }
static carl::Bitset bits(const Set& s) { carl::Bitset b; for (auto e : s) b.set(e); return b; }
static Set join(const Sets& s) { Set r; for (auto& x : s) r.insert(x.begin(), x.end()); return r; }
static Set minus(const Set& a, const Set& b) { Set r; for (auto e : a) if (!b.count(e)) r.insert(e); return r; }
static Set chosen(const Sets& s, const Set& ids) { Set r; for (auto i : ids) r.insert(s[i].begin(), s[i].end()); return r; }
static Sets gen_sets(pbt::Ctx& c, unsigned maxsets, unsigned maxelems, bool dup = true) {
	unsigned n = c.draw(maxsets + 1), m = 1 + c.draw(maxelems); std::vector<std::size_t> el; std::size_t e = c.chance(1, 4) ? c.draw(130) : 0;
	for (unsigned i = 0; i < m; ++i) { el.push_back(e); e += c.chance(1, 8) ? 1 + c.draw(70) : 1; }
	Sets r(n); unsigned style = c.draw(4);
	for (unsigned i = 0; i < n; ++i) {
		if (dup && i && c.chance(1, 8)) { r[i] = r[c.idx(i)]; continue; }
		unsigned den = 2 + c.draw(4);
		for (unsigned j = 0; j < m; ++j) if (style == 0 ? c.chance(1, den) : style == 1 ? (j >= i && j < i + den) : style == 2 ? !c.chance(1, den) : c.chance(1, 3)) r[i].insert(el[j]);
	}
	return r;
}
static cc::SetCover make(pbt::Ctx& c, const Sets& s) {
	cc::SetCover sc; std::vector<std::size_t> order(s.size()); std::iota(order.begin(), order.end(), 0); if (c.coin()) std::reverse(order.begin(), order.end());
	for (auto i : order) { if (c.coin()) { sc.set(i, bits(s[i])); } else { sc.set(i, carl::Bitset()); for (auto e : s[i]) sc.set(i, e); } }
	return sc;
}
static void same(const cc::SetCover& sc, const Sets& s, const char* what) {
	CHK(sc.set_count() == s.size(), what << ": " << sc.set_count() << " sets, expected " << s.size());
	for (std::size_t i = 0; i < s.size(); ++i) CHK(of(sc.get_set(i)) == s[i], what << ": set " << i << " is " << show(of(sc.get_set(i))) << ", expected " << show(s[i]));
}
// The size of a smallest cover.
static std::size_t best(const Sets& s) {
	Set all = join(s); std::vector<std::size_t> el(all.begin(), all.end()); std::vector<unsigned> m; for (auto& x : s) { unsigned k = 0; for (std::size_t i = 0; i < el.size(); ++i) if (x.count(el[i])) k |= 1u << i; m.push_back(k); }
	unsigned full = el.empty() ? 0 : (unsigned)((1ull << el.size()) - 1); std::size_t b = s.size();
	for (unsigned k = 0; k < (1u << s.size()); ++k) { std::size_t n = __builtin_popcount(k); if (n >= b) continue; unsigned u = 0; for (std::size_t i = 0; i < s.size(); ++i) if (k >> i & 1) u |= m[i]; if (u == full) b = n; }
	return b;
}
// Whether the ids can be chosen one after the other, each as (one of) the heaviest remaining ones, while the stop condition does not hold.
static bool greedy_order(Sets s, Set ids, const std::vector<double>& w, std::size_t bound) {
	std::size_t active = 0; double top = 0; for (std::size_t i = 0; i < s.size(); ++i) { if (!s[i].empty()) ++active; top = std::max(top, s[i].size() * w[i]); }
	if (active <= bound) return ids.empty();
	for (auto i : ids) if (s[i].size() * w[i] == top) { Sets t = s; Set sel = s[i]; for (auto& x : t) x = minus(x, sel); Set r = ids; r.erase(i); if (greedy_order(t, r, w, bound)) return true; }
	return false;
}
LAW(structure, 3000, 60000) {
	Sets s = gen_sets(c, 9, 12); c.in("sets", show(s)); auto sc = make(c, s); same(sc, s, "constructed"); c.nontrivial(s.size() > 1);
	std::size_t top = 0; for (auto& x : s) if (!x.empty()) top = std::max(top, *x.rbegin() + 1); CHK(sc.element_count() >= top, "element_count is " << sc.element_count() << " although there is element " << top - 1);
	for (unsigned step = 0, n = c.draw(6); step < n; ++step) {
		CHK_EQ(sc.active_set_count(), (std::size_t)std::count_if(s.begin(), s.end(), [](auto& x) { return !x.empty(); }), "active_set_count");
		CHK(of(sc.get_uncovered()) == join(s), "get_uncovered is " << show(of(sc.get_uncovered())) << ", expected " << show(join(s)));
		if (!s.empty()) {
			std::size_t m = 0; for (auto& x : s) m = std::max(m, x.size()); auto l = sc.largest_set(); CHK(l < s.size() && s[l].size() == m, "largest_set is " << l << " of size " << s[l].size() << ", the largest has " << m);
			std::vector<double> w; for (std::size_t i = 0; i < s.size(); ++i) w.push_back(c.pick({1.0, 0.5, 2.0, 3.25, 0.125})); double t = 0; for (std::size_t i = 0; i < s.size(); ++i) t = std::max(t, s[i].size() * w[i]);
			l = sc.largest_set(w); CHK(l < s.size() && s[l].size() * w[l] == t, "weighted largest_set is " << l << " of weight " << s[l].size() * w[l] << ", the largest has " << t);
		}
		switch (c.draw(4)) {
			case 0: { if (s.empty()) break; auto i = c.idx(s.size()); c.in("select", i); sc.select_set(i); Set sel = s[i]; for (auto& x : s) x = minus(x, sel); break; }
			case 1: { auto i = c.draw(s.size() + 3); auto e = c.draw(140); c.in("set", std::to_string(i) + " element " + std::to_string(e)); sc.set(i, e); while (s.size() <= i) s.emplace_back(); s[i].insert(e); break; }
			case 2: { auto i = c.draw(s.size() + 3); Set x; for (unsigned k = c.draw(4); k > 0; --k) x.insert(c.draw(140)); c.in("set", std::to_string(i) + " elements " + show(x)); sc.set(i, bits(x)); while (s.size() <= i) s.emplace_back(); s[i].insert(x.begin(), x.end()); break; }
			default: c.in("prune", 1); sc.prune_sets(); break;
		}
		same(sc, s, "after the step"); std::ostringstream o; o << sc; same(sc, s, "after printing");
	}
}
LAW(exact_is_minimal, 4000, 80000) {
	Sets s = gen_sets(c, 9, 13); c.in("sets", show(s)); auto sc = make(c, s); auto ids = of(ch::exact(sc)); c.nontrivial(ids.size() > 1); c.label_if(ids.size() > 2, "more than two sets");
	for (auto i : ids) CHK(i < s.size(), "there is no set " << i); CHK(chosen(s, ids) == join(s), show(ids) << " is not a cover"); CHK(ids.size() == best(s), show(ids) << " is a cover of size " << ids.size() << ", there is one of size " << best(s));
	CHK(sc.get_uncovered().none(), "something is left uncovered: " << show(of(sc.get_uncovered())));
}
LAW(greedy_covers, 4000, 80000) {
	Sets s = gen_sets(c, 9, 13); c.in("sets", show(s)); auto sc = make(c, s); auto ids = of(ch::greedy(sc)); c.nontrivial(ids.size() > 1);
	for (auto i : ids) CHK(i < s.size(), "there is no set " << i); CHK(chosen(s, ids) == join(s), show(ids) << " is not a cover"); CHK(greedy_order(s, ids, std::vector<double>(s.size(), 1), 0), show(ids) << " cannot be chosen greedily"); CHK(sc.get_uncovered().none(), "something is left uncovered");
	auto b = best(s); double h = 0; std::size_t m = 0; for (auto& x : s) m = std::max(m, x.size()); for (std::size_t i = 1; i <= m; ++i) h += 1.0 / i; CHK(ids.size() <= b * h + 1e-9, "the greedy cover has " << ids.size() << " sets, the best one " << b);
}
LAW(greedy_stops_at_the_bound, 4000, 80000) {
	Sets s = gen_sets(c, 15, 14); std::size_t bound = c.chance(1, 4) ? 12 : c.draw(6); bool weighted = c.coin(); c.in("sets", show(s)); c.in("bound", bound);
	std::vector<double> w(s.size(), 1); if (weighted) for (auto& x : w) x = c.pick({1.0, 0.5, 2.0, 3.25, 0.125}); c.in("weights", list(w));
	auto sc = make(c, s); auto ids = of(weighted ? ch::greedy_weighted(sc, w, bound) : bound == 12 ? ch::greedy_bounded(sc) : ch::greedy_bounded(sc, bound)); c.nontrivial(ids.size() > 1);
	for (auto i : ids) CHK(i < s.size(), "there is no set " << i); CHK(sc.active_set_count() <= bound, sc.active_set_count() << " sets are left");
	Set got = chosen(s, ids); Sets rest; for (auto& x : s) rest.push_back(minus(x, got)); same(sc, rest, "remaining sets"); CHK(greedy_order(s, ids, w, bound), show(ids) << " cannot be chosen greedily");
}
LAW(essential_sets, 4000, 80000) {
	Sets s = gen_sets(c, 8, 10); c.in("sets", show(s)); auto sc = make(c, s); auto ids = of(ch::select_essential(sc)); c.nontrivial(!ids.empty());
	for (auto i : ids) CHK(i < s.size(), "there is no set " << i);
	// Every chosen set is in every cover, at least after the others are chosen; no remaining element is in just one remaining set.
	Set must; for (auto e : join(s)) { std::size_t n = 0, w = 0; for (std::size_t i = 0; i < s.size(); ++i) if (s[i].count(e)) { ++n; w = i; } if (n == 1) must.insert(w); }
	CHK(ids == must, "the essential sets are " << show(must) << ", got " << show(ids));
	Set got = chosen(s, ids); Sets rest; for (auto& x : s) rest.push_back(minus(x, got)); same(sc, rest, "remaining sets");
}
LAW(duplicates_and_trivial, 4000, 80000) {
	Sets s = gen_sets(c, 8, 12); c.in("sets", show(s)); auto sc = make(c, s); auto t = of(ch::trivial(sc)); CHK(t.size() == s.size() && (t.empty() || *t.rbegin() == s.size() - 1), "the trivial cover is " << show(t)); same(sc, s, "after the trivial cover");
	auto ids = of(ch::remove_duplicates(sc)); CHK(ids.empty(), "removing duplicates selected " << show(ids)); c.nontrivial(!join(s).empty());
	std::set<Set> cols, got; for (auto e : join(s)) { Set k; for (std::size_t i = 0; i < s.size(); ++i) if (s[i].count(e)) k.insert(i); cols.insert(k); }
	Sets r; for (std::size_t i = 0; i < sc.set_count(); ++i) r.push_back(of(sc.get_set(i))); CHK(r.size() <= s.size(), "there are more sets than before");
	for (auto e : join(r)) { Set k; for (std::size_t i = 0; i < r.size(); ++i) if (r[i].count(e)) k.insert(i); CHK(got.insert(k).second, "element " << e << " is a duplicate"); } CHK(got == cols, "the remaining elements are not the distinct ones: " << show(r)); c.label_if(cols.size() < join(s).size(), "some duplicates");
}
LAW(typed_covers, 3000, 60000) {
	Sets s = gen_sets(c, 8, 10); cc::TypedSetCover<std::string> t; std::vector<std::string> names; std::map<std::string, Set> m;
	for (std::size_t i = 0; i < s.size(); ++i) { std::string n(1, "qwertyuiop"[c.idx(6)]); names.push_back(n); m[n].insert(s[i].begin(), s[i].end()); if (c.coin()) t.set(n, bits(s[i])); else { t.set(n, carl::Bitset()); for (auto e : s[i]) t.set(n, e); } }
	c.in("sets", show(s)); c.in("names", list(names)); Sets u; for (auto& x : m) u.push_back(x.second); c.nontrivial(m.size() > 1); std::size_t b = best(u); unsigned how = c.draw(4); c.in("heuristic", how);
	std::vector<double> w; std::map<std::string, double> wm; for (auto& x : m) wm[x.first] = c.pick({1.0, 2.0, 0.25});
	CHK_EQ(t.set_cover().set_count(), m.size(), "set_count"); for (std::size_t i = 0; i < m.size(); ++i) CHK(of(t.set_cover().get_set(i)) == m[t.get_set(i)], "the set of " << t.get_set(i) << " is " << show(of(t.set_cover().get_set(i))));
	std::vector<std::string> r;
	if (how == 0) r = t.get_cover(ch::exact); else if (how == 1) r = t.get_cover(ch::greedy); else if (how == 2) r = t.get_cover(ch::trivial); else { std::vector<std::string> nm; for (std::size_t i = 0; i < m.size(); ++i) nm.push_back(t.get_set(i)); for (auto i : of(ch::greedy_weighted(t, [&](const std::string& n) { return wm.at(n); }))) { CHK(i < nm.size(), "there is no set " << i); r.push_back(nm[i]); } }
	Set got; std::set<std::string> seen; for (auto& n : r) { CHK(m.count(n), "there is no set " << n); CHK(seen.insert(n).second, n << " is chosen twice"); got.insert(m[n].begin(), m[n].end()); } CHK(got == join(s), "not a cover"); if (how == 0) CHK(r.size() == b, "a cover of size " << r.size() << ", there is one of size " << b);
}
LAW(conflict_cores, 4000, 80000) {
	std::size_t n = 1 + c.draw(c.chance(1, 4) ? 130 : 12); carl::Covering<int> cov(n); std::map<int, Set> m; Set okay; for (std::size_t i = 0; i < n; ++i) okay.insert(i); c.in("intervals", n); std::ostringstream log;
	for (unsigned k = c.draw(10); k > 0; --k) {
		int id = c.range(-4, 8); Set x; unsigned a = c.draw(n), len = c.draw(n + 1); bool all = c.chance(1, 4); for (std::size_t i = a; i < n && i <= a + len; ++i) if (all || c.chance(2, 3)) x.insert(i);
		cov.add(id, bits(x)); m[id].insert(x.begin(), x.end()); okay = minus(okay, x); log << id << ":" << show(x) << " ";
		CHK_EQ(cov.conflicts(), okay.empty(), "conflicts after " << log.str()); if (!okay.empty()) CHK_EQ(cov.satisfyingInterval(), *okay.begin(), "satisfyingInterval after " << log.str());
	}
	c.in("added", log.str()); c.nontrivial(m.size() > 1);
	if (okay.empty()) { c.label("conflict"); std::vector<int> core; cov.buildConflictingCore(core); Set got; std::set<int> seen; for (auto i : core) { CHK(m.count(i), "the core contains " << i << ", which was not added"); CHK(seen.insert(i).second, "the core contains " << i << " twice"); auto before = got.size(); got.insert(m[i].begin(), m[i].end()); CHK(got.size() > before, "the core contains " << i << ", which adds nothing"); } CHK(got.size() == n, "the core does not cover everything"); }
}
PBT_MAIN("K01", "a case counts if the cover consists of several sets or something remains to be chosen")
