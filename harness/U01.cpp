// Bit sets, bit vectors and identifier pools against plain sets of numbers.
#include "pbt.h"
#include <carl/util/Bitset.h>
#include <carl/util/BitVector.h>
#include <carl/util/IDPool.h>
#include <carl/util/IDGenerator.h>
#include <set>
#include <sstream>
#include <vector>
static const std::size_t W = 210;
// A set of numbers, all beyond W being like the default.
struct M { std::vector<bool> b; bool d; explicit M(bool d = false): b(W, d), d(d) {} };
static std::string show(const M& m) { std::ostringstream o; o << "{"; for (std::size_t i = 0; i < W; ++i) if (m.b[i] != m.d) o << " " << i; o << " }" << (m.d ? " complemented" : ""); return o.str(); }
static int compare(const M& x, const M& y) { if (x.d != y.d) return x.d ? 1 : -1; for (std::size_t i = W; i-- > 0;) if (x.b[i] != y.b[i]) return x.b[i] ? 1 : -1; return 0; }
static std::size_t pos(pbt::Ctx& c) { return c.chance(1, 3) ? c.pick({0, 1, 31, 32, 62, 63, 64, 65, 127, 128, 129}) : c.draw(c.chance(1, 3) ? 200 : 12); }
struct B { carl::Bitset s; M m; };
static void same(const carl::Bitset& s, const M& m, const std::string& what) {
	for (std::size_t i = 0; i < W + 70; ++i) CHK(s.test(i) == (i < W ? m.b[i] : m.d), what << ": " << i << " is " << s.test(i) << ", expected the set " << show(m));
	if (!m.d) {
		std::vector<std::size_t> e, f; for (std::size_t i = 0; i < W; ++i) if (m.b[i]) e.push_back(i); for (auto i : s) f.push_back(i); CHK(e == f, what << ": iterating does not list the elements of " << show(m)); CHK_EQ(s.count(), e.size(), what << ": count"); CHK_EQ(s.any(), !e.empty(), what << ": any"); CHK_EQ(s.none(), e.empty(), what << ": none");
		CHK_EQ(s.find_first(), e.empty() ? carl::Bitset::npos : e[0], what << ": find_first");
		f.clear(); for (auto it = s.begin(); it != s.end();) { auto old = it++; f.push_back(*old); CHK(it == s.end() || old < it, what << ": iterators are out of order"); } CHK(e == f, what << ": iterating with postfix increments does not list the elements");
		for (std::size_t i = 0; i < W; i += 13) { auto it = std::upper_bound(e.begin(), e.end(), i); if (i < s.size()) CHK_EQ(s.find_next(i), it == e.end() ? carl::Bitset::npos : *it, what << ": find_next of " << i); }
	}
}
static B gen(pbt::Ctx& c, const char* name, int def = -1) {
	bool d = def < 0 ? c.chance(1, 2) : def; B r; r.m = M(d); std::ostringstream log; log << "default " << d;
	if (!d && c.chance(1, 5)) { auto a = pos(c), b = pos(c); r.s = carl::Bitset({a, b}); r.m.b[a] = r.m.b[b] = true; log << " {" << a << " " << b << "}"; }
	else if (c.chance(1, 6)) { auto a = pos(c), b = pos(c); r.s = carl::Bitset({a, b}, d); r.m.b[a] = r.m.b[b] = true; log << " {" << a << " " << b << "}"; }
	else r.s = carl::Bitset(d);
	for (unsigned k = c.draw(5); k > 0; --k) switch (c.draw(5)) {
		case 0: { auto p = pos(c); r.s.set(p); r.m.b[p] = true; log << " set " << p; break; }
		case 1: { auto p = pos(c); bool v = c.coin(); r.s.set(p, v); r.m.b[p] = v; log << " set " << p << " " << v; break; }
		case 2: { auto p = pos(c); r.s.reset(p); r.m.b[p] = false; log << " reset " << p; break; }
		case 3: { auto p = pos(c), q = pos(c); if (p > q) std::swap(p, q); bool v = c.chance(2, 3); if (v) r.s.set_interval(p, q); else r.s.set_interval(p, q, false); for (auto i = p; i <= q; ++i) r.m.b[i] = v; log << " set " << p << ".." << q << " " << v; break; }
		default: { if (c.coin()) { auto n = r.s.size() + c.draw(80); if (n > W) break; r.s.resize(n); log << " resize " << n; } else { auto n = r.s.size() + c.draw(40); if (n > W) break; bool v = c.coin(); for (auto i = r.s.size(); i < n; ++i) r.m.b[i] = v; r.s.resize(n, v); log << " resize " << n << " with " << v; } }
	}
	c.in(name, log.str()); return r;
}
LAW(bit_sets, 4000, 80000) {
	B x = gen(c, "x"); same(x.s, x.m, "x"); c.nontrivial(x.s.size() > 0); carl::Bitset n = ~x.s; M nm(!x.m.d); for (std::size_t i = 0; i < W; ++i) nm.b[i] = !x.m.b[i]; same(n, nm, "~x"); same(~n, x.m, "~~x");
	carl::Bitset cp = x.s; CHK(cp == x.s, "a copy is different"); auto p = pos(c); cp.set(p, !x.m.b[p]); same(x.s, x.m, "after changing a copy"); CHK(!(cp == x.s), "x with " << p << " changed is equal to x");
}
LAW(bit_set_operations, 6000, 120000) {
	B x = gen(c, "x"), y = gen(c, "y"); c.nontrivial(x.s.size() > 0 && y.s.size() > 0); c.label_if(x.m.d != y.m.d, "different defaults"); c.label_if(x.s.size() != y.s.size(), "different sizes");
	M a(x.m.d && y.m.d), o(x.m.d || y.m.d), d(x.m.d && !y.m.d); bool sub = !(x.m.d && !y.m.d), sup = !(y.m.d && !x.m.d);
	for (std::size_t i = 0; i < W; ++i) { a.b[i] = x.m.b[i] && y.m.b[i]; o.b[i] = x.m.b[i] || y.m.b[i]; d.b[i] = x.m.b[i] && !y.m.b[i]; if (x.m.b[i] && !y.m.b[i]) sub = false; if (y.m.b[i] && !x.m.b[i]) sup = false; }
	unsigned first = c.draw(5); // which operation sees the sets before their storage is aligned
	for (unsigned k = 0; k < 5; ++k) switch ((first + k) % 5) {
		case 0: { same(x.s & y.s, a, "x & y"); auto t = x.s; t &= y.s; same(t, a, "x &= y"); break; }
		case 1: { same(x.s | y.s, o, "x | y"); auto t = x.s; t |= y.s; same(t, o, "x |= y"); break; }
		case 2: { if (x.m.d != y.m.d) break; auto t = x.s; t -= y.s; same(t, d, "x -= y"); break; }
		case 3: CHK_EQ(x.s.is_subset_of(y.s), sub, "x subset of y"); CHK_EQ(y.s.is_subset_of(x.s), sup, "y subset of x"); break;
		default: CHK_EQ(x.s == y.s, sub && sup, "x == y"); break;
	}
	same(x.s, x.m, "x afterwards"); same(y.s, y.m, "y afterwards"); auto t = x.s; t |= t; same(t, x.m, "x |= x"); t &= t; same(t, x.m, "x &= x"); t -= t; same(t, M(false), "x -= x");
}
LAW(bit_set_order, 6000, 120000) {
	std::vector<B> v; bool d = c.coin(), mixed = c.chance(1, 3); for (unsigned i = 0; i < 3; ++i) v.push_back(gen(c, i == 0 ? "x" : i == 1 ? "y" : "z", mixed ? -1 : d)); if (c.chance(1, 3)) { v[1].s = v[0].s; v[1].m = v[0].m; auto n = v[1].s.size() + c.draw(80); if (n <= W) v[1].s.resize(n); c.in("y is x resized to", n); }
	c.nontrivial(v[0].s.size() != v[1].s.size()); std::hash<carl::Bitset> h; bool lt[3][3]; unsigned start = c.draw(9); std::size_t hs[3]; for (int i = 0; i < 3; ++i) hs[i] = h(v[i].s);
	for (unsigned k = 0; k < 9; ++k) { unsigned i = (start + k) % 9 / 3, j = (start + k) % 3; lt[i][j] = v[i].s < v[j].s; }
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { bool eq = compare(v[i].m, v[j].m) == 0; CHK(lt[i][j] + lt[j][i] == (eq ? 0 : 1), "the order of " << show(v[i].m) << " and " << show(v[j].m) << " is not total: " << lt[i][j] << lt[j][i]); if (eq) CHK(hs[i] == hs[j] && h(v[i].s) == hs[j], "equal sets have different hashes"); for (int k = 0; k < 3; ++k) if (lt[i][j] && lt[j][k]) CHK(lt[i][k], "the order is not transitive"); }
}
static void same(const carl::BitVector& s, const std::set<unsigned>& m, const std::string& what) {
	for (unsigned i = 0; i < 300; ++i) CHK(s.getBit(i) == (m.count(i) > 0), what << ": bit " << i << " is " << s.getBit(i)); CHK_EQ(s.empty(), m.empty(), what << ": empty"); if (!m.empty()) CHK(s.findFirstSetBit() == *m.begin(), what << ": the first bit is " << s.findFirstSetBit()); else CHK_EQ(s.findFirstSetBit(), s.size(), what << ": first bit of an empty vector");
	unsigned i = 0; for (auto it = s.begin(); !it.isEnd(); it++, ++i) CHK(it.get() == (m.count(i) > 0), what << ": iterating gives the wrong bit " << i); CHK(i == s.size() && (m.empty() || i > *m.rbegin()), what << ": " << i << " bits are listed"); CHK(s.end().isEnd(), "end is not the end");
	std::ostringstream o, e; o << s; for (unsigned j = 0; j < i; ++j) e << (m.count(j) ? 1 : 0); CHK_EQ(o.str(), e.str(), what << ": printed");
}
LAW(bit_vectors, 5000, 100000) {
	struct V { carl::BitVector s; std::set<unsigned> m; } v[2];
	for (int k = 0; k < 2; ++k) { std::ostringstream log; if (c.chance(1, 3)) { unsigned p = pos(c); v[k].s = carl::BitVector(p); v[k].m = {p}; log << "{" << p << "}"; } for (unsigned n = c.draw(7); n > 0; --n) { unsigned p = pos(c); if (c.chance(1, 12)) { v[k].s.clear(); v[k].m.clear(); log << " clear"; continue; } bool b = c.chance(2, 3); if (b && c.coin()) v[k].s.setBit(p); else v[k].s.setBit(p, b); if (b) v[k].m.insert(p); else v[k].m.erase(p); log << (b ? " set " : " reset ") << p; } c.in(k ? "y" : "x", log.str()); }
	auto& x = v[0]; auto& y = v[1]; if (c.chance(1, 3)) { for (auto i : x.m) { y.s.setBit(i); y.m.insert(i); } c.in("y is joined with", "x"); }
	c.nontrivial(!x.m.empty() && !y.m.empty()); same(x.s, x.m, "x"); same(y.s, y.m, "y"); CHK_EQ(x.s.subsetOf(y.s), std::includes(y.m.begin(), y.m.end(), x.m.begin(), x.m.end()), "x subset of y"); CHK_EQ(y.s.subsetOf(x.s), std::includes(x.m.begin(), x.m.end(), y.m.begin(), y.m.end()), "y subset of x"); CHK(x.s.subsetOf(x.s), "x is not a subset of itself");
	auto u = x.m; u.insert(y.m.begin(), y.m.end()); same(x.s | y.s, u, "x | y"); auto t = x.s; t |= y.s; same(t, u, "x |= y"); t = x.s; t.calculateUnion(y.s); same(t, u, "union"); if (x.s == y.s) CHK(x.m == y.m, "different vectors are equal"); CHK(t == t, "a vector is not equal to itself"); carl::BitVector cp = x.s; CHK(cp == x.s, "a copy is different");
}
template<typename G> static void ids(pbt::Ctx& c, bool pool, G& g, std::size_t least) {
	std::set<std::size_t> live; std::size_t largest = 0; std::ostringstream log; bool used = false, cleared = false;
	for (unsigned n = 5 + c.draw(c.chance(1, 4) ? 200 : 30); n > 0; --n) {
		unsigned what = c.weighted({5, 3, 1, 0}); if (what == 2 && !c.chance(1, 6)) what = 0;
		if (what == 0) { auto i = g.get(); log << " get"; CHK(i >= least && live.insert(i).second, "after" << log.str() << ": the new identifier " << i << " is in use"); largest = std::max(largest, i); used = true; CHK(i < 400, "identifiers are not reused: " << i); }
		else if (what == 1 && !live.empty()) { auto it = live.begin(); std::advance(it, c.coin() ? live.size() - 1 : c.idx(live.size())); log << " free " << *it; g.free(*it); live.erase(it); }
		else if (what == 2) { g.clear(); live.clear(); cleared = true; log << " clear"; }
		if constexpr (std::is_same_v<G, carl::IDGenerator>) { CHK(live.empty() || g.nextID() > *live.rbegin(), "after" << log.str() << ": the next identifier is " << g.nextID()); if (what == 2) CHK_EQ(g.nextID(), std::size_t(1), "nextID after clear"); }
		else { CHK(!used || g.largestID() >= (live.empty() ? 0 : *live.rbegin()), "after" << log.str() << ": the largest identifier is " << g.largestID()); if (!cleared) CHK_EQ(g.largestID(), largest, "after" << log.str() << ": largestID"); CHK(live.empty() || g.size() > *live.rbegin(), "after" << log.str() << ": size"); }
	}
	c.in("calls", log.str()); c.nontrivial(live.size() > 1);
	// Identifiers stay dense: with n in use and nothing freed, the next ones fill the gaps.
	auto top = live.empty() ? 0 : *live.rbegin(); std::size_t gaps = 0; for (std::size_t i = least; i < top; ++i) if (!live.count(i)) ++gaps; for (std::size_t k = 0; k < gaps; ++k) { auto i = g.get(); CHK(live.insert(i).second, "the new identifier " << i << " is in use"); }
	if (!pool) for (std::size_t i = least; i < top; ++i) CHK(live.count(i), "identifier " << i << " is lost");
	else CHK(live.empty() || *live.rbegin() == top, "a gap was not filled");
}
LAW(identifier_pools, 1500, 30000) { carl::IDPool p; ids(c, true, p, 0); }
LAW(identifier_generators, 1500, 30000) { carl::IDGenerator g; ids(c, false, g, 1); }
PBT_MAIN("U01", "a case counts if the operands are not empty, or their storage differs, or several identifiers are in use")
