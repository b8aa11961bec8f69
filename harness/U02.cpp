// Containers: trees, heaps and caches against simple reference containers.
#include "pbt.h"
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <vector>
#include <algorithm>
#include <carl/util/Heap.h>
#include <carl/util/carlTree.h>
#include <carl/util/Cache.h>
using Tree = carl::tree<int>; using Ints = std::vector<int>;
static std::string show(const Ints& v) { std::ostringstream o; for (auto x : v) o << x << " "; return o.str(); }
// Reference tree over distinct values.
struct R { int root = -1; std::map<int, Ints> ch; std::map<int, int> par;
	bool empty() const { return root < 0; }
	int depth(int v) const { int d = 0; while (v != root) { v = par.at(v); ++d; } return d; }
	void pre(int v, Ints& o) const { o.push_back(v); for (auto x : ch.at(v)) pre(x, o); }
	void post(int v, Ints& o) const { for (auto x : ch.at(v)) post(x, o); o.push_back(v); }
	int height(int v) const { int h = 0; for (auto x : ch.at(v)) h = std::max(h, 1 + height(x)); return h; }
	Ints all() const { Ints o; if (!empty()) pre(root, o); return o; }
	void drop(int v) { for (auto x : Ints(ch[v])) drop(x); ch.erase(v); par.erase(v); }
	void erase(int v) { if (v == root) { *this = R(); return; } auto& s = ch[par[v]]; s.erase(std::find(s.begin(), s.end(), v)); drop(v); }
};
template<typename I> static Ints walk(I b, const I& e, std::size_t lim) { Ints o; for (; b != e; ++b) { o.push_back(*b); CHK(o.size() <= lim, "the iteration does not end: " << show(o)); } return o; }
template<typename I> static Ints walk_post(I b, const I& e, std::size_t lim) { Ints o; while (b != e) { I k = b++; o.push_back(*k); CHK(o.size() <= lim, "the iteration does not end: " << show(o)); } return o; }
template<typename I> static Ints back(const I& b, I e, std::size_t lim) { Ints o; while (e != b) { --e; o.push_back(*e); CHK(o.size() <= lim, "the iteration does not end: " << show(o)); } return o; }
static void eq(const Ints& a, const Ints& b, const std::string& what) { CHK(a == b, what << " lists " << show(a) << ", expected " << show(b)); }
template<typename I, typename J> static void both(I b, I e, J rb, J re, Ints x, const std::string& what) {
	std::size_t n = x.size() + 1; eq(walk(b, e, n), x, what); eq(walk_post(b, e, n), x, what + " with postfix increments"); auto y = x; std::reverse(y.begin(), y.end()); eq(back(b, e, n), y, what + " from the end"); eq(walk(rb, re, n), y, what + " reversed"); eq(walk_post(rb, re, n), y, what + " reversed with postfix increments"); eq(back(rb, re, n), x, what + " reversed from the end");
}
static Tree::iterator find(const Tree& t, int v) { for (auto it = t.begin(); it != t.end(); ++it) if (*it == v) return it; CHK(false, "the value " << v << " is not in the tree"); return t.end(); }
static void same(const Tree& t, const R& r) {
	Ints p = r.all(), q, l; eq(walk(t.begin(), t.end(), p.size() + 1), p, "preorder"); std::ostringstream o, e; o << t; for (auto v : p) e << std::string(r.depth(v), '\t') << v << "\n"; CHK_EQ(o.str(), e.str(), "printed tree"); CHK(t.isConsistent(), "the tree is not consistent");
	if (!r.empty()) r.post(r.root, q); for (auto v : p) if (r.ch.at(v).empty()) l.push_back(v);
	both(t.begin_preorder(), t.end_preorder(), t.rbegin_preorder(), t.rend_preorder(), p, "preorder"); both(t.begin_postorder(), t.end_postorder(), t.rbegin_postorder(), t.rend_postorder(), q, "postorder"); both(t.begin_leaf(), t.end_leaf(), t.rbegin_leaf(), t.rend_leaf(), l, "leaves");
	{ Ints y = p; std::reverse(y.begin(), y.end()); eq(walk(t.rbegin(), t.rend(), p.size() + 1), y, "reversed"); }
	if (r.empty()) return;
	int h = r.height(r.root); CHK_EQ((int)t.max_depth(), h, "max_depth");
	for (int d = 0; d <= h + 1; ++d) { Ints x; for (auto v : p) if (r.depth(v) == d) x.push_back(v); if (d <= h) { auto e = t.end_depth(); e.depth = d; auto re = t.rend_depth(); re.depth = d; both(t.begin_depth(d), e, t.rbegin_depth(d), re, x, "depth " + std::to_string(d)); } else eq(walk(t.begin_depth(d), t.end_depth(), 1), x, "depth beyond"); }
	for (auto v : p) {
		auto it = find(t, v); CHK(it.isValid() && t.is_valid(it), "an iterator is not valid"); CHK_EQ((int)it.depth(), r.depth(v), "depth of " << v); CHK_EQ(it.isRoot(), v == r.root, "isRoot of " << v); CHK_EQ(t.is_leaf(it), r.ch.at(v).empty(), "is_leaf of " << v); CHK_EQ((int)t.max_depth(it), r.height(v), "max_depth below " << v);
		both(t.begin_children(it), t.end_children(it), t.rbegin_children(it), t.rend_children(it), r.ch.at(v), "children of " + std::to_string(v));
		Ints path; for (int w = v;; w = r.par.at(w)) { path.push_back(w); if (w == r.root) break; } eq(walk(t.begin_path(it), t.end_path(), path.size() + 1), path, "path");
		if (v != r.root) { auto& s = r.ch.at(r.par.at(v)); auto i = std::find(s.begin(), s.end(), v) - s.begin(); CHK_EQ(*t.get_parent(it), r.par.at(v), "parent of " << v); CHK_EQ(t.is_leftmost(it), i == 0, "is_leftmost of " << v); CHK_EQ(t.is_rightmost(it), i + 1 == (long)s.size(), "is_rightmost of " << v); if (i) CHK_EQ(*t.left_sibling(it), s[i - 1], "left sibling of " << v); }
		Ints sub; r.pre(v, sub); auto sk = it; sk.skipChildren(); auto k = std::find(p.begin(), p.end(), v) - p.begin() + sub.size(); CHK(k < p.size() ? sk != t.end() && *sk == p[k] : sk == t.end(), "skipping the children of " << v);
	}
}
LAW(trees, 800, 16000) {
	Tree t; R r; int fresh = 0; std::ostringstream log; unsigned n = 3 + c.draw(c.chance(1, 4) ? 40 : 12); auto add = [&](int p, int v, std::size_t at) { r.par[v] = p; r.ch[v]; auto& s = r.ch[p]; s.insert(s.begin() + at, v); };
	for (unsigned k = 0; k < n; ++k) {
		int v = ++fresh; Ints all = r.all();
		if (r.empty()) { auto it = t.setRoot(v); CHK(it.isRoot() && *it == v, "setRoot returns a wrong iterator"); r.root = v; r.ch[v]; log << " root " << v; }
		else switch (c.weighted({6, 3, 2, 1, 1, 1, 1})) {
			case 0: { int p = c.chance(1, 3) ? all.back() : all[c.idx(all.size())]; log << " append " << v << " to " << p; auto it = t.append(find(t, p), v); CHK_EQ(*it, v, "append returns"); add(p, v, r.ch[p].size()); break; }
			case 1: { int p = all[c.idx(all.size())]; if (p == r.root) break; log << " insert " << v << " before " << p; auto it = t.insert(find(t, p), v); CHK_EQ(*it, v, "insert returns"); auto& s = r.ch[r.par[p]]; add(r.par[p], v, std::find(s.begin(), s.end(), p) - s.begin()); break; }
			case 2: { int p = all[c.idx(all.size())]; if (p == r.root && !c.chance(1, 4)) break; log << " erase " << p; Ints sub; r.pre(p, sub); std::size_t nx = std::find(all.begin(), all.end(), p) - all.begin() + sub.size(); auto it = t.erase(find(t, p)); r.erase(p); CHK(nx < all.size() ? it != t.end() && it.isValid() && *it == all[nx] : it == t.end(), "after" << log.str() << ": erasing returns a wrong iterator"); break; }
			case 3: { int p = all[c.idx(all.size())]; log << " eraseChildren " << p; t.eraseChildren(find(t, p)); for (auto x : Ints(r.ch[p])) r.erase(x); break; }
			case 4: { int p = all[c.idx(all.size())]; log << " replace " << p << " by " << v; auto it = find(t, p); if (c.coin()) { *it = v; } else CHK(t.replace(it, v) == it, "replace returns another iterator"); if (p == r.root) r.root = v; else { r.par[v] = r.par[p]; r.par.erase(p); auto& s = r.ch[r.par[v]]; *std::find(s.begin(), s.end(), p) = v; } r.ch[v] = r.ch[p]; r.ch.erase(p); for (auto x : r.ch[v]) r.par[x] = v; break; }
			case 5: { log << " append " << v; auto it = t.append(v); CHK_EQ(*it, v, "append returns"); add(r.root, v, r.ch[r.root].size()); break; }
			default: if (c.chance(1, 4)) { log << " clear"; t.clear(); r = R(); } else if (c.coin()) { log << " copy"; Tree u = t; same(u, r); Tree w; w = u; u.clear(); t = std::move(w); } else { log << " root := " << v; t.setRoot(v); r.ch[v] = r.ch[r.root]; r.ch.erase(r.root); r.root = v; for (auto x : r.ch[v]) r.par[x] = v; } break;
		}
		if (k + 1 == n || c.chance(1, 6)) { c.in("steps", log.str()); same(t, r); }
	}
	c.nontrivial(r.all().size() > 3);
}
struct E { int key, tag; }; static bool operator<(const E& a, const E& b) { return a.key != b.key ? a.key < b.key : a.tag < b.tag; }
template<bool FI> struct Conf { using Entry = E; using CompareResult = int; static const bool fastIndex = FI, supportDeduplicationWhileOrdering = false; int compare(const E& a, const E& b) { return a.key - b.key; } int compare(const E& a, const E& b) const { return a.key - b.key; } bool cmpLessThan(int r) const { return r < 0; } bool cmpEqual(int r) const { return r == 0; } };
template<bool FI> static void heaps(pbt::Ctx& c) {
	Conf<FI> conf; carl::Heap<Conf<FI>> h(conf); std::multiset<E> m; std::ostringstream log; int tag = 0; unsigned n = 5 + c.draw(c.chance(1, 4) ? 150 : 30); int span = c.pick({2, 10, 1000});
	auto check = [&] { CHK_EQ(h.size(), m.size(), "size after" << log.str()); CHK_EQ(h.empty(), m.empty(), "empty after" << log.str()); if (!m.empty()) CHK_EQ(h.top().key, m.rbegin()->key, "top after" << log.str()); };
	for (unsigned k = 0; k < n; ++k) {
		switch (c.weighted({5, 3, 2, 2, 1})) {
			case 0: { E e{(int)c.range(-span, span), ++tag}; log << " push " << e.key; h.push(e); m.insert(e); break; }
			case 1: { if (m.empty()) break; log << " pop"; E e = h.pop(); CHK(m.count(e), "popped an entry that is not there, after" << log.str()); CHK_EQ(e.key, m.rbegin()->key, "popped entry after" << log.str()); m.erase(m.find(e)); break; }
			case 2: { if (m.empty()) break; E old = h.top(); E e{(int)c.range(-span, old.key), ++tag}; log << " decreaseTop " << e.key; h.decreaseTop(e); m.erase(m.find(old)); m.insert(e); break; }
			case 3: { if (m.empty()) break; auto it = h.begin(); for (auto i = c.idx(m.size()); i > 0; --i) it.next(); E e = it.get(); log << " remove " << e.key; CHK(m.count(e), "an entry that is not there is listed, after" << log.str()); h.popPosition(it); m.erase(m.find(e)); break; }
			default: { std::vector<E> v; for (unsigned i = c.draw(5); i > 0; --i) v.push_back({(int)c.range(-span, span), ++tag}); log << " push " << v.size() << " entries"; h.push(v.data(), v.data() + v.size()); m.insert(v.begin(), v.end()); break; }
		}
		check(); if (c.chance(1, 8)) { std::multiset<E> l; for (auto it = h.begin(); it != h.end(); it.next()) { l.insert(it.get()); CHK(l.size() <= m.size(), "too many entries are listed"); } CHK(l.size() == m.size() && std::equal(l.begin(), l.end(), m.begin(), [](auto& a, auto& b) { return a.key == b.key && a.tag == b.tag; }), "the listed entries are wrong after" << log.str()); carl::Heap<Conf<FI>> cp(h); std::multiset<E> left = m; CHK_EQ(cp.size(), m.size(), "size of a copy after" << log.str()); if (c.coin()) { E e{(int)c.range(-span, span), ++tag}; cp.push(e); left.insert(e); } while (!left.empty()) { E e = cp.pop(); CHK(left.count(e) && e.key == left.rbegin()->key, "the entries of a copy do not come out sorted, after" << log.str()); left.erase(left.find(e)); } CHK(cp.empty(), "the copy is not empty"); check(); }
	}
	c.in("steps", log.str()); c.nontrivial(m.size() > 2); while (!m.empty()) { E e = h.pop(); CHK(m.count(e) && e.key == m.rbegin()->key, "the entries do not come out sorted, after" << log.str()); m.erase(m.find(e)); } CHK(h.empty(), "the heap is not empty");
}
LAW(heaps_with_fast_index, 1500, 30000) { heaps<true>(c); }
LAW(heaps_with_plain_index, 1500, 30000) { heaps<false>(c); }
// Elements of the cache: a value that may be changed in place; the hash is only updated on request.
struct El { mutable long v; mutable std::size_t h; static long live; El(long v): v(v), h(std::hash<long>()(v) * 7) { ++live; } ~El() { --live; v = -1; } void rehash() const { h = std::hash<long>()(v) * 7; } std::size_t getHash() const { return h; } bool operator==(const El& o) const { return v == o.v; } };
long El::live = 0; static std::ostream& operator<<(std::ostream& o, const El& e) { return o << e.v; }
LAW(caches, 1500, 30000) {
	El::live = 0; std::size_t cap = c.pick({1, 2, 3, 5, 8, 50}); std::ostringstream log; std::set<std::size_t> merged;
	{ carl::Cache<El> cache(cap, c.pick({0.0, 0.2, 0.9}), c.pick({0.9, 0.98, 1.0}));
	std::map<long, std::size_t> uses; std::map<std::size_t, long> val; std::map<std::size_t, std::size_t> held; // what each held reference stands for, and how often it is held
	unsigned n = 10 + c.draw(60); long span = 3 + c.draw(20); bool decayed = false;
	for (unsigned k = 0; k < n; ++k) {
		std::vector<std::size_t> refs; for (auto& x : held) refs.push_back(x.first);
		std::set<const El*> used; for (auto& x : held) used.insert(&cache.get(x.first)); const long before = El::live; const bool room = before > long(used.size()), full = before >= long(cap);
		switch (c.weighted({6, 4, 3, 1, 1, 1, 1})) {
			case 0: { long v = c.draw(span); auto e = new El(v); bool inuse = false; std::size_t known = 0; for (auto& x : held) if (val[x.first] == v) { inuse = true; known = x.first; } auto r = cache.cache(e); if (!r.second) delete e; log << " cache " << v << "->" << r.first; if (full && room && !decayed) CHK(El::live <= before, "after" << log.str() << ": the cache of " << cap << " grew from " << before << " to " << El::live << " elements although only " << used.size() << " are used"); CHK(r.first != carl::Cache<El>::NO_REF, "the reference is none"); if (inuse) { CHK(!r.second, "after" << log.str() << ": a used element was inserted again"); CHK(held.count(r.first) == 0 || val[r.first] == v, "after" << log.str() << ": wrong reference"); }
				CHK(!held.count(r.first) || val[r.first] == v, "after" << log.str() << ": the reference is in use for " << val[r.first]); cache.reg(r.first); val[r.first] = v; ++held[r.first]; CHK_EQ(cache.get(r.first).v, v, "after" << log.str() << ": get"); if (inuse) CHK(&cache.get(r.first) == &cache.get(known), "equal elements are stored twice"); break; }
			case 1: { if (refs.empty()) break; auto r = refs[c.idx(refs.size())]; log << " dereg " << r; if (--held[r] == 0) held.erase(r); cache.dereg(r); break; }
			case 2: { if (refs.empty()) break; auto r = refs[c.idx(refs.size())]; log << " reg " << r; cache.reg(r); ++held[r]; break; }
			case 3: { if (refs.empty()) break; auto r = refs[c.idx(refs.size())]; log << " strengthen " << r; cache.strengthenActivity(r); break; }
			case 4: { log << " decay"; decayed = true; for (unsigned i = c.draw(3) * 400; i > 0; --i) cache.decayActivity(); break; }
			case 5: { // change the value in place, possibly to one that is already there
				if (refs.empty()) break; auto r = refs[c.idx(refs.size())]; long v = c.draw(span), old = val[r]; if (v == old) break; log << " change " << r << " to " << v; cache.get(r).v = v; cache.rehash(r); for (auto& x : val) if (held.count(x.first) && x.second == old) x.second = v; break; }
			default: { // an update of the stored element by an equal one
				if (refs.empty()) break; auto r = refs[c.idx(refs.size())]; long v = val[r]; auto e = new El(v); log << " update " << r; auto q = cache.cache(e, [](const El&, const El&) { return true; }, [](const El&, const El&) {}); CHK(!q.second, "after" << log.str() << ": a used element was inserted again"); delete e; CHK(!held.count(q.first) || val[q.first] == v, "after" << log.str() << ": wrong reference"); val[q.first] = v; cache.reg(q.first); ++held[q.first]; break; }
		}
		for (auto& x : held) CHK_EQ(cache.get(x.first).v, val[x.first], "after" << log.str() << ": the element of reference " << x.first);
		std::map<long, const El*> where; for (auto& x : held) { auto p = &cache.get(x.first); auto it = where.emplace(val[x.first], p).first; CHK(it->second == p, "after" << log.str() << ": equal elements are stored twice"); }
	}
	c.in("capacity", cap); c.in("steps", log.str()); c.nontrivial(held.size() > 1); std::ostringstream o; cache.print(o); }
	CHK_EQ(El::live, 0L, "elements that are left after the cache is gone");
}
PBT_MAIN("U02", "a case counts if several elements are in the container at the end")
