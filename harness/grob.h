// Reference Groebner bases in the documented graded order of monomials.
#pragma once
#include "poly.h"
namespace gr {
using namespace gen;
using rp::P; using rp::Exp; using rp::K;
inline int cmp(const Exp& a, const Exp& b) {
	unsigned da = 0, db = 0;
	for (std::size_t i = 0; i < K; ++i) { da += a[i]; db += b[i]; }
	if (da != db) return da < db ? -1 : 1;
	for (std::size_t i = 0; i < K; ++i) if (a[i] != b[i]) return a[i] > b[i] ? -1 : 1;
	return 0;
}
inline Exp lead(const P& p) { Exp e = p.t.begin()->first; for (auto& m : p.t) if (cmp(m.first, e) > 0) e = m.first; return e; }
inline bool div(const Exp& a, const Exp& b) { for (std::size_t i = 0; i < K; ++i) if (a[i] < b[i]) return false; return true; }
inline P shift(const P& p, const Exp& e, const Q& q) { P r; for (auto& m : p.t) { Exp x; for (std::size_t i = 0; i < K; ++i) x[i] = m.first[i] + e[i]; r.t[x] = m.second * q; } return r; }
inline P monic(const P& p) { return p.zero() ? p : rp::scale(p, Q(1 / p.at(lead(p)))); }
struct too_long {};
struct Work { long steps = 0, limit = 200000; void tick(std::size_t n) { if ((steps += long(n)) > limit) throw too_long(); } };
// Full remainder of p by the polynomials g.
inline P reduce(P p, const std::vector<P>& g, Work& w) {
	std::vector<Exp> l; for (auto& q : g) l.push_back(lead(q));
	P r;
	while (!p.zero()) {
		Exp e = lead(p); Q k = p.at(e); bool hit = false; w.tick(p.t.size());
		for (std::size_t i = 0; i < g.size() && !hit; ++i) if (div(e, l[i])) { Exp d; for (std::size_t j = 0; j < K; ++j) d[j] = e[j] - l[i][j]; p = p - shift(g[i], d, Q(k / g[i].at(l[i]))); hit = true; }
		if (!hit) { r.add(e, k); p.t.erase(e); }
	}
	return r;
}
// Reduced Groebner basis, sorted by leading monomial; empty for the zero ideal.
inline std::vector<P> basis(const std::vector<P>& in, Work& w) {
	std::vector<P> g; std::vector<std::pair<std::size_t, std::size_t>> todo;
	auto add = [&](const P& p) { P r = reduce(p, g, w); if (r.zero()) return; r = monic(r); for (std::size_t i = 0; i < g.size(); ++i) todo.emplace_back(i, g.size()); g.push_back(r); };
	for (auto& p : in) add(p);
	while (!todo.empty()) {
		std::size_t best = 0; auto deg = [&](const std::pair<std::size_t, std::size_t>& t) { Exp a = lead(g[t.first]), b = lead(g[t.second]); unsigned d = 0; for (std::size_t i = 0; i < K; ++i) d += std::max(a[i], b[i]); return d; };
		for (std::size_t i = 1; i < todo.size(); ++i) if (deg(todo[i]) < deg(todo[best])) best = i;
		auto t = todo[best]; todo.erase(todo.begin() + long(best));
		Exp a = lead(g[t.first]), b = lead(g[t.second]), x, y; bool coprime = true;
		for (std::size_t i = 0; i < K; ++i) { unsigned m = std::max(a[i], b[i]); x[i] = m - a[i]; y[i] = m - b[i]; coprime = coprime && (!a[i] || !b[i]); }
		if (!coprime) add(shift(g[t.first], x, 1) - shift(g[t.second], y, 1));
	}
	std::vector<P> m;
	for (std::size_t i = 0; i < g.size(); ++i) {
		bool keep = true;
		for (std::size_t j = 0; j < g.size(); ++j) if (i != j && div(lead(g[i]), lead(g[j])) && (lead(g[i]) != lead(g[j]) || j < i)) keep = false;
		if (keep) m.push_back(g[i]);
	}
	std::vector<P> r;
	for (std::size_t i = 0; i < m.size(); ++i) { std::vector<P> o; for (std::size_t j = 0; j < m.size(); ++j) if (j != i) o.push_back(m[j]); r.push_back(monic(reduce(m[i], o, w))); }
	std::sort(r.begin(), r.end(), [](const P& a, const P& b) { return cmp(lead(a), lead(b)) < 0; });
	return r;
}
}
