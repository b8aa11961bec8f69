// Reference real algebraic numbers: dense univariate polynomials over the rationals, Sturm sequences,
// isolating intervals, and number fields Q(g) with Sturm sequences over them.
#pragma once
#include "poly.h"

namespace rt {
using gen::Q;
using gen::Z;
using U = std::vector<Q>; // index = exponent, no leading zeroes

inline U trim(U a) { while (!a.empty() && a.back() == 0) a.pop_back(); return a; }
inline int deg(const U& a) { return int(a.size()) - 1; }
inline U add(const U& a, const U& b) { U r(std::max(a.size(), b.size())); for (std::size_t i = 0; i < r.size(); ++i) { if (i < a.size()) r[i] += a[i]; if (i < b.size()) r[i] += b[i]; } return trim(r); }
inline U neg(U a) { for (auto& q : a) q = -q; return a; }
inline U sub(const U& a, const U& b) { return add(a, neg(b)); }
inline U scale(U a, const Q& k) { for (auto& q : a) q *= k; return trim(a); }
inline U mul(const U& a, const U& b) { if (a.empty() || b.empty()) return {}; U r(a.size() + b.size() - 1); for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; j < b.size(); ++j) r[i + j] += a[i] * b[j]; return trim(r); }
inline U diff(const U& a) { U r; for (std::size_t i = 1; i < a.size(); ++i) r.push_back(a[i] * Q(long(i))); return trim(r); }
inline Q eval(const U& a, const Q& x) { Q r(0); for (std::size_t i = a.size(); i-- > 0;) r = r * x + a[i]; return r; }
inline void divmod(U a, const U& b, U& q, U& r) {
	q.assign(a.size() >= b.size() ? a.size() - b.size() + 1 : 0, Q(0));
	while (a.size() >= b.size()) {
		Q k = a.back() / b.back(); std::size_t s = a.size() - b.size();
		q[s] = k;
		for (std::size_t i = 0; i < b.size(); ++i) a[s + i] -= k * b[i];
		a = trim(a);
		if (a.empty()) break;
	}
	q = trim(q); r = a;
}
inline U rem(const U& a, const U& b) { U q, r; divmod(a, b, q, r); return r; }
inline U quo(const U& a, const U& b) { U q, r; divmod(a, b, q, r); return q; }
inline U monic(const U& a) { return a.empty() ? a : scale(a, Q(1) / a.back()); }
inline U gcd(U a, U b) { while (!b.empty()) { U r = monic(rem(a, b)); a = b; b = r; } return monic(a); }
inline U sqfree(const U& a) { return deg(a) < 1 ? a : quo(a, gcd(a, diff(a))); }
inline U compose(const U& a, const U& b) { U r; for (std::size_t i = a.size(); i-- > 0;) r = add(mul(r, b), trim({a[i]})); return r; }
inline U from_roots(const std::vector<Q>& rs) { U r{Q(1)}; for (auto& q : rs) r = mul(r, trim({-q, Q(1)})); return r; }
inline rp::P to_p(const U& a, std::size_t v) { rp::P r; for (std::size_t i = 0; i < a.size(); ++i) { rp::Exp e{}; e[v] = unsigned(i); r.add(e, a[i]); } return r; }
inline std::string show(const U& a) { std::ostringstream s; s << to_p(a, 0); return s.str(); }

inline std::vector<U> sturm(const U& a) {
	std::vector<U> s{a, diff(a)};
	if (s[1].empty()) { s.pop_back(); return s; }
	for (;;) { U r = neg(rem(s[s.size() - 2], s.back())); if (r.empty()) return s; Q k = gen::qabs(r.back()); s.push_back(scale(r, Q(1) / k)); }
}
inline int changes(const std::vector<int>& v) { int last = 0, n = 0; for (int s : v) if (s) { if (last && s != last) ++n; last = s; } return n; }
inline int var_at(const std::vector<U>& s, const Q& x) { std::vector<int> v; for (auto& p : s) v.push_back(sgn(eval(p, x))); return changes(v); }
inline int var_inf(const std::vector<U>& s, bool plus) { std::vector<int> v; for (auto& p : s) v.push_back(p.empty() ? 0 : sgn(p.back()) * (!plus && deg(p) % 2 ? -1 : 1)); return changes(v); }
// Number of distinct roots in (a, b]; all real roots.
inline int count_half(const std::vector<U>& s, const Q& a, const Q& b) { return var_at(s, a) - var_at(s, b); }
inline int count_all(const std::vector<U>& s) { return var_inf(s, false) - var_inf(s, true); }
inline Q bound(const U& a) { Q m(0); for (std::size_t i = 0; i + 1 < a.size(); ++i) { Q k = gen::qabs(a[i] / a.back()); if (k > m) m = k; } return m + 1; }

// A root of the square-free polynomial p: the point l when l == u, otherwise the only root in the
// open interval (l, u), whose ends are no roots.
struct Root { U p; Q l, u; };
inline void refine(Root& r) {
	if (r.l == r.u) return;
	Q m = (r.l + r.u) / 2; int s = sgn(eval(r.p, m));
	if (s == 0) { r.l = r.u = m; return; }
	if (s == sgn(eval(r.p, r.l))) r.l = m; else r.u = m;
}
inline void refine_to(Root& r, const Q& w) { while (r.u - r.l > w) refine(r); }
inline std::vector<Root> isolate(const U& a) {
	std::vector<Root> res;
	if (deg(a) < 1) return res;
	U p = sqfree(a); auto s = sturm(p);
	std::function<void(const Q&, const Q&)> go = [&](const Q& l, const Q& u) { // roots in (l, u]
		int n = count_half(s, l, u);
		if (n == 0) return;
		bool ul = eval(p, u) == 0;
		if (n == 1 && ul) { res.push_back({p, u, u}); return; }
		if (n == 1) { // the left end may itself be a root of its neighbour
			Q ll = l; Root r{p, ll, u};
			while (r.l != r.u && eval(p, r.l) == 0) { Q m = (r.l + r.u) / 2; if (count_half(s, m, r.u) == 1) r.l = m; else { r.u = m; if (eval(p, m) == 0) { r.l = m; } } }
			res.push_back(r); return;
		}
		Q m = (l + u) / 2; go(l, m); go(m, u);
	};
	Q b = bound(p); go(-b, b);
	return res;
}
inline int cmp(Root& r, const Q& q) {
	if (r.l == r.u) return ::cmp(r.l, q);
	if (q > r.l && q < r.u) { int s = sgn(eval(r.p, q)); if (s == 0) { r.l = r.u = q; return 0; } if (s == sgn(eval(r.p, r.l))) r.l = q; else r.u = q; }
	return q <= r.l ? 1 : -1;
}
// Sign of q at the root.
inline int sign_at(const U& q, Root& r) {
	if (q.empty()) return 0;
	if (r.l == r.u) return sgn(eval(q, r.l));
	U g = gcd(q, r.p);
	if (deg(g) >= 1) { auto s = sturm(g); int n = count_half(s, r.l, r.u); if (n > 0) return 0; } // g divides p, so the ends are no roots
	auto s = sturm(q);
	while (r.l != r.u && (eval(q, r.l) == 0 || eval(q, r.u) == 0 || count_half(s, r.l, r.u) > 0)) refine(r);
	return sgn(eval(q, r.l));
}
inline int cmp(Root& a, Root& b) {
	if (a.l == a.u) return -cmp(b, a.l);
	if (b.l == b.u) return cmp(a, b.l);
	if (a.l < b.u && b.l < a.u) {
		U g = gcd(a.p, b.p);
		Q l = std::max(a.l, b.l), u = std::min(a.u, b.u);
		if (deg(g) >= 1) { auto s = sturm(g); if (count_half(s, l, u) > 0) { // a common root inside both intervals
			return 0; } }
		while (a.l != a.u && b.l != b.u && a.l < b.u && b.l < a.u) { refine(a); refine(b); }
		if (a.l == a.u) return -cmp(b, a.l);
		if (b.l == b.u) return cmp(a, b.l);
	}
	return a.u <= b.l ? -1 : 1;
}
inline std::string show(const Root& r) { std::ostringstream s; if (r.l == r.u) s << r.l; else s << "the root of " << show(r.p) << " in (" << r.l << ", " << r.u << ")"; return s.str(); }

// ---- the field Q(g) for a root g of an irreducible polynomial
struct Field { U m; Root g; };
using El = U;
inline El fmul(const Field& f, const El& a, const El& b) { return rem(mul(a, b), f.m); }
inline El finv(const Field& f, const El& a) {
	// extended Euclid: s * a = 1 modulo m
	U r0 = f.m, r1 = a, s0, s1{Q(1)};
	while (deg(r1) > 0) { U q, r; divmod(r0, r1, q, r); U s = sub(s0, mul(q, s1)); r0 = r1; r1 = r; s0 = s1; s1 = s; }
	return rem(scale(s1, Q(1) / r1[0]), f.m);
}
inline int fsign(Field& f, const El& a) { return sign_at(rem(a, f.m), f.g); }
using FP = std::vector<El>; // polynomials over the field
inline FP ftrim(FP a) { while (!a.empty() && a.back().empty()) a.pop_back(); return a; }
inline FP frem(const Field& f, FP a, const FP& b) {
	El inv = finv(f, b.back());
	while (a.size() >= b.size()) {
		El k = fmul(f, a.back(), inv); std::size_t s = a.size() - b.size();
		for (std::size_t i = 0; i < b.size(); ++i) a[s + i] = sub(a[s + i], fmul(f, k, b[i]));
		a.pop_back(); a = ftrim(a);
		if (a.empty()) break;
	}
	return a;
}
inline FP fdiff(const FP& a) { FP r; for (std::size_t i = 1; i < a.size(); ++i) r.push_back(scale(a[i], Q(long(i)))); return ftrim(r); }
inline El feval(const Field& f, const FP& a, const Q& x) { (void)f; El r; for (std::size_t i = a.size(); i-- > 0;) r = add(scale(r, x), a[i]); return r; }
inline std::vector<FP> fsturm(const Field& f, const FP& a) {
	std::vector<FP> s{a, fdiff(a)};
	if (s[1].empty()) { s.pop_back(); return s; }
	for (;;) { FP r = frem(f, s[s.size() - 2], s.back()); if (r.empty()) return s; for (auto& e : r) e = neg(e); s.push_back(r); }
}
inline int fvar(Field& f, const std::vector<FP>& s, const Q& x) { std::vector<int> v; for (auto& p : s) v.push_back(fsign(f, feval(f, p, x))); return changes(v); }
inline int fvar_inf(Field& f, const std::vector<FP>& s, bool plus) { std::vector<int> v; for (auto& p : s) v.push_back(p.empty() ? 0 : fsign(f, p.back()) * (!plus && (p.size() - 1) % 2 ? -1 : 1)); return changes(v); }
// Characteristic polynomial of multiplication by a (Faddeev-LeVerrier); a is a root of it.
inline U charpoly(const Field& f, const El& a) {
	std::size_t n = f.m.size() - 1;
	using M = std::vector<std::vector<Q>>;
	M A(n, std::vector<Q>(n));
	for (std::size_t j = 0; j < n; ++j) { U e(j + 1); e[j] = 1; El c = fmul(f, a, e); for (std::size_t i = 0; i < c.size(); ++i) A[i][j] = c[i]; }
	U res(n + 1); res[n] = 1; M B(n, std::vector<Q>(n));
	for (std::size_t k = 1; k <= n; ++k) {
		M T(n, std::vector<Q>(n)); // B = A*B + c*I
		for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) { for (std::size_t l = 0; l < n; ++l) T[i][j] += A[i][l] * B[l][j]; if (i == j) T[i][j] += res[n - k + 1]; }
		B = T; Q tr(0);
		for (std::size_t i = 0; i < n; ++i) for (std::size_t l = 0; l < n; ++l) tr += A[i][l] * B[l][i];
		res[n - k] = -tr / Q(long(k));
	}
	return res;
}
// Reference root for a field element.
inline Root element_root(Field& f, const El& a) {
	if (deg(a) < 1) { Q q = a.empty() ? Q(0) : a[0]; return {from_roots({q}), q, q}; }
	for (auto& r : isolate(charpoly(f, a))) {
		if (r.l == r.u) { if (fsign(f, sub(a, trim({r.l}))) == 0) return r; continue; }
		if (fsign(f, sub(a, trim({r.l}))) > 0 && fsign(f, sub(a, trim({r.u}))) < 0) return r;
	}
	CHK(false, "reference: no root for a field element");
	return {};
}

// ---- generators
inline Q small(pbt::Ctx& c) { return gen::small_rational(c, 6, 3); }
// A polynomial with interesting real roots: rational and irrational ones, close ones, multiple ones.
inline U poly(pbt::Ctx& c, int factors) {
	U r{Q(1)};
	int n = 1 + int(c.draw(std::uint64_t(factors)));
	for (int i = 0; i < n; ++i) {
		U f;
		switch (c.weighted({4, 4, 2, 2, 1, 1, 1})) {
			case 0: f = from_roots({small(c)}); break;
			case 1: f = {Q(-long(1 + c.draw(12))), Q(long(c.range(-4, 4))), Q(1)}; break; // two real roots, often irrational
			case 2: { f.resize(2 + c.draw(4)); for (auto& q : f) q = Q(long(c.range(-5, 5))); f = trim(f); break; }
			case 3: f = {Q(long(1 + c.draw(9))), Q(0), Q(1)}; break; // no real root
			case 4: { Q q = small(c), d = gen::frac(Z(1), Z(1) << unsigned(4 + c.draw(16))); f = from_roots({q, q + d}); break; } // close roots
			case 5: f = {Q(-long(2 + c.draw(5))), Q(0), Q(0), Q(1)}; break;
			default: { long k = long(c.range(-6, 6)); Q e = gen::frac(Z(1), Z(1000 + long(c.draw(100000)))); f = {Q(k * k) - e, Q(-2 * k), Q(1)}; break; } // two close irrational roots
		}
		if (f.empty()) f = {Q(1)};
		r = mul(r, f);
		if (c.chance(1, 8)) r = mul(r, f);
	}
	if (c.chance(1, 4)) { Q k = small(c); if (k == 0) k = -1; r = scale(r, k); }
	return r;
}
// An irreducible polynomial of degree 2 to 4 with a real root.
inline U irreducible(pbt::Ctx& c) {
	static const std::vector<U> base = {
		{-2, 0, 1}, {-3, 0, 1}, {-5, 0, 1}, {-1, -1, 1}, {-2, 0, 0, 1}, {-1, -1, 0, 1}, {1, -3, 0, 1}, {-3, 0, 0, 1}, {1, 0, -10, 0, 1}, {-2, 0, 0, 0, 1}, {-1, -1, 0, 0, 1}, {2, 0, -4, 0, 1}};
	U m = base[c.idx(base.size())];
	if (c.chance(1, 3)) { Q k = small(c); if (k == 0) k = 2; m = compose(m, trim({small(c), k})); }
	return m;
}
inline Field field(pbt::Ctx& c, int maxdeg = 4) {
	Field f;
	f.m = irreducible(c);
	if (deg(f.m) > maxdeg) f.m = {-2, 0, 1};
	auto rs = isolate(f.m);
	f.g = rs[c.idx(rs.size())];
	return f;
}
inline El element(pbt::Ctx& c, const Field& f) {
	El e(f.m.size() - 1);
	for (auto& q : e) if (!c.chance(1, 3)) q = gen::small_rational(c, 3, 2);
	return trim(e);
}
} // namespace rt
