// Comparison of carl's real algebraic numbers with reference roots.
#pragma once
#include "roots.h"
#include <carl/ran/ran.h>
#include <carl/ran/real_roots.h>

namespace rr {
using gen::Q;
using rt::U; using rt::Root;
using UP = carl::UnivariatePolynomial<Q>;
using Iv = carl::Interval<Q>;
using RAN = carl::real_algebraic_number<Q>;
using Bd = carl::BoundType;

inline UP up(const U& a, std::size_t v = 0) { return UP(rp::vars()[v], a); }
inline Iv open(const Q& l, const Q& u) { return Iv(l, Bd::STRICT, u, Bd::STRICT); }
// The number r is the reference root: equal value, or a defining polynomial with exactly this root in its open interval.
inline void is(const RAN& r, Root ref, const std::string& what) {
	if (r.is_numeric()) { CHK(rt::cmp(ref, r.value()) == 0, what << " is the number " << r.value() << ", expected " << rt::show(ref)); return; }
	auto i = r.interval(); U p = r.polynomial().coefficients();
	CHK(i.lowerBoundType() == Bd::STRICT && i.upperBoundType() == Bd::STRICT && i.lower() < i.upper(), what << " has the interval " << i);
	CHK(!p.empty() && p.back() != 0, what << " has no defining polynomial");
	CHK(rt::cmp(ref, i.lower()) > 0 && rt::cmp(ref, i.upper()) < 0, what << " lies in " << i << ", expected " << rt::show(ref));
	CHK(rt::sign_at(p, ref) == 0, what << " is defined by " << r.polynomial() << " which does not vanish at " << rt::show(ref));
	int n = 0; for (auto& t : rt::isolate(p)) n += rt::cmp(t, i.lower()) > 0 && rt::cmp(t, i.upper()) < 0;
	CHK(n == 1, what << " has an interval with " << n << " roots of its polynomial");
}
// carl's number for a reference root, built in one of several ways.
inline RAN make(pbt::Ctx& c, Root r) {
	if (r.l == r.u && c.coin()) return RAN(r.l);
	if (r.l == r.u) { // an interval around a rational root
		Q l = r.l - Q(1) / Q(long(1 + c.draw(5))), u = r.l + Q(1) / Q(long(1 + c.draw(5)));
		U p = r.p; auto others = rt::isolate(p);
		for (auto& o : others) if (rt::cmp(o, r.l) != 0) { while (true) { bool in = rt::cmp(o, l) >= 0 && rt::cmp(o, u) <= 0; if (!in) break; l = (l + r.l) / 2; u = (u + r.l) / 2; } }
		return RAN(up(p), open(l, u));
	}
	for (unsigned k = unsigned(c.draw(4)); k > 0; --k) rt::refine(r);
	if (r.l == r.u) return RAN(r.l);
	return c.coin() ? RAN(up(r.p), open(r.l, r.u)) : RAN::create_safe(up(rt::mul(r.p, r.p)), open(r.l, r.u));
}
inline std::string show(const RAN& r) { std::ostringstream s; s << r; return s.str(); }
} // namespace rr
