// Generators shared by the harnesses. Everything is built from plain GMP values and strings, never
// through the operations that are being judged.
#pragma once
#include "pbt.h"
#include <gmpxx.h>
#include <algorithm>
#include <cmath>
#include <limits>

namespace gen {
using Z = mpz_class;
using Q = mpq_class;

inline Z z_pow2(unsigned long e) { Z r; mpz_ui_pow_ui(r.get_mpz_t(), 2, e); return r; }
inline Z z_pow(const Z& b, unsigned long e) { Z r; mpz_pow_ui(r.get_mpz_t(), b.get_mpz_t(), e); return r; }
inline Q q_pow(const Q& b, unsigned long e) { Q r(1); for (unsigned long i = 0; i < e; ++i) r *= b; return r; }
inline Q frac(const Z& n, const Z& d) { Q r(n, d); r.canonicalize(); return r; }

// Random bits, simplest is 0.
inline Z bits(pbt::Ctx& c, unsigned n) {
	Z r = 0;
	while (n > 0) {
		unsigned k = n < 32 ? n : 32;
		r <<= k;
		r += static_cast<unsigned long>(c.draw(std::uint64_t(1) << k));
		n -= k;
	}
	return r;
}
// Integer of very different magnitudes, with values next to the limits of native types.
inline Z integer(pbt::Ctx& c) {
	Z r;
	switch (c.weighted({50, 20, 12, 10, 8})) {
		case 0: return Z(long(c.range(-12, 12)));
		case 1: return Z(long(c.range(-1000, 1000)));
		case 2: r = bits(c, 33); break;
		case 3: r = z_pow2(c.pick<unsigned>({8, 16, 24, 31, 32, 52, 53, 54, 62, 63, 64, 65, 127, 128})) + long(c.range(-3, 3)); break;
		default: r = bits(c, unsigned(40 + c.draw(260))); break;
	}
	return c.coin() ? Z(-r) : r;
}
inline Z nonzero_integer(pbt::Ctx& c) { Z r = integer(c); return r == 0 ? Z(1) : r; }
inline Z positive_integer(pbt::Ctx& c) { Z r = nonzero_integer(c); return r < 0 ? Z(-r) : r; }
inline Q rational(pbt::Ctx& c) {
	if (c.chance(1, 3)) return Q(integer(c));
	if (c.chance(2, 3)) return frac(Z(long(c.range(-40, 40))), Z(long(1 + c.draw(12))));
	return frac(integer(c), positive_integer(c));
}
inline Q nonzero_rational(pbt::Ctx& c) { Q r = rational(c); return r == 0 ? Q(1) : r; }
inline Q small_rational(pbt::Ctx& c, long n = 10, long d = 6) {
	if (c.chance(2, 3)) return Q(long(c.range(-n, n)));
	return frac(Z(long(c.range(-n, n))), Z(long(1 + c.draw(std::uint64_t(d)))));
}
inline Z small_integer(pbt::Ctx& c, long n = 10) { return Z(long(c.range(-n, n))); }

inline Z zabs(const Z& a) { return a < 0 ? Z(-a) : a; }
inline Q qabs(const Q& a) { return a < 0 ? Q(-a) : a; }
inline Z q_floor(const Q& a) { Z r; mpz_fdiv_q(r.get_mpz_t(), a.get_num().get_mpz_t(), a.get_den().get_mpz_t()); return r; }
inline Z q_ceil(const Q& a) { Z r; mpz_cdiv_q(r.get_mpz_t(), a.get_num().get_mpz_t(), a.get_den().get_mpz_t()); return r; }
inline bool canonical(const Q& a) {
	Q b = a; b.canonicalize();
	return mpz_cmp(a.get_num_mpz_t(), b.get_num_mpz_t()) == 0 && mpz_cmp(a.get_den_mpz_t(), b.get_den_mpz_t()) == 0;
}
// Finite double of very different magnitudes.
inline double dbl(pbt::Ctx& c) {
	switch (c.weighted({40, 20, 20, 10, 10})) {
		case 0: return double(c.range(-20, 20)) / double(1u << c.draw(4));
		case 1: return std::ldexp(double(c.range(-1000000, 1000000)), int(c.range(-40, 40)));
		case 2: return double(c.range(-1000, 1000)) / double(1 + c.draw(999));
		case 3: return (c.coin() ? -1.0 : 1.0) * std::ldexp(1.0 + double(c.draw(1u << 30)) / double(1u << 30), int(c.range(-1060, 1020)));
		default: {
			double v = c.pick({0.0, -0.0, 1.0, std::numeric_limits<double>::min(), std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::max(), std::numeric_limits<double>::epsilon(), 9007199254740992.0, 9007199254740993.0, 4294967296.0});
			return c.coin() ? -v : v;
		}
	}
}
} // namespace gen
