// N02: arithmetic modulo prime powers, prime numbers and integer factorisation.
#include "gen.h"
#include <carl/numbers/numbers.h>
#include <carl/numbers/PrimeFactory.h>
#include <carl/numbers/FactorizationFactory.h>
using namespace gen;
using GF = carl::GaloisField<Z>;
using GN = carl::GFNumber<Z>;

static bool is_prime(std::uint64_t n) {
	if (n < 2) return false;
	for (std::uint64_t d = 2; d * d <= n; ++d) if (n % d == 0) return false;
	return true;
}
static Z sym(const Z& n, const Z& m) {
	Z r; mpz_mod(r.get_mpz_t(), n.get_mpz_t(), m.get_mpz_t());
	if (2 * r > m) r -= m;
	return r;
}
static unsigned prime(pbt::Ctx& c) {
	return c.pick<unsigned>({3, 5, 7, 2, 11, 13, 17, 31, 97, 101, 251, 257, 65537, 1000003, 2147483647u, 4294967291u});
}

LAW(field_arithmetic, 200000, 4000000) {
	unsigned p = prime(c), k = 1 + unsigned(c.weighted({6, 2, 1, 1}));
	auto* gf = carl::GaloisFieldManager<Z>::getInstance().getField(p, k);
	Z m = z_pow(Z(p), k);
	CHK_EQ(gf->size(), m, "size of GF(" << p << "^" << k << ")");
	CHK(gf->p() == p && gf->k() == k, "parameters");
	CHK(carl::GaloisFieldManager<Z>::getInstance().getField(p, k) == gf, "field is not shared");
	Z a = integer(c), b = integer(c);
	if (c.chance(1, 4)) b = c.coin() ? Z(-a) : Z(m - a);
	if (c.chance(1, 4)) a = m * small_integer(c, 3) + long(c.range(-2, 2));
	c.in("p", p); c.in("k", k); c.in("a", a); c.in("b", b);
	c.nontrivial(sym(a, m) != 0 && sym(b, m) != 0 && (zabs(a) > m / 2 || zabs(b) > m / 2));
	c.label_if(a < 0, "negative");
	CHK_EQ(gf->symmetricModulo(a), sym(a, m), "symmetricModulo(" << a << ") mod " << m);
	CHK_EQ(gf->modulo(a), sym(a, m), "modulo(" << a << ") mod " << m);
	GN x(a, gf), y(b, gf);
	auto is = [&](const GN& r, const Z& v, const char* what) {
		CHK_EQ(r.representingInteger(), sym(v, m), what << " for " << a << " and " << b << " modulo " << m);
		CHK_EQ(r.isZero(), (sym(v, m) == 0), what << ": zero test");
		CHK_EQ(r.isOne(), (sym(v, m) == 1), what << ": one test");
		CHK_EQ(carl::isZero(r), (sym(v, m) == 0), what << ": zero test");
		CHK(r == GN(v, gf) && !(r != GN(v, gf)), what << ": comparison");
		CHK(r == sym(v, m), what << ": comparison with an integer");
	};
	is(x, a, "construction"); is(-x, Z(-a), "negation");
	is(x + y, a + b, "sum"); is(x - y, a - b, "difference"); is(x * y, a * b, "product");
	is(x + b, a + b, "sum with integer"); is(b + x, a + b, "sum with integer"); is(x - b, a - b, "difference with integer"); is(b - x, b - a, "difference from integer"); is(x * b, a * b, "product with integer"); is(b * x, a * b, "product with integer");
	GN t = x; t += y; is(t, a + b, "+="); t = x; t -= y; is(t, a - b, "-="); t = x; t *= y; is(t, a * b, "*=");
	t = x; t += b; is(t, a + b, "+= integer"); t = x; t -= b; is(t, a - b, "-= integer"); t = x; t *= b; is(t, a * b, "*= integer");
	t = x; ++t; is(t, a + 1, "++"); t = x; --t; is(t, a - 1, "--");
	t = x; t.normalize(); is(t, a, "normalize");
	CHK_EQ((x == y), (sym(a - b, m) == 0), "equality of " << a << " and " << b << " modulo " << m);
	Z g; mpz_gcd(g.get_mpz_t(), b.get_mpz_t(), m.get_mpz_t());
	if (g == 1) {
		c.label("unit");
		Z inv; if (m == 1) inv = 0; else mpz_invert(inv.get_mpz_t(), b.get_mpz_t(), m.get_mpz_t());
		is(y.inverse(), inv, "inverse"); is(x / y, a * inv, "quotient"); is(carl::quotient(x, y), a * inv, "quotient");
		t = x; t /= y; is(t, a * inv, "/=");
	}
	auto* gf1 = carl::GaloisFieldManager<Z>::getInstance().getField(p, k + 1);
	CHK_EQ(x.toGF(gf1).representingInteger(), sym(sym(a, m), m * p), "lifting to the next power");
}

LAW(prime_factory, 400, 6000) {
	std::size_t n = c.idx(600), n2 = c.idx(400);
	bool random_access = c.coin();
	c.in("n", n); c.in("n2", n2); c.in("access", random_access);
	c.nontrivial(n > 26);
	static const std::vector<std::uint64_t> ref = [] { std::vector<std::uint64_t> r; for (std::uint64_t i = 2; r.size() < 2000; ++i) if (is_prime(i)) r.push_back(i); return r; }();
	carl::PrimeFactory<carl::uint> f;
	carl::PrimeFactory<Z> fz;
	if (random_access) {
		CHK_EQ(f[n], ref[n], "prime number " << n); CHK_EQ(f[n2], ref[n2], "prime number " << n2);
		CHK_EQ(fz[n], Z((unsigned long)ref[n]), "prime number " << n);
		const auto& cf = f;
		CHK(cf.size() > n && cf.size() > n2, "size");
		CHK_EQ(cf[n / 2], ref[n / 2], "prime number " << n / 2);
	} else {
		for (std::size_t i = 0; i <= n; ++i) { CHK_EQ(f.nextPrime(), ref[i], "prime number " << i); CHK_EQ(fz.nextPrime(), Z((unsigned long)ref[i]), "prime number " << i); }
	}
}

LAW_B(factorisation, 3000, 60000, 20) {
	static carl::FactorizationFactory<carl::uint> f;
	std::uint64_t n = c.coin() ? 2 + c.draw(300) : 2 + c.draw(6000);
	c.in("n", n);
	c.nontrivial(!is_prime(n));
	const auto& r = f(n);
	std::uint64_t prod = 1;
	for (auto q : r) { CHK(is_prime(q), "factor " << q << " of " << n); prod *= q; }
	CHK_EQ(prod, n, "product of the factors");
	CHK(std::is_sorted(r.begin(), r.end()), "factors of " << n << " are not in order");
	auto copy = r;
	CHK(f(n) == copy, "second request for " << n << " differs");
}

PBT_MAIN("N02", "a case is non-trivial when both residues are non-zero and at least one operand needs reduction, when the requested prime is outside the built-in table, or when the factored number is composite")
