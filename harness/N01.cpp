// N01: exactness of the number operations on GMP integers and rationals, native numbers and the float wrapper.
#include "gen.h"
#include <carl/numbers/numbers.h>
#include <carl/numbers/adaption_native/EEA.h>
#include <cstring>
using namespace gen;
using carl::sint;
using u64 = carl::uint;

LAW(rounding, 300000, 6000000) {
	Q a = rational(c);
	if (c.chance(1, 4)) { Z n = integer(c); a = frac(2 * n + 1, 2); c.label("half-way"); }
	c.in("a", a);
	c.nontrivial(a.get_den() != 1);
	Z f = carl::floor(a), e = carl::ceil(a), r = carl::round(a);
	CHK(Q(f) <= a && a < Q(f + 1), "floor(" << a << ") = " << f);
	CHK(Q(e - 1) < a && a <= Q(e), "ceil(" << a << ") = " << e);
	Q dist = qabs(Q(r) - a);
	CHK(dist <= Q(1, 2), "round(" << a << ") = " << r);
	if (dist == Q(1, 2)) CHK(Q(r) > a, "round of half-way " << a << " = " << r << " is not rounded up");
	CHK_EQ(carl::isInteger(a), (a.get_den() == 1), a);
	CHK_EQ(carl::abs(a), qabs(a), a);
	CHK_EQ(carl::isZero(a), (sgn(a) == 0), a);
	CHK_EQ(carl::is_zero(a), (sgn(a) == 0), a);
	CHK_EQ(carl::isOne(a), (a.get_num() == 1 && a.get_den() == 1), a);
	CHK_EQ(carl::is_one(a), (a.get_num() == 1 && a.get_den() == 1), a);
	CHK_EQ(carl::isPositive(a), (sgn(a) > 0), a);
	CHK_EQ(carl::isNegative(a), (sgn(a) < 0), a);
	CHK_EQ(carl::getNum(a), Z(a.get_num()), a);
	CHK_EQ(carl::getDenom(a), Z(a.get_den()), a);
	CHK_EQ(carl::bitsize(a), mpz_sizeinbase(a.get_num_mpz_t(), 2) + mpz_sizeinbase(a.get_den_mpz_t(), 2), a);
	Z n = a.get_num();
	CHK_EQ(carl::getNum(n), n, n);
	CHK_EQ(carl::getDenom(n), Z(1), n);
	CHK_EQ(carl::floor(n), n, n); CHK_EQ(carl::ceil(n), n, n); CHK_EQ(carl::round(n), n, n);
	CHK_EQ(carl::abs(n), zabs(n), n);
	CHK_EQ(carl::isZero(n), (sgn(n) == 0), n); CHK_EQ(carl::is_zero(n), (sgn(n) == 0), n);
	CHK_EQ(carl::isOne(n), (cmp(n, 1) == 0), n); CHK_EQ(carl::is_one(n), (cmp(n, 1) == 0), n);
	CHK_EQ(carl::isPositive(n), (sgn(n) > 0), n); CHK_EQ(carl::isNegative(n), (sgn(n) < 0), n);
	CHK(carl::isInteger(n), n);
	CHK_EQ(carl::getNum(n), n, n);
	CHK_EQ(carl::bitsize(n), mpz_sizeinbase(n.get_mpz_t(), 2), n);
}

LAW(integer_division, 300000, 6000000) {
	Z n = integer(c), d = nonzero_integer(c);
	if (c.chance(1, 3)) { n = n * d; c.label("divisible"); }
	c.in("n", n); c.in("d", d);
	c.nontrivial(cmp(zabs(d), 1) != 0);
	Z q = carl::quotient(n, d), r = carl::mod(n, d), r2 = carl::remainder(n, d);
	CHK_EQ(Z(q * d + r), n, "quotient " << q << " and mod " << r << " of " << n << " by " << d);
	CHK(zabs(r) < zabs(d), "mod(" << n << "," << d << ") = " << r);
	CHK(sgn(r) == 0 || sgn(r) == sgn(n), "mod(" << n << "," << d << ") = " << r << " must carry the sign of the dividend like the native operator");
	CHK_EQ(r, r2, "mod and remainder differ");
	Z q3, r3;
	carl::divide(n, d, q3, r3);
	CHK_EQ(Z(q3 * d + r3), n, "divide gives " << q3 << " rest " << r3 << " for " << n << " by " << d);
	CHK(zabs(r3) < zabs(d), "rest of divide(" << n << "," << d << ") = " << r3);
	Z a = n; Z& ref = carl::div_assign(a, d);
	CHK_EQ(a, q, "div_assign"); CHK(&ref == &a, "div_assign returns another object");
	CHK_EQ(carl::operator/(n, d), q, "operator/");
	if (r == 0) CHK_EQ(carl::div(n, d), q, "div of a multiple");
	if (n.fits_slong_p() && d.fits_slong_p() && !(cmp(d, -1) == 0 && n == std::numeric_limits<long>::min())) {
		sint N = n.get_si(), D = d.get_si();
		c.label("native");
		CHK_EQ(carl::quotient(N, D), sint(q.get_si()), "native quotient");
		CHK_EQ(carl::mod(N, D), sint(r.get_si()), "native mod");
		CHK_EQ(carl::remainder(N, D), sint(r.get_si()), "native remainder");
		sint a1, b1; carl::divide(N, D, a1, b1);
		CHK(Z(long(a1)) * d + long(b1) == n && zabs(Z(long(b1))) < zabs(d), "native divide");
		if (r == 0) CHK_EQ(carl::div(N, D), sint(q.get_si()), "native div");
		if (N >= 0 && D > 0) CHK_EQ(carl::mod(u64(N), u64(D)), u64(r.get_si()), "native unsigned mod");
	}
}

LAW(rational_division, 150000, 4000000) {
	Q a = rational(c), b = nonzero_rational(c);
	c.in("a", a); c.in("b", b);
	c.nontrivial(a != 0 && qabs(b) != 1);
	for (const Q& r : {carl::quotient(a, b), carl::div(a, b), carl::operator/(a, b), Q(carl::operator*(a, carl::reciprocal(b)))}) {
		CHK(canonical(r), "quotient of " << a << " and " << b << " is not reduced");
		CHK(Q(r * b) == a, a << " / " << b << " = " << r);
	}
	Q x = a; carl::div_assign(x, b);
	CHK(Q(x * b) == a, "div_assign: " << x);
	CHK(Q(carl::reciprocal(b) * b) == 1, "reciprocal(" << b << ")");
	CHK(carl::operator*(a, b) == Q(a * b) && canonical(carl::operator*(a, b)), "product");
}

LAW(gcd_lcm, 300000, 6000000) {
	Z a = integer(c), b = integer(c), k = integer(c);
	if (c.coin()) { a *= k; b *= k; }
	c.in("a", a); c.in("b", b);
	Z g = carl::gcd(a, b), l = carl::lcm(a, b), rg;
	mpz_gcd(rg.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
	c.nontrivial(cmp(rg, 1) > 0 && rg != zabs(a) && rg != zabs(b));
	CHK_EQ(g, rg, "gcd(" << a << "," << b << ")");
	CHK_EQ(Z(l * g), zabs(a * b), "lcm(" << a << "," << b << ") = " << l);
	Z x = a; Z& ref = carl::gcd_assign(x, b);
	CHK_EQ(x, rg, "gcd_assign"); CHK(&ref == &x, "gcd_assign returns another object");
	if (a != 0 || b != 0) {
		auto st = carl::EEA<Z>::calculate(a, b);
		CHK_EQ(Z(st.first * a + st.second * b), rg, "extended gcd of " << a << ", " << b << ": " << st.first << ", " << st.second);
	}
	if (a.fits_slong_p() && b.fits_slong_p() && zabs(a) < z_pow2(62) && zabs(b) < z_pow2(62) && (a != 0 || b != 0)) {
		auto st = carl::EEA<sint>::calculate(a.get_si(), b.get_si());
		CHK_EQ(Z(Z(long(st.first)) * a + Z(long(st.second)) * b), rg, "native extended gcd of " << a << ", " << b);
	}
	Q p = frac(a, positive_integer(c)), q = frac(b, positive_integer(c));
	c.in("p", p); c.in("q", q);
	Q G = carl::gcd(p, q), L = carl::lcm(p, q);
	CHK(canonical(G) && canonical(L), "not reduced");
	if (p == 0 && q == 0) { CHK(G == 0 && L == 0, "gcd and lcm of zeros"); return; }
	CHK(G > 0, "gcd(" << p << "," << q << ") = " << G);
	Q p1 = p / G, q1 = q / G;
	CHK(p1.get_den() == 1 && q1.get_den() == 1, "gcd(" << p << "," << q << ") = " << G << " does not divide both");
	Z cop; mpz_gcd(cop.get_mpz_t(), p1.get_num_mpz_t(), q1.get_num_mpz_t());
	CHK(cop == 1, "gcd(" << p << "," << q << ") = " << G << " is not greatest");
	CHK_EQ(Q(G * L), qabs(p * q), "lcm(" << p << "," << q << ") = " << L);
	Q y = p; carl::gcd_assign(y, q);
	CHK_EQ(y, G, "gcd_assign");
}

LAW(powers, 120000, 2000000) {
	Q b = rational(c);
	unsigned e = unsigned(c.draw(12));
	c.in("b", b); c.in("e", e);
	c.nontrivial(e > 1 && b != 0 && b != 1);
	Q ref = q_pow(b, e);
	CHK_EQ(carl::pow(b, e), ref, b << "^" << e);
	CHK(canonical(carl::pow(b, e)), "not reduced");
	Q x = b; carl::pow_assign(x, e);
	CHK_EQ(x, ref, "pow_assign");
	Z n = b.get_num();
	CHK_EQ(carl::pow(n, e), z_pow(n, e), n << "^" << e);
	Z y = n; carl::pow_assign(y, e);
	CHK_EQ(y, z_pow(n, e), "pow_assign");
	sint s = c.range(-20, 20); sint sr = 1; for (unsigned i = 0; i < e; ++i) sr *= s;
	c.in("s", s);
	CHK_EQ(carl::pow(s, e), sr, s << "^" << e);
	double d = double(s);
	CHK_EQ(carl::pow(d, carl::uint(e)), double(sr), "double " << s << "^" << e);
	u64 u = u64(c.draw(std::uint64_t(1) << (1 + c.draw(63))));
	if (u == 0) u = 1;
	c.in("u", u);
	u64 hp = carl::highestPower(u);
	CHK(hp <= u && (hp & (hp - 1)) == 0 && (u ^ hp) < hp, "highestPower(" << u << ") = " << hp);
	std::uint32_t w = std::uint32_t(u) ? std::uint32_t(u) : 1u;
	std::uint32_t hw = carl::highestPower(w);
	CHK(hw <= w && (hw & (hw - 1)) == 0 && (w ^ hw) < hw, "highestPower(" << w << ") = " << hw);
}

LAW(roots, 225000, 4000000) {
	Q a = nonzero_rational(c);
	if (a < 0) a = -a;
	unsigned n = unsigned(2 + c.draw(5));
	bool power = c.chance(1, 3);
	if (power) a = q_pow(a, c.coin() ? 2 : n);
	c.in("a", a); c.in("n", n);
	c.nontrivial(a != 1);
	c.label_if(power, "perfect power");
	auto encl = [&](const char* what, const std::pair<Q, Q>& r, unsigned k) {
		CHK(canonical(r.first) && canonical(r.second), what << " is not reduced");
		CHK(r.first >= 0 && q_pow(r.first, k) <= a && a <= q_pow(r.second, k), what << "(" << a << ", " << k << ") = [" << r.first << ", " << r.second << "]");
		Z rn, rd;
		if (mpz_root(rn.get_mpz_t(), a.get_num_mpz_t(), k) && mpz_root(rd.get_mpz_t(), a.get_den_mpz_t(), k))
			CHK(r.first == frac(rn, rd) && r.second == r.first, what << " of the perfect power " << a << " is not exact: [" << r.first << ", " << r.second << "]");
	};
	encl("sqrt_safe", carl::sqrt_safe(a), 2);
	encl("sqrt_fast", carl::sqrt_fast(a), 2);
	encl("root_safe", carl::root_safe(a, n), n);
	auto zero = carl::sqrt_fast(Q(0));
	CHK(zero.first == 0 && zero.second == 0, "sqrt_fast(0)");
	bool square = mpz_perfect_square_p(a.get_num_mpz_t()) && mpz_perfect_square_p(a.get_den_mpz_t());
	Q res(17);
	CHK_EQ(carl::sqrt_exact(a, res), square, a);
	if (square) CHK(canonical(res) && res >= 0 && Q(res * res) == a, "sqrt_exact(" << a << ") = " << res);
	Q s = carl::sqrt(a);
	CHK(s > 0, "sqrt(" << a << ") = " << s);
	if (square) CHK(Q(s * s) == a, "sqrt(" << a << ") = " << s);
	Q neg = -a;
	CHK(!carl::sqrt_exact(neg, res), "sqrt_exact of " << neg);
	CHK(carl::sqrt_exact(Q(0), res) && res == 0, "sqrt_exact(0) = " << res);
}

static std::string digits(pbt::Ctx& c, unsigned lo, unsigned hi) {
	std::string s;
	unsigned n = lo + unsigned(c.draw(hi - lo + 1));
	bool zeros = c.chance(1, 6);
	for (unsigned i = 0; i < n; ++i) s += zeros ? '0' : char('0' + c.draw(10));
	return s;
}
// A decimal literal together with its value.
static std::string decimal(pbt::Ctx& c, Q& val, bool& integral) {
	std::string s, ip = digits(c, 0, c.chance(1, 5) ? 40 : 4), fp;
	int sign = int(c.weighted({3, 1, 1}));
	bool dot = c.coin() || ip.empty();
	if (dot) fp = digits(c, ip.empty() ? 1 : 0, 6);
	s = sign == 0 ? "" : sign == 1 ? "-" : "+";
	s += ip; if (dot) s += "." + fp;
	Z n(ip.empty() && fp.empty() ? std::string("0") : ip + fp, 10);
	val = frac(n, z_pow(10, fp.size()));
	integral = fp.find_first_not_of('0') == std::string::npos;
	if (c.chance(1, 3)) {
		int es = int(c.draw(3)); unsigned e = unsigned(c.draw(13));
		s += c.coin() ? "e" : "E"; s += es == 0 ? "" : es == 1 ? "-" : "+"; s += std::to_string(e);
		if (es == 1) { val = val / Q(z_pow(10, e)); if (e) integral = false; } else val = val * Q(z_pow(10, e));
	}
	val.canonicalize();
	if (sign == 1) val = -val;
	return s;
}

LAW(parsing, 225000, 4000000) {
	Q v, w; bool i1, i2;
	std::string s = decimal(c, v, i1);
	bool frc = c.coin();
	auto sp = [&] { return std::string(c.chance(1, 8) ? 1 + c.draw(2) : 0, ' '); };
	std::string t = sp() + s;
	if (frc) t += sp() + "/" + sp() + decimal(c, w, i2);
	t += sp();
	c.in("text", "'" + t + "'");
	c.label(frc ? "fraction" : "decimal");
	c.nontrivial(t.size() > 2);
	Q out(77);
	if (frc && w == 0) {
		CHK(!carl::try_parse<Q>(t, out), "'" << t << "' has no value");
		c.label("zero denominator");
		return;
	}
	Q expect = frc ? Q(v / w) : v;
	CHK(carl::try_parse<Q>(t, out), "'" << t << "' is rejected");
	CHK(out == expect && canonical(out), "'" << t << "' is read as " << out << " instead of " << expect);
	CHK_EQ(carl::parse<Q>(t), expect, "parse of '" << t << "'");
	if (!frc && t == s && i1) {
		Z z(77);
		CHK(carl::try_parse<Z>(s, z), "'" << s << "' is rejected as an integer");
		CHK_EQ(z, Z(expect.get_num()), "'" << s << "' as an integer");
		CHK_EQ(carl::parse<Z>(s), Z(expect.get_num()), "'" << s << "' as an integer");
		c.label("integer");
	} else if (!frc && t == s && expect.get_den() != 1) {
		Z z(77);
		CHK(!carl::try_parse<Z>(s, z), "'" << s << "' is accepted as the integer " << z);
	}
}

LAW(parse_rejects, 150000, 4000000) {
	// Strings over the alphabet of literals; the reference grammar decides which ones are numbers.
	static const std::string alpha = "0123456789..--++eE// xan";
	std::string s;
	unsigned n = unsigned(c.draw(9));
	for (unsigned i = 0; i < n; ++i) s += alpha[c.idx(alpha.size())];
	c.in("text", "'" + s + "'");
	std::size_t p = 0;
	auto skip = [&] { while (p < s.size() && s[p] == ' ') ++p; };
	auto number = [&](Q& v) {
		std::size_t b = p; bool neg = false;
		if (p < s.size() && (s[p] == '-' || s[p] == '+')) { neg = s[p] == '-'; ++p; }
		std::string ip, fp;
		while (p < s.size() && isdigit(s[p])) ip += s[p++];
		if (p < s.size() && s[p] == '.' ) {
			std::size_t q = p + 1;
			while (q < s.size() && isdigit(s[q])) fp += s[q++];
			if (ip.empty() && fp.empty()) { p = b; return false; }
			p = q;
		} else if (ip.empty()) { p = b; return false; }
		v = frac(Z(ip + fp, 10), z_pow(10, fp.size()));
		if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) {
			std::size_t q = p + 1; bool en = false; std::string ed;
			if (q < s.size() && (s[q] == '-' || s[q] == '+')) { en = s[q] == '-'; ++q; }
			while (q < s.size() && isdigit(s[q])) ed += s[q++];
			if (!ed.empty()) {
				if (ed.size() > 3) c.discard();
				Q f(z_pow(10, std::stoul(ed)));
				v = en ? Q(v / f) : Q(v * f);
				p = q;
			}
		}
		if (neg) v = -v;
		return true;
	};
	Q v, w; bool ok = true;
	skip();
	ok = number(v);
	if (ok) {
		skip();
		if (p < s.size() && s[p] == '/') { ++p; skip(); ok = number(w) && w != 0; if (ok) v = v / w; skip(); }
		ok = ok && p == s.size();
	}
	c.nontrivial(s.size() > 1);
	c.label(ok ? "number" : "no number");
	Q out(77);
	bool got = carl::try_parse<Q>(s, out);
	CHK_EQ(got, ok, "'" << s << "'");
	if (ok) CHK(out == v, "'" << s << "' is read as " << out << " instead of " << v);
}

LAW(printing, 150000, 3000000) {
	Q a = rational(c); Z n = integer(c);
	c.in("a", a); c.in("n", n);
	c.nontrivial(a.get_den() != 1 && a < 0);
	std::string m = qabs(a).get_str(10);
	std::string inf = a < 0 ? "(-" + m + ")" : m;
	CHK_EQ(carl::toString(a), inf, "infix"); CHK_EQ(carl::toString(a, true), inf, "infix");
	std::string pm = a.get_den() == 1 ? m : "(/ " + zabs(a.get_num()).get_str(10) + " " + Z(a.get_den()).get_str(10) + ")";
	CHK_EQ(carl::toString(a, false), (a < 0 ? "(- " + pm + ")" : pm), "prefix");
	std::string zm = zabs(n).get_str(10);
	CHK_EQ(carl::toString(n), (n < 0 ? "(-" + zm + ")" : zm), "infix");
	CHK_EQ(carl::toString(n, false), (n < 0 ? "(- " + zm + ")" : zm), "prefix");
	std::string plain = a.get_str(10);
	CHK_EQ(carl::parse<Q>(plain), a, "printed and read back: " << plain);
	CHK_EQ(carl::parse<Z>(n.get_str(10)), n, "printed and read back: " << n);
	sint s = sint(c.range(-1000000, 1000000));
	CHK_EQ(carl::toString(s, true), std::to_string(s), "native");
}

LAW(native_conversion, 225000, 4000000) {
	Z n = integer(c);
	c.in("n", n);
	c.nontrivial(zabs(n) > 1000);
	Q q(n);
	if (n.fits_slong_p()) {
		sint s = n.get_si(); c.label("fits signed");
		CHK_EQ(carl::toInt<sint>(n), s, n); CHK_EQ(carl::toInt<sint>(q), s, n);
		CHK_EQ((carl::fromInt<Z>(s)), n, "fromInt"); CHK_EQ((carl::fromInt<Q>(s)), q, "fromInt");
		CHK_EQ(carl::rationalize<Q>(s), q, "rationalize");
		if (n.fits_sint_p()) CHK_EQ(carl::rationalize<Q>(int(s)), q, "rationalize int");
		CHK_EQ(carl::toDouble(s), double(s), "toDouble");
		CHK(carl::isInteger(s), s);
	}
	if (n.fits_ulong_p()) {
		u64 u = n.get_ui(); c.label("fits unsigned");
		CHK_EQ(carl::toInt<u64>(n), u, n); CHK_EQ(carl::toInt<u64>(q), u, n);
		CHK_EQ((carl::fromInt<Z>(u)), n, "fromInt"); CHK_EQ((carl::fromInt<Q>(u)), q, "fromInt");
		CHK_EQ(carl::rationalize<Q>(u), q, "rationalize");
	}
	CHK_EQ(carl::toInt<Z>(q), n, "toInt<mpz>");
	Z n2 = n; n2 += 1; n2 -= 1;
	CHK_EQ(std::hash<Z>()(n), std::hash<Z>()(n2), "hash");
	Q a = rational(c), b = nonzero_rational(c);
	Q x = a * b / b;
	c.in("a", a); c.in("b", b);
	CHK_EQ(std::hash<Q>()(a), std::hash<Q>()(x), "hash of equal rationals");
	CHK_EQ((carl::convert<Q, carl::FLOAT_T<Q>>(a)).value(), a, "convert to wrapper");
	CHK_EQ((carl::convert<carl::FLOAT_T<Q>, Q>(carl::FLOAT_T<Q>(a))), a, "convert from wrapper");
	CHK_EQ((carl::convert<Q, Q>(a)), a, "convert to itself");
}

LAW(double_conversion, 300000, 6000000) {
	double d = dbl(c);
	c.in("d", d);
	Q ex(d);
	CHK_EQ(carl::rationalize<Q>(d), ex, d);
	CHK_EQ((carl::convert<double, Q>(d)), ex, d);
	CHK_EQ(carl::toDouble(ex), d, d);
	CHK_EQ((carl::convert<Q, double>(ex)), d, d);
	CHK_EQ(carl::roundDown(ex), d, "exact value"); CHK_EQ(carl::roundUp(ex), d, "exact value");
	float f = float(d);
	if (std::isfinite(f)) CHK_EQ(carl::rationalize<Q>(f), Q(double(f)), f);
	CHK_EQ(carl::isInteger(d), (ex.get_den() == 1), d);
	CHK_EQ(carl::isZero(d), (d == 0), d); CHK_EQ(carl::isPositive(d), (d > 0), d); CHK_EQ(carl::isNegative(d), (d < 0), d);
	CHK(carl::isNumber(d) && !carl::isNaN(d) && !carl::isInf(d), d);
	CHK_EQ(carl::abs(d), std::fabs(d), d); CHK_EQ(carl::floor(d), std::floor(d), d); CHK_EQ(carl::ceil(d), std::ceil(d), d);
	if (std::fabs(d) < 9e18) { CHK_EQ(carl::toInt<sint>(d), sint(d), d); if (d >= 0) CHK_EQ(carl::toInt<u64>(d), u64(d), d); }
	CHK_EQ((carl::convert<double, carl::FLOAT_T<Q>>(d)).value(), ex, d);
	CHK_EQ((carl::convert<carl::FLOAT_T<Q>, double>(carl::FLOAT_T<Q>(ex))), d, d);
	CHK_EQ((carl::convert<carl::FLOAT_T<double>, Q>(carl::FLOAT_T<double>(d))), ex, d);
	CHK_EQ((carl::convert<double, carl::FLOAT_T<double>>(d)).value(), d, d);
	// Directed rounding of arbitrary rationals.
	Q a = rational(c);
	if (c.coin()) {
		Q eps = frac(Z(long(c.range(-3, 3))), z_pow2(c.draw(1200)));
		a = ex + eps * (ex == 0 ? Q(1) : ex);
		c.label("near a double");
	}
	if (c.chance(1, 12)) { a = Q(z_pow2(1020 + c.draw(10))) + a; if (c.coin()) a = -a; c.label("near overflow"); }
	c.in("a", a);
	c.nontrivial(a != ex);
	auto leq = [](double x, const Q& q) { return std::isinf(x) ? x < 0 : Q(x) <= q; };
	auto geq = [](double x, const Q& q) { return std::isinf(x) ? x > 0 : Q(x) >= q; };
	double lo = carl::roundDown(a), hi = carl::roundUp(a);
	CHK(leq(lo, a), "roundDown(" << a << ") = " << lo << " is too large");
	CHK(geq(hi, a), "roundUp(" << a << ") = " << hi << " is too small");
	double lo2 = carl::roundDown(a, true), hi2 = carl::roundUp(a, true);
	CHK(leq(lo2, a) && (std::isinf(lo2) || Q(lo2) != a), "overapproximating roundDown(" << a << ") = " << lo2);
	CHK(geq(hi2, a) && (std::isinf(hi2) || Q(hi2) != a), "overapproximating roundUp(" << a << ") = " << hi2);
	// No more than two neighbours away from the value.
	auto step = [](double x, double to, int n) { for (int i = 0; i < n; ++i) x = std::nextafter(x, to); return x; };
	double inf = std::numeric_limits<double>::infinity();
	CHK(geq(step(lo, inf, 2), a), "roundDown(" << a << ") = " << lo << " is not tight");
	CHK(leq(step(hi, -inf, 2), a), "roundUp(" << a << ") = " << hi << " is not tight");
	double t = carl::toDouble(a);
	if (std::isfinite(t)) CHK(leq(std::nextafter(t, -inf), a) && geq(std::nextafter(t, inf), a), "toDouble(" << a << ") = " << t);
	double ti = carl::toDouble(Z(a.get_num()));
	if (std::isfinite(ti)) CHK(leq(std::nextafter(ti, -inf), Q(a.get_num())) && geq(std::nextafter(ti, inf), Q(a.get_num())), "toDouble(" << a.get_num() << ") = " << ti);
}

LAW(transcendental, 45000, 600000) {
	Q a = small_rational(c, 50, 20);
	c.in("a", a); c.nontrivial(a != 0);
	double d = a.get_d();
	auto close = [](const Q& x, double y) { return std::fabs(x.get_d() - y) <= 1e-9 * (1 + std::fabs(y)); };
	CHK(close(carl::sin(a), std::sin(d)), "sin"); CHK(close(carl::cos(a), std::cos(d)), "cos");
	CHK_EQ(carl::sin(d), std::sin(d), "sin"); CHK_EQ(carl::cos(d), std::cos(d), "cos");
	if (a > 0) {
		CHK(close(carl::log(a), std::log(d)), "log"); CHK(close(carl::log10(a), std::log10(d)), "log10");
		CHK_EQ(carl::log(d), std::log(d), "log"); CHK_EQ(carl::sqrt(d), std::sqrt(d), "sqrt");
	}
}

template<typename F> static void wrapper_laws(const typename std::decay<decltype(std::declval<F>().value())>::type& a, const typename std::decay<decltype(std::declval<F>().value())>::type& b) {
	using N = typename std::decay<decltype(std::declval<F>().value())>::type;
	F x(a), y(b);
	CHK(x.value() == a && y.value() == b, "value");
	CHK((x + y).value() == N(a + b), "+"); CHK((x - y).value() == N(a - b), "-"); CHK((x * y).value() == N(a * b), "*");
	CHK((x == y) == (a == b), "=="); CHK((x != y) == (a != b), "!="); CHK((x < y) == (a < b), "<"); CHK((x > y) == (a > b), ">");
	CHK((x <= y) == (a <= b), "<="); CHK((x >= y) == (a >= b), ">=");
	F z(x); z += y; CHK(z.value() == N(a + b), "+="); z = x; z -= y; CHK(z.value() == N(a - b), "-="); z = x; z *= y; CHK(z.value() == N(a * b), "*=");
	F r; x.add(r, y); CHK(r.value() == N(a + b), "add"); x.sub(r, y); CHK(r.value() == N(a - b), "sub"); x.mul(r, y); CHK(r.value() == N(a * b), "mul");
	z = x; z.add_assign(y); CHK(z.value() == N(a + b), "add_assign"); z = x; z.sub_assign(y); CHK(z.value() == N(a - b), "sub_assign"); z = x; z.mul_assign(y); CHK(z.value() == N(a * b), "mul_assign");
	if (b != 0) {
		CHK((x / y).value() == N(a / b), "/"); z = x; z /= y; CHK(z.value() == N(a / b), "/="); z = x; z.div_assign(y); CHK(z.value() == N(a / b), "div_assign");
		CHK(carl::div(x, y).value() == N(a / b), "div"); CHK(carl::quotient(x, y).value() == N(a / b), "quotient");
	}
	CHK((-x).value() == N(-a), "unary minus");
	CHK(carl::abs(x).value() == (a < 0 ? N(-a) : a), "abs"); z = x; z.abs_assign(); CHK(z.value() == (a < 0 ? N(-a) : a), "abs_assign");
	CHK(carl::isZero(x) == (a == 0), "isZero");
	CHK(carl::isInteger(x) == carl::isInteger(a), "isInteger");
	CHK(carl::floor(x).value() == N(carl::floor(a)), "floor"); CHK(carl::ceil(x).value() == N(carl::ceil(a)), "ceil");
	CHK(std::hash<F>()(x) == std::hash<F>()(F(a)), "hash");
}

LAW(float_wrapper, 120000, 2000000) {
	Q a = rational(c), b = rational(c);
	double d = dbl(c), e = dbl(c);
	if (c.chance(1, 5)) { b = a; e = d; }
	c.in("a", a); c.in("b", b); c.in("d", d); c.in("e", e);
	c.nontrivial(a != 0 && b != 0);
	wrapper_laws<carl::FLOAT_T<Q>>(a, b);
	wrapper_laws<carl::FLOAT_T<double>>(d, e);
	CHK_EQ(carl::getNum(carl::FLOAT_T<Q>(a)), Z(a.get_num()), "getNum");
	CHK_EQ(carl::getDenom(carl::FLOAT_T<Q>(a)), Z(a.get_den()), "getDenom");
	CHK_EQ(carl::pow(carl::FLOAT_T<Q>(a), 3).value(), Q(a * a * a), "pow");
	CHK_EQ(carl::FLOAT_T<double>(d).toDouble(), d, "toDouble");
}

PBT_MAIN("N01", "a case is non-trivial when its operands avoid the neutral shortcuts of the operation (non-integral, non-unit, non-zero, not exactly representable); distinctness is by the printed operands")
