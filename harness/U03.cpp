// U03: helpers on pointers, tuples, variants and hashes act on the values they are given.
#include "gen.h"
#include <iostream>
#include <list>
#include <memory>
#include <set>
#include <unordered_set>
#include <carl/util/pointerOperations.h>
#include <carl/util/tuple_util.h>
#include <carl/util/variant_util.h>
#include <carl/util/enum_util.h>
#include <carl/util/hash.h>
using namespace gen;

template<typename T> T value(pbt::Ctx& c);
template<> int value<int>(pbt::Ctx& c) { return int(c.range(-3, 3)); }
template<> bool value<bool>(pbt::Ctx& c) { return c.coin(); }
template<> std::string value<std::string>(pbt::Ctx& c) { std::string s; for (unsigned n = unsigned(c.draw(3)); n; --n) s += char('a' + c.idx(2)); return s; }
template<> std::size_t value<std::size_t>(pbt::Ctx& c) { return c.chance(1, 8) ? ~std::size_t(0) - c.idx(3) : c.idx(5); }

// The pointers in the table are compared like the values behind them, a null pointer being the smallest.
template<typename Ptr, typename T, bool Null> void compare(const Ptr& a, const Ptr& b, const T* x, const T* y) {
	bool eq = x && y ? *x == *y : !x && !y, lt = x && y ? *x < *y : !x && y, gt = x && y ? *y < *x : x && !y;
	CHK_EQ((carl::equal_to<Ptr, Null>()(a, b)), eq, "equal_to");
	CHK_EQ((carl::not_equal_to<Ptr, Null>()(a, b)), !eq, "not_equal_to");
	CHK_EQ((carl::less<Ptr, Null>()(a, b)), lt, "less");
	CHK_EQ((carl::greater<Ptr, Null>()(a, b)), gt, "greater");
	if (eq) CHK((carl::hash<Ptr, Null>()(a)) == (carl::hash<Ptr, Null>()(b)), "equal pointers have different hashes");
	if (x) CHK((carl::hash<Ptr, Null>()(a)) == std::hash<T>()(*x), "the hash is not that of the value");
}
template<typename T> void pointers(pbt::Ctx& c) {
	std::vector<std::shared_ptr<T>> objs;
	unsigned n = 1 + unsigned(c.draw(6));
	for (unsigned i = 0; i < n; ++i) {
		if (c.chance(1, 5)) objs.push_back(nullptr);
		else if (i && c.chance(1, 4)) objs.push_back(objs[c.idx(i)]);
		else objs.push_back(std::make_shared<T>(value<T>(c)));
		std::ostringstream o; if (objs.back()) o << *objs.back() << " at " << i; else o << "null"; c.in("pointer", o.str());
	}
	std::set<T> values; bool null = false, twice = false;
	for (auto& p : objs) { if (!p) null = true; else twice = !values.insert(*p).second || twice; }
	c.nontrivial(values.size() > 1 && twice); c.label_if(null, "null"); c.label_if(twice, "equal values");
	for (auto& p : objs) for (auto& q : objs) {
		compare<std::shared_ptr<T>, T, true>(p, q, p.get(), q.get());
		compare<T*, T, true>(p.get(), q.get(), p.get(), q.get());
		if (p && q) {
			compare<std::shared_ptr<T>, T, false>(p, q, p.get(), q.get());
			compare<T*, T, false>(p.get(), q.get(), p.get(), q.get());
			compare<T, T, true>(*p, *q, p.get(), q.get());
		}
	}
	// containers over these functions keep one object per value
	std::set<T*, carl::less<T*>> up; std::set<std::shared_ptr<T>, carl::greater<std::shared_ptr<T>>> down;
	std::unordered_set<std::shared_ptr<T>, carl::hash<std::shared_ptr<T>>, carl::equal_to<std::shared_ptr<T>>> table;
	for (auto& p : objs) { up.insert(p.get()); down.insert(p); table.insert(p); }
	std::size_t want = values.size() + (null ? 1 : 0);
	CHK_EQ(up.size(), want, "objects in the ordered set"); CHK_EQ(down.size(), want, "objects in the reversed set"); CHK_EQ(table.size(), want, "objects in the hash table");
	auto it = up.begin(); if (null) { CHK(*it == nullptr, "the null pointer is not the smallest"); ++it; }
	for (auto& v : values) { CHK(it != up.end() && *it && **it == v, "the ordered set is not sorted"); ++it; }
}
LAW(pointers_int, 4000, 60000) { pointers<int>(c); }
LAW(pointers_bool, 2000, 30000) { pointers<bool>(c); }
LAW(pointers_string, 4000, 60000) { pointers<std::string>(c); }

struct Twice {
	int operator()(int i) const { return 2 * i; }
	std::string operator()(const std::string& s) const { return s + s; }
	std::vector<int> operator()(const std::vector<int>& v) const { std::vector<int> r = v; r.insert(r.end(), v.begin(), v.end()); return r; }
};
struct ToText { // converts numbers and texts to one another
	template<typename Out, typename In> static Out convert(const In& in, int base) { return conv(static_cast<Out*>(nullptr), in, base); }
	static std::string conv(std::string*, int i, int base) { return std::to_string(i + base); }
	static std::string conv(std::string*, const std::string& s, int base) { return s + std::to_string(base); }
	static int conv(int*, const std::string& s, int base) { return int(s.size()) + base; }
	static int conv(int*, int i, int base) { return i * base; }
};
LAW(tuples, 6000, 90000) {
	int a = value<int>(c), b = value<int>(c), base = value<int>(c); std::string s = value<std::string>(c), t = value<std::string>(c);
	std::vector<int> v; for (unsigned n = unsigned(c.draw(4)); n; --n) v.push_back(value<int>(c));
	c.in("numbers", std::to_string(a) + " " + std::to_string(b)); c.in("texts", s + ", " + t); c.in("length", v.size());
	c.nontrivial(a != b && s != t);
	auto x = std::make_tuple(a, s, v); auto y = std::make_tuple(t, b); const auto cx = x;
	CHK(carl::tuple_cat(x, y) == std::make_tuple(a, s, v, t, b), "concatenation"); CHK(carl::tuple_cat(y, cx) == std::make_tuple(t, b, a, s, v), "concatenation of a constant");
	CHK(carl::tuple_cat(x, std::tuple<>()) == x && carl::tuple_cat(std::tuple<>(), x) == x, "concatenation with nothing");
	CHK(carl::tuple_cat(std::make_tuple(s), std::make_tuple(a)) == std::make_tuple(s, a), "concatenation of temporaries");
	CHK(carl::tuple_tail(x) == std::make_tuple(s, v) && carl::tuple_tail(y) == std::make_tuple(b) && carl::tuple_tail(carl::tuple_tail(y)) == std::tuple<>(), "tail");
	CHK(x == cx && y == std::make_tuple(t, b), "an operand was changed");
	auto f = [](int i, const std::string& p, const std::vector<int>& w) { std::string r = std::to_string(i) + "|" + p; for (int k : w) r += "|" + std::to_string(k); return r; };
	CHK(carl::tuple_apply(f, x) == f(a, s, v), "apply"); CHK(carl::tuple_apply(f, std::make_tuple(b, t, v)) == f(b, t, v), "apply to a temporary");
	CHK(carl::tuple_foreach(Twice(), x) == std::make_tuple(2 * a, s + s, Twice()(v)), "foreach"); CHK(carl::tuple_foreach(Twice(), std::make_tuple(b)) == std::make_tuple(2 * b), "foreach on one");
	std::ostringstream o; std::ostream& os = o;
	auto nums = std::make_tuple(a, s, b, t);
	carl::tuple_accumulate(nums, os, [](std::ostream& out, const auto& e) -> std::ostream& { return out << e << ","; });
	CHK(o.str() == std::to_string(a) + "," + s + "," + std::to_string(b) + "," + t + ",", "accumulated " << o.str());
	carl::tuple_convert<ToText, int, std::string, int, int, std::string> conv(base);
	CHK(conv(nums) == std::make_tuple(std::to_string(a + base), int(s.size()) + base, b * base, t + std::to_string(base)), "convert");
}

struct Tag { int i; bool operator==(const Tag& o) const { return i == o.i; } };
enum class Small : unsigned char { A = 3, B = 7 };
enum class Wide : long { A = -5, B = 1L << 40 };
LAW(variants, 4000, 60000) {
	using V = boost::variant<int, std::string, Tag>; using W = boost::variant<Tag, bool, std::string, double, int>; using H = boost::variant<int, std::string>;
	int a = value<int>(c); std::string s = value<std::string>(c); std::size_t k = c.idx(3);
	c.in("kind", k); c.in("number", a); c.in("text", s); c.nontrivial(k != 0);
	V v = k == 0 ? V(a) : k == 1 ? V(s) : V(Tag{a});
	CHK_EQ(carl::variant_is_type<int>(v), k == 0, "is int"); CHK_EQ(carl::variant_is_type<std::string>(v), k == 1, "is string"); CHK_EQ(carl::variant_is_type<Tag>(v), k == 2, "is tag");
	CHK(!carl::variant_is_type<double>(v) && !carl::variant_is_type<const char*>(v), "is of a foreign type");
	W w = carl::variant_extend<W>(v);
	CHK_EQ(carl::variant_is_type<int>(w), k == 0, "extended is int"); CHK_EQ(carl::variant_is_type<std::string>(w), k == 1, "extended is string"); CHK_EQ(carl::variant_is_type<Tag>(w), k == 2, "extended is tag");
	if (k == 0) CHK_EQ(boost::get<int>(w), a, "number"); else if (k == 1) CHK_EQ(boost::get<std::string>(w), s, "text"); else CHK(boost::get<Tag>(w) == Tag{a}, "tag");
	H h = k == 0 ? H(a) : H(s);
	CHK(carl::variant_hash(h) == (k == 0 ? std::hash<int>()(a) : std::hash<std::string>()(s)), "the hash is not that of the value");
	static_assert(carl::is_from_variant<int, V>::value && carl::is_from_variant<Tag, W>::value && !carl::is_from_variant<double, V>::value && !carl::is_from_variant<Tag, H>::value, "");
	static_assert(carl::convertible_to_variant<const char*, H>::value && carl::convertible_to_variant<double, H>::value && !carl::convertible_to_variant<Tag, H>::value, "");
	CHK_EQ(int(carl::underlying_enum_value(c.coin() ? Small::A : Small::A)), 3, "enum"); CHK_EQ(carl::underlying_enum_value(Wide::B), 1L << 40, "enum"); CHK_EQ(carl::underlying_enum_value(Wide::A), -5L, "enum");
	CHK_EQ(int(carl::underlying_enum_value(carl::invalid_enum_value<Small>())), 255, "invalid value");
}

// Equal values have equal hashes, and groups of values are hashed like their elements.
LAW(hashes, 6000, 90000) {
	std::vector<int> v, w; std::vector<std::pair<int, std::string>> ps;
	for (unsigned n = 1 + unsigned(c.draw(5)); n; --n) { v.push_back(value<int>(c)); ps.emplace_back(value<int>(c), value<std::string>(c)); }
	w = v; if (c.coin()) w[c.idx(w.size())] += int(c.range(0, 2)); if (c.coin()) std::swap(w[c.idx(w.size())], w[c.idx(w.size())]);
	std::size_t k = value<std::size_t>(c), seed = value<std::size_t>(c); std::string s = value<std::string>(c);
	std::ostringstream o; for (int i : v) o << i << " "; o << "/ "; for (int i : w) o << i << " "; c.in("values", o.str()); c.in("k", k); c.in("seed", seed); c.nontrivial(v != w); c.label_if(v != w, "different");
	if (v == w) CHK(carl::hash_all(v) == carl::hash_all(w) && carl::hash_all(s, v, k) == carl::hash_all(s, w, k), "equal values have different hashes");

	std::size_t one = seed, step = seed;
	carl::hash_add(one, v); for (int i : v) carl::hash_add(step, i); CHK(one == step, "a vector is not hashed like its elements");
	one = step = seed; carl::hash_add(one, v[0], s, k); carl::hash_add(step, v[0]); carl::hash_add(step, s); carl::hash_add(step, k); CHK(one == step, "several values are not hashed like one after another");
	one = step = seed; carl::hash_add(one, ps); for (auto& p : ps) { carl::hash_add(step, p.first); carl::hash_add(step, p.second); } CHK(one == step, "pairs are not hashed like their elements");
	one = step = seed; std::list<int> l(v.begin(), v.end()); std::copy(l.begin(), l.end(), carl::hash_inserter<int>{one}); for (int i : v) carl::hash_add(step, i); CHK(one == step, "the inserter hashes differently");
	one = step = seed; carl::hash_add(one, v[0]); carl::hash_combine(step, std::hash<int>()(v[0])); CHK(one == step, "one value"); one = step = seed; carl::hash_add(one, k); carl::hash_combine(step, k); CHK(one == step, "one number");
	CHK(carl::hash_all(v[0], s) == [&] { std::size_t z = 0; carl::hash_add(z, v[0], s); return z; }(), "hash_all starts elsewhere");
}
PBT_MAIN("U03", "several values that differ and some that are equal")
