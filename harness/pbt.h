// A small property-based testing engine: every random choice of a case goes through Src::draw, so a
// case is a sequence of integers that can be recorded, shrunk and replayed.
//
//   LAW(name, quick, thorough) { ... c.draw(..) ... CHK(cond, "text " << x); }
//   KNOWN(name, "what fails")  { return true iff the known defect still shows; }
//   PBT_MAIN("N01", "rule text")
//
// Cases run in forked batches, so that crashes, failed assertions and endless loops of the code under
// test become reports and the global pools start from a fresh state in every batch.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <ostream>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };
struct Discard {};

std::uint64_t mix(std::uint64_t x);
std::uint64_t hash_str(const std::string& s, std::uint64_t h = 1469598103934665603ull);

class Src {
public:
	std::vector<std::uint64_t> rec;      // choices actually used
	std::vector<std::uint64_t> given;    // choices to replay
	bool replaying = false;
	std::uint64_t state = 0;
	std::uint64_t next();
	// Uniform value in [0,n); 0 is the simplest one.
	std::uint64_t draw(std::uint64_t n);
};

class Ctx {
public:
	Src src;
	std::ostringstream text;             // the readable case
	std::map<std::string, std::uint64_t> labels;
	bool is_nontrivial = false;

	std::uint64_t draw(std::uint64_t n) { return src.draw(n); }
	std::size_t idx(std::size_t n) { return std::size_t(src.draw(n)); }
	bool coin() { return src.draw(2) == 1; }
	bool chance(unsigned num, unsigned den) { return src.draw(den) >= den - num; }
	// Integer in [lo,hi], simplest is the one closest to zero (or lo).
	std::int64_t range(std::int64_t lo, std::int64_t hi);
	template<typename T> const T& pick(const std::vector<T>& v) { return v[idx(v.size())]; }
	template<typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + idx(v.size())); }
	// Weighted index.
	std::size_t weighted(std::initializer_list<unsigned> w);

	bool commit_each = false;            // isolated runs keep the text even if the case kills the process
	template<typename T> void in(const char* name, const T& v) { text << name << " = " << v << "\n"; if (commit_each) commit_text(); }
	void label(const std::string& l) { ++labels[l]; }
	void label_if(bool b, const std::string& l) { if (b) ++labels[l]; }
	void nontrivial(bool b = true) { if (b) is_nontrivial = true; }
	[[noreturn]] void discard() { throw Discard(); }
	[[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
	void commit_text();                  // makes the text visible to crash reports
};

struct Law {
	const char* name;
	void (*fn)(Ctx&);
	std::uint64_t quick, thorough;
	unsigned batch;
};
struct Known {
	const char* name;
	const char* what;
	bool (*fn)();
};
std::vector<Law>& laws();
std::vector<Known>& knowns();
struct Reg {
	Reg(const char* n, void (*f)(Ctx&), std::uint64_t q, std::uint64_t t, unsigned b) { laws().push_back({n, f, q, t, b}); }
	Reg(const char* n, const char* w, bool (*f)()) { knowns().push_back({n, w, f}); }
};
int run_main(const char* property, const char* rule, int argc, char** argv);

template<typename A, typename B>
bool same(const A& a, const B& b, std::ostream& os, const char* as, const char* bs) {
	if (a == b) return true;
	os << as << " == " << bs << " does not hold: got " << a << ", expected " << b;
	return false;
}

} // namespace pbt

#define LAW_B(NAME, Q, T, B) \
	static void law_##NAME(pbt::Ctx& c); \
	static pbt::Reg reg_##NAME(#NAME, law_##NAME, Q, T, B); \
	static void law_##NAME([[maybe_unused]] pbt::Ctx& c)
#define LAW(NAME, Q, T) LAW_B(NAME, Q, T, 200)
#define KNOWN(NAME, WHAT) \
	static bool known_##NAME(); \
	static pbt::Reg kreg_##NAME(#NAME, WHAT, known_##NAME); \
	static bool known_##NAME()
#define CHK(COND, MSG) \
	do { if (!(COND)) { std::ostringstream o_; o_ << #COND << " does not hold: " << MSG; throw pbt::Failure{o_.str()}; } } while (0)
#define CHK_EQ(A, B, MSG) \
	do { std::ostringstream o_; if (!pbt::same(A, B, o_, #A, #B)) { o_ << "; " << MSG; throw pbt::Failure{o_.str()}; } } while (0)
#define PBT_MAIN(ID, RULE) int main(int argc, char** argv) { return pbt::run_main(ID, RULE, argc, argv); }
