// Settings: durations and quantities with units, options from the command line and from files, finalizers.
#include "pbt.h"
#include <boost/any.hpp>
#include <boost/program_options.hpp>
#include <carl-settings/settings_utils.h>
#include <carl-settings/SettingsParser.h>
#include <carl-settings/Settings.h>
#include <algorithm>
#include <climits>
#include <memory>
#include <optional>
#include <sys/mman.h>
#include <unistd.h>
namespace cs = carl::settings; namespace po = boost::program_options;
using Strs = std::vector<std::string>; using i128 = __int128;
struct Unit { std::string name; i128 factor; };
static std::vector<Unit> units(int kind) {
	if (kind == 0) return {{"ns", 1}, {"µs", 1000}, {"us", 1000}, {"ms", 1000000}, {"s", 1000000000}, {"m", i128(60) * 1000000000}, {"h", i128(3600) * 1000000000}};
	std::vector<Unit> r{{"", 1}}; i128 f = 1; for (char ch : std::string("KMGTPE")) { f *= kind == 1 ? 1024 : 1000; r.push_back({std::string(1, ch), f}); if (kind == 1) r.push_back({std::string(1, ch) + "i", f}); }
	return r;
}
static i128 top(int kind) { return kind == 0 ? i128(LLONG_MAX) : i128(ULLONG_MAX); }
static i128 low(int kind) { return kind == 0 ? i128(LLONG_MIN) : 0; }
static std::string str(i128 v) { bool n = v < 0; if (n) v = -v; std::string s; do { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; } while (v); return n ? "-" + s : s; }
// What a text denotes: a number directly followed by a unit.
static std::optional<i128> denotes(int kind, const std::string& t) {
	std::size_t i = 0; bool neg = false; if (kind == 0 && i < t.size() && t[i] == '-') { neg = true; ++i; }
	std::size_t b = i; i128 v = 0; while (i < t.size() && t[i] >= '0' && t[i] <= '9') { if (i - b > 24) return {}; v = v * 10 + (t[i] - '0'); ++i; } if (i == b) return {};
	if (neg) v = -v; if (v > top(kind) || v < low(kind)) return {};
	for (auto& u : units(kind)) if (t.substr(i) == u.name) { i128 r = v * u.factor; if (r > top(kind) || r < low(kind)) return {}; return r; }
	return {};
}
static std::optional<i128> read(int kind, const std::string& t) {
	boost::any a; Strs v{t};
	try {
		switch (kind) {
			case 0: cs::validate(a, v, static_cast<cs::duration*>(nullptr), 0); return i128(boost::any_cast<cs::duration>(a).count());
			case 1: cs::validate(a, v, static_cast<cs::binary_quantity*>(nullptr), 0); return i128(boost::any_cast<cs::binary_quantity>(a).n());
			default: cs::validate(a, v, static_cast<cs::metric_quantity*>(nullptr), 0); return i128(boost::any_cast<cs::metric_quantity>(a).n());
		}
	} catch (const po::error&) { return {}; }
}
static std::string print(int kind, i128 v) { std::ostringstream o; if (kind == 0) o << cs::duration((long long)v); else if (kind == 1) o << cs::binary_quantity(std::size_t(v)); else o << cs::metric_quantity(std::size_t(v)); return o.str(); }
static i128 gen_value(pbt::Ctx& c, int kind, i128 factor) {
	i128 most = top(kind) / factor; i128 v;
	switch (c.draw(4)) {
		case 0: v = c.draw(100); break;
		case 1: v = i128(c.draw(1ull << c.range(1, 62))); break;
		case 2: v = most - i128(c.draw(3)); break;
		default: { auto u = units(kind); v = u[c.idx(u.size())].factor * i128(1 + c.draw(3)) + i128(c.range(-2, 2)); }
	}
	if (v < 0) v = 0; if (v > top(kind)) v = top(kind); if (kind == 0 && c.chance(1, 5)) v = -v; return v;
}
static const char* NAMES[] = {"duration", "binary quantity", "metric quantity"};
LAW(texts, 6000, 90000) {
	int kind = int(c.draw(3)); auto us = units(kind); auto& u = us[c.idx(us.size())]; i128 v = gen_value(c, kind, u.factor); std::string t = str(v) + u.name; unsigned style = unsigned(c.draw(8));
	switch (style) {
		case 0: t += c.pick<const char*>({"s", "i", " ", "K", "0", "x", "B"}); break;
		case 1: t = c.pick<const char*>({"", "-", "x", " ", "--"}) + t; break;
		case 2: t = u.name; break;
		case 3: t = str(v) + c.pick<const char*>({" ", "", "µ", "n", "k", "ki", "KI", "Mb", "min", "sec", "hh", "S", "d", "e", ".5s", "e3s"}) + (c.coin() ? u.name : ""); break;
		case 4: t = str(v) + str(c.draw(1000000)) + str(c.draw(1000000)) + u.name; break;
		default: break;
	}
	c.in("kind", NAMES[kind]); c.in("text", "\"" + t + "\""); auto want = denotes(kind, t); auto got = read(kind, t); c.nontrivial(want && *want != 0); c.label(want ? "accepted" : "rejected"); c.label(NAMES[kind]);
	if (want) { CHK(got, "the text is rejected, expected " << str(*want)); CHK(*got == *want, "the text is read as " << str(*got) << ", expected " << str(*want)); } else CHK(!got, "the text is read as " << str(*got));
}
LAW(printing, 4000, 60000) {
	int kind = int(c.draw(3)); auto us = units(kind); i128 v = gen_value(c, kind, us[c.idx(us.size())].factor);
	c.in("kind", NAMES[kind]); c.in("value", str(v)); std::string t = print(kind, v); auto back = denotes(kind, t); CHK(back, "the value is printed as \"" << t << "\""); auto again = read(kind, t); CHK(again && *again == *back, "the printed text \"" << t << "\" is not read as " << str(*back));
	// the largest unit that does not make the value zero, rounded towards zero
	i128 a = v < 0 ? -v : v, b = *back < 0 ? -*back : *back; CHK((v < 0) == (*back < 0) || *back == 0, "the value is printed as \"" << t << "\""); CHK(b <= a, "the value is printed as \"" << t << "\", which is more"); if (v != 0) CHK(b != 0, "the value is printed as \"" << t << "\"");
	if (v >= 0) { i128 f = 1; for (auto& u : us) if (u.factor <= v && u.factor > f) f = u.factor; CHK(b == v / f * f && t.compare(0, str(v / f).size(), str(v / f)) == 0 && !std::isdigit((unsigned char)t[str(v / f).size()]), "the value is printed as \"" << t << "\""); c.nontrivial(f > 1); c.label(f > 1 ? "scaled" : "plain"); } else CHK(a - b < a / 2 + 1, "the value is printed as \"" << t << "\"");
}
LAW(accessors, 1500, 20000) {
	std::uint64_t a = c.coin() ? c.draw(1ull << c.range(1, 63)) : ~c.draw(1000), b = c.chance(1, 4) ? a : c.coin() ? c.draw(1ull << c.range(1, 63)) : ~c.draw(1000); c.in("a", a); c.in("b", b); c.nontrivial(a >= 1000);
	cs::binary_quantity p(a), q(b); cs::metric_quantity r(a), s(b); cs::duration d((long long)(a >> 1));
	CHK((p == q) == (a == b) && (p < q) == (a < b), "comparing binary quantities"); CHK((r == s) == (a == b) && (r < s) == (a < b), "comparing metric quantities");
	i128 f = 1; std::uint64_t bn[] = {p.n(), p.kibi(), p.mebi(), p.gibi(), p.tebi(), p.pebi(), p.exbi()}, mn[] = {r.n(), r.kilo(), r.mega(), r.giga(), r.tera(), r.peta(), r.exa()}; i128 g = 1;
	for (int i = 0; i < 7; ++i) { CHK(i128(bn[i]) == i128(a) / f, "binary prefix number " << i); CHK(i128(mn[i]) == i128(a) / g, "metric prefix number " << i); f *= 1024; g *= 1000; }
	long long n = (long long)(a >> 1); CHK(std::chrono::seconds(d).count() == n / 1000000000 && std::chrono::milliseconds(d).count() == n / 1000000 && std::chrono::hours(d).count() == n / 3600000000000ll && std::chrono::nanoseconds(d).count() == n, "converting the duration");
	cs::Settings st; st.get<int>("x") = int(a % 1000); st.get<std::string>("y") = "v"; CHK(st.get<int>("x") == int(a % 1000) && st.get<std::string>("y") == "v" && st.get<int>("z") == 0, "stored settings");
}
// Options: values come from the command line, then from the file, then from the defaults.
struct Parser : cs::SettingsParser {
	mutable Strs unknown, files;
	void warn_for_unrecognized_option(const std::string& s) const override { unknown.push_back(s); }
	void warn_config_file(const std::string& f) const override { files.push_back(f); }
	void positional(const std::string& n) { mPositional.add(n.c_str(), 1); }
	po::variables_map& values() { return mValues; }
};
struct File { int fd = -1; std::string path; File(const std::string& t) { fd = memfd_create("settings", 0); if (fd >= 0) { if (write(fd, t.data(), t.size()) < 0) {} path = "/proc/self/fd/" + std::to_string(fd); } } ~File() { if (fd >= 0) close(fd); } };
enum Ty { Flag, Text, Num, Dur, Bin, Met };
struct Opt { std::string name; Ty ty; bool has_def; std::string def; std::string at[2]; bool set[2] = {false, false}; bool b = false; std::string s; std::size_t n = 0; cs::duration d{0}; cs::binary_quantity bq; cs::metric_quantity mq; };
static std::string gen_text(pbt::Ctx& c, Ty t) {
	switch (t) {
		case Flag: return c.coin() ? "true" : "false";
		case Text: return c.pick<const char*>({"a", "abc", "x.y", "7", "p/q", "long-text"});
		case Num: return str(i128(c.draw(c.coin() ? 10 : 1000000)));
		case Dur: { auto u = units(0); return str(c.draw(500)) + u[c.idx(u.size())].name; }
		case Bin: { auto u = units(1); return str(c.draw(500)) + u[c.idx(u.size() - 4)].name; }
		default: { auto u = units(2); return str(c.draw(500)) + u[c.idx(u.size() - 2)].name; }
	}
}
template<typename T> static T parse_as(int kind, const std::string& t) { return T((long long)*denotes(kind, t)); }
static void declare(Opt& o, po::options_description& d) {
	auto add = [&](const po::value_semantic* s) { d.add_options()(o.name.c_str(), s, "text"); };
	switch (o.ty) {
		case Flag: add(po::bool_switch(&o.b)); break;
		case Text: { auto* v = po::value<std::string>(&o.s); if (o.has_def) v->default_value(o.def); add(v); break; }
		case Num: { auto* v = po::value<std::size_t>(&o.n); if (o.has_def) v->default_value(std::size_t(std::stoul(o.def))); add(v); break; }
		case Dur: { auto* v = po::value<cs::duration>(&o.d); if (o.has_def) v->default_value(parse_as<cs::duration>(0, o.def)); add(v); break; }
		case Bin: { auto* v = po::value<cs::binary_quantity>(&o.bq); if (o.has_def) v->default_value(parse_as<cs::binary_quantity>(1, o.def)); add(v); break; }
		default: { auto* v = po::value<cs::metric_quantity>(&o.mq); if (o.has_def) v->default_value(parse_as<cs::metric_quantity>(2, o.def)); add(v); }
	}
}
static i128 number(const Opt& o) { switch (o.ty) { case Flag: return o.b; case Num: return o.n; case Dur: return o.d.count(); case Bin: return o.bq.n(); default: return o.mq.n(); } }
static i128 number_of(Ty t, const std::string& s) { switch (t) { case Flag: return s == "true"; case Num: return i128(std::stoul(s)); case Dur: return *denotes(0, s); case Bin: return *denotes(1, s); default: return *denotes(2, s); } }
static std::string shown(Ty t, const std::string& s) { switch (t) { case Flag: case Text: return s; case Num: return str(number_of(t, s)); case Dur: return print(0, number_of(t, s)); case Bin: return print(1, number_of(t, s)); default: return print(2, number_of(t, s)); } }
LAW(options, 2500, 40000) {
	unsigned n = 1 + unsigned(c.draw(6)); std::vector<Opt> os(n); Parser p; po::options_description* d = nullptr;
	for (unsigned i = 0; i < n; ++i) { auto& o = os[i]; o.name = std::string(1, char('a' + i)) + c.pick<const char*>({"", "-opt", ".sub", "bool"}); o.name = "o" + o.name; o.ty = Ty(c.draw(6)); o.has_def = o.ty == Flag || c.coin(); o.def = o.ty == Flag ? "false" : o.has_def ? gen_text(c, o.ty) : ""; }
	for (unsigned i = 0; i < n; ++i) { if (!d || c.chance(1, 3)) d = &p.add("group"); declare(os[i], *d); }
	std::string cfg, input; bool has_cfg = c.coin(), has_pos = c.chance(1, 3), missing = has_cfg && c.chance(1, 6); auto& g = p.add("general"); g.add_options()("config", po::value<std::string>(&cfg), "file")("input", po::value<std::string>(&input), "input"); if (has_pos) p.positional("input");
	bool allow = !c.chance(1, 4); Strs args{"program"}, unknown; std::string file; Strs order;
	for (auto& o : os) for (int w : {0, 1}) if (c.coin() && (w == 0 || has_cfg)) { o.at[w] = w == 0 && o.ty == Flag ? "true" : gen_text(c, o.ty); o.set[w] = true; }
	for (auto& o : os) if (o.set[0]) { if (o.ty == Flag) args.push_back("--" + o.name); else if (c.coin()) args.push_back("--" + o.name + "=" + o.at[0]); else { args.push_back("--" + o.name); args.push_back(o.at[0]); } }
	if (c.chance(1, 4)) { args.push_back("--unknown" + str(c.draw(3))); unknown.push_back(args.back()); }
	if (has_pos && c.coin()) { args.push_back("the.input"); }
	if (has_cfg) for (auto& o : os) if (o.set[1]) { if (c.chance(1, 5)) file += "# a comment\n\n"; file += o.name + (c.coin() ? "=" : " = ") + o.at[1] + "\n"; }
	if (has_cfg && !missing && c.chance(1, 6)) { file += "other" + str(c.draw(3)) + "=1\n"; unknown.push_back("in the file"); }
	File f(file); if (has_cfg && f.fd < 0) c.discard(); std::string path = missing ? "/proc/self/fd/none" : f.path; if (has_cfg) { args.push_back("--config=" + path); }
	std::vector<std::vector<char>> raw; for (auto& a : args) { raw.emplace_back(a.begin(), a.end()); raw.back().push_back(0); } std::vector<char*> argv; for (auto& r : raw) argv.push_back(r.data());
	for (auto& a : args) if (a.compare(0, 9, "--config=")) c.in("argument", a); if (has_cfg) c.in(missing ? "missing file" : "file", file); for (auto& o : os) c.in("option", o.name + " type " + str(int(o.ty)) + (o.has_def ? " default " + o.def : "")); c.in("unknown options allowed", allow);
	c.nontrivial(std::any_of(os.begin(), os.end(), [](const Opt& o) { return o.set[0] || o.set[1]; })); c.label_if(has_cfg, "file"); c.label_if(!unknown.empty(), "unknown options");
	// finalizers: all of them run, in order, after the values are known
	unsigned nf = unsigned(c.draw(4)); std::vector<int> ran; std::vector<int> kind(nf); std::map<std::string, std::string> forced; Strs seen; std::vector<std::size_t> looked;
	for (unsigned i = 0; i < nf; ++i) {
		kind[i] = int(c.draw(5)); // 0: nothing, 1: reports a change, 2: sets a default, 3: overwrites, 4: changes a value in place
		std::size_t w = c.idx(n); std::string nm = os[w].name; c.in("finalizer", str(kind[i]) + " " + nm); looked.push_back(w);
		p.add_finalizer([&ran, &os, w, nm, i, k = kind[i], &seen](po::variables_map& m) { ran.push_back(int(i)); seen.push_back(os[w].ty == Text ? os[w].s : str(number(os[w]))); if (k == 2) cs::default_to(m, nm + "-preset", std::string("preset" + str(i))); if (k == 3) cs::overwrite_to(m, nm + "-preset", std::string("forced" + str(i))); if (k == 4 && os[w].ty == Num && m.count(nm)) m.at(nm).value() = boost::any(std::size_t(1000000 + i)); return k != 0; });
	}
	p.finalize(); { std::ostringstream h; h << p.print_help(); for (auto& o : os) CHK(h.str().find("--" + o.name) != std::string::npos, "option " << o.name << " is not in the help text"); }
	bool threw = false; try { p.parse_options(int(argv.size()), argv.data(), allow); } catch (const po::error&) { threw = true; }
	if (!allow && !unknown.empty()) { CHK(threw, "an unknown option is accepted"); return; }
	CHK(!threw, "the options are rejected");
	CHK(p.unknown.empty() == unknown.empty(), "reported " << p.unknown.size() << " unknown options"); for (auto& u : unknown) if (u != "in the file") CHK(std::count(p.unknown.begin(), p.unknown.end(), u) == 1, "the unknown option " << u << " is not reported");
	CHK_EQ(p.files.size(), std::size_t(missing ? 1 : 0), "reports of missing files");
	for (auto& o : os) {
		bool s0 = o.set[0], s1 = o.set[1] && !missing; std::string want = s0 ? o.at[0] : s1 ? o.at[1] : o.def; bool any = s0 || s1 || o.has_def;
		for (unsigned i = 0; i < nf && i < seen.size(); ++i) if (&os[looked[i]] == &o) CHK_EQ(seen[i], any ? o.ty == Text ? want : str(number_of(o.ty, want)) : o.ty == Text ? std::string() : std::string("0"), "option " << o.name << " as the finalizer " << i << " sees it");
		if (any && o.ty == Num) for (unsigned i = 0; i < nf; ++i) if (&os[looked[i]] == &o && kind[i] == 4) { want = str(1000000 + i); c.label("changed by a finalizer"); }
		CHK_EQ(p.values().count(o.name), std::size_t(any), "option " << o.name); if (!any) continue; CHK_EQ(p.values()[o.name].defaulted(), !s0 && !s1, "option " << o.name << " counted as a default");
		if (o.ty == Text) CHK_EQ(o.s, want, "option " << o.name); else CHK(number(o) == number_of(o.ty, want), "option " << o.name << " is " << str(number(o)) << ", expected " << str(number_of(o.ty, want)));
		std::ostringstream t; t << p.print_options(); CHK(("\n" + t.str()).find("\n" + o.name + " = " + shown(o.ty, want) + "\n") != std::string::npos, "option " << o.name << " = " << want << " is printed in\n" << t.str());
	}
	{ std::ostringstream h; h << p.print_help(); std::string first = h.str().substr(0, h.str().find('\n')); CHK(first.find("program") != std::string::npos, "the help text starts with " << first); CHK((first.find("input") != std::string::npos) == has_pos, "the help text starts with " << first); }
	CHK_EQ(input, std::string(has_pos && std::count(args.begin(), args.end(), "the.input") ? "the.input" : ""), "the positional argument");
	CHK_EQ(ran.size(), std::size_t(nf), "finalizers that ran"); for (unsigned i = 0; i < nf; ++i) CHK_EQ(ran[i], int(i), "order of the finalizers"); c.label_if(nf > 1, "finalizers");
}
LAW(presets, 1500, 20000) {
	// defaults given later do not replace given values, overwriting does
	po::variables_map m; std::map<std::string, std::pair<long, int>> ref; po::options_description d; Strs names{"x", "y", "z"}; std::vector<std::string> argstr{"program"}; Strs txt;
	for (auto& n : names) { int k = int(c.draw(3)); long v = long(c.draw(50)); if (k == 1) { d.add_options()(n.c_str(), po::value<long>()->default_value(v), ""); ref[n] = {v, 1}; } else { d.add_options()(n.c_str(), po::value<long>(), ""); if (k == 2) { argstr.push_back("--" + n + "=" + str(v)); ref[n] = {v, 2}; } } c.in(n.c_str(), k == 0 ? "not set" : k == 1 ? "default" : "given"); }
	std::vector<char*> argv; for (auto& a : argstr) argv.push_back(&a[0]); po::store(po::parse_command_line(int(argv.size()), argv.data(), d), m); po::notify(m);
	std::set<std::string> touched;
	for (unsigned i = 0, n = 1 + unsigned(c.draw(4)); i < n; ++i) {
		std::string w = c.pick(names); long v = 100 + long(c.draw(50)); bool over = c.coin(); c.in(over ? "overwrite" : "default", w + " " + str(v)); c.nontrivial(ref.count(w));
		if (over) { cs::overwrite_to(m, w, v); ref[w] = {v, 2}; } else { bool first = !touched.count(w); if (!first) continue; cs::default_to(m, w, v); if (!ref.count(w) || ref[w].second == 1) ref[w] = {v, 2}; } touched.insert(w);
		for (auto& nm : names) { CHK_EQ(m.count(nm), ref.count(nm), "option " << nm << " is set"); if (ref.count(nm)) CHK_EQ(m[nm].as<long>(), ref[nm].first, "option " << nm); }
	}
}
KNOWN(bound_variables, "a value set by a finalizer through default_to or overwrite_to does not reach the variable bound to the option when the options are notified again") {
	Parser p; bool b = false; p.add("g").add_options()("b", po::bool_switch(&b), "x"); p.add_finalizer([](po::variables_map& m) { cs::overwrite_to(m, "b", true); return true; }); p.finalize(); char a[] = "program"; char* argv[] = {a}; p.parse_options(1, argv, true); return !b;
}
PBT_MAIN("Z01", "the text denotes a value other than zero, or an option is given on the command line or in the file")
