// Logging and statistics: filters, sinks, formatters, concurrent messages; collected values and their printed form; printed containers.
#include "pbt.h"
#include <carl-logging/logging.h>
#include <carl-logging/Logger.h>
#include <carl-statistics/Statistics.h>
#include <carl-statistics/StatisticsCollector.h>
#include <carl-statistics/StatisticsPrinter.h>
#include <carl/io/streamingOperators.h>
#include <carl/util/Timer.h>
#include <algorithm>
#include <deque>
#include <list>
#include <memory>
#include <thread>
namespace lg = carl::logging; namespace st = carl::statistics; using Lv = lg::LogLevel; using Strs = std::vector<std::string>;
static const Lv LEVELS[] = {Lv::LVL_ALL, Lv::LVL_TRACE, Lv::LVL_DEBUG, Lv::LVL_INFO, Lv::LVL_WARN, Lv::LVL_ERROR, Lv::LVL_FATAL, Lv::LVL_OFF};
static const char* LNAMES[] = {"ALL", "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL", "OFF"};
static Strs split(const std::string& s, char sep) { Strs r; std::string cur; for (char ch : s) if (ch == sep) { r.push_back(cur); cur.clear(); } else cur += ch; r.push_back(cur); return r; }
static Strs lines(const std::string& s) { auto r = split(s, '\n'); if (!r.empty() && r.back().empty()) r.pop_back(); return r; }
static Strs words(const std::string& s) { Strs r; std::istringstream i(s); std::string w; while (i >> w) r.push_back(w); return r; }
static std::string gen_channel(pbt::Ctx& c) { unsigned n = unsigned(c.draw(5)); std::string s; for (unsigned i = 0; i < n; ++i) { if (i) s += "."; s += c.pick<const char*>({"a", "b", "ab", "carl", "x"}); } return s; }
// The rule of the longest dot-separated prefix decides.
using Rules = std::map<std::string, int>;
static int level_for(const Rules& r, const std::string& ch) { int best = 4; std::size_t len = 0; for (auto& kv : r) { bool match = kv.first.empty() || kv.first == ch || (ch.size() > kv.first.size() && ch.compare(0, kv.first.size(), kv.first) == 0 && ch[kv.first.size()] == '.'); if (match && kv.first.size() >= len) { best = kv.second; len = kv.first.size(); } } return best; }
static void gen_rules(pbt::Ctx& c, Rules& r, lg::Filter& f, unsigned most) { for (unsigned i = 0, n = unsigned(c.draw(most)); i < n; ++i) { std::string ch = gen_channel(c); int l = int(c.draw(8)); r[ch] = l; f(ch, LEVELS[l]); c.in("rule", "\"" + ch + "\" " + LNAMES[l]); } }
LAW(filters, 4000, 60000) {
	lg::Filter f; Rules r{{"", 4}}; gen_rules(c, r, f, 6);
	for (unsigned i = 0; i < 6; ++i) { std::string ch = gen_channel(c); if (!r.empty() && c.chance(1, 3)) { auto it = r.begin(); std::advance(it, c.idx(r.size())); ch = it->first + (c.coin() ? ".b.x" : "b"); } int l = int(c.draw(8)); c.in("channel", ch + " " + LNAMES[l]); bool want = l >= level_for(r, ch); CHK_EQ(f.check(ch, LEVELS[l]), want, "channel " << ch << " at level " << LNAMES[l]); c.label(want ? "passes" : "stopped"); c.nontrivial(r.size() > 1); }
	CHK_EQ(f.data().size(), r.size(), "number of rules"); std::ostringstream o; o << f; auto ls = lines(o.str()); CHK_EQ(ls.size(), r.size() + 1, "printed rules"); for (auto& kv : r) { bool found = false; for (auto& l : ls) { auto w = words(l); found = found || (w.size() == 3 && w[0] == "\"" + kv.first + "\"" && w[1] == "->" && w[2] == LNAMES[kv.second]); } CHK(found, "the rule for \"" << kv.first << "\" is not printed in " << o.str()); }
}
// A formatter of our own.
struct Tagged : lg::Formatter { std::string tag; bool configured = false; explicit Tagged(const std::string& t) : tag(t) {} void configure(const lg::Filter&) noexcept override { configured = true; } void prefix(std::ostream& os, const std::string& ch, Lv, const lg::RecordInfo&) override { os << tag << ch << "|"; } void suffix(std::ostream& os) override { os << "|" << tag << "\n"; } };
struct Ref { std::unique_ptr<std::ostringstream> os; Rules rules; int fmt = 0; std::string tag; struct Line { std::string ch, msg, file, func; int lv; std::size_t line; int fmt; std::string tag; }; std::vector<Line> want; };
static void judge(const Ref& r, const std::string& id) {
	auto ls = lines(r.os->str()); CHK_EQ(ls.size(), r.want.size(), "messages in sink " << id << ":\n" << r.os->str());
	for (std::size_t i = 0; i < ls.size(); ++i) {
		auto& w = r.want[i]; auto& l = ls[i];
		if (w.fmt == 1) { CHK_EQ(l, w.msg, "message number " << i << " in sink " << id); continue; }
		if (w.fmt == 2) { CHK_EQ(l, w.tag + w.ch + "|" + w.msg + "|" + w.tag, "message number " << i << " in sink " << id); continue; }
		CHK(l.size() >= w.msg.size() && l.compare(l.size() - w.msg.size(), w.msg.size(), w.msg) == 0, "message number " << i << " in sink " << id << " is " << l); auto ws = words(l.substr(0, l.size() - w.msg.size())); Strs want{LNAMES[w.lv]}; if (!w.ch.empty()) want.push_back(w.ch); want.push_back(w.file + ":" + std::to_string(w.line)); if (!w.func.empty()) want.push_back(w.func + "():");
		CHK(ws == want, "message number " << i << " in sink " << id << " is " << l);
	}
}
LAW(sinks, 3000, 45000) {
	auto own = std::make_unique<lg::Logger>(); bool global = c.coin(); lg::Logger& g = global ? lg::logger() : *own; std::map<std::string, Ref> ref; Strs ids{"s0", "s1", "s2"};
	auto install = [&](const std::string& id) { auto& r = ref[id]; r = Ref(); r.os = std::make_unique<std::ostringstream>(); r.rules = {{"", 4}}; g.configure(id, *r.os); };
	if (!global) CHK(!g.visible(Lv::LVL_FATAL, "a"), "a message is visible although there are no sinks");
	if (global) for (auto& id : ids) install(id); else if (c.coin()) install("s0");
	unsigned n = 3 + unsigned(c.draw(14)); unsigned sent = 0;
	for (unsigned i = 0; i < n; ++i) {
		std::string id = c.pick(ids);
		switch (c.weighted({1, 3, 1, 1, 8})) {
			case 0: c.in("install", id); if (ref.count(id)) judge(ref[id], id); install(id); break;
			case 1: if (ref.count(id)) { c.in("rules for", id); gen_rules(c, ref[id].rules, g.filter(id), 4); } break;
			case 2: if (ref.count(id)) { auto& r = ref[id]; if (r.fmt != 2) { r.fmt = int(c.draw(2)); g.formatter(id)->printInformation = r.fmt == 0; c.in("plain format", id); } } break;
			case 3: if (ref.count(id)) { auto& r = ref[id]; r.fmt = 2; r.tag = "<" + std::to_string(i) + ">"; auto t = std::make_shared<Tagged>(r.tag); g.formatter(id, t); CHK(t->configured, "the new formatter was not configured"); c.in("own format", id); if (c.coin()) { g.resetFormatter(); CHK(g.formatter(id) == t, "the formatter was replaced"); } } break;
			default: {
				std::string ch = gen_channel(c); int l = int(c.draw(8)); Ref::Line w; w.ch = ch; w.lv = l; w.msg = "message" + std::to_string(i); w.file = c.pick<const char*>({"File.h", "a.cpp"}); w.func = c.pick<const char*>({"", "call"}); w.line = c.draw(2000); c.in("message", ch + " " + LNAMES[l]); bool any = false;
				for (auto& kv : ref) if (l >= level_for(kv.second.rules, ch)) { any = true; w.fmt = kv.second.fmt; w.tag = kv.second.tag; kv.second.want.push_back(w); }
				CHK_EQ(g.visible(LEVELS[l], ch), any, "visibility of " << ch << " at " << LNAMES[l]); if (global) CHK_EQ(lg::visible(LEVELS[l], ch), any, "visibility of " << ch << " at " << LNAMES[l]); c.label(any ? "logged" : "dropped"); sent += any;
				std::stringstream ss; ss << w.msg; lg::RecordInfo info{c.pick<const char*>({"", "/x/y/", "dir\\", "a/b\\"}) + w.file, w.func, w.line}; if (global && c.coin()) lg::log(LEVELS[l], ch, ss, info); else g.log(LEVELS[l], ch, ss, info);
			}
		}
	}
	for (auto& id : ids) { CHK_EQ(g.has(id), ref.count(id) == 1, "sink " << id << " is installed"); if (ref.count(id)) judge(ref[id], id); } c.nontrivial(sent > 1);
}
LAW(macros, 1500, 20000) {
	auto& g = lg::logger(); std::ostringstream os; for (auto id : {"s0", "s1", "s2"}) g.configure(id, os); g.filter("s1")("", Lv::LVL_OFF)("a", Lv::LVL_OFF); g.filter("s2")("", Lv::LVL_OFF); Rules r{{"", 4}}; gen_rules(c, r, g.filter("s0"), 5); g.formatter("s0")->printInformation = false; std::string want; unsigned evaluated = 0, expected = 0;
	for (unsigned i = 0; i < 8; ++i) { std::string ch = gen_channel(c); int l = 1 + int(c.draw(6)); c.in("message", ch + " " + LNAMES[l]); auto arg = [&] { ++evaluated; return i; };
		switch (l) { case 1: if (c.coin()) { __CARL_LOG_FUNC(ch, arg()); if (1 >= level_for(r, ch)) { want += "operator()(" + std::to_string(i) + ")\n"; ++expected; } continue; } __CARL_LOG_TRACE(ch, "m" << arg()); break; case 2: __CARL_LOG_DEBUG(ch, "m" << arg()); break; case 3: __CARL_LOG_INFO(ch, "m" << arg()); break; case 4: __CARL_LOG_WARN(ch, "m" << arg()); break; case 5: __CARL_LOG_ERROR(ch, "m" << arg()); break; default: __CARL_LOG_FATAL(ch, "m" << arg()); }
		if (l >= level_for(r, ch)) { want += "m" + std::to_string(i) + "\n"; ++expected; } }
	__CARL_LOG_ASSERT("a", true, "never"); std::string got = os.str(); std::size_t p = 0; // the name of the enclosing function is its own
	while ((p = want.find("operator()", p)) != std::string::npos) { want.replace(p, 10, __func__); p += 1; }
	CHK_EQ(got, want, "logged text"); CHK_EQ(evaluated, expected, "messages that were put together"); c.nontrivial(expected > 0); for (auto id : {"s0", "s1", "s2"}) g.filter(id)("", Lv::LVL_OFF);
}
LAW_B(threads, 150, 2000, 25) {
	lg::Logger g; std::ostringstream os; g.configure("s", os); g.filter("s")("", Lv::LVL_INFO)("quiet", Lv::LVL_OFF); g.formatter("s")->printInformation = c.coin(); unsigned T = 2 + unsigned(c.draw(3)), M = 5 + unsigned(c.draw(30)); c.in("threads", T); c.in("messages", M); c.nontrivial();
	std::vector<std::thread> ts; for (unsigned t = 0; t < T; ++t) ts.emplace_back([&g, t, M] { for (unsigned i = 0; i < M; ++i) { std::stringstream ss; ss << "<" << t << ":" << i << ":" << std::string(20 + i % 7, char('a' + t)) << ">"; g.log(i % 5 == 4 ? Lv::LVL_DEBUG : Lv::LVL_WARN, i % 7 == 6 ? "quiet" : "loud", ss, lg::RecordInfo{"file", "f", i}); } }); for (auto& t : ts) t.join();
	std::vector<unsigned> next(T, 0); auto skip = [](unsigned i) { return i % 5 == 4 || i % 7 == 6; }; for (auto& l : lines(os.str())) { auto p = l.find('<'); CHK(p != std::string::npos && l.back() == '>', "the line is " << l); auto f = split(l.substr(p + 1, l.size() - p - 2), ':'); CHK(f.size() == 3, "the line is " << l); unsigned t = unsigned(std::stoul(f[0])), i = unsigned(std::stoul(f[1])); CHK(t < T, "the line is " << l); while (next[t] < M && skip(next[t])) ++next[t]; CHK_EQ(i, next[t], "order of the messages of thread " << t); ++next[t]; CHK(f[2] == std::string(20 + i % 7, char('a' + t)), "the line is " << l); }
	for (unsigned t = 0; t < T; ++t) { while (next[t] < M && skip(next[t])) ++next[t]; CHK_EQ(next[t], M, "messages of thread " << t); }
}
LAW(names, 2000, 30000) {
	std::string dir, file; for (unsigned i = 0, n = unsigned(c.draw(4)); i < n; ++i) { for (unsigned k = 0, m = unsigned(c.draw(4)); k < m; ++k) dir += char('a' + c.draw(26)); dir += c.chance(1, 3) ? "\\" : "/"; } for (unsigned k = 0, m = unsigned(c.draw(6)); k < m; ++k) file += c.pick<char>({'a', 'b', '.', 'z', ' '}); c.in("path", dir + file); CHK_EQ(carl::basename(dir + file), file, "name of the file"); c.nontrivial(!dir.empty());
	std::uint32_t v = std::uint32_t(c.draw(1ull << c.range(1, 32))); std::string bits; for (int i = 31; i >= 0; --i) { bits += char('0' + ((v >> i) & 1)); } CHK_EQ(carl::binary(v, false), bits, "bits of " << v); std::string sp; for (int i = 0; i < 32; ++i) { if (i && i % 8 == 0) sp += ' '; sp += bits[std::size_t(i)]; } CHK_EQ(carl::binary(v), sp, "bits of " << v);
}
struct Stats : st::Statistics { std::vector<std::pair<std::string, std::string>> text; std::vector<std::pair<std::string, long>> num; std::vector<std::pair<std::string, st::timer>> time; bool on = true; unsigned calls = 0; bool enabled() const override { return on; } void collect() override { ++calls; for (auto& t : text) addKeyValuePair(t.first, t.second); for (auto& t : num) addKeyValuePair(t.first, t.second); for (auto& t : time) addKeyValuePair(t.first, t.second); } };
LAW_B(statistics, 1500, 20000, 1) { // the collector is global and only grows
	auto& col = st::StatisticsCollector::getInstance(); std::size_t base = col.statistics().size(); unsigned n = 1 + unsigned(c.draw(4)); std::vector<Stats*> ss; std::vector<std::map<std::string, std::string>> want(n); Strs names;
	for (unsigned i = 0; i < n; ++i) {
		std::string nm = "module" + std::to_string(c.draw(3)) + (c.chance(1, 4) ? "<T>" : ""); auto& s = st::get<Stats>(nm); ss.push_back(&s); names.push_back(nm); s.on = !c.chance(1, 4); c.in("module", nm + (s.on ? "" : " disabled"));
		for (unsigned k = 0, m = unsigned(c.draw(5)); k < m; ++k) { std::string key = c.pick<const char*>({"k", "key", "a-long-key", "x"}) + std::to_string(k); switch (c.draw(3)) { case 0: { std::string v = c.pick<const char*>({"v", "text", "a/b"}); s.text.push_back({key, v}); want[i][key] = v; break; } case 1: { long v = long(c.range(-1000000, 1000000)); s.num.push_back({key, v}); want[i][key] = std::to_string(v); break; } default: { st::timer t; unsigned r = unsigned(c.draw(4)); for (unsigned q = 0; q < r; ++q) t.finish(st::timer::start()); CHK_EQ(t.count(), std::size_t(r), "number of measurements"); if (c.chance(1, 20)) { auto was = t.overall_ms(); t.finish(st::timer::start() - std::chrono::milliseconds(50 + c.draw(100))); ++r; CHK(t.count() == r && t.overall_ms() >= was + 49, "measured " << t.overall_ms() << " ms"); } s.time.push_back({key, t}); want[i][key + "_count"] = std::to_string(r); want[i][key + "_overall_ms"] = std::to_string(t.overall_ms()); } } }
		if (!s.on) want[i].clear(); for (auto& kv : want[i]) c.in("  value", kv.first + " " + kv.second);
	}
	CHK_EQ(col.statistics().size(), base + n, "number of modules"); col.collect(); for (unsigned i = 0; i < n; ++i) { CHK_EQ(ss[i]->name(), names[i], "name of the module"); CHK_EQ(ss[i]->calls, ss[i]->on ? 1u : 0u, "number of collections"); CHK(ss[i]->collected() == want[i], "values of " << names[i]); }
	c.nontrivial(std::any_of(want.begin(), want.end(), [](auto& w) { return w.size() > 1; })); std::ostringstream a, b; a << st::statistics_as_smtlib(); b << st::statistics_as_xml(); Strs ew, xl;
	for (unsigned i = 0; i < n; ++i) if (!want[i].empty()) { ew.push_back("(:" + names[i]); ew.push_back("("); std::string xn = names[i]; std::replace(xn.begin(), xn.end(), '<', '('); std::replace(xn.begin(), xn.end(), '>', ')'); xl.push_back("<module name=\"" + xn + "\">"); for (auto& kv : want[i]) { ew.push_back(":" + kv.first); ew.push_back(kv.second); xl.push_back("<stat name=\"" + kv.first + "\" value=\"" + kv.second + "\" />"); } ew.push_back("))"); xl.push_back("</module>"); }
	CHK(words(a.str()) == ew, "printed as\n" << a.str()); Strs got; for (auto l : lines(b.str())) { l.erase(0, l.find_first_not_of('\t')); got.push_back(l); } CHK(got == xl, "printed as\n" << b.str());
}
template<typename T> static std::string join(const std::vector<T>& v, const std::string& glue = ", ") { std::ostringstream o; for (std::size_t i = 0; i < v.size(); ++i) o << (i ? glue : "") << v[i]; return o.str(); }
LAW(containers, 2500, 40000) {
	using carl::operator<<; std::vector<long> v; for (unsigned i = 0, n = unsigned(c.draw(6)); i < n; ++i) v.push_back(long(c.range(-20, 20))); { std::ostringstream o; for (auto x : v) o << x << " "; c.in("elements", o.str()); } c.nontrivial(v.size() > 1); std::string len = std::to_string(v.size()), body = join(v);
	auto text = [](const auto& x) { std::ostringstream o; o << x; return o.str(); };
	CHK_EQ(text(v), "[" + len + ": " + body + "]", "vector"); CHK_EQ(text(std::deque<long>(v.begin(), v.end())), "[" + len + ": " + body + "]", "queue"); CHK_EQ(text(std::list<long>(v.begin(), v.end())), "[" + len + ": " + body + "]", "list"); CHK_EQ(text(std::forward_list<long>(v.begin(), v.end())), "[" + body + "]", "forward list");
	std::set<long> s(v.begin(), v.end()); std::vector<long> sv(s.begin(), s.end()); std::string sl = std::to_string(s.size()); CHK_EQ(text(s), "{" + sl + ": " + join(sv) + "}", "set"); CHK_EQ(text(boost::container::flat_set<long>(v.begin(), v.end())), "{" + sl + ": " + join(sv) + "}", "flat set");
	std::map<long, long> m; Strs ms; for (std::size_t i = 0; i < v.size(); ++i) m.emplace(v[i], long(i)); for (auto& kv : m) ms.push_back(std::to_string(kv.first) + " : " + std::to_string(kv.second)); CHK_EQ(text(m), "{" + join(ms) + "}", "map"); std::unordered_map<long, long> um(m.begin(), m.end()); auto ut = text(um); CHK(ut.size() == 2 + join(ms).size() && ut.front() == '{' && ut.back() == '}', "hash map " << ut); auto up = split(ut.substr(1, ut.size() - 2), ','); for (auto& x : up) if (!x.empty() && x[0] == ' ') x.erase(0, 1); std::sort(up.begin(), up.end()); auto sm = ms; std::sort(sm.begin(), sm.end()); if (!ms.empty()) CHK(up == sm, "hash map " << ut);
	std::multimap<long, long> mm; std::vector<std::pair<long, long>> mv; for (std::size_t i = 0; i < v.size(); ++i) { mm.emplace(v[i] % 3, long(i)); mv.push_back({v[i] % 3, long(i)}); } std::stable_sort(mv.begin(), mv.end(), [](auto& a, auto& b) { return a.first < b.first; }); Strs mms; for (auto& kv : mv) mms.push_back(std::to_string(kv.first) + " : " + std::to_string(kv.second)); CHK_EQ(text(mm), "{" + join(mms) + "}", "multimap");
	std::unordered_set<long> us(v.begin(), v.end()); auto t = text(us); CHK(t.compare(0, sl.size() + 3, "{" + sl + ": ") == 0 && t.back() == '}' && t.size() == sl.size() + 4 + join(sv).size(), "hash set " << t);
	long a = v.empty() ? 7 : v[0]; CHK_EQ(text(std::make_pair(a, std::string("z"))), "(" + std::to_string(a) + ", z)", "pair"); CHK_EQ(text(std::make_tuple(a, std::string("z"), a + 1)), "(" + std::to_string(a) + ", z, " + std::to_string(a + 1) + ")", "tuple"); CHK_EQ(text(std::make_tuple(a)), "(" + std::to_string(a) + ")", "tuple"); CHK_EQ(text(v.empty() ? std::optional<long>() : std::optional<long>(a)), v.empty() ? std::string("empty") : std::to_string(a), "optional"); std::variant<long, std::string> va = a; if (c.coin()) va = std::string("w"); CHK_EQ(text(va), va.index() ? std::string("w") : std::to_string(a), "variant");
	std::string glue = c.pick<const char*>({"", " ", "--", ", "}); CHK_EQ(text(carl::stream_joined(glue, v)), join(v, glue), "joined"); Strs neg; for (auto x : v) neg.push_back("<" + std::to_string(x) + ">"); CHK_EQ(text(carl::stream_joined(glue, v, [](auto& o, const auto& x) { o << "<" << x << ">"; })), join(neg, glue), "joined with a function");
	std::vector<std::set<long>> vs{s, {}}; CHK_EQ(text(vs), "[2: {" + sl + ": " + join(sv) + "}, {0: }]", "nested");
}
PBT_MAIN("L01", "several rules, messages or elements are involved")
