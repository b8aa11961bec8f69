#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <new>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

namespace pbt {

std::vector<Law>& laws() { static std::vector<Law> v; return v; }
std::vector<Known>& knowns() { static std::vector<Known> v; return v; }

std::uint64_t mix(std::uint64_t x) {
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}
std::uint64_t hash_str(const std::string& s, std::uint64_t h) {
	for (unsigned char ch : s) { h ^= ch; h *= 1099511628211ull; }
	return mix(h);
}

// ---------------------------------------------------------------- shared state of one worker
namespace {
constexpr std::size_t MAXCH = 1 << 16;
constexpr std::size_t MAXTXT = 1 << 15;
struct Slot {                       // written by the child while it runs
	std::uint64_t law, index;       // the case being run
	std::uint64_t nch;
	std::uint64_t ch[MAXCH];
	std::uint64_t ntxt;
	char txt[MAXTXT];
	// result of a single replayed case / batch
	std::uint64_t verdict;          // 0 running, 1 ok, 2 failed, 3 discarded
	std::uint64_t nmsg;
	char msg[MAXTXT];
	std::uint64_t max_cpu_us;
};
Slot* g_slot = nullptr;             // current process' slot

double now() {
	using namespace std::chrono;
	return duration<double>(steady_clock::now().time_since_epoch()).count();
}
std::uint64_t cpu_us() {
	rusage r;
	getrusage(RUSAGE_SELF, &r);
	return std::uint64_t(r.ru_utime.tv_sec + r.ru_stime.tv_sec) * 1000000ull + std::uint64_t(r.ru_utime.tv_usec + r.ru_stime.tv_usec);
}
void set_cpu_timer(double s) {
	itimerval t;
	t.it_interval.tv_sec = 0; t.it_interval.tv_usec = 0;
	t.it_value.tv_sec = long(s); t.it_value.tv_usec = long((s - double(long(s))) * 1e6);
	setitimer(ITIMER_PROF, &t, nullptr);
}
// CPU seconds after which a case counts as not terminating. See DESIGN.md, "Time".
double g_case_limit = 60;
} // namespace

std::uint64_t Src::next() { state += 0x9e3779b97f4a7c15ull; return mix(state); }
std::uint64_t Src::draw(std::uint64_t n) {
	if (n == 0) n = 1;
	std::uint64_t v;
	if (replaying) {
		v = rec.size() < given.size() ? given[rec.size()] : 0;
		if (v >= n) v = v % n;
	} else {
		v = next() % n;
	}
	if (g_slot && rec.size() < MAXCH) { g_slot->ch[rec.size()] = v; g_slot->nch = rec.size() + 1; }
	rec.push_back(v);
	return v;
}
std::int64_t Ctx::range(std::int64_t lo, std::int64_t hi) {
	if (lo >= hi) return lo;
	std::uint64_t n = std::uint64_t(hi - lo) + 1;
	std::uint64_t v = draw(n);
	if (lo > 0) return lo + std::int64_t(v);
	if (hi < 0) return hi - std::int64_t(v);
	// 0, 1, -1, 2, -2, ... as far as both sides reach, then the rest
	std::uint64_t pos = std::uint64_t(hi), neg = std::uint64_t(-lo), both = std::min(pos, neg);
	if (v <= 2 * both) return (v % 2 == 1) ? std::int64_t((v + 1) / 2) : -std::int64_t(v / 2);
	std::uint64_t rest = v - 2 * both;
	return pos > neg ? std::int64_t(both + rest) : -std::int64_t(both + rest);
}
std::size_t Ctx::weighted(std::initializer_list<unsigned> w) {
	std::uint64_t sum = 0;
	for (auto x : w) sum += x;
	std::uint64_t v = draw(sum);
	std::size_t i = 0;
	for (auto x : w) { if (v < x) return i; v -= x; ++i; }
	return i - 1;
}
void Ctx::commit_text() {
	if (!g_slot) return;
	std::string s = text.str();
	std::size_t n = std::min(s.size(), MAXTXT - 1);
	std::memcpy(g_slot->txt, s.data(), n);
	g_slot->ntxt = n;
}

namespace {

struct CaseResult {
	int verdict = 0;                // 1 ok, 2 failed, 3 discarded
	std::string msg;
};

CaseResult run_case(const Law& l, Ctx& c) {
	CaseResult r;
	set_cpu_timer(g_case_limit);
	try {
		l.fn(c);
		r.verdict = 1;
	} catch (const Discard&) {
		r.verdict = 3;
	} catch (const Failure& f) {
		r.verdict = 2; r.msg = f.msg;
	} catch (const std::exception& e) {
		r.verdict = 2; r.msg = std::string("uncaught exception ") + typeid(e).name() + ": " + e.what();
	} catch (...) {
		r.verdict = 2; r.msg = "uncaught exception of unknown type";
	}
	set_cpu_timer(0);
	return r;
}

void init_case(Ctx& c, const Law& l, std::uint64_t seed, std::uint64_t index) {
	c.src.state = mix(mix(seed ^ hash_str(l.name)) + index * 0x632be59bd9b4e019ull);
}

struct Fail {
	std::size_t law = 0;
	std::uint64_t index = 0, batch_start = 0;
	std::vector<std::uint64_t> ch;
	std::string msg, text;
	std::uint64_t task = ~0ull;
	bool need_batch = false;
};

std::string signal_msg(int status, int errfd) {
	std::ostringstream o;
	if (WIFSIGNALED(status)) {
		int s = WTERMSIG(status);
		if (s == SIGPROF) o << "no result after " << g_case_limit << " s of CPU time";
		else o << "killed by signal " << s << " (" << strsignal(s) << ")";
	} else {
		o << "process ended with status " << WEXITSTATUS(status);
	}
	if (errfd >= 0) {
		off_t end = lseek(errfd, 0, SEEK_END);
		off_t st = end > 1500 ? end - 1500 : 0;
		lseek(errfd, st, SEEK_SET);
		char buf[1600];
		ssize_t n = read(errfd, buf, 1500);
		if (n > 0) { buf[n] = 0; o << "; stderr: " << buf; }
	}
	return o.str();
}

void child_setup(int errfd) {
	rlimit rl;
	rl.rlim_cur = rl.rlim_max = 6ull << 30;
	setrlimit(RLIMIT_AS, &rl);
	rl.rlim_cur = rl.rlim_max = 0;
	setrlimit(RLIMIT_CORE, &rl);
	signal(SIGPROF, SIG_DFL);
	signal(SIGINT, SIG_DFL);
	int dn = open("/dev/null", O_WRONLY);
	if (dn >= 0) dup2(dn, 1);
	if (errfd >= 0) { if (ftruncate(errfd, 0) == 0) lseek(errfd, 0, SEEK_SET); dup2(errfd, 2); }
}

Slot* new_slot() {
	void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); std::exit(2); }
	return static_cast<Slot*>(p);
}
int new_tmp() {
	FILE* f = tmpfile();
	return f ? fileno(f) : -1;
}

// Replays one case in a child of its own.
struct Outcome { int verdict; std::string msg, text; std::vector<std::uint64_t> ch; std::uint64_t cpu_us = 0; };
Outcome run_isolated(std::size_t li, const std::vector<std::uint64_t>& given, Slot* slot, int errfd) {
	slot->verdict = 0; slot->nch = 0; slot->ntxt = 0; slot->nmsg = 0; slot->max_cpu_us = 0;
	std::cout.flush();
	pid_t pid = fork();
	if (pid == 0) {
		child_setup(errfd);
		g_slot = slot;
		Ctx c;
		c.src.replaying = true; c.src.given = given; c.commit_each = true;
		std::uint64_t t0 = cpu_us();
		CaseResult r = run_case(laws()[li], c);
		slot->max_cpu_us = cpu_us() - t0;
		c.commit_text();
		std::size_t n = std::min(r.msg.size(), MAXTXT - 1);
		std::memcpy(slot->msg, r.msg.data(), n); slot->nmsg = n;
		slot->verdict = std::uint64_t(r.verdict);
		_exit(0);
	}
	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	Outcome o;
	o.text.assign(slot->txt, slot->ntxt);
	o.ch.assign(slot->ch, slot->ch + slot->nch);
	o.cpu_us = slot->max_cpu_us;
	if (slot->verdict == 0) { o.verdict = 2; o.msg = signal_msg(status, errfd); }
	else { o.verdict = int(slot->verdict); o.msg.assign(slot->msg, slot->nmsg); }
	return o;
}
// Runs the cases with the given indices one after another in one child; reports whether the last one fails.
Outcome run_history(std::size_t li, std::uint64_t seed, const std::vector<std::uint64_t>& idx, Slot* slot, int errfd) {
	slot->verdict = 0; slot->nch = 0; slot->ntxt = 0; slot->nmsg = 0;
	std::cout.flush();
	pid_t pid = fork();
	if (pid == 0) {
		child_setup(errfd);
		g_slot = slot;
		CaseResult r;
		for (std::size_t i = 0; i < idx.size(); ++i) {
			Ctx c;
			c.commit_each = true;
			slot->nch = 0; slot->ntxt = 0; slot->index = idx[i];
			init_case(c, laws()[li], seed, idx[i]);
			r = run_case(laws()[li], c);
			c.commit_text();
			if (r.verdict == 2) break;
		}
		std::size_t n = std::min(r.msg.size(), MAXTXT - 1);
		std::memcpy(slot->msg, r.msg.data(), n); slot->nmsg = n;
		slot->verdict = std::uint64_t(r.verdict);
		_exit(0);
	}
	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
	Outcome o;
	o.text.assign(slot->txt, slot->ntxt);
	if (slot->verdict == 0) { o.verdict = 2; o.msg = signal_msg(status, errfd); }
	else { o.verdict = int(slot->verdict); o.msg.assign(slot->msg, slot->nmsg); }
	return o;
}

bool shortlex_less(const std::vector<std::uint64_t>& a, const std::vector<std::uint64_t>& b) {
	if (a.size() != b.size()) return a.size() < b.size();
	return a < b;
}

// Shrinks a failing choice sequence.
void shrink(Fail& f, Slot* slot, int errfd, double budget_s) {
	double t0 = now();
	unsigned tries = 0;
	auto better = [&](const std::vector<std::uint64_t>& cand) {
		if (now() - t0 > budget_s || tries > 4000) return false;
		++tries;
		Outcome o = run_isolated(f.law, cand, slot, errfd);
		if (o.verdict != 2) return false;
		if (!shortlex_less(o.ch, f.ch)) return false;
		f.ch = o.ch; f.msg = o.msg; f.text = o.text;
		return true;
	};
	bool progress = true;
	while (progress && now() - t0 < budget_s) {
		progress = false;
		for (std::size_t len : {64u, 32u, 16u, 8u, 4u, 3u, 2u, 1u}) {
			for (std::size_t i = 0; i + len <= f.ch.size();) {
				auto cand = f.ch;
				cand.erase(cand.begin() + long(i), cand.begin() + long(i + len));
				if (better(cand)) progress = true; else i += (len > 4 ? len / 2 : 1);
				if (now() - t0 > budget_s) return;
			}
		}
		for (std::size_t i = 0; i < f.ch.size(); ++i) {
			if (f.ch[i] == 0) continue;
			{
				auto cand = f.ch; cand[i] = 0;
				if (better(cand)) { progress = true; continue; }
			}
			std::uint64_t lo = 0;
			while (i < f.ch.size() && lo + 1 < f.ch[i]) {
				auto cand = f.ch;
				std::uint64_t mid = lo + (f.ch[i] - lo) / 2;
				cand[i] = mid;
				if (better(cand)) progress = true; else lo = mid;
				if (now() - t0 > budget_s) return;
			}
			// lower one choice while deleting the one after it (list lengths)
			if (i + 1 < f.ch.size() && f.ch[i] > 0) {
				for (std::size_t d = 1; d <= 4 && i + d < f.ch.size(); ++d) {
					auto cand = f.ch; cand[i] -= 1; cand.erase(cand.begin() + long(i + 1), cand.begin() + long(i + 1 + d));
					if (better(cand)) { progress = true; break; }
				}
			}
		}
	}
}

std::string json_str(const std::string& s) {
	std::string o = "\"";
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
		else if (ch == '\n') o += "\\n";
		else if (ch == '\t') o += "\\t";
		else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
		else o += char(ch);
	}
	return o + "\"";
}

struct Stats {
	std::uint64_t evals = 0, discards = 0;
	std::map<std::string, std::uint64_t> labels;
	std::vector<std::uint64_t> fps;
	std::vector<std::string> samples;
	std::uint64_t max_cpu = 0;
};

void put64(std::string& b, std::uint64_t v) { b.append(reinterpret_cast<const char*>(&v), 8); }
std::uint64_t get64(const char*& p) { std::uint64_t v; std::memcpy(&v, p, 8); p += 8; return v; }
void putstr(std::string& b, const std::string& s) { put64(b, s.size()); b += s; }
std::string getstr(const char*& p) { std::uint64_t n = get64(p); std::string s(p, n); p += n; return s; }

bool write_all(int fd, const std::string& b) {
	std::size_t o = 0;
	while (o < b.size()) {
		ssize_t n = write(fd, b.data() + o, b.size() - o);
		if (n < 0) { if (errno == EINTR) continue; return false; }
		o += std::size_t(n);
	}
	return true;
}

// Cases that use up their time or memory are taken for ones that never end when there are several of them and they
// stand out: no other case of the law comes near, or they are frequent. Otherwise the law has a long tail of
// expensive cases, and they are only counted as given up.
bool exhausted(const std::string& msg) {
	return msg.rfind("no result after", 0) == 0 || msg.find("bad_alloc") != std::string::npos || msg.find("Cannot allocate memory") != std::string::npos;
}
bool too_many(std::size_t n, std::uint64_t evals, std::uint64_t max_cpu, bool last = false) {
	if (n >= 3 && (n >= evals / 1000 || max_cpu < 3000000)) return true;
	// a single one is enough when all others take less than a thousandth of its time
	return n >= 1 && (last || evals >= 300) && double(max_cpu) < g_case_limit * 1000;
}

struct Shared {
	std::atomic<std::uint64_t> next_task;
	std::atomic<std::uint64_t> stop;
};

} // namespace

int run_main(const char* property, const char* rule, int argc, char** argv) {
	// Fixed addresses, so that code whose result depends on pointer order behaves alike in every run.
	int per = personality(0xffffffff);
	if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !std::getenv("PBT_REEXEC")) {
		if (personality(static_cast<unsigned long>(per) | ADDR_NO_RANDOMIZE) != -1) {
			setenv("PBT_REEXEC", "1", 1);
			execv("/proc/self/exe", argv);
		}
	}
	const char* es = std::getenv("VERIF_SEED");
	const char* et = std::getenv("VERIF_TIER");
	std::uint64_t seed = es ? std::strtoull(es, nullptr, 10) : 1;
	long long seed_print = es ? std::strtoll(es, nullptr, 10) : 1;
	bool thorough = et && std::string(et) == "thorough";
	if (const char* cl = std::getenv("PBT_CASE_LIMIT")) g_case_limit = std::atof(cl);
	double scale = std::getenv("PBT_SCALE") ? std::atof(std::getenv("PBT_SCALE")) : 1.0;
	const char* only = std::getenv("PBT_LAW");
	std::string mode = argc > 1 ? argv[1] : "run";
	Slot* slot = new_slot();
	int errfd = new_tmp();

	auto find_law = [&](const std::string& n) -> long {
		for (std::size_t i = 0; i < laws().size(); ++i) if (n == laws()[i].name) return long(i);
		return -1;
	};

	if (mode == "list") {
		for (const auto& l : laws()) std::cout << l.name << " " << l.quick << " " << l.thorough << "\n";
		return 0;
	}
	if (mode == "replay") {
		std::ifstream in(argv[2]);
		std::string line, lawname, kind;
		std::vector<std::uint64_t> nums;
		std::uint64_t rseed = 0;
		while (std::getline(in, line)) {
			std::istringstream ls(line);
			std::string k;
			ls >> k;
			if (k == "law") ls >> lawname;
			else if (k == "seed") ls >> rseed;
			else if (k == "choices" || k == "history") { kind = k; std::uint64_t v; while (ls >> v) nums.push_back(v); }
			else if (k == "#") break;
		}
		long li = find_law(lawname);
		if (li < 0) { std::cout << "unknown law " << lawname << "\n"; return 2; }
		Outcome o = kind == "history" ? run_history(std::size_t(li), rseed, nums, slot, errfd) : run_isolated(std::size_t(li), nums, slot, errfd);
		std::cout << "law " << lawname << "\n" << o.text;
		if (o.verdict == 2) { std::cout << "FAILS: " << o.msg << "\nVIOLATION property=" << property << " replay=" << argv[2] << "\n"; return 1; }
		std::cout << (o.verdict == 1 ? "holds\n" : "discarded\n");
		return 0;
	}
	if (mode == "sample") {
		long li = find_law(argv[2]);
		if (li < 0) return 2;
		unsigned n = argc > 3 ? unsigned(std::atoi(argv[3])) : 5;
		unsigned st = argc > 4 ? unsigned(std::atoi(argv[4])) : 0;
		for (unsigned i = st; i < st + n; ++i) {
			Outcome o = run_history(std::size_t(li), seed, {i}, slot, errfd);
			std::cout << "--- case " << i << " verdict " << o.verdict << "\n" << o.text << o.msg << "\n";
		}
		return 0;
	}

	double t0 = now();
	// Known findings are reproduced first; they never make the run fail.
	unsigned known_hit = 0;
	for (const auto& k : knowns()) {
		std::cout.flush();
		pid_t pid = fork();
		if (pid == 0) {
			child_setup(errfd);
			set_cpu_timer(30);
			bool r = false;
			try { r = k.fn(); } catch (...) { r = true; }
			_exit(r ? 11 : 0);
		}
		int status = 0;
		while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
		bool hit = WIFSIGNALED(status) || (WIFEXITED(status) && WEXITSTATUS(status) != 0);
		if (hit) { ++known_hit; std::cout << "KNOWN-FINDING: property=" << property << " " << k.what << std::endl; }
	}

	struct Task { std::size_t law; std::uint64_t start, count; };
	std::vector<Task> tasks;
	{
		// round-robin over the laws, so that a stop for lack of time cuts all of them alike
		std::vector<std::uint64_t> pos(laws().size(), 0), tot(laws().size(), 0);
		std::uint64_t maxb = 0;
		for (std::size_t i = 0; i < laws().size(); ++i) {
			tot[i] = std::uint64_t(double(thorough ? laws()[i].thorough : laws()[i].quick) * scale);
			if (only && std::string(only) != laws()[i].name) tot[i] = 0;
			if (tot[i]) maxb = std::max(maxb, (tot[i] + laws()[i].batch - 1) / laws()[i].batch);
		}
		for (std::uint64_t b = 0; b < maxb; ++b)
			for (std::size_t i = 0; i < laws().size(); ++i) {
				if (!tot[i]) continue;
				std::uint64_t nb = (tot[i] + laws()[i].batch - 1) / laws()[i].batch;
				// spread the nb batches of this law over the maxb rounds
				while (pos[i] < nb && pos[i] * maxb <= b * nb) {
					std::uint64_t st = pos[i] * laws()[i].batch;
					tasks.push_back({i, st, std::min<std::uint64_t>(laws()[i].batch, tot[i] - st)});
					++pos[i];
				}
			}
	}
	double budget = thorough ? 600 : 300;
	if (const char* b = std::getenv("PBT_BUDGET")) budget = std::atof(b);
	unsigned nw = 8;
	if (const char* w = std::getenv("PBT_WORKERS")) nw = unsigned(std::atoi(w));
	Shared* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	new (sh) Shared();
	sh->next_task = 0; sh->stop = 0;

	struct Worker { pid_t pid; int fd; std::string buf; };
	std::vector<Worker> ws;
	std::cout.flush();
	for (unsigned w = 0; w < nw; ++w) {
		int p[2];
		if (pipe(p) != 0) { perror("pipe"); return 2; }
		pid_t pid = fork();
		if (pid == 0) {
			// ------------------------------------------------ worker
			close(p[0]);
			for (auto& o : ws) close(o.fd);
			Slot* ws_slot = new_slot();
			int werr = new_tmp();
			while (!sh->stop) {
				if (now() - t0 > budget) break;
				std::uint64_t ti = sh->next_task.fetch_add(1);
				if (ti >= tasks.size()) break;
				Task t = tasks[ti];
				std::uint64_t at = t.start, end = t.start + t.count;
				int q[2];
				if (pipe(q) != 0) _exit(2);
				ws_slot->verdict = 0; ws_slot->nch = 0; ws_slot->ntxt = 0; ws_slot->index = at; ws_slot->nmsg = 0; ws_slot->max_cpu_us = 0;
				pid_t cp = fork();
				if (cp == 0) {
					// -------------------------------------------- batch
					close(q[0]);
					child_setup(werr);
					g_slot = ws_slot;
					const Law& l = laws()[t.law];
					Stats st;
					bool failed = false;
					std::string fmsg, ftext;
					std::vector<std::uint64_t> fch;
					std::uint64_t findex = 0;
					for (; at < end && !failed; ++at) {
						Ctx c;
						ws_slot->index = at; ws_slot->nch = 0; ws_slot->ntxt = 0;
						init_case(c, l, seed, at);
						std::uint64_t u0 = cpu_us();
						CaseResult r = run_case(l, c);
						std::uint64_t u = cpu_us() - u0;
						st.max_cpu = std::max(st.max_cpu, u); ws_slot->max_cpu_us = st.max_cpu;
						if (r.verdict == 3) { ++st.discards; continue; }
						++st.evals;
						for (auto& kv : c.labels) st.labels[kv.first] += kv.second;
						if (c.is_nontrivial) st.fps.push_back(hash_str(c.text.str(), hash_str(l.name)));
						if (t.start == 0 && st.samples.size() < 2 && c.is_nontrivial) st.samples.push_back(c.text.str());
						if (r.verdict == 2) { failed = true; fmsg = r.msg; fch = c.src.rec; ftext = c.text.str(); findex = at; }
					}
					std::string b;
					put64(b, st.evals); put64(b, st.discards); put64(b, st.max_cpu);
					put64(b, st.labels.size());
					for (auto& kv : st.labels) { putstr(b, kv.first); put64(b, kv.second); }
					put64(b, st.fps.size());
					for (auto v : st.fps) put64(b, v);
					put64(b, st.samples.size());
					for (auto& s : st.samples) putstr(b, s);
					put64(b, failed ? 1 : 0);
					if (failed) { put64(b, findex); putstr(b, fmsg); putstr(b, ftext); put64(b, fch.size()); for (auto v : fch) put64(b, v); }
					write_all(q[1], b);
					ws_slot->verdict = 1;
					_exit(0);
				}
				close(q[1]);
				std::string rep;
				char buf[65536];
				for (;;) {
					ssize_t n = read(q[0], buf, sizeof buf);
					if (n < 0 && errno == EINTR) continue;
					if (n <= 0) break;
					rep.append(buf, std::size_t(n));
				}
				close(q[0]);
				int status = 0;
				while (waitpid(cp, &status, 0) < 0 && errno == EINTR) {}
				std::string msg;
				put64(msg, ti);
				bool failed = false;
				if (ws_slot->verdict == 1) {
					put64(msg, 1);
					msg += rep;
					failed = true; // decided below by the master
				} else {
					put64(msg, 2);
					put64(msg, ws_slot->index);
					put64(msg, ws_slot->max_cpu_us);
					putstr(msg, signal_msg(status, werr));
					putstr(msg, std::string(ws_slot->txt, ws_slot->ntxt));
					put64(msg, ws_slot->nch);
					for (std::size_t i = 0; i < ws_slot->nch; ++i) put64(msg, ws_slot->ch[i]);
				}
				(void)failed;
				std::string hdr;
				put64(hdr, msg.size());
				write_all(p[1], hdr + msg);
			}
			_exit(0);
		}
		close(p[1]);
		ws.push_back({pid, p[0], ""});
	}
	// ---------------------------------------------------- master
	std::vector<Stats> stats(laws().size());
	std::vector<std::uint64_t> all_fps;
	std::vector<Fail> fails;
	std::map<std::size_t, std::vector<Fail>> hangs;
	std::size_t open_fds = ws.size();
	while (open_fds) {
		fd_set rs;
		FD_ZERO(&rs);
		int mx = -1;
		for (auto& w : ws) if (w.fd >= 0) { FD_SET(w.fd, &rs); mx = std::max(mx, w.fd); }
		int sr = select(mx + 1, &rs, nullptr, nullptr, nullptr);
		if (sr < 0) { if (errno == EINTR) continue; perror("select"); return 2; }
		for (auto& w : ws) {
			if (w.fd < 0 || !FD_ISSET(w.fd, &rs)) continue;
			char buf[1 << 16];
			ssize_t n = read(w.fd, buf, sizeof buf);
			if (n < 0 && errno == EINTR) continue;
			if (n <= 0) { close(w.fd); w.fd = -1; --open_fds; continue; }
			w.buf.append(buf, std::size_t(n));
			for (;;) {
				if (w.buf.size() < 8) break;
				const char* q = w.buf.data();
				std::uint64_t len = get64(q);
				if (w.buf.size() < 8 + len) break;
				std::uint64_t ti = get64(q);
				std::uint64_t kind = get64(q);
				std::size_t li = tasks[ti].law;
				if (kind == 1) {
					Stats& st = stats[li];
					st.evals += get64(q); st.discards += get64(q); st.max_cpu = std::max(st.max_cpu, get64(q));
					std::uint64_t nl = get64(q);
					for (std::uint64_t i = 0; i < nl; ++i) { std::string k = getstr(q); st.labels[k] += get64(q); }
					std::uint64_t nf = get64(q);
					for (std::uint64_t i = 0; i < nf; ++i) st.fps.push_back(get64(q));
					std::uint64_t ns = get64(q);
					for (std::uint64_t i = 0; i < ns; ++i) st.samples.push_back(getstr(q));
					if (get64(q)) {
						Fail f;
						f.law = li; f.task = ti; f.batch_start = tasks[ti].start;
						f.index = get64(q); f.msg = getstr(q); f.text = getstr(q);
						std::uint64_t nc = get64(q);
						for (std::uint64_t i = 0; i < nc; ++i) f.ch.push_back(get64(q));
						if (exhausted(f.msg)) hangs[li].push_back(f);
						else { fails.push_back(f); sh->stop = 1; }
					}
				} else {
					Fail f;
					f.law = li; f.task = ti; f.batch_start = tasks[ti].start;
					f.index = get64(q); stats[li].max_cpu = std::max(stats[li].max_cpu, get64(q)); f.msg = getstr(q); f.text = getstr(q);
					std::uint64_t nc = get64(q);
					for (std::uint64_t i = 0; i < nc; ++i) f.ch.push_back(get64(q));
					stats[li].evals += f.index - f.batch_start + 1;
					if (exhausted(f.msg)) {
						hangs[li].push_back(f);
						if (too_many(hangs[li].size(), stats[li].evals, stats[li].max_cpu)) sh->stop = 1;
					} else {
						fails.push_back(f);
						sh->stop = 1;
					}
				}
				w.buf.erase(0, 8 + len);
			}
		}
	}
	for (auto& w : ws) { int st; waitpid(w.pid, &st, 0); }
	bool out_of_time = !sh->stop && sh->next_task < tasks.size();

	// ---------------------------------------------------- failures
	std::vector<std::string> notes;
	std::uint64_t gave_up = 0;
	for (auto& h : hangs) {
		auto& st = stats[h.first];
		if (too_many(h.second.size(), st.evals, st.max_cpu, true)) fails.push_back(h.second.front());
		else {
			gave_up += h.second.size();
			st.evals -= std::min<std::uint64_t>(st.evals, h.second.size());
			notes.push_back(std::string(laws()[h.first].name) + ": " + std::to_string(h.second.size()) + " cases took too long (others took up to " + std::to_string(st.max_cpu / 1000) + " ms) and were not judged");
		}
	}
	std::sort(fails.begin(), fails.end(), [](const Fail& a, const Fail& b) { return a.task < b.task; });
	unsigned violations = 0, irreproducible = 0;
	std::vector<Fail*> lost;
	auto report = [&](const Fail& f, const std::string& how) {
		const Law& l = laws()[f.law];
		++violations;
		const char* rd = std::getenv("PBT_REPLAY_DIR");
		std::string dir = rd ? rd : "replay";
		mkdir(dir.c_str(), 0755);
		std::string path = dir + "/" + property + "-" + l.name + "-" + std::to_string(seed) + ".txt";
		std::ofstream(path) << how << "# what failed\n" << f.msg << "\n# the case\n" << f.text << "\n";
		std::cout << "law " << l.name << " fails: " << f.msg << "\n" << f.text << "\nVIOLATION property=" << property << " replay=" << path << std::endl;
	};
	for (auto& f : fails) {
		if (violations) break;
		const Law& l = laws()[f.law];
		Outcome o = run_isolated(f.law, f.ch, slot, errfd);
		std::ostringstream rf;
		bool hang = exhausted(f.msg);
		if (o.verdict == 2) {
			f.msg = o.msg; f.ch = o.ch; f.text = o.text;
			const Fail original = f;
			if (!hang) shrink(f, slot, errfd, 45);
			auto fails_in = [&](unsigned reps) { unsigned n = 0; for (unsigned i = 0; i < reps; ++i) if (run_isolated(f.law, f.ch, slot, errfd).verdict == 2) ++n; return n; };
			// a case that fails only sometimes is reported as it was found
			if (!hang && fails_in(3) < 3) { f = original; f.msg += " (in " + std::to_string(1 + fails_in(5)) + " of 6 runs)"; }
			rf << "law " << l.name << "\nproperty " << property << "\nchoices";
			for (auto v : f.ch) rf << " " << v;
			rf << "\n";
		} else {
			// needs the cases before it
			std::vector<std::uint64_t> idx;
			for (std::uint64_t i = f.batch_start; i <= f.index; ++i) idx.push_back(i);
			Outcome h = run_history(f.law, seed, idx, slot, errfd);
			for (unsigned i = 0; i < 4 && h.verdict != 2; ++i) h = run_history(f.law, seed, idx, slot, errfd);
			if (h.verdict != 2) { ++irreproducible; notes.push_back(std::string(l.name) + ": failure did not replay: " + f.msg); if (!hang && f.msg.find("signal 9") == std::string::npos) lost.push_back(&f); continue; }
			const auto all = idx;
			double s0 = now();
			for (std::size_t len = idx.size() / 2; len >= 1; len /= 2) {
				for (std::size_t i = 0; i + len < idx.size() && now() - s0 < 45;) {
					auto cand = idx;
					cand.erase(cand.begin() + long(i), cand.begin() + long(i + len));
					Outcome r = run_history(f.law, seed, cand, slot, errfd);
					if (r.verdict == 2 && slot->index == idx.back()) { idx = cand; h = r; } else i += len;
				}
			}
			unsigned again = 0;
			for (unsigned i = 0; i < 3; ++i) { Outcome r = run_history(f.law, seed, idx, slot, errfd); if (r.verdict == 2) ++again; }
			if (again < 3) idx = all;
			f.msg = h.msg; f.text = h.text;
			rf << "law " << l.name << "\nproperty " << property << "\nseed " << seed << "\nhistory";
			for (auto v : idx) rf << " " << v;
			rf << "\n";
		}
		report(f, rf.str());
	}
	// A wrong result is a wrong result even when it depends on what the memory held before: it is reported with the cases before it.
	if (!violations && !lost.empty()) {
		Fail& f = *lost.front();
		std::ostringstream rf;
		rf << "law " << laws()[f.law].name << "\nproperty " << property << "\nseed " << seed << "\nhistory";
		for (std::uint64_t i = f.batch_start; i <= f.index; ++i) rf << " " << i;
		rf << "\n";
		f.msg += " (not in 6 replays)";
		report(f, rf.str());
	}

	// ---------------------------------------------------- evidence
	std::uint64_t evals = 0, discards = 0, max_cpu = 0;
	for (auto& s : stats) { evals += s.evals; discards += s.discards; max_cpu = std::max(max_cpu, s.max_cpu); }
	std::ostringstream e;
	std::uint64_t distinct = 0;
	std::ostringstream lawsj;
	for (std::size_t i = 0; i < laws().size(); ++i) {
		auto& s = stats[i];
		std::sort(s.fps.begin(), s.fps.end());
		std::uint64_t d = std::uint64_t(std::unique(s.fps.begin(), s.fps.end()) - s.fps.begin());
		distinct += d;
		if (i) lawsj << ",";
		lawsj << "\n  " << json_str(laws()[i].name) << ":{\"evaluations\":" << s.evals << ",\"distinct_nontrivial\":" << d << ",\"discarded\":" << s.discards << ",\"max_case_cpu_ms\":" << s.max_cpu / 1000 << ",\"labels\":{";
		bool first = true;
		for (auto& kv : s.labels) { if (!first) lawsj << ","; first = false; lawsj << json_str(kv.first) << ":" << kv.second; }
		lawsj << "}}";
	}
	double wall = now() - t0;
	e << "{\"property\":" << json_str(property) << ",\"tier\":" << (thorough ? "\"thorough\"" : "\"quick\"") << ",\"seed\":" << seed_print
	  << ",\"level\":\"exploration\",\"wall_s\":" << wall << ",\"violations\":" << violations
	  << ",\"coverage\":{\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << distinct << ",\"discarded\":" << discards
	  << ",\"rule\":" << json_str(rule) << ",\"stopped_for_time\":" << (out_of_time ? "true" : "false")
	  << ",\"max_case_cpu_ms\":" << max_cpu / 1000 << ",\"known_findings_reproduced\":" << known_hit << ",\"gave_up\":" << gave_up << ",\"irreproducible\":" << irreproducible
	  << ",\"notes\":[";
	for (std::size_t i = 0; i < notes.size(); ++i) e << (i ? "," : "") << json_str(notes[i]);
	e << "],\"laws\":{" << lawsj.str() << "},\"samples\":[";
	bool first = true;
	for (std::size_t i = 0; i < laws().size(); ++i)
		for (auto& s : stats[i].samples) { if (!first) e << ","; first = false; e << json_str(std::string(laws()[i].name) + ": " + (s.size() > 600 ? s.substr(0, 600) + "..." : s)); }
	e << "]}}\n";
	const char* ef = std::getenv("PBT_EVIDENCE");
	if (ef) std::ofstream(ef) << e.str();
	std::cout << property << ": " << evals << " cases, " << distinct << " distinct non-trivial, " << discards << " discarded, slowest case " << max_cpu / 1000 << " ms, " << wall << " s" << (out_of_time ? ", stopped for time" : "") << std::endl;
	for (auto& n : notes) std::cout << "note: " << n << std::endl;
	if (mode == "stats") {
		for (std::size_t i = 0; i < laws().size(); ++i) {
			std::cout << laws()[i].name << ": " << stats[i].evals << " evals, " << stats[i].fps.size() << " nontrivial, " << stats[i].discards << " discarded, max " << stats[i].max_cpu / 1000 << " ms\n";
			for (auto& kv : stats[i].labels) std::cout << "    " << kv.first << ": " << kv.second << "\n";
		}
	}
	if (violations) return 1;
	if (irreproducible) { std::cout << "error: a failure did not replay" << std::endl; return 3; }
	return 0;
}

} // namespace pbt
