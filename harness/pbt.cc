#include "pbt.h"

#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>

namespace pbt {
	using namespace std;

	// Nothing here may call interposable libc time functions (detsched
	// virtualizes them), so use raw system calls.
	static double now()
	{
		struct timespec ts;
		syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
		return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
	}
	static void real_sleep(double s)
	{
		struct timespec ts;
		ts.tv_sec = time_t(s);
		ts.tv_nsec = long((s - double(ts.tv_sec)) * 1e9);
		syscall(SYS_nanosleep, &ts, nullptr);
	}

	static const size_t MAX_CHOICES = 400000;
	static const size_t MAX_LABELS = 96;
	static const size_t LABEL_LEN = 56;
	static const size_t MAX_SAMPLES = 4;
	static const size_t DESC_LEN = 65536;

	enum Status : int { S_IDLE = 0, S_RUNNING, S_PASS, S_FAIL, S_KNOWN, S_INCONCLUSIVE, S_OVERFLOW };

	struct Slot {
		volatile int status;
		volatile uint64_t case_no;
		volatile unsigned scenario;
		volatile double started;
		volatile int nontriv;
		volatile int want_desc;
		volatile pid_t pid;
		uint64_t pass_count, inconclusive_count, known_count;
		size_t nchoices;
		uint64_t choices[MAX_CHOICES];
		char msg[8192];
		char desc[DESC_LEN];
		size_t desc_len;
		size_t nlabels;
		char label_name[MAX_LABELS][LABEL_LEN];
		uint64_t label_count[MAX_LABELS];
		uint64_t label_case[MAX_LABELS];
		size_t nsamples;
		char sample[MAX_SAMPLES][6000];
		char known_msg[8][512];
		size_t nknown;
		char inconclusive_msg[512];
	};

	static Slot *slot = nullptr;
	static bool g_replay = false;
	static vector<uint64_t> g_replay_choices;
	static size_t g_replay_pos = 0;
	static Rng g_rng(0);
	static bool g_verbose = false;
	static int g_desc_fd = 2;                // survives a test that redirects stderr
	static string g_tier = "quick";
	static uint64_t g_seed = 1;
	static string g_scratch;
	static pid_t g_scratch_pid = 0;

	uint64_t Rng::next()
	{
		s += 0x9E3779B97F4A7C15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}

	const char *tier() { return g_tier.c_str(); }

	uint64_t draw(uint64_t max)
	{
		uint64_t v = 0;
		if (g_replay) {
			const size_t pos = slot ? slot->nchoices : g_replay_pos++;
			v = pos < g_replay_choices.size() ? g_replay_choices[pos] : 0;
			if (v > max) v = max == UINT64_MAX ? v : v % (max + 1);
		} else {
			// by position, so that a forked child can go on drawing
			Rng r = g_rng;
			if (slot) r.s += slot->nchoices * 0x9E3779B97F4A7C15ull; else g_rng.next();
			v = r.next();
			if (max != UINT64_MAX) v %= (max + 1);
		}
		if (slot) {
			if (slot->nchoices < MAX_CHOICES) {
				slot->choices[slot->nchoices++] = v;
			} else {
				slot->status = S_OVERFLOW;
				snprintf(slot->inconclusive_msg, sizeof(slot->inconclusive_msg), "choice log overflow");
				_exit(79);
			}
		}
		return v;
	}

	int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(draw(uint64_t(hi - lo))); }
	bool chance(uint64_t num, uint64_t den)
	{
		// shrink toward false: true iff value >= den - num
		return draw(den - 1) >= den - num;
	}
	size_t weighted(const vector<unsigned> &w)
	{
		uint64_t total = 0;
		for (auto i : w) total += i;
		uint64_t v = draw(total - 1);
		for (size_t i = 0; i < w.size(); ++i) {
			if (v < w[i]) return i;
			v -= w[i];
		}
		return w.size() - 1;
	}
	uint64_t edgy(uint64_t max)
	{
		const auto kind = draw(7);
		switch (kind) {
			case 0: return min<uint64_t>(max, draw(3));
			case 1: return max - min<uint64_t>(max, draw(3));
			case 2: {
				// near a power of two
				unsigned b = unsigned(draw(63));
				uint64_t v = (uint64_t(1) << b) + draw(2) - 1;
				return max == UINT64_MAX ? v : v % (max + 1);
			}
			case 3: return min<uint64_t>(max, draw(255));
			case 4: return min<uint64_t>(max, draw(65535));
			case 5: {
				unsigned b = unsigned(draw(63));
				uint64_t v = draw((uint64_t(1) << b));
				return max == UINT64_MAX ? v : v % (max + 1);
			}
			default: return draw(max);
		}
	}

	static size_t label_idx(const char *name)
	{
		for (size_t i = 0; i < slot->nlabels; ++i) {
			if (!strncmp(slot->label_name[i], name, LABEL_LEN - 1)) return i;
		}
		if (slot->nlabels >= MAX_LABELS) return MAX_LABELS - 1;
		const auto i = slot->nlabels++;
		strncpy(slot->label_name[i], name, LABEL_LEN - 1);
		slot->label_count[i] = 0;
		slot->label_case[i] = UINT64_MAX;
		return i;
	}
	void label(const char *name)
	{
		if (!slot) return;
		auto i = label_idx(name);
		if (slot->label_case[i] != slot->case_no) {
			slot->label_case[i] = slot->case_no;
			++slot->label_count[i];
		}
	}
	void count(const char *name, uint64_t n)
	{
		if (!slot) return;
		slot->label_count[label_idx(name)] += n;
	}
	void nontrivial() { if (slot) slot->nontriv = 1; }
	bool describing() { return g_verbose || (slot && slot->want_desc); }
	void describe(const string &s)
	{
		if (g_verbose) dprintf(g_desc_fd, "  | %s\n", s.c_str());
		if (!slot || !slot->want_desc) return;
		size_t n = min(s.size(), DESC_LEN - 2 - slot->desc_len);
		memcpy(slot->desc + slot->desc_len, s.data(), n);
		slot->desc_len += n;
		if (slot->desc_len < DESC_LEN - 2) slot->desc[slot->desc_len++] = '\n';
		slot->desc[slot->desc_len] = 0;
	}

	static void set_msg(const char *m)
	{
		if (!slot) { fprintf(stderr, "FAIL (no slot): %s\n", m); return; }
		strncpy(slot->msg, m, sizeof(slot->msg) - 1);
		slot->msg[sizeof(slot->msg) - 1] = 0;
	}

	void fail(const string &msg)
	{
		set_msg(msg.c_str());
		if (slot) slot->status = S_FAIL;
		_exit(77);
	}
	void known(const string &key, const string &msg)
	{
		if (slot) {
			string m = key + "\t" + msg;
			bool have = false;
			for (size_t i = 0; i < slot->nknown; ++i) {
				if (!strncmp(slot->known_msg[i], key.c_str(), key.size()) && slot->known_msg[i][key.size()] == '\t') have = true;
			}
			if (!have && slot->nknown < 8) {
				strncpy(slot->known_msg[slot->nknown], m.c_str(), 511);
				slot->known_msg[slot->nknown++][511] = 0;
			}
			slot->status = S_KNOWN;
		}
		_exit(78);
	}
	void inconclusive(const string &msg)
	{
		if (slot) {
			strncpy(slot->inconclusive_msg, msg.c_str(), 511);
			slot->status = S_INCONCLUSIVE;
		}
		_exit(79);
	}

	static void crash_handler(int sig)
	{
		char buf[128];
		const char *name = strsignal(sig);
		snprintf(buf, sizeof(buf), "crashed: signal %d (%s)", sig, name ? name : "?");
		if (slot && slot->status == S_RUNNING) {
			// keep any terminate message
			if (!slot->msg[0]) set_msg(buf);
			else { strncat(slot->msg, " / ", sizeof(slot->msg) - strlen(slot->msg) - 1); strncat(slot->msg, buf, sizeof(slot->msg) - strlen(slot->msg) - 1); }
			slot->status = S_FAIL;
		}
		_exit(77);
	}
	static void terminate_handler()
	{
		string m = "terminate called";
		if (auto e = current_exception()) {
			try { rethrow_exception(e); }
			catch (const exception &ex) {
				m += string(" after uncaught ") + typeid(ex).name() + ": " + ex.what();
			} catch (...) { m += " after uncaught unknown exception"; }
		}
		set_msg(m.c_str());
		if (slot) slot->status = S_FAIL;
		_exit(77);
	}
	void install_crash_handlers()
	{
		set_terminate(terminate_handler);
		static char altstack[65536];
		stack_t ss = {};
		ss.ss_sp = altstack;
		ss.ss_size = sizeof(altstack);
		sigaltstack(&ss, nullptr);
		struct sigaction sa;
		memset(&sa, 0, sizeof(sa));
		sa.sa_handler = crash_handler;
		sa.sa_flags = SA_ONSTACK;
		if (getenv("PBT_NOCATCH")) return;
#if !defined(__SANITIZE_ADDRESS__)
		for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE }) sigaction(s, &sa, nullptr);
#endif
		sigaction(SIGABRT, &sa, nullptr);
	}

	string scratch_dir()
	{
		if (g_scratch.empty() || g_scratch_pid != getpid()) {
			const char *base = getenv("VERIF_SCRATCH");
			g_scratch = string(base ? base : "/tmp") + "/pbt." + to_string(getpid());
			g_scratch_pid = getpid();
			mkdir(g_scratch.c_str(), 0700);
		}
		return g_scratch;
	}

	// --------------------------------------------------------------

	static vector<Property> g_props;
	static Property *g_prop = nullptr;

	static void begin_case(unsigned sc, uint64_t case_no)
	{
		slot->nchoices = 0;
		slot->msg[0] = 0;
		slot->desc_len = 0;
		slot->desc[0] = 0;
		slot->nontriv = 0;
		slot->scenario = sc;
		slot->case_no = case_no;
		slot->started = now();
		slot->status = S_RUNNING;
	}

	static void run_body(unsigned sc)
	{
		try {
			g_prop->scenarios[sc].run();
		} catch (const exception &e) {
			int st = 0;
			char *dm = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
			fail(string("uncaught exception ") + (dm ? dm : "?") + ": " + e.what());
		}
	}

	static uint64_t case_seed(unsigned sc, uint64_t n)
	{
		Rng r(g_seed * 1000003 + sc * 7919 + 17);
		r.next();
		r.s ^= n * 0xD6E8FEB86659FD93ull;
		r.next();
		return r.next();
	}

	static void setup_child()
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (!getenv("PBT_NOSILENCE")) {
			int fd = open("/dev/null", O_WRONLY);
			if (fd >= 0) { dup2(fd, 2); close(fd); }
		}
		install_crash_handlers();
	}

	// Run one case from a choice list in a fresh process.  Returns final status.
	static int run_choices(unsigned sc, const vector<uint64_t> &choices, bool want_desc, double hang_s, bool verbose = false)
	{
		slot->status = S_RUNNING;
		slot->want_desc = want_desc;
		begin_case(sc, 0);
		pid_t pid = fork();
		if (pid == 0) {
			setpgid(0, 0);
			if (!verbose) setup_child(); else { prctl(PR_SET_PDEATHSIG, SIGKILL); install_crash_handlers(); }
			g_replay = true;
			g_verbose = verbose;
			if (verbose && g_desc_fd == 2) { const int d = dup(2); if (d >= 0) g_desc_fd = d; }
			g_replay_choices = choices;
			g_replay_pos = 0;
			run_body(sc);
			slot->status = S_PASS;
			_exit(0);
		}
		const double t0 = now();
		int st = 0;
		while (true) {
			pid_t r = waitpid(pid, &st, WNOHANG);
			if (r == pid) break;
			if (now() - t0 > hang_s) {
				kill(-pid, SIGKILL);
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				if (slot->status == S_RUNNING) {
					set_msg("hang: no progress within the watchdog limit");
					slot->status = S_FAIL;
				}
				break;
			}
			real_sleep(now() - t0 < 0.05 ? 0.0005 : 0.01);
		}
		kill(-pid, SIGKILL);
		if (slot->status == S_RUNNING) {
			char buf[128];
			snprintf(buf, sizeof(buf), "crashed: wait status 0x%x", st);
			if (!slot->msg[0]) set_msg(buf);
			slot->status = S_FAIL;
		}
		return slot->status;
	}

	// Signature of a failure: text up to the first digit-free class
	static string sig_of(const string &msg)
	{
		string s;
		for (char c : msg) {
			if (c == '\n') break;
			if (c >= '0' && c <= '9') continue;
			s += c;
		}
		return s.substr(0, 24);
	}

	static string json_escape(const string &s)
	{
		string o;
		for (unsigned char c : s) {
			if (c == '"') o += "\\\"";
			else if (c == '\\') o += "\\\\";
			else if (c == '\n') o += "\\n";
			else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
			else o += char(c);
		}
		return o;
	}

	struct Failure { unsigned sc; uint64_t case_no; vector<uint64_t> choices; string msg; bool hang; };

	static vector<uint64_t> shrink(const Failure &f, string &msg, double budget_s)
	{
		vector<uint64_t> best = f.choices;
		const string want = sig_of(f.msg);
		const double hang = g_prop->scenarios[f.sc].hang_s;
		const double t0 = now();
		size_t attempts = 0;
		auto test = [&](const vector<uint64_t> &c) {
			if (now() - t0 > budget_s) return false;
			++attempts;
			int st = run_choices(f.sc, c, false, hang);
			if (st == S_FAIL && sig_of(slot->msg) == want) {
				msg = slot->msg;
				// use what was actually consumed
				vector<uint64_t> used(slot->choices, slot->choices + slot->nchoices);
				if (used.size() <= c.size()) best = used; else best = c;
				return true;
			}
			return false;
		};
		bool improved = true;
		while (improved && now() - t0 < budget_s) {
			improved = false;
			// truncate / delete chunks
			for (size_t k = max<size_t>(1, best.size() / 2); k >= 1; k /= 2) {
				for (size_t i = 0; i + k <= best.size() && now() - t0 < budget_s; ) {
					vector<uint64_t> c(best.begin(), best.begin() + long(i));
					c.insert(c.end(), best.begin() + long(i + k), best.end());
					auto before = best.size();
					if (test(c)) { improved = true; if (best.size() >= before) break; }
					else i += k;
				}
				if (k == 1) break;
			}
			// zero chunks
			for (size_t k = max<size_t>(1, best.size() / 2); k >= 1; k /= 2) {
				for (size_t i = 0; i + k <= best.size() && now() - t0 < budget_s; i += k) {
					bool all0 = true;
					for (size_t j = i; j < i + k; ++j) if (best[j]) all0 = false;
					if (all0) continue;
					auto c = best;
					fill(c.begin() + long(i), c.begin() + long(i + k), 0);
					if (test(c)) improved = true;
				}
				if (k == 1) break;
			}
			// reduce values
			for (size_t i = 0; i < best.size() && now() - t0 < budget_s; ++i) {
				uint64_t lo = 0, hi = best[i];
				while (lo < hi && i < best.size()) {
					uint64_t mid = lo + (hi - lo) / 2;
					auto c = best;
					c[i] = mid;
					if (test(c)) { improved = true; hi = i < best.size() ? min(mid, best[i]) : 0; }
					else lo = mid + 1;
					if (now() - t0 > budget_s) break;
				}
			}
			if (best.size() > 3000) break;
		}
		return best;
	}

	static void worker(unsigned w, unsigned nw, const vector<pair<unsigned, uint64_t>> &cases, uint64_t *hashes, size_t start)
	{
		setup_child();
		for (size_t i = start; i < cases.size(); ++i) {
			if (i % nw != w) continue;
			const auto sc = cases[i].first;
			const auto cn = cases[i].second;
			slot->want_desc = slot->nsamples < MAX_SAMPLES && (cn < 40);
			begin_case(sc, i);
			if (g_prop->scenarios[sc].fork_each) {
				pid_t pid = fork();
				if (pid == 0) {
					prctl(PR_SET_PDEATHSIG, SIGKILL);
					g_rng = Rng(case_seed(sc, cn));
					run_body(sc);
					slot->status = S_PASS;
					_exit(0);
				}
				int st = 0;
				while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
				if (slot->status == S_RUNNING) {
					char buf[128];
					snprintf(buf, sizeof(buf), "crashed: wait status 0x%x", st);
					if (!slot->msg[0]) set_msg(buf);
					slot->status = S_FAIL;
				}
				if (slot->status == S_FAIL) _exit(77);
				if (slot->status == S_INCONCLUSIVE || slot->status == S_OVERFLOW) { ++slot->inconclusive_count; continue; }
				if (slot->status == S_KNOWN) { ++slot->known_count; continue; }
			} else {
				g_rng = Rng(case_seed(sc, cn));
				run_body(sc);
				slot->status = S_PASS;
			}
			++slot->pass_count;
			if (slot->nontriv) {
				uint64_t h = 1469598103934665603ull ^ sc;
				for (size_t j = 0; j < slot->nchoices; ++j) { h = (h ^ slot->choices[j]) * 1099511628211ull; h ^= h >> 29; }
				hashes[i] = h | 1;
				if (slot->want_desc && slot->nsamples < MAX_SAMPLES && slot->desc_len) {
					// spread samples over scenarios
					snprintf(slot->sample[slot->nsamples], sizeof(slot->sample[0]), "[%s] %s", g_prop->scenarios[sc].name, slot->desc);
					++slot->nsamples;
				}
			}
		}
		slot->status = S_IDLE;
		_exit(0);
	}

	static void write_replay(const string &path, const Failure &f, const vector<uint64_t> &choices, const string &msg, const string &desc)
	{
		ofstream o(path);
		o << "# property " << g_prop->id << "\n# seed " << g_seed << " scenario-case " << f.case_no << "\n";
		istringstream is(msg);
		string line;
		while (getline(is, line)) o << "# fail: " << line << "\n";
		istringstream ds(desc);
		while (getline(ds, line)) o << "# case: " << line << "\n";
		o << "scenario " << g_prop->scenarios[f.sc].name << "\nchoices";
		for (auto c : choices) o << " " << c;
		o << "\n";
	}

	static bool read_replay(const string &path, unsigned &sc, vector<uint64_t> &choices)
	{
		ifstream in(path);
		string line;
		bool ok = false;
		while (getline(in, line)) {
			if (line.rfind("scenario ", 0) == 0) {
				string n = line.substr(9);
				for (unsigned i = 0; i < g_prop->scenarios.size(); ++i) if (n == g_prop->scenarios[i].name) { sc = i; ok = true; }
			} else if (line.rfind("choices", 0) == 0) {
				istringstream is(line.substr(7));
				uint64_t v;
				while (is >> v) choices.push_back(v);
			}
		}
		return ok;
	}

	static map<string, string> read_known(const string &id)
	{
		map<string, string> rv;
		const char *p = getenv("VERIF_KNOWN");
		ifstream in(p ? p : "/verif/known_findings.txt");
		string line;
		while (getline(in, line)) {
			// known: property=C05 key=<key> <text>
			if (line.rfind("known: property=" + id + " key=", 0) != 0) continue;
			string rest = line.substr(("known: property=" + id + " key=").size());
			auto sp = rest.find(' ');
			rv[rest.substr(0, sp)] = sp == string::npos ? "" : rest.substr(sp + 1);
		}
		return rv;
	}

	int run_main(int argc, char **argv, vector<Property> props)
	{
		// Fixed addresses make pointer-ordered containers behave identically on replay
		const int pers = personality(0xffffffff);
		if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("PBT_REEXEC")) {
			setenv("PBT_REEXEC", "1", 1);
			if (personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
		}
		mallopt(M_ARENA_MAX, 1);
		string id, replay, outdir = "/verif/build/replay", evidence;
		double budget = 0;
		int jobs = 0;
		double scale = 1;
		string only;
		for (int i = 1; i < argc; ++i) {
			string a = argv[i];
			if (a == "--replay" && i + 1 < argc) replay = argv[++i];
			else if (a == "--jobs" && i + 1 < argc) jobs = atoi(argv[++i]);
			else if (a == "--out" && i + 1 < argc) outdir = argv[++i];
			else if (a == "--evidence" && i + 1 < argc) evidence = argv[++i];
			else if (a == "--scale" && i + 1 < argc) scale = atof(argv[++i]);
			else if (a == "--only" && i + 1 < argc) only = argv[++i];
			else if (a == "--budget" && i + 1 < argc) budget = atof(argv[++i]);
			else id = a;
		}
		g_props = props;
		for (auto &p : g_props) if (p.id == id) g_prop = &p;
		if (!g_prop) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
		if (const char *s = getenv("VERIF_SEED")) g_seed = strtoull(s, nullptr, 10);
		if (const char *s = getenv("VERIF_TIER")) g_tier = s;
		if (g_tier != "thorough") g_tier = "quick";
		if (budget <= 0) budget = g_tier == "quick" ? 420 : 14400;
		if (jobs <= 0) jobs = int(sysconf(_SC_NPROCESSORS_ONLN));
		if (jobs < 1) jobs = 1;
		if (jobs > 16) jobs = 16;
		for (auto &s : g_prop->scenarios) if (s.hang_s <= 0) s.hang_s = 60;

		const double t0 = now();
		vector<Slot *> slots;
		for (int i = 0; i < jobs + 1; ++i) {
			void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (p == MAP_FAILED) { perror("mmap"); return 2; }
			slots.push_back(static_cast<Slot *>(p));
		}
		Slot *main_slot = slots.back();

		if (!replay.empty()) {
			slot = main_slot;
			unsigned sc = 0;
			vector<uint64_t> ch;
			if (!read_replay(replay, sc, ch)) { fprintf(stderr, "bad replay file\n"); return 2; }
			int st = run_choices(sc, ch, true, g_prop->scenarios[sc].hang_s * 3, true);
			fprintf(stderr, "status %d: %s\n", st, slot->msg);
			if (st == S_FAIL) {
				printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay.c_str());
				return 1;
			}
			return 0;
		}

		// interleave scenarios
		vector<pair<unsigned, uint64_t>> cases;
		{
			vector<size_t> n, done;
			size_t total = 0;
			for (auto &s : g_prop->scenarios) {
				size_t c = size_t(double(g_tier == "quick" ? s.quick : s.thorough) * scale);
				if (!only.empty() && only != s.name) c = 0;
				n.push_back(c);
				done.push_back(0);
				total += c;
			}
			while (cases.size() < total) {
				// pick the scenario with the lowest completed fraction
				size_t best = 0;
				double bf = 2;
				for (size_t i = 0; i < n.size(); ++i) {
					if (done[i] >= n[i]) continue;
					double f = (double(done[i]) + 0.5) / double(n[i]);
					if (f < bf) { bf = f; best = i; }
				}
				cases.emplace_back(unsigned(best), done[best]++);
			}
		}
		// Isolated cases first: they are forked from a process that has run nothing else
		stable_partition(cases.begin(), cases.end(), [&](const pair<unsigned, uint64_t> &c) { return g_prop->scenarios[c.first].fork_each; });
		uint64_t *hashes = static_cast<uint64_t *>(mmap(nullptr, (cases.size() + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));

		vector<pid_t> pids(size_t(jobs), 0);
		for (int w = 0; w < jobs; ++w) {
			slot = slots[size_t(w)];
			pid_t pid = fork();
			if (pid == 0) {
				setpgid(0, 0);
				worker(unsigned(w), unsigned(jobs), cases, hashes, 0);
			}
			pids[size_t(w)] = pid;
		}
		vector<Failure> failures;
		string stop_reason;
		int alive = jobs;
		auto stop_all = [&]() {
			for (auto &p : pids) if (p) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, nullptr, 0); p = 0; }
			alive = 0;
		};
		auto grab = [&](Slot *s, bool hang) {
			Failure f;
			f.sc = s->scenario;
			f.case_no = cases[s->case_no].second;
			f.choices.assign(s->choices, s->choices + s->nchoices);
			f.msg = s->msg;
			f.hang = hang;
			failures.push_back(f);
		};
		while (alive > 0) {
			bool any = false;
			for (int w = 0; w < jobs; ++w) {
				auto &p = pids[size_t(w)];
				if (!p) continue;
				Slot *s = slots[size_t(w)];
				int st = 0;
				if (waitpid(p, &st, WNOHANG) == p) {
					any = true;
					kill(-p, SIGKILL);
					p = 0;
					--alive;
					if (s->status == S_FAIL || s->status == S_RUNNING) {
						if (s->status == S_RUNNING && !s->msg[0]) {
							snprintf(s->msg, sizeof(s->msg), "crashed: wait status 0x%x", st);
						}
						grab(s, false);
					} else if (s->status == S_INCONCLUSIVE || s->status == S_OVERFLOW || s->status == S_KNOWN) {
						// in-process scenario bailed out: account and restart after this case
						if (s->status == S_KNOWN) ++s->known_count; else ++s->inconclusive_count;
						size_t next = s->case_no + 1;
						slot = s;
						pid_t pid = fork();
						if (pid == 0) { setpgid(0, 0); worker(unsigned(w), unsigned(jobs), cases, hashes, next); }
						p = pid;
						++alive;
					}
				} else if (s->status == S_RUNNING && now() - s->started > g_prop->scenarios[s->scenario].hang_s) {
					any = true;
					kill(-p, SIGKILL);
					kill(p, SIGKILL);
					waitpid(p, nullptr, 0);
					p = 0;
					--alive;
					snprintf(s->msg, sizeof(s->msg), "hang: no progress within the watchdog limit");
					grab(s, true);
				}
			}
			if (!failures.empty()) {
				// A hang may be machine load; anything else stops the run now.
				stop_all();
				break;
			}
			if (now() - t0 > budget) {
				stop_reason = "wall budget reached";
				stop_all();
				break;
			}
			if (!any) real_sleep(0.01);
		}

		string violation_path;
		string violation_msg;
		slot = main_slot;
		for (auto &f : failures) {
			const double hang = g_prop->scenarios[f.sc].hang_s;
			fprintf(stderr, "candidate failure in scenario %s case %lu: %s\n", g_prop->scenarios[f.sc].name, static_cast<unsigned long>(f.case_no), f.msg.c_str());
			string msg = f.msg;
			// first confirm from the recorded choices
			int st = run_choices(f.sc, f.choices, false, f.hang ? hang * 3 : hang);
			unsigned tries = 1;
			while (st != S_FAIL && tries < 200 && !f.hang && now() - t0 < budget + 120) {
				++tries;
				st = run_choices(f.sc, f.choices, false, hang);
			}
			if (st != S_FAIL) {
				fprintf(stderr, "not reproducible: treated as inconclusive: %s\n", f.msg.c_str());
				++main_slot->inconclusive_count;
				continue;
			}
			auto best = f.choices;
			f.msg = slot->msg;
			msg = f.msg;
			if (tries == 1) {
				double sb = f.hang ? 0 : (g_tier == "quick" ? 45 : 300);
				if (sig_of(f.msg) == sig_of("hang: no progress within the watchdog limit")) sb = 0;
				if (getenv("PBT_NOSHRINK")) sb = 0;
				best = shrink(f, msg, sb);
			}
			// replay three times
			unsigned ok = 0, n = 0;
			string desc;
			for (; ok < 3 && n < (tries > 1 ? 1000u : 10u); ++n) {
				if (now() - t0 > budget + 330) break;
				if (run_choices(f.sc, best, true, f.hang ? hang * 3 : hang) == S_FAIL) { ++ok; msg = slot->msg; desc = slot->desc; }
			}
			if (ok < 3) {
				// fall back to the original choices
				ok = 0;
				best = f.choices;
				for (n = 0; ok < 3 && n < 200; ++n) {
					if (now() - t0 > budget + 360) break;
					if (run_choices(f.sc, best, true, f.hang ? hang * 3 : hang) == S_FAIL) { ++ok; msg = slot->msg; desc = slot->desc; }
				}
			}
			if (ok < 3) { fprintf(stderr, "failed to replay 3 times\n"); ++main_slot->inconclusive_count; continue; }
			violation_path = outdir + "/" + id + ".replay";
			write_replay(violation_path, f, best, msg, desc);
			violation_msg = msg;
			break;
		}

		// totals
		uint64_t pass = 0, inconc = 0, known_n = 0;
		map<string, uint64_t> labels;
		vector<string> samples;
		map<string, string> knowns;
		string inconc_msg;
		for (auto s : slots) {
			pass += s->pass_count;
			inconc += s->inconclusive_count;
			known_n += s->known_count;
			if (s->inconclusive_msg[0]) inconc_msg = s->inconclusive_msg;
			for (size_t i = 0; i < s->nlabels; ++i) if (s != main_slot) labels[s->label_name[i]] += s->label_count[i];
			for (size_t i = 0; i < s->nsamples && samples.size() < 6; ++i) samples.push_back(s->sample[i]);
			for (size_t i = 0; i < s->nknown; ++i) {
				string k = s->known_msg[i];
				auto t = k.find('\t');
				knowns[k.substr(0, t)] = k.substr(t + 1);
			}
		}
		set<uint64_t> hs;
		for (size_t i = 0; i < cases.size(); ++i) if (hashes[i]) hs.insert(hashes[i]);
		// known findings
		auto listed = read_known(id);
		bool unlisted_known = false;
		for (auto &k : knowns) {
			if (listed.count(k.first)) {
				printf("KNOWN-FINDING: property=%s %s %s\n", id.c_str(), k.first.c_str(), listed[k.first].c_str());
			} else {
				unlisted_known = true;
				violation_msg = "finding " + k.first + " is not listed: " + k.second;
			}
		}
		if (unlisted_known && violation_path.empty()) {
			violation_path = outdir + "/" + id + ".replay";
			ofstream(violation_path) << "# " << violation_msg << "\n";
		}
		const uint64_t evals = pass + inconc + known_n + (failures.empty() ? 0 : 1);
		if (!evidence.empty()) {
			ofstream o(evidence);
			o << "{\n \"property\": \"" << id << "\",\n \"tier\": \"" << g_tier << "\",\n \"seed\": " << g_seed << ",\n \"level\": \"" << g_prop->level << "\",\n \"coverage\": {\n";
			o << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << hs.size() << ",\n";
			o << "  \"rule\": \"" << json_escape(g_prop->rule) << "\",\n  \"samples\": [";
			for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << "\n   \"" << json_escape(samples[i].substr(0, 3000)) << "\"";
			o << "\n  ],\n  \"classes\": {";
			size_t i = 0;
			for (auto &l : labels) o << (i++ ? "," : "") << "\n   \"" << json_escape(l.first) << "\": " << l.second;
			o << "\n  },\n  \"scenarios\": {";
			i = 0;
			for (unsigned sc = 0; sc < g_prop->scenarios.size(); ++sc) {
				size_t planned = 0;
				for (auto &c : cases) if (c.first == sc) ++planned;
				o << (i++ ? "," : "") << "\n   \"" << g_prop->scenarios[sc].name << "\": " << planned;
			}
			o << "\n  },\n  \"planned\": " << cases.size() << ",\n  \"inconclusive\": " << inconc << ",\n  \"known_finding_cases\": " << known_n;
			o << ",\n  \"stopped_early\": \"" << json_escape(stop_reason) << "\"";
			if (!inconc_msg.empty()) o << ",\n  \"inconclusive_example\": \"" << json_escape(inconc_msg) << "\"";
			o << "\n },\n \"assumptions\": [";
			for (i = 0; i < g_prop->assumptions.size(); ++i) o << (i ? "," : "") << "\n  \"" << json_escape(g_prop->assumptions[i]) << "\"";
			o << "\n ],\n \"wall_s\": " << (now() - t0) << ",\n \"violations\": " << (violation_path.empty() ? 0 : 1) << "\n}\n";
		}
		printf("%s: %lu cases (%lu distinct non-trivial, %lu inconclusive, %lu known) in %.1f s%s\n", id.c_str(),
			static_cast<unsigned long>(evals), static_cast<unsigned long>(hs.size()), static_cast<unsigned long>(inconc), static_cast<unsigned long>(known_n), now() - t0,
			stop_reason.empty() ? "" : (" (" + stop_reason + ")").c_str());
		for (auto &l : labels) printf("  class %-40s %lu\n", l.first.c_str(), static_cast<unsigned long>(l.second));
		if (!violation_path.empty()) {
			printf("  %s\n", violation_msg.c_str());
			printf("VIOLATION property=%s replay=%s\n", id.c_str(), violation_path.c_str());
			return 1;
		}
		return 0;
	}
}
