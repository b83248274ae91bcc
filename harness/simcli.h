// C20: command lines.
#ifndef VERIF_SIMCLI_H
#define VERIF_SIMCLI_H
#include "crucible/task.h"
#include <sys/syscall.h>

extern void bees_throttle(double time_used, const char *context);

namespace sim { namespace cli {
	// ---------------------------------------------------------------- documented options (docs/options.md, bees-usage.txt)
	enum Kind { FLAG, COUNT, FACTOR, MODE, LEVEL };
	struct Opt { char s; const char *l; const char *least; Kind kind; };   // 'least': shortest unambiguous prefix
	static const Opt opts[] = {
		{ 'c', "thread-count", "thread-c", COUNT }, { 'C', "thread-factor", "thread-f", FACTOR }, { 'G', "thread-min", "thread-m", COUNT },
		{ 'g', "loadavg-target", "l", FACTOR }, { 0, "throttle-factor", "thro", FACTOR }, { 'm', "scan-mode", "s", MODE },
		{ 'a', "workaround-btrfs-send", "w", FLAG }, { 't', "timestamps", "ti", FLAG }, { 'T', "no-timestamps", "n", FLAG },
		{ 'p', "absolute-paths", "a", FLAG }, { 'P', "strip-paths", "st", FLAG }, { 'v', "verbose", "ve", LEVEL },
	};
	static const Opt &opt(const char *l) { for (auto &o : opts) if (!strcmp(o.l, l)) return o; abort(); }
	static string long_name(const Opt &o)
	{
		string l = o.l, least = o.least;
		if (l == "scan-mode") least = "sc";
		if (!chance(1, 3)) return "--" + l;
		return "--" + l.substr(0, least.size() + draw(l.size() - least.size()));
	}
	// one way to spell an option
	static vector<string> spell(const Opt &o, const string &arg)
	{
		if (o.kind == FLAG) return { o.s && chance(1, 2) ? string("-") + o.s : long_name(o) };
		switch (draw(o.s ? 3 : 1)) {
			case 0: return { long_name(o), arg };
			case 1: return { long_name(o) + "=" + arg };
			case 2: return { string("-") + o.s, arg };
			default: return { string("-") + o.s + arg };
		}
	}
	static string number(unsigned n)
	{
		const string s = to_string(n);
		return chance(1, 8) ? "0" + s : s;
	}
	// thousandths
	static string factor(uint64_t m)
	{
		char b[40];
		switch (draw(3)) {
			case 0: snprintf(b, sizeof b, "%g", double(m) / 1000); break;
			case 1: snprintf(b, sizeof b, "%.3f", double(m) / 1000); break;
			case 2: snprintf(b, sizeof b, "%llue-3", (unsigned long long)m); break;
			default: if (m % 1000) snprintf(b, sizeof b, "%.4f", double(m) / 1000); else snprintf(b, sizeof b, "%llu", (unsigned long long)(m / 1000)); break;
		}
		return b;
	}
	static uint64_t draw_factor(uint64_t max_m) { return chance(1, 2) ? draw(max_m / 1000) * 1000 : draw(max_m / 250) * 250; }
	struct Settings {
		unsigned count = 0, min = 0, mode = 4, level = 8;
		uint64_t factor = 0, load = 0, throttle = 0;
		bool send = false, stamps = true, strip = false;
	};
	// Options with valid values; 's' follows what they mean, the last one of a kind counting
	static vector<vector<string>> valid(Settings &s, unsigned n)
	{
		vector<vector<string>> v;
		for (; n; --n) {
			const Opt &o = opts[draw(sizeof opts / sizeof *opts - 1)];
			string a;
			const string l = o.l;
			if (l == "thread-count") a = number(s.count = unsigned(range(0, 6)));
			else if (l == "thread-factor") a = factor(s.factor = draw_factor(2000));
			else if (l == "thread-min") a = number(s.min = unsigned(range(0, 5)));
			else if (l == "loadavg-target") a = factor(s.load = draw_factor(8000));
			else if (l == "throttle-factor") a = factor(s.throttle = draw_factor(chance(1, 4) ? 40000 : 3000));
			else if (l == "scan-mode") a = number(s.mode = unsigned(draw(4)));
			else if (l == "verbose") a = number(s.level = unsigned(draw(8)));
			else if (l == "workaround-btrfs-send") s.send = true;
			else if (l == "timestamps") s.stamps = true;
			else if (l == "no-timestamps") s.stamps = false;
			else if (l == "absolute-paths") s.strip = false;
			else if (l == "strip-paths") s.strip = true;
			v.push_back(spell(o, a));
		}
		return v;
	}
	// Short flags in one word, now and then
	static vector<vector<string>> clustered(vector<vector<string>> v)
	{
		vector<vector<string>> r;
		for (auto &x : v) {
			const bool flag_before = !r.empty() && r.back().size() == 1 && r.back()[0].size() > 1 && r.back()[0][0] == '-' && r.back()[0][1] != '-' && r.back()[0].find_first_not_of("atTpP", 1) == string::npos;
			if (flag_before && x[0].size() > 1 && x[0][0] == '-' && x[0][1] != '-' && chance(1, 2)) {
				const string f = r.back()[0];
				r.back() = x;
				r.back()[0] = f + x[0].substr(1);
			} else r.push_back(x);
		}
		return r;
	}
	static vector<string> flat(const vector<vector<string>> &v) { vector<string> r; for (auto &x : v) for (auto &y : x) r.push_back(y); return r; }
	static string text(const vector<string> &v) { string s; for (auto &x : v) s += " '" + x + "'"; return s; }
	static void put(vector<vector<string>> &v, const vector<string> &x) { v.insert(v.begin() + ptrdiff_t(draw(v.size())), x); }

	static void tiny(World &w, Gen &g)
	{
		empty_fs(w, g);
		g.subvol(5, 256, "sv");
		for (unsigned i = unsigned(range(1, 3)); i; --i) g.file(w.fs.sv.at(draw(1) ? 256 : 5), 256);
	}
	struct Ran { LifeEnd e; string out; };
	static Ran run(World &w, const vector<string> &args, function<void()> ctl = nullptr, const ds::Config *sc = nullptr)
	{
		Plan p;
		p.args = args;
		p.ctl = ctl;
		if (sc) p.sched = *sc; else p.sched = ds::draw_config(3000);
		p.capture = int(syscall(SYS_memfd_create, "out", 0));
		if (p.capture < 0) inconclusive("memfd");
		Ran r;
		r.e = daemon_life(w, p);
		const off_t n = lseek(p.capture, 0, SEEK_END);
		r.out.resize(size_t(n));
		if (n && syscall(SYS_pread64, p.capture, &r.out[0], size_t(n), 0) != n) inconclusive("memfd read");
		syscall(SYS_close, p.capture);
		return r;
	}
	static string head(const string &s) { return s.size() < 1500 ? s : s.substr(0, 1500) + "..."; }

	static void make_world(World &w, Gen &g)
	{
		tiny(w, g);
		g.home(1u << 17);
		settle(w);
	}
	// The daemon is told to stop as soon as it runs, in case it wrongly does
	static function<void()> stop_soon() { return [] { ds::sleep(50); ds::post_signal(SIGTERM); }; }

	// ---------------------------------------------------------------- refused
	static string bad_number(Kind k)
	{
		switch (draw(13)) {
			case 0: return "";
			case 1: return "-1";
			case 2: return k == FACTOR ? "1.5x" : "3x";
			case 3: return "x";
			case 4: return k == FACTOR ? "1,5" : "1.5";
			case 5: return k == FACTOR ? "nan" : "0x";
			case 6: return k == FACTOR ? "inf" : "two";
			case 7: return k == FACTOR ? "-0.5" : "-0x1";
			case 8: return k == FACTOR ? "1e999" : "99999999999999999999999";
			case 9: return k == FACTOR ? "-1e3" : "1e1";
			case 10: return k == LEVEL ? to_string(range(9, 20)) : k == MODE ? to_string(range(5, 20)) : "1 2";
			case 11: return k == FACTOR ? "--1" : "4294967296";
			case 12: return k == FACTOR ? "1.0.0" : to_string(4294967296ull + draw(8));
			default: return k == FACTOR ? "1e" : "18446744073709551617";
		}
	}
	static void refused()
	{
		World w;
		ImgOpts o;
		Gen g(w, o, draw(UINT64_MAX));
		make_world(w, g);
		Settings s;
		auto v = valid(s, unsigned(draw(5)));
		const bool path = chance(9, 10);
		const unsigned what = unsigned(weighted({ 12, 3, 3, 2, 3, 3, 1 }));
		bool last = false;
		switch (what) {
			case 0: {
				const Opt *x;
				do x = &opts[draw(sizeof opts / sizeof *opts - 1)]; while (x->kind == FLAG);
				const string b = bad_number(x->kind);
				auto sp = spell(*x, b);
				if (b.empty() && sp.size() == 1 && sp[0][1] != '-') sp = { sp[0], "" };
				put(v, sp);
				label("number");
				break;
			}
			case 1: {
				static const vector<string> u { "-x", "-1", "-Z", "-V", "--nothing", "--thread-counts=1", "--Verbose", "-?", "-Tx", "-Px", "--scan", "--log" };
				string x = pick(u);
				if (x == "--scan" || x == "--log") x += "-unknown";
				put(v, { x });
				label("unknown option");
				break;
			}
			case 2:
				last = true;
				label("missing argument");
				break;
			case 3: put(v, { "--" + string(pick(vector<const char *> { "strip-paths", "absolute-paths", "timestamps", "no-timestamps", "workaround-btrfs-send" })) + "=" + pick(vector<string> { "1", "", "yes" }) }); label("argument of a flag"); break;
			case 4: put(v, { pick(vector<string> { "--thread=1", "--t", "--thread-=1", "--th=2", "--thr=2" }) }); label("ambiguous prefix"); break;
			case 5:
				if (chance(1, 3)) { put(v, { "--" }); label("no path"); v = vector<vector<string>>(v.begin(), find(v.begin(), v.end(), vector<string> { "--" }) + 1); break; }
				put(v, { "/sim" }); put(v, { pick(vector<string> { "/sim", "/other", "/sim/sv" }) }); if (chance(1, 4)) put(v, { "" }); label("several paths");
				break;
			default: label("no path"); break;
		}
		v = clustered(v);
		if (path && what < 5) {
			bool dd = false;
			for (auto &x : v) if (x[0] == "--") dd = true;
			if (!dd && chance(2, 3)) put(v, { "/sim" }); else v.push_back({ "/sim" });
		}
		auto args = flat(v);
		if (last) {
			const Opt *x;
			do x = &opts[draw(sizeof opts / sizeof *opts - 1)]; while (x->kind == FLAG);
			args.push_back(x->s && chance(1, 2) ? string("-") + x->s : long_name(*x));
		}
		PBT_DESC("arguments" << text(args));
		const auto cells = table_cells(w);
		auto r = run(w, args, stop_soon());
		PBT_DESC(head(r.out));
		if (!r.e.returned) PBT_FAIL("the daemon ran with arguments" << text(args));
		if (r.e.code == 0) PBT_FAIL("status 0 with arguments" << text(args));
		if (w.n_calls) PBT_FAIL("the filesystem was touched (" << w.n_calls << " system calls) with arguments" << text(args));
		if (r.out.empty()) PBT_FAIL("no message with arguments" << text(args));
		nontrivial();
	}
	// ---------------------------------------------------------------- help
	static void help()
	{
		World w;
		ImgOpts o;
		Gen g(w, o, draw(UINT64_MAX));
		make_world(w, g);
		Settings s;
		auto v = clustered(valid(s, unsigned(draw(4))));
		const unsigned k = unsigned(draw(5));
		bool ok = true, usage = true;
		switch (k) {
			case 0: put(v, { "-h" }); break;
			case 1: put(v, { "--help" }); break;
			case 2: put(v, { "--version" }); usage = false; break;
			case 3: put(v, { pick(vector<string> { "--h", "--he", "--hel", "-Th", "-hT" }) }); break;
			case 4: put(v, { pick(vector<string> { "-h", "--help" }) }); put(v, { "--nothing" }); break;
			default: v.clear(); ok = false; break;
		}
		if (k < 3 && chance(1, 2)) put(v, { "/sim" });
		const auto args = flat(v);
		// an option before may take what follows for itself
		PBT_DESC("arguments" << text(args));
		auto r = run(w, args, stop_soon());
		PBT_DESC(head(r.out));
		if (!r.e.returned) PBT_FAIL("the daemon ran with arguments" << text(args));
		if (ok && k != 3 && r.e.code) PBT_FAIL("status " << r.e.code << " with arguments" << text(args));
		if (ok && r.e.code) PBT_FAIL("status " << r.e.code << " with arguments" << text(args));
		if (!ok && !r.e.code) PBT_FAIL("success without arguments");
		if (w.n_calls) PBT_FAIL("the filesystem was touched with arguments" << text(args));
		if (r.out.find("bees") == string::npos) PBT_FAIL("no output with arguments" << text(args));
		if (usage) for (auto &x : opts) if (r.out.find(string("--") + x.l) == string::npos) PBT_FAIL("the help does not mention --" << x.l);
		label(!ok ? "no arguments" : k == 2 ? "version" : "help");
		nontrivial();
	}
	// ---------------------------------------------------------------- paths that are no btrfs root
	static void bad_path()
	{
		World w;
		ImgOpts o;
		Gen g(w, o, draw(UINT64_MAX));
		make_world(w, g);
		Settings s;
		auto v = clustered(valid(s, unsigned(draw(4))));
		string path;
		switch (draw(4)) {
			case 0: path = "/sim/nothing/here"; break;
			case 1: path = "/other"; w.cfg.other_btrfs = 0; break;
			case 2: {
				const Inode *f = nullptr;
				for (auto &x : w.fs.sv) for (auto &n : x.second.in) if (n.second.kind == K_REG && !n.second.raw && !n.second.names.empty()) { f = &n.second; path = "/sim/" + w.fs.paths(x.second, n.first)[0]; if (x.first != 5) path = "/sim/sv/" + w.fs.paths(x.second, n.first)[0]; }
				if (!f) return;
				break;
			}
			case 3: path = "/sim/sv"; break;
			default: path = ""; break;
		}
		put(v, { path });
		const auto args = flat(v);
		PBT_DESC("arguments" << text(args));
		observe_all(w, w.sh);
		auto r = run(w, args, stop_soon());
		PBT_DESC(head(r.out));
		if (!r.e.returned) PBT_FAIL("the daemon ran on '" << path << "'");
		if (!r.e.code) PBT_FAIL("status 0 on '" << path << "'");
		check_shadow(w, w.sh, "after a failed start");
		if (!w.home_log.empty() || !w.dedupes.empty()) PBT_FAIL("something was changed on '" << path << "'");
		nontrivial();
	}
	// ---------------------------------------------------------------- accepted
	struct Line { int level = -1; bool stamp = false; string body; };
	static Line parse(const string &s)
	{
		Line l;
		size_t p = 0;
		static const string form = "0000-00-00 00:00:00 ";
		if (s.size() > form.size()) {
			bool ok = true;
			for (size_t i = 0; i < form.size(); ++i) if (form[i] == '0' ? !isdigit((unsigned char)s[i]) : s[i] != form[i]) ok = false;
			if (ok) {
				l.stamp = true;
				p = form.size();
				while (p < s.size() && (isdigit((unsigned char)s[p]) || s[p] == '.')) ++p;
			}
		}
		if (p + 3 <= s.size() && s[p] == '<' && isdigit((unsigned char)s[p + 1]) && s[p + 2] == '>') { l.level = s[p + 1] - '0'; p += 3; }
		l.body = s.substr(p);
		return l;
	}
	static void check_log(const Settings &s, const string &out)
	{
		istringstream in(out);
		string line;
		bool first = true, begun = false;
		size_t lines = 0, at_top = 0;
		while (getline(in, line)) {
			if (first) { first = false; if (line.compare(0, 4, "bees")) PBT_FAIL("no version line but: " << line); continue; }
			const Line l = parse(line);
			// while the options are read, the earlier ones are not in force yet
			if (!begun) {
				if (line.find("Parsing option") != string::npos || line.find("log level set") != string::npos) continue;
				begun = true;
			}
			if (line.find("Parsing option") != string::npos || line.find("log level set") != string::npos) continue;
			++lines;
			if (l.level < 0) PBT_FAIL("a line without a level: " << line);
			if (l.level >= int(s.level)) PBT_FAIL("verbosity " << s.level << " but: " << line);
			if (l.level == int(s.level) - 1) ++at_top;
			if (l.stamp != s.stamps) PBT_FAIL("timestamps " << (s.stamps ? "on" : "off") << " but: " << line);
			if (s.strip && line.find("/sim/sv/") != string::npos) PBT_FAIL("paths to be stripped but: " << line);
		}
		if (s.level == 0 && lines) PBT_FAIL("output at verbosity 0");
		if (s.level >= 6 && !at_top) PBT_FAIL("no line of level " << s.level - 1 << " at verbosity " << s.level);
	}
	static void accepted()
	{
		World w;
		ImgOpts o;
		o.dup_pm = 0; o.zero_pm = 0; o.prealloc_pm = 0; o.whole_dups = true; o.reflink_pm = 0; o.overlay_pm = 0; o.snap_pm = 0; o.twin_pm = 0; o.comp_pm = 0; o.special_pm = 0; o.nodatasum_pm = 0; o.inline_pm = 0; o.hole_pm = 0;
		Gen g(w, o, draw(UINT64_MAX));
		empty_fs(w, g);
		const unsigned nsv = unsigned(range(1, 3));
		for (unsigned i = 0; i < nsv; ++i) g.subvol(5, 256, "sv" + string(i ? to_string(i) : ""));
		for (auto &x : w.fs.sv) for (unsigned i = unsigned(draw(4)); i; --i) g.file(x.second, 256);
		g.home(1u << 17);
		Settings s;
		auto v = valid(s, unsigned(draw(9)));
		// one worker shows the order of the scan
		if (chance(1, 2)) { v.push_back(spell(opt("thread-count"), "1")); s.count = 1; }
		if (chance(1, 2)) v.push_back(spell(opt("scan-mode"), number(s.mode = unsigned(draw(4)))));
		const bool ro = chance(1, 3);
		if (ro) {
			// a read-only subvolume holding copies of what is elsewhere
			auto &r = w.fs.sv.at(256);
			for (auto &x : w.fs.sv) {
				if (x.first == 256) continue;
				for (auto &n : x.second.in) if (n.second.kind == K_REG && !n.second.raw && !n.second.fe.empty()) {
					auto &c = make_inode(r, K_REG, 256, "copy" + to_string(x.first) + "-" + to_string(n.first));
					c.size = n.second.size;
					for (auto &f : n.second.fe) {
						if (f.second.type != FE_REG || !f.second.bytenr) continue;
						const auto ids = w.fs.px.at(f.second.bytenr).ids;
						const uint64_t q = w.fs.new_extent(ids, 0, ids.size() * BS);
						w.fs.map_extent(r, c, f.first, f.second.len, q, f.second.eoff);
					}
				}
			}
			r.ro = true;
		}
		settle(w);
		v = clustered(v);
		if (chance(2, 3)) put(v, { "/sim" }); else { if (chance(1, 2)) v.push_back({ "--" }); v.push_back({ chance(1, 4) ? "/sim/" : "/sim" }); }
		const auto args = flat(v);
		PBT_DESC("arguments" << text(args) << "\n" << dump_image(w));
		const unsigned cpus = thread::hardware_concurrency();
		const unsigned count = s.count ? s.count : max(1u, unsigned(ceil(cpus * (s.factor ? double(s.factor) / 1000 : 1.0) - 1e-9)));
		const bool steady = s.min > count;   // contradictory: not specified
		auto sc = sched(count);
		vector<pair<uint64_t, uint64_t>> order;
		bool done = false;
		auto r = run(w, args, [&] {
			on_call = [&](const char *c, uint64_t root, uint64_t ino) { if (!done && !strcmp(c, "pread") && (order.empty() || order.back() != make_pair(root, ino))) order.push_back({ root, ino }); };
			const double high = double(s.load) / 1000 + 20;
			ds::loadavg = 0;
			if (!wait_quiet(QUIET, LIMIT)) PBT_FAIL("the daemon never became idle");
			done = true;
			if (size_t n = TaskMaster::get_thread_count(); n != count && !(steady && s.load)) PBT_FAIL(n << " workers instead of " << count << (s.load ? " at no load" : ""));
			ds::loadavg = high;
			ds::sleep(2000);
			const size_t n = TaskMaster::get_thread_count();
			if (!s.load) { if (n != count) PBT_FAIL(n << " workers instead of " << count << " at a load of " << high << " without a target"); }
			else if (!steady && n != s.min) PBT_FAIL(n << " workers at a load of " << high << " over the target of " << double(s.load) / 1000 << ", minimum " << s.min);
			ds::loadavg = 0;
			ds::sleep(2000);
			if (size_t m = TaskMaster::get_thread_count(); m != count && !(steady && s.load)) PBT_FAIL(m << " workers instead of " << count << " after the load went away");
			// an operation of average length is followed by a pause that brings it to the given multiple
			for (int i = 0; i < 3; ++i) bees_throttle(2, "probe");
			const double t0 = vsec();
			bees_throttle(2, "probe");
			const double pause = vsec() - t0, want = min(60.0, max(0.0, 2 * (double(s.throttle) / 1000 - 1)));
			if (fabs(pause - want) > 0.01) PBT_FAIL("a pause of " << pause << " s after an operation of 2 s with throttle factor " << double(s.throttle) / 1000);
			if (unsigned(bees_log_level) != s.level) PBT_FAIL("verbosity " << bees_log_level << " instead of " << s.level);
			// the order in which files are first read
			if (count == 1 && !ro && !s.load) {
				set<pair<uint64_t, uint64_t>> seen;
				vector<pair<uint64_t, uint64_t>> f;
				for (auto &x : order) if (seen.insert(x).second) f.push_back(x);
				string list;
				for (auto &x : f) list += " " + to_string(x.first) + "/" + to_string(x.second);
				PBT_DESC("order" << list);
				for (size_t i = 1; i < f.size(); ++i) {
					if (s.mode == 2 && f[i].first < f[i - 1].first) PBT_FAIL("sequential scan in order" << list);
					if (s.mode == 0 && f[i].second < f[i - 1].second) PBT_FAIL("lockstep scan in order" << list);
					if (s.mode <= 3 && f[i].first == f[i - 1].first && f[i].second < f[i - 1].second) PBT_FAIL("not in inode order:" << list);
				}
				if (s.mode == 1) {
					map<uint64_t, size_t> total, got;
					for (auto &x : f) ++total[x.first];
					for (auto &x : f) {
						++got[x.first];
						for (auto &t : total) if (got[t.first] < t.second && got[t.first] + 1 < got[x.first]) PBT_FAIL("independent scan in order" << list);
					}
				}
				if (f.size() > 2) ++W->calls["order checked"];
			}
			ds::post_signal(SIGTERM);
		}, &sc);
		PBT_DESC(head(r.out));
		expect_running(r.e);
		if (r.e.code) PBT_FAIL("status " << r.e.code << " after a termination request");
		check_log(s, r.out);
		// the kind of scan shows in the saved progress
		auto f = home_file(w, "beescrawl.dat");
		if (!f) PBT_FAIL("no saved progress");
		set<uint64_t> roots;
		istringstream in(string(f->rawdata.begin(), f->rawdata.end()));
		string line;
		while (getline(in, line)) { unsigned long long n; if (sscanf(line.c_str(), "root %llu", &n) == 1) roots.insert(n); }
		for (uint64_t i = 250; i <= 255; ++i) if (roots.count(i) != (s.mode == 4)) PBT_FAIL("scan mode " << s.mode << (roots.count(i) ? " saved" : " did not save") << " a position of size tier " << i);
		if (s.mode < 4) for (auto &x : w.fs.sv) if (!x.second.dead && !roots.count(x.first)) PBT_FAIL("scan mode " << s.mode << " saved no position of subvolume " << x.first);
		bool dro = false, dedupes = false;
		for (auto &d : w.dedupes) { dedupes = true; if (d.dro) dro = true; }
		if (s.send && dro) PBT_FAIL("a read-only subvolume was the target of a deduplication with the workaround for send");
		if (dedupes) label("deduplicated");
		if (w.calls.count("order checked")) label("order checked");
		if (s.load) label("load target");
		if (s.strip) label("stripped");
		label(("mode " + to_string(s.mode)).c_str());
		nontrivial();
	}
	// ---------------------------------------------------------------- the throttle factor at work
	static void throttle()
	{
		World w;
		ImgOpts o;
		o.whole_dups = true; o.dup_pm = 800; o.zero_pm = 0; o.partial_pm = 0; o.prealloc_pm = 0; o.max_files = 12;
		Gen g(w, o, draw(UINT64_MAX));
		g.build();
		g.home(1u << 20);
		settle(w);
		const uint64_t call_ms = pick(vector<uint64_t> { 50, 200, 1000, 3000 });
		const uint64_t fm = chance(1, 4) ? 0 : 1250 + 250 * draw(40);
		w.cfg.syscall_ns = call_ms * 1000000;
		g_mode = unsigned(draw(4));
		vector<string> args { "-v", "3" };
		for (auto &x : spell(opt("thread-count"), "1")) args.push_back(x);
		for (auto &x : spell(opt("scan-mode"), number(g_mode))) args.push_back(x);
		if (fm) for (auto &x : spell(opt("throttle-factor"), factor(fm))) args.push_back(x);
		args.push_back("/sim");
		PBT_DESC("arguments" << text(args) << " call " << call_ms << " ms\n" << dump_image(w));
		// one worker: after an operation of average length it does nothing for the rest of the given multiple
		const double call = double(call_ms) / 1000, want = min(60.0, call * (double(fm) / 1000 - 1));
		double used[3] { 0, 0, 0 }, aged[3] { 0, 0, 0 }, at = 0;
		int last = -1;
		thread::id who;
		uint64_t addr = 0;
		string pending;
		on_call = [&](const char *c, uint64_t, uint64_t a) {
			const int d = !strcmp(c, "dedupe_dst") ? 1 : !strcmp(c, "logical_ino") ? 0 : !strcmp(c, "extent_map") ? 2 : -1;
			if (d < 0) return;
			// one lookup may take several calls
			if (!pending.empty()) { if (d == 1 || a != addr) PBT_FAIL(pending); pending.clear(); }
			used[d] += call;
			at = vsec();
			if (at - aged[d] > 59) { used[d] *= 0.9; aged[d] = at; }
			who = this_thread::get_id();
			addr = a;
			// (the averages of the kinds are taken apart, are aged every minute, and need a second of work)
			last = used[d] < 1.1 + call ? -1 : d;
		};
		on_enter = [&](const char *name) {
			if (!pending.empty() && this_thread::get_id() == who) PBT_FAIL(pending);
			if (last < 0 || this_thread::get_id() != who) return;
			const int k = last;
			last = -1;
			const double gap = vsec() - at;
			++W->faults_fired;
			if (!fm && gap > 1) PBT_FAIL("no throttle factor, calls of " << call << " s, but " << gap << " s from the end of a " << (k == 1 ? "deduplication" : "lookup") << " to the next call (" << name << ")");
			if (fm && gap < want - 0.01) {
				ostringstream o;
				o << "throttle factor " << double(fm) / 1000 << ", calls of " << call << " s, but only " << gap << " s from the end of a " << (k == 1 ? "deduplication" : "lookup") << " to the next call (" << name << ")";
				pending = o.str();
			}
		};
		Plan p;
		p.args = args;
		p.sched = sched(1);
		p.ctl = [] {
			if (!wait_quiet(30000, LIMIT * 10)) PBT_FAIL("the daemon never became idle");
			ds::post_signal(SIGTERM);
		};
		auto e = daemon_life(w, p);
		expect_running(e);
		const uint64_t n = w.faults_fired;
		count("throttled", n);
		label(fm ? "throttled" : "not throttled");
		if (n) nontrivial();
		counters(w);
	}
} }
#endif
