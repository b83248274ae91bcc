// Histories: several lives of the daemon on one filesystem, ended by crashes or signals,
// with users working meanwhile; then a last undisturbed life.
#ifndef VERIF_SIMHIST_H
#define VERIF_SIMHIST_H

namespace sim {
	struct HistOpts {
		unsigned lives = 2;           // at most this many before the last one
		unsigned ops = 8;             // user operations per life
		bool unique = false, whole = false, namespace_ops = true;
		bool reflinks = true;         // users clone old extents to new places (the subvolume modes leave those alone)
		bool ro = false, send = false, nodatasum = false, faults = false, bad = false;
		bool crash = true, sys_crash = true, term = true, pause = false;
		bool old_kernel = false;      // LOGICAL_INO_V2 may be missing: extent mode finds nothing
		bool slow = true;             // system calls may take long, so that state is saved during the scan
		unsigned workers = 4;
		int workaround = -1;          // 0, 1, or drawn
		vector<unsigned> favour;      // kinds of user operations to prefer
		bool final_rw = false;        // every subvolume is made writable after the last operation
		bool snaps = true;            // users make and delete snapshots
		bool last_ops = true;         // users also work during the last life
		bool mid = false;             // users also work at chosen calls of the daemon
	};
	enum EndKind { END_CALL, END_TIME, END_SYSTEM, END_TERM, END_QUIET };
	struct HistEnd { EndKind kind = END_QUIET; double at = 0; uint64_t call = 0; };
	static const char *end_name(EndKind k) { static const char *n[] = { "killed at a call", "killed", "system crash", "terminated", "quiet" }; return n[k]; }

	struct History {
		World w;
		ImgOpts io_;
		HistOpts h;
		unique_ptr<Gen> g;
		vector<string> args;
		unsigned workers = 1;
		bool ro_workaround = false;
		double syscall_s = 0;
		unsigned life_no = 0;
		double idle_s = 0;        // how long the daemon had been idle when the last life ended
		vector<EndKind> kinds;
		function<void(const char *)> after_life;
		string beeshome;

		static double pick_wait() { static const vector<double> v { 0, 0, 0.001, 0.1, 1, 5, 31, 100, 400, 950 }; return v[draw(v.size() - 1)]; }
		void setup(const HistOpts &opts, const ImgOpts &img)
		{
			h = opts; io_ = img;
			g.reset(new Gen(w, io_, draw(UINT64_MAX)));
			g->build();
			g->home(1u << 20);
			w.fs.reuse = chance(1, 2);
			if (!h.reflinks) g->o.reflink_pm = 0;
			settle(w);
			observe_all(w, w.sh);
			workers = unsigned(1 + draw(h.workers - 1));
			ro_workaround = h.workaround >= 0 ? h.workaround : chance(1, 4);
			args = daemon_args(workers, ro_workaround);
			if (h.slow && chance(2, 3)) {
				syscall_s = pick(vector<double> { 0.01, 0.1, 0.5, 2, 5, 10 });
				w.cfg.syscall_ns = uint64_t(syscall_s * 1e9);
			}
			if (chance(1, 6)) w.cfg.openat2_ok = false;
			if (h.old_kernel && chance(1, 6)) w.cfg.v2_ok = false;
			if (chance(1, 6)) w.cfg.kernel = "5.10.0";
			w.cfg.commit_s = pick(vector<unsigned> { 30, 30, 5, 120 });
			if (chance(1, 6)) w.cfg.home_slow_ns = pick(vector<uint64_t> { 1000000, 1000000000 });
			PBT_DESC("reuse " << w.fs.reuse << " call " << syscall_s << " s, commit " << w.cfg.commit_s << " openat2 " << w.cfg.openat2_ok << " v2 " << w.cfg.v2_ok << " kernel " << w.cfg.kernel << " home slow " << w.cfg.home_slow_ns);
			{ ostringstream o; for (auto &a : args) o << " " << a; PBT_DESC("args" << o.str()); }
			PBT_DESC(dump_image(w));
		}
		double quiet() const { return max(4500.0, 3000 * syscall_s + 4000); }
		HistEnd draw_end()
		{
			HistEnd e;
			vector<EndKind> k;
			if (h.crash) { k.push_back(END_CALL); k.push_back(END_TIME); }
			if (h.sys_crash) k.push_back(END_SYSTEM);
			if (h.term) k.push_back(END_TERM);
			e.kind = k[draw(k.size() - 1)];
			if (e.kind == END_CALL) e.call = 1 + (draw(3) ? draw(1u << draw(11)) : draw(8191));
			static const vector<double> at { 0, 0.001, 0.01, 0.05, 0.2, 1, 2, 10, 100, 901, 905, 950, 1801, 5000 };
			e.at = at[draw(at.size() - 1)];
			if (syscall_s > 0 && draw(1)) e.at = syscall_s * double(draw(400));
			return e;
		}
		void configure(Users &u)
		{
			u.namespace_ops = h.namespace_ops; u.ro_ops = h.ro; u.send_ops = h.send; u.nodatasum_ops = h.nodatasum;
			u.reflinks = h.reflinks; u.favour = h.favour; u.snap_ops = h.snaps;
		}
		LifeEnd life(const HistEnd &end, unsigned nops)
		{
			++life_no;
			g->r = Rng(draw(UINT64_MAX));
			g->next_id += 100000;
			// data of the life before that is still to be written counts as new
			map<pair<uint64_t, uint64_t>, uint64_t> pending;
			for (auto &x : w.last_write) {
				auto n = w.fs.find(x.first.first, x.first.second);
				if (n && !n->overlay.empty()) pending[x.first] = 1;
			}
			w.last_write.swap(pending);
			w.phys_life.clear();
			for (auto &s : w.fs.sv) s.second.ro_since = 0;
			if (end.kind == END_SYSTEM) {
				w.keep_committed = true;
				settle(w);
				Ar a; io(a, w.fs); w.committed.swap(a.out);
				w.home_log.push_back({ 'C', 0, 0, "", "" });
			} else w.keep_committed = false;
			fault_rng = Rng(draw(UINT64_MAX));
			Plan p;
			p.args = args;
			p.sched = sched(workers);
			p.beeshome = beeshome;
			// Users' operations placed exactly at some of the daemon's calls
			Users mu(w, *g);
			const auto outer_call = on_call;
			const auto outer_enter = on_enter;
			vector<unsigned> when;
			size_t next_when = 0;
			unsigned seen = 0;
			bool busy = false;
			if (h.mid && nops && chance(1, 2)) {
				for (unsigned n = unsigned(1 + draw(4)), k = 0; n; --n) when.push_back(k += 1 + unsigned(draw(draw(1) ? 8 : 80)));
				configure(mu);
				auto event = [&](const char *at) {
					if (++seen != when[next_when]) return;
					++next_when;
					busy = true;
					const string s = mu.op();
					PBT_DESC("  t=" << vsec() << " at " << at << ": " << s);
					busy = false;
				};
				on_call = [&, event](const char *c, uint64_t root, uint64_t ino) {
					if (outer_call) outer_call(c, root, ino);
					if (busy || next_when >= when.size() || !ds::active() || !strcmp(c, "own_pread") || !strcmp(c, "raw_pread")) return;
					if (root && is_user(root, ino)) mu.target = { root, ino };
					event(c);
				};
				on_enter = [&, event](const char *c) {
					if (outer_enter) outer_enter(c);
					if (busy || next_when >= when.size() || !ds::active() || strcmp(c, "openat2")) return;
					event(c);
				};
			}
			if (end.kind == END_CALL) p.crash_call = end.call;
			const bool pause = h.pause && chance(1, 2);
			p.ctl = [&, nops, end, pause] {
				Users u(w, *g);
				configure(u);
				// a request that races with a user's write is not repeated
				if (h.whole && nops && !wait_quiet(quiet(), LIMIT + 200000 * syscall_s)) PBT_FAIL("the daemon never became idle");
				for (unsigned i = 0; i < nops; ++i) {
					if (!h.whole) ds::sleep(pick_wait());
					const string s = u.op();
					PBT_DESC("  t=" << vsec() << " " << s);
				}
				if (end.kind == END_QUIET || end.kind == END_CALL) {
					if (h.send) for (auto &s : w.fs.sv) s.second.send = false;
					if (h.final_rw) for (auto &s : w.fs.sv) s.second.ro = false;
					w.fs.flush_all();
					w.dirty = true;
					if (!wait_quiet(quiet(), LIMIT + 200000 * syscall_s)) PBT_FAIL("the daemon never became idle");
					ds::post_signal(SIGTERM);
				} else {
					ds::sleep(end.at);
					if (end.kind == END_TERM) ds::post_signal(SIGTERM);
					else finish_life(0, "crash");
				}
			};
			ds::on_step_limit = [] { PBT_FAIL("the daemon never became idle"); };
			auto e = daemon_life(w, p);
			on_call = outer_call;
			on_enter = outer_enter;
			expect_running(e);
			if (!e.crashed && e.code) PBT_FAIL("the daemon exited with status " << e.code << " after a termination request");
			PBT_DESC("life " << life_no << " " << end_name(end.kind) << " after " << e.vns / 1000000000 << " s, " << e.steps << " steps" << (e.crashed ? ", crashed" : ""));
			kinds.push_back(end.kind);
			idle_s = double(e.vns - min(e.vns, w.last_activity)) / 1e9;
			if (end.kind == END_SYSTEM && e.crashed) {
				Ar a;
				a.rd = true;
				a.in = w.committed.data();
				a.end = a.in + w.committed.size();
				const auto next_fd = w.fs.next_fd;
				io(a, w.fs);
				w.fs.next_fd = next_fd;
				w.committed.clear();
				for (auto &s : w.fs.sv) for (auto n = s.second.in.begin(); n != s.second.in.end(); ) {
					if (n->second.kind == K_REG && n->second.names.empty()) { n = s.second.in.erase(n); ++w.fs.mods; } else ++n;
				}
				observe_all(w, w.sh);
				w.home_log.push_back({ 'X', 0, 0, "", "" });
			}
			// extents this life read from end to end
			for (auto &x : w.fs.px) {
				bool all = true;
				for (uint64_t b = 0; b < x.second.ids.size() && all; ++b) all = w.phys_life.count({ x.second.serial, b });
				if (all) w.fully_read.insert({ x.second.serial, 0 });
			}
			return e;
		}
		void run()
		{
			const unsigned n = h.lives ? unsigned(draw(h.lives)) : 0;
			const unsigned total = n + 1;
			for (unsigned i = 0; i < total; ++i) {
				const bool last = i + 1 == total;
				HistEnd e;
				if (!last) e = draw_end();
				const unsigned nops = last && !h.last_ops ? 0 : h.ops ? unsigned(draw(h.ops)) : 0;
				life(e, nops);
				const string when = "after life " + to_string(life_no);
				check_shadow(w, w.sh, when.c_str());
				if (after_life) after_life(when.c_str());
			}
			settle(w);
			check_shadow(w, w.sh, "at the end");
			PBT_DESC(dump_image(w));
			if (describing()) for (auto &d : w.dedupes) PBT_DESC("  " << show(d));
		}
	};
	// Every live extent was read from its first to its last mapped block in one life
	static void check_considered(World &w, bool skip_ro, const char *when)
	{
		for (auto &t : live_tuples(w, skip_ro)) {
			auto &p = w.fs.px.at(t.first.bytenr);
			if (!w.fully_read.count({ p.serial, 0 })) PBT_FAIL(when << ": extent " << t.first.bytenr << " of root " << t.second.root << " inode " << t.second.ino << " offset " << t.second.pos << " (generation " << p.gen << ") was never read completely within one life of the daemon");
		}
	}
	static void check_requests_history(World &w, bool faults, double syscall_s)
	{
		for (auto &d : w.dedupes) {
			if (d.len == 0) PBT_FAIL("empty " << show(d));
			if (d.soff % BS || d.doff % BS) PBT_FAIL("unaligned " << show(d));
			if (d.len > (256u << 20)) PBT_FAIL("oversized " << show(d));
			if (d.dtmp) PBT_FAIL("temporary file is a destination: " << show(d));
			if (d.sroot == d.droot && d.sino == d.dino && d.soff < d.doff + d.len && d.doff < d.soff + d.len) PBT_FAIL("overlapping " << show(d));
			const bool recent = d.last_write && double(d.t - (d.last_write - 1)) / 1e9 < 120 + 50000 * syscall_s;
			if (!recent) {
				if (!d.same_content) PBT_FAIL("contents differ, though neither file changed lately: " << show(d));
				if (d.status && !faults && d.status != -EAGAIN) PBT_FAIL("refused " << show(d));
			}
		}
	}
	static void hist_labels(const History &x)
	{
		for (auto k : x.kinds) if (k != END_QUIET) label(end_name(k));
		if (x.kinds.size() > 1) label("restarted");
		if (x.w.user_writes) label("user writes");
	}
	static void draw_faults(World &w)
	{
		auto f = [] { return chance(1, 2) ? 0u : pick(vector<unsigned> { 10, 100, 500 }); };
		auto &c = w.cfg;
		c.f_pread = f(); c.f_open = f(); c.f_dedupe = f(); c.f_resolve = f(); c.f_search = f() / 10; c.f_tmpwrite = f(); c.f_home = chance(1, 2) ? 0 : 100; c.f_partial = f(); c.f_hwrite = f();
		c.fault_until_s = pick(vector<uint64_t> { 1, 10, 100, 2000 });
		PBT_DESC("faults pread " << c.f_pread << " open " << c.f_open << " dedupe " << c.f_dedupe << " resolve " << c.f_resolve << " search " << c.f_search << " tmpwrite " << c.f_tmpwrite << " home " << c.f_home << " partial " << c.f_partial << " hwrite " << c.f_hwrite << " until " << c.fault_until_s);
	}
	// C01, C30: anything goes, the files stay what their users made them
	static void history_any()
	{
		History x;
		HistOpts h;
		h.ops = 12; h.mid = true; h.old_kernel = true; h.ro = chance(1, 3); h.send = chance(1, 3); h.nodatasum = chance(1, 3); h.pause = chance(1, 4);
		ImgOpts o;
		if (chance(1, 3)) o.twin_pm = 100;
		if (chance(1, 3)) o.overlay_pm = 300;
		if (chance(1, 4)) o.ro_pm = 300;
		if (chance(1, 4)) o.nodatasum_pm = 200;
		if (chance(1, 5)) o.toxic_pm = 60;
		if (chance(1, 5)) o.bad_pm = 100;
		const bool faults = chance(1, 3);
		x.setup(h, o);
		if (faults) draw_faults(x.w);
		x.run();
		check_requests_history(x.w, faults || o.bad_pm || o.nodatasum_pm || h.nodatasum, x.syscall_s);
		hist_labels(x);
		if (!x.w.dedupes.empty() && x.w.user_writes) nontrivial();
		counters(x.w);
	}
	// C04/C05
	static void history_scan(bool unique, bool users)
	{
		History x;
		HistOpts h;
		h.unique = unique; h.reflinks = false;
		h.ops = users ? 8 : 0;
		h.mid = users;
		h.lives = users ? 2 : 3;
		h.ro = users && chance(1, 4);
		ImgOpts o;
		if (unique) { o.dup_pm = 0; o.whole_dups = true; o.zero_pm = 0; o.prealloc_pm = 0; o.reflink_pm = 0; o.partial_pm = 0; o.tail_pm = users ? 300 : 100; }
		if (chance(1, 3)) { o.max_files = 20; o.max_segs = 2; o.max_blocks = 4; }
		h.workaround = 0;
		x.setup(h, o);
		x.run();
		check_all_scanned(x.w, false, unique && !users, "at the end");
		if (unique && !users) check_considered(x.w, false, "at the end");
		hist_labels(x);
		if (x.kinds.size() > 1 || x.w.user_writes) nontrivial();
		counters(x.w);
	}
	static void history_whole()
	{
		History x;
		HistOpts h;
		h.whole = true; h.reflinks = false; h.workers = 1; h.lives = 1; h.ops = 6;
		ImgOpts o;
		o.whole_dups = true; o.dup_pm = 700; o.zero_pm = 0; o.partial_pm = 0; o.prealloc_pm = 0;
		o.comp_pm = chance(1, 2) ? 0 : 500;
		h.workaround = 0;
		x.setup(h, o);
		// A daemon that is killed loses what it had not yet written of the hash table; when the
		// saved positions are past that data, only its next change brings it back.
		bool lost = false;
		string state;
		x.after_life = [&](const char *) {
			auto f = home_file(x.w, "beescrawl.dat");
			const string now = f ? f->rawdata : "";
			bool past = false;
			istringstream in(now);
			for (string line; getline(in, line); ) {
				unsigned long long root = 0, obj = 0, off = 0, mn = 0;
				if (sscanf(line.c_str(), "root %llu objectid %llu offset %llu min_transid %llu", &root, &obj, &off, &mn) == 4 && (obj || mn)) past = true;
			}
			if (past && now != state && x.idle_s < 1000 + 1000 * x.syscall_s && x.kinds.back() != END_TERM && x.kinds.back() != END_QUIET) lost = true;
			state = now;
		};
		x.run();
		if (lost) label("killed after saving positions");
		else check_whole_sharing(x.w, false, true);
		hist_labels(x);
		if (!x.w.dedupes.empty()) nontrivial();
		counters(x.w);
	}
	// C24: lives ended by termination requests lose nothing that was learned
	static void history_term(bool whole)
	{
		History x;
		HistOpts h;
		h.crash = h.sys_crash = false; h.reflinks = false; h.unique = !whole; h.whole = whole;
		h.ops = 0; h.lives = 5; h.workers = whole ? 1 : 4; h.workaround = 0;
		ImgOpts o;
		if (whole) {
			o.whole_dups = true; o.dup_pm = 700; o.zero_pm = 0; o.partial_pm = 0; o.prealloc_pm = 0;
			o.comp_pm = chance(1, 2) ? 0 : 500;
		} else {
			o.dup_pm = 0; o.whole_dups = true; o.zero_pm = 0; o.prealloc_pm = 0; o.partial_pm = 0; o.reflink_pm = 0;
		}
		x.setup(h, o);
		// What a worker has only half inserted when the table is flushed looks scanned after the restart
		set<uint64_t> half;
		x.after_life = [&](const char *when) {
			if (whole || x.kinds.back() != END_TERM) return;
			unsigned n = 0;
			for (auto i : half_hashed(x.w)) if (half.insert(i).second) ++n;
			if (n > x.workers) PBT_FAIL(when << ": " << n << " extents are only partly in the saved hash table, with " << x.workers << " workers");
			if (n) label("extent in progress at the end");
		};
		x.run();
		check_all_scanned(x.w, false, !whole, "at the end");
		if (whole) check_whole_sharing(x.w, false);
		else check_all_hashed(x.w, false, &half);
		hist_labels(x);
		if (x.kinds.size() > 1) nontrivial();
		counters(x.w);
	}
	// C24: pause and resume
	static void pauses(bool whole)
	{
		World w;
		ImgOpts o;
		const unsigned workers = whole ? 1 : unsigned(1 + draw(3));
		if (whole) {
			o.whole_dups = true; o.dup_pm = 700; o.zero_pm = 0; o.partial_pm = 0; o.prealloc_pm = 0;
		} else {
			o.dup_pm = 0; o.whole_dups = true; o.zero_pm = 0; o.prealloc_pm = 0; o.partial_pm = 0; o.reflink_pm = 0;
		}
		Gen g(w, o, draw(UINT64_MAX));
		g.build();
		g.home(1u << 20);
		settle(w);
		observe_all(w, w.sh);
		double call = 0;
		if (chance(3, 4)) { call = pick(vector<double> { 0.001, 0.01, 0.1 }); w.cfg.syscall_ns = uint64_t(call * 1e9); }
		PBT_DESC("call " << call << "\n" << dump_image(w));
		const unsigned lives = unsigned(1 + draw(1));
		unsigned paused_early = 0;
		for (unsigned life = 1; life <= lives; ++life) {
			Plan p;
			p.args = daemon_args(workers);
			p.sched = sched(workers);
			const bool last = life == lives;
			p.ctl = [&] {
				const unsigned n = unsigned(1 + draw(3));
				bool stopped = false;
				uint64_t hushed = 0;
				static const vector<double> at { 0, 0.0001, 0.001, 0.01, 0.05, 0.2, 1, 2, 10, 35, 100 };
				for (unsigned i = 0; i < n; ++i) {
					double t = at[draw(at.size() - 1)];
					if (call > 0 && draw(1)) t = call * double(draw(600));
					ds::sleep(t);
					for (unsigned k = unsigned(1 + draw(1)); k; --k) { ds::post_signal(SIGUSR1); if (draw(1)) ds::sleep(0.001); }
					PBT_DESC("  t=" << vsec() << " pause");
					// what was being done is finished
					ds::sleep(30 + 20000 * call);
					hushed = W->last_activity;
					const uint64_t reads = W->calls["pread"], wr = W->dedupes.size();
					ds::sleep(pick(vector<double> { 10, 400, 1000, 4000 }));
					if (W->last_activity != hushed || W->dedupes.size() != wr)
						PBT_FAIL("paused, yet at t=" << double(W->last_activity) / 1e9 << " the daemon was at work (" << W->calls["pread"] - reads << " reads, " << W->dedupes.size() - wr << " requests since)");
					stopped = true;
					if (!last && i + 1 == n) break;
					ds::post_signal(SIGUSR2);
					if (draw(3) == 0) ds::post_signal(SIGUSR2);
					PBT_DESC("  t=" << vsec() << " resume");
					stopped = false;
				}
				(void)stopped;
				if (last && !wait_quiet(max(4500.0, 4000 + 3000 * call), LIMIT)) PBT_FAIL("the daemon never became idle");
				if (last && W->last_activity > hushed) W->notes.push_back({ 1, "worked after a pause" });
				ds::post_signal(draw(1) ? SIGTERM : SIGINT);
			};
			auto e = daemon_life(w, p);
			expect_running(e);
			if (e.code) PBT_FAIL("the daemon exited with status " << e.code << " after a termination request");
			PBT_DESC("life " << life << " ended after " << e.vns / 1000000000 << " s");
			check_shadow(w, w.sh, "after a life");
		}
		(void)paused_early;
		settle(w);
		PBT_DESC(dump_image(w));
		check_requests(w, true, false, workers == 1);
		check_all_scanned(w, false, !whole, "after pauses");
		if (whole) check_whole_sharing(w, false);
		else check_all_hashed(w, false);
		if (!w.notes.empty()) nontrivial();
		if (lives > 1) label("terminated while paused");
		counters(w);
	}
}
#endif
