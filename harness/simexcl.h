// What the daemon must leave alone (C17, C18), and what it must go on with when
// something else fails (C29).
#ifndef VERIF_SIMEXCL_H
#define VERIF_SIMEXCL_H

namespace sim { namespace excl {
	static string args_text(const vector<string> &args) { string s = "args"; for (auto &a : args) s += " " + a; return s; }
	// No request may reach a subvolume that has been read-only for a while
	static void watch_ro(double syscall_s)
	{
		const uint64_t slack = uint64_t((30 + 500 * syscall_s) * 1e9);
		on_dedupe = [slack](const Dedupe &d) {
			if (!d.dro || d.dro_ns <= slack) return;
			PBT_FAIL("the destination's subvolume has been read-only for " << d.dro_ns / 1000000000 << " s: " << show(d));
		};
	}
	static void only_static_ro(World &w, Gen &g, bool send)
	{
		// make sure that some read-only subvolume exists
		bool any = false;
		for (auto &s : w.fs.sv) any |= s.second.ro;
		vector<uint64_t> v;
		for (auto &s : w.fs.sv) if (s.first != 5) v.push_back(s.first);
		if (!any && !v.empty()) w.fs.sv[v[g.r.below(v.size())]].ro = true;
		if (send) for (auto &s : w.fs.sv) if (s.second.ro && g.pm(500)) s.second.send = true;
	}
	// ---------------------------------------------------------------- C17
	// With the workaround: whatever the order of changes, nothing is written to a read-only subvolume
	static void flips()
	{
		History x;
		HistOpts h;
		h.ops = 14; h.mid = true; h.ro = h.send = true; h.workaround = 1; h.favour = { 15, 15, 16, 15 }; h.lives = 1;
		h.crash = h.sys_crash = chance(1, 4);
		h.snaps = chance(1, 2);
		ImgOpts o;
		o.max_subvols = 5; o.ro_pm = 400; o.snap_pm = 500; o.dup_pm = 700;
		if (chance(1, 2)) { o.whole_dups = true; o.zero_pm = 0; o.partial_pm = 0; }
		x.setup(h, o);
		watch_ro(x.syscall_s);
		// Some subvolumes become read-only, and are sent, just as a request for them arrives
		vector<unsigned> hits;
		for (unsigned n = unsigned(draw(3)), k = 0; n; --n) hits.push_back(k += 1 + unsigned(draw(6)));
		unsigned seen = 0;
		on_call = [&](const char *what, uint64_t root, uint64_t) {
			if (strcmp(what, "dedupe_dst") || root == 5) return;
			auto &s = W->fs.sv.at(root);
			if (s.ro) return;
			++seen;
			for (auto k : hits) if (k == seen) {
				for (auto &n : s.in) W->fs.flush(s, n.second);
				s.ro = s.send = true;
				s.ro_since = ds::now_ns();
				++W->fs.mods; W->dirty = true;
				W->notes.push_back({ ds::now_ns(), "sent" });
				if (trace()) fprintf(stderr, "TRACE subvolume %lu becomes read-only and is sent\n", root);
			}
		};
		x.run();
		if (!x.w.notes.empty()) label("sent at a request");
		check_requests_history(x.w, false, x.syscall_s);
		unsigned ro = 0, rw = 0;
		for (auto &d : x.w.dedupes) { if (d.dro) ++ro; else ++rw; }
		if (ro) label("request just after a change to read-only");
		for (auto &d : x.w.dedupes) if (d.status == -EAGAIN) { label("request during send"); break; }
		hist_labels(x);
		bool any_ro = false;
		for (auto &s : x.w.fs.sv) any_ro |= s.second.ro;
		if (rw && any_ro) nontrivial();
		counters(x.w);
	}
	// With the workaround, subvolume modes: data of a read-only subvolume is not read;
	// when it becomes writable again it is scanned after all
	static void never_scanned()
	{
		History x;
		HistOpts h;
		h.unique = true; h.reflinks = false; h.ro = true; h.workaround = 1; h.lives = 1; h.snaps = false;
		h.ops = 8; h.crash = h.sys_crash = false; h.favour = { 15, 15, 15 }; h.final_rw = chance(2, 3);
		h.namespace_ops = false;
		ImgOpts o;
		o.dup_pm = 0; o.whole_dups = true; o.zero_pm = 0; o.prealloc_pm = 0; o.reflink_pm = 0; o.partial_pm = 0;
		o.max_subvols = 5; o.ro_pm = 400; o.snap_pm = 300;
		x.setup(h, o);
		set_mode(x.args, unsigned(draw(3)));
		PBT_DESC(args_text(x.args));
		const uint64_t slack = uint64_t((600 + 20000 * x.syscall_s) * 1e9);
		// Some subvolumes get new data and become read-only just as they are being read
		vector<unsigned> hits;
		for (unsigned n = unsigned(draw(2)), k = 0; n; --n) hits.push_back(k += 1 + unsigned(draw(20)));
		unsigned seen = 0;
		on_call = [&, slack](const char *what, uint64_t root, uint64_t ino) {
			if (strcmp(what, "pread")) return;
			auto s = svol(root);
			if (s && !s->ro && root != 5 && root != OTHER) {
				++seen;
				for (auto k : hits) if (k == seen) {
					Users u(*W, *x.g);
					vector<uint64_t> in;
					for (auto &n : s->in) if (n.second.kind == K_REG && !n.second.tmp && !n.second.raw && !n.second.names.empty()) in.push_back(n.first);
					if (!in.empty()) u.write(root, in[draw(in.size() - 1)], draw(8), x.g->content(1 + draw(5)));
					for (auto &n : s->in) W->fs.flush(*s, n.second);
					if (draw(1)) W->fs.commit();
					s->ro = true;
					s->ro_since = ds::now_ns();
					++W->fs.mods; W->dirty = true;
					W->notes.push_back({ ds::now_ns(), "changed" });
					PBT_DESC("  t=" << vsec() << " subvolume " << root << " is changed and becomes read-only while inode " << ino << " is read");
				}
				return;
			}
			if (!s || !s->ro) return;
			const uint64_t t = ds::now_ns(), age = t - min(t, s->ro_since);
			if (s->ro_since && age <= slack) return;
			auto n = inode(root, ino);
			if (n && n->tmp) return;
			// a hash computed while a block changed may lead to another file that shares the old extent
			if (n && !W->notes.empty()) for (auto &f : n->fe) {
				auto i = f.second.bytenr ? W->fs.px.find(f.second.bytenr) : W->fs.px.end();
				if (i == W->fs.px.end()) continue;
				auto k = W->phys_read.lower_bound({ i->second.serial, 0 });
				if (k != W->phys_read.end() && k->first == i->second.serial) return;
			}
			PBT_FAIL("inode " << ino << " of subvolume " << root << " is read, which " << (s->ro_since ? "has been read-only for " + to_string(age / 1000000000) + " s" : string("was read-only from the start")));
		};
		x.run();
		check_all_scanned(x.w, true, false, "at the end");
		hist_labels(x);
		if (!x.w.notes.empty()) label("changed and made read-only while read");
		if (h.final_rw) label("all writable at the end");
		if (x.w.phys_read.size() > 4) nontrivial();
		counters(x.w);
	}
	// Without the workaround: read-only subvolumes take part; a send in progress only delays
	static void send()
	{
		World w;
		ImgOpts o;
		o.whole_dups = true; o.dup_pm = 800; o.zero_pm = 0; o.partial_pm = 0; o.prealloc_pm = 0;
		o.comp_pm = chance(1, 2) ? 0 : 500;
		o.max_subvols = 5; o.ro_pm = 500; o.snap_pm = 300;
		Gen g(w, o, draw(UINT64_MAX));
		g.build();
		g.home(1u << 20);
		const bool sends = chance(3, 4);
		only_static_ro(w, g, sends && chance(2, 3));
		settle(w);
		observe_all(w, w.sh);
		double call = 0;
		if (chance(1, 2)) { call = pick(vector<double> { 0.001, 0.01, 0.1, 1 }); w.cfg.syscall_ns = uint64_t(call * 1e9); }
		PBT_DESC("call " << call << "\n" << dump_image(w));
		const unsigned lives = unsigned(1 + draw(2));
		const vector<string> args = daemon_args(1);
		PBT_DESC(args_text(args));
		for (unsigned life = 1; life <= lives; ++life) {
			const bool last = life == lives;
			Plan p;
			p.args = args;
			p.sched = sched(1);
			p.ctl = [&] {
				static const vector<double> at { 0, 0.001, 0.01, 0.05, 0.2, 1, 2, 10, 100, 1000, 5000 };
				const unsigned n = sends ? unsigned(draw(4)) : 0;
				for (unsigned i = 0; i < n; ++i) {
					double t = at[draw(at.size() - 1)];
					if (call > 0 && draw(1)) t = call * double(draw(600));
					ds::sleep(t);
					for (auto &s : W->fs.sv) {
						if (!s.second.ro || s.second.dead || draw(1)) continue;
						s.second.send = !s.second.send;
						PBT_DESC("  t=" << vsec() << " send " << s.first << (s.second.send ? " begins" : " ends"));
					}
					// the kernel's transaction advances only when something is written
					if (draw(1)) { W->dirty = true; }
				}
				if (!last) {
					ds::sleep(at[draw(at.size() - 1)]);
					ds::post_signal(SIGTERM);
					return;
				}
				for (auto &s : W->fs.sv) s.second.send = false;
				// other users keep the filesystem busy for a while
				for (int i = 0; i < 8; ++i) { W->dirty = true; ds::sleep(100); }
				if (!wait_quiet(max(4500.0, 4000 + 3000 * call), LIMIT)) PBT_FAIL("the daemon never became idle");
				ds::post_signal(SIGTERM);
			};
			auto e = daemon_life(w, p);
			expect_running(e);
			if (e.code) PBT_FAIL("the daemon exited with status " << e.code << " after a termination request");
			check_shadow(w, w.sh, "after a life");
			if (!last) PBT_DESC("terminated after " << e.vns / 1000000000 << " s");
		}
		settle(w);
		PBT_DESC(dump_image(w));
		if (describing()) for (auto &d : w.dedupes) PBT_DESC("  " << show(d));
		check_requests(w, true, false, false);
		check_all_scanned(w, false, false, "at the end");
		check_whole_sharing(w, false);
		bool again = false, ro = false;
		for (auto &d : w.dedupes) { if (d.status == -EAGAIN) again = true; if (d.dro && !d.status) ro = true; }
		if (again) label("request during send");
		if (ro) label("read-only destination");
		if (lives > 1) label("terminated");
		if (again || ro) nontrivial();
		counters(w);
	}
	// ---------------------------------------------------------------- C18
	static void excluded()
	{
		World w;
		ImgOpts o;
		o.nodatasum_pm = 300; o.special_pm = 200; o.dup_pm = 800; o.max_subvols = 4;
		if (chance(1, 2)) { o.whole_dups = true; o.zero_pm = 0; o.partial_pm = 0; }
		const unsigned workers = unsigned(1 + draw(3));
		Gen g(w, o, draw(UINT64_MAX));
		g.build();
		g.home(1u << 20);
		w.cfg.openat2_ok = !chance(1, 3);
		if (chance(1, 3)) w.cfg.other_btrfs = chance(1, 2) ? 5 : 256;
		// the hash table's file occupies extents with the content of users' extents
		const bool table_dup = chance(2, 3);
		auto &home = w.fs.sv[5];
		uint64_t table_ino = 0;
		for (auto &n : home.in) if (n.second.raw) table_ino = n.first;
		if (table_dup && table_ino && !g.made.empty()) {
			auto &n = home.in.at(table_ino);
			uint64_t pos = 0;
			while (pos < n.size) {
				vector<Id> ids = g.made[g.r.below(g.made.size())].ids;
				const uint64_t room = (n.size - pos) / BS;
				if (ids.size() > room) ids.resize(room);
				const uint64_t b = w.fs.new_extent(ids, 0, ids.size() * BS);
				w.fs.map_extent(home, n, pos, ids.size() * BS, b, 0);
				pos += ids.size() * BS;
				if (g.pm(300)) w.fs.commit();
			}
			label("hash table with extents");
		}
		// names of some files lead to another filesystem, to files with the same number and content
		unsigned hidden = 0;
		const unsigned mounts = chance(1, 2) ? unsigned(1 + draw(2)) : 0;
		for (unsigned i = 0; i < mounts; ++i) {
			vector<pair<uint64_t, uint64_t>> f;
			for (auto &s : w.fs.sv) for (auto &n : s.second.in) if (n.second.kind == K_REG && !n.second.raw && n.second.names.size() == 1 && n.second.size) f.push_back({ s.first, n.first });
			if (f.empty()) break;
			auto x = f[g.r.below(f.size())];
			auto &s = w.fs.sv[x.first];
			auto &n = s.in.at(x.second);
			Inode c = n;
			c.names.assign(1, { 256, "n" + to_string(n.ino) });
			c.overlay.clear();
			const uint64_t ino = n.ino;
			w.other.in[ino] = c;
			w.other.in[256].entries["n" + to_string(ino)] = { 0, ino };
			s.in.at(n.names[0].first).entries[n.names[0].second] = { 2, ino };
			w.renamed.insert(x);
			++hidden;
		}
		settle(w);
		unsigned planted = 0;
		if (chance(1, 2)) {
			// old entries whose space now belongs to files that must not be used
			PlantOpts po;
			po.n = unsigned(pick(vector<unsigned> { 10, 100, 400 }));
			po.right = true;
			po.target = [](const Subvol &, const Inode &n) { return n.raw || n.is_nodatacow(); };
			planted = plant_table(w, g.r, po);
			if (planted) label("old entries for excluded files");
		}
		observe_all(w, w.sh);
		Plan p;
		p.args = daemon_args(workers);
		if (chance(1, 2)) set_mode(p.args, 4);
		p.sched = sched(workers);
		PBT_DESC(args_text(p.args) << " openat2 " << w.cfg.openat2_ok << " other " << w.cfg.other_btrfs << "\n" << dump_image(w));
		unsigned ineligible = 0;
		for (auto &s : w.fs.sv) for (auto &n : s.second.in) if ((n.second.flags & 3) || n.second.kind == K_LNK || n.second.kind == K_FIFO) ++ineligible;
		auto barred = [](uint64_t root, uint64_t ino, bool source) -> const char * {
			if (root == OTHER) return "a file of another filesystem";
			auto n = inode(root, ino);
			if (!n) return nullptr;
			if (n->raw) return "a state file of the daemon";
			if (n->kind != K_REG) return "not a regular file";
			if (n->tmp) return source ? nullptr : "a temporary file";
			if (n->is_nodatacow()) return "a file without copy-on-write";
			if (n->is_nodatasum()) return "a file without checksums";
			return nullptr;
		};
		on_call = [&](const char *what, uint64_t root, uint64_t ino) {
			if (!strcmp(what, "own_pread")) return;
			if (!strcmp(what, "dedupe_dst")) return;
			const bool src = !strcmp(what, "dedupe_src");
			auto n = inode(root, ino);
			if (!src && n && n->tmp) return;
			if (auto why = barred(root, ino, src)) PBT_FAIL((src ? "source of a deduplication" : "read") << ": inode " << ino << " of root " << root << ", " << why);
		};
		on_dedupe = [&](const Dedupe &d) {
			if (auto why = barred(d.droot, d.dino, false)) PBT_FAIL("destination of a deduplication: " << why << ": " << show(d));
			if (auto why = barred(d.sroot, d.sino, true)) PBT_FAIL("source of a deduplication: " << why << ": " << show(d));
		};
		p.ctl = [&] {
			if (!wait_quiet(5000, LIMIT)) PBT_FAIL("the daemon never became idle");
			ds::post_signal(SIGTERM);
		};
		auto e = daemon_life(w, p);
		expect_running(e);
		describe(w, e, "scan");
		check_shadow(w, w.sh, "after a scan");
		settle(w);
		check_requests(w, true, hidden > 0, false);
		if (!hidden) check_all_scanned(w, false, false, "after a scan");
		// lasting entries name only space that belongs to files with checksums
		auto cells = table_cells(w);
		if (!planted) for (auto &c : cells) {
			const uint64_t a = c.second & ~0xfffull;
			auto u = w.fs.user_bytenr.upper_bound(a);
			bool ok = false;
			if (u != w.fs.user_bytenr.begin()) { --u; ok = a < u->first + u->second; }
			if (!ok) PBT_FAIL("the saved hash table names address " << c.second << ", which no file with checksums ever used");
		}
		if (hidden) label("names that lead to another filesystem");
		if (ineligible) label("ineligible files");
		if (!cells.empty() && (ineligible || hidden || table_dup)) nontrivial();
		counters(w);
	}
	// ---------------------------------------------------------------- C29
	// extents that are troubled, and the contents that occur in them
	struct Trouble {
		set<uint64_t> px;
		set<Id> ids;
		set<pair<uint64_t, uint64_t>> files;
		void collect(World &w)
		{
			for (auto &s : w.fs.sv) for (auto &n : s.second.in) {
				bool bad = n.second.trouble;
				for (auto &f : n.second.fe) {
					if (!f.second.bytenr || f.second.type == FE_INLINE) continue;
					auto &p = w.fs.px.at(f.second.bytenr);
					if (n.second.trouble || p.toxic || p.fail_resolve || !p.bad.empty()) {
						px.insert(f.second.bytenr);
						for (auto i : p.ids) ids.insert(i);
						bad = true;
					}
				}
				if (bad) files.insert({ s.first, n.first });
			}
			// a troubled file's other copies
			for (auto &p : w.fs.px) if (p.second.toxic || p.second.fail_resolve || !p.second.bad.empty()) for (auto i : p.second.ids) ids.insert(i);
		}
		bool touches(const PhysExtent &p) const { for (auto i : p.ids) if (ids.count(i)) return true; return false; }
	};
	// whole identical extents with one physical copy, restricted to some of them
	static unsigned check_sharing_of(World &w, const function<bool(uint64_t, uint64_t, const FileExtent &, const PhysExtent &)> &want, const char *what)
	{
		map<pair<vector<Id>, uint64_t>, pair<uint64_t, Where>> seen;
		auto amb = ambiguous_tails(w);
		unsigned n_pairs = 0;
		for (auto &s : w.fs.sv) for (auto &n : s.second.in) {
			if (!eligible(w, s.second, n.second, false)) continue;
			for (auto &f : n.second.fe) {
				if (f.second.type != FE_REG || !f.second.bytenr) continue;
				auto &p = w.fs.px.at(f.second.bytenr);
				if (f.second.len != p.ram || !want(s.first, n.first, f.second, p)) continue;
				bool zero = false;
				for (auto i : p.ids) if (!i) zero = true;
				if (zero || amb.count(p.ids)) continue;
				const uint64_t cut = f.first + f.second.len > n.second.size ? n.second.size % BS : 0;
				auto ins = seen.insert({ { p.ids, cut }, { f.second.bytenr, { s.first, n.first, f.first, f.second.len } } });
				auto &o = ins.first->second;
				if (ins.second) continue;
				++n_pairs;
				if (o.first != f.second.bytenr)
					PBT_FAIL(what << ": identical extents of " << p.ids.size() << " blocks do not share storage: root " << o.second.root << " inode " << o.second.ino << " offset " << o.second.pos << " and root " << s.first << " inode " << n.first << " offset " << f.first);
			}
		}
		return n_pairs;
	}
	static void persistent()
	{
		World w;
		ImgOpts o;
		o.whole_dups = true; o.dup_pm = 600; o.zero_pm = 0; o.partial_pm = 0; o.prealloc_pm = 0;
		o.comp_pm = chance(1, 2) ? 0 : 500;
		if (chance(1, 2)) o.bad_pm = 80;
		if (chance(1, 3)) o.toxic_pm = 40;
		Gen g(w, o, draw(UINT64_MAX));
		g.build();
		g.home(1u << 20);
		const unsigned f_px = unsigned(draw(2)) * 60, f_in = unsigned(draw(2)) * 120;
		for (auto &p : w.fs.px) if (g.pm(f_px)) p.second.fail_resolve = true;
		for (auto &s : w.fs.sv) for (auto &n : s.second.in) {
			if (n.second.kind != K_REG || n.second.raw) continue;
			if (g.pm(f_in)) n.second.trouble = uint8_t(1u << g.r.below(4));
			// a name that leads nowhere
			else if (g.pm(f_in / 3)) { for (auto &nm : n.second.names) s.second.in.at(nm.first).entries.erase(nm.second); n.second.trouble = 16; }
		}
		settle(w);
		observe_all(w, w.sh);
		Trouble t;
		t.collect(w);
		PBT_DESC(dump_image(w));
		for (auto &s : w.fs.sv) for (auto &n : s.second.in) if (n.second.trouble) PBT_DESC("trouble " << s.first << "/" << n.first << " " << int(n.second.trouble));
		for (auto b : t.px) PBT_DESC("troubled extent " << hex << b << dec);
		for (auto f : t.files) w.renamed.insert(f);
		Plan p;
		p.args = daemon_args(1);
		p.sched = sched(1);
		PBT_DESC(args_text(p.args));
		p.ctl = [&] {
			if (!wait_quiet(5000, LIMIT)) PBT_FAIL("the daemon never became idle");
			ds::post_signal(SIGTERM);
		};
		ds::on_step_limit = [] { PBT_FAIL("the daemon never became idle"); };
		auto e = daemon_life(w, p);
		expect_running(e);
		if (e.code) PBT_FAIL("the daemon exited with status " << e.code << " after a termination request");
		describe(w, e, "scan");
		check_shadow(w, w.sh, "after a scan");
		settle(w);
		// the whole extent counts: an excluded reference excuses its extent
		Trouble t2 = t;
		map<Tuple, Where> live;
		for (auto &x : live_tuples(w, false)) {
			auto &px = w.fs.px.at(x.first.bytenr);
			if (t.px.count(x.first.bytenr) || t.touches(px) || t.files.count({ x.second.root, x.second.ino })) continue;
			auto i = w.phys_read.lower_bound({ px.serial, 0 });
			if (i == w.phys_read.end() || i->first != px.serial) PBT_FAIL("extent " << x.first.bytenr << " of root " << x.second.root << " inode " << x.second.ino << " offset " << x.second.pos << " was never read, though nothing is wrong with it");
		}
		const unsigned pairs = check_sharing_of(w, [&](uint64_t root, uint64_t ino, const FileExtent &f, const PhysExtent &px) {
			return !t.px.count(f.bytenr) && !t.touches(px) && !t.files.count({ root, ino });
		}, "apart from what is troubled");
		if (w.faults_fired) label("faults fired");
		if (!t.px.empty() && pairs) nontrivial();
		counters(w);
	}
	// Any errors for a while; afterwards new data is handled as ever
	static void transient()
	{
		World w;
		ImgOpts o;
		const bool any = chance(1, 2);
		if (!any) { o.whole_dups = true; o.dup_pm = 600; o.zero_pm = 0; o.partial_pm = 0; o.prealloc_pm = 0; }
		Gen g(w, o, draw(UINT64_MAX));
		g.build();
		g.home(1u << 20);
		settle(w);
		observe_all(w, w.sh);
		draw_faults(w);
		w.cfg.f_tmpopen = chance(1, 3) ? 200 : 0;
		w.cfg.fault_from_s = chance(1, 2) ? 0 : 1;
		fault_rng = Rng(draw(UINT64_MAX));
		PBT_DESC(dump_image(w));
		Plan p;
		const unsigned workers = 1;
		p.args = daemon_args(workers);
		p.sched = sched(workers);
		PBT_DESC(args_text(p.args));
		set<pair<uint64_t, uint64_t>> made;
		uint64_t first_serial = 0;
		p.ctl = [&] {
			ds::sleep(double(W->cfg.fault_until_s) + 1);
			if (!wait_quiet(5000, LIMIT)) PBT_FAIL("the daemon never became idle while calls failed");
			Gen ng(*W, o, draw(UINT64_MAX));
			ng.next_id = g.next_id + 50000000;
			ng.o.whole_dups = true; ng.o.dup_pm = 700; ng.o.zero_pm = 0; ng.o.partial_pm = 0; ng.o.prealloc_pm = 0; ng.o.reflink_pm = 0;
			W->notes.push_back({ 0, to_string(W->fs.next_serial) });
			for (unsigned n = unsigned(2 + draw(4)); n; --n) {
				auto it = W->fs.sv.begin();
				for (uint64_t k = draw(W->fs.sv.size() - 1); k; --k) ++it;
				const uint64_t ino = it->second.next_ino;
				ng.file(it->second, 256);
				W->notes.push_back({ it->first, to_string(ino) });
				W->sh.f[{ it->first, ino }] = observe(W->fs, *W->fs.find(it->first, ino));
			}
			W->fs.flush_all();
			W->dirty = true;
			if (!wait_quiet(5000, LIMIT)) PBT_FAIL("the daemon never became idle");
			ds::post_signal(SIGTERM);
		};
		ds::on_step_limit = [] { PBT_FAIL("the daemon never became idle"); };
		auto e = daemon_life(w, p);
		expect_running(e);
		if (e.code) PBT_FAIL("the daemon exited with status " << e.code << " after a termination request");
		describe(w, e, "scan");
		check_shadow(w, w.sh, "after a scan");
		settle(w);
		PBT_DESC(dump_image(w));
		first_serial = stoull(w.notes.at(0).second);
		for (size_t i = 1; i < w.notes.size(); ++i) made.insert({ w.notes[i].first, stoull(w.notes[i].second) });
		for (auto &m : made) {
			auto n = w.fs.find(m.first, m.second);
			if (!n) PBT_FAIL("file lost");
			for (auto &f : n->fe) {
				if (f.second.type != FE_REG || !f.second.bytenr || f.first >= n->size) continue;
				auto &px = w.fs.px.at(f.second.bytenr);
				auto i = w.phys_read.lower_bound({ px.serial, 0 });
				if (i == w.phys_read.end() || i->first != px.serial) PBT_FAIL("extent " << f.second.bytenr << " of root " << m.first << " inode " << m.second << " offset " << f.first << ", written after all errors had ended, was never read");
			}
		}
		const unsigned pairs = check_sharing_of(w, [&](uint64_t root, uint64_t ino, const FileExtent &, const PhysExtent &px) {
			return made.count({ root, ino }) && px.serial > first_serial;
		}, "written after all errors had ended");
		if (w.faults_fired) label("faults fired");
		if (w.faults_fired && pairs) nontrivial();
		counters(w);
	}
	// One call fails, once: no more than one file, or one extent, is left out
	static void single()
	{
		World w;
		ImgOpts o;
		o.dup_pm = 0; o.whole_dups = true; o.zero_pm = 0; o.prealloc_pm = 0; o.reflink_pm = 0; o.partial_pm = 0;
		if (chance(1, 2)) { o.max_files = 20; o.max_segs = 2; o.max_blocks = 4; }
		const unsigned workers = unsigned(1 + draw(2));
		Gen g(w, o, draw(UINT64_MAX));
		g.build();
		g.home(1u << 20);
		settle(w);
		observe_all(w, w.sh);
		w.cfg.f_nth = 1 + draw(pick(vector<unsigned> { 30, 100, 300, 1000 }));
		w.cfg.fault_from_s = 1;
		fault_rng = Rng(draw(UINT64_MAX));
		PBT_DESC("call " << w.cfg.f_nth << " fails\n" << dump_image(w));
		Plan p;
		p.args = daemon_args(workers);
		p.sched = sched(workers);
		PBT_DESC(args_text(p.args));
		p.ctl = [&] {
			if (!wait_quiet(5000, LIMIT)) PBT_FAIL("the daemon never became idle");
			// another transaction: what was put off is taken up again
			W->dirty = true;
			if (!wait_quiet(5000, LIMIT)) PBT_FAIL("the daemon never became idle");
			ds::post_signal(SIGTERM);
		};
		ds::on_step_limit = [] { PBT_FAIL("the daemon never became idle"); };
		auto e = daemon_life(w, p);
		if (e.returned && e.code && w.faults_fired && w.phys_read.empty()) { label("failed at start"); return; }
		expect_running(e);
		if (e.code) PBT_FAIL("the daemon exited with status " << e.code << " after a termination request");
		describe(w, e, "scan");
		check_shadow(w, w.sh, "after a scan");
		settle(w);
		// extents that were never read, with the files that hold them
		map<uint64_t, set<pair<uint64_t, uint64_t>>> left;
		auto mx = mixed(w);
		for (auto &s : w.fs.sv) for (auto &n : s.second.in) {
			if (!eligible(w, s.second, n.second, false)) continue;
			for (auto &f : n.second.fe) {
				if (f.second.type != FE_REG || !f.second.bytenr || f.first >= n.second.size || mx.count(f.second.bytenr)) continue;
				const auto &px = w.fs.px.at(f.second.bytenr);
				auto i = w.phys_read.lower_bound({ px.serial, 0 });
				if (i == w.phys_read.end() || i->first != px.serial) left[f.second.bytenr].insert({ s.first, n.first });
			}
		}
		if (left.size() > 1) {
			auto common = left.begin()->second;
			for (auto &l : left) for (auto i = common.begin(); i != common.end();) if (l.second.count(*i)) ++i; else i = common.erase(i);
			if (common.empty()) {
				ostringstream t;
				for (auto &l : left) t << " " << hex << l.first << dec << " (" << l.second.begin()->first << "/" << l.second.begin()->second << ")";
				PBT_FAIL("one call failed, and extents of several files were never read:" << t.str());
			}
		}
		label(!w.faults_fired ? "no call failed" : left.empty() ? "nothing left out" : "something left out");
		if (w.faults_fired) nontrivial();
		counters(w);
	}
	// An extent that is slow to resolve is remembered
	static void toxic()
	{
		World w;
		ImgOpts o;
		o.whole_dups = true; o.dup_pm = 300; o.zero_pm = 0; o.partial_pm = 0; o.prealloc_pm = 0; o.comp_pm = 200; o.reflink_pm = 0;
		o.tail_pm = 0; o.max_blocks = 3; o.snap_pm = 0;
		Gen g(w, o, draw(UINT64_MAX));
		g.build();
		g.home(1u << 20);
		const unsigned n_toxic = unsigned(1 + draw(2));
		vector<uint64_t> tx;
		vector<vector<Id>> tx_ids;
		for (unsigned i = 0; i < n_toxic && !w.fs.px.empty(); ++i) {
			auto it = w.fs.px.begin();
			for (uint64_t k = g.r.below(w.fs.px.size()); k; --k) ++it;
			it->second.toxic = true;
			tx.push_back(it->first);
			tx_ids.push_back(it->second.ids);
		}
		settle(w);
		observe_all(w, w.sh);
		if (tx.empty()) return;
		PBT_DESC(dump_image(w));
		const unsigned workers = unsigned(1 + draw(2));
		Plan p;
		p.args = daemon_args(workers);
		set_mode(p.args, unsigned(draw(3)));
		p.sched = sched(workers);
		PBT_DESC(args_text(p.args));
		const unsigned rounds = unsigned(1 + draw(5));
		p.ctl = [&] {
			if (!wait_quiet(5000, LIMIT)) PBT_FAIL("the daemon never became idle");
			for (unsigned i = 0; i < rounds; ++i) {
				// another copy of a toxic extent's content
				auto ids = tx_ids[g.r.below(tx_ids.size())];
				for (unsigned k = unsigned(1 + draw(1)); k; --k) {
					auto &s = W->fs.sv[5];
					auto &n = make_inode(s, K_REG, 256, "copy" + to_string(s.next_ino));
					n.mtime = ++W->fs.clock;
					n.size = ids.size() * BS;
					for (size_t b = 0; b < ids.size(); ++b) n.overlay[b] = ids[b];
					W->fs.flush(s, n);
					W->fs.touch(s, n);
					W->sh.f[{ 5, n.ino }] = observe(W->fs, n);
				}
				W->dirty = true;
				if (!wait_quiet(5000, LIMIT)) PBT_FAIL("the daemon never became idle");
			}
			ds::post_signal(SIGTERM);
		};
		auto e = daemon_life(w, p);
		expect_running(e);
		describe(w, e, "scan");
		check_shadow(w, w.sh, "after a scan");
		settle(w);
		map<uint64_t, uint64_t> n;
		for (auto &t : w.toxic_log) ++n[t.second];
		for (auto &t : n) {
			auto px = w.fs.px.find(t.first);
			if (px == w.fs.px.end()) continue;
			PBT_DESC("toxic " << hex << t.first << dec << " resolved " << t.second << " times");
			// every block may be met for the first time by every worker
			if (t.second > px->second.ids.size() * workers) PBT_FAIL("extent " << t.first << " of " << px->second.ids.size() << " blocks, slow to resolve, was resolved " << t.second << " times");
		}
		if (!n.empty()) nontrivial();
		if (rounds > 2) label("more than two rounds");
		counters(w);
	}
} }
#endif
