// The saved scan state: atomic replacement, round trip, damaged files.
#ifndef VERIF_SIMSTATE_H
#define VERIF_SIMSTATE_H

namespace sim {
	namespace state {
		struct Line { uint64_t root = 0, oid = 0, off = 0, min = 0, max = 0, started = 0; bool intact = true; };
		static vector<string> words(const string &s, char by)
		{
			vector<string> v;
			string cur;
			for (char c : s + by) { if (c == by) { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += c; }
			return v;
		}
		static bool number(const string &s, uint64_t &v)
		{
			if (s.empty() || s.find_first_not_of("0123456789") != string::npos) return false;
			errno = 0;
			v = strtoull(s.c_str(), nullptr, 10);
			return !errno;
		}
		// A complete state: every line has every field
		static bool parse(const string &t, map<uint64_t, Line> &out, string &why)
		{
			out.clear();
			if (t.empty()) { why = "is empty"; return false; }
			if (t.back() != '\n') { why = "ends in the middle of a line"; return false; }
			for (auto &l : words(t, '\n')) {
				auto w = words(l, ' ');
				map<string, string> d;
				for (size_t i = 0; i + 1 < w.size(); i += 2) d[w[i]] = w[i + 1];
				Line x;
				if (w.size() % 2 || !number(d["root"], x.root) || !number(d["objectid"], x.oid) || !number(d["offset"], x.off) || !number(d["min_transid"], x.min) || !number(d["max_transid"], x.max)) { why = "has the line '" + l + "'"; return false; }
				number(d["started"], x.started);
				if (!out.insert({ x.root, x }).second) { why = "names root " + d["root"] + " twice"; return false; }
			}
			return true;
		}
		// C06: at every point of the log the file is absent or complete, and durable before it gets its name
		static void check_log(World &w, bool need_fsync, const set<uint64_t> &kept_roots, const char *when)
		{
			struct F { string data; bool synced = false; };
			map<uint64_t, F> f;
			uint64_t current = 0;
			map<uint64_t, Line> last, now;
			string why;
			map<uint64_t, F> f_c;
			uint64_t current_c = 0;
			map<uint64_t, Line> last_c;
			for (auto &h : w.home_log) {
				switch (h.kind) {
					case 'c':
						f[h.ino] = F();
						if (h.a == "beescrawl.dat") PBT_FAIL(when << ": the state file is created in place");
						break;
					case 'w': {
						auto i = f.find(h.ino);
						if (i == f.end()) break;
						if (h.ino == current) PBT_FAIL(when << ": the state file is modified in place");
						if (i->second.data.size() < h.off + h.a.size()) i->second.data.resize(h.off + h.a.size());
						i->second.data.replace(h.off, h.a.size(), h.a);
						i->second.synced = false;
						break;
					}
					case 't': {
						auto i = f.find(h.ino);
						if (i == f.end()) break;
						if (h.ino == current) PBT_FAIL(when << ": the state file is truncated in place");
						i->second.data.resize(h.off);
						i->second.synced = false;
						break;
					}
					case 'f': { auto i = f.find(h.ino); if (i != f.end()) i->second.synced = true; break; }
					case 'u': if (h.a == "beescrawl.dat") PBT_FAIL(when << ": the state file is removed"); break;
					case 'r': {
						if (h.a == "beescrawl.dat") PBT_FAIL(when << ": the state file is renamed away");
						if (h.b != "beescrawl.dat") break;
						auto i = f.find(h.ino);
						if (i == f.end()) PBT_FAIL(when << ": the new state file has unknown contents");
						if (!parse(i->second.data, now, why)) PBT_FAIL(when << ": the state file put in place " << why << " (" << i->second.data.size() << " bytes)");
						if (need_fsync && !i->second.synced) PBT_FAIL(when << ": the new state file was not synced before it replaced the old one");
						for (auto &l : last) if (kept_roots.count(l.first) && !now.count(l.first)) PBT_FAIL(when << ": the position of root " << l.first << " was dropped from the state file");
						last = now;
						current = h.ino;
						count("state files", 1);
						break;
					}
					// a system crash goes back to the last commit of the filesystem
					case 'C': f_c = f; current_c = current; last_c = last; break;
					case 'X': if (w.home_root != OTHER) { f = f_c; current = current_c; last = last_c; } break;
					default: break;
				}
			}
		}
		static string put(const Line &l, unsigned format)
		{
			ostringstream o;
			const bool old = format & 1;
			o << "root " << l.root << " objectid " << l.oid << " offset " << l.off << (old ? " gen_current " : " min_transid ") << l.min << (old ? " gen_next " : " max_transid ") << l.max;
			if (!(format & 2)) o << " started " << l.started << " start_ts 2026-01-02-03-04-05";
			o << "\n";
			return o.str();
		}
		static void home_put(World &w, const string &name, const string &data)
		{
			auto &s = *svol(w.home_root);
			auto &f = make_inode(s, K_REG, w.home_ino, name);
			f.raw = true;
			f.rawdata = data;
			f.size = data.size();
		}
		// Any drawn state survives loading and saving
		static void roundtrip()
		{
			World w;
			Gen g(w, ImgOpts(), draw(UINT64_MAX));
			empty_fs(w, g);
			vector<uint64_t> ids { 5, 250, 251, 252, 253, 254, 255 };
			for (unsigned i = unsigned(draw(4)); i; --i) {
				if (draw(2) == 0) w.fs.next_subvol = 256 + edgy(1ull << 48);
				ids.push_back(g.subvol(5, 256, "sv" + to_string(i)));
			}
			g.home(131072);
			w.fs.transid = 100;
			w.fs.commit();
			settle(w);
			map<uint64_t, Line> want;
			string text;
			const unsigned n = unsigned(1 + draw(7)), format = chance(1, 3) ? unsigned(draw(3)) : 0;
			for (unsigned i = 0; i < n; ++i) {
				Line l;
				l.root = pick(ids);
				l.oid = edgy(UINT64_MAX); l.off = edgy(UINT64_MAX);
				l.max = 1 + edgy(UINT64_MAX - 2);
				l.min = edgy(l.max);
				l.started = edgy(1ull << 33);
				if (want.insert({ l.root, l }).second) text += put(l, format);
			}
			home_put(w, "beescrawl.dat", text);
			PBT_DESC(text);
			ds::Config c = ds::draw_config(1000);
			c.tick_ns = 1000;
			direct_life(w, c, [&](shared_ptr<BeesContext> ctx) {
				TaskMaster::pause(true);   // nothing is scanned
				auto r = ctx->roots();
				r->set_scan_mode(BeesRoots::ScanMode(draw(4)));
				if (getenv("SIM_TRACE")) fprintf(stderr, "started\n");
				r->start();
				ds::sleep(5);
				r->stop_request();
				r->stop_wait();
			});
			auto f = home_file(w, "beescrawl.dat");
			if (!f) PBT_FAIL("the state file is gone");
			map<uint64_t, Line> got;
			string why;
			if (!parse(f->rawdata, got, why)) PBT_FAIL("the state file " << why);
			PBT_DESC("saved as\n" << f->rawdata);
			for (auto &i : want) {
				auto j = got.find(i.first);
				if (j == got.end()) PBT_FAIL("root " << i.first << " is missing after loading and saving");
				auto &a = i.second, &b = j->second;
				if (tie(a.oid, a.off, a.min, a.max) != tie(b.oid, b.off, b.min, b.max) || (!(format & 2) && a.started != b.started))
					PBT_FAIL("root " << a.root << " changed from " << a.oid << " " << a.off << " " << a.min << " " << a.max << " " << a.started << " to " << b.oid << " " << b.off << " " << b.min << " " << b.max << " " << b.started);
			}
			for (auto &i : got) if (find(ids.begin(), ids.end(), i.first) == ids.end()) PBT_FAIL("the state file names root " << i.first);
			if (n > 1) nontrivial();
			if (format) label("older format");
		}
		enum Damage { D_NONE, D_MISSING, D_EMPTY, D_NULS, D_RANDOM, D_CUT, D_KEY, D_DIGIT, D_FIELD, D_JUNK, D_NULTAIL, D_OLD, D_MAX, D_SHUFFLE, D_COUNT };
		static const char *damage_name(unsigned d) { static const char *n[] = { "none", "missing", "empty", "zeros", "random", "cut", "key", "digit", "field", "junk line", "zero tail", "older format", "maximum", "shuffled" }; return n[d]; }
		// A start with a drawn state file: everything no intact line accounts for is scanned
		static void load()
		{
			World w;
			ImgOpts o;
			o.dup_pm = 0; o.whole_dups = true; o.zero_pm = 0; o.prealloc_pm = 0; o.partial_pm = 0; o.reflink_pm = 0;
			o.max_subvols = 4; o.max_files = unsigned(pick(vector<unsigned> { 3, 8 }));
			Gen g(w, o, draw(UINT64_MAX));
			g.build();
			g.home(1u << 20);
			settle(w);
			observe_all(w, w.sh);
			const unsigned workers = unsigned(1 + draw(2));
			Plan p;
			p.args = daemon_args(workers);
			p.sched = sched(workers);
			const bool ext = g_mode == 4;
			const unsigned dmg = unsigned(draw(D_COUNT - 1));
			vector<Line> lines;
			if (ext) for (uint64_t i = 250; i < 256; ++i) { Line l; l.root = i; lines.push_back(l); }
			else for (auto &s : w.fs.sv) { Line l; l.root = s.first; lines.push_back(l); }
			for (auto &l : lines) {
				l.max = 1 + draw(w.fs.transid - 1);
				l.min = chance(1, 3) ? l.max : draw(l.max);
				if (ext && &l != &lines[0]) { l.max = lines[0].max; l.min = lines[0].min; }
				l.started = 1700000000 + draw(100000);
				if (!ext && l.min < l.max && draw(1)) {
					auto &in = w.fs.sv[l.root].in;
					auto n = in.begin();
					advance(n, draw(in.size() - 1));
					l.oid = n->first;
					if (!n->second.fe.empty() && draw(1)) {
						auto e = n->second.fe.begin();
						advance(e, draw(n->second.fe.size() - 1));
						l.off = e->first;
					}
				}
			}
			if (dmg == D_SHUFFLE) for (size_t i = lines.size(); i > 1; --i) swap(lines[i - 1], lines[draw(i - 1)]);
			const unsigned format = dmg == D_OLD ? unsigned(1 + draw(2)) : 0;
			vector<string> t;
			const size_t k = size_t(draw(lines.size() - 1));
			for (size_t i = 0; i < lines.size(); ++i) {
				if (dmg == D_MAX && i == k) {
					Line x = lines[i];
					if (draw(1)) { x.min = UINT64_MAX; lines[i].min = 0; }
					if (x.min != UINT64_MAX || draw(1)) { x.max = UINT64_MAX; lines[i].max = lines[i].min; }
					t.push_back(put(x, 0));
				} else t.push_back(put(lines[i], format));
			}
			auto lose = [&](size_t from) { for (size_t i = from; i < lines.size(); ++i) lines[i].intact = false; };
			string &s = t[k];
			// the part of the line that matters
			const size_t keylen = s.find(" started");
			auto numeric_at = [&](bool digit) { vector<size_t> v; for (size_t i = 0; i < keylen; ++i) if (bool(isdigit(s[i])) == digit && (digit || isalpha(s[i]))) v.push_back(i); return v[draw(v.size() - 1)]; };
			string text;
			switch (dmg) {
				case D_KEY: { const size_t i = numeric_at(false); s[i] = char(s[i] == 'z' ? 'y' : s[i] + 1); if (draw(1)) s[i] = 0; lines[k].intact = false; break; }
				case D_DIGIT: { const size_t i = numeric_at(true); s[i] = pick(vector<char> { 'x', '-', 0, 'g', '+' }); lines[k].intact = false; break; }
				case D_FIELD: {
					auto wd = words(s.substr(0, s.size() - 1), ' ');
					const size_t f = size_t(draw(4)) * 2;
					s.clear();
					for (size_t i = 0; i < wd.size(); ++i) if (i != f && (i != f + 1)) s += (s.empty() ? "" : " ") + wd[i];
					s += "\n";
					lines[k].intact = false;
					break;
				}
				case D_JUNK: t.insert(t.begin() + long(k), pick(vector<string> { "garbage\n", "root\n", "root 5\n", "# comment here now\n", string(20, 0) + "\n" })); break;
				default: break;
			}
			for (auto &x : t) text += x;
			switch (dmg) {
				case D_EMPTY: text.clear(); lose(0); break;
				case D_MISSING: lose(0); break;
				case D_NULS: text.assign(text.size(), 0); lose(0); break;
				case D_RANDOM: { Rng r(draw(UINT64_MAX)); for (auto &c : text) c = char(r.next()); lose(0); break; }
				case D_CUT: case D_NULTAIL: {
					size_t start = 0;
					for (size_t i = 0; i < k; ++i) start += t[i].size();
					const size_t at = start + 1 + size_t(draw(t[k].size() - 2));   // within line k
					if (dmg == D_CUT) text.resize(at); else for (size_t i = at; i < text.size(); ++i) text[i] = 0;
					lose(k);
					break;
				}
				default: break;
			}
			if (dmg != D_MISSING) home_put(w, "beescrawl.dat", text);
			w.fs.commit();
			PBT_DESC("damage " << damage_name(dmg) << " mode " << g_mode << "\n" << text);
			PBT_DESC(dump_image(w));
			if (chance(1, 4)) { w.cfg.syscall_ns = 100000000; }
			p.ctl = [&] {
				if (!wait_quiet(4500, LIMIT * 10)) PBT_FAIL("the daemon never became idle");
				ds::post_signal(SIGTERM);
			};
			auto e = daemon_life(w, p);
			expect_running(e);
			if (e.code) PBT_FAIL("the daemon exited with status " << e.code);
			check_shadow(w, w.sh, "at the end");
			map<uint64_t, Line> by;
			for (auto &l : lines) by[l.root] = l;
			unsigned required = 0;
			auto must = [&](const Line &l, uint64_t gen, uint64_t oid, uint64_t off) {
				if (!l.intact) return true;
				if (l.min >= l.max) return gen >= l.max;
				return gen >= l.max || (gen >= l.min && make_pair(oid, off) >= make_pair(l.oid, l.off));
			};
			for (auto &sv : w.fs.sv) for (auto &n : sv.second.in) {
				if (!eligible(w, sv.second, n.second, false)) continue;
				for (auto &f : n.second.fe) {
					if (f.second.type != FE_REG || !f.second.bytenr || f.first >= n.second.size) continue;
					auto &px = w.fs.px.at(f.second.bytenr);
					const uint64_t gen = px.gen;
					const Line &l = ext ? by[px.disk > 128 * 1024 ? 254 : 255] : by[sv.first];
					if (!must(l, gen, ext ? 0 : n.first, ext ? 0 : f.first)) continue;
					++required;
					const uint64_t len = min(f.second.len, (n.second.size - f.first + BS - 1) / BS * BS);
					bool any = false;
					for (uint64_t b = 0; b < len / BS; ++b) if (w.phys_read.count({ px.serial, f.second.eoff / BS + b })) any = true;
					if (!any) PBT_FAIL("state file damage '" << damage_name(dmg) << "': extent of root " << sv.first << " inode " << n.first << " offset " << f.first << " generation " << gen << " was never scanned; the line for it was " << (l.intact ? "" : "not ") << "intact (" << l.oid << " " << l.off << " " << l.min << " " << l.max << ")");
				}
			}
			set<uint64_t> kept;
			for (auto &s2 : w.fs.sv) kept.insert(s2.first);
			check_log(w, true, kept, "after the start");
			auto f = home_file(w, "beescrawl.dat");
			map<uint64_t, Line> got;
			string why;
			if (!f) PBT_FAIL("there is no state file after a clean stop");
			if (!parse(f->rawdata, got, why)) PBT_FAIL("after a clean stop the state file " << why);
			for (auto &l : lines) if (!got.count(l.root)) PBT_FAIL("after a clean stop the state file lacks root " << l.root);
			label(damage_name(dmg));
			if (required) nontrivial();
			count("extents that had to be scanned", required);
		}
		// Histories on either kind of home: the state file on disk is whole at every point
		static void atomic()
		{
			History x;
			HistOpts h;
			h.ops = 6; h.lives = 3;
			ImgOpts o;
			o.max_files = 5; o.max_blocks = 8;
			x.setup(h, o);
			const bool foreign = chance(1, 3);
			if (foreign) {
				auto &d = make_inode(x.w.other, K_DIR, 256, "home");
				x.w.home_root = OTHER;
				x.w.home_ino = d.ino;
				x.beeshome = "/other/home";
				if (draw(1)) home_put(x.w, "beeshash.dat", string(1u << 20, 0));
			}
			if (chance(1, 3)) {
				auto f = [] { return chance(1, 2) ? 0u : pick(vector<unsigned> { 10, 100, 500 }); };
				x.w.cfg.f_home = f(); x.w.cfg.f_hwrite = f();
				x.w.cfg.fault_from_s = uint64_t(60 + 1000 * x.syscall_s);   // the daemon needs its home to start
				x.w.cfg.fault_until_s = x.w.cfg.fault_from_s + pick(vector<uint64_t> { 10, 1000, 3000 });
			}
			PBT_DESC("home " << (foreign ? "foreign" : "btrfs") << " faults " << x.w.cfg.f_home << " " << x.w.cfg.f_hwrite);
			const bool fsync = foreign || x.w.cfg.kernel == "6.6.0";
			x.after_life = [&](const char *when) {
				set<uint64_t> kept;
				for (auto &s : x.w.fs.sv) if (!s.second.dead) kept.insert(s.first);
				check_log(x.w, fsync, kept, when);
			};
			x.run();
			hist_labels(x);
			if (foreign) label("foreign home");
			unsigned saves = 0;
			for (auto &i : x.w.home_log) if (i.kind == 'r') ++saves;
			if (saves > 1) nontrivial();
		}
	}
}
#endif
