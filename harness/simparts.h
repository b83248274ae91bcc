// New extents put together from runs of blocks that are already known, zeros and new data:
// which parts must end up shared, which extents must be left as they are (C02, C03).
#ifndef VERIF_SIMPARTS_H
#define VERIF_SIMPARTS_H

namespace sim { namespace parts {
	enum Kind { DUP, ZERO, UNIQUE };
	struct Target {
		uint64_t root = 0, ino = 0, pos = 0, bytenr = 0, serial = 0;
		vector<Id> ids;
		vector<Kind> kind;
		bool comp = false;
		uint64_t dup = 0, zero = 0, uniq = 0, runs = 0;
		bool pays() const { return comp ? dup && uniq < dup + zero : (dup || zero) && uniq < dup + zero; }
		bool loses() const { return comp ? (!dup && uniq) || uniq > dup + zero : uniq > dup + zero; }
		uint64_t disk = 0, cut = 0, gap = 0;
		int copy_of = -1;          // a second reference to another target's extent
		int src = -1;              // stands behind the data of a source file
	};
	static uint64_t phys_at(World &w, uint64_t root, uint64_t ino, uint64_t pos, uint64_t *serial = nullptr)
	{
		uint64_t st = 0;
		auto n = w.fs.find(root, ino);
		auto f = n ? w.fs.extent_at(*n, pos, &st) : nullptr;
		if (!f || f->type != FE_REG || !f->bytenr) return 0;
		auto &p = w.fs.px.at(f->bytenr);
		if (serial) *serial = p.serial;
		return f->bytenr + f->eoff + pos - st;
	}
	static void run(bool small, bool space = false)
	{
		World w;
		ImgOpts o;
		o.max_files = 0; o.snap_pm = 0; o.max_subvols = 3;
		Gen g(w, o, draw(UINT64_MAX));
		g.build();
		g.home(1u << 20);
		Fs &fs = w.fs;
		vector<uint64_t> roots;
		for (auto &s : fs.sv) roots.push_back(s.first);
		// sources: unique data, no zeros
		struct Src { uint64_t root, ino; vector<Id> ids; uint64_t cut; bool pair = false; };
		vector<Src> src;
		const unsigned nsrc = unsigned(1 + draw(2));
		for (unsigned i = 0; i < nsrc; ++i) {
			Src s { pick(roots), 0, {}, 0, false };
			auto &sv = fs.sv.at(s.root);
			auto &f = make_inode(sv, K_REG, 256, "src" + to_string(i));
			f.mtime = ++fs.clock;
			s.ino = f.ino;
			const unsigned ne = unsigned(1 + draw(3));
			uint64_t pos = 0;
			for (unsigned k = 0; k < ne; ++k) {
				const uint64_t n = small ? 1 + draw(11) : 1 + draw(40);
				const uint8_t comp = chance(1, 4) && n <= 32 ? uint8_t(1 + draw(2)) : 0;
				vector<Id> ids;
				while (ids.size() < n) ids.push_back(g.fresh());
				const bool last = k + 1 == ne;
				if (last && chance(1, 4)) {
					s.cut = 1 + draw(BS - 2);
					ids.back() = fs.content.truncated(ids.back(), s.cut);
				}
				const uint64_t b = fs.new_extent(ids, comp, comp ? g.comp_disk(n) : n * BS);
				fs.map_extent(sv, f, pos, n * BS, b, 0);
				pos += n * BS;
				s.ids.insert(s.ids.end(), ids.begin(), ids.end());
			}
			f.size = s.cut ? pos - BS + s.cut : pos;
			src.push_back(s);
		}
		// Two extents with a few blocks in common, which neither is rewritten for: the table
		// knows two places of the same content, and one of them goes away later
		struct Gone { uint64_t root, ino; };
		vector<Gone> gone;
		uint64_t filler = 0;
		if (chance(1, 2)) {
			const uint64_t n = 5 + draw(15), m = 1 + draw((n - 1) / 2 - 1);
			vector<Id> common;
			while (common.size() < m) common.push_back(g.fresh());
			const bool first = chance(1, 2);
			for (unsigned i = 0; i < 2; ++i) {
				const uint64_t root = pick(roots);
				auto &sv = fs.sv.at(root);
				auto &f = make_inode(sv, K_REG, 256, "pair" + to_string(i));
				f.mtime = ++fs.clock;
				vector<Id> ids = common;
				const uint64_t at = draw(n - m);
				for (uint64_t k = 0; k < n - m; ++k) ids.insert(k < at ? ids.begin() + long(k) : ids.end(), g.fresh());
				const uint64_t b = fs.new_extent(ids, 0, n * BS);
				fs.map_extent(sv, f, 0, n * BS, b, 0);
				f.size = n * BS;
				if (first == (i == 0) && chance(2, 3)) {
					gone.push_back({ root, f.ino });
				}
				else {
					src.push_back({ root, f.ino, common, 0, true });
				}
				fs.commit();
			}
			fs.reuse = false;
			filler = !gone.empty() && chance(1, 2) ? n : 0;
			if (!gone.empty()) label("a known place goes away");
		}
		fs.commit();
		settle(w);
		observe_all(w, w.sh);

		vector<Target> targets;
		unsigned twins = 0;
		set<Id> made;
		auto plan_targets = [&] {
			const unsigned nt = unsigned(1 + draw(3));
			for (unsigned i = 0; i < nt; ++i) {
				Target t;
				t.comp = !space && chance(1, 5);
				const uint64_t limit = t.comp ? 32 : small ? 40 : 300;
				uint64_t cut = 0;
				const unsigned nseg = unsigned(1 + draw(small ? 7 : 40));
				int prev = -1;
				for (unsigned k = 0; k < nseg && t.ids.size() < limit; ++k) {
					const uint64_t room = limit - t.ids.size();
					const auto kd = Kind(weighted({ 4, 2, 3 }));
					if (kd == DUP) {
						const auto &s = pick(src);
						const uint64_t usable = s.ids.size() - (s.cut ? 1 : 0);
						if (!usable) continue;
						const uint64_t at = draw(usable - 1), n = min(room, 1 + draw(min<uint64_t>(usable - at, 24) - 1));
						for (uint64_t j = 0; j < n; ++j) { t.ids.push_back(s.ids[at + j]); t.kind.push_back(DUP); }
						if (k + 1 == nseg && s.cut && at + n == usable && t.ids.size() < limit && chance(1, 2)) {
							t.ids.push_back(s.ids.back()); t.kind.push_back(DUP);
							cut = s.cut;
						}
						++t.runs;
						if (at + n == usable && prev == DUP) label("runs meet");
					} else {
						const uint64_t n = min(room, 1 + draw(kd == ZERO ? 6 : 9));
						for (uint64_t j = 0; j < n; ++j) {
							if (kd == ZERO) t.ids.push_back(0);
							else if (chance(1, 20)) {
								const auto &s = pick(src);
								const Id id = twin(fs.content, s.ids[draw(s.ids.size() - 1)], uint8_t(1 + draw(254)));
								if (made.insert(id).second) { t.ids.push_back(id); ++twins; }
								else t.ids.push_back(g.fresh());
							} else t.ids.push_back(g.fresh());
							t.kind.push_back(kd);
						}
						++t.runs;
					}
					prev = kd;
				}
				if (t.ids.empty()) continue;
				if (!cut && t.kind.back() == UNIQUE && chance(1, 4)) {
					cut = 1 + draw(BS - 2);
					t.ids.back() = fs.content.truncated(t.ids.back(), cut);
				}
				for (auto k : t.kind) { if (k == DUP) ++t.dup; else if (k == ZERO) ++t.zero; else ++t.uniq; }
				t.cut = cut;
				t.disk = t.comp ? g.comp_disk(t.ids.size()) : t.ids.size() * BS;
				t.root = pick(roots);
				if (chance(1, 3)) {
					for (size_t k = 0; k < src.size(); ++k) if (src[k].root == t.root && !src[k].cut) t.src = int(k);
				}
				if (t.src < 0 || chance(1, 3)) t.gap = draw(5);
				targets.push_back(t);
				if (chance(1, 5)) {
					Target t2 = t;
					t2.copy_of = int(targets.size()) - 1;
					t2.src = -1;
					t2.root = pick(roots);
					t2.gap = draw(5);
					targets.push_back(t2);
					label("two references");
				}
				if (describing()) {
					string s;
					for (auto k : t.kind) s += k == DUP ? '=' : k == ZERO ? '0' : '+';
					PBT_DESC("target " << targets.size() - 1 << " in root " << t.root << (t.comp ? " compressed " : " ") << s << (cut ? " (cut)" : ""));
				}
			}
		};
		plan_targets();
		// Runs in the daemon's process; what it did comes back in notes
		auto add_targets = [&] {
			fs.reuse = filler;
			for (auto &d : gone) {
				auto &sv = fs.sv.at(d.root);
				auto &f = *fs.find(d.root, d.ino);
				fs.punch(sv, f, 0, f.size);
				f.size = 0;
				f.mtime = ++fs.clock;
				fs.touch(sv, f);
				w.sh.f[{ d.root, d.ino }] = observe(fs, f);
				w.last_write[{ d.root, d.ino }] = ds::active() ? ds::now_ns() + 1 : 1;
			}
			if (!gone.empty()) { fs.commit(); fs.commit(); }
			if (filler) {
				// other data in the place of the lost
				vector<Id> ids;
				while (ids.size() < filler) ids.push_back(g.fresh());
				auto &sv = fs.sv.at(5);
				auto &f = make_inode(sv, K_REG, 256, "filler");
				f.mtime = ++fs.clock;
				const uint64_t b = fs.new_extent(ids, 0, filler * BS);
				fs.reuse = false;
				fs.map_extent(sv, f, 0, filler * BS, b, 0);
				f.size = filler * BS;
				fs.touch(sv, f);
				w.sh.f[{ 5, f.ino }] = observe(fs, f);
				w.last_write[{ 5, f.ino }] = ds::active() ? ds::now_ns() + 1 : 1;
			}
			vector<uint64_t> bytenr;
			for (size_t i = 0; i < targets.size(); ++i) {
				Target t = targets[i];
				auto &sv = fs.sv.at(t.root);
				Inode *f = t.src >= 0 ? fs.find(t.root, src[size_t(t.src)].ino) : nullptr;
				if (f && f->size % BS) f = nullptr;
				if (!f) f = &make_inode(sv, K_REG, 256, "target" + to_string(i));
				f->mtime = ++fs.clock;
				t.pos = f->size + t.gap * BS;
				const uint64_t n = t.ids.size();
				t.bytenr = t.copy_of >= 0 ? bytenr[size_t(t.copy_of)] : fs.new_extent(t.ids, t.comp ? 1 : 0, t.disk);
				bytenr.push_back(t.bytenr);
				fs.map_extent(sv, *f, t.pos, n * BS, t.bytenr, 0);
				f->size = t.pos + (n - 1) * BS + (t.cut ? t.cut : BS);
				fs.touch(sv, *f);
				w.sh.f[{ t.root, f->ino }] = observe(fs, *f);
				w.last_write[{ t.root, f->ino }] = ds::active() ? ds::now_ns() + 1 : 1;
				ostringstream o;
				o << "target " << i << " " << f->ino << " " << t.pos << " " << t.bytenr << " " << fs.px.at(t.bytenr).serial;
				w.notes.push_back({ 0, o.str() });
			}
			fs.commit();
			fs.commit();
			++w.user_writes;
			w.dirty = true;
		};
		Plan p;
		p.args = daemon_args(1);
		const bool restart = chance(1, 3);
		p.sched = sched(1);
		auto remember = [&] {
			ostringstream o;
			o << "added " << fs.next_serial << " " << fs.allocated();
			w.notes.push_back({ 0, o.str() });
		};
		PBT_DESC(dump_image(w));
		vector<string> args = p.args;
		p.ctl = [&] {
			if (!wait_quiet(QUIET, LIMIT)) PBT_FAIL("the daemon never became idle");
			if (!restart) {
				add_targets();
				remember();
				if (!wait_quiet(QUIET, LIMIT)) PBT_FAIL("the daemon never became idle");
			}
			ds::post_signal(SIGTERM);
		};
		auto e = daemon_life(w, p);
		expect_running(e);
		if (restart) {
			label("restarted");
			settle(w);
			add_targets();
			remember();
			settle(w);
			Plan q;
			q.args = args;
			q.sched = sched(1);
			q.ctl = [&] {
				if (!wait_quiet(QUIET, LIMIT)) PBT_FAIL("the daemon never became idle");
				ds::post_signal(SIGTERM);
			};
			e = daemon_life(w, q);
			expect_running(e);
		}
		describe(w, e, "parts");
		check_shadow(w, w.sh, "after a scan");
		settle(w);
		PBT_DESC(dump_image(w));
		uint64_t before = 0, serials = 0;
		unsigned back = 0;
		for (auto &i : w.notes) {
			istringstream in(i.second);
			string k;
			in >> k;
			if (k == "added") in >> serials >> before;
			else if (k == "target") {
				size_t t = 0;
				in >> t;
				in >> targets.at(t).ino >> targets[t].pos >> targets[t].bytenr >> targets[t].serial;
				++back;
			}
		}
		if (back != targets.size()) PBT_FAIL("harness: " << back << " targets of " << targets.size());
		auto original = [&](uint64_t serial) { return serial <= serials; };
		// what stands in a rewritten extent's place
		unsigned n_pay = 0, n_lose = 0;
		for (auto &t : targets) {
			const string who = "extent of " + to_string(t.ids.size()) + " blocks (" + to_string(t.dup) + " duplicate, " + to_string(t.zero) + " zero, " + to_string(t.uniq) + " other" + (t.comp ? ", compressed" : "") + ") at root " + to_string(t.root) + " inode " + to_string(t.ino) + " offset " + to_string(t.pos);
			if (t.pays() && t.runs <= 50) {
				++n_pay;
				for (size_t k = 0; k < t.ids.size(); ++k) {
					uint64_t serial = 0;
					const uint64_t now = phys_at(w, t.root, t.ino, t.pos + k * BS, &serial);
					if (t.kind[k] == DUP) {
						if (serial == t.serial || !original(serial)) PBT_FAIL(who << ": block " << k << " is still stored a second time");
					} else if (t.kind[k] == ZERO) {
						// it may share the zeros of a compressed extent
						bool z = false;
						for (auto &x : w.fs.px) if (x.second.serial == serial && x.second.comp) z = true;
						if (now && !t.comp && (!z || serial == t.serial || !original(serial))) PBT_FAIL(who << ": zero block " << k << " is still stored");
					} else if (serial == t.serial) PBT_FAIL(who << ": block " << k << " keeps the old extent allocated");
				}
			} else if (t.loses()) {
				++n_lose;
				for (size_t k = 0; k < t.ids.size(); ++k) {
					uint64_t serial = 0;
					phys_at(w, t.root, t.ino, t.pos + k * BS, &serial);
					// zeros of a compressed extent can stand in for others, which then become holes
					if (t.comp && t.kind[k] == ZERO) continue;
					if (serial != t.serial) PBT_FAIL(who << ": block " << k << " was rewritten though it does not pay off");
				}
			}
		}
		if (space) {
			const uint64_t after = fs.allocated();
			if (after > before) PBT_FAIL("allocated space grew from " << before << " to " << after);
		}
		if (n_pay) label("pays off");
		if (n_lose) label("does not pay off");
		if (twins) label("same hash, other content");
		count("extents that pay off", n_pay);
		count("extents that do not", n_lose);
		if (n_pay && n_lose) nontrivial();
		counters(w);
	}
} }
#endif
