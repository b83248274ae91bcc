// C19: opening files by subvolume and inode number while everything moves.
#ifndef VERIF_SIMOPEN_H
#define VERIF_SIMOPEN_H

namespace sim { namespace byino {
	// Changes to the name space, each one something a user or an administrator can do
	struct Mover {
		World &w;
		Gen &g;
		Rng r;
		map<string, uint64_t> done;
		vector<uint64_t> dead;
		struct Hidden { uint64_t root, dir; string name; pair<uint8_t, uint64_t> was; };
		vector<Hidden> mounts;
		unsigned serial = 0;
		Mover(World &x, Gen &y, uint64_t seed) : w(x), g(y), r(seed) {}
		struct Ent { uint64_t root, dir; string name; pair<uint8_t, uint64_t> to; };
		bool hidden(uint64_t root, uint64_t dir, const string &n) const { for (auto &m : mounts) if (m.root == root && m.dir == dir && m.name == n) return true; return false; }
		vector<Ent> entries(bool subvols)
		{
			vector<Ent> v;
			for (auto &s : w.fs.sv) {
				if (s.second.dead) continue;
				for (auto &n : s.second.in) {
					if (n.second.kind != K_DIR || (n.second.names.empty() && n.first != 256)) continue;
					for (auto &e : n.second.entries) {
						if (e.second.first >= 2 || (e.second.first == 1 && !subvols) || hidden(s.first, n.first, e.first)) continue;
						if (s.first == w.home_root && e.second.second == w.home_ino && !e.second.first) continue;
						v.push_back({ s.first, n.first, e.first, e.second });
					}
				}
			}
			return v;
		}
		// is (root, dir) at or below inode 'top' of the same subvolume
		bool below(uint64_t root, uint64_t dir, uint64_t top)
		{
			for (int i = 0; i < 50; ++i) {
				if (dir == top) return true;
				if (dir == 256) return false;
				auto n = inode(root, dir);
				if (!n || n->names.empty()) return true;
				dir = n->names[0].first;
			}
			return true;
		}
		string fresh() { return "m" + to_string(++serial); }
		uint64_t some_dir(uint64_t root)
		{
			vector<uint64_t> v;
			for (auto &n : w.fs.sv.at(root).in) if (n.second.kind == K_DIR && (n.first == 256 || !n.second.names.empty()) && !(root == w.home_root && n.first == w.home_ino)) v.push_back(n.first);
			return v[r.below(v.size())];
		}
		void rename(const Ent &e, uint64_t dir, const string &name)
		{
			auto &s = w.fs.sv.at(e.root);
			s.in.at(e.dir).entries.erase(e.name);
			s.in.at(dir).entries[name] = e.to;
			if (e.to.first == 1) {
				auto &v = w.fs.sv.at(e.to.second);
				v.parent = e.root; v.dirid = dir; v.name = name;
			} else {
				for (auto &n : s.in.at(e.to.second).names) if (n == make_pair(e.dir, e.name)) { n = { dir, name }; break; }
			}
		}
		const Inode *target(const Ent &e) { return e.to.first ? nullptr : inode(e.root, e.to.second); }
		string path(const Ent &e)
		{
			string p;
			auto d = w.fs.paths(w.fs.sv.at(e.root), e.dir);
			if (!d.empty() && !d[0].empty()) p = d[0] + "/";
			return p + e.name;
		}
		string step()
		{
			++w.fs.mods;
			w.dirty = true;
			auto all = entries(true);
			const unsigned k = unsigned(r.below(15));
			if (k == 12) {
				// dead subvolumes that nobody holds go away
				for (auto i = w.fs.sv.begin(); i != w.fs.sv.end(); ) {
					bool busy = !i->second.dead;
					for (auto &f : w.fs.fds) if (f.second.root == i->first) busy = true;
					if (busy) ++i; else i = w.fs.sv.erase(i);
				}
				w.fs.commit();
				return "commit";
			}
			if (k == 11 && !mounts.empty()) {
				auto m = mounts[r.below(mounts.size())];
				mounts.erase(find_if(mounts.begin(), mounts.end(), [&](const Hidden &h) { return h.root == m.root && h.dir == m.dir && h.name == m.name; }));
				auto n = inode(m.root, m.dir);
				if (n) n->entries[m.name] = m.was;
				return "unmount";
			}
			if (all.empty()) return "";
			const Ent e = all[r.below(all.size())];
			auto t = target(e);
			auto &s = w.fs.sv.at(e.root);
			switch (k) {
				case 0: case 1: {
					const uint64_t d = some_dir(e.root);
					if (t && t->kind == K_DIR && below(e.root, d, t->ino)) return "";
					rename(e, d, fresh());
					return "rename";
				}
				case 2: {
					// exchange two names
					vector<Ent> v;
					for (auto &x : all) if (x.root == e.root && !(x.dir == e.dir && x.name == e.name)) v.push_back(x);
					if (v.empty()) return "";
					const Ent o = v[r.below(v.size())];
					if (t && t->kind == K_DIR && below(o.root, o.dir, t->ino)) return "";
					auto t2 = target(o);
					if (t2 && t2->kind == K_DIR && below(e.root, e.dir, t2->ino)) return "";
					rename(e, 256, "tmp-exchange");
					rename(o, e.dir, e.name);
					Ent e2 = e;
					e2.dir = 256; e2.name = "tmp-exchange";
					rename(e2, o.dir, o.name);
					return "exchange";
				}
				case 3: {
					// something else takes the name
					rename(e, some_dir_for(e, t), fresh());
					const unsigned kind = unsigned(r.below(4));
					auto &n = make_inode(s, kind == 0 ? K_FIFO : kind == 1 ? K_DIR : kind == 2 ? K_REG : K_LNK, e.dir, e.name);
					if (kind == 3) {
						const Ent x = all[r.below(all.size())];
						n.target = r.below(3) == 0 ? "/other/" + path(x) : r.below(2) ? "/sim/" + path(x) : path(x);
					}
					return kind == 3 ? "symlink" : "replace";
				}
				case 4: {
					// a link to where it is now
					const string to = fresh();
					const uint64_t d = some_dir_for(e, t);
					rename(e, d, to);
					auto &n = make_inode(s, K_LNK, e.dir, e.name);
					Ent x = e;
					x.dir = d; x.name = to;
					n.target = w.fs.sv.at(e.root).id == 5 ? "/sim/" + path(x) : "/other/" + path(e);
					return "symlink to itself";
				}
				case 5: case 6: {
					// the other filesystem is mounted there, possibly with files of the same numbers
					uint64_t ino = 256;
					if (t && t->kind != K_LNK && w.other.in.count(t->ino) && (w.other.in.at(t->ino).kind == K_DIR) == (t->kind == K_DIR)) ino = t->ino;
					else if (t && t->kind != K_DIR) return "";
					mounts.push_back({ e.root, e.dir, e.name, e.to });
					s.in.at(e.dir).entries[e.name] = { 2, ino };
					return "mount";
				}
				case 13: case 14: {
					// a place of this filesystem is mounted there, often one with the same number or subvolume
					if (e.to.first == 0 && (!t || t->kind == K_LNK || t->kind == K_FIFO)) return "";
					const bool dir = e.to.first == 1 || t->kind == K_DIR;
					vector<pair<uint64_t, uint64_t>> any, near;
					for (auto &x : w.fs.sv) {
						if (x.second.dead) continue;
						for (auto &n : x.second.in) {
							if ((n.second.kind == K_DIR) != dir || (!dir && n.second.kind != K_REG) || n.second.tmp || n.second.raw || (n.second.names.empty() && n.first != 256)) continue;
							if (e.to.first == 1 ? x.first == e.to.second && n.first != 256 : dir ? x.first == e.root && n.first != 256 && n.first != t->ino : n.first == t->ino && x.first != e.root) near.push_back({ x.first, n.first });
							any.push_back({ x.first, n.first });
						}
					}
					auto &from = !near.empty() && r.below(3) ? near : any;
					if (from.empty()) return "";
					auto x = from[r.below(from.size())];
					mounts.push_back({ e.root, e.dir, e.name, e.to });
					s.in.at(e.dir).entries[e.name] = { 3, x.first << 40 | x.second };
					return "bind mount";
				}
				case 7: {
					// a snapshot of the subvolume takes the place of a directory; the file keeps its number
					if (e.root == 5 || !t || t->kind != K_DIR || w.fs.sv.size() > 8) return "";
					vector<pair<string, uint64_t>> in;
					for (auto &x : t->entries) if (!x.second.first) in.push_back({ x.first, x.second.second });
					rename(e, some_dir_for(e, t), fresh());
					const uint64_t id = g.snapshot(e.root, e.root, e.dir, e.name, false);
					auto &sn = w.fs.sv.at(id);
					for (auto &x : in) {
						auto n = sn.in.find(x.second);
						if (n == sn.in.end() || n->second.kind == K_DIR) continue;
						n->second.names.push_back({ 256, x.first });
						sn.in.at(256).entries[x.first] = { 0, x.second };
					}
					return "snapshot in place of a directory";
				}
				case 8: {
					if (!t || t->kind == K_DIR) return "";
					const uint64_t ino = t->ino;
					auto &n = s.in.at(ino);
					if (r.below(2)) {
						const string l = fresh();
						const uint64_t d = some_dir(e.root);
						n.names.push_back({ d, l });
						s.in.at(d).entries[l] = { 0, ino };
						return "link";
					}
					n.names.erase(find(n.names.begin(), n.names.end(), make_pair(e.dir, e.name)));
					s.in.at(e.dir).entries.erase(e.name);
					maybe_reap(e.root, ino);
					return "unlink";
				}
				case 9: {
					if (e.to.first != 1 || e.to.second == w.home_root) return "";
					for (auto &x : w.fs.sv) if (x.second.parent == e.to.second && !x.second.dead) return "";
					s.in.at(e.dir).entries.erase(e.name);
					w.fs.sv.at(e.to.second).dead = true;
					if (r.below(2)) {
						auto &n = make_inode(s, r.below(2) ? K_DIR : K_LNK, e.dir, e.name);
						n.target = "/other";
					}
					return "delete subvolume";
				}
				default: {
					// two subvolumes change places
					vector<Ent> v;
					for (auto &x : all) if (x.to.first == 1) v.push_back(x);
					if (v.size() < 2) return "";
					const Ent a = v[r.below(v.size())], b = v[r.below(v.size())];
					if (a.root != b.root || a.to.second == b.to.second) return "";
					rename(a, 256, "tmp-exchange");
					rename(b, a.dir, a.name);
					Ent a2 = a;
					a2.dir = 256; a2.name = "tmp-exchange";
					rename(a2, b.dir, b.name);
					return "exchange subvolumes";
				}
			}
		}
		uint64_t some_dir_for(const Ent &e, const Inode *t)
		{
			const uint64_t d = some_dir(e.root);
			return t && t->kind == K_DIR && below(e.root, d, t->ino) ? e.dir : d;
		}
	};

	static void check_fd(int fd, uint64_t root, uint64_t ino)
	{
		auto f = W->fs.fds.find(fd);
		if (f == W->fs.fds.end()) PBT_FAIL("root " << root << " inode " << ino << ": the descriptor is not open");
		auto &o = f->second;
		if (o.root != root || o.ino != ino) {
			if (o.root == OTHER) PBT_FAIL("root " << root << " inode " << ino << ": opened inode " << o.ino << " of another filesystem");
			PBT_FAIL("root " << root << " inode " << ino << ": opened root " << o.root << " inode " << o.ino << " (" << o.path << ")");
		}
	}
	static void race()
	{
		World w;
		ImgOpts o;
		o.hardlink_pm = 400; o.special_pm = 150; o.snap_pm = 500; o.max_segs = 1; o.max_blocks = 3; o.nodatasum_pm = 60;
		Gen g(w, o, draw(UINT64_MAX));
		g.build();
		// deeper directories
		for (auto &s : w.fs.sv) {
			vector<uint64_t> dirs;
			for (auto &n : s.second.in) if (n.second.kind == K_DIR) dirs.push_back(n.first);
			for (unsigned i = unsigned(draw(2)); i; --i) {
				auto &d = make_inode(s.second, K_DIR, dirs[draw(dirs.size() - 1)], "deep" + to_string(s.second.next_ino));
				dirs.push_back(d.ino);
				for (unsigned j = unsigned(draw(2)); j; --j) g.file(s.second, d.ino);
			}
		}
		g.home(0);
		settle(w);
		// the other filesystem holds a copy of one of the subvolumes
		vector<uint64_t> roots;
		for (auto &s : w.fs.sv) roots.push_back(s.first);
		const uint64_t mirror = roots[draw(roots.size() - 1)];
		w.other.in = w.fs.sv[mirror].in;
		for (auto &n : w.other.in) {
			n.second.fe.clear();
			for (auto e = n.second.entries.begin(); e != n.second.entries.end(); ) if (e->second.first) e = n.second.entries.erase(e); else ++e;
		}
		if (chance(2, 3)) w.cfg.other_btrfs = chance(3, 4) ? mirror : roots[draw(roots.size() - 1)];
		w.cfg.openat2_ok = chance(1, 3);
		if (chance(1, 4)) w.cfg.f_open = 100;
		if (chance(1, 6)) w.cfg.f_search = 50;
		fault_rng = Rng(draw(UINT64_MAX));
		const unsigned nt = unsigned(range(1, 3));
		struct Op { unsigned kind; uint64_t root, ino; double wait; };
		vector<pair<uint64_t, uint64_t>> files;
		for (auto &s : w.fs.sv) for (auto &n : s.second.in) if ((n.second.kind == K_REG || n.second.kind == K_LNK) && !n.second.raw) files.push_back({ s.first, n.first });
		if (files.empty()) return;
		vector<vector<Op>> prog(nt);
		for (auto &p : prog) for (unsigned i = unsigned(range(1, 15)); i; --i) {
			auto f = files[draw(files.size() - 1)];
			Op x { 0, f.first, f.second, chance(1, 3) ? pick(vector<double> { 0.001, 0.1, 40 }) : 0 };
			switch (draw(9)) {
				case 0: x.kind = 1; break;                                  // forget cached descriptors
				case 1: x.kind = 2; break;                                  // open the subvolume
				case 2: x.root = roots[draw(roots.size() - 1)]; break;      // a number from elsewhere
				case 3: if (chance(1, 3)) x.ino = 257 + draw(2000); break;
				case 4: if (chance(1, 3)) x.kind = 3; break;                // a temporary file
				default: break;
			}
			p.push_back(x);
		}
		const unsigned rate = pick(vector<unsigned> { 0, 30, 100, 300, 1000 }), budget = unsigned(range(1, 40));
		Mover m(w, g, draw(UINT64_MAX));
		const auto sc = ds::draw_config(3000);
		PBT_DESC("mirror " << mirror << " other " << w.cfg.other_btrfs << " openat2 " << w.cfg.openat2_ok << " changes " << rate << "/1000 up to " << budget << "\n" << dump_image(w));
		uint64_t &opened = w.tmp_blocks_written;   // carried back to the parent
		direct_life(w, sc, [&](shared_ptr<BeesContext> ctx) {
			unsigned left = budget;
			on_enter = [&](const char *call) {
				if (!left || m.r.below(1000) >= rate) return;
				--left;
				const string s = m.step();
				if (s.empty()) return;
				++W->calls["change: " + s];
				PBT_DESC("  before " << call << ": " << s);
			};
			auto roots = ctx->roots();
			vector<thread> th;
			for (auto &p : prog) th.emplace_back([&] {
				for (auto &x : p) {
					if (x.wait > 0) ds::sleep(x.wait);
					try {
						if (x.kind == 1) { ctx->fd_cache()->clear(); continue; }
						if (x.kind == 2) {
							crucible::Fd fd = roots->open_root(x.root);
							if (!!fd) { check_fd(fd, x.root, 256); ++opened; }
							continue;
						}
						if (x.kind == 3) {
							BeesTempFile t(ctx);
							auto h = t.make_hole(off_t(BS));
							const BeesFileId fid(h.fd());
							crucible::Fd fd = roots->open_root_ino(fid.root(), fid.ino());
							if (!!fd) { check_fd(fd, fid.root(), fid.ino()); ++opened; }
							continue;
						}
						crucible::Fd fd = roots->open_root_ino(x.root, x.ino);
						PBT_DESC("  open " << x.root << "/" << x.ino << (!fd ? " none" : " ok"));
						if (!fd) continue;
						check_fd(fd, x.root, x.ino);
						auto n = inode(x.root, x.ino);
						// only the daemon's own choice of numbers keeps directories and the like out
						if (n && n->kind == K_LNK) PBT_FAIL("root " << x.root << " inode " << x.ino << " is a symbolic link");
						++opened;
					} catch (const exception &e) {
						PBT_DESC("  " << x.root << "/" << x.ino << ": " << e.what());
					}
				}
			});
			for (auto &t : th) t.join();
			on_enter = nullptr;
		});
		uint64_t changes = 0;
		for (auto &c : w.calls) if (!c.first.compare(0, 8, "change: ")) { label(c.first.c_str()); changes += c.second; }
		count("opened", w.tmp_blocks_written);
		count("changes", changes);
		if (w.tmp_blocks_written && changes) nontrivial();
	}
} }
#endif
