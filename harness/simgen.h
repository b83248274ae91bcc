// Images, users and their expectations for the simulated filesystem.
#ifndef VERIF_SIMGEN_H
#define VERIF_SIMGEN_H

namespace sim {
	// ---------------------------------------------------------------- what users know
	static UserFile observe(Fs &fs, const Inode &n)
	{
		UserFile u;
		u.size = n.size; u.mtime = n.mtime; u.flags = n.flags;
		for (uint64_t b = 0; b < (n.size + BS - 1) / BS; ++b) {
			Id i = fs.block(n, b);
			if (n.size - b * BS < BS) i = fs.content.truncated(i, n.size - b * BS);
			u.ids.push_back(i);
		}
		return u;
	}
	static void observe_all(World &w, Shadow &sh)
	{
		sh.f.clear();
		for (auto &s : w.fs.sv) {
			if (s.second.dead) continue;
			for (auto &n : s.second.in) {
				if (n.second.kind != K_REG || n.second.tmp || n.second.raw) continue;
				sh.f[{ s.first, n.first }] = observe(w.fs, n.second);
			}
		}
	}
	// C01: everything users can see is what they made it
	static void check_shadow(World &w, const Shadow &sh, const char *when)
	{
		for (auto &s : w.fs.sv) {
			if (s.second.dead) continue;
			for (auto &n : s.second.in) {
				if (n.second.kind != K_REG || n.second.tmp || n.second.raw) continue;
				auto u = sh.f.find({ s.first, n.first });
				if (u == sh.f.end()) PBT_FAIL(when << ": a file appeared that no user made: root " << s.first << " inode " << n.first);
			}
		}
		for (auto &u : sh.f) {
			auto n = w.fs.find(u.first.first, u.first.second);
			if (!n) PBT_FAIL(when << ": user file lost: root " << u.first.first << " inode " << u.first.second);
			const UserFile o = observe(w.fs, *n);
			if (o.size != u.second.size) PBT_FAIL(when << ": size of root " << u.first.first << " inode " << u.first.second << " changed from " << u.second.size << " to " << o.size);
			if (o.mtime != u.second.mtime || o.flags != u.second.flags) PBT_FAIL(when << ": attributes of root " << u.first.first << " inode " << u.first.second << " changed");
			for (size_t i = 0; i < o.ids.size(); ++i) {
				if (o.ids[i] != u.second.ids[i]) PBT_FAIL(when << ": content of root " << u.first.first << " inode " << u.first.second << " block " << i << " changed");
			}
		}
	}

	// ---------------------------------------------------------------- twins: same CRC-64, different content
	static uint64_t crc64_0(const uint8_t *p, size_t n)
	{
		// linear part of the reflected CRC-64 with the polynomial the daemon documents (jones)
		static uint64_t tab[256];
		if (!tab[1]) {
			for (int i = 0; i < 256; ++i) {
				uint64_t c = uint64_t(i);
				for (int k = 0; k < 8; ++k) c = c & 1 ? (c >> 1) ^ 0xd800000000000000ull : c >> 1;
				tab[i] = c;
			}
		}
		uint64_t c = 0;
		for (size_t i = 0; i < n; ++i) c = tab[uint8_t(c) ^ p[i]] ^ (c >> 8);
		return c;
	}
	static Id twin(Content &c, Id id, uint8_t salt)
	{
		uint8_t b[BS], d[9] = { uint8_t(salt | 1) };
		const uint64_t s = crc64_0(d, 1);
		memcpy(d + 1, &s, 8);   // feeding the register to itself leaves zero
		c.bytes(id, b);
		for (int i = 0; i < 9; ++i) b[1000 + i] ^= d[i];
		return c.intern(b);
	}

	// ---------------------------------------------------------------- images
	struct ImgOpts {
		unsigned max_subvols = 3, max_files = 8, max_segs = 5, max_blocks = 24;
		unsigned dup_pm = 600;        // chance that a segment repeats an earlier one
		unsigned zero_pm = 60;        // zero blocks inside data
		unsigned comp_pm = 250, prealloc_pm = 80, hole_pm = 100, inline_pm = 80, tail_pm = 300;
		unsigned reflink_pm = 200, partial_pm = 150, nodatasum_pm = 0, ro_pm = 0, snap_pm = 200, hardlink_pm = 100, special_pm = 100;
		unsigned twin_pm = 0, toxic_pm = 0, bad_pm = 0, overlay_pm = 0;
		bool whole_dups = false;      // duplicates are always whole identical extents
		bool shifted = true;          // allow sub-block shifts? no: block multiples only
	};
	struct Gen {
		World &w;
		ImgOpts o;
		Rng r;
		uint64_t next_id;
		struct Chunk { vector<Id> ids; uint8_t comp; uint64_t bytenr; };
		vector<Chunk> made;
		vector<Id> pool;
		Gen(World &x, const ImgOpts &y, uint64_t seed) : w(x), o(y), r(seed), next_id(1 + (seed & 0xffffff) * 1000000) { W = &x; }
		bool pm(unsigned p) { return r.below(1000) < p; }
		Id fresh() { const Id i = next_id++; return i; }
		vector<Id> content(uint64_t n)
		{
			vector<Id> v;
			while (v.size() < n) {
				if (!o.whole_dups && !made.empty() && pm(o.dup_pm / 2)) {
					auto &c = made[r.below(made.size())].ids;
					uint64_t st = r.below(c.size()), k = 1 + r.below(c.size() - st);
					for (uint64_t i = 0; i < k && v.size() < n; ++i) v.push_back(c[st + i]);
				} else if (pm(o.zero_pm)) {
					for (uint64_t k = 1 + r.below(3); k && v.size() < n; --k) v.push_back(0);
				} else if (pm(o.twin_pm) && !made.empty()) {
					auto &c = made[r.below(made.size())].ids;
					const Id b = c[r.below(c.size())];
					v.push_back(b ? twin(w.fs.content, b, uint8_t(1 + r.below(255))) : fresh());
				} else {
					for (uint64_t k = 1 + r.below(4); k && v.size() < n; --k) v.push_back(fresh());
				}
			}
			return v;
		}
		uint64_t comp_disk(uint64_t blocks) { return blocks <= 1 ? BS : (1 + r.below(blocks - 1)) * BS; }
		void bump() { if (pm(300)) { w.fs.commit(); } }
		// append one segment; returns new position
		uint64_t segment(Subvol &s, Inode &n, uint64_t pos)
		{
			Fs &fs = w.fs;
			bump();
			if (pm(o.hole_pm)) {
				const uint64_t k = (1 + r.below(16)) * BS;
				if (!fs.no_holes) fs.map_extent(s, n, pos, k, 0, 0);
				return pos + k;
			}
			if (pm(o.prealloc_pm)) {
				const uint64_t k = 1 + r.below(12);
				vector<Id> ids(k, 0);
				const uint64_t st = r.below(k), e = st + r.below(k - st + 1);
				for (uint64_t i = st; i < e; ++i) ids[i] = fresh();
				const uint64_t b = fs.new_extent(ids, 0, k * BS);
				if (st) fs.map_extent(s, n, pos, st * BS, b, 0, FE_PREALLOC);
				if (e > st) fs.map_extent(s, n, pos + st * BS, (e - st) * BS, b, st * BS, FE_REG);
				if (e < k) fs.map_extent(s, n, pos + e * BS, (k - e) * BS, b, e * BS, FE_PREALLOC);
				return pos + k * BS;
			}
			if (pm(o.reflink_pm) && !made.empty() && !n.is_nodatasum()) {
				auto &c = made[r.below(made.size())];
				auto live = fs.px.find(c.bytenr);
				if (live == fs.px.end() || live->second.ids != c.ids || !fs.refs().count(c.bytenr)) return pos;
				uint64_t st = 0, k = c.ids.size();
				if (pm(500) && !o.whole_dups) { st = r.below(k); k = 1 + r.below(k - st); }
				fs.map_extent(s, n, pos, k * BS, c.bytenr, st * BS);
				return pos + k * BS;
			}
			Chunk c;
			const uint8_t comp = pm(o.comp_pm) ? uint8_t(1 + r.below(3)) : 0;
			if (pm(o.dup_pm) && !made.empty()) {
				c.ids = made[r.below(made.size())].ids;
			} else {
				uint64_t k = 1 + r.below(pm(150) ? o.max_blocks * 3 : o.max_blocks);
				c.ids = content(k);
			}
			if (comp && c.ids.size() > 32) c.ids.resize(32);
			c.comp = comp;
			c.bytenr = fs.new_extent(c.ids, comp, comp ? comp_disk(c.ids.size()) : c.ids.size() * BS);
			auto &p = fs.px[c.bytenr];
			if (pm(o.toxic_pm)) p.toxic = true;
			if (pm(o.bad_pm)) p.bad.insert(uint32_t(r.below(c.ids.size())));
			uint64_t st = 0, k = c.ids.size();
			if (pm(o.partial_pm) && !o.whole_dups) { st = r.below(k); k = 1 + r.below(k - st); }
			fs.map_extent(s, n, pos, k * BS, c.bytenr, st * BS);
			if (!n.is_nodatasum()) made.push_back(c);
			return pos + k * BS;
		}
		void file(Subvol &s, uint64_t dir)
		{
			Fs &fs = w.fs;
			static const char *names[] = { "a", "file", "data.bin", "x y", "\xc3\xa9t\xc3\xa9", "new\nline", "very-long-name-very-long-name-very-long-name-very-long-name-very-long-name-very-long-name", "-dash", "..." };
			const string name = string(names[r.below(9)]) + "." + std::to_string(s.next_ino);
			auto &n = make_inode(s, K_REG, dir, name);
			n.mtime = ++fs.clock;
			if (pm(o.nodatasum_pm)) n.flags |= pm(600) ? 3 : 1;
			if (pm(o.inline_pm)) {
				FileExtent f;
				f.type = FE_INLINE;
				f.len = 1 + r.below(2048);
				f.inl = fs.content.truncated(fresh(), f.len);
				f.gen = f.transid = fs.transid;
				n.fe[0] = f;
				n.size = f.len;
				fs.touch(s, n);
				return;
			}
			uint64_t pos = 0;
			const uint64_t segs = pm(100) ? 0 : 1 + r.below(o.max_segs);
			for (uint64_t i = 0; i < segs; ++i) pos = segment(s, n, pos);
			n.size = pos;
			if (pos && pm(o.tail_pm)) {
				// the last block is cut: its stored content ends in zeros
				const uint64_t st = pos - BS;
				uint64_t fs0 = 0;
				auto f = fs.extent_at(n, st, &fs0);
				if (f && f->bytenr && f->type == FE_REG) {
					const uint64_t cut = 1 + r.below(BS - 1);
					auto &p = fs.px[f->bytenr];
					const size_t k = (st - fs0 + f->eoff) / BS;
					auto &rr = fs.refs().at(f->bytenr);
					if (rr.size() == 1) {
						p.ids[k] = fs.content.truncated(p.ids[k], cut);
						for (auto &m : made) if (m.bytenr == f->bytenr && m.ids.size() == p.ids.size()) m.ids[k] = p.ids[k];
						n.size = st + cut;
					} else if (fs.content.truncated(p.ids[k], cut) == p.ids[k]) n.size = st + cut;
				}
			}
			for (auto i = n.fe.lower_bound((n.size + BS - 1) / BS * BS); i != n.fe.end(); ) i = n.fe.erase(i);
			if (pm(o.hardlink_pm)) {
				const string l = "link." + std::to_string(n.ino);
				n.names.push_back({ 256, l });
				s.in.at(256).entries[l] = { 0, n.ino };
			}
			if (pm(o.overlay_pm) && n.size) {
				const uint64_t b = r.below((n.size + BS - 1) / BS);
				Id x = fresh();
				if (n.size - b * BS < BS) x = fs.content.truncated(x, n.size - b * BS);
				n.overlay[b] = x;
			}
		}
		uint64_t subvol(uint64_t parent, uint64_t dirid, const string &name)
		{
			Fs &fs = w.fs;
			Subvol v;
			v.id = parent ? fs.next_subvol++ : 5;
			v.parent = parent; v.dirid = dirid; v.name = name;
			v.transid = v.gen = fs.transid;
			Inode d;
			d.ino = 256; d.kind = K_DIR; d.transid = d.gen = fs.transid;
			if (true) d.names.push_back({ 256, ".." });
			v.in[256] = d;
			fs.sv[v.id] = v;
			if (parent) {
				fs.sv[parent].in.at(dirid).entries[name] = { 1, v.id };
				fs.sv[parent].transid = fs.transid;
			}
			++fs.mods;
			return v.id;
		}
		uint64_t snapshot(uint64_t src, uint64_t parent, uint64_t dirid, const string &name, bool ro)
		{
			Fs &fs = w.fs;
			fs.flush_all();
			Subvol v = fs.sv.at(src);
			v.id = fs.next_subvol++;
			v.parent = parent; v.dirid = dirid; v.name = name; v.ro = ro; v.send = false;
			v.ro_since = ds::active() ? ds::now_ns() : 0;
			v.transid = v.gen = fs.transid;
			for (auto i = v.in.begin(); i != v.in.end(); ) {
				if (i->second.tmp) { i = v.in.erase(i); continue; }
				for (auto e = i->second.entries.begin(); e != i->second.entries.end(); ) {
					if (e->second.first) e = i->second.entries.erase(e); else ++e;
				}
				++i;
			}
			fs.sv[v.id] = v;
			fs.sv[parent].in.at(dirid).entries[name] = { 1, v.id };
			fs.sv[parent].transid = fs.transid;
			++fs.mods;
			return v.id;
		}
		void build()
		{
			Fs &fs = w.fs;
			fs.transid = 10 + r.below(50);
			fs.chunks[1ull << 22] = { 1ull << 23, 4 };     // metadata
			fs.chunks[16ull << 20] = { 256ull << 20, 1 };
			if (r.below(2)) fs.chunks[8ull << 30] = { 1ull << 30, 1 };
			fs.no_holes = r.below(2);
			subvol(0, 0, "");
			w.other = Subvol();
			w.other.id = OTHER;
			{ Inode d; d.ino = 256; d.kind = K_DIR; w.other.in[256] = d; }
			vector<uint64_t> roots { 5 };
			const uint64_t extra = r.below(o.max_subvols);
			for (uint64_t i = 0; i < extra; ++i) {
				const uint64_t p = roots[r.below(roots.size())];
				roots.push_back(subvol(p, 256, "sv" + std::to_string(i)));
			}
			for (auto root : roots) {
				auto &s = fs.sv[root];
				vector<uint64_t> dirs { 256 };
				for (uint64_t i = r.below(3); i; --i) {
					const string nm = "dir" + std::to_string(s.next_ino);
					auto &d = make_inode(s, K_DIR, dirs[r.below(dirs.size())], nm);
					dirs.push_back(d.ino);
				}
				const uint64_t nf = r.below(o.max_files + 1);
				for (uint64_t i = 0; i < nf; ++i) {
					if (r.below(8) == 0) s.next_ino += r.below(1000);
					const uint64_t d = dirs[r.below(dirs.size())];
					if (pm(o.special_pm)) {
						auto &n = make_inode(s, r.below(2) ? K_LNK : K_FIFO, d, "special" + std::to_string(s.next_ino));
						n.target = "/sim/nowhere";
					} else file(s, d);
				}
				if (pm(o.ro_pm) && root != 5) s.ro = true;
			}
			if (pm(o.snap_pm)) {
				const uint64_t src = roots[r.below(roots.size())];
				if (src != 5) snapshot(src, 5, 256, "snap", pm(o.ro_pm));
			}
			fs.commit();
			fs.commit();
		}
		// state directory with a table of n bytes (0: none)
		void home(uint64_t table)
		{
			auto &s = w.fs.sv[5];
			auto &d = make_inode(s, K_DIR, 256, ".beeshome");
			w.home_root = 5;
			w.home_ino = d.ino;
			if (table) {
				auto &f = make_inode(s, K_REG, d.ino, "beeshash.dat");
				f.raw = true;
				f.rawdata.assign(table, 0);
				f.size = table;
			}
		}
	};
	static string dump_image(World &w)
	{
		std::ostringstream o;
		for (auto &s : w.fs.sv) {
			o << "subvol " << s.first << (s.second.ro ? " ro" : "") << (s.second.dead ? " dead" : "") << " gen " << s.second.transid << "\n";
			for (auto &n : s.second.in) {
				if (n.second.raw) continue;
				o << "  ino " << n.first << " kind " << int(n.second.kind) << " size " << n.second.size << " flags " << n.second.flags << (n.second.tmp ? " tmp" : "") << "\n";
				for (auto &f : n.second.fe) {
					o << "    +" << f.first / BS << "," << (f.second.type == FE_INLINE ? f.second.len : f.second.len / BS) << (f.second.type == FE_INLINE ? " inline" : f.second.type == FE_PREALLOC ? " prealloc" : "");
					if (f.second.type != FE_INLINE) {
						o << " @" << std::hex << f.second.bytenr << std::dec << "+" << f.second.eoff / BS << " t" << f.second.transid;
						auto p = w.fs.px.find(f.second.bytenr);
						if (p != w.fs.px.end()) {
							if (p->second.comp) o << " z";
							if (p->second.toxic) o << " toxic";
							o << " g" << p->second.gen << " [";
							for (uint64_t i = f.second.eoff / BS; i < (f.second.eoff + f.second.len) / BS && i < p->second.ids.size(); ++i) o << (i == f.second.eoff / BS ? "" : " ") << std::hex << (p->second.ids[i] & 0xffffff) << std::dec;
							o << "]";
						}
					}
					o << "\n";
				}
			}
		}
		return o.str();
	}

	// ---------------------------------------------------------------- users
	// Applies one user operation to the filesystem and to what users know.
	struct Users {
		World &w;
		Gen &g;
		bool namespace_ops = true, snap_ops = true, ro_ops = false, send_ops = false, nodatasum_ops = false;
		bool reflinks = true;
		vector<unsigned> favour;   // kinds of operations to prefer
		pair<uint64_t, uint64_t> target { 0, 0 }; // a file to prefer
		Users(World &a, Gen &b) : w(a), g(b) {}
		Rng &r() { return g.r; }
		vector<pair<uint64_t, uint64_t>> files(bool writable = true)
		{
			vector<pair<uint64_t, uint64_t>> v;
			for (auto &s : w.fs.sv) {
				if (s.second.dead || (writable && s.second.ro)) continue;
				for (auto &n : s.second.in) if (n.second.kind == K_REG && !n.second.tmp && !n.second.raw && !n.second.names.empty()) v.push_back({ s.first, n.first });
			}
			return v;
		}
		vector<uint64_t> roots(bool writable = true)
		{
			vector<uint64_t> v;
			for (auto &s : w.fs.sv) if (!s.second.dead && !(writable && s.second.ro)) v.push_back(s.first);
			return v;
		}
		void touched(uint64_t root, uint64_t ino)
		{
			auto n = w.fs.find(root, ino);
			if (n) w.sh.f[{ root, ino }] = observe(w.fs, *n); else w.sh.f.erase({ root, ino });
			w.last_write[{ root, ino }] = ds::active() ? ds::now_ns() + 1 : 1;
			w.last_write_ns = ds::active() ? ds::now_ns() + 1 : 1;
			++w.user_writes;
			w.dirty = true;
		}
		void verify(uint64_t root, uint64_t ino)
		{
			auto n = w.fs.find(root, ino);
			auto u = w.sh.f.find({ root, ino });
			if (!n || u == w.sh.f.end()) return;
			const UserFile o = observe(w.fs, *n);
			if (o.size != u->second.size || o.ids != u->second.ids || o.mtime != u->second.mtime || o.flags != u->second.flags)
				PBT_FAIL("file root " << root << " inode " << ino << " is not what its user left");
		}
		void set_content(Subvol &s, Inode &n, uint64_t b, Id id)
		{
			(void)s;
			const uint64_t left = n.size > b * BS ? n.size - b * BS : 0;
			n.overlay[b] = left < BS ? w.fs.content.truncated(id, left) : id;
		}
		void write(uint64_t root, uint64_t ino, uint64_t b, const vector<Id> &ids, uint64_t cut = 0)
		{
			auto &s = w.fs.sv.at(root);
			auto &n = *w.fs.find(root, ino);
			const uint64_t end = (b + ids.size()) * BS - cut;
			if (n.fe.count(0) && n.fe[0].type == FE_INLINE) { n.overlay[0] = n.fe[0].inl; w.fs.punch(s, n, 0, BS); }
			if (n.size < end) n.size = end;
			for (size_t i = 0; i < ids.size(); ++i) set_content(s, n, b + i, ids[i]);
			n.mtime = ++w.fs.clock;
			w.fs.touch(s, n);
			touched(root, ino);
		}
		string op()
		{
			Fs &fs = w.fs;
			std::ostringstream o;
			auto fl = files();
			auto rw = roots();
			const unsigned k = !favour.empty() && draw(2) ? favour[draw(favour.size() - 1)] : unsigned(draw(21));
			auto pickf = [&]() {
				if (target.first && std::find(fl.begin(), fl.end(), target) != fl.end() && draw(1)) return target;
				return fl[draw(fl.size() - 1)];
			};
			if (k <= 5 && !fl.empty()) {
				auto f = pickf();
				auto &n = *fs.find(f.first, f.second);
				verify(f.first, f.second);
				const uint64_t nb = (n.size + BS - 1) / BS;
				const uint64_t b = draw(nb + 2);
				auto ids = g.content(1 + draw(11));
				write(f.first, f.second, b, ids, chance(1, 4) ? 1 + draw(BS - 2) : 0);
				if (chance(1, 3)) fs.flush(fs.sv[f.first], n);
				o << "write " << f.first << "/" << f.second << " blocks " << b << "+" << ids.size();
			} else if (k >= 20 && !fl.empty()) {
				// replace one extent by another of the same length, in the same place or in space freed before
				auto f = pickf();
				auto &n = *fs.find(f.first, f.second);
				if (n.fe.empty()) return "";
				verify(f.first, f.second);
				vector<pair<uint64_t, uint64_t>> list;
				for (auto &x : n.fe) if (x.second.type == FE_REG && x.second.bytenr && x.first < n.size) list.push_back({ x.first / BS, (std::min(x.second.len, n.size - x.first) + BS - 1) / BS });
				if (list.empty()) return "";
				auto x = list[draw(list.size() - 1)];
				const uint64_t end = (x.first + x.second) * BS;
				write(f.first, f.second, x.first, g.content(x.second), end > n.size ? end - n.size : 0);
				fs.flush(fs.sv[f.first], n);
				if (chance(1, 2)) fs.commit();
				o << "replace " << f.first << "/" << f.second << " blocks " << x.first << "+" << x.second;
			} else if (k == 6 && !fl.empty()) {
				auto f = pickf();
				auto &s = fs.sv[f.first];
				auto &n = *fs.find(f.first, f.second);
				verify(f.first, f.second);
				const uint64_t sz = draw(1) ? draw(n.size + 3 * BS) : draw(n.size / BS + 2) * BS;
				if (n.fe.count(0) && n.fe[0].type == FE_INLINE) { n.overlay[0] = n.fe[0].inl; fs.punch(s, n, 0, BS); }
				if (sz < n.size) {
					const uint64_t e = (sz + BS - 1) / BS;
					n.overlay.erase(n.overlay.lower_bound(e), n.overlay.end());
					if (sz % BS) { const Id t = fs.content.truncated(fs.block(n, sz / BS), sz % BS); if (t != fs.block(n, sz / BS)) n.overlay[sz / BS] = t; }
					fs.punch(s, n, e * BS, UINT64_MAX);
				}
				n.size = sz;
				n.mtime = ++fs.clock;
				fs.touch(s, n);
				touched(f.first, f.second);
				o << "truncate " << f.first << "/" << f.second << " to " << sz;
			} else if (k == 7 && !fl.empty()) {
				auto f = pickf();
				auto &s = fs.sv[f.first];
				auto &n = *fs.find(f.first, f.second);
				for (auto &nm : n.names) s.in.at(nm.first).entries.erase(nm.second);
				n.names.clear();
				w.sh.f.erase(f);
				s.transid = fs.transid;
				++fs.mods; ++w.user_writes; w.dirty = true;
				w.last_write[f] = w.last_write_ns = ds::active() ? ds::now_ns() + 1 : 1;
				maybe_reap(f.first, f.second);
				o << "unlink " << f.first << "/" << f.second;
			} else if (k <= 10 && !rw.empty()) {
				const uint64_t root = rw[draw(rw.size() - 1)];
				auto &s = fs.sv[root];
				const uint64_t ino = s.next_ino;
				g.file(s, 256);
				touched(root, ino);
				o << "create " << root << "/" << ino << " size " << fs.find(root, ino)->size;
			} else if (k == 11 && !fl.empty() && namespace_ops) {
				auto f = pickf();
				auto &s = fs.sv[f.first];
				auto &n = *fs.find(f.first, f.second);
				auto nm = n.names[0];
				const string to = "renamed" + std::to_string(fs.clock);
				s.in.at(nm.first).entries.erase(nm.second);
				n.names[0] = { 256, to };
				s.in.at(256).entries[to] = { 0, n.ino };
				++fs.clock; ++fs.mods; w.dirty = true;
				w.renamed.insert(f);
				o << "rename " << f.first << "/" << f.second;
			} else if (k == 12 && fl.size() > 1 && reflinks) {
				auto a = pickf(), b = pickf();
				auto &sn = *fs.find(a.first, a.second);
				auto &dn = *fs.find(b.first, b.second);
				if (sn.flags != dn.flags) return "";
				auto &ss = fs.sv[a.first], &dsv = fs.sv[b.first];
				fs.flush(ss, sn);
				fs.flush(dsv, dn);
				if (dn.fe.count(0) && dn.fe[0].type == FE_INLINE) { dn.overlay[0] = dn.fe[0].inl; fs.punch(dsv, dn, 0, BS); fs.flush(dsv, dn); }
				vector<pair<uint64_t, FileExtent>> list(sn.fe.begin(), sn.fe.end());
				if (list.empty()) return "";
				auto x = list[draw(list.size() - 1)];
				if (x.second.type != FE_REG || !x.second.bytenr) return "";
				uint64_t full = std::min(x.second.len, sn.size > x.first ? sn.size - x.first : 0) / BS * BS;
				if (!full) return "";
				verify(b.first, b.second);
				const uint64_t at = draw((dn.size + BS - 1) / BS + 1) * BS;
				if (a == b && at < x.first + full && x.first < at + full) return "";
				fs.map_extent(dsv, dn, at, full, x.second.bytenr, x.second.eoff);
				if (dn.size < at + full) dn.size = at + full;
				dn.mtime = ++fs.clock;
				touched(b.first, b.second);
				o << "reflink " << a.first << "/" << a.second << "+" << x.first / BS << " to " << b.first << "/" << b.second << "+" << at / BS << " len " << full / BS;
			} else if (k == 13 && snap_ops && fs.sv.size() < 7) {
				auto all = roots(false);
				vector<uint64_t> v;
				for (auto i : all) if (i != 5) v.push_back(i);
				if (v.empty()) return "";
				const uint64_t src = v[draw(v.size() - 1)];
				const uint64_t id = g.snapshot(src, 5, 256, "snap" + std::to_string(fs.next_subvol), chance(1, 3));
				for (auto &n : fs.sv[id].in) if (n.second.kind == K_REG && !n.second.names.empty()) w.sh.f[{ id, n.first }] = observe(fs, n.second);
				for (auto i = fs.sv[id].in.begin(); i != fs.sv[id].in.end(); ) { if (i->second.kind == K_REG && i->second.names.empty()) i = fs.sv[id].in.erase(i); else ++i; }
				fs.commit();
				w.dirty = true;
				o << "snapshot " << src << " as " << id;
			} else if (k == 14 && snap_ops) {
				vector<uint64_t> v;
				for (auto i : roots(false)) {
					bool leaf = i != 5 && i != w.home_root;
					for (auto &s : fs.sv) if (s.second.parent == i && !s.second.dead) leaf = false;
					if (leaf) v.push_back(i);
				}
				if (v.size() < 2) return "";
				const uint64_t id = v[draw(v.size() - 1)];
				auto &s = fs.sv[id];
				auto &pd = fs.sv[s.parent].in.at(s.dirid);
				pd.entries.erase(s.name);
				s.dead = true;
				for (auto i = w.sh.f.begin(); i != w.sh.f.end(); ) { if (i->first.first == id) i = w.sh.f.erase(i); else ++i; }
				for (auto &n : s.in) w.last_write[{ id, n.first }] = w.last_write_ns = ds::active() ? ds::now_ns() + 1 : 1;
				++fs.mods; ++w.user_writes; w.dirty = true;
				dead.push_back(id);
				o << "delete subvolume " << id;
			} else if (k == 15 && ro_ops) {
				vector<uint64_t> v;
				for (auto i : roots(false)) if (i != 5) v.push_back(i);
				if (v.empty()) return "";
				auto &s = fs.sv[v[draw(v.size() - 1)]];
				if (s.send) return "";
				if (!s.ro) for (auto &n : s.in) fs.flush(s, n.second);
				s.ro = !s.ro;
				s.ro_since = ds::active() ? ds::now_ns() : 0;
				++fs.mods; w.dirty = true;
				o << "subvolume " << s.id << (s.ro ? " read-only" : " read-write");
			} else if (k == 16 && send_ops) {
				for (auto &s : fs.sv) if (s.second.ro && !s.second.dead) { s.second.send = !s.second.send; o << "send " << s.first << (s.second.send ? " begins" : " ends"); w.dirty = true; break; }
			} else if (k == 17) {
				fs.flush_all();
				reap_dead();
				fs.commit();
				o << "sync";
			} else if (k == 18 && !fl.empty()) {
				// punch a hole
				auto f = pickf();
				auto &s = fs.sv[f.first];
				auto &n = *fs.find(f.first, f.second);
				if (n.size < 2 * BS) return "";
				fs.flush(s, n);
				const uint64_t nb = n.size / BS, b = draw(nb - 1), e = b + 1 + draw(nb - b - 1);
				fs.punch(s, n, b * BS, e * BS);
				n.mtime = ++fs.clock;
				touched(f.first, f.second);
				o << "punch " << f.first << "/" << f.second << " " << b << ".." << e;
			} else if (k == 19 && !rw.empty() && nodatasum_ops) {
				const uint64_t root = rw[draw(rw.size() - 1)];
				auto &s = fs.sv[root];
				auto &n = make_inode(s, K_REG, 256, "nocow" + std::to_string(s.next_ino));
				n.flags = chance(1, 2) ? 3 : 1;
				const uint64_t ino = n.ino;
				write(root, ino, 0, g.content(1 + draw(7)));
				fs.flush(s, *fs.find(root, ino));
				touched(root, ino);
				o << "create nodatasum " << root << "/" << ino;
			}
			return o.str();
		}
		vector<uint64_t> dead;
		void reap_dead()
		{
			dead.clear();
			for (auto &s : w.fs.sv) if (s.second.dead) dead.push_back(s.first);
			for (auto id : dead) {
				bool busy = false;
				for (auto &f : w.fs.fds) if (f.second.root == id) busy = true;
				if (!busy) { w.fs.sv.erase(id); ++w.fs.mods; }
			}
			vector<uint64_t> left;
			for (auto id : dead) if (w.fs.sv.count(id)) left.push_back(id);
			dead = left;
		}
	};
}
#endif
