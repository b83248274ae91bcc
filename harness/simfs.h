// A simulated btrfs, as seen through the system calls and ioctls the daemon uses.
//
// The model stores file content as 4K block ids (0 = zeros); an id maps to 4096
// bytes deterministically, so a whole filesystem costs a few KB and comparisons are
// exact.  Metadata (root, chunk, extent and subvolume trees) is rendered on demand
// into the on-disk item formats and searched with treesearch.h.
//
// Written from kernel behaviour (fs/btrfs/ioctl.c, backref.c, reflink.c,
// fs/remap_range.c), not from the code under test.
#ifndef VERIF_SIMFS_H
#define VERIF_SIMFS_H
#include <cstdint>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "treesearch.h"

namespace sim {
	using std::string; using std::map; using std::set; using std::vector; using std::pair;
	using Id = uint64_t;
	static const uint64_t BS = 4096;
	static const uint64_t MAX_COMP = 131072;

	// ---------------------------------------------------------------- content
	// Foreign contents (tails, bytes no id generates) get ids with the top bit.
	struct Content {
		vector<string> foreign;
		map<uint64_t, vector<uint64_t>> index;
		static bool is_foreign(Id i) { return i >> 63; }
		static uint64_t mix(uint64_t z)
		{
			z += 0x9E3779B97F4A7C15ull;
			z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
			z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
			return z ^ (z >> 31);
		}
		static uint64_t fnv(const uint8_t *p)
		{
			uint64_t h = 1469598103934665603ull;
			for (size_t i = 0; i < BS; i += 8) { uint64_t w; memcpy(&w, p + i, 8); h = (h ^ w) * 1099511628211ull; h ^= h >> 29; }
			return h;
		}
		void bytes(Id id, uint8_t *out) const
		{
			if (!id) { memset(out, 0, BS); return; }
			if (is_foreign(id)) { memcpy(out, foreign.at(id & ~(1ull << 63)).data(), BS); return; }
			memcpy(out, &id, 8);
			uint64_t x = mix(id);
			for (size_t i = 8; i < BS; i += 8) {
				x ^= x << 13; x ^= x >> 7; x ^= x << 17;
				memcpy(out + i, &x, 8);
			}
		}
		Id intern(const uint8_t *p)
		{
			uint64_t w;
			memcpy(&w, p, 8);
			uint8_t tmp[BS];
			if (!(w >> 63)) {
				bytes(w, tmp);
				if (!memcmp(tmp, p, BS)) return w;
			}
			const uint64_t h = fnv(p);
			for (auto i : index[h]) if (!memcmp(foreign.at(i).data(), p, BS)) return i | (1ull << 63);
			foreign.push_back(string(reinterpret_cast<const char *>(p), BS));
			index[h].push_back(foreign.size() - 1);
			return (foreign.size() - 1) | (1ull << 63);
		}
		Id truncated(Id id, uint64_t len)
		{
			if (len >= BS || !id) return id;
			uint8_t b[BS];
			bytes(id, b);
			memset(b + len, 0, BS - len);
			return intern(b);
		}
		// A different block with the same crc64 when 'twin' supplies the pattern
	};

	// ---------------------------------------------------------------- model
	enum : uint8_t { FE_INLINE = 0, FE_REG = 1, FE_PREALLOC = 2 };
	struct FileExtent {
		uint64_t len = 0;         // logical length (block multiple, or inline byte count)
		uint8_t type = FE_REG;
		uint64_t bytenr = 0;      // 0: hole
		uint64_t eoff = 0;        // offset into the extent's uncompressed data
		uint64_t gen = 0;
		uint64_t transid = 0;     // generation of the leaf holding the item
		Id inl = 0;
		bool operator==(const FileExtent &t) const { return len == t.len && type == t.type && bytenr == t.bytenr && eoff == t.eoff && inl == t.inl; }
	};
	struct PhysExtent {
		uint64_t serial = 0;      // distinguishes extents that use the same space one after another
		uint64_t disk = 0, ram = 0;
		uint8_t comp = 0;
		uint64_t gen = 0, transid = 0;
		vector<Id> ids;
		bool toxic = false;       // resolving it burns CPU time
		bool fail_resolve = false;// LOGICAL_INO fails
		set<uint32_t> bad;        // unreadable blocks
		bool freed = false;       // no references left, dropped at commit
	};
	enum : uint8_t { K_REG, K_DIR, K_LNK, K_FIFO, K_MOUNT };
	struct Inode {
		uint64_t ino = 0, size = 0, transid = 0, gen = 0;
		uint8_t kind = K_REG;
		uint64_t flags = 0;       // BTRFS_INODE_*
		uint32_t fsfl = 0;        // FS_*_FL set through SETFLAGS on temp files
		uint64_t mtime = 0;       // bumped by content changes, visible to users
		vector<pair<uint64_t, string>> names;
		map<uint64_t, FileExtent> fe;
		map<uint64_t, Id> overlay; // dirty blocks not written back yet
		map<string, pair<uint8_t, uint64_t>> entries; // directories: name -> (0 inode, 1 subvol, 2 foreign mount, 3 bind mount: subvol << 40 | inode) id
		string target;            // symlinks
		bool tmp = false;         // the daemon's own temporary file
		bool raw = false;         // the daemon's state files: real bytes
		uint8_t trouble = 0;      // lasting errors: 1 open, 2 dedupe destination, 4 dedupe source, 8 read
		string rawdata;
		bool is_nodatasum() const { return flags & 1; }
		bool is_nodatacow() const { return flags & 2; }
	};
	struct Subvol {
		uint64_t id = 0, parent = 0, dirid = 0, transid = 0, gen = 0;
		string name;
		bool ro = false, dead = false, send = false;
		uint64_t ro_since = 0;    // virtual time of the last change to read-only, 0: before this life
		uint64_t next_ino = 257;
		map<uint64_t, Inode> in;
	};
	struct OpenFile { uint64_t root = 0, ino = 0; int flags = 0; uint8_t via = 0; uint8_t kind = 0; uint64_t pos = 0; string path; bool owner = false; };
	enum : uint8_t { VIA_PATH, VIA_OPENAT, VIA_OPENAT2, VIA_TMP };

	struct Fs {
		Content content;
		map<uint64_t, Subvol> sv;
		map<uint64_t, PhysExtent> px;
		map<uint64_t, pair<uint64_t, uint64_t>> chunks;  // start -> (length, type)
		uint64_t next_bytenr = 0, next_subvol = 256, next_serial = 0;
		uint64_t transid = 100;       // running transaction; committed is transid-1
		uint64_t clock = 1;           // user mtime source
		map<int, OpenFile> fds;
		int next_fd = 1000000;
		uint32_t sectorsize = 4096;
		bool reuse = false;           // reuse freed space after commit
		bool compressible = false;    // data written to compress-flagged files shrinks
		bool no_holes = true;
		map<uint64_t, uint64_t> user_bytenr; // space that files with checksums have ever used: start -> length
		uint64_t mods = 0;            // bumped by every metadata change
		map<uint64_t, uint64_t> free_space;

		uint64_t alloc(uint64_t disk)
		{
			if (reuse) {
				for (auto i = free_space.begin(); i != free_space.end(); ++i) {
					if (i->second >= disk) {
						const uint64_t rv = i->first, left = i->second - disk;
						free_space.erase(i);
						if (left) free_space[rv + disk] = left;
						return rv;
					}
				}
			}
			// next chunk with room
			for (auto c = chunks.begin(); c != chunks.end(); ++c) {
				const uint64_t end = c->first + c->second.first;
				if (!(c->second.second & 1)) continue;
				if (next_bytenr < c->first) next_bytenr = c->first;
				if (next_bytenr >= c->first && next_bytenr + disk <= end) {
					const uint64_t rv = next_bytenr;
					next_bytenr += disk;
					return rv;
				}
			}
			// new chunk after a gap
			uint64_t start = 1ull << 30;
			if (!chunks.empty()) start = chunks.rbegin()->first + chunks.rbegin()->second.first + (64ull << 20);
			uint64_t len = 1ull << 30;
			chunks[start] = { len, 1 };
			next_bytenr = start + disk;
			return start;
		}
		Inode *find(uint64_t root, uint64_t ino)
		{
			auto s = sv.find(root);
			if (s == sv.end()) return nullptr;
			auto i = s->second.in.find(ino);
			return i == s->second.in.end() ? nullptr : &i->second;
		}
		void touch(Subvol &s, Inode &n) { n.transid = s.transid = transid; ++mods; }

		// ---- extents
		uint64_t new_extent(const vector<Id> &ids, uint8_t comp, uint64_t disk)
		{
			const uint64_t b = alloc(disk);
			PhysExtent p;
			p.serial = ++next_serial;
			p.disk = disk;
			p.ram = ids.size() * BS;
			p.comp = comp;
			p.gen = p.transid = transid;
			p.ids = ids;
			px[b] = p;
			++mods;
			return b;
		}
		// Remove [off, end) from the inode's extent items, splitting at the edges
		void punch(Subvol &s, Inode &n, uint64_t off, uint64_t end)
		{
			auto i = n.fe.upper_bound(off);
			if (i != n.fe.begin()) --i;
			while (i != n.fe.end() && i->first < end) {
				const uint64_t b = i->first;
				const FileExtent f = i->second;
				const uint64_t fend = b + (f.type == FE_INLINE ? BS : f.len);
				if (fend <= off) { ++i; continue; }
				i = n.fe.erase(i);
				ref_changed(f.bytenr);
				if (f.type == FE_INLINE) continue;
				if (b < off) {
					FileExtent l = f;
					l.len = off - b;
					l.transid = transid;
					n.fe[b] = l;
				}
				if (fend > end) {
					FileExtent r = f;
					r.len = fend - end;
					if (r.bytenr) r.eoff += end - b;
					r.transid = transid;
					n.fe[end] = r;
					i = n.fe.upper_bound(end);
				}
			}
			touch(s, n);
		}
		void ref_changed(uint64_t bytenr)
		{
			if (!bytenr) return;
			auto p = px.find(bytenr);
			if (p != px.end()) p->second.transid = transid;
			++mods;
		}
		void map_extent(Subvol &s, Inode &n, uint64_t off, uint64_t len, uint64_t bytenr, uint64_t eoff, uint8_t type = FE_REG)
		{
			punch(s, n, off, off + len);
			FileExtent f;
			f.len = len;
			f.type = type;
			f.bytenr = bytenr;
			f.eoff = eoff;
			f.gen = bytenr && px.count(bytenr) ? px[bytenr].gen : transid;
			f.transid = transid;
			n.fe[off] = f;
			if (bytenr && !n.tmp && !n.raw && !(n.flags & 3)) {
				auto &u = user_bytenr[bytenr];
				auto p = px.find(bytenr);
				if (p != px.end()) u = std::max(u, p->second.disk);
			}
			ref_changed(bytenr);
			touch(s, n);
		}
		Id block(const Inode &n, uint64_t blk) const
		{
			auto o = n.overlay.find(blk);
			if (o != n.overlay.end()) return o->second;
			return disk_block(n, blk);
		}
		const FileExtent *extent_at(const Inode &n, uint64_t pos, uint64_t *start = nullptr) const
		{
			auto i = n.fe.upper_bound(pos);
			if (i == n.fe.begin()) return nullptr;
			--i;
			const uint64_t len = i->second.type == FE_INLINE ? BS : i->second.len;
			if (pos >= i->first + len) return nullptr;
			if (start) *start = i->first;
			return &i->second;
		}
		Id disk_block(const Inode &n, uint64_t blk) const
		{
			uint64_t st = 0;
			auto f = extent_at(n, blk * BS, &st);
			if (!f) return 0;
			if (f->type == FE_INLINE) return f->inl;
			if (f->type == FE_PREALLOC || !f->bytenr) return 0;
			auto p = px.find(f->bytenr);
			if (p == px.end()) return 0;
			return p->second.ids.at((blk * BS - st + f->eoff) / BS);
		}
		bool block_bad(const Inode &n, uint64_t blk) const
		{
			if (n.overlay.count(blk)) return false;
			uint64_t st = 0;
			auto f = extent_at(n, blk * BS, &st);
			if (!f || f->type != FE_REG || !f->bytenr) return false;
			auto p = px.find(f->bytenr);
			return p != px.end() && !p->second.bad.empty() && p->second.bad.count(uint32_t((blk * BS - st + f->eoff) / BS));
		}
		// Write back dirty blocks in [b0, b1)
		void flush(Subvol &s, Inode &n, uint64_t b0 = 0, uint64_t b1 = UINT64_MAX)
		{
			if (n.raw) return;
			while (true) {
				auto i = n.overlay.lower_bound(b0);
				if (i == n.overlay.end() || i->first >= b1) break;
				const uint64_t start = i->first;
				vector<Id> ids;
				const bool want_comp = compressible && (n.fsfl & 4);
				const size_t lim = want_comp ? MAX_COMP / BS : 32768;
				while (i != n.overlay.end() && i->first == start + ids.size() && i->first < b1 && ids.size() < lim) {
					ids.push_back(i->second);
					i = n.overlay.erase(i);
				}
				uint64_t disk = ids.size() * BS;
				uint8_t comp = 0;
				if (want_comp && ids.size() > 1) {
					disk = (disk / 2 + BS - 1) / BS * BS;
					comp = 1;
				}
				const uint64_t b = new_extent(ids, comp, disk);
				map_extent(s, n, start * BS, ids.size() * BS, b, 0);
			}
		}
		void flush_all() { for (auto &s : sv) for (auto &n : s.second.in) if (!n.second.overlay.empty()) flush(s.second, n.second); }
		struct Ref { uint64_t root, ino, off; };
		map<uint64_t, vector<Ref>> refs_cache;
		uint64_t refs_mods = UINT64_MAX;
		const map<uint64_t, vector<Ref>> &refs()
		{
			if (refs_mods == mods) return refs_cache;
			refs_cache.clear();
			for (auto &s : sv) {
				for (auto &n : s.second.in) {
					for (auto &f : n.second.fe) {
						if (f.second.type != FE_INLINE && f.second.bytenr) refs_cache[f.second.bytenr].push_back({ s.first, n.first, f.first });
					}
				}
			}
			refs_mods = mods;
			return refs_cache;
		}
		void commit()
		{
			auto &r = refs();
			for (auto i = px.begin(); i != px.end(); ) {
				if (!r.count(i->first)) {
					if (reuse) free_space[i->first] += i->second.disk;
					i = px.erase(i);
					++mods;
				} else ++i;
			}
			++transid;
			++mods;
		}
		// ---- trees
		uint64_t tree_mods = UINT64_MAX;
		map<uint64_t, ts::Tree> tree_cache;
		static void p16(vector<uint8_t> &v, size_t o, uint64_t x) { v[o] = uint8_t(x); v[o + 1] = uint8_t(x >> 8); }
		static void p32(vector<uint8_t> &v, size_t o, uint64_t x) { for (int i = 0; i < 4; ++i) v[o + i] = uint8_t(x >> (8 * i)); }
		static void p64(vector<uint8_t> &v, size_t o, uint64_t x) { for (int i = 0; i < 8; ++i) v[o + i] = uint8_t(x >> (8 * i)); }
		const ts::Tree *tree(uint64_t id)
		{
			if (tree_mods != mods) { tree_cache.clear(); tree_mods = mods; }
			auto f = tree_cache.find(id);
			if (f != tree_cache.end()) return &f->second;
			ts::Tree t;
			if (id == 1) {
				auto root_item = [&](uint64_t gen, uint64_t flags) {
					vector<uint8_t> d(439);
					p64(d, 160, gen); // generation follows the 160-byte inode item
					p64(d, 208, flags);
					p32(d, 216, 1);
					return ts::Item { gen, d };
				};
				t[{ 2, 132, 0 }] = root_item(transid - 1, 0);
				for (auto &s : sv) {
					if (s.second.dead) continue;
					t[{ s.first, 132, 0 }] = root_item(s.second.transid, s.second.ro ? 1 : 0);
					t[{ s.first, 132, 0 }].transid = s.second.transid;
					if (s.first == 5) continue;
					vector<uint8_t> d(18);
					p64(d, 0, s.second.dirid);
					p64(d, 8, 3);
					p16(d, 16, s.second.name.size());
					d.insert(d.end(), s.second.name.begin(), s.second.name.end());
					t[{ s.first, 144, s.second.parent }] = { s.second.gen, d };
				}
			} else if (id == 2) {
				auto &r = refs();
				for (auto &p : px) {
					vector<uint8_t> d(24);
					auto ri = r.find(p.first);
					p64(d, 0, ri == r.end() ? 1 : ri->second.size());
					p64(d, 8, p.second.gen);
					p64(d, 16, 1); // DATA
					t[{ p.first, 168, p.second.disk }] = { p.second.transid, d };
				}
				for (auto &c : chunks) {
					// block group item and some metadata extents to step over
					vector<uint8_t> d(24);
					p64(d, 0, c.second.first / 2);
					p64(d, 8, 256);
					p64(d, 16, c.second.second);
					t[{ c.first, 192, c.second.first }] = { transid - 1, d };
					if (!(c.second.second & 1)) {
						for (uint64_t o = 0; o < 64; o += 16) {
							vector<uint8_t> m(33);
							p64(m, 0, 1);
							p64(m, 8, transid - 1);
							p64(m, 16, 2); // TREE_BLOCK
							t[{ c.first + o * 1024, 169, 0 }] = { transid - 1, m };
						}
					}
				}
			} else if (id == 3) {
				for (auto &c : chunks) {
					vector<uint8_t> d(80);
					p64(d, 0, c.second.first);
					p64(d, 8, 2);
					p64(d, 16, 65536);
					p64(d, 24, c.second.second);
					p32(d, 40, 4096);
					p16(d, 44, 1);
					t[{ 256, 228, c.first }] = { 50, d };
				}
			} else {
				auto s = sv.find(id);
				if (s == sv.end() || s->second.dead) return nullptr;
				for (auto &n : s->second.in) {
					const Inode &x = n.second;
					vector<uint8_t> d(160);
					p64(d, 0, x.gen);
					p64(d, 8, x.transid);
					p64(d, 16, x.size);
					p64(d, 24, x.size);
					p32(d, 40, x.names.size());
					static const uint32_t modes[] = { 0100644, 040755, 0120777, 010644, 040755 };
					p32(d, 52, modes[x.kind]);
					p64(d, 64, x.flags);
					t[{ n.first, 1, 0 }] = { x.transid, d };
					size_t k = 100;
					for (auto &nm : x.names) {
						vector<uint8_t> e(10);
						p64(e, 0, k);
						p16(e, 8, nm.second.size());
						e.insert(e.end(), nm.second.begin(), nm.second.end());
						t[{ n.first, 12, nm.first + (k++ == 100 ? 0 : k) }] = { x.gen, e };
					}
					for (auto &f : x.fe) {
						const FileExtent &y = f.second;
						vector<uint8_t> e(y.type == FE_INLINE ? 21 + y.len : 53);
						p64(e, 0, y.gen);
						uint64_t ram = y.len, disk = 0;
						uint8_t comp = 0;
						if (y.type == FE_INLINE) {
							uint8_t b[BS];
							content.bytes(y.inl, b);
							memcpy(e.data() + 21, b, y.len);
						} else if (y.bytenr) {
							auto p = px.find(y.bytenr);
							if (p != px.end()) { ram = p->second.ram; disk = p->second.disk; comp = p->second.comp; }
						}
						p64(e, 8, ram);
						e[16] = comp;
						e[20] = y.type;
						if (y.type != FE_INLINE) {
							p64(e, 21, y.bytenr);
							p64(e, 29, disk);
							p64(e, 37, y.eoff);
							p64(e, 45, y.len);
						}
						t[{ n.first, 108, f.first }] = { y.transid, e };
					}
				}
			}
			return &(tree_cache[id] = std::move(t));
		}
		// ---- namespace
		// Paths of an inode relative to its subvolume
		vector<string> paths(Subvol &s, uint64_t ino, int depth = 0)
		{
			vector<string> rv;
			if (ino == 256) { rv.push_back(""); return rv; }
			auto i = s.in.find(ino);
			if (i == s.in.end() || depth > 20) return rv;
			for (auto &nm : i->second.names) {
				for (auto &p : paths(s, nm.first, depth + 1)) rv.push_back(p.empty() ? nm.second : p + "/" + nm.second);
			}
			return rv;
		}
		uint64_t allocated() { uint64_t t = 0; auto &r = refs(); for (auto &p : px) if (r.count(p.first)) t += p.second.disk; return t; }
	};

	// ---------------------------------------------------------------- serialization
	struct Ar {
		string out;
		const char *in = nullptr, *end = nullptr;
		bool rd = false;
		void raw(void *p, size_t n)
		{
			if (rd) { if (size_t(end - in) < n) abort(); memcpy(p, in, n); in += n; }
			else out.append(static_cast<const char *>(p), n);
		}
	};
	template <class T> typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type io(Ar &a, T &t) { a.raw(&t, sizeof(t)); }
	inline void io(Ar &a, string &s) { size_t n = s.size(); io(a, n); if (a.rd) s.resize(n); if (n) a.raw(&s[0], n); }
	template <class A, class B> void io(Ar &a, pair<A, B> &p) { io(a, p.first); io(a, p.second); }
	template <class T> void io(Ar &a, vector<T> &v) { size_t n = v.size(); io(a, n); if (a.rd) { v.clear(); v.resize(n); } for (auto &i : v) io(a, i); }
	template <class T> void io(Ar &a, set<T> &v)
	{
		size_t n = v.size(); io(a, n);
		if (a.rd) { v.clear(); while (n--) { T t; io(a, t); v.insert(v.end(), t); } }
		else for (auto i : v) io(a, i);
	}
	template <class K, class V> void io(Ar &a, map<K, V> &m);
	inline void io(Ar &a, FileExtent &f) { io(a, f.len); io(a, f.type); io(a, f.bytenr); io(a, f.eoff); io(a, f.gen); io(a, f.transid); io(a, f.inl); }
	inline void io(Ar &a, PhysExtent &p) { io(a, p.serial); io(a, p.disk); io(a, p.ram); io(a, p.comp); io(a, p.gen); io(a, p.transid); io(a, p.ids); io(a, p.toxic); io(a, p.fail_resolve); io(a, p.bad); io(a, p.freed); }
	inline void io(Ar &a, Inode &n)
	{
		io(a, n.ino); io(a, n.size); io(a, n.transid); io(a, n.gen); io(a, n.kind); io(a, n.flags); io(a, n.fsfl); io(a, n.mtime);
		io(a, n.names); io(a, n.fe); io(a, n.overlay); io(a, n.entries); io(a, n.target); io(a, n.tmp); io(a, n.raw); io(a, n.trouble); io(a, n.rawdata);
	}
	inline void io(Ar &a, Subvol &s) { io(a, s.id); io(a, s.parent); io(a, s.dirid); io(a, s.transid); io(a, s.gen); io(a, s.name); io(a, s.ro); io(a, s.dead); io(a, s.send); io(a, s.ro_since); io(a, s.next_ino); io(a, s.in); }
	inline void io(Ar &a, Content &c)
	{
		io(a, c.foreign);
		if (a.rd) { c.index.clear(); for (size_t i = 0; i < c.foreign.size(); ++i) c.index[Content::fnv(reinterpret_cast<const uint8_t *>(c.foreign[i].data()))].push_back(i); }
	}
	template <class K, class V> void io(Ar &a, map<K, V> &m)
	{
		size_t n = m.size(); io(a, n);
		if (a.rd) { m.clear(); while (n--) { K k; io(a, k); io(a, m[k]); } }
		else for (auto &i : m) { K k = i.first; io(a, k); io(a, i.second); }
	}
	inline void io(Ar &a, Fs &f)
	{
		io(a, f.content); io(a, f.sv); io(a, f.px); io(a, f.chunks); io(a, f.next_bytenr); io(a, f.next_subvol); io(a, f.next_serial); io(a, f.transid); io(a, f.clock);
		io(a, f.next_fd); io(a, f.sectorsize); io(a, f.reuse); io(a, f.compressible); io(a, f.no_holes); io(a, f.mods); io(a, f.free_space); io(a, f.user_bytenr);
		if (a.rd) { f.fds.clear(); f.refs_mods = f.tree_mods = UINT64_MAX; f.mods++; }
	}
}
#endif
