// C12 metadata searches and C11 extent maps, on a simulated metadata tree.
#include "pbt.h"
#include "treesearch.h"

#include "crucible/btrfs.h"
#include "crucible/btrfs-tree.h"
#include "crucible/extentwalker.h"
#include "crucible/fs.h"

#include <cstdarg>
#include <dlfcn.h>
#include <set>
#include <sys/stat.h>

using namespace crucible;
using namespace std;
using namespace pbt;

static const int FAKE_FD = 900002;

namespace kernel {
	static map<uint64_t, ts::Tree> trees;
	static uint32_t sectorsize = 4096;
	static uint16_t csum_type = 0, csum_size = 4;
	static uint64_t st_ino = 256, st_size = 0, root_id = 5;
	static uint64_t searches, search_limit;
	static uint64_t overflow_seen;

	static int do_ioctl(unsigned long req, void *p)
	{
		switch (req) {
			case BTRFS_IOC_TREE_SEARCH_V2: {
				auto a = static_cast<btrfs_ioctl_search_args_v2 *>(p);
				if (++searches > search_limit && search_limit) PBT_FAIL("no answer after " << search_limit << " metadata searches; the last one started at key (" << a->key.min_objectid << " " << a->key.min_type << " " << a->key.min_offset << ")");
				auto t = trees.find(a->key.tree_id ? a->key.tree_id : root_id);
				if (t == trees.end()) { errno = ENOENT; return -1; }
				const int rv = ts::search(t->second, a);
				if (rv) { ++overflow_seen; errno = -rv; return -1; }
				return 0;
			}
			case BTRFS_IOC_FS_INFO: {
				auto a = static_cast<btrfs_ioctl_fs_info_args_v3 *>(p);
				a->num_devices = 1;
				a->max_id = 1;
				a->nodesize = 16384;
				a->sectorsize = sectorsize;
				a->clone_alignment = sectorsize;
				static_cast<btrfs_ioctl_fs_info_args_v3 *>(a)->csum_type = csum_type;
				static_cast<btrfs_ioctl_fs_info_args_v3 *>(a)->csum_size = csum_size;
				return 0;
			}
			case BTRFS_IOC_INO_LOOKUP: {
				auto a = static_cast<btrfs_ioctl_ino_lookup_args *>(p);
				a->treeid = root_id;
				return 0;
			}
		}
		errno = ENOTTY;
		return -1;
	}
}

extern "C" int
ioctl(int fd, unsigned long req, ...) noexcept
{
	va_list ap;
	va_start(ap, req);
	void *p = va_arg(ap, void *);
	va_end(ap);
	// exceptions may not leave through a noexcept C function: run the model outside of it
	if (fd == FAKE_FD) return kernel::do_ioctl(req, p);
	static auto real = reinterpret_cast<int (*)(int, unsigned long, void *)>(dlsym(RTLD_NEXT, "ioctl"));
	return real(fd, req, p);
}
extern "C" int
close(int fd)
{
	if (fd == FAKE_FD) return 0;
	static auto real = reinterpret_cast<int (*)(int)>(dlsym(RTLD_NEXT, "close"));
	return real(fd);
}
template <class S> static int fake_stat(S *st)
{
	memset(st, 0, sizeof(*st));
	st->st_ino = kernel::st_ino;
	st->st_size = off_t(kernel::st_size);
	st->st_mode = S_IFREG | 0644;
	st->st_blksize = 4096;
	return 0;
}
extern "C" int
fstat(int fd, struct stat *st)   // fstat64 in the object file noexcept
{
	if (fd == FAKE_FD) return fake_stat(st);
	static auto real = reinterpret_cast<int (*)(int, struct stat *)>(dlsym(RTLD_NEXT, "fstat64"));
	return real(fd, st);
}

static vector<uint8_t> bytes(uint64_t seed, size_t n)
{
	Rng r(seed);
	vector<uint8_t> v(n);
	for (auto &x : v) x = uint8_t(r.next() >> 24);
	return v;
}
static void put64(vector<uint8_t> &v, size_t off, uint64_t x) { for (size_t i = 0; i < 8; ++i) v.at(off + i) = uint8_t(x >> (8 * i)); }
static uint64_t le64(const vector<uint8_t> &v, size_t off) { uint64_t x = 0; for (size_t i = 8; i-- > 0; ) x = x << 8 | v.at(off + i); return x; }

static void reset_kernel()
{
	kernel::trees.clear();
	kernel::sectorsize = 4096;
	kernel::csum_type = 0;
	kernel::csum_size = 4;
	kernel::searches = 0;
	kernel::search_limit = 20000;
	kernel::overflow_seen = 0;
	kernel::root_id = 5;
	BtrfsIoctlSearchKey::s_debug_ostream.reset();
}

// ---------------------------------------------------------------------------
// C12

namespace c12 {
	static const uint64_t MAXU = ~uint64_t(0);

	static size_t item_size()
	{
		switch (weighted({60, 25, 6, 4, 3})) {
			case 0: return 24 + draw(80);
			case 1: return 100 + draw(900);
			case 2: return 3900 + draw(300);
			case 3: return 16384 - 40 + draw(60);
			default: return draw(65410 - 16384) + 16384;
		}
	}

	// A set of increasing positions with clusters and gaps
	static vector<uint64_t> positions(unsigned n, uint64_t unit, uint64_t limit)
	{
		set<uint64_t> s;
		Rng r(draw(1u << 30));
		const unsigned style = unsigned(draw(4));
		uint64_t p = style == 3 ? 0 : r.below(1ull << (4 + r.below(50)));
		for (unsigned i = 0; i < n; ++i) {
			s.insert(min(p, limit) * unit);
			uint64_t gap = 1;
			switch (style) {
				case 0: gap = 1 + r.below(4); break;
				case 1: gap = 1 + r.below(1ull << r.below(20)); break;
				case 2: gap = 1 + r.below(1ull << r.below(56)); break;
				case 3: gap = r.below(5) ? 1 : 1 + r.below(1ull << r.below(44)); break;
				default: gap = r.below(10) ? 1 : 1 + r.below(100000); break;
			}
			if (p > limit - min(gap, limit)) { p = limit; } else p += gap;
		}
		return vector<uint64_t>(s.begin(), s.end());
	}

	struct Ref { bool found = false; ts::Key k {}; ts::Item it; };

	static string show(const Ref &r)
	{
		if (!r.found) return "nothing";
		ostringstream os;
		os << "(" << r.k.obj << " " << unsigned(r.k.type) << " " << r.k.off << ")";
		return os.str();
	}
	static string show(const BtrfsTreeItem &i)
	{
		if (!i) return "nothing";
		ostringstream os;
		os << "(" << i.objectid() << " " << unsigned(i.type()) << " " << i.offset() << ")";
		return os.str();
	}
	static void match(const BtrfsTreeItem &got, const Ref &want, const string &op)
	{
		if (!got == want.found) PBT_FAIL(op << " returned " << show(got) << ", expected " << show(want));
		if (!want.found) return;
		ts::Key k { got.objectid(), got.type(), got.offset() };
		if (!(k == want.k)) PBT_FAIL(op << " returned " << show(got) << ", expected " << show(want));
		PBT_EQ(got.transid(), want.it.transid, op);
		PBT_CHECK(got.data().size() == want.it.data.size() && (want.it.data.empty() || !memcmp(got.data().data(), want.it.data.data(), want.it.data.size())), op << ": contents of the item differ");
	}

	// The items one fetcher is about, as a sorted list of (position, item)
	struct Model {
		map<uint64_t, Ref> m;
		Ref at(uint64_t p) const { auto i = m.find(p); return i == m.end() ? Ref() : i->second; }
		Ref ge(uint64_t p) const { auto i = m.lower_bound(p); return i == m.end() ? Ref() : i->second; }
		Ref le(uint64_t p) const { auto i = m.upper_bound(p); if (i == m.begin()) return Ref(); --i; return i->second; }
	};

	static uint64_t near_position(const vector<uint64_t> &all, uint64_t unit, uint64_t limit)
	{
		uint64_t p;
		switch (weighted({6, 6, 2, 1})) {
			case 0: p = all.empty() ? 0 : pick(all); break;
			case 1: {
				p = all.empty() ? 0 : pick(all);
				const uint64_t d = (1 + edgy(1000)) * unit;
				if (chance(1, 2)) p = p > d ? p - d : 0; else p = p < limit * unit - d ? p + d : limit * unit;
				break;
			}
			case 2: p = edgy(limit) * unit; break;
			default: p = chance(1, 2) ? 0 : limit * unit; break;
		}
		return p / unit * unit;
	}

	static void queries(BtrfsTreeFetcher &f, const Model &m, const vector<uint64_t> &all, uint64_t unit, uint64_t limit, unsigned n)
	{
		bool hit = false, miss = false;
		for (unsigned i = 0; i < n; ++i) {
			const uint64_t p = near_position(all, unit, limit);
			const unsigned op = unsigned(draw(4));
			ostringstream os;
			static const char *name[] = { "at", "lower_bound", "rlower_bound", "next", "prev" };
			os << name[op] << "(" << p << ")";
			PBT_DESC("  " << os.str());
			kernel::searches = 0;
			// Backward and forward searches step over the other items four at a time
			kernel::search_limit = 2000 + 600 * kernel::trees[f.tree()].size();
			BtrfsTreeItem got;
			Ref want;
			switch (op) {
				case 0: got = f.at(p); want = m.at(p); break;
				case 1: got = f.lower_bound(p); want = m.ge(p); break;
				case 2: got = f.rlower_bound(p); want = m.le(p); break;
				case 3: got = f.next(p); want = m.ge(p + 1); break;
				default: got = f.prev(p); want = p ? m.le(p - 1) : Ref(); break;
			}
			match(got, want, os.str());
			(want.found ? hit : miss) = true;
		}
		if (hit && all.size() > 4) nontrivial();
		if (hit && miss) label("found and not found");
	}

	static void object_fetcher()
	{
		reset_kernel();
		const unsigned kind = unsigned(draw(2));   // 0 extent items, 1 inodes, 2 roots
		const uint64_t unit = kind == 0 ? (kernel::sectorsize = draw(3) ? 4096 : 65536) : 1;
		const uint64_t limit = kind == 0 ? (1ull << 50) : draw(1) ? (1ull << 40) : MAXU - 256;
		const uint64_t tree = kind == 0 ? BTRFS_EXTENT_TREE_OBJECTID : kind == 1 ? 256 + draw(1000) : BTRFS_ROOT_TREE_OBJECTID;
		const uint8_t type = kind == 0 ? BTRFS_EXTENT_ITEM_KEY : kind == 1 ? BTRFS_INODE_ITEM_KEY : draw(1) ? BTRFS_ROOT_ITEM_KEY : BTRFS_ROOT_BACKREF_KEY;
		auto all = positions(unsigned(range(1, 60)), unit, limit);
		Rng r(draw(1u << 30));
		ts::Tree &t = kernel::trees[tree];
		Model m;
		const bool filter = chance(1, 4);
		const uint64_t tmin = filter ? 10 : 0, tmax = filter ? 20 : MAXU;
		static const vector<uint8_t> others { 1, 12, 84, 96, 108, 132, 144, 156, 168, 169, 176, 192 };
		const unsigned want_pct = unsigned(pick(vector<unsigned> { 100, 80, 40, 10 }));
		const bool big = chance(1, 5);
		for (auto p : all) {
			if (r.below(100) < want_pct) {
				Ref ref;
				ref.found = true;
				ref.k = { p, type, kind == 2 ? r.below(3) : kind == 1 ? 0 : (1 + r.below(100)) * unit };
				ref.it = { 5 + r.below(20), bytes(r.next(), big ? item_size() : 24 + r.below(200)) };
				t[ref.k] = ref.it;
				if (ref.it.transid >= tmin && ref.it.transid <= tmax) m.m[p] = ref;
			}
			const unsigned extra = unsigned(r.below(r.below(10) ? 3 : 30));
			for (unsigned i = 0; i < extra; ++i) {
				const uint8_t ot = others[r.below(others.size())];
				if (ot == type) continue;
				t[ts::Key { p, ot, r.below(4) ? r.below(100000) : MAXU - r.below(2) }] = ts::Item { 5 + r.below(20), bytes(r.next(), r.below(300)) };
			}
		}
		PBT_DESC("tree " << tree << " type " << unsigned(type) << ", " << t.size() << " items, " << m.m.size() << " of interest, positions in units of " << unit << (filter ? ", transid 10..20" : ""));
		if (t.size() > m.m.size() * 3) label("mostly other items");
		if (big) label("large items");
		Fd fd(FAKE_FD);
		unique_ptr<BtrfsTreeFetcher> f;
		switch (kind) {
			case 0: f.reset(new BtrfsExtentItemFetcher(fd)); break;
			case 1: f.reset(new BtrfsInodeFetcher(fd)); f->tree(tree); break;
			default: f.reset(new BtrfsRootFetcher(fd)); f->type(type); break;
		}
		if (filter) f->transid(tmin, tmax);
		if (chance(1, 3)) f->lookbehind_size(unit * (1 + draw(64)));
		queries(*f, m, all, unit, limit, unsigned(range(1, 12)));
		// Convenience lookups
		if (kind == 1) {
			const uint64_t p = near_position(all, 1, limit);
			BtrfsInodeFetcher bif(fd);
			bif.transid(tmin, tmax);
			match(bif.stat(tree, p), m.at(p), "stat(" + to_string(p) + ")");
		}
		if (kind == 2) {
			const uint64_t p = near_position(all, 1, limit);
			BtrfsRootFetcher brf(fd);
			brf.transid(tmin, tmax);
			match(type == BTRFS_ROOT_ITEM_KEY ? brf.root(p) : brf.root_backref(p), m.at(p), "root lookup " + to_string(p));
		}
	}

	static void offset_fetcher()
	{
		reset_kernel();
		const uint64_t unit = kernel::sectorsize = draw(3) ? 4096 : 65536;
		const uint64_t limit = (draw(1) ? (1ull << 30) : (1ull << 62) / unit) - 1;
		const uint64_t tree = 256 + draw(10);
		const uint64_t ino = 257 + (chance(1, 8) ? MAXU - 300 : draw(1000));
		auto all = positions(unsigned(range(1, 60)), unit, limit);
		Rng r(draw(1u << 30));
		ts::Tree &t = kernel::trees[tree];
		Model m;
		const bool filter = chance(1, 4);
		const uint64_t tmin = filter ? 10 : 0, tmax = filter ? 20 : MAXU;
		const bool big = chance(1, 5);
		for (auto p : all) {
			Ref ref;
			ref.found = true;
			ref.k = { ino, BTRFS_EXTENT_DATA_KEY, p };
			ref.it = { 5 + r.below(20), bytes(r.next(), big ? item_size() : 53) };
			t[ref.k] = ref.it;
			if (ref.it.transid >= tmin && ref.it.transid <= tmax) m.m[p] = ref;
		}
		// neighbours: other types of this inode and other inodes
		for (unsigned i = 0; i < 20; ++i) {
			const uint64_t o = r.below(3) ? ino - 1 + r.below(3) : ino;
			const uint8_t ty = uint8_t(r.below(2) ? BTRFS_EXTENT_DATA_KEY : r.below(2) ? 1 + r.below(107) : 109 + r.below(100));
			if (o == ino && ty == BTRFS_EXTENT_DATA_KEY) continue;
			t[ts::Key { o, ty, r.below(1u << 20) * unit }] = ts::Item { 5 + r.below(20), bytes(r.next(), 53) };
		}
		PBT_DESC("tree " << tree << " inode " << ino << ", " << all.size() << " extents, " << m.m.size() << " in the generation range");
		Fd fd(FAKE_FD);
		BtrfsExtentDataFetcher f(fd);
		f.tree(tree);
		f.objectid(ino);
		if (filter) f.transid(tmin, tmax);
		if (chance(1, 3)) f.lookbehind_size(unit * (1 + draw(64)));
		if (big) label("large items");
		queries(f, m, all, unit, limit, unsigned(range(1, 12)));
		// the same fetcher pointed at another inode must not return items of the first
		f.objectid(ino + 1);
		Model m2;
		for (auto &i : t) if (i.first.obj == ino + 1 && i.first.type == BTRFS_EXTENT_DATA_KEY && i.second.transid >= tmin && i.second.transid <= tmax) { Ref q; q.found = true; q.k = i.first; q.it = i.second; m2.m[i.first.off] = q; }
		queries(f, m2, all, unit, limit, 2);
	}

	// Data extents, with metadata extents in their own chunks
	static void data_extents()
	{
		reset_kernel();
		Rng r(draw(1u << 30));
		const unsigned nchunks = unsigned(range(1, 8));
		ts::Tree &ct = kernel::trees[BTRFS_CHUNK_TREE_OBJECTID];
		ts::Tree &et = kernel::trees[BTRFS_EXTENT_TREE_OBJECTID];
		struct Chunk { uint64_t begin, end, type; };
		vector<Chunk> chunks;
		Model data, any;
		vector<uint64_t> all;
		uint64_t p = draw(1) ? 0 : 4096 * (1 + r.below(1 << 20));
		Msg msg;
		bool any_gap = false;
		for (unsigned i = 0; i < nchunks; ++i) {
			const uint64_t len = 4096 * (16 + r.below(512));
			const uint64_t type = r.below(3) ? (r.below(6) ? uint64_t(BTRFS_BLOCK_GROUP_DATA) : BTRFS_BLOCK_GROUP_DATA | BTRFS_BLOCK_GROUP_METADATA) : r.below(2) ? uint64_t(BTRFS_BLOCK_GROUP_METADATA) : uint64_t(BTRFS_BLOCK_GROUP_SYSTEM);
			chunks.push_back({ p, p + len, type });
			vector<uint8_t> d(80);
			put64(d, 0, len);
			put64(d, 24, type | (r.below(2) ? uint64_t(BTRFS_BLOCK_GROUP_DUP) : 0));
			ct[ts::Key { BTRFS_FIRST_CHUNK_TREE_OBJECTID, BTRFS_CHUNK_ITEM_KEY, p }] = ts::Item { 7, d };
			et[ts::Key { p, BTRFS_BLOCK_GROUP_ITEM_KEY, len }] = ts::Item { 7, bytes(1, 24) };
			uint64_t q = p + 4096 * r.below(20);
			const bool mixed_skinny = r.below(2);
			while (q < p + len) {
				const bool meta = type & BTRFS_BLOCK_GROUP_DATA ? (type & BTRFS_BLOCK_GROUP_METADATA) && r.below(3) == 0 : true;
				uint64_t elen = meta ? 16384 : 4096 * (1 + r.below(r.below(4) ? 4 : 32));
				if (q + elen > p + len) break;
				const bool skinny = meta && mixed_skinny;
				const ts::Key k { q, uint8_t(skinny ? BTRFS_METADATA_ITEM_KEY : BTRFS_EXTENT_ITEM_KEY), skinny ? r.below(3) : elen };
				const ts::Item it { 5 + r.below(20), bytes(r.next(), 24 + r.below(100)) };
				et[k] = it;
				if (!skinny) {
					Ref ref;
					ref.found = true;
					ref.k = k;
					ref.it = it;
					any.m[q] = ref;
					if (!meta) data.m[q] = ref;
				}
				all.push_back(q);
				q += elen;
				if (r.below(3) == 0) q += 4096 * r.below(r.below(4) ? 4 : 64);
			}
			msg << " " << p << "+" << len << (type & BTRFS_BLOCK_GROUP_DATA ? "D" : "") << (type & BTRFS_BLOCK_GROUP_METADATA ? "M" : "");
			p += len;
			if (r.below(2)) { p += 4096 * (1 + r.below(r.below(2) ? 8 : 1 << 18)); any_gap = true; }
		}
		PBT_DESC("chunks" << msg.os.str() << ": " << data.m.size() << " data extents, " << any.m.size() - data.m.size() << " metadata extents with the same key type");
		if (any_gap) label("gaps between chunks");
		if (all.empty()) all.push_back(0);
		Fd fd(FAKE_FD);
		BtrfsDataExtentTreeFetcher f(fd);
		const uint64_t limit = p / 4096 + 100;
		bool crossed = false;
		for (unsigned i = 0, n = unsigned(range(1, 12)); i < n; ++i) {
			kernel::searches = 0;
			kernel::search_limit = 20000 + 600 * et.size();
			const uint64_t pos = near_position(all, 4096, limit);
			const bool up = !chance(1, 4);
			const string op = (up ? "lower_bound(" : "rlower_bound(") + to_string(pos) + ")";
			PBT_DESC("  " << op);
			const BtrfsTreeItem got = up ? f.lower_bound(pos) : f.rlower_bound(pos);
			const Ref want = up ? data.ge(pos) : data.le(pos);
			if (!got) {
				if (want.found) PBT_FAIL(op << " returned nothing, expected " << show(want));
				continue;
			}
			// whatever is returned exists
			const Ref exact = any.at(got.objectid());
			match(got, exact, op);
			if (up ? got.objectid() < pos : got.objectid() > pos) PBT_FAIL(op << " returned " << show(got) << " which is on the wrong side");
			// and no data extent was passed over
			if (want.found && (up ? got.objectid() > want.k.obj : got.objectid() < want.k.obj)) PBT_FAIL(op << " returned " << show(got) << ", passing over " << show(want));
			if (up && nchunks > 1) crossed = true;
		}
		// A complete forward walk sees every data extent once, in order
		kernel::searches = 0;
		uint64_t at = 0;
		set<uint64_t> seen;
		unsigned steps = 0;
		for (BtrfsTreeItem i = f.lower_bound(0); !!i; i = f.next(at)) {
			if (++steps > et.size() + 5) PBT_FAIL("forward walk does not end");
			if (seen.count(i.objectid()) || (!seen.empty() && i.objectid() < at)) PBT_FAIL("forward walk returned " << i.objectid() << " after " << at);
			at = i.objectid();
			seen.insert(at);
		}
		for (auto &d : data.m) if (!seen.count(d.first)) PBT_FAIL("forward walk missed the data extent at " << d.first);
		if (crossed && data.m.size() > 4) nontrivial();
	}

	// Raw key iteration with any batch and buffer size returns everything once
	static void raw()
	{
		reset_kernel();
		Rng r(draw(1u << 30));
		ts::Tree &t = kernel::trees[1000];
		const unsigned n = unsigned(range(1, 40));
		const bool big = chance(1, 2);
		size_t biggest = 0;
		for (unsigned i = 0; i < n; ++i) {
			const ts::Key k { r.below(8) ? r.below(20) : MAXU - 1 - r.below(2), uint8_t(r.below(4) ? 100 + r.below(4) : r.below(254)), r.below(6) ? r.below(1000) : MAXU - r.below(2) };
			t[k] = ts::Item { 1 + r.below(30), bytes(r.next(), big ? item_size() : r.below(200)) };
			biggest = max(biggest, t[k].data.size());
		}
		const uint64_t tmin = chance(1, 4) ? draw(30) : 0;
		const size_t bufsize = size_t(pick(vector<size_t> { 1, 32, 100, 4096, 5000, 16384, 65536 }));
		const unsigned batch = unsigned(pick(vector<unsigned> { 1, 2, 4, 16, 4096 }));
		PBT_DESC(t.size() << " items, largest " << biggest << ", buffer " << bufsize << ", batch " << batch << ", transid >= " << tmin);
		BtrfsIoctlSearchKey sk(bufsize);
		sk.tree_id = 1000;
		sk.min_transid = tmin;
		auto want = t.begin();
		auto skip = [&]() { while (want != t.end() && want->second.transid < tmin) ++want; };
		skip();
		unsigned calls = 0;
		const Fd fd(FAKE_FD);
		while (true) {
			sk.nr_items = batch;
			sk.do_ioctl(fd);
			if (++calls > 500) PBT_FAIL("iteration does not end");
			PBT_EQ(size_t(sk.nr_items), sk.m_result.size(), "items reported and items returned");
			if (sk.m_result.empty()) break;
			if (sk.m_result.size() > batch) PBT_FAIL("more items than asked for");
			for (auto &i : sk.m_result) {
				if (want == t.end()) PBT_FAIL("extra item (" << i.objectid << " " << i.type << " " << i.offset << ")");
				const ts::Key k { i.objectid, uint8_t(i.type), i.offset };
				if (!(k == want->first)) PBT_FAIL("item (" << i.objectid << " " << i.type << " " << i.offset << ") returned where (" << want->first.obj << " " << unsigned(want->first.type) << " " << want->first.off << ") was next");
				PBT_EQ(i.transid, want->second.transid, "transid");
				PBT_CHECK(i.m_data.size() == want->second.data.size() && (want->second.data.empty() || !memcmp(i.m_data.data(), want->second.data.data(), want->second.data.size())), "data of item");
				++want;
				skip();
				sk.next_min(i);
			}
		}
		if (want != t.end()) PBT_FAIL("item (" << want->first.obj << " " << unsigned(want->first.type) << " " << want->first.off << ") of " << want->second.data.size() << " bytes was never returned");
		if (biggest > 16352) label("item larger than 16K");
		if (t.size() > 3 && calls > 2) nontrivial();
	}

	// Checksums of any range
	static void csums()
	{
		reset_kernel();
		Rng r(draw(1u << 30));
		const uint64_t bs = kernel::sectorsize = draw(3) ? 4096 : 65536;
		const unsigned ct = unsigned(draw(4));
		kernel::csum_type = uint16_t(ct ? ct - 1 : 0);
		kernel::csum_size = uint16_t(pick(vector<unsigned> { 0, 4, 8, 32, 32 }));
		if (ct == 0) kernel::csum_size = 0, kernel::csum_type = 0;   // old kernel
		else if (kernel::csum_size == 0) kernel::csum_size = 4;
		const size_t ss = kernel::csum_size ? kernel::csum_size : 4;
		ts::Tree &t = kernel::trees[BTRFS_CSUM_TREE_OBJECTID];
		map<uint64_t, vector<uint8_t>> sums;     // block address -> checksum
		const unsigned n = unsigned(range(1, 20));
		uint64_t p = bs * r.below(1 << 20);
		const uint64_t first = p;
		vector<uint64_t> all;
		for (unsigned i = 0; i < n; ++i) {
			const size_t maxcount = min<size_t>(4096, 60000 / ss);
			const size_t count = 1 + r.below(r.below(5) ? 20 : maxcount);
			const auto d = bytes(r.next(), count * ss);
			t[ts::Key { BTRFS_EXTENT_CSUM_OBJECTID, BTRFS_EXTENT_CSUM_KEY, p }] = ts::Item { 5, d };
			all.push_back(p);
			for (size_t k = 0; k < count; ++k) sums[p + k * bs] = vector<uint8_t>(d.begin() + ptrdiff_t(k * ss), d.begin() + ptrdiff_t((k + 1) * ss));
			p += count * bs;
			all.push_back(p);
			if (r.below(2)) p += bs * (1 + r.below(r.below(3) ? 10 : 1 << 22));
		}
		Fd fd(FAKE_FD);
		BtrfsCsumTreeFetcher f(fd);
		PBT_EQ(f.sum_size(), ss, "checksum size");
		for (unsigned q = 0, nq = unsigned(range(1, 6)); q < nq; ++q) {
			uint64_t start = pick(all);
			const uint64_t d = draw(30) * bs;
			if (chance(1, 2)) start = start > d ? start - d : 0; else start += d;
			const size_t count = 1 + (chance(1, 3) ? draw(20000) : draw(60));
			const uint64_t end = start + count * bs;
			PBT_DESC(t.size() << " checksum items from " << first << ", size " << ss << ", block " << bs << ": get_sums(" << start << ", " << count << ")");
			map<uint64_t, vector<uint8_t>> got;
			kernel::searches = 0;
			kernel::search_limit = 200000;
			f.get_sums(start, count, [&](uint64_t logical, const uint8_t *buf, size_t len) {
				if (len % ss) PBT_FAIL("partial checksum delivered");
				for (size_t k = 0; k < len / ss; ++k) {
					const uint64_t a = logical + k * bs;
					if (!got.insert({ a, vector<uint8_t>(buf + k * ss, buf + (k + 1) * ss) }).second) PBT_FAIL("checksum of " << a << " delivered twice");
				}
			});
			for (auto &g : got) {
				if (g.first < start || g.first >= end) PBT_FAIL("checksum of " << g.first << " is outside the range");
				auto w = sums.find(g.first);
				if (w == sums.end()) PBT_FAIL("checksum delivered for " << g.first << " which has none");
				if (w->second != g.second) PBT_FAIL("wrong checksum for " << g.first);
			}
			for (auto w = sums.lower_bound(start); w != sums.end() && w->first < end; ++w) if (!got.count(w->first)) PBT_FAIL("checksum of " << w->first << " was not delivered for range " << start << ".." << end);
			if (got.size() > 1 && t.size() > 1) nontrivial();
		}
	}

	static void root_transid()
	{
		reset_kernel();
		Rng r(draw(1u << 30));
		ts::Tree &t = kernel::trees[BTRFS_ROOT_TREE_OBJECTID];
		kernel::root_id = 5 + draw(300);
		uint64_t want = 0;
		const unsigned n = unsigned(range(0, 1));
		for (unsigned i = 0; i < n; ++i) {
			const uint64_t tid = 1 + r.below(1000);
			t[ts::Key { kernel::root_id, BTRFS_ROOT_ITEM_KEY, r.below(100) }] = ts::Item { tid, bytes(r.next(), 439) };
		}
		for (auto &i : t) want = max(want, le64(i.second.data, 160));
		for (unsigned i = 0; i < 10; ++i) {
			const uint64_t o = kernel::root_id - 2 + r.below(5);
			const uint8_t ty = uint8_t(r.below(2) ? BTRFS_ROOT_ITEM_KEY : BTRFS_ROOT_BACKREF_KEY);
			if (o == kernel::root_id && ty == BTRFS_ROOT_ITEM_KEY) continue;
			t[ts::Key { o, ty, r.below(100) }] = ts::Item { 1 + r.below(2000), bytes(r.next(), 439) };
		}
		PBT_DESC("root " << kernel::root_id << " with " << n << " items");
		PBT_EQ(btrfs_get_root_transid(Fd(FAKE_FD)), want, "transid of root " << kernel::root_id);
		if (n) nontrivial();
	}
}

#include "meta2.h"

int
main(int argc, char **argv)
{
	vector<Property> props;
	{
		Property p;
		p.id = "C12";
		p.level = "exploration";
		p.rule = "Generated metadata trees (clustered, sparse and extreme keys, interleaved item types, item sizes to 64K, generation filters, sector sizes) behind an emulation of the kernel's search ioctl; every lookup of every fetcher compared with a sorted map, raw iteration with any batch and buffer size compared with the whole tree, checksum ranges compared with per-block checksums. Non-trivial: something was found among more than four items (fetchers), a walk over several chunks, several batches, several checksum items. Distinct by choice sequence.";
		p.assumptions = { "the search ioctl behaves as the kernel's search_ioctl/copy_to_sk do", "object ids reach 2^64-2, aligned positions 2^62" };
		p.scenarios = {
			{ "objects", c12::object_fetcher, 12000, 400000, false, 60 },
			{ "offsets", c12::offset_fetcher, 12000, 400000, false, 60 },
			{ "data-extents", c12::data_extents, 6000, 200000, false, 60 },
			{ "raw", c12::raw, 12000, 400000, false, 60 },
			{ "csums", c12::csums, 6000, 200000, false, 60 },
			{ "root-transid", c12::root_transid, 2000, 20000, false, 60 },
		};
		props.push_back(p);
	}
	meta2_props(props);
	return run_main(argc, argv, props);
}
