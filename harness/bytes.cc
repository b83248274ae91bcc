// C22 byte buffers and metadata decoding, built with AddressSanitizer and UBSan.
#include "pbt.h"

#include "crucible/btrfs-tree.h"
#include "crucible/bytevector.h"
#include "crucible/fs.h"
#include "crucible/hexdump.h"

#include <cstring>
#include <thread>

using namespace crucible;
using namespace std;
using namespace pbt;

namespace buf {
	// A buffer in the model is a window on a shared array.
	struct Ref {
		shared_ptr<vector<uint8_t>> base;
		size_t start = 0, len = 0;
		uint8_t &at(size_t i) const { return base->at(start + i); }
	};
	struct Slot { ByteVector bv; Ref ref; };

	static vector<uint8_t> bytes(size_t n)
	{
		Rng r(draw(1000000));
		vector<uint8_t> v(n);
		for (auto &x : v) x = uint8_t(r.next() >> 24);
		return v;
	}

	static void compare(const Slot &s, const string &op)
	{
		const auto &b = s.bv;
		const bool null = !s.ref.base;
		PBT_EQ(b.size(), s.ref.len, "after " << op);
		PBT_EQ(b.empty(), s.ref.len == 0, "after " << op);
		if (null) {
			PBT_CHECK(b.data() == nullptr, "after " << op);
			return;
		}
		PBT_CHECK(b.end() == b.begin() + s.ref.len && b.data() == b.begin(), "after " << op);
		for (size_t i = 0; i < s.ref.len; ++i) {
			if (b.begin()[i] != s.ref.at(i)) PBT_FAIL("byte " << i << " is " << unsigned(b.begin()[i]) << " instead of " << unsigned(s.ref.at(i)) << " after " << op);
		}
	}

	static uint64_t index_near(size_t len)
	{
		switch (weighted({5, 3, 2, 1})) {
			case 0: return draw(len);
			case 1: return len + draw(3);
			case 2: return draw(2) ? ~uint64_t(0) - draw(len + 2) : (uint64_t(1) << 63) + draw(4) - 2;
			default: return edgy(~uint64_t(0));
		}
	}

	template <class F> static bool throws(F f)
	{
		try { f(); } catch (const exception &) { return true; }
		return false;
	}

	static void run_ops(vector<Slot> &s, unsigned n, bool private_data)
	{
		(void)private_data;
		unsigned refused = 0, views = 0;
		Msg m;
		for (unsigned step = 0; step < n; ++step) {
			Slot &x = s[draw(s.size() - 1)];
			Slot &y = s[draw(s.size() - 1)];
			string op;
			switch (weighted({6, 3, 2, 4, 9, 5, 6, 6, 1, 4, 3, 2})) {
				case 0: {  // of a size
					const size_t sz = draw(40);
					x.bv = ByteVector(sz);
					const auto v = bytes(sz);
					if (sz) memcpy(x.bv.data(), v.data(), sz);
					x.ref = { make_shared<vector<uint8_t>>(v), 0, sz };
					op = "construct(" + to_string(sz) + ")";
					break;
				}
				case 1: {  // from iterators, with a minimum size
					auto v = bytes(draw(30));
					const size_t minsz = draw(40);
					x.bv = ByteVector(v.data(), v.data() + v.size(), minsz);
					op = "construct(" + to_string(v.size()) + " bytes, min " + to_string(minsz) + ")";
					const size_t given = v.size();
					v.resize(max(v.size(), minsz));
					PBT_EQ(x.bv.size(), v.size(), op);
					// bytes beyond those given are unspecified: define them
					for (size_t i = given; i < v.size(); ++i) { v[i] = uint8_t(i); x.bv[i] = uint8_t(i); }
					x.ref = { make_shared<vector<uint8_t>>(v), 0, v.size() };
					break;
				}
				case 2: {  // from a structure, with a minimum size
					struct S { uint8_t b[12]; } st;
					auto v = bytes(sizeof(st));
					memcpy(&st, v.data(), sizeof(st));
					const size_t minsz = draw(30);
					x.bv = ByteVector(st, minsz);
					v.resize(max(sizeof(st), minsz));
					PBT_EQ(x.bv.size(), v.size(), "structure of " << sizeof(st) << " with minimum size " << minsz);
					for (size_t i = sizeof(st); i < v.size(); ++i) { v[i] = uint8_t(i); x.bv[i] = uint8_t(i); }
					x.ref = { make_shared<vector<uint8_t>>(v), 0, v.size() };
					op = "construct(struct, min " + to_string(minsz) + ")";
					break;
				}
				case 3:  // assignment
					x.bv = y.bv;
					x.ref = y.ref;
					op = &x == &y ? "self-assign" : "assign";
					break;
				case 4: {  // view
					uint64_t start = index_near(y.ref.len), len = index_near(y.ref.len);
					if (start <= y.ref.len && chance(2, 3)) len = draw(y.ref.len - start);
					op = "view(" + to_string(start) + ", " + to_string(len) + ") of " + to_string(y.ref.len) + " bytes";
					const bool ok = y.ref.base && start <= y.ref.len && len <= y.ref.len - start;
					ByteVector v;
					const bool bad = throws([&]() { v = chance(1, 2) ? y.bv.at(start, len) : ByteVector(y.bv, start, len); });
					if (bad == ok) PBT_FAIL(op << (bad ? " was refused" : " was accepted"));
					if (ok) {
						Ref r = y.ref;
						r.start += start;
						r.len = len;
						x.bv = v;
						x.ref = r;
						++views;
					} else ++refused;
					break;
				}
				case 5: {  // checked index
					const uint64_t i = index_near(x.ref.len);
					op = "at(" + to_string(i) + ") of " + to_string(x.ref.len) + " bytes";
					const bool ok = i < x.ref.len;
					uint8_t got = 0;
					const bool bad = throws([&]() { got = x.bv.at(i); });
					if (bad == ok) PBT_FAIL(op << (bad ? " was refused" : " was accepted"));
					if (ok) PBT_EQ(unsigned(got), unsigned(x.ref.at(i)), op);
					else ++refused;
					break;
				}
				case 6: {  // write through one view, seen by all
					if (!x.ref.len) continue;
					const size_t i = draw(x.ref.len - 1);
					const uint8_t v = uint8_t(draw(255));
					if (chance(1, 2)) x.bv[i] = v; else x.bv.at(i) = v;
					x.ref.at(i) = v;
					op = "write [" + to_string(i) + "]";
					break;
				}
				case 7: {  // erase
					if (!x.ref.base) continue;
					const size_t len = x.ref.len;
					size_t a, b;
					bool one = false;
					switch (draw(4)) {
						case 0: a = 0; b = draw(len); break;
						case 1: a = draw(len); b = len; break;
						case 2: a = draw(len); b = a + draw(len - a); break;
						case 3: a = draw(len); b = len + draw(3); break;
						default: a = draw(1) ? 0 : draw(len); b = a + 1; one = true; break;
					}
					op = "erase [" + to_string(a) + ", " + to_string(b) + ") of " + to_string(len) + (one ? " (single)" : "");
					const bool empty = a == b;
					const bool ok = empty || (b <= len && (a == 0 || b == len));
					// pointers are formed inside the allocation or just past it
					const auto p = x.bv.begin();
					const bool bad = throws([&]() { if (one) x.bv.erase(p + a); else x.bv.erase(p + a, p + b); });
					if (bad == ok) PBT_FAIL(op << (bad ? " was refused" : " was accepted"));
					if (bad) ++refused;
					else if (!empty) {
						x.ref.len -= b - a;
						if (a == 0) {
							x.ref.start += b;
							if (b == len) x.ref = Ref();
						}
					}
					break;
				}
				case 8: x.bv.clear(); x.ref = Ref(); op = "clear"; break;
				case 9: {  // comparison
					op = &x == &y ? "self-compare" : "compare";
					bool want = x.ref.len == y.ref.len && !x.ref.base == !y.ref.base;
					for (size_t i = 0; want && i < x.ref.len; ++i) want = x.ref.at(i) == y.ref.at(i);
					if ((x.bv == y.bv) != want) PBT_FAIL(op << " gives " << !want);
					break;
				}
				case 10: {  // structure access
					struct S { uint8_t b[8]; };
					op = "get<8 bytes> of " + to_string(x.ref.len);
					const bool ok = x.ref.len >= sizeof(S);
					S *p = nullptr;
					const bool bad = throws([&]() { p = x.bv.get<S>(); });
					if (bad == ok) PBT_FAIL(op << (bad ? " was refused" : " was accepted"));
					if (ok) { for (size_t i = 0; i < 8; ++i) PBT_EQ(unsigned(p->b[i]), unsigned(x.ref.at(i)), op); }
					else ++refused;
					break;
				}
				default: {  // copy outlives the original
					ByteVector t(y.bv);
					Slot tmp { t, y.ref };
					compare(tmp, "copy");
					ostringstream os;
					os << t;
					op = "copy and print";
					break;
				}
			}
			m << " " << op << ";";
			for (auto &z : s) compare(z, op);
		}
		PBT_DESC(m.os.str());
		if (refused) label("a request was refused");
		if (views > 1) label("views of buffers");
		if (refused && views) nontrivial();
	}

	static void model()
	{
		vector<Slot> s(3);
		for (auto &x : s) if (chance(3, 4)) {
			const auto v = bytes(1 + draw(60));
			x.bv = ByteVector(v.size());
			memcpy(x.bv.data(), v.data(), v.size());
			x.ref = { make_shared<vector<uint8_t>>(v), 0, v.size() };
		}
		run_ops(s, unsigned(range(2, 40)), true);
	}

	// Several threads use overlapping pairs of buffers; nothing may block or tear.
	static void threads()
	{
		const unsigned nt = unsigned(range(2, 4));
		auto v = bytes(64);
		vector<ByteVector> shared;
		for (unsigned i = 0; i < 3; ++i) shared.push_back(ByteVector(v.data(), v.data() + 64));
		vector<uint64_t> seeds;
		for (unsigned t = 0; t < nt; ++t) seeds.push_back(draw(1000000));
		PBT_DESC(nt << " threads assigning, comparing and viewing three shared buffers of equal contents");
		string err;
		mutex em;
		vector<thread> th;
		for (unsigned t = 0; t < nt; ++t) th.emplace_back([&, t]() {
			Rng r(seeds[t]);
			for (unsigned i = 0; i < 300; ++i) {
				auto &x = shared[r.below(3)];
				auto &y = shared[r.below(3)];
				string e;
				switch (r.below(4)) {
					case 0: x = y; break;
					case 1: if (!(x == y)) e = "equal buffers compare different"; break;
					case 2: {
						const size_t a = r.below(64), n = r.below(65 - a);
						ByteVector w = x.at(a, n);
						for (size_t k = 0; k < n; ++k) if (w[k] != v[a + k]) e = "view shows wrong bytes";
						break;
					}
					default: {
						ByteVector w(x);
						if (w.size() != 64 || memcmp(w.data(), v.data(), 64)) e = "copy shows wrong bytes";
						w.erase(w.begin(), w.begin() + 5);
						if (w.size() != 59 || w.at(0) != v[5]) e = "erase on a copy went wrong";
						break;
					}
				}
				if (!e.empty()) { unique_lock<mutex> l(em); err = e; }
			}
		});
		for (auto &t : th) t.join();
		if (!err.empty()) fail(err);
		nontrivial();
	}
}

namespace decode {
	static uint64_t le(const vector<uint8_t> &v, size_t off, size_t n)
	{
		uint64_t x = 0;
		for (size_t i = n; i-- > 0; ) x = x << 8 | v[off + i];
		return x;
	}
	// On-disk layout, written down from the format documentation
	struct Field { const char *name; uint8_t type; size_t off, size; function<uint64_t(const BtrfsTreeItem &)> get; int form; };
	// form 0: plain; 1: not for inline extents; 2: needs a known extent type, inline reads ram_bytes
	static const vector<Field> &fields()
	{
		#define F(n, t, o, s, form) { #n, t, o, s, [](const BtrfsTreeItem &i) { return uint64_t(i.n()); }, form }
		static const vector<Field> f {
			F(extent_flags, 168, 16, 8, 0), F(extent_generation, 168, 8, 8, 0),
			F(root_ref_dirid, 144, 0, 8, 0),
			F(root_flags, 132, 208, 8, 0), F(root_refs, 132, 216, 4, 0),
			F(block_group_used, 192, 0, 8, 0), F(block_group_flags, 192, 16, 8, 0),
			F(chunk_length, 228, 0, 8, 0), F(chunk_type, 228, 24, 8, 0),
			F(dev_extent_chunk_offset, 204, 16, 8, 0), F(dev_extent_length, 204, 24, 8, 0),
			F(dev_item_total_bytes, 216, 8, 8, 0), F(dev_item_bytes_used, 216, 16, 8, 0),
			F(inode_size, 1, 16, 8, 0), F(inode_flags, 1, 64, 8, 0),
			F(file_extent_generation, 108, 0, 8, 0), F(file_extent_compression, 108, 16, 1, 0), F(file_extent_type, 108, 20, 1, 0),
			F(file_extent_bytenr, 108, 21, 8, 1), F(file_extent_offset, 108, 37, 8, 1), F(file_extent_logical_bytes, 108, 45, 8, 2),
		};
		#undef F
		return f;
	}

	static uint8_t gen_type()
	{
		static const vector<uint8_t> t { 1, 84, 96, 108, 128, 132, 144, 156, 168, 169, 192, 204, 216, 228 };
		return chance(1, 8) ? uint8_t(draw(255)) : pick(t);
	}

	struct Gen { uint64_t obj, off, transid; uint32_t type; vector<uint8_t> data; };

	static Gen gen_item()
	{
		Gen g;
		g.obj = edgy(~uint64_t(0));
		g.off = edgy(~uint64_t(0));
		g.transid = edgy(1000000);
		g.type = gen_type();
		const size_t maxlen = chance(1, 3) ? 500 : chance(1, 2) ? 60 : 25;
		g.data = buf::bytes(draw(maxlen));
		if (g.type == 108 && g.data.size() > 20 && chance(9, 10)) g.data[20] = uint8_t(draw(2));
		if (g.type == 144 && g.data.size() >= 18 && chance(3, 4)) {
			const size_t rest = g.data.size() - 18;
			const size_t n = chance(1, 2) ? draw(rest + 2) : rest;
			g.data[16] = uint8_t(n);
			g.data[17] = uint8_t(n >> 8);
		}
		return g;
	}

	static vector<uint8_t> encode(const Gen &g)
	{
		btrfs_ioctl_search_header h {};
		h.transid = g.transid;
		h.objectid = g.obj;
		h.offset = g.off;
		h.type = g.type;
		h.len = uint32_t(g.data.size());
		vector<uint8_t> v(sizeof(h));
		memcpy(v.data(), &h, sizeof(h));
		v.insert(v.end(), g.data.begin(), g.data.end());
		return v;
	}

	static void check_item(const BtrfsTreeItem &item, const Gen &g)
	{
		PBT_EQ(item.objectid(), g.obj, "objectid");
		PBT_EQ(item.offset(), g.off, "offset");
		PBT_EQ(item.transid(), g.transid, "transid");
		PBT_EQ(unsigned(item.type()), unsigned(uint8_t(g.type)), "type");
		PBT_CHECK(item.data().size() == g.data.size() && (g.data.empty() || !memcmp(item.data().data(), g.data.data(), g.data.size())), "data");
		const bool ext = g.type == 168;
		uint64_t b = 0, e = 0;
		const bool bad = buf::throws([&]() { b = item.extent_begin(); e = item.extent_end(); });
		PBT_EQ(bad, !ext, "extent_begin/extent_end refused");
		if (ext) { PBT_EQ(b, g.obj, "extent_begin"); PBT_EQ(e, g.obj + g.off, "extent_end"); }
		unsigned okc = 0;
		for (const auto &f : fields()) {
			bool ok = f.type == g.type && g.data.size() >= f.off + f.size;
			uint64_t want = ok ? le(g.data, f.off, f.size) : 0;
			if (f.form && f.type == g.type) {
				ok = g.data.size() > 20;
				const unsigned t = ok ? g.data[20] : 99;
				if (t > 2) ok = false;
				else if (t == 0) {
					if (f.form == 1) ok = false;
					else { ok = g.data.size() >= 16; want = ok ? le(g.data, 8, 8) : 0; }
				} else {
					ok = g.data.size() >= f.off + f.size;
					want = ok ? le(g.data, f.off, f.size) : 0;
				}
			}
			uint64_t got = 0;
			const bool refused = buf::throws([&]() { got = f.get(item); });
			if (refused == ok) PBT_FAIL(f.name << " of an item of type " << unsigned(g.type) << " with " << g.data.size() << " bytes was " << (refused ? "refused" : "accepted"));
			if (ok) { PBT_EQ(got, want, f.name << " of an item of type " << unsigned(g.type)); ++okc; }
		}
		{
			const bool right = g.type == 144;
			uint64_t got = 0;
			PBT_EQ(buf::throws([&]() { got = item.root_ref_parent_rootid(); }), !right, "root_ref_parent_rootid refused");
			if (right) PBT_EQ(got, g.off, "root_ref_parent_rootid");
			bool ok = right && g.data.size() >= 18;
			string want;
			if (ok) {
				const size_t n = le(g.data, 16, 2);
				ok = g.data.size() >= 18 + n;
				if (ok) want = string(g.data.begin() + 18, g.data.begin() + 18 + ptrdiff_t(n));
			}
			string name;
			const bool refused = buf::throws([&]() { name = item.root_ref_name(); });
			if (refused == ok) PBT_FAIL("root_ref_name with " << g.data.size() << " bytes was " << (refused ? "refused" : "accepted"));
			if (ok) { PBT_CHECK(name == want, "root_ref_name"); ++okc; }
		}
		if (okc) label("a field was decoded");
	}

	// A well-formed result buffer, then the same buffer truncated or corrupted
	static void items()
	{
		const unsigned n = unsigned(range(1, 5));
		const size_t lead = draw(20);
		vector<uint8_t> v = buf::bytes(lead);
		vector<Gen> gs;
		Msg m;
		for (unsigned i = 0; i < n; ++i) {
			gs.push_back(gen_item());
			const auto e = encode(gs.back());
			v.insert(v.end(), e.begin(), e.end());
			m << " (" << gs.back().obj << " " << gs.back().type << " " << gs.back().off << ", " << gs.back().data.size() << " bytes)";
		}
		PBT_DESC("items" << m.os.str());
		{
			ByteVector bv(v.data(), v.data() + v.size());
			size_t off = lead;
			for (unsigned i = 0; i < n; ++i) {
				BtrfsIoctlSearchHeader h;
				off = h.set_data(bv, off);
				BtrfsTreeItem item(h);
				check_item(item, gs[i]);
				BtrfsTreeItem other;
				PBT_CHECK(!other, "default item must be empty");
				other = h;
				check_item(other, gs[i]);
				if (i) nontrivial();
			}
			PBT_EQ(off, v.size(), "position after the last item");
		}
		// truncated or corrupted
		for (unsigned k = 0; k < 4; ++k) {
			vector<uint8_t> w = v;
			if (chance(1, 2)) w.resize(draw(w.size()));
			const unsigned flips = unsigned(draw(3));
			for (unsigned i = 0; i < flips && !w.empty(); ++i) w[draw(w.size() - 1)] = uint8_t(draw(255));
			ByteVector bv(w.data(), w.data() + w.size());
			size_t off = chance(1, 8) ? size_t(draw(w.size() + 40)) : lead;
			for (unsigned i = 0; i < n + 2; ++i) {
				BtrfsIoctlSearchHeader h;
				// reference verdict
				const bool fits = off <= w.size() && w.size() - off >= 32;
				uint64_t len = fits ? le(w, off + 28, 4) : 0;
				const bool ok = fits && len <= w.size() - off - 32;
				size_t next = 0;
				const bool refused = buf::throws([&]() { next = h.set_data(bv, off); });
				if (refused == ok) PBT_FAIL("item at " << off << " of a result of " << w.size() << " bytes, claiming " << len << " bytes of data, was " << (refused ? "refused" : "accepted"));
				if (!ok) { label("bad item refused"); break; }
				Gen g;
				g.transid = le(w, off, 8); // header order: transid, objectid, offset, type, len
				memcpy(&g.transid, &w[off + offsetof(btrfs_ioctl_search_header, transid)], 8);
				memcpy(&g.obj, &w[off + offsetof(btrfs_ioctl_search_header, objectid)], 8);
				memcpy(&g.off, &w[off + offsetof(btrfs_ioctl_search_header, offset)], 8);
				memcpy(&g.type, &w[off + offsetof(btrfs_ioctl_search_header, type)], 4);
				g.type = uint8_t(g.type);
				g.data.assign(w.begin() + ptrdiff_t(off) + 32, w.begin() + ptrdiff_t(off + 32 + len));
				BtrfsTreeItem item(h);
				check_item(item, g);
				ostringstream os;
				os << item;
				PBT_EQ(next, off + 32 + len, "position after an item");
				off = next;
			}
		}
	}
}

int
main(int argc, char **argv)
{
	vector<Property> props;
	Property p;
	p.id = "C22";
	p.level = "exploration";
	p.rule = "Generated operation sequences on three byte buffers against a model in which a buffer is a window on a shared array, with in-range, boundary and overflowing arguments; generated metadata search results, intact, truncated and corrupted, decoded against byte offsets of the on-disk format; threads sharing buffers. All under AddressSanitizer and UBSan. Non-trivial: at least one refused request and one view (model), at least two items (decode), any threaded case. Distinct by choice sequence.";
	p.assumptions = { "erase is given pointers at most three bytes past the end of the buffer", "threads are not scheduled deterministically in this check" };
	p.scenarios = {
		{ "model", buf::model, 40000, 1500000, false, 30 },
		{ "decode", decode::items, 30000, 1000000, false, 30 },
		{ "threads", buf::threads, 300, 10000, false, 30 },
	};
	props.push_back(p);
	return run_main(argc, argv, props);
}
