// C10: block addresses.
#ifndef VERIF_SIMADDR_H
#define VERIF_SIMADDR_H
#include "crucible/extentwalker.h"
#include "crucible/ntoa.h"

namespace sim { namespace addr {
	using crucible::Extent; using crucible::Fd;
	static string to_hex(uint64_t v) { ostringstream o; o << "0x" << hex << v; return o.str(); }
	static const uint64_t COMP = 0x800, TAIL = 0x400, TOX = 0x200;
	// What a position in a file is, by the simulated metadata
	static uint64_t at_position(Fs &fs, const Inode &n, uint64_t pos)
	{
		uint64_t st = 0;
		auto f = fs.extent_at(n, pos, &st);
		if (!f) return BeesAddress::HOLE;
		if (f->type == FE_INLINE) return BeesAddress::UNUSABLE;
		if (!f->bytenr) return BeesAddress::HOLE;
		auto &p = fs.px.at(f->bytenr);
		const uint64_t blk = (pos - st + f->eoff) / BS;
		uint64_t a = p.comp ? f->bytenr | COMP | (blk + 1) : f->bytenr + blk * BS;
		if (n.size % BS && pos / BS == n.size / BS) a |= TAIL;
		return a;
	}
	struct Block { uint64_t phys; bool comp; uint64_t blk; bool tail; bool toxic; bool operator==(const Block &o) const { return phys == o.phys && comp == o.comp && blk == o.blk && tail == o.tail && toxic == o.toxic; } };
	static string show(const Block &b) { ostringstream o; o << hex << b.phys << dec << (b.comp ? " compressed" : "") << " block " << b.blk << (b.tail ? " tail" : "") << (b.toxic ? " toxic" : ""); return o.str(); }
	static uint64_t draw_phys()
	{
		switch (draw(4)) {
			case 0: return BS * (1 + draw(3));
			case 1: return BS * (1 + edgy((1ull << 51) - 3));
			case 2: return (uint64_t(1) << range(12, 62)) + BS * draw(2);
			case 3: return (1ull << range(13, 62)) - BS;
			default: return BS * (256 + draw(40));
		}
	}
	// A legal block and the extent it is found in
	static Block draw_block(Extent &e, uint64_t &pos)
	{
		Block b;
		b.comp = chance(1, 2);
		b.phys = draw_phys();
		const uint64_t max = b.comp ? 32 : chance(1, 4) ? 1u << 15 : 200;
		const uint64_t len = chance(1, 4) ? max : 1 + draw(max - 1);
		const uint64_t st = b.comp ? (chance(1, 2) ? 0 : draw(max - 1)) : draw(4);   // where the reference starts in the extent
		const uint64_t blocks = b.comp ? min(len, max - st) : len;
		const uint64_t k = chance(1, 3) ? blocks - 1 : chance(1, 3) ? 0 : draw(blocks - 1);
		const uint64_t begin = chance(1, 3) ? 0 : BS * (chance(1, 2) ? draw(100) : draw((1ull << 40)));
		const bool last = chance(1, 2), unaligned = chance(1, 2);
		e = Extent();
		e.m_begin = off_t(begin);
		e.m_end = off_t(begin + blocks * BS - (unaligned && last ? 1 + draw(BS - 2) : 0));
		e.m_physical = b.phys;
		e.m_offset = off_t(st * BS);
		e.m_physical_len = e.m_logical_len = off_t((b.comp ? 32 : blocks + st) * BS);
		e.m_flags = (b.comp ? FIEMAP_EXTENT_ENCODED : 0u) | (last ? FIEMAP_EXTENT_LAST : 0u) | (chance(1, 3) ? FIEMAP_EXTENT_SHARED : 0u);
		if (!b.comp && chance(1, 6)) e.m_flags |= Extent::PREALLOC;
		if (chance(1, 3)) e.m_flags |= Extent::OBSCURED;
		pos = begin + k * BS;
		b.tail = last && unaligned && k == blocks - 1;
		b.blk = b.comp ? st + k : 0;
		if (!b.comp) b.phys += k * BS;
		b.toxic = false;
		return b;
	}
	static void check_one(const BeesAddress &a, const Block &b)
	{
		const uint64_t v = a;
		const string s = show(b) + " as " + to_hex(v);
		if (a.is_magic()) PBT_FAIL("a real block is taken for a reserved value: " << s);
		if (a == BeesAddress(BeesAddress::ZERO) || a == BeesAddress::HOLE || a == BeesAddress::DELALLOC || a == BeesAddress::UNUSABLE) PBT_FAIL("a real block equals a reserved value: " << s);
		if (a.get_physical_or_zero() != b.phys) PBT_FAIL("position decoded as " << to_hex(a.get_physical_or_zero()) << ": " << s);
		if (a.is_compressed() != b.comp || a.has_compressed_offset() != b.comp) PBT_FAIL("compression lost: " << s);
		if (b.comp && a.get_compressed_offset() != b.blk * BS) PBT_FAIL("offset decoded as " << a.get_compressed_offset() << ": " << s);
		if (a.is_unaligned_eof() != b.tail) PBT_FAIL("end of file lost: " << s);
		if (a.is_toxic() != b.toxic) PBT_FAIL("toxic mark lost: " << s);
		// as stored in the hash table
		const BeesAddress c(v);
		if (!(c == a) || c != a || uint64_t(c) != v) PBT_FAIL("does not survive being stored: " << s);
	}
	static void encode()
	{
		silence();
		vector<Block> bs;
		vector<BeesAddress> as;
		const unsigned n = unsigned(range(2, 12));
		Extent prev;
		for (unsigned i = 0; i < n; ++i) {
			Extent e;
			uint64_t pos;
			Block b;
			if (i && chance(1, 3)) {
				// another block of the same extent
				e = prev;
				const uint64_t blocks = uint64_t(e.m_end - e.m_begin + off_t(BS) - 1) / BS, k = draw(blocks - 1);
				pos = uint64_t(e.m_begin) + k * BS;
				b.comp = e.m_flags & FIEMAP_EXTENT_ENCODED;
				b.tail = (e.m_flags & FIEMAP_EXTENT_LAST) && e.m_end % off_t(BS) && k == blocks - 1;
				b.phys = e.m_physical + (b.comp ? 0 : k * BS);
				b.blk = b.comp ? uint64_t(e.m_offset) / BS + k : 0;
				b.toxic = false;
			} else b = draw_block(e, pos);
			prev = e;
			BeesAddress a(e, off_t(pos));
			check_one(a, b);
			if (chance(1, 4)) { a.set_toxic(); b.toxic = true; check_one(a, b); a.set_toxic(); check_one(a, b); }
			if (b.comp && b.blk == 31) label("last block of the largest compressed extent");
			if (b.tail) label("tail");
			PBT_DESC(show(b) << " = " << to_hex(uint64_t(a)));
			bs.push_back(b);
			as.push_back(a);
		}
		static const BeesAddress magic[] = { BeesAddress(BeesAddress::ZERO), BeesAddress(BeesAddress::DELALLOC), BeesAddress(BeesAddress::HOLE), BeesAddress(BeesAddress::UNUSABLE) };
		for (auto &m : magic) {
			if (!m.is_magic() || m.is_compressed() || m.has_compressed_offset() || m.is_toxic() || m.is_unaligned_eof() || m.get_physical_or_zero()) PBT_FAIL("a reserved value is taken for a block");
			for (auto &m2 : magic) if ((m == m2) != (&m == &m2)) PBT_FAIL("reserved values are confused");
			as.push_back(m);
		}
		for (size_t i = 0; i < bs.size(); ++i) for (size_t j = 0; j < bs.size(); ++j) {
			if ((as[i] == as[j]) != (bs[i] == bs[j])) PBT_FAIL(show(bs[i]) << " and " << show(bs[j]) << (as[i] == as[j] ? " compare equal" : " compare different"));
			if ((uint64_t(as[i]) == uint64_t(as[j])) != (bs[i] == bs[j])) PBT_FAIL(show(bs[i]) << " and " << show(bs[j]) << " have the wrong values");
		}
		for (auto &x : as) for (auto &y : as) {
			if (int(x < y) + int(y < x) + int(x == y) != 1) PBT_FAIL("order and equality disagree for " << to_hex(uint64_t(x)) << " and " << to_hex(uint64_t(y)));
			if ((x == y) == (x != y)) PBT_FAIL("== and != agree");
			for (auto &z : as) if (x < y && y < z && !(x < z)) PBT_FAIL("order is not transitive");
		}
		// things that are no usable block: a reserved value or a refusal, never an address
		const unsigned bad = unsigned(range(1, 4));
		for (unsigned i = 0; i < bad; ++i) {
			Extent e;
			uint64_t pos;
			draw_block(e, pos);
			const unsigned k = unsigned(draw(6));
			uint64_t want = 0;
			const char *what = "";
			switch (k) {
				case 0: e.m_flags = Extent::HOLE | (e.m_flags & FIEMAP_EXTENT_LAST); e.m_physical = 0; want = BeesAddress::HOLE; what = "hole"; break;
				case 1: e.m_flags |= FIEMAP_EXTENT_DATA_INLINE | FIEMAP_EXTENT_NOT_ALIGNED; if (chance(1, 2)) e.m_physical = 0; want = BeesAddress::UNUSABLE; what = "inline"; break;
				case 2: e.m_flags |= FIEMAP_EXTENT_DELALLOC | FIEMAP_EXTENT_UNKNOWN; if (chance(1, 2)) e.m_physical = 0; want = BeesAddress::DELALLOC; what = "delayed allocation"; break;
				case 3: e.m_flags |= pick(vector<uint64_t> { 0x10, 0x20, 0x40, 0x80, 0x400, 0x1000, 0x4000, 0x80000000u }); want = BeesAddress::UNUSABLE; what = "unknown flags"; break;
				case 4: e.m_physical += 1 + draw(BS - 2); what = "unaligned position"; break;
				case 5: e.m_flags |= FIEMAP_EXTENT_ENCODED; e.m_offset = off_t((32 + draw(200)) * BS); what = "compressed offset too large"; break;
				default: pos += 1 + draw(BS - 2); what = "unaligned offset"; break;
			}
			BeesAddress a;
			bool refused = false;
			try { a = BeesAddress(e, off_t(pos)); } catch (const exception &) { refused = true; }
			if (want ? (!refused && uint64_t(a) != want) : (!refused && !a.is_magic())) PBT_FAIL(what << " gives address " << to_hex(uint64_t(a)));
			if (want && refused) PBT_FAIL(what << " is refused");
			label(what);
		}
		nontrivial();
	}
	static void map_files()
	{
		World w;
		ImgOpts o;
		o.prealloc_pm = 150; o.hole_pm = 150; o.inline_pm = 100; o.comp_pm = 400; o.partial_pm = 300; o.tail_pm = 600; o.nodatasum_pm = 50;
		Gen g(w, o, draw(UINT64_MAX));
		g.build();
		settle(w);
		PBT_DESC(dump_image(w));
		struct Probe { uint64_t root, ino, pos, want; };
		vector<Probe> all;
		set<string> seen;
		for (auto &s : w.fs.sv) for (auto &n : s.second.in) {
			if (n.second.kind != K_REG || n.second.raw) continue;
			for (uint64_t pos = 0; pos < n.second.size; pos += BS) {
				const uint64_t want = at_position(w.fs, n.second, pos);
				all.push_back({ s.first, n.first, pos, want });
				seen.insert(want == BeesAddress::HOLE ? "hole" : want == BeesAddress::UNUSABLE ? "inline" : want & TAIL ? (want & COMP ? "compressed tail" : "tail") : want & COMP ? "compressed" : "plain");
			}
		}
		// in any order: addresses do not depend on what was asked before
		Rng r(draw(UINT64_MAX));
		for (size_t i = all.size(); i > 1; --i) swap(all[i - 1], all[r.below(i)]);
		for (auto &s : seen) label(s.c_str());
		count("positions", all.size());
		if (seen.size() >= 3) nontrivial();
		direct_life(w, ds::draw_config(2000), [&](shared_ptr<BeesContext> ctx) {
			map<pair<uint64_t, uint64_t>, Fd> fds;
			map<uint64_t, pair<uint64_t, uint64_t>> owner;
			for (auto &p : all) {
				auto &fd = fds[{ p.root, p.ino }];
				if (!fd) fd = Fd(new_fd(p.root, p.ino, O_RDONLY | O_NOATIME | O_NOFOLLOW | O_NONBLOCK, VIA_PATH));
				const BeesAddress a(fd, off_t(p.pos)), b(fd, off_t(p.pos), ctx);
				if (uint64_t(a) != p.want || uint64_t(b) != p.want) PBT_FAIL("root " << p.root << " inode " << p.ino << " offset " << p.pos << ": address " << to_hex(uint64_t(a)) << " and " << to_hex(uint64_t(b)) << " through the root, expected " << to_hex(p.want));
				if (!a.is_magic()) {
					// the same physical block wherever it is referenced, and no other
					auto n = inode(p.root, p.ino);
					uint64_t st = 0;
					auto f = W->fs.extent_at(*n, p.pos, &st);
					const pair<uint64_t, uint64_t> id { f->bytenr, (p.pos - st + f->eoff) / BS };
					auto o = owner.insert({ uint64_t(a) & ~TAIL, id });
					if (o.first->second != id) PBT_FAIL("address " << to_hex(uint64_t(a)) << " means two blocks");
				}
			}
		});
	}
} }
#endif
