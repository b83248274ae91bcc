// C11 extent maps

namespace c11 {
	static const uint64_t BS = 4096;
	struct X {      // expected extent
		uint64_t begin, end;
		uint64_t physical = 0, flags = 0;
		uint64_t plen = 0, llen = 0, off = 0;
	};

	static vector<uint8_t> fei(uint8_t type, uint8_t comp, uint64_t bytenr, uint64_t disk_len, uint64_t ram, uint64_t off, uint64_t num)
	{
		vector<uint8_t> v(53);
		put64(v, 0, 100);
		put64(v, 8, ram);
		v[16] = comp;
		v[20] = type;
		put64(v, 21, bytenr);
		put64(v, 29, disk_len);
		put64(v, 37, off);
		put64(v, 45, num);
		return v;
	}

	static const uint64_t FLAGS = Extent::HOLE | Extent::PREALLOC | Extent::OBSCURED | FIEMAP_EXTENT_ENCODED | FIEMAP_EXTENT_DATA_INLINE;

	static string show(const X &x)
	{
		ostringstream os;
		os << "[" << x.begin << ", " << x.end << ") physical " << x.physical << " flags " << hex << x.flags << dec << " ram " << x.plen << " len " << x.llen << " offset " << x.off;
		return os.str();
	}
	static string show(const Extent &e)
	{
		X x;
		x.begin = uint64_t(e.begin()); x.end = uint64_t(e.end()); x.physical = e.physical(); x.flags = e.flags() & FLAGS;
		x.plen = uint64_t(e.physical_len()); x.llen = uint64_t(e.logical_len()); x.off = uint64_t(e.offset());
		return show(x);
	}
	static void same(const Extent &e, const X &x, const string &op)
	{
		const bool hole = x.flags & Extent::HOLE;
		bool ok = uint64_t(e.begin()) == x.begin && uint64_t(e.end()) == x.end && (e.flags() & FLAGS & ~(hole ? Extent::OBSCURED : 0)) == (x.flags & ~(hole ? Extent::OBSCURED : 0));
		if (!hole) ok = ok && e.physical() == x.physical && uint64_t(e.physical_len()) == x.plen && uint64_t(e.logical_len()) == x.llen && uint64_t(e.offset()) == x.off;
		else ok = ok && e.physical() - uint64_t(e.offset()) == 0;
		if (!ok) PBT_FAIL(op << " is at extent " << show(e) << ", the metadata has " << show(x));
	}

	static void walk()
	{
		reset_kernel();
		kernel::root_id = 256 + draw(5);
		ts::Tree &t = kernel::trees[kernel::root_id];
		const uint64_t ino = kernel::st_ino = 257 + draw(100);
		Rng r(draw(1u << 30));
		const unsigned n = unsigned(chance(1, 3) ? range(0, 120) : range(0, 20));
		const unsigned style = unsigned(draw(4));
		vector<X> want;
		uint64_t p = 0;
		unsigned holes_explicit = 0, holes_implicit = 0, past = 0;
		auto hole = [&](uint64_t len, bool explicit_item) {
			if (!len) return;
			if (explicit_item) {
				t[ts::Key { ino, BTRFS_EXTENT_DATA_KEY, p }] = ts::Item { 100, fei(1, 0, 0, 0, len, 0, len) };
				++holes_explicit;
				X x; x.begin = p; x.end = p + len; x.flags = Extent::HOLE;
				want.push_back(x);
			} else {
				++holes_implicit;
				if (!want.empty() && want.back().flags == (Extent::HOLE | 1)) want.back().end += len;
				else { X x; x.begin = p; x.end = p + len; x.flags = Extent::HOLE | 1; want.push_back(x); }
			}
			p += len;
		};
		bool inlined = false;
		uint64_t size = 0;
		const bool beyond = chance(1, 4);
		uint64_t eof_block = 0;   // aligned size; 0 until chosen
		if (chance(1, 10)) {
			// inline file
			const uint64_t len = 1 + r.below(chance(1, 3) ? 4096 : 2000);
			vector<uint8_t> v = fei(0, uint8_t(r.below(4)), 0, 0, len, 0, 0);
			const auto pay = bytes(r.next(), 21 + r.below(2000));
			v.resize(21);
			v.insert(v.end(), pay.begin(), pay.end());
			put64(v, 8, len);
			t[ts::Key { ino, BTRFS_EXTENT_DATA_KEY, 0 }] = ts::Item { 100, v };
			X x; x.begin = 0; x.end = len;
			x.flags = FIEMAP_EXTENT_DATA_INLINE | (v[16] ? FIEMAP_EXTENT_ENCODED : 0);
			want.push_back(x);
			size = len;
			inlined = true;
		} else {
			for (unsigned i = 0; i < n; ++i) {
				uint64_t gap = 0;
				switch (style) {
					case 0: break;
					case 1: gap = r.below(3) ? 0 : 1 + r.below(8); break;
					case 2: gap = r.below(4) ? 0 : 1 + r.below(1ull << r.below(28)); break;
					case 3: gap = 1 + r.below(40); break;
					default: gap = r.below(10) ? 0 : 1 + r.below(2000); break;
				}
				hole(gap * BS, r.below(4) == 0);
				const uint64_t len = BS * (1 + r.below(r.below(3) ? 4 : r.below(6) ? 33 : 4096));
				const uint64_t bytenr = BS * (1 + r.below(1ull << 36));
				X x;
				x.begin = p;
				x.end = p + len;
				x.llen = len;
				vector<uint8_t> item;
				switch (r.below(4)) {
					case 0: {  // compressed, possibly partial
						const uint64_t ram = 131072, l = BS * (1 + r.below(32));
						const uint64_t off = BS * r.below((ram - l) / BS + 1);
						x.end = p + l;
						x.llen = l;
						x.plen = ram;
						x.off = off;
						x.physical = bytenr;
						x.flags = FIEMAP_EXTENT_ENCODED | (off || ram != l ? Extent::OBSCURED : 0);
						item = fei(1, uint8_t(1 + r.below(3)), bytenr, BS * (1 + r.below(31)), ram, off, l);
						break;
					}
					case 1: {  // preallocated, possibly partial
						const uint64_t lead = r.below(2) * BS * r.below(10), tail = r.below(2) * BS * r.below(10);
						x.plen = lead + len + tail;
						x.off = lead;
						x.physical = bytenr + lead;
						x.flags = Extent::PREALLOC | (lead || tail ? Extent::OBSCURED : 0);
						item = fei(2, 0, bytenr, x.plen, x.plen, lead, len);
						break;
					}
					default: {
						const uint64_t lead = r.below(2) * BS * r.below(10), tail = r.below(2) * BS * r.below(10);
						x.plen = lead + len + tail;
						x.off = lead;
						x.physical = bytenr + lead;
						x.flags = lead || tail ? Extent::OBSCURED : 0;
						item = fei(1, 0, bytenr, x.plen, x.plen, lead, len);
						break;
					}
				}
				t[ts::Key { ino, BTRFS_EXTENT_DATA_KEY, p }] = ts::Item { 100, item };
				want.push_back(x);
				p = x.end;
				if (beyond && !eof_block && i + 1 + r.below(r.below(2) ? 4 : 25) >= n) eof_block = p;
			}
			if (!eof_block) {
				if (chance(1, 2)) hole(BS * (1 + r.below(chance(1, 2) ? 20 : 1u << 20)), chance(1, 3));
				eof_block = p;
			}
			if (!eof_block) { hole(BS, false); eof_block = p; }
			size = eof_block;
			if (chance(2, 3)) size -= draw(BS - 1);
			if (chance(1, 6) && size > BS) {
				// shrink further inside the last extent: what a racing truncate leaves, or preallocation past the end
				const uint64_t b = want.empty() ? 0 : 0;
				(void)b;
			}
			// drop what lies past the end
			while (!want.empty() && want.back().begin >= size) { want.pop_back(); ++past; }
			want.back().end = min(want.back().end, size);
		}
		kernel::st_size = size;
		const bool last_inode = chance(1, 4);
		for (unsigned i = 0; i < 30; ++i) {
			const uint64_t o = last_inode ? ino - 1 - r.below(3) : ino - 2 + r.below(6);
			if (o == ino) {
				t[ts::Key { ino, uint8_t(1 + r.below(100)), r.below(100) }] = ts::Item { 100, bytes(r.next(), 160) };
				continue;
			}
			t[ts::Key { o, BTRFS_INODE_ITEM_KEY, 0 }] = ts::Item { 100, bytes(r.next(), 160) };
			if (r.below(2)) t[ts::Key { o, BTRFS_EXTENT_DATA_KEY, BS * r.below(1000) }] = ts::Item { 100, fei(1, 0, 4096, 4096, 4096, 0, 4096) };
			if (r.below(4) == 0) t[ts::Key { o, 96, r.below(1000) }] = ts::Item { 100, bytes(r.next(), 40 + r.below(200)) };
			if (r.below(8) == 0) t[ts::Key { o, 24, r.below(1000) }] = ts::Item { 100, bytes(r.next(), 40 + r.below(9000)) };
		}
		if (last_inode) t.erase(t.upper_bound(ts::Key { ino, 255, ~0ull }), t.end());
		PBT_DESC("file of " << size << " bytes, " << want.size() << " extents, " << holes_explicit << " explicit and " << holes_implicit << " implicit holes, " << past << " extents past the end" << (last_inode ? ", last inode of the tree" : "") << (inlined ? ", inline" : ""));
		if (describing()) for (auto &x : want) PBT_DESC("   " << show(x));
		for (auto &x : want) x.flags &= ~uint64_t(x.flags & Extent::HOLE ? 1 : 0);
		if (holes_implicit) label("implicit holes");
		if (past) label("extents past the end");
		if (last_inode) label("last inode of the tree");
		if (want.size() > 16) label("more extents than one search returns");

		auto find = [&](uint64_t pos) -> size_t {
			if (pos >= size) return want.size() - 1;
			size_t lo = 0, hi = want.size();
			while (hi - lo > 1) { const size_t m = (lo + hi) / 2; (want[m].begin <= pos ? lo : hi) = m; }
			return lo;
		};
		Fd fd(FAKE_FD);
		kernel::searches = 0;
		kernel::search_limit = 100000;
		const bool own_root = chance(1, 2);
		unique_ptr<BtrfsExtentWalker> ew(own_root ? new BtrfsExtentWalker(fd) : new BtrfsExtentWalker(fd, 0, fd));
		size_t cur = 0;
		auto do_seek = [&](uint64_t pos) {
			ew->seek(off_t(pos));
			cur = find(pos);
			same(ew->current(), want[cur], "seek(" + to_string(pos) + ")");
		};
		const unsigned ops = unsigned(range(1, 25));
		Msg m;
		do_seek(0);
		unsigned seeks = 0;
		for (unsigned i = 0; i < ops; ++i) {
			kernel::searches = 0;
			kernel::search_limit = 2000;
			switch (weighted({4, 4, 4, 1, 1})) {
				case 0: {
					uint64_t pos;
					switch (draw(3)) {
						case 0: pos = want[draw(want.size() - 1)].begin; break;
						case 1: pos = want[draw(want.size() - 1)].end; break;
						case 2: pos = draw(size / BS + 2) * BS; break;
						default: pos = want[draw(want.size() - 1)].begin + draw(3) * BS; break;
					}
					pos = pos / BS * BS;
					PBT_DESC("  seek(" << pos << ")");
					do_seek(pos);
					++seeks;
					break;
				}
				case 1: {
					PBT_DESC("  next");
					const bool more = ew->next();
					if (more != (cur + 1 < want.size())) PBT_FAIL("next from extent " << cur << " of " << want.size() << " returned " << more);
					if (more) ++cur;
					same(ew->current(), want[cur], "next");
					break;
				}
				case 2: {
					PBT_DESC("  prev");
					const bool more = ew->prev();
					if (more != (cur > 0)) PBT_FAIL("prev from extent " << cur << " returned " << more);
					if (more) --cur;
					same(ew->current(), want[cur], "prev");
					break;
				}
				case 3:
					PBT_DESC("  reset");
					ew->reset();
					do_seek(draw(size / BS) * BS);
					break;
				default: {
					PBT_DESC("  " << "walk");
					kernel::search_limit = 2000 * (want.size() + 2);
					if (chance(1, 2)) {
						do_seek(0);
						while (true) {
							const bool more = ew->next();
							if (more != (cur + 1 < want.size())) PBT_FAIL("next from extent " << cur << " of " << want.size() << " returned " << more);
							if (!more) break;
							++cur;
							same(ew->current(), want[cur], "next");
						}
					} else {
						do_seek((size - 1) / BS * BS);
						while (true) {
							const bool more = ew->prev();
							if (more != (cur > 0)) PBT_FAIL("prev from extent " << cur << " returned " << more);
							if (!more) break;
							--cur;
							same(ew->current(), want[cur], "prev");
						}
					}
					break;
				}
			}
		}
		if (want.size() > 4 && seeks) nontrivial();
	}
}

static void
meta2_props(vector<Property> &props)
{
	Property p;
	p.id = "C11";
	p.level = "exploration";
	p.rule = "Generated file layouts (0-120 extents of every kind, partial references, explicit and implicit holes of up to 2^40 bytes, extents past the end of the file, unaligned sizes, inline files, neighbours in the tree or none) behind an emulated search ioctl, and generated sequences of seek, next, prev, reset and whole walks; after each movement the current extent is compared with the layout. Non-trivial: more than four extents and at least one seek. Distinct by choice sequence.";
	p.assumptions = { "the file does not change while it is walked", "the OBSCURED flag of holes is not compared", "files are not empty" };
	p.scenarios = { { "walk", c11::walk, 40000, 1500000, false, 60 } };
	props.push_back(p);
}
