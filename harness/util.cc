// Sequential component checks: backward seek (C13), hashes (C21), tables (C23),
// read/write helpers (C28).
#include "pbt.h"

#include "detsched.h"
#include "crucible/crc64.h"
#include "crucible/fd.h"
#include "crucible/seeker.h"
#include "crucible/table.h"
#include "bees.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cmath>
#include <set>
#include <sys/syscall.h>
#include <thread>

using namespace crucible;
using namespace std;
using namespace pbt;

// ---------------------------------------------------------------------------
// Scripted descriptor: every read/write on FAKE_FD follows a generated plan.

static const int FAKE_FD = 900001;

namespace script {
	struct Step { enum Kind { FULL, SHORT, INTR, ERR, NONE } kind; size_t n; };
	static vector<Step> plan;
	static size_t at;
	static vector<uint8_t> file;     // contents
	static uint64_t pos;             // read/write position
	static unsigned calls, shorts, intrs;
	static bool broke;               // an error or zero transfer was delivered

	static ssize_t transfer(void *rd, const void *wr, size_t size, uint64_t off)
	{
		++calls;
		Step s { Step::FULL, 0 };
		if (at < plan.size()) s = plan[at++];
		switch (s.kind) {
			case Step::INTR: ++intrs; errno = EINTR; return -1;
			case Step::ERR: broke = true; errno = s.n % 2 ? EIO : ENOSPC; return -1;
			case Step::NONE: if (wr) { broke = true; return 0; } break;
			case Step::SHORT: if (size > 1) { size = 1 + s.n % (size - 1); ++shorts; } break;
			default: break;
		}
		if (rd) {
			if (off >= file.size()) return 0;
			size = min<uint64_t>(size, file.size() - off);
			memcpy(rd, file.data() + off, size);
		} else if (size) {
			if (file.size() < off + size) file.resize(off + size);
			memcpy(file.data() + off, wr, size);
		}
		return ssize_t(size);
	}
}

extern "C" {
	ssize_t read(int fd, void *buf, size_t n)
	{
		if (fd != FAKE_FD) return syscall(SYS_read, fd, buf, n);
		ssize_t rv = script::transfer(buf, nullptr, n, script::pos);
		if (rv > 0) script::pos += uint64_t(rv);
		return rv;
	}
	ssize_t write(int fd, const void *buf, size_t n)
	{
		if (fd != FAKE_FD) return syscall(SYS_write, fd, buf, n);
		ssize_t rv = script::transfer(nullptr, buf, n, script::pos);
		if (rv > 0) script::pos += uint64_t(rv);
		return rv;
	}
	ssize_t pread64(int fd, void *buf, size_t n, off64_t off)
	{
		if (fd != FAKE_FD) return syscall(SYS_pread64, fd, buf, n, off);
		return script::transfer(buf, nullptr, n, uint64_t(off));
	}
	ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off)
	{
		if (fd != FAKE_FD) return syscall(SYS_pwrite64, fd, buf, n, off);
		return script::transfer(nullptr, buf, n, uint64_t(off));
	}
}

namespace c28 {
	static void fill(vector<uint8_t> &v, uint64_t seed) { Rng r(seed); for (auto &c : v) c = uint8_t(r.next() >> 13); }

	static void setup(bool intr_only)
	{
		script::plan.clear();
		script::at = 0;
		script::pos = 0;
		script::calls = script::shorts = script::intrs = 0;
		script::broke = false;
		const unsigned n = unsigned(draw(6));
		Msg m;
		for (unsigned i = 0; i < n; ++i) {
			script::Step s;
			s.kind = script::Step::Kind(weighted({ 2, unsigned(intr_only ? 0 : 5), 3, 1, 1 }));
			s.n = draw(10000);
			script::plan.push_back(s);
			static const char *k[] = { " full", " short", " EINTR", " error", " none" };
			m << k[s.kind];
			if (s.kind == script::Step::SHORT) m << "(" << s.n << ")";
		}
		PBT_DESC("transfers:" << m.os.str());
	}

	struct Pod { uint8_t b[37]; };

	static void run()
	{
		const unsigned op = unsigned(draw(9));
		const size_t fsize = edgy(9000);
		const size_t size = op >= 7 ? sizeof(Pod) : edgy(6000);
		const uint64_t off = edgy(5000);
		const uint64_t seed = draw(1000);
		setup(false);
		vector<uint8_t> content(fsize);
		fill(content, seed);
		script::file = content;
		vector<uint8_t> buf(size + 16, 0xa5);
		bool threw = false;
		size_t got = SIZE_MAX;
		string s;
		static const char *names[] = { "read_or_die", "read_partial_or_die", "read_string", "pread_or_die", "write_or_die", "pwrite_or_die", "string/ByteVector pread", "read_or_die<struct>", "pwrite_or_die<struct>", "write_or_die<string>" };
		PBT_DESC(names[op] << " size " << size << " offset " << off << " file size " << fsize);
		label(names[op]);
		vector<uint8_t> data(size);
		fill(data, seed + 7777);
		uint64_t base = 0;
		ByteVector bv(max<size_t>(size, 1));
		string str(size, 'x');
		const bool use_bv = draw(1);
		Pod pod;
		try {
			switch (op) {
				case 0: script::pos = base = off; read_or_die(FAKE_FD, buf.data(), size); got = size; break;
				case 1: script::pos = base = off; got = 12345; read_partial_or_die(FAKE_FD, buf.data(), size, got); break;
				case 2: script::pos = base = off; s = read_string(FAKE_FD, size); got = s.size(); memcpy(buf.data(), s.data(), min(s.size(), size)); break;
				case 3: base = off; pread_or_die(FAKE_FD, buf.data(), size, off_t(off)); got = size; break;
				case 4: script::pos = base = off; write_or_die(FAKE_FD, data.data(), size); break;
				case 5: base = off; pwrite_or_die(FAKE_FD, data.data(), size, off_t(off)); break;
				case 6:
					base = off;
					if (use_bv) { pread_or_die(FAKE_FD, bv, off_t(off)); got = bv.size(); if (got <= size) memcpy(buf.data(), bv.data(), got); else got = SIZE_MAX; }
					else { pread_or_die(FAKE_FD, str, off_t(off)); got = size; memcpy(buf.data(), str.data(), size); }
					break;
				case 7: script::pos = base = off; read_or_die(FAKE_FD, pod); got = size; memcpy(buf.data(), &pod, size); break;
				case 8: base = off; memcpy(&pod, data.data(), size); pwrite_or_die(FAKE_FD, pod, off_t(off)); break;
				case 9: script::pos = base = off; str.assign(reinterpret_cast<const char *>(data.data()), size); write_or_die(FAKE_FD, str); break;
			}
		} catch (const exception &e) {
			threw = true;
			PBT_DESC("raised: " << e.what());
		}
		for (size_t i = size; i < size + 16; ++i) PBT_CHECK(buf[i] == 0xa5, "wrote past the end of the caller's buffer");
		const bool writing = op == 4 || op == 5 || op == 8 || op == 9;
		const size_t present = base < fsize ? min<uint64_t>(size, fsize - base) : 0;
		if (!writing) {
			if (!threw) {
				if (got == SIZE_MAX && op == 6) return;
				const bool partial = op == 1 || op == 2;
				PBT_CHECK(!script::broke, "an error was not reported");
				PBT_EQ(got, present, (partial ? "bytes reported up to end of file" : "success with fewer bytes than requested"));
				if (!partial) PBT_EQ(present, size, "success with fewer bytes than requested");
				for (size_t i = 0; i < present; ++i) if (buf[i] != content[base + i]) PBT_FAIL("byte " << i << " of " << present << " is wrong after " << script::calls << " transfers");
			} else {
				const bool partial = op == 1 || op == 2;
				// failing is required only for errors and short objects; the positioned helpers may refuse any short transfer
				if (partial && !script::broke) PBT_FAIL("raised an error although no transfer failed");
				if (!partial && !script::broke && !script::shorts && present == size && !(size == 0)) PBT_FAIL("raised an error although every transfer was complete");
			}
		} else {
			if (!threw) {
				PBT_CHECK(!script::broke, "an error was not reported");
				vector<uint8_t> want = content;
				if (size) { if (want.size() < base + size) want.resize(base + size); memcpy(want.data() + base, data.data(), size); }
				PBT_CHECK(want == script::file, "file contents differ after a write reported as complete");
			} else if (!script::broke && !script::shorts && !script::intrs) PBT_FAIL("raised an error although every transfer was complete");
		}
		if (script::shorts || script::intrs) nontrivial();
		for (int bad : { -1 }) {
			bool t2 = false;
			try { char c; if (writing) write_or_die(bad, &c, 1); else read_or_die(bad, &c, 1); } catch (const exception &) { t2 = true; }
			PBT_CHECK(t2, "operation on an invalid descriptor succeeded");
		}
	}
}

// ---------------------------------------------------------------------------

namespace c13 {
	static void run()
	{
		const uint64_t MAX = UINT64_MAX;
		set<uint64_t> s;
		const unsigned style = unsigned(draw(5));
		const unsigned n = unsigned(style == 0 ? draw(3) : draw(60));
		const uint64_t base = edgy(MAX);
		uint64_t cur = base;
		for (unsigned i = 0; i < n; ++i) {
			switch (style) {
				case 0: s.insert(edgy(MAX)); break;                                    // sparse
				case 1: cur += 1 + draw(3); s.insert(cur); break;                        // dense run
				case 2: s.insert(draw(MAX)); break;                                      // uniform
				case 3: s.insert(MAX >> draw(63)); break;                                // exponential
				case 4: cur += 1 + draw(uint64_t(1) << draw(40)); s.insert(cur); break;  // mixed gaps
				case 5: s.insert(draw(200)); break;                                      // near zero
			}
		}
		s.erase(MAX);   // the greatest value is the fetcher's end marker
		uint64_t target;
		switch (draw(4)) {
			case 0: target = edgy(MAX); break;
			case 1: target = s.empty() ? 0 : *next(s.begin(), long(draw(s.size() - 1))); break;
			case 2: target = s.empty() ? 1 : *next(s.begin(), long(draw(s.size() - 1))) + 1; break;
			case 3: target = s.empty() ? 2 : *next(s.begin(), long(draw(s.size() - 1))) - 1; break;
			default: target = draw(MAX); break;
		}
		const uint64_t step = draw(2) ? uint64_t(1) << draw(40) : 1 + draw(1000);
		const unsigned batch = unsigned(range(0, 6));   // how many entries above the bound are also returned
		const bool all = chance(1, 4);
		const bool stop_at_upper = draw(1);
		unsigned fetches = 0;
		PBT_DESC("set of " << s.size() << " style " << style << " target " << target << " step " << step << " extra " << batch << (all ? " unlimited" : ""));
		if (s.size() < 12) { Msg m; for (auto x : s) m << " " << x; PBT_DESC("members" << m.os.str()); }
		auto fetch = [&](uint64_t lower, uint64_t upper) {
			if (++fetches > 400) PBT_FAIL("more than 400 fetches");
			if (lower > upper) PBT_FAIL("fetch with lower " << lower << " above upper " << upper);
			set<uint64_t> rv;
			unsigned extra = 0;
			// everything from lower up to upper, then possibly some more
			for (auto i = s.lower_bound(lower); i != s.end(); ++i) {
				if (*i > upper && !all && (stop_at_upper || extra++ >= batch) ) { if (rv.empty()) rv.insert(*i); break; }
				rv.insert(*i);
			}
			return rv;
		};
		// the fetcher used by the daemon: at least one match, a few at a time, possibly short of upper
		auto fetch_short = [&](uint64_t lower, uint64_t upper) {
			if (++fetches > 400) PBT_FAIL("more than 400 fetches");
			if (lower > upper) PBT_FAIL("fetch with lower " << lower << " above upper " << upper);
			set<uint64_t> rv;
			for (auto i = s.lower_bound(lower); i != s.end() && rv.size() <= batch; ++i) rv.insert(*i);
			return rv;
		};
		uint64_t want = 0;
		{ auto i = s.upper_bound(target); if (i != s.begin()) want = *--i; }
		uint64_t got = 0;
		const bool use_short = draw(1);
		try {
			got = use_short ? seek_backward(target, fetch_short, step) : seek_backward(target, fetch, step);
		} catch (const exception &e) { PBT_FAIL("raised " << e.what()); }
		PBT_EQ(got, want, "largest member not above " << target << " after " << fetches << " fetches");
		if (!use_short && fetches > 2 * 65) PBT_FAIL(fetches << " fetches");
		if (s.count(target) && fetches != 1 && target != MAX) PBT_FAIL(fetches << " fetches for a target which is a member");
		label(use_short ? "short batches" : "complete ranges");
		if (!s.count(target) && fetches > 2) nontrivial();
	}
}

// ---------------------------------------------------------------------------

namespace c21 {
	static uint64_t crc_ref(const uint8_t *p, size_t n)
	{
		// bit at a time, reflected polynomial x^64 + x^4 + x^3 + x + 1, initial value 0
		uint64_t crc = 0;
		while (n--) {
			crc ^= *p++;
			for (int i = 0; i < 8; ++i) crc = (crc & 1) ? (crc >> 1) ^ 0xd800000000000000ull : crc >> 1;
		}
		return crc;
	}

	static vector<uint8_t> gen(size_t n)
	{
		vector<uint8_t> v(n);
		Rng r(draw(1000000));
		switch (draw(3)) {
			case 0: for (auto &c : v) c = uint8_t(r.next() >> 20); break;
			case 1: break;
			case 2: for (auto &c : v) c = uint8_t(r.below(2)); break;
			case 3: if (n) v[r.below(n)] = uint8_t(1 + r.below(255)); break;
		}
		return v;
	}

	static void crc()
	{
		const size_t n = edgy(4200);
		const size_t align = draw(15);
		auto v = gen(n);
		vector<uint8_t> room(n + 32, 0x5c);
		uint8_t *p = room.data() + align;
		if (n) memcpy(p, v.data(), n);
		const uint64_t want = crc_ref(v.data(), n);
		PBT_DESC(n << " bytes at alignment " << (reinterpret_cast<uintptr_t>(p) & 15));
		PBT_EQ(Digest::CRC::crc64(p, n), want, "crc64");
		PBT_EQ(Digest::CRC::crc64(p, n), want, "crc64 repeated");
		if (n) {
			// the surroundings do not matter
			p[-0 + ptrdiff_t(n)] ^= 0xff;
			if (align) p[-1] ^= 0xff;
			PBT_EQ(Digest::CRC::crc64(p, n), want, "crc64 with changed surroundings");
		}
		if (n > 16) nontrivial();
	}

	static void block()
	{
		const size_t n = draw(3) ? 4096 : 1 + edgy(4095);
		auto v = gen(n);
		const BeesHash h(v.data(), n);
		vector<uint8_t> copy(n + 16);
		const size_t align = draw(15);
		memcpy(copy.data() + align, v.data(), n);
		PBT_EQ(uint64_t(BeesHash(copy.data() + align, n)), uint64_t(h), "hash of equal bytes elsewhere");
		PBT_EQ(uint64_t(h), crc_ref(v.data(), n), "block hash is the CRC-64 of its bytes");
		// any single change changes the hash
		for (unsigned i = 0; i < 8; ++i) {
			auto w = v;
			const size_t at = edgy(n - 1);
			w[at] ^= uint8_t(1 + draw(254));
			PBT_CHECK(uint64_t(BeesHash(w.data(), n)) != uint64_t(h), "hash does not depend on byte " << at << " of " << n);
		}
		// exchanging two different words changes the hash
		if (n >= 16) {
			auto w = v;
			const size_t a = draw(n / 8 - 1) * 8, b = draw(n / 8 - 1) * 8;
			swap_ranges(w.begin() + ptrdiff_t(a), w.begin() + ptrdiff_t(a + 8), w.begin() + ptrdiff_t(b));
			if (a != b && w != v) PBT_CHECK(uint64_t(BeesHash(w.data(), n)) != uint64_t(h), "hash does not depend on the order of words");
		}
		PBT_DESC("block of " << n << " bytes");
		nontrivial();
	}

	// the same under generated interleavings of basic blocks
	static void schedules()
	{
		const unsigned nt = unsigned(range(2, 4));
		vector<vector<uint8_t>> in;
		vector<uint64_t> out(nt);
		for (unsigned i = 0; i < nt; ++i) in.push_back(gen(1 + draw(200)));
		ds::Config c = ds::draw_config(100);
		c.fine = unsigned(pick(vector<unsigned> { 2, 20, 300, 2000 }));
		PBT_DESC(nt << " threads, first use, a switch every " << c.fine << " blocks, seed " << c.seed);
		ds::start(c);
		{
			vector<thread> th;
			for (unsigned i = 0; i < nt; ++i) th.emplace_back([&, i]() { out[i] = Digest::CRC::crc64(in[i].data(), in[i].size()); });
			for (auto &t : th) t.join();
		}
		ds::stop();
		for (unsigned i = 0; i < nt; ++i) PBT_EQ(out[i], crc_ref(in[i].data(), in[i].size()), "crc64 computed by thread " << i << " during first use");
		nontrivial();
	}

	// first use from several threads at once (fresh process)
	static void threads()
	{
		const unsigned nt = unsigned(range(2, 6));
		vector<vector<uint8_t>> in;
		vector<uint64_t> out(nt);
		for (unsigned i = 0; i < nt; ++i) in.push_back(gen(1 + draw(4095)));
		atomic<unsigned> ready { 0 };
		vector<thread> th;
		for (unsigned i = 0; i < nt; ++i) th.emplace_back([&, i]() {
			++ready;
			while (ready < nt) ;
			out[i] = Digest::CRC::crc64(in[i].data(), in[i].size());
		});
		for (auto &t : th) t.join();
		for (unsigned i = 0; i < nt; ++i) PBT_EQ(out[i], crc_ref(in[i].data(), in[i].size()), "crc64 computed by thread " << i << " during first use");
		PBT_DESC(nt << " threads, first use");
		nontrivial();
	}
}

// ---------------------------------------------------------------------------

namespace c23 {
	struct MCell { bool fill = false, empty = true; char c = '.'; string text; };

	static vector<string> lines(const string &s)
	{
		vector<string> rv;
		string cur;
		for (char c : s) { if (c == '\n') { if (!cur.empty()) rv.push_back(cur); cur.clear(); } else cur += c; }
		if (!cur.empty()) rv.push_back(cur);
		return rv;
	}

	static string gen_text()
	{
		string s;
		const unsigned parts = chance(1, 6) ? unsigned(range(2, 4)) : 1;
		for (unsigned p = 0; p < parts; ++p) {
			if (p) s += "\n";
			const unsigned n = unsigned(draw(3) ? draw(6) : draw(25));
			for (unsigned i = 0; i < n; ++i) s += char('a' + draw(25));
		}
		return s;
	}

	static void run()
	{
		Table::Table t;
		vector<vector<MCell>> m;     // rows x cols
		size_t cols = 0;
		string left = "|", mid = "|", right = "|";
		const unsigned n = unsigned(range(1, 25));
		unsigned edits = 0, erases = 0;
		auto content = [&](const MCell &c) { return c.fill ? Table::Fill(c.c) : Table::Text(c.text); };
		auto gen_cell = [&]() {
			MCell c;
			c.empty = false;
			switch (draw(5)) {
				case 0: c.fill = true; c.c = "-=. #"[draw(4)]; break;
				case 1: { c.text = to_string(int64_t(edgy(1ull << 40))); break; }
				default: c.text = gen_text();
			}
			return c;
		};
		auto default_cell = []() { MCell c; c.fill = true; c.empty = true; c.c = '.'; return c; };
		for (unsigned i = 0; i < n; ++i) {
			const size_t rows = m.size();
			switch (weighted({ 4, 3, 2, 2, 5, 2, 2, 1, 2 })) {
				case 0: { // row with content
					const size_t pos = chance(1, 3) ? Table::endpos : draw(rows + 1);
					vector<MCell> c;
					vector<Table::Content> v;
					const size_t k = cols && chance(2, 3) ? cols : draw(5);
					for (size_t j = 0; j < k; ++j) { c.push_back(gen_cell()); v.push_back(content(c.back())); }
					t.insert_row(pos, v);
					while (cols < k) { ++cols; for (auto &r : m) r.push_back(default_cell()); }
					while (c.size() < cols) c.push_back(default_cell());
					m.insert(m.begin() + ptrdiff_t(min(pos, rows)), c);
					PBT_DESC("insert_row(" << int64_t(pos) << ", " << k << " cells)");
					++edits;
					break;
				}
				case 1: { // column with content
					const size_t pos = chance(1, 3) ? Table::endpos : draw(cols + 1);
					vector<MCell> c;
					vector<Table::Content> v;
					const size_t k = rows && chance(2, 3) ? rows : draw(5);
					for (size_t j = 0; j < k; ++j) { c.push_back(gen_cell()); v.push_back(content(c.back())); }
					t.insert_col(pos, v);
					const size_t at = min(pos, cols);
					while (m.size() < k) m.push_back(vector<MCell>(cols, default_cell()));
					while (c.size() < m.size()) c.push_back(default_cell());
					for (size_t r = 0; r < m.size(); ++r) m[r].insert(m[r].begin() + ptrdiff_t(at), c[r]);
					++cols;
					PBT_DESC("insert_col(" << int64_t(pos) << ", " << k << " cells)");
					++edits;
					break;
				}
				case 2: if (rows) { const size_t p = draw(rows - 1); t.rows().erase(p); m.erase(m.begin() + ptrdiff_t(p)); PBT_DESC("erase row " << p); ++erases; } break;
				case 3: if (cols) { const size_t p = draw(cols - 1); t.cols().erase(p); for (auto &r : m) r.erase(r.begin() + ptrdiff_t(p)); --cols; PBT_DESC("erase col " << p); ++erases; } break;
				case 4: if (rows && cols) {
					const size_t r = draw(rows - 1), c = draw(cols - 1);
					m[r][c] = gen_cell();
					t.at(r, c) = content(m[r][c]);
					PBT_DESC("set " << r << "," << c << " = " << (m[r][c].fill ? string("fill") : m[r][c].text));
				} break;
				case 5: { const size_t p = draw(rows); t.rows().insert(p); m.insert(m.begin() + ptrdiff_t(p), vector<MCell>(cols, default_cell())); PBT_DESC("insert empty row " << p); break; }
				case 6: { const size_t p = draw(cols); t.cols().insert(p); for (auto &r : m) r.insert(r.begin() + ptrdiff_t(p), default_cell()); ++cols; PBT_DESC("insert empty col " << p); break; }
				case 7: { left = gen_text(); left = left.substr(0, left.find('\n')); mid = draw(1) ? " " : ""; right = draw(1) ? "<" : ""; t.left(left); t.mid(mid); t.right(right); break; }
				case 8: {
					// out of range
					const size_t r = rows + draw(2), c = cols + draw(2);
					unsigned refused = 0;
					const Table::Table &ct = t;
					try { ct.at(r, 0); } catch (const exception &) { ++refused; }
					try { t.at(0, c); } catch (const exception &) { ++refused; }
					try { t.rows().erase(r); } catch (const exception &) { ++refused; }
					try { t.cols().erase(c); } catch (const exception &) { ++refused; }
					PBT_EQ(refused, 4u, "out-of-range positions refused");
					break;
				}
			}
			PBT_EQ(t.rows().size(), m.size(), "rows");
			PBT_EQ(t.cols().size(), cols, "columns");
		}
		// reference rendering
		vector<size_t> h(m.size(), 1), w(cols, 1);
		for (size_t r = 0; r < m.size(); ++r) for (size_t c = 0; c < cols; ++c) {
			if (m[r][c].fill) continue;
			auto l = lines(m[r][c].text);
			h[r] = max(h[r], l.size());
			for (auto &x : l) w[c] = max(w[c], x.size());
		}
		string want;
		for (size_t r = 0; r < m.size(); ++r) for (size_t y = 0; y < h[r]; ++y) {
			want += left;
			for (size_t c = 0; c < cols; ++c) {
				if (c) want += mid;
				if (m[r][c].fill) want += string(w[c], m[r][c].c);
				else {
					auto l = lines(m[r][c].text);
					const string x = y < l.size() ? l[y] : "";
					want += string(w[c] - x.size(), ' ') + x;
				}
			}
			want += right + "\n";
		}
		ostringstream os;
		os << t;
		if (os.str() != want) PBT_FAIL("rendered\n" << os.str() << "instead of\n" << want);
		if (edits > 1 && m.size() > 1 && cols > 1) nontrivial();
		if (erases) label("erased");
	}
}

int
main(int argc, char **argv)
{
	vector<Property> props;
	{
		Property p; p.id = "C13"; p.level = "exploration";
		p.rule = "Generated sets (sparse, dense runs, uniform, exponential, mixed gaps, near zero), targets on, next to and away from members, fetchers with complete ranges or short batches. Oracle: std::set. Non-trivial: the target is not a member and more than two fetches were needed. Distinct by choice sequence.";
		p.scenarios = { { "seek", c13::run, 3000000, 60000000, false, 0 } };
		props.push_back(p);
	}
	{
		Property p; p.id = "C21"; p.level = "exploration";
		p.rule = "Generated byte strings, lengths and alignments against a bit-at-a-time CRC; block hash sensitivity to every generated byte and word change; first use from several threads in a fresh process, natively and under generated interleavings of basic blocks. Non-trivial: more than 16 bytes (crc), every block and thread case. Distinct by choice sequence.";
		p.scenarios = { { "crc", c21::crc, 200000, 1000000, false, 0 }, { "block", c21::block, 60000, 400000, false, 0 }, { "first-use", c21::threads, 1500, 6000, true, 60 }, { "schedules", c21::schedules, 2000, 60000, true, 60 } };
		props.push_back(p);
	}
	{
		Property p; p.id = "C23"; p.level = "exploration";
		p.rule = "Generated sequences of row/column insertions, erasures, cell updates and separator changes; the rendered text is compared with a reference renderer. Non-trivial: at least 2x2 after two content insertions. Distinct by choice sequence.";
		p.scenarios = { { "edit", c23::run, 600000, 15000000, false, 0 } };
		props.push_back(p);
	}
	{
		Property p; p.id = "C28"; p.level = "exploration";
		p.rule = "Generated helper calls on a descriptor whose transfers follow a generated script of complete, short, interrupted, failing and zero transfers; buffer and file compared byte for byte. Non-trivial: at least one short or interrupted transfer was delivered. Distinct by choice sequence.";
		p.scenarios = { { "transfer", c28::run, 1000000, 20000000, false, 0 } };
		props.push_back(p);
	}
	return run_main(argc, argv, props);
}
