// The whole daemon against a simulated btrfs under a deterministic scheduler.
#include "simrun.h"

namespace sim {
	// Entries put into the table file before the daemon ever runs
	struct PlantOpts {
		unsigned n = 0;                // how many
		bool right = false;            // also right entries
		bool junk = false;             // also addresses that are none
		function<bool(const Subvol &, const Inode &)> target;   // addresses of these files' blocks only
	};
	static unsigned plant_table(World &w, Rng &r, const PlantOpts &o)
	{
		auto f = const_cast<Inode *>(home_file(w, "beeshash.dat"));
		if (!f || f->rawdata.size() < 4096) return 0;
		const uint64_t nb = f->rawdata.size() / 4096;
		struct Blk { uint64_t addr, hash; Id id; };
		vector<Blk> from, to;
		uint8_t b[BS];
		for (auto &s : w.fs.sv) for (auto &n : s.second.in) for (auto &e : n.second.fe) {
			if (e.second.type != FE_REG || !e.second.bytenr) continue;
			auto &p = w.fs.px.at(e.second.bytenr);
			for (uint64_t k = 0; k < e.second.len / BS; ++k) {
				const uint64_t pos = e.first + k * BS;
				if (pos >= n.second.size) break;
				const uint64_t blk = e.second.eoff / BS + k, len = min(BS, n.second.size - pos);
				w.fs.content.bytes(p.ids[blk], b);
				const Blk x { expected_addr(p, e.second.bytenr, blk, len < BS), crc64_0(b, len), p.ids[blk] };
				if (!n.second.raw && !n.second.is_nodatasum()) from.push_back(x);
				if (!o.target || o.target(s.second, n.second)) to.push_back(x);
			}
		}
		unsigned done = 0;
		if (from.empty() || to.empty()) return 0;
		multimap<Id, size_t> same;
		for (size_t i = 0; i < to.size(); ++i) same.insert({ to[i].id, i });
		vector<unsigned> used(nb);
		for (unsigned i = 0; i < o.n; ++i) {
			const Blk &x = from[r.below(from.size())];
			const Blk &y = to[r.below(to.size())];
			uint64_t h = x.hash, a = y.addr;
			switch (r.below(o.junk ? 10 : 4)) {
				case 0: break;
				case 1: h = r.next(); break;
				case 2: if (o.right) {
					auto q = same.equal_range(x.id);
					if (q.first == q.second) break;
					auto it = q.first;
					for (uint64_t k = r.below(unsigned(distance(q.first, q.second))); k; --k) ++it;
					a = to[it->second].addr;
				} break;
				case 3: a |= 0x200; break;
				case 4: a ^= 0x800; a |= r.below(64); break;
				case 5: a ^= 0x400; break;
				case 6: a = (a & ~0x3full) | r.below(64); break;
				case 7: a = (a & ~0xfffull) + (1 + r.below(64)) * BS; break;
				case 8: a = r.below(2) ? r.next() : r.below(0x2000); break;
				case 9: a = UINT64_MAX - r.below(0x2000); break;
			}
			// without right entries: the address does not hold the content
			if (!o.right) {
				bool is = false;
				for (auto &t : to) if ((t.addr & ~0xfffull) == (a & ~0xfffull) && t.hash == h) is = true;
				for (auto &t : from) if ((t.addr & ~0xfffull) == (a & ~0xfffull) && t.hash == h) is = true;
				if (is) continue;
			}
			const uint64_t bkt = h % nb;
			if (used[bkt] >= 256) continue;
			const size_t at = bkt * 4096 + 16 * used[bkt]++;
			memcpy(&f->rawdata[at], &h, 8);
			memcpy(&f->rawdata[at + 8], &a, 8);
			++done;
			PBT_DESC("planted hash " << hex << h << " address " << a << dec);
		}
		return done;
	}

	static unsigned g_mode;
	static vector<string> daemon_args(unsigned workers, bool ro_workaround = false)
	{
		g_mode = unsigned(draw(4));
		vector<string> a { "-v", verbosity(), "-c", to_string(workers), "-m", to_string(g_mode) };
		if (ro_workaround) a.push_back("-a");
		if (chance(1, 4)) a.push_back("-P");
		if (chance(1, 4)) { a.push_back("--throttle-factor"); a.push_back("1.5"); }
		a.push_back("/sim");
		return a;
	}
	static void set_mode(vector<string> &args, unsigned m)
	{
		g_mode = m;
		for (size_t i = 0; i + 1 < args.size(); ++i) if (args[i] == "-m") args[i + 1] = to_string(m);
	}
	static void describe(World &w, const LifeEnd &e, const char *what)
	{
		if (!describing()) return;
		PBT_DESC(what << ": mode " << g_mode << " virtual " << e.vns / 1000000000 << " s, " << e.steps << " steps, " << w.n_calls << " calls, " << w.dedupes.size() << " dedupes, " << w.tmp_blocks_written << " blocks copied" << (e.crashed ? ", crashed" : ""));
		for (auto &d : w.dedupes) PBT_DESC("  " << show(d));
	}
	static void counters(World &w)
	{
		count("dedupes", w.dedupes.size());
		count("system calls", w.n_calls);
		count("blocks copied", w.tmp_blocks_written);
	}

	// ---------------------------------------------------------------- scenarios
	enum Emphasis { E_ANY, E_WHOLE, E_UNIQUE, E_SPACE };
	static void static_scan(Emphasis em)
	{
		World w;
		ImgOpts o;
		const unsigned workers = em == E_WHOLE || em == E_SPACE ? 1 : unsigned(1 + draw(3));
		if (em == E_WHOLE) {
			o.whole_dups = true; o.dup_pm = 700; o.zero_pm = 0; o.partial_pm = 0; o.prealloc_pm = 0;
			o.comp_pm = chance(1, 2) ? 0 : 500;
		} else if (em == E_UNIQUE) {
			o.dup_pm = 0; o.whole_dups = true; o.zero_pm = 0; o.prealloc_pm = 0;
		} else if (em == E_SPACE) {
			o.partial_pm = 0; o.comp_pm = 0; o.whole_dups = false; o.reflink_pm = 0;
		} else {
			if (chance(1, 3)) o.twin_pm = 100;
			if (chance(1, 3)) o.overlay_pm = 300;
		}
		Gen g(w, o, draw(UINT64_MAX));
		g.build();
		g.home(1u << 20);
		settle(w);
		if (em == E_UNIQUE) { }
		observe_all(w, w.sh);
		const uint64_t before = w.fs.allocated();
		Plan p;
		p.args = daemon_args(workers);
		p.sched = sched(workers);
		PBT_DESC(dump_image(w));
		p.ctl = [&] {
			if (!wait_quiet(QUIET, LIMIT)) PBT_FAIL("the daemon never became idle");
			ds::post_signal(SIGTERM);
		};
		auto e = daemon_life(w, p);
		expect_running(e);
		describe(w, e, "scan");
		check_shadow(w, w.sh, "after a scan");
		settle(w);
		PBT_DESC(dump_image(w));
		check_requests(w, true, false, workers == 1);
		string where;
		if (has_prealloc(w, false, where)) PBT_FAIL("preallocated space within the file was not released: " << where);
		check_copy_budget(w);
		check_all_scanned(w, false, em == E_UNIQUE, "after a scan");
		if (em == E_WHOLE) check_whole_sharing(w, false);
		const uint64_t after = w.fs.allocated();
		if (em == E_SPACE && after > before) PBT_FAIL("allocated space grew from " << before << " to " << after);
		if (em == E_UNIQUE) {
			if (!w.dedupes.empty()) PBT_FAIL("nothing is duplicate, yet " << show(w.dedupes[0]));
			check_all_hashed(w, false);
		}
		if (em == E_UNIQUE ? w.phys_read.size() > 4 : !w.dedupes.empty()) nontrivial();
		counters(w);
	}
	// Extents of the sizes real filesystems have: up to 128 MiB, larger than one kernel request
	static void big_extents()
	{
		World w;
		ImgOpts o;
		o.max_files = 0; o.snap_pm = 0; o.max_subvols = 2;
		Gen g(w, o, draw(UINT64_MAX));
		g.build();
		g.home(4u << 20);
		Fs &fs = w.fs;
		const bool whole = chance(1, 3);
		static const uint64_t edges[] = { 4095, 4096, 4097, 5000, 8191, 8192, 8193, 12288, 16385, 32768 };
		const uint64_t n = chance(2, 3) ? edges[draw(9)] : 4000 + draw(8000);
		vector<Id> base;
		while (base.size() < n) base.push_back(g.fresh());
		const unsigned files = unsigned(2 + draw(1 + (n < 9000)));
		unsigned first = 0;
		for (unsigned i = 0; i < files; ++i) {
			auto &s = fs.sv.at(chance(1, 2) ? 5 : fs.sv.rbegin()->first);
			auto &f = make_inode(s, K_REG, 256, "big" + to_string(i));
			f.mtime = ++fs.clock;
			vector<Id> ids = base;
			const unsigned how = whole ? 0 : unsigned(draw(5));
			const uint64_t at = draw(n - 1), k = 1 + draw(min<uint64_t>(n - at, 6000) - 1);
			switch (how) {
				case 0: break;
				case 1: ids[at] = g.fresh(); break;
				case 2: for (uint64_t j = 0; j < k; ++j) ids[at + j] = 0; break;
				case 3: ids.erase(ids.begin() + long(at) + 1, ids.end()); break;
				case 4: ids.erase(ids.begin(), ids.begin() + long(at)); break;
				case 5: for (uint64_t j = 0; j < k; ++j) ids[at + j] = g.fresh(); break;
			}
			// the last file's extent may be a part of a larger one
			const uint64_t b = fs.new_extent(ids, 0, ids.size() * BS);
			uint64_t pos = 0;
			if (!whole && chance(1, 3)) pos = (1 + draw(40)) * BS;
			fs.map_extent(s, f, pos, ids.size() * BS, b, 0);
			f.size = pos + ids.size() * BS;
			PBT_DESC("file " << i << ": kind " << how << " blocks " << ids.size() << " at " << at << "+" << k << " offset " << pos);
			if (i == 0) first = how;
			if (chance(1, 2)) fs.commit();
		}
		(void)first;
		settle(w);
		observe_all(w, w.sh);
		Plan p;
		const unsigned workers = unsigned(1 + draw(2));
		p.args = daemon_args(workers);
		p.sched = sched(workers);
		p.sched.max_steps = 200000000;
		p.ctl = [&] {
			if (!wait_quiet(QUIET, LIMIT)) PBT_FAIL("the daemon never became idle");
			ds::post_signal(SIGTERM);
		};
		auto e = daemon_life(w, p);
		expect_running(e);
		describe(w, e, "scan");
		check_shadow(w, w.sh, "after a scan");
		settle(w);
		check_requests(w, true, false, workers == 1);
		check_copy_budget(w);
		check_all_scanned(w, false, false, "after a scan");
		if (whole && workers == 1) check_whole_sharing(w, false);
		if (!w.dedupes.empty()) nontrivial();
		uint64_t longest = 0;
		for (auto &d : w.dedupes) longest = max(longest, d.len);
		if (longest > (16u << 20)) label("a request over 16 MiB");
		counters(w);
	}
	// Extents around the limits between the size classes of the extent scan mode
	static void extent_sizes()
	{
		World w;
		ImgOpts o;
		o.max_files = 0; o.snap_pm = 0; o.max_subvols = 3;
		Gen g(w, o, draw(UINT64_MAX));
		g.build();
		g.home(4u << 20);
		Fs &fs = w.fs;
		static const uint64_t edges[] = { 32, 128, 512, 2048, 8192 };
		uint64_t total = 0;
		const unsigned files = unsigned(2 + draw(4));
		unsigned limits = 0;
		const bool parts = chance(1, 3);
		struct Made { uint64_t bytenr, n; };
		vector<Made> made;
		for (unsigned i = 0; i < files; ++i) {
			auto it = fs.sv.begin();
			advance(it, long(draw(fs.sv.size() - 1)));
			auto &s = it->second;
			auto &f = make_inode(s, K_REG, 256, "file" + to_string(i));
			f.mtime = ++fs.clock;
			uint64_t pos = chance(1, 5) ? (1 + draw(40)) * BS : 0;
			for (unsigned k = unsigned(1 + draw(3)); k; --k) {
				if (parts && !made.empty() && chance(1, 3)) {
					auto &m = pick(made);
					const uint64_t at = draw(m.n - 1), n = 1 + draw(min<uint64_t>(m.n - at, 40) - 1);
					fs.map_extent(s, f, pos, n * BS, m.bytenr, at * BS);
					pos += n * BS;
					continue;
				}
				uint64_t n = edges[weighted({ 6, 6, 4, 2, 1 })];
				const unsigned how = unsigned(draw(4));
				if (how == 1) --n;
				else if (how == 2) ++n;
				else if (how > 2) n = 1 + draw(n);
				else ++limits;
				if (how && how < 3) ++limits;
				if (total + n > 9000) continue;
				total += n;
				const uint8_t comp = n <= 32 && chance(1, 3) ? 1 : 0;
				vector<Id> ids;
				while (ids.size() < n) ids.push_back(g.fresh());
				const uint64_t b = fs.new_extent(ids, comp, comp ? g.comp_disk(n) : n * BS);
				fs.map_extent(s, f, pos, n * BS, b, 0);
				made.push_back({ b, n });
				pos += n * BS;
				PBT_DESC("file " << i << " in " << s.id << ": " << n << " blocks" << (comp ? " compressed" : ""));
			}
			f.size = pos;
			if (chance(1, 2)) fs.commit();
		}
		fs.commit();
		settle(w);
		observe_all(w, w.sh);
		Plan p;
		const unsigned workers = unsigned(1 + draw(3));
		p.args = daemon_args(workers);
		if (chance(1, 2)) set_mode(p.args, 4);
		p.sched = sched(workers);
		p.sched.max_steps = 200000000;
		p.ctl = [&] {
			if (!wait_quiet(QUIET, LIMIT)) PBT_FAIL("the daemon never became idle");
			ds::post_signal(SIGTERM);
		};
		auto e = daemon_life(w, p);
		expect_running(e);
		describe(w, e, "scan");
		check_shadow(w, w.sh, "after a scan");
		settle(w);
		if (!w.dedupes.empty()) PBT_FAIL("nothing is duplicate, yet " << show(w.dedupes[0]));
		check_all_scanned(w, false, !parts, "after a scan");
		// after a partial reference the rest of the extent is left alone
		if (!parts) check_all_hashed(w, false);
		if (limits) nontrivial();
		counters(w);
	}
}
#include "simdirect.h"
#include "simhist.h"
#include "simstate.h"
#include "simaddr.h"
#include "simopen.h"
#include "simcli.h"
#include "simexcl.h"
#include "simparts.h"

int main(int argc, char **argv)
{
	using namespace sim;
	vector<Property> props;
	auto add = [&](const char *id, const char *rule, vector<Scenario> sc) {
		Property p;
		p.id = id; p.level = "exploration"; p.rule = rule; p.scenarios = sc;
		p.assumptions = { "the simulated system calls behave as the kernel's do", "one thread runs at a time; switches happen at locks, waits and system calls" };
		props.push_back(p);
	};
	add("C01", "A case is an image, daemon options, workers and a schedule; non-trivial when at least one deduplication was requested.", {
		{ "scan", [] { static_scan(E_ANY); }, 2000, 100000, true, 240 },
		{ "history", [] { history_any(); }, 1000, 100000, true, 240 } });
	add("C02", "A case is an image with repeated whole extents, options and a schedule with one worker, or known data followed by new extents put together from runs of known blocks, zeros and new data; non-trivial when at least one deduplication was requested, or when extents that pay off stand beside extents that do not.", {
		{ "whole", [] { static_scan(E_WHOLE); }, 3000, 200000, true, 240 },
		{ "parts", [] { parts::run(true); }, 2000, 150000, true, 240 },
		{ "parts-long", [] { parts::run(false); }, 500, 50000, true, 240 },
		{ "later", [] { history_whole(); }, 1000, 100000, true, 240 } });
	add("C03", "A case is an image of uncompressed extents referenced as a whole, with duplicate, zero and unique blocks mixed in extents, or known data followed by new extents put together from runs; non-trivial when at least one deduplication was requested, or when extents that pay off stand beside extents that do not.", {
		{ "space", [] { static_scan(E_SPACE); }, 3000, 200000, true, 240 },
		{ "parts", [] { parts::run(true, true); }, 1000, 100000, true, 240 },
		{ "unique", [] { static_scan(E_UNIQUE); }, 1000, 50000, true, 240 } });
	add("C04", "A case is an image without duplicates, one of the five scan modes, 1 to 4 workers and a schedule, or extents whose sizes lie at and around the limits between the size tiers; non-trivial when more than four blocks were read.", {
		{ "unique", [] { static_scan(E_UNIQUE); }, 3000, 200000, true, 240 },
		{ "sizes", [] { extent_sizes(); }, 250, 20000, true, 240 },
		{ "any", [] { static_scan(E_ANY); }, 1500, 100000, true, 240 },
		{ "later", [] { history_scan(false, true); }, 500, 100000, true, 240 },
		{ "later-unique", [] { history_scan(true, true); }, 500, 100000, true, 240 } });
	add("C05", "A case is an image without duplicates and a sequence of lives ended at drawn calls or times by a kill, a system crash or a termination request; non-trivial when there is at least one restart.", {
		{ "lives", [] { history_scan(true, false); }, 2000, 100000, true, 240 } });
	add("C06", "A case is a state file (drawn positions, older formats, or one of 13 kinds of damage) given to a daemon on a drawn image, or a history of lives whose every change in the state directory is replayed; non-trivial when extents had to be scanned, several roots were loaded, or the file was replaced more than once.", {
		{ "load", [] { state::load(); }, 1500, 100000, true, 240 },
		{ "roundtrip", [] { state::roundtrip(); }, 1500, 50000, true, 60 },
		{ "atomic", [] { state::atomic(); }, 700, 50000, true, 240 } });
	add("C07", "A case is a set of thread programs on the hash table with waits, slow or failing file writes and a schedule, a clean stop and a second process; non-trivial when several threads work or the file was written.", {
		{ "own", [] { htab::history(false, false); }, 4000, 150000, true, 120 },
		{ "faults", [] { htab::history(true, false); }, 3000, 150000, true, 120 },
		{ "shared", [] { htab::history(false, true); }, 2000, 100000, true, 120 } });
	add("C08", "A case is a table file with buckets filled to a drawn level and a sequence of insertions, confirmations, erasures and lookups; non-trivial when there are at least three operations.", {
		{ "model", [] { htab::model(); }, 5000, 200000, true, 120 },
		{ "threads", [] { htab::history(false, false); }, 2000, 80000, true, 120 } });
	add("C09", "A case is a table file (random bytes, structured entries, misplaced and reserved values, old contents extended, illegal sizes) loaded under a schedule, or an image and a daemon that begins with wrong entries; non-trivial when the file has entries or an illegal size, and duplicates were found in spite of them.", {
		{ "load", [] { htab::load(); }, 4000, 200000, true, 120 },
		{ "daemon", [] { htab::daemon(); }, 1500, 100000, true, 240 } });
	add("C10", "A case is a set of block positions (compressed or not, any offset in the extent, tails, toxic) with arbitrary physical addresses, or every block of every file of a generated image in any order; non-trivial when positions of at least three kinds are compared.", {
		{ "encode", [] { addr::encode(); }, 40000, 2000000, false, 60 },
		{ "map", [] { addr::map_files(); }, 3000, 150000, true, 120 } });
	add("C17", "A case is an image with read-only and writable subvolumes, options and a schedule, with subvolumes changing state, sends starting and ending, and terminations; non-trivial when the daemon worked and a read-only subvolume was there to be spared, or a request met a send or a read-only destination.", {
		{ "flips", [] { excl::flips(); }, 1000, 60000, true, 240 },
		{ "never-scanned", [] { excl::never_scanned(); }, 1000, 60000, true, 240 },
		{ "send", [] { excl::send(); }, 1500, 80000, true, 240 } });
	add("C18", "A case is an image in which files without checksums or copy-on-write, special files, the hash table's own file and files of another filesystem repeat the content of ordinary files; non-trivial when there are such files and the hash table has entries.", {
		{ "excluded", [] { excl::excluded(); }, 3000, 150000, true, 240 } });
	add("C29", "A case is an image with lasting errors on some objects, or errors of every kind for a while followed by new data, or one failing call, or extents that are slow to resolve and copies of them; non-trivial when something failed and other data could be shared, or a slow extent was resolved.", {
		{ "persistent", [] { excl::persistent(); }, 2000, 100000, true, 240 },
		{ "transient", [] { excl::transient(); }, 1500, 100000, true, 240 },
		{ "single", [] { excl::single(); }, 2000, 100000, true, 240 },
		{ "toxic", [] { excl::toxic(); }, 1500, 80000, true, 240 } });
	add("C19", "A case is an image with hard links, special files, nested subvolumes and a second filesystem that holds the same names and numbers, threads opening by number, and changes of names, links, mounts, subvolumes and snapshots injected before drawn system calls; non-trivial when something was opened and something changed.", {
		{ "race", [] { byino::race(); }, 6000, 300000, true, 120 } });
	add("C20", "A case is an argument vector over the documented options in every spelling (separate, attached, abbreviated, clustered, repeated, permuted) with valid values, or with one defect, or asking for help, or an image scanned with slow calls and a throttle factor; non-trivial when the program ran to its end and its status, system calls, output and settings were judged.", {
		{ "refused", [] { cli::refused(); }, 6000, 300000, true, 120 },
		{ "help", [] { cli::help(); }, 1500, 60000, true, 120 },
		{ "bad-path", [] { cli::bad_path(); }, 1000, 40000, true, 120 },
		{ "accepted", [] { cli::accepted(); }, 1500, 80000, true, 240 },
		{ "throttle", [] { cli::throttle(); }, 500, 30000, true, 240 } });
	add("C24", "A case is an image, options, a schedule and a sequence of termination, pause and resume requests at drawn times over several lives; non-trivial when the daemon was restarted or worked after a pause.", {
		{ "term", [] { history_term(false); }, 1500, 100000, true, 240 },
		{ "term-sharing", [] { history_term(true); }, 1000, 100000, true, 240 },
		{ "pause", [] { pauses(false); }, 1000, 50000, true, 240 },
		{ "pause-sharing", [] { pauses(true); }, 1000, 50000, true, 240 } });
	add("C30", "A case is an image, daemon options, workers, a schedule and, in histories, users' changes and restarts; non-trivial when at least one deduplication was requested (and users wrote).", {
		{ "scan", [] { static_scan(E_ANY); }, 2500, 100000, true, 240 },
		{ "history", [] { history_any(); }, 1000, 100000, true, 240 },
		{ "big", [] { big_extents(); }, 24, 3000, true, 240 } });
	return run_main(argc, argv, props);
}
