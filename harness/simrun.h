// One run of the daemon on a simulated filesystem, and what must hold after it.
#ifndef VERIF_SIMRUN_H
#define VERIF_SIMRUN_H
#include "simsys.h"
#include "simgen.h"
#include <getopt.h>
#include <thread>
#include <iostream>
#include "bees.h"

extern int bees_real_main(int argc, char *argv[]);

using namespace std;
using namespace pbt;
namespace sim {
	// ---------------------------------------------------------------- lives
	struct Plan {
		vector<string> args;
		function<void()> ctl;      // runs as a thread of the life
		uint64_t crash_call = 0;
		ds::Config sched;
		string beeshome;
		int capture = -1;          // a file to receive the output
	};
	static LifeEnd daemon_life(World &w, Plan p)
	{
		return run_life(w, [&]() -> int {
			crash_countdown = p.crash_call;
			if (!p.beeshome.empty()) setenv("BEESHOME", p.beeshome.c_str(), 1); else unsetenv("BEESHOME");
			unsetenv("BEESSTATUS");
			if (p.capture >= 0) {
				syscall(SYS_dup2, p.capture, 2);
				syscall(SYS_dup2, p.capture, 1);
			} else if (!getenv("SIM_VERBOSE")) {
				const int nul = int(syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY, 0));
				syscall(SYS_dup2, nul, 2);
				syscall(SYS_dup2, nul, 1);
			}
			ds::on_deadlock = [](const string &m) { PBT_FAIL("the daemon is deadlocked: " << m); };
			ds::start(p.sched);
			vector<string> args { "bees" };
			args.insert(args.end(), p.args.begin(), p.args.end());
			vector<char *> argv;
			for (auto &a : args) argv.push_back(&a[0]);
			argv.push_back(nullptr);
			optind = 0;
			thread t;
			if (p.ctl) t = thread([&] { p.ctl(); });
			const int rv = bees_real_main(int(args.size()), argv.data());
			// only reached when the daemon did not start
			fflush(stdout);
			finish_life(rv, "return");
			return rv;
		});
	}
	static double vsec() { return double(ds::now_ns()) / 1e9; }
	// Sleep until the daemon has been inactive for 'quiet' seconds
	static bool wait_quiet(double quiet, double limit)
	{
		const double t0 = vsec();
		while (true) {
			ds::sleep(quiet / 8 + 1);
			const double now = vsec();
			const double last = max(t0, double(W->last_activity) / 1e9);
			if (now - last > quiet) return true;
			if (now - t0 > limit) return false;
		}
	}
	static const double QUIET = 700, LIMIT = 400000;
	static ds::Config sched(unsigned workers)
	{
		ds::Config c = ds::draw_config(30000);
		// time-sliced runs are cheap and enough when a single worker scans
		if (workers <= 1 && c.strategy == ds::Config::RANDOM) c.switch_permille = min(c.switch_permille, 20u);
		c.max_steps = 20000000;
		c.tick_ns = 1000;
		return c;
	}
	static string verbosity() { const bool v = chance(1, 20); return v || getenv("SIM_VERBOSE") ? "8" : "3"; }
	static void expect_running(const LifeEnd &e) { if (e.returned) PBT_FAIL("the daemon gave up with status " << e.code << " instead of running"); }
	static void settle(World &w) { w.fs.flush_all(); w.fs.commit(); }

	// ---------------------------------------------------------------- oracles
	static string show(const Dedupe &d)
	{
		ostringstream o;
		o << "dedupe t=" << double(d.t) / 1e9 << " src " << d.sroot << "/" << d.sino << (d.stmp ? "(tmp)" : "") << "+" << d.soff << " dst " << d.droot << "/" << d.dino << (d.dtmp ? "(tmp)" : "") << "+" << d.doff << " len " << d.len << " status " << d.status << " done " << d.done << " phys_same " << d.phys_same << " holes " << d.src_hole;
		return o.str();
	}
	// C30: every request well formed; in a quiescent filesystem every one succeeds
	static void check_requests(World &w, bool quiescent, bool faults = false, bool one_worker = false)
	{
		for (auto &d : w.dedupes) {
			if (d.len == 0) PBT_FAIL("empty " << show(d));
			if (d.soff % BS || d.doff % BS) PBT_FAIL("unaligned " << show(d));
			if (d.len > (256u << 20)) PBT_FAIL("oversized " << show(d));
			if (d.dtmp) PBT_FAIL("temporary file is a destination: " << show(d));
			if (d.sroot == d.droot && d.sino == d.dino && d.soff < d.doff + d.len && d.doff < d.soff + d.len) PBT_FAIL("overlapping " << show(d));
			bool recent = false;
			for (auto k : { make_pair(d.sroot, d.sino), make_pair(d.droot, d.dino) }) {
				auto i = w.last_write.find(k);
				if (i != w.last_write.end()) recent = true;
			}
			if (quiescent || !recent) {
				if (!d.same_content) PBT_FAIL("contents differ in " << show(d));
				if (d.status && !faults && d.status != -EAGAIN) PBT_FAIL("refused " << show(d));
				// concurrent scans of overlapping references may both ask for the same sharing
				if (one_worker && !d.stmp && d.phys_same * BS >= d.len) PBT_FAIL("already shared " << show(d));
			}
		}
	}
	struct Tuple {
		uint64_t bytenr, off, len;
		bool operator<(const Tuple &t) const { return tie(bytenr, off, len) < tie(t.bytenr, t.off, t.len); }
	};
	static bool eligible(World &w, const Subvol &s, const Inode &n, bool skip_ro)
	{
		(void)w;
		return !s.dead && !(skip_ro && s.ro) && n.kind == K_REG && !n.tmp && !n.raw && !n.is_nodatasum() && !n.is_nodatacow() && !n.names.empty();
	}
	struct Where { uint64_t root, ino, pos, len; };
	// live data extents of eligible files, clipped to the file
	static map<Tuple, Where> live_tuples(World &w, bool skip_ro)
	{
		map<Tuple, Where> rv;
		for (auto &s : w.fs.sv) {
			for (auto &n : s.second.in) {
				if (!eligible(w, s.second, n.second, skip_ro)) continue;
				for (auto &f : n.second.fe) {
					if (f.second.type != FE_REG || !f.second.bytenr || f.first >= n.second.size) continue;
					rv[{ f.second.bytenr, f.second.eoff, f.second.len }] = { s.first, n.first, f.first, min(f.second.len, (n.second.size - f.first + BS - 1) / BS * BS) };
				}
			}
		}
		return rv;
	}
	// extents with at least one reference from an ineligible file: may be left alone
	static set<uint64_t> mixed(World &w)
	{
		set<uint64_t> rv;
		for (auto &s : w.fs.sv) for (auto &n : s.second.in) {
			if (n.second.is_nodatasum() || n.second.is_nodatacow() || n.second.names.empty()) for (auto &f : n.second.fe) if (f.second.bytenr) rv.insert(f.second.bytenr);
		}
		return rv;
	}
	// C04: every live eligible extent was read
	static void check_all_scanned(World &w, bool skip_ro, bool every_block, const char *when)
	{
		auto mx = mixed(w);
		for (auto &t : live_tuples(w, skip_ro)) {
			if (mx.count(t.first.bytenr) || w.renamed.count({ t.second.root, t.second.ino })) continue;
			auto &p = w.fs.px.at(t.first.bytenr);
			if (p.toxic || p.fail_resolve || !p.bad.empty()) continue;
			bool any = false, all = true;
			for (uint64_t b = 0; b < t.second.len / BS; ++b) {
				if (w.phys_read.count({ p.serial, t.first.off / BS + b })) any = true; else all = false;
			}
			// one known block of an extent is enough for the daemon to leave the rest of it alone
			if (!any && !every_block) {
				auto i = w.phys_read.lower_bound({ p.serial, 0 });
				any = i != w.phys_read.end() && i->first == p.serial;
			}
			if (!any || (every_block && !all)) PBT_FAIL(when << ": extent " << t.first.bytenr << "+" << t.first.off << " len " << t.first.len << " of root " << t.second.root << " inode " << t.second.ino << " offset " << t.second.pos << " was " << (any ? "only partly" : "never") << " scanned");
		}
	}
	static const Inode *home_file(World &w, const string &name)
	{
		auto d = inode(w.home_root, w.home_ino);
		if (!d) return nullptr;
		auto e = d->entries.find(name);
		return e == d->entries.end() ? nullptr : inode(w.home_root, e->second.second);
	}
	// cells of the table on disk
	static set<pair<uint64_t, uint64_t>> table_cells(World &w)
	{
		set<pair<uint64_t, uint64_t>> rv;
		auto f = home_file(w, "beeshash.dat");
		if (!f) return rv;
		for (size_t i = 0; i + 16 <= f->rawdata.size(); i += 16) {
			uint64_t h, a;
			memcpy(&h, &f->rawdata[i], 8);
			memcpy(&a, &f->rawdata[i + 8], 8);
			if (a) rv.insert({ h, a });
		}
		return rv;
	}
	static uint64_t expected_addr(const PhysExtent &p, uint64_t bytenr, uint64_t blk, bool eof)
	{
		uint64_t a = p.comp ? (bytenr | 0x800 | (blk + 1)) : bytenr + blk * BS;
		return eof ? a | 0x400 : a;
	}
	// unique data and room in the table: every nonzero block is in the table under its hash
	// blocks of extents in 'except' are not looked for
	static void check_all_hashed(World &w, bool skip_ro, const set<uint64_t> *except = nullptr)
	{
		auto cells = table_cells(w);
		auto mx = mixed(w);
		uint8_t b[BS];
		// one physical block may end differently in different files: one form is enough
		map<pair<uint64_t, uint64_t>, pair<bool, string>> found;
		for (auto &s : w.fs.sv) for (auto &n : s.second.in) {
			if (!eligible(w, s.second, n.second, skip_ro)) continue;
			for (auto &f : n.second.fe) {
				if (f.second.type != FE_REG || !f.second.bytenr || mx.count(f.second.bytenr)) continue;
				auto &p = w.fs.px.at(f.second.bytenr);
				if (except && except->count(p.serial)) continue;
				for (uint64_t k = 0; k < f.second.len / BS; ++k) {
					const uint64_t pos = f.first + k * BS;
					if (pos >= n.second.size) break;
					const uint64_t blk = f.second.eoff / BS + k, len = min(BS, n.second.size - pos);
					if (!p.ids[blk]) continue;
					w.fs.content.bytes(p.ids[blk], b);
					const uint64_t h = crc64_0(b, len), a = expected_addr(p, f.second.bytenr, blk, len < BS);
					auto &fd = found[{ f.second.bytenr, blk }];
					if (cells.count({ h, a })) fd.first = true;
					else {
						ostringstream o;
						o << "block " << k << " of extent at root " << s.first << " inode " << n.first << " offset " << f.first << " (address " << hex << a << ", hash " << h << dec << ") is not in the saved hash table";
						fd.second = o.str();
					}
				}
			}
		}
		for (auto &i : found) if (!i.second.first) PBT_FAIL(i.second.second);
	}
	// extents of which the table on disk has some blocks but not all
	static set<uint64_t> half_hashed(World &w)
	{
		set<uint64_t> rv, some;
		auto cells = table_cells(w);
		uint8_t b[BS];
		map<pair<uint64_t, uint64_t>, bool> found;
		for (auto &s : w.fs.sv) for (auto &n : s.second.in) {
			if (!eligible(w, s.second, n.second, false)) continue;
			for (auto &f : n.second.fe) {
				if (f.second.type != FE_REG || !f.second.bytenr) continue;
				auto &p = w.fs.px.at(f.second.bytenr);
				for (uint64_t k = 0; k < f.second.len / BS; ++k) {
					const uint64_t pos = f.first + k * BS;
					if (pos >= n.second.size) break;
					const uint64_t blk = f.second.eoff / BS + k, len = min(BS, n.second.size - pos);
					if (!p.ids[blk]) continue;
					w.fs.content.bytes(p.ids[blk], b);
					const bool f1 = cells.count({ crc64_0(b, len), expected_addr(p, f.second.bytenr, blk, len < BS) });
					found[{ p.serial, blk }] |= f1;
					if (f1) some.insert(p.serial);
				}
			}
		}
		for (auto &i : found) if (!i.second && some.count(i.first.first)) rv.insert(i.first.first);
		return rv;
	}
	// contents that end a file in one place and lie inside a file in another: their last
	// blocks have different lengths, so the daemon may have seen only one of the two forms
	static set<vector<Id>> ambiguous_tails(World &w)
	{
		map<vector<Id>, set<uint64_t>> cuts;
		for (auto &s : w.fs.sv) for (auto &n : s.second.in) for (auto &f : n.second.fe) {
			if (f.second.type != FE_REG || !f.second.bytenr) continue;
			auto &p = w.fs.px.at(f.second.bytenr);
			if (f.second.eoff + f.second.len != p.ram) continue;
			cuts[p.ids].insert(f.first + f.second.len > n.second.size ? n.second.size % BS : 0);
		}
		set<vector<Id>> rv;
		for (auto &c : cuts) if (c.second.size() > 1) rv.insert(c.first);
		return rv;
	}
	// C02: whole identical extents have one physical copy
	static void check_whole_sharing(World &w, bool skip_ro, bool skip_tails = false)
	{
		auto mx = mixed(w);
		auto amb = ambiguous_tails(w);
		map<pair<vector<Id>, uint64_t>, pair<uint64_t, Where>> seen;
		for (auto &s : w.fs.sv) for (auto &n : s.second.in) {
			if (!eligible(w, s.second, n.second, skip_ro)) continue;
			for (auto &f : n.second.fe) {
				if (f.second.type != FE_REG || !f.second.bytenr || mx.count(f.second.bytenr)) continue;
				auto &p = w.fs.px.at(f.second.bytenr);
				if (f.second.len != p.ram) continue;
				bool zero = false;
				for (auto i : p.ids) if (!i) zero = true;
				if (zero || amb.count(p.ids)) continue;
				if (skip_tails) {
					// scanned as the end of a file that has since changed its length
					uint8_t b[BS];
					w.fs.content.bytes(p.ids.back(), b);
					if (!b[BS - 1]) continue;
				}
				const uint64_t cut = f.first + f.second.len > n.second.size ? n.second.size % BS : 0;
				auto ins = seen.insert({ { p.ids, cut }, { f.second.bytenr, { s.first, n.first, f.first, f.second.len } } });
				auto &o = ins.first->second;
				if (!ins.second && o.first != f.second.bytenr)
					PBT_FAIL("identical extents of " << p.ids.size() << " blocks do not share storage: root " << o.second.root << " inode " << o.second.ino << " offset " << o.second.pos << " and root " << s.first << " inode " << n.first << " offset " << f.first);
			}
		}
	}
	static bool has_prealloc(World &w, bool skip_ro, string &where)
	{
		for (auto &s : w.fs.sv) for (auto &n : s.second.in) {
			if (!eligible(w, s.second, n.second, skip_ro)) continue;
			for (auto &f : n.second.fe) if (f.second.type == FE_PREALLOC && f.first < n.second.size && f.second.bytenr) {
				where = "root " + to_string(s.first) + " inode " + to_string(n.first) + " offset " + to_string(f.first);
				return true;
			}
		}
		return false;
	}
	struct Space { uint64_t gained = 0, copied = 0; };
	static void check_copy_budget(World &w)
	{
		uint64_t gain = 0;
		for (auto &d : w.dedupes) if (!d.status) {
			if (!d.stmp) gain += (d.len + BS - 1) / BS;
			else gain += d.src_hole;
		}
		if (w.tmp_blocks_written > gain) PBT_FAIL(w.tmp_blocks_written << " blocks were copied to free only " << gain);
	}
}
#endif
