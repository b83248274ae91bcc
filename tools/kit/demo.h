// Hand-made histories on the simulated filesystem.
#include "simrun.h"
#include <sys/personality.h>
namespace pbt { void stub_seed(uint64_t); void stub_report_to(int); }
namespace sim {
	static void basic(World &w, uint64_t table = 1u << 20)
	{
		W = &w;
		Fs &fs = w.fs;
		fs.transid = 20;
		fs.chunks[1ull << 22] = { 1ull << 23, 4 };
		fs.chunks[16ull << 20] = { 1ull << 30, 1 };
		auto sub = [&](Subvol &v, uint64_t id) {
			v.id = id; v.transid = v.gen = fs.transid;
			Inode d;
			d.ino = 256; d.kind = K_DIR; d.transid = d.gen = fs.transid;
			d.names.push_back({ 256, ".." });
			v.in[256] = d;
		};
		sub(fs.sv[5], 5);
		w.other = Subvol();
		w.other.id = OTHER;
		{ Inode d; d.ino = 256; d.kind = K_DIR; w.other.in[256] = d; }
		auto &d = make_inode(fs.sv[5], K_DIR, 256, ".beeshome");
		w.home_root = 5;
		w.home_ino = d.ino;
		if (table) {
			auto &f = make_inode(fs.sv[5], K_REG, d.ino, "beeshash.dat");
			f.raw = true;
			f.rawdata.assign(table, 0);
			f.size = table;
		}
	}
	static uint64_t subvol(World &w, const string &name)
	{
		Fs &fs = w.fs;
		Subvol v;
		v.id = fs.next_subvol++;
		v.parent = 5; v.dirid = 256; v.name = name;
		v.transid = v.gen = fs.transid;
		Inode d;
		d.ino = 256; d.kind = K_DIR; d.transid = d.gen = fs.transid;
		d.names.push_back({ 256, ".." });
		v.in[256] = d;
		fs.sv[v.id] = v;
		fs.sv[5].in.at(256).entries[name] = { 1, v.id };
		fs.sv[5].transid = fs.transid;
		++fs.mods;
		return v.id;
	}
	// content: n ids from first; 0 ids are zero blocks
	static vector<Id> ids(Id first, uint64_t n) { vector<Id> v; for (uint64_t i = 0; i < n; ++i) v.push_back(first + i); return v; }
	static vector<Id> operator+(vector<Id> a, const vector<Id> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
	// the bytes of the hash table file
	static string &table_of(World &w)
	{
		for (auto &i : w.fs.sv.at(5).in) for (auto &n : i.second.names) if (n.second == "beeshash.dat") return i.second.rawdata;
		PBT_FAIL("no hash table file");
	}
	static Inode &new_file(World &w, uint64_t root, const string &name)
	{
		auto &n = make_inode(w.fs.sv.at(root), K_REG, 256, name);
		n.mtime = ++w.fs.clock;
		return n;
	}
	static uint64_t append(World &w, uint64_t root, Inode &n, const vector<Id> &v, uint8_t comp = 0)
	{
		Fs &fs = w.fs;
		const uint64_t b = fs.new_extent(v, comp, comp ? BS : v.size() * BS);
		const uint64_t pos = (n.size + BS - 1) / BS * BS;
		fs.map_extent(fs.sv.at(root), n, pos, v.size() * BS, b, 0);
		n.size = pos + v.size() * BS;
		return b;
	}
	static void reflink(World &w, uint64_t root, Inode &n, uint64_t bytenr, uint64_t eoff, uint64_t blocks)
	{
		const uint64_t pos = (n.size + BS - 1) / BS * BS;
		w.fs.map_extent(w.fs.sv.at(root), n, pos, blocks * BS, bytenr, eoff * BS);
		n.size = pos + blocks * BS;
	}
	static ds::Config plain_sched(uint64_t seed)
	{
		pbt::stub_seed(seed);
		ds::Config c = ds::draw_config(30000);
		c.max_steps = 20000000;
		c.tick_ns = 1000;
		return c;
	}
	static function<void()> until_quiet(double limit = LIMIT)
	{
		return [limit] {
			if (!wait_quiet(QUIET, limit)) PBT_FAIL("the daemon never became idle");
			ds::post_signal(SIGTERM);
		};
	}
	static LifeEnd run(World &w, vector<string> args, uint64_t seed, function<void()> ctl = nullptr, function<void(Plan &)> more = nullptr)
	{
		Plan p;
		p.args = args;
		p.args.push_back("/sim");
		p.sched = plain_sched(seed);
		p.ctl = ctl ? ctl : until_quiet();
		if (more) more(p);
		auto e = daemon_life(w, p);
		expect_running(e);
		return e;
	}
	static bool was_read(World &w, uint64_t bytenr)
	{
		const uint64_t s = w.fs.px.at(bytenr).serial;
		auto i = w.phys_read.lower_bound({ s, 0 });
		return i != w.phys_read.end() && i->first == s;
	}
	static uint64_t at(World &w, uint64_t root, uint64_t ino, uint64_t blk)
	{
		uint64_t st = 0;
		auto f = w.fs.extent_at(w.fs.sv.at(root).in.at(ino), blk * BS, &st);
		return f && f->bytenr ? f->bytenr + f->eoff + blk * BS - st : 0;
	}
}
static void demo();
int main(int, char **argv)
{
	const int pers = personality(0xffffffff);
	if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("DEMO_REEXEC")) {
		setenv("DEMO_REEXEC", "1", 1);
		if (personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
	}
	pbt::stub_report_to(int(syscall(SYS_dup, 2)));
	demo();
	fprintf(stderr, "ok\n");
	syscall(SYS_exit_group, 0);
}
