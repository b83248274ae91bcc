// System-call layer of the simulated btrfs: world state, recording, faults,
// libc interposition.  Included once, by sim.cc.
#ifndef VERIF_SIMSYS_H
#define VERIF_SIMSYS_H
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <dirent.h>
#include <dlfcn.h>
#include <functional>
#include <linux/btrfs.h>
#include <linux/fs.h>
#include <linux/openat2.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/utsname.h>
#include <sys/vfs.h>
#include <sys/wait.h>
#include <unistd.h>
#include "detsched.h"
#include "pbt.h"
#include "simfs.h"

#ifndef BTRFS_SUPER_MAGIC
#define BTRFS_SUPER_MAGIC 0x9123683E
#endif

namespace sim {
	using namespace pbt;
	static const uint64_t OTHER = 1000000000;   // root id of the foreign filesystem
	static const uint64_t PAGE_BLOCKS = 1;

	// What the daemon did, in order.  Everything an oracle needs.
	struct Dedupe {
		uint64_t t = 0, sroot = 0, sino = 0, soff = 0, droot = 0, dino = 0, doff = 0, len = 0;
		int64_t status = 0; // 0 ok, 1 differs, -errno
		uint64_t done = 0;
		bool same_content = false;
		uint64_t phys_same = 0;  // blocks that already shared storage
		uint64_t src_hole = 0;   // blocks without storage in the source
		uint64_t writes = 0;     // user_writes at the time
		uint64_t last_write = 0; // virtual time of the last user change to either file, 0: none
		bool stmp = false, dtmp = false, dro = false;
		uint64_t dro_ns = 0;     // how long the destination's subvolume had been read-only
	};
	inline void io(Ar &a, Dedupe &d)
	{
		io(a, d.t); io(a, d.sroot); io(a, d.sino); io(a, d.soff); io(a, d.droot); io(a, d.dino); io(a, d.doff); io(a, d.len);
		io(a, d.status); io(a, d.done); io(a, d.same_content); io(a, d.phys_same); io(a, d.src_hole); io(a, d.writes); io(a, d.last_write); io(a, d.stmp); io(a, d.dtmp); io(a, d.dro); io(a, d.dro_ns);
	}
	struct HomeOp { uint8_t kind = 0; uint64_t ino = 0, off = 0; string a, b; }; // c=create w=write t=trunc f=fsync r=rename u=unlink C=commit
	inline void io(Ar &a, HomeOp &h) { io(a, h.kind); io(a, h.ino); io(a, h.off); io(a, h.a); io(a, h.b); }

	struct Cfg {
		uint64_t syscall_ns = 20000;     // virtual cost of each call
		bool openat2_ok = true;
		bool v2_ok = true;               // LOGICAL_INO_V2 supported
		string kernel = "6.6.0";
		unsigned commit_s = 30;
		bool point_every_call = true;
		// one-shot and random faults: permille per class
		unsigned f_pread = 0, f_open = 0, f_dedupe = 0, f_resolve = 0, f_search = 0, f_tmpwrite = 0, f_home = 0, f_partial = 0, f_tmpopen = 0, f_hwrite = 0;
		uint64_t home_slow_ns = 0;       // virtual duration of each state write
		uint64_t fault_from_s = 0, fault_until_s = UINT64_MAX;
		uint64_t f_nth = 0;              // only this call (counted from fault_from_s on) fails
		uint64_t other_btrfs = 0;        // the foreign filesystem is another btrfs: the subvolume id it reports
	};
	inline void io(Ar &a, Cfg &c)
	{
		io(a, c.syscall_ns); io(a, c.openat2_ok); io(a, c.v2_ok); io(a, c.kernel); io(a, c.commit_s); io(a, c.point_every_call);
		io(a, c.f_pread); io(a, c.f_open); io(a, c.f_dedupe); io(a, c.f_resolve); io(a, c.f_search); io(a, c.f_tmpwrite); io(a, c.f_home); io(a, c.f_partial); io(a, c.f_tmpopen); io(a, c.f_hwrite);
		io(a, c.home_slow_ns); io(a, c.fault_from_s); io(a, c.fault_until_s); io(a, c.other_btrfs); io(a, c.f_nth);
	}
	// What users know about their files
	struct UserFile { uint64_t size = 0, mtime = 0, flags = 0; vector<Id> ids; };
	struct Shadow { map<pair<uint64_t, uint64_t>, UserFile> f; };
	inline void io(Ar &a, UserFile &u) { io(a, u.size); io(a, u.mtime); io(a, u.flags); io(a, u.ids); }
	inline void io(Ar &a, Shadow &s)
	{
		size_t n = s.f.size();
		io(a, n);
		if (a.rd) { s.f.clear(); while (n--) { pair<uint64_t, uint64_t> k; io(a, k); io(a, s.f[k]); } }
		else for (auto &i : s.f) { auto k = i.first; io(a, k); io(a, i.second); }
	}
	struct PhysRead { uint64_t first = 0, last = 0; };
	struct World {
		Fs fs;
		Subvol other;                 // foreign (non-btrfs) filesystem
		Cfg cfg;
		uint64_t home_root = 5, home_ino = 0;
		string home_name = ".beeshome";
		// records
		vector<Dedupe> dedupes;
		set<pair<uint64_t, uint64_t>> phys_read;      // (extent serial, block index) read through a scan descriptor
		set<pair<uint64_t, uint64_t>> phys_life;      // the same, since the last start
		set<pair<uint64_t, uint64_t>> fully_read;     // extents read completely within one life
		set<pair<uint64_t, uint64_t>> file_read;      // (root<<40|ino, block)
		map<uint64_t, uint64_t> resolved;             // bytenr -> LOGICAL_INO count
		map<uint64_t, uint64_t> toxic_resolved;       // bytenr -> expensive resolutions
		vector<pair<uint64_t, uint64_t>> toxic_log;   // (virtual ns, bytenr)
		vector<HomeOp> home_log;
		uint64_t tmp_blocks_written = 0, user_writes = 0, n_calls = 0;
		map<string, uint64_t> calls;
		uint64_t last_activity = 0;                   // virtual ns of the last dedupe/read/tmp write
		uint64_t last_write_ns = 0;
		uint64_t vtime_base = 0;
		uint64_t faults_fired = 0, fault_points = 0;
		string cannot;                                // harness limit reached
		Shadow sh;
		set<pair<uint64_t, uint64_t>> renamed;   // a lookup in progress may have missed them
		map<pair<uint64_t, uint64_t>, uint64_t> last_write; // (root, ino) -> virtual ns of the last user change
		vector<pair<uint64_t, string>> notes;         // scenario's own records
		string committed;                             // serialized Fs at the last commit, when asked for
		// live only
		bool live = false;
		bool keep_committed = false;
		uint64_t last_commit_ns = 0;
		bool dirty = false;
		int returned_rv = 0;
	};
	inline void io(Ar &a, World &w)
	{
		io(a, w.fs); io(a, w.other); io(a, w.cfg); io(a, w.home_root); io(a, w.home_ino); io(a, w.home_name);
		io(a, w.dedupes); io(a, w.phys_read); io(a, w.phys_life); io(a, w.fully_read); io(a, w.file_read); io(a, w.resolved); io(a, w.toxic_resolved); io(a, w.toxic_log); io(a, w.home_log);
		io(a, w.tmp_blocks_written); io(a, w.user_writes); io(a, w.n_calls); io(a, w.calls); io(a, w.last_activity); io(a, w.last_write_ns); io(a, w.vtime_base); io(a, w.faults_fired); io(a, w.fault_points); io(a, w.cannot); io(a, w.sh); io(a, w.last_write); io(a, w.renamed); io(a, w.notes); io(a, w.committed); io(a, w.keep_committed);
	}
	static World *W = nullptr;
	static const char *table_mem = nullptr;
	static size_t table_len = 0;
	static Rng fault_rng(1);
	static uint64_t crash_countdown = 0;
	static void finish_life(int code, const char *how);
	static thread_local uint64_t tl_stime_ns = 0;
	static std::function<void(const Dedupe &)> on_dedupe;
	static std::function<void(const char *, uint64_t root, uint64_t ino)> on_call; // before effect
	static std::function<void(const char *)> on_enter;                               // at every call

	template <class F> static F real(const char *n) { static_assert(sizeof(F) == sizeof(void *), ""); void *p = dlsym(RTLD_NEXT, n); F f; memcpy(&f, &p, sizeof(f)); return f; }
	static bool live() { return W && W->live; }
	static bool fake(int fd) { return live() && fd >= 1000000; }
	static Subvol *svol(uint64_t root)
	{
		if (root == OTHER) return &W->other;
		auto i = W->fs.sv.find(root);
		return i == W->fs.sv.end() ? nullptr : &i->second;
	}
	static Inode *inode(uint64_t root, uint64_t ino)
	{
		auto s = svol(root);
		if (!s) return nullptr;
		auto i = s->in.find(ino);
		return i == s->in.end() ? nullptr : &i->second;
	}
	static void violation(const string &m) { PBT_FAIL(m); }
	static uint64_t vnow() { return W->vtime_base + ds::now_ns(); }
	static void maybe_commit()
	{
		const uint64_t n = ds::now_ns();
		if (n - W->last_commit_ns >= uint64_t(W->cfg.commit_s) * 1000000000ull) {
			W->last_commit_ns = n;
			if (W->dirty) {
				W->dirty = false;
				W->fs.flush_all();
				W->fs.commit();
				W->home_log.push_back({ 'C', 0, 0, "", "" });
				if (W->keep_committed) { Ar a; io(a, W->fs); W->committed.swap(a.out); }
			}
		}
	}
	// Long calls leave the processor to the others
	static void spend(uint64_t ns) { if (ns >= 1000000) ds::sleep(double(ns) * 1e-9); else ds::advance(ns); }
	// Every emulated call passes here first
	static void enter(const char *name)
	{
		++W->n_calls;
		++W->calls[name];
		if (crash_countdown && !--crash_countdown) finish_life(0, "crash");
		if (on_enter) on_enter(name);
		if (ds::active()) {
			if (W->cfg.point_every_call) spend(W->cfg.syscall_ns);
			maybe_commit();
		}
	}
	static bool trace() { static const bool t = getenv("SIM_TRACE"); return t; }
	static void activity() { W->last_activity = ds::now_ns(); }
	static bool fault(unsigned permille)
	{
		if (!permille && !W->cfg.f_nth) return false;
		const uint64_t now_s = ds::now_ns() / 1000000000ull;
		if (now_s > W->cfg.fault_until_s || now_s < W->cfg.fault_from_s) return false;
		if (W->cfg.f_nth && ++W->fault_points == W->cfg.f_nth) { ++W->faults_fired; return true; }
		if (fault_rng.below(1000) >= permille) return false;
		++W->faults_fired;
		return true;
	}
	static int err(int e) { errno = e; return -1; }

	// ---------------------------------------------------------------- path walk
	struct Walk { int e = 0; uint64_t root = 0, ino = 0; string last; uint64_t droot = 0, dino = 0; };
	static Walk walk(uint64_t root, uint64_t dir, const string &path, bool nofollow_last, uint64_t resolve, int depth = 0)
	{
		Walk w;
		if (depth > 8) { w.e = ELOOP; return w; }
		vector<string> comp;
		string cur;
		for (char c : path + "/") { if (c == '/') { if (!cur.empty()) comp.push_back(cur); cur.clear(); } else cur += c; }
		vector<pair<uint64_t, uint64_t>> stack { { root, dir } };
		if (!path.empty() && path[0] == '/') {
			if (resolve & RESOLVE_BENEATH) { w.e = EXDEV; return w; }
			stack.assign(1, { 5, 256 });
			if (!comp.empty() && comp[0] == "sim") comp.erase(comp.begin());
			else if (!comp.empty() && comp[0] == "other") { comp.erase(comp.begin()); stack.assign(1, { OTHER, 256 }); }
			else { w.e = ENOENT; return w; }
		}
		const size_t base = stack.size();
		for (size_t i = 0; i < comp.size(); ++i) {
			const bool last = i + 1 == comp.size();
			auto d = inode(stack.back().first, stack.back().second);
			if (!d) { w.e = ENOENT; return w; }
			if (d->kind != K_DIR) { w.e = ENOTDIR; return w; }
			if (comp[i] == ".") continue;
			if (comp[i] == "..") {
				if (stack.size() > base) stack.pop_back();
				else if (resolve & RESOLVE_BENEATH) { w.e = EXDEV; return w; }
				else if (!d->names.empty()) stack.back().second = d->names[0].first;
				continue;
			}
			w.droot = stack.back().first; w.dino = stack.back().second; w.last = comp[i];
			auto e = d->entries.find(comp[i]);
			if (e == d->entries.end()) { w.e = ENOENT; return w; }
			if (e->second.first == 1) {
				auto s = svol(e->second.second);
				if (!s || s->dead) { w.e = ENOENT; return w; }
				stack.push_back({ e->second.second, 256 });
			} else if (e->second.first == 2) {
				if (resolve & RESOLVE_NO_XDEV) { w.e = EXDEV; return w; }
				stack.push_back({ OTHER, e->second.second });
			} else if (e->second.first == 3) {
				// another place of this filesystem is mounted here
				if (resolve & RESOLVE_NO_XDEV) { w.e = EXDEV; return w; }
				auto n = inode(e->second.second >> 40, e->second.second & ((1ull << 40) - 1));
				if (!n) { w.e = ENOENT; return w; }
				stack.push_back({ e->second.second >> 40, n->ino });
			} else {
				auto n = inode(stack.back().first, e->second.second);
				if (!n) { w.e = ENOENT; return w; }
				if (n->kind == K_LNK) {
					if (last && nofollow_last) { w.e = ELOOP; return w; }
					if (resolve & RESOLVE_NO_SYMLINKS) { w.e = ELOOP; return w; }
					auto sub = walk(stack.back().first, stack.back().second, n->target, nofollow_last && last, resolve, depth + 1);
					if (sub.e) { w.e = sub.e; return w; }
					stack.push_back({ sub.root, sub.ino });
				} else {
					stack.push_back({ stack.back().first, n->ino });
				}
			}
		}
		w.root = stack.back().first;
		w.ino = stack.back().second;
		return w;
	}
	static string path_of(uint64_t root, uint64_t ino)
	{
		if (root == OTHER) {
			auto p = W->fs.paths(W->other, ino);
			return p.empty() ? "/other/?" : "/other/" + p[0];
		}
		if (root == 5 && ino == 256) return "/sim";
		auto s = svol(root);
		if (!s) return "/sim/?";
		auto p = W->fs.paths(*s, ino);
		string base = root == 5 ? "/sim" : path_of(s->parent, s->dirid) + "/" + s->name;
		if (p.empty()) return base + "/#" + std::to_string(ino) + " (deleted)";
		return p[0].empty() ? base : base + "/" + p[0];
	}
	static bool under_home(uint64_t root, uint64_t ino)
	{
		if (root == W->home_root && ino == W->home_ino) return true;
		auto n = inode(root, ino);
		return n && n->raw;
	}
	static bool is_user(uint64_t root, uint64_t ino)
	{
		auto n = inode(root, ino);
		return n && !n->tmp && !n->raw && !(root == W->home_root && ino == W->home_ino);
	}

	static int new_fd(uint64_t root, uint64_t ino, int flags, uint8_t via)
	{
		OpenFile o;
		o.root = root; o.ino = ino; o.flags = flags; o.via = via; o.kind = inode(root, ino)->kind;
		o.path = path_of(root, ino);
		const int fd = W->fs.next_fd++;
		W->fs.fds[fd] = o;
		return fd;
	}
	static bool open_elsewhere(uint64_t root, uint64_t ino)
	{
		for (auto &f : W->fs.fds) if (f.second.root == root && f.second.ino == ino) return true;
		return false;
	}
	static void maybe_reap(uint64_t root, uint64_t ino)
	{
		auto n = inode(root, ino);
		if (n && n->names.empty() && ino != 256 && !open_elsewhere(root, ino)) {
			auto s = svol(root);
			for (auto &f : n->fe) if (root != OTHER) W->fs.ref_changed(f.second.bytenr);
			s->in.erase(ino);
			++W->fs.mods;
			W->dirty = true;
		}
	}
	static Inode &make_inode(Subvol &s, uint8_t kind, uint64_t parent, const string &name)
	{
		Inode n;
		n.ino = s.next_ino++;
		n.kind = kind;
		n.transid = n.gen = W->fs.transid;
		if (!name.empty()) n.names.push_back({ parent, name });
		auto &r = s.in[n.ino] = n;
		if (!name.empty()) s.in.at(parent).entries[name] = { 0, n.ino };
		s.transid = W->fs.transid;
		++W->fs.mods;
		return r;
	}
	static int do_open(uint64_t root, uint64_t dir, const string &path, int flags, mode_t, uint64_t resolve, uint8_t via)
	{
		if ((flags & O_TMPFILE) == O_TMPFILE) {
			if (fault(W->cfg.f_tmpopen)) return err(EIO);
			auto w = walk(root, dir, path, true, resolve);
			if (w.e) return err(w.e);
			auto s = svol(w.root);
			auto &n = make_inode(*s, K_REG, 0, "");
			n.tmp = true;
			W->dirty = true;
			return new_fd(w.root, n.ino, flags, VIA_TMP);
		}
		auto w = walk(root, dir, path, flags & O_NOFOLLOW, resolve);
		if (w.e == ENOENT && (flags & O_CREAT) && w.last.size() && path.find(w.last) + w.last.size() == path.size()) {
			if (!(w.droot == W->home_root && w.dino == W->home_ino)) violation("daemon creates file '" + path + "' outside its state directory");
			if (fault(W->cfg.f_home)) return err(ENOSPC);
			auto s = svol(w.droot);
			auto &n = make_inode(*s, K_REG, w.dino, w.last);
			n.raw = true;
			W->home_log.push_back({ 'c', n.ino, 0, w.last, "" });
			W->dirty = true;
			return new_fd(w.droot, n.ino, flags, via);
		}
		if (w.e) return err(w.e);
		if ((flags & O_CREAT) && (flags & O_EXCL)) return err(EEXIST);
		auto n = inode(w.root, w.ino);
		if ((flags & O_DIRECTORY) && n->kind != K_DIR) return err(ENOTDIR);
		if (n->kind == K_DIR && (flags & O_ACCMODE) != O_RDONLY) return err(EISDIR);
		if (is_user(w.root, w.ino) && !(w.root == 5 && w.ino == 256)) {
			const int need = O_NOATIME | O_NOFOLLOW | O_NONBLOCK;
			if ((flags & need) != need) violation("file " + path_of(w.root, w.ino) + " opened without O_NOATIME|O_NOFOLLOW|O_NONBLOCK");
			if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_TRUNC | O_APPEND))) violation("user file " + path_of(w.root, w.ino) + " opened for writing");
			if (n->trouble & 1) { ++W->faults_fired; return err(w.ino % 2 ? EACCES : EIO); }
			if (fault(W->cfg.f_open)) { static const int es[] = { ENOENT, EMFILE, EIO, EACCES, ESTALE }; return err(es[W->cfg.f_nth ? 1 + fault_rng.below(4) : fault_rng.below(5)]); }
		}
		const int nfd = new_fd(w.root, w.ino, flags, via);
		W->fs.fds[nfd].owner = root == W->home_root && dir == W->home_ino;
		return nfd;
	}
	static int at_fd(int dirfd, uint64_t &root, uint64_t &ino, const char *path)
	{
		if (path[0] == '/') { root = 5; ino = 256; return 0; }
		auto f = W->fs.fds.find(dirfd);
		if (f == W->fs.fds.end()) return EBADF;
		root = f->second.root; ino = f->second.ino;
		return 0;
	}
	static bool sim_path(const char *p) { return !strncmp(p, "/sim", 4) || !strncmp(p, "/other", 6); }

	// ---------------------------------------------------------------- file data
	static ssize_t do_pread(OpenFile &o, uint8_t *buf, size_t n, uint64_t off)
	{
		auto in = inode(o.root, o.ino);
		if (!in) return err(ESTALE);
		if (in->kind == K_DIR) return err(EISDIR);
		if (in->kind != K_REG) return err(EAGAIN);
		if (in->raw) {
			if (on_call) on_call(o.owner ? "own_pread" : "raw_pread", o.root, o.ino);
			if (fault(W->cfg.f_home)) return err(EIO);
			if (off >= in->rawdata.size()) return 0;
			n = std::min<uint64_t>(n, in->rawdata.size() - off);
			memcpy(buf, in->rawdata.data() + off, n);
			return ssize_t(n);
		}
		activity();
		if (trace()) fprintf(stderr, "TRACE pread %lu/%lu +%lu %zu\n", o.root, o.ino, off, n);
		if (on_call) on_call("pread", o.root, o.ino);
		if (off >= in->size) return 0;
		n = std::min<uint64_t>(n, in->size - off);
		size_t done = 0;
		uint8_t b[BS];
		const bool injected = fault(W->cfg.f_pread);
		if (injected) return err(EIO);
		if (in->trouble & 8) { ++W->faults_fired; return err(EIO); }
		while (done < n) {
			const uint64_t pos = off + done, blk = pos / BS, o0 = pos % BS;
			const size_t k = std::min<uint64_t>(n - done, BS - o0);
			if (o.root != OTHER && W->fs.block_bad(*in, blk)) {
				if (done) return ssize_t(done);
				++W->faults_fired;
				return err(EIO);
			}
			W->fs.content.bytes(W->fs.block(*in, blk), b);
			memcpy(buf + done, b + o0, k);
			done += k;
			if (!in->tmp) {
				W->file_read.insert({ (o.root << 40) | o.ino, blk });
				uint64_t st = 0;
				auto f = W->fs.extent_at(*in, blk * BS, &st);
				if (f && f->type == FE_REG && f->bytenr && !in->overlay.count(blk)) {
					const pair<uint64_t, uint64_t> k { W->fs.px.at(f->bytenr).serial, (blk * BS - st + f->eoff) / BS };
					W->phys_read.insert(k);
					W->phys_life.insert(k);
				}
			}
		}
		return ssize_t(n);
	}
	static ssize_t do_pwrite(OpenFile &o, const uint8_t *buf, size_t n, uint64_t off)
	{
		auto in = inode(o.root, o.ino);
		if (!in) return err(ESTALE);
		if ((o.flags & O_ACCMODE) == O_RDONLY) return err(EBADF);
		if (is_user(o.root, o.ino)) violation("daemon writes to user file " + path_of(o.root, o.ino));
		W->dirty = true;
		if (in->raw) {
			if (W->cfg.home_slow_ns) spend(W->cfg.home_slow_ns);
			in = inode(o.root, o.ino);
			if (!in) return err(ESTALE);
			if (fault(W->cfg.f_home)) return err(fault_rng.below(2) ? ENOSPC : EIO);
			if (fault(W->cfg.f_hwrite)) {
				if (n < 2 || fault_rng.below(2)) return err(fault_rng.below(2) ? ENOSPC : EIO);
				n = 1 + fault_rng.below(n - 1);
			}
			if (in->rawdata.size() < off + n) { in->rawdata.resize(off + n); in->size = in->rawdata.size(); }
			memcpy(&in->rawdata[off], buf, n);
			in->transid = W->fs.transid;
			W->home_log.push_back({ 'w', o.ino, off, string(reinterpret_cast<const char *>(buf), n), "" });
			++W->fs.mods;
			return ssize_t(n);
		}
		if (fault(W->cfg.f_tmpwrite)) return err(ENOSPC);
		activity();
		uint8_t b[BS];
		for (size_t done = 0; done < n; ) {
			const uint64_t pos = off + done, blk = pos / BS, o0 = pos % BS;
			const size_t k = std::min<uint64_t>(n - done, BS - o0);
			W->fs.content.bytes(W->fs.block(*in, blk), b);
			memcpy(b + o0, buf + done, k);
			in->overlay[blk] = W->fs.content.intern(b);
			++W->tmp_blocks_written;
			done += k;
		}
		if (in->size < off + n) in->size = off + n;
		W->fs.touch(*svol(o.root), *in);
		return ssize_t(n);
	}
	static int do_truncate(OpenFile &o, uint64_t size)
	{
		auto in = inode(o.root, o.ino);
		if (!in) return err(ESTALE);
		if ((o.flags & O_ACCMODE) == O_RDONLY) return err(EINVAL);
		if (is_user(o.root, o.ino)) violation("daemon truncates user file " + path_of(o.root, o.ino));
		W->dirty = true;
		if (in->raw) {
			if (fault(W->cfg.f_home)) return err(ENOSPC);
			in->rawdata.resize(size);
			in->size = size;
			W->home_log.push_back({ 't', o.ino, size, "", "" });
			return 0;
		}
		auto &s = *svol(o.root);
		const uint64_t e = (size + BS - 1) / BS;
		if (size < in->size) {
			in->overlay.erase(in->overlay.lower_bound(e), in->overlay.end());
			W->fs.punch(s, *in, e * BS, UINT64_MAX);
			if (size % BS) {
				const Id t = W->fs.content.truncated(W->fs.block(*in, size / BS), size % BS);
				if (t != W->fs.block(*in, size / BS)) in->overlay[size / BS] = t;
			}
		}
		in->size = size;
		W->fs.touch(s, *in);
		return 0;
	}
	static int do_stat(uint64_t root, uint64_t ino, struct stat *st)
	{
		auto in = inode(root, ino);
		if (!in) return err(ESTALE);
		memset(st, 0, sizeof(*st));
		st->st_dev = root == OTHER ? 99 : 0x100000 + root;
		st->st_ino = ino;
		static const mode_t modes[] = { S_IFREG | 0644, S_IFDIR | 0755, S_IFLNK | 0777, S_IFIFO | 0644, S_IFDIR | 0755 };
		st->st_mode = modes[in->kind];
		st->st_nlink = in->names.size();
		st->st_size = off_t(in->raw ? in->rawdata.size() : in->size);
		st->st_blksize = 4096;
		return 0;
	}

	// ---------------------------------------------------------------- dedupe
	static int64_t dedupe_one(OpenFile &so, uint64_t soff, uint64_t len, int dfd, uint64_t doff, uint64_t &done)
	{
		done = 0;
		auto df = W->fs.fds.find(dfd);
		if (df == W->fs.fds.end()) return -EBADF;
		OpenFile &d = df->second;
		auto &fs = W->fs;
		auto si = inode(so.root, so.ino), di = inode(d.root, d.ino);
		Dedupe r;
		r.t = ds::now_ns();
		r.sroot = so.root; r.sino = so.ino; r.soff = soff; r.droot = d.root; r.dino = d.ino; r.doff = doff; r.len = len;
		r.writes = W->user_writes;
		for (auto k : { std::make_pair(r.sroot, r.sino), std::make_pair(r.droot, r.dino) }) {
			auto i = W->last_write.find(k);
			if (i != W->last_write.end()) r.last_write = std::max(r.last_write, i->second);
		}
		auto finish = [&](int64_t st) {
			r.status = st;
			r.done = done;
			W->dedupes.push_back(r);
			if (on_dedupe) on_dedupe(r);
			return st;
		};
		if (!si || !di) return finish(-ESTALE);
		r.stmp = si->tmp; r.dtmp = di->tmp;
		if (so.root == OTHER || d.root == OTHER) return finish(-EXDEV);
		if (di->kind == K_DIR || si->kind == K_DIR) return finish(-EISDIR);
		if (di->kind != K_REG || si->kind != K_REG) return finish(-EINVAL);
		auto &ss = *svol(so.root), &dsv = *svol(d.root);
		r.dro = dsv.ro;
		if (dsv.ro) r.dro_ns = r.t - std::min(r.t, dsv.ro_since);
		// content relation at the moment of the request
		if (doff % BS == 0 && soff % BS == 0) {
			r.same_content = true;
			for (uint64_t p = 0; p < len; p += BS) {
				const uint64_t sb = (soff + p) / BS, db = (doff + p) / BS;
				Id a = fs.block(*si, sb), b = fs.block(*di, db);
				if (len - p < BS) { a = fs.content.truncated(a, len - p); b = fs.content.truncated(b, len - p); }
				if (a != b) r.same_content = false;
				auto sf = fs.extent_at(*si, sb * BS), f2 = fs.extent_at(*di, db * BS);
				const bool sh = !si->overlay.count(sb) && (!sf || (sf->type != FE_INLINE && !sf->bytenr));
				if (sh) ++r.src_hole;
				uint64_t ss0 = 0, ds0 = 0;
				auto a1 = fs.extent_at(*si, sb * BS, &ss0), b1 = fs.extent_at(*di, db * BS, &ds0);
				(void)f2;
				if (a1 && b1 && a1->bytenr && a1->bytenr == b1->bytenr && sb * BS - ss0 + a1->eoff == db * BS - ds0 + b1->eoff && !si->overlay.count(sb) && !di->overlay.count(db)) ++r.phys_same;
			}
		}
		if (len == 0) return finish(0);
		if (soff + len < soff || doff + len < doff) return finish(-EINVAL);
		if (soff % BS || doff % BS) return finish(-EINVAL);
		if (soff >= si->size || soff + len > si->size || doff >= di->size || doff + len > di->size) return finish(-EINVAL);
		uint64_t blen = len;
		if (soff + len == si->size) blen = (len + BS - 1) / BS * BS;
		if (so.root == d.root && so.ino == d.ino && doff + blen > soff && doff < soff + blen) return finish(-EINVAL);
		if (len % BS) {
			if (doff + len < di->size || soff + len != si->size) {
				len &= ~(BS - 1);
				blen = len;
				if (!len) return finish(-EINVAL);
			}
		}
		if (dsv.send) return finish(-EAGAIN);
		if (si->is_nodatasum() != di->is_nodatasum()) return finish(-EINVAL);
		if ((si->trouble & 4) || (di->trouble & 2)) { ++W->faults_fired; return finish((si->ino + di->ino) % 2 ? -EPERM : -EIO); }
		if (fault(W->cfg.f_dedupe)) { static const int es[] = { EIO, ENOSPC, ENOMEM, EPERM, EINVAL }; return finish(-es[fault_rng.below(5)]); }
		if (len > (16u << 20)) { len = 16u << 20; blen = len; }
		if (fault(W->cfg.f_partial) && len > BS) { len = (1 + fault_rng.below(len / BS - 1)) * BS; blen = len; }
		activity();
		W->dirty = true;
		fs.flush(ss, *si, soff / BS, (soff + blen) / BS);
		fs.flush(dsv, *di, doff / BS, (doff + blen) / BS);
		for (uint64_t p = 0; p < len; p += BS) {
			if (fs.block_bad(*si, (soff + p) / BS) || fs.block_bad(*di, (doff + p) / BS)) return finish(-EIO);
			Id a = fs.block(*si, (soff + p) / BS), b = fs.block(*di, (doff + p) / BS);
			if (len - p < BS) { a = fs.content.truncated(a, len - p); b = fs.content.truncated(b, len - p); }
			if (a != b) return finish(1);
		}
		// clone extents
		struct Piece { uint64_t off, len; FileExtent f; uint64_t start; bool hole; };
		vector<Piece> pc;
		for (uint64_t p = 0; p < blen; ) {
			uint64_t st = 0;
			auto f = fs.extent_at(*si, soff + p, &st);
			Piece x;
			x.off = p;
			if (!f) {
				auto nx = si->fe.lower_bound(soff + p);
				const uint64_t e = nx == si->fe.end() ? soff + blen : std::min(nx->first, soff + blen);
				x.len = e - (soff + p);
				x.hole = true;
				x.start = 0;
			} else {
				const uint64_t fl = f->type == FE_INLINE ? BS : f->len;
				x.len = std::min(st + fl, soff + blen) - (soff + p);
				x.hole = false;
				x.f = *f;
				x.start = st;
			}
			pc.push_back(x);
			p += x.len;
		}
		for (auto &x : pc) {
			if (x.hole || (x.f.type == FE_REG && !x.f.bytenr)) {
				fs.punch(dsv, *di, doff + x.off, doff + x.off + x.len);
			} else if (x.f.type == FE_INLINE) {
				const uint64_t b = fs.new_extent({ x.f.inl }, 0, BS);
				fs.map_extent(dsv, *di, doff + x.off, BS, b, 0);
			} else {
				fs.map_extent(dsv, *di, doff + x.off, x.len, x.f.bytenr, x.f.eoff + (soff + x.off - x.start), x.f.type);
				di->fe[doff + x.off].gen = x.f.gen;
			}
		}
		done = len;
		return finish(0);
	}

	static int do_logical_ino(OpenFile &, struct btrfs_ioctl_logical_ino_args *a, bool v2)
	{
		const uint64_t flags = v2 ? a->reserved[3] : 0;
		if (v2 && (a->reserved[0] || a->reserved[1] || a->reserved[2])) return err(EINVAL);
		if (v2 && (flags & ~1ull)) return err(EINVAL);
		const uint64_t logical = a->logical;
		if (on_call) on_call(flags & 1 ? "extent_map" : "logical_ino", 0, logical);
		if (fault(W->cfg.f_resolve)) return err(fault_rng.below(2) ? EIO : ENOMEM);
		auto &fs = W->fs;
		auto p = fs.px.upper_bound(logical);
		auto bdc = reinterpret_cast<btrfs_data_container *>(uintptr_t(a->inodes));
		const size_t room = (std::min<uint64_t>(a->size, v2 ? 16u << 20 : 65536) - sizeof(*bdc)) / 8;
		memset(bdc, 0, sizeof(*bdc));
		if (p == fs.px.begin()) return err(ENOENT);
		--p;
		if (logical >= p->first + p->second.disk) return err(ENOENT);
		const uint64_t bytenr = p->first, pos = logical - bytenr;
		++W->resolved[bytenr];
		activity();
		if (p->second.toxic) {
			++W->toxic_resolved[bytenr];
			W->toxic_log.push_back({ ds::now_ns(), bytenr });
			tl_stime_ns += 6000000000ull;
			spend(6000000000ull);
			p = fs.px.find(bytenr);
			if (p == fs.px.end()) return err(ENOENT);
		} else {
			tl_stime_ns += 300000;
		}
		if (p->second.fail_resolve) { ++W->faults_fired; return err(EIO); }
		auto &r = fs.refs();
		auto ri = r.find(bytenr);
		if (ri == r.end()) return err(ENOENT);
		const PhysExtent &x = p->second;
		auto val = reinterpret_cast<uint64_t *>(bdc->val);
		// the kernel's order is by tree block, effectively arbitrary: rotate
		const size_t rot = ri->second.size() ? (bytenr / BS + W->n_calls) % ri->second.size() : 0;
		for (size_t k = 0; k < ri->second.size(); ++k) {
			auto &ref = ri->second[(k + rot) % ri->second.size()];
			auto &f = inode(ref.root, ref.ino)->fe.at(ref.off);
			uint64_t off = ref.off;
			if (!(flags & 1) && !x.comp) {
				if (pos < f.eoff || pos >= f.eoff + f.len) continue;
				off += pos - f.eoff;
			}
			if (bdc->elem_cnt + 3 <= room) {
				val[bdc->elem_cnt] = ref.ino;
				val[bdc->elem_cnt + 1] = off;
				val[bdc->elem_cnt + 2] = ref.root;
				bdc->elem_cnt += 3;
			} else {
				bdc->elem_missed += 3;
				bdc->bytes_missing += 24;
			}
		}
		bdc->bytes_left = uint32_t((room - bdc->elem_cnt) * 8);
		return 0;
	}
	static int do_ino_paths(OpenFile &o, struct btrfs_ioctl_ino_path_args *a)
	{
		auto s = svol(o.root);
		if (!s || !s->in.count(a->inum)) return err(ENOENT);
		if (fault(0)) return err(EIO);
		auto ps = W->fs.paths(*s, a->inum);
		if (ps.empty()) return err(ENOENT);
		auto bdc = reinterpret_cast<btrfs_data_container *>(uintptr_t(a->fspath));
		const size_t room = std::min<uint64_t>(a->size, 4096) - sizeof(*bdc);
		memset(bdc, 0, sizeof(*bdc));
		auto base = reinterpret_cast<char *>(bdc->val);
		char *end = base + room;
		for (auto &p : ps) {
			char *front = base + (bdc->elem_cnt + 1) * 8;
			if (front > end || size_t(end - front) < p.size() + 1) { ++bdc->elem_missed; bdc->bytes_missing += uint32_t(p.size() + 9); continue; }
			end -= p.size() + 1;
			memcpy(end, p.c_str(), p.size() + 1);
			bdc->val[bdc->elem_cnt++] = uint64_t(end - base);
		}
		return 0;
	}
	static int do_ioctl(int fd, unsigned long req, void *arg)
	{
		OpenFile &o = W->fs.fds.at(fd);
		const bool other = o.root == OTHER;
		switch (req) {
			case BTRFS_IOC_TREE_SEARCH_V2: {
				if (other) return err(ENOTTY);
				auto a = static_cast<btrfs_ioctl_search_args_v2 *>(arg);
				if (fault(W->cfg.f_search)) return err(EIO);
				const uint64_t id = a->key.tree_id ? a->key.tree_id : o.root;
				auto t = W->fs.tree(id);
				if (!t) return err(ENOENT);
				const int rv = ts::search(*t, a);
				return rv ? err(-rv) : 0;
			}
			case BTRFS_IOC_LOGICAL_INO:
				if (other) return err(ENOTTY);
				return do_logical_ino(o, static_cast<btrfs_ioctl_logical_ino_args *>(arg), false);
			case BTRFS_IOC_LOGICAL_INO_V2:
				if (other || !W->cfg.v2_ok) return err(ENOTTY);
				return do_logical_ino(o, static_cast<btrfs_ioctl_logical_ino_args *>(arg), true);
			case BTRFS_IOC_INO_PATHS:
				if (other && !W->cfg.other_btrfs) return err(ENOTTY);
				return do_ino_paths(o, static_cast<btrfs_ioctl_ino_path_args *>(arg));
			case BTRFS_IOC_INO_LOOKUP: {
				if (other && !W->cfg.other_btrfs) return err(ENOTTY);
				if (fault(0)) return err(EIO);
				auto a = static_cast<btrfs_ioctl_ino_lookup_args *>(arg);
				if (!a->treeid) a->treeid = other ? W->cfg.other_btrfs : o.root;
				if (a->objectid == 256) { a->name[0] = 0; return 0; }
				return err(ENOENT);
			}
			case BTRFS_IOC_FILE_EXTENT_SAME: {
				auto a = static_cast<btrfs_ioctl_same_args *>(arg);
				if (other) return err(EOPNOTSUPP);
				for (unsigned i = 0; i < a->dest_count; ++i) {
					auto &x = a->info[i];
					uint64_t done = 0;
					if (on_call) {
						on_call("dedupe_src", o.root, o.ino);
						auto df = W->fs.fds.find(int(x.fd));
						if (df != W->fs.fds.end()) on_call("dedupe_dst", df->second.root, df->second.ino);
					}
					x.status = int32_t(dedupe_one(o, a->logical_offset, a->length, int(x.fd), x.logical_offset, done));
					x.bytes_deduped = done;
				}
				return 0;
			}
			case BTRFS_IOC_FS_INFO: {
				if (other && !W->cfg.other_btrfs) return err(ENOTTY);
				auto a = static_cast<btrfs_ioctl_fs_info_args *>(arg);
				a->max_id = 1;
				a->num_devices = 1;
				for (int i = 0; i < 16; ++i) a->fsid[i] = uint8_t(i + (other ? 101 : 1));
				a->nodesize = 16384;
				a->sectorsize = W->fs.sectorsize;
				a->clone_alignment = W->fs.sectorsize;
				return 0;
			}
			case FS_IOC_GETFLAGS: {
				auto n = inode(o.root, o.ino);
				if (!n) return err(ESTALE);
				if (fault(0)) return err(EIO);
				*static_cast<int *>(arg) = int(n->fsfl) | (n->is_nodatacow() ? FS_NOCOW_FL : 0);
				return 0;
			}
			case FS_IOC_SETFLAGS: {
				auto n = inode(o.root, o.ino);
				if (!n) return err(ESTALE);
				if (is_user(o.root, o.ino)) violation("daemon changes attributes of user file " + o.path);
				n->fsfl = uint32_t(*static_cast<int *>(arg));
				return 0;
			}
			default:
				if (is_user(o.root, o.ino) && req != BTRFS_IOC_TREE_SEARCH) {
					switch (req) {
						case BTRFS_IOC_CLONE: case BTRFS_IOC_CLONE_RANGE: case BTRFS_IOC_DEFRAG: case BTRFS_IOC_DEFRAG_RANGE:
						case BTRFS_IOC_SUBVOL_SETFLAGS: case BTRFS_IOC_SNAP_DESTROY: case BTRFS_IOC_SNAP_CREATE_V2:
							violation("daemon issues modifying ioctl on user file " + o.path);
					}
				}
				return err(ENOTTY);
		}
	}
	static void finish_life(int code, const char *how);
}

// std::random_device must be reproducible
static sim::Rng random_device_rng(7);
extern "C" unsigned int sim_random_device(void *) __asm__("_ZNSt13random_device9_M_getvalEv");
extern "C" unsigned int sim_random_device(void *) { return unsigned(random_device_rng.next()); }

// -------------------------------------------------------------------- libc
extern "C" {
	using namespace sim;
	int open(const char *path, int flags, ...)
	{
		mode_t mode = 0;
		if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = mode_t(va_arg(ap, int)); va_end(ap); }
		if (live() && sim_path(path)) { enter("open"); return do_open(5, 256, path, flags, mode, 0, VIA_PATH); }
		return int(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
	}
	int openat(int dirfd, const char *path, int flags, ...)
	{
		mode_t mode = 0;
		if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = mode_t(va_arg(ap, int)); va_end(ap); }
		if (live() && (fake(dirfd) || sim_path(path))) {
			enter("openat");
			uint64_t r, i;
			if (int e = at_fd(dirfd, r, i, path)) return err(e);
			return do_open(r, i, path, flags, mode, 0, VIA_OPENAT);
		}
		return int(syscall(SYS_openat, dirfd, path, flags, mode));
	}
	int openat2(int dirfd, const char *path, const struct open_how *how, size_t)
	{
		if (!live()) { errno = ENOSYS; return -1; }
		enter("openat2");
		if (!W->cfg.openat2_ok) return err(ENOSYS);
		uint64_t r, i;
		if (int e = at_fd(dirfd, r, i, path)) return err(e);
		return do_open(r, i, path, int(how->flags), mode_t(how->mode), how->resolve, VIA_OPENAT2);
	}
	int close(int fd)
	{
		if (fake(fd)) {
			auto f = W->fs.fds.find(fd);
			if (f == W->fs.fds.end()) violation("close of descriptor " + std::to_string(fd) + " that is not open");
			const uint64_t r = f->second.root, i = f->second.ino;
			W->fs.fds.erase(f);
			maybe_reap(r, i);
			return 0;
		}
		return int(syscall(SYS_close, fd));
	}
	ssize_t pread(int fd, void *buf, size_t n, off_t off)
	{
		if (fake(fd)) {
			enter("pread");
			auto f = W->fs.fds.find(fd);
			if (f == W->fs.fds.end()) return err(EBADF);
			OpenFile o = f->second;
			return do_pread(o, static_cast<uint8_t *>(buf), n, uint64_t(off));
		}
		return syscall(SYS_pread64, fd, buf, n, off);
	}
	ssize_t pwrite(int fd, const void *buf, size_t n, off_t off)
	{
		if (fake(fd)) {
			enter("pwrite");
			auto f = W->fs.fds.find(fd);
			if (f == W->fs.fds.end()) return err(EBADF);
			OpenFile o = f->second;
			return do_pwrite(o, static_cast<const uint8_t *>(buf), n, uint64_t(off));
		}
		return syscall(SYS_pwrite64, fd, buf, n, off);
	}
	ssize_t read(int fd, void *buf, size_t n)
	{
		if (fake(fd)) {
			enter("read");
			auto f = W->fs.fds.find(fd);
			if (f == W->fs.fds.end()) return err(EBADF);
			OpenFile o = f->second;
			const ssize_t rv = do_pread(o, static_cast<uint8_t *>(buf), n, o.pos);
			f = W->fs.fds.find(fd);
			if (rv > 0 && f != W->fs.fds.end()) f->second.pos += uint64_t(rv);
			return rv;
		}
		return syscall(SYS_read, fd, buf, n);
	}
	ssize_t write(int fd, const void *buf, size_t n)
	{
		if (fake(fd)) {
			enter("write");
			auto f = W->fs.fds.find(fd);
			if (f == W->fs.fds.end()) return err(EBADF);
			OpenFile o = f->second;
			const ssize_t rv = do_pwrite(o, static_cast<const uint8_t *>(buf), n, o.pos);
			f = W->fs.fds.find(fd);
			if (rv > 0 && f != W->fs.fds.end()) f->second.pos += uint64_t(rv);
			return rv;
		}
		return syscall(SYS_write, fd, buf, n);
	}
	int ftruncate(int fd, off_t size) noexcept
	{
		if (fake(fd)) {
			enter("ftruncate");
			auto f = W->fs.fds.find(fd);
			if (f == W->fs.fds.end()) return err(EBADF);
			OpenFile o = f->second;
			return do_truncate(o, uint64_t(size));
		}
		return int(syscall(SYS_ftruncate, fd, size));
	}
	int fallocate(int fd, int mode, off_t off, off_t len)
	{
		if (fake(fd)) {
			enter("fallocate");
			auto f = W->fs.fds.find(fd);
			if (f == W->fs.fds.end()) return err(EBADF);
			if (is_user(f->second.root, f->second.ino)) violation("daemon calls fallocate on user file " + f->second.path);
			return 0;
		}
		return int(syscall(SYS_fallocate, fd, mode, off, len));
	}
	int fstat(int fd, struct stat *st) noexcept
	{
		if (fake(fd)) {
			auto f = W->fs.fds.find(fd);
			if (f == W->fs.fds.end()) return err(EBADF);
			return do_stat(f->second.root, f->second.ino, st);
		}
		return int(syscall(SYS_fstat, fd, st));
	}
	int fstatfs(int fd, struct statfs *st) noexcept
	{
		if (fake(fd)) {
			auto f = W->fs.fds.find(fd);
			if (f == W->fs.fds.end()) return err(EBADF);
			memset(st, 0, sizeof(*st));
			st->f_type = f->second.root == OTHER && !W->cfg.other_btrfs ? 0xEF53 : BTRFS_SUPER_MAGIC;
			return 0;
		}
		return int(syscall(SYS_fstatfs, fd, st));
	}
	int fsync(int fd)
	{
		if (fake(fd)) {
			enter("fsync");
			auto f = W->fs.fds.find(fd);
			if (f == W->fs.fds.end()) return err(EBADF);
			if (fault(W->cfg.f_home)) return err(EIO);
			W->home_log.push_back({ 'f', f->second.ino, 0, "", "" });
			return 0;
		}
		return int(syscall(SYS_fsync, fd));
	}
	int fdatasync(int fd) { return fake(fd) ? fsync(fd) : int(syscall(SYS_fdatasync, fd)); }
	int posix_fadvise(int fd, off_t off, off_t len, int adv) noexcept
	{
		if (fake(fd)) return 0;
		return int(syscall(SYS_fadvise64, fd, off, len, adv));
	}
	ssize_t readahead(int fd, off_t off, size_t n) noexcept
	{
		if (fake(fd)) return 0;
		return syscall(SYS_readahead, fd, off, n);
	}
	int unlinkat(int dirfd, const char *name, int flags) noexcept
	{
		if (fake(dirfd)) {
			enter("unlinkat");
			uint64_t r, i;
			if (int e = at_fd(dirfd, r, i, name)) return err(e);
			auto w = walk(r, i, name, true, 0);
			if (w.e) return err(w.e);
			if (!(r == W->home_root && i == W->home_ino)) violation(string("daemon unlinks '") + name + "' outside its state directory");
			if (fault(W->cfg.f_home)) return err(EIO);
			auto n = inode(w.root, w.ino);
			inode(r, i)->entries.erase(w.last);
			n->names.clear();
			W->home_log.push_back({ 'u', w.ino, 0, w.last, "" });
			W->dirty = true;
			++W->fs.mods;
			maybe_reap(w.root, w.ino);
			return 0;
		}
		return int(syscall(SYS_unlinkat, dirfd, name, flags));
	}
	int renameat(int ofd, const char *o, int nfd, const char *n) noexcept
	{
		if (fake(ofd) || fake(nfd)) {
			enter("renameat");
			uint64_t r, i, r2, i2;
			if (int e = at_fd(ofd, r, i, o)) return err(e);
			if (int e = at_fd(nfd, r2, i2, n)) return err(e);
			if (!(r == W->home_root && i == W->home_ino && r2 == r && i2 == i)) violation(string("daemon renames '") + o + "' outside its state directory");
			if (fault(W->cfg.f_home)) return err(EIO);
			auto d = inode(r, i);
			auto e = d->entries.find(o);
			if (e == d->entries.end()) return err(ENOENT);
			auto src = inode(r, e->second.second);
			auto t = d->entries.find(n);
			uint64_t victim = 0;
			if (t != d->entries.end()) { victim = t->second.second; inode(r, victim)->names.clear(); }
			d->entries[n] = e->second;
			d->entries.erase(o);
			src->names.assign(1, { i, n });
			if (victim) maybe_reap(r, victim);
			W->home_log.push_back({ 'r', src->ino, 0, o, n });
			W->dirty = true;
			++W->fs.mods;
			return 0;
		}
		return int(syscall(SYS_renameat, ofd, o, nfd, n));
	}
	ssize_t readlink(const char *path, char *buf, size_t n) noexcept
	{
		if (live() && !strncmp(path, "/proc/self/fd/", 14)) {
			const int fd = atoi(path + 14);
			if (fake(fd)) {
				auto f = W->fs.fds.find(fd);
				if (f == W->fs.fds.end()) return err(ENOENT);
				const string &p = f->second.path;
				const size_t k = std::min(n, p.size());
				memcpy(buf, p.data(), k);
				return ssize_t(k);
			}
		}
		return syscall(SYS_readlink, path, buf, n);
	}
	int ioctl(int fd, unsigned long req, ...) noexcept
	{
		va_list ap;
		va_start(ap, req);
		void *arg = va_arg(ap, void *);
		va_end(ap);
		if (fake(fd)) {
			enter("ioctl");
			if (!W->fs.fds.count(fd)) return err(EBADF);
			return do_ioctl(fd, req, arg);
		}
		return int(syscall(SYS_ioctl, fd, req, arg));
	}
	int getrusage(__rusage_who_t who, struct rusage *u) noexcept
	{
		if (live() && int(who) == RUSAGE_THREAD) {
			memset(u, 0, sizeof(*u));
			u->ru_stime.tv_sec = time_t(tl_stime_ns / 1000000000ull);
			u->ru_stime.tv_usec = suseconds_t(tl_stime_ns % 1000000000ull / 1000);
			return 0;
		}
		return int(syscall(SYS_getrusage, int(who), u));
	}
	int uname(struct utsname *u) noexcept
	{
		if (live()) {
			memset(u, 0, sizeof(*u));
			strcpy(u->sysname, "Linux");
			strncpy(u->release, W->cfg.kernel.c_str(), sizeof(u->release) - 1);
			strcpy(u->machine, "x86_64");
			strcpy(u->version, "#1");
			return 0;
		}
		return int(syscall(SYS_uname, u));
	}
	int mlock(const void *, size_t) noexcept { return 0; }
	int madvise(void *p, size_t n, int advice) noexcept
	{
		// the only advised mapping is the hash table in memory
		if (live() && n % 131072 == 0) { sim::table_mem = static_cast<const char *>(p); sim::table_len = n; }
		return int(syscall(SYS_madvise, p, n, advice));
	}
	int setrlimit(__rlimit_resource_t r, const struct rlimit *l) noexcept
	{
		if (live()) return 0;
		return int(syscall(SYS_setrlimit, int(r), l));
	}
	void _exit(int code)
	{
		if (live() && code != 77 && code != 78 && code != 79) sim::finish_life(code, "exit");
		syscall(SYS_exit_group, code);
		__builtin_unreachable();
	}
}

namespace sim {
	// ---------------------------------------------------------------- lives
	static const size_t SHARED = 1ull << 30;
	static char *s_shared = nullptr;   // [0..8) length, [8..12) code, [12..16) kind
	struct LifeEnd { int code = -1; bool crashed = false; bool clean = false; bool returned = false; uint64_t steps = 0; uint64_t vns = 0; bool died = false; };

	static void finish_life(int code, const char *how)
	{
		const uint64_t vns = ds::now_ns(), steps = ds::steps();
		W->live = false;
		Ar a;
		W->vtime_base += vns;
		// temporary files die with the process
		set<pair<uint64_t, uint64_t>> open;
		for (auto &f : W->fs.fds) open.insert({ f.second.root, f.second.ino });
		W->fs.fds.clear();
		for (auto &x : open) maybe_reap(x.first, x.second);
		io(a, *W);
		if (a.out.size() + 64 > SHARED) { pbt::inconclusive("state too large"); }
		uint64_t n = a.out.size();
		memcpy(s_shared, &n, 8);
		int kind = !strcmp(how, "crash") ? 1 : !strcmp(how, "return") ? 2 : 0;
		memcpy(s_shared + 8, &code, 4);
		memcpy(s_shared + 12, &kind, 4);
		memcpy(s_shared + 16, &vns, 8);
		memcpy(s_shared + 24, &steps, 8);
		memcpy(s_shared + 32, a.out.data(), n);
		syscall(SYS_exit_group, 0);
	}
	static void crash_now() { finish_life(0, "crash"); }

	// Run fn(child side) in a forked process with the world live.
	static LifeEnd run_life(World &w, const std::function<int()> &body)
	{
		if (!s_shared) {
			void *p = mmap(nullptr, SHARED, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (p == MAP_FAILED) pbt::inconclusive("mmap");
			s_shared = static_cast<char *>(p);
		}
		memset(s_shared, 0, 64);
		const pid_t pid = fork();
		if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			W = &w;
			w.live = true;
			w.last_commit_ns = 0;
			const int rv = body();
			finish_life(rv, "return");
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
		if (WIFEXITED(st) && WEXITSTATUS(st) >= 77 && WEXITSTATUS(st) <= 79) syscall(SYS_exit_group, WEXITSTATUS(st));
		if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) PBT_FAIL("daemon process died: " << (WIFSIGNALED(st) ? "signal " : "status ") << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)));
		LifeEnd e;
		uint64_t n;
		int kind;
		memcpy(&n, s_shared, 8);
		memcpy(&e.code, s_shared + 8, 4);
		memcpy(&kind, s_shared + 12, 4);
		memcpy(&e.vns, s_shared + 16, 8);
		memcpy(&e.steps, s_shared + 24, 8);
		if (!n) PBT_FAIL("daemon process ended without finishing");
		e.crashed = kind == 1;
		e.returned = kind == 2;
		Ar a;
		a.rd = true;
		a.in = s_shared + 32;
		a.end = a.in + n;
		io(a, w);
		w.live = false;
		return e;
	}
}
#endif
