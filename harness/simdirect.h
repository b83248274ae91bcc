// Parts of the daemon driven directly on the simulated filesystem: the hash table,
// block addresses, opening by inode, the command line.
#ifndef VERIF_SIMDIRECT_H
#define VERIF_SIMDIRECT_H

namespace sim {
	static void silence()
	{
		if (getenv("SIM_VERBOSE")) { bees_log_level = 8; return; }
		bees_log_level = 3;
		const int nul = int(syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY, 0));
		syscall(SYS_dup2, nul, 2);
		syscall(SYS_dup2, nul, 1);
	}
	// Run body as the main thread of a fresh process with the simulated filesystem mounted
	static LifeEnd direct_life(World &w, const ds::Config &c, const function<void(shared_ptr<BeesContext>)> &body)
	{
		return run_life(w, [&]() -> int {
			unsetenv("BEESHOME");
			unsetenv("BEESSTATUS");
			silence();
			ds::on_deadlock = [](const string &m) { PBT_FAIL("deadlock: " << m); };
			ds::start(c);
			auto ctx = make_shared<BeesContext>();
			ctx->set_root_path("/sim");
			body(ctx);
			finish_life(0, "return");
			return 0;
		});
	}
	static void empty_fs(World &w, Gen &g)
	{
		w.fs.transid = 10;
		w.fs.chunks[16ull << 20] = { 256ull << 20, 1 };
		g.subvol(0, 0, "");
		w.other = Subvol();
		w.other.id = OTHER;
		Inode d;
		d.ino = 256; d.kind = K_DIR;
		w.other.in[256] = d;
		w.fs.commit();
	}

	// ================================================================ hash table
	namespace htab {
		using Pair = pair<uint64_t, uint64_t>;   // hash, address
		static const uint64_t EXT = 128 * 1024, BKT = 4096, CELLS = BKT / 16, TOXIC = 0x200;
		using Bucket = vector<Pair>;             // CELLS long, (0,0) is empty
		using Table = vector<Bucket>;
		static Table parse(const char *p, size_t n)
		{
			Table t(n / BKT, Bucket(CELLS));
			for (size_t i = 0; i < n / 16; ++i) {
				uint64_t h, a;
				memcpy(&h, p + i * 16, 8);
				memcpy(&a, p + i * 16 + 8, 8);
				t[i / CELLS][i % CELLS] = { h, a };
			}
			return t;
		}
		static string format(const Table &t)
		{
			string s(t.size() * BKT, 0);
			for (size_t b = 0; b < t.size(); ++b) for (size_t i = 0; i < CELLS; ++i) {
				memcpy(&s[b * BKT + i * 16], &t[b][i].first, 8);
				memcpy(&s[b * BKT + i * 16 + 8], &t[b][i].second, 8);
			}
			return s;
		}
		static Table memory() { if (!table_mem) PBT_FAIL("the table was never mapped"); return parse(table_mem, table_len); }
		static string show(const Pair &p) { ostringstream o; o << hex << "(" << p.first << ", " << p.second << ")"; return o.str(); }
		static const string &file(World &w) { auto f = home_file(w, "beeshash.dat"); if (!f) PBT_FAIL("the table file is gone"); return f->rawdata; }
		struct Keys {
			uint64_t buckets;
			vector<uint64_t> use;        // buckets in play
			unsigned hashes, addrs;
			uint64_t salt;
			Pair draw_pair() const
			{
				const uint64_t b = use[draw(use.size() - 1)];
				const uint64_t k = draw(hashes - 1);
				const uint64_t max = (UINT64_MAX - b) / buckets;
				const uint64_t mult = k == 0 ? 0 : k == 1 ? max : (k * salt) % max;
				const uint64_t a = draw(addrs - 1);
				static const uint64_t flag[] = { 0, 0x800 | 1, 0x800 | 32, 0x400, 0x800 | 0x400 | 5, TOXIC, TOXIC | 0x801 };
				return { b + buckets * mult, 0x1000 * (1 + a) + flag[draw(6)] };
			}
		};
		static Keys keys(uint64_t size)
		{
			Keys k;
			k.buckets = size / BKT;
			for (unsigned i = unsigned(range(1, 3)); i; --i) k.use.push_back(chance(1, 3) ? (chance(1, 2) ? 0 : k.buckets - 1) : draw(k.buckets - 1));
			k.hashes = unsigned(range(1, 4));
			k.addrs = unsigned(range(1, 6));
			k.salt = 1 + draw(UINT64_MAX - 1);
			return k;
		}
		// Fill buckets in play to a drawn level with distinct entries
		static void prefill(Table &t, const Keys &k, uint64_t seed)
		{
			Rng r(seed);
			for (auto b : k.use) {
				size_t n = size_t(pick(vector<unsigned> { 0, 0, 1, 100, 254, 255, 256, 256, 256 }));
				set<Pair> have(t[b].begin(), t[b].end());
				for (size_t i = 0; i < CELLS && n; ++i) {
					if (t[b][i] != Pair(0, 0)) { --n; continue; }
					if (CELLS - i > n && r.below(2)) continue;
					Pair p;
					do {
						p = { b + k.buckets * (r.below(4) ? r.below((UINT64_MAX - b) / k.buckets) : r.below(3)), 0x1000 * (1 + r.below(1u << 30)) + (r.below(3) ? 0 : 0x801 + r.below(32)) };
					} while (have.count(p));
					have.insert(p);
					t[b][i] = p;
					--n;
				}
			}
		}
		static size_t index_of(const Bucket &b, const Pair &p) { return size_t(find(b.begin(), b.end(), p) - b.begin()); }
		static multiset<Pair> live(const Bucket &b) { multiset<Pair> s; for (auto &p : b) if (p != Pair(0, 0)) s.insert(p); return s; }
		// One insertion at most displaces the last entry; every other entry keeps its order
		// and moves back by at most one place.
		static void check_step(const Bucket &o, const Bucket &n, const Pair &p, const char *what)
		{
			const bool had = index_of(o, p) < CELLS;
			auto lo = live(o), ln = live(n);
			if (ln.count(p) != 1) PBT_FAIL(what << " of " << show(p) << " leaves " << ln.count(p) << " copies of it");
			const bool full = lo.size() == CELLS;
			auto want = lo;
			if (!had) {
				want.insert(p);
				if (full) want.erase(want.find(o[CELLS - 1]));
			}
			if (want != ln) {
				for (auto &x : want) if (!ln.count(x)) PBT_FAIL(what << " of " << show(p) << " (" << (had ? "present" : "absent") << ", " << lo.size() << " entries) lost " << show(x));
				for (auto &x : ln) if (ln.count(x) != want.count(x)) PBT_FAIL(what << " of " << show(p) << " left " << show(x) << " " << ln.count(x) << " times");
				PBT_FAIL(what << " of " << show(p) << ": wrong entries");
			}
			map<Pair, size_t> at;
			for (size_t i = 0; i < CELLS; ++i) if (o[i] != Pair(0, 0)) at[o[i]] = i;
			size_t last = 0;
			bool first = true;
			for (size_t i = 0; i < CELLS; ++i) {
				if (n[i] == Pair(0, 0) || n[i] == p) continue;
				const size_t was = at.at(n[i]);
				if (!first && was < last) PBT_FAIL(what << " of " << show(p) << " reordered the other entries");
				if (i > was + 1) PBT_FAIL(what << " of " << show(p) << " moved another entry back from " << was << " to " << i);
				first = false;
				last = was;
			}
		}
		static vector<Pair> lookup(BeesHashTable &t, uint64_t h)
		{
			vector<Pair> v;
			for (auto &c : t.find_cell(h)) v.push_back(Pair(uint64_t(c.e_hash), uint64_t(c.e_addr)));
			return v;
		}
		static void check_lookup(BeesHashTable &t, const Bucket &b, uint64_t h, const char *when)
		{
			multiset<Pair> want, got;
			for (auto &p : b) if (p.first == h && p.second) want.insert(p);
			for (auto &p : lookup(t, h)) got.insert(p);
			if (want != got) {
				Msg m;
				m << when << ": lookup of " << std::hex << h << std::dec << " gives";
				for (auto &p : got) m << " " << show(p);
				m << ", the table holds";
				for (auto &p : want) m << " " << show(p);
				fail(m.os.str());
			}
		}
		static void model()
		{
			World w;
			Gen g(w, ImgOpts(), draw(UINT64_MAX));
			empty_fs(w, g);
			const uint64_t size = EXT * uint64_t(range(1, 3));
			g.home(size);
			const Keys k = keys(size);
			Table t(size / BKT, Bucket(CELLS));
			prefill(t, k, draw(UINT64_MAX));
			{
				auto f = const_cast<Inode *>(home_file(w, "beeshash.dat"));
				f->rawdata = format(t);
			}
			struct Op { unsigned kind; Pair p; double wait; };
			vector<Op> ops(size_t(range(1, 40)));
			for (auto &o : ops) {
				o = { unsigned(draw(5)), k.draw_pair(), chance(1, 8) ? 2.0 : 0 };
				// sometimes something the bucket already holds
				auto &b = t[o.p.first % k.buckets];
				if (chance(1, 4)) { auto &x = b[draw(CELLS - 1)]; if (x != Pair(0, 0)) o.p = x; }
			}
			Msg m;
			m << k.buckets << " buckets;";
			for (auto &o : ops) m << (o.kind <= 1 ? " front" : o.kind <= 3 ? " random" : o.kind == 4 ? " erase" : " find") << show(o.p);
			PBT_DESC(m.os.str());
			const auto sc = ds::draw_config(2000);
			size_t fulls = 0;
			direct_life(w, sc, [&](shared_ptr<BeesContext> ctx) {
				auto ht = make_shared<BeesHashTable>(ctx, "beeshash.dat");
				set<uint64_t> hs;
				for (auto &o : ops) {
					const uint64_t bi = o.p.first % k.buckets;
					Bucket &old = t[bi];
					hs.insert(o.p.first);
					if (o.wait > 0) ds::sleep(o.wait);
					const bool had = index_of(old, o.p) < CELLS;
					check_lookup(*ht, old, o.p.first, "before");
					if (live(old).size() == CELLS && !had) ++fulls;
					if (o.kind <= 1) {
						if (ht->push_front_hash_addr(o.p.first, o.p.second) != had) PBT_FAIL("push_front of " << show(o.p) << " reports the wrong presence");
					} else if (o.kind <= 3) {
						if (ht->push_random_hash_addr(o.p.first, o.p.second) != had) PBT_FAIL("push_random of " << show(o.p) << " reports the wrong presence");
					} else if (o.kind == 4) {
						ht->erase_hash_addr(o.p.first, o.p.second);
					}
					const auto mem = memory();
					if (mem.size() != t.size()) PBT_FAIL("table size " << mem.size());
					const Bucket &now = mem[bi];
					if (o.kind <= 1) {
						check_step(old, now, o.p, "push_front");
						if (now[0] != o.p) PBT_FAIL("push_front of " << show(o.p) << " put it at place " << index_of(now, o.p));
					} else if (o.kind <= 3) {
						check_step(old, now, o.p, "push_random");
						if (had && index_of(now, o.p) > index_of(old, o.p)) PBT_FAIL("push_random demoted " << show(o.p) << " from " << index_of(old, o.p) << " to " << index_of(now, o.p));
					} else if (o.kind == 4) {
						auto want = live(old);
						want.erase(o.p);
						if (live(now) != want) PBT_FAIL("erase of " << show(o.p) << " leaves the wrong entries");
					} else if (now != old) PBT_FAIL("a lookup changed the table");
					// other buckets of the extents read so far
					for (size_t b = 0; b < t.size(); ++b) {
						if (b == bi || mem[b] == t[b]) continue;
						if (b / (EXT / BKT) != bi / (EXT / BKT) && live(mem[b]).empty()) continue; // not read yet
						PBT_FAIL("operation on bucket " << bi << " disturbed bucket " << b);
					}
					old = now;
					check_lookup(*ht, old, o.p.first, "after");
				}
				for (auto h : hs) check_lookup(*ht, t[h % k.buckets], h, "at the end");
				ht->stop_request();
				ht->stop_wait();
				const auto f = parse(file(*W).data(), file(*W).size());
				if (f != t) PBT_FAIL("the table file differs from the table after a clean stop");
			});
			if (ops.size() >= 3) nontrivial();
			if (fulls) label("full bucket");
		}
		// Threads with entries of their own, background flushing with slow or failing writes,
		// then a clean stop and a new process.
		static void history(bool faults, bool shared)
		{
			World w;
			Gen g(w, ImgOpts(), draw(UINT64_MAX));
			empty_fs(w, g);
			const uint64_t size = EXT * uint64_t(range(1, 4));
			const bool fresh = chance(1, 5);
			g.home(fresh ? 0 : size);
			const uint64_t real_size = fresh ? EXT : size;
			const uint64_t nb = real_size / BKT;
			const unsigned nt = unsigned(range(1, 4));
			struct Op { unsigned kind; Pair p; double wait; };
			vector<vector<Op>> prog(nt);
			const vector<double> waits { 0, 0, 0, 0.05, 0.5, 1.3, 7 };
			const uint64_t buckets = 1 + draw(3);
			for (unsigned t = 0; t < nt; ++t) {
				const unsigned n = unsigned(range(1, shared ? 12 : 20));
				for (unsigned i = 0; i < n; ++i) {
					// never more than 4*20 entries per bucket: nothing is displaced
					const uint64_t b = (draw(buckets) * 37) % nb;
					const uint64_t a = shared ? draw(2) : 1 + t * 64 + draw(4);
					prog[t].push_back({ unsigned(draw(5)), { b + nb * draw(2), 0x1000 * (1 + a) }, waits[draw(waits.size() - 1)] });
				}
			}
			if (chance(1, 2)) w.cfg.home_slow_ns = pick(vector<uint64_t> { 1000000, 300000000, 2000000000 });
			if (faults) { w.cfg.f_hwrite = pick(vector<unsigned> { 100, 500, 1000 }); w.cfg.fault_until_s = draw(30); }
			const double tail = pick(vector<double> { 0, 0.2, 3, 60 });
			Msg m;
			m << (fresh ? "new table; " : "") << nb << " buckets, slow " << w.cfg.home_slow_ns << " faults " << w.cfg.f_hwrite << " until " << w.cfg.fault_until_s;
			for (auto &p : prog) { m << "; thread"; for (auto &o : p) m << (o.kind <= 1 ? " front" : o.kind <= 3 ? " random" : o.kind == 4 ? " erase" : " find") << show(o.p) << "@" << o.wait; }
			PBT_DESC(m.os.str());
			const auto sc = ds::draw_config(3000), sc2 = ds::draw_config(1000);
			uint64_t file_writes = 0;
			direct_life(w, sc, [&](shared_ptr<BeesContext> ctx) {
				auto ht = make_shared<BeesHashTable>(ctx, "beeshash.dat");
				vector<set<Pair>> mine(nt);
				vector<thread> th;
				for (unsigned t = 0; t < nt; ++t) th.emplace_back([&, t]() {
					for (auto &o : prog[t]) {
						if (o.wait > 0) ds::sleep(o.wait);
						const bool had = mine[t].count(o.p);
						bool rv = had;
						if (o.kind <= 1) { rv = ht->push_front_hash_addr(o.p.first, o.p.second); mine[t].insert(o.p); }
						else if (o.kind <= 3) { rv = ht->push_random_hash_addr(o.p.first, o.p.second); mine[t].insert(o.p); }
						else if (o.kind == 4) { ht->erase_hash_addr(o.p.first, o.p.second); mine[t].erase(o.p); }
						if (shared) continue;
						if (rv != had) PBT_FAIL("insertion of " << show(o.p) << " reports " << rv << " but it was " << (had ? "" : "not ") << "present");
						size_t n = 0;
						for (auto &x : lookup(*ht, o.p.first)) if (x == o.p) ++n;
						if (n != mine[t].count(o.p)) PBT_FAIL(show(o.p) << " found " << n << " times, expected " << mine[t].count(o.p));
					}
				});
				for (auto &t : th) t.join();
				if (tail > 0) ds::sleep(tail);
				if (faults) { const double left = double(W->cfg.fault_until_s) + 1.5 - double(ds::now_ns()) / 1e9; if (left > 0) ds::sleep(left); }
				ht->stop_request();
				ht->stop_wait();
				const auto mem = memory(), f = parse(file(*W).data(), file(*W).size());
				if (mem.size() != f.size()) PBT_FAIL("table has " << mem.size() << " buckets, the file " << f.size());
				for (size_t b = 0; b < f.size(); ++b) {
					auto x = live(mem[b]);
					if (set<Pair>(x.begin(), x.end()).size() != x.size()) PBT_FAIL("duplicate entries in bucket " << b);
					for (auto &p : x) if (p.first % nb != b) PBT_FAIL("entry " << show(p) << " is in bucket " << b);
					for (auto &p : x) if (!live(f[b]).count(p)) PBT_FAIL("entry " << show(p) << " is not in the table file after a clean stop");
					for (auto &p : live(f[b])) if (!x.count(p)) PBT_FAIL("the file has " << show(p) << ", which is not in the table");
				}
				if (shared) return;
				multiset<Pair> all;
				for (auto &b : f) for (auto &p : live(b)) all.insert(p);
				multiset<Pair> want;
				for (auto &s : mine) for (auto &p : s) want.insert(p);
				if (all != want) PBT_FAIL("the file has " << all.size() << " entries, " << want.size() << " were inserted and not erased");
			});
			for (auto &h : w.home_log) if (h.kind == 'w') ++file_writes;
			if (file_writes > 1) label("flushed more than once");
			if (w.faults_fired) label("failed writes");
			const string saved = file(w);
			w.cfg.f_hwrite = 0;
			direct_life(w, sc2, [&](shared_ptr<BeesContext> ctx) {
				auto ht = make_shared<BeesHashTable>(ctx, "beeshash.dat");
				const auto t = parse(saved.data(), saved.size());
				for (size_t b = 0; b < t.size(); ++b) for (auto &p : t[b]) if (p.second) check_lookup(*ht, t[b], p.first, "after a restart");
				ht->stop_request();
				ht->stop_wait();
			});
			if (nt > 1) nontrivial();
			else if (file_writes) nontrivial();
		}
		// Arbitrary table files
		static void load()
		{
			World w;
			Gen g(w, ImgOpts(), draw(UINT64_MAX));
			empty_fs(w, g);
			const unsigned kind = unsigned(draw(5));
			uint64_t size = EXT * uint64_t(range(1, 3));
			if (kind == 0) size = pick(vector<uint64_t> { 1, 16, 4096, EXT - 1, EXT + 1, EXT + 16, EXT + 4096, 3 * EXT - 4096, size - draw(EXT - 1) });
			g.home(EXT);
			auto f = const_cast<Inode *>(home_file(w, "beeshash.dat"));
			Rng r(draw(UINT64_MAX));
			string data(size, 0);
			const uint64_t nb = max<uint64_t>(1, size / BKT);
			const unsigned density = pick(vector<unsigned> { 0, 20, 300, 1000 });
			if (kind == 1) { for (auto &c : data) c = char(r.next()); }
			else for (uint64_t i = 0; i + 16 <= size; i += 16) {
				if (r.below(1000) >= density) continue;
				uint64_t b = i / BKT % nb, h = b + nb * r.below(4), a = 0x1000 * (1 + r.below(3));
				if (r.below(4) == 0) a |= TOXIC;
				if (r.below(4) == 0) a |= 0x800 | r.below(64);
				if (kind == 3) {
					switch (r.below(6)) {
						case 0: a = r.below(0x1000); break;
						case 1: h = r.next(); break;
						case 2: a = UINT64_MAX - r.below(4096); break;
						case 3: a = 0; break;
						default: break;
					}
				}
				memcpy(&data[i], &h, 8);
				memcpy(&data[i + 8], &a, 8);
			}
			if (kind == 4) data.resize(data.size() / 2 / EXT * EXT), data.resize(size);
			if (chance(1, 8)) data.clear(), size = 0;
			f->rawdata = data;
			f->size = size;
			PBT_DESC("kind " << kind << " size " << size << " density " << density);
			const bool legal = size && size % EXT == 0;
			const auto sc = ds::draw_config(1000);
			const double wait = pick(vector<double> { 0, 0.001, 3 });
			bool ran = false;
			direct_life(w, sc, [&](shared_ptr<BeesContext> ctx) {
				shared_ptr<BeesHashTable> ht;
				try { ht = make_shared<BeesHashTable>(ctx, "beeshash.dat"); }
				catch (const exception &e) {
					if (legal) PBT_FAIL("a table of legal size " << size << " is refused: " << e.what());
					return;
				}
				if (!legal) PBT_FAIL("a table of illegal size " << size << " is used");
				if (wait > 0) ds::sleep(wait);
				const auto t = parse(data.data(), data.size());
				unsigned asked = 0;
				for (size_t b = 0; b < t.size(); ++b) {
					set<uint64_t> hs;
					for (auto &p : t[b]) if (p.second) hs.insert(p.first);
					for (auto h : hs) {
						if (++asked > 3000) break;
						if (h % nb != b) {
							for (auto &p : lookup(*ht, h)) { bool in = false; for (auto &q : t[h % nb]) if (q.first == h && (q.second & ~TOXIC) == p.second) in = true; if (!in) PBT_FAIL("misplaced entry " << show(p) << " found"); }
							continue;
						}
						multiset<Pair> plain;
						set<Pair> any;
						for (auto &p : t[b]) if (p.first == h && p.second) {
							const Pair q(h, p.second & ~TOXIC);
							if (q.second >= 0x1000) any.insert(q);
							if (p.second >= 0x1000 && p == q) plain.insert(p);
						}
						multiset<Pair> got;
						for (auto &p : lookup(*ht, h)) got.insert(p);
						for (auto &p : plain) if (got.count(p) < plain.count(p)) PBT_FAIL("unmarked entry " << show(p) << " of the file is not found");
						for (auto &p : got) if (!any.count(p)) PBT_FAIL("entry " << show(p) << " found but not in the file");
						// a marked entry is found unmarked; one copy elsewhere in the table may stand for it
						if (kind == 2) for (auto &p : any) if (!got.count(p)) PBT_FAIL("entry " << show(p) << ", marked toxic in the file, is not found");
					}
				}
				// the table still works
				const Pair p(7, 0x7000);
				ht->push_front_hash_addr(p.first, p.second);
				bool in = false;
				for (auto &q : lookup(*ht, 7)) if (q == p) in = true;
				if (!in) PBT_FAIL("an inserted entry is not found");
				ht->stop_request();
				ht->stop_wait();
				if (file(*W).size() != data.size()) PBT_FAIL("the table file changed size");
			});
			ran = true;
			if (ran && (density || kind == 0)) nontrivial();
			label(legal ? "legal size" : "illegal size");
		}

		// A daemon that begins with a table of wrong entries
		static void daemon()
		{
			World w;
			ImgOpts o;
			const bool strict = chance(1, 2);
			if (strict) { o.whole_dups = true; o.dup_pm = 700; o.zero_pm = 0; o.partial_pm = 0; o.prealloc_pm = 0; o.comp_pm = chance(1, 2) ? 0 : 500; }
			const unsigned workers = strict ? 1 : unsigned(1 + draw(3));
			Gen g(w, o, draw(UINT64_MAX));
			g.build();
			g.home(1u << 20);
			settle(w);
			observe_all(w, w.sh);
			PlantOpts po;
			po.n = unsigned(pick(vector<unsigned> { 3, 30, 300 }));
			po.junk = !strict && chance(2, 3);
			po.right = !strict;
			const unsigned n = plant_table(w, g.r, po);
			if (!strict && chance(1, 4)) {
				auto f = const_cast<Inode *>(home_file(w, "beeshash.dat"));
				for (unsigned k = unsigned(1 + draw(20)); k; --k) { const size_t b = g.r.below(256) * 4096; for (size_t i = 0; i < 4096; ++i) f->rawdata[b + i] = char(g.r.next()); }
				label("random buckets");
			}
			Plan p;
			p.args = daemon_args(workers);
			p.sched = sched(workers);
			PBT_DESC(dump_image(w));
			p.ctl = [&] {
				if (!wait_quiet(QUIET, LIMIT)) PBT_FAIL("the daemon never became idle");
				ds::post_signal(SIGTERM);
			};
			ds::on_step_limit = [] { PBT_FAIL("the daemon never became idle"); };
			auto e = daemon_life(w, p);
			expect_running(e);
			if (e.code) PBT_FAIL("the daemon exited with status " << e.code << " after a termination request");
			describe(w, e, "scan");
			check_shadow(w, w.sh, "after a scan");
			settle(w);
			PBT_DESC(dump_image(w));
			check_requests(w, true, false, workers == 1);
			check_all_scanned(w, false, false, "after a scan");
			if (strict) check_whole_sharing(w, false);
			label(strict ? "only wrong entries" : "any entries");
			if (n && !w.dedupes.empty()) nontrivial();
			counters(w);
		}
	}
}
#endif
