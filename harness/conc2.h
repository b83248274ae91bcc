// C15 progress tracking, C16 caches/pools/locks, C25 rates, C26 load-driven workers

namespace c15 {
	static void sequence()
	{
		const uint64_t start = edgy(50);
		ProgressTracker<uint64_t> pt(start);
		vector<pair<uint64_t, shared_ptr<void>>> held;
		uint64_t end = start;
		const unsigned n = unsigned(range(2, 40));
		const uint64_t span = 1 + draw(12);
		Msg m;
		m << "start " << start << ":";
		bool dup = false, mid_release = false;
		auto check = [&](const string &op) {
			uint64_t begin = end;
			for (auto &h : held) begin = min(begin, h.first);
			PBT_EQ(pt.begin(), begin, "after " << op << " with " << held.size() << " held");
			PBT_EQ(pt.end(), end, "after " << op);
		};
		check("construction");
		for (unsigned i = 0; i < n; ++i) {
			if (held.empty() || chance(5, 9)) {
				const uint64_t v = chance(1, 2) ? end + draw(2) : draw(span + start);
				for (auto &h : held) if (h.first == v) dup = true;
				auto hold = pt.hold(v);
				PBT_EQ(hold->get(), v, "value of a hold");
				held.emplace_back(v, hold);
				end = max(end, v);
				m << " hold(" << v << ")";
				check("hold");
			} else {
				const size_t j = draw(held.size() - 1);
				if (held[j].first != pt.begin()) mid_release = true;
				m << " release(" << held[j].first << ")";
				held.erase(held.begin() + ptrdiff_t(j));
				check("release");
			}
		}
		PBT_DESC(m.os.str());
		if (dup) label("equal values held");
		if (mid_release) label("released out of order");
		if (mid_release && n > 4) nontrivial();
	}

	static void threads()
	{
		const unsigned nt = unsigned(range(2, 4));
		vector<vector<pair<bool, uint64_t>>> prog(nt);
		for (unsigned t = 0; t < nt; ++t) {
			Msg m;
			const unsigned n = unsigned(range(2, 8));
			for (unsigned i = 0; i < n; ++i) {
				prog[t].emplace_back(chance(3, 5), draw(10));
				m << (prog[t].back().first ? " hold " : " release ") << prog[t].back().second;
			}
			PBT_DESC("thread " << t << ":" << m.os.str());
		}
		quiet_start(300);
		auto pt = make_shared<ProgressTracker<uint64_t>>(0);
		vector<vector<pair<uint64_t, shared_ptr<void>>>> held(nt);
		uint64_t maxheld = 0, maxstarted = 0;
		vector<uint64_t> lastend(nt);
		{
			vector<thread> th;
			for (unsigned t = 0; t < nt; ++t) th.emplace_back([&, t]() {
				auto &h = held[t];
				for (auto &op : prog[t]) {
					ds::point();
					if (op.first || h.empty()) {
						maxstarted = max(maxstarted, op.second);
						auto hold = pt->hold(op.second);
						h.emplace_back(op.second, hold);
						maxheld = max(maxheld, op.second);
					} else {
						h.erase(h.begin() + ptrdiff_t(op.second % h.size()));
					}
					const uint64_t b = pt->begin();
					const uint64_t lo = maxheld;
					for (auto &x : h) if (b > x.first) PBT_FAIL("reported beginning " << b << " is past item " << x.first << " which is still held");
					const uint64_t e = pt->end();
					if (e < lo) PBT_FAIL("reported end " << e << " is below " << lo << " which has been held");
					if (e > maxstarted) PBT_FAIL("reported end " << e << " was never held");
					if (e < lastend[t]) PBT_FAIL("reported end went backwards from " << lastend[t] << " to " << e);
					lastend[t] = e;
				}
			});
			for (auto &t : th) t.join();
		}
		uint64_t b = maxheld;
		size_t left = 0;
		for (auto &h : held) for (auto &x : h) { b = min(b, x.first); ++left; }
		PBT_EQ(pt->end(), maxheld, "final end");
		PBT_EQ(pt->begin(), b, "final begin");
		held.clear();
		PBT_EQ(pt->begin(), maxheld, "begin after all released");
		if (left) label("items left at end");
		nontrivial();
	}
}

namespace c16 {
	struct Boom : runtime_error { Boom() : runtime_error("factory refused") {} };

	static void lru_model()
	{
		unsigned limit = unsigned(range(1, 6));
		const unsigned keys = unsigned(range(1, 8));
		unsigned calls = 0, last_key = 0;
		bool refuse = false;
		LRUCache<uint64_t, int> cache([&](int k) -> uint64_t {
			last_key = unsigned(k);
			if (refuse) throw Boom();
			return uint64_t(k) * 1000000 + ++calls;
		}, limit);
		list<pair<int, uint64_t>> model;   // cold..hot
		auto find = [&](int k) { auto i = model.begin(); while (i != model.end() && i->first != k) ++i; return i; };
		Msg m;
		m << "limit " << limit << ":";
		unsigned evictions = 0, hits = 0;
		const unsigned n = unsigned(range(3, 60));
		for (unsigned i = 0; i < n; ++i) {
			const int k = int(draw(keys - 1));
			const unsigned op = unsigned(weighted({ 12, 2, 2, 2, 1, 1, 2 }));
			auto room = [&]() { while (model.size() >= limit) { model.pop_front(); ++evictions; } };
			auto get = [&](bool fresh) {
				const unsigned before = calls;
				uint64_t v = 0;
				bool threw = false;
				try { v = fresh ? cache.refresh(k) : cache(k); } catch (const Boom &) { threw = true; }
				if (fresh) { auto f = find(k); if (f != model.end()) model.erase(f); }
				auto f = find(k);
				if (f != model.end()) {
					PBT_CHECK(!threw && calls == before, "key " << k << " is cached but the function was called");
					PBT_EQ(v, f->second, "value for key " << k);
					model.splice(model.end(), model, f);
					++hits;
				} else if (refuse) {
					PBT_CHECK(threw, "function refused but a value came back");
				} else {
					PBT_CHECK(!threw, "unexpected exception");
					PBT_EQ(calls, before + 1, "function calls for a missing key " << k);
					PBT_EQ(last_key, unsigned(k), "key passed to the function");
					PBT_EQ(v, uint64_t(k) * 1000000 + calls, "value for key " << k);
					room();
					model.emplace_back(k, v);
				}
			};
			switch (op) {
				case 0: m << " get " << k; get(false); break;
				case 1: m << " refresh " << k; get(true); break;
				case 2: { m << " expire " << k; cache.expire(k); auto f = find(k); if (f != model.end()) model.erase(f); break; }
				case 3: {
					m << " insert " << k;
					const uint64_t v = uint64_t(k) * 1000000 + 500000 + i;
					const unsigned before = calls;
					cache.insert(v, k);
					PBT_EQ(calls, before, "insert called the function");
					auto f = find(k);
					if (f == model.end()) { room(); model.emplace_back(k, v); }
					else {
						// an existing entry may be kept or replaced
						const uint64_t got = cache(k);
						PBT_CHECK(got == f->second || got == v, "value after insert over an existing key is neither");
						f->second = got;
						model.splice(model.end(), model, f);
					}
					break;
				}
				case 4: {
					limit = unsigned(range(1, 8));
					m << " limit " << limit;
					cache.max_size(limit);
					PBT_CHECK(cache.size() <= limit, "size over the new limit");
					if (model.size() >= limit) {
						PBT_CHECK(cache.size() + 1 >= limit && cache.size() <= model.size(), "lowering the limit to " << limit << " left " << cache.size() << " of " << model.size());
						while (model.size() > cache.size()) { model.pop_front(); ++evictions; }
					}
					break;
				}
				case 5: m << " clear"; cache.clear(); model.clear(); break;
				case 6: refuse = !refuse; m << (refuse ? " refuse" : " accept"); break;
			}
			PBT_EQ(cache.size(), model.size(), "entries after operation " << i);
			PBT_CHECK(cache.size() <= limit, "over the limit");
		}
		PBT_DESC(m.os.str());
		if (evictions) label("evictions");
		if (evictions && hits) nontrivial();
	}

	static void lru_threads()
	{
		const unsigned nt = unsigned(range(2, 4)), keys = unsigned(range(1, 3));
		const bool tight = chance(1, 3), expiring = chance(1, 3), throwing = chance(1, 3);
		const unsigned limit = tight ? 1 + unsigned(draw(1)) : 50;
		vector<vector<pair<unsigned, int>>> prog(nt);
		for (auto &p : prog) { const unsigned n = unsigned(range(1, 6)); for (unsigned i = 0; i < n; ++i) p.emplace_back(unsigned(draw(9)), int(draw(keys - 1))); }
		vector<unsigned> fail_plan(64);
		if (throwing) for (auto &f : fail_plan) f = chance(1, 3);
		PBT_DESC(nt << " threads, " << keys << " keys, limit " << limit << (expiring ? " expiring" : "") << (throwing ? " throwing" : ""));
		quiet_start(300);
		vector<unsigned> running(keys), calls(keys), failed(keys);
		vector<set<uint64_t>> produced(keys);
		unsigned total = 0, waited = 0;
		LRUCache<uint64_t, int> cache;
		cache.max_size(limit);
		cache.func([&](int k) -> uint64_t {
			if (running[size_t(k)]++) PBT_FAIL("value for key " << k << " is being computed twice at once");
			ds::sleep(0.001);
			ds::point();
			--running[size_t(k)];
			const unsigned c = total++;
			if (c < fail_plan.size() && fail_plan[c]) { ++failed[size_t(k)]; throw Boom(); }
			++calls[size_t(k)];
			const uint64_t v = uint64_t(k) * 1000 + total;
			produced[size_t(k)].insert(v);
			return v;
		});
		unsigned caught = 0;
		vector<thread> th;
		for (unsigned t = 0; t < nt; ++t) th.emplace_back([&, t]() {
			for (auto &op : prog[t]) {
				const int k = op.second;
				if (expiring && op.first == 0) { cache.expire(k); continue; }
				if (expiring && op.first == 1) { cache.clear(); continue; }
				if (running[size_t(k)]) ++waited;
				try {
					const uint64_t v = cache(k);
					if (!produced[size_t(k)].count(v)) PBT_FAIL("cache returned " << v << " for key " << k << ", which the function never produced for it");
				} catch (const Boom &) { ++caught; }
				if (cache.size() > limit) PBT_FAIL("cache holds " << cache.size() << " entries with a limit of " << limit);
			}
		});
		for (auto &t : th) t.join();
		unsigned f = 0;
		for (unsigned k = 0; k < keys; ++k) {
			f += failed[k];
			if (!tight && !expiring && calls[k] > 1) PBT_FAIL("value for key " << k << " computed " << calls[k] << " times");
		}
		PBT_EQ(caught, f, "exceptions seen by callers");
		if (waited) { label("concurrent miss"); nontrivial(); }
	}

	struct Obj { int key; unsigned serial; static int live; Obj(int k, unsigned s) : key(k), serial(s) { ++live; } ~Obj() { --live; key = -1; } };
	int Obj::live = 0;

	static void named_ptr()
	{
		const unsigned nt = unsigned(range(2, 4)), keys = unsigned(range(1, 2));
		const bool throwing = chance(1, 3);
		vector<vector<pair<unsigned, int>>> prog(nt);
		for (auto &p : prog) { const unsigned n = unsigned(range(1, 8)); for (unsigned i = 0; i < n; ++i) p.emplace_back(unsigned(draw(9)), int(draw(keys - 1))); }
		vector<unsigned> fail_plan(64);
		if (throwing) for (auto &f : fail_plan) f = chance(1, 4);
		PBT_DESC(nt << " threads, " << keys << " names" << (throwing ? ", throwing" : ""));
		quiet_start(300);
		vector<unsigned> holders(keys), running(keys);
		vector<Obj *> current(keys);
		unsigned serial = 0, shared = 0, fails = 0, caught = 0, recreated = 0;
		Obj::live = 0;
		{
			NamedPtr<Obj, int> np;
			np.func([&](int k) {
				if (holders[size_t(k)]) PBT_FAIL("a second object for name " << k << " is being created while the first has holders");
				if (running[size_t(k)]++) PBT_FAIL("object for name " << k << " created twice at once");
				ds::sleep(0.001);
				--running[size_t(k)];
				const unsigned s = serial++;
				if (s < fail_plan.size() && fail_plan[s]) { ++fails; throw Boom(); }
				if (s) ++recreated;
				return make_shared<Obj>(k, s);
			});
			vector<thread> th;
			for (unsigned t = 0; t < nt; ++t) th.emplace_back([&, t]() {
				vector<pair<int, shared_ptr<Obj>>> mine;
				auto drop = [&](size_t i) { --holders[size_t(mine[i].first)]; mine.erase(mine.begin() + ptrdiff_t(i)); };
				for (auto &op : prog[t]) {
					const int k = op.second;
					if (op.first < 4 && !mine.empty()) { drop(op.first % mine.size()); continue; }
					try {
						shared_ptr<Obj> p;
						if (op.first == 9) p = np.insert(make_shared<Obj>(k, 1000 + serial), k);
						else p = np(k);
						PBT_CHECK(p, "null object");
						if (p->key != k) PBT_FAIL("name " << k << " gave a dead or foreign object (" << p->key << ")");
						if (holders[size_t(k)]) {
							++shared;
							if (current[size_t(k)] != p.get()) PBT_FAIL("two live objects for name " << k);
						}
						++holders[size_t(k)];
						current[size_t(k)] = p.get();
						mine.emplace_back(k, p);
					} catch (const Boom &) { ++caught; }
					for (auto &x : mine) if (x.second->key != x.first) PBT_FAIL("held object was destroyed");
				}
				while (!mine.empty()) { ds::point(); drop(mine.size() - 1); }
			});
			for (auto &t : th) t.join();
			PBT_EQ(Obj::live, 0, "objects alive with no holders");
			PBT_EQ(caught, fails, "factory exceptions seen");
			bool threw = false;
			try { np.insert(shared_ptr<Obj>(), 0); } catch (const exception &) { threw = true; }
			PBT_CHECK(threw, "a null object was accepted");
		}
		if (recreated) label("recreated");
		if (shared) { label("shared"); nontrivial(); }
	}

	static void named_ptr_lifetime()
	{
		// sequential: exact reuse and re-creation; objects outlive the registry
		unsigned made = 0;
		const unsigned keys = unsigned(range(1, 4));
		auto np = make_unique<NamedPtr<Obj, int>>([&](int k) { return make_shared<Obj>(k, made++); });
		map<int, vector<shared_ptr<Obj>>> h;
		Obj::live = 0;
		const unsigned n = unsigned(range(2, 30));
		unsigned reuse = 0, again = 0;
		set<int> seen;
		for (unsigned i = 0; i < n; ++i) {
			const int k = int(draw(keys - 1));
			auto &v = h[k];
			if (chance(3, 5)) {
				const unsigned before = made;
				auto p = (*np)(k);
				if (v.empty()) { PBT_EQ(made, before + 1, "no holder: a new object"); if (!seen.insert(k).second) ++again; }
				else { PBT_EQ(made, before, "existing object expected"); PBT_CHECK(p == v[0], "different object for the same name"); ++reuse; }
				v.push_back(p);
			} else if (!v.empty()) {
				v.erase(v.begin() + ptrdiff_t(draw(v.size() - 1)));
			}
			int live = 0;
			for (auto &x : h) live += !x.second.empty();
			PBT_EQ(Obj::live, live, "live objects");
		}
		np.reset();
		for (auto &x : h) for (auto &p : x.second) PBT_EQ(p->key, x.first, "object after registry destroyed");
		h.clear();
		PBT_EQ(Obj::live, 0, "live objects at end");
		if (reuse && again) nontrivial();
	}

	static void pool()
	{
		const unsigned nt = unsigned(range(1, 4));
		const bool hooks = chance(1, 2), clearing = chance(1, 3), destroy_early = chance(1, 3), failing = chance(1, 4);
		vector<vector<unsigned>> prog(nt);
		for (auto &p : prog) { const unsigned n = unsigned(range(1, 10)); for (unsigned i = 0; i < n; ++i) p.push_back(unsigned(draw(9))); }
		PBT_DESC(nt << " threads" << (hooks ? ", hooks" : "") << (clearing ? ", clear" : "") << (destroy_early ? ", pool destroyed first" : "") << (failing ? ", failing generator" : ""));
		quiet_start(300);
		unsigned made = 0, in_use_now = 0, peak = 0, checkouts = 0, checkins = 0, gets = 0, puts = 0, reused = 0, refused = 0;
		map<Obj *, int> busy;   // 1: held by user, 2: checking in
		set<unsigned> seen;
		Obj::live = 0;
		auto pl = make_unique<Pool<Obj>>();
		pl->generator([&]() {
			ds::point();
			if (failing && (made + refused) % 3 == 1) { ++refused; throw Boom(); }
			return make_shared<Obj>(7, made++);
		});
		if (hooks) {
			pl->checkin([&](shared_ptr<Obj> p) {
				if (busy[p.get()] != 2) PBT_FAIL("checkin called for an object which is not being returned");
				ds::sleep(0.0005);
				++checkins;
			});
			pl->checkout([&](shared_ptr<Obj> p) {
				if (busy[p.get()] == 1) PBT_FAIL("checkout of an object in use");
				ds::point();
				++checkouts;
			});
		}
		vector<thread> th;
		vector<vector<shared_ptr<Obj>>> kept(nt);
		for (unsigned t = 0; t < nt; ++t) th.emplace_back([&, t]() {
			auto &mine = kept[t];
			auto drop = [&](size_t i) {
				busy[mine[i].get()] = 2;
				++puts;
				Obj *o = mine[i].get();
				--in_use_now;
				(void)o;
				mine.erase(mine.begin() + ptrdiff_t(i));
			};
			for (auto op : prog[t]) {
				if (op < 4 && !mine.empty()) { drop(op % mine.size()); continue; }
				if (op == 4 && clearing) { pl->clear(); continue; }
				if (mine.size() >= 3) continue;
				peak = max(peak, 0u);
				try {
					auto p = (*pl)();
					PBT_CHECK(p, "null object");
					if (p->key != 7) PBT_FAIL("pool returned a destroyed object");
					if (busy[p.get()] == 1) PBT_FAIL("one object handed to two users");
					if (!seen.insert(p->serial).second) ++reused;
					busy[p.get()] = 1;
					++gets;
					++in_use_now;
					mine.push_back(p);
				} catch (const Boom &) {}
				for (auto &x : mine) if (x->key != 7) PBT_FAIL("object in use was destroyed");
			}
			if (!destroy_early) while (!mine.empty()) { ds::point(); drop(mine.size() - 1); }
		});
		for (auto &t : th) t.join();
		if (!clearing && made > nt * 3) PBT_FAIL(made << " objects created for at most " << nt * 3 << " concurrent users");
		if (nt == 1 && !clearing) {
			// single user: created exactly as many as the largest number held at once
			unsigned cur = 0, want = 0;
			bool exact = !failing;
			for (auto op : prog[0]) { if (op < 4 && cur) --cur; else if (op == 4 && clearing) ; else if (cur < 3) { ++cur; want = max(want, cur); } }
			if (exact) PBT_EQ(made, want, "objects created by a single user");
		}
		if (hooks) { PBT_EQ(checkouts, gets, "checkouts"); PBT_EQ(checkins, puts, "checkins"); }
		if (destroy_early) {
			pl.reset();
			size_t held = 0;
			for (auto &v : kept) for (auto &p : v) { ++held; if (p->key != 7) PBT_FAIL("object in use destroyed with the pool"); }
			PBT_EQ(size_t(Obj::live), held, "live objects after the pool is destroyed");
			kept.clear();
		} else pl.reset();
		PBT_EQ(Obj::live, 0, "live objects at end");
		if (reused) { label("reused"); nontrivial(); }
	}

	static void lockset()
	{
		const unsigned nt = unsigned(range(2, 5)), keys = unsigned(range(1, 3)), limit = unsigned(range(1, 4));
		vector<vector<pair<unsigned, unsigned>>> prog(nt);
		for (auto &p : prog) { const unsigned n = unsigned(range(1, 5)); for (unsigned i = 0; i < n; ++i) p.emplace_back(unsigned(draw(5)), unsigned(draw(keys - 1))); }
		PBT_DESC(nt << " threads, " << keys << " names, limit " << limit);
		quiet_start(300);
		LockSet<unsigned> ls;
		ls.max_size(limit);
		vector<int> owner(keys, -1);
		unsigned total = 0, contended = 0, done = 0;
		vector<thread> th;
		for (unsigned t = 0; t < nt; ++t) th.emplace_back([&, t]() {
			auto enter = [&](unsigned k) {
				if (owner[k] >= 0) PBT_FAIL("name " << k << " locked by two threads");
				owner[k] = int(t);
				if (++total > limit) PBT_FAIL(total << " names locked with a limit of " << limit);
				if (!ls.copy().count(k)) PBT_FAIL("locked name is not in the set");
				if (ls.size() > limit || ls.empty()) PBT_FAIL("set size " << ls.size());
				ds::sleep(0.001);
			};
			auto leave = [&](unsigned k) { owner[k] = -1; --total; };
			for (auto &op : prog[t]) {
				const unsigned k = op.second;
				if (owner[k] >= 0 || total >= limit) ++contended;
				switch (op.first) {
					case 0: case 1: { auto h = ls.make_lock(k); enter(k); leave(k); break; }
					case 2: { ls.lock(k); enter(k); leave(k); ls.unlock(k); break; }
					case 3: if (ls.try_lock(k)) { enter(k); leave(k); ls.unlock(k); } break;
					case 4: {
						auto h = ls.make_lock(k, false);
						if (h.try_lock()) { enter(k); PBT_CHECK(h.try_lock(), "own lock not held"); leave(k); h.unlock(); h.unlock(); }
						h.lock(); h.lock(); enter(k); leave(k); h.unlock();
						break;
					}
					default: {
						bool threw = false;
						try { ls.unlock(1000 + k); } catch (const exception &) { threw = true; }
						PBT_CHECK(threw, "unlocking a name that is not locked succeeded");
					}
				}
			}
			++done;
		});
		for (auto &t : th) t.join();
		PBT_CHECK(ls.empty(), "names left locked");
		for (unsigned k = 0; k < keys; ++k) if (k < limit) { PBT_CHECK(ls.try_lock(k), "free name could not be locked"); }
		for (unsigned k = 0; k < keys; ++k) if (k < limit) { PBT_CHECK(!ls.try_lock(k), "locked name locked again"); ls.unlock(k); }
		if (contended) { label("contended"); nontrivial(); }
	}

	static void multilock()
	{
		const unsigned nt = unsigned(range(2, 5)), kinds = unsigned(range(1, 3));
		vector<vector<pair<unsigned, unsigned>>> prog(nt);
		for (auto &p : prog) { const unsigned n = unsigned(range(1, 5)); for (unsigned i = 0; i < n; ++i) p.emplace_back(unsigned(draw(kinds - 1)), unsigned(draw(4))); }
		PBT_DESC(nt << " threads, " << kinds << " kinds");
		quiet_start(300);
		MultiLocker::enable_locking(true);
		static const char *name[] = { "dedupe", "logical_ino", "other" };
		vector<unsigned> in(kinds);
		unsigned waiting = 0, conflict = 0, together = 0;
		vector<thread> th;
		for (unsigned t = 0; t < nt; ++t) th.emplace_back([&, t]() {
			for (auto &op : prog[t]) {
				const unsigned k = op.first;
				for (unsigned i = 0; i < kinds; ++i) if (i != k && in[i]) ++conflict;
				++waiting;
				auto l = MultiLocker::get_lock(name[k]);
				--waiting;
				PBT_CHECK(l, "no lock handle");
				++in[k];
				if (in[k] > 1) ++together;
				shared_ptr<void> second;
				if (op.second == 1) second = MultiLocker::get_lock(name[k]);
				for (unsigned i = 0; i < kinds; ++i) if (i != k && in[i]) PBT_FAIL("locks of kinds " << name[k] << " and " << name[i] << " held at once");
				ds::sleep(0.001 * double(op.second));
				ds::point();
				for (unsigned i = 0; i < kinds; ++i) if (i != k && in[i]) PBT_FAIL("locks of kinds " << name[k] << " and " << name[i] << " held at once");
				--in[k];
				if (op.second == 2) { l.reset(); second.reset(); }
				else { second.reset(); }
			}
		});
		for (auto &t : th) t.join();
		// sharing must really be possible: one holder does not block another of its kind
		{
			auto a = MultiLocker::get_lock("dedupe");
			auto b = MultiLocker::get_lock("dedupe");
			a.reset();
			bool got = false;
			thread x([&]() { auto c = MultiLocker::get_lock("logical_ino"); got = true; });
			ds::sleep(1);
			ds::wait_idle();
			PBT_CHECK(!got, "a second kind was admitted while one holder of the first remains");
			b.reset();
			ds::sleep(1);
			ds::wait_idle();
			PBT_CHECK(got, "a waiter was not admitted after the last holder left");
			x.join();
			MultiLocker::enable_locking(false);
			auto d = MultiLocker::get_lock("dedupe");
			auto e = MultiLocker::get_lock("logical_ino");
			MultiLocker::enable_locking(true);
		}
		if (together) label("shared");
		if (conflict) { label("conflict"); nontrivial(); }
	}
}

namespace c25 {
	// every admission, in borrowing order
	struct Adm { double start, end, cost; };

	static void check_admissions(const vector<Adm> &v, double rate, double burst)
	{
		for (size_t i = 0; i < v.size(); ++i) {
			double sum = 0;
			for (size_t j = i; j < v.size(); ++j) {
				sum += v[j].cost;
				const double allowed = burst + rate * (v[j].end - v[i].start);
				if (sum > allowed * (1 + 1e-6) + 1e-3 * rate) PBT_FAIL("work " << sum << " admitted in " << (v[j].end - v[i].start) << " s with rate " << rate << "/s and burst " << burst);
			}
		}
	}

	static double now() { return double(ds::now_ns()) * 1e-9; }

	static void limiter()
	{
		static const vector<double> rates { 0.1, 1, 3, 10, 1000, 131072 };
		double rate = pick(rates), maxrate = rate;
		const bool own_burst = chance(1, 2);
		const double burst = own_burst ? rate * pick(vector<double> { 0, 0.5, 1, 2, 10 }) : rate;
		PBT_DESC("rate " << rate << " burst " << burst);
		quiet_start(100, 0);
		shared_ptr<RateLimiter> rl = own_burst ? make_shared<RateLimiter>(rate, burst) : make_shared<RateLimiter>(rate);
		double tokens = 0, t0 = now();
		bool slept = false, idle = false, changed = false;
		auto accrue = [&]() { tokens = min(burst, tokens + rate * (now() - t0)); t0 = now(); };
		vector<Adm> adm;
		const unsigned n = unsigned(range(2, 30));
		for (unsigned i = 0; i < n; ++i) {
			const double cost = rate * pick(vector<double> { 0, 0.01, 0.3, 1, 1.5, 4 });
			accrue();
			const double tol = 5e-5 + 2e-9 * double(i + 2) * maxrate / rate + 1e-6 * (fabs(tokens) / rate + cost / rate);
			const double s = now();
			switch (weighted({ 5, 3, 2, 3, 4, 1 })) {
				case 0: {
					rl->sleep_for(cost);
					tokens -= cost;
					const double want = max(0.0, -tokens / rate);
					const double took = now() - s;
					PBT_DESC(" t=" << s << " sleep_for(" << cost << ") took " << took << ", tokens " << tokens);
					if (fabs(took - want) > tol) PBT_FAIL("sleep_for(" << cost << ") took " << took << " s; repaying needs " << want << " s");
					adm.push_back(Adm { s, now(), cost });
					if (took > 0) slept = true;
					break;
				}
				case 1: {
					const double w = rl->sleep_time(cost);
					tokens -= cost;
					const double want = max(0.0, -tokens / rate);
					PBT_DESC(" t=" << s << " sleep_time(" << cost << ") = " << w);
					if (fabs(w - want) > tol) PBT_FAIL("sleep_time(" << cost << ") = " << w << "; repaying needs " << want << " s");
					if (w > 0) slept = true;
					adm.push_back(Adm { s, s + w, cost });
					break;
				}
				case 2: {
					PBT_DESC(" t=" << s << " borrow(" << cost << ")");
					rl->borrow(cost);
					tokens -= cost;
					break;
				}
				case 3: {
					const bool r = rl->is_ready();
					PBT_DESC(" t=" << s << " is_ready = " << r << ", tokens " << tokens);
					if (fabs(tokens) / rate > tol && r != (tokens >= 0)) PBT_FAIL("is_ready() is " << r << " with " << tokens << " units of allowance");
					break;
				}
				case 4: {
					const double d = pick(vector<double> { 0.001, 0.1, 1, 5, 100 });
					PBT_DESC(" wait " << d);
					ds::sleep(d);
					if (d >= 1) idle = true;
					break;
				}
				case 5: {
					rate = pick(rates);
					PBT_DESC(" rate(" << rate << ")");
					maxrate = max(maxrate, rate);
					rl->rate(rate);
					PBT_EQ(rl->rate(), rate, "rate()");
					changed = true;
					break;
				}
			}
		}
		if (!changed) check_admissions(adm, maxrate, burst);
		for (double bad : { 0.0, -1.0 }) {
			bool threw = false;
			try { rl->rate(bad); } catch (const exception &) { threw = true; }
			PBT_CHECK(threw, "rate " << bad << " accepted");
		}
		if (slept) label("slept");
		if (changed) label("rate changed");
		if (slept && idle) nontrivial();
	}

	static void limiter_threads()
	{
		const double rate = pick(vector<double> { 1, 10, 1000 });
		const double burst = rate * pick(vector<double> { 0, 1, 3 });
		const unsigned nt = unsigned(range(2, 4));
		vector<vector<pair<double, double>>> prog(nt);
		for (auto &p : prog) { const unsigned n = unsigned(range(1, 6)); for (unsigned i = 0; i < n; ++i) p.emplace_back(rate * pick(vector<double> { 0.1, 0.5, 1, 2 }), chance(1, 3) ? pick(vector<double> { 0.5, 3, 20 }) : 0.0); }
		PBT_DESC(nt << " threads, rate " << rate << " burst " << burst);
		quiet_start(200);
		RateLimiter rl(rate, burst);
		struct Ev { double s, e, c; };
		vector<Ev> ev;
		double total = 0;
		vector<thread> th;
		for (unsigned t = 0; t < nt; ++t) th.emplace_back([&, t]() {
			for (auto &op : prog[t]) {
				if (op.second > 0) ds::sleep(op.second);
				const double s = now();
				rl.sleep_for(op.first);
				ev.push_back(Ev { s, now(), op.first });
				total += op.first;
			}
		});
		for (auto &t : th) t.join();
		// Everything that both starts and finishes inside an interval was admitted in it.
		for (auto &a : ev) for (auto &b : ev) {
			if (b.e < a.s) continue;
			double sum = 0;
			for (auto &x : ev) if (x.s >= a.s && x.e <= b.e) sum += x.c;
			const double allowed = burst + rate * (b.e - a.s);
			if (sum > allowed * (1 + 1e-6) + 1e-3 * rate) PBT_FAIL("work " << sum << " admitted in " << b.e - a.s << " s with rate " << rate << " and burst " << burst);
		}
		for (auto &x : ev) if (x.e - x.s > total / rate + 1e-3) PBT_FAIL("waited " << x.e - x.s << " s; all the work together needs " << total / rate << " s");
		nontrivial();
	}

	// A counter that is read more often than it advances: time without progress counts too.
	static void estimator_idle()
	{
		const double dt = pick(vector<double> { 0.1, 0.5, 1.5, 4 });
		const uint64_t step = 1 + draw(5);
		const unsigned idle = unsigned(range(1, 5));
		const unsigned n = unsigned(range(20, 60));
		const unsigned style = unsigned(draw(2));
		const double truth = double(step) / (dt * (idle + 1));
		const double lo = 1 / truth / pick(vector<double> { 50, 1000 }), hi = 1 / truth * pick(vector<double> { 50, 1000 });
		PBT_DESC("+" << step << " every " << idle + 1 << " samples of " << dt << " s, " << n << " times, delays " << lo << ".." << hi);
		quiet_start(100);
		RateEstimator re(lo, hi);
		uint64_t count = edgy(1000000);
		re.update(count);
		double elapsed = 0, units = 0;
		for (unsigned i = 0; i < n; ++i) {
			for (unsigned k = 0; k <= idle; ++k) {
				ds::sleep(dt);
				elapsed += dt;
				if (k == idle) { count += step; units += double(step); }
				if (style == 0) re.update(count); else if (style == 1) re.update_monotonic(count); else re.increment(k == idle ? step : 0);
				PBT_EQ(re.count(), count, "count");
			}
			const auto raw = re.raw();
			if (i >= 10 && units >= 20 && elapsed >= 20 && raw.first >= 1 && raw.second >= 1) {
				const double r = re.rate();
				if (r > truth * 1.3 || r < truth / 1.3) PBT_FAIL(units << " units in " << elapsed << " s are estimated at " << r << " units per s, true rate " << truth);
				nontrivial();
			}
		}
	}

	static void estimator()
	{
		const double lo = pick(vector<double> { 0.1, 1, 5, 30 });
		const double hi = lo * pick(vector<double> { 2, 10, 3600 });
		PBT_DESC("delays " << lo << ".." << hi);
		quiet_start(100);
		RateEstimator re(lo, hi);
		uint64_t count = edgy(1000000);
		re.update(count);
		double total = 0, units = 0;
		const bool steady = chance(1, 2);
		const uint64_t step = 1 + draw(20);
		const double dt = pick(vector<double> { 0.1, 1, 7, 30 });
		const unsigned n = unsigned(range(3, 60));
		PBT_DESC((steady ? "steady " : "irregular ") << step << " per " << dt << " s, " << n << " updates");
		double kept_units = 0, kept_time = 0;
		auto bounds = [&]() {
			const double r = re.rate();
			const double eps = 1e-9;
			if (r > 1 / lo + eps || r < 1 / hi - eps || !(r == r)) PBT_FAIL("rate " << r << " outside " << 1 / hi << ".." << 1 / lo);
			const uint64_t k = 1 + uint64_t(total) % 50;
			const double d = re.duration(k).count(), s = re.seconds_for(k), u = re.seconds_until(re.count() + k);
			for (double x : { d, s, u }) if (!(x >= lo - eps && x <= hi + eps)) PBT_FAIL("delay " << x << " outside " << lo << ".." << hi);
			const double want = min(hi, max(lo, double(k) / r));
			if (fabs(d - want) > 1e-3 * want) PBT_FAIL("duration(" << k << ") = " << d << " at rate " << r);
		};
		(void)kept_units; (void)kept_time;
		for (unsigned i = 0; i < n; ++i) {
			const double d = steady ? dt : dt * double(draw(3));
			const uint64_t c = steady ? step : draw(step);
			ds::sleep(d);
			total += d;
			units += double(c);
			switch (draw(2)) {
				case 0: re.update(count + c); break;
				case 1: re.update_monotonic(count + c); break;
				default: re.increment(c); break;
			}
			count += c;
			PBT_EQ(re.count(), count, "count");
			bounds();
			if (!steady && chance(1, 4)) {
				// a smaller value is ignored by the monotonic form
				re.update_monotonic(count - min<uint64_t>(count, 1 + draw(5)));
				PBT_EQ(re.count(), count, "count after a smaller monotonic update");
				bounds();
			}
			if (steady) {
				const auto raw = re.raw();
				if (raw.first >= 1 && raw.second >= 1) {
					const double spc = min(hi, max(lo, dt / double(step)));
					const double got = 1 / re.rate();
					if (fabs(got - spc) > 0.02 * spc) PBT_FAIL("a counter advancing " << step << " per " << dt << " s is estimated at " << got << " s per unit after " << i + 1 << " updates");
					nontrivial();
				}
				// the running totals must be able to reach a usable estimate
				if (units >= 100 && total >= 100 && (raw.first < 1 || raw.second < 1) && raw.first / max(raw.second, 1e-9) > 0.02) PBT_FAIL("totals " << raw.first << "/" << raw.second << " after " << units << " units in " << total << " s");
			}
		}
		if (!steady && n > 5) nontrivial();
	}

	static void waiters()
	{
		const unsigned nt = unsigned(range(1, 3));
		vector<pair<bool, uint64_t>> want(nt);
		for (auto &w : want) w = make_pair(chance(1, 2), draw(8));
		const unsigned n = unsigned(range(1, 6));
		vector<pair<uint64_t, double>> ups;
		for (unsigned i = 0; i < n; ++i) ups.emplace_back(draw(3), 0.001 * double(draw(2)));
		Msg m;
		for (auto &w : want) m << (w.first ? " wait_until +" : " wait_for ") << w.second;
		m << "; updates";
		for (auto &u : ups) m << " +" << u.first << "@" << u.second;
		PBT_DESC(m.os.str());
		quiet_start(200, chance(1, 3) ? 0 : 1000);
		RateEstimator re;
		const uint64_t base = 1000;
		re.update(base);
		ds::sleep(0.001);
		vector<uint64_t> goal(nt, UINT64_MAX);
		vector<bool> done(nt);
		vector<thread> th;
		for (unsigned t = 0; t < nt; ++t) th.emplace_back([&, t]() {
			if (want[t].first) { goal[t] = base + want[t].second; re.wait_until(goal[t]); }
			else { re.wait_for(want[t].second); }
			if (want[t].first && re.count() < goal[t]) PBT_FAIL("wait_until(" << goal[t] << ") returned at " << re.count());
			if (!want[t].first && re.count() < base + want[t].second) PBT_FAIL("wait_for(" << want[t].second << ") returned at " << re.count());
			done[t] = true;
		});
		uint64_t count = base;
		const bool settle = chance(1, 2);
		if (settle) ds::wait_idle();
		for (auto &u : ups) {
			if (u.second > 0) ds::sleep(u.second);
			count += u.first;
			re.update(count);
			if (settle) {
				ds::wait_idle();
				for (unsigned t = 0; t < nt; ++t) if (count >= base + want[t].second && !done[t]) PBT_FAIL("count reached " << count << " but a waiter for " << base + want[t].second << " is still waiting");
			}
		}
		ds::wait_idle();
		for (unsigned t = 0; t < nt; ++t) if (want[t].first && count >= goal[t] && !done[t]) PBT_FAIL("waiter until +" << want[t].second << " still waiting at +" << count - base);
		// relative waiters count from when they started
		count += 30;
		re.update(count);
		ds::wait_idle();
		for (unsigned t = 0; t < nt; ++t) if (!done[t]) PBT_FAIL("waiter for +" << want[t].second << " still waiting at +" << count - base);
		for (auto &t : th) t.join();
		nontrivial();
	}
}

namespace c26 {
	static void load()
	{
		unsigned maxt = unsigned(range(1, 8)), mint = unsigned(draw(maxt));
		const double target = pick(vector<double> { 0.5, 1, 2, 4, 10 });
		PBT_DESC("max " << maxt << " min " << mint << " load target " << target);
		quiet_start(5000);
		ds::loadavg = double(draw(8));
		TaskMaster::set_thread_min_count(0);
		TaskMaster::set_thread_count(maxt);
		TaskMaster::set_thread_min_count(mint);
		PBT_EQ(TaskMaster::get_thread_count(), size_t(maxt), "threads without a load target");
		unsigned executed = 0, requested = 0;
		vector<Task> tasks;
		auto feed = [&](unsigned n) {
			for (unsigned i = 0; i < n; ++i) {
				Task t("work", [&executed]() { ++executed; ds::sleep(0.01); });
				++requested;
				t.run();
			}
		};
		// Put the sampling instants between the tracker's 5 s ticks
		TaskMaster::set_loadavg_target(target);
		ds::sleep(2.5);
		ds::wait_idle();
		unsigned n = unsigned(TaskMaster::get_thread_count());
		const unsigned phases = unsigned(range(1, 5));
		bool up = false, down = false, resized = false;
		for (unsigned p = 0; p < phases; ++p) {
			const unsigned kind = unsigned(draw(3));
			const double d = pick(vector<double> { 0.5, 1, 2, 8 });
			double la = kind == 0 ? target - min(d, target) : kind == 1 ? target + d : kind == 2 ? target : -1;
			unsigned samples = kind == 0 ? unsigned(9 * maxt / max(0.1, target - la)) + 4 : kind == 1 ? unsigned(3 * maxt / d) + 4 : unsigned(range(1, 5));
			if (chance(1, 2)) samples = unsigned(range(1, 5));
			PBT_DESC("phase: load " << la << " for " << samples << " samples, threads " << n);
			if (kind == 3 && chance(1, 2)) {
				maxt = unsigned(range(1, 8));
				mint = min(mint, maxt);
				ds::loadavg = target;
				TaskMaster::set_thread_min_count(0);
				TaskMaster::set_thread_count(maxt);
				TaskMaster::set_thread_min_count(mint);
				PBT_DESC("  set max " << maxt << " min " << mint);
				const unsigned c = unsigned(TaskMaster::get_thread_count());
				if (c < mint || c > maxt) PBT_FAIL(c << " workers outside limits " << mint << ".." << maxt << " when the call setting them returned");
				n = c;
				resized = true;
				continue;
			}
			for (unsigned s = 0; s < samples; ++s) {
				ds::loadavg = kind == 3 ? double(draw(20)) * 0.5 : la;
				if (chance(1, 3)) feed(unsigned(draw(4)));
				ds::sleep(5);
				ds::wait_idle();
				const unsigned c = unsigned(TaskMaster::get_thread_count());
				if (c < mint || c > maxt) PBT_FAIL(c << " workers outside limits " << mint << ".." << maxt);
				if (ds::loadavg > target && c > n) PBT_FAIL("workers increased from " << n << " to " << c << " at load " << ds::loadavg << " over target " << target);
				if (ds::loadavg < target && c < n) PBT_FAIL("workers decreased from " << n << " to " << c << " at load " << ds::loadavg << " under target " << target);
				if (c > n) up = true;
				if (c < n) down = true;
				n = c;
			}
			if (kind == 0 && samples >= unsigned(9 * maxt / max(0.1, target - la)) + 4 && n != maxt) PBT_FAIL(n << " workers after " << samples << " samples of load " << la << " under target " << target << "; the maximum is " << maxt);
			if (kind == 1 && samples >= unsigned(3 * maxt / d) + 4 && n != mint) PBT_FAIL(n << " workers after " << samples << " samples of load " << la << " over target " << target << "; the minimum is " << mint);
		}
		feed(3);
		if (chance(1, 2)) {
			TaskMaster::set_loadavg_target(0);
			ds::sleep(6);
			ds::wait_idle();
			PBT_EQ(TaskMaster::get_thread_count(), size_t(maxt), "workers after the load target was removed");
		} else {
			ds::loadavg = 0;
			ds::sleep(5.0 * (9 * maxt / target + 4));
			ds::wait_idle();
			PBT_EQ(TaskMaster::get_thread_count(), size_t(maxt), "workers after a long idle period");
		}
		ds::sleep(5);
		ds::wait_idle();
		PBT_EQ(executed, requested, "queued work completed");
		if (up) label("grew");
		if (down) label("shrank");
		if (resized) label("limits changed");
		if (up && down) nontrivial();
	}
}

static void
conc2_props(vector<Property> &props)
{
	const string a = "scheduling points are pthread calls, sleeps, explicit points and, in a drawn share of the cases, basic blocks of the library; memory is sequentially consistent";
	{
		Property p;
		p.id = "C15"; p.level = "exploration"; p.assumptions = { a };
		p.rule = "Generated sequences of hold/release over small value ranges against a multiset model (sequence), and 2-4 threads doing the same under generated schedules with begin/end bounds checked at every step and the exact model at the end (threads). Non-trivial: an item other than the first was released (sequence); any multi-thread case. Distinct by choice sequence.";
		p.scenarios = { { "sequence", c15::sequence, 200000, 2000000, false, 0 }, { "threads", c15::threads, 40000, 600000, true, 60 } };
		props.push_back(p);
	}
	{
		Property p;
		p.id = "C16"; p.level = "exploration"; p.assumptions = { a };
		p.rule = "Generated operation sequences against list/map models (lru-model, named-lifetime) and 2-5 threads under generated schedules with invariants on every returned object (others). Non-trivial: eviction and hit both happened (lru-model); a lookup ran while the value was being computed (lru-threads); an object had two holders (named); reuse and re-creation (named-lifetime); an object was reused (pool); a contended lock (lockset); a conflicting kind waited (multilock). Distinct by choice sequence.";
		p.scenarios = {
			{ "lru-model", c16::lru_model, 40000, 1000000, false, 0 },
			{ "lru-threads", c16::lru_threads, 8000, 300000, true, 60 },
			{ "named", c16::named_ptr, 12000, 400000, true, 60 },
			{ "named-lifetime", c16::named_ptr_lifetime, 20000, 300000, false, 0 },
			{ "pool", c16::pool, 8000, 300000, true, 60 },
			{ "lockset", c16::lockset, 6000, 200000, true, 60 },
			{ "multilock", c16::multilock, 6000, 200000, true, 60 },
		};
		props.push_back(p);
	}
	{
		Property p;
		p.id = "C25"; p.level = "exploration"; p.assumptions = { "time is the scheduler's virtual clock" };
		p.rule = "Generated sequences of limiter calls, waits and rate changes in virtual time against a token-bucket model and an all-intervals admission bound; generated counter histories against the true rate and the delay bounds; waiters released under generated schedules. Non-trivial: at least one wait and one idle period (limiter), a usable steady estimate or an irregular history (estimator), any threaded case. Distinct by choice sequence.";
		p.scenarios = {
			{ "limiter", c25::limiter, 12000, 400000, true, 60 },
			{ "limiter-threads", c25::limiter_threads, 6000, 200000, true, 60 },
			{ "estimator", c25::estimator, 10000, 300000, true, 60 },
			{ "estimator-idle", c25::estimator_idle, 6000, 200000, true, 60 },
			{ "waiters", c25::waiters, 8000, 300000, true, 60 },
		};
		props.push_back(p);
	}
	{
		Property p;
		p.id = "C26"; p.level = "exploration"; p.assumptions = { "load average is supplied by the harness; time is virtual", "bounds on how fast the count adapts are three times looser than the implementation's" };
		p.rule = "Generated histories of load averages around a target, with limit changes and queued work, sampled between adjustments. Non-trivial: the worker count both grew and shrank. Distinct by choice sequence.";
		p.scenarios = { { "load", c26::load, 8000, 300000, true, 60 } };
		props.push_back(p);
	}
}
