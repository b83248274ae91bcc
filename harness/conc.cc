// Checks for the concurrency library: tasks, progress tracking, caches and locks,
// rate limiting, thread-count control.  All run under the deterministic scheduler.
#include "pbt.h"
#include "detsched.h"

#include "crucible/cache.h"
#include "crucible/lockset.h"
#include "crucible/multilock.h"
#include "crucible/namedptr.h"
#include "crucible/pool.h"
#include "crucible/progress.h"
#include "crucible/task.h"
#include "crucible/time.h"
#include "crucible/chatter.h"

#include <cmath>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include <vector>

using namespace crucible;
using namespace std;
using namespace pbt;

static void
quiet_start(uint64_t expected_steps = 2000, uint64_t tick_ns = 1000)
{
	ds::Config c = ds::draw_config(expected_steps);
	c.max_steps = 3000000;
	c.tick_ns = tick_ns;
	PBT_DESC("schedule: " << (c.strategy == ds::Config::PCT ? "pct" : "random") << " switch " << c.switch_permille << "/1000 points " << c.pct_points << " seed " << c.seed);
	ds::start(c);
}

// ---------------------------------------------------------------------------
// C14: task scheduling

namespace tasks {
	struct Action {
		enum Kind { RUN, IDLE, APPEND_SELF, INSERT_SELF, APPEND_TO, YIELD, SLEEP, THROW, APPEND_ME, TRYLOCK, BARRIER_RELEASE, KINDS } kind;
		unsigned a, b;
	};
	static const char *kind_name[] = { "run", "idle", "append-after-me", "insert-after-me", "append-to", "yield", "sleep", "throw", "rerun-me", "trylock", "barrier-release" };

	struct TaskInfo {
		Task task;
		vector<vector<Action>> script;      // by execution number
		vector<vector<Action>> left;
		unsigned executions = 0;
		unsigned requests = 0;
		unsigned running = 0;
		uint64_t last_request = 0;          // event number of the last request made
		uint64_t last_start = 0;            // event number of the last execution start
		bool wants_lock = false;
		unsigned lock_goal = 0, locks_got = 0;
		unsigned excl = 0;
	};
	static vector<TaskInfo> T;
	static uint64_t clk;
	static unsigned concurrent, max_concurrent, thread_limit;
	static bool frozen;      // no task may start
	static vector<pair<char, unsigned>> trace;
	static vector<shared_ptr<Exclusion>> X;
	static vector<int> xowner;

	static void request(unsigned t) { ++T[t].requests; T[t].last_request = ++clk; }

	static void do_exec(unsigned me);

	static void do_action(int me, const Action &a)
	{
		switch (a.kind) {
			case Action::RUN: request(a.a); T[a.a].task.run(); break;
			case Action::IDLE: request(a.a); T[a.a].task.idle(); break;
			case Action::APPEND_SELF: if (me >= 0) { request(a.a); Task::current_task().append(T[a.a].task); } break;
			case Action::INSERT_SELF: if (me >= 0 && unsigned(me) != a.a) { request(a.a); Task::current_task().insert(T[a.a].task); } break;
			case Action::APPEND_TO: {
				// acyclic from outside: lower index waits on higher index
				unsigned lo = min(a.a, a.b), hi = max(a.a, a.b);
				if (lo == hi) break;
				request(lo);
				T[hi].task.append(T[lo].task);
				break;
			}
			case Action::YIELD: ds::point(); break;
			case Action::SLEEP: ds::sleep(0.001 * (1 + a.a)); break;
			case Action::THROW: if (me >= 0) throw runtime_error("task body throws"); break;
			case Action::APPEND_ME: if (me >= 0) { request(unsigned(me)); Task::current_task().append(Task::current_task()); } break;
			default: break;
		}
	}

	static void do_exec(unsigned me)
	{
		auto &t = T[me];
		if (frozen) PBT_FAIL("task " << me << " started while task execution is paused or cancelled");
		if (t.running) PBT_FAIL("task " << me << " is executing in two threads at once");
		++t.running;
		t.last_start = ++clk;
		++concurrent;
		max_concurrent = max(max_concurrent, concurrent);
		if (thread_limit && concurrent > thread_limit) PBT_FAIL(concurrent << " tasks executing with a thread limit of " << thread_limit);
		trace.emplace_back('s', me);
		const unsigned n = t.executions++;
		if (t.executions > t.requests) PBT_FAIL("task " << me << " executed " << t.executions << " times for " << t.requests << " requests");
		struct Leave { TaskInfo &t; unsigned me; ~Leave() { --t.running; --concurrent; trace.emplace_back('e', me); } } leave { t, me };
		if (!Task::current_task()) PBT_FAIL("current_task() is empty inside a task body");
		const Task mine = t.task;
		if (mine && Task::current_task().id() != mine.id()) PBT_FAIL("current_task() is not the executing task");
		ds::point();
		if (t.wants_lock && t.locks_got < t.lock_goal) {
			const auto lock = X[t.excl]->try_lock(Task::current_task());
			if (!lock) { request(me); return; }   // will be re-run when the lock is released
			if (xowner[t.excl] >= 0) PBT_FAIL("exclusion held by task " << xowner[t.excl] << " and task " << me << " at once");
			xowner[t.excl] = int(me);
			ds::point();
			ds::sleep(0.001);
			ds::point();
			xowner[t.excl] = -1;
			++t.locks_got;
			if (t.locks_got < t.lock_goal) { request(me); Task::current_task().run(); }
			return;
		}
		if (n < t.script.size()) for (auto &a : t.script[n]) do_action(int(me), a);
	}

	static string show(const Action &a) { Msg m; m << kind_name[a.kind] << "(" << a.a << "," << a.b << ")"; return m.os.str(); }

	static Action gen_action(unsigned k, bool in_task)
	{
		Action a;
		static const vector<unsigned> wi = { 5, 2, 4, 4, 2, 3, 2, 1, 2 };
		static const vector<unsigned> wo = { 6, 3, 0, 0, 3, 3, 2, 0, 0 };
		a.kind = Action::Kind(weighted(in_task ? wi : wo));
		a.a = unsigned(draw(k - 1));
		a.b = unsigned(draw(k - 1));
		return a;
	}

	static void reset(unsigned k)
	{
		T.clear();
		T.resize(k);
		trace.clear();
		clk = 0;
		concurrent = max_concurrent = thread_limit = 0;
		frozen = false;
		X.clear();
		xowner.clear();
	}

	static void drain()
	{
		// let everything run to quiescence in virtual time
		for (unsigned i = 0; i < 400; ++i) {
			ds::sleep(0.01);
			ds::wait_idle();
			if (!concurrent && !TaskMaster::get_queue_count() && i > 5) {
				bool settled = true;
				for (auto &t : T) if (t.last_request > t.last_start) settled = false;
				if (settled) break;
			}
		}
	}

	static void start_clients(vector<thread> &th, const vector<vector<Action>> &scripts)
	{
		for (auto &s : scripts) th.emplace_back([&s]() { for (auto &a : s) do_action(-1, a); });
	}

	// Random programs of requests from outside and inside tasks
	static void general()
	{
		const unsigned k = unsigned(range(2, 7));
		reset(k);
		const unsigned nthreads = unsigned(range(1, 4));
		const unsigned nclients = unsigned(range(0, 2));
		PBT_DESC(k << " tasks, " << nthreads << " workers, " << nclients << " client threads");
		for (unsigned i = 0; i < k; ++i) {
			const unsigned ne = unsigned(draw(3));
			for (unsigned e = 0; e < ne; ++e) {
				vector<Action> v;
				const unsigned na = unsigned(draw(4));
				Msg m;
				for (unsigned j = 0; j < na; ++j) { v.push_back(gen_action(k, true)); m << " " << show(v.back()); }
				if (na) PBT_DESC("task " << i << " execution " << e << ":" << m.os.str());
				T[i].script.push_back(v);
			}
		}
		vector<vector<Action>> clients(nclients);
		vector<Action> mainops;
		for (unsigned c = 0; c <= nclients; ++c) {
			auto &v = c < nclients ? clients[c] : mainops;
			const unsigned na = unsigned(range(1, 8));
			Msg m;
			for (unsigned j = 0; j < na; ++j) { v.push_back(gen_action(k, false)); m << " " << show(v.back()); }
			PBT_DESC((c < nclients ? "client" : "main") << ":" << m.os.str());
		}
		const bool resize = chance(1, 4);
		const bool pause = chance(1, 4);
		const bool early_drop = chance(1, 3);
		quiet_start();
		thread_limit = nthreads;
		TaskMaster::set_thread_count(nthreads);
		for (unsigned i = 0; i < k; ++i) T[i].task = Task("task-" + to_string(i), [i]() { do_exec(i); });
		vector<thread> th;
		start_clients(th, clients);
		for (auto &a : mainops) do_action(-1, a);
		if (pause) {
			label("pause/resume during run");
			TaskMaster::pause(true);
			ds::sleep(0.05);
			TaskMaster::pause(false);
		}
		if (resize) {
			label("thread count changed during run");
			thread_limit = 0;
			TaskMaster::set_thread_count(nthreads + 2);
			TaskMaster::set_thread_count(1);
			thread_limit = 1;
			ds::sleep(0.001);
		}
		for (auto &t : th) t.join();
		drain();
		// tasks waiting behind a task that was never scheduled: schedule every task once
		for (unsigned round = 0; round < 8; ++round) {
			for (unsigned i = 0; i < k; ++i) { request(i); T[i].task.run(); }
			drain();
		}
		unsigned execs = 0, appended = 0;
		for (unsigned i = 0; i < k; ++i) {
			execs += T[i].executions;
			if (T[i].last_request > T[i].last_start) PBT_FAIL("task " << i << " was requested and never executed afterwards (requests " << T[i].requests << " executions " << T[i].executions << ")");
			if (T[i].running) PBT_FAIL("task " << i << " never finished");
			for (auto &s : T[i].script) for (auto &a : s) if (a.kind == Action::APPEND_SELF || a.kind == Action::INSERT_SELF) ++appended;
		}
		if (appended) label("dependent tasks appended or inserted");
		if (max_concurrent > 1) label("tasks overlapped");
		if (execs >= k + 2 && (appended || max_concurrent > 1)) nontrivial();
		PBT_DESC("executions " << execs << " max concurrency " << max_concurrent);
		(void)early_drop;
		// dropping every reference destroys every task
		for (unsigned i = 0; i < k; ++i) T[i].task = Task();
		drain();
		if (Task::instance_count()) PBT_FAIL(Task::instance_count() << " tasks still exist after the last reference was dropped");
	}

	// Dependents of a task that is destroyed without running still run
	static void destroy()
	{
		const unsigned k = unsigned(range(2, 6));
		reset(k);
		const unsigned nthreads = unsigned(range(1, 3));
		vector<pair<unsigned, bool>> deps;
		quiet_start();
		TaskMaster::set_thread_count(nthreads);
		for (unsigned i = 0; i < k; ++i) T[i].task = Task("task-" + to_string(i), [i]() { do_exec(i); });
		// task 0 holds the others
		vector<unsigned> perm;
		for (unsigned i = 0; i < k; ++i) perm.push_back(i);
		for (unsigned i = k - 1; i > 1; --i) swap(perm[i], perm[1 + draw(i - 1)]);
		const unsigned style = unsigned(draw(2));  // 0: any mixture, 1: all inserted behind the head, 2: all appended
		for (unsigned j = 1; j < k; ++j) {
			const unsigned i = style ? perm[j] : j;
			const bool ins = style ? style == 1 : chance(1, 2);
			const unsigned target = !style && chance(1, 3) ? unsigned(draw(i - 1)) : 0;
			request(i);
			if (ins) T[target].task.insert(T[i].task); else T[target].task.append(T[i].task);
			PBT_DESC("task " << i << (ins ? " inserted" : " appended") << " after task " << target);
		}
		ds::sleep(0.1);
		ds::wait_idle();
		for (unsigned i = 0; i < k; ++i) if (T[i].executions) PBT_FAIL("task " << i << " ran before the task it was waiting for ran or was destroyed");
		const bool by_run = chance(1, 2);
		PBT_DESC("head task " << (by_run ? "run" : "destroyed") << ", " << nthreads << " workers");
		if (by_run) { request(0); T[0].task.run(); }
		T[0].task = Task();
		drain();
		for (unsigned i = 1; i < k; ++i) if (T[i].executions != 1) PBT_FAIL("dependent task " << i << " executed " << T[i].executions << " times, expected exactly once");
		if (style && nthreads == 1) {
			vector<unsigned> got, want(perm.begin() + 1, perm.end());
			for (auto &e : trace) if (e.first == 's' && e.second) got.push_back(e.second);
			if (style == 1) sort(want.begin(), want.end());
			Msg m;
			for (auto g : got) m << " " << g;
			if (got != want) PBT_FAIL("dependents of a " << (by_run ? "finished" : "destroyed") << " task ran out of " << (style == 1 ? "id" : "append") << " order:" << m.os.str());
			label("order of dependents checked");
		}
		if (T[0].executions != (by_run ? 1u : 0u)) PBT_FAIL("head task executed " << T[0].executions << " times");
		if (k > 2) nontrivial();
		label(by_run ? "head run" : "head destroyed");
	}

	// Order of execution with a single worker
	static void order()
	{
		const unsigned k = unsigned(range(3, 9));
		reset(k);
		quiet_start();
		TaskMaster::set_thread_count(1);
		TaskMaster::pause(true);
		ds::sleep(0.01);
		ds::wait_idle();
		vector<unsigned> ids;
		for (unsigned i = 0; i < k; ++i) T[i].task = Task("task-" + to_string(i), [i]() { do_exec(i); });
		// a random order of distinct tasks, some idle
		vector<unsigned> perm;
		for (unsigned i = 0; i < k; ++i) perm.push_back(i);
		for (unsigned i = k - 1; i > 0; --i) swap(perm[i], perm[draw(i)]);
		const unsigned nsub = unsigned(draw(k - 2));   // trailing tasks become dependents of the head
		vector<unsigned> normal, idle, subs;
		const unsigned head = perm[0];
		normal.push_back(head);
		const bool insert = chance(1, 2);
		for (unsigned i = 1; i < k; ++i) {
			if (i >= k - nsub) subs.push_back(perm[i]);
			else if (chance(1, 3)) idle.push_back(perm[i]);
			else normal.push_back(perm[i]);
		}
		// head's body attaches the dependents
		vector<Action> body;
		for (auto s : subs) body.push_back(Action { insert ? Action::INSERT_SELF : Action::APPEND_SELF, s, 0 });
		T[head].script.push_back(body);
		vector<pair<bool, unsigned>> q;
		{
			size_t a = 1, b = 0;
			request(head);
			T[head].task.run();
			while (a < normal.size() || b < idle.size()) {
				bool use_idle = b < idle.size() && (a >= normal.size() || chance(1, 2));
				unsigned t = use_idle ? idle[b++] : normal[a++];
				request(t);
				if (use_idle) T[t].task.idle(); else T[t].task.run();
				if (chance(1, 4)) { T[t].task.run(); label("redundant request"); if (use_idle) {} }
				PBT_DESC((use_idle ? "idle " : "run ") << t);
			}
		}
		{
			Msg m;
			for (auto s : subs) m << " " << s;
			PBT_DESC("head " << head << (insert ? " inserts" : " appends") << m.os.str());
		}
		ds::sleep(0.1);
		ds::wait_idle();
		if (!trace.empty()) PBT_FAIL("task executed while paused");
		TaskMaster::pause(false);
		drain();
		vector<unsigned> got;
		for (auto &e : trace) if (e.first == 's') got.push_back(e.second);
		if (insert) sort(subs.begin(), subs.end(), [&](unsigned a, unsigned b) { return T[a].task.id() < T[b].task.id(); });
		map<unsigned, size_t> pos;
		for (size_t i = 0; i < got.size(); ++i) {
			if (pos.count(got[i])) PBT_FAIL("task " << got[i] << " executed twice for a single pending request");
			pos[got[i]] = i;
		}
		Msg gm;
		for (auto g : got) gm << " " << g;
		if (got.size() != k) PBT_FAIL("executed " << got.size() << " of " << k << " tasks:" << gm.os.str());
		for (size_t i = 1; i < normal.size(); ++i) if (pos[normal[i - 1]] > pos[normal[i]]) PBT_FAIL("queued tasks ran out of order:" << gm.os.str());
		for (size_t i = 1; i < idle.size(); ++i) if (pos[idle[i - 1]] > pos[idle[i]]) PBT_FAIL("idle tasks ran out of order:" << gm.os.str());
		for (auto i : idle) for (auto n : normal) if (pos[i] < pos[n]) PBT_FAIL("idle task " << i << " ran while task " << n << " was queued:" << gm.os.str());
		for (size_t i = 0; i < subs.size(); ++i) {
			if (pos[subs[i]] < pos[head]) PBT_FAIL("dependent ran before the task it follows");
			if (i && pos[subs[i - 1]] > pos[subs[i]]) PBT_FAIL("dependents ran out of " << (insert ? "id" : "append") << " order:" << gm.os.str());
		}
		if (k >= 4 && (idle.size() || subs.size() > 1)) nontrivial();
		if (subs.size() > 1) label(insert ? "inserted dependents" : "appended dependents");
		if (idle.size()) label("idle tasks");
	}

	// Exclusion: mutual exclusion and no lost waiters
	static void exclusion()
	{
		const unsigned k = unsigned(range(2, 7));
		reset(k);
		const unsigned nx = unsigned(range(1, 2));
		const unsigned nthreads = unsigned(range(1, 4));
		for (unsigned i = 0; i < nx; ++i) { X.push_back(make_shared<Exclusion>()); xowner.push_back(-1); }
		for (unsigned i = 0; i < k; ++i) {
			T[i].wants_lock = true;
			T[i].lock_goal = unsigned(range(1, 3));
			T[i].excl = unsigned(draw(nx - 1));
		}
		PBT_DESC(k << " tasks contend for " << nx << " exclusions on " << nthreads << " workers");
		quiet_start();
		thread_limit = nthreads;
		TaskMaster::set_thread_count(nthreads);
		for (unsigned i = 0; i < k; ++i) T[i].task = Task("task-" + to_string(i), [i]() { do_exec(i); });
		for (unsigned i = 0; i < k; ++i) { request(i); T[i].task.run(); }
		// A waiter that attaches to the owner just after the owner's last run is
		// only required to run when the owner is destroyed or runs again, so the
		// tasks must own themselves from here on.
		for (unsigned i = 0; i < k; ++i) T[i].task = Task();
		for (unsigned i = 0; i < 200; ++i) {
			ds::sleep(0.01);
			bool done = true;
			for (auto &t : T) if (t.locks_got < t.lock_goal) done = false;
			if (done) break;
		}
		ds::wait_idle();
		unsigned extra = 0;
		for (unsigned i = 0; i < k; ++i) {
			if (T[i].locks_got != T[i].lock_goal) PBT_FAIL("task " << i << " obtained its exclusive lock " << T[i].locks_got << " times of " << T[i].lock_goal << " and is no longer scheduled");
			extra += T[i].executions - T[i].locks_got;
		}
		if (extra) { nontrivial(); label("lock contention"); }
		PBT_DESC("contended attempts " << extra);
	}

	static void barrier()
	{
		const unsigned k = unsigned(range(1, 4));
		const unsigned refs = unsigned(range(1, 4));
		reset(k);
		quiet_start();
		const unsigned nthreads = unsigned(range(1, 3));
		TaskMaster::set_thread_count(nthreads);
		for (unsigned i = 0; i < k; ++i) T[i].task = Task("task-" + to_string(i), [i]() { do_exec(i); });
		Barrier b0;
		unsigned released = 0;
		for (unsigned i = 0; i < k; ++i) { request(i); b0.insert_task(T[i].task); if (chance(1, 3)) { b0.insert_task(T[i].task); label("task inserted twice"); } }
		vector<thread> th;
		frozen = true;
		vector<Barrier> bs(refs, b0);
		for (unsigned i = 0; i < refs; ++i) {
			Barrier b = bs[i];
			const unsigned d = unsigned(draw(3));
			const bool destroy = chance(1, 2);
			th.emplace_back([b, d, destroy, &released]() mutable {
				ds::sleep(0.001 * d);
				++released;
				if (!destroy) b.release();
			});
		}
		bs.clear();
		PBT_DESC(k << " tasks behind a barrier with " << refs << " holders in threads");
		ds::sleep(0.1);
		ds::wait_idle();
		// the main reference is still held: nothing may have run
		for (auto &t : th) t.join();
		th.clear();
		frozen = false;
		b0.release();
		drain();
		for (unsigned i = 0; i < k; ++i) if (T[i].executions != 1) PBT_FAIL("barrier task executed " << T[i].executions << " times");
		nontrivial();
	}

	// pause() and cancel()
	static void stopping()
	{
		const unsigned k = unsigned(range(2, 6));
		reset(k);
		const unsigned nthreads = unsigned(range(1, 3));
		const bool cancel = chance(1, 2);
		for (unsigned i = 0; i < k; ++i) {
			vector<Action> v;
			const unsigned na = unsigned(draw(4));
			for (unsigned j = 0; j < na; ++j) { auto a = gen_action(k, true); if (a.kind == Action::THROW) a.kind = Action::YIELD; v.push_back(a); }
			T[i].script.push_back(v);
		}
		const unsigned pre = unsigned(draw(k));
		const unsigned post = unsigned(draw(3));
		PBT_DESC(k << " tasks, " << (cancel ? "cancel" : "pause") << " after " << pre << " requests, " << post << " requests afterwards, " << nthreads << " workers");
		quiet_start();
		TaskMaster::set_thread_count(nthreads);
		for (unsigned i = 0; i < k; ++i) T[i].task = Task("task-" + to_string(i), [i]() { do_exec(i); });
		for (unsigned i = 0; i < pre; ++i) { request(i % k); T[i % k].task.run(); }
		ds::sleep(0.0005 * double(draw(6)));
		if (cancel) TaskMaster::cancel(); else TaskMaster::pause(true);
		ds::sleep(0.2);
		ds::wait_idle();
		if (concurrent) PBT_FAIL("task still executing");
		frozen = true;
		const auto execs_at_freeze = [&]() { unsigned n = 0; for (auto &t : T) n += t.executions; return n; }();
		for (unsigned i = 0; i < post; ++i) {
			const unsigned t = unsigned(draw(k - 1));
			request(t);
			// discarding a task must not block the caller
			if (chance(1, 3)) T[t].task.idle(); else T[t].task.run();
		}
		if (chance(1, 2)) {
			// dependents attached to a task that is then requested or dropped
			const unsigned a = unsigned(draw(k - 1)), b = (a + 1) % k;
			request(min(a, b));
			T[max(a, b)].task.append(T[min(a, b)].task);
			request(max(a, b));
			T[max(a, b)].task.run();
			label("dependents at stop");
		}
		ds::sleep(0.2);
		ds::wait_idle();
		if (TaskMaster::get_thread_count()) PBT_FAIL(TaskMaster::get_thread_count() << " worker threads remain after " << (cancel ? "cancel" : "pause"));
		(void)execs_at_freeze;
		if (cancel) {
			label("cancel");
			if (TaskMaster::get_queue_count()) PBT_FAIL("queue not empty after cancel");
			for (unsigned i = 0; i < k; ++i) T[i].task = Task();
			ds::sleep(0.2);
			ds::wait_idle();
			nontrivial();
		} else {
			label("pause");
			frozen = false;
			TaskMaster::pause(false);
			drain();
			for (unsigned round = 0; round < 8; ++round) {
				for (unsigned i = 0; i < k; ++i) { request(i); T[i].task.run(); }
				drain();
			}
			for (unsigned i = 0; i < k; ++i) if (T[i].last_request > T[i].last_start) PBT_FAIL("task " << i << " requested before or during pause was lost");
			if (pre) nontrivial();
		}
	}

	// set_thread_count returns when the count is reached
	static void threads()
	{
		const unsigned k = unsigned(range(1, 8));
		reset(k);
		const unsigned n = unsigned(range(1, 5));
		for (unsigned i = 0; i < k; ++i) {
			vector<Action> v { Action { Action::SLEEP, unsigned(draw(5)), 0 } };
			for (unsigned e = 0; e < 3; ++e) T[i].script.push_back(v);
		}
		quiet_start();
		for (unsigned i = 0; i < k; ++i) T[i].task = Task("task-" + to_string(i), [i]() { do_exec(i); });
		Msg m;
		for (unsigned j = 0; j < n; ++j) {
			const unsigned c = unsigned(draw(5));
			m << " " << c;
			PBT_DESC("set_thread_count(" << c << ")");
			thread_limit = 0;
			TaskMaster::set_thread_count(c);
			if (TaskMaster::get_thread_count() != c) PBT_FAIL("set_thread_count(" << c << ") returned with " << TaskMaster::get_thread_count() << " threads");
			// with zero threads nothing executes
			if (c == 0 && concurrent) PBT_FAIL("task executing with zero worker threads");
			thread_limit = c;
			frozen = c == 0;
			for (unsigned i = 0; i < k; ++i) if (chance(1, 2)) { request(i); T[i].task.run(); }
			ds::sleep(0.002 * double(draw(3)));
			frozen = false;
		}
		PBT_DESC(k << " tasks, thread counts" << m.os.str());
		thread_limit = 0;
		TaskMaster::set_thread_count(2);
		drain();
		for (unsigned i = 0; i < k; ++i) if (T[i].last_request > T[i].last_start) PBT_FAIL("task " << i << " lost across thread count changes");
		if (n > 1) nontrivial();
	}
}

#include "conc2.h"
#include "conc3.h"

int
main(int argc, char **argv)
{
	vector<Property> props;
	{
		Property p;
		p.id = "C14";
		p.level = "exploration";
		p.rule = "Generated programs of run/idle/append/insert/exclusion/barrier/pause/cancel/resize operations over 2-9 tasks, 1-4 workers and up to 3 client threads, each under a generated deterministic thread schedule. Non-trivial: tasks overlapped or had dependents (general), more than one dependent (destroy), idle or dependent tasks present (order), at least one contended lock attempt (exclusion), any barrier case, cancel or pause with work queued (stopping), more than one resize (threads). Distinct by choice sequence.";
		p.assumptions = { "threads switch at pthread calls, sleeps, explicit points and (for part of the cases) at basic blocks of the code under test; one thread runs at a time, so weak memory orderings are not explored" };
		p.scenarios = {
			{ "general", tasks::general, 14000, 600000, true, 60 },
			{ "destroy", tasks::destroy, 4000, 60000, true, 60 },
			{ "order", tasks::order, 6000, 100000, true, 60 },
			{ "exclusion", tasks::exclusion, 6000, 200000, true, 60 },
			{ "barrier", tasks::barrier, 2000, 30000, true, 60 },
			{ "stopping", tasks::stopping, 6000, 100000, true, 60 },
			{ "threads", tasks::threads, 4000, 60000, true, 60 },
		};
		props.push_back(p);
	}
	conc2_props(props);
	conc3_props(props);
	return run_main(argc, argv, props);
}
