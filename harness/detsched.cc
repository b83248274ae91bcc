#include "detsched.h"
#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <list>
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace ds {
	using namespace std;

	function<void(const string &)> on_deadlock;
	function<void()> on_step_limit;
	function<void(uint64_t)> on_step;
	double loadavg = 0.5;

	enum State { RUNNABLE, BLOCKED, FINISHED };

	struct Thread {
		unsigned id = 0;
		State state = RUNNABLE;
		const void *wait_obj = nullptr;
		const char *wait_kind = "";
		uint64_t deadline = UINT64_MAX;  // virtual ns
		bool timed_out = false;
		bool signalled = false;
		int32_t prio = 0;
		atomic<int> baton { 0 };
		pthread_t pt {};
		void *(*fn)(void *) = nullptr;
		void *arg = nullptr;
		bool joined = false;
	};

	static bool s_active = false;
	static Config s_cfg;
	static pbt::Rng s_rng(0);
	static vector<Thread *> s_threads;
	static thread_local Thread *tl_self = nullptr;
	static Thread *s_current = nullptr;
	static uint64_t s_now = 0;
	static uint64_t s_steps = 0;
	static vector<uint64_t> s_change_points;
	static int32_t s_low_prio = -1;
	static pthread_key_t s_exit_key;
	static bool s_key_made = false;
	static list<int> s_signals;
	static bool s_fine_available = false;
	static uint64_t s_fine_left = 0;
	static uint64_t s_fine_switches = 0;
	static const uint64_t EPOCH_NS = 1700000000ull * 1000000000ull;
	static const uint64_t MONO_NS = 5000ull * 1000000000ull;

	static void futex_wait(atomic<int> &w)
	{
		while (!w.load()) {
			syscall(SYS_futex, reinterpret_cast<int *>(&w), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
		}
		w.store(0);
	}
	static void futex_wake(atomic<int> &w)
	{
		w.store(1);
		syscall(SYS_futex, reinterpret_cast<int *>(&w), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
	}

	uint64_t rng() { return s_rng.next(); }
	bool active() { return s_active && tl_self; }
	uint64_t now_ns() { return s_now; }
	uint64_t steps() { return s_steps; }
	size_t live_threads()
	{
		size_t n = 0;
		for (auto t : s_threads) if (t->state != FINISHED) ++n;
		return n;
	}
	bool others_blocked()
	{
		for (auto t : s_threads) {
			if (t == tl_self || t->state == FINISHED) continue;
			if (t->state == RUNNABLE || t->deadline <= s_now) return false;
		}
		return true;
	}

	string dump()
	{
		string o;
		for (auto t : s_threads) {
			if (t->state == FINISHED) continue;
			char name[32] = "?";
			pthread_getname_np(t->pt, name, sizeof(name));
			char buf[160];
			snprintf(buf, sizeof(buf), "thread %u (%s) %s %s%s; ", t->id, name, t->state == RUNNABLE ? "runnable" : "blocked in", t->state == BLOCKED ? t->wait_kind : "", t == tl_self ? " (current)" : "");
			o += buf;
		}
		return o;
	}

	static void deadlock()
	{
		string m = "deadlock: no thread can run and no timer is pending: " + dump();
		if (on_deadlock) on_deadlock(m);
		pbt::fail(m);
	}

	// Pick the next thread to run.  stay_ok: the current thread may continue.
	static Thread *pick(bool stay_ok, bool prefer_other)
	{
		while (true) {
			static vector<Thread *> run;
			run.clear();
			for (auto t : s_threads) {
				if (t->state == BLOCKED && t->deadline <= s_now) {
					t->state = RUNNABLE;
					t->timed_out = true;
					t->deadline = UINT64_MAX;
				}
				if (t->state == RUNNABLE) run.push_back(t);
			}
			if (run.empty()) {
				uint64_t d = UINT64_MAX;
				for (auto t : s_threads) if (t->state == BLOCKED) d = min(d, t->deadline);
				if (d == UINT64_MAX) deadlock();
				s_now = max(s_now, d);
				if (double(s_now) > s_cfg.max_virtual_s * 1e9) {
					if (on_step_limit) on_step_limit();
					pbt::inconclusive("virtual time limit");
				}
				continue;
			}
			Thread *self = tl_self;
			const bool self_runnable = self && self->state == RUNNABLE;
			if (s_cfg.strategy == Config::PCT) {
				if (prefer_other && self_runnable) self->prio = s_low_prio--;
				Thread *best = run[0];
				for (auto t : run) if (t->prio > best->prio) best = t;
				return best;
			}
			if (self_runnable && stay_ok && !prefer_other) {
				if (s_rng.below(1000) >= s_cfg.switch_permille) return self;
			}
			if (prefer_other && self_runnable && run.size() > 1) {
				run.erase(remove(run.begin(), run.end(), self), run.end());
			}
			return run[s_rng.below(run.size())];
		}
	}

	static void switch_to(Thread *next)
	{
		Thread *self = tl_self;
		if (next == self) return;
		s_current = next;
		futex_wake(next->baton);
		if (self && self->state != FINISHED) {
			futex_wait(self->baton);
		}
	}

	static void tick()
	{
		++s_steps;
		s_now += s_cfg.tick_ns;
		if (s_cfg.strategy == Config::PCT) {
			for (auto c : s_change_points) if (c == s_steps) { tl_self->prio = s_low_prio--; }
		}
		if (s_steps > s_cfg.max_steps) {
			if (on_step_limit) on_step_limit();
			pbt::inconclusive("step limit: " + dump());
		}
		if (on_step) on_step(s_steps);
	}

	void point(const char *)
	{
		if (!active()) return;
		tick();
		switch_to(pick(true, false));
	}

	// A basic block of instrumented code
	static void fine_point()
	{
		if (--s_fine_left) return;
		s_fine_left = 1 + s_rng.below(2 * s_cfg.fine);
		if (s_cfg.strategy == Config::PCT) tl_self->prio = s_low_prio--;
		++s_fine_switches;
		switch_to(pick(false, false));
	}

	static void yield_other()
	{
		tick();
		switch_to(pick(true, true));
	}

	// Block the current thread until woken or deadline.  Returns true if timed out.
	static bool block(const void *obj, const char *kind, uint64_t deadline)
	{
		Thread *self = tl_self;
		self->state = BLOCKED;
		self->wait_obj = obj;
		self->wait_kind = kind;
		self->deadline = deadline;
		self->timed_out = false;
		tick();
		switch_to(pick(false, false));
		// we are running again
		self->wait_obj = nullptr;
		self->deadline = UINT64_MAX;
		return self->timed_out;
	}

	static void wake(Thread *t)
	{
		t->state = RUNNABLE;
		t->timed_out = false;
		t->deadline = UINT64_MAX;
	}
	static void wake_all(const void *obj, const char *kind)
	{
		for (auto t : s_threads) if (t->state == BLOCKED && t->wait_obj == obj && !strcmp(t->wait_kind, kind)) wake(t);
	}

	void advance(uint64_t ns)
	{
		if (!active()) return;
		s_now += ns;
		point();
	}

	void sleep(double s)
	{
		if (!active()) return;
		if (s < 0) s = 0;
		uint64_t d = s > 1e9 ? UINT64_MAX - 1 : s_now + uint64_t(s * 1e9);
		block(nullptr, "sleep", d);
	}

	void wait_idle()
	{
		while (!others_blocked()) {
			tick();
			switch_to(pick(true, true));
		}
	}

	void post_signal(int sig)
	{
		s_signals.push_back(sig);
		wake_all(&s_signals, "sigwait");
	}

	static void on_thread_exit(void *)
	{
		Thread *self = tl_self;
		if (!self) return;
		self->state = FINISHED;
		wake_all(self, "join");
		tick();
		Thread *next = pick(false, false);
		// stay "self" only for identity; hand over the baton for good
		s_current = next;
		tl_self = nullptr;
		futex_wake(next->baton);
	}

	static Thread *new_thread()
	{
		auto t = new Thread;
		t->id = unsigned(s_threads.size());
		t->prio = int32_t(s_rng.below(1 << 20));
		s_threads.push_back(t);
		return t;
	}

	static void *trampoline(void *p)
	{
		auto t = static_cast<Thread *>(p);
		tl_self = t;
		futex_wait(t->baton);
		pthread_setspecific(s_exit_key, t);
		return t->fn(t->arg);
	}

	Config draw_config(uint64_t expected_steps)
	{
		Config c;
		const auto kind = pbt::draw(6);
		switch (kind) {
			case 0: c.switch_permille = 0; break;
			case 1: c.switch_permille = 20; break;
			case 2: c.switch_permille = 100; break;
			case 3: c.switch_permille = 300; break;
			case 4: c.switch_permille = 700; break;
			default:
				c.strategy = Config::PCT;
				c.pct_points = unsigned(pbt::draw(6));
				c.pct_length = expected_steps;
				break;
		}
		if (s_fine_available) {
			static const unsigned fine[] = { 0, 0, 3, 12, 50, 300 };
			c.fine = fine[pbt::draw(5)];
		}
		c.seed = pbt::draw(UINT32_MAX);
		return c;
	}

	void start(const Config &c)
	{
		if (s_active) { fprintf(stderr, "ds already active\n"); abort(); }
		if (!s_key_made) { pthread_key_create(&s_exit_key, on_thread_exit); s_key_made = true; }
		s_cfg = c;
		s_rng = pbt::Rng(c.seed);
		s_rng.next();
		for (auto t : s_threads) delete t;
		s_threads.clear();
		s_signals.clear();
		s_steps = 0;
		s_now = 1000000000;
		s_low_prio = -1;
		s_change_points.clear();
		if (c.strategy == Config::PCT) {
			for (unsigned i = 0; i < c.pct_points; ++i) s_change_points.push_back(1 + s_rng.below(max<uint64_t>(1, c.pct_length)));
		}
		s_fine_left = c.fine ? 1 + s_rng.below(2 * c.fine) : 0;
		tl_self = new_thread();
		tl_self->pt = pthread_self();
		s_current = tl_self;
		s_active = true;
	}

	void stop()
	{
		if (live_threads() != 1) { fprintf(stderr, "ds::stop with live threads: %s\n", dump().c_str()); abort(); }
		s_active = false;
		tl_self = nullptr;
	}

	template <class F> static F real(const char *name)
	{
		return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
	}

	static uint64_t virt(clockid_t clk)
	{
		if (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE) return EPOCH_NS + s_now;
		return MONO_NS + s_now;
	}
	static uint64_t to_deadline(clockid_t clk, const struct timespec *ts)
	{
		if (ts->tv_sec < 0) return 0;
		if (ts->tv_sec > 15000000000ll) return UINT64_MAX - 1;
		uint64_t abs = uint64_t(ts->tv_sec) * 1000000000ull + uint64_t(ts->tv_nsec);
		uint64_t base = (clk == CLOCK_REALTIME) ? EPOCH_NS : MONO_NS;
		return abs > base ? abs - base : 0;
	}

	static int cond_wait_impl(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline);
	static int mutex_lock_impl(pthread_mutex_t *m);
	static int mutex_unlock_impl(pthread_mutex_t *m);

	static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }

	static int mutex_lock_impl(pthread_mutex_t *m)
	{
		const int me = int(tl_self->id) + 1;
		if (recursive(m) && m->__data.__lock && m->__data.__owner == me) { ++m->__data.__count; return 0; }
		while (m->__data.__lock) {
			block(m, m->__data.__owner == me ? "mutex it already holds" : "mutex", UINT64_MAX);
		}
		m->__data.__lock = 1;
		m->__data.__owner = me;
		m->__data.__count = 1;
		return 0;
	}
	static int mutex_unlock_impl(pthread_mutex_t *m)
	{
		if (recursive(m) && --m->__data.__count) return 0;
		m->__data.__lock = 0;
		m->__data.__owner = 0;
		m->__data.__count = 0;
		for (auto t : s_threads) if (t->state == BLOCKED && t->wait_obj == m) wake(t);
		return 0;
	}
	static int cond_wait_impl(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline)
	{
		mutex_unlock_impl(m);
		bool to = block(c, "condvar", deadline);
		mutex_lock_impl(m);
		return to ? ETIMEDOUT : 0;
	}
}

using namespace ds;

#define REAL(ret, name, ...) \
	typedef ret (*name##_t)(__VA_ARGS__); \
	static name##_t real_##name() { static name##_t p; if (!p) p = real<name##_t>(#name); return p; }

extern "C" {
	REAL(int, pthread_mutex_lock, pthread_mutex_t *)
	REAL(int, pthread_mutex_trylock, pthread_mutex_t *)
	REAL(int, pthread_mutex_unlock, pthread_mutex_t *)
	REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *)
	REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const struct timespec *)
	REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *)
	REAL(int, pthread_cond_signal, pthread_cond_t *)
	REAL(int, pthread_cond_broadcast, pthread_cond_t *)
	REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)
	REAL(int, pthread_join, pthread_t, void **)
	REAL(int, __cxa_guard_acquire, long long *)
	REAL(void, __cxa_guard_release, long long *)
	REAL(void, __cxa_guard_abort, long long *)

	int pthread_mutex_lock(pthread_mutex_t *m) noexcept
	{
		if (!active()) return real_pthread_mutex_lock()(m);
		point();
		return mutex_lock_impl(m);
	}
	int pthread_mutex_trylock(pthread_mutex_t *m) noexcept
	{
		if (!active()) return real_pthread_mutex_trylock()(m);
		point();
		const int me = int(tl_self->id) + 1;
		if (m->__data.__lock) {
			if (recursive(m) && m->__data.__owner == me) { ++m->__data.__count; return 0; }
			yield_other();
			return EBUSY;
		}
		m->__data.__lock = 1;
		m->__data.__owner = me;
		m->__data.__count = 1;
		return 0;
	}
	int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
	{
		if (!active()) return real_pthread_mutex_unlock()(m);
		mutex_unlock_impl(m);
		point();
		return 0;
	}
	int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
	{
		if (!active()) return real_pthread_cond_wait()(c, m);
		return cond_wait_impl(c, m, UINT64_MAX);
	}
	int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
	{
		if (!active()) return real_pthread_cond_timedwait()(c, m, ts);
		return cond_wait_impl(c, m, to_deadline(CLOCK_REALTIME, ts));
	}
	int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *ts)
	{
		if (!active()) return real_pthread_cond_clockwait()(c, m, clk, ts);
		return cond_wait_impl(c, m, to_deadline(clk, ts));
	}
	int pthread_cond_signal(pthread_cond_t *c) noexcept
	{
		if (!active()) return real_pthread_cond_signal()(c);
		Thread *w[256];
		size_t n = 0;
		for (auto t : s_threads) if (t->state == BLOCKED && t->wait_obj == c && n < 256) w[n++] = t;
		if (n) wake(w[s_rng.below(n)]);
		point();
		return 0;
	}
	int pthread_cond_broadcast(pthread_cond_t *c) noexcept
	{
		if (!active()) return real_pthread_cond_broadcast()(c);
		for (auto t : s_threads) if (t->state == BLOCKED && t->wait_obj == c) wake(t);
		point();
		return 0;
	}
	int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) noexcept
	{
		if (!active()) return real_pthread_create()(pt, attr, fn, arg);
		Thread *t = new_thread();
		t->fn = fn;
		t->arg = arg;
		// Small stacks keep address space use low with many threads
		pthread_attr_t a;
		pthread_attr_init(&a);
		pthread_attr_setstacksize(&a, 1024 * 1024);
		int rv = real_pthread_create()(&t->pt, &a, trampoline, t);
		pthread_attr_destroy(&a);
		if (rv) { t->state = FINISHED; return rv; }
		*pt = t->pt;
		point();
		return 0;
	}
	int pthread_join(pthread_t pt, void **ret)
	{
		if (!active()) return real_pthread_join()(pt, ret);
		Thread *t = nullptr;
		for (auto i : s_threads) if (pthread_equal(i->pt, pt) && !i->joined && i != tl_self) t = i;
		if (t) {
			point();
			while (t->state != FINISHED) block(t, "join", UINT64_MAX);
			t->joined = true;
		}
		return real_pthread_join()(pt, ret);
	}
	int sched_yield(void) noexcept
	{
		if (active()) yield_other();
		return 0;
	}
	int nanosleep(const struct timespec *req, struct timespec *rem)
	{
		if (!active()) return int(syscall(SYS_nanosleep, req, rem));
		ds::sleep(double(req->tv_sec) + 1e-9 * double(req->tv_nsec));
		return 0;
	}
	int clock_nanosleep(clockid_t clk, int flags, const struct timespec *req, struct timespec *rem)
	{
		if (!active()) return int(syscall(SYS_clock_nanosleep, clk, flags, req, rem));
		if (flags & TIMER_ABSTIME) {
			uint64_t d = to_deadline(clk, req);
			ds::sleep(d > s_now ? double(d - s_now) * 1e-9 : 0);
		} else {
			ds::sleep(double(req->tv_sec) + 1e-9 * double(req->tv_nsec));
		}
		return 0;
	}
	int usleep(useconds_t us) { struct timespec ts = { long(us / 1000000), long(us % 1000000) * 1000 }; return nanosleep(&ts, nullptr); }
	int clock_gettime(clockid_t clk, struct timespec *ts) noexcept
	{
		if (!active() || (clk != CLOCK_REALTIME && clk != CLOCK_MONOTONIC && clk != CLOCK_MONOTONIC_RAW && clk != CLOCK_BOOTTIME && clk != CLOCK_REALTIME_COARSE && clk != CLOCK_MONOTONIC_COARSE)) {
			return int(syscall(SYS_clock_gettime, clk, ts));
		}
		uint64_t v = virt(clk);
		ts->tv_sec = time_t(v / 1000000000ull);
		ts->tv_nsec = long(v % 1000000000ull);
		return 0;
	}
	int gettimeofday(struct timeval *tv, void *) noexcept
	{
		struct timespec ts;
		clock_gettime(CLOCK_REALTIME, &ts);
		if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
		return 0;
	}
	time_t time(time_t *t) noexcept
	{
		struct timespec ts;
		clock_gettime(CLOCK_REALTIME, &ts);
		if (t) *t = ts.tv_sec;
		return ts.tv_sec;
	}
	int getloadavg(double la[], int n) noexcept
	{
		for (int i = 0; i < n && i < 3; ++i) la[i] = loadavg;
		return n < 3 ? n : 3;
	}
	int sigwaitinfo(const sigset_t *, siginfo_t *info)
	{
		if (!active()) { errno = EINTR; return -1; }
		while (s_signals.empty()) block(&s_signals, "sigwait", UINT64_MAX);
		int s = s_signals.front();
		s_signals.pop_front();
		if (info) { memset(info, 0, sizeof(*info)); info->si_signo = s; }
		return s;
	}
	// A static-local initializer can contain scheduling points; the runtime's own
	// guard would block for real while holding the baton.
	int __cxa_guard_acquire(long long *g)
	{
		if (!active()) return real___cxa_guard_acquire()(g);
		auto b = reinterpret_cast<volatile unsigned char *>(g);
		while (true) {
			if (b[0]) return 0;
			if (!b[1]) { b[1] = 1; return 1; }
			block(g, "static init guard", UINT64_MAX);
		}
	}
	void __cxa_guard_release(long long *g)
	{
		if (!active()) { real___cxa_guard_release()(g); return; }
		auto b = reinterpret_cast<volatile unsigned char *>(g);
		b[1] = 0;
		b[0] = 1;
		for (auto t : s_threads) if (t->state == BLOCKED && t->wait_obj == g) wake(t);
	}
	void __cxa_guard_abort(long long *g)
	{
		if (!active()) { real___cxa_guard_abort()(g); return; }
		auto b = reinterpret_cast<volatile unsigned char *>(g);
		b[1] = 0;
		for (auto t : s_threads) if (t->state == BLOCKED && t->wait_obj == g) wake(t);
	}
}

// ---------------------------------------------------------------- basic block instrumentation
extern "C" {
	void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) { ds::s_fine_available = true; }
	void __sanitizer_cov_trace_pc_guard(uint32_t *)
	{
		if (!ds::s_fine_left || !ds::s_active || !ds::tl_self) return;
		const int e = errno;
		ds::fine_point();
		errno = e;
	}
}
