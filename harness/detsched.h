// Deterministic scheduler for pthread programs.
//
// Linking detsched.cc into an executable replaces the pthread mutex, condition
// variable, thread creation/join, sleep, clock and sigwaitinfo entry points.
// After ds::start(), exactly one thread runs at a time, every one of those calls
// is a scheduling point whose outcome comes from a seeded generator, and time is
// virtual: it jumps to the next deadline when no thread can run.  A state where
// no thread can run and no deadline is pending is a proven deadlock of that
// schedule, not a timeout.
#ifndef VERIF_DETSCHED_H
#define VERIF_DETSCHED_H
#include <cstdint>
#include <functional>
#include <string>

namespace ds {
	struct Config {
		uint64_t seed = 0;
		enum Strategy { RANDOM, PCT } strategy = RANDOM;
		unsigned switch_permille = 100;     // RANDOM: chance to switch at each point
		unsigned pct_points = 3;            // PCT: number of priority change points
		uint64_t pct_length = 5000;         // PCT: expected number of steps
		uint64_t max_steps = 20000000;      // beyond this: on_step_limit
		double max_virtual_s = 1e7;
		unsigned fine = 0;                  // mean number of basic blocks between extra switches (0: none)
		uint64_t tick_ns = 1000;            // virtual time that passes at each scheduling point
	};
	// Draw a configuration from pbt choices
	Config draw_config(uint64_t expected_steps);

	void start(const Config &c);
	bool active();
	// Stop scheduling.  Only legal when the caller is the only live thread.
	void stop();

	void point(const char *what = nullptr);  // scheduling point
	uint64_t now_ns();                        // virtual monotonic time
	void advance(uint64_t ns);                // burn virtual time (then a scheduling point)
	void sleep(double s);
	uint64_t steps();
	size_t live_threads();                    // not finished, including caller
	bool others_blocked();                    // no other thread is runnable
	// Wait until no other thread is runnable at the current virtual time
	void wait_idle();
	void post_signal(int sig);
	std::string dump();

	extern std::function<void(const std::string &)> on_deadlock;   // default pbt::fail
	extern std::function<void()> on_step_limit;                    // default pbt::inconclusive
	extern std::function<void(uint64_t)> on_step;                  // called at every scheduling point
	extern double loadavg;                                         // value for getloadavg
	uint64_t rng();                                                // schedule generator
}
#endif
