// Minimal property-based testing runtime.
//
// A test case is a pure function of a sequence of bounded choices.  During
// generation the choices come from a PRNG seeded by (VERIF_SEED, scenario, case
// number); during shrinking and replay they come from a recorded list.  Every
// random decision of a harness -- input data, operation sequence, fault
// placement and (through detsched) thread schedule -- is drawn here, so one
// choice list reproduces a case exactly.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H

#include <cstdint>
#include <functional>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

	// Uniform in [0, max]
	uint64_t draw(uint64_t max);
	// Uniform in [lo, hi]
	int64_t range(int64_t lo, int64_t hi);
	// True with probability num/den; shrinks toward false
	bool chance(uint64_t num, uint64_t den);
	// Index chosen by weight
	size_t weighted(const std::vector<unsigned> &weights);
	template <class T> const T &pick(const std::vector<T> &v) { return v.at(draw(v.size() - 1)); }
	// An integer with interesting boundary values over-represented, in [0, max]
	uint64_t edgy(uint64_t max);

	// A separate deterministic stream seeded by one draw (for bulk data)
	struct Rng {
		uint64_t s;
		explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
		uint64_t next();
		uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	};

	void label(const char *name);       // per-case classification (counted once per case)
	void count(const char *name, uint64_t n = 1);  // accumulated counter
	void nontrivial();                  // this case satisfies the rule
	void describe(const std::string &s);// appended to the case description
	bool describing();                  // description is wanted (samples/replay)
	[[noreturn]] void fail(const std::string &msg);
	// This case is an instance of a listed known finding (known-findings file)
	[[noreturn]] void known(const std::string &key, const std::string &msg);
	// This case cannot be judged (harness resource limit)
	[[noreturn]] void inconclusive(const std::string &msg);

	struct Scenario {
		const char *name;
		std::function<void()> run;
		unsigned quick;       // number of cases in quick tier
		unsigned thorough;    // number of cases in thorough tier
		bool fork_each;       // fresh process for each case
		double hang_s;        // watchdog; 0 = default 60
	};

	struct Property {
		std::string id;
		std::string level;
		std::string rule;
		std::vector<std::string> assumptions;
		std::vector<Scenario> scenarios;
	};

	int run_main(int argc, char **argv, std::vector<Property> props);
	std::string scratch_dir();            // per-process private directory (under build/scratch)
	const char *tier();                   // quick/thorough
	void install_crash_handlers();

	struct Msg {
		std::ostringstream os;
		template <class T> Msg &operator<<(const T &t) { os << t; return *this; }
		operator std::string() const { return os.str(); }
	};
}

#define PBT_FAIL(x) do { ::pbt::Msg _m; _m << x; ::pbt::fail(_m.os.str()); } while (0)
#define PBT_CHECK(c, x) do { if (!(c)) { ::pbt::Msg _m; _m << #c << " is false: " << x; ::pbt::fail(_m.os.str()); } } while (0)
#define PBT_EQ(a, b, x) do { auto _a = (a); auto _b = (b); if (!(_a == _b)) { ::pbt::Msg _m; _m << #a << " = " << _a << " but " << #b << " = " << _b << ": " << x; ::pbt::fail(_m.os.str()); } } while (0)
#define PBT_DESC(x) do { if (::pbt::describing()) { ::pbt::Msg _m; _m << x; ::pbt::describe(_m.os.str()); } } while (0)

#endif
