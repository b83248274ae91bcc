// Stands in for the test runner: draws come from a fixed sequence, a failure ends the program.
#include "pbt.h"
#include <cstdio>
#include <unistd.h>
#include <sys/syscall.h>
namespace pbt {
	static Rng g(1);
	void stub_seed(uint64_t s) { g = Rng(s); }
	uint64_t Rng::next()
	{
		s += 0x9E3779B97F4A7C15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t draw(uint64_t max) { return max == UINT64_MAX ? g.next() : g.next() % (max + 1); }
	int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(draw(uint64_t(hi - lo))); }
	bool chance(uint64_t num, uint64_t den) { return draw(den - 1) < num; }
	size_t weighted(const std::vector<unsigned> &w)
	{
		uint64_t t = 0;
		for (auto i : w) t += i;
		uint64_t d = draw(t - 1);
		for (size_t i = 0; i < w.size(); ++i) { if (d < w[i]) return i; d -= w[i]; }
		return 0;
	}
	uint64_t edgy(uint64_t max) { return draw(max); }
	void label(const char *) { }
	void count(const char *, uint64_t) { }
	void nontrivial() { }
	void describe(const std::string &) { }
	bool describing() { return false; }
	static int report = 2;
	void stub_report_to(int fd) { report = fd; }
	static void out(const char *k, const std::string &m, int code)
	{
		const std::string s = std::string(k) + m + "\n";
		syscall(SYS_write, report, s.data(), s.size());
		syscall(SYS_exit_group, code);
		__builtin_unreachable();
	}
	void fail(const std::string &m) { out("FAILED: ", m, 77); __builtin_unreachable(); }
	void known(const std::string &k, const std::string &m) { out("FAILED: ", k + m, 77); __builtin_unreachable(); }
	void inconclusive(const std::string &m) { out("NOT JUDGED: ", m, 78); __builtin_unreachable(); }
}
