// A small choice-sequence property-testing engine (Hypothesis style).
//
// A test case is a function of a finite sequence of integer choices.  Random
// generation records the choices; shrinking edits the recorded sequence and
// re-runs.  Each execution happens in a forked child, so crashes, sanitizer
// aborts and hangs of the code under test are observed as outcomes.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

struct Gen
{
	std::vector<uint64_t> used;
	std::vector<uint64_t> forced;
	bool replay = false;
	uint64_t s = 0;

	uint64_t raw()
	{
		s += 0x9E3779B97F4A7C15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	// uniform in [0, n)
	uint64_t draw(uint64_t n)
	{
		uint64_t v;
		if (n <= 1)
			n = 1;
		if (replay) {
			size_t i = used.size();
			v = i < forced.size() ? forced[i] : 0;
			if (v >= n)
				v = n - 1;
		} else
			v = raw() % n;
		used.push_back(v);
		return v;
	}
	// uniform integer in [lo, hi], shrinks to lo
	int range(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo) + 1); }
	// true with probability num/den, shrinks to false
	bool chance(unsigned num, unsigned den)
	{
		return draw(den) >= den - num;
	}
	bool coin() { return draw(2) == 1; }
	// real in [lo, hi] on a grid of k steps, shrinks to lo
	double real(double lo, double hi, unsigned k = 1000)
	{
		return lo + (hi - lo) * ((double)draw(k + 1) / k);
	}
	// symmetric real in [-a, a], shrinks to 0
	double sym(double a, unsigned k = 1000)
	{
		uint64_t v = draw(2 * k + 1);
		double m = (double)((v + 1) / 2) / k;
		return (v & 1) ? -a * m : a * m;
	}
	// log-uniform real in [lo, hi], shrinks to lo
	double logreal(double lo, double hi, unsigned k = 1000)
	{
		double x = std::log(lo) +
		           (std::log(hi) - std::log(lo)) * ((double)draw(k + 1) / k);
		// keep a readable number of digits
		char b[64];
		snprintf(b, sizeof b, "%.4g", std::exp(x));
		return atof(b);
	}
	// weighted pick of index, shrinks to 0
	int weighted(std::initializer_list<int> w)
	{
		int tot = 0;
		for (int x : w)
			tot += x;
		int v = (int)draw(tot), i = 0;
		for (int x : w) {
			if (v < x)
				return i;
			v -= x;
			i++;
		}
		return 0;
	}
	template<class T>
	const T& pick(const std::vector<T>& v)
	{
		return v[draw(v.size())];
	}
};

struct Failure
{
	std::string sig, msg;
};
struct Discard
{
	std::string why;
};

struct Ctx
{
	bool is_nontrivial = false;
	uint64_t evals = 0;
	std::string render;
	std::set<std::string> tags;
	std::map<std::string, double> maxima;
	std::string scratch; // cwd of the case, wiped afterwards
	bool thorough = false;
	uint64_t case_index = 0;

	[[noreturn]] void fail(const char* sig, const char* fmt, ...)
	    __attribute__((format(printf, 3, 4)))
	{
		char b[3000];
		va_list a;
		va_start(a, fmt);
		vsnprintf(b, sizeof b, fmt, a);
		va_end(a);
		throw Failure{ sig, b };
	}
	[[noreturn]] void discard(const char* why) { throw Discard{ why }; }
	void tag(const std::string& t) { tags.insert(t); }
	void nontrivial(bool b = true) { is_nontrivial = is_nontrivial || b; }
	void metric(const char* n, double v)
	{
		double& m = maxima[n];
		if (std::isnan(v) || v > m)
			m = v;
	}
	void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
	{
		char b[4000];
		va_list a;
		va_start(a, fmt);
		vsnprintf(b, sizeof b, fmt, a);
		va_end(a);
		render += b;
	}
};

// Provided by each property
// from now on, the case is discarded when it uses that many seconds of CPU time
void
soft_cpu_limit(double seconds);
extern const char* PROP_ID;
extern const char* PROP_RULE;
extern int PROP_CPU_LIMIT; // CPU seconds per case before it counts as a hang
void run_case(Gen& g, Ctx& c);
