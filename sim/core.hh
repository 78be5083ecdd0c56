/*
Core of the simulator: one PRNG, explicit plans, event log, counters.

A *plan* is the complete, explicit description of one simulated execution: parameters, workload
operations, faults and scheduling decisions. generate(seed) -> plan is the only place that draws
random numbers; execute(plan) is a pure function of the plan and the code under test. So one seed is
one execution, a replay file is just a plan, and minimisation is deleting and shrinking plan steps.
*/

#pragma once

#include <algorithm>
#include <initializer_list>
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <map>

namespace sim {

struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t seed = 0) : s(seed) {}
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	// uniform in [lo, hi]
	int64_t range(int64_t lo, int64_t hi)
	{
		return hi <= lo ? lo : lo + int64_t(next() % (uint64_t(hi - lo) + 1));
	}
	bool chance(int num, int den) { return int64_t(next() % uint64_t(den)) < num; }
	double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
	// log-uniform-ish in [lo, hi], lo >= 0
	int64_t scale(int64_t lo, int64_t hi)
	{
		if (hi <= lo)
			return lo;
		int bits = 0;
		while ((hi - lo) >> bits)
			++bits;
		int b = int(range(0, bits));
		int64_t v = lo + (b ? int64_t(next() & ((uint64_t(1) << b) - 1)) : 0);
		return v > hi ? hi : v;
	}
	template <typename T, int N>
	T pick(const T (&a)[N]) { return a[next() % N]; }
};

static inline uint64_t mix(uint64_t a, uint64_t b)
{
	Rng r(a ^ (b * 0xD6E8FEB86659FD93ull + 0x2545F4914F6CDD1Dull));
	r.next();
	return r.next();
}

struct Step
{
	int kind = 0;
	int64_t a[6] = { 0, 0, 0, 0, 0, 0 };
	Step() = default;
	Step(int kind, int64_t a0 = 0, int64_t a1 = 0, int64_t a2 = 0, int64_t a3 = 0, int64_t a4 = 0, int64_t a5 = 0) : kind(kind)
	{
		a[0] = a0; a[1] = a1; a[2] = a2; a[3] = a3; a[4] = a4; a[5] = a5;
	}
};

struct Plan
{
	std::vector<int64_t> par;
	std::vector<Step> steps;
	int64_t p(size_t i) const { return i < par.size() ? par[i] : 0; }
};

// sample rates people use
inline int64_t common_rate(Rng &rng)
{
	static const int rates[] = { 8000, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 88200, 96000, 176400, 192000 };
	return rng.pick(rates);
}

// puts copies of earlier steps of these kinds (of all kinds, if none is given) further down the plan,
// so that histories come back to where they were before
inline void repeat(Rng &rng, Plan &plan, std::initializer_list<int> kinds = {})
{
	if (rng.chance(1, 2))
		return;
	std::vector<size_t> at;
	for (size_t i = 0; i < plan.steps.size(); ++i)
		if (!kinds.size() || std::find(kinds.begin(), kinds.end(), plan.steps[i].kind) != kinds.end())
			at.push_back(i);
	for (int64_t n = at.empty() ? 0 : rng.range(1, 3); n > 0; --n) {
		size_t from = at[size_t(rng.range(0, int64_t(at.size()) - 1))];
		size_t to = size_t(rng.range(int64_t(from) + 1, int64_t(plan.steps.size())));
		Step s = plan.steps[from];
		plan.steps.insert(plan.steps.begin() + ptrdiff_t(to), s);
		for (size_t &i : at)
			if (i >= to)
				++i;
	}
}

// seldom makes one step of these kinds long enough for a counter of 16 bits to wrap
inline void stretch(Rng &rng, Plan &plan, int one_in, std::initializer_list<int> kinds, int arg)
{
	if (!rng.chance(1, one_in))
		return;
	std::vector<size_t> at;
	for (size_t i = 0; i < plan.steps.size(); ++i)
		if (std::find(kinds.begin(), kinds.end(), plan.steps[i].kind) != kinds.end())
			at.push_back(i);
	if (!at.empty())
		plan.steps[at[size_t(rng.range(0, int64_t(at.size()) - 1))]].a[arg] = rng.range(66000, 140000);
}

struct Violation
{
	std::string cls, msg;
};

struct Ctx
{
	uint64_t hash = 0xcbf29ce484222325ull;
	uint64_t events = 0;
	uint64_t sig = 0x9ae16a3b2f90404full; // faults and scheduling decisions only, without data
	bool verbose = false;
	uint64_t ticks = 0; // simulated steps: samples, system calls, operations
	bool progress = false; // useful work was done
	int faults = 0; // faults that actually fired
	std::map<std::string, uint64_t> *counters = nullptr;
	void fold(uint64_t v)
	{
		hash = (hash ^ v) * 0x100000001b3ull;
		hash ^= hash >> 29;
	}
	void log(const char *what, int64_t a = 0, int64_t b = 0, int64_t c = 0)
	{
		++events;
		for (const char *p = what; *p; ++p)
			fold(uint8_t(*p));
		fold(uint64_t(a)); fold(uint64_t(b)); fold(uint64_t(c));
		if (verbose)
			printf("  [%llu] %s %lld %lld %lld\n", (unsigned long long)events, what, (long long)a, (long long)b, (long long)c);
	}
	// a fault fired or a task switch was taken
	void decide(const char *what, int64_t a, int64_t b)
	{
		for (const char *p = what; *p; ++p)
			sig = (sig ^ uint8_t(*p)) * 0x100000001b3ull;
		sig = (sig ^ uint64_t(a)) * 0x100000001b3ull;
		sig = (sig ^ uint64_t(b)) * 0x100000001b3ull;
		sig ^= sig >> 31;
	}
	void count(const std::string &name, uint64_t n = 1)
	{
		if (counters)
			(*counters)[name] += n;
	}
	void fault(const char *name, int64_t a = 0, int64_t b = 0)
	{
		++faults;
		count(std::string("fault.") + name);
		log(name, a, b);
		decide(name, a, b);
	}
	[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)))
	{
		char buf[1024];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		for (char *p = buf; *p; ++p)
			if (*p < 32 || *p > 126)
				*p = '?';
		throw Violation { cls, buf };
	}
};

// one scenario per property, provided by the property's translation unit
struct Scenario
{
	const char *id;
	// names of step kinds, for readable replay files; null-terminated
	const char *const *kinds;
	void (*generate)(Rng &, Plan &, bool thorough, uint64_t index);
	void (*execute)(const Plan &, Ctx &);
	// smallest value a parameter may be shrunk to (null: 0 for all)
	const int64_t *par_min;
	int par_min_n;
	// names of parameters, null-terminated
	const char *const *pars;
};

extern const Scenario scenario;

// fills the unused stack below the caller with a pattern, so that uninitialised locals of the code
// under test are a function of the plan and not of what ran before
void scribble_stack(uint8_t pattern);

}
