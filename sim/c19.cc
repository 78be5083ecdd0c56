// C19: long histories into compensated sums and moving averages, against the exactly computed sum
#include "prelude.hh"
using std::abs;
#include "kahan.hh"
#include "sma.hh"
#include "guard.hh"

using namespace sim;

typedef __float128 Exact;

enum { K_FEED = 1, K_SAME, K_RANGE, K_SAVE, K_CRASH };
static const char *const kinds[] = { "none", "feed", "same", "range", "save", "crash", nullptr };
enum { P_TYPE, P_WHAT, P_INIT, P_PAT };
static const char *const pars[] = { "type", "component", "init", "pattern", nullptr };
enum { S_CONST, S_POS, S_NOISE, S_BURST, S_SHRINK, S_ALT, NSTYLE };
enum { W_KAHAN, W_SUM1, W_AVG8, W_SUM8, W_AVG100, W_SUM100, W_SUM1000, W_AVG1, W_AVG2, W_SUM3, W_AVG5, W_SUM16, W_AVG64, W_SUM255, W_AVG256, NWHAT };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	int64_t what = index % 2 ? W_KAHAN : rng.range(W_SUM1, NWHAT - 1);
	plan.par = { rng.range(0, 1), what, rng.chance(1, 2) ? 0 : rng.range(-1000, 1000), rng.pick({ 0, 0xff, 0x01, 0x3c }) };
	bool is_long = rng.chance(1, thorough ? 10 : 25);
	int n = is_long ? int(rng.range(1, 3)) : int(rng.scale(2, thorough ? 40 : 16));
	int64_t style = rng.range(0, NSTYLE - 1);
	for (int i = 0; i < n; ++i) {
		int k = int(rng.range(0, 11));
		int64_t seed = int64_t(rng.next() >> 1);
		if (k < 6 || is_long)
			plan.steps.push_back(Step(K_FEED, seed, is_long ? rng.range(5000, 60000) : rng.scale(1, 1500), rng.chance(1, 4) ? rng.range(0, NSTYLE - 1) : style, rng.range(-10, 10)));
		else if (k < 8)
			plan.steps.push_back(Step(K_SAME, seed, rng.range(0, 5)));
		else if (k < 9)
			plan.steps.push_back(Step(K_RANGE, seed, rng.scale(0, 200), rng.range(0, NSTYLE - 1), rng.range(-1000, 1000)));
		else if (k < 10)
			plan.steps.push_back(Step(K_SAVE, rng.range(0, 1)));
		else
			plan.steps.push_back(Step(K_CRASH, rng.range(0, 1), rng.range(0, 1)));
	}
	repeat(rng, plan);
}

template <typename V>
static V sample(Rng &rng, int style, int64_t i, int e)
{
	double v;
	switch (style) {
	case S_CONST: v = 0.1; break;
	case S_POS: v = 0.5 + 0.5 * rng.unit(); break;
	case S_NOISE: v = 1.5 + 0.5 * rng.unit(); break;
	case S_BURST: v = i % 97 == 50 ? std::ldexp(rng.unit() - 0.5, 24) : rng.unit() - 0.3; break;
	case S_SHRINK: v = 1.0 / double((i + 1) * (i + 1)); break;
	default: v = (i & 1 ? -1 : 1) * (0.25 + rng.unit()); break;
	}
	return V(std::ldexp(v, e));
}

// what is known about the sum so far
struct State
{
	Exact sum = 0;
	double peak = 0; // largest |sum|
	double terms = 0; // sum of |terms|
	double square = 0; // sum of squared terms
	bool regular = true; // noisy terms below the sum only: their rounding behaves like a random walk
	int64_t n = 0;
	void add(Exact x)
	{
		double a = std::fabs(double(x)), s = std::fabs(double(sum));
		if (n && a > s)
			regular = false;
		sum += x;
		peak = std::max(peak, std::fabs(double(sum)));
		peak = std::max(peak, a);
		terms += a;
		square += a * a;
		++n;
	}
	double tolerance(double eps) const
	{
		double t = eps * terms;
		if (regular)
			t = std::min(t, 4 * eps * std::sqrt(square));
		return 2 * eps * peak + t + 1e-35;
	}
};

template <typename V>
static void check(Ctx &ctx, const State &m, V got, Exact div, const char *what)
{
	double eps = std::numeric_limits<V>::epsilon();
	double want = double(m.sum / div), err = std::fabs(double(Exact(got) - m.sum / div)), tol = m.tolerance(eps) / double(div) + eps * std::fabs(want);
	if (!(err <= tol))
		ctx.fail("drift", "%s after %lld terms is %.17g, exactly %.17g, off by %.3g, allowed %.3g", what, (long long)m.n, double(got), want, err, tol);
}

template <typename V>
static void running(const Plan &plan, Ctx &ctx)
{
	typedef DSP::Kahan<V> OBJ;
	uint8_t pat = uint8_t(plan.p(P_PAT));
	const double eps = std::numeric_limits<V>::epsilon();
	std::unique_ptr<Slot<OBJ>> live(new Slot<OBJ>), save[2];
	State m, kept[2];
	V init = V(V(plan.p(P_INIT)) / V(7));
	if (plan.p(P_INIT)) {
		live->create(pat, init);
		m.add(Exact(init));
	} else {
		live->create(pat);
	}
	check(ctx, m, (**live)(), 1, "new sum");
	for (const Step &s : plan.steps) {
		int k = int(s.a[0] & 1);
		Rng rng(uint64_t(s.a[0]));
		int style = int(uint64_t(s.a[2]) % NSTYLE), e = int(s.a[3]) % 11;
		switch (s.kind) {
		case K_FEED: {
			if (style != S_NOISE && style != S_POS)
				m.regular = false;
			for (int64_t i = 0; i < s.a[1] && i < 200000; ++i) {
				V x = sample<V>(rng, style, i, e);
				m.add(Exact(x));
				V got = (**live)(x);
				check(ctx, m, got, 1, "sum");
				if (!((**live)() == got))
					ctx.fail("value-differs", "reading the sum gives %.9g, the last addition returned %.9g", double((**live)()), double(got));
				++ctx.ticks;
			}
			ctx.progress = true;
			break;
		}
		case K_SAME: {
			V before = (**live)();
			double scale = std::max(std::fabs(double(m.sum)), double(std::numeric_limits<V>::min()) * 1e9);
			double f[] = { 0, 1, eps * 4, eps / 8, eps * eps / 64, 1e-3 };
			V x = V(f[uint64_t(s.a[1]) % 6] * scale * (rng.chance(1, 2) ? 1 : -1));
			OBJ twin(const_cast<const OBJ &>(**live));
			if (!(twin == **live))
				ctx.fail("copy-differs", "a copy of the sum does not compare equal");
			bool same = (*live)->same(x);
			m.add(Exact(x));
			V after = (**live)();
			if (same && !(after == before))
				ctx.fail("same-wrong", "adding %.9g to %.9g made it %.9g and was reported as no change", double(x), double(before), double(after));
			if (same && std::fabs(double(x)) > 16 * eps * eps * std::max(scale, std::fabs(double(before))))
				ctx.fail("same-wrong", "adding %.9g to %.9g was reported as no change at all", double(x), double(before));
			twin(x);
			if (!(twin == **live))
				ctx.fail("same-differs", "asking whether %.9g changes the sum did not add it like an ordinary addition", double(x));
			check(ctx, m, after, 1, "sum");
			ctx.count(same ? "state.no_change" : "state.change");
			++ctx.ticks;
			break;
		}
		case K_RANGE: {
			std::vector<V> x;
			for (int64_t i = 0; i < s.a[1] && i < 1000; ++i)
				x.push_back(sample<V>(rng, style, i, 0));
			V from = V(V(s.a[3]) / V(7));
			OBJ one(from);
			State r;
			r.regular = false;
			r.add(Exact(from));
			for (V v : x) {
				one(v);
				r.add(Exact(v));
			}
			V got = DSP::kahan_sum(x.data(), x.data() + x.size(), from);
			check(ctx, r, got, 1, "sum of a range");
			if (!(got == one()))
				ctx.fail("range-differs", "sum of a range is %.17g, one by one %.17g", double(got), double(one()));
			ctx.ticks += x.size();
			break;
		}
		case K_SAVE:
			save[k].reset(new Slot<OBJ>);
			save[k]->create(uint8_t(~pat), const_cast<const OBJ &>(**live));
			kept[k] = m;
			break;
		case K_CRASH:
			if (!save[k])
				break;
			ctx.fault("crash_and_restore", m.n, kept[k].n);
			if (s.a[1]) {
				**live = **save[k];
			} else {
				live.reset(new Slot<OBJ>);
				live->create(pat, const_cast<const OBJ &>(**save[k]));
			}
			m = kept[k];
			break;
		}
		if (s.kind == K_FEED && style == S_BURST)
			ctx.fault("burst", s.a[1]);
		ctx.log("step", s.kind, m.n, s.a[0]);
	}
	ctx.count("state.running_sum");
}

template <typename V, int N, bool NORM>
static void moving(const Plan &plan, Ctx &ctx)
{
	typedef DSP::SMA3<V, V, N, NORM> OBJ;
	uint8_t pat = uint8_t(plan.p(P_PAT));
	std::unique_ptr<Slot<OBJ>> live(new Slot<OBJ>), save[2];
	struct All
	{
		State m;
		std::vector<V> x;
	} a, kept[2];
	live->create(pat);
	for (const Step &s : plan.steps) {
		int k = int(s.a[0] & 1);
		Rng rng(uint64_t(s.a[0]));
		int style = int(uint64_t(s.a[2]) % NSTYLE), e = int(s.a[3]) % 11;
		switch (s.kind) {
		case K_FEED:
			if (style != S_NOISE && style != S_POS)
				a.m.regular = false;
			for (int64_t i = 0; i < s.a[1] && i < 200000; ++i) {
				V x = sample<V>(rng, style, i, e);
				V old = a.x.size() >= N ? a.x[a.x.size() - N] : V(0);
				a.x.push_back(x);
				a.m.add(-Exact(old));
				a.m.add(Exact(x));
				V got = (**live)(x);
				check(ctx, a.m, got, NORM ? N : 1, "moving average");
				++ctx.ticks;
			}
			ctx.progress = true;
			break;
		case K_SAVE:
			save[k].reset(new Slot<OBJ>);
			save[k]->create(uint8_t(~pat), const_cast<const OBJ &>(**live));
			kept[k] = a;
			break;
		case K_CRASH:
			if (!save[k])
				break;
			ctx.fault("crash_and_restore", a.m.n, kept[k].m.n);
			if (s.a[1]) {
				**live = **save[k];
			} else {
				live.reset(new Slot<OBJ>);
				live->create(pat, const_cast<const OBJ &>(**save[k]));
			}
			a = kept[k];
			break;
		}
		if (s.kind == K_FEED && style == S_BURST)
			ctx.fault("burst", s.a[1]);
		ctx.log("step", s.kind, a.m.n, s.a[0]);
	}
	ctx.count("state.moving_average");
}

template <typename V>
static void typed(const Plan &plan, Ctx &ctx)
{
	switch (plan.p(P_WHAT)) {
	case W_KAHAN: return running<V>(plan, ctx);
	case W_SUM1: return moving<V, 1, false>(plan, ctx);
	case W_AVG8: return moving<V, 8, true>(plan, ctx);
	case W_SUM8: return moving<V, 8, false>(plan, ctx);
	case W_AVG100: return moving<V, 100, true>(plan, ctx);
	case W_SUM100: return moving<V, 100, false>(plan, ctx);
	case W_AVG1: return moving<V, 1, true>(plan, ctx);
	case W_AVG2: return moving<V, 2, true>(plan, ctx);
	case W_SUM3: return moving<V, 3, false>(plan, ctx);
	case W_AVG5: return moving<V, 5, true>(plan, ctx);
	case W_SUM16: return moving<V, 16, false>(plan, ctx);
	case W_AVG64: return moving<V, 64, true>(plan, ctx);
	case W_SUM255: return moving<V, 255, false>(plan, ctx);
	case W_AVG256: return moving<V, 256, true>(plan, ctx);
	default: return moving<V, 1000, false>(plan, ctx);
	}
}

static void execute(const Plan &plan, Ctx &ctx)
{
	if (plan.p(P_TYPE))
		typed<double>(plan, ctx);
	else
		typed<float>(plan, ctx);
}

namespace sim {
static const int64_t par_min[] = { 0, 0, -1000, 0 };
const Scenario scenario = { "C19", kinds, generate, execute, par_min, 4, pars };
}
