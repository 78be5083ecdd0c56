// C24: integrators and differentiators, alone and chained, across checkpoints, crashes and restores
#include "prelude.hh"
#include "complex.hh"
#include "calculus.hh"
#include "guard.hh"

using namespace sim;

enum { K_FEED = 1, K_SAVE, K_CRASH, K_SPIKE, K_LOST };
static const char *const kinds[] = { "none", "feed", "save", "crash", "spike", "not_finite", nullptr };
enum { P_TYPE, P_SUM, P_PREV, P_PAT };
static const char *const pars[] = { "type", "initial_sum", "initial_previous", "pattern", nullptr };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	plan.par = { int64_t(index % 6), rng.chance(1, 3) ? 0 : rng.range(-100, 100), rng.chance(1, 3) ? 0 : rng.range(-100, 100), rng.pick({ 0, 0xff, 0x01, 0x3c }) };
	int n = int(rng.scale(2, thorough ? 60 : 25));
	for (int i = 0; i < n; ++i) {
		int what = int(rng.range(0, 9));
		int64_t seed = int64_t(rng.next() >> 1);
		if (what < 4)
			plan.steps.push_back(Step(K_FEED, seed, rng.scale(1, 300), rng.range(0, 3)));
		else if (what == 4)
			plan.steps.push_back(Step(K_SPIKE, seed, rng.scale(1, 30), rng.range(0, 250)));
		else if (what == 5)
			plan.steps.push_back(rng.chance(1, 2) ? Step(K_LOST, seed, rng.scale(1, 10)) : Step(K_FEED, seed, rng.scale(1, 300), rng.range(0, 3)));
		else if (what < 8)
			plan.steps.push_back(Step(K_SAVE, rng.range(0, 1)));
		else
			plan.steps.push_back(Step(K_CRASH, rng.range(0, 1), rng.range(0, 1)));
	}
	repeat(rng, plan);
	stretch(rng, plan, 200, { K_FEED }, 1);
}

template <typename V> struct Kind
{
	typedef long double Wide;
	static V get(Rng &rng, int style)
	{
		// floating point: dyadic values, so that everything stays exact
		double unit = std::numeric_limits<V>::is_integer ? 1 : 1. / 64;
		return V(double(style == 0 ? 0 : style == 1 ? rng.range(-1, 1) : style == 2 ? rng.range(-50, 50) : rng.range(0, 20)) * unit);
	}
	// as large as still exact; away from the sum, so that it stays so
	static V spike(Rng &rng, int64_t size, V sum)
	{
		int top = std::numeric_limits<V>::is_integer ? int(sizeof (V)) * 8 - 4 : std::numeric_limits<V>::digits - 10;
		V v = V(int64_t(1) << (size % top)) - V(rng.range(0, 1));
		return sum > V(0) ? V(-v) : v;
	}
	static double show(V v) { return double(v); }
};
template <typename R> struct Kind<DSP::Complex<R>>
{
	static DSP::Complex<R> get(Rng &rng, int style) { R a = Kind<R>::get(rng, style); return DSP::Complex<R>(a, Kind<R>::get(rng, style)); }
	static DSP::Complex<R> spike(Rng &rng, int64_t size, DSP::Complex<R> sum) { R a = Kind<R>::spike(rng, size, sum.real()); return DSP::Complex<R>(a, Kind<R>::spike(rng, size / 3, sum.imag())); }
	static double show(DSP::Complex<R> v) { return double(v.real()); }
};

template <typename V>
struct Node
{
	DSP::Integrator<V> integ;
	DSP::Differentiator<V> diff;
	// integrate then differentiate, and the other way round
	DSP::Integrator<V> first;
	DSP::Differentiator<V> second;
	DSP::Differentiator<V> third;
	DSP::Integrator<V> fourth;
	// default constructed
	DSP::Integrator<V> zero_integ;
	DSP::Differentiator<V> zero_diff;
};

template <typename V>
static void run(const Plan &plan, Ctx &ctx)
{
	typedef Node<V> N;
	typedef DSP::Integrator<V> I;
	typedef DSP::Differentiator<V> D;
	const V sum0 = V(plan.p(P_SUM)), prev0 = V(plan.p(P_PREV));
	uint8_t pat = uint8_t(plan.p(P_PAT));
	std::unique_ptr<Slot<N>> live(new Slot<N>), save[2];
	live->create(pat, N { I(sum0), D(prev0), I(sum0), D(sum0), D(prev0), I(prev0), I(), D() });
	struct State
	{
		V sum, zero, prev;
		int64_t n;
	} m = { sum0, V(0), prev0, 0 }, kept[2] = { m, m };
	bool any = false;
	for (const Step &s : plan.steps) {
		int k = int(s.a[0] & 1);
		Rng rng(uint64_t(s.a[0]));
		switch (s.kind) {
		case K_SPIKE:
			ctx.fault("spikes", s.a[1], s.a[2]);
			// fall through
		case K_FEED:
			for (int64_t i = 0; i < s.a[1] && i < 150000; ++i) {
				V x = s.kind == K_SPIKE ? Kind<V>::spike(rng, std::abs(s.a[2]), m.sum) : Kind<V>::get(rng, int(s.a[2]));
				N &n = **live;
				++ctx.ticks;
				m.sum = V(m.sum + x);
				m.zero = V(m.zero + x);
				V got = n.integ(x), zero = n.zero_integ(x);
				if (!(got == m.sum) || !(zero == m.zero))
					ctx.fail("wrong-sum", "sample %lld: integrators return %.9g and %.9g, want %.9g and %.9g", (long long)m.n, Kind<V>::show(got), Kind<V>::show(zero), Kind<V>::show(m.sum), Kind<V>::show(m.zero));
				V d = n.diff(x), want = V(x - m.prev), zd = n.zero_diff(x), zwant = m.n ? want : V(x - V(0));
				if (!(d == want) || !(zd == zwant))
					ctx.fail("wrong-difference", "sample %lld: differentiators return %.9g and %.9g, want %.9g and %.9g", (long long)m.n, Kind<V>::show(d), Kind<V>::show(zd), Kind<V>::show(want), Kind<V>::show(zwant));
				V a = n.second(n.first(x)), b = n.fourth(n.third(x));
				if (!(a == x) || !(b == x))
					ctx.fail("chain-differs", "sample %lld: chains return %.9g and %.9g for %.9g", (long long)m.n, Kind<V>::show(a), Kind<V>::show(b), Kind<V>::show(x));
				m.prev = x;
				++m.n;
				any = true;
			}
			break;
		case K_SAVE:
			save[k].reset(new Slot<N>);
			save[k]->create(uint8_t(~pat), const_cast<const N &>(**live));
			kept[k] = m;
			break;
		case K_CRASH:
			if (!save[k])
				break;
			ctx.fault("crash_and_restore", m.n, kept[k].n);
			if (s.a[1]) {
				**live = **save[k];
			} else {
				live.reset(new Slot<N>);
				live->create(pat, const_cast<const N &>(**save[k]));
			}
			m = kept[k];
			break;
		}
		ctx.log("step", s.kind, m.n, s.a[0]);
	}
	ctx.progress = any;
}

// noisy floating point samples: the errors of the integrator may only grow with the rounding of its sums
template <typename V>
static void rounded(const Plan &plan, Ctx &ctx)
{
	typedef DSP::Integrator<V> I;
	typedef DSP::Differentiator<V> D;
	const V sum0 = V(plan.p(P_SUM)) / 7, prev0 = V(plan.p(P_PREV)) / 7;
	I integ(sum0), save_i[2];
	D diff(prev0), back(sum0), save_d[2], save_b[2];
	struct State
	{
		long double sum, tol;
		V prev, last;
		int64_t n;
	} m = { sum0, 0, prev0, sum0, 0 }, kept[2] = { m, m };
	bool has[2] = { false, false };
	const long double eps = std::numeric_limits<V>::epsilon();
	for (const Step &s : plan.steps) {
		int k = int(s.a[0] & 1);
		Rng rng(uint64_t(s.a[0]));
		if (s.kind == K_LOST) {
			// to the differentiator only: an integrator has nothing to forget them with
			ctx.fault("not_finite", s.a[1]);
			for (int64_t i = 0; i < s.a[1] && i < 1000; ++i) {
				V x = rng.chance(1, 2) ? std::numeric_limits<V>::quiet_NaN() : rng.chance(1, 2) ? std::numeric_limits<V>::infinity() : rng.chance(1, 2) ? -std::numeric_limits<V>::infinity() : V(1);
				V d = diff(x), want = V(x - m.prev);
				if (!(d == want || (d != d && want != want)))
					ctx.fail("wrong-difference", "after sample %lld: differentiator returns %.9g, want %.9g", (long long)m.n, double(d), double(want));
				m.prev = x;
				++ctx.ticks;
			}
		} else if (s.kind == K_FEED || s.kind == K_SPIKE) {
			if (s.kind == K_SPIKE)
				ctx.fault("spikes", s.a[1], s.a[2]);
			for (int64_t i = 0; i < s.a[1] && i < 150000; ++i) {
				V x = V(std::ldexp(rng.unit() - 0.5, s.kind == K_SPIKE ? int(std::abs(s.a[2]) % 251) - 125 : int(s.a[2]) * 4));
				if (s.kind == K_SPIKE && (x > 0) == (m.last > 0))
					x = -x;
				++ctx.ticks;
				m.sum += x;
				V y = integ(x), d = diff(x), b = back(y);
				m.tol += eps * (std::fabs(m.sum) + std::fabs((long double)x));
				if (!(std::fabs(y - m.sum) <= m.tol))
					ctx.fail("wrong-sum", "sample %lld: integrator returns %.9g, want %.9Lg within %.3Lg", (long long)m.n, double(y), m.sum, m.tol);
				if (!(d == V(x - m.prev) || (d != d && V(x - m.prev) != V(x - m.prev))))
					ctx.fail("wrong-difference", "sample %lld: differentiator returns %.9g, want %.9g", (long long)m.n, double(d), double(V(x - m.prev)));
				if (!(b == V(y - m.last)))
					ctx.fail("wrong-difference", "sample %lld: differentiator returns %.9g, want %.9g", (long long)m.n, double(b), double(V(y - m.last)));
				if (!(std::fabs((long double)b - x) <= 2 * eps * (std::fabs((long double)y) + std::fabs((long double)m.last) + std::fabs((long double)x))))
					ctx.fail("chain-differs", "sample %lld: chain returns %.9g for %.9g", (long long)m.n, double(b), double(x));
				m.prev = x;
				m.last = y;
				++m.n;
				ctx.progress = true;
			}
		} else if (s.kind == K_SAVE) {
			save_i[k] = integ;
			save_d[k] = diff;
			save_b[k] = back;
			kept[k] = m;
			has[k] = true;
		} else if (s.kind == K_CRASH && has[k]) {
			ctx.fault("crash_and_restore", m.n, kept[k].n);
			integ = I(save_i[k]);
			diff = D(save_d[k]);
			back = D(save_b[k]);
			m = kept[k];
		}
		ctx.log("step", s.kind, m.n, s.a[0]);
	}
}

static void execute(const Plan &plan, Ctx &ctx)
{
	switch (plan.p(P_TYPE)) {
	case 0: return run<int>(plan, ctx);
	case 1: return run<int64_t>(plan, ctx);
	case 2: return run<double>(plan, ctx);
	case 3: return run<DSP::Complex<float>>(plan, ctx);
	case 4: return rounded<float>(plan, ctx);
	default: return rounded<double>(plan, ctx);
	}
}

namespace sim {
static const int64_t par_min[] = { 0, -100, -100, 0 };
const Scenario scenario = { "C24", kinds, generate, execute, par_min, 4, pars };
}
