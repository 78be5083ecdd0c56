// C17: an oscillator retuned, reset, checkpointed and restored, over long times
#include "prelude.hh"
#include "complex.hh"
#include "unit_circle.hh"
#include "phasor.hh"
#include "guard.hh"

using namespace sim;

enum { K_RUN = 1, K_TURN, K_OMEGA, K_FREQ, K_RESET, K_SAVE, K_CRASH };
static const char *const kinds[] = { "none", "run", "retune_turn", "retune_omega", "retune_freq", "reset", "save", "crash", nullptr };
enum { P_TYPE, P_PAT };
static const char *const pars[] = { "type", "pattern", nullptr };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	plan.par = { int64_t(index % 4), rng.pick({ 0, 0xff, 0x01, 0x3c }) };
	bool is_long = rng.chance(1, thorough ? 20 : 60);
	int n = is_long ? int(rng.range(2, 6)) : int(rng.scale(2, thorough ? 60 : 25));
	for (int i = 0; i < n; ++i) {
		int what = int(rng.range(0, 13));
		if (i == 0 && rng.chance(3, 4))
			what = int(rng.range(5, 8));
		if (what < 5)
			plan.steps.push_back(Step(K_RUN, is_long ? rng.range(20000, 200000) : rng.scale(1, 400)));
		else if (what < 7) {
			int64_t N = rng.chance(1, 2) ? rng.range(1, 64) : rng.chance(1, 2) ? common_rate(rng) : rng.scale(1, 1000000);
			plan.steps.push_back(Step(K_TURN, rng.range(-N, N), N));
		} else if (what < 8)
			plan.steps.push_back(Step(K_OMEGA, rng.range(-(1 << 20), 1 << 20), rng.range(-20, 3)));
		else if (what < 9)
			plan.steps.push_back(Step(K_FREQ, rng.range(-(1 << 19), 1 << 19), rng.range(-16, 1)));
		else if (what < 10)
			plan.steps.push_back(Step(K_RESET));
		else if (what < 12)
			plan.steps.push_back(Step(K_SAVE, rng.range(0, 1)));
		else
			plan.steps.push_back(Step(K_CRASH, rng.range(0, 1), rng.range(0, 1)));
	}
	repeat(rng, plan, { K_TURN, K_OMEGA, K_FREQ, K_RESET });
	plan.steps.push_back(Step(K_RUN, is_long ? rng.range(20000, 200000) : rng.scale(1, 400)));
}

template <typename C>
static void run(const Plan &plan, Ctx &ctx)
{
	typedef typename C::value_type V;
	typedef DSP::Phasor<C> P;
	typedef std::complex<double> Z;
	uint8_t pat = uint8_t(plan.p(P_PAT));
	const double eps = std::numeric_limits<V>::epsilon();
	std::unique_ptr<Slot<P>> live(new Slot<P>), save[2];
	live->create(pat);
	struct State
	{
		Z next, delta;
		bool exact; // next output is exactly 1
		double fuzz; // how well the step is known
	} m = { 1, 1, true, 0 }, kept[2] = { m, m };
	const double two_pi = 2 * M_PI;
	double worst = 0;
	for (const Step &s : plan.steps) {
		int k = int(s.a[0] & 1);
		switch (s.kind) {
		case K_RUN:
			for (int64_t i = 0; i < s.a[0] && i < 400000; ++i) {
				C c = (**live)();
				Z z(double(c.real()), double(c.imag()));
				++ctx.ticks;
				if (m.exact && z != Z(1, 0))
					ctx.fail("reset-not-one", "first output is %.9g%+.9gi", z.real(), z.imag());
				if (!(std::fabs(std::abs(z) - 1) <= 4 * eps))
					ctx.fail("amplitude-drift", "output %lld has magnitude 1%+.3g", (long long)ctx.ticks, std::abs(z) - 1);
				double off = std::abs(z - m.next);
				worst = std::max(worst, off / eps);
				if (!(off <= 8 * eps + m.fuzz))
					ctx.fail("phase-jump", "output %lld is %.9g%+.9gi, a step from the one before is %.9g%+.9gi", (long long)ctx.ticks, z.real(), z.imag(), m.next.real(), m.next.imag());
				m.next = z * m.delta;
				m.exact = false;
				ctx.progress = true;
			}
			break;
		case K_TURN: {
			int N = int(std::max<int64_t>(1, std::min<int64_t>(s.a[1], 1000000))), n = int(std::max<int64_t>(-N, std::min<int64_t>(s.a[0], N)));
			(*live)->omega(n, N);
			m.delta = std::polar(1., two_pi * n / N);
			m.fuzz = 0;
			break;
		}
		case K_OMEGA: {
			V v = V(std::ldexp(double(s.a[0]), int(s.a[1]) - 20));
			(*live)->omega(v);
			m.delta = std::polar(1., double(v));
			m.fuzz = 0;
			break;
		}
		case K_FREQ: {
			V v = V(std::ldexp(double(s.a[0]), int(s.a[1]) - 20));
			(*live)->freq(v);
			m.delta = std::polar(1., two_pi * double(v));
			m.fuzz = 2 * eps * std::fabs(two_pi * double(v));
			break;
		}
		case K_RESET:
			(*live)->reset();
			ctx.fault("reset", int64_t(ctx.ticks));
			m.next = 1;
			m.exact = true;
			break;
		case K_SAVE:
			save[k].reset(new Slot<P>);
			save[k]->create(uint8_t(~pat), const_cast<const P &>(**live));
			kept[k] = m;
			break;
		case K_CRASH:
			if (!save[k])
				break;
			ctx.fault("crash_and_restore", int64_t(ctx.ticks));
			if (s.a[1]) {
				**live = **save[k];
			} else {
				live.reset(new Slot<P>);
				live->create(pat, const_cast<const P &>(**save[k]));
			}
			m = kept[k];
			break;
		}
		if (s.kind >= K_TURN && s.kind <= K_FREQ)
			ctx.fault("retune", s.a[0], s.a[1]);
		ctx.log("step", s.kind, s.a[0], s.a[1]);
	}
	ctx.count("worst_rounding_units_total", uint64_t(worst));
}

static void execute(const Plan &plan, Ctx &ctx)
{
	switch (plan.p(P_TYPE)) {
	case 0: return run<DSP::Complex<float>>(plan, ctx);
	case 1: return run<DSP::Complex<double>>(plan, ctx);
	case 2: return run<std::complex<float>>(plan, ctx);
	default: return run<std::complex<double>>(plan, ctx);
	}
}

namespace sim {
static const int64_t par_min[] = { 0, 0 };
const Scenario scenario = { "C17", kinds, generate, execute, par_min, 2, pars };
}
