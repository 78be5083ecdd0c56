// C16: a stream between two drifting sample clocks through the sample-by-sample resampler
#include "prelude.hh"
#include "complex.hh"
#include "resampler.hh"
#include "guard.hh"
#include "prototype.hh"

using namespace sim;

enum { K_STEADY = 1, K_DRIFT, K_JITTER, K_SAVE, K_CRASH, K_EDGE };
static const char *const kinds[] = { "none", "steady", "drift", "jitter", "save", "crash", "edge", nullptr };
enum { P_TYPE, P_RATE, P_CUT, P_ALPHA, P_SIGNAL, P_PAT, P_LEVEL };
static const char *const pars[] = { "type", "rate", "cutoff_percent", "alpha", "signal", "pattern", "level_exponent", nullptr };
enum { NTYPE = 16 };

// offsets are in millionths of the rate
static int64_t offset(Rng &rng)
{
	switch (rng.range(0, 5)) {
	case 0: return 0;
	case 1: return rng.range(-200, 200);
	case 2: return rng.range(-5000, 5000);
	case 3: return rng.range(-100000, 100000);
	case 4: return rng.chance(1, 2) ? 499000 : -499000;
	default: return rng.range(-499000, 499000);
	}
}

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	plan.par = { int64_t(index % NTYPE), rng.chance(1, 2) ? common_rate(rng) : rng.scale(1, 192000), rng.range(5, 50), rng.range(0, 4), rng.range(0, 3), rng.pick({ 0, 0xff, 0x01, 0x3c }), rng.chance(1, 2) ? 0 : rng.range(-40, 40) };
	bool is_long = rng.chance(1, thorough ? 20 : 60);
	int n = int(rng.scale(1, thorough ? 30 : 12));
	for (int i = 0; i < n; ++i) {
		int what = int(rng.range(0, 11));
		int64_t len = is_long ? rng.range(1000, 20000) : rng.scale(1, 300);
		if (what < 4)
			plan.steps.push_back(Step(K_STEADY, len, offset(rng)));
		else if (what < 6)
			plan.steps.push_back(Step(K_DRIFT, len, offset(rng), offset(rng)));
		else if (what < 8)
			plan.steps.push_back(Step(K_JITTER, len, int64_t(rng.next() >> 1), std::abs(offset(rng))));
		else if (what < 9)
			plan.steps.push_back(Step(K_EDGE, len, rng.range(1, 40)));
		else if (what < 10)
			plan.steps.push_back(Step(K_SAVE, rng.range(0, 1)));
		else
			plan.steps.push_back(Step(K_CRASH, rng.range(0, 1), rng.range(0, 1)));
	}
	repeat(rng, plan);
	stretch(rng, plan, 200, { K_STEADY, K_DRIFT, K_JITTER }, 0);
}

template <typename V> struct Io
{
	static V make(double a, double) { return V(a); }
	static std::complex<double> get(V v) { return double(v); }
};
template <typename R> struct Io<DSP::Complex<R>>
{
	static DSP::Complex<R> make(double a, double b) { return DSP::Complex<R>(R(a), R(b)); }
	static std::complex<double> get(DSP::Complex<R> v) { return std::complex<double>(double(v.real()), double(v.imag())); }
};

template <typename V, typename IO, int TAPS, int OVER>
static void run(const Plan &plan, Ctx &ctx)
{
	typedef DSP::Resampler2<V, IO, TAPS, OVER> OBJ;
	typedef std::complex<double> Z;
	uint8_t pat = uint8_t(plan.p(P_PAT));
	const double eps = std::numeric_limits<V>::epsilon();
	V rate = V(std::max<int64_t>(1, plan.p(P_RATE)));
	V cut = rate * V(std::max<int64_t>(1, std::min<int64_t>(50, plan.p(P_CUT)))) / V(100);
	V alpha = V(std::max<int64_t>(0, std::min<int64_t>(4, plan.p(P_ALPHA))));
	std::unique_ptr<Slot<OBJ>> live(new Slot<OBJ>), save[2];
	live->create(pat, rate, cut, alpha);
	const Prototype proto(TAPS, OVER, double(cut) / double(rate), double(alpha));
	struct State
	{
		std::vector<Z> x;
		long double total = 0; // accumulated offset of the outputs
		double pos = 0; // fractional position
		int64_t in = 0, out = 0;
		double step = 0; // largest offset so far
	} m, kept[2];
	m.x.assign(TAPS, Z(0));
	const double level = std::ldexp(1., int(std::max<int64_t>(-40, std::min<int64_t>(40, plan.p(P_LEVEL)))));
	auto feed = [&](Rng &rng, int64_t i, int64_t ppm) {
		ppm = std::max<int64_t>(-499000, std::min<int64_t>(499000, ppm));
		V diff = V(double(rate) * double(ppm) / 1e6);
		double a, b;
		switch (plan.p(P_SIGNAL)) {
		case 0: a = std::cos(0.3 * double(i)); b = std::sin(0.3 * double(i)); break;
		case 1: a = rng.unit() * 2 - 1; b = rng.unit() * 2 - 1; break;
		case 2: a = i % 50 == 7; b = i % 41 == 3; break;
		default: a = b = 1;
		}
		IO input = Io<IO>::make(a * level, b * level);
		IO out[8];
		const IO mark = Io<IO>::make(12345.f, 54321.f);
		for (IO &o : out)
			o = mark;
		int n = (**live)(out, input, diff);
		++ctx.ticks;
		++m.in;
		m.x.erase(m.x.begin());
		m.x.push_back(Io<IO>::get(input));
		if (n < 0 || n > 2)
			ctx.fail("wrong-count", "input %lld: %d outputs reported", (long long)m.in, n);
		for (int k = n; k < 8; ++k)
			if (!(Io<IO>::get(out[k]) == Io<IO>::get(mark)))
				ctx.fail("writes-unreported", "input %lld: %d outputs reported, but output %d written", (long long)m.in, n, k);
		double d = double(diff / rate), fuzz = eps * (double(m.in) + 8);
		m.step = std::max(m.step, std::fabs(d));
		if (n == 0) {
			if (m.pos > -0.5 + fuzz)
				ctx.fail("slip", "input %lld: swallowed at position %.9g", (long long)m.in, m.pos);
			m.pos += 1;
		} else if (m.pos < -0.5 - fuzz) {
			ctx.fail("slip", "input %lld: not swallowed at position %.9g", (long long)m.in, m.pos);
		}
		for (int k = 0; k < n; ++k) {
			Z want = 0;
			double mag = 0, slope = 0;
			for (int s = 0; s < TAPS; ++s) {
				double h = proto(s + m.pos);
				want += h * m.x[size_t(s)];
				mag += std::fabs(h) * std::abs(m.x[size_t(s)]);
				slope += std::abs(m.x[size_t(s)]);
			}
			Z got = Io<IO>::get(out[k]);
			// filter coefficients of magnitude up to 1 are rounded, their position is known to within fuzz
			double tol = eps * 64 * (mag + slope) * OVER + fuzz * 4 * slope;
			if (!(std::abs(got - want) <= tol))
				ctx.fail("wrong-sample", "<%d,%d> input %lld output %d at position %.9g is %.9g%+.9gi, want %.9g%+.9gi within %.3g", TAPS, OVER, (long long)m.in, k, m.pos, got.real(), got.imag(), want.real(), want.imag(), tol);
			++m.out;
			m.total += d;
			m.pos += d;
			if (k + 1 < n) {
				if (m.pos < 0.5 - fuzz)
					ctx.fail("slip", "input %lld: extra output at position %.9g", (long long)m.in, m.pos);
				m.pos -= 1;
			} else if (m.pos > 0.5 + fuzz) {
				ctx.fail("slip", "input %lld: missing output at position %.9g", (long long)m.in, m.pos);
			}
		}
		if (std::fabs(double(m.out - m.in) - double(m.total)) > 1 + m.step + fuzz)
			ctx.fail("slip", "after %lld inputs and %lld outputs the accumulated offset is %.9Lg", (long long)m.in, (long long)m.out, m.total);
		ctx.count(n == 0 ? "state.swallowed" : n == 2 ? "state.doubled" : "state.single");
		ctx.progress = true;
	};
	for (const Step &s : plan.steps) {
		int k = int(s.a[0] & 1);
		int64_t len = std::min<int64_t>(s.a[0], 150000), last = 0;
		Rng rng(uint64_t(s.a[1]));
		switch (s.kind) {
		case K_STEADY:
			ctx.fault("clock_jump", s.a[1]);
			for (int64_t i = 0; i < len; ++i)
				feed(rng, i, s.a[1]);
			break;
		case K_DRIFT:
			ctx.fault("clock_drift", s.a[1], s.a[2]);
			for (int64_t i = 0; i < len; ++i)
				feed(rng, i, s.a[1] + (s.a[2] - s.a[1]) * i / len);
			break;
		case K_JITTER:
			ctx.fault("clock_jitter", s.a[2]);
			for (int64_t i = 0; i < len; ++i)
				feed(rng, i, rng.range(-s.a[2], s.a[2]));
			break;
		case K_EDGE:
			// an estimator that pulls the position back and forth over the half-sample point
			ctx.fault("clock_hunting", s.a[1]);
			for (int64_t i = 0; i < len; ++i) {
				last = m.pos > 0.5 - 0.01 * double(s.a[1]) ? -40000 : m.pos < -0.5 + 0.01 * double(s.a[1]) ? 40000 : last ? last : 40000;
				feed(rng, i, last);
			}
			break;
		case K_SAVE:
			save[k].reset(new Slot<OBJ>);
			save[k]->create(uint8_t(~pat), const_cast<const OBJ &>(**live));
			kept[k] = m;
			break;
		case K_CRASH:
			if (!save[k])
				break;
			ctx.fault("crash_and_restore", m.in, kept[k].in);
			if (s.a[1]) {
				**live = **save[k];
			} else {
				live.reset(new Slot<OBJ>);
				live->create(pat, const_cast<const OBJ &>(**save[k]));
			}
			m = kept[k];
			break;
		}
		ctx.log("step", s.kind, m.in, m.out);
	}
}

static void execute(const Plan &plan, Ctx &ctx)
{
	switch (plan.p(P_TYPE)) {
	case 0: return run<float, float, 5, 3>(plan, ctx);
	case 1: return run<float, float, 8, 4>(plan, ctx);
	case 2: return run<double, double, 21, 8>(plan, ctx);
	case 3: return run<float, DSP::Complex<float>, 11, 16>(plan, ctx);
	case 4: return run<double, DSP::Complex<double>, 2, 2>(plan, ctx);
	case 5: return run<double, double, 1, 4>(plan, ctx);
	case 6: return run<float, float, 3, 5>(plan, ctx);
	case 7: return run<double, double, 4, 3>(plan, ctx);
	case 8: return run<float, float, 7, 12>(plan, ctx);
	case 9: return run<double, double, 16, 5>(plan, ctx);
	case 10: return run<float, DSP::Complex<float>, 32, 4>(plan, ctx);
	case 11: return run<double, DSP::Complex<double>, 33, 2>(plan, ctx);
	case 12: return run<double, double, 65, 3>(plan, ctx);
	case 13: return run<float, DSP::Complex<float>, 6, 8>(plan, ctx);
	case 14: return run<double, double, 9, 32>(plan, ctx);
	case 15: return run<float, float, 12, 2>(plan, ctx);
	}
}

namespace sim {
static const int64_t par_min[] = { 0, 1, 1, 0, 0, 0, -40 };
const Scenario scenario = { "C16", kinds, generate, execute, par_min, 7, pars };
}
