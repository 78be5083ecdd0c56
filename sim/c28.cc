// C28: normalizers on a sine with changing level and offset, bursts, dropouts and retunings
#include "prelude.hh"
#include "complex.hh"
#include "normalize.hh"
#include "guard.hh"

using namespace sim;

enum { K_TUNE = 1, K_SINE, K_SIGNAL, K_SAVE, K_CRASH };
static const char *const kinds[] = { "none", "tune samples", "sine length degrees level offset settle", "signal length seed what level", "save slot", "crash slot assign", nullptr };
enum { P_TYPE, P_PAT };
static const char *const pars[] = { "type", "pattern", nullptr };
enum { S_NOISE, S_SPIKES, S_DROPOUT, S_STUCK, S_DRIFT, S_COUNT };
static const char *const signals[] = { "noise", "spikes", "dropout", "stuck", "offset_drift" };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	plan.par = { int64_t(index % 4), rng.pick({ 0, 0xff, 0x7f, 0x3c }) };
	int n = int(rng.scale(2, thorough ? 40 : 14));
	if (!rng.chance(1, 8))
		plan.steps.push_back(Step(K_TUNE, rng.scale(1, 300)));
	for (int i = 0; i < n; ++i) {
		int what = int(rng.range(0, 11));
		if (what < 2)
			plan.steps.push_back(Step(K_TUNE, rng.scale(1, 300)));
		else if (what < 6)
			plan.steps.push_back(Step(K_SINE, rng.scale(1, 300), rng.range(1, 179), rng.range(-9, 9), rng.range(-50, 50), rng.chance(1, 2)));
		else if (what < 10)
			plan.steps.push_back(Step(K_SIGNAL, rng.scale(1, 200), int64_t(rng.next() >> 1), rng.range(0, S_COUNT - 1), rng.range(-9, 9)));
		else if (what < 11)
			plan.steps.push_back(Step(K_SAVE, rng.range(0, 1)));
		else
			plan.steps.push_back(Step(K_CRASH, rng.range(0, 1), rng.range(0, 1)));
	}
	repeat(rng, plan, { K_TUNE, K_SINE, K_SIGNAL });
	stretch(rng, plan, 200, { K_SINE, K_SIGNAL }, 0);
	plan.steps.push_back(Step(K_SINE, rng.range(1, 100), rng.range(1, 179), rng.range(-9, 9), rng.range(-50, 50), 1));
}

typedef long double L;

// the blocker and the mean square along with what rounding can have done to them
struct Model
{
	L a = 0, b = .5L, alpha = 1;
	L x1 = 0, y1 = 0, e1 = 0, ms = .5L, ems = 0;
	void tune(int s)
	{
		a = L(s - 1) / s;
		b = (1 + a) / 2;
		alpha = 1 / L(s);
	}
	void feed(L x0, L eps)
	{
		L y0 = b * (x0 - x1) + a * y1;
		e1 = a * e1 * (1 + 4 * eps) + 4 * eps * (std::fabs(b * (x0 - x1)) + std::fabs(a * y1)) + 2 * eps * b * (std::fabs(x0) + std::fabs(x1));
		L sq = y0 * y0, esq = 2 * std::fabs(y0) * e1 + e1 * e1 + 2 * eps * sq, before = ms;
		ms = (1 - alpha) * ms + alpha * sq;
		ems = ((1 - alpha) * ems + alpha * esq) * (1 + 4 * eps) + 4 * eps * (std::fabs(before) + alpha * sq);
		x1 = x0;
		y1 = y0;
	}
};

template <typename R> struct Plain
{
	typedef DSP::NormalizeSine<R> OBJ;
	enum { LANES = 1 };
	static void call(OBJ &o, const R *in, R *out) { out[0] = o(in[0]); }
};
template <typename R> struct Quad
{
	typedef DSP::NormalizeIQ<DSP::Complex<R>> OBJ;
	enum { LANES = 2 };
	static void call(OBJ &o, const R *in, R *out)
	{
		DSP::Complex<R> r = o(DSP::Complex<R>(in[0], in[1]));
		out[0] = r.real();
		out[1] = r.imag();
	}
};

template <typename R, template <typename> class KIND>
static void run(const Plan &plan, Ctx &ctx)
{
	typedef typename KIND<R>::OBJ OBJ;
	const int LANES = KIND<R>::LANES;
	const L eps = std::numeric_limits<R>::epsilon(), tiny = std::numeric_limits<R>::min();
	uint8_t pat = uint8_t(plan.p(P_PAT));
	Slot<OBJ> save[2];
	std::unique_ptr<Slot<OBJ>> live(new Slot<OBJ>);
	live->create(pat);
	struct State { Model lane[2]; int s = 1; int64_t n = 0; L worst = 1; } m, kept[2];
	bool held[2] = { false, false };
	double first = 0;
	int64_t level = 0;
	auto feed = [&](double re, double im, R *out) {
		R in[2] = { R(re), R(im) };
		KIND<R>::call(**live, in, out);
		++ctx.ticks;
		++m.n;
		for (int i = 0; i < LANES; ++i) {
			Model &l = m.lane[i];
			l.feed(in[i], eps);
			m.worst = std::max(m.worst, std::fabs(L(in[i])));
			// too small for its square to be a number
			if (l.ms < 1e12L * tiny || l.ems * 4 > l.ms)
				continue;
			L amp = std::sqrt(2 * l.ms), want = l.y1 / amp;
			L tol = l.e1 / amp * 1.2L + std::fabs(want) * (l.ems / l.ms + 8 * eps) + std::sqrt(tiny) / amp;
			if (!(std::fabs(out[i] - want) <= tol))
				ctx.fail("wrong-output", "sample %lld: %.9g (%.9Lg of an amplitude of %.9Lg, %d samples), want %.9Lg within %.3Lg", (long long)m.n, double(out[i]), l.y1, amp, m.s, want, tol);
			if (!(std::fabs(L(out[i])) <= std::sqrt(L(m.s) / 2) * (1 + 16 * eps) + tol))
				ctx.fail("exceeds-limit", "sample %lld: %.9g, more than %d samples of averaging allow", (long long)m.n, double(out[i]), m.s);
			ctx.progress = true;
		}
		first = double(out[0]);
	};
	for (const Step &s : plan.steps) {
		int k = int(s.a[0] & 1);
		R out[2] = { 0, 0 };
		switch (s.kind) {
		case K_TUNE:
			m.s = int(std::max<int64_t>(1, std::min<int64_t>(1000, s.a[0])));
			(**live).samples(m.s);
			for (Model &l : m.lane)
				l.tune(m.s);
			ctx.fault("retuned", m.s);
			break;
		case K_SINE: {
			double w = M_PI * double(std::max<int64_t>(1, std::min<int64_t>(179, s.a[1]))) / 180;
			double size = std::pow(10., double(std::max<int64_t>(-9, std::min<int64_t>(9, s.a[2])))), off = size * double(s.a[3]) / 10;
			int64_t len = std::min<int64_t>(std::max<int64_t>(1, s.a[0]), 150000);
			// what is left of the past gets small compared to the tone
			int64_t need = s.a[4] ? int64_t(m.s * std::log(std::pow(double(m.worst) / size * 100 + 100, 2) * 1e6)) + 10 : 0;
			if (level != s.a[2])
				ctx.fault("level_change", s.a[2]);
			level = s.a[2];
			L alpha = 1 / L(m.s), rho = alpha / std::sqrt(1 - 2 * (1 - alpha) * std::cos(2 * L(w)) + (1 - alpha) * (1 - alpha));
			for (int64_t i = 0; i < need + len; ++i) {
				feed(off + size * std::cos(w * double(i)), -off + size * std::sin(w * double(i)), out);
				if (!s.a[4] || i < need || m.s < 2)
					continue;
				// unit amplitude, up to the ripple of the mean square
				for (int q = 0; q < LANES; ++q)
					if (!(std::fabs(L(out[q])) <= (1 + 1e-3L + 100 * eps) / std::sqrt(std::max(1 - rho, L(1e-3)))))
						ctx.fail("not-normalized", "%lld samples after the last fault the output is %.9g, the mean square of %d samples ripples by %.3Lg", (long long)i, double(out[q]), m.s, rho);
				if (LANES == 2 && rho < .5L) {
					L r = std::hypot(L(out[0]), L(out[1]));
					if (!(r >= .999L / std::sqrt(1 + rho) - 100 * eps && r <= (1.001L + 100 * eps) / std::sqrt(1 - rho)))
						ctx.fail("not-normalized", "%lld samples after the last fault the circle has a radius of %.9Lg, the mean square of %d samples ripples by %.3Lg", (long long)i, r, m.s, rho);
					ctx.count("state.settled");
				}
			}
			if (s.a[4])
				m.worst = std::max(L(1), L(size * 6));
			break;
		}
		case K_SIGNAL: {
			Rng rng(uint64_t(s.a[1]));
			int what = int(uint64_t(s.a[2]) % S_COUNT);
			double size = std::pow(10., double(std::max<int64_t>(-9, std::min<int64_t>(9, s.a[3]))));
			int64_t len = std::min<int64_t>(std::max<int64_t>(0, s.a[0]), 150000);
			ctx.fault(signals[what], len);
			double stuck = size * (rng.unit() * 2 - 1);
			for (int64_t i = 0; i < len; ++i)
				switch (what) {
				case S_NOISE: feed(size * (rng.unit() * 2 - 1), size * (rng.unit() * 2 - 1), out); break;
				case S_SPIKES: feed(rng.chance(1, 8) ? size * (rng.unit() * 2 - 1) : 0, rng.chance(1, 8) ? size : 0, out); break;
				case S_DROPOUT: feed(0, 0, out); break;
				case S_STUCK: feed(stuck, -stuck, out); break;
				default: feed(std::cos(.7 * double(i)) + size * double(i) / double(len), std::sin(.7 * double(i)) - size * double(i) / double(len), out);
				}
			break;
		}
		case K_SAVE:
			save[k].create(uint8_t(~pat), const_cast<const OBJ &>(**live));
			kept[k] = m;
			held[k] = true;
			break;
		case K_CRASH:
			if (!held[k])
				break;
			ctx.fault("crash_and_restore", m.n, kept[k].n);
			if (s.a[1]) {
				**live = *save[k];
			} else {
				live.reset(new Slot<OBJ>);
				live->create(pat, const_cast<const OBJ &>(*save[k]));
			}
			m = kept[k];
			break;
		}
		int64_t bits;
		memcpy(&bits, &first, sizeof bits);
		ctx.log("step", s.kind, m.n, bits);
	}
}

static void execute(const Plan &plan, Ctx &ctx)
{
	switch (plan.p(P_TYPE) & 3) {
	case 0: return run<float, Plain>(plan, ctx);
	case 1: return run<double, Plain>(plan, ctx);
	case 2: return run<float, Quad>(plan, ctx);
	default: return run<double, Quad>(plan, ctx);
	}
}

namespace sim {
static const int64_t par_min[] = { 0, 0 };
const Scenario scenario = { "C28", kinds, generate, execute, par_min, 2, pars };
}
