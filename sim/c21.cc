// C21: the AM demodulator's gain control under bursts, dropouts and reconfiguration
#include "prelude.hh"
#include "complex.hh"
#include "utils.hh"
#include "amd.hh"
#include "guard.hh"

using namespace sim;

enum { K_FEED = 1, K_AGC, K_INDEX, K_CARRIER, K_SAVE, K_CRASH };
static const char *const kinds[] = { "none", "feed", "agc", "index", "carrier", "save", "crash", nullptr };
enum { P_TYPE, P_PAT };
static const char *const pars[] = { "type", "pattern", nullptr };
enum { S_CARRIER, S_AM, S_NOISE, S_DROPOUT, S_SPIKES, S_FADE, S_LOUD, S_COUNT };
static const char *const signals[] = { "", "", "noise", "carrier_dropout", "spikes", "fading", "overload" };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	plan.par = { int64_t(index % 4), rng.pick({ 0, 0xff, 0x01, 0x3c }) };
	if (rng.chance(9, 10))
		plan.steps.push_back(Step(K_AGC, rng.scale(1, 1000), rng.scale(1, 1000), rng.range(1, 999), rng.range(0, 4)));
	int n = int(rng.scale(1, thorough ? 40 : 14));
	for (int i = 0; i < n; ++i) {
		int what = int(rng.range(0, 15));
		if (what < 8)
			plan.steps.push_back(Step(K_FEED, rng.chance(1, 30) ? rng.range(1000, 20000) : rng.scale(1, 200), int64_t(rng.next() >> 1), rng.range(0, S_COUNT - 1), rng.chance(1, 3) ? rng.range(-6, 9) : rng.range(-3, 3)));
		else if (what < 9)
			plan.steps.push_back(Step(K_AGC, rng.range(0, 1000), rng.range(0, 1000), rng.range(1, 1000), rng.range(0, 4)));
		else if (what < 11)
			plan.steps.push_back(Step(K_INDEX, rng.range(1, 150)));
		else if (what < 13)
			plan.steps.push_back(Step(K_CARRIER, rng.range(0, 1000), rng.range(0, 628)));
		else if (what < 14)
			plan.steps.push_back(Step(K_SAVE));
		else
			plan.steps.push_back(Step(K_CRASH, rng.range(0, 1)));
	}
	repeat(rng, plan, { K_AGC, K_INDEX });
	stretch(rng, plan, 200, { K_FEED }, 0);
}

template <typename C>
static void run(const Plan &plan, Ctx &ctx)
{
	typedef DSP::AMD1<C> OBJ;
	typedef typename C::value_type R;
	const double eps = std::numeric_limits<R>::epsilon();
	uint8_t pat = uint8_t(plan.p(P_PAT));
	std::unique_ptr<Slot<OBJ>> live(new Slot<OBJ>), save;
	live->create(pat);
	struct State
	{
		double level = 0, off = 0; // modelled level and how far off it may be, relative
		double att = 0, dec = 0, lo = double(R(0.001)), hi = 1, idx = 1;
		int64_t n = 0;
	} m, kept;
	auto feed = [&](double amp, double phase) {
		C in(R(amp * std::cos(phase)), R(amp * std::sin(phase)));
		double a = std::hypot(double(in.real()), double(in.imag()));
		double out = double((**live)(in));
		++ctx.ticks;
		++m.n;
		double before = m.level, slow = std::min(m.att, m.dec);
		m.level += (a - m.level) * (a < m.level ? m.dec : m.att);
		m.level = std::min(std::max(m.level, m.lo), m.hi);
		// absolute error: what is left of the old one, and a few roundings
		m.off = std::min(m.off * (1 - slow) + 8 * eps * std::max(before, std::max(a * std::max(m.att, m.dec), m.level)), m.hi - m.lo + eps);
		if (!std::isfinite(out))
			ctx.fail("not-finite", "sample %lld: amplitude %g gives %g", (long long)m.n, a, out);
		double want = (a / m.level * (1 + m.idx) - 1) / m.idx;
		double low = (a / std::min(m.hi, m.level + m.off) * (1 + m.idx) - 1) / m.idx;
		double high = (a / std::max(m.lo, m.level - m.off) * (1 + m.idx) - 1) / m.idx;
		double tol = 16 * eps * (a / m.level * (1 + m.idx) + 1) / m.idx;
		if (!(out >= low - tol && out <= high + tol))
			ctx.fail("wrong-output", "sample %lld: amplitude %.9g at level %.9g (limits %g..%g, attack %g, decay %g, index %g) gives %.9g, want %.9g", (long long)m.n, a, m.level, m.lo, m.hi, m.att, m.dec, m.idx, out, want);
		ctx.count(m.level == m.lo ? "state.at_low_limit" : m.level == m.hi ? "state.at_high_limit" : a < before ? "state.decay" : "state.attack");
		ctx.progress = true;
		return out;
	};
	for (const Step &s : plan.steps) {
		Rng rng(uint64_t(s.a[1]));
		double last = 0;
		switch (s.kind) {
		case K_FEED: {
			int sig = int(uint64_t(s.a[2]) % S_COUNT);
			double size = std::pow(10., double(std::max<int64_t>(-6, std::min<int64_t>(9, s.a[3]))));
			if (*signals[sig])
				ctx.fault(signals[sig], s.a[0]);
			int64_t len = std::min<int64_t>(std::max<int64_t>(0, s.a[0]), 150000);
			for (int64_t i = 0; i < len; ++i) {
				double amp = .5 * size;
				switch (sig) {
				case S_AM: amp *= 1 + std::min(1., m.idx) * std::cos(.1 * double(i)); break;
				case S_NOISE: amp *= rng.unit(); break;
				case S_DROPOUT: amp = 0; break;
				case S_SPIKES: amp *= rng.chance(1, 10) ? 1000 : 1; break;
				case S_FADE: amp *= std::pow(.99, double(i % 2000)); break;
				case S_LOUD: amp *= 100; break;
				}
				last = feed(amp, rng.unit() * 7);
			}
			break;
		}
		case K_AGC: {
			double att = double(std::min<int64_t>(1000, std::max<int64_t>(0, s.a[0]))) / 1000, dec = double(std::min<int64_t>(1000, std::max<int64_t>(0, s.a[1]))) / 1000;
			R lo = R(0.001), hi = R(1);
			if (s.a[3] == 0) {
				(*live)->agc(R(att), R(dec));
			} else {
				hi = R(s.a[3] == 1 ? 1 : s.a[3] == 2 ? 100 : s.a[3] == 3 ? 0.5 : 1e-2);
				lo = R(double(hi) * double(std::min<int64_t>(1000, std::max<int64_t>(1, s.a[2]))) / 1000);
				(*live)->agc(R(att), R(dec), lo, hi);
			}
			m.att = double(R(att));
			m.dec = double(R(dec));
			m.lo = double(lo);
			m.hi = double(hi);
			ctx.fault("reconfiguration", s.a[0], s.a[1]);
			break;
		}
		case K_INDEX:
			m.idx = double(R(double(std::min<int64_t>(1000, std::max<int64_t>(1, s.a[0]))) / 100));
			(*live)->index(R(m.idx));
			ctx.fault("index_change", s.a[0]);
			break;
		case K_CARRIER: {
			// a steady carrier within the limits, long enough for the slower of the two rates
			double slow = std::min(m.att, m.dec), c = m.lo + (m.hi - m.lo) * double(std::min<int64_t>(1000, std::max<int64_t>(0, s.a[0]))) / 1000;
			if (slow < 1e-3)
				break;
			int64_t need = slow > .999 ? 2 : int64_t(std::log(eps * 1e-3 * m.lo / m.hi) / std::log1p(-slow)) + 2;
			for (int64_t i = 0; i < need; ++i)
				last = feed(c, double(s.a[1]) / 100);
			double tol = (8 + 16 / slow) * eps * (1 + m.idx) / m.idx;
			if (!(std::fabs(last - 1) <= tol))
				ctx.fail("not-recovered", "after %lld samples of a carrier of %.9g the output is %.9g, not 1 within %.3g (limits %g..%g, attack %g, decay %g)", (long long)need, c, last, tol, m.lo, m.hi, m.att, m.dec);
			// dipped as far as the index goes, just once
			if (m.idx <= 1) {
				double dip = feed(c * (1 - m.idx) / (1 + m.idx), 1);
				if (m.dec < 1e-2) {
					double t = tol * 4 + 4 * m.dec * (1 + m.idx) / m.idx;
					if (!(std::fabs(dip + 1) <= t))
						ctx.fail("wrong-dip", "dipped by index %g the output is %.9g, not -1 within %.3g", m.idx, dip, t);
				}
			}
			ctx.count("state.recovered");
			break;
		}
		case K_SAVE:
			save.reset(new Slot<OBJ>);
			save->create(uint8_t(~pat), const_cast<const OBJ &>(**live));
			kept = m;
			break;
		case K_CRASH:
			if (!save)
				break;
			ctx.fault("crash_and_restore", m.n, kept.n);
			if (s.a[0]) {
				**live = **save;
			} else {
				live.reset(new Slot<OBJ>);
				live->create(pat, const_cast<const OBJ &>(**save));
			}
			m = kept;
			break;
		}
		int64_t bits;
		memcpy(&bits, &last, sizeof bits);
		ctx.log("step", s.kind, m.n, bits);
	}
}

static void execute(const Plan &plan, Ctx &ctx)
{
	switch (plan.p(P_TYPE)) {
	case 0: return run<DSP::Complex<float>>(plan, ctx);
	case 1: return run<DSP::Complex<double>>(plan, ctx);
	case 2: return run<std::complex<float>>(plan, ctx);
	default: return run<std::complex<double>>(plan, ctx);
	}
}

namespace sim {
static const int64_t par_min[] = { 0, 0 };
const Scenario scenario = { "C21", kinds, generate, execute, par_min, 2, pars };
}
