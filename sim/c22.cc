// C22: FM demodulators on a carrier with fading, dropouts, spikes and phase jumps
#include "prelude.hh"
#include "complex.hh"
#include "const.hh"
#include "utils.hh"
#include "fmd.hh"
#include "guard.hh"

using namespace sim;

enum { K_TONE = 1, K_WANDER, K_LOSS, K_JUMP, K_BAND, K_LEVEL, K_SAVE, K_CRASH };
static const char *const kinds[] = { "none", "tone", "wander", "loss", "jump", "bandwidth", "level", "save", "crash", nullptr };
enum { P_TYPE, P_PAT, P_BAND };
static const char *const pars[] = { "type", "pattern", "bandwidth", nullptr };
enum { L_ZERO, L_SPIKE, L_NOISE, L_STUCK, L_LOST, L_COUNT };
static const char *const losses[] = { "carrier_lost", "spikes", "noise", "stuck_sample", "lost_samples" };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	plan.par = { int64_t(index % 4), rng.pick({ 0, 0xff, 0x01, 0x3c }), rng.range(1, 1000) };
	int n = int(rng.scale(1, thorough ? 50 : 16));
	for (int i = 0; i < n; ++i) {
		int what = int(rng.range(0, 15));
		int64_t len = rng.chance(1, 40) ? rng.range(500, 10000) : rng.scale(1, 100);
		if (what < 4)
			plan.steps.push_back(Step(K_TONE, len, rng.chance(1, 3) ? rng.range(-500, 500) : rng.chance(1, 4) ? rng.pick({ 0, 250000, -250000, 500000, -500000, 499999, -499999 }) : rng.range(-500000, 500000)));
		else if (what < 8)
			plan.steps.push_back(Step(K_WANDER, len, int64_t(rng.next() >> 1), rng.range(1, 500000), rng.range(0, 1)));
		else if (what < 11)
			plan.steps.push_back(Step(K_LOSS, rng.scale(1, 20), int64_t(rng.next() >> 1), rng.range(0, L_COUNT - 1)));
		else if (what < 12)
			plan.steps.push_back(Step(K_JUMP, rng.chance(1, 2) ? rng.pick({ 500000, 250000, -250000 }) : rng.range(-500000, 500000)));
		else if (what < 13)
			plan.steps.push_back(Step(K_BAND, rng.range(1, 1000)));
		else if (what < 14)
			plan.steps.push_back(Step(K_LEVEL, rng.range(-12, 12)));
		else if (what < 15)
			plan.steps.push_back(Step(K_SAVE));
		else
			plan.steps.push_back(Step(K_CRASH, rng.range(0, 1)));
	}
	repeat(rng, plan);
	stretch(rng, plan, 200, { K_TONE, K_WANDER }, 0);
}

typedef std::complex<double> Z;
enum { FMDS = 5 };

template <typename C>
struct Receivers
{
	Slot<DSP::FMD1<C>> a;
	Slot<DSP::FMD2<C>> b;
	Slot<DSP::FMD3<C>> c;
	Slot<DSP::FMD4<C>> d;
	Slot<DSP::FMD5<C>> e;
};

template <typename C>
static void run(const Plan &plan, Ctx &ctx)
{
	typedef typename C::value_type R;
	const double eps = std::numeric_limits<R>::epsilon();
	uint8_t pat = uint8_t(plan.p(P_PAT));
	std::unique_ptr<Receivers<C>> live(new Receivers<C>), save;
	live->a.create(pat);
	live->b.create(pat);
	live->c.create(pat);
	live->d.create(pat);
	live->e.create(pat);
	struct State
	{
		double phase = 0, amp = 1, bw = 1; // of the carrier as sent
		Z last[2]; // the previous good samples
		int good = 0; // number of good samples before this one
		int level = 0; // and of those at the same level
		int64_t n = 0;
		double sum[3] = { 0, 0, 0 }, way = 0, slack = 0; // reported and travelled phase since the last fault
	} m, kept;
	auto band = [&](int64_t v) {
		R bw = R(double(std::max<int64_t>(1, std::min<int64_t>(1000, v))) / 1000);
		m.bw = double(bw);
		live->a->bandwidth(bw);
		live->b->bandwidth(bw);
		live->c->bandwidth(bw);
		live->d->bandwidth(bw);
		live->e->bandwidth(bw);
	};
	band(plan.p(P_BAND));
	double out[FMDS] = { 0 };
	auto feed = [&](Z z, bool good) {
		C in(R(z.real()), R(z.imag()));
		out[0] = double((*live->a)(in));
		out[1] = double((*live->b)(in));
		out[2] = double((*live->c)(in));
		out[3] = double((*live->d)(in));
		out[4] = double((*live->e)(in));
		++ctx.ticks;
		++m.n;
		Z x(double(in.real()), double(in.imag()));
		if (!good) {
			m.good = m.level = 0;
			return;
		}
		if (m.good == 0) {
			for (double &s : m.sum)
				s = 0;
			m.way = m.slack = 0;
		}
		double unit = 1 / (m.bw * M_PI);
		if (m.good > 0) {
			Z turn = x * std::conj(m.last[0]);
			double step = std::arg(turn / std::abs(turn));
			bool edge = std::fabs(step) > M_PI - 64 * eps;
			double tol = 32 * eps * unit;
			for (int i = 0; i < 3; ++i) {
				bool ok = std::fabs(out[i] - step * unit) <= tol || (edge && std::fabs(std::fabs(out[i]) - M_PI * unit) <= 4 * tol);
				if (!ok)
					ctx.fail("wrong-step", "sample %lld (good sample %d after the last fault): demodulator %d returned %.9g for a step of %.9g radian, want %.9g", (long long)m.n, m.good + 1, i + 1, out[i], step, step * unit);
				m.sum[i] += edge ? step : out[i] / unit;
			}
			m.way += step;
			m.slack += 32 * eps + 4e-16 * std::fabs(m.way);
			for (int i = 0; i < 3; ++i)
				if (!(std::fabs(m.sum[i] - m.way) <= m.slack))
					ctx.fail("lost-phase", "sample %lld: demodulator %d reported %.9g radian in total, %.9g travelled", (long long)m.n, i + 1, m.sum[i], m.way);
			if (m.level > 0) {
				double want = std::sin(step) * unit;
				if (!(std::fabs(out[3] - want) <= 32 * eps * unit))
					ctx.fail("wrong-step", "sample %lld (good sample %d after the last fault): demodulator 4 returned %.9g for a step of %.9g radian, want %.9g", (long long)m.n, m.good + 1, out[3], step, want);
				ctx.count("state.checked4");
			}
			if (m.level > 1) {
				double prev = std::arg(m.last[0] * std::conj(m.last[1]) / std::norm(m.last[1]));
				double want = (std::sin(step) + std::sin(prev)) * unit / 2;
				if (!(std::fabs(out[4] - want) <= 32 * eps * unit))
					ctx.fail("wrong-step", "sample %lld (good sample %d after the last fault): demodulator 5 returned %.9g for steps of %.9g and %.9g radian, want %.9g", (long long)m.n, m.good + 1, out[4], prev, step, want);
				ctx.count("state.checked5");
			}
			if (edge)
				ctx.count("state.half_turn");
			ctx.count("state.checked");
			ctx.progress = true;
		}
		m.last[1] = m.last[0];
		m.last[0] = x;
		++m.good;
		++m.level;
	};
	auto send = [&](double turns) {
		m.phase += turns;
		m.phase -= std::floor(m.phase);
		double quarter = m.phase * 4;
		if (quarter == std::floor(quarter)) {
			static const Z exact[4] = { Z(1, 0), Z(0, 1), Z(-1, 0), Z(0, -1) };
			feed(m.amp * exact[int(quarter) & 3], true);
			return;
		}
		feed(std::polar(m.amp, 2 * M_PI * m.phase), true);
	};
	for (const Step &s : plan.steps) {
		Rng rng(uint64_t(s.a[1]));
		int64_t len = std::min<int64_t>(std::max<int64_t>(0, s.a[0]), 150000);
		auto half = [](int64_t v) { return double(std::max<int64_t>(-500000, std::min<int64_t>(500000, v))) / 1e6; };
		switch (s.kind) {
		case K_TONE:
			for (int64_t i = 0; i < len; ++i)
				send(half(s.a[1]));
			break;
		case K_WANDER:
			if (s.a[3])
				ctx.fault("fading", len);
			for (int64_t i = 0; i < len; ++i) {
				if (s.a[3]) {
					m.amp = std::pow(10., rng.unit() * 4 - 2);
					m.level = 0;
				}
				send(half(s.a[2]) * (rng.unit() * 2 - 1));
			}
			break;
		case K_LOSS: {
			int what = int(uint64_t(s.a[2]) % L_COUNT);
			ctx.fault(losses[what], len);
			Z stuck = std::polar(m.amp, 2 * M_PI * m.phase);
			for (int64_t i = 0; i < len; ++i)
				switch (what) {
				case L_ZERO: feed(0, false); break;
				case L_SPIKE: feed(std::polar(m.amp * 1e4, rng.unit() * 7), false); break;
				case L_NOISE: feed(Z(m.amp * (rng.unit() * 2 - 1), m.amp * (rng.unit() * 2 - 1)), false); break;
				case L_STUCK: feed(stuck, false); break;
				default: m.phase += rng.unit(); break;
				}
			break;
		}
		case K_JUMP:
			ctx.fault("phase_jump", s.a[0]);
			m.phase += half(s.a[0]);
			break;
		case K_BAND:
			ctx.fault("retuned", s.a[0]);
			band(s.a[0]);
			break;
		case K_LEVEL:
			ctx.fault("level_jump", s.a[0]);
			m.amp = std::pow(10., double(std::max<int64_t>(-12, std::min<int64_t>(12, s.a[0]))));
			m.level = 0;
			break;
		case K_SAVE:
			save.reset(new Receivers<C>);
			save->a.create(pat, const_cast<const DSP::FMD1<C> &>(*live->a));
			save->b.create(pat, const_cast<const DSP::FMD2<C> &>(*live->b));
			save->c.create(pat, const_cast<const DSP::FMD3<C> &>(*live->c));
			save->d.create(pat, const_cast<const DSP::FMD4<C> &>(*live->d));
			save->e.create(pat, const_cast<const DSP::FMD5<C> &>(*live->e));
			kept = m;
			break;
		case K_CRASH:
			if (!save)
				break;
			ctx.fault("crash_and_restore", m.n, kept.n);
			*live->a = *save->a;
			*live->b = *save->b;
			*live->c = *save->c;
			*live->d = *save->d;
			*live->e = *save->e;
			m = kept;
			if (s.a[0]) // and the carrier has moved on meanwhile
				m.phase += .3;
			break;
		}
		int64_t bits;
		double sum = out[0] + out[1] * 3 + out[2] * 5 + out[3] * 7 + out[4] * 11;
		memcpy(&bits, &sum, sizeof bits);
		ctx.log("step", s.kind, m.n, std::isfinite(sum) ? bits : 0);
	}
}

static void execute(const Plan &plan, Ctx &ctx)
{
	switch (plan.p(P_TYPE)) {
	case 0: return run<DSP::Complex<float>>(plan, ctx);
	case 1: return run<DSP::Complex<double>>(plan, ctx);
	case 2: return run<std::complex<float>>(plan, ctx);
	default: return run<std::complex<double>>(plan, ctx);
	}
}

namespace sim {
static const int64_t par_min[] = { 0, 0, 1 };
const Scenario scenario = { "C22", kinds, generate, execute, par_min, 3, pars };
}
