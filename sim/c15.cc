// C15: two instances on the same stream, one of which sees a disturbance
#include "prelude.hh"
#include "sma.hh"
#include "complex.hh"
#include "const.hh"
#include "utils.hh"
#include "unit_circle.hh"
#include "delay.hh"
#include "bip_buffer.hh"
#include "swa.hh"
#include "movext.hh"
#include "calculus.hh"
#include "hilbert.hh"
#include "cdc.hh"
#include "resampler.hh"
#include "fmd.hh"
#include "ema.hh"
#include "blockdc.hh"
#include "biquad.hh"
#include "normalize.hh"
#include "amd.hh"
#include "core.hh"

using namespace sim;

enum { K_CLEAN = 1, K_BURST };
static const char *const kinds[] = { "none", "clean", "burst", nullptr };
enum { P_UNIT, P_CFG, P_SIGNAL };
static const char *const pars[] = { "unit", "cfg", "signal", nullptr };
enum { B_SPIKES, B_DROPOUT, B_STUCK, B_INVERT, B_HUGE, B_TINY, B_LOST, B_REPEATED, B_COUNT };
static const char *const bursts[] = { "spikes", "dropout", "stuck", "inverted", "huge_values", "tiny_values", "lost_samples", "repeated_samples" };

struct Res
{
	double v[40];
	int n = 0;
	void put(double x) { if (n < 40) v[n++] = x; }
	template <typename R> void put(DSP::Complex<R> z) { put(double(z.real())); put(double(z.imag())); }
};

// how a lost or repeated sample is allowed to show after the memory has been refilled
enum { SHIFT_NONE, SHIFT_ROUNDS, SHIFT_EXACT };

struct Unit
{
	int memory; // samples after which a disturbance is gone, or
	double tau; // the samples it takes to shrink by e; 0 for a finite memory
	double big; // the largest wrong value
	int shift;
	bool sine; // only for steady sines
	double tol;
	Unit() : memory(0), tau(0), big(1e30), shift(SHIFT_EXACT), sine(false), tol(0) {}
	virtual ~Unit() {}
	virtual void feed(double a, double b, Res &r) = 0;
};

template <typename OBJ, typename CALL>
struct Holds: Unit
{
	OBJ obj;
	CALL call;
	Holds(const OBJ &obj, CALL call) : obj(obj), call(call) {}
	void feed(double a, double b, Res &r) { call(obj, a, b, r); }
};

typedef std::unique_ptr<Unit> Ptr;

template <typename OBJ, typename CALL>
static Ptr fir(const OBJ &obj, int memory, int shift, CALL call, double big = 1e30)
{
	Ptr p(new Holds<OBJ, CALL>(obj, call));
	p->memory = memory;
	p->shift = shift;
	p->big = big;
	return p;
}

template <typename OBJ, typename CALL>
static Ptr iir(const OBJ &obj, double tau, double tol, CALL call, bool sine = false)
{
	Ptr p(new Holds<OBJ, CALL>(obj, call));
	p->memory = 20;
	p->tau = tau;
	p->tol = tol;
	p->big = 1e6;
	p->sine = sine;
	return p;
}

template <typename V> static V value(double a) { return std::is_integral<V>::value ? V(std::max(-1e4, std::min(1e4, a * 1000))) : V(a); }

struct Entry { std::string name; std::function<Ptr(Rng &)> make; };
static std::vector<Entry> entries;

#define SIMPLE(NAME, TYPE, V, MEM, SHIFT) \
	entries.push_back(Entry{ NAME, [](Rng &) { return fir(TYPE(), MEM, SHIFT, [](TYPE &o, double a, double, Res &r) { r.put(o(value<V>(a))); }); } });

template <typename V, int N> static void windows(const char *type)
{
	std::string t = std::string("<") + type + "," + std::to_string(N) + ">";
	const int sum = std::is_integral<V>::value ? SHIFT_EXACT : SHIFT_ROUNDS;
	typedef DSP::Delay<V, N> D;
	SIMPLE("delay" + t, D, V, N, SHIFT_EXACT)
	typedef DSP::BipBuffer<V, N> B;
	entries.push_back(Entry{ "bip" + t, [](Rng &) { return fir(B(), N, SHIFT_EXACT, [](B &o, double a, double, Res &r) {
		const V *p = o(value<V>(a));
		for (int i = 0; i < N; ++i)
			r.put(double(p[i]));
	}); } });
	typedef DSP::MovMin<V, N> Mi;
	SIMPLE("movmin" + t, Mi, V, N, SHIFT_EXACT)
	typedef DSP::MovMax<V, N> Ma;
	SIMPLE("movmax" + t, Ma, V, N, SHIFT_EXACT)
	typedef DSP::SMA4<V, V, N> S4;
	SIMPLE("sma4" + t, S4, V, N, sum)
	struct Most { V operator () (V a, V b) const { return a < b ? b : a; } };
	typedef DSP::SWA<V, Most, N> W;
	entries.push_back(Entry{ "swa.max" + t, [](Rng &) { return fir(W(V(0)), N, SHIFT_EXACT, [](W &o, double a, double, Res &r) { r.put(o(value<V>(a))); }); } });
	typedef DSP::SWA<V, std::plus<V>, N> P;
	entries.push_back(Entry{ "swa.sum" + t, [sum](Rng &) { return fir(P(V(0)), N, sum, [](P &o, double a, double, Res &r) { r.put(o(value<V>(a))); }); } });
	typedef DSP::SMA1<V, V, N> S1;
	entries.push_back(Entry{ "sma1" + t, [sum](Rng &) { return fir(S1(), N, sum, [](S1 &o, double a, double, Res &r) {
		r.put(o(value<V>(a)));
		r.put(o.abs_dev());
	}); } });
}

template <typename V, int N> static void integral(const char *type)
{
	std::string t = std::string("<") + type + "," + std::to_string(N) + ">";
	typedef DSP::SMA2<V, V, N> S2;
	SIMPLE("sma2" + t, S2, V, N, SHIFT_EXACT)
	typedef DSP::SMA2<V, V, N, false> S2n;
	SIMPLE("sma2sum" + t, S2n, V, N, SHIFT_EXACT)
}

template <typename R> static void streams(const char *type)
{
	typedef DSP::Complex<R> C;
	const double fine = std::is_same<R, float>::value ? 2e-4 : 1e-9;
	std::string t = std::string("<") + type + ">";
	typedef DSP::Differentiator<R> Di;
	SIMPLE("differentiator" + t, Di, R, 1, SHIFT_EXACT)
	typedef DSP::Hilbert<C, 5> H5;
	SIMPLE("hilbert5" + t, H5, R, 5, SHIFT_EXACT)
	typedef DSP::Hilbert<C, 33> H33;
	SIMPLE("hilbert33" + t, H33, R, 33, SHIFT_EXACT)
	typedef DSP::CDC<C, 5> C5;
	entries.push_back(Entry{ "cdc5" + t, [](Rng &) { return fir(C5(), 2, SHIFT_NONE, [](C5 &o, double a, double b, Res &r) { r.put(o(R(a), R(b))); }); } });
	typedef DSP::CDC<C, 21> C21;
	entries.push_back(Entry{ "cdc21" + t, [](Rng &) { return fir(C21(), 10, SHIFT_NONE, [](C21 &o, double a, double b, Res &r) { r.put(o(R(a), R(b))); }); } });
	typedef DSP::Resampler2<R, C, 9, 4> R2;
	entries.push_back(Entry{ "resampler2" + t, [](Rng &rng) {
		R diff = R(rng.range(-3000, 3000));
		return fir(R2(R(8000), R(3000), R(2)), 9, SHIFT_NONE, [diff](R2 &o, double a, double b, Res &r) {
			C out[3];
			int n = o(out, C(R(a), R(b)), diff);
			r.put(double(n));
			for (int i = 0; i < n && i < 3; ++i)
				r.put(out[i]);
		});
	} });
#define FMD(K, MEM) \
	entries.push_back(Entry{ "fmd" #K + t, [](Rng &rng) { \
		DSP::FMD##K<C> o; \
		o.bandwidth(R(rng.range(1, 100)) / R(100)); \
		return fir(o, MEM, SHIFT_EXACT, [](DSP::FMD##K<C> &f, double a, double b, Res &r) { r.put(double(f(C(R(a), R(b))))); }, 1e6); \
	} });
	FMD(1, 1)
	FMD(2, 1)
	FMD(3, 1)
	FMD(4, 1)
	FMD(5, 2)
	entries.push_back(Entry{ "ema" + t, [fine](Rng &rng) {
		DSP::EMA<R, R> o;
		int s = int(rng.range(1, 100));
		o.samples(s);
		return iir(o, s, fine, [](DSP::EMA<R, R> &f, double a, double, Res &r) { r.put(f(R(a))); });
	} });
	entries.push_back(Entry{ "emacascade" + t, [fine](Rng &rng) {
		DSP::EMACascade<C, R, 3> o;
		int n = int(rng.range(1, 20));
		o.cutoff(n, 100);
		return iir(o, 40. / n, fine, [](DSP::EMACascade<C, R, 3> &f, double a, double b, Res &r) { r.put(f(C(R(a), R(b)))); });
	} });
	entries.push_back(Entry{ "blockdc" + t, [fine](Rng &rng) {
		DSP::BlockDC<R, R> o;
		int s = int(rng.range(1, 100));
		o.samples(s);
		return iir(o, s, fine, [](DSP::BlockDC<R, R> &f, double a, double, Res &r) { r.put(f(R(a))); });
	} });
	typedef DSP::Biquad<C, R> Bq;
	entries.push_back(Entry{ "biquad" + t, [fine](Rng &rng) {
		Bq o;
		int n = int(rng.range(2, 48)), q = int(rng.range(0, 10));
		double Q = std::sqrt(.5);
		switch (rng.range(0, 4)) {
		case 0: o.lowpass(n, 100); break;
		case 1: o.highpass(n, 100); break;
		case 2: o.notch(n, 100, R(q)); Q = std::pow(10., q / 10.); break;
		case 3: o.bandpass(n, 100, R(q)); Q = std::pow(10., q / 10.); break;
		default: o.allpass(n, 100, R(q)); Q = std::pow(10., q / 10.);
		}
		double alpha = std::sin(M_PI * n / 50) / (2 * Q), tau = -2 / std::log((1 - alpha) / (1 + alpha));
		return iir(o, tau, fine, [](Bq &f, double a, double b, Res &r) { r.put(f(C(R(a), R(b)))); });
	} });
	typedef DSP::BiquadCascade<R, R, 3> Bc;
	entries.push_back(Entry{ "biquadcascade" + t, [fine](Rng &rng) {
		Bc o;
		int n = int(rng.range(3, 47));
		if (rng.chance(1, 2))
			o.lowpass(n, 100);
		else
			o.highpass(n, 100);
		double alpha = std::sin(M_PI * n / 50) * std::cos(2 * M_PI * 5 / 24), tau = -2 / std::log((1 - alpha) / (1 + alpha));
		return iir(o, tau + 3, fine, [](Bc &f, double a, double, Res &r) { r.put(f(R(a))); });
	} });
	typedef DSP::NormalizeSine<R> Ns;
	entries.push_back(Entry{ "normalizesine" + t, [fine](Rng &rng) {
		Ns o;
		int s = int(rng.range(10, 100));
		o.samples(s);
		return iir(o, 3 * s, fine * 4, [](Ns &f, double a, double, Res &r) { r.put(f(R(a))); }, true);
	} });
	typedef DSP::NormalizeIQ<C> Nq;
	entries.push_back(Entry{ "normalizeiq" + t, [fine](Rng &rng) {
		Nq o;
		int s = int(rng.range(10, 100));
		o.samples(s);
		return iir(o, 3 * s, fine * 4, [](Nq &f, double a, double b, Res &r) { r.put(f(C(R(a), R(b)))); }, true);
	} });
	typedef DSP::AMD1<C> Am;
	entries.push_back(Entry{ "amd1" + t, [fine](Rng &rng) {
		Am o;
		double att = double(rng.range(20, 1000)) / 1000, dec = double(rng.range(20, 1000)) / 1000;
		o.agc(R(att), R(dec), R(0.01), R(2));
		return iir(o, 1 / std::min(att, dec), fine * 4, [](Am &f, double a, double b, Res &r) { r.put(double(f(C(R(a), R(b))))); }, true);
	} });
}

static void setup()
{
	if (entries.size())
		return;
	windows<float, 1>("float");
	windows<float, 7>("float");
	windows<double, 32>("double");
	windows<int, 3>("int");
	windows<int, 16>("int");
	windows<int16_t, 5>("short");
	windows<int, 12>("int");
	windows<float, 64>("float");
	windows<double, 100>("double");
	windows<int, 257>("int");
	integral<int, 3>("int");
	integral<int64_t, 16>("long");
	integral<int, 1>("int");
	streams<float>("float");
	streams<double>("double");
}

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	setup();
	plan.par = { int64_t(index % entries.size()), int64_t(rng.next() >> 1), rng.range(0, 2) };
	int n = int(rng.range(1, thorough ? 12 : 5));
	plan.steps.push_back(Step(K_CLEAN, rng.scale(1, 100)));
	for (int i = 0; i < n; ++i) {
		plan.steps.push_back(Step(K_BURST, rng.scale(1, 60), int64_t(rng.next() >> 1), rng.range(0, B_COUNT - 1), rng.chance(1, 4) ? rng.range(0, B_COUNT - 1) : -1));
		// clean stretches too short for the memory as well
		plan.steps.push_back(Step(K_CLEAN, rng.chance(1, 4) ? rng.scale(1, 20) : -1, rng.range(1, 100)));
	}
	stretch(rng, plan, 200, { K_CLEAN }, 0);
}

static void execute(const Plan &plan, Ctx &ctx)
{
	setup();
	const Entry &entry = entries[size_t(uint64_t(plan.p(P_UNIT)) % entries.size())];
	Rng cfg(uint64_t(plan.p(P_CFG))), cfg2(uint64_t(plan.p(P_CFG)));
	Ptr clean = entry.make(cfg), dirty = entry.make(cfg2);
	double f = .3 + .9 * cfg.unit();
	int64_t time = 0, since = 1 << 30;
	double worst = 1;
	bool shifted = false;
	Rng noise(uint64_t(plan.p(P_CFG)) + 1);
	double last[2] = { 0, 0 };
	auto next = [&](double &a, double &b) {
		++time;
		int style = clean->sine ? 0 : int(plan.p(P_SIGNAL));
		if (style == 0) {
			a = .8 * std::cos(f * double(time));
			b = .8 * std::sin(f * double(time));
		} else if (style == 1) {
			a = noise.unit() * 2 - 1;
			b = noise.unit() * 2 - 1;
		} else {
			a = time % 9 < 4 ? .5 : -.25;
			b = .125;
		}
		last[0] = a;
		last[1] = b;
	};
	double bits = 0;
	for (const Step &s : plan.steps) {
		if (s.kind == K_CLEAN) {
			int64_t need = clean->memory;
			if (clean->tau > 0 && since < (1 << 30))
				need = int64_t(2 * clean->tau * std::log(worst / clean->tol)) + 20;
			int64_t len = s.a[0] < 0 ? need + std::min<int64_t>(std::max<int64_t>(1, s.a[1]), 200) : std::min<int64_t>(s.a[0], 150000);
			for (int64_t i = 0; i < len; ++i) {
				double a, b;
				next(a, b);
				Res x, y;
				clean->feed(a, b, x);
				dirty->feed(a, b, y);
				++ctx.ticks;
				++since;
				// outputs after the memory was refilled with this many clean samples, this one included for those without delay
				if (since <= need)
					continue;
				if (x.n != y.n)
					ctx.fail("not-forgotten", "%s: %lld clean samples after the disturbance the number of outputs differs", entry.name.c_str(), (long long)since - 1);
				for (int k = 0; k < x.n; ++k) {
					double off = std::fabs(x.v[k] - y.v[k]);
					bool same = x.v[k] == y.v[k];
					if (clean->tau > 0)
						same = same || off <= clean->tol * std::max(1., std::fabs(x.v[k]));
					else if (shifted && clean->shift == SHIFT_ROUNDS)
						same = same || off <= 1e-5;
					if (!same)
						ctx.fail("not-forgotten", "%s: %lld clean samples after the last disturbance the output is %.9g, undisturbed %.9g", entry.name.c_str(), (long long)since - 1, y.v[k], x.v[k]);
					bits = bits * .7 + x.v[k];
				}
				ctx.progress = true;
			}
		} else if (s.kind == K_BURST) {
			Rng rng(uint64_t(s.a[1]));
			int64_t len = std::min<int64_t>(std::max<int64_t>(0, s.a[0]), 500);
			if (since > 1000000)
				worst = 1;
			for (int64_t i = 0; i < len; ++i) {
				int what = int(uint64_t(s.a[3] >= 0 && i % 2 ? s.a[3] : s.a[2]) % B_COUNT);
				if (what >= B_LOST && clean->shift == SHIFT_NONE)
					what = B_SPIKES;
				double pa = last[0], pb = last[1], a, b;
				next(a, b);
				Res r;
				clean->feed(a, b, r);
				double wa = a, wb = b;
				switch (what) {
				case B_SPIKES: wa = (rng.unit() * 2 - 1) * 1e3; wb = (rng.unit() * 2 - 1) * 1e3; break;
				case B_DROPOUT: wa = wb = 0; break;
				case B_STUCK: wa = 1; wb = -1; break;
				case B_INVERT: wa = -a; wb = -b; break;
				case B_HUGE: wa = (rng.unit() * 2 - 1) * clean->big; wb = (rng.unit() * 2 - 1) * clean->big; break;
				case B_TINY: wa = a * 1e-9; wb = b * 1e-9; break;
				case B_REPEATED: { Res q; dirty->feed(pa, pb, q); break; }
				}
				if (what >= B_LOST)
					shifted = true;
				if (what != B_LOST) {
					Res q;
					dirty->feed(wa, wb, q);
				}
				worst = std::max(worst, std::max(std::fabs(wa), std::fabs(wb)) * 1e2);
				ctx.fault(bursts[what], i);
				++ctx.ticks;
			}
			if (len)
				since = 0;
		}
		int64_t word;
		memcpy(&word, &bits, sizeof word);
		ctx.log("step", s.kind, since, word);
	}
	ctx.count("state.unit." + entry.name);
}

namespace sim {
static const int64_t par_min[] = { 0, 0, 0 };
const Scenario scenario = { "C15", kinds, generate, execute, par_min, 3, pars };
}
