// C25: filters under disturbances and retunings, then a steady tone
#include "prelude.hh"
#include "complex.hh"
#include "const.hh"
#include "utils.hh"
#include "unit_circle.hh"
#include "window.hh"
#include "biquad.hh"
#include "ema.hh"
#include "blockdc.hh"
#include "hilbert.hh"
#include "cdc.hh"
#include "guard.hh"

using namespace sim;

enum { K_TUNE = 1, K_SIGNAL, K_TONE, K_SAVE, K_CRASH };
static const char *const kinds[] = { "none", "tune", "signal", "tone", "save", "crash", nullptr };
enum { P_UNIT, P_CFG };
static const char *const pars[] = { "unit", "cfg", nullptr };
enum { S_NOISE, S_SPIKES, S_DROPOUT, S_STUCK, S_SWEEP, S_COUNT };
static const char *const signals[] = { "noise", "spikes", "dropout", "stuck", "sweep" };

typedef std::complex<double> Z;

// a filter with its tuning; tones are complex, filters for plain numbers come in pairs
struct Unit
{
	double tau; // samples per decay by e
	double tol; // of the gain
	double bound; // of the output for inputs up to 1
	bool rest; // nothing was set but the tuning
	bool direct; // the tone has to come out as it went in, only scaled
	double image; // for others: what may be left of the mirrored tone
	Unit() : tau(1), tol(1e-6), bound(1e3), rest(true), direct(true), image(0) {}
	virtual ~Unit() {}
	virtual void tune(Rng &) {}
	virtual Z feed(Z in) = 0;
	virtual double gain(double w) = 0;
	virtual double turn(double w) { return w; } // phase step of the output
	virtual Z response(double) { return NAN; } // with its phase, where specified
	virtual double cutoff() { return -1; }
	virtual bool fresh() { return true; } // the last sample made an output
	virtual bool skips(double) { return false; }
	virtual Unit *copy() const = 0;
	virtual void assign(const Unit &) = 0;
};

#define COPYABLE(U) \
	Unit *copy() const { return new U(*this); } \
	void assign(const Unit &o) { *this = static_cast<const U &>(o); }

template <typename R> static double coarse() { return std::is_same<R, float>::value ? 2e-3 : 1e-8; }

template <typename R>
struct BiquadUnit: Unit
{
	DSP::Biquad<DSP::Complex<R>, R> obj;
	int kind = -1;
	double w0 = 0, Q = 1;
	COPYABLE(BiquadUnit)
	void tune(Rng &rng)
	{
		kind = int(rng.range(0, 6));
		int N = int(rng.chance(1, 3) ? 100 : rng.chance(2, 3) ? common_rate(rng) : rng.range(100, 200000)), n = int(rng.range(N / 50, N * 24 / 50));
		w0 = 2 * M_PI * n / N;
		int dB = int(rng.range(-3, 10));
		Q = std::sqrt(.5);
		double q = rng.range(50, 500) / 100.;
		switch (kind) {
		case 0: obj.lowpass(n, N); break;
		case 1: obj.highpass(n, N); break;
		case 2: obj.lowpass(n, N, R(q)); Q = q; break;
		case 3: obj.highpass(n, N, R(q)); Q = q; break;
		case 4: obj.bandpass(n, N, R(dB)); Q = std::pow(10., dB / 10.); break;
		case 5: obj.notch(n, N, R(dB)); Q = std::pow(10., dB / 10.); break;
		default: obj.allpass(n, N, R(dB)); Q = std::pow(10., dB / 10.);
		}
		double alpha = std::sin(w0) / (2 * Q);
		tau = std::max(1., -2 / std::log((1 - alpha) / (1 + alpha)));
		tol = coarse<R>() * std::max(1., Q);
	}
	Z feed(Z in)
	{
		DSP::Complex<R> out = obj(DSP::Complex<R>(R(in.real()), R(in.imag())));
		return Z(double(out.real()), double(out.imag()));
	}
	double gain(double w)
	{
		if (kind < 0)
			return 1;
		double r = std::tan(std::min(w, M_PI - 1e-12) / 2) / std::tan(w0 / 2), x = (1 - r * r) * (1 - r * r), y = r * r / (Q * Q);
		switch (kind) {
		case 0: case 2: return std::sqrt(1 / (x + y));
		case 1: case 3: return std::sqrt(r * r * r * r / (x + y));
		case 4: return std::sqrt(y / (x + y));
		case 5: return std::sqrt(x / (x + y));
		default: return 1;
		}
	}
	Z response(double w)
	{
		if (kind < 0)
			return 1;
		// s / c is the ratio of the warped frequencies
		double c = std::cos(w / 2) * std::sin(w0 / 2);
		Z s(0, std::sin(w / 2) * std::cos(w0 / 2)), den = s * s + s * c / Q + c * c;
		switch (kind) {
		case 0: case 2: return c * c / den;
		case 1: case 3: return s * s / den;
		case 4: return s * c / Q / den;
		case 5: return (s * s + c * c) / den;
		default: return (s * s - s * c / Q + c * c) / den;
		}
	}
	double cutoff() { return kind < 0 ? -1 : w0; }
};

template <typename R, int NUM>
struct CascadeUnit: Unit
{
	DSP::BiquadCascade<R, R, NUM> re, im;
	bool high = false, tuned = false;
	double w0 = 0;
	COPYABLE(CascadeUnit)
	void tune(Rng &rng)
	{
		int N = int(rng.chance(1, 3) ? 100 : rng.chance(2, 3) ? common_rate(rng) : rng.range(100, 200000)), n = int(rng.range(N / 33, N * 23 / 50));
		high = rng.chance(1, 2);
		tuned = true;
		w0 = 2 * M_PI * n / N;
		if (high) {
			re.highpass(n, N);
			im.highpass(n, N);
		} else {
			re.lowpass(n, N);
			im.lowpass(n, N);
		}
		double alpha = std::sin(w0) * std::cos(M_PI * (2 * NUM - 1) / (4 * NUM));
		tau = std::max(1., -2 / std::log((1 - alpha) / (1 + alpha))) + NUM;
		tol = coarse<R>() * 2 * NUM;
	}
	Z feed(Z in) { return Z(double(re(R(in.real()))), double(im(R(in.imag())))); }
	double gain(double w)
	{
		if (!tuned)
			return 1;
		double r = std::tan(std::min(w, M_PI - 1e-12) / 2) / std::tan(w0 / 2);
		return 1 / std::sqrt(1 + std::pow(r, (high ? -4 : 4) * NUM));
	}
	Z response(double w)
	{
		if (!tuned)
			return 1;
		double c = std::cos(w / 2) * std::sin(w0 / 2);
		Z s(0, std::sin(w / 2) * std::cos(w0 / 2)), h = 1;
		for (int k = 0; k < NUM; ++k)
			h *= (high ? s * s : Z(c * c)) / (s * s + 2 * std::cos(M_PI * (2 * k + 1) / (4 * NUM)) * s * c + c * c);
		return h;
	}
	double cutoff() { return tuned ? w0 : -1; }
};

template <typename R>
struct EmaUnit: Unit
{
	DSP::EMA<DSP::Complex<R>, R> obj;
	double alpha = 1, w0 = -1;
	COPYABLE(EmaUnit)
	void tune(Rng &rng)
	{
		if (rng.chance(1, 8)) {
			// started somewhere
			alpha = double(R(rng.range(1, 100)) / R(100));
			w0 = -1;
			obj = DSP::EMA<DSP::Complex<R>, R>(DSP::Complex<R>(R(rng.unit()), R(-rng.unit())), R(alpha));
			rest = false;
		} else if (rng.chance(1, 2)) {
			int N = int(rng.chance(1, 3) ? 100 : rng.chance(2, 3) ? common_rate(rng) : rng.range(100, 200000)), n = int(rng.range(N / 100, N / 2));
			obj.cutoff(n, N);
			w0 = 2 * M_PI * n / N;
			double y = 1 - std::cos(w0);
			alpha = std::sqrt(y * y + 2 * y) - y; // from half the power at w0
		} else {
			int s = int(rng.range(1, 200));
			obj.samples(s);
			w0 = -1;
			alpha = 1. / s;
		}
		tau = 1 / alpha;
		tol = coarse<R>();
	}
	Z feed(Z in)
	{
		DSP::Complex<R> out = obj(DSP::Complex<R>(R(in.real()), R(in.imag())));
		return Z(double(out.real()), double(out.imag()));
	}
	double gain(double w) { return alpha / std::sqrt(1 - 2 * (1 - alpha) * std::cos(w) + (1 - alpha) * (1 - alpha)); }
	Z response(double w) { return alpha / (1. - std::polar(1 - alpha, -w)); }
	double cutoff() { return w0; }
};

template <typename R, int ORDER>
struct EmaCascadeUnit: Unit
{
	DSP::EMACascade<DSP::Complex<R>, R, ORDER> obj;
	double w0 = -1;
	COPYABLE(EmaCascadeUnit)
	void tune(Rng &rng)
	{
		int N = int(rng.chance(3, 4) ? common_rate(rng) : rng.range(8000, 200000)), n = int(rng.range(N / 100, N / 40));
		obj.cutoff(n, N);
		w0 = 2 * M_PI * n / N;
		tau = 3 / w0 + ORDER;
		tol = .004 + .0008 * ORDER; // the cutoff is met approximately
	}
	Z feed(Z in)
	{
		DSP::Complex<R> out = obj(DSP::Complex<R>(R(in.real()), R(in.imag())));
		return Z(double(out.real()), double(out.imag()));
	}
	double gain(double w) { return w0 < 0 || w == 0 ? 1 : std::sqrt(.5); }
	double cutoff() { return w0; }
	bool skips(double w) { return w0 > 0 && w != 0 && w != w0; }
};

template <typename R>
struct BlockUnit: Unit
{
	DSP::BlockDC<R, R> re, im;
	double a = 0;
	COPYABLE(BlockUnit)
	void tune(Rng &rng)
	{
		int s = int(rng.range(1, 200));
		re.samples(s);
		im.samples(s);
		a = (s - 1.) / s;
		tau = s;
		tol = coarse<R>();
	}
	Z feed(Z in) { return Z(double(re(R(in.real()))), double(im(R(in.imag())))); }
	double gain(double w) { return w == 0 ? 0 : (1 + a) / 2 * std::abs((1. - std::polar(1., -w)) / (1. - std::polar(a, -w))); }
	Z response(double w) { return w == 0 ? 0 : (1 + a) / 2 * (1. - std::polar(1., -w)) / (1. - std::polar(a, -w)); }
};

static double bessel(double x)
{
	double sum = 1, val = 1;
	for (int n = 1; n < 80; ++n) {
		val *= x / (2 * n);
		sum += val * val;
	}
	return sum;
}
static double kaiser(double a, int n, int N) { double t = 2. * n / (N - 1) - 1; return bessel(M_PI * a * std::sqrt(std::max(0., 1 - t * t))) / bessel(M_PI * a); }

template <typename R, int TAPS>
struct HilbertUnit: Unit
{
	DSP::Hilbert<DSP::Complex<R>, TAPS> obj;
	COPYABLE(HilbertUnit)
	HilbertUnit()
	{
		direct = false;
		tau = TAPS;
		tol = image = std::is_same<R, float>::value ? 1e-5 : 1e-10;
	}
	Z feed(Z in)
	{
		DSP::Complex<R> out = obj(R(in.real()));
		return Z(double(out.real()), double(out.imag()));
	}
	// the quadrature response of the windowed ideal transformer
	double quad(double w)
	{
		double s = 0;
		for (int k = 1; k <= (TAPS - 1) / 2; k += 2)
			s += kaiser(2, k + (TAPS - 1) / 2, TAPS) * 4 / (k * M_PI) * std::sin(k * w);
		return s;
	}
	double gain(double w) { image = std::fabs(quad(w) - 1) / 2 + tol; return (quad(w) + 1) / 2; }
	bool skips(double w) { return w < .1 || w > M_PI - .1; }
};

template <typename R, int TAPS>
struct CdcUnit: Unit
{
	DSP::CDC<DSP::Complex<R>, TAPS> obj;
	double kept = 0;
	bool odd = false;
	Z last;
	COPYABLE(CdcUnit)
	CdcUnit()
	{
		direct = false;
		tau = TAPS;
		tol = image = std::is_same<R, float>::value ? 1e-5 : 1e-10;
	}
	Z feed(Z in)
	{
		if (!odd) {
			kept = in.real();
		} else {
			DSP::Complex<R> out = obj(R(kept), R(in.real()));
			last = Z(double(out.real()), double(out.imag()));
		}
		odd = !odd;
		return last;
	}
	bool fresh() { return !odd; }
	// responses of the two branches of the windowed half-band filter
	double quad(double w)
	{
		double s = 0;
		for (int k = 1; k <= (TAPS - 1) / 2; k += 2)
			s += kaiser(2, k + (TAPS - 1) / 2, TAPS) * std::sin(M_PI * k / 2) / (k * M_PI) * 2 * std::cos(k * (w - M_PI / 2));
		return s;
	}
	double gain(double w) { image = std::fabs(quad(w) - .5) / 2 + tol; return (quad(w) + .5) / 2; }
	double turn(double w) { return 2 * w - M_PI; }
};

typedef std::unique_ptr<Unit> Ptr;
struct Entry { const char *name; Unit *(*make)(); };
#define UNIT(NAME, ...) { NAME, []() -> Unit * { return new __VA_ARGS__; } }
static const Entry entries[] = {
	UNIT("biquad<float>", BiquadUnit<float>),
	UNIT("biquad<double>", BiquadUnit<double>),
	UNIT("cascade<float,1>", CascadeUnit<float, 1>),
	UNIT("cascade<double,2>", CascadeUnit<double, 2>),
	UNIT("cascade<double,3>", CascadeUnit<double, 3>),
	UNIT("cascade<double,4>", CascadeUnit<double, 4>),
	UNIT("ema<float>", EmaUnit<float>),
	UNIT("ema<double>", EmaUnit<double>),
	UNIT("emacascade<double,2>", EmaCascadeUnit<double, 2>),
	UNIT("emacascade<double,4>", EmaCascadeUnit<double, 4>),
	UNIT("blockdc<float>", BlockUnit<float>),
	UNIT("blockdc<double>", BlockUnit<double>),
	UNIT("hilbert<float,33>", HilbertUnit<float, 33>),
	UNIT("hilbert<double,65>", HilbertUnit<double, 65>),
	UNIT("hilbert<double,9>", HilbertUnit<double, 9>),
	UNIT("cdc<float,33>", CdcUnit<float, 33>),
	UNIT("cdc<double,65>", CdcUnit<double, 65>),
	UNIT("cdc<double,13>", CdcUnit<double, 13>),
	// the remaining orders, seldom used
	UNIT("emacascade<float,1>", EmaCascadeUnit<float, 1>),
	UNIT("emacascade<float,3>", EmaCascadeUnit<float, 3>),
	UNIT("emacascade<double,5>", EmaCascadeUnit<double, 5>),
	UNIT("emacascade<float,6>", EmaCascadeUnit<float, 6>),
	UNIT("emacascade<double,7>", EmaCascadeUnit<double, 7>),
	UNIT("emacascade<float,8>", EmaCascadeUnit<float, 8>),
	UNIT("emacascade<double,9>", EmaCascadeUnit<double, 9>),
	UNIT("emacascade<float,10>", EmaCascadeUnit<float, 10>),
	UNIT("emacascade<double,11>", EmaCascadeUnit<double, 11>),
	UNIT("emacascade<float,12>", EmaCascadeUnit<float, 12>),
	UNIT("emacascade<double,13>", EmaCascadeUnit<double, 13>),
	UNIT("emacascade<float,14>", EmaCascadeUnit<float, 14>),
	UNIT("emacascade<double,15>", EmaCascadeUnit<double, 15>),
	UNIT("emacascade<float,16>", EmaCascadeUnit<float, 16>),
	UNIT("cascade<float,2>", CascadeUnit<float, 2>),
	UNIT("cascade<float,3>", CascadeUnit<float, 3>),
	UNIT("cascade<double,5>", CascadeUnit<double, 5>),
	UNIT("cascade<double,6>", CascadeUnit<double, 6>),
	UNIT("cascade<double,8>", CascadeUnit<double, 8>),
	UNIT("hilbert<double,5>", HilbertUnit<double, 5>),
	UNIT("hilbert<float,17>", HilbertUnit<float, 17>),
	UNIT("hilbert<double,129>", HilbertUnit<double, 129>),
	UNIT("cdc<float,5>", CdcUnit<float, 5>),
	UNIT("cdc<double,129>", CdcUnit<double, 129>),
};
enum { UNITS = sizeof entries / sizeof *entries, SELDOM = 24 };

// of a tone, in powers of ten
static int64_t level(Rng &rng) { return rng.chance(1, 2) ? 0 : rng.range(-13, 13); }

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	bool often = rng.chance(4, 5);
	plan.par = { often ? int64_t(index % (UNITS - SELDOM)) : rng.range(UNITS - SELDOM, UNITS - 1), 0 };
	int n = int(rng.scale(2, thorough ? 20 : 9));
	for (int i = 0; i < n; ++i) {
		int what = int(rng.range(0, 9));
		if (what < 3)
			plan.steps.push_back(Step(K_TUNE, int64_t(rng.next() >> 1)));
		else if (what < 6)
			plan.steps.push_back(Step(K_SIGNAL, rng.scale(1, 200), int64_t(rng.next() >> 1), rng.range(0, S_COUNT - 1), rng.range(-3, 5)));
		else if (what < 8)
			plan.steps.push_back(Step(K_TONE, rng.chance(1, 3) ? -1 : rng.chance(1, 2) ? rng.pick({ 0, 180, 90 }) : rng.range(0, 180), rng.range(1, 50), level(rng)));
		else if (what < 9)
			plan.steps.push_back(Step(K_SAVE));
		else
			plan.steps.push_back(Step(K_CRASH, rng.range(0, 1)));
	}
	repeat(rng, plan, { K_TUNE });
	stretch(rng, plan, 200, { K_SIGNAL }, 0);
	plan.steps.push_back(Step(K_TONE, rng.chance(1, 3) ? -1 : rng.range(0, 180), rng.range(1, 50), level(rng)));
}

static void execute(const Plan &plan, Ctx &ctx)
{
	const Entry &entry = entries[uint64_t(plan.p(P_UNIT)) % UNITS];
	Ptr live(entry.make()), save;
	double worst = 1, kept = 1; // the largest input so far
	int64_t n = 0;
	Z out;
	auto feed = [&](Z in) {
		out = live->feed(in);
		++ctx.ticks;
		++n;
		worst = std::max(worst, std::abs(in));
		if (!(std::abs(out) <= 1e4 * worst))
			ctx.fail("unbounded", "%s: sample %lld: output %g, inputs up to %g", entry.name, (long long)n, std::abs(out), worst);
	};
	for (const Step &s : plan.steps) {
		switch (s.kind) {
		case K_TUNE: {
			Rng rng(uint64_t(s.a[0]));
			live->tune(rng);
			if (!live->rest)
				worst = std::max(worst, 1.);
			ctx.fault("retuned", s.a[0] & 0xffff);
			if (!n && live->rest) {
				// it was never fed
				Ptr fresh(live->copy());
				for (int i = 0; i < 8; ++i)
					if (fresh->feed(0) != Z(0))
						ctx.fail("not-at-rest", "%s: a new filter answers silence", entry.name);
			}
			break;
		}
		case K_SIGNAL: {
			Rng rng(uint64_t(s.a[1]));
			int what = int(uint64_t(s.a[2]) % S_COUNT);
			double size = std::pow(10., double(std::max<int64_t>(-3, std::min<int64_t>(5, s.a[3]))));
			int64_t len = std::min<int64_t>(std::max<int64_t>(0, s.a[0]), 150000);
			ctx.fault(signals[what], len);
			Z stuck(rng.unit() * size, -rng.unit() * size);
			for (int64_t i = 0; i < len; ++i)
				switch (what) {
				case S_NOISE: feed(size * Z(rng.unit() * 2 - 1, rng.unit() * 2 - 1)); break;
				case S_SPIKES: feed(rng.chance(1, 8) ? size * Z(rng.unit() * 2 - 1, 1) : Z(0)); break;
				case S_DROPOUT: feed(0); break;
				case S_STUCK: feed(stuck); break;
				default: feed(std::polar(size, double(i) * double(i) * .005));
				}
			break;
		}
		case K_TONE: {
			double w = s.a[0] < 0 ? live->cutoff() : M_PI * double(std::min<int64_t>(180, s.a[0])) / 180;
			if (w < 0)
				w = M_PI / 2;
			if (live->skips(w))
				break;
			double want = live->gain(w), amp = std::pow(10., double(std::max<int64_t>(-13, std::min<int64_t>(13, s.a[2]))));
			bool flips = w == 0 || w == M_PI;
			int64_t need = int64_t(2 * live->tau * std::log(std::max(worst / amp, 1.) * 1e4 / live->tol)) + 20;
			int64_t len = need + std::min<int64_t>(std::max<int64_t>(1, s.a[1]), 200);
			const double start = .3;
			Z prev;
			for (int64_t i = 0; i < len; ++i) {
				Z in = std::polar(amp, w * double(i) + start);
				prev = out;
				feed(in);
				if (i < need)
					continue;
				if (live->direct) {
					double got = std::abs(out) / amp;
					if (!(std::fabs(got - want) <= live->tol))
						ctx.fail("wrong-gain", "%s: %lld samples after the last fault the gain at %.6f of the rate is %.9g, want %.9g within %.3g (cutoff %.6f)", entry.name, (long long)i, w / 2 / M_PI, got, want, live->tol, live->cutoff() / 2 / M_PI);
					Z h = live->response(w);
					if (!std::isnan(h.real()) && !(std::abs(out - h * in) <= 2 * live->tol * amp))
						ctx.fail("wrong-phase", "%s: %lld samples after the last fault the response at %.6f of the rate is %.9g%+.9gi, want %.9g%+.9gi (cutoff %.6f)", entry.name, (long long)i, w / 2 / M_PI, (out / in).real(), (out / in).imag(), h.real(), h.imag(), live->cutoff() / 2 / M_PI);
					// the same tone comes out
					if (want > .1 && !(std::abs(out - prev * std::polar(1., w)) <= (4 * live->tol + .0001) * amp))
						ctx.fail("wrong-tone", "%s: the tone of %.6f of the rate does not come out as such", entry.name, w / 2 / M_PI);
				} else {
					if (flips || !live->fresh())
						continue;
					double got = std::abs(out) / amp, slack = live->image + live->tol;
					if (!(got >= want - slack && got <= want + slack))
						ctx.fail("wrong-level", "%s: the tone of %.6f of the rate comes out at level %.9g, want %.9g within %.3g", entry.name, w / 2 / M_PI, got, want, slack);
					if (want > .1 && !(std::abs(out - prev * std::polar(1., live->turn(w))) <= 2 * slack * amp))
						ctx.fail("wrong-tone", "%s: the tone of %.6f of the rate does not come out turning by %.6f", entry.name, w / 2 / M_PI, live->turn(w) / 2 / M_PI);
				}
				ctx.progress = true;
			}
			worst = amp;
			ctx.count(want < .1 ? "state.stopband" : want > .9 ? "state.passband" : "state.between");
			break;
		}
		case K_SAVE:
			save.reset(live->copy());
			kept = worst;
			break;
		case K_CRASH:
			if (!save)
				break;
			ctx.fault("crash_and_restore", n);
			if (s.a[0])
				live->assign(*save);
			else
				live.reset(save->copy());
			worst = std::max(worst, kept);
			break;
		}
		int64_t bits;
		double sum = out.real() + 3 * out.imag();
		memcpy(&bits, &sum, sizeof bits);
		ctx.log("step", s.kind, n, bits);
	}
	ctx.count(std::string("state.unit.") + entry.name);
}

namespace sim {
static const int64_t par_min[] = { 0, 0 };
const Scenario scenario = { "C25", kinds, generate, execute, par_min, 2, pars };
}
