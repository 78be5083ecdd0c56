// C29: FIR filters designed at run time, in the middle of a faulty stream
#include "prelude.hh"
#include "const.hh"
#include "kahan.hh"
#include "utils.hh"
#include "unit_circle.hh"
#include "window.hh"
#include "filter.hh"
#include "coeffs.hh"
#include "bip_buffer.hh"
#include "complex.hh"
#include "hilbert.hh"
#include "cdc.hh"
#include "guard.hh"

using namespace sim;

enum { K_DESIGN = 1, K_SIGNAL, K_TONE, K_GAIN, K_SAVE, K_CRASH };
static const char *const kinds[] = { "none", "design shape window cutoff second parameter normalize", "signal length seed what level", "tone frequency length", "gain divisor", "save slot", "crash slot assign", nullptr };
enum { P_UNIT, P_PAT };
enum { NUNIT = 60 };
static const char *const pars[] = { "unit", "pattern", nullptr };
enum { S_NOISE, S_SPIKES, S_DROPOUT, S_STUCK, S_PULSE, S_BROKEN, S_COUNT };
static const char *const signals[] = { "noise", "spikes", "dropout", "stuck", "pulse", "not_finite" };
enum { LOW, LOW2, HIGH, HIGH2, BAND, HILBERT, SHAPES };
static const char *const shapes[] = { "lowpass", "lowpass2", "highpass", "highpass2", "bandpass", "hilbert" };
enum { NONE, RECT, HANN, HAMMING, LANCZOS, BLACK3, BLACK1, BLACK0, GAUSS, KAISER, WINDOWS };
static const char *const windows[] = { "none", "rect", "hann", "hamming", "lanczos", "blackman3", "blackman1", "blackman", "gauss", "kaiser" };

static const int dens[] = { 2, 4, 8, 1000, 8000, 44100, 48000, 96000 };
enum { DENS = sizeof dens / sizeof *dens };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	plan.par = { int64_t(index % NUNIT), rng.pick({ 0, 0xff, 0x7f, 0x3c }) };
	auto design = [&]() {
		bool kaiser = rng.chance(1, 4);
		plan.steps.push_back(Step(K_DESIGN, rng.range(0, SHAPES - 1), kaiser ? int64_t(KAISER) : rng.range(0, WINDOWS - 1), rng.range(1, 1000), rng.range(0, 1000), rng.range(kaiser ? 200 : 0, 300), rng.chance(1, 3)));
	};
	auto tone = [&]() {
		plan.steps.push_back(Step(K_TONE, rng.range(0, 1000), rng.range(1, 50)));
	};
	design();
	int n = int(rng.scale(2, thorough ? 40 : 14));
	for (int i = 0; i < n; ++i) {
		int what = int(rng.range(0, 12));
		if (what < 3)
			design();
		else if (what < 7)
			plan.steps.push_back(Step(K_SIGNAL, rng.scale(1, 200), int64_t(rng.next() >> 1), rng.range(0, S_COUNT - 1), rng.chance(1, 2) ? rng.range(-4, 4) : rng.range(-12, 12)));
		else if (what < 9)
			tone();
		else if (what < 10)
			plan.steps.push_back(Step(K_GAIN, rng.range(-40, 40)));
		else if (what < 11)
			plan.steps.push_back(Step(K_SAVE, rng.range(0, 1)));
		else
			plan.steps.push_back(Step(K_CRASH, rng.range(0, 1), rng.range(0, 1)));
	}
	repeat(rng, plan, { K_DESIGN, K_SIGNAL, K_TONE });
	stretch(rng, plan, 400, { K_SIGNAL }, 0);
	tone();
}

typedef long double L;
static const L PI = 3.14159265358979323846264338327950288L;

static L sinc(L x)
{
	return x == 0 ? 1 : std::sin(PI * x) / (PI * x);
}

static L bessel(L x)
{
	L sum = 1, val = 1;
	for (int n = 1; n < 200; ++n) {
		val *= x / (2 * n);
		sum += val * val;
	}
	return sum;
}

template <typename R>
struct Any
{
	std::function<R(int, int)> func;
	R operator () (int n, int N) const { return func(n, N); }
};

// what the filter is supposed to be, in higher precision
struct Ideal
{
	std::vector<L> w, tol;
	// zero, one or two edges, and the window's parameter where the response is known in advance
	int edges = -1;
	L low = 0, high = 0, kaiser = 0;
	L total(const std::vector<L> &v) const
	{
		L sum = 0;
		for (L x : v)
			sum += std::fabs(x);
		return sum;
	}
	bool normalize(L divisor, L eps)
	{
		L sum = 0;
		for (L x : w)
			sum += x;
		if (std::fabs(sum) < .05L * total(w) || std::fabs(sum) < 1e-3L)
			return false;
		L err = (total(tol) + L(w.size() + 4) * eps * total(w)) / std::fabs(sum);
		for (size_t i = 0; i < w.size(); ++i) {
			w[i] /= divisor * std::fabs(sum);
			tol[i] = tol[i] / std::fabs(divisor * sum) + std::fabs(w[i]) * (err + 4 * eps);
		}
		edges = -1;
		return true;
	}
};

// real code: one filter of so many taps
template <typename R>
struct Filter
{
	virtual ~Filter() {}
	virtual void design(uint8_t pattern, Any<R> *shape, Any<R> *window, bool norm) = 0;
	virtual void gain(bool given, R divisor) = 0;
	virtual const R *feed(R in) = 0;
	virtual R at(int n) = 0;
	virtual const R *table() = 0;
	virtual Filter *copy(uint8_t pattern) = 0;
	virtual void assign(Filter &) = 0;
};

template <typename R, int TAPS>
struct Taps: Filter<R>
{
	Slot<DSP::Coeffs<TAPS, R, false>> plain;
	Slot<DSP::Coeffs<TAPS, R, true>> unit;
	Slot<DSP::BipBuffer<R, TAPS>> hist;
	bool used = false;
	Taps(uint8_t pattern) { hist.create(pattern); }
	void design(uint8_t pattern, Any<R> *shape, Any<R> *window, bool norm)
	{
		if ((used = norm)) {
			if (window)
				unit.create(pattern, shape, window);
			else
				unit.create(pattern, shape);
		} else {
			if (window)
				plain.create(pattern, shape, window);
			else
				plain.create(pattern, shape);
		}
	}
	void gain(bool given, R divisor)
	{
		if (used)
			given ? (*unit).normalize(divisor) : (*unit).normalize();
		else
			given ? (*plain).normalize(divisor) : (*plain).normalize();
	}
	const R *feed(R in) { return (*hist)(in); }
	R at(int n) { return used ? (*unit)(n) : (*plain)(n); }
	const R *table() { return used ? static_cast<const R *>(*unit) : static_cast<const R *>(*plain); }
	Filter<R> *copy(uint8_t pattern)
	{
		Taps *o = new Taps(pattern);
		o->used = used;
		if (plain.get())
			o->plain.create(pattern, const_cast<const DSP::Coeffs<TAPS, R, false> &>(*plain));
		if (unit.get())
			o->unit.create(pattern, const_cast<const DSP::Coeffs<TAPS, R, true> &>(*unit));
		o->hist.create(pattern, const_cast<const DSP::BipBuffer<R, TAPS> &>(*hist));
		return o;
	}
	void assign(Filter<R> &f)
	{
		Taps &o = static_cast<Taps &>(f);
		used = o.used;
		if (o.plain.get()) {
			if (plain.get())
				*plain = *o.plain;
			else
				plain.create(0, *o.plain);
		}
		if (o.unit.get()) {
			if (unit.get())
				*unit = *o.unit;
			else
				unit.create(0, *o.unit);
		}
		*hist = *o.hist;
	}
};

template <typename FEED>
static void disturb(const Step &s, Ctx &ctx, FEED feed)
{
	Rng rng(uint64_t(s.a[1]));
	int what = int(uint64_t(s.a[2]) % S_COUNT);
	double size = std::pow(10., double(std::max<int64_t>(-12, std::min<int64_t>(12, s.a[3]))));
	int64_t len = std::min<int64_t>(std::max<int64_t>(0, s.a[0]), 150000);
	ctx.fault(signals[what], len);
	double stuck = size * (rng.unit() * 2 - 1);
	for (int64_t i = 0; i < len; ++i)
		switch (what) {
		case S_NOISE: feed(size * (rng.unit() * 2 - 1)); break;
		case S_SPIKES: feed(rng.chance(1, 8) ? size * (rng.unit() * 2 - 1) : 0); break;
		case S_DROPOUT: feed(0); break;
		case S_STUCK: feed(stuck); break;
		case S_PULSE: feed(i ? 0 : size); break;
		default: feed(i < 3 ? rng.chance(1, 2) ? NAN : INFINITY : size);
		}
}

template <typename R, int TAPS>
static void run(const Plan &plan, Ctx &ctx)
{
	const L eps = std::numeric_limits<R>::epsilon();
	uint8_t pat = uint8_t(plan.p(P_PAT));
	std::unique_ptr<Filter<R>> live(new Taps<R, TAPS>(pat)), save[2];
	struct State { Ideal f; std::vector<R> past = std::vector<R>(TAPS, R(0)); int64_t n = 0; L divided = 1; } m, kept[2];
	L last = 0;
	auto feed = [&](double in) {
		R x = R(in);
		const R *h = live->feed(x);
		++ctx.ticks;
		++m.n;
		m.past.erase(m.past.begin());
		m.past.push_back(x);
		const R *c = live->table();
		L out = 0, want = 0, tol = 0;
		bool finite = true;
		for (int i = 0; i < TAPS; ++i) {
			L p = m.past[TAPS - 1 - i];
			out += L(c[i]) * L(h[TAPS - 1 - i]);
			want += m.f.w[i] * p;
			tol += (m.f.tol[i] + 1e-18L * std::fabs(m.f.w[i])) * std::fabs(p);
			finite = finite && std::isfinite(p);
		}
		if (!finite)
			return;
		last = out;
		if (!(std::fabs(out - want) <= tol))
			ctx.fail("wrong-output", "%d taps, sample %lld: %.9Lg, want %.9Lg within %.3Lg", TAPS, (long long)m.n, out, want, tol);
		ctx.progress = true;
	};
	auto outside = [&]() {
		for (int n : { -TAPS, -2, -1, TAPS, TAPS + 1, 2 * TAPS })
			if (live->at(n) != 0)
				ctx.fail("not-zero-outside", "%d taps: coefficient %d is %.9g", TAPS, n, double(live->at(n)));
		for (int n = 0; n < TAPS; ++n)
			if (!(std::fabs(live->at(n) - m.f.w[n]) <= m.f.tol[n]))
				ctx.fail("wrong-coefficient", "%d taps: coefficient %d is %.9g, want %.9Lg within %.3Lg", TAPS, n, double(live->at(n)), m.f.w[n], m.f.tol[n]);
	};
	auto design = [&](const Step &s) {
		int shape = int(uint64_t(s.a[0]) % SHAPES), window = int(uint64_t(s.a[1]) % WINDOWS);
		int cut = int(std::max<int64_t>(1, std::min<int64_t>(1000, s.a[2]))), second = int(std::max<int64_t>(0, std::min<int64_t>(1000, s.a[3])));
		int den = dens[second % DENS], num = std::max(1, cut * den / 2000);
		R f0 = R(cut) / R(2000), f1 = R(second) / R(2000);
		Any<R> sh, wi;
		std::function<L(int)> is, iw;
		const int N = TAPS;
		auto low = [](L f, int n) { return f * sinc(f * (n - L(N - 1) / 2)); };
		L f = 2 * L(f0), g = 2 * L(f1), r = L(2 * num) / den, scale = 1;
		Ideal o;
		o.edges = shape == BAND ? f1 > f0 ? 2 : -1 : shape == HILBERT ? -1 : 1;
		switch (shape) {
		case LOW: sh.func = DSP::LowPass<R>(f0); is = [=](int n) { return low(f, n); }; o.low = 0; o.high = f / 2; break;
		case LOW2: sh.func = DSP::LowPass2<R>(num, den); is = [=](int n) { return low(r, n); }; o.low = 0; o.high = r / 2; break;
		case HIGH: sh.func = DSP::HighPass<R>(f0); is = [=](int n) { return low(1, n) - low(f, n); }; o.low = f / 2; o.high = .5L; break;
		case HIGH2: sh.func = DSP::HighPass2<R>(num, den); is = [=](int n) { return low(1, n) - low(r, n); }; o.low = r / 2; o.high = .5L; break;
		case BAND: sh.func = DSP::BandPass<R>(f0, f1); is = [=](int n) { return low(g, n) - low(f, n); }; o.low = f / 2; o.high = g / 2; break;
		default: sh.func = DSP::HilbertTransform<R>(); is = [=](int n) {
				int twox = 2 * n - (N - 1);
				return N & 1 ? twox / 2 & 1 ? 4 / (PI * twox) : 0 : 2 / (PI * twox);
			};
		}
		L p = std::max<int64_t>(0, std::min<int64_t>(300, s.a[4]));
		R a = R(p / 100), b = R(p / 1000), sigma = R((p + 30) / 300);
		auto turn = [](int n, int k) { return std::cos(2 * PI * ((L(n) * k) / (N - 1))); };
		switch (window) {
		case NONE: iw = [](int) { return L(1); }; break;
		case RECT: wi.func = DSP::Rect<R>(); iw = [](int) { return L(1); }; break;
		case HANN: wi.func = DSP::Hann<R>(); iw = [=](int n) { return .5L - .5L * turn(n, 1); }; break;
		case HAMMING: wi.func = DSP::Hamming<R>(); iw = [=](int n) { return .54L - .46L * turn(n, 1); }; break;
		case LANCZOS: wi.func = DSP::Lanczos<R>(); iw = [=](int n) { return sinc(2 * L(n) / (N - 1) - 1); }; break;
		case BLACK3: wi.func = DSP::Blackman<R>(R(.5) - b, R(.5), b); iw = [=](int n) { return L(R(.5) - b) - .5L * turn(n, 1) + L(b) * turn(n, 2); }; break;
		case BLACK1: wi.func = DSP::Blackman<R>(b); iw = [=](int n) { return (1 - L(b)) / 2 - .5L * turn(n, 1) + L(b) / 2 * turn(n, 2); }; break;
		case BLACK0: wi.func = DSP::Blackman<R>(); iw = [=](int n) { return (7938 - 9240 * turn(n, 1) + 1430 * turn(n, 2)) / 18608; }; break;
		case GAUSS: wi.func = DSP::Gauss<R>(sigma); iw = [=](int n) { L x = (n - L(N - 1) / 2) / (L(sigma) * (N - 1) / 2); return std::exp(-.5L * x * x); }; break;
		default: wi.func = DSP::Kaiser<R>(a); iw = [=](int n) { L x = 2 * L(n) / (N - 1) - 1; return bessel(PI * L(a) * std::sqrt(std::max(L(0), 1 - x * x))) / bessel(PI * L(a)); };
			o.kaiser = L(a);
		}
		for (int n = 0; n < N; ++n) {
			L x = is(n), y = iw(n);
			o.w.push_back(x * y);
			o.tol.push_back(24 * eps * scale * std::fabs(y) + 64 * eps * std::fabs(x) * std::max(std::fabs(y), L(.25)) + eps * eps);
		}
		m.f = o;
		bool norm = s.a[5] & 1 && m.f.normalize(1, eps);
		live->design(pat, &sh, window == NONE ? nullptr : &wi, norm);
		m.divided = 1;
		if (m.n)
			ctx.fault("redesigned", shape, window);
		ctx.count(std::string("state.shape.") + shapes[shape]);
		ctx.count(std::string("state.window.") + windows[window]);
		outside();
	};
	design(Step(K_DESIGN, LOW, HANN, 500));
	for (const Step &s : plan.steps) {
		int k = int(s.a[0] & 1);
		switch (s.kind) {
		case K_DESIGN:
			design(s);
			break;
		case K_GAIN: {
			// not so often that the rounding counts
			if (m.divided > 100 || !m.f.normalize(s.a[0] ? L(s.a[0]) / 4 : 1, eps))
				break;
			m.divided *= 10;
			live->gain(s.a[0], R(s.a[0]) / R(4));
			ctx.fault("renormalized", s.a[0]);
			outside();
			break;
		}
		case K_TONE: {
			L nu = L(std::max<int64_t>(0, std::min<int64_t>(1000, s.a[0]))) / 2000;
			int64_t len = TAPS + std::min<int64_t>(std::max<int64_t>(1, s.a[1]), 200);
			L gap = 1.3L * std::sqrt(1 + m.f.kaiser * m.f.kaiser) / TAPS;
			int known = m.f.edges < 0 || m.f.kaiser < 2 ? 0 :
				nu > m.f.low + (m.f.low > 0 ? gap : -1) && nu < m.f.high - (m.f.high < .5L ? gap : -1) ? 1 :
				nu < m.f.low - gap || nu > m.f.high + gap ? -1 : 0;
			// even numbers of taps have a zero at half the rate
			if (!(TAPS & 1) && nu > .5L - gap && m.f.high >= .5L)
				known = 0;
			for (int64_t i = 0; i < len; ++i) {
				feed(double(std::cos(2 * PI * nu * i)));
				// the middle of the filter sees the tone this late
				if (i < TAPS || !known)
					continue;
				L want = known > 0 ? std::cos(2 * PI * nu * (i - L(TAPS - 1) / 2)) : 0;
				if (!(std::fabs(last - want) <= .003L))
					ctx.fail("wrong-response", "%d taps: %lld samples after the last fault the tone of %.6Lg of the rate comes out as %.9Lg instead of %.9Lg (band %.6Lg to %.6Lg)", TAPS, (long long)i, nu, last, want, m.f.low, m.f.high);
			}
			ctx.count(known > 0 ? "state.passband" : known < 0 ? "state.stopband" : "state.between");
			break;
		}
		case K_SIGNAL:
			disturb(s, ctx, feed);
			break;
		case K_SAVE:
			save[k].reset(live->copy(uint8_t(~pat)));
			kept[k] = m;
			break;
		case K_CRASH:
			if (!save[k])
				break;
			ctx.fault("crash_and_restore", m.n, kept[k].n);
			if (s.a[1])
				live->assign(*save[k]);
			else
				live.reset(save[k]->copy(pat));
			m = kept[k];
			outside();
			break;
		}
		double low = double(last);
		int64_t bits;
		memcpy(&bits, &low, sizeof bits);
		ctx.log("step", s.kind, m.n, bits);
	}
}

// analytic signal: the middle of the past and, a quarter of a turn later, its Hilbert transform
template <typename R, int TAPS>
struct Analytic
{
	typedef DSP::Hilbert<DSP::Complex<R>, TAPS> T;
	// the transformer answers from what it had before
	enum { PER = 1, PAST = TAPS + 1 };
	static DSP::Complex<R> feed(T &obj, const R *in) { return obj(in[0]); }
	static void want(const std::vector<R> &p, const std::vector<L> &win, int64_t, L eps, L &re, L &im, L &tr, L &ti)
	{
		const int M = (TAPS - 1) / 2;
		re = p[M + 1];
		tr = 4 * eps * std::fabs(re);
		im = ti = 0;
		for (int k = -M; k <= M; ++k)
			if (k & 1) {
				L h = win[k + M] * 2 / (PI * k), x = p[M + 1 + k];
				im += h * x;
				ti += (16 + TAPS) * eps * std::fabs(h * x);
			}
	}
};

// down from a quarter of the rate: every second sample of each part of the half-band filtered signal
template <typename R, int TAPS>
struct Down
{
	typedef DSP::CDC<DSP::Complex<R>, TAPS> T;
	enum { PER = 2, PAST = TAPS + 1 };
	static DSP::Complex<R> feed(T &obj, const R *in) { return obj(in[0], in[1]); }
	static void want(const std::vector<R> &p, const std::vector<L> &win, int64_t n, L eps, L &re, L &im, L &tr, L &ti)
	{
		const int M = (TAPS - 1) / 2;
		// turned by minus a quarter per sample
		auto sign = [&](int back) { return (n / 2 - (back >> 1)) & 1 ? L(1) : L(-1); };
		re = sign(M) * L(p[M]) / 2;
		tr = 8 * eps * std::fabs(re);
		im = ti = 0;
		for (int k = -M; k <= M; ++k)
			if (k & 1) {
				L h = win[k + M] * sinc(L(k) / 2) / 2, x = sign(M + k) * L(p[M + k]);
				im += h * x;
				ti += (16 + TAPS) * eps * std::fabs(h * x);
			}
	}
};

template <typename R, typename U>
static void fixed(const Plan &plan, Ctx &ctx)
{
	typedef typename U::T T;
	const L eps = std::numeric_limits<R>::epsilon();
	const int TAPS = U::PAST - 1;
	uint8_t pat = uint8_t(plan.p(P_PAT));
	Slot<T> live, save[2];
	// newest sample first
	struct State { std::vector<R> past = std::vector<R>(U::PAST, R(0)); std::vector<L> win; int64_t n = 0; } m, kept[2];
	L last = 0;
	auto feed = [&](double x) {
		m.past.pop_back();
		m.past.insert(m.past.begin(), R(x));
		++m.n;
		++ctx.ticks;
		if (m.n % U::PER)
			return;
		R in[2] = { m.past[U::PER - 1], m.past[0] };
		DSP::Complex<R> out = U::feed(*live, in);
		L re, im, tr, ti;
		for (R p : m.past)
			if (!std::isfinite(p))
				return;
		U::want(m.past, m.win, m.n, eps, re, im, tr, ti);
		last = out.imag();
		if (!(std::fabs(out.real() - re) <= tr) || !(std::fabs(out.imag() - im) <= ti))
			ctx.fail("wrong-output", "%d taps, sample %lld: %.9g %+.9gi, want %.9Lg %+.9Lgi within %.3Lg and %.3Lg", TAPS, (long long)m.n, double(out.real()), double(out.imag()), re, im, tr, ti);
		ctx.progress = true;
	};
	auto design = [&](int64_t param, bool given, bool over) {
		L p = std::max<int64_t>(0, std::min<int64_t>(300, param));
		R a = given ? R(p / 100) : R(2);
		if (over && live.get())
			*live = given ? T(a) : T();
		else if (given)
			live.create(pat, a);
		else
			live.create(pat);
		m = State();
		for (int n = 0; n < TAPS; ++n) {
			L x = 2 * L(n) / (TAPS - 1) - 1;
			m.win.push_back(bessel(PI * L(a) * std::sqrt(std::max(L(0), 1 - x * x))) / bessel(PI * L(a)));
		}
	};
	design(0, false, false);
	for (const Step &s : plan.steps) {
		int k = int(s.a[0] & 1);
		switch (s.kind) {
		case K_DESIGN:
			if (m.n)
				ctx.fault("redesigned", s.a[4]);
			design(s.a[4], s.a[1] == KAISER, s.a[5] & 1);
			break;
		case K_TONE: {
			L nu = L(std::max<int64_t>(0, std::min<int64_t>(1000, s.a[0]))) / 2000;
			int64_t len = TAPS + std::min<int64_t>(std::max<int64_t>(1, s.a[1]), 200);
			for (int64_t i = 0; i < len; ++i)
				feed(double(std::cos(2 * PI * nu * i)));
			break;
		}
		case K_SIGNAL:
			disturb(s, ctx, feed);
			break;
		case K_SAVE:
			save[k].create(uint8_t(~pat), const_cast<const T &>(*live));
			kept[k] = m;
			break;
		case K_CRASH:
			if (!save[k].get())
				break;
			ctx.fault("crash_and_restore", m.n, kept[k].n);
			if (s.a[1])
				*live = *save[k];
			else
				live.create(pat, const_cast<const T &>(*save[k]));
			m = kept[k];
			break;
		}
		double low = double(last);
		int64_t bits;
		memcpy(&bits, &low, sizeof bits);
		ctx.log("step", s.kind, m.n, bits);
	}
}

static void execute(const Plan &plan, Ctx &ctx)
{
	switch (uint64_t(plan.p(P_UNIT)) % NUNIT) {
	case 0: return run<float, 2>(plan, ctx);
	case 1: return run<double, 2>(plan, ctx);
	case 2: return run<float, 3>(plan, ctx);
	case 3: return run<double, 3>(plan, ctx);
	case 4: return run<float, 4>(plan, ctx);
	case 5: return run<double, 5>(plan, ctx);
	case 6: return run<float, 8>(plan, ctx);
	case 7: return run<double, 8>(plan, ctx);
	case 8: return run<float, 9>(plan, ctx);
	case 9: return run<double, 11>(plan, ctx);
	case 10: return run<float, 16>(plan, ctx);
	case 11: return run<double, 17>(plan, ctx);
	case 12: return run<float, 31>(plan, ctx);
	case 13: return run<double, 31>(plan, ctx);
	case 14: return run<float, 32>(plan, ctx);
	case 15: return run<double, 33>(plan, ctx);
	case 16: return run<float, 63>(plan, ctx);
	case 17: return run<double, 64>(plan, ctx);
	case 18: return run<float, 65>(plan, ctx);
	case 19: return run<double, 65>(plan, ctx);
	case 20: return run<float, 127>(plan, ctx);
	case 21: return run<double, 128>(plan, ctx);
	case 22: return run<float, 129>(plan, ctx);
	case 23: return run<double, 255>(plan, ctx);
	case 24: return fixed<float, Analytic<float, 5>>(plan, ctx);
	case 25: return fixed<double, Analytic<double, 9>>(plan, ctx);
	case 26: return fixed<double, Analytic<double, 33>>(plan, ctx);
	case 27: return fixed<float, Analytic<float, 65>>(plan, ctx);
	case 28: return fixed<float, Down<float, 5>>(plan, ctx);
	case 29: return fixed<double, Down<double, 9>>(plan, ctx);
	case 30: return fixed<double, Down<double, 21>>(plan, ctx);
	case 31: return fixed<float, Down<float, 65>>(plan, ctx);
	case 32: return run<float, 6>(plan, ctx);
	case 33: return run<double, 7>(plan, ctx);
	case 34: return run<float, 10>(plan, ctx);
	case 35: return run<double, 12>(plan, ctx);
	case 36: return run<float, 13>(plan, ctx);
	case 37: return run<double, 15>(plan, ctx);
	case 38: return run<float, 20>(plan, ctx);
	case 39: return run<double, 21>(plan, ctx);
	case 40: return run<float, 24>(plan, ctx);
	case 41: return run<double, 25>(plan, ctx);
	case 42: return run<float, 48>(plan, ctx);
	case 43: return run<double, 51>(plan, ctx);
	case 44: return run<float, 99>(plan, ctx);
	case 45: return run<double, 100>(plan, ctx);
	case 46: return run<float, 101>(plan, ctx);
	case 47: return run<double, 200>(plan, ctx);
	case 48: return fixed<double, Analytic<double, 13>>(plan, ctx);
	case 49: return fixed<float, Analytic<float, 17>>(plan, ctx);
	case 50: return fixed<double, Analytic<double, 21>>(plan, ctx);
	case 51: return fixed<float, Analytic<float, 25>>(plan, ctx);
	case 52: return fixed<double, Analytic<double, 29>>(plan, ctx);
	case 53: return fixed<float, Analytic<float, 129>>(plan, ctx);
	case 54: return fixed<float, Down<float, 13>>(plan, ctx);
	case 55: return fixed<double, Down<double, 17>>(plan, ctx);
	case 56: return fixed<float, Down<float, 25>>(plan, ctx);
	case 57: return fixed<double, Down<double, 29>>(plan, ctx);
	case 58: return fixed<float, Down<float, 33>>(plan, ctx);
	case 59: return fixed<double, Down<double, 129>>(plan, ctx);
	}
}

namespace sim {
static const int64_t par_min[] = { 0, 0 };
const Scenario scenario = { "C29", kinds, generate, execute, par_min, 2, pars };
}
