// C20: identification of an unknown system by the adaptive filters, with wrong samples, lost samples and system changes
#include "prelude.hh"
#include "complex.hh"
#include "utils.hh"
#include "lms.hh"
#include "guard.hh"

using namespace sim;

enum { K_RUN = 1, K_BURST, K_CHANGE, K_SETTLE, K_SAVE, K_CRASH };
static const char *const kinds[] = { "none", "run", "burst", "change", "settle", "save", "crash", nullptr };
enum { P_TYPE, P_LEVEL, P_PAT, P_SYSTEM };
static const char *const pars[] = { "type", "level_exponent", "pattern", "system", nullptr };
enum { NTYPE = 21 };
enum { B_INPUT, B_DESIRED, B_BOTH, B_SILENT, B_STUCK, B_LOST, B_REPEATED, B_TINY, B_COUNT };
static const char *const bursts[] = { "wrong_input", "wrong_desired", "wrong_both", "input_dropout", "input_stuck", "desired_late", "desired_early", "input_fading" };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	plan.par = { int64_t(index % NTYPE), rng.chance(1, 2) ? 0 : rng.range(-9, 9), rng.pick({ 0, 0xff, 0x01, 0x3c }), int64_t(rng.next() >> 1) };
	int n = int(rng.scale(1, thorough ? 24 : 10)), settle = 0;
	for (int i = 0; i < n; ++i) {
		int what = int(rng.range(0, 11));
		int64_t mu = rng.chance(1, 3) ? 100 : rng.range(1, 199);
		if (what < 4)
			plan.steps.push_back(Step(K_RUN, rng.scale(1, 60), int64_t(rng.next() >> 1), mu));
		else if (what < 8)
			plan.steps.push_back(Step(K_BURST, rng.scale(1, 40), int64_t(rng.next() >> 1), mu, rng.range(0, B_COUNT - 1), rng.range(-4, 5)));
		else if (what < 9)
			plan.steps.push_back(Step(K_CHANGE, int64_t(rng.next() >> 1)));
		else if (what < 10)
			plan.steps.push_back(Step(K_SAVE));
		else if (what < 11)
			plan.steps.push_back(Step(K_CRASH, rng.range(0, 1)));
		else if (settle++ < 2)
			plan.steps.push_back(Step(K_SETTLE, 0, int64_t(rng.next() >> 1), rng.range(30, 150)));
	}
	repeat(rng, plan, { K_RUN, K_BURST, K_CHANGE });
	stretch(rng, plan, 400, { K_RUN }, 0);
	if (rng.chance(1, 2))
		plan.steps.push_back(Step(K_SETTLE, 0, int64_t(rng.next() >> 1), rng.range(30, 150)));
}

typedef std::complex<double> Z;

template <typename V> struct Kind
{
	typedef V real;
	enum { cmplx = 0 };
	static V make(Z z) { return V(z.real()); }
	static Z get(V v) { return double(v); }
};
template <typename R> struct Kind<DSP::Complex<R>>
{
	typedef R real;
	enum { cmplx = 1 };
	static DSP::Complex<R> make(Z z) { return DSP::Complex<R>(R(z.real()), R(z.imag())); }
	static Z get(DSP::Complex<R> v) { return Z(double(v.real()), double(v.imag())); }
};

template <typename OBJ, typename T, int N>
static void run(const Plan &plan, Ctx &ctx)
{
	typedef Kind<T> K;
	typedef typename K::real R;
	const double eps = std::numeric_limits<R>::epsilon(), tiny = 1e9 * std::numeric_limits<R>::min();
	// products of large coefficients and large samples have to stay numbers
	const int most = sizeof(R) < 8 ? 6 : 9;
	const double level = std::pow(10., double(std::max<int64_t>(-most, std::min<int64_t>(most, plan.p(P_LEVEL)))));
	uint8_t pat = uint8_t(plan.p(P_PAT));
	std::unique_ptr<Slot<OBJ>> live(new Slot<OBJ>), save;
	live->create(pat);
	struct State
	{
		std::vector<Z> x, truth, g; // what the filter saw, what the system saw, the system
		Z wrong; // the last of the system's previous outputs
		int64_t n = 0;
	} m, kept;
	m.x.assign(N, Z(0));
	m.truth.assign(N, Z(0));
	auto draw = [&](Rng &rng) {
		Z z(rng.unit() * 2 - 1, rng.unit() * 2 - 1);
		return K::cmplx ? z : Z(z.real());
	};
	auto system = [&](uint64_t seed) {
		Rng rng(seed);
		m.g.clear();
		for (int i = 0; i < N; ++i)
			m.g.push_back(draw(rng) * (rng.chance(1, 4) ? 0. : 1.));
	};
	system(uint64_t(plan.p(P_SYSTEM)));
	for (int i = 0; i < N; ++i)
		if (K::get(static_cast<const T *>(const_cast<const OBJ &>(**live))[i]) != Z(0))
			ctx.fail("not-new", "<%d> coefficient %d of a new filter is not zero", N, i);
	auto rounded = [&](Z z) { return K::get(K::make(z)); };
	auto feed = [&](Z truth, Z seen, bool use, Z other, double mu_) {
		R mu = R(mu_);
		m.truth.erase(m.truth.begin());
		m.truth.push_back(rounded(truth));
		Z d = 0;
		for (int i = 0; i < N; ++i)
			d += m.g[size_t(i)] * m.truth[size_t(i)];
		if (use)
			d = other;
		d = rounded(d);
		seen = rounded(seen);
		m.x.erase(m.x.begin());
		m.x.push_back(seen);
		Z f[N];
		const T *c = const_cast<const OBJ &>(**live);
		for (int i = 0; i < N; ++i)
			f[i] = K::get(c[i]);
		// one is what it takes by itself
		Z e = K::get(mu == R(1) && m.n & 1 ? (**live)(K::make(seen), K::make(d)) : (**live)(K::make(seen), K::make(d), mu));
		++ctx.ticks;
		++m.n;
		Z want = d;
		double mag = std::abs(d), power = 0;
		for (int i = 0; i < N; ++i) {
			want -= f[i] * m.x[size_t(i)];
			mag += std::abs(f[i]) * std::abs(m.x[size_t(i)]);
			power += std::norm(m.x[size_t(i)]);
		}
		double tol = eps * (4 * N + 16) * mag + tiny;
		if (!(std::abs(e - want) <= tol))
			ctx.fail("wrong-error", "<%d> step %lld: returned %.9g%+.9gi, the filter before its update leaves %.9g%+.9gi within %.3g", N, (long long)m.n, e.real(), e.imag(), want.real(), want.imag(), tol);
		c = const_cast<const OBJ &>(**live);
		Z left = d;
		double mag2 = std::abs(d);
		for (int i = 0; i < N; ++i) {
			Z now = K::get(c[i]), move = power > 0 ? double(mu) * e * std::conj(m.x[size_t(i)]) / power : Z(0);
			double t = power > 0 ? eps * ((4 * N + 16) * std::abs(move) + 4 * (std::abs(f[i]) + std::abs(now))) + tiny : 0;
			if (!(std::abs(now - f[i] - move) <= t))
				ctx.fail("wrong-update", "<%d> step %lld: coefficient %d moved by %.9g%+.9gi, want %.9g%+.9gi within %.3g", N, (long long)m.n, i, (now - f[i]).real(), (now - f[i]).imag(), move.real(), move.imag(), t);
			left -= now * m.x[size_t(i)];
			mag2 += (std::abs(now) + std::abs(f[i])) * std::abs(m.x[size_t(i)]);
		}
		if (power > 0) {
			Z rest = (1 - double(mu)) * e;
			double t = eps * (8 * N + 32) * (mag2 + std::abs(e)) + tiny * 1e6;
			if (!(std::abs(left - rest) <= t))
				ctx.fail("wrong-shrink", "<%d> step %lld: error %.9g%+.9gi on the same inputs after the update, want %.9g%+.9gi", N, (long long)m.n, left.real(), left.imag(), rest.real(), rest.imag());
		} else {
			ctx.count("state.no_energy");
		}
		ctx.progress = true;
	};
	for (const Step &s : plan.steps) {
		Rng rng(uint64_t(s.a[1]));
		double mu = double(std::max<int64_t>(1, std::min<int64_t>(199, s.a[2]))) / 100;
		int64_t len = std::min<int64_t>(std::max<int64_t>(0, s.a[0]), 150000);
		switch (s.kind) {
		case K_RUN:
			for (int64_t i = 0; i < len; ++i) {
				Z x = level * draw(rng);
				feed(x, x, false, 0, mu);
			}
			break;
		case K_BURST: {
			int what = int(uint64_t(s.a[3]) % B_COUNT);
			double size = level * std::pow(10., double(std::max<int64_t>(-4, std::min<int64_t>(5, s.a[4]))));
			Z stuck = level * draw(rng), late = 0;
			for (int64_t i = 0; i < len; ++i) {
				Z x = level * draw(rng), d = 0;
				for (int k = 1; k < N; ++k)
					d += m.g[size_t(k - 1)] * m.truth[size_t(k)];
				d += m.g[N - 1] * x;
				ctx.fault(bursts[what], i);
				switch (what) {
				case B_INPUT: feed(x, size * draw(rng), false, 0, mu); break;
				case B_DESIRED: feed(x, x, true, size * draw(rng), mu); break;
				case B_BOTH: feed(x, size * draw(rng), true, size * draw(rng), mu); break;
				case B_SILENT: feed(0, 0, false, 0, mu); break;
				case B_STUCK: feed(x, stuck, false, 0, mu); break;
				case B_LOST: feed(x, x, true, late, mu); break;
				case B_REPEATED: feed(x, m.x.back(), false, 0, mu); break;
				default: feed(x * 1e-3, x * 1e-3, false, 0, mu);
				}
				late = d;
			}
			break;
		}
		case K_CHANGE:
			ctx.fault("system_change");
			system(uint64_t(s.a[0]));
			break;
		case K_SETTLE: {
			mu = std::max(.3, std::min(1.5, mu));
			double off = 0, size = 0;
			const T *c = const_cast<const OBJ &>(**live);
			for (int i = 0; i < N; ++i) {
				off += std::norm(K::get(c[i]) - m.g[size_t(i)]);
				size += std::norm(m.g[size_t(i)]);
			}
			if (!std::isfinite(off))
				ctx.fail("diverged", "<%d> step %lld: coefficients are not finite", N, (long long)m.n);
			if (size == 0)
				break;
			double rate = mu * (2 - mu) / N, ratio = std::sqrt(off / size) / eps + 10;
			int64_t need = int64_t(4 * 2 * std::log(ratio) / rate) + 100 * N;
			double worst = 0;
			for (int64_t i = 0; i < need + 20; ++i) {
				Z x = level * draw(rng);
				feed(x, x, false, 0, mu);
				if (i >= need) {
					double y = 0;
					for (int k = 0; k < N; ++k)
						y += std::sqrt(size) * std::abs(m.x[size_t(k)]);
					Z left = 0;
					const T *now = const_cast<const OBJ &>(**live);
					for (int k = 0; k < N; ++k)
						left += (K::get(now[k]) - m.g[size_t(k)]) * m.x[size_t(k)];
					worst = std::max(worst, std::abs(left) / (y + 1e-300));
				}
			}
			if (!(worst <= 400 * eps))
				ctx.fail("not-converged", "<%d> mu %.2f: %lld clean samples after the last fault the error is still %.3g of the output", N, mu, (long long)need, worst);

			ctx.count("state.settled");
			break;
		}
		case K_SAVE:
			save.reset(new Slot<OBJ>);
			save->create(uint8_t(~pat), const_cast<const OBJ &>(**live));
			kept = m;
			break;
		case K_CRASH:
			if (!save)
				break;
			ctx.fault("crash_and_restore", m.n, kept.n);
			if (s.a[0]) {
				**live = **save;
			} else {
				live.reset(new Slot<OBJ>);
				live->create(pat, const_cast<const OBJ &>(**save));
			}
			{
				std::vector<Z> g = m.g;
				m = kept;
				m.g = g; // the world does not go back
			}
			break;
		}
		double sum = 0;
		for (int i = 0; i < N; ++i)
			sum += std::abs(K::get(static_cast<const T *>(const_cast<const OBJ &>(**live))[i]));
		int64_t bits;
		memcpy(&bits, &sum, sizeof bits);
		ctx.log("step", s.kind, m.n, bits);
	}
}

template <typename V, int N> static void real(const Plan &plan, Ctx &ctx) { run<DSP::NLMS<V, N>, V, N>(plan, ctx); }
template <typename R, int N> static void cmplx(const Plan &plan, Ctx &ctx) { run<DSP::NCLMS<DSP::Complex<R>, N>, DSP::Complex<R>, N>(plan, ctx); }

static void execute(const Plan &plan, Ctx &ctx)
{
	switch (plan.p(P_TYPE)) {
	case 0: return real<float, 1>(plan, ctx);
	case 1: return real<float, 5>(plan, ctx);
	case 2: return real<double, 8>(plan, ctx);
	case 3: return real<double, 21>(plan, ctx);
	case 4: return cmplx<float, 3>(plan, ctx);
	case 5: return cmplx<double, 7>(plan, ctx);
	case 6: return cmplx<double, 16>(plan, ctx);
	case 7: return real<float, 2>(plan, ctx);
	case 8: return real<double, 3>(plan, ctx);
	case 9: return real<float, 4>(plan, ctx);
	case 10: return real<double, 6>(plan, ctx);
	case 11: return real<float, 10>(plan, ctx);
	case 12: return real<double, 12>(plan, ctx);
	case 13: return real<double, 32>(plan, ctx);
	case 14: return real<double, 64>(plan, ctx);
	case 15: return cmplx<float, 1>(plan, ctx);
	case 16: return cmplx<double, 2>(plan, ctx);
	case 17: return cmplx<float, 4>(plan, ctx);
	case 18: return cmplx<double, 5>(plan, ctx);
	case 19: return cmplx<float, 8>(plan, ctx);
	case 20: return cmplx<double, 32>(plan, ctx);
	}
}

namespace sim {
static const int64_t par_min[] = { 0, -9, 0, 0 };
const Scenario scenario = { "C20", kinds, generate, execute, par_min, 4, pars };
}
