// C30: curves through readings that arrive lost, late, wrong and revised
#include "prelude.hh"
#include "complex.hh"
#include "spline.hh"
#include "guard.hh"

using namespace sim;

enum { K_READING = 1, K_LINE, K_BUILD, K_LOOK, K_SAVE, K_CRASH };
static const char *const kinds[] = { "none", "reading slot seed fate level", "line offset slope", "build stride start spacing assign", "look count seed where", "save slot", "crash slot assign", nullptr };
enum { P_UNIT, P_PAT };
static const char *const pars[] = { "unit", "pattern", nullptr };
enum { F_GOOD, F_LOST, F_STALE, F_SPIKE, F_STUCK, F_NAN, F_COUNT };
static const char *const fates[] = { "good", "lost", "repeated", "spike", "stuck", "not_finite" };
enum { W_INSIDE, W_KNOTS, W_NEAR, W_BESIDE, W_FAR, W_COUNT };
static const char *const wheres[] = { "inside", "on_knots", "next_to_knots", "beside", "far" };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	plan.par = { int64_t(index % 24), rng.pick({ 0, 0xff, 0x7f, 0x3c }) };
	bool faulty = rng.chance(5, 6);
	int level = int(rng.chance(1, 2) ? rng.range(-3, 3) : rng.range(-12, 12));
	auto reading = [&]() {
		int fate = faulty && rng.chance(1, 3) ? int(rng.range(1, F_COUNT - 1)) : int(F_GOOD);
		plan.steps.push_back(Step(K_READING, rng.range(0, 63), int64_t(rng.next() >> 1), fate, level + (rng.chance(1, 8) ? rng.range(-2, 2) : 0)));
	};
	auto build = [&]() {
		plan.steps.push_back(Step(K_BUILD, rng.chance(1, 2) ? 1 : rng.range(1, 5), rng.range(-40, 40), rng.chance(1, 4) ? 8 : rng.range(1, 80), rng.range(0, 1)));
	};
	auto look = [&]() {
		plan.steps.push_back(Step(K_LOOK, rng.scale(1, thorough ? 100 : 30), int64_t(rng.next() >> 1), rng.range(0, W_COUNT - 1)));
	};
	int first = int(rng.scale(3, 80));
	for (int i = 0; i < first; ++i)
		reading();
	build();
	look();
	int n = int(rng.scale(2, thorough ? 60 : 24));
	for (int i = 0; i < n; ++i) {
		int what = int(rng.range(0, 15));
		if (what < 5)
			reading();
		else if (what < 6)
			plan.steps.push_back(Step(K_LINE, rng.range(-100, 100), rng.range(-100, 100)));
		else if (what < 9)
			build();
		else if (what < 13)
			look();
		else if (what < 14)
			plan.steps.push_back(Step(K_SAVE, rng.range(0, 1)));
		else
			plan.steps.push_back(Step(K_CRASH, rng.range(0, 1), rng.range(0, 1)));
	}
	repeat(rng, plan, { K_READING, K_BUILD, K_LOOK });
	build();
	look();
}

typedef long double L;

struct Point { L re = 0, im = 0; };
static Point point(float v) { return { v, 0 }; }
static Point point(double v) { return { v, 0 }; }
template <typename R> static Point point(DSP::Complex<R> v) { return { v.real(), v.imag() }; }
static float make(float *, L re, L) { return float(re); }
static double make(double *, L re, L) { return double(re); }
template <typename R> static DSP::Complex<R> make(DSP::Complex<R> *, L re, L im) { return DSP::Complex<R>(R(re), R(im)); }

// value and derivative
struct Value { L y = 0, d = 0, size = 0; };

// the smoothest curve through evenly spaced points, by its second derivatives
struct Natural
{
	std::vector<L> y, m;
	L size = 0;
	void set(const std::vector<L> &v)
	{
		y = v;
		size_t n = y.size();
		m.assign(n, 0);
		std::vector<L> p(n, 0);
		size = 0;
		for (L x : y)
			size = std::max(size, std::fabs(x));
		for (size_t i = 1; i + 1 < n; ++i) {
			p[i] = -1 / (4 + p[i - 1]);
			m[i] = -p[i] * (6 * (y[i + 1] - 2 * y[i] + y[i - 1]) - m[i - 1]);
		}
		for (size_t i = n - 1; i-- > 1;)
			m[i] += p[i] * m[i + 1];
	}
	Value at(L x) const
	{
		int n = int(y.size()), k = std::max(0, std::min(n - 2, int(std::floor(x))));
		L t = x - k, s = 1 - t;
		Value v;
		v.y = s * y[k] + t * y[k + 1] + (s * s * s - s) * m[k] / 6 + (t * t * t - t) * m[k + 1] / 6;
		v.d = y[k + 1] - y[k] + (1 - 3 * s * s) * m[k] / 6 + (3 * t * t - 1) * m[k + 1] / 6;
		L o = 1 + std::fabs(t);
		v.size = size * o * o * o;
		return v;
	}
};

// the local one: slopes are the mean of those beside, at the ends the only one there is
struct Hermite
{
	std::vector<L> x, y;
	L slope(int k, L &size) const
	{
		int n = int(x.size());
		L sum = 0, big = 0;
		int c = 0;
		for (int i = std::max(0, k - 1); i < std::min(n - 1, k + 1); ++i, ++c) {
			sum += (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
			big += (std::fabs(y[i + 1]) + std::fabs(y[i])) / (x[i + 1] - x[i]);
		}
		size = big / c;
		return sum / c;
	}
	Value at(L at, int k) const
	{
		L h = x[k + 1] - x[k], t = (at - x[k]) / h, s0, s1;
		L a = h * slope(k, s0), b = h * slope(k + 1, s1), r = y[k + 1] - y[k];
		Value v;
		v.y = y[k] + t * (a + t * ((3 * r - 2 * a - b) + t * (a + b - 2 * r)));
		v.d = a + t * (2 * (3 * r - 2 * a - b) + t * 3 * (a + b - 2 * r));
		L o = 1 + std::fabs(t);
		v.size = (std::fabs(y[k]) + std::fabs(y[k + 1]) + h * (s0 + s1)) * o * o * o;
		return v;
	}
	Value at(L at) const
	{
		int n = int(x.size()), k = 0;
		while (k < n - 2 && x[k + 1] < at)
			++k;
		return this->at(at, k);
	}
};

template <typename V, typename R, int KNOTS>
static void run(const Plan &plan, Ctx &ctx)
{
	typedef DSP::UniformNaturalCubicSpline<KNOTS, V, R> Spline;
	typedef DSP::CubicHermiteSpline<V, R> Local;
	const L eps = std::numeric_limits<R>::epsilon();
	uint8_t pat = uint8_t(plan.p(P_PAT));
	static Guarded ys(1 << 16), xs(1 << 16);
	Slot<Spline> live, save[2];
	struct Slots { bool there = false; R time = 0; V value = V(0); };
	struct State
	{
		Slots table[KNOTS];
		Natural re, im;
		R x0 = 0, dx = 1;
		bool built = false;
		int64_t n = 0;
	} m, kept[2];
	L last = 0;
	auto check = [&](const char *cls, L x, V got, Value re, Value im, L terr) {
		Point p = point(got);
		L tr = 128 * eps * re.size + (std::fabs(re.d) + eps * re.size) * terr, ti = 128 * eps * im.size + (std::fabs(im.d) + eps * im.size) * terr;
		last = p.re;
		++ctx.ticks;
		ctx.progress = true;
		if (!(std::fabs(p.re - re.y) <= tr) || !(std::fabs(p.im - im.y) <= ti))
			ctx.fail(cls, "%d knots, at %.9Lg: %.9Lg %+.9Lgi, want %.9Lg %+.9Lgi within %.3Lg", KNOTS, x, p.re, p.im, re.y, im.y, std::max(tr, ti));
	};
	// where to look, in knots
	auto place = [&](Rng &rng, int where, int n) {
		double k = double(rng.range(0, n - 1));
		switch (where) {
		case W_INSIDE: return rng.unit() * (n - 1);
		case W_KNOTS: return k;
		case W_NEAR: return k + std::ldexp(rng.unit() * 2 - 1, -int(rng.range(4, 30)));
		case W_BESIDE: return rng.chance(1, 2) ? -3 * rng.unit() : n - 1 + 3 * rng.unit();
		default: return rng.chance(1, 2) ? -100 * rng.unit() : n - 1 + 100 * rng.unit();
		}
	};
	for (const Step &s : plan.steps) {
		int k = int(s.a[0] & 1);
		switch (s.kind) {
		case K_READING: {
			int slot = int(uint64_t(s.a[0]) % KNOTS), fate = int(uint64_t(s.a[2]) % F_COUNT);
			Rng rng(uint64_t(s.a[1]));
			L size = std::pow(10.L, L(std::max<int64_t>(-14, std::min<int64_t>(14, s.a[3]))));
			L re = size * (L(rng.unit()) * 2 - 1), im = size * (L(rng.unit()) * 2 - 1);
			if (fate != F_GOOD)
				ctx.fault(fates[fate], slot);
			Slots &t = m.table[slot];
			// never two at the same time
			R time = R(slot) * R(4) + R(int64_t(rng.range(0, 12))) / R(4);
			if (fate == F_LOST) {
				t = Slots();
			} else if (fate == F_STALE) {
				if (!m.table[(slot + 1) % KNOTS].there)
					break;
				t.there = true;
				t.time = time;
				t.value = m.table[(slot + 1) % KNOTS].value;
			} else {
				if (fate == F_SPIKE)
					re *= 1000, im *= 1000;
				if (fate == F_STUCK)
					re = im = size;
				if (fate == F_NAN)
					re = NAN, im = INFINITY;
				if (t.there && fate == F_GOOD)
					ctx.count("state.revised");
				t.there = true;
				t.time = time;
				t.value = make((V *)nullptr, re, im);
			}
			break;
		}
		case K_LINE:
			// everything in one line, at the times of the slots
			for (int i = 0; i < KNOTS; ++i) {
				m.table[i].there = true;
				m.table[i].time = R(i) * R(4);
				m.table[i].value = make((V *)nullptr, L(s.a[0]) + L(s.a[1]) * i / 8, -L(s.a[1]) + L(s.a[0]) * i / 8);
			}
			ctx.count("state.line");
			break;
		case K_BUILD: {
			int stride = int(std::max<int64_t>(1, std::min<int64_t>(8, s.a[0])));
			// readings that are missing or no numbers are replaced by the one before
			std::vector<L> re, im;
			V *y = (V *)ys.get(((KNOTS - 1) * stride + 1) * sizeof(V), 0xff);
			V hold = V(0);
			for (int i = 0; i < KNOTS; ++i) {
				Point p = point(m.table[i].value);
				if (m.table[i].there && std::isfinite(p.re) && std::isfinite(p.im))
					hold = m.table[i].value;
				y[i * stride] = hold;
				re.push_back(point(hold).re);
				im.push_back(point(hold).im);
			}
			std::vector<char> before((const char *)y, (const char *)(y + (KNOTS - 1) * stride + 1));
			R x0 = R(std::max<int64_t>(-40, std::min<int64_t>(40, s.a[1]))) / R(7), dx = R(std::max<int64_t>(1, std::min<int64_t>(80, s.a[2]))) / R(8);
			bool plain = stride == 1 && s.a[1] == 0 && s.a[2] == 8;
			if (s.a[3] && live.get())
				*live = plain ? Spline(y) : stride == 1 ? Spline(y, x0, dx) : Spline(y, x0, dx, stride);
			else if (plain)
				live.create(pat, y);
			else if (stride == 1)
				live.create(pat, y, x0, dx);
			else
				live.create(pat, y, x0, dx, stride);
			if (!ys.front_intact() || memcmp(before.data(), y, before.size()))
				ctx.fail("readings-changed", "%d knots, stride %d", KNOTS, stride);
			// the curve is the object's own
			ys.get(((KNOTS - 1) * stride + 1) * sizeof(V), 0xff);
			if (m.built)
				ctx.count("state.rebuilt");
			m.re.set(re);
			m.im.set(im);
			m.x0 = x0;
			m.dx = dx;
			m.built = true;
			ctx.count("state.stride." + std::to_string(stride));
			break;
		}
		case K_LOOK: {
			int where = int(uint64_t(s.a[2]) % W_COUNT);
			int64_t count = std::max<int64_t>(0, std::min<int64_t>(2000, s.a[0]));
			ctx.count(std::string("state.look.") + wheres[where]);
			Rng rng(uint64_t(s.a[1]));
			if (m.built)
				for (int64_t i = 0; i < count; ++i) {
					R x = m.x0 + m.dx * R(place(rng, where, KNOTS));
					L tx = (L(x) - L(m.x0)) / L(m.dx);
					L terr = 8 * eps * (std::fabs(tx) + (std::fabs(L(x)) + std::fabs(L(m.x0))) / L(m.dx) + 1);
					check("wrong-curve", x, (*live)(x), m.re.at(tx), m.im.at(tx), terr);
				}
			// the readings there are, at their own times
			std::vector<Slots> there;
			for (int i = 0; i < KNOTS; ++i) {
				Point p = point(m.table[i].value);
				if (m.table[i].there && std::isfinite(p.re) && std::isfinite(p.im))
					there.push_back(m.table[i]);
			}
			int n = int(there.size());
			ctx.count("state.survivors." + std::to_string(n));
			if (n < 3)
				break;
			R *x = (R *)xs.get(n * sizeof(R), 0xff);
			V *y = (V *)ys.get(n * sizeof(V), 0xff);
			Hermite re, im, ere, eim;
			for (int i = 0; i < n; ++i) {
				x[i] = there[i].time;
				y[i] = there[i].value;
				re.x.push_back(x[i]);
				im.x.push_back(x[i]);
				re.y.push_back(point(y[i]).re);
				im.y.push_back(point(y[i]).im);
				ere.x.push_back(i);
				eim.x.push_back(i);
			}
			ere.y = re.y;
			eim.y = im.y;
			for (int64_t i = 0; i < count; ++i) {
				double pos = place(rng, where, n);
				int j = std::max(0, std::min(n - 2, int(std::floor(pos))));
				R at = R(L(x[j]) + (L(pos) - j) * (L(x[j + 1]) - L(x[j])));
				L gap = 1e9;
				for (int g = std::max(0, j - 1); g < std::min(n - 1, j + 2); ++g)
					gap = std::min(gap, L(x[g + 1]) - L(x[g]));
				L terr = 8 * eps * (std::fabs(L(at)) + std::fabs(L(x[j]))) / gap + 16 * eps * (1 + std::fabs(L(pos) - j));
				check("wrong-local-curve", at, Local::eval(x, y, at, n), re.at(at), im.at(at), terr);
				// one piece, by number
				R t = R(pos - j);
				L ax = L(x[j]) + L(t) * (L(x[j + 1]) - L(x[j]));
				check("wrong-piece", ax, Local::eval(x, y, t, j, n), re.at(ax, j), im.at(ax, j), 16 * eps * (1 + std::fabs(L(t))));
				// as if they had come at regular times
				R e = R(pos);
				check("wrong-even-curve", e, Local::eval(y, e, n), ere.at(e), eim.at(e), 8 * eps * (1 + std::fabs(L(e))));
				check("wrong-even-piece", j + L(t), Local::eval(y, t, j, n), ere.at(j + L(t), j), eim.at(j + L(t), j), 8 * eps * (1 + std::fabs(L(t))));
				R z = m.x0 + m.dx * e;
				L tz = (L(z) - L(m.x0)) / L(m.dx);
				check("wrong-even-curve", z, Local::eval(y, z, n, m.x0, m.dx), ere.at(tz), eim.at(tz), 8 * eps * (std::fabs(tz) + (std::fabs(L(z)) + std::fabs(L(m.x0))) / L(m.dx) + 1));
			}
			for (int i = 0; i < n; ++i)
				if (memcmp(&x[i], &there[i].time, sizeof(R)) || memcmp(&y[i], &there[i].value, sizeof(V)))
					ctx.fail("readings-changed", "%d readings, reading %d", n, i);
			m.n += count;
			break;
		}
		case K_SAVE:
			if (!live.get())
				break;
			save[k].create(uint8_t(~pat), const_cast<const Spline &>(*live));
			kept[k] = m;
			break;
		case K_CRASH:
			if (!save[k].get())
				break;
			ctx.fault("crash_and_restore", m.n, kept[k].n);
			if (s.a[1])
				*live = *save[k];
			else
				live.create(pat, const_cast<const Spline &>(*save[k]));
			m = kept[k];
			break;
		}
		double low = double(last);
		int64_t bits;
		memcpy(&bits, &low, sizeof bits);
		ctx.log("step", s.kind, m.n, bits);
	}
}

static void execute(const Plan &plan, Ctx &ctx)
{
	typedef DSP::Complex<float> CF;
	typedef DSP::Complex<double> CD;
	switch (uint64_t(plan.p(P_UNIT)) % 24) {
	case 0: return run<float, float, 2>(plan, ctx);
	case 1: return run<double, double, 2>(plan, ctx);
	case 2: return run<CD, double, 2>(plan, ctx);
	case 3: return run<CF, float, 3>(plan, ctx);
	case 4: return run<double, double, 3>(plan, ctx);
	case 5: return run<float, float, 3>(plan, ctx);
	case 6: return run<CD, double, 3>(plan, ctx);
	case 7: return run<float, float, 4>(plan, ctx);
	case 8: return run<double, double, 4>(plan, ctx);
	case 9: return run<CF, float, 4>(plan, ctx);
	case 10: return run<float, float, 5>(plan, ctx);
	case 11: return run<CD, double, 5>(plan, ctx);
	case 12: return run<double, double, 6>(plan, ctx);
	case 13: return run<float, float, 7>(plan, ctx);
	case 14: return run<double, double, 8>(plan, ctx);
	case 15: return run<CF, float, 9>(plan, ctx);
	case 16: return run<CD, double, 12>(plan, ctx);
	case 17: return run<float, float, 16>(plan, ctx);
	case 18: return run<double, double, 17>(plan, ctx);
	case 19: return run<CD, double, 24>(plan, ctx);
	case 20: return run<float, float, 32>(plan, ctx);
	case 21: return run<double, double, 33>(plan, ctx);
	case 22: return run<CF, float, 48>(plan, ctx);
	case 23: return run<double, double, 64>(plan, ctx);
	}
}

namespace sim {
static const int64_t par_min[] = { 0, 0 };
const Scenario scenario = { "C30", kinds, generate, execute, par_min, 2, pars };
}
