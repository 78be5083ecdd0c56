// C26: the relation of two clocks estimated from time stamps over a faulty link, and blocks resampled by it
#include "prelude.hh"
#include "complex.hh"
#include "quick.hh"
#include "theil_sen.hh"
#include "repeated_median.hh"
#include "regression.hh"
#include "resampler.hh"
#include "guard.hh"
#include "prototype.hh"

using namespace sim;

enum { K_FIT = 1, K_OUTLIER, K_LOST, K_TWICE, K_REORDER, K_BADTIME, K_STUCK, K_RESAMPLE, K_SORT, K_SAVE, K_CRASH, K_LONG };
static const char *const kinds[] = { "none", "fit seed stamps slope offset jitter uniform", "outlier count seed", "lost count seed", "twice count seed", "reorder seed", "bad_time count seed", "stuck count seed", "resample seed samples stride signal", "sort seed count content type", "save", "crash", "long_fit seed samples start gap", nullptr };
enum { P_TYPE, P_CUT, P_ALPHA, P_PAT, P_XEXP, P_YEXP };
static const char *const pars[] = { "type", "cutoff_percent", "alpha", "pattern", "x_exponent", "y_exponent", nullptr };
enum { NTYPE = 19 };

static const int limits[NTYPE] = { 5, 16, 33, 64, 40, 3, 100, 2, 4, 6, 7, 8, 10, 20, 32, 50, 128, 12, 65 };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	int type = int(index % NTYPE), limit = limits[type];
	plan.par = { type, rng.range(5, 50), rng.range(0, 4), rng.pick({ 0, 0xff, 0x7f, 0x3c }), rng.chance(1, 2) ? 0 : rng.range(-20, 20), rng.chance(1, 2) ? 0 : rng.range(-40, 40) };
	int n = int(rng.scale(2, thorough ? 40 : 16));
	bool faults = !rng.chance(1, 8);
	int64_t most = rng.chance(1, 3) ? 2 : std::max(1, limit / 2);
	for (int i = 0; i < n; ++i) {
		int what = int(rng.range(0, 24));
		int64_t seed = int64_t(rng.next() >> 1);
		if (what < 8)
			plan.steps.push_back(Step(K_FIT, seed, rng.chance(1, 3) ? limit : rng.chance(1, 16) ? limit + rng.range(1, 9) : rng.range(2, limit), rng.chance(1, 4) ? rng.range(-3, 3) * 1024 : rng.range(-1500, 1500), rng.range(-4000, 4000), rng.chance(1, 2) ? 0 : rng.scale(1, 1000), rng.range(0, 1)));
		else if (what < 10)
			plan.steps.push_back(Step(K_SORT, seed, rng.chance(1, 4) ? rng.range(30, 36) : rng.scale(1, thorough ? 3000 : 600), rng.range(0, 7), rng.range(0, 3)));
		else if (what < 11)
			plan.steps.push_back(Step(K_LONG, seed, rng.scale(3, thorough ? 30000 : 6000), rng.range(-1000, 1000), rng.pick({ 1, 1, 2, 3, 7, -1, -5 }), rng.range(0, 6)));
		else if (what < 13)
			plan.steps.push_back(Step(K_RESAMPLE, seed, rng.scale(1, 400), rng.pick({ 1, 1, 2, 3 }), rng.range(0, 3)));
		else if (!faults)
			plan.steps.push_back(Step(K_FIT, seed, limit, rng.range(-1500, 1500), rng.range(-4000, 4000), 0, 1));
		else if (what < 16)
			plan.steps.push_back(Step(K_OUTLIER, rng.range(1, most), seed));
		else if (what < 17)
			plan.steps.push_back(Step(K_LOST, rng.range(1, most), seed));
		else if (what < 18)
			plan.steps.push_back(Step(K_TWICE, rng.range(1, most), seed));
		else if (what < 20)
			plan.steps.push_back(Step(K_REORDER, seed));
		else if (what < 21)
			plan.steps.push_back(Step(K_BADTIME, rng.range(1, most), seed));
		else if (what < 22)
			plan.steps.push_back(Step(K_STUCK, rng.range(1, most), seed));
		else if (what < 23)
			plan.steps.push_back(Step(K_SAVE, rng.range(0, 1)));
		else
			plan.steps.push_back(Step(K_CRASH, rng.range(0, 1), rng.range(0, 1)));
	}
	repeat(rng, plan);
	stretch(rng, plan, 150, { K_SORT }, 1);
	plan.steps.push_back(Step(K_FIT, int64_t(rng.next() >> 1), limit, rng.range(-1500, 1500), rng.range(-4000, 4000), 0, rng.range(0, 1)));
}

// values known to within bounds, and what their median may be then
struct Bounds
{
	std::vector<long double> lo, hi;
	void add(long double value, long double error)
	{
		lo.push_back(value - error);
		hi.push_back(value + error);
	}
	// any value between the lower and the upper median will do
	std::pair<long double, long double> median()
	{
		std::sort(lo.begin(), lo.end());
		std::sort(hi.begin(), hi.end());
		return { lo[(lo.size() - 1) / 2], hi[hi.size() / 2] };
	}
};

struct Record
{
	int key, payload;
	bool operator < (const Record &o) const { return key < o.key; }
	bool operator > (const Record &o) const { return key > o.key; }
	bool operator == (const Record &o) const { return key == o.key && payload == o.payload; }
};

template <typename T> struct Make { static T make(int64_t key, int) { return T(key); } };
template <> struct Make<Record> { static Record make(int64_t key, int n) { return Record { int(key), n }; } };

// a sequence delivered out of order, with some of it twice, is put in order again
template <typename T>
static void order(const Step &s, Ctx &ctx, Guarded &area)
{
	Rng rng(uint64_t(s.a[0]));
	int n = int(std::max<int64_t>(1, std::min<int64_t>(150000, s.a[1])));
	std::vector<T> v;
	int64_t few = rng.scale(2, 20);
	for (int i = 0; i < n; ++i) {
		int64_t key = i;
		switch (s.a[2] & 7) {
		case 1: key = n - i; break;
		case 2: key = rng.range(0, n); break;
		case 3: key = rng.range(0, few); break;
		case 4: key = rng.chance(1, 10) ? rng.range(0, n) : i; break;
		case 5: key = i < n / 2 ? i : n - i; break;
		case 6: key = 7; break;
		case 7: key = i ^ 5; break;
		}
		v.push_back(Make<T>::make(key - n / 3, i));
	}
	ctx.fault("reordered_delivery", s.a[2] & 7, n);
	std::vector<T> want(v), got, rest;
	std::sort(want.begin(), want.end());
	T *a = (T *)area.get(sizeof(T) * size_t(n), 0x3c);
	std::copy(v.begin(), v.end(), a);
	DSP::quick_sort(a, n);
	got.assign(a, a + n);
	for (int i = 0; i < n; ++i)
		if (got[size_t(i)] < want[size_t(i)] || got[size_t(i)] > want[size_t(i)])
			ctx.fail("not-in-order", "%d elements sorted: wrong at %d", n, i);
	auto same_elements = [&](std::vector<T> &x) {
		if constexpr (std::is_same<T, Record>::value) {
			std::vector<char> seen(size_t(n), 0);
			for (const Record &r : x)
				if (r.payload < 0 || r.payload >= n || seen[size_t(r.payload)]++ || !(r == v[size_t(r.payload)]))
					return false;
			return true;
		} else {
			std::vector<T> y(x);
			std::sort(y.begin(), y.end());
			return y == want;
		}
	};
	if (!same_elements(got))
		ctx.fail("not-the-same", "%d elements sorted are not the given ones", n);
	for (int j = 0; j < 3; ++j) {
		int k = int(j < 2 ? rng.range(0, n - 1) : n / 2);
		std::copy(v.begin(), v.end(), a);
		T r = DSP::quick_select(a, k, n);
		if (r < want[size_t(k)] || r > want[size_t(k)])
			ctx.fail("wrong-selection", "element %d of %d by order is not the one selected", k, n);
		rest.assign(a, a + n);
		if (!same_elements(rest))
			ctx.fail("not-the-same", "%d elements after selecting are not the given ones", n);
		for (int i = 0; i < n; ++i)
			if (i < k ? rest[size_t(i)] > r : rest[size_t(i)] < r)
				ctx.fail("not-partitioned", "%d elements after selecting %d: %d is on the wrong side", n, k, i);
	}
	if (!area.front_intact())
		ctx.fail("writes-elsewhere", "sorting or selecting wrote in front of the array");
	ctx.ticks += uint64_t(n);
	ctx.log("sorted", n, s.a[2] & 7);
	ctx.progress = true;
}

template <typename V, int LIMIT, int TAPS, int OVER>
static void run(const Plan &plan, Ctx &ctx)
{
	typedef long double L;
	typedef DSP::TheilSenEstimator<V, LIMIT> TS;
	typedef DSP::RepeatedMedianEstimator<V, LIMIT> RM;
	typedef DSP::RepeatedMedianEstimator2<V, LIMIT> RM2;
	typedef DSP::Resampler<V, TAPS, OVER> RES;
	const L eps = std::numeric_limits<V>::epsilon();
	static Guarded xs(1 << 22), ys(1 << 18), in(1 << 16), out(1 << 16);
	uint8_t pat = uint8_t(plan.p(P_PAT));
	struct Node
	{
		Slot<TS> ts;
		Slot<RM> rm;
		Slot<RM2> rm2;
		Slot<RES> res;
	};
	const V rate = 8000;
	V cut = rate * V(std::max<int64_t>(1, std::min<int64_t>(50, plan.p(P_CUT)))) / V(100);
	V alpha = V(std::max<int64_t>(0, std::min<int64_t>(4, plan.p(P_ALPHA))));
	std::unique_ptr<Node> live(new Node), save[2];
	live->ts.create(pat);
	live->rm.create(pat);
	live->rm2.create(pat);
	live->res.create(pat, rate, cut, alpha);
	auto idle = [&](const char *name, auto &e) {
		if (e.slope() != 0 || e.yint() != 0 || e.xint() != 0 || e(V(3)) != 0)
			ctx.fail("not-new", "%s<%d> knows something before its first block", name, LIMIT);
	};
	idle("theil_sen", *live->ts);
	idle("repeated_median", *live->rm);
	idle("repeated_median2", *live->rm2);
	const Prototype proto(TAPS, OVER, double(cut) / double(rate), double(alpha));
	// units of both clocks
	const L ux = std::ldexp(L(1), int(std::max<int64_t>(-20, std::min<int64_t>(20, plan.p(P_XEXP))))), uy = std::ldexp(L(1), int(std::max<int64_t>(-40, std::min<int64_t>(40, plan.p(P_YEXP)))));
	std::vector<Step> faults; // on the way of the next block
	V slope = 1; // last estimate
	auto near = [](L got, std::pair<L, L> want) { return got >= want.first && got <= want.second; };
	auto check = [&](const char *name, auto &e, int n, std::pair<L, L> s, std::pair<L, L> y) {
		if (!near(e.slope(), s))
			ctx.fail("wrong-slope", "%s<%d> of %d stamps: slope %.9g, the definition gives %.9Lg to %.9Lg", name, LIMIT, n, double(e.slope()), s.first, s.second);
		if (!near(e.yint(), y))
			ctx.fail("wrong-offset", "%s<%d> of %d stamps: offset %.9g, the definition gives %.9Lg to %.9Lg", name, LIMIT, n, double(e.yint()), y.first, y.second);
	};
	auto consistent = [&](const char *name, auto &e, Rng &rng) {
		L a = e.slope(), b = e.yint();
		V x = V(ux * L(rng.range(-2000, 2000)));
		L want = b + a * x;
		if (!(std::fabs(L(e(x)) - want) <= 4 * eps * (std::fabs(b) + std::fabs(a * x))))
			ctx.fail("wrong-prediction", "%s<%d>: %.9g at %.9g, want %.9Lg", name, LIMIT, double(e(x)), double(x), want);
		return a;
	};
	// least squares by its normal equations
	auto least_squares = [&](const V *X, const V *Y, int n, Rng &rng, bool uniform, int64_t x0, int64_t gap) {
		DSP::SimpleLinearRegression<V> lr(X, Y, n), copied;
		if (!(copied.slope() == 0 && copied.yint() == 0 && copied.xint() == 0))
			ctx.fail("wrong-default", "a line fit of nothing is not zero");
		copied = lr;
		L mx = 0, my = 0, maxx = 0, maxy = 0, cov = 0, var = 0, ecov = 0, evar = 0, u = (n + 4) * eps;
		for (int i = 0; i < n; ++i) {
			mx += X[i];
			my += Y[i];
			maxx = std::max(maxx, std::fabs(L(X[i])));
			maxy = std::max(maxy, std::fabs(L(Y[i])));
		}
		mx /= n;
		my /= n;
		for (int i = 0; i < n; ++i) {
			L dx = X[i] - mx, dy = Y[i] - my, ex = u * maxx, ey = u * maxy;
			cov += dx * dy;
			var += dx * dx;
			ecov += ex * std::fabs(dy) + ey * std::fabs(dx) + ex * ey + u * std::fabs(dx * dy);
			evar += 2 * ex * std::fabs(dx) + ex * ex + u * dx * dx;
		}
		L want = cov / var, es = (ecov + std::fabs(want) * evar) / std::max(var - evar, var / 2) + 4 * eps * std::fabs(want);
		L eb = es * std::fabs(mx) + u * (maxy + std::fabs(want) * maxx) * 2;
		auto line = [&](const char *name, DSP::SimpleLinearRegression<V> &r) {
			check(name, r, n, { want - es, want + es }, { my - want * mx - eb, my - want * mx + eb });
			consistent(name, r, rng);
			if (std::fabs(want) > 100 * es) {
				L zero = mx - my / want, ez = 4 * (eb + es * std::fabs(my / want)) / std::fabs(want) + u * maxx;
				if (!(std::fabs(r.xint() - zero) <= ez))
					ctx.fail("wrong-offset", "%s of %d stamps: zero at %.9g, want %.9Lg within %.3Lg", name, n, double(r.xint()), zero, ez);
			}
		};
		if (var > 4 * evar) {
			line("least squares", copied);
			if (uniform) {
				DSP::SimpleLinearRegression<V> even(Y, n, V(ux * L(x0)), V(ux * L(gap)));
				line("least squares of even times", even);
			}
		}
		ctx.log("least squares", int64_t(lr.slope() * ux / uy * 1e6L));
	};
	for (const Step &s : plan.steps) {
		scribble_stack(pat);
		int k = int(s.a[0] & 1);
		switch (s.kind) {
		case K_FIT: {
			Rng rng(uint64_t(s.a[0]));
			// y = a * x + b in steps small enough to be exact
			L a = (1 + L(s.a[2]) / 1024) * uy / ux, b = L(s.a[3]) / 64 * uy;
			int n = int(std::max<int64_t>(2, std::min<int64_t>(s.a[1], LIMIT + 9)));
			std::vector<V> x, y;
			std::vector<char> good;
			int64_t t = rng.range(-300, 300), jitter = std::max<int64_t>(0, std::min<int64_t>(1000, s.a[4]));
			bool uniform = true;
			int64_t gap = rng.range(1, 6), x0 = 0;
			for (int i = 0; i < n; ++i) {
				x.push_back(V(ux * L(t)));
				y.push_back(V(a * ux * L(t) + b + uy * L(jitter ? rng.range(-jitter, jitter) : 0) / 1024));
				good.push_back(1);
				if (!i)
					x0 = t;
				t += s.a[5] ? gap : rng.range(1, 6);
			}
			uniform = s.a[5];
			for (const Step &f : faults) {
				Rng r(uint64_t(f.kind == K_REORDER ? f.a[0] : f.a[1]));
				for (int64_t c = 0; c < (f.kind == K_REORDER ? 1 : std::min<int64_t>(f.a[0], LIMIT)); ++c) {
					size_t i = size_t(r.range(0, int64_t(x.size()) - 1)), j = size_t(r.range(0, int64_t(x.size()) - 1));
					ctx.fault(f.kind == K_OUTLIER ? "outlier" : f.kind == K_LOST ? "lost" : f.kind == K_TWICE ? "twice" : f.kind == K_REORDER ? "reordered" : f.kind == K_BADTIME ? "bad_time" : "stuck", int64_t(i));
					switch (f.kind) {
					case K_OUTLIER:
						y[i] += V(uy * L((r.chance(1, 2) ? 1 : -1) * r.scale(1, 1000000)));
						good[i] = 0;
						break;
					case K_LOST:
						if (x.size() > 3) {
							x.erase(x.begin() + long(i));
							y.erase(y.begin() + long(i));
							good.erase(good.begin() + long(i));
						}
						uniform = false;
						break;
					case K_TWICE:
						if (int(x.size()) < LIMIT) {
							x.insert(x.begin() + long(j), V(x[i]));
							y.insert(y.begin() + long(j), V(y[i]));
							good.insert(good.begin() + long(j), char(good[i]));
						}
						uniform = false;
						break;
					case K_REORDER:
						for (size_t m = x.size() - 1; m > 0; --m) {
							size_t q = size_t(r.range(0, int64_t(m)));
							std::swap(x[m], x[q]);
							std::swap(y[m], y[q]);
							std::swap(good[m], good[q]);
						}
						uniform = false;
						break;
					case K_BADTIME:
						x[i] = x[j];
						good[i] = 0;
						uniform = false;
						break;
					case K_STUCK:
						y[i] = y[i ? i - 1 : 0];
						good[i] = 0;
						break;
					}
				}
			}
			faults.clear();
			n = int(x.size());
			// nothing is promised unless there are two different times, and for one stamp without another to compare
			bool flat = true;
			for (int i = 0; i < std::min(n, LIMIT); ++i)
				flat &= x[size_t(i)] == x[0];
			if (flat)
				break;
			V *X = (V *)xs.get(sizeof(V) * size_t(n), 0x7f), *Y = (V *)ys.get(sizeof(V) * size_t(n), 0x7f);
			std::copy(x.begin(), x.end(), X);
			std::copy(y.begin(), y.end(), Y);
			TS &ts = *live->ts;
			RM &rm = *live->rm;
			RM2 &rm2 = *live->rm2;
			ts.compute(X, Y, n);
			rm.compute(X, Y, n);
			rm2.compute(X, Y, n);
			if (memcmp(X, x.data(), sizeof(V) * size_t(n)) || memcmp(Y, y.data(), sizeof(V) * size_t(n)) || !xs.front_intact() || !ys.front_intact())
				ctx.fail("writes-elsewhere", "the time stamps were changed by estimating");
			++ctx.ticks;
			least_squares(X, Y, n, rng, uniform, x0, gap);
			// the robust ones by their definitions; what does not fit is not looked at
			bool whole = n <= LIMIT;
			int m = std::min(n, LIMIT);
			Bounds pairs, outer, outer_y;
			int64_t bad_pairs = 0, bad_points = 0, bad_inner = 0, all_pairs = 0, bare = 0;
			L good_error = 0, rest_error = 0;
			for (int i = 0; i < m; ++i) {
				Bounds inner, inner_y;
				int64_t bad = 0, count = 0;
				bad_points += !good[size_t(i)];
				for (int j = 0; j < m; ++j) {
					if (X[j] == X[i])
						continue;
					L dx = L(X[j]) - X[i], sl = (L(Y[j]) - Y[i]) / dx, p = L(X[j]) * Y[i], q = L(X[i]) * Y[j];
					L ey = eps * 2 * ((std::fabs(p) + std::fabs(q)) / std::fabs(dx) + std::fabs((p - q) / dx));
					inner.add(sl, 2 * eps * std::fabs(sl));
					inner_y.add((p - q) / dx, ey);
					bool ok = good[size_t(i)] && good[size_t(j)];
					if (ok)
						good_error = std::max(good_error, ey);
					bad += !ok;
					++count;
					if (j > i) {
						pairs.add(sl, 2 * eps * std::fabs(sl));
						bad_pairs += !ok;
						++all_pairs;
					}
				}
				if (!count) {
					++bare;
					continue;
				}
				bad_inner += bad > (count - 1) / 2;
				std::pair<L, L> sp = inner.median(), yp = inner_y.median();
				outer.lo.push_back(sp.first);
				outer.hi.push_back(sp.second);
				outer_y.lo.push_back(yp.first);
				outer_y.hi.push_back(yp.second);
			}
			if (bare)
				ctx.fail("bad-plan", "a time stamp differs from none"); // cannot happen: not all are equal
			auto rests = [&](V sl) {
				Bounds r;
				for (int i = 0; i < m; ++i) {
					L e = 2 * eps * (std::fabs(L(Y[i])) + std::fabs(L(sl) * X[i]));
					r.add(L(Y[i]) - L(sl) * X[i], e);
					if (good[size_t(i)])
						rest_error = std::max(rest_error, e);
				}
				return r.median();
			};
			if (whole)
				check("Theil-Sen", ts, n, pairs.median(), rests(ts.slope()));
			check("repeated median", rm, n, outer.median(), outer_y.median());
			check("repeated median 2", rm2, n, outer.median(), rests(rm2.slope()));
			consistent("Theil-Sen", ts, rng);
			consistent("repeated median", rm, rng);
			consistent("repeated median 2", rm2, rng);
			auto zero = [&](const char *name, auto &e) {
				L sl = e.slope(), z = -L(e.yint()) / sl;
				if (sl != 0 && !(std::fabs(e.xint() - z) <= 2 * eps * std::fabs(z)))
					ctx.fail("wrong-offset", "%s<%d>: zero at %.9g, want %.9Lg", name, LIMIT, double(e.xint()), z);
			};
			zero("Theil-Sen", ts);
			zero("repeated median", rm);
			zero("repeated median 2", rm2);
			// good stamps without jitter are on the line exactly
			if (!jitter) {
				bool points = bad_points <= (m - 1) / 2;
				auto exact = [&](const char *name, auto &e, bool offset, L error) {
					if (L(e.slope()) != a)
						ctx.fail("line-lost", "%s<%d>: slope %.9g with %lld of %d stamps bad, the good ones have %.9Lg", name, LIMIT, double(e.slope()), (long long)bad_points, m, a);
					if (offset && !(std::fabs(e.yint() - b) <= error))
						ctx.fail("line-lost", "%s<%d>: offset %.9g with %lld of %d stamps bad, the good ones have %.9Lg", name, LIMIT, double(e.yint()), (long long)bad_points, m, b);
				};
				bool held = false;
				if (whole && bad_pairs <= (all_pairs - 1) / 2) {
					exact("Theil-Sen", ts, points, rest_error);
					held = true;
				}
				if (bad_inner <= (m - 1) / 2) {
					exact("repeated median", rm, true, good_error);
					exact("repeated median 2", rm2, points, rest_error);
					held = true;
				}
				ctx.count(!held ? "state.fit.beyond_breakdown" : bad_points ? "state.fit.line_despite_bad_stamps" : "state.fit.line");
			} else {
				ctx.count("state.fit.jitter");
			}
			slope = V(rm2.slope() * ux / uy);
			ctx.log("fit", n, int64_t(ts.slope() * ux / uy * 1e4L), int64_t(rm.slope() * ux / uy * 1e4L));
			ctx.progress = true;
			break;
		}
		case K_LONG: {
			// a long measurement with noise at even times
			Rng rng(uint64_t(s.a[0]));
			int n = int(std::max<int64_t>(3, std::min<int64_t>(30000, s.a[1])));
			int64_t x0 = s.a[2], gap = s.a[3] ? s.a[3] : 1;
			double noise = std::pow(10., double(s.a[4]) - 4), a = rng.unit() * 4 - 2, b = rng.unit() * 200 - 100;
			V *X = (V *)xs.get(sizeof(V) * size_t(n), 0x7f), *Y = (V *)ys.get(sizeof(V) * size_t(n), 0x7f);
			for (int i = 0; i < n; ++i) {
				X[i] = V(ux * L(x0 + i * gap));
				Y[i] = V(uy * (a * (x0 + i * gap) + b + noise * (rng.unit() - .5)));
			}
			std::vector<V> x(X, X + n), y(Y, Y + n);
			ctx.fault("noise", s.a[4]);
			least_squares(X, Y, n, rng, true, x0, gap);
			if (memcmp(X, x.data(), sizeof(V) * size_t(n)) || memcmp(Y, y.data(), sizeof(V) * size_t(n)) || !xs.front_intact() || !ys.front_intact())
				ctx.fail("writes-elsewhere", "the time stamps were changed by estimating");
			++ctx.ticks;
			ctx.count("state.fit.long");
			ctx.progress = true;
			break;
		}
		case K_SORT:
			switch (s.a[3] & 3) {
			case 0: order<int>(s, ctx, xs); break;
			case 1: order<V>(s, ctx, xs); break;
			case 2: order<Record>(s, ctx, xs); break;
			default: order<long long>(s, ctx, xs);
			}
			break;
		case K_RESAMPLE: {
			// the block as it would have been sampled by the other clock
			Rng rng(uint64_t(s.a[0]));
			int samples = int(std::max<int64_t>(1, std::min<int64_t>(400, s.a[1]))), stride = int(std::max<int64_t>(1, std::min<int64_t>(3, s.a[2])));
			V sl = std::max(V(0.6), std::min(V(1.8), std::isfinite(double(slope)) ? slope : V(1)));
			V diff = rate * (sl - 1);
			size_t all = size_t(samples - 1) * size_t(stride) + 1;
			V *I = (V *)in.get(sizeof(V) * all, 0x7f), *O = (V *)out.get(sizeof(V) * all, 0x7f);
			const V mark = V(12345);
			for (size_t i = 0; i < all; ++i) {
				I[i] = V(54321);
				O[i] = mark;
			}
			std::vector<V> x;
			for (int i = 0; i < samples; ++i) {
				double v = 0;
				switch (s.a[3] & 3) {
				case 0: v = std::cos(0.2 * i); break;
				case 1: v = rng.unit() * 2 - 1; break;
				case 2: v = i % 50 == 7; break;
				default: v = 1;
				}
				v *= double(uy);
				I[size_t(i) * size_t(stride)] = V(v);
				x.push_back(V(v));
			}
			std::vector<V> before(I, I + all);
			(*live->res)(O, I, diff, samples, stride);
			++ctx.ticks;
			if (memcmp(before.data(), I, sizeof(V) * all) || !in.front_intact() || !out.front_intact())
				ctx.fail("writes-elsewhere", "resampling changed its input or memory in front of its output");
			L ratio = L(rate) / (L(rate) + diff);
			for (int i = 0; i < samples; ++i)
				for (int j = 1; j < stride && i + 1 < samples; ++j)
					if (!(O[size_t(i * stride + j)] == mark))
						ctx.fail("writes-elsewhere", "resampling with stride %d wrote in between, after sample %d", stride, i);
			for (int i = 0; i < samples; ++i) {
				int at = i - (TAPS - 1) / 2;
				V got = O[size_t(i) * size_t(stride)];
				double pos = double(at * ratio), fuzz = double(eps) * (2 * std::fabs(pos) + 4), tie = std::fabs(pos - std::floor(pos) - .5);
				bool possible = at >= 0 && at < samples - TAPS, matched = false;
				double off = 0, wanted = 0;
				for (int side = 0; side < 2; ++side) {
					// half way it may be either neighbour
					int s0 = tie < fuzz ? int(std::floor(pos)) + side : int(std::floor(pos + .5));
					if (side && tie >= fuzz)
						break;
					if (!possible || s0 < 0 || s0 + TAPS > samples) {
						matched |= got == mark;
						wanted = double(mark);
						continue;
					}
					double want = 0, mag = 0;
					for (int n = s0; n < s0 + TAPS; ++n) {
						double h = proto(n - pos);
						want += h * double(x[size_t(n)]);
						mag += std::fabs(double(x[size_t(n)]));
					}
					double tol = double(eps) * 64 * 2 * mag * OVER + fuzz * 4 * mag;
					off = std::fabs(double(got) - want);
					wanted = want;
					matched |= off <= tol;
				}
				if (!matched)
					ctx.fail("wrong-sample", "<%d,%d> slope %.9g: sample %d of %d at %.9g is %.9g, want %.9g", TAPS, OVER, double(sl), i, samples, pos, double(got), wanted);
			}
			ctx.count("state.block_resampled");
			ctx.log("resampled", samples, int64_t(sl * 1e4));
			ctx.progress = true;
			break;
		}
		case K_SAVE:
			save[k].reset(new Node);
			save[k]->ts.create(uint8_t(~pat), const_cast<const TS &>(*live->ts));
			save[k]->rm.create(uint8_t(~pat), const_cast<const RM &>(*live->rm));
			save[k]->rm2.create(uint8_t(~pat), const_cast<const RM2 &>(*live->rm2));
			save[k]->res.create(uint8_t(~pat), const_cast<const RES &>(*live->res));
			break;
		case K_CRASH:
			if (!save[k])
				break;
			ctx.fault("crash_and_restore", s.a[1]);
			if (s.a[1]) {
				*live->ts = *save[k]->ts;
				*live->rm = *save[k]->rm;
				*live->rm2 = *save[k]->rm2;
				*live->res = *save[k]->res;
			} else {
				live.reset(new Node);
				live->ts.create(pat, const_cast<const TS &>(*save[k]->ts));
				live->rm.create(pat, const_cast<const RM &>(*save[k]->rm));
				live->rm2.create(pat, const_cast<const RM2 &>(*save[k]->rm2));
				live->res.create(pat, const_cast<const RES &>(*save[k]->res));
			}
			faults.clear();
			break;
		default:
			if (s.kind >= K_OUTLIER && s.kind <= K_STUCK)
				faults.push_back(s);
		}
	}
}

static void execute(const Plan &plan, Ctx &ctx)
{
	switch (plan.p(P_TYPE)) {
	case 0: return run<float, 5, 5, 3>(plan, ctx);
	case 1: return run<float, 16, 8, 4>(plan, ctx);
	case 2: return run<double, 33, 21, 8>(plan, ctx);
	case 3: return run<double, 64, 11, 16>(plan, ctx);
	case 4: return run<float, 40, 32, 5>(plan, ctx);
	case 5: return run<double, 3, 2, 2>(plan, ctx);
	case 6: return run<double, 100, 1, 4>(plan, ctx);
	case 7: return run<float, 2, 3, 5>(plan, ctx);
	case 8: return run<double, 4, 4, 3>(plan, ctx);
	case 9: return run<float, 6, 7, 16>(plan, ctx);
	case 10: return run<double, 7, 16, 5>(plan, ctx);
	case 11: return run<float, 8, 33, 2>(plan, ctx);
	case 12: return run<double, 10, 9, 9>(plan, ctx);
	case 13: return run<float, 20, 12, 4>(plan, ctx);
	case 14: return run<double, 32, 6, 6>(plan, ctx);
	case 15: return run<double, 50, 48, 3>(plan, ctx);
	case 16: return run<float, 128, 64, 2>(plan, ctx);
	case 17: return run<double, 12, 10, 10>(plan, ctx);
	case 18: return run<double, 65, 17, 7>(plan, ctx);
	}
}

namespace sim {
static const int64_t par_min[] = { 0, 1, 0, 0, -20, -40 };
const Scenario scenario = { "C26", kinds, generate, execute, par_min, 6, pars };
}
