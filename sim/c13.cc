// C13: delay lines, history buffers, sliding reductions, moving extremes and averages against the last N samples,
// across checkpoints, crashes and restores
#include "prelude.hh"
#include "sma.hh"
#include "delay.hh"
#include "bip_buffer.hh"
#include "swa.hh"
#include "movext.hh"
#include "guard.hh"

using namespace sim;

enum { K_FEED = 1, K_SAVE, K_CRASH, K_PEEK };
static const char *const kinds[] = { "none", "feed", "save", "crash", "peek", nullptr };
enum { P_KIND, P_TYPE, P_LEN, P_INIT, P_PAT, P_STYLE, P_LEVEL };
static const char *const pars[] = { "component", "type", "length", "init", "pattern", "style", "level_exponent", nullptr };

enum { DELAY, BIP, SWASUM, SWAMAX, SWAMIN, MOVMIN, MOVMAX, MOVEXT, SMA1, SMA2, SMA2S, SMA3, SMA3S, SMA4, SMA4S, NKIND };
static const char *const names[] = { "delay", "bip", "swa.sum", "swa.max", "swa.min", "movmin", "movmax", "movext", "sma1", "sma2", "sma2.sum", "sma3", "sma3.sum", "sma4", "sma4.sum" };
enum { T_INT, T_FLOAT, T_DOUBLE, T_SHORT, T_I64, NTYPE };
static const int lengths[] = { 1, 2, 3, 4, 5, 8, 31, 100, 300,
	// only of some types
	6, 7, 9, 10, 12, 13, 15, 16, 17, 20, 24, 32, 33, 50, 63, 64, 65, 128, 200, 255, 256, 257 };
enum { NLEN = sizeof lengths / sizeof lengths[0], NEVERY = 9 };

// values whose ties, extremes and order matter
enum { S_FEW, S_RAMP, S_EXTREME, S_NOISE, S_PLATEAU, S_RANGE, S_SAW, NSTYLE };

template <typename V>
static V sample(Rng &rng, int style, int64_t n, bool sums)
{
	const bool flt = std::is_floating_point<V>::value;
	const V big = sums ? V(flt ? 1000 : 100) : std::numeric_limits<V>::max(), low = sums ? V(-big) : std::numeric_limits<V>::lowest();
	switch (style) {
	case S_FEW: return V(rng.range(-1, 2));
	case S_RAMP: return V((n % 37) * (rng.chance(1, 50) ? -1 : 1));
	case S_EXTREME: {
		const V v[] = { low, big, V(low + 1), V(big - 1), V(0), V(1), V(-1), V(flt && !sums ? std::numeric_limits<V>::min() : 2), V(flt && !sums ? -std::numeric_limits<V>::min() : -2), V(flt && !sums ? std::numeric_limits<V>::denorm_min() : 3) };
		return v[rng.range(0, 9)];
	}
	case S_NOISE: return flt ? V(rng.unit() * 2 - 1) : V(rng.range(-100, 100));
	case S_PLATEAU: return V((n / 9) % 3 - 1);
	case S_RANGE: return flt ? V(std::ldexp(rng.unit() - 0.5, int(rng.range(-12, 12)))) : V(rng.range(-120, 120));
	default: return V(36 - n % 37);
	}
}

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	plan.par = { int64_t(index % NKIND), rng.range(0, NTYPE - 1), rng.chance(1, 2) ? rng.range(0, NEVERY - 1) : rng.range(0, NLEN - 1), rng.range(-3, 3), rng.pick({ 0, 0xff, 0x7f, 0x3c }), rng.range(0, NSTYLE - 1), rng.chance(1, 2) ? 0 : rng.range(-60, 60) };
	int n = int(rng.scale(2, thorough ? 30 : 12));
	bool faults = !rng.chance(1, 8);
	for (int i = 0; i < n; ++i) {
		int what = int(rng.range(0, 9));
		if (!faults || what < 6)
			plan.steps.push_back(Step(K_FEED, int64_t(rng.next() >> 1), rng.scale(1, 300), rng.chance(1, 3) ? rng.range(0, NSTYLE - 1) : plan.par[P_STYLE]));
		else if (what < 8)
			plan.steps.push_back(Step(K_SAVE, rng.range(0, 1)));
		else if (what < 9)
			plan.steps.push_back(Step(K_CRASH, rng.range(0, 1), rng.range(0, 1)));
		else
			plan.steps.push_back(Step(K_PEEK, rng.scale(0, 150)));
	}
	repeat(rng, plan);
	stretch(rng, plan, 200, { K_FEED }, 1);
}

struct MaxOp
{
	template <typename V> V operator () (V a, V b) const { return a < b ? b : a; }
};
struct MinOp
{
	template <typename V> V operator () (V a, V b) const { return b < a ? b : a; }
};

// sum and magnitude of the window and of the history, in a type that is exact or nearly so
template <typename V>
struct Model
{
	std::vector<V> x;
	V init = 0;
	V ago(int64_t k) const { int64_t i = int64_t(x.size()) - 1 - k; return i < 0 ? init : x[size_t(i)]; }
	long double peak = 0; // largest sum of magnitudes in any window so far
	void push(V v, int n)
	{
		x.push_back(v);
		long double m = 0;
		for (int k = 0; k < n; ++k)
			m += std::fabs((long double)ago(k));
		peak = std::max(peak, m);
	}
};

// the component behind one interface
template <typename V>
struct Any
{
	virtual ~Any() {}
	virtual void feed(V v, V *out) = 0;
	virtual bool peek(V *out) = 0;
	virtual void copy_to(void *mem) const = 0;
	virtual void assign(const Any &) = 0;
};

template <typename V, typename OBJ, int N, int KIND>
struct Is : Any<V>
{
	OBJ obj;
	template <typename ... ARGS> explicit Is(int, ARGS ... args) : obj(args...) {}
	Is(const Is &) = default;
	template <typename O> static auto put(O r, V *out) -> typename std::enable_if<std::is_pointer<O>::value>::type
	{
		for (int i = 0; i < N; ++i)
			out[i] = r[i];
	}
	template <typename O> static auto put(O r, V *out) -> typename std::enable_if<!std::is_pointer<O>::value>::type { *out = r; }
	template <typename O> static auto look(O &o, V *out, int) -> decltype(*o(), bool()) { put(o(), out); return true; }
	template <typename O> static auto look(O &o, V *out, int) -> decltype(o.abs_dev(), bool()) { *out = o.abs_dev(); return true; }
	static bool look(OBJ &, V *, long) { return false; }
	void feed(V v, V *out) override { put(obj(v), out); }
	bool peek(V *out) override { return look(obj, out, 0); }
	void copy_to(void *mem) const override { new (mem) Is(*this); }
	void assign(const Any<V> &o) override { obj = static_cast<const Is &>(o).obj; }
};

enum { ROOM = 8192 };

template <typename V>
struct Holder
{
	alignas(64) unsigned char mem[ROOM];
	Any<V> *any = nullptr;
	size_t size = 0;
	uint64_t edge = 0; // what has to stay behind the object
	bool intact() const { return !memcmp(mem + size, &edge, sizeof edge); }
	void clear()
	{
		if (any)
			any->~Any<V>();
		any = nullptr;
	}
	void fill(uint8_t pattern)
	{
		clear();
		memset(mem, pattern, sizeof mem);
		memset(&edge, pattern, sizeof edge);
		__asm__ volatile("" : : "r"(mem) : "memory");
	}
	template <typename OBJ, int N, int KIND, typename ... ARGS>
	void make(uint8_t pattern, ARGS ... args)
	{
		typedef Is<V, OBJ, N, KIND> IS;
		static_assert(sizeof(IS) + sizeof edge <= ROOM, "no room");
		fill(pattern);
		scribble_stack(pattern);
		size = sizeof(IS);
		any = new (mem) IS(0, args...);
	}
	void copy(uint8_t pattern, const Holder &o)
	{
		fill(pattern);
		size = o.size;
		o.any->copy_to(mem);
		any = reinterpret_cast<Any<V> *>(mem);
	}
	~Holder() { clear(); }
};

template <typename V, int N>
static void build(Holder<V> &h, int kind, uint8_t pat, V init)
{
	typedef std::numeric_limits<V> lim;
	switch (kind) {
	case DELAY: h.template make<DSP::Delay<V, N>, N, DELAY>(pat, init); break;
	case BIP: h.template make<DSP::BipBuffer<V, N>, N, BIP>(pat); break;
	case SWASUM: h.template make<DSP::SWA<V, std::plus<V>, N>, N, SWASUM>(pat, V(0)); break;
	case SWAMAX: h.template make<DSP::SWA<V, MaxOp, N>, N, SWAMAX>(pat, init); break;
	case SWAMIN: h.template make<DSP::SWA<V, MinOp, N>, N, SWAMIN>(pat, init); break;
	case MOVMIN: h.template make<DSP::MovMin<V, N>, N, MOVMIN>(pat); break;
	case MOVMAX: h.template make<DSP::MovMax<V, N>, N, MOVMAX>(pat); break;
	case MOVEXT: h.template make<DSP::MovExt<V, std::equal_to<V>, std::greater<V>, N>, N, MOVEXT>(pat, lim::lowest()); break;
	case SMA1: h.template make<DSP::SMA1<V, V, N>, N, SMA1>(pat); break;
	case SMA2: h.template make<DSP::SMA2<V, V, N, true>, N, SMA2>(pat); break;
	case SMA2S: h.template make<DSP::SMA2<V, V, N, false>, N, SMA2S>(pat); break;
	case SMA3: h.template make<DSP::SMA3<V, V, N, true>, N, SMA3>(pat); break;
	case SMA3S: h.template make<DSP::SMA3<V, V, N, false>, N, SMA3S>(pat); break;
	case SMA4: h.template make<DSP::SMA4<V, V, N, true>, N, SMA4>(pat); break;
	default: h.template make<DSP::SMA4<V, V, N, false>, N, SMA4S>(pat);
	}
}

template <typename V>
struct Run
{
	typedef std::numeric_limits<V> lim;
	int kind, N;
	Ctx &ctx;
	Model<V> m;
	void window(const V *h)
	{
		for (int i = 0; i < N; ++i) {
			V want = m.ago(N - 1 - i);
			if (!(h[i] == want))
				ctx.fail("wrong-history", "%s<%d>: after sample %zu element %d is %.9g, want %.9g", names[kind], N, m.x.size(), i, double(h[i]), double(want));
		}
	}
	void check(const V *out)
	{
		const int64_t t = int64_t(m.x.size());
		V got = *out;
		if (kind == BIP)
			return window(out);
		if (kind == DELAY) {
			V want = m.ago(N);
			if (!(got == want))
				ctx.fail("wrong-delay", "%s<%d>: sample %lld returned %.9g, want %.9g", names[kind], N, (long long)t, double(got), double(want));
			return;
		}
		if (kind == MOVMIN || kind == MOVMAX || kind == MOVEXT) {
			V want = m.x.back();
			for (int64_t k = 1; k < N && k < t; ++k)
				want = kind == MOVMIN ? std::min(want, m.ago(k)) : std::max(want, m.ago(k));
			if (!(got == want))
				ctx.fail("wrong-extreme", "%s<%d>: after sample %lld returned %.9g, want %.9g", names[kind], N, (long long)t, double(got), double(want));
			return;
		}
		if (kind == SWAMAX || kind == SWAMIN) {
			V want = m.ago(0);
			for (int k = 1; k < N; ++k)
				want = kind == SWAMIN ? std::min(want, m.ago(k)) : std::max(want, m.ago(k));
			if (!(got == want))
				ctx.fail("wrong-reduction", "%s<%d>: after sample %lld returned %.9g, want %.9g", names[kind], N, (long long)t, double(got), double(want));
			return;
		}
		long double sum = 0, mag = 0;
		for (int k = 0; k < N; ++k) {
			sum += m.ago(k);
			mag += std::fabs((long double)m.ago(k));
		}
		bool norm = kind == SMA1 || kind == SMA2 || kind == SMA3 || kind == SMA4;
		if (lim::is_integer) {
			V want = norm ? V(V(sum) / V(N)) : V(sum);
			if (got != want)
				ctx.fail("wrong-average", "%s<%d>: after sample %lld returned %.9g, want %.9g", names[kind], N, (long long)t, double(got), double(want));
			return;
		}
		// each summation has its own way to collect rounding errors
		long double eps = lim::epsilon(), tol = mag * (N + 4);
		if (kind == SMA2 || kind == SMA2S || kind == SMA3 || kind == SMA3S)
			tol = m.peak * (2 * t + 4 + N);
		tol *= eps;
		long double want = norm ? sum / N : sum;
		if (norm)
			tol = tol / N + eps * std::fabs(want);
		tol += lim::min();
		if (!(std::fabs((long double)got - want) <= tol))
			ctx.fail("wrong-average", "%s<%d>: after sample %lld returned %.9g, want %.9Lg within %.3Lg", names[kind], N, (long long)t, double(got), want, tol);
	}
	void deviation(V got)
	{
		long double avg = 0, dev = 0, mag = 0;
		for (int k = 0; k < N; ++k) {
			avg += m.ago(k);
			mag += std::fabs((long double)m.ago(k));
		}
		V a = lim::is_integer ? V(V(avg) / V(N)) : V(avg / N);
		for (int k = 0; k < N; ++k)
			dev += std::fabs((long double)m.ago(k) - a);
		if (lim::is_integer) {
			if (got != V(V(dev) / V(N)))
				ctx.fail("wrong-deviation", "sma1<%d>: absolute deviation after sample %zu is %.9g, want %.9g", N, m.x.size(), double(got), double(V(V(dev) / V(N))));
		} else if (!(std::fabs(got - dev / N) <= lim::epsilon() * (mag / N + dev / N) * (3 * N + 8) + lim::min())) {
			ctx.fail("wrong-deviation", "sma1<%d>: absolute deviation after sample %zu is %.9g, want %.9Lg", N, m.x.size(), double(got), dev / N);
		}
	}
	void peek(Any<V> &o)
	{
		V out[512];
		if (!o.peek(out))
			return;
		if (kind == BIP)
			window(out);
		else
			deviation(*out);
	}
	void run(const Plan &plan, Holder<V> *live, Holder<V> *save)
	{
		const bool sums = kind >= SMA1 || kind == SWASUM;
		uint8_t pat = uint8_t(plan.p(P_PAT));
		const int level = int(std::max<int64_t>(-60, std::min<int64_t>(60, plan.p(P_LEVEL))));
		Model<V> kept[2];
		for (const Step &s : plan.steps) {
			int k = int(s.a[0] & 1);
			switch (s.kind) {
			case K_FEED: {
				Rng rng(uint64_t(s.a[0]));
				int style = int(uint64_t(s.a[2]) % NSTYLE);
				for (int64_t i = 0; i < s.a[1] && i < 150000; ++i) {
					V v = sample<V>(rng, style, i, sums), out[512];
					if (sums && std::is_floating_point<V>::value)
						v = V(std::ldexp(v, level));
					live->any->feed(v, out);
					m.push(v, N);
					check(out);
					++ctx.ticks;
					if (rng.chance(1, 13))
						peek(*live->any);
				}
				if (!live->intact())
					ctx.fail("writes-elsewhere", "%s<%d> changed memory behind it", names[kind], N);
				ctx.log("fed", s.a[1], int64_t(m.x.size()), s.a[0]);
				ctx.progress = true;
				break;
			}
			case K_SAVE:
				save[k].copy(uint8_t(~pat), *live);
				kept[k] = m;
				ctx.log("save", k);
				break;
			case K_CRASH:
				if (!save[k].any)
					break;
				ctx.fault("crash_and_restore", int64_t(m.x.size()), int64_t(kept[k].x.size()));
				if (s.a[1])
					live->any->assign(*save[k].any);
				else
					live->copy(uint8_t(pat + 9), save[k]);
				m = kept[k];
				break;
			case K_PEEK:
				peek(*live->any);
				ctx.log("peek");
				break;
			}
		}
		ctx.count(std::string("state.") + names[kind]);
	}
};

template <typename V>
static void typed(const Plan &plan, Ctx &ctx)
{
	static Holder<V> live, save[2];
	const bool more = std::is_same<V, int>::value || std::is_same<V, float>::value;
	int kind = int(uint64_t(plan.p(P_KIND)) % NKIND), len = int(uint64_t(plan.p(P_LEN)) % (more ? NLEN : NEVERY));
	uint8_t pat = uint8_t(plan.p(P_PAT));
	bool has = kind == DELAY || kind == SWAMAX || kind == SWAMIN;
	V init = has ? V(plan.p(P_INIT)) : V(0);
	save[0].clear();
	save[1].clear();
	switch (len) {
	case 0: build<V, 1>(live, kind, pat, init); break;
	case 1: build<V, 2>(live, kind, pat, init); break;
	case 2: build<V, 3>(live, kind, pat, init); break;
	case 3: build<V, 4>(live, kind, pat, init); break;
	case 4: build<V, 5>(live, kind, pat, init); break;
	case 5: build<V, 8>(live, kind, pat, init); break;
	case 6: build<V, 31>(live, kind, pat, init); break;
	case 7: build<V, 100>(live, kind, pat, init); break;
	case 8: build<V, 300>(live, kind, pat, init); break;
	}
	if constexpr (more)
		switch (len) {
		case 9: build<V, 6>(live, kind, pat, init); break;
		case 10: build<V, 7>(live, kind, pat, init); break;
		case 11: build<V, 9>(live, kind, pat, init); break;
		case 12: build<V, 10>(live, kind, pat, init); break;
		case 13: build<V, 12>(live, kind, pat, init); break;
		case 14: build<V, 13>(live, kind, pat, init); break;
		case 15: build<V, 15>(live, kind, pat, init); break;
		case 16: build<V, 16>(live, kind, pat, init); break;
		case 17: build<V, 17>(live, kind, pat, init); break;
		case 18: build<V, 20>(live, kind, pat, init); break;
		case 19: build<V, 24>(live, kind, pat, init); break;
		case 20: build<V, 32>(live, kind, pat, init); break;
		case 21: build<V, 33>(live, kind, pat, init); break;
		case 22: build<V, 50>(live, kind, pat, init); break;
		case 23: build<V, 63>(live, kind, pat, init); break;
		case 24: build<V, 64>(live, kind, pat, init); break;
		case 25: build<V, 65>(live, kind, pat, init); break;
		case 26: build<V, 128>(live, kind, pat, init); break;
		case 27: build<V, 200>(live, kind, pat, init); break;
		case 28: build<V, 255>(live, kind, pat, init); break;
		case 29: build<V, 256>(live, kind, pat, init); break;
		case 30: build<V, 257>(live, kind, pat, init); break;
		}
	Run<V> r { kind, lengths[len], ctx, Model<V>() };
	r.m.init = init;
	r.run(plan, &live, save);
}

static void execute(const Plan &plan, Ctx &ctx)
{
	switch (plan.p(P_TYPE)) {
	case T_INT: return typed<int>(plan, ctx);
	case T_FLOAT: return typed<float>(plan, ctx);
	case T_DOUBLE: return typed<double>(plan, ctx);
	case T_SHORT: return typed<short>(plan, ctx);
	default: return typed<int64_t>(plan, ctx);
	}
}

namespace sim {
static const int64_t par_min[] = { 0, 0, 0, -3, 0, 0, -60 };
const Scenario scenario = { "C13", kinds, generate, execute, par_min, 7, pars };
}
