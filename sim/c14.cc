// C14: histories of the double-ended queue and the stack, with copies and crashes, against ideal ones
#include "prelude.hh"
#include <deque>
#include "deque.hh"
#include "stack.hh"
#include "guard.hh"

using namespace sim;

enum { K_OPS = 1, K_FILL, K_DRAIN, K_CLEAR, K_SAVE, K_CRASH, K_TWIN };
static const char *const kinds[] = { "none", "ops", "fill", "drain", "clear", "save", "crash", "twin", nullptr };
enum { P_STACK, P_TYPE, P_SIZE, P_PAT };
static const char *const pars[] = { "stack", "type", "capacity", "pattern", nullptr };
static const int sizes[] = { 1, 2, 3, 4, 7, 16, 100, 300, 70000,
	// only of integers
	5, 6, 8, 9, 10, 12, 15, 17, 20, 31, 32, 33, 50, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 500, 512, 1000, 1024 };
enum { NSIZE = sizeof sizes / sizeof sizes[0], NEVERY = 9 };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	plan.par = { int64_t(index & 1), rng.range(0, 2), rng.chance(1, 150) ? int64_t(NEVERY - 1) : rng.chance(1, 2) ? rng.range(0, NEVERY - 2) : rng.range(NEVERY, NSIZE - 1), rng.pick({ 0, 0xff, 0x7f, 0x3c }) };
	int n = int(rng.scale(2, thorough ? 60 : 25));
	for (int i = 0; i < n; ++i) {
		int what = int(rng.range(0, 14));
		int64_t seed = int64_t(rng.next() >> 1);
		if (what < 6)
			plan.steps.push_back(Step(K_OPS, seed, rng.scale(1, 200), rng.range(1, 9)));
		else if (what < 8)
			plan.steps.push_back(Step(K_FILL, seed, rng.range(0, 2)));
		else if (what < 10)
			plan.steps.push_back(Step(K_DRAIN, seed, rng.range(0, 2)));
		else if (what == 10)
			plan.steps.push_back(Step(K_CLEAR));
		else if (what == 11)
			plan.steps.push_back(Step(K_SAVE, rng.range(0, 1)));
		else if (what < 14)
			plan.steps.push_back(Step(K_CRASH, rng.range(0, 1), rng.range(0, 1)));
		else
			plan.steps.push_back(Step(K_TWIN, seed, rng.scale(1, 50)));
	}
	repeat(rng, plan);
	stretch(rng, plan, 200, { K_OPS }, 1);
}

template <typename V> struct Make { static V get(Rng &rng) { return V(rng.next()); } };
template <> struct Make<double> { static double get(Rng &rng) { return rng.unit(); } };

template <typename V, int N>
struct QueueSide
{
	typedef DSP::Deque<V, N> OBJ;
	static void push(OBJ &o, std::deque<V> &m, const V &v, bool front)
	{
		if (front) {
			o.push_front(v);
			m.push_front(v);
		} else {
			o.push_back(v);
			m.push_back(v);
		}
	}
	static void pop(OBJ &o, std::deque<V> &m, bool front)
	{
		if (front) {
			o.pop_front();
			m.pop_front();
		} else {
			o.pop_back();
			m.pop_back();
		}
	}
	static bool same(OBJ &o, std::deque<V> &m) { return o.front() == m.front() && o.back() == m.back(); }
};

template <typename V, int N>
struct StackSide
{
	typedef DSP::Stack<V, N> OBJ;
	static void push(OBJ &o, std::deque<V> &m, const V &v, bool)
	{
		o.push(v);
		m.push_back(v);
	}
	static void pop(OBJ &o, std::deque<V> &m, bool)
	{
		o.pop();
		m.pop_back();
	}
	static bool same(OBJ &o, std::deque<V> &m) { return o.top() == m.back() && o.first() == m.front(); }
};

template <typename SIDE, typename V, int N>
struct Run
{
	typedef typename SIDE::OBJ OBJ;
	typedef std::deque<V> Ideal;
	Ctx &ctx;
	bool stack;
	void check(OBJ &o, Ideal &m, const char *what)
	{
		++ctx.ticks;
		if (o.size() != int(m.size()) || o.empty() != m.empty() || o.full() != (int(m.size()) == N) || o.max_size() != N)
			ctx.fail("wrong-size", "%s<%d> after %s: size %d, empty %d, full %d, max_size %d; holds %zu", stack ? "stack" : "deque", N, what, o.size(), o.empty(), o.full(), o.max_size(), m.size());
		if (!m.empty() && !SIDE::same(o, m))
			ctx.fail("wrong-element", "%s<%d> after %s: wrong element at an end, %zu held", stack ? "stack" : "deque", N, what, m.size());
	}
	void ops(OBJ &o, Ideal &m, uint64_t seed, int64_t n, int64_t bias)
	{
		Rng rng(seed);
		for (int64_t i = 0; i < n && i < 150000; ++i) {
			bool front = rng.chance(1, 2);
			bool push = rng.chance(int(std::min<int64_t>(9, std::max<int64_t>(1, bias))), 10);
			if ((push || m.empty()) && int(m.size()) < N) {
				SIDE::push(o, m, Make<V>::get(rng), front);
				check(o, m, "push");
			} else if (!m.empty()) {
				SIDE::pop(o, m, front);
				check(o, m, "pop");
			}
			if (rng.chance(1, 100)) {
				o.clear();
				m.clear();
				check(o, m, "clear");
			}
		}
	}
	// takes everything out of a copy, so that every element has been seen
	void empty_copy(OBJ &o, const Ideal &m, bool front)
	{
		Slot<OBJ> c;
		c.create(0x21, const_cast<const OBJ &>(o));
		Ideal k = m;
		check(*c, k, "copy");
		while (!k.empty()) {
			SIDE::pop(*c, k, front);
			check(*c, k, "copy and pop");
		}
	}
	void run(const Plan &plan)
	{
		uint8_t pat = uint8_t(plan.p(P_PAT));
		Slot<OBJ> live, save[2];
		Ideal m, kept[2];
		live.create(pat);
		check(*live, m, "construction");
		for (const Step &s : plan.steps) {
			int k = int(s.a[0] & 1);
			Rng rng(uint64_t(s.a[0]));
			switch (s.kind) {
			case K_OPS:
				ops(*live, m, uint64_t(s.a[0]), s.a[1], s.a[2]);
				break;
			case K_FILL:
				while (int(m.size()) < N) {
					SIDE::push(*live, m, Make<V>::get(rng), s.a[1] == 2 ? rng.chance(1, 2) : s.a[1] == 1);
					check(*live, m, "push");
				}
				break;
			case K_DRAIN:
				while (!m.empty()) {
					SIDE::pop(*live, m, s.a[1] == 2 ? rng.chance(1, 2) : s.a[1] == 1);
					check(*live, m, "pop");
				}
				break;
			case K_CLEAR:
				live->clear();
				m.clear();
				check(*live, m, "clear");
				break;
			case K_SAVE:
				save[k].create(uint8_t(~pat), const_cast<const OBJ &>(*live));
				kept[k] = m;
				break;
			case K_CRASH:
				if (!save[k].get())
					break;
				ctx.fault("crash_and_restore", int64_t(m.size()), int64_t(kept[k].size()));
				if (s.a[1]) {
					*live = *save[k];
				} else {
					live.destroy();
					live.create(uint8_t(pat), const_cast<const OBJ &>(*save[k]));
				}
				m = kept[k];
				check(*live, m, "restore");
				break;
			case K_TWIN: {
				ctx.fault("copy_used_by_other_task", int64_t(m.size()));
				Slot<OBJ> twin;
				twin.create(pat, const_cast<const OBJ &>(*live));
				Ideal t = m;
				ops(*twin, t, uint64_t(s.a[0]), s.a[1], 5);
				check(*live, m, "use of a copy");
				break;
			}
			}
			ctx.log("step", s.kind, int64_t(m.size()), s.a[0]);
			empty_copy(*live, m, rng.chance(1, 2));
			ctx.progress = true;
		}
		ctx.count(stack ? "state.stack" : "state.deque");
	}
};

template <typename V, int N>
static void sized(const Plan &plan, Ctx &ctx)
{
	if (plan.p(P_STACK)) {
		Run<StackSide<V, N>, V, N> r { ctx, true };
		r.run(plan);
	} else {
		Run<QueueSide<V, N>, V, N> r { ctx, false };
		r.run(plan);
	}
}

template <typename V>
static void typed(const Plan &plan, Ctx &ctx)
{
	const bool more = std::is_same<V, int>::value;
	int size = int(uint64_t(plan.p(P_SIZE)) % NSIZE);
	if constexpr (more)
		switch (size) {
		case 9: return sized<V, 5>(plan, ctx);
		case 10: return sized<V, 6>(plan, ctx);
		case 11: return sized<V, 8>(plan, ctx);
		case 12: return sized<V, 9>(plan, ctx);
		case 13: return sized<V, 10>(plan, ctx);
		case 14: return sized<V, 12>(plan, ctx);
		case 15: return sized<V, 15>(plan, ctx);
		case 16: return sized<V, 17>(plan, ctx);
		case 17: return sized<V, 20>(plan, ctx);
		case 18: return sized<V, 31>(plan, ctx);
		case 19: return sized<V, 32>(plan, ctx);
		case 20: return sized<V, 33>(plan, ctx);
		case 21: return sized<V, 50>(plan, ctx);
		case 22: return sized<V, 63>(plan, ctx);
		case 23: return sized<V, 64>(plan, ctx);
		case 24: return sized<V, 65>(plan, ctx);
		case 25: return sized<V, 127>(plan, ctx);
		case 26: return sized<V, 128>(plan, ctx);
		case 27: return sized<V, 129>(plan, ctx);
		case 28: return sized<V, 200>(plan, ctx);
		case 29: return sized<V, 255>(plan, ctx);
		case 30: return sized<V, 256>(plan, ctx);
		case 31: return sized<V, 257>(plan, ctx);
		case 32: return sized<V, 500>(plan, ctx);
		case 33: return sized<V, 512>(plan, ctx);
		case 34: return sized<V, 1000>(plan, ctx);
		case 35: return sized<V, 1024>(plan, ctx);
		}
	switch (size % 8 + (size == 8) * 8) {
	case 0: return sized<V, 1>(plan, ctx);
	case 1: return sized<V, 2>(plan, ctx);
	case 2: return sized<V, 3>(plan, ctx);
	case 3: return sized<V, 4>(plan, ctx);
	case 4: return sized<V, 7>(plan, ctx);
	case 5: return sized<V, 16>(plan, ctx);
	case 6: return sized<V, 100>(plan, ctx);
	case 7: return sized<V, 300>(plan, ctx);
	default: return sized<V, 70000>(plan, ctx);
	}
}

static void execute(const Plan &plan, Ctx &ctx)
{
	switch (plan.p(P_TYPE)) {
	case 0: return typed<int>(plan, ctx);
	case 1: return typed<unsigned char>(plan, ctx);
	default: return typed<double>(plan, ctx);
	}
}

namespace sim {
static const int64_t par_min[] = { 0, 0, 0, 0 };
const Scenario scenario = { "C14", kinds, generate, execute, par_min, 4, pars };
}
