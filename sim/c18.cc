// C18: noisy lines into Schmitt and edge triggers, across checkpoints, crashes and restores
#include "prelude.hh"
#include "trigger.hh"
#include "guard.hh"

using namespace sim;

enum { K_LINE = 1, K_NOISE, K_STUCK, K_SPIKE, K_SAVE, K_CRASH, K_LOST };
static const char *const kinds[] = { "none", "line", "noise", "stuck", "spike", "save", "crash", "lost", nullptr };
enum { P_TYPE, P_CTOR, P_LOW, P_HIGH, P_PREV, P_EDGE, P_PAT };
static const char *const pars[] = { "type", "constructor", "low", "high", "previous", "edge_initial", "pattern", nullptr };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	int64_t a = rng.range(-20, 20), b = rng.chance(1, 6) ? a : rng.range(-20, 20);
	plan.par = { int64_t(index % 3), rng.range(0, 3), std::min(a, b), std::max(a, b), rng.range(0, 1), rng.range(0, 3), rng.pick({ 0, 0xff, 0x01, 0x3c }) };
	int n = int(rng.scale(2, thorough ? 60 : 25));
	bool faults = !rng.chance(1, 10);
	for (int i = 0; i < n; ++i) {
		int what = faults ? int(rng.range(0, 9)) : 0;
		int64_t seed = int64_t(rng.next() >> 1);
		if (what < 3)
			plan.steps.push_back(Step(K_LINE, seed, rng.scale(1, 200), rng.range(1, 40)));
		else if (what < 5)
			plan.steps.push_back(Step(K_NOISE, seed, rng.scale(1, 200), rng.range(0, 2)));
		else if (what == 5)
			plan.steps.push_back(Step(K_STUCK, rng.range(-21, 21), rng.scale(1, 50), rng.range(0, 3)));
		else if (what == 6)
			plan.steps.push_back(rng.chance(1, 3) ? Step(K_LOST, rng.scale(1, 30)) : Step(K_SPIKE, rng.range(0, 7), rng.range(0, 30)));
		else if (what == 7)
			plan.steps.push_back(Step(K_SAVE, rng.range(0, 1)));
		else
			plan.steps.push_back(Step(K_CRASH, rng.range(0, 1), rng.range(0, 1)));
	}
	repeat(rng, plan);
	stretch(rng, plan, 200, { K_LINE, K_NOISE, K_STUCK }, 1);
}

template <typename V>
struct Node
{
	DSP::SchmittTrigger<V> schmitt;
	DSP::RisingEdgeTrigger rise;
	DSP::FallingEdgeTrigger fall;
	// for triggers on the raw comparison, without hysteresis
	DSP::RisingEdgeTrigger raw_rise;
	DSP::FallingEdgeTrigger raw_fall;
};

struct Want
{
	bool on, rise, fall, raw_rise, raw_fall;
};

template <typename V>
static void run(const Plan &plan, Ctx &ctx)
{
	const V third = V(1) / V(3);
	V unit = std::numeric_limits<V>::is_integer ? V(1) : V(1) / V(8);
	V low = V(plan.p(P_LOW)) * unit, high = V(plan.p(P_HIGH)) * unit;
	if (high < low)
		std::swap(low, high);
	bool prev = plan.p(P_PREV) & 1, er = plan.p(P_EDGE) & 1, ef = plan.p(P_EDGE) & 2;
	uint8_t pat = uint8_t(plan.p(P_PAT));
	std::unique_ptr<Slot<Node<V>>> live(new Slot<Node<V>>), save[2];
	typedef DSP::SchmittTrigger<V> S;
	typedef DSP::RisingEdgeTrigger R;
	typedef DSP::FallingEdgeTrigger F;
	switch (plan.p(P_CTOR)) {
	case 0:
		low = -third;
		high = third;
		prev = false;
		er = ef = false;
		live->create(pat, Node<V> { S(), R(), F(), R(), F() });
		break;
	case 1:
		high = high < 0 ? V(-high) : high;
		low = -high;
		live->create(pat, Node<V> { S(high, prev), R(er), F(ef), R(er), F(ef) });
		break;
	case 2:
		prev = false;
		live->create(pat, Node<V> { S(low, high), R(er), F(ef), R(er), F(ef) });
		break;
	default:
		live->create(pat, Node<V> { S(low, high, prev), R(er), F(ef), R(er), F(ef) });
	}
	Want m = { prev, er, ef, er, ef }, kept[2] = { m, m };
	int last_edge = 0; // edges of one input alternate
	auto feed = [&](V x) {
		Node<V> &n = **live;
		++ctx.ticks;
		bool was = m.on;
		if (x > high)
			m.on = true;
		if (x < low)
			m.on = false;
		bool got = n.schmitt(x);
		if (got != m.on)
			ctx.fail("wrong-state", "band %.9g..%.9g: trigger was %d, sample %.9g made it %d", double(low), double(high), was, double(x), got);
		bool r = n.rise(m.on), f = n.fall(m.on), raw = x > V(0);
		if (r != (m.on && !m.rise) || f != (!m.on && m.fall))
			ctx.fail("wrong-edge", "input %d after %d/%d: rising %d falling %d", m.on, m.rise, m.fall, r, f);
		m.rise = m.fall = m.on;
		bool rr = n.raw_rise(raw), rf = n.raw_fall(raw);
		if (rr != (raw && !m.raw_rise) || rf != (!raw && m.raw_fall))
			ctx.fail("wrong-edge", "input %d after %d/%d: rising %d falling %d", raw, m.raw_rise, m.raw_fall, rr, rf);
		m.raw_rise = m.raw_fall = raw;
		if (rr || rf) {
			int e = rr ? 1 : 2;
			if (e == last_edge && er == ef)
				ctx.fail("edge-twice", "two %s edges in a row", rr ? "rising" : "falling");
			last_edge = e;
		}
		ctx.count(m.on != was ? "state.switched" : x >= low && x <= high ? m.on ? "state.held_on" : "state.held_off" : "state.confirmed");
		ctx.progress = true;
	};
	int last_kept[2] = { 0, 0 };
	const V special[] = { low, high, V(low + unit), V(high - unit) };
	for (const Step &s : plan.steps) {
		int k = int(s.a[0] & 1);
		Rng rng(uint64_t(s.a[0]));
		switch (s.kind) {
		case K_LINE: {
			int64_t len = std::max<int64_t>(1, s.a[2]);
			for (int64_t i = 0; i < s.a[1] && i < 150000; ++i)
				feed(V((i / len) % 2 ? high + unit : low - unit) + V(rng.range(-1, 1)) * unit);
			break;
		}
		case K_NOISE:
			ctx.fault("noise_in_band", s.a[1]);
			for (int64_t i = 0; i < s.a[1] && i < 150000; ++i) {
				// on the thresholds, and the nearest values to both sides
				V x = rng.chance(1, 2) ? low : high;
				if (s.a[2] == 1 && !std::numeric_limits<V>::is_integer)
					x = rng.chance(1, 3) ? V(std::nextafter(x, V(1000))) : rng.chance(1, 2) ? V(std::nextafter(x, V(-1000))) : x;
				else if (s.a[2] == 2)
					x = V(x + V(rng.range(-1, 1)) * unit);
				else if (!rng.chance(1, 3))
					x = V(low + (high - low) / V(2));
				feed(x);
			}
			break;
		case K_STUCK:
			ctx.fault("line_stuck", s.a[0], s.a[1]);
			for (int64_t i = 0; i < s.a[1] && i < 150000; ++i)
				feed(s.a[0] & 1 ? special[uint64_t(s.a[2]) % 4] : V(V(s.a[0]) * unit));
			break;
		case K_SPIKE:
			ctx.fault("spike", s.a[0]);
			switch (s.a[0]) {
			case 0: feed(std::numeric_limits<V>::max()); break;
			case 1: feed(std::numeric_limits<V>::lowest()); break;
			case 2: feed(V(0)); break;
			case 3: feed(V(-unit)); break;
			case 4: feed(std::numeric_limits<V>::has_infinity ? std::numeric_limits<V>::infinity() : std::numeric_limits<V>::max()); break;
			case 5: feed(std::numeric_limits<V>::has_infinity ? V(-std::numeric_limits<V>::infinity()) : std::numeric_limits<V>::lowest()); break;
			case 6: feed(V(int64_t(1) << (uint64_t(s.a[1]) % 31))); break;
			default: feed(V(-(int64_t(1) << (uint64_t(s.a[1]) % 31)))); break;
			}
			break;
		case K_LOST:
			// readings that are not a number are neither above nor below
			if (!std::numeric_limits<V>::has_quiet_NaN)
				break;
			ctx.fault("not_a_number", s.a[0]);
			for (int64_t i = 0; i < s.a[0] && i < 1000; ++i)
				feed(std::numeric_limits<V>::quiet_NaN());
			break;
		case K_SAVE:
			save[k].reset(new Slot<Node<V>>);
			save[k]->create(uint8_t(~pat), const_cast<const Node<V> &>(**live));
			kept[k] = m;
			last_kept[k] = last_edge;
			break;
		case K_CRASH:
			if (!save[k])
				break;
			ctx.fault("crash_and_restore", k);
			if (s.a[1]) {
				**live = **save[k];
			} else {
				live.reset(new Slot<Node<V>>);
				live->create(pat, const_cast<const Node<V> &>(**save[k]));
			}
			m = kept[k];
			last_edge = last_kept[k];
			break;
		}
		ctx.log("step", s.kind, m.on, s.a[0]);
	}
}

static void execute(const Plan &plan, Ctx &ctx)
{
	switch (plan.p(P_TYPE)) {
	case 0: return run<float>(plan, ctx);
	case 1: return run<double>(plan, ctx);
	default: return run<int>(plan, ctx);
	}
}

namespace sim {
static const int64_t par_min[] = { 0, 0, -20, -20, 0, 0, 0 };
const Scenario scenario = { "C18", kinds, generate, execute, par_min, 7, pars };
}
