// C11: a task using a component is checkpointed by copying it, crashes, is restored and replays its input
#include "prelude.hh"
#include "parts.hh"

using namespace sim;

enum { K_OPS = 1, K_COPY, K_ASSIGN, K_CRASH, K_ABUSE, K_TWIN, K_SELF };
static const char *const kinds[] = { "none", "ops", "checkpoint_copy", "checkpoint_assign", "crash", "abuse_original", "twin", "self_assign", nullptr };
enum { P_PART, P_CFG, P_PAT, P_STYLE };
static const char *const pars[] = { "part", "cfg", "pattern", "style", nullptr };
enum { SLOTS = 3 };

static std::vector<int> usable()
{
	std::vector<int> v;
	for (size_t i = 0; i < parts().size(); ++i)
		if (parts()[i].group == G_STREAM || parts()[i].group == G_STORE || parts()[i].group == G_CALL)
			v.push_back(int(i));
	return v;
}

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	static const std::vector<int> use = usable();
	plan.par = { use[size_t(index % use.size())], int64_t(rng.next() >> 1), rng.pick({ 0, 0xff, 0x7f, 0x3c }), rng.range(0, 7) };
	bool heavy = parts()[size_t(plan.par[P_PART])].group == G_CALL;
	int n = int(rng.scale(3, thorough ? 40 : 16));
	bool faults = !rng.chance(1, 12);
	for (int i = 0; i < n; ++i) {
		int what = int(rng.range(0, 11));
		if (!faults || what < 4)
			plan.steps.push_back(Step(K_OPS, int64_t(rng.next() >> 1), rng.scale(1, heavy ? 6 : 120)));
		else if (what < 6)
			plan.steps.push_back(Step(K_COPY, rng.range(0, SLOTS - 1)));
		else if (what == 6)
			plan.steps.push_back(Step(K_ASSIGN, rng.range(0, SLOTS - 1), int64_t(rng.next() >> 1), rng.scale(0, 40)));
		else if (what < 9)
			plan.steps.push_back(Step(K_CRASH, rng.range(0, SLOTS - 1), rng.range(0, 1), int64_t(rng.next() >> 1), rng.scale(0, 40)));
		else if (what == 9)
			plan.steps.push_back(Step(K_ABUSE, int64_t(rng.next() >> 1), rng.scale(1, 40)));
		else if (what == 10)
			plan.steps.push_back(Step(K_TWIN, rng.range(0, SLOTS), int64_t(rng.next() >> 1), rng.scale(1, 40)));
		else
			plan.steps.push_back(Step(K_SELF));
	}
	repeat(rng, plan);
	plan.steps.push_back(Step(K_OPS, int64_t(rng.next() >> 1), rng.scale(1, heavy ? 6 : 120)));
}

static void execute(const Plan &plan, Ctx &ctx)
{
	const Info &info = parts()[size_t(plan.p(P_PART)) % parts().size()];
	if (info.group == G_FUNC || info.group == G_FILE)
		return;
	uint64_t cfg = uint64_t(plan.p(P_CFG));
	uint8_t pat = uint8_t(plan.p(P_PAT));
	int style = int(plan.p(P_STYLE));
	PartBox ref, slot[SLOTS];
	std::unique_ptr<PartBox> live(new PartBox);
	size_t at[SLOTS] = { 0, 0, 0 }, pos = 0;
	std::vector<uint64_t> seeds, results;
	ref.create(info, cfg, uint8_t(~pat));
	live->create(info, cfg, pat);
	auto feed = [&](Part &p, uint64_t seed) {
		In in(seed, style);
		Out out;
		p.op(in, out);
		++ctx.ticks;
		return out;
	};
	auto junk = [&](Part &p, uint64_t seed, int64_t n) {
		for (int64_t i = 0; i < n && i < 200; ++i)
			feed(p, mix(seed, uint64_t(i) + 77));
	};
	auto step = [&](uint64_t seed) {
		if (pos == seeds.size()) {
			seeds.push_back(seed);
			results.push_back(feed(*ref, seed).hash);
		}
		Out out = feed(**live, seeds[pos]);
		ctx.log("op", int64_t(out.hash));
		if (out.hash != results[pos])
			ctx.fail("resume-differs", "%s: operation %zu after restore differs from the uninterrupted run (first value %.9g)", info.name, pos, out.n ? out.v[0] : 0.0);
		++pos;
	};
	ctx.count(std::string("state.part.") + info.name);
	for (const Step &s : plan.steps) {
		int k = int(uint64_t(s.a[0]) % SLOTS);
		switch (s.kind) {
		case K_OPS:
			scribble_stack(pat);
			for (int64_t i = 0; i < s.a[1] && i < 500; ++i)
				step(mix(uint64_t(s.a[0]), uint64_t(i)));
			break;
		case K_COPY:
			slot[k].copy(info, *live, uint8_t(pat + 1));
			at[k] = pos;
			ctx.log("checkpoint", k, int64_t(pos));
			break;
		case K_ASSIGN:
			slot[k].create(info, uint64_t(s.a[1]), uint8_t(pat + 2));
			junk(*slot[k], uint64_t(s.a[1]), s.a[2]);
			slot[k]->assign(**live);
			at[k] = pos;
			ctx.log("checkpoint", k, int64_t(pos));
			break;
		case K_CRASH: {
			if (!slot[k].alive())
				break;
			ctx.fault(s.a[1] ? "crash_restore_by_assignment" : "crash_restore_by_copy", int64_t(pos), int64_t(at[k]));
			live.reset(new PartBox);
			if (s.a[1]) {
				live->create(info, uint64_t(s.a[2]), uint8_t(pat + 3));
				junk(**live, uint64_t(s.a[2]), s.a[3]);
				(*live)->assign(*slot[k]);
			} else {
				live->copy(info, slot[k], uint8_t(pat + 4));
			}
			pos = at[k];
			size_t end = seeds.size();
			while (pos < end)
				step(0);
			break;
		}
		case K_ABUSE: {
			// the original goes on doing other things after the copy was taken, and is destroyed
			ctx.fault("original_used_and_destroyed", int64_t(pos));
			std::unique_ptr<PartBox> next(new PartBox);
			next->copy(info, *live, pat);
			junk(**live, uint64_t(s.a[0]), s.a[1]);
			live->destroy();
			live = std::move(next);
			break;
		}
		case K_TWIN: {
			// a second task works with a copy of its own for a while
			PartBox &from = s.a[0] == SLOTS || !slot[k].alive() ? *live : slot[k];
			ctx.fault("second_task_with_copy", int64_t(pos));
			PartBox twin;
			twin.copy(info, from, uint8_t(pat + 5));
			junk(*twin, uint64_t(s.a[1]), s.a[2]);
			break;
		}
		case K_SELF:
			(*live)->assign(**live);
			ctx.log("self", int64_t(pos));
			break;
		}
	}
	ctx.progress = pos > 0;
}

namespace sim {
static const int64_t par_min[] = { 0, 0, 0, 0 };
const Scenario scenario = { "C11", kinds, generate, execute, par_min, 4, pars };
}
