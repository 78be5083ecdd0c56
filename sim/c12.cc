// C12: one transform or estimator serves several users in turn, some of whose blocks are failed measurements
#include "prelude.hh"
#include "parts.hh"

using namespace sim;

enum { K_CALL = 1, K_AGAIN, K_COPY };
static const char *const kinds[] = { "none", "call", "again", "copy", nullptr };
enum { P_PART, P_CFG, P_PAT, P_STYLE };
static const char *const pars[] = { "part", "cfg", "pattern", "style", nullptr };

static std::vector<int> usable()
{
	std::vector<int> v;
	for (size_t i = 0; i < parts().size(); ++i)
		if (parts()[i].group == G_CALL || parts()[i].group == G_FUNC)
			v.push_back(int(i));
	return v;
}

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	static const std::vector<int> use = usable();
	plan.par = { use[size_t(index % use.size())], int64_t(rng.next() >> 1), rng.pick({ 0, 0xff, 0x7f, 0x3c }), rng.range(0, 3) };
	int n = rng.chance(1, 100) ? 700 : int(rng.scale(2, thorough ? 60 : 24));
	for (int i = 0; i < n; ++i) {
		int what = int(rng.range(0, 9));
		if (what < 7)
			plan.steps.push_back(Step(K_CALL, int64_t(rng.next() >> 1), rng.range(0, 3)));
		else if (what < 9)
			plan.steps.push_back(Step(K_AGAIN, rng.range(0, n)));
		else
			plan.steps.push_back(Step(K_COPY));
	}
}

static void execute(const Plan &plan, Ctx &ctx)
{
	const Info &info = parts()[size_t(plan.p(P_PART)) % parts().size()];
	if (info.group != G_CALL && info.group != G_FUNC)
		return;
	uint64_t cfg = uint64_t(plan.p(P_CFG));
	uint8_t pat = uint8_t(plan.p(P_PAT));
	int style = int(plan.p(P_STYLE));
	PartBox used;
	used.create(info, cfg, pat);
	std::vector<uint64_t> seeds, results;
	auto call = [&](PartBox &p, uint64_t seed, uint8_t pattern) {
		In in(seed, style);
		Out out;
		scribble_stack(pattern);
		p->op(in, out);
		if (in.faulty)
			ctx.fault("failed_measurement");
		if (out.damage)
			ctx.fail("argument-damaged", "%s changed its caller's %s", info.name, out.damage);
		return out.hash;
	};
	int user = 0;
	for (const Step &s : plan.steps) {
		uint64_t seed;
		if (s.kind == K_COPY) {
			PartBox old;
			old.copy(info, used, pat);
			used.destroy();
			used.copy(info, old, uint8_t(~pat));
			ctx.fault("object_moved_by_copy", int64_t(seeds.size()));
			continue;
		}
		if (s.kind == K_AGAIN) {
			if (seeds.empty())
				continue;
			seed = seeds[size_t(uint64_t(s.a[0]) % seeds.size())];
			ctx.fault("call_repeated", s.a[0]);
		} else if (s.kind == K_CALL) {
			seed = uint64_t(s.a[0]);
			if (int(s.a[1]) != user) {
				user = int(s.a[1]);
				ctx.fault("other_user", user);
			}
		} else {
			continue;
		}
		uint64_t got = call(used, seed, pat), want = 0;
		bool known = false;
		for (size_t i = 0; i < seeds.size() && !known; ++i)
			if (seeds[i] == seed) {
				known = true;
				want = results[i];
			}
		if (!known) {
			PartBox fresh;
			fresh.create(info, cfg, uint8_t(~pat));
			want = call(fresh, seed, uint8_t(~pat));
			seeds.push_back(seed);
			results.push_back(want);
		}
		++ctx.ticks;
		ctx.log("call", int64_t(got));
		if (got != want)
			ctx.fail("history-matters", "%s: call %llu after %zu others differs from the same call on a new object", info.name, (unsigned long long)ctx.ticks, seeds.size() - 1);
		ctx.progress = true;
	}
	ctx.count(std::string("state.part.") + info.name);
}

namespace sim {
static const int64_t par_min[] = { 0, 0, 0, 0 };
const Scenario scenario = { "C12", kinds, generate, execute, par_min, 4, pars };
}
