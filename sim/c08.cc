// C08: the process dies or the storage fails while an image is written
#include "prelude.hh"
#include "pnm_common.hh"

using namespace pnm;

enum { P_DBL = 4, P_MAXW, P_PAT, P_QUOTA, P_COMPLETE };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t)
{
	spec_gen(rng, plan, thorough || rng.chance(1, 2));
	Spec s = spec_of(plan);
	plan.par.push_back(rng.range(0, 1));
	plan.par.push_back(rng.chance(1, 3) ? rng.scale(1, 5000) : 0);
	plan.par.push_back(rng.pick({ 0, 0xff, 0x5a }));
	int64_t bytes = s.pixels() * s.channels() + 16;
	int style = int(rng.range(0, 9));
	plan.par.push_back(style <= 1 ? rng.range(0, bytes) : -1);
	plan.par.push_back(rng.chance(3, 4));
	gen_ops(rng, plan, int(rng.scale(1, 10)), s);
	int64_t calls = bytes / std::max<int64_t>(1, plan.par[P_MAXW] ? std::min<int64_t>(8191, plan.par[P_MAXW]) : 8191) + 1;
	if (rng.chance(1, 2))
		gen_benign(rng, plan, S_WRITE, calls, int(rng.scale(1, 6)));
	int64_t ord = rng.chance(1, 4) ? -rng.range(1, 3) : rng.range(0, calls);
	int64_t n = rng.chance(1, 3) ? rng.range(0, 16) : rng.scale(0, 8191);
	if (style == 2)
		plan.steps.push_back(Step(K_ERR, S_OPEN, 0, 0, rng.range(0, 2)));
	else if (style == 3)
		plan.steps.push_back(Step(K_ERR, S_WRITE, ord, n, rng.range(0, 1), 1));
	else if (style == 4) {
		for (int i = int(rng.range(1, 3)); i > 0; --i)
			plan.steps.push_back(Step(K_ERR, S_WRITE, ord + i - 1, n, rng.range(0, 1), 0));
	} else if (style <= 8)
		plan.steps.push_back(Step(K_CRASH, S_WRITE, ord, n));
}

template <typename TYPE>
static void run(const Plan &plan, Ctx &ctx)
{
	const char *twin_name = "/sim/twin.pnm", *name = "/sim/a.pnm";
	Spec spec = spec_of(plan);
	uint8_t pat = uint8_t(plan.p(P_PAT));
	disk.reset(ctx);
	disk.max_write = plan.p(P_MAXW);
	install(plan, nullptr, false);
	int64_t total[S_NUM];
	bool complete = plan.p(P_COMPLETE);
	Model<TYPE> model;
	{
		Session<TYPE> w(ctx, spec);
		w.open(twin_name, pat, false);
		for (const Step &s : plan.steps)
			w.op(s);
		if (complete)
			w.rest();
		w.finish();
		model = w.model;
		for (int i = 0; i < S_NUM; ++i)
			total[i] = disk.calls[i];
	}
	std::vector<uint8_t> twin = disk.content(twin_name);
	size_t at = check_finished(ctx, twin, model);

	disk.reset(ctx);
	disk.max_write = plan.p(P_MAXW);
	disk.quota = plan.par.size() > P_QUOTA ? plan.p(P_QUOTA) : -1;
	install(plan, total, true);
	bool persistent = true;
	for (const Fault &f : disk.faults)
		if (f.kind == F_ERR && f.op == S_WRITE && !f.sticky)
			persistent = false;
	{
		Session<TYPE> w(ctx, spec);
		auto check_good = [&](const char *when) {
			if (disk.crashed)
				return; // nobody is there to ask
			bool refused = disk.hard_error || disk.open_error;
			bool good = w.w->good();
			if (good && refused)
				ctx.fail("failure-unreported", "writer still good after %s though the storage refused %s", when, disk.open_error ? "to open" : "data");
			if (!good && !refused && !disk.seek_error)
				ctx.fail("false-failure", "writer not good after %s though the storage refused nothing", when);
		};
		w.open(name, pat, false);
		check_good("opening");
		for (const Step &s : plan.steps)
			if (w.op(s))
				check_good("a write");
		if (complete)
			w.rest();
		check_good("the last write");
		w.finish();
	}
	bool refused = disk.hard_error, crashed = disk.crashed, opened = !disk.open_error;
	int64_t refused_at = disk.refused_at;
	disk.restart();
	disk.clear_faults();
	std::vector<uint8_t> left = disk.content(name);
	ctx.log("left", int64_t(left.size()), refused, crashed);
	if (!opened) {
		ctx.count("state.open_refused");
		if (disk.exists(name))
			ctx.fail("file-created", "a file exists though it could not be opened");
		ctx.progress = true;
		return;
	}
	ctx.count(crashed ? "state.killed" : refused ? "state.refused" : "state.nothing_refused");
	size_t safe = refused && !crashed ? size_t(refused_at) : left.size();
	if (refused && crashed)
		safe = std::min(size_t(refused_at), left.size());
	if (!refused && !crashed && left != twin)
		ctx.fail("file-differs", "nothing refused but the file differs");
	if (safe > left.size())
		ctx.fail("data-lost", "refused at byte %zu but only %zu bytes stored", safe, left.size());
	if (persistent)
		safe = left.size();
	if (safe > twin.size())
		ctx.fail("data-extra", "%zu bytes stored, the whole image has %zu", safe, twin.size());
	for (size_t i = 0; i < safe; ++i)
		if (left[i] != twin[i])
			ctx.fail("stored-data", "byte %zu is %02x instead of %02x", i, left[i], twin[i]);
	if (left.size() < at) {
		ctx.count("state.shorter_than_header");
		if (disk.exists(name)) {
			Slot<DSP::ReadPNM<TYPE>> r;
			r.create(pat, name);
			if (r->good())
				ctx.fail("short-header-accepted", "reader is good with only %zu bytes of header", left.size());
		}
		ctx.progress = true;
	} else if (safe >= at) {
		read_all<TYPE>(ctx, name, twin, at, spec, int64_t(safe - at) / spec.channels(), safe == left.size(), pat, "interrupted image");
	}
	if (disk.open_handles())
		ctx.fail("leaked-descriptor", "%d files still open", disk.open_handles());
}

static void execute(const Plan &plan, Ctx &ctx)
{
	if (plan.p(P_DBL))
		run<double>(plan, ctx);
	else
		run<float>(plan, ctx);
}

static const char *const kinds[] = { "write", "", "", "", "", "", "", "", "", "", "short-transfer", "interrupted-call", "error", "crash", nullptr };
static const char *const pars[] = { "width", "height", "maxval", "mono", "double", "max_write", "stale_memory", "quota", "complete", nullptr };
static const int64_t par_min[] = { 1, 1, 1, 0, 0, 0, 0, -1, 0 };
namespace sim { const Scenario scenario = { "C08", kinds, generate, execute, par_min, 9, pars }; }
