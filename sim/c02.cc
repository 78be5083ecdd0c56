// C02: the recording process is killed inside any system call; what is left must be readable
#include "prelude.hh"
#include "wav_common.hh"

using namespace wav;

enum { P_DBL = 3, P_MAXW, P_PAT, P_READER_MAX, P_AGAIN_BITS, P_AGAIN_CH, P_AGAIN_FRAMES, P_AGAIN_RATE };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t)
{
	spec_gen(rng, plan);
	Spec s = spec_of(plan);
	plan.par.push_back(rng.range(0, 1));
	plan.par.push_back(rng.chance(1, 3) ? rng.scale(1, 5000) : 0);
	plan.par.push_back(rng.pick({ 0, 0xff, 0x5a }));
	plan.par.push_back(rng.chance(1, 4) ? rng.scale(1, 300) : 0);
	plan.par.push_back(rng.chance(1, 2) ? s.bits : rng.pick({ 8, 16, 32 }));
	plan.par.push_back(rng.chance(1, 2) ? s.channels : rng.range(1, 4));
	plan.par.push_back(rng.chance(1, 3) ? 0 : rng.scale(0, 400));
	plan.par.push_back(rng.range(1, 100000));
	int64_t big = rng.chance(1, 150) ? 300000 / s.bytes() : rng.chance(1, 2) ? (thorough ? 60000 : 20000) / s.bytes() : rng.chance(1, 2) ? 3000 : 60;
	big = std::max<int64_t>(1, big / s.channels);
	if (plan.par[P_MAXW] && plan.par[P_MAXW] < 50)
		big = std::min<int64_t>(big, 300);
	gen_ops(rng, plan, rng.chance(1, 10) ? 0 : int(rng.range(1, 10)), big);
	int64_t bytes = frames_in(plan) * s.frame() + 58;
	int64_t calls = bytes / std::max<int64_t>(1, plan.par[P_MAXW] ? std::min<int64_t>(8191, plan.par[P_MAXW]) : 8191) + 2;
	if (rng.chance(1, 2))
		gen_benign(rng, plan, S_WRITE, calls + 3, int(rng.scale(1, 6)));
	if (rng.chance(1, 2))
		gen_benign(rng, plan, S_READ, 4, int(rng.scale(1, 3)));
	// where the process dies: half of the time while the header is being finalised
	int64_t ord = rng.chance(1, 2) ? -rng.range(1, 6) : rng.range(0, calls);
	int64_t n = rng.chance(1, 2) ? rng.range(0, 4) : rng.scale(0, 8191);
	if (rng.chance(1, 10))
		plan.steps.push_back(Step(K_CRASH, S_SEEK, rng.chance(1, 2) ? -rng.range(1, 5) : rng.range(0, 4)));
	else if (rng.chance(1, 50))
		plan.steps.push_back(Step(K_CRASH, S_OPEN, 0));
	else
		plan.steps.push_back(Step(K_CRASH, S_WRITE, ord, n));
}

template <typename TYPE>
static void run(const Plan &plan, Ctx &ctx)
{
	const char *twin_name = "/sim/twin.wav", *name = "/sim/a.wav";
	Spec spec = spec_of(plan);
	uint8_t pat = uint8_t(plan.p(P_PAT));
	// the uninterrupted twin: what would have been stored
	disk.reset(ctx);
	disk.max_write = plan.p(P_MAXW);
	install(plan, nullptr, false);
	Model<TYPE> model;
	int64_t total[S_NUM];
	{
		Session<TYPE> w(ctx, spec);
		w.open(twin_name, pat);
		for (const Step &s : plan.steps)
			w.op(s);
		w.finish();
		model = w.model;
		for (int i = 0; i < S_NUM; ++i)
			total[i] = disk.calls[i];
	}
	std::vector<uint8_t> twin = disk.content(twin_name);
	Parsed p = check_finished(ctx, twin, model);
	int64_t avail_all = model.frames();
	// the victim
	disk.reset(ctx);
	disk.max_write = plan.p(P_MAXW);
	install(plan, total, true);
	{
		Session<TYPE> w(ctx, spec);
		w.open(name, pat);
		for (const Step &s : plan.steps)
			w.op(s);
		w.finish();
	}
	bool crashed = disk.crashed;
	// the survivors look at the disk
	disk.restart();
	disk.clear_faults();
	std::vector<uint8_t> left = disk.content(name);
	ctx.log("left", int64_t(left.size()), crashed);
	bool complete = left == twin;
	if (!crashed && !complete)
		ctx.fail("not-deterministic", "two uninterrupted recordings differ");
	if (left.size() > twin.size())
		ctx.fail("data-extra", "killed recording left %zu bytes, the whole one has %zu", left.size(), twin.size());
	for (size_t i = size_t(p.data_at); i < left.size(); ++i)
		if (left[i] != twin[i])
			ctx.fail("stored-data", "byte %zu of the killed recording is %02x instead of %02x", i, left[i], twin[i]);
	install(plan, nullptr, false);
	disk.max_read = plan.p(P_READER_MAX);
	if (int64_t(left.size()) < p.data_at) {
		ctx.count("state.shorter_than_header");
		Slot<DSP::ReadWAV<TYPE>> r;
		if (disk.exists(name)) {
			r.create(pat, name);
			if (r->good())
				ctx.fail("short-header-accepted", "reader is good with only %zu bytes of header", left.size());
		}
	} else {
		int64_t avail = (int64_t(left.size()) - p.data_at) / spec.frame();
		// exact only when finalisation was complete
		int64_t want = complete && avail_all ? avail_all : -1;
		int64_t alt = avail == avail_all && avail_all && !complete ? avail_all : want;
		ctx.count(complete ? "state.complete" : avail == avail_all ? "state.killed_in_finalisation" : "state.killed_while_recording");
		read_all<TYPE>(ctx, name, twin, p.data_at, spec, avail, want, alt, true, pat, "killed recording");
	}
	// restart: record something else under the same name
	if (crashed) {
		disk.restart();
		disk.clear_faults();
		Spec again;
		Plan q;
		q.par = { plan.p(P_AGAIN_RATE), plan.p(P_AGAIN_BITS), plan.p(P_AGAIN_CH) };
		again = spec_of(q);
		Session<TYPE> w(ctx, again);
		w.open(name, pat);
		w.op(Step(OP_WRITE, std::min<int64_t>(plan.p(P_AGAIN_FRAMES), 4000 / again.channels), 0, V_UNIT, 77));
		if (!w.w->good())
			ctx.fail("writer-not-good", "restarted recording is not good");
		w.finish();
		std::vector<uint8_t> file = disk.content(name);
		Parsed p2 = check_finished(ctx, file, w.model);
		int64_t n = w.model.frames();
		read_all<TYPE>(ctx, name, file, p2.data_at, again, n, n ? n : -1, n ? n : -1, true, pat, "restarted recording");
	}
	if (disk.open_handles())
		ctx.fail("leaked-descriptor", "%d files still open", disk.open_handles());
}

static void execute(const Plan &plan, Ctx &ctx)
{
	if (plan.p(P_DBL))
		run<double>(plan, ctx);
	else
		run<float>(plan, ctx);
}

static const char *const kinds[] = { "write", "silence", "", "", "", "", "", "", "", "", "short-transfer", "interrupted-call", "error", "crash", nullptr };
static const char *const pars[] = { "rate", "bits", "channels", "double", "max_write", "stale_memory", "reader_max", "again_bits", "again_channels", "again_frames", "again_rate", nullptr };
static const int64_t par_min[] = { 1, 0, 1, 0, 0, 0, 0, 0, 1, 0, 1 };
namespace sim { const Scenario scenario = { "C02", kinds, generate, execute, par_min, 11, pars }; }
