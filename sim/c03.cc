// C03: the storage refuses data
#include "prelude.hh"
#include "wav_common.hh"

using namespace wav;

enum { P_DBL = 3, P_MAXW, P_PAT, P_QUOTA, P_PIPE };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t)
{
	spec_gen(rng, plan);
	Spec s = spec_of(plan);
	plan.par.push_back(rng.range(0, 1));
	plan.par.push_back(rng.chance(1, 3) ? rng.scale(1, 5000) : 0);
	plan.par.push_back(rng.pick({ 0, 0xff, 0x5a }));
	int64_t big = rng.chance(1, 2) ? (thorough ? 60000 : 20000) / s.bytes() : rng.chance(1, 2) ? 3000 : 60;
	big = std::max<int64_t>(1, big / s.channels);
	if (plan.par[P_MAXW] && plan.par[P_MAXW] < 50)
		big = std::min<int64_t>(big, 300);
	Plan ops;
	gen_ops(rng, ops, rng.chance(1, 10) ? 0 : int(rng.range(1, 10)), big);
	int64_t bytes = frames_in(ops) * s.frame() + 58;
	int64_t calls = bytes / std::max<int64_t>(1, plan.par[P_MAXW] ? std::min<int64_t>(8191, plan.par[P_MAXW]) : 8191) + 2;
	int style = int(rng.range(0, 9));
	plan.par.push_back(style <= 2 ? rng.range(0, bytes) : -1); // quota
	plan.par.push_back(style == 3); // pipe
	plan.steps = ops.steps;
	if (rng.chance(1, 2))
		gen_benign(rng, plan, S_WRITE, calls + 3, int(rng.scale(1, 6)));
	int64_t ord = rng.chance(1, 4) ? -rng.range(1, 6) : rng.range(0, calls);
	int64_t n = rng.chance(1, 3) ? 0 : rng.scale(0, 8191);
	if (style == 4)
		plan.steps.push_back(Step(K_ERR, S_OPEN, 0, 0, rng.range(0, 2)));
	else if (style == 5)
		plan.steps.push_back(Step(K_ERR, S_SEEK, rng.chance(1, 2) ? -rng.range(1, 5) : rng.range(0, 5)));
	else if (style <= 7 && style > 5)
		plan.steps.push_back(Step(K_ERR, S_WRITE, ord, n, rng.range(0, 1), 1));
	else if (style == 8) {
		for (int i = int(rng.range(1, 3)); i > 0; --i)
			plan.steps.push_back(Step(K_ERR, S_WRITE, ord + i, n, rng.range(0, 1), 0));
	}
	// style 9: nothing fails
}

template <typename TYPE>
static void run(const Plan &plan, Ctx &ctx)
{
	const char *twin_name = "/sim/twin.wav", *name = "/sim/a.wav";
	Spec spec = spec_of(plan);
	uint8_t pat = uint8_t(plan.p(P_PAT));
	disk.reset(ctx);
	disk.max_write = plan.p(P_MAXW);
	install(plan, nullptr, false);
	Model<TYPE> model;
	int64_t total[S_NUM];
	{
		Session<TYPE> w(ctx, spec);
		w.open(twin_name, pat);
		for (const Step &s : plan.steps)
			w.op(s);
		w.finish();
		model = w.model;
		for (int i = 0; i < S_NUM; ++i)
			total[i] = disk.calls[i];
	}
	std::vector<uint8_t> twin = disk.content(twin_name);
	Parsed p = check_finished(ctx, twin, model);

	disk.reset(ctx);
	disk.max_write = plan.p(P_MAXW);
	disk.quota = plan.par.size() > P_QUOTA ? plan.p(P_QUOTA) : -1;
	bool pipe = plan.p(P_PIPE);
	disk.unseekable = pipe;
	install(plan, total, true);
	bool persistent = true;
	for (const Fault &f : disk.faults)
		if (f.kind == F_ERR && f.op == S_WRITE && !f.sticky)
			persistent = false;
	bool in_recording; // a refusal was met while still recording
	{
		Session<TYPE> w(ctx, spec);
		auto check_good = [&](const char *when) {
			bool refused = disk.hard_error || disk.open_error;
			bool good = w.w->good();
			if (good && refused)
				ctx.fail("failure-unreported", "writer still good after %s though the storage refused %s", when, disk.open_error ? "to open" : "data");
			if (!good && !refused && !disk.seek_error)
				ctx.fail("false-failure", "writer not good after %s though the storage refused nothing", when);
		};
		w.open(name, pat);
		check_good("opening");
		for (const Step &s : plan.steps)
			if (w.op(s))
				check_good("a write");
		in_recording = disk.hard_error || disk.open_error;
		w.finish();
	}
	bool refused = disk.hard_error, opened = !disk.open_error, seek_error = disk.seek_error;
	int64_t refused_at = disk.refused_at, refused_size = disk.refused_size;
	disk.restart();
	disk.clear_faults();
	std::vector<uint8_t> left = disk.content(name);
	ctx.log("left", int64_t(left.size()), refused, seek_error);
	if (!opened) {
		ctx.count("state.open_refused");
		if (disk.exists(name))
			ctx.fail("file-created", "a file exists though it could not be opened");
		return;
	}
	ctx.count(!refused ? seek_error ? "state.seek_refused" : "state.nothing_refused" : in_recording ? "state.refused_while_recording" : "state.refused_in_finalisation");
	if (!refused) {
		if (pipe || seek_error) {
			if (pipe) {
				// header with unknown sizes, the frames, nothing else
				Parsed q = parse(left);
				if (!q.ok || q.data_at != p.data_at)
					ctx.fail("pipe-header", "no WAV header on the pipe: %s", q.why);
				if (q.data_size > 0)
					ctx.fail("pipe-sizes", "size field on the pipe says %lld", (long long)q.data_size);
				if (left.size() != twin.size() || !std::equal(left.begin() + p.data_at, left.end(), twin.begin() + p.data_at))
					ctx.fail("pipe-data", "%zu bytes delivered to the pipe, %zu expected, or other frames", left.size(), twin.size());
				read_all<TYPE>(ctx, name, twin, p.data_at, spec, model.frames(), -1, -1, true, pat, "from a pipe");
			}
		} else if (left != twin) {
			ctx.fail("file-differs", "nothing refused but the file differs");
		}
	}
	bool patching = refused && refused_at < refused_size;
	int64_t safe = !refused ? int64_t(left.size()) : patching ? refused_size : refused_at;
	auto verify = [&]() {
		if (safe > int64_t(left.size()))
			ctx.fail("data-lost", "refused at byte %lld but only %zu bytes stored", (long long)safe, left.size());
		if (persistent) {
			if (left.size() > twin.size())
				ctx.fail("data-extra", "%zu bytes stored, the whole recording has %zu", left.size(), twin.size());
			for (size_t i = size_t(p.data_at); i < left.size(); ++i)
				if (left[i] != twin[i])
					ctx.fail("stored-data", "byte %zu is %02x instead of %02x", i, left[i], twin[i]);
		}
		if (safe >= p.data_at) {
			int64_t avail = std::min((safe - p.data_at) / spec.frame(), model.frames());
			int64_t stored = (int64_t(left.size()) - p.data_at) / spec.frame();
			read_all<TYPE>(ctx, name, twin, p.data_at, spec, avail, -1, stored ? stored : -1, false, pat, "after refused data");
		}
	};
	if (patching && !persistent) {
		// known: the stream library repeats an interrupted patch of the size fields at the wrong place
		try {
			verify();
		} catch (Violation &v) {
			ctx.count("known.transient-error-while-finalising");
			ctx.log("known_finding");
		}
	} else {
		verify();
	}
	if (disk.open_handles())
		ctx.fail("leaked-descriptor", "%d files still open", disk.open_handles());
}

static void execute(const Plan &plan, Ctx &ctx)
{
	if (plan.p(P_DBL))
		run<double>(plan, ctx);
	else
		run<float>(plan, ctx);
}

static const char *const kinds[] = { "write", "silence", "", "", "", "", "", "", "", "", "short-transfer", "interrupted-call", "error", "crash", nullptr };
static const char *const pars[] = { "rate", "bits", "channels", "double", "max_write", "stale_memory", "quota", "pipe", nullptr };
static const int64_t par_min[] = { 1, 0, 1, 0, 0, 0, -1, 0 };
namespace sim { const Scenario scenario = { "C03", kinds, generate, execute, par_min, 8, pars }; }
