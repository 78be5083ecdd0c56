// C04: the storage fails or ends under a reader
#include "prelude.hh"
#include "wav_common.hh"

using namespace wav;

enum { K_READ = 2, K_SKIP = 3 };
enum { P_DBL = 3, P_MAXR, P_PAT, P_CUT, P_PIPE, P_UNKNOWN };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t)
{
	spec_gen(rng, plan);
	Spec s = spec_of(plan);
	plan.par.push_back(rng.range(0, 1));
	plan.par.push_back(rng.chance(1, 3) ? rng.scale(1, 5000) : 0);
	plan.par.push_back(rng.pick({ 0, 0xff, 0x5a }));
	int64_t big = rng.chance(1, 150) ? 300000 / s.bytes() : rng.chance(1, 2) ? (thorough ? 60000 : 20000) / s.bytes() : rng.chance(1, 2) ? 3000 : 60;
	big = std::max<int64_t>(1, big / s.channels);
	if (plan.par[P_MAXR] && plan.par[P_MAXR] < 50)
		big = std::min<int64_t>(big, 300);
	Plan ops;
	gen_ops(rng, ops, int(rng.range(1, 3)), big);
	int64_t total = frames_in(ops);
	int64_t bytes = total * s.frame() + 58;
	int64_t calls = bytes / std::max<int64_t>(1, plan.par[P_MAXR] ? std::min<int64_t>(8191, plan.par[P_MAXR]) : 8191) + 2;
	int style = int(rng.range(0, 7));
	plan.par.push_back(style <= 1 ? rng.chance(1, 3) ? rng.range(0, 60) : rng.range(0, bytes) : -1); // truncated to so many bytes
	plan.par.push_back(style == 2);
	plan.par.push_back(rng.chance(1, 4)); // recording was never finalised
	plan.steps = ops.steps;
	if (rng.chance(1, 2))
		gen_benign(rng, plan, S_READ, calls, int(rng.scale(1, 6)));
	int64_t n = rng.chance(1, 3) ? 0 : rng.scale(0, 8191);
	if (style == 3)
		plan.steps.push_back(Step(K_ERR, S_OPEN, 1, 0, rng.range(0, 2)));
	else if (style == 4)
		plan.steps.push_back(Step(K_ERR, S_SEEK, rng.range(0, 3)));
	else if (style == 5 || style == 6)
		plan.steps.push_back(Step(K_ERR, S_READ, rng.range(0, calls), n, 0, style == 5));
	int64_t pos = 0;
	int mode = int(rng.range(0, 3));
	for (int i = 0; i < 300 && pos < total + 3; ++i) {
		int64_t num = mode == 0 ? total : mode == 1 ? 1 : rng.chance(1, 10) ? 0 : rng.scale(1, std::max<int64_t>(1, total / 2));
		if (mode >= 2 && rng.chance(1, 4))
			plan.steps.push_back(Step(K_SKIP, num));
		else
			plan.steps.push_back(Step(K_READ, num, gen_mode(rng, false)));
		pos += num;
	}
}

template <typename TYPE>
static void run(const Plan &plan, Ctx &ctx)
{
	const char *name = "/sim/a.wav";
	Spec spec = spec_of(plan);
	uint8_t pat = uint8_t(plan.p(P_PAT));
	disk.reset(ctx);
	Model<TYPE> model;
	{
		Session<TYPE> w(ctx, spec);
		w.open(name, pat);
		for (const Step &s : plan.steps)
			w.op(s);
		w.finish();
		model = w.model;
	}
	std::vector<uint8_t> whole = disk.content(name);
	Parsed p = check_finished(ctx, whole, model);
	std::vector<uint8_t> file = whole;
	if (plan.p(P_UNKNOWN)) {
		ctx.fault("never_finalised");
		for (int i = 1; i <= 4; ++i)
			file[size_t(p.data_at - i)] = 0xff;
	}
	int64_t cut = plan.par.size() > P_CUT ? plan.p(P_CUT) : -1;
	if (cut >= 0 && cut < int64_t(file.size())) {
		ctx.fault("truncated_file", cut);
		file.resize(size_t(cut));
	}
	disk.put(name, file);
	int64_t avail = std::max<int64_t>(0, (int64_t(file.size()) - p.data_at) / spec.frame());
	install(plan, nullptr, true);
	disk.max_read = plan.p(P_MAXR);
	disk.unseekable = plan.p(P_PIPE);
	for (int64_t &c : disk.calls)
		c = 0;
	for (Fault &f : disk.faults)
		if (f.op == S_OPEN)
			f.ord = 0;
	Slot<DSP::ReadWAV<TYPE>> r;
	r.create(pat, name);
	auto failed = [&]() { return disk.open_error || disk.hard_read_error; };
	bool good = r->good();
	ctx.log("opened", good);
	bool header_short = int64_t(file.size()) < p.data_at;
	if (good && (failed() || header_short))
		ctx.fail("failure-unreported", "reader good after %s", disk.open_error ? "the file could not be opened" : header_short ? "a truncated header" : "a read error in the header");
	if (!good && !failed() && !header_short)
		ctx.fail("false-failure", "reader not good though nothing failed");
	if (good) {
		check_format(ctx, *r, spec);
		int fr = r->frames();
		if (fr != (plan.p(P_UNKNOWN) || !model.frames() ? -1 : model.frames()))
			ctx.fail("reader-frames", "reader reports %d frames of %lld", fr, (long long)model.frames());
	}
	// a reader that is not good may be used nevertheless; it must stay not good and in bounds
	int64_t pos = 0;
	bool skipped = false;
	int ch = good ? spec.channels : std::max(0, std::min(r->channels(), 65535));
	for (const Step &s : plan.steps) {
		if (s.kind != K_READ && s.kind != K_SKIP)
			continue;
		int64_t num = std::min<int64_t>(std::max<int64_t>(s.a[0], 0), 1 << 20);
		if (s.kind == K_SKIP) {
			r->skip(int(num));
			pos += num;
			skipped = true;
			ctx.log("skip", num, r->good());
		} else {
			if (ch == 0) {
				TYPE *none = (TYPE *)arena().get(0, 0x5b);
				r->read(none, int(num));
				if (!arena().front_intact())
					ctx.fail("read-overflow", "reader without channels wrote to the buffer");
			} else {
				std::vector<TYPE> v = guarded_read<TYPE>(ctx, *r, num, s.a[1], ch);
				num = int64_t(v.size()) / ch;
				bool now = r->good();
				ctx.log("read", num, now);
				if (now) {
					if (pos + num > avail && num)
						ctx.fail("missing-data-delivered", "reader good after frames %lld..%lld, only %lld stored", (long long)pos, (long long)(pos + num), (long long)avail);
					for (int64_t i = 0; i < int64_t(v.size()); ++i) {
						Stored st = stored_at(whole, p.data_at, spec, pos * ch + i);
						if (!value_right(v[i], st, spec))
							ctx.fail("wrong-sample", "frame %lld channel %lld: read %.9g, stored %d (0x%x)", (long long)(pos + i / ch), (long long)(i % ch), double(v[i]), st.level, st.bits);
					}
					ctx.progress = ctx.progress || num > 0;
				} else if (good) {
					// it stopped here: rightly so?
					int64_t upto = p.data_at + (pos + num) * spec.frame();
					bool end = pos + num > avail;
					bool met = disk.hard_read_error && (num != 1 || skipped || disk.read_failed_at < upto);
					if (!end && !met && !disk.seek_error)
						ctx.fail("frames-withheld", "reader stopped at frames %lld..%lld of %lld stored%s", (long long)pos, (long long)(pos + num), (long long)avail, disk.hard_read_error ? ", all before the failure" : "");
				}
			}
			pos += num;
		}
		if (r->good()) {
			if (!good)
				ctx.fail("failure-forgotten", "reader became good again");
			if (failed())
				ctx.fail("failure-unreported", "reader good after a read error");
		} else if (good && s.kind == K_SKIP && pos <= avail && !disk.seek_error && !failed())
			ctx.fail("false-failure", "reader not good after skipping to frame %lld of %lld", (long long)pos, (long long)avail);
		good = r->good();
	}
	ctx.count(good ? "state.good" : disk.open_error ? "state.open_error" : disk.hard_read_error ? "state.read_error" : header_short ? "state.header_truncated" : disk.seek_error ? "state.seek_error" : "state.end_of_data");
	r.destroy();
	ctx.progress = ctx.progress || failed() || header_short;
	if (disk.open_handles())
		ctx.fail("leaked-descriptor", "%d files still open", disk.open_handles());
}

static void execute(const Plan &plan, Ctx &ctx)
{
	if (plan.p(P_DBL))
		run<double>(plan, ctx);
	else
		run<float>(plan, ctx);
}

static const char *const kinds[] = { "write", "silence", "read", "skip", "", "", "", "", "", "", "short-transfer", "interrupted-call", "error", "crash", nullptr };
static const char *const pars[] = { "rate", "bits", "channels", "double", "max_read", "stale_memory", "truncate", "pipe", "unfinalised", nullptr };
static const int64_t par_min[] = { 1, 0, 1, 0, 0, 0, -1, 0, 0 };
namespace sim { const Scenario scenario = { "C04", kinds, generate, execute, par_min, 9, pars }; }
