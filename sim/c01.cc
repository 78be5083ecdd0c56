// C01: WAV round trip over a device that splits and interrupts transfers
#include "prelude.hh"
#include "wav_common.hh"

using namespace wav;

enum { K_READ = 2, K_SKIP = 3 };
enum { P_DBL = 3, P_MAXW, P_MAXR, P_PAT };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t)
{
	spec_gen(rng, plan);
	Spec s = spec_of(plan);
	bool slow = rng.chance(1, 3);
	plan.par.push_back(rng.range(0, 1));
	plan.par.push_back(slow ? rng.scale(1, 5000) : 0);
	plan.par.push_back(slow ? rng.scale(1, 5000) : 0);
	plan.par.push_back(rng.pick({ 0, 0xff, 0x5a, 1 }));
	int64_t big = rng.chance(1, 100) ? 300000 : rng.chance(1, 8) ? (thorough ? 60000 : 20000) : rng.chance(1, 2) ? 600 : 40;
	big = std::max<int64_t>(1, big / s.channels);
	if ((plan.par[P_MAXW] && plan.par[P_MAXW] < 50) || (plan.par[P_MAXR] && plan.par[P_MAXR] < 50))
		big = std::min<int64_t>(big, 300);
	gen_ops(rng, plan, int(rng.scale(0, 12)), big);
	// seldom more than sixteen millions of bytes
	bool huge = !slow && rng.chance(1, 1500);
	if (huge) {
		if (rng.chance(1, 2)) {
			plan.par[1] = 8;
			plan.par[2] = rng.pick({ 1, 1, 3 });
			s = spec_of(plan);
		}
		plan.steps.push_back(Step(OP_SILENCE, (1 << 24) / s.frame() + rng.range(-20, 300)));
		gen_ops(rng, plan, 2, 50);
	}
	int64_t total = frames_in(plan);
	// readers: whole, tiny blocks, random blocks with skips; usually up to just the end, sometimes past it
	int64_t pos = 0;
	int style = int(rng.range(0, 3));
	if (huge) {
		plan.steps.push_back(Step(K_SKIP, pos = total - rng.range(1, 100)));
		style = 3;
	}
	for (int i = 0; i < 400 && pos < total + 3; ++i) {
		int64_t n = style == 0 ? total : style == 1 ? rng.scale(1, std::max<int64_t>(1, total / 60)) : rng.chance(1, 10) ? 0 : rng.scale(1, std::max<int64_t>(1, total / 2));
		if (rng.chance(9, 10) && pos < total)
			n = std::min(n, total - pos);
		if (style >= 2 && rng.chance(1, 4))
			plan.steps.push_back(Step(K_SKIP, n));
		else
			plan.steps.push_back(Step(K_READ, n, gen_mode(rng, false)));
		pos += n;
		if (pos >= total && rng.chance(1, 2))
			break;
	}
	int64_t bytes = total * s.frame() + 58;
	int faults = rng.chance(1, 3) ? 0 : int(rng.scale(1, 12));
	gen_benign(rng, plan, S_WRITE, bytes / std::max<int64_t>(1, plan.par[P_MAXW] ? std::min<int64_t>(8191, plan.par[P_MAXW]) : 8191) + 5, faults);
	gen_benign(rng, plan, S_READ, bytes / std::max<int64_t>(1, plan.par[P_MAXR] ? std::min<int64_t>(8191, plan.par[P_MAXR]) : 8191) + 3, faults);
}

template <typename TYPE>
static void run(const Plan &plan, Ctx &ctx)
{
	const char *name = "/sim/a.wav";
	disk.reset(ctx);
	Spec spec = spec_of(plan);
	uint8_t pat = uint8_t(plan.p(P_PAT));
	disk.max_write = plan.p(P_MAXW);
	disk.max_read = plan.p(P_MAXR);
	install(plan, nullptr, false);
	if (disk.max_write || disk.max_read)
		ctx.fault("slow_device", disk.max_write, disk.max_read);
	Session<TYPE> w(ctx, spec);
	w.open(name, pat);
	for (const Step &s : plan.steps) {
		if (w.op(s) && !w.w->good())
			ctx.fail("writer-not-good", "writer stopped being good though nothing failed");
	}
	if (!w.w->good())
		ctx.fail("writer-not-good", "writer not good though nothing failed");
	w.finish();
	std::vector<uint8_t> file = disk.content(name);
	Parsed p = check_finished(ctx, file, w.model);
	ctx.log("file", int64_t(file.size()));
	int64_t total = w.model.frames(), pos = 0;
	Slot<DSP::ReadWAV<TYPE>> r;
	r.create(pat, name);
	if (!r->good())
		ctx.fail("reader-not-good", "reader of a finished file is not good");
	check_format(ctx, *r, spec);
	if (r->frames() != (total ? total : -1))
		ctx.fail("reader-frames", "reader reports %d frames, %lld written", r->frames(), (long long)total);
	bool past = false;
	for (const Step &s : plan.steps) {
		if (s.kind != K_READ && s.kind != K_SKIP)
			continue;
		int64_t num = std::min<int64_t>(std::max<int64_t>(s.a[0], 0), s.kind == K_SKIP ? 1 << 25 : 1 << 20);
		if (s.kind == K_SKIP) {
			r->skip(int(num));
			pos += num;
			ctx.log("skip", num);
			if (pos <= total && !r->good())
				ctx.fail("reader-not-good", "reader not good after skipping to frame %lld of %lld", (long long)pos, (long long)total);
			continue;
		}
		std::vector<TYPE> v = guarded_read<TYPE>(ctx, *r, num, s.a[1], spec.channels);
		num = int64_t(v.size()) / spec.channels;
		if (num == 0) {
			if (pos <= total && !r->good())
				ctx.fail("reader-not-good", "reader not good after reading nothing at frame %lld of %lld", (long long)pos, (long long)total);
			continue;
		}
		if (pos + num <= total) {
			if (!r->good())
				ctx.fail("reader-not-good", "reader not good after frames %lld..%lld of %lld", (long long)pos, (long long)(pos + num), (long long)total);
			for (int64_t i = 0; i < int64_t(v.size()); ++i) {
				int64_t at = pos * spec.channels + i;
				Stored st = stored_at(file, p.data_at, spec, at);
				if (!value_right(v[i], st, spec))
					ctx.fail("wrong-sample", "frame %lld channel %lld: read %.9g, stored %d (0x%x), written %.9g", (long long)(at / spec.channels), (long long)(at % spec.channels), double(v[i]), st.level, st.bits, double(w.model.val[at]));
				uint64_t b = 0;
				memcpy(&b, &v[i], sizeof(TYPE));
				ctx.fold(b);
			}
			ctx.progress = true;
		} else {
			if (r->good())
				ctx.fail("good-past-end", "reader still good after frames %lld..%lld of %lld", (long long)pos, (long long)(pos + num), (long long)total);
			past = true;
		}
		pos += num;
		ctx.log("read", num);
		if (past)
			break;
	}
	r.destroy();
	if (disk.content(name) != file)
		ctx.fail("reader-changed-file", "reading changed the file");
	if (disk.open_handles())
		ctx.fail("leaked-descriptor", "%d files still open", disk.open_handles());
	ctx.count("frames", uint64_t(total));
}

static void execute(const Plan &plan, Ctx &ctx)
{
	if (plan.p(P_DBL))
		run<double>(plan, ctx);
	else
		run<float>(plan, ctx);
}

static const char *const kinds[] = { "write", "silence", "read", "skip", "", "", "", "", "", "", "short-transfer", "interrupted-call", "error", "crash", nullptr };
static const char *const pars[] = { "rate", "bits", "channels", "double", "max_write", "max_read", "stale_memory", nullptr };
static const int64_t par_min[] = { 1, 0, 1, 0, 0, 0, 0 };
namespace sim { const Scenario scenario = { "C01", kinds, generate, execute, par_min, 7, pars }; }
