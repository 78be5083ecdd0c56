// C06: readers open and follow a recording while the writer is still busy
#include "prelude.hh"
#include "wav_common.hh"
#include "coro.hh"

using namespace wav;

enum { K_OPEN = 2, K_READ = 3, K_SKIP = 4, K_SWITCH = 5 };
enum { P_DBL = 3, P_MAXW, P_MAXR, P_PAT, P_READERS };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t)
{
	spec_gen(rng, plan);
	if (rng.chance(1, 2))
		plan.par[1] = 32;
	Spec s = spec_of(plan);
	plan.par.push_back(rng.range(0, 1));
	plan.par.push_back(rng.chance(1, 2) ? rng.scale(1, 5000) : 0);
	plan.par.push_back(rng.chance(2, 3) ? rng.chance(1, 2) ? rng.range(1, 60) : rng.scale(1, 5000) : 0);
	plan.par.push_back(rng.pick({ 0, 0xff, 0x5a }));
	int readers = int(rng.range(1, 3));
	plan.par.push_back(readers);
	bool small = rng.chance(1, 2);
	int64_t big = small ? 60 : (thorough ? 30000 : 15000) / s.bytes();
	if ((plan.par[P_MAXW] && plan.par[P_MAXW] < 60) || (plan.par[P_MAXR] && plan.par[P_MAXR] < 60))
		big = std::min<int64_t>(big, 200);
	gen_ops(rng, plan, int(rng.range(1, 8)), std::max<int64_t>(1, big / s.channels));
	int64_t bytes = frames_in(plan) * s.frame() + 58;
	int64_t wcalls = bytes / std::max<int64_t>(1, plan.par[P_MAXW] ? std::min<int64_t>(8191, plan.par[P_MAXW]) : 8191) + 2;
	int64_t rcalls = 2;
	for (int r = 0; r < readers; ++r) {
		for (int o = int(rng.range(1, 3)); o > 0; --o) {
			plan.steps.push_back(Step(K_OPEN, 0, 0, 0, 0, 0, r));
			for (int i = int(rng.scale(1, 8)); i > 0; --i) {
				int64_t num = rng.scale(1, std::max<int64_t>(1, frames_in(plan)));
				if (rng.chance(1, 6))
					plan.steps.push_back(Step(K_SKIP, num / 4, 0, 0, 0, 0, r));
				else
					plan.steps.push_back(Step(K_READ, num, gen_mode(rng, false), 0, 0, 0, r));
				rcalls += num * s.frame() / (plan.par[P_MAXR] ? plan.par[P_MAXR] : 8191) + 1;
			}
		}
	}
	if (rng.chance(1, 2))
		gen_benign(rng, plan, S_WRITE, wcalls + 3, int(rng.scale(1, 5)));
	if (rng.chance(1, 2))
		gen_benign(rng, plan, S_READ, rcalls, int(rng.scale(1, 8)));
	// schedule: switch targets at yield points; dense in the beginning or anywhere
	int64_t span = wcalls + 8 + std::min<int64_t>(rcalls, 4 * wcalls + 100) + int64_t(plan.steps.size());
	int n = int(rng.scale(1, 24));
	bool burst = rng.chance(1, 2);
	int64_t base = burst ? rng.range(0, span) : 0;
	for (int i = 0; i < n; ++i)
		plan.steps.push_back(Step(K_SWITCH, burst ? base + rng.range(0, 30) : rng.range(0, span), rng.chance(1, 2) ? 0 : rng.range(1, readers)));
}

template <typename TYPE>
static void run(const Plan &plan, Ctx &ctx)
{
	const char *name = "/sim/a.wav";
	Spec spec = spec_of(plan);
	uint8_t pat = uint8_t(plan.p(P_PAT));
	disk.reset(ctx);
	Model<TYPE> model;
	{
		Session<TYPE> w(ctx, spec);
		w.open(name, pat);
		for (const Step &s : plan.steps)
			w.op(s);
		w.finish();
		model = w.model;
	}
	std::vector<uint8_t> twin = disk.content(name);
	Parsed p = check_finished(ctx, twin, model);
	int64_t total = model.frames();

	disk.reset(ctx);
	disk.max_write = plan.p(P_MAXW);
	disk.max_read = plan.p(P_MAXR);
	install(plan, nullptr, false);
	Coro sched(ctx);
	for (const Step &s : plan.steps)
		if (s.kind == K_SWITCH)
			sched.plan_switch(s.a[0], int(std::max<int64_t>(0, s.a[1])));
	bool finished = false, closing = false;
	int live_opens = 0;
	sched.add([&]() {
		Session<TYPE> w(ctx, spec);
		w.open(name, pat);
		for (const Step &s : plan.steps) {
			if (w.op(s)) {
				if (!w.w->good())
					ctx.fail("writer-not-good", "writer stopped being good while being read");
				sched.yield();
			}
		}
		closing = true;
		w.finish();
		finished = true;
	});
	int readers = int(std::min<int64_t>(std::max<int64_t>(plan.p(P_READERS), 1), 8));
	for (int id = 0; id < readers; ++id) {
		sched.add([&, id]() {
			Slot<DSP::ReadWAV<TYPE>> r;
			int64_t pos = 0;
			bool good = false;
			for (const Step &s : plan.steps) {
				if (s.kind < K_OPEN || s.kind > K_SKIP || s.a[5] != id)
					continue;
				sched.yield();
				if (s.kind == K_OPEN) {
					bool before = finished;
					int64_t stored = int64_t(disk.content(name).size());
					r.create(pat, name);
					pos = 0;
					good = r->good();
					ctx.log("opened", id, good);
					if (!finished && disk.exists(name))
						++live_opens;
					if (good) {
						ctx.count(before ? "state.opened_finished" : finished ? "state.opened_across_finish" : stored < p.data_at ? "state.opened_across_header" : "state.opened_live");
						check_format(ctx, *r, spec);
						int fr = r->frames();
						if (fr != -1 && fr != total)
							ctx.fail("reader-frames", "reader of a live recording reports %d frames, final number is %lld", fr, (long long)total);
					} else {
						ctx.count("state.open_not_good");
						if (before && total)
							ctx.fail("reader-not-good", "reader not good on a finished file");
						if (!closing && stored >= p.data_at)
							ctx.fail("live-reader-not-good", "reader not good on a recording whose header is stored, with %lld bytes", (long long)stored);
					}
				} else if (!r.get()) {
					continue;
				} else if (s.kind == K_SKIP) {
					if (!good)
						continue;
					int64_t num = std::min<int64_t>(std::max<int64_t>(s.a[0], 0), 1 << 20);
					r->skip(int(num));
					pos += num;
				} else {
					if (!good)
						continue;
					int64_t there = (int64_t(disk.content(name).size()) - p.data_at) / spec.frame();
					std::vector<TYPE> v = guarded_read<TYPE>(ctx, *r, std::min<int64_t>(s.a[0], 100000 / spec.channels), s.a[1], spec.channels);
					if (!r->good()) {
						if (pos + int64_t(v.size()) / spec.channels <= there)
							ctx.fail("stored-frames-refused", "reader at frame %lld not good after reading %lld more, though %lld were stored before", (long long)pos, (long long)(v.size() / spec.channels), (long long)there);
						good = false;
						ctx.log("caught_up", id, pos);
						continue;
					}
					int64_t num = int64_t(v.size()) / spec.channels;
					if (num && pos + num > total)
						ctx.fail("read-past-end", "frames %lld..%lld delivered, only %lld ever recorded", (long long)pos, (long long)(pos + num), (long long)total);
					for (int64_t i = 0; i < int64_t(v.size()); ++i) {
						Stored st = stored_at(twin, p.data_at, spec, pos * spec.channels + i);
						if (!value_right(v[i], st, spec))
							ctx.fail("wrong-sample", "frame %lld channel %lld: read %.9g, recorded %d (0x%x)", (long long)(pos + i / spec.channels), (long long)(i % spec.channels), double(v[i]), st.level, st.bits);
					}
					pos += num;
					ctx.log("frames", id, pos);
					ctx.progress = ctx.progress || num > 0;
				}
			}
		});
	}
	static Coro *the;
	the = &sched;
	syscall_hook = [](int) { if (Coro::current()) the->yield(); };
	arena_of = []() { return Coro::current() ? Coro::current()->id() : -1; };
	try {
		sched.run();
	} catch (...) {
		syscall_hook = nullptr;
		throw;
	}
	syscall_hook = nullptr;
	ctx.count("switches", uint64_t(sched.switch_count()));
	ctx.count("opens_while_recording", uint64_t(live_opens));
	disk.clear_faults();
	if (disk.content(name) != twin)
		ctx.fail("reader-changed-file", "file recorded under concurrent readers differs from the one recorded alone");
	if (disk.open_handles())
		ctx.fail("leaked-descriptor", "%d files still open", disk.open_handles());
}

static void execute(const Plan &plan, Ctx &ctx)
{
	if (plan.p(P_DBL))
		run<double>(plan, ctx);
	else
		run<float>(plan, ctx);
}

static const char *const kinds[] = { "write", "silence", "reader-open", "reader-read", "reader-skip", "switch-task", "", "", "", "", "short-transfer", "interrupted-call", "error", "crash", nullptr };
static const char *const pars[] = { "rate", "bits", "channels", "double", "max_write", "max_read", "stale_memory", "readers", nullptr };
static const int64_t par_min[] = { 1, 0, 1, 0, 0, 0, 0, 1 };
namespace sim { const Scenario scenario = { "C06", kinds, generate, execute, par_min, 8, pars }; }
