// C23: reader, processor and writer tasks form a chain from one file to another, with faults and restarts
#include "prelude.hh"
#include "wav_common.hh"
#include "parts.hh"
#include "coro.hh"
#include <deque>

using namespace wav;

enum { K_STAGE = 2, K_BLOCK, K_CKPT, K_SWITCH, K_KILL };
enum { P_DBL = 3, P_MAXW, P_MAXR, P_PAT, P_CAP1, P_CAP2, P_TRUNC, P_QUOTA, P_SEED };

static const char *const in_name = "/sim/in.wav";

static std::vector<int> usable()
{
	std::vector<int> v;
	for (size_t i = 0; i < parts().size(); ++i)
		if (parts()[i].group == G_STREAM)
			v.push_back(int(i));
	return v;
}

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	static const std::vector<int> use = usable();
	spec_gen(rng, plan);
	plan.par[2] = rng.range(1, 3);
	Spec s = spec_of(plan);
	bool faulty = !rng.chance(1, 10);
	plan.par.push_back(rng.range(0, 1));
	plan.par.push_back(faulty && rng.chance(1, 2) ? rng.scale(1, 3000) : 0);
	plan.par.push_back(faulty && rng.chance(1, 2) ? rng.scale(1, 3000) : 0);
	plan.par.push_back(rng.pick({ 0, 0xff, 0x5a }));
	plan.par.push_back(rng.scale(1, 300));
	plan.par.push_back(rng.scale(1, 300));
	plan.par.push_back(-1);
	plan.par.push_back(-1);
	plan.par.push_back(int64_t(rng.next() >> 1));
	int64_t big = thorough ? 3000 : 800;
	for (int i = int(rng.range(1, 3)); i > 0; --i)
		plan.steps.push_back(Step(OP_WRITE, rng.scale(1, big), 0, rng.pick({ int(V_UNIT), int(V_EDGE), int(V_RAMP), int(V_TIES), int(V_ZERO), int(V_TINY) }), int64_t(rng.next() & 0xffffff)));
	int64_t frames = frames_in(plan);
	for (int i = 0, n = int(rng.range(1, 3)); i < n; ++i)
		plan.steps.push_back(Step(K_STAGE, i ? use[size_t(rng.range(0, int64_t(use.size()) - 1))] : use[size_t(index % use.size())], int64_t(rng.next() >> 1)));
	for (int who = 0; who < 3; ++who)
		for (int i = int(rng.range(1, 4)); i > 0; --i)
			plan.steps.push_back(Step(K_BLOCK, who, rng.scale(1, 200)));
	int64_t wcalls = frames * s.frame() / (plan.par[P_MAXW] ? std::min<int64_t>(8191, plan.par[P_MAXW]) : 8191) + 4;
	int64_t rcalls = frames * s.frame() / (plan.par[P_MAXR] ? std::min<int64_t>(8191, plan.par[P_MAXR]) : 8191) + 2;
	int64_t yields = frames / 20 + wcalls + rcalls + 20;
	for (int i = int(rng.scale(0, 30)); i > 0; --i)
		plan.steps.push_back(Step(K_SWITCH, rng.range(0, yields), rng.range(0, 2), rng.range(0, 2)));
	if (!faulty)
		return;
	if (rng.chance(1, 2))
		gen_benign(rng, plan, S_WRITE, wcalls + 3, int(rng.scale(1, 5)));
	if (rng.chance(1, 2))
		gen_benign(rng, plan, S_READ, rcalls, int(rng.scale(1, 5)));
	switch (rng.range(0, 5)) {
	case 0: // truncated input
		plan.par[P_TRUNC] = rng.chance(1, 4) ? rng.range(0, 60) : rng.range(0, frames * s.frame() + 58);
		break;
	case 1: // the input cannot be read
		plan.steps.push_back(Step(K_ERR, S_READ, rng.range(0, rcalls), rng.chance(1, 2) ? 0 : rng.scale(0, 8191), 0, rng.range(0, 1)));
		break;
	case 2: // the output cannot be written
		if (rng.chance(1, 2))
			plan.par[P_QUOTA] = rng.range(0, frames * s.frame() + 58);
		else
			plan.steps.push_back(Step(K_ERR, S_WRITE, rng.range(0, wcalls), rng.chance(1, 2) ? 0 : rng.scale(0, 8191), rng.range(0, 1), 1));
		break;
	default:
		// killed, perhaps several times
		for (int i = int(rng.range(0, 4)); i > 0; --i)
			plan.steps.push_back(Step(K_CKPT, rng.range(0, frames)));
		for (int i = 0, n = int(rng.range(1, 3)); i < n; ++i) {
			if (rng.chance(1, 2))
				plan.steps.push_back(Step(K_KILL, rng.range(0, yields), 0, 0, 0, 0, i));
			else
				plan.steps.push_back(Step(K_CRASH, rng.chance(1, 10) ? S_SEEK : S_WRITE, rng.chance(1, 3) ? wcalls - rng.range(0, 5) : rng.range(0, wcalls), rng.chance(1, 2) ? rng.range(0, 4) : rng.scale(0, 8191), 0, 0, i));
		}
	}
}

// the processors of one task, one line of stages per channel
struct Chain
{
	std::vector<const Info *> infos;
	std::vector<uint64_t> cfgs;
	std::vector<PartBox> box; // channel-major
	int channels = 0;
	uint64_t seed = 0;
	void build(const Plan &plan, int ch, uint8_t pat)
	{
		channels = ch;
		seed = uint64_t(plan.p(P_SEED));
		infos.clear();
		cfgs.clear();
		for (const Step &s : plan.steps) {
			if (s.kind != K_STAGE || infos.size() == 4)
				continue;
			const Info *i = &parts()[size_t(uint64_t(s.a[0]) % parts().size())];
			if (i->group != G_STREAM)
				continue;
			infos.push_back(i);
			cfgs.push_back(uint64_t(s.a[1]));
		}
		box.clear();
		for (int c = 0; c < ch; ++c)
			for (size_t k = 0; k < infos.size(); ++k) {
				box.emplace_back();
				box.back().create(*infos[k], mix(cfgs[k], uint64_t(c)), pat);
			}
	}
	void copy(const Chain &o, uint8_t pat)
	{
		infos = o.infos;
		cfgs = o.cfgs;
		channels = o.channels;
		seed = o.seed;
		box.clear();
		for (size_t i = 0; i < o.box.size(); ++i) {
			box.emplace_back();
			box.back().copy(*infos[i % infos.size()], o.box[i], pat);
		}
	}
	// what else an operation needs is a function of where it is in the signal
	double process(int64_t frame, int c, double x)
	{
		for (size_t k = 0; k < infos.size(); ++k) {
			In in(mix(mix(seed, uint64_t(frame)), uint64_t(c) * 8 + k));
			in.given = &x;
			in.left = 1;
			Out out;
			out.v[0] = x;
			box[size_t(c) * infos.size() + k]->op(in, out);
			if (out.n) {
				x = out.v[0];
				if (!(x <= 1000))
					x = 1;
				if (!(x >= -1000))
					x = -1;
			}
		}
		return x;
	}
};

struct Ckpt { int64_t frames; Chain chain; };

struct Result
{
	bool opened = false, in_failed = false, out_failed = false, done = false;
	int64_t announced = -1, delivered = 0, written = 0;
};

template <typename TYPE>
struct Job
{
	const Plan &plan;
	Ctx &ctx;
	Spec spec;
	uint8_t pat;
	std::vector<std::unique_ptr<Ckpt>> ckpts;
	std::vector<int64_t> ckpt_at, blocks[3];
	int64_t cap[2];
	Job(const Plan &plan, Ctx &ctx) : plan(plan), ctx(ctx), spec(spec_of(plan)), pat(uint8_t(plan.p(P_PAT)))
	{
		for (const Step &s : plan.steps) {
			if (s.kind == K_BLOCK)
				blocks[uint64_t(s.a[0]) % 3].push_back(std::min<int64_t>(std::max<int64_t>(s.a[1], 1), 4000));
			if (s.kind == K_CKPT)
				ckpt_at.push_back(s.a[0]);
		}
		for (auto &b : blocks)
			if (b.empty())
				b.push_back(16);
		std::sort(ckpt_at.begin(), ckpt_at.end());
		cap[0] = std::min<int64_t>(std::max<int64_t>(plan.p(P_CAP1), 1), 10000);
		cap[1] = std::min<int64_t>(std::max<int64_t>(plan.p(P_CAP2), 1), 10000);
	}

	// whole signal at once, nothing fails
	std::vector<uint8_t> reference(const char *out, Model<TYPE> &model)
	{
		Slot<DSP::ReadWAV<TYPE>> r;
		r.create(pat, in_name);
		if (!r->good() || r->channels() != spec.channels)
			ctx.fail("reader-not-good", "reader is not good on a finished file");
		int64_t n = r->frames();
		if (n < 0)
			ctx.fail("reader-frames", "reader does not know the length of a finished file");
		std::vector<TYPE> v = guarded_read<TYPE>(ctx, *r, n, 0, spec.channels);
		if (!r->good())
			ctx.fail("reader-not-good", "reader is not good after the last frame of a finished file");
		Chain chain;
		chain.build(plan, spec.channels, uint8_t(~pat));
		for (int c = 0; c < spec.channels; ++c)
			for (int64_t i = 0; i < n; ++i) {
				TYPE &x = v[size_t(i * spec.channels + c)];
				x = TYPE(chain.process(i, c, double(x)));
			}
		model.spec = spec;
		model.val = v;
		model.silent.assign(v.size(), 0);
		Slot<DSP::WriteWAV<TYPE>> w;
		w.create(pat, out, spec.rate, spec.bits, spec.channels);
		w->write(v.data(), int(n));
		if (!w->good())
			ctx.fail("writer-not-good", "writer is not good without any fault");
		w.destroy();
		return disk.content(out);
	}

	Result attempt(int number, const char *out, const char *old)
	{
		Result res;
		int ch = spec.channels;
		// what an earlier attempt left
		std::vector<TYPE> kept;
		const Ckpt *from = nullptr;
		if (old && disk.exists(old)) {
			Slot<DSP::ReadWAV<TYPE>> r;
			r.create(pat, old);
			if (r->good() && r->channels() == ch) {
				for (;;) {
					std::vector<TYPE> v = guarded_read<TYPE>(ctx, *r, 1, 0, ch);
					if (!r->good())
						break;
					kept.insert(kept.end(), v.begin(), v.end());
				}
			}
			int64_t avail = int64_t(kept.size()) / ch;
			for (auto &k : ckpts)
				if (k->frames <= avail && (!from || k->frames > from->frames))
					from = k.get();
			ctx.log("kept", avail, from ? from->frames : 0);
			ctx.count(from && from->frames ? "state.resumed_from_checkpoint" : "state.started_over");
		}
		int64_t start = from ? from->frames : 0;
		kept.resize(size_t(start * ch));

		Coro sched(ctx);
		for (const Step &s : plan.steps)
			if (s.kind == K_SWITCH)
				sched.plan_switch(s.a[0], int(uint64_t(s.a[1 + (number & 1)]) % 3));
		std::vector<int64_t> kill;
		for (const Step &s : plan.steps)
			if (s.kind == K_KILL && s.a[5] == number)
				kill.push_back(s.a[0]);
		static Coro *the;
		static std::vector<int64_t> *kills;
		static Ctx *context;
		the = &sched;
		kills = &kill;
		context = &ctx;
		auto point = []() {
			for (int64_t k : *kills)
				if (k <= the->yield_count() && !disk.crashed) {
					disk.crashed = true;
					context->fault("kill", the->yield_count());
				}
			the->yield();
		};
		std::deque<TYPE> queue[2];
		bool over[2] = { false, false };
		bool stop = false; // the writer has given up
		auto full = [&](int q) { return int64_t(queue[q].size()) / ch >= cap[q]; };
		// reader
		sched.add([&]() {
			Slot<DSP::ReadWAV<TYPE>> r;
			r.create(pat, in_name);
			point();
			if (!r->good()) {
				res.in_failed = true;
				over[0] = true;
				return;
			}
			res.opened = true;
			check_format(ctx, *r, spec);
			res.announced = r->frames();
			if (start)
				r->skip(int(start));
			int64_t pos = start;
			for (size_t i = 0; !disk.crashed && !stop; ++i) {
				int64_t n = res.announced < 0 ? 1 : std::min(blocks[0][i % blocks[0].size()], res.announced - pos);
				if (n <= 0)
					break;
				std::vector<TYPE> v = guarded_read<TYPE>(ctx, *r, n, 0, ch);
				if (!r->good()) {
					res.in_failed = true;
					break;
				}
				pos += n;
				for (size_t k = 0; k < v.size();) {
					if (!sched.wait([&]() { return !full(0) || stop || disk.crashed; }) || stop || disk.crashed)
						break;
					for (int c = 0; c < ch; ++c)
						queue[0].push_back(v[k++]);
				}
				res.delivered = pos;
				point();
			}
			over[0] = true;
			ctx.log("reader_done", pos, res.in_failed);
		});
		// processor
		sched.add([&]() {
			Chain chain;
			if (from)
				chain.copy(from->chain, pat);
			else
				chain.build(plan, ch, pat);
			int64_t pos = start;
			size_t next = 0;
			while (next < ckpt_at.size() && ckpt_at[next] <= start)
				++next;
			for (size_t i = 0; !disk.crashed && !stop; ++i) {
				int64_t n = blocks[1][i % blocks[1].size()];
				for (; n > 0 && !disk.crashed && !stop; --n) {
					sched.wait([&]() { return queue[0].size() || over[0] || stop || disk.crashed; });
					if (queue[0].empty() || stop || disk.crashed)
						break;
					sched.wait([&]() { return !full(1) || stop || disk.crashed; });
					for (int c = 0; c < ch; ++c) {
						TYPE x = queue[0].front();
						queue[0].pop_front();
						queue[1].push_back(TYPE(chain.process(pos, c, double(x))));
						++ctx.ticks;
					}
					++pos;
					if (next < ckpt_at.size() && pos == ckpt_at[next] && !disk.crashed) {
						while (next < ckpt_at.size() && ckpt_at[next] <= pos)
							++next;
						std::unique_ptr<Ckpt> k(new Ckpt);
						k->frames = pos;
						k->chain.copy(chain, uint8_t(~pat));
						ckpts.push_back(std::move(k));
						ctx.log("checkpoint", pos);
					}
				}
				point();
				if (over[0] && queue[0].empty())
					break;
			}
			over[1] = true;
			ctx.log("processor_done", pos);
		});
		// writer
		sched.add([&]() {
			Slot<DSP::WriteWAV<TYPE>> w;
			// without any input there is no output
			sched.wait([&]() { return res.opened || over[0] || disk.crashed; });
			if (!res.opened || disk.crashed)
				return;
			w.create(pat, out, spec.rate, spec.bits, ch);
			point();
			std::vector<TYPE> block;
			auto put = [&]() {
				if (block.empty())
					return;
				w->write(block.data(), int(block.size()) / ch);
				res.written += int64_t(block.size()) / ch;
				block.clear();
				if (!w->good())
					res.out_failed = stop = true;
				else if (disk.hard_error && !disk.crashed)
					ctx.fail("silent-failure", "a write was refused, but the writer is still good after frame %lld", (long long)res.written);
			};
			if (!w->good())
				res.out_failed = stop = true;
			for (size_t at = 0, i = 0; at < kept.size() && !stop && !disk.crashed; ++i) {
				size_t n = std::min(kept.size() - at, size_t(blocks[2][i % blocks[2].size()] * ch));
				block.assign(kept.begin() + long(at), kept.begin() + long(at + n));
				put();
				at += n;
				point();
			}
			for (size_t i = 0; !stop && !disk.crashed; ++i) {
				int64_t n = blocks[2][i % blocks[2].size()];
				while (n > 0 && !disk.crashed) {
					sched.wait([&]() { return queue[1].size() || over[1] || disk.crashed; });
					if (queue[1].empty())
						break;
					for (int c = 0; c < ch; ++c) {
						block.push_back(queue[1].front());
						queue[1].pop_front();
					}
					--n;
				}
				put();
				point();
				if (over[1] && queue[1].empty())
					break;
			}
			bool good = w->good();
			w.destroy();
			res.done = good;
			ctx.log("writer_done", res.written, good);
		});
		syscall_hook = [](int) {
			if (!Coro::current())
				return;
			for (int64_t k : *kills)
				if (k <= the->yield_count() && !disk.crashed) {
					disk.crashed = true;
					context->fault("kill", the->yield_count());
				}
			the->yield();
		};
		arena_of = []() { return Coro::current() ? Coro::current()->id() : -1; };
		try {
			sched.run();
		} catch (...) {
			syscall_hook = nullptr;
			throw;
		}
		syscall_hook = nullptr;
		ctx.count("switches", uint64_t(sched.switch_count()));
		return res;
	}

	void prefix(const std::vector<uint8_t> &left, const std::vector<uint8_t> &twin, int64_t data_at, const char *what)
	{
		if (left.size() > twin.size())
			ctx.fail("data-extra", "%s: %zu bytes, the whole output has %zu", what, left.size(), twin.size());
		for (size_t i = size_t(data_at); i < left.size(); ++i)
			if (left[i] != twin[i])
				ctx.fail("stored-data", "%s: byte %zu is %02x instead of %02x", what, i, left[i], twin[i]);
	}

	void run()
	{
		disk.reset(ctx);
		{
			Session<TYPE> w(ctx, spec);
			w.open(in_name, pat);
			for (const Step &s : plan.steps)
				w.op(s);
			w.finish();
			check_finished(ctx, disk.content(in_name), w.model);
		}
		Model<TYPE> model;
		std::vector<uint8_t> input = disk.content(in_name);
		int64_t in_at = parse(input).data_at, total = (int64_t(input.size()) - in_at) / spec.frame();
		if (!total)
			return;
		std::vector<uint8_t> twin = reference("/sim/twin.wav", model);
		Parsed p = check_finished(ctx, twin, model);
		int64_t whole = total;
		if (plan.p(P_TRUNC) >= 0 && plan.p(P_TRUNC) < int64_t(input.size())) {
			input.resize(size_t(plan.p(P_TRUNC)));
			whole = std::max<int64_t>(0, (int64_t(input.size()) - in_at) / spec.frame());
			ctx.fault("truncated_input", plan.p(P_TRUNC));
		}
		std::string old, out;
		for (int number = 0;; ++number) {
			out = "/sim/out" + std::to_string(number) + ".wav";
			std::vector<uint8_t> before = old.empty() ? std::vector<uint8_t>() : disk.content(old);
			bool had = !old.empty() && disk.exists(old);
			disk.reset(ctx);
			disk.put(in_name, input);
			if (had)
				disk.put(old, before);
			disk.max_write = plan.p(P_MAXW);
			disk.max_read = plan.p(P_MAXR);
			disk.quota = plan.p(P_QUOTA);
			Plan now = plan;
			for (Step &s : now.steps)
				if (s.kind == K_CRASH && s.a[5] != number)
					s.kind = -1;
			install(now, nullptr, true);
			for (Fault &f : disk.faults)
				if (f.kind == F_ERR) {
					f.file = f.op == S_READ ? in_name : out;
					// what a passing error does to the output is C03's
					f.sticky = f.sticky || f.op != S_READ;
				}
			Result r = attempt(number, out.c_str(), had ? old.c_str() : nullptr);
			bool crashed = disk.crashed, wrote_bad = disk.hard_error, read_bad = disk.hard_read_error;
			disk.restart();
			disk.clear_faults();
			disk.quota = -1;
			if (disk.open_handles())
				ctx.fail("leaked-descriptor", "%d files still open", disk.open_handles());
			std::vector<uint8_t> left = disk.content(out);
			prefix(left, twin, p.data_at, crashed ? "killed chain" : wrote_bad ? "chain with failing disk" : "chain");
			ctx.log("attempt", number, int64_t(left.size()), crashed);
			if (crashed) {
				if (number > 8)
					return;
				ctx.count("state.killed");
						old = out;
				continue;
			}
			if (r.opened && !r.in_failed && !r.out_failed && !wrote_bad && whole == total) {
				if (left != twin)
					ctx.fail("output", "chain without failure produced %zu bytes that differ from processing everything at once (%zu bytes)", left.size(), twin.size());
				ctx.count(number ? "state.completed_after_restart" : "state.completed");
				ctx.progress = true;
				return;
			}
			if (wrote_bad) {
				ctx.count("state.output_failed");
				ctx.progress = true;
				if (left == twin)
					return;
				// unless everything had been handed over and the disk failed while the writer was being closed
				if (!r.out_failed && r.written != whole)
					ctx.fail("silent-failure", "output lost %lld bytes, but the writer stayed good", (long long)(int64_t(twin.size()) - int64_t(left.size())));
				return;
			}
			if (r.out_failed)
				ctx.fail("writer-not-good", "writer is not good without any fault");
			// the input ended early or could not be read
			ctx.count(read_bad ? "state.input_failed" : "state.input_short");
			if (!read_bad && whole == total)
				ctx.fail("reader-not-good", "input failed without any fault");
			if (!r.in_failed)
				ctx.fail("silent-failure", "input delivered %lld of %lld frames, but the reader stayed good", (long long)r.delivered, (long long)total);
			if (!r.opened)
				return;
			if (r.delivered > whole)
				ctx.fail("read-past-end", "input delivered %lld frames, only %lld are there", (long long)r.delivered, (long long)whole);
			if (r.announced < 0 && !read_bad && r.delivered < whole)
				ctx.fail("frames-lost", "input delivered %lld of %lld frames", (long long)r.delivered, (long long)whole);
			Model<TYPE> part = model;
			part.val.resize(size_t(r.delivered * spec.channels));
			part.silent.resize(part.val.size());
			check_finished(ctx, left, part);
			ctx.progress = true;
			return;
		}
	}
};

static void execute(const Plan &plan, Ctx &ctx)
{
	if (plan.p(P_DBL))
		Job<double>(plan, ctx).run();
	else
		Job<float>(plan, ctx).run();
}

static const char *const kinds[] = { "write", "silence", "stage", "block", "checkpoint", "switch-task", "kill", "", "", "", "short-transfer", "interrupted-call", "error", "crash", nullptr };
static const char *const pars[] = { "rate", "bits", "channels", "double", "max_write", "max_read", "stale_memory", "queue1", "queue2", "truncate_input", "quota", "seed", nullptr };
static const int64_t par_min[] = { 1, 0, 1, 0, 0, 0, 0, 1, 1, -1, -1, 0 };
namespace sim { const Scenario scenario = { "C23", kinds, generate, execute, par_min, 12, pars }; }
