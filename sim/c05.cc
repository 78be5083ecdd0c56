// C05: bytes of the stored header rot
#include "prelude.hh"
#include "wav_common.hh"

using namespace wav;

enum { K_DAMAGE = 2, K_CUT = 3 };
enum { P_DBL = 3, P_PAT };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	spec_gen(rng, plan);
	if (rng.chance(1, 3))
		plan.par[2] = rng.pick({ 1, 2, 4, 8, 16, 64, 256 });
	if (rng.chance(1, 4))
		plan.par[0] = rng.pick({ 16777216, 65536, 256, 1 << 26, 3 << 24 });
	Spec s = spec_of(plan);
	plan.par.push_back(rng.range(0, 1));
	plan.par.push_back(rng.pick({ 0, 0xff, 0x5a, 1, 0x7f }));
	(void)thorough;
	gen_ops(rng, plan, rng.chance(1, 6) ? 0 : int(rng.range(1, 3)), std::max<int64_t>(1, 400 / s.channels));
	int64_t hdr = s.bytes() == 4 ? 58 : 44;
	int style = int(rng.range(0, 9));
	if (style <= 6) {
		// one damaged byte; positions and values are swept systematically, everything else is random
		plan.steps.push_back(Step(K_DAMAGE, int64_t(index / 255) % hdr, 1 + int64_t(index % 255)));
	} else if (style == 7) {
		plan.steps.push_back(Step(K_CUT, rng.range(0, hdr)));
	} else {
		for (int i = int(rng.scale(2, 20)); i > 0; --i)
			plan.steps.push_back(Step(K_DAMAGE, rng.chance(1, 2) ? rng.range(16, hdr - 1) : rng.range(0, hdr - 1), rng.chance(1, 2) ? 1 << rng.range(0, 7) : rng.range(1, 255)));
	}
}

// 0: certainly not a complete supported header, 1: maybe
static bool maybe_supported(const std::vector<uint8_t> &f)
{
	auto tag = [&](size_t at, const char *t) { return at + 4 <= f.size() && !memcmp(&f[at], t, 4); };
	if (f.size() < 44 || !tag(0, "RIFF") || !tag(8, "WAVE") || !tag(12, "fmt "))
		return false;
	uint32_t size = le(f, 16, 4);
	if (size != 16 && size != 18)
		return false;
	uint32_t format = le(f, 20, 2), ch = le(f, 22, 2), rate = le(f, 24, 4), byte_rate = le(f, 28, 4), align = le(f, 32, 2), bits = le(f, 34, 2);
	if (!((format == 1 && (bits == 8 || bits == 16)) || (format == 3 && bits == 32)))
		return false;
	if (ch == 0 || align != ch * bits / 8 || uint64_t(rate) * align != byte_rate)
		return false;
	if (size == 16)
		return tag(36, "data");
	return f.size() >= 58 && le(f, 36, 2) == 0 && tag(38, "fact") && le(f, 42, 4) == 4 && tag(50, "data");
}

template <typename TYPE>
static void run(const Plan &plan, Ctx &ctx)
{
	const char *name = "/sim/a.wav";
	Spec spec = spec_of(plan);
	uint8_t pat = uint8_t(plan.p(P_PAT));
	disk.reset(ctx);
	Model<TYPE> model;
	{
		Session<TYPE> w(ctx, spec);
		w.open(name, pat);
		for (const Step &s : plan.steps)
			w.op(s);
		w.finish();
		model = w.model;
	}
	std::vector<uint8_t> whole = disk.content(name);
	Parsed p = check_finished(ctx, whole, model);
	std::vector<uint8_t> file = whole;
	for (const Step &s : plan.steps) {
		if (s.kind == K_DAMAGE && !file.empty()) {
			size_t at = size_t(uint64_t(s.a[0]) % uint64_t(p.data_at));
			if (at < file.size()) {
				file[at] ^= uint8_t(s.a[1]);
				ctx.fault("stored_byte_damaged", int64_t(at), s.a[1] & 255);
			}
		} else if (s.kind == K_CUT) {
			size_t at = size_t(uint64_t(s.a[0]) % uint64_t(p.data_at + 1));
			if (at < file.size()) {
				file.resize(at);
				ctx.fault("header_truncated", int64_t(at));
			}
		}
	}
	int changed = 0;
	for (size_t i = 0; i < file.size(); ++i)
		changed += file[i] != whole[i];
	bool cut = file.size() < size_t(p.data_at);
	bool strict = changed <= 1 && file.size() == whole.size();
	disk.put(name, file);
	Slot<DSP::ReadWAV<TYPE>> r;
	r.create(pat, name);
	bool good = r->good();
	ctx.log("opened", good, r->channels(), r->frames());
	ctx.count(good ? "state.accepted" : "state.rejected");
	ctx.count(strict ? "state.single_byte" : cut ? "state.cut" : "state.multi_byte");
	ctx.progress = true;
	if (good && (cut || !maybe_supported(file)))
		ctx.fail("bad-header-accepted", "reader good on a header that is %s", cut ? "truncated" : "not a supported one");
	if (strict && !changed && !good)
		ctx.fail("reader-not-good", "undamaged file rejected");
	if (good && strict) {
		check_format(ctx, *r, spec);
		if (r->frames() != -1 && r->frames() != model.frames())
			ctx.fail("reader-frames", "damaged header: reader reports %d frames of %lld", r->frames(), (long long)model.frames());
		if (!changed && model.frames() && r->frames() != model.frames())
			ctx.fail("reader-frames", "undamaged header: reader reports %d frames of %lld", r->frames(), (long long)model.frames());
	}
	// reading must stay in bounds and end, whatever the header says
	int ch = r->channels();
	if (good && ch < 1)
		ctx.fail("bad-header-accepted", "reader good with %d channels", ch);
	ch = std::max(0, std::min(ch, 70000));
	int64_t n = 0;
	for (; n <= model.frames() + 1; ++n) {
		std::vector<TYPE> v;
		if (ch == 0) {
			TYPE *none = (TYPE *)arena().get(0, 0x5b);
			r->read(none, 1);
			if (!arena().front_intact())
				ctx.fail("read-overflow", "reader without channels wrote to the buffer");
		} else {
			v = guarded_read<TYPE>(ctx, *r, 1, n % 3, ch);
		}
		if (!r->good())
			break;
		if (!good)
			ctx.fail("failure-forgotten", "reader became good again");
		if (strict) {
			if (n >= model.frames())
				ctx.fail("read-past-end", "frame %lld delivered, only %lld stored", (long long)n, (long long)model.frames());
			for (int c = 0; c < ch; ++c) {
				Stored st = stored_at(whole, p.data_at, spec, n * ch + c);
				if (!value_right(v[c], st, spec))
					ctx.fail("wrong-sample", "frame %lld channel %d: got %.9g for stored %d (0x%x)", (long long)n, c, double(v[c]), st.level, st.bits);
			}
		}
	}
	if (good && strict && n < model.frames())
		ctx.fail("frames-lost", "only %lld of %lld frames delivered", (long long)n, (long long)model.frames());
	r->skip(1);
	if (!good && r->good())
		ctx.fail("failure-forgotten", "reader became good again");
	ctx.log("read", n);
	r.destroy();
	if (disk.open_handles())
		ctx.fail("leaked-descriptor", "%d files still open", disk.open_handles());
}

static void execute(const Plan &plan, Ctx &ctx)
{
	if (plan.p(P_DBL))
		run<double>(plan, ctx);
	else
		run<float>(plan, ctx);
}

static const char *const kinds[] = { "write", "silence", "damage-byte", "truncate", "", "", "", "", "", "", "short-transfer", "interrupted-call", "error", "crash", nullptr };
static const char *const pars[] = { "rate", "bits", "channels", "double", "stale_memory", nullptr };
static const int64_t par_min[] = { 1, 0, 1, 0, 0 };
namespace sim { const Scenario scenario = { "C05", kinds, generate, execute, par_min, 5, pars }; }
