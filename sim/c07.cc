// C07: Netpbm round trip over a device that splits and interrupts transfers, under any global locale
#include "prelude.hh"
#include "pnm_common.hh"

using namespace pnm;

enum { K_READ = 1, K_SEP = 2, K_LOCALE = 3 };
enum { P_DBL = 4, P_MAXW, P_MAXR, P_PAT, P_LOCALE, P_DEFAULTS };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t)
{
	spec_gen(rng, plan, thorough || rng.chance(1, 4));
	Spec s = spec_of(plan);
	bool slow = rng.chance(1, 3);
	plan.par.push_back(rng.range(0, 1));
	plan.par.push_back(slow ? rng.scale(1, 5000) : 0);
	plan.par.push_back(slow ? rng.scale(1, 5000) : 0);
	plan.par.push_back(rng.pick({ 0, 0xff, 0x5a, 1 }));
	plan.par.push_back(rng.chance(1, 2) ? 0 : rng.range(1, 4));
	plan.par.push_back(rng.range(0, 1));
	gen_ops(rng, plan, int(rng.scale(1, 10)), s);
	if (rng.chance(1, 4))
		plan.steps.insert(plan.steps.begin() + rng.range(0, int64_t(plan.steps.size())), Step(K_LOCALE, rng.range(0, 4)));
	int64_t total = s.pixels(), pos = 0;
	int style = int(rng.range(0, 2));
	for (int i = 0; i < 200 && pos < total + 3; ++i) {
		int64_t n = style == 0 ? total : style == 1 ? s.width : rng.chance(1, 10) ? 0 : rng.scale(1, std::max<int64_t>(1, total / 2));
		if (rng.chance(9, 10) && pos < total)
			n = std::min(n, total - pos);
		plan.steps.push_back(Step(K_READ, n, gen_mode(rng, false)));
		pos += n;
		if (pos >= total && rng.chance(1, 2))
			break;
	}
	// the same image with a header as another program would write it
	for (int i = int(rng.range(0, 12)); i > 0; --i)
		plan.steps.push_back(Step(K_SEP, rng.range(0, 3), rng.range(0, 5), rng.range(0, 30), int64_t(rng.next() & 0xffff)));
	int faults = rng.chance(1, 3) ? 0 : int(rng.scale(1, 10));
	int64_t bytes = total * s.channels() + 20;
	gen_benign(rng, plan, S_WRITE, bytes / std::max<int64_t>(1, plan.par[P_MAXW] ? std::min<int64_t>(8191, plan.par[P_MAXW]) : 8191) + 2, faults);
	gen_benign(rng, plan, S_READ, bytes / std::max<int64_t>(1, plan.par[P_MAXR] ? std::min<int64_t>(8191, plan.par[P_MAXR]) : 8191) + 2, faults);
}

template <typename TYPE>
static std::vector<TYPE> read_image(const Plan &plan, Ctx &ctx, const char *name, const Spec &spec, const std::vector<uint8_t> &file, size_t at, const char *what)
{
	Slot<DSP::ReadPNM<TYPE>> r;
	r.create(uint8_t(plan.p(P_PAT)), name);
	if (!r->good())
		ctx.fail("reader-not-good", "reader of %s is not good", what);
	if (r->width() != spec.width || r->height() != spec.height || r->mono() != spec.mono)
		ctx.fail("reader-header", "reader of %s reports %d x %d %s instead of %d x %d %s", what, r->width(), r->height(), r->mono() ? "gray" : "colour", spec.width, spec.height, spec.mono ? "gray" : "colour");
	int ch = spec.channels();
	int64_t pos = 0, total = spec.pixels();
	std::vector<TYPE> all;
	auto one = [&](int64_t num, int64_t mode) {
		std::vector<TYPE> v = guarded_read<TYPE>(ctx, *r, num, mode, ch);
		num = int64_t(v.size()) / ch;
		if (!num) {
			if (pos <= total && !r->good())
				ctx.fail("reader-not-good", "reader not good after reading nothing");
			return true;
		}
		if (pos + num > total) {
			if (r->good())
				ctx.fail("good-past-end", "reader still good after pixels %lld..%lld of %lld", (long long)pos, (long long)(pos + num), (long long)total);
			return false;
		}
		if (!r->good())
			ctx.fail("reader-not-good", "reader of %s not good after pixels %lld..%lld of %lld", what, (long long)pos, (long long)(pos + num), (long long)total);
		for (int64_t i = 0; i < int64_t(v.size()); ++i) {
			int code = file[at + size_t(pos * ch + i)];
			if (!value_right(double(v[i]), code, spec))
				ctx.fail("wrong-pixel", "%s: pixel %lld channel %lld: read %.9g for stored %d of %d", what, (long long)(pos + i / ch), (long long)(i % ch), double(v[i]), code, spec.maxval);
		}
		all.insert(all.end(), v.begin(), v.end());
		ctx.progress = true;
		pos += num;
		ctx.log("read", num);
		return true;
	};
	bool alive = true;
	for (const Step &s : plan.steps) {
		if (s.kind == K_LOCALE)
			std::locale::global(std::locale::classic());
		if (s.kind == K_READ && alive)
			alive = one(std::min<int64_t>(std::max<int64_t>(s.a[0], 0), 200000), s.a[1]);
	}
	if (alive && pos < total)
		one(total - pos, 0);
	return all;
}

template <typename TYPE>
static void run(const Plan &plan, Ctx &ctx)
{
	const char *name = "/sim/a.pnm", *other = "/sim/b.pnm", *again = "/sim/c.pnm";
	disk.reset(ctx);
	Spec spec = spec_of(plan);
	GlobalLocale loc(ctx, plan.p(P_LOCALE));
	disk.max_write = plan.p(P_MAXW);
	disk.max_read = plan.p(P_MAXR);
	install(plan, nullptr, false);
	Session<TYPE> w(ctx, spec);
	w.open(name, uint8_t(plan.p(P_PAT)), plan.p(P_DEFAULTS));
	for (const Step &s : plan.steps) {
		if (s.kind == K_LOCALE)
			GlobalLocale tmp(ctx, s.a[0]);
		if (w.op(s) && !w.w->good())
			ctx.fail("writer-not-good", "writer stopped being good though nothing failed");
	}
	w.rest();
	if (!w.w->good())
		ctx.fail("writer-not-good", "writer not good though nothing failed");
	w.finish();
	std::vector<uint8_t> file = disk.content(name);
	size_t at = check_finished(ctx, file, w.model);
	ctx.log("file", int64_t(file.size()));
	std::vector<TYPE> all = read_image<TYPE>(plan, ctx, name, spec, file, at, "the written file");
	if (disk.content(name) != file)
		ctx.fail("reader-changed-file", "reading changed the file");
	// writing what was read gives the same pixels again
	if (all.size() == w.model.val.size()) {
		Slot<DSP::WritePNM<TYPE>> w2;
		w2.create(uint8_t(plan.p(P_PAT)), again, spec.width, spec.height, spec.mono, spec.maxval);
		w2->write(all.data(), int(spec.pixels()));
		if (!w2->good())
			ctx.fail("writer-not-good", "second writer not good");
		w2.destroy();
		std::vector<uint8_t> file2 = disk.content(again);
		Spec s2;
		size_t at2;
		if (parse(file2, s2, at2) != 1 || file2.size() - at2 != file.size() - at || !std::equal(file.begin() + at, file.end(), file2.begin() + at2))
			ctx.fail("not-stable", "writing what was read changes the pixels");
	}
	// foreign header
	std::string sep[4] = { "", "", "", "" };
	for (const Step &s : plan.steps) {
		if (s.kind != K_SEP)
			continue;
		int at = int(uint64_t(s.a[0]) & 3), kind = int(uint64_t(s.a[1]) % 6);
		std::string &t = sep[at];
		if (at == 3) {
			t = kind % 3 == 0 ? " " : kind % 3 == 1 ? "\t" : "\n";
		} else if (kind < 3) {
			t += kind == 0 ? " " : kind == 1 ? "\t" : "\n";
		} else {
			// a comment line
			if (t.empty() || t.back() != '\n')
				t += '\n';
			t += '#';
			int64_t len = uint64_t(s.a[2]) % 31;
			for (int64_t i = 0; i < len; ++i) {
				char c = char(32 + mix(uint64_t(s.a[3]), uint64_t(i)) % 95);
				t += kind == 5 && i % 3 == 0 ? '#' : c;
			}
			t += '\n';
			ctx.fault("foreign_comment", at, len);
		}
	}
	for (std::string &t : sep)
		if (t.empty())
			t = " ";
	std::string head = std::string(spec.mono ? "P5" : "P6") + sep[0] + std::to_string(spec.width) + sep[1] + std::to_string(spec.height) + sep[2] + std::to_string(spec.maxval) + sep[3];
	std::vector<uint8_t> foreign(head.begin(), head.end());
	size_t fat = foreign.size();
	foreign.insert(foreign.end(), file.begin() + at, file.end());
	disk.put(other, foreign);
	read_image<TYPE>(plan, ctx, other, spec, foreign, fat, "a file with a foreign header");
	if (disk.open_handles())
		ctx.fail("leaked-descriptor", "%d files still open", disk.open_handles());
}

static void execute(const Plan &plan, Ctx &ctx)
{
	if (plan.p(P_DBL))
		run<double>(plan, ctx);
	else
		run<float>(plan, ctx);
}

static const char *const kinds[] = { "write", "read", "foreign-separator", "change-locale", "", "", "", "", "", "", "short-transfer", "interrupted-call", "error", "crash", nullptr };
static const char *const pars[] = { "width", "height", "maxval", "mono", "double", "max_write", "max_read", "stale_memory", "locale", "defaults", nullptr };
static const int64_t par_min[] = { 1, 1, 1, 0, 0, 0, 0, 0, 0, 0 };
namespace sim { const Scenario scenario = { "C07", kinds, generate, execute, par_min, 10, pars }; }
