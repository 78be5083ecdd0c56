// C09: the storage fails or ends under an image reader, or the header is damaged
#include "prelude.hh"
#include "pnm_common.hh"

using namespace pnm;

enum { K_READ = 1, K_DAMAGE = 2, K_INSERT = 3, K_DELETE = 4 };
enum { P_DBL = 4, P_MAXR, P_PAT, P_CUT };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t)
{
	spec_gen(rng, plan, thorough || rng.chance(1, 3));
	int style = int(rng.range(0, 9));
	if (style >= 5) {
		plan.par[0] = rng.scale(1, 1000);
		plan.par[1] = rng.range(1, 3);
	}
	Spec s = spec_of(plan);
	plan.par.push_back(rng.range(0, 1));
	plan.par.push_back(rng.chance(1, 3) ? rng.scale(1, 5000) : 0);
	plan.par.push_back(rng.pick({ 0, 0xff, 0x5a, 1 }));
	int64_t bytes = s.pixels() * s.channels() + 16;
	plan.par.push_back(style <= 1 ? rng.chance(1, 3) ? rng.range(0, 16) : rng.range(0, bytes) : -1);
	gen_ops(rng, plan, 1, s);
	int64_t calls = bytes / std::max<int64_t>(1, plan.par[P_MAXR] ? std::min<int64_t>(8191, plan.par[P_MAXR]) : 8191) + 1;
	if (rng.chance(1, 2))
		gen_benign(rng, plan, S_READ, calls, int(rng.scale(1, 6)));
	int64_t n = rng.chance(1, 3) ? 0 : rng.scale(0, 8191);
	if (style == 2)
		plan.steps.push_back(Step(K_ERR, S_OPEN, 0, 0, rng.range(0, 2)));
	else if (style == 3 || style == 4)
		plan.steps.push_back(Step(K_ERR, S_READ, rng.range(0, calls), n, 0, style == 3));
	else if (style >= 5) {
		static const char chars[] = "0123456789 \t\n#P-+.,56\r\0\xff a";
		for (int i = style == 5 ? 1 : int(rng.scale(1, 5)); i > 0; --i) {
			int kind = int(rng.range(K_DAMAGE, K_DELETE));
			int64_t c = rng.chance(3, 4) ? uint8_t(chars[rng.range(0, int64_t(sizeof chars) - 2)]) : rng.range(0, 255);
			plan.steps.push_back(Step(kind, rng.range(0, 15), c));
		}
	}
	int64_t pos = 0, total = s.pixels();
	int mode = int(rng.range(0, 2));
	for (int i = 0; i < 200 && pos < total + 3; ++i) {
		int64_t num = mode == 0 ? total : mode == 1 ? 1 : rng.chance(1, 10) ? 0 : rng.scale(1, std::max<int64_t>(1, total / 2));
		plan.steps.push_back(Step(K_READ, num, gen_mode(rng, false)));
		pos += num;
	}
}

template <typename TYPE>
static void run(const Plan &plan, Ctx &ctx)
{
	const char *name = "/sim/a.pnm";
	Spec spec = spec_of(plan);
	uint8_t pat = uint8_t(plan.p(P_PAT));
	disk.reset(ctx);
	Model<TYPE> model;
	{
		Session<TYPE> w(ctx, spec);
		w.open(name, pat, false);
		for (const Step &s : plan.steps)
			w.op(s);
		w.rest();
		w.finish();
		model = w.model;
	}
	std::vector<uint8_t> file = disk.content(name);
	size_t at = check_finished(ctx, file, model);
	for (const Step &s : plan.steps) {
		if (s.kind < K_DAMAGE || s.kind > K_DELETE || file.empty())
			continue;
		size_t pos = size_t(uint64_t(s.a[0]) % std::min(at, file.size()));
		if (s.kind == K_DAMAGE) {
			file[pos] = uint8_t(s.a[1]);
			ctx.fault("header_byte_damaged", int64_t(pos), s.a[1]);
		} else if (s.kind == K_INSERT) {
			file.insert(file.begin() + int64_t(pos), uint8_t(s.a[1]));
			ctx.fault("header_byte_inserted", int64_t(pos), s.a[1]);
		} else {
			file.erase(file.begin() + int64_t(pos));
			ctx.fault("header_byte_lost", int64_t(pos));
		}
	}
	int64_t cut = plan.par.size() > P_CUT ? plan.p(P_CUT) : -1;
	if (cut >= 0 && cut < int64_t(file.size())) {
		ctx.fault("truncated_file", cut);
		file.resize(size_t(cut));
	}
	disk.put(name, file);
	Spec seen = spec;
	size_t data_at = 0;
	int valid = parse(file, seen, data_at);
	install(plan, nullptr, true);
	disk.max_read = plan.p(P_MAXR);
	for (int64_t &c : disk.calls)
		c = 0;
	Slot<DSP::ReadPNM<TYPE>> r;
	r.create(pat, name);
	auto failed = [&]() { return disk.open_error || disk.hard_read_error; };
	bool good = r->good();
	ctx.log("opened", good, valid);
	if (good && failed())
		ctx.fail("failure-unreported", "reader good after %s", disk.open_error ? "the file could not be opened" : "a read error in the header");
	if (good && valid == 0)
		ctx.fail("bad-header-accepted", "reader good (%d x %d) on header '%.24s'", r->width(), r->height(), std::string(file.begin(), file.begin() + std::min<size_t>(24, file.size())).c_str());
	if (!good && !failed() && valid == 1)
		ctx.fail("reader-not-good", "reader not good on a valid header");
	if (good && valid == 1 && (r->width() != seen.width || r->height() != seen.height || r->mono() != seen.mono))
		ctx.fail("reader-header", "reader reports %d x %d %s, header says %d x %d %s", r->width(), r->height(), r->mono() ? "gray" : "colour", seen.width, seen.height, seen.mono ? "gray" : "colour");
	ctx.count(good ? "state.header_accepted" : failed() ? "state.header_io_error" : "state.header_rejected");
	int ch = r->mono() ? 1 : 3;
	int64_t avail = valid == 1 ? int64_t(file.size() - data_at) / ch : 0, pos = 0;
	for (const Step &s : plan.steps) {
		if (s.kind != K_READ)
			continue;
		std::vector<TYPE> v = guarded_read<TYPE>(ctx, *r, std::min<int64_t>(std::max<int64_t>(s.a[0], 0), 200000), s.a[1], ch);
		int64_t num = int64_t(v.size()) / ch;
		bool now = r->good();
		ctx.log("read", num, now);
		if (now && !good)
			ctx.fail("failure-forgotten", "reader became good again");
		if (now && failed())
			ctx.fail("failure-unreported", "reader good after a read error");
		if (valid == 1) {
			if (now) {
				if (num && pos + num > avail)
					ctx.fail("missing-data-delivered", "reader good after pixels %lld..%lld, only %lld stored", (long long)pos, (long long)(pos + num), (long long)avail);
				for (int64_t i = 0; i < int64_t(v.size()); ++i) {
					int code = file[data_at + size_t(pos * ch + i)];
					if (!value_right(double(v[i]), code, seen))
						ctx.fail("wrong-pixel", "pixel %lld channel %lld: read %.9g, stored %d of %d", (long long)(pos + i / ch), (long long)(i % ch), double(v[i]), code, seen.maxval);
				}
				ctx.progress = ctx.progress || num > 0;
			} else if (good) {
				int64_t upto = int64_t(data_at) + (pos + num) * ch;
				bool end = pos + num > avail;
				bool met = disk.hard_read_error && (num != 1 || disk.read_failed_at < upto);
				if (!end && !met)
					ctx.fail("pixels-withheld", "reader stopped at pixels %lld..%lld of %lld stored", (long long)pos, (long long)(pos + num), (long long)avail);
			}
		}
		pos += num;
		good = now;
	}
	ctx.count(good ? "state.good" : disk.open_error ? "state.open_error" : disk.hard_read_error ? "state.read_error" : valid == 1 ? "state.end_of_data" : "state.bad_header");
	ctx.progress = ctx.progress || failed() || valid != 1;
	r.destroy();
	if (disk.open_handles())
		ctx.fail("leaked-descriptor", "%d files still open", disk.open_handles());
}

static void execute(const Plan &plan, Ctx &ctx)
{
	if (plan.p(P_DBL))
		run<double>(plan, ctx);
	else
		run<float>(plan, ctx);
}

static const char *const kinds[] = { "write", "read", "damage-header-byte", "insert-header-byte", "lose-header-byte", "", "", "", "", "", "short-transfer", "interrupted-call", "error", "crash", nullptr };
static const char *const pars[] = { "width", "height", "maxval", "mono", "double", "max_read", "stale_memory", "truncate", nullptr };
static const int64_t par_min[] = { 1, 1, 1, 0, 0, 0, 0, -1 };
namespace sim { const Scenario scenario = { "C09", kinds, generate, execute, par_min, 8, pars }; }
