// C27: blocks sent as spectra over a faulty channel and recovered by the transforms
#include "c27.hh"
#include <cmath>
#include <memory>

using namespace sim;

enum { K_BLOCK = 1, K_PATH, K_DAMAGE, K_HALF, K_PAD, K_SAVE, K_CRASH, K_OTHER };
static const char *const kinds[] = { "none", "block seed spectrum exponent", "path number delay gain phase", "damage seed what count", "half seed signal exponent", "pad seed signal exponent", "save", "crash", "other_link index", nullptr };
enum { P_LINK, P_PAD, P_PAT };
static const char *const pars[] = { "link", "padder", "pattern", nullptr };
enum { S_FULL, S_SPARSE, S_ONE, S_REAL, S_EDGE, S_CHIRP, S_COUNT };
enum { D_SPIKE, D_DROPOUT, D_STUCK, D_LOST, D_REPEATED, D_NOISE, D_COUNT };
static const char *const damages[] = { "spike", "dropout", "stuck", "lost", "repeated", "noise" };

namespace sim {
std::vector<TransformEntry> &transforms() { static std::vector<TransformEntry> v; return v; }
std::vector<PadderEntry> &padders() { static std::vector<PadderEntry> v; return v; }
}

static void setup()
{
	static int all = add_bank0 + add_bank1 + add_bank2 + add_bank3 + add_bank4 + add_bank5;
	if (all != 6)
		abort();
}

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	setup();
	int64_t links = int64_t(transforms().size()), pads = int64_t(padders().size());
	plan.par = { int64_t(index) % links, int64_t(index) % pads, rng.pick({ 0, 0xff, 0x7f, 0x3c }) };
	bool big = transforms()[size_t(plan.par[0])].size > 300;
	int n = transforms()[size_t(plan.par[0])].size < 40 && rng.chance(1, 60) ? 700 : int(rng.scale(2, (thorough ? 24 : 10) / (big ? 2 : 1)));
	bool faults = !rng.chance(1, 10);
	for (int i = 0; i < n; ++i) {
		int what = int(rng.range(0, 15));
		int64_t seed = int64_t(rng.next() >> 1);
		if (what < 5 || (!faults && what > 8))
			plan.steps.push_back(Step(K_BLOCK, seed, rng.range(0, S_COUNT - 1), rng.chance(1, 2) ? 0 : rng.range(-10, 10)));
		else if (what < 7)
			plan.steps.push_back(Step(K_HALF, seed, rng.range(0, S_COUNT - 1), rng.chance(1, 2) ? 0 : rng.range(-10, 10)));
		else if (what < 9)
			plan.steps.push_back(Step(K_PAD, seed, rng.range(0, S_COUNT - 1), rng.chance(1, 2) ? 0 : rng.range(-10, 10)));
		else if (what < 11)
			plan.steps.push_back(Step(K_PATH, rng.range(0, 2), rng.scale(0, 4096), rng.range(0, 150), rng.range(0, 359)));
		else if (what < 13)
			plan.steps.push_back(Step(K_DAMAGE, seed, rng.range(0, D_COUNT - 1), rng.scale(1, 50)));
		else if (what < 14)
			plan.steps.push_back(Step(K_SAVE));
		else if (what < 15)
			plan.steps.push_back(Step(K_CRASH, rng.range(0, 1)));
		else
			plan.steps.push_back(Step(K_OTHER, rng.range(0, links - 1), rng.range(0, pads - 1), seed));
	}
	repeat(rng, plan);
	plan.steps.push_back(Step(K_BLOCK, int64_t(rng.next() >> 1), rng.range(0, S_COUNT - 1), 0));
}

static const std::vector<Z> &circle(int n)
{
	static std::map<int, std::vector<Z>> all;
	std::vector<Z> &c = all[n];
	if (c.empty())
		for (int i = 0; i < n; ++i) {
			long double a = 2 * 3.14159265358979323846264338327950288L * i / n;
			c.push_back(Z(double(std::cos(a)), double(std::sin(a))));
		}
	return c;
}

// one bin by the definition
static Z bin(const std::vector<Z> &x, int64_t k, int sign)
{
	typedef long double L;
	static std::map<size_t, std::vector<std::pair<L, L>>> all;
	size_t n = x.size();
	std::vector<std::pair<L, L>> &c = all[n];
	if (c.empty())
		for (size_t i = 0; i < n; ++i) {
			L a = 2 * 3.14159265358979323846264338327950288L * L(i) / L(n);
			c.push_back({ std::cos(a), std::sin(a) });
		}
	L re = 0, im = 0;
	size_t step = size_t((k % int64_t(n) + int64_t(n)) % int64_t(n));
	for (size_t i = 0, j = 0; i < n; ++i) {
		L a = x[i].real(), b = x[i].imag(), p = c[j].first, q = sign * c[j].second;
		re += a * p - b * q;
		im += a * q + b * p;
		j += step;
		j -= j >= n ? n : 0;
	}
	return Z(double(re), double(im));
}

static double total(const std::vector<Z> &x)
{
	double sum = 0;
	for (const Z &z : x)
		sum += std::abs(z);
	return sum;
}

// rounding errors add up over the stages, the result to compare with is rounded itself
static double stages(int n)
{
	double sum = 4;
	for (int p = 2; n > 1; ++p)
		for (; n % p == 0; n /= p)
			sum += p / 2. + 3;
	return sum;
}

static void spectrum(std::vector<Z> &b, Rng &rng, int what, double size)
{
	int n = int(b.size());
	auto any = [&]() { return size * Z(rng.unit() * 2 - 1, rng.unit() * 2 - 1); };
	switch (what) {
	case S_FULL:
		for (Z &z : b)
			z = any();
		break;
	case S_SPARSE:
		for (int i = 0; i < 4; ++i)
			b[size_t(rng.range(0, n - 1))] = any();
		break;
	case S_ONE:
		b[size_t(rng.range(0, n - 1))] = size;
		break;
	case S_REAL:
		for (Z &z : b)
			z = any().real();
		break;
	case S_EDGE:
		b[0] = any();
		b[size_t(n / 2)] = any();
		b[size_t(n - 1)] = any();
		break;
	default:
		for (int i = 0; i < n; ++i)
			b[size_t(i)] = std::polar(size, M_PI * i * i / n);
	}
}

static void execute(const Plan &plan, Ctx &ctx)
{
	setup();
	uint8_t pat = uint8_t(plan.p(P_PAT));
	const TransformEntry &entry = transforms()[uint64_t(plan.p(P_LINK)) % transforms().size()];
	const PadderEntry &pad_entry = padders()[uint64_t(plan.p(P_PAD)) % padders().size()];
	std::unique_ptr<Transform> link(entry.make(pat)), saved;
	std::unique_ptr<Padder> padder(pad_entry.make(pat)), saved_padder;
	struct Path { int64_t delay = 0; Z gain; } path[3];
	path[0].gain = 1;
	std::vector<Step> hits; // damage to the next block
	std::vector<Z> last; // what the receiver got before
	auto received = [&](const char *what, const Transform &t, const std::vector<Z> &got, const std::vector<Z> &in, int sign, Rng &rng) {
		int n = t.size, checks = n <= 128 ? n : 48;
		double tol = t.eps * stages(n) * total(in);
		for (int i = 0; i < checks; ++i) {
			int k = checks == n ? i : int(rng.range(0, n - 1));
			Z want = bin(in, k, sign);
			if (!(std::abs(got[size_t(k)] - want) <= tol))
				ctx.fail("wrong-transform", "%s<%s,%d>: value %d is %.9g%+.9gi, by the definition %.9g%+.9gi within %.3g", what, t.type, n, k, got[size_t(k)].real(), got[size_t(k)].imag(), want.real(), want.imag(), tol);
		}
	};
	auto block = [&](Transform &t, const Step &s, bool faulty) {
		int n = t.size;
		Rng rng(uint64_t(s.a[0]));
		std::vector<Z> bins(size_t(n), Z(0)), sent, air, got;
		double size = std::pow(10., double(std::max<int64_t>(-10, std::min<int64_t>(10, s.a[2]))));
		spectrum(bins, rng, int(uint64_t(s.a[1]) % S_COUNT), size);
		for (Z &z : bins)
			z = t.rounded(z);
		if (!t.inverse(sent, bins))
			ctx.fail("writes-elsewhere", "inverse<%s,%d> changed its input or memory in front of its output", t.type, n);
		received("inverse", t, sent, bins, 1, rng);
		// every path delivers the block, continued periodically as by a cyclic prefix, late and scaled
		air.assign(size_t(n), Z(0));
		double gains = 0;
		for (const Path &p : path) {
			if (!faulty && &p != path)
				break;
			Z g = faulty ? p.gain : Z(1);
			int64_t d = faulty ? p.delay % n : 0;
			if (g == Z(0))
				continue;
			gains += std::abs(g);
			for (int i = 0; i < n; ++i)
				air[size_t(i)] += g * sent[size_t((i - d + n) % n)];
		}
		std::vector<Z> clean(air);
		bool damaged = false;
		if (faulty) {
			for (const Step &h : hits) {
				Rng r(uint64_t(h.a[0]));
				int what = int(uint64_t(h.a[1]) % D_COUNT);
				int64_t count = std::max<int64_t>(1, std::min<int64_t>(h.a[2], n)), at = r.range(0, n - 1);
				ctx.fault(damages[what], at, count);
				damaged = true;
				double big = size * std::pow(10., double(r.range(0, 6)));
				for (int64_t i = 0; i < count && at + i < n; ++i) {
					Z &z = air[size_t(at + i)];
					switch (what) {
					case D_SPIKE: z = i ? z : Z(big, -big); break;
					case D_DROPOUT: z = 0; break;
					case D_STUCK: z = air[size_t(at)]; break;
					case D_LOST: z = at + i + count < n ? air[size_t(at + i + count)] : size_t(i) < last.size() ? last[size_t(i)] : Z(0); break;
					case D_REPEATED: z = air[size_t(at + i % std::max<int64_t>(1, count / 2))]; break;
					default: z += size * Z(r.unit() - .5, r.unit() - .5);
					}
				}
			}
			hits.clear();
		}
		for (Z &z : air)
			z = t.rounded(z);
		if (!t.forward(got, air))
			ctx.fail("writes-elsewhere", "forward<%s,%d> changed its input or memory in front of its output", t.type, n);
		++ctx.ticks;
		received("forward", t, got, air, -1, rng);
		if (!damaged) {
			// the bins that were sent, scaled and turned by the paths
			double tol = 2 * t.eps * stages(n) * n * total(bins) * (gains + 1);
			for (int k = 0; k < n; ++k) {
				Z h = 0;
				for (const Path &p : path) {
					if (!faulty && &p != path)
						break;
					h += faulty ? p.gain * std::conj(circle(n)[size_t(p.delay % n * k % n)]) : Z(1);
				}
				Z want = double(n) * h * bins[size_t(k)];
				if (!(std::abs(got[size_t(k)] - want) <= tol))
					ctx.fail("not-recovered", "<%s,%d>: bin %d of an undamaged block is %.9g%+.9gi, want %.9g%+.9gi within %.3g", t.type, n, k, got[size_t(k)].real(), got[size_t(k)].imag(), want.real(), want.imag(), tol);
			}
			ctx.count("state.block.intact");
		} else {
			ctx.count("state.block.damaged");
		}
		if (faulty)
			last = air;
		for (int i = 0; i < 4; ++i)
			ctx.log("bin", int64_t(got[size_t(i * 7 % n)].real() / size * 1e4));
		ctx.progress = true;
	};
	auto half = [&](const Step &s) {
		Transform &t = *link;
		int n = t.size;
		if (n & 1)
			return;
		Rng rng(uint64_t(s.a[0]));
		std::vector<Z> x(size_t(n), Z(0)), got;
		spectrum(x, rng, int(uint64_t(s.a[1]) % S_COUNT), std::pow(10., double(std::max<int64_t>(-10, std::min<int64_t>(10, s.a[2])))));
		std::vector<double> in;
		for (Z &z : x) {
			z = t.rounded(Z(z.real()));
			in.push_back(z.real());
		}
		if (!t.half(got, in))
			ctx.fail("writes-elsewhere", "half<%s,%d> changed its input or memory in front of its output", t.type, n);
		++ctx.ticks;
		double tol = 2 * t.eps * stages(n) * total(x);
		int checks = n <= 128 ? n / 2 + 1 : 48;
		for (int i = 0; i < checks; ++i) {
			int k = n <= 128 ? i : i < 2 ? i * n / 2 : int(rng.range(0, n / 2));
			Z want = (k == 0 || k == n / 2 ? .5 : 1.) * bin(x, k, -1); // constant and fastest component at half weight
			if (!(std::abs(got[size_t(k)] - want) <= tol))
				ctx.fail("wrong-transform", "half<%s,%d>: value %d is %.9g%+.9gi, want %.9g%+.9gi within %.3g", t.type, n, k, got[size_t(k)].real(), got[size_t(k)].imag(), want.real(), want.imag(), tol);
		}
		ctx.count("state.block.half");
		ctx.log("half", int64_t(got[size_t(n / 4)].real() * 1e4));
		ctx.progress = true;
	};
	auto pad = [&](Padder &p, const Step &s) {
		Rng rng(uint64_t(s.a[0]));
		std::vector<Z> x(size_t(p.in), Z(0)), got;
		spectrum(x, rng, int(uint64_t(s.a[1]) % S_COUNT), std::pow(10., double(std::max<int64_t>(-10, std::min<int64_t>(10, s.a[2])))));
		for (Z &z : x)
			z = p.rounded(z);
		if (!p(got, x))
			ctx.fail("writes-elsewhere", "padding<%s,%d,%d> changed its input or memory in front of its output", p.type, p.in, p.out);
		++ctx.ticks;
		std::vector<Z> wide(size_t(p.out), Z(0));
		for (int k = -(p.in - 1) / 2; k <= (p.in - 1) / 2; ++k)
			wide[size_t((k + p.out) % p.out)] += bin(x, k, -1) / double(p.in);
		if (p.in % 2 == 0) {
			Z h = .5 * bin(x, p.in / 2, -1) / double(p.in);
			wide[size_t(p.in / 2)] += h;
			wide[size_t(p.out - p.in / 2)] += h;
		}
		double tol = p.eps * (stages(p.in) + stages(p.out)) * total(x) * 2;
		for (int i = 0; i < p.out; ++i) {
			Z want = bin(wide, i, 1);
			if (!(std::abs(got[size_t(i)] - want) <= tol))
				ctx.fail("wrong-interpolation", "padding<%s,%d,%d>: sample %d is %.9g%+.9gi, want %.9g%+.9gi within %.3g", p.type, p.in, p.out, i, got[size_t(i)].real(), got[size_t(i)].imag(), want.real(), want.imag(), tol);
			if (i * p.in % p.out == 0 && !(std::abs(got[size_t(i)] - x[size_t(i * p.in / p.out)]) <= tol))
				ctx.fail("misses-sample", "padding<%s,%d,%d>: sample %d is %.9g%+.9gi, given %.9g%+.9gi", p.type, p.in, p.out, i, got[size_t(i)].real(), got[size_t(i)].imag(), x[size_t(i * p.in / p.out)].real(), x[size_t(i * p.in / p.out)].imag());
		}
		ctx.count("state.block.padded");
		ctx.log("pad", int64_t(got[size_t(p.out / 2)].real() * 1e4));
		ctx.progress = true;
	};
	for (const Step &s : plan.steps) {
		scribble_stack(pat);
		switch (s.kind) {
		case K_BLOCK:
			block(*link, s, true);
			break;
		case K_HALF:
			half(s);
			break;
		case K_PAD:
			pad(*padder, s);
			break;
		case K_PATH: {
			Path &p = path[uint64_t(s.a[0]) % 3];
			p.delay = std::max<int64_t>(0, s.a[1]);
			p.gain = std::polar(double(std::max<int64_t>(0, std::min<int64_t>(s.a[2], 200))) / 100, double(s.a[3] % 360) * M_PI / 180);
			ctx.fault("path_changed", p.delay, s.a[2]);
			break;
		}
		case K_DAMAGE:
			hits.push_back(s);
			break;
		case K_OTHER: {
			// another link's blocks in between
			const TransformEntry &e = transforms()[uint64_t(s.a[0]) % transforms().size()];
			if (e.size <= 300) {
				std::unique_ptr<Transform> other(e.make(uint8_t(~pat)));
				ctx.fault("other_link", e.size);
				block(*other, Step(K_BLOCK, s.a[2], int64_t(s.a[2] % S_COUNT), 0), false);
			}
			const PadderEntry &q = padders()[uint64_t(s.a[1]) % padders().size()];
			std::unique_ptr<Padder> others(q.make(uint8_t(~pat)));
			pad(*others, Step(K_PAD, s.a[2], s.a[2] % S_COUNT, 0));
			break;
		}
		case K_SAVE:
			saved.reset(link->copy());
			saved_padder.reset(padder->copy());
			ctx.log("save");
			break;
		case K_CRASH:
			if (!saved)
				break;
			ctx.fault("crash_and_restore", s.a[0]);
			if (s.a[0]) {
				link->assign(*saved);
				padder->assign(*saved_padder);
			} else {
				link.reset(saved->copy());
				padder.reset(saved_padder->copy());
			}
			hits.clear();
			last.clear();
			break;
		}
	}
	ctx.count("state.size." + std::to_string(entry.size));
}

namespace sim {
static const int64_t par_min[] = { 0, 0, 0 };
const Scenario scenario = { "C27", kinds, generate, execute, par_min, 3, pars };
}
