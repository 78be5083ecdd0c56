// C31: a tracking receiver on the library's elementary functions, with fades, jumps, clipping and restarts
#include "prelude.hh"
#include "const.hh"
#include "complex.hh"
#include "utils.hh"
#include "unit_circle.hh"
#include "atan2.hh"
#include "exp.hh"
#include "decibel.hh"
#include "cordic.hh"
#include "guard.hh"

using namespace sim;

enum { K_TURN = 1, K_FADE, K_FAULT, K_HOLD, K_RESTART };
static const char *const kinds[] = { "none", "turn count increment", "fade level count", "fault what count seed", "hold count", "restart", nullptr };
enum { P_UNIT, P_CIRCLE, P_WAY, P_MU, P_TARGET };
static const char *const pars[] = { "unit", "circle", "way", "loop", "target", nullptr };
enum { F_NOISE, F_DROPOUT, F_SPIKES, F_JUMP, F_MIRROR, F_AXIS, F_STUCK, F_COUNT };
static const char *const faults[] = { "noise", "dropout", "spikes", "phase_jump", "mirrored", "one_part_lost", "stuck" };

static const int circles[] = { 1, 2, 3, 4, 5, 7, 8, 12, 16, 37, 100, 256, 360, 1000, 1024, 4096, 5000, 8191, 44100, 48000, 65536, 99991, 1000003, 10000000 };
enum { CIRCLES = sizeof circles / sizeof *circles };

static void generate(Rng &rng, Plan &plan, bool thorough, uint64_t index)
{
	plan.par = { int64_t(index % 4), rng.range(0, CIRCLES - 1), rng.range(0, 5), rng.range(1, 4), rng.chance(1, 2) ? 0 : rng.range(1, 60) };
	bool faulty = rng.chance(5, 6);
	auto turn = [&]() {
		plan.steps.push_back(Step(K_TURN, rng.scale(1, 200), rng.chance(1, 3) ? rng.range(-3, 3) : rng.range(-1000000, 1000000)));
	};
	int n = int(rng.scale(2, thorough ? 40 : 16));
	for (int i = 0; i < n; ++i) {
		int what = int(rng.range(0, faulty ? 8 : 3));
		if (what < 2)
			turn();
		else if (what < 3)
			plan.steps.push_back(Step(K_HOLD, rng.scale(1, 100)));
		else if (what < 5)
			plan.steps.push_back(Step(K_FADE, rng.range(-1000, 1000), rng.scale(1, 50)));
		else if (what < 8)
			plan.steps.push_back(Step(K_FAULT, rng.range(0, F_COUNT - 1), rng.scale(1, 30), int64_t(rng.next() >> 1)));
		else
			plan.steps.push_back(Step(K_RESTART));
	}
	repeat(rng, plan);
	plan.steps.push_back(Step(K_HOLD, 80));
}

typedef long double L;
static const L PI = 3.14159265358979323846264338327950288L;
static L wrap(L x) { return std::remainder(x, 2 * PI); }

template <typename R, typename I>
static void run(const Plan &plan, Ctx &ctx)
{
	typedef DSP::Complex<R> C;
	const L eps = std::numeric_limits<R>::epsilon(), tiny = std::numeric_limits<R>::min();
	const int N = circles[uint64_t(plan.p(P_CIRCLE)) % CIRCLES], way = int(uint64_t(plan.p(P_WAY)) % 6);
	const int BITS = 8 * sizeof(I);
	const R full = R((1 << (BITS - 1)) - 1);
	const R mu = R(std::max<int64_t>(1, std::min<int64_t>(4, plan.p(P_MU)))) / R(4);
	// how much less than full scale is wanted
	const R want = -R(std::max<int64_t>(0, std::min<int64_t>(90, plan.p(P_TARGET))));
	// the range the type has
	const bool wide = sizeof(R) == 8;
	const L least = wide ? 1e-260L : 1e-25L, most = wide ? 1e260L : 1e25L;
	const R far = wide ? R(2900) : R(250);
	// the target
	int64_t pos = 0;
	L level = 0;
	// the loop: angle, gain, the sample before, how far it turned and how often it passed the mark
	R phi = 0, gain = 0;
	C before(1);
	int64_t marks = 0, passed = 0, clean = 0;
	L perr = 0, gerr = 0;
	auto near = [&](const char *what, R got, L want, L tol) {
		if (!(std::fabs(L(got) - want) <= tol + 4 * tiny))
			ctx.fail(what, "tick %llu, position %lld of %d, %.6Lg dB: %.12Lg instead of %.12Lg, off by %.3Lg, tolerance %.3Lg", (unsigned long long)ctx.ticks, (long long)pos, N, level, L(got), want, L(got) - want, tol);
	};
	auto both = [&](const char *what, C got, L re, L im, L tol) {
		near(what, got.real(), re, tol);
		near(what, got.imag(), im, tol);
	};
	auto angle = [&](const char *what, R y, R x, R got) {
		L truth = std::atan2(L(y), L(x));
		if (x == 0 && y == 0) {
			near(what, got, 0, PI * (1 + 4 * eps));
			return;
		}
		near(what, got, truth, 16 * eps * std::fabs(truth));
	};
	auto tick = [&](int64_t inc, int what, Rng &rng) {
		++ctx.ticks;
		pos = (pos + inc) % N;
		if (pos < 0)
			pos += N;
		// the same place has two names
		int n = int(pos);
		if (ctx.ticks & 1)
			n -= N;
		L th = 2 * PI * L(n) / N;
		R c = DSP::UnitCircle<R>::cos(n, N), s = DSP::UnitCircle<R>::sin(n, N);
		near("wrong-cosine", c, std::cos(th), 8 * eps);
		near("wrong-sine", s, std::sin(th), 8 * eps);
		near("wrong-angle-of-position", DSP::UnitCircle<R>::rad(n, N), th, 4 * eps * std::fabs(th));
		R lv = R(level);
		R power = DSP::idecibel(lv);
		L wantp = std::pow(10.L, L(lv) / 10);
		near("wrong-power", power, wantp, 16 * eps * (1 + std::fabs(L(lv)) / 10) * wantp);
		near("wrong-power-of-ten", DSP::exp10(lv / R(9)), std::pow(10.L, L(lv / R(9))), 16 * eps * (1 + std::fabs(L(lv)) / 9) * std::pow(10.L, L(lv / R(9))));
		R amp = std::sqrt(power);
		C z = amp * C(c, s);
		both("wrong-scaling", z, L(amp) * L(c), L(amp) * L(s), 2 * eps * L(amp));
		switch (what) {
		case F_NOISE: z += C(R(rng.unit() - .5), R(rng.unit() - .5)) * C(amp); break;
		case F_DROPOUT:
			z = R(0);
			both("wrong-silence", z, 0, 0, 0);
			both("wrong-silence", C(), 0, 0, 0);
			both("wrong-real", C(amp), amp, 0, 0);
			z = amp;
			both("wrong-real", z, amp, 0, 0);
			z = C();
			break;
		case F_SPIKES: if (rng.chance(1, 4)) z *= R(100); break;
		case F_JUMP: z *= DSP::polar(R(1), R(rng.unit() * 6 - 3)); break;
		case F_MIRROR: z = DSP::conj(z); break;
		case F_AXIS: if (rng.chance(1, 2)) z.imag(R(0)); else z.real(R(0)); break;
		case F_STUCK: z = C(amp, amp); break;
		}
		L zr = z.real(), zi = z.imag(), zn = zr * zr + zi * zi, za = std::sqrt(zn);
		near("wrong-norm", DSP::norm(z), zn, 4 * eps * zn + tiny);
		near("wrong-magnitude", DSP::abs(z), za, 4 * eps * za + std::sqrt(tiny));
		angle("wrong-angle", z.imag(), z.real(), DSP::atan2(z.imag(), z.real()));
		angle("wrong-argument", z.imag(), z.real(), DSP::arg(z));
		if (z.real() != 0) {
			R q = z.imag() / z.real();
			L truth = std::atan(L(q));
			near("wrong-arc-tangent", DSP::atan(q), truth, 16 * eps * std::fabs(truth));
		}
		bool there = zn > least && zn < most;
		// turned back by the angle of the loop, this way or that
		C rot = DSP::polar(R(1), phi), w;
		both("wrong-polar", rot, std::cos(L(phi)), std::sin(L(phi)), 8 * eps);
		switch (way) {
		case 0: w = z * DSP::conj(rot); break;
		case 1: w = z; w *= DSP::conj(rot); break;
		case 2: w = z / rot; break;
		case 3: w = z; w /= rot; break;
		case 4: w = z * (R(1) / rot); break;
		default: w = DSP::norm(rot) * z / (DSP::conj(DSP::conj(rot))); break;
		}
		L rr = rot.real(), ri = rot.imag(), rn = way == 0 || way == 1 || way == 5 ? 1 : rr * rr + ri * ri;
		both("wrong-turn", w, (zr * rr + zi * ri) / rn, (zi * rr - zr * ri) / rn, 16 * eps * za);
		R e = DSP::arg(w);
		angle("wrong-error", w.imag(), w.real(), e);
		// how far since the sample before: quotient, sums and differences
		L br = before.real(), bi = before.imag(), bn = br * br + bi * bi;
		if (there && bn > least && bn < most) {
			C d = z / before;
			both("wrong-quotient", d, (zr * br + zi * bi) / bn, (zi * br - zr * bi) / bn, 8 * eps * std::sqrt(zn / bn));
			C sum = z + before, dif = z - before, neg = -z, pos2 = +z;
			C inv = amp / z;
			both("wrong-reciprocal", inv, L(amp) * zr / zn, -L(amp) * zi / zn, 8 * eps * L(amp) / za);
			both("wrong-sum", sum, zr + br, zi + bi, eps * (za + std::sqrt(bn)));
			both("wrong-difference", dif, zr - br, zi - bi, eps * (za + std::sqrt(bn)));
			both("wrong-sign", neg, -zr, -zi, 0);
			both("wrong-sign", pos2, zr, zi, 0);
			C acc = sum;
			acc -= before;
			L tr = L(sum.real()) - br, ti = L(sum.imag()) - bi;
			both("wrong-difference", acc, tr, ti, eps * (za + 2 * std::sqrt(bn)));
			acc = z;
			acc += before;
			both("wrong-sum", acc, zr + br, zi + bi, eps * (za + std::sqrt(bn)));
			C half = z / R(3);
			both("wrong-part", half, zr / 3, zi / 3, eps * za);
			half = z;
			half /= R(3);
			both("wrong-part", half, zr / 3, zi / 3, eps * za);
			C same(z.real(), z.imag()), other(z.real(), z.imag() + amp), third(z.real() - amp, z.imag());
			if (!(same == z) || same != z || other == z || !(other != z) || third == z || !(third != z))
				ctx.fail("wrong-comparison", "of %.9Lg %+.9Lgi with itself or with another", zr, zi);
		}
		if (there)
			before = z;
		// what the converter makes of it
		R lin = std::sqrt(DSP::idecibel(gain));
		R fx = std::nearbyint(DSP::clamp(R(.9) * full * lin * z.real(), -full - 1, full)), fy = std::nearbyint(DSP::clamp(R(.9) * full * lin * z.imag(), -full - 1, full));
		if (!(fx >= -full - 1 && fx <= full && fy >= -full - 1 && fy <= full))
			ctx.fail("not-clamped", "%.9Lg %.9Lg", L(fx), L(fy));
		I x = I(fx), y = I(fy);
		if (x || y) {
			I a = DSP::CORDIC<I>::atan2(y, x);
			L size = std::sqrt(L(x) * x + L(y) * y), turn = L(1 << BITS);
			L off = std::remainder(L(a) - std::atan2(L(y), L(x)) / (2 * PI) * turn, turn);
			if (!(std::fabs(off) <= 1.1L + .45L * turn / size))
				ctx.fail("wrong-fixed-point-angle", "of %d %d in %d bit: %d, off by %.3Lg", int(x), int(y), BITS, int(a), off);
			ctx.count(size > full ? "state.clipped" : size > full / 2 ? "state.full_scale" : size > full / 16 ? "state.half_scale" : "state.small");
		}
		// steer
		if (there) {
			R read = DSP::decibel(DSP::norm(z));
			L x0 = std::pow(L(DSP::norm(z)), 1 / 1024.L), u = (x0 - 1) / (x0 + 1);
			near("wrong-level", read, 10 * std::log10(L(DSP::norm(z))), 8894 * (6 * eps + std::fabs(std::pow(u, 15)) / 12));
			R aim = want - read, next = DSP::lerp(gain, aim, mu);
			near("wrong-step", next, (1 - L(mu)) * L(gain) + L(mu) * L(aim), 4 * eps * (std::fabs(L(aim)) + std::fabs(L(gain))));
			gain = DSP::clamp(next, -far, far);
			phi = R(wrap(L(phi) + L(mu) * L(e)));
			int sg = DSP::signum(e);
			if (sg != (e > 0 ? 1 : e < 0 ? -1 : 0))
				ctx.fail("wrong-sign", "of %.9Lg: %d", L(e), sg);
			perr = std::fabs(L(e));
			gerr = std::fabs(L(want) - L(read) - L(gain));
		}
		// the mark passes by
		marks += DSP::delta(R(pos)) == 1 ? 1 : 0;
		passed += pos == 0;
		if (marks != passed)
			ctx.fail("wrong-mark", "counted %lld times, was there %lld times", (long long)marks, (long long)passed);
		L sx = L(R(pos % 97) / R(8) - R(6)), sw = sx == 0 ? 1 : std::sin(PI * sx) / (PI * sx);
		near("wrong-sinc", DSP::sinc(R(sx)), sw, 4 * eps * (1 + std::fabs(sw) + 1));
		R m = R(level / 100), sd = R(1 + pos % 7) / R(3);
		L k = (sx - L(m)) / L(sd), dens = std::exp(-k * k / 2) / (std::sqrt(2 * PI) * L(sd));
		near("wrong-density", DSP::normal_pdf(R(sx), m, sd), dens, eps * dens * (16 + 8 * k * k + 8 * std::fabs(k) * (std::fabs(sx) + std::fabs(L(m))) / L(sd)));
		ctx.progress = true;
	};
	Rng none(1);
	for (const Step &s : plan.steps) {
		switch (s.kind) {
		case K_TURN: {
			int64_t len = std::max<int64_t>(0, std::min<int64_t>(150000, s.a[0]));
			for (int64_t i = 0; i < len; ++i)
				tick(std::max<int64_t>(-10000000, std::min<int64_t>(10000000, s.a[1])), -1, none);
			clean = 0;
			break;
		}
		case K_FADE: {
			int64_t len = std::max<int64_t>(1, std::min<int64_t>(1000, s.a[1]));
			L to = L(std::max<int64_t>(-1000, std::min<int64_t>(1000, s.a[0]))) / 10, from = level;
			if (wide && s.a[1] & 1)
				to *= 25;
			ctx.fault("fade", s.a[0], len);
			for (int64_t i = 1; i <= len; ++i) {
				level = from + (to - from) * i / len;
				tick(1, -1, none);
			}
			clean = 0;
			break;
		}
		case K_FAULT: {
			int what = int(uint64_t(s.a[0]) % F_COUNT);
			int64_t len = std::max<int64_t>(0, std::min<int64_t>(1000, s.a[1]));
			Rng rng(uint64_t(s.a[2]));
			ctx.fault(faults[what], len);
			for (int64_t i = 0; i < len; ++i)
				tick(int64_t(rng.range(-3, 3)), what, rng);
			clean = 0;
			break;
		}
		case K_HOLD: {
			int64_t len = std::max<int64_t>(0, std::min<int64_t>(1000, s.a[0]));
			for (int64_t i = 0; i < len; ++i) {
				tick(0, -1, none);
				L left = std::pow(1 - L(mu), L(clean++));
				// as seen before the last correction, the level after it
				if (!(perr <= 3.2L * left + 64 * eps))
					ctx.fail("not-locked", "%lld samples after the last fault the angle is off by %.6Lg", (long long)clean, perr);
				if (!(gerr <= 8000 * left + 8894 * 16 * eps))
					ctx.fail("not-levelled", "%lld samples after the last fault the level is off by %.6Lg dB", (long long)clean, gerr);
			}
			ctx.count(clean > 60 ? "state.locked" : "state.locking");
			break;
		}
		case K_RESTART:
			ctx.fault("restart", pos);
			phi = gain = 0;
			before = C(1);
			clean = 0;
			break;
		}
		double low = double(phi) + double(gain);
		int64_t bits;
		memcpy(&bits, &low, sizeof bits);
		ctx.log("step", s.kind, pos, bits);
	}
}

static void execute(const Plan &plan, Ctx &ctx)
{
	switch (uint64_t(plan.p(P_UNIT)) % 4) {
	case 0: return run<float, int8_t>(plan, ctx);
	case 1: return run<float, int16_t>(plan, ctx);
	case 2: return run<double, int8_t>(plan, ctx);
	case 3: return run<double, int16_t>(plan, ctx);
	}
}

namespace sim {
static const int64_t par_min[] = { 0, 0, 0, 1, 0 };
const Scenario scenario = { "C31", kinds, generate, execute, par_min, 5, pars };
}
