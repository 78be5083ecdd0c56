/*
Image model, independent Netpbm parser and checked sessions for the Netpbm properties.
*/

#pragma once

#include "core.hh"
#include "disk.hh"
#include "guard.hh"
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <cmath>
#include <cstdint>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <locale>
#include <memory>
#include "netpbm.hh"

namespace pnm {

using namespace sim;

struct Spec
{
	int width, height, maxval;
	bool mono;
	int channels() const { return mono ? 1 : 3; }
	int64_t pixels() const { return int64_t(width) * height; }
};

static inline Spec spec_of(const Plan &plan)
{
	Spec s;
	s.width = int(std::min<int64_t>(std::max<int64_t>(plan.p(0), 1), 100000));
	s.height = int(std::min<int64_t>(std::max<int64_t>(plan.p(1), 1), 100000));
	while (s.pixels() > 200000)
		s.height = std::max(1, s.height / 2), s.width = std::max(1, s.width - s.width / 4);
	s.maxval = int(std::min<int64_t>(std::max<int64_t>(plan.p(2), 1), 255));
	s.mono = plan.p(3);
	return s;
}

static inline void spec_gen(Rng &rng, Plan &plan, bool big)
{
	int64_t w, h;
	if (rng.chance(1, 80)) {
		w = rng.pick({ 32767, 32768, 40000, 65535, 65536, 70000 });
		h = rng.range(1, 2);
	} else if (rng.chance(1, 6)) {
		w = rng.pick({ 999, 1000, 1001, 9999, 10000, 12345 });
		h = rng.range(1, 3);
	} else {
		w = rng.scale(1, big ? 150 : 30);
		h = rng.scale(1, big ? 150 : 30);
	}
	if (rng.chance(1, 2))
		std::swap(w, h);
	plan.par.push_back(w);
	plan.par.push_back(h);
	plan.par.push_back(rng.chance(1, 2) ? 255 : rng.chance(1, 4) ? rng.range(1, 4) : rng.range(1, 255));
	plan.par.push_back(rng.range(0, 1));
}

enum { V_UNIT, V_WIDE, V_EDGE, V_DARK, V_TIES, V_HUGE, V_NUM };

static inline double decode(double x)
{
	return x <= 0.04045 ? x / 12.92 : std::pow((x + 0.055) / 1.055, 2.4);
}

static inline double encode(double v)
{
	v = std::min(std::max(v, 0.), 1.);
	return v <= 0.04045 / 12.92 ? 12.92 * v : 1.055 * std::pow(v, 1 / 2.4) - 0.055;
}

static inline double pixel_value(uint64_t seed, int64_t i, int cls, int maxval)
{
	uint64_t h = mix(seed, uint64_t(i) * 8 + uint64_t(cls));
	double u = double(h >> 11) / 9007199254740992.0;
	switch (cls) {
		case V_UNIT: return u;
		case V_WIDE: return 3 * u - 1;
		case V_EDGE: {
			static const double e[] = { 0, -0.0, 1, -1, 2, 0.999999, 1.000001, 0.0031308, 0.003131, 0.00313, 1e-30, -1e-30, 0.5, 0.25, 1 / 255., 254 / 255. };
			return e[h % 16];
		}
		case V_DARK: return 0.006 * u;
		case V_TIES: return decode((std::floor(u * maxval) + 0.5 + (double((h >> 5) % 3) - 1) * 0.03) / maxval);
		case V_HUGE: {
			static const double e[] = { 1e30, -1e30, HUGE_VAL, -HUGE_VAL, 3e38, -3e38, 256, -256 };
			return e[h % 8];
		}
	}
	return 0;
}

// 1: a complete supported header, 0: certainly not, -1: unspecified
static inline int parse(const std::vector<uint8_t> &f, Spec &s, size_t &at)
{
	if (f.size() < 2 || f[0] != 'P' || (f[1] != '5' && f[1] != '6'))
		return 0;
	s.mono = f[1] == '5';
	at = 2;
	int64_t num[3];
	bool odd = false;
	for (int i = 0; i < 3; ++i) {
		size_t start = at;
		while (at < f.size()) {
			if (f[at] == ' ' || f[at] == '\t' || f[at] == '\n') {
				++at;
			} else if (f[at] == '\r' || f[at] == '\v' || f[at] == '\f') {
				odd = true;
				++at;
			} else if (f[at] == '#') {
				if (at == start)
					odd = true;
				while (at < f.size() && f[at] != '\n')
					++at;
			} else {
				break;
			}
		}
		if (at == start)
			return odd ? -1 : 0;
		num[i] = 0;
		start = at;
		while (at < f.size() && f[at] >= '0' && f[at] <= '9') {
			num[i] = std::min<int64_t>(10 * num[i] + (f[at] - '0'), int64_t(1) << 40);
			++at;
		}
		if (at == start)
			return odd ? -1 : 0;
	}
	if (at >= f.size())
		return 0;
	if (f[at] == '\r' || f[at] == '\v' || f[at] == '\f' || f[at] == '#')
		return -1;
	if (f[at] != ' ' && f[at] != '\t' && f[at] != '\n')
		return odd ? -1 : 0;
	++at;
	if (num[0] > 0x7fffffff || num[1] > 0x7fffffff || num[2] > 0x7fffffff)
		return -1;
	if (num[2] < 1 || num[2] > 255)
		return 0;
	if (odd || num[0] < 1 || num[1] < 1)
		return -1;
	s.width = int(num[0]);
	s.height = int(num[1]);
	s.maxval = int(num[2]);
	return 1;
}

template <typename TYPE>
struct Model
{
	Spec spec;
	std::vector<TYPE> val;
	int64_t pixels() const { return int64_t(val.size()) / spec.channels(); }
};

static inline bool code_right(int code, double v, const Spec &s, bool single)
{
	return std::fabs(code - s.maxval * encode(v)) <= 0.5 + (single ? 0.004 : 1e-6);
}

// does a value delivered by the reader denote the stored code?
static inline bool value_right(double got, int code, const Spec &s)
{
	if (code > s.maxval)
		return true; // not a legal pixel
	return got >= 0 && got <= 1.000001 && std::fabs(s.maxval * encode(got) - code) <= 0.25;
}

template <typename TYPE>
static size_t check_finished(Ctx &ctx, const std::vector<uint8_t> &f, const Model<TYPE> &m)
{
	Spec s = {};
	size_t at = 0;
	if (parse(f, s, at) != 1)
		ctx.fail("file-header", "finished file has no Netpbm header: '%.20s'", std::string(f.begin(), f.begin() + std::min<size_t>(f.size(), 20)).c_str());
	if (s.width != m.spec.width || s.height != m.spec.height || s.maxval != m.spec.maxval || s.mono != m.spec.mono)
		ctx.fail("file-header", "header says %d x %d maxval %d %s, image is %d x %d maxval %d %s", s.width, s.height, s.maxval, s.mono ? "gray" : "colour", m.spec.width, m.spec.height, m.spec.maxval, m.spec.mono ? "gray" : "colour");
	if (f.size() - at != m.val.size())
		ctx.fail("file-size", "%zu pixel bytes stored, %zu expected", f.size() - at, m.val.size());
	for (size_t i = 0; i < m.val.size(); ++i)
		if (!code_right(f[at + i], double(m.val[i]), m.spec, sizeof(TYPE) == 4))
			ctx.fail("stored-pixel", "pixel %zu channel %zu: stored %d for %.9g", i / size_t(m.spec.channels()), i % size_t(m.spec.channels()), f[at + i], double(m.val[i]));
	return at;
}

static inline Guarded &arena()
{
	static Guarded g(1 << 24);
	return g;
}

enum { OP_WRITE };

template <typename TYPE>
struct Session
{
	Ctx &ctx;
	Slot<DSP::WritePNM<TYPE>> w;
	Model<TYPE> model;
	Session(Ctx &ctx, const Spec &spec) : ctx(ctx) { model.spec = spec; }
	void open(const char *name, uint8_t pattern, bool defaults)
	{
		const Spec &s = model.spec;
		if (defaults && s.maxval == 255 && !s.mono)
			w.create(pattern, name, s.width, s.height);
		else if (defaults && s.maxval == 255)
			w.create(pattern, name, s.width, s.height, s.mono);
		else
			w.create(pattern, name, s.width, s.height, s.mono, s.maxval);
		ctx.log("writer", s.width, s.height, s.maxval);
		if (w->width() != s.width || w->height() != s.height || w->mono() != s.mono)
			ctx.fail("writer-accessors", "writer reports %d x %d", w->width(), w->height());
	}
	int64_t missing() const { return model.spec.pixels() - model.pixels(); }
	// a: pixels, stride mode (0: default argument, 1: explicit -1, 2+k: channels + k, 1000+k: overlapping), class, seed
	void write(const Step &st)
	{
		int ch = model.spec.channels();
		int64_t num = std::min(std::max<int64_t>(st.a[0], 0), missing());
		int64_t mode = std::max<int64_t>(st.a[1], 0);
		int64_t stride = mode < 2 ? ch : ch + (mode - 2) % 40;
		if (mode >= 1000)
			stride = (mode - 1000) % ch;
		size_t limit = arena().capacity() / sizeof(TYPE);
		num = std::min<int64_t>(num, int64_t(limit / size_t(std::max<int64_t>(stride, ch))) - 1);
		size_t elems = num ? size_t(stride * (num - 1) + ch) : 0;
		TYPE *buf = (TYPE *)arena().get(elems * sizeof(TYPE), 0xbb); // small negative values in the gaps
		std::vector<uint8_t> used(elems);
		for (int64_t n = 0; n < num; ++n) {
			for (int c = 0; c < ch; ++c) {
				size_t at = size_t(stride * n + c);
				if (!used[at])
					buf[at] = TYPE(pixel_value(uint64_t(st.a[3]), n * ch + c, int(uint64_t(st.a[2]) % V_NUM), model.spec.maxval));
				used[at] = 1;
				model.val.push_back(buf[at]);
			}
		}
		if (mode == 0)
			static_cast<DSP::WritePEL<TYPE> *>(w.get())->write(buf, int(num)); // through the interface
		else if (mode == 1 && num & 1)
			w->write(buf, int(num));
		else
			w->write(buf, int(num), mode == 1 ? -1 : int(stride));
		ctx.log("wrote", num, stride);
		ctx.ticks += uint64_t(num);
	}
	bool op(const Step &st)
	{
		if (st.kind != OP_WRITE)
			return false;
		write(st);
		return true;
	}
	void rest()
	{
		while (missing() > 0)
			write(Step(OP_WRITE, missing(), 0, V_UNIT, 99));
	}
	void finish()
	{
		w.destroy();
		ctx.log("finished");
	}
};

template <typename TYPE>
static std::vector<TYPE> guarded_read(Ctx &ctx, DSP::ReadPNM<TYPE> &r, int64_t num, int64_t mode, int ch)
{
	int64_t stride = mode < 2 ? ch : ch + (mode - 2) % 40;
	size_t limit = arena().capacity() / sizeof(TYPE);
	num = std::min<int64_t>(std::max<int64_t>(num, 0), int64_t(limit / size_t(stride)) - 1);
	size_t elems = num ? size_t(stride * (num - 1) + ch) : 0;
	const uint8_t canary = 0x5b;
	TYPE *buf = (TYPE *)arena().get(elems * sizeof(TYPE), canary);
	if (mode <= 0)
		static_cast<DSP::ReadPEL<TYPE> &>(r).read(buf, int(num)); // through the interface
	else if (mode == 1 && num & 1)
		r.read(buf, int(num));
	else
		r.read(buf, int(num), mode == 1 ? -1 : int(stride));
	if (!arena().front_intact())
		ctx.fail("read-overflow", "read of %lld pixels wrote in front of the buffer", (long long)num);
	std::vector<TYPE> v;
	v.reserve(size_t(num * ch));
	TYPE untouched;
	memset(&untouched, canary, sizeof untouched);
	for (int64_t n = 0; n < num; ++n) {
		for (int c = 0; c < ch; ++c)
			v.push_back(buf[stride * n + c]);
		if (n + 1 < num)
			for (int64_t c = ch; c < stride; ++c)
				if (memcmp(&buf[stride * n + c], &untouched, sizeof untouched))
					ctx.fail("read-overflow", "read with stride %lld wrote between the pixels", (long long)stride);
	}
	ctx.ticks += uint64_t(num);
	return v;
}

static inline int64_t gen_mode(Rng &rng, bool overlap)
{
	if (overlap && rng.chance(1, 20))
		return 1000 + rng.range(0, 2);
	return rng.chance(1, 2) ? 0 : rng.chance(1, 4) ? 1 : 2 + rng.scale(0, 39);
}

static inline void gen_ops(Rng &rng, Plan &plan, int ops, const Spec &s)
{
	int mask = int(rng.range(1, (1 << V_NUM) - 1));
	for (int i = 0; i < ops; ++i) {
		int cls;
		do
			cls = int(rng.range(0, V_NUM - 1));
		while (!(mask & (1 << cls)));
		int64_t num = rng.chance(1, 10) ? 0 : rng.chance(1, 4) ? s.width : rng.scale(1, std::max<int64_t>(1, s.pixels() / 2));
		plan.steps.push_back(Step(OP_WRITE, num, gen_mode(rng, true), cls, int64_t(rng.next() & 0xffffff)));
	}
}

// process-wide locales another part of the program may have installed
struct Punct : std::numpunct<char>
{
	int style;
	explicit Punct(int style) : style(style) {}
	char do_thousands_sep() const override { return style == 1 ? ',' : style == 2 ? '.' : style == 3 ? ' ' : '\''; }
	std::string do_grouping() const override { return style == 3 ? "\1" : style == 4 ? "\2\3" : "\3"; }
	char do_decimal_point() const override { return ','; }
};

struct GlobalLocale
{
	explicit GlobalLocale(Ctx &ctx, int64_t style)
	{
		static std::locale made[5];
		static bool init = false;
		if (!init) {
			init = true;
			for (int i = 1; i < 5; ++i)
				made[i] = std::locale(std::locale::classic(), new Punct(i));
		}
		style %= 5;
		if (style > 0) {
			std::locale::global(made[style]);
			ctx.fault("global_locale_changed", style);
		}
	}
	~GlobalLocale() { std::locale::global(std::locale::classic()); }
};

enum { K_SHORT = 10, K_EINTR, K_ERR, K_CRASH };

static inline void gen_benign(Rng &rng, Plan &plan, int op, int64_t calls, int n)
{
	for (int i = 0; i < n; ++i) {
		if (rng.chance(1, 3))
			plan.steps.push_back(Step(K_EINTR, op, rng.range(0, calls)));
		else
			plan.steps.push_back(Step(K_SHORT, op, rng.range(0, calls), rng.chance(1, 2) ? rng.range(1, 8) : rng.scale(1, 8191)));
	}
}

static inline void install(const Plan &plan, const int64_t *total, bool hard)
{
	for (const Step &s : plan.steps) {
		if (s.kind < K_SHORT || s.kind > K_CRASH)
			continue;
		Fault f;
		f.op = int(s.a[0]);
		if (f.op < 0 || f.op >= S_NUM)
			continue;
		f.ord = s.a[1] >= 0 ? s.a[1] : total ? total[f.op] + s.a[1] : -1;
		f.n = s.a[2];
		f.err = s.a[3] == 1 ? ENOSPC : s.a[3] == 2 ? EACCES : EIO;
		f.sticky = s.a[4] != 0;
		f.kind = s.kind == K_SHORT ? F_SHORT : s.kind == K_EINTR ? F_EINTR : s.kind == K_ERR ? F_ERR : F_CRASH;
		if ((f.kind == F_ERR || f.kind == F_CRASH) && !hard)
			continue;
		if ((f.kind == F_SHORT || f.kind == F_EINTR) && f.op != S_READ && f.op != S_WRITE)
			continue;
		disk.faults.push_back(f);
	}
}

// reads pixel by pixel until not good
template <typename TYPE>
static void read_all(Ctx &ctx, const char *name, const std::vector<uint8_t> &truth, size_t data_at, const Spec &s, int64_t avail, bool exact, uint8_t pattern, const char *what)
{
	Slot<DSP::ReadPNM<TYPE>> r;
	r.create(pattern, name);
	if (!r->good())
		ctx.fail("reader-not-good", "%s: reader is not good on a readable file", what);
	if (r->width() != s.width || r->height() != s.height || r->mono() != s.mono)
		ctx.fail("reader-header", "%s: reader reports %d x %d %s", what, r->width(), r->height(), r->mono() ? "gray" : "colour");
	int ch = s.channels();
	int64_t n = 0;
	for (; n <= avail + 2; ++n) {
		std::vector<TYPE> v = guarded_read<TYPE>(ctx, *r, 1, 0, ch);
		if (!r->good())
			break;
		if (n >= avail) {
			if (exact)
				ctx.fail("read-past-end", "%s: pixel %lld delivered, only %lld stored", what, (long long)n, (long long)avail);
			break;
		}
		for (int c = 0; c < ch; ++c)
			if (!value_right(double(v[c]), truth[data_at + size_t(n * ch + c)], s))
				ctx.fail("wrong-pixel", "%s: pixel %lld channel %d: got %.9g for stored %d of %d", what, (long long)n, c, double(v[c]), truth[data_at + size_t(n * ch + c)], s.maxval);
	}
	if (n < avail)
		ctx.fail("pixels-lost", "%s: only %lld of %lld stored pixels delivered", what, (long long)n, (long long)avail);
	ctx.log("read_all", n);
	ctx.progress = ctx.progress || n > 0;
}

}
