/*
Recording model, independent WAV parser and checked reader/writer sessions for the WAV properties.
*/

#pragma once

#include "core.hh"
#include "disk.hh"
#include "guard.hh"
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <cmath>
#include <cstdint>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include "wav.hh"

namespace wav {

using namespace sim;

struct Spec
{
	int rate, bits, channels;
	int bytes() const { return bits == 8 ? 1 : bits == 16 ? 2 : 4; }
	int frame() const { return bytes() * channels; }
	int depth() const { return 8 * bytes(); }
};

static inline Spec spec_of(const Plan &plan, int first = 0)
{
	Spec s;
	s.rate = int(std::min<int64_t>(std::max<int64_t>(plan.p(first), 1), 1 << 30));
	s.bits = int(plan.p(first + 1));
	s.channels = int(std::min<int64_t>(std::max<int64_t>(plan.p(first + 2), 1), 8000));
	// the header's byte rate field has to be able to hold the product
	while (int64_t(s.rate) * s.frame() > 0x7fffffff)
		s.rate /= 2;
	return s;
}

static inline void spec_gen(Rng &rng, Plan &plan)
{
	static const int rates[] = { 8000, 11025, 16000, 22050, 32000, 44100, 48000, 96000, 192000, 1, 65536, 65535, 32768, 1000003 };
	static const int bits[] = { 8, 16, 32, 8, 16, 32, 0, 24, 1, 12 };
	int64_t ch = rng.chance(1, 20) ? rng.scale(1, 500) : rng.chance(1, 3) ? rng.range(1, 9) : rng.range(1, 2);
	plan.par.push_back(rng.chance(1, 6) ? rng.range(1, 400000) : rng.pick(rates));
	plan.par.push_back(rng.pick(bits));
	plan.par.push_back(ch);
}

// sample values by class; every class is a pure function of (seed, index)
enum { V_UNIT, V_LOUD, V_EDGE, V_TIES, V_TINY, V_RAMP, V_HUGE, V_ZERO, V_NUM };

static inline double sample_value(uint64_t seed, int64_t i, int cls, int bytes)
{
	uint64_t h = mix(seed, uint64_t(i) * 8 + uint64_t(cls));
	double u = double(h >> 11) / 9007199254740992.0; // [0, 1)
	double s = 2 * u - 1;
	double factor = bytes == 1 ? 127 : 32767;
	switch (cls) {
		case V_UNIT: return s;
		case V_LOUD: return 4 * s;
		case V_EDGE: {
			static const double e[] = { 0, -0.0, 1, -1, 128 / 127., -128 / 127., 129 / 127., -129 / 127., 32768 / 32767., -32768 / 32767., -32769 / 32767., 0.999999, -0.999999, 127 / 128., 1e-9, -1e-9 };
			return e[h % 16];
		}
		case V_TIES: return (std::floor(s * factor) + 0.5 + (double((h >> 5) % 3) - 1) * 0.02) / factor;
		case V_TINY: return s * std::ldexp(1., -int((h >> 3) % 140));
		case V_RAMP: return double(int64_t((uint64_t(i) + (seed & 65535)) % 65536) - 32768) / factor;
		case V_HUGE: {
			static const double e[] = { 1e30, -1e30, 3.4e38, -3.4e38, 65536, -65536, 1e9, -1e9, HUGE_VAL, -HUGE_VAL, 2147483648., -2147483649., 4294967296., -4294967296., 300, -300 };
			return e[h % 16];
		}
		default: return 0;
	}
}

// what has been recorded: interleaved sample values as handed over
template <typename TYPE>
struct Model
{
	Spec spec;
	std::vector<TYPE> val;
	std::vector<uint8_t> silent;
	int64_t frames() const { return int64_t(val.size()) / spec.channels; }
};

// a stored sample, decoded from the file by the oracle
struct Stored
{
	bool is_float;
	int level;
	uint32_t bits;
};

struct Parsed
{
	bool ok = false;
	const char *why = "";
	int64_t riff_size = 0, data_size = 0, data_at = 0;
	int format = 0, channels = 0, bits = 0, align = 0;
	int64_t rate = 0, byte_rate = 0;
	bool has_fact = false;
	int64_t fact = 0;
};

static inline uint32_t le(const std::vector<uint8_t> &f, size_t at, int n)
{
	uint32_t v = 0;
	for (int i = 0; i < n; ++i)
		v |= uint32_t(f[at + i]) << (8 * i);
	return v;
}

// generic RIFF/WAVE chunk walker; sizes may be unknown
static inline Parsed parse(const std::vector<uint8_t> &f)
{
	Parsed p;
	auto tag = [&](size_t at, const char *t) { return at + 4 <= f.size() && !memcmp(&f[at], t, 4); };
	if (!tag(0, "RIFF") || !tag(8, "WAVE") || f.size() < 12) {
		p.why = "no RIFF/WAVE signature";
		return p;
	}
	p.riff_size = int32_t(le(f, 4, 4));
	size_t at = 12;
	bool fmt = false;
	while (at + 8 <= f.size()) {
		int64_t size = int32_t(le(f, at + 4, 4));
		if (tag(at, "data")) {
			p.data_at = int64_t(at) + 8;
			p.data_size = size;
			if (!fmt) {
				p.why = "no format before data";
				return p;
			}
			p.ok = true;
			return p;
		}
		if (size < 0 || at + 8 + size_t(size) > f.size()) {
			p.why = "chunk runs past the end";
			return p;
		}
		if (tag(at, "fmt ") && size >= 16) {
			fmt = true;
			p.format = int(le(f, at + 8, 2));
			p.channels = int(le(f, at + 10, 2));
			p.rate = le(f, at + 12, 4);
			p.byte_rate = le(f, at + 16, 4);
			p.align = int(le(f, at + 20, 2));
			p.bits = int(le(f, at + 22, 2));
		} else if (tag(at, "fact") && size >= 4) {
			p.has_fact = true;
			p.fact = le(f, at + 8, 4);
		}
		at += 8 + size_t(size) + (size & 1);
	}
	p.why = "no data chunk";
	return p;
}

static inline Stored stored_at(const std::vector<uint8_t> &f, int64_t data_at, const Spec &s, int64_t idx)
{
	Stored r;
	size_t at = size_t(data_at + idx * s.bytes());
	r.is_float = s.bytes() == 4;
	r.bits = le(f, at, s.bytes());
	r.level = s.bytes() == 1 ? int(r.bits) : s.bytes() == 2 ? int(int16_t(r.bits)) : 0;
	return r;
}

template <typename TYPE>
static bool stored_right(const Stored &st, TYPE v, bool silent, const Spec &s)
{
	if (st.is_float) {
		float f = silent ? 0.f : float(v);
		uint32_t b;
		memcpy(&b, &f, 4);
		return b == st.bits;
	}
	double offset = s.bytes() == 1 ? 128 : 0, factor = s.bytes() == 1 ? 127 : 32767;
	double lo = s.bytes() == 1 ? 0 : -32768, hi = s.bytes() == 1 ? 255 : 32767;
	if (silent)
		return st.level == int(offset);
	double x = std::min(std::max(offset + factor * double(v), lo), hi);
	double tol = sizeof(TYPE) == 4 ? 0.506 : 0.500001;
	return std::fabs(st.level - x) <= tol;
}

// does a value delivered by the reader denote the stored sample?
template <typename TYPE>
static bool value_right(TYPE got, const Stored &st, const Spec &s)
{
	if (st.is_float) {
		float f;
		memcpy(&f, &st.bits, 4);
		TYPE t = TYPE(f);
		if (std::isnan(f))
			return std::isnan(got);
		return !memcmp(&t, &got, sizeof got);
	}
	double offset = s.bytes() == 1 ? 128 : 0, factor = s.bytes() == 1 ? 127 : 32767;
	double want = (st.level - offset) / factor;
	return std::fabs(double(got) - want) <= 4 * double(std::numeric_limits<TYPE>::epsilon()) && !(st.level == int(offset) && got != 0);
}

// the finished file against the model
template <typename TYPE>
static Parsed check_finished(Ctx &ctx, const std::vector<uint8_t> &f, const Model<TYPE> &m)
{
	Parsed p = parse(f);
	const Spec &s = m.spec;
	if (!p.ok)
		ctx.fail("file-format", "finished file is not a WAV file: %s (%zu bytes)", p.why, f.size());
	if (p.format != (s.bytes() == 4 ? 3 : 1) || p.channels != s.channels || p.rate != s.rate || p.bits != s.depth() || p.align != s.frame() || p.byte_rate != int64_t(s.rate) * s.frame())
		ctx.fail("file-format", "header says format %d channels %d rate %lld bits %d align %d byte rate %lld, recorded rate %d bits %d channels %d", p.format, p.channels, (long long)p.rate, p.bits, p.align, (long long)p.byte_rate, s.rate, s.bits, s.channels);
	int64_t bytes = m.frames() * s.frame();
	if (p.data_size != bytes)
		ctx.fail("file-sizes", "data size field says %lld, recorded %lld bytes", (long long)p.data_size, (long long)bytes);
	if (p.riff_size != p.data_at + bytes - 8)
		ctx.fail("file-sizes", "RIFF size field says %lld, file has %lld bytes", (long long)p.riff_size, (long long)(p.data_at + bytes));
	if (p.has_fact && p.fact != m.frames())
		ctx.fail("file-sizes", "fact chunk says %lld frames, recorded %lld", (long long)p.fact, (long long)m.frames());
	if (int64_t(f.size()) < p.data_at + bytes)
		ctx.fail("data-lost", "file ends %lld bytes early", (long long)(p.data_at + bytes - int64_t(f.size())));
	if (int64_t(f.size()) > p.data_at + bytes + (bytes & 1))
		ctx.fail("data-extra", "%lld bytes after the last frame", (long long)(int64_t(f.size()) - p.data_at - bytes));
	for (int64_t i = 0; i < int64_t(m.val.size()); ++i) {
		Stored st = stored_at(f, p.data_at, s, i);
		if (!stored_right(st, m.val[i], m.silent[i], s))
			ctx.fail("stored-sample", "frame %lld channel %lld: stored %s %d (0x%x) for %s %.9g", (long long)(i / s.channels), (long long)(i % s.channels), st.is_float ? "float" : "level", st.level, st.bits, m.silent[i] ? "silence" : "value", double(m.val[i]));
	}
	return p;
}

// every task has a buffer of its own
static int (*arena_of)() = nullptr;
static inline Guarded &arena()
{
	static std::map<int, std::unique_ptr<Guarded>> g;
	std::unique_ptr<Guarded> &p = g[arena_of ? arena_of() : -1];
	if (!p)
		p.reset(new Guarded(1 << 24));
	return *p;
}

enum { OP_WRITE, OP_SILENCE };

// one recording session on the code under test
template <typename TYPE>
struct Session
{
	Ctx &ctx;
	Slot<DSP::WriteWAV<TYPE>> w;
	Model<TYPE> model;
	Session(Ctx &ctx, const Spec &spec) : ctx(ctx) { model.spec = spec; }
	void open(const char *name, uint8_t pattern)
	{
		w.create(pattern, name, model.spec.rate, model.spec.bits, model.spec.channels);
		ctx.log("writer", model.spec.rate, model.spec.bits, model.spec.channels);
		if (w->rate() != model.spec.rate || w->channels() != model.spec.channels)
			ctx.fail("writer-accessors", "writer reports rate %d channels %d instead of %d %d", w->rate(), w->channels(), model.spec.rate, model.spec.channels);
	}
	// a: frames, stride (0: default argument, 1: explicit -1, 2+k: channels + k), value class, seed
	void write(const Step &st, int64_t max_frames = 1 << 20)
	{
		int ch = model.spec.channels;
		int64_t num = std::min(std::max<int64_t>(st.a[0], 0), max_frames);
		int64_t mode = std::max<int64_t>(st.a[1], 0);
		int64_t stride = mode < 2 ? ch : ch + (mode - 2) % 40;
		if (mode >= 1000)
			stride = (mode - 1000) % ch; // overlapping frames
		size_t limit = arena().capacity() / sizeof(TYPE);
		num = std::min<int64_t>(num, int64_t(limit / size_t(std::max<int64_t>(stride, ch))) - 1);
		size_t elems = num ? size_t(stride * (num - 1) + ch) : 0;
		TYPE *buf = (TYPE *)arena().get(elems * sizeof(TYPE), 0x7e); // 0x7e7e...: huge values in the gaps
		std::vector<uint8_t> used(elems);
		for (int64_t n = 0; n < num; ++n) {
			for (int c = 0; c < ch; ++c) {
				size_t at = size_t(stride * n + c);
				if (!used[at])
					buf[at] = TYPE(sample_value(uint64_t(st.a[3]), n * ch + c, int(st.a[2]) % V_NUM, model.spec.bytes()));
				used[at] = 1;
				model.val.push_back(buf[at]);
				model.silent.push_back(0);
			}
		}
		if (mode == 0)
			static_cast<DSP::WritePCM<TYPE> *>(w.get())->write(buf, int(num)); // through the interface
		else if (mode == 1 && num & 1)
			w->write(buf, int(num));
		else
			w->write(buf, int(num), mode == 1 ? -1 : int(stride));
		ctx.log("wrote", num, stride);
		ctx.ticks += uint64_t(num);
	}
	void silence(const Step &st, int64_t max_samples = 1 << 25)
	{
		int64_t num = std::min(std::max<int64_t>(st.a[0], 0), max_samples / model.spec.channels);
		model.val.insert(model.val.end(), size_t(num * model.spec.channels), TYPE(0));
		model.silent.insert(model.silent.end(), size_t(num * model.spec.channels), 1);
		w->silence(int(num));
		ctx.log("silence", num);
		ctx.ticks += uint64_t(num);
	}
	bool op(const Step &st)
	{
		if (st.kind == OP_WRITE)
			write(st);
		else if (st.kind == OP_SILENCE)
			silence(st);
		else
			return false;
		return true;
	}
	void finish()
	{
		w.destroy();
		ctx.log("finished");
	}
};

// one checked read call; returns the values (frame-major), checks the surroundings of the buffer
template <typename TYPE, typename READER>
static std::vector<TYPE> guarded_read(Ctx &ctx, READER &r, int64_t num, int64_t mode, int ch)
{
	int64_t stride = mode < 2 ? ch : ch + (mode - 2) % 40;
	size_t limit = arena().capacity() / sizeof(TYPE);
	num = std::min<int64_t>(std::max<int64_t>(num, 0), int64_t(limit / size_t(stride)) - 1);
	size_t elems = num ? size_t(stride * (num - 1) + ch) : 0;
	const uint8_t canary = 0x5b;
	TYPE *buf = (TYPE *)arena().get(elems * sizeof(TYPE), canary);
	if (mode <= 0)
		static_cast<DSP::ReadPCM<TYPE> &>(r).read(buf, int(num)); // through the interface
	else if (mode == 1 && num & 1)
		r.read(buf, int(num));
	else
		r.read(buf, int(num), mode == 1 ? -1 : int(stride));
	if (!arena().front_intact())
		ctx.fail("read-overflow", "read of %lld frames wrote in front of the buffer", (long long)num);
	std::vector<TYPE> v;
	v.reserve(size_t(num * ch));
	TYPE untouched;
	memset(&untouched, canary, sizeof untouched);
	for (int64_t n = 0; n < num; ++n) {
		for (int c = 0; c < ch; ++c)
			v.push_back(buf[stride * n + c]);
		if (n + 1 < num)
			for (int64_t c = ch; c < stride; ++c)
				if (memcmp(&buf[stride * n + c], &untouched, sizeof untouched))
					ctx.fail("read-overflow", "read with stride %lld wrote between the frames", (long long)stride);
	}
	ctx.ticks += uint64_t(num);
	return v;
}

template <typename READER>
static void check_format(Ctx &ctx, READER &r, const Spec &s)
{
	if (r.rate() != s.rate || r.channels() != s.channels || r.bits() != s.depth())
		ctx.fail("reader-format", "reader reports rate %d channels %d bits %d, recorded %d %d %d", r.rate(), r.channels(), r.bits(), s.rate, s.channels, s.depth());
}

// reads frame by frame in small blocks until not good; every block delivered while good must be the stored frames
template <typename TYPE>
static int64_t read_all(Ctx &ctx, const char *name, const std::vector<uint8_t> &truth, int64_t data_at, const Spec &s, int64_t avail, int64_t frames_lo, int64_t frames_hi, bool exact, uint8_t pattern, const char *what)
{
	Slot<DSP::ReadWAV<TYPE>> r;
	r.create(pattern, name);
	if (!r->good())
		ctx.fail("reader-not-good", "%s: reader is not good on a readable file", what);
	check_format(ctx, *r, s);
	int64_t fr = r->frames();
	if (fr != frames_lo && fr != frames_hi)
		ctx.fail("reader-frames", "%s: reader reports %lld frames instead of %lld%s", what, (long long)fr, (long long)frames_hi, frames_lo != frames_hi ? " (or -1)" : "");
	int64_t n = 0;
	for (; n <= avail + 2; ++n) {
		std::vector<TYPE> v = guarded_read<TYPE>(ctx, *r, 1, 0, s.channels);
		if (!r->good())
			break;
		if (n >= avail) {
			if (exact)
				ctx.fail("read-past-end", "%s: frame %lld delivered, only %lld stored", what, (long long)n, (long long)avail);
			break;
		}
		for (int c = 0; c < s.channels; ++c) {
			Stored st = stored_at(truth, data_at, s, n * s.channels + c);
			if (!value_right(v[c], st, s))
				ctx.fail("wrong-sample", "%s: frame %lld channel %d: got %.9g for stored %d (0x%x)", what, (long long)n, c, double(v[c]), st.level, st.bits);
		}
	}
	if (n < avail)
		ctx.fail("frames-lost", "%s: only %lld of %lld stored frames delivered", what, (long long)n, (long long)avail);
	ctx.log("read_all", n, fr);
	ctx.progress = ctx.progress || n > 0;
	return n;
}

// ---------------------------------------------------------------- plan generation shared by the WAV scenarios

enum { K_SHORT = 10, K_EINTR, K_ERR, K_CRASH };

static inline int64_t gen_mode(Rng &rng, bool overlap)
{
	if (overlap && rng.chance(1, 20))
		return 1000 + rng.range(0, 7);
	return rng.chance(1, 2) ? 0 : rng.chance(1, 4) ? 1 : 2 + rng.scale(0, 39);
}

static inline void gen_ops(Rng &rng, Plan &plan, int ops, int64_t big, bool overlap = true)
{
	// swarm: one execution uses a subset of value classes
	int mask = int(rng.range(1, (1 << V_NUM) - 1));
	for (int i = 0; i < ops; ++i) {
		int64_t num = rng.chance(1, 8) ? 0 : rng.scale(1, big);
		if (rng.chance(1, 4)) {
			plan.steps.push_back(Step(OP_SILENCE, num));
		} else {
			int cls;
			do
				cls = int(rng.range(0, V_NUM - 1));
			while (!(mask & (1 << cls)));
			plan.steps.push_back(Step(OP_WRITE, num, gen_mode(rng, overlap), cls, int64_t(rng.next() & 0xffffff)));
		}
	}
}

static inline int64_t frames_in(const Plan &plan)
{
	int64_t n = 0;
	for (const Step &s : plan.steps)
		if (s.kind == OP_WRITE || s.kind == OP_SILENCE)
			n += s.a[0];
	return n;
}

// split and interrupted system calls, which nobody may notice
static inline void gen_benign(Rng &rng, Plan &plan, int op, int64_t calls, int n)
{
	for (int i = 0; i < n; ++i) {
		if (rng.chance(1, 3))
			plan.steps.push_back(Step(K_EINTR, op, rng.range(0, calls)));
		else
			plan.steps.push_back(Step(K_SHORT, op, rng.range(0, calls), rng.chance(1, 2) ? rng.range(1, 8) : rng.scale(1, 8191)));
	}
}

// installs the planned faults; negative ordinals count from the end of a run with total calls
static inline void install(const Plan &plan, const int64_t *total, bool hard)
{
	for (const Step &s : plan.steps) {
		if (s.kind < K_SHORT || s.kind > K_CRASH)
			continue;
		Fault f;
		f.op = int(s.a[0]);
		if (f.op < 0 || f.op >= S_NUM)
			continue;
		f.ord = s.a[1] >= 0 ? s.a[1] : total ? total[f.op] + s.a[1] : -1;
		f.n = s.a[2];
		f.err = s.a[3] == 1 ? ENOSPC : s.a[3] == 2 ? EACCES : EIO;
		f.sticky = s.a[4] != 0;
		f.kind = s.kind == K_SHORT ? F_SHORT : s.kind == K_EINTR ? F_EINTR : s.kind == K_ERR ? F_ERR : F_CRASH;
		if ((f.kind == F_ERR || f.kind == F_CRASH) && !hard)
			continue;
		if ((f.kind == F_SHORT || f.kind == F_EINTR) && f.op != S_READ && f.op != S_WRITE)
			continue;
		disk.faults.push_back(f);
	}
}

}
