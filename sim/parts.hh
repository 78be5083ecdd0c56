/*
The library's components behind one interface, for the scenarios that treat all of them alike.
An operation is a function of the object's state and of the words drawn from In; everything it returns
goes to Out.
*/

#pragma once

#include "core.hh"
#include "guard.hh"
#include <cstddef>

namespace sim {

struct In
{
	Rng rng;
	int style;
	const double *given = nullptr; // samples to use instead of drawn ones
	int left = 0;
	bool faulty = false; // a failed measurement was drawn
	explicit In(uint64_t seed, int style = 0) : rng(seed), style(style) {}
	double real();
	double unit(); // in [-1, 1]
	int64_t integer(int64_t lo, int64_t hi);
	bool retune(); // whether this operation changes the configuration
};

struct Out
{
	uint64_t hash = 0xcbf29ce484222325ull;
	int n = 0;
	double v[8];
	void word(uint64_t w);
	void put(double d);
	void bad(const char *what); // operation damaged what it must not touch
	const char *damage = nullptr;
};

// G_STREAM: samples in, samples out; G_STORE: containers; G_CALL: result depends on construction and
// arguments only; G_FUNC: no object; G_FILE: uses a simulated file
enum { G_STREAM, G_STORE, G_CALL, G_FUNC, G_FILE };

struct Part
{
	virtual ~Part() {}
	virtual void op(In &, Out &) = 0;
	virtual void copy_to(void *mem) const = 0;
	virtual void assign(const Part &) = 0;
};

struct Info
{
	const char *name;
	int group;
	size_t size;
	void (*make)(void *mem, In &cfg);
};

const std::vector<Info> &parts();
void add_part(const Info &);

template <typename OPS, bool COPY = true>
struct Comp : Part
{
	typedef typename OPS::T T;
	alignas(T) unsigned char mem[sizeof(T)];
	T &obj() { return *reinterpret_cast<T *>(mem); }
	const T &obj() const { return *reinterpret_cast<const T *>(mem); }
	explicit Comp(In &cfg) { OPS::make(mem, cfg); }
	Comp(const Comp &o, int) { new (mem) T(o.obj()); }
	~Comp() { obj().~T(); }
	__attribute__((noinline)) void op(In &in, Out &out) override { OPS::op(obj(), in, out); }
	__attribute__((noinline)) void copy_to(void *p) const override { new (p) Comp(*this, 0); }
	__attribute__((noinline)) void assign(const Part &o) override { obj() = static_cast<const Comp &>(o).obj(); }
	static void make(void *p, In &cfg) { new (p) Comp(cfg); }
};

template <typename OPS>
struct Comp<OPS, false> : Part
{
	typedef typename OPS::T T;
	alignas(T) unsigned char mem[sizeof(T)];
	T &obj() { return *reinterpret_cast<T *>(mem); }
	explicit Comp(In &cfg) { OPS::make(mem, cfg); }
	~Comp() { obj().~T(); }
	__attribute__((noinline)) void op(In &in, Out &out) override { OPS::op(obj(), in, out); }
	void copy_to(void *) const override { abort(); }
	void assign(const Part &) override { abort(); }
	static void make(void *p, In &cfg) { new (p) Comp(cfg); }
};

struct Adder
{
	Adder(const Info &i) { add_part(i); }
};

// owns the memory of one component, filled with a pattern before construction
class PartBox
{
	void *mem = nullptr;
	Part *part = nullptr;
	size_t size = 0;
	void fresh(const Info &info, uint8_t pattern)
	{
		destroy();
		size = info.size;
		if (posix_memalign(&mem, 64, size))
			abort();
		memset(mem, pattern, size);
		__asm__ volatile("" : : "r"(mem) : "memory");
		scribble_stack(pattern);
	}
public:
	PartBox() = default;
	PartBox(const PartBox &) = delete;
	PartBox(PartBox &&o) : mem(o.mem), part(o.part), size(o.size) { o.mem = nullptr; o.part = nullptr; }
	~PartBox() { destroy(); }
	void create(const Info &info, uint64_t cfg, uint8_t pattern)
	{
		fresh(info, pattern);
		In in(cfg);
		info.make(mem, in);
		part = static_cast<Part *>(mem);
	}
	void copy(const Info &info, const PartBox &from, uint8_t pattern)
	{
		fresh(info, pattern);
		from.part->copy_to(mem);
		part = static_cast<Part *>(mem);
	}
	// the memory is scribbled over and given back, so that nobody profits from what was in it
	void destroy()
	{
		if (part) {
			Part *p = part;
			part = nullptr;
			p->~Part();
		}
		if (mem) {
			memset(mem, 0xd5, size);
			__asm__ volatile("" : : "r"(mem) : "memory");
			free(mem);
			mem = nullptr;
		}
	}
	Part *operator -> () { return part; }
	Part &operator * () { return *part; }
	const Part &operator * () const { return *part; }
	bool alive() const { return part != nullptr; }
};

}
