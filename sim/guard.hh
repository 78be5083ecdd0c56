/*
Places for objects and buffers of the code under test: uninitialised memory has planned content, and
buffers end at an inaccessible page with a canary in front.
*/

#pragma once

#include "core.hh"
#include <cstdlib>
#include <new>
#include <utility>
#include <sys/mman.h>

namespace sim {

template <typename OBJ>
class Slot
{
	// the object may not reach beyond its ends
	static constexpr size_t EDGE = alignof(OBJ) > 64 ? alignof(OBJ) : 64;
	alignas(OBJ) unsigned char mem[EDGE + sizeof(OBJ) + EDGE];
	OBJ *obj = nullptr;
	uint64_t canary = 0;
	OBJ *checked() const
	{
		if (obj) {
			uint64_t front, back;
			memcpy(&front, mem + EDGE - sizeof front, sizeof front);
			memcpy(&back, mem + EDGE + sizeof(OBJ), sizeof back);
			if (front != canary || back != canary)
				throw Violation { "writes-elsewhere", "an object changed memory next to it" };
		}
		return obj;
	}
public:
	Slot() = default;
	Slot(const Slot &) = delete;
	~Slot() { destroy(); }
	template <typename ... ARGS>
	OBJ &create(uint8_t pattern, ARGS && ... args)
	{
		destroy();
		memset(mem, pattern, sizeof mem);
		memset(&canary, pattern, sizeof canary);
		__asm__ volatile("" : : "r"(mem) : "memory");
		scribble_stack(pattern);
		if constexpr (sizeof...(args))
			obj = new (mem + EDGE) OBJ(std::forward<ARGS>(args)...);
		else
			obj = new (mem + EDGE) OBJ; // not zeroed first, as for an ordinary variable
		return *obj;
	}
	void destroy()
	{
		if (obj) {
			OBJ *o = obj;
			obj = nullptr;
			o->~OBJ();
		}
	}
	OBJ *get() { return checked(); }
	OBJ *operator -> () { return checked(); }
	OBJ &operator * () { return *checked(); }
};

// a buffer whose last byte is the last accessible one
class Guarded
{
	char *base = nullptr;
	size_t cap = 0, page = 4096;
	char *cur = nullptr;
	size_t len = 0;
	uint8_t fill = 0;
public:
	explicit Guarded(size_t capacity = 1 << 22)
	{
		cap = (capacity + page - 1) / page * page;
		base = (char *)mmap(nullptr, cap + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (base == MAP_FAILED || mprotect(base + page, cap, PROT_READ | PROT_WRITE))
			abort();
	}
	Guarded(const Guarded &) = delete;
	~Guarded() { munmap(base, cap + 2 * page); }
	size_t capacity() const { return cap - 256; }
	void *get(size_t bytes, uint8_t pattern)
	{
		if (bytes > capacity())
			abort();
		len = bytes;
		fill = pattern;
		cur = base + page + cap - bytes;
		memset(cur - 256 < base + page ? base + page : cur - 256, pattern, bytes + 256);
		return cur;
	}
	// memory in front of the buffer untouched
	bool front_intact() const
	{
		for (int i = 1; i <= 256; ++i)
			if (uint8_t(cur[-i]) != fill)
				return false;
		return true;
	}
};

}
