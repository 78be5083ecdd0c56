/*
Block transforms of many sizes behind one interface. The sizes are compiled in several translation
units (c27_sizes.cc with a different BANK each), because large radices take long to compile.
*/

#pragma once

#include "core.hh"
#include <complex>

namespace sim {

typedef std::complex<double> Z;

struct Transform
{
	const char *type;
	int size;
	double eps;
	Transform(const char *type, int size, double eps) : type(type), size(size), eps(eps) {}
	virtual ~Transform() {}
	// buffers for one block, rounded to the type of the transform; false if anything but out was written
	virtual bool forward(std::vector<Z> &out, const std::vector<Z> &in) = 0;
	virtual bool inverse(std::vector<Z> &out, const std::vector<Z> &in) = 0;
	virtual bool half(std::vector<Z> &out, const std::vector<double> &in) = 0; // even sizes
	virtual Z rounded(Z) = 0;
	virtual Transform *copy() const = 0;
	virtual void assign(const Transform &) = 0;
};

struct Padder
{
	const char *type;
	int in, out;
	double eps;
	Padder(const char *type, int in, int out, double eps) : type(type), in(in), out(out), eps(eps) {}
	virtual ~Padder() {}
	virtual bool operator () (std::vector<Z> &out, const std::vector<Z> &in) = 0;
	virtual Z rounded(Z) = 0;
	virtual Padder *copy() const = 0;
	virtual void assign(const Padder &) = 0;
};

struct TransformEntry { int size; Transform *(*make)(uint8_t pattern); };
struct PadderEntry { int in, out; Padder *(*make)(uint8_t pattern); };
std::vector<TransformEntry> &transforms();
std::vector<PadderEntry> &padders();
extern int add_bank0, add_bank1, add_bank2, add_bank3, add_bank4, add_bank5;

}
