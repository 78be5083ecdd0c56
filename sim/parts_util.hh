// common to the files that wrap the library's components
#pragma once

#include "prelude.hh"


// not next to complex.hh, whose abs() would hide the one for plain numbers
#include "sma.hh"
#include "coeffs.hh"
#include "complex.hh"
#include "const.hh"
#include "utils.hh"
#include "unit_circle.hh"

#include "parts.hh"

namespace sim {

template <typename V> struct To { static V get(In &in) { return V(in.real() * 1000); } };
template <> struct To<float> { static float get(In &in) { return float(in.real()); } };
template <> struct To<double> { static double get(In &in) { return in.real(); } };
template <typename R> struct To<DSP::Complex<R>>
{
	static DSP::Complex<R> get(In &in) { R re = R(in.real()); R im = R(in.real()); return DSP::Complex<R>(re, im); }
};
template <typename R> struct To<std::complex<R>>
{
	static std::complex<R> get(In &in) { R re = R(in.real()); R im = R(in.real()); return std::complex<R>(re, im); }
};

template <typename V> static inline void put(Out &out, V v) { out.put(double(v)); }
template <typename R> static inline void put(Out &out, DSP::Complex<R> v) { out.put(double(v.real())); out.put(double(v.imag())); }
template <typename R> static inline void put(Out &out, std::complex<R> v) { out.put(double(v.real())); out.put(double(v.imag())); }

// default construction and x -> y
template <typename OBJ, typename X>
struct Plain
{
	typedef OBJ T;
	static void make(void *p, In &) { new (p) T; }
	static void op(T &o, In &in, Out &out) { put(out, o(To<X>::get(in))); }
};

#define CAT2(A, B) A ## B
#define CAT(A, B) CAT2(A, B)
#define ADD(GROUP, NAME, ...) static Adder CAT(add_, __COUNTER__)(Info { NAME, GROUP, sizeof(Comp<__VA_ARGS__>), Comp<__VA_ARGS__>::make });

typedef DSP::Complex<float> cf;
typedef DSP::Complex<double> cd;

}
