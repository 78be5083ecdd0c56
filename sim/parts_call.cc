// transforms, estimators, splines, design functions and plain functions
#include "parts_util.hh"
#include "fft.hh"
#include "fdzp.hh"
#include "resampler.hh"
#include "theil_sen.hh"
#include "repeated_median.hh"
#include "regression.hh"
#include "spline.hh"
#include "filter.hh"
#include "window.hh"
#include "quick.hh"
#include "kahan.hh"
#include "cordic.hh"
#include "atan2.hh"
#include "exp.hh"
#include "decibel.hh"
#include "pcm.hh"

namespace sim {

// arguments of a call; some blocks are failed measurements
template <typename V>
static void block(V *a, int n, In &in)
{
	int fault = int(in.integer(0, 7));
	for (int i = 0; i < n; ++i)
		a[i] = To<V>::get(in);
	typedef decltype(std::real(std::complex<double>(0))) D;
	D inf = std::numeric_limits<D>::infinity();
	in.faulty = fault < 3;
	if (fault == 0 && n)
		for (int k = int(in.integer(1, 4)); k > 0; --k)
			a[in.integer(0, n - 1)] = V(float(in.integer(0, 1) ? inf : -inf));
	if (fault == 1)
		for (int i = 0; i < n; ++i)
			a[i] = V(float(inf));
	if (fault == 2)
		for (int i = 0; i < n; ++i)
			a[i] = V(float(0));
}

template <typename V>
static bool differ(const V *a, const V *b, int n)
{
	return n > 0 && memcmp(a, b, sizeof(V) * size_t(n));
}

template <int BINS, typename C, int SIGN>
struct FftOps
{
	typedef DSP::FastFourierTransform<BINS, C, SIGN> T;
	static void make(void *p, In &) { new (p) T; }
	static void op(T &o, In &in, Out &out)
	{
		C x[BINS], k[BINS], y[BINS];
		block(x, BINS, in);
		for (int i = 0; i < BINS; ++i)
			k[i] = x[i];
		o(y, x);
		for (int i = 0; i < BINS; ++i)
			put(out, y[i]);
		if (differ(x, k, BINS))
			out.bad("input");
	}
};
ADD(G_CALL, "fft<2>", FftOps<2, cf, -1>)
ADD(G_CALL, "fft<3>", FftOps<3, cd, 1>)
ADD(G_CALL, "fft<16>", FftOps<16, cf, 1>)
ADD(G_CALL, "fft<20>", FftOps<20, cd, -1>)
ADD(G_CALL, "fft<36>", FftOps<36, cf, -1>)
ADD(G_CALL, "fft<49>", FftOps<49, cf, -1>)
ADD(G_CALL, "fft<64>", FftOps<64, cd, -1>)
ADD(G_CALL, "fft<22>", FftOps<22, cf, 1>)
ADD(G_CALL, "fft<26>", FftOps<26, cf, -1>)
ADD(G_CALL, "fft<34>", FftOps<34, cf, -1>)
ADD(G_CALL, "fft<38>", FftOps<38, cf, 1>)
ADD(G_CALL, "fft<46>", FftOps<46, cf, -1>)
ADD(G_CALL, "fft<58>", FftOps<58, cf, -1>)
ADD(G_CALL, "fft<62>", FftOps<62, cf, 1>)

template <int BINS, typename C, typename V>
struct RfftOps
{
	typedef DSP::RealToHalfComplexTransform<BINS, C> T;
	static void make(void *p, In &) { new (p) T; }
	static void op(T &o, In &in, Out &out)
	{
		alignas(16) V x[BINS];
		V k[BINS];
		C y[BINS / 2 + 1];
		block(x, BINS, in);
		memcpy(k, x, sizeof x);
		o(y, x);
		for (int i = 0; i <= BINS / 2; ++i)
			put(out, y[i]);
		if (differ(x, k, BINS))
			out.bad("input");
	}
};
ADD(G_CALL, "rfft<8>", RfftOps<8, cf, float>)
ADD(G_CALL, "rfft<30>", RfftOps<30, cd, double>)
ADD(G_CALL, "rfft<64>", RfftOps<64, cf, float>)

template <int OUTPUT, int INPUT, typename C>
struct FdzpOps
{
	typedef DSP::FDZP<OUTPUT, INPUT, C> T;
	static void make(void *p, In &) { new (p) T; }
	static void op(T &o, In &in, Out &out)
	{
		C x[INPUT], k[INPUT], y[OUTPUT];
		block(x, INPUT, in);
		for (int i = 0; i < INPUT; ++i)
			k[i] = x[i];
		o(y, x);
		for (int i = 0; i < OUTPUT; ++i)
			put(out, y[i]);
		if (differ(x, k, INPUT))
			out.bad("input");
	}
};
ADD(G_CALL, "fdzp<16,4>", FdzpOps<16, 4, cf>)
ADD(G_CALL, "fdzp<24,8>", FdzpOps<24, 8, cd>)
ADD(G_CALL, "fdzp<40,10>", FdzpOps<40, 10, cf>)
ADD(G_CALL, "fdzp<21,7>", FdzpOps<21, 7, cf>)
ADD(G_CALL, "fdzp<70,10>", FdzpOps<70, 10, cf>)
ADD(G_CALL, "fdzp<45,5>", FdzpOps<45, 5, cd>)
ADD(G_CALL, "fdzp<7,6>", FdzpOps<7, 6, cf>)

template <typename V, typename IO, int TAPS, int OVER>
struct BlockResOps
{
	typedef DSP::Resampler<V, TAPS, OVER> T;
	static void make(void *p, In &in) { new (p) T(V(8000), V(in.integer(1000, 3900)), V(2)); }
	static void op(T &o, In &in, Out &out)
	{
		enum { MAX = 96 };
		IO x[MAX], k[MAX], y[MAX];
		int stride = int(in.integer(1, 2));
		int n = int(in.integer(TAPS, MAX / 2));
		V diff = V(in.unit() * 50);
		block(x, MAX, in);
		for (int i = 0; i < MAX; ++i) {
			k[i] = x[i];
			y[i] = IO(7);
		}
		o(y, x, diff, n, stride);
		for (int i = 0; i < MAX; ++i)
			put(out, y[i]);
		if (differ(x, k, MAX))
			out.bad("input");
	}
};
ADD(G_CALL, "resampler<float,8,4>", BlockResOps<float, float, 8, 4>)
ADD(G_CALL, "resampler<double,complex,5,8>", BlockResOps<double, cd, 5, 8>)

template <typename OBJ, typename V, int MAX>
struct EstOps
{
	typedef OBJ T;
	static void make(void *p, In &) { new (p) T; }
	static void op(T &o, In &in, Out &out)
	{
		V x[MAX], y[MAX], kx[MAX], ky[MAX];
		int n = int(in.integer(2, MAX));
		int order = int(in.integer(0, 2));
		for (int i = 0; i < MAX; ++i)
			x[i] = V(order == 0 ? i : order == 1 ? MAX - i : (i * 7) % MAX) + V(in.integer(0, 1)) / V(4);
		block(y, MAX, in);
		memcpy(kx, x, sizeof x);
		memcpy(ky, y, sizeof y);
		o.compute(x, y, n);
		put(out, o.slope());
		put(out, o.yint());
		put(out, o.xint());
		put(out, o(V(in.unit())));
		if (differ(x, kx, MAX) || differ(y, ky, MAX))
			out.bad("input");
	}
};
ADD(G_CALL, "theilsen<float,12>", EstOps<DSP::TheilSenEstimator<float, 12>, float, 12>)
ADD(G_CALL, "theilsen<double,40>", EstOps<DSP::TheilSenEstimator<double, 40>, double, 40>)
ADD(G_CALL, "repeatedmedian<float,9>", EstOps<DSP::RepeatedMedianEstimator<float, 9>, float, 9>)
ADD(G_CALL, "repeatedmedian<double,37>", EstOps<DSP::RepeatedMedianEstimator<double, 37>, double, 37>)
ADD(G_CALL, "repeatedmedian2<float,10>", EstOps<DSP::RepeatedMedianEstimator2<float, 10>, float, 10>)
ADD(G_CALL, "repeatedmedian2<double,41>", EstOps<DSP::RepeatedMedianEstimator2<double, 41>, double, 41>)

template <typename V, int KNOTS>
struct SplineOps
{
	typedef DSP::UniformNaturalCubicSpline<KNOTS, V, double> T;
	static void make(void *p, In &in)
	{
		V y[2 * KNOTS];
		for (int i = 0; i < 2 * KNOTS; ++i)
			y[i] = To<V>::get(in);
		new (p) T(y, in.unit(), 0.5, int(in.integer(1, 2)));
	}
	static void op(T &o, In &in, Out &out)
	{
		double x = in.unit() * KNOTS;
		put(out, o(x));
	}
};
ADD(G_CALL, "spline<double,4>", SplineOps<double, 4>)
ADD(G_CALL, "spline<complex,9>", SplineOps<cd, 9>)

struct RegressionOps
{
	typedef DSP::SimpleLinearRegression<float> T;
	static void make(void *p, In &in)
	{
		float x[10], y[10];
		for (int i = 0; i < 10; ++i) {
			x[i] = float(i) + float(in.unit()) / 4;
			y[i] = To<float>::get(in);
		}
		if (in.integer(0, 1))
			new (p) T(x, y, 10);
		else
			new (p) T(y, 10, 1, 2);
	}
	static void op(T &o, In &in, Out &out)
	{
		put(out, o(float(in.unit())));
		put(out, o.slope());
		put(out, o.yint());
		put(out, o.xint());
	}
};
ADD(G_CALL, "regression<float>", RegressionOps)

template <typename OBJ, int ARGS>
struct ShapeOps
{
	typedef OBJ T;
	template <int N> static typename std::enable_if<N == 0, T *>::type build(void *p, In &) { return new (p) T; }
	template <int N> static typename std::enable_if<N == 1, T *>::type build(void *p, In &in) { return new (p) T(float(in.integer(1, 4)) / 8); }
	template <int N> static typename std::enable_if<N == 2, T *>::type build(void *p, In &in)
	{
		int den = int(in.integer(4, 40));
		return new (p) T(int(in.integer(1, den / 2)), den);
	}
	template <int N> static typename std::enable_if<N == 3, T *>::type build(void *p, In &in)
	{
		float a = float(in.integer(1, 8)) / 40;
		return new (p) T(a, a + float(in.integer(1, 8)) / 40);
	}
	static void make(void *p, In &in) { build<ARGS>(p, in); }
	static void op(T &o, In &in, Out &out)
	{
		int N = int(in.integer(2, 60));
		put(out, o(int(in.integer(0, N - 1)), N));
	}
};
ADD(G_CALL, "window.rect", ShapeOps<DSP::Rect<float>, 0>)
ADD(G_CALL, "window.hann", ShapeOps<DSP::Hann<float>, 0>)
ADD(G_CALL, "window.hamming", ShapeOps<DSP::Hamming<float>, 0>)
ADD(G_CALL, "window.lanczos", ShapeOps<DSP::Lanczos<float>, 0>)
ADD(G_CALL, "window.blackman", ShapeOps<DSP::Blackman<float>, 1>)
ADD(G_CALL, "window.gauss", ShapeOps<DSP::Gauss<float>, 1>)
ADD(G_CALL, "window.kaiser", ShapeOps<DSP::Kaiser<float>, 1>)
ADD(G_CALL, "filter.lowpass", ShapeOps<DSP::LowPass<float>, 1>)
ADD(G_CALL, "filter.lowpass2", ShapeOps<DSP::LowPass2<float>, 2>)
ADD(G_CALL, "filter.highpass", ShapeOps<DSP::HighPass<float>, 1>)
ADD(G_CALL, "filter.highpass2", ShapeOps<DSP::HighPass2<float>, 2>)
ADD(G_CALL, "filter.bandpass", ShapeOps<DSP::BandPass<float>, 3>)
ADD(G_CALL, "filter.hilbert", ShapeOps<DSP::HilbertTransform<float>, 0>)

template <int TAPS, bool NORM>
struct CoeffsOps
{
	typedef DSP::Coeffs<TAPS, float, NORM> T;
	static void make(void *p, In &in)
	{
		DSP::LowPass<float> lp(float(in.integer(1, 4)) / 10);
		DSP::Hann<float> hann;
		if (in.integer(0, 1))
			new (p) T(&lp);
		else
			new (p) T(&lp, &hann);
	}
	static void op(T &o, In &in, Out &out)
	{
		const float *w = o;
		put(out, o(int(in.integer(-2, TAPS + 1))));
		put(out, w[in.integer(0, TAPS - 1)]);
	}
};
ADD(G_CALL, "coeffs<7>", CoeffsOps<7, false>)
ADD(G_CALL, "coeffs<16,norm>", CoeffsOps<16, true>)

// functions without an object: every call stands alone
struct None {};

template <typename OPS>
struct FuncOps : OPS
{
	typedef None T;
	static void make(void *p, In &) { new (p) None(); }
	static void op(None &, In &in, Out &out) { OPS::call(in, out); }
};

template <int N>
struct SortCall
{
	static void call(In &in, Out &out)
	{
		int a[N];
		float b[N];
		int n = int(in.integer(1, N));
		for (int i = 0; i < n; ++i)
			a[i] = int(in.integer(-20, 20));
		for (int i = 0; i < n; ++i)
			b[i] = To<float>::get(in);
		DSP::quick_sort(a, n);
		put(out, DSP::quick_select(b, int(in.integer(0, n - 1)), n));
		for (int i = 0; i < n; ++i)
			put(out, a[i]);
	}
};
ADD(G_FUNC, "quick<30>", FuncOps<SortCall<30>>)
ADD(G_FUNC, "quick<120>", FuncOps<SortCall<120>>)

struct MathCall
{
	static void call(In &in, Out &out)
	{
		float y = To<float>::get(in), x = To<float>::get(in);
		double e = in.unit() * 20;
		put(out, DSP::atan2(y, x));
		put(out, DSP::atan(double(x)));
		put(out, DSP::exp10(e));
		put(out, DSP::exp10(float(e)));
		put(out, DSP::decibel(std::abs(x) + 1));
		put(out, DSP::idecibel(e));
		put(out, DSP::ldexp(e, int(in.integer(-30, 30))));
	}
};
ADD(G_FUNC, "math", FuncOps<MathCall>)

struct CircleCall
{
	static void call(In &in, Out &out)
	{
		int N = int(in.integer(1, 1000)), n = int(in.integer(-N, N));
		put(out, DSP::UnitCircle<float>::sin(n, N));
		put(out, DSP::UnitCircle<float>::cos(n, N));
		put(out, DSP::UnitCircle<double>::sin(n, N));
		put(out, DSP::UnitCircle<double>::cos(n, N));
		put(out, DSP::UnitCircle<double>::rad(n, N));
		put(out, double(DSP::Const<float>::Pi()) + DSP::Const<double>::SqrtTwoPi());
	}
};
ADD(G_FUNC, "unitcircle", FuncOps<CircleCall>)

struct CordicCall
{
	static void call(In &in, Out &out)
	{
		out.word(uint64_t(DSP::CORDIC<int8_t>::atan2(int8_t(in.integer(-128, 127)), int8_t(in.integer(-128, 127)))));
		out.word(uint64_t(DSP::CORDIC<int16_t>::atan2(int16_t(in.integer(-32768, 32767)), int16_t(in.integer(-32768, 32767)))));
	}
};
ADD(G_FUNC, "cordic", FuncOps<CordicCall>)

struct ComplexCall
{
	static void call(In &in, Out &out)
	{
		cf a = To<cf>::get(in), b = To<cf>::get(in), c = a;
		c += b;
		put(out, c);
		c *= b;
		put(out, c);
		c /= b;
		put(out, c);
		c -= a;
		put(out, c);
		c *= 3.f;
		c /= 2.f;
		put(out, c);
		put(out, a / b);
		put(out, 2.f / a);
		put(out, abs(a) + arg(b) + norm(c));
		put(out, conj(a) * DSP::polar(1.f, b.real()));
		out.word(a == b);
	}
};
ADD(G_FUNC, "complex", FuncOps<ComplexCall>)

struct UtilsCall
{
	static void call(In &in, Out &out)
	{
		float x = To<float>::get(in), y = To<float>::get(in);
		put(out, DSP::signum(x));
		put(out, DSP::lerp(x, y, 0.25f));
		put(out, DSP::clamp(x, -0.5f, 0.5f));
		put(out, DSP::normal_pdf(double(x), 0., 1.));
		put(out, DSP::sinc(x));
		put(out, DSP::delta(y));
		float a[9];
		for (int i = 0; i < 9; ++i)
			a[i] = To<float>::get(in);
		put(out, DSP::kahan_sum(a, a + 9, x));
	}
};
ADD(G_FUNC, "utils", FuncOps<UtilsCall>)

struct HermiteCall
{
	static void call(In &in, Out &out)
	{
		double X[6], Y[6];
		for (int i = 0; i < 6; ++i) {
			X[i] = i + in.unit() / 4;
			Y[i] = in.real();
		}
		double x = 3 + in.unit() * 3;
		put(out, DSP::CubicHermiteSpline<double, double>::eval(X, Y, x, 6));
		put(out, DSP::CubicHermiteSpline<double, double>::eval(Y, x, 6));
	}
};
ADD(G_FUNC, "hermite", FuncOps<HermiteCall>)

}
