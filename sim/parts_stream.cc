// stream processors and containers
#include "parts_util.hh"
#include "delay.hh"
#include "bip_buffer.hh"
#include "swa.hh"
#include "ema.hh"
#include "movext.hh"
#include "deque.hh"
#include "stack.hh"
#include "kahan.hh"
#include "phasor.hh"
#include "trigger.hh"
#include "biquad.hh"
#include "blockdc.hh"
#include "calculus.hh"
#include "hilbert.hh"
#include "cdc.hh"
#include "resampler.hh"
#include "lms.hh"
#include "amd.hh"
#include "fmd.hh"
#include "normalize.hh"

namespace sim {

template <typename V, int N>
struct DelayOps : Plain<DSP::Delay<V, N>, V>
{
	static void make(void *p, In &in) { new (p) DSP::Delay<V, N>(To<V>::get(in)); }
};
ADD(G_STREAM, "delay<float,1>", DelayOps<float, 1>)
ADD(G_STREAM, "delay<float,7>", DelayOps<float, 7>)
ADD(G_STREAM, "delay<int,16>", DelayOps<int, 16>)
ADD(G_STREAM, "delay<complex,3>", DelayOps<cf, 3>)

template <typename V, int N>
struct BipOps
{
	typedef DSP::BipBuffer<V, N> T;
	static void make(void *p, In &) { new (p) T; }
	static void op(T &o, In &in, Out &out)
	{
		const V *h = in.retune() ? o() : o(To<V>::get(in));
		for (int i = 0; i < N; ++i)
			put(out, h[i]);
	}
};
ADD(G_STREAM, "bip<float,1>", BipOps<float, 1>)
ADD(G_STREAM, "bip<float,5>", BipOps<float, 5>)
ADD(G_STREAM, "bip<complex,8>", BipOps<cd, 8>)

struct Max
{
	float operator () (float a, float b) const { return a < b ? b : a; }
};
template <typename V, typename OP, int N>
struct SwaOps : Plain<DSP::SWA<V, OP, N>, V>
{
	static void make(void *p, In &in) { new (p) DSP::SWA<V, OP, N>(To<V>::get(in)); }
};
ADD(G_STREAM, "swa<float,plus,1>", SwaOps<float, std::plus<float>, 1>)
ADD(G_STREAM, "swa<float,plus,13>", SwaOps<float, std::plus<float>, 13>)
ADD(G_STREAM, "swa<int,plus,8>", SwaOps<int, std::plus<int>, 8>)
ADD(G_STREAM, "swa<float,max,6>", SwaOps<float, Max, 6>)

template <typename V, typename S, int N>
struct Sma1Ops : Plain<DSP::SMA1<V, S, N>, V>
{
	static void op(DSP::SMA1<V, S, N> &o, In &in, Out &out)
	{
		if (in.retune())
			put(out, o.abs_dev());
		else
			put(out, o(To<V>::get(in)));
	}
};
ADD(G_STREAM, "sma1<float,9>", Sma1Ops<float, float, 9>)
ADD(G_STREAM, "sma1<complex,4>", Sma1Ops<cd, double, 4>)
ADD(G_STREAM, "sma2<float,5>", Plain<DSP::SMA2<float, float, 5>, float>)
ADD(G_STREAM, "sma2<int,7,sum>", Plain<DSP::SMA2<int, int, 7, false>, int>)
ADD(G_STREAM, "sma3<float,6>", Plain<DSP::SMA3<float, float, 6>, float>)
ADD(G_STREAM, "sma3<double,11,sum>", Plain<DSP::SMA3<double, double, 11, false>, double>)
ADD(G_STREAM, "sma4<float,10>", Plain<DSP::SMA4<float, float, 10>, float>)
ADD(G_STREAM, "sma4<complex,3,sum>", Plain<DSP::SMA4<cf, float, 3, false>, cf>)

template <typename V, typename S>
struct EmaOps
{
	typedef DSP::EMA<V, S> T;
	static void make(void *p, In &in)
	{
		T *o = new (p) T;
		if (in.integer(0, 1))
			o->samples(int(in.integer(1, 50)));
		else
			o->cutoff(int(in.integer(1, 31)), 64);
	}
	static void op(T &o, In &in, Out &out)
	{
		if (in.retune())
			o.cutoff(int(in.integer(1, 31)), 64);
		else if (in.retune())
			o.samples(int(in.integer(1, 50)));
		put(out, o(To<V>::get(in)));
	}
};
ADD(G_STREAM, "ema<float>", EmaOps<float, float>)
ADD(G_STREAM, "ema<complex>", EmaOps<cd, double>)

template <typename V, typename S, int ORDER>
struct CascOps
{
	typedef DSP::EMACascade<V, S, ORDER> T;
	static void make(void *p, In &in) { (new (p) T)->cutoff(int(in.integer(1, 60)), 1024); }
	static void op(T &o, In &in, Out &out)
	{
		if (in.retune())
			o.cutoff(int(in.integer(1, 60)), 1024);
		put(out, o(To<V>::get(in)));
	}
};
ADD(G_STREAM, "emacascade<float,1>", CascOps<float, float, 1>)
ADD(G_STREAM, "emacascade<float,3>", CascOps<float, float, 3>)
ADD(G_STREAM, "emacascade<complex,8>", CascOps<cf, float, 8>)

ADD(G_STREAM, "movmin<float,6>", Plain<DSP::MovMin<float, 6>, float>)
ADD(G_STREAM, "movmin<int,1>", Plain<DSP::MovMin<int, 1>, int>)
ADD(G_STREAM, "movmax<int,9>", Plain<DSP::MovMax<int, 9>, int>)
ADD(G_STREAM, "movmax<float,4>", Plain<DSP::MovMax<float, 4>, float>)

template <typename V, int N>
struct DequeOps
{
	typedef DSP::Deque<V, N> T;
	static void make(void *p, In &) { new (p) T; }
	static void op(T &o, In &in, Out &out)
	{
		int what = int(in.integer(0, 20));
		if (what == 20)
			o.clear();
		else if (what < 6 && !o.full())
			o.push_back(To<V>::get(in));
		else if (what < 12 && !o.full())
			o.push_front(To<V>::get(in));
		else if (what < 16 && !o.empty())
			o.pop_back();
		else if (!o.empty())
			o.pop_front();
		out.word(uint64_t(o.size()) * 4 + uint64_t(o.empty()) * 2 + uint64_t(o.full()));
		out.word(uint64_t(o.max_size()));
		if (!o.empty()) {
			put(out, o.front());
			put(out, o.back());
		}
	}
};
ADD(G_STORE, "deque<int,1>", DequeOps<int, 1>)
ADD(G_STORE, "deque<float,5>", DequeOps<float, 5>)
ADD(G_STORE, "deque<complex,16>", DequeOps<cf, 16>)

template <typename V, int N>
struct StackOps
{
	typedef DSP::Stack<V, N> T;
	static void make(void *p, In &) { new (p) T; }
	static void op(T &o, In &in, Out &out)
	{
		int what = int(in.integer(0, 20));
		if (what == 20)
			o.clear();
		else if (what < 11 && !o.full())
			o.push(To<V>::get(in));
		else if (!o.empty())
			o.pop();
		out.word(uint64_t(o.size()) * 4 + uint64_t(o.empty()) * 2 + uint64_t(o.full()));
		out.word(uint64_t(o.max_size()));
		if (!o.empty()) {
			put(out, o.top());
			put(out, o.first());
		}
	}
};
ADD(G_STORE, "stack<int,4>", StackOps<int, 4>)
ADD(G_STORE, "stack<complex,9>", StackOps<cd, 9>)

template <typename V>
struct KahanOps
{
	typedef DSP::Kahan<V> T;
	static void make(void *p, In &in) { new (p) T(To<V>::get(in)); }
	static void op(T &o, In &in, Out &out)
	{
		if (in.retune())
			out.word(o.same(To<V>::get(in)));
		else
			put(out, o(To<V>::get(in)));
		put(out, o());
	}
};
ADD(G_STREAM, "kahan<float>", KahanOps<float>)
ADD(G_STREAM, "kahan<double>", KahanOps<double>)

template <typename C, typename V>
struct PhasorOps
{
	typedef DSP::Phasor<C> T;
	static void tune(T &o, In &in)
	{
		switch (in.integer(0, 3)) {
		case 0: o.omega(int(in.integer(-50, 50)), 100); break;
		case 1: o.omega(V(in.unit())); break;
		case 2: o.freq(V(in.unit() / 2)); break;
		default: o.reset();
		}
	}
	static void make(void *p, In &in) { tune(*new (p) T, in); }
	static void op(T &o, In &in, Out &out)
	{
		if (in.retune())
			tune(o, in);
		put(out, o());
	}
};
ADD(G_STREAM, "phasor<float>", PhasorOps<cf, float>)
ADD(G_STREAM, "phasor<double>", PhasorOps<cd, double>)

template <typename V>
struct SchmittOps : Plain<DSP::SchmittTrigger<V>, V>
{
	static void make(void *p, In &in) { new (p) DSP::SchmittTrigger<V>(V(-0.25), V(0.25), in.integer(0, 1) == 1); }
};
template <typename OBJ>
struct EdgeOps
{
	typedef OBJ T;
	static void make(void *p, In &in) { new (p) T(in.integer(0, 1) == 1); }
	static void op(T &o, In &in, Out &out) { out.word(o(in.real() > 0)); }
};
ADD(G_STREAM, "schmitt<float>", SchmittOps<float>)
ADD(G_STREAM, "fallingedge", EdgeOps<DSP::FallingEdgeTrigger>)
ADD(G_STREAM, "risingedge", EdgeOps<DSP::RisingEdgeTrigger>)

template <typename V, typename S>
struct BiquadOps
{
	typedef DSP::Biquad<V, S> T;
	static void tune(T &o, In &in)
	{
		int n = int(in.integer(1, 31));
		switch (in.integer(0, 5)) {
		case 0: o.lowpass(n, 64); break;
		case 1: o.highpass(n, 64); break;
		case 2: o.notch(n, 64, S(3)); break;
		case 3: o.bandpass(n, 64, S(6)); break;
		case 4: o.allpass(n, 64, S(1)); break;
		default: o.lowpass(n, 64, S(2));
		}
	}
	static void make(void *p, In &in) { tune(*new (p) T, in); }
	static void op(T &o, In &in, Out &out)
	{
		if (in.retune())
			tune(o, in);
		put(out, o(To<V>::get(in)));
	}
};
ADD(G_STREAM, "biquad<float>", BiquadOps<float, float>)
ADD(G_STREAM, "biquad<complex>", BiquadOps<cd, double>)

template <typename V, typename S, int NUM>
struct BiCascOps
{
	typedef DSP::BiquadCascade<V, S, NUM> T;
	static void tune(T &o, In &in)
	{
		int n = int(in.integer(1, 31));
		if (in.integer(0, 1))
			o.lowpass(n, 64);
		else
			o.highpass(n, 64);
	}
	static void make(void *p, In &in) { tune(*new (p) T, in); }
	static void op(T &o, In &in, Out &out)
	{
		if (in.retune())
			tune(o, in);
		put(out, o(To<V>::get(in)));
	}
};
ADD(G_STREAM, "biquadcascade<float,1>", BiCascOps<float, float, 1>)
ADD(G_STREAM, "biquadcascade<complex,3>", BiCascOps<cf, float, 3>)

template <typename OBJ, typename V>
struct SamplesOps
{
	typedef OBJ T;
	static void make(void *p, In &in) { (new (p) T)->samples(int(in.integer(2, 200))); }
	static void op(T &o, In &in, Out &out)
	{
		if (in.retune())
			o.samples(int(in.integer(2, 200)));
		put(out, o(To<V>::get(in)));
	}
};
ADD(G_STREAM, "blockdc<float>", SamplesOps<DSP::BlockDC<float, float>, float>)
ADD(G_STREAM, "blockdc<complex>", SamplesOps<DSP::BlockDC<cf, float>, cf>)
ADD(G_STREAM, "normalizesine<float>", SamplesOps<DSP::NormalizeSine<float>, float>)
ADD(G_STREAM, "normalizeiq<double>", SamplesOps<DSP::NormalizeIQ<cd>, cd>)

template <typename OBJ, typename V>
struct InitOps : Plain<OBJ, V>
{
	static void make(void *p, In &in) { new (p) OBJ(To<V>::get(in)); }
};
ADD(G_STREAM, "integrator<float>", InitOps<DSP::Integrator<float>, float>)
ADD(G_STREAM, "integrator<complex>", InitOps<DSP::Integrator<cd>, cd>)
ADD(G_STREAM, "differentiator<float>", InitOps<DSP::Differentiator<float>, float>)
ADD(G_STREAM, "differentiator<complex>", InitOps<DSP::Differentiator<cf>, cf>)

template <typename C, typename V, int TAPS>
struct HilbertOps : Plain<DSP::Hilbert<C, TAPS>, V>
{
	static void make(void *p, In &in) { new (p) DSP::Hilbert<C, TAPS>(V(in.integer(1, 3))); }
};
ADD(G_STREAM, "hilbert<float,5>", HilbertOps<cf, float, 5>)
ADD(G_STREAM, "hilbert<double,33>", HilbertOps<cd, double, 33>)

template <typename C, typename V, int TAPS>
struct CdcOps
{
	typedef DSP::CDC<C, TAPS> T;
	static void make(void *p, In &in) { new (p) T(V(in.integer(1, 3))); }
	static void op(T &o, In &in, Out &out)
	{
		V a = To<V>::get(in), b = To<V>::get(in);
		put(out, o(a, b));
	}
};
ADD(G_STREAM, "cdc<float,5>", CdcOps<cf, float, 5>)
ADD(G_STREAM, "cdc<double,21>", CdcOps<cd, double, 21>)

template <typename V, typename IO, int TAPS, int OVER>
struct ResamplerOps
{
	typedef DSP::Resampler2<V, IO, TAPS, OVER> T;
	static void make(void *p, In &in) { new (p) T(V(8000), V(in.integer(1000, 3900)), V(2)); }
	static void op(T &o, In &in, Out &out)
	{
		IO y[4] = { 0, 0, 0, 0 };
		V diff = V(in.unit() * 3000);
		int n = o(y, To<IO>::get(in), diff);
		out.word(uint64_t(n));
		for (int i = 0; i < n && i < 4; ++i)
			put(out, y[i]);
	}
};
ADD(G_STREAM, "resampler2<float,7,4>", ResamplerOps<float, float, 7, 4>)
ADD(G_STREAM, "resampler2<double,complex,12,8>", ResamplerOps<double, cd, 12, 8>)

template <typename OBJ, typename X, typename V, int N>
struct LmsOps
{
	typedef OBJ T;
	static void make(void *p, In &) { new (p) T; }
	static void op(T &o, In &in, Out &out)
	{
		X x = To<X>::get(in), d = To<X>::get(in);
		if (in.integer(0, 1))
			put(out, o(x, d));
		else
			put(out, o(x, d, V(0.25)));
		const X *f = o;
		for (int i = 0; i < N; ++i)
			put(out, f[i]);
	}
};
ADD(G_STREAM, "nlms<float,4>", LmsOps<DSP::NLMS<float, 4>, float, float, 4>)
ADD(G_STREAM, "nclms<double,3>", LmsOps<DSP::NCLMS<cd, 3>, cd, double, 3>)

template <typename C, typename V>
struct AmdOps
{
	typedef DSP::AMD1<C> T;
	static void tune(T &o, In &in)
	{
		if (in.integer(0, 1))
			o.index(V(0.25) * V(in.integer(1, 4)));
		V att = V(in.integer(1, 64)) / V(64), dec = V(in.integer(1, 64)) / V(256);
		if (in.integer(0, 1))
			o.agc(att, dec);
		else
			o.agc(att, dec, V(0.01), V(2));
	}
	static void make(void *p, In &in) { tune(*new (p) T, in); }
	static void op(T &o, In &in, Out &out)
	{
		if (in.retune())
			tune(o, in);
		put(out, o(To<C>::get(in)));
	}
};
ADD(G_STREAM, "amd1<float>", AmdOps<cf, float>)
ADD(G_STREAM, "amd1<double>", AmdOps<cd, double>)

template <typename OBJ, typename C, typename V>
struct FmdOps
{
	typedef OBJ T;
	static void make(void *p, In &in) { (new (p) T)->bandwidth(V(in.integer(1, 100)) / V(100)); }
	static void op(T &o, In &in, Out &out)
	{
		if (in.retune())
			o.bandwidth(V(in.integer(1, 100)) / V(100));
		put(out, o(To<C>::get(in)));
	}
};
ADD(G_STREAM, "fmd1<float>", FmdOps<DSP::FMD1<cf>, cf, float>)
ADD(G_STREAM, "fmd2<float>", FmdOps<DSP::FMD2<cf>, cf, float>)
ADD(G_STREAM, "fmd3<double>", FmdOps<DSP::FMD3<cd>, cd, double>)
ADD(G_STREAM, "fmd4<float>", FmdOps<DSP::FMD4<cf>, cf, float>)
ADD(G_STREAM, "fmd5<double>", FmdOps<DSP::FMD5<cd>, cd, double>)

}
