// one bank of block sizes for C27
#include "prelude.hh"
#include "complex.hh"
#include "const.hh"
#include "utils.hh"
#include "unit_circle.hh"
#include "fft.hh"
#include "fdzp.hh"
#include "guard.hh"
#include "c27.hh"

using namespace sim;

static Guarded &area(int n)
{
	static Guarded a(1 << 20), b(1 << 20);
	return n ? a : b;
}

template <typename C>
static const C *put(const std::vector<Z> &in, std::vector<C> &kept)
{
	typedef typename C::value_type R;
	kept.clear();
	for (Z z : in)
		kept.push_back(C(R(z.real()), R(z.imag())));
	C *p = (C *)area(0).get(sizeof(C) * in.size(), 0x3c);
	memcpy((void *)p, (const void *)kept.data(), sizeof(C) * in.size());
	return p;
}

template <typename C>
static void take(std::vector<Z> &out, const C *p, size_t n)
{
	out.clear();
	for (size_t i = 0; i < n; ++i)
		out.push_back(Z(double(p[i].real()), double(p[i].imag())));
}

template <typename C, typename F>
static bool transform(std::vector<Z> &out, size_t size, const std::vector<Z> &in, F f)
{
	std::vector<C> kept;
	const C *i = put(in, kept);
	C *o = (C *)area(1).get(sizeof(C) * size, 0xff);
	f(o, i);
	take(out, o, size);
	return area(0).front_intact() && area(1).front_intact() && !memcmp((const void *)kept.data(), (const void *)i, sizeof(C) * kept.size());
}

template <int N, bool EVEN> struct Half
{
	template <typename C> struct Type { bool run(std::vector<Z> &, const std::vector<double> &) { return true; } };
};
template <int N> struct Half<N, true>
{
	template <typename C> struct Type
	{
		DSP::RealToHalfComplexTransform<N, C> rhc;
		bool run(std::vector<Z> &out, const std::vector<double> &in)
		{
			typedef typename C::value_type R;
			std::vector<R> kept;
			for (double d : in)
				kept.push_back(R(d));
			R *i = (R *)area(0).get(sizeof(R) * N, 0x3c);
			memcpy(i, kept.data(), sizeof(R) * N);
			C *o = (C *)area(1).get(sizeof(C) * (N / 2 + 1), 0xff);
			rhc(o, i);
			take(out, o, N / 2 + 1);
			return area(0).front_intact() && area(1).front_intact() && !memcmp(kept.data(), i, sizeof(R) * N);
		}
	};
};

template <typename C, int N>
struct Sized: Transform
{
	typedef typename C::value_type R;
	DSP::FastFourierTransform<N, C, -1> fwd;
	DSP::FastFourierTransform<N, C, 1> bwd;
	typename Half<N, N % 2 == 0>::template Type<C> rhc;
	Sized(const char *type) : Transform(type, N, std::numeric_limits<R>::epsilon()) {}
	bool forward(std::vector<Z> &out, const std::vector<Z> &in) { return transform<C>(out, N, in, [this](C *o, const C *i) { fwd(o, i); }); }
	bool inverse(std::vector<Z> &out, const std::vector<Z> &in) { return transform<C>(out, N, in, [this](C *o, const C *i) { bwd(o, i); }); }
	bool half(std::vector<Z> &out, const std::vector<double> &in) { return rhc.run(out, in); }
	Z rounded(Z z) { return Z(double(R(z.real())), double(R(z.imag()))); }
	Transform *copy() const { return new Sized(*this); }
	void assign(const Transform &o) { *this = static_cast<const Sized &>(o); }
};

template <typename C, int IN, int OUT>
struct Padded: Padder
{
	typedef typename C::value_type R;
	DSP::FDZP<OUT, IN, C> obj;
	Padded(const char *type) : Padder(type, IN, OUT, std::numeric_limits<R>::epsilon()) {}
	bool operator () (std::vector<Z> &out, const std::vector<Z> &in) { return transform<C>(out, OUT, in, [this](C *o, const C *i) { obj(o, i); }); }
	Z rounded(Z z) { return Z(double(R(z.real())), double(R(z.imag()))); }
	Padder *copy() const { return new Padded(*this); }
	void assign(const Padder &o) { *this = static_cast<const Padded &>(o); }
};

// the memory an object lands in has planned content
template <typename OBJ, typename BASE>
static BASE *make(const char *type, uint8_t pattern)
{
	void *p = ::operator new(sizeof(OBJ));
	memset(p, pattern, sizeof(OBJ));
	__asm__ volatile("" : : "r"(p) : "memory");
	scribble_stack(pattern);
	return new (p) OBJ(type);
}

template <int N>
static void size()
{
	transforms().push_back({ N, [](uint8_t p) { return make<Sized<DSP::Complex<float>, N>, Transform>("float", p); } });
	transforms().push_back({ N, [](uint8_t p) { return make<Sized<DSP::Complex<double>, N>, Transform>("double", p); } });
}

template <int IN, int OUT>
static void pad()
{
	padders().push_back({ IN, OUT, [](uint8_t p) { return make<Padded<DSP::Complex<float>, IN, OUT>, Padder>("float", p); } });
	padders().push_back({ IN, OUT, [](uint8_t p) { return make<Padded<DSP::Complex<double>, IN, OUT>, Padder>("double", p); } });
}

template <int ... N>
static void sizes() { int dummy[] = { (size<N>(), 0)... }; (void)dummy; }

static int add()
{
#if BANK == 0
	sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 18, 20, 21, 24, 25, 27, 28, 30, 32, 35, 36, 40, 42, 45, 48, 49, 50, 56, 60, 63, 64, 70, 72, 75, 80, 81, 84, 90, 96, 98, 100>();
#elif BANK == 1
	sizes<11, 13, 17, 19, 22, 26, 33, 34, 38, 39, 44, 51, 52, 55, 57, 65, 66, 68, 76, 77, 78, 85, 88, 91, 95, 104, 121, 143, 169, 187, 209, 221, 247>();
#elif BANK == 2
	sizes<23, 29, 46, 58, 69, 87, 92, 115, 116, 161, 203, 253, 529>();
#elif BANK == 3
	sizes<31, 62, 93, 124, 155, 217, 248, 289, 323, 361>();
#elif BANK == 4
	sizes<108, 120, 125, 128, 144, 150, 160, 175, 180, 192, 200, 216, 240, 243, 256, 294, 320, 343, 360, 375, 400, 441, 480, 500, 512, 600, 625, 640, 720, 729, 768, 960, 1000, 1024, 1280, 2048, 2187, 2400, 4096, 4410, 8192, 10000>();
#else
	sizes<841, 961, 899, 713, 667, 406, 374>();
	pad<1, 2>(); pad<1, 7>(); pad<2, 3>(); pad<2, 4>(); pad<2, 10>(); pad<3, 4>(); pad<3, 5>(); pad<3, 6>(); pad<3, 16>(); pad<4, 5>(); pad<4, 6>(); pad<4, 8>();
	pad<5, 6>(); pad<5, 7>(); pad<5, 8>(); pad<5, 10>(); pad<5, 64>(); pad<6, 7>(); pad<6, 8>(); pad<6, 9>(); pad<7, 8>(); pad<7, 9>(); pad<7, 28>(); pad<8, 9>(); pad<8, 10>(); pad<8, 12>(); pad<8, 64>();
	pad<9, 10>(); pad<9, 13>(); pad<9, 14>(); pad<10, 12>(); pad<10, 15>(); pad<15, 16>(); pad<15, 60>(); pad<16, 17>(); pad<16, 20>(); pad<16, 24>(); pad<32, 48>(); pad<33, 44>(); pad<48, 64>(); pad<64, 256>(); pad<63, 125>(); pad<100, 128>(); pad<121, 242>(); pad<160, 441>();
#endif
	return 1;
}

#define NAME2(X) add_bank##X
#define NAME1(X) NAME2(X)
namespace sim { int NAME1(BANK) = add(); }
