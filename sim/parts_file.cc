// files: each operation writes one and reads it back
#include "prelude.hh"
#include "wav.hh"
#include "netpbm.hh"
#include "parts.hh"

namespace sim {

struct FileName
{
	char text[48];
	explicit FileName(In &cfg) { snprintf(text, sizeof text, "/sim/f%016llx", (unsigned long long)cfg.rng.next()); }
};

template <typename TYPE>
struct WavOps
{
	typedef FileName T;
	static void make(void *p, In &cfg) { new (p) T(cfg); }
	static void op(T &o, In &in, Out &out)
	{
		static const int depths[3] = { 8, 16, 32 };
		int bits = depths[in.integer(0, 2)], channels = int(in.integer(1, 3)), total = int(in.integer(0, 40)), silent = int(in.integer(0, 3));
		TYPE buf[64];
		{
			DSP::WriteWAV<TYPE> w(o.text, 8000, bits, channels);
			for (int left = total; left > 0;) {
				int n = int(in.integer(1, left < 16 ? left : 16));
				for (int i = 0; i < n * channels; ++i)
					buf[i] = TYPE(in.unit());
				w.write(buf, n);
				left -= n;
			}
			w.silence(silent);
			out.word(w.good());
		}
		DSP::ReadWAV<TYPE> r(o.text);
		out.word(r.good());
		out.word(uint64_t(r.frames()));
		out.word(uint64_t(r.channels()));
		for (int left = r.frames(); left > 0;) {
			int n = int(in.integer(1, left < 16 ? left : 16));
			r.read(buf, n);
			for (int i = 0; i < n * channels; ++i)
				out.put(double(buf[i]));
			left -= n;
		}
		out.word(r.good());
	}
};

template <typename TYPE>
struct PnmOps
{
	typedef FileName T;
	static void make(void *p, In &cfg) { new (p) T(cfg); }
	static void op(T &o, In &in, Out &out)
	{
		bool mono = in.integer(0, 1);
		int w = int(in.integer(1, 8)), h = int(in.integer(1, 6)), per = mono ? 1 : 3;
		TYPE buf[3 * 48];
		for (int i = 0; i < w * h * per; ++i)
			buf[i] = TYPE(std::fabs(in.unit()));
		{
			DSP::WritePNM<TYPE> pnm(o.text, w, h, mono);
			pnm.write(buf, w * h);
			out.word(pnm.good());
		}
		DSP::ReadPNM<TYPE> pnm(o.text);
		out.word(pnm.good());
		out.word(uint64_t(pnm.width() * 100 + pnm.height() * 2 + pnm.mono()));
		for (int i = 0; i < w * h * per; ++i)
			buf[i] = TYPE(-1);
		pnm.read(buf, w * h);
		for (int i = 0; i < w * h * per; ++i)
			out.put(double(buf[i]));
		out.word(pnm.good());
	}
};

#define CAT2(A, B) A ## B
#define CAT(A, B) CAT2(A, B)
#define ADD(GROUP, NAME, ...) static Adder CAT(add_, __COUNTER__)(Info { NAME, GROUP, sizeof(Comp<__VA_ARGS__, false>), Comp<__VA_ARGS__, false>::make });
ADD(G_FILE, "wav/float", WavOps<float>)
ADD(G_FILE, "wav/double", WavOps<double>)
ADD(G_FILE, "pnm/float", PnmOps<float>)
ADD(G_FILE, "pnm/double", PnmOps<double>)

}
