#!/usr/bin/env python3
"""harmless.py [NAME...]: rewrites the library without changing what it does, in a copy; the checks have to stay quiet."""
import os, re, shutil, subprocess, sys, tempfile

R = []
def rewrite(name, file, checks, *pairs):
    R.append((name, file, checks.split(), pairs))

rewrite("wav-get-loop", "wav.hh", "C01 C04 C05 C06 C23", ("""			v |= is.get() << (8 * i);
""", """			v += int(unsigned(is.get()) << (8 * i));
"""))
rewrite("wav-read-bytes", "wav.hh", "C01 C02 C04 C05 C06 C10 C11 C12 C23", ("""		int v = 0;
		for (int i = 0; i < b; ++i)
			v |= is.get() << (8 * i);
""", """		unsigned char tmp[4] = { 0, 0, 0, 0 };
		is.read(reinterpret_cast<char *>(tmp), b);
		int v = tmp[0] | (tmp[1] << 8) | (tmp[2] << 16) | int(unsigned(tmp[3]) << 24);
"""))
rewrite("wav-chunk-helper", "wav.hh", "C01 C04 C05", ("""	static float int2float(int value)
""", """	bool expect(const char *id)
	{
		char tmp[4] = { 0, 0, 0, 0 };
		is.read(tmp, 4);
		return !cmp4(id, tmp);
	}
	static float int2float(int value)
"""), ("""		char ChunkID[4];
		is.read(ChunkID, 4);
		if (cmp4("RIFF", ChunkID))
			return;
""", """		if (!expect("RIFF"))
			return;
"""), ("""		char Subchunk1ID[4];
		is.read(Subchunk1ID, 4);
		if (cmp4("fmt ", Subchunk1ID))
			return;
""", """		if (!expect("fmt "))
			return;
"""), ("""		char Subchunk2ID[4];
		is.read(Subchunk2ID, 4);
		if (cmp4("data", Subchunk2ID))
			return;
""", """		if (!expect("data"))
			return;
"""))
rewrite("wav-write-bytes", "wav.hh", "C01 C02 C03 C06 C10 C23", ("""		for (int i = 0; i < b; ++i)
			os.put(255 & (v >> (8 * i)));
""", """		char tmp[4];
		for (int i = 0; i < b; ++i)
			tmp[i] = char(255 & (v >> (8 * i)));
		os.write(tmp, b);
"""))
rewrite("wav-write-blocks", "wav.hh", "C01 C02 C03 C06 C23", ("""		for (int n = 0; n < num; ++n) {
			for (int c = 0; c < channels_; ++c) {
				if (bytes == 4) {
					writeLE(float2int(buf[stride * n + c]), 4);
				} else {
					TYPE v = TYPE(offset) + TYPE(factor) * buf[stride * n + c];
					writeLE(std::nearbyint(std::min(std::max(v, TYPE(min)), TYPE(max))), bytes);
				}
			}
		}
""", """		std::string block;
		for (int n = 0; n < num; ++n) {
			for (int c = 0; c < channels_; ++c) {
				TYPE s = buf[stride * n + c];
				int v = bytes == 4 ? float2int(s) :
					int(std::nearbyint(std::max(TYPE(min), std::min(TYPE(max), TYPE(factor) * s + TYPE(offset)))));
				for (int i = 0; i < bytes; ++i)
					block += char(255 & (v >> (8 * i)));
			}
		}
		os.write(block.data(), block.size());
"""))
rewrite("wav-remember-frames", "wav.hh", "C01 C02 C03 C06", ("""	int bytes, channels_, rate_;
	int offset, factor, min, max;
""", """	int offset, factor, min, max;
	int rate_, channels_, bytes;
	int unused = 0;
"""), ("""	~WriteWAV()
	{
""", """	~WriteWAV()
	{
		unused = 1;
"""))
rewrite("wav-close", "wav.hh", "C01 C02 C03 C06", ("""		os.seekp(overhead - 4);
		writeLE(size, 4); // Subchunk2Size
""", """		os.seekp(overhead - 4);
		writeLE(size, 4); // Subchunk2Size
		os.close();
"""))
rewrite("pnm-block", "netpbm.hh", "C07 C08 C09 C10", ("""				os.put(R);
				os.put(G);
				os.put(B);
""", """				char rgb[3] = { char(R), char(G), char(B) };
				os.write(rgb, 3);
"""), ("""				int R = is.get();
				int G = is.get();
				int B = is.get();
				buf[stride*i+0] = linear(R);
				buf[stride*i+1] = linear(G);
				buf[stride*i+2] = linear(B);
""", """				for (int c = 0; c < 3; ++c)
					buf[stride*i+c] = linear(is.get());
"""))
rewrite("pnm-table", "netpbm.hh", "C07 C09 C10 C11", ("""	TYPE linear(int val)
	{
""", """	TYPE linear(int val)
	{
		return val >= 0 && val < 256 && maxval_ ? table[val] : compute(val);
	}
	TYPE table[256];
	TYPE compute(int val)
	{
"""), ("""		maxval_ = num[2];
""", """		maxval_ = num[2];
		for (int i = 0; i < 256; ++i)
			table[i] = compute(i);
"""))
rewrite("delay-modulo", "delay.hh", "C10 C11 C13 C15", ("""		if (++pos >= NUM)
			pos = 0;
""", """		pos = (pos + 1) % NUM;
"""))
rewrite("delay-vector", "delay.hh", "C10 C11 C12 C13 C15", ("""	TYPE buf[NUM];
	int pos;
""", """	std::vector<TYPE> buf;
	int pos;
"""), ("""	Delay(TYPE init = 0) : pos(0)
	{
		for (int i = 0; i < NUM; ++i)
			buf[i] = init;
	}
""", """	Delay(TYPE init = 0) : buf(NUM, init), pos(0)
	{
	}
"""))
rewrite("delay-backwards", "delay.hh", "C11 C13", ("""		if (++pos >= NUM)
			pos = 0;
""", """		if (!pos--)
			pos = NUM-1;
"""))
rewrite("swa-while", "swa.hh", "C11 C13", ("""		for (int child = leaf, parent = leaf / 2; parent; child = parent, parent /= 2)
			tree[parent] = op(tree[child], tree[child^1]);
""", """		int child = leaf;
		while (child > 1) {
			int parent = child / 2;
			tree[parent] = op(tree[2 * parent], tree[2 * parent + 1]);
			child = parent;
		}
"""))
rewrite("movext-scan", "movext.hh", "C11 C13", ("""	Delay<TYPE, NUM> window;
	Stack<TYPE, NUM> dispenser, refill;
	EQUAL equal;
	COMP comp;
public:
	MovExt(TYPE init) : window(init)
	{
		dispenser.push(init);
	}
""", """	TYPE last[NUM];
	int pos = 0;
	COMP comp;
public:
	MovExt(TYPE init)
	{
		for (TYPE &x : last)
			x = init;
	}
"""), ("""		if (window(input) == dispenser.top())
			dispenser.pop();

		while (!refill.empty() && comp(input, refill.top()))
			refill.pop();
		refill.push(input);

		if (dispenser.empty()) {
			while (!refill.empty()) {
				dispenser.push(refill.top());
				refill.pop();
			}
			return dispenser.top();
		}
		return comp(dispenser.top(), refill.first()) ? dispenser.top() : refill.first();
""", """		last[pos] = input;
		pos = (pos + 1) % NUM;
		TYPE ext = last[0];
		for (int i = 1; i < NUM; ++i)
			if (comp(last[i], ext))
				ext = last[i];
		return ext;
"""))
rewrite("deque-index", "deque.hh", "C11 C14", ("""		if (--tail < 0)
			tail = SIZE-1;
		buf[tail] = input;
""", """		tail = (tail + SIZE - 1) % SIZE;
		buf[tail] = input;
"""), ("""		if (++head >= SIZE)
			head = 0;
		buf[head] = input;
""", """		head = head == SIZE-1 ? 0 : head + 1;
		buf[head] = input;
"""))
rewrite("stack-count", "stack.hh", "C11 C13 C14", ("	int pos;\npublic:\n	Stack() : pos(-1)", "	int num;\npublic:\n	Stack() : num(0)"),
 ("		pos = -1;", "		num = 0;"), ("		assert(pos < SIZE-1);\n		buf[++pos] = input;", "		assert(num < SIZE);\n		buf[num++] = input;"),
 ("		assert(pos >= 0);\n		--pos;", "		assert(num > 0);\n		--num;"), ("		assert(pos >= 0);\n		return buf[pos];", "		assert(num > 0);\n		return buf[num-1];"),
 ("		assert(pos >= 0);\n		return buf[0];", "		assert(num > 0);\n		return buf[0];"), ("return pos == -1;", "return !num;"), ("return pos == SIZE-1;", "return num >= SIZE;"), ("return pos+1;", "return num;"))
rewrite("bip-one-position", "bip_buffer.hh", "C11 C13 C20 C29", ("""	int pos0, pos1;
public:
	BipBuffer() : pos0(0), pos1(NUM)
""", """	int pos;
public:
	BipBuffer() : pos(0)
"""), ("		return buf + min(pos0, pos1);", "		return buf + pos;"), ("""		buf[pos0] = buf[pos1] = input;
		if (++pos0 >= 2*NUM)
			pos0 = 0;
		if (++pos1 >= 2*NUM)
			pos1 = 0;
""", """		buf[pos] = buf[pos + NUM] = input;
		if (++pos == NUM)
			pos = 0;
"""))
rewrite("sma-average", "sma.hh", "C11 C13 C15 C19", ("""		TYPE hist_sum(hist_inp[0]);
		for (int i = 1; i < NUM; ++i)
			hist_sum += hist_inp[i];
""", """		TYPE hist_sum(0);
		for (int i = NUM - 1; i >= 0; --i)
			hist_sum += hist_inp[i];
"""), ("		sum += input - delay(input);", "		TYPE old = delay(input);\n		sum += input - old;"))
rewrite("kahan-loop", "kahan.hh", "C10 C11 C13 C19", ("""	while (begin != end)
		kahan(*begin++);
""", """	for (; begin != end; ++begin)
		kahan(*begin);
"""), ("		return low == a.low && high == a.high;", "		return high == a.high && !(low != a.low);"))
rewrite("phasor-components", "phasor.hh", "C10 C11 C17", ("""		prev *= delta;
		prev /= abs(prev);
		return tmp;
""", """		complex_type next = tmp * delta;
		prev = next / abs(next);
		return tmp;
"""))
rewrite("phasor-reciprocal", "phasor.hh", "C17", ("		prev /= abs(prev);", "		prev *= value_type(1) / abs(prev);"))
rewrite("trigger-expression", "trigger.hh", "C11 C15 C18", ("""		if (previous) {
			if (input < low)
				previous = false;
		} else {
			if (input > high)
				previous = true;
		}
		return previous;
""", """		return previous = previous ? !(input < low) : input > high;
"""), ("		return tmp && !input;", "		return tmp > input;"), ("		return !tmp && input;", "		return tmp < input;"))
rewrite("biquad-helper", "biquad.hh", "C11 C15 C25", ("""	void lowpass(int n, int N, VALUE Q = Const<VALUE>::InvSqrtTwo())
	{
		VALUE alpha = UnitCircle<VALUE>::sin(n, N) / (VALUE(2) * Q),
			cn = UnitCircle<VALUE>::cos(n, N),
			b0 = (VALUE(1) - cn) / VALUE(2),
			b1 = VALUE(1) - cn,
			b2 = (VALUE(1) - cn) / VALUE(2),
			a0 = VALUE(1) + alpha,
			a1 = -VALUE(2) * cn,
			a2 = VALUE(1) - alpha;
		b0a0 = b0 / a0;
		b1a0 = b1 / a0;
		b2a0 = b2 / a0;
		a1a0 = a1 / a0;
		a2a0 = a2 / a0;
	}
""", """	void set(VALUE b0, VALUE b1, VALUE b2, VALUE a0, VALUE a1, VALUE a2)
	{
		VALUE scale = VALUE(1) / a0;
		b0a0 = b0 * scale;
		b1a0 = b1 * scale;
		b2a0 = b2 * scale;
		a1a0 = a1 * scale;
		a2a0 = a2 * scale;
	}
	void lowpass(int n, int N, VALUE Q = Const<VALUE>::InvSqrtTwo())
	{
		VALUE alpha = UnitCircle<VALUE>::sin(n, N) / (VALUE(2) * Q),
			cn = UnitCircle<VALUE>::cos(n, N),
			b1 = VALUE(1) - cn;
		set(b1 / VALUE(2), b1, b1 / VALUE(2), VALUE(1) + alpha, -VALUE(2) * cn, VALUE(1) - alpha);
	}
"""), ("""		TYPE y0 = b0a0*x0 + b1a0*x1 + b2a0*x2
			- a1a0*y1 - a2a0*y2;
""", """		TYPE y0 = (b2a0*x2 - a2a0*y2) + (b1a0*x1 - a1a0*y1) + b0a0*x0;
"""))
rewrite("biquad-transposed", "biquad.hh", "C11 C15 C25", ("""		TYPE y0 = b0a0*x0 + b1a0*x1 + b2a0*x2
			- a1a0*y1 - a2a0*y2;
		x2 = x1; x1 = x0;
		y2 = y1; y1 = y0;
		return y0;
""", """		const TYPE xs[3] = { x0, x1, x2 }, ys[2] = { y1, y2 };
		const VALUE bs[3] = { b0a0, b1a0, b2a0 }, as[2] = { a1a0, a2a0 };
		TYPE sum(0);
		for (int i = 0; i < 3; ++i)
			sum += bs[i] * xs[i];
		for (int i = 0; i < 2; ++i)
			sum -= as[i] * ys[i];
		x2 = x1; x1 = x0;
		y2 = y1; y1 = sum;
		return sum;
"""))
rewrite("ema-step", "ema.hh", "C11 C15 C25 C28", ("		return prev = lerp(prev, input, alpha);", "		prev += alpha * (input - prev);\n		return prev;"),
 ("			prev[i] = input = lerp(prev[i], input, alpha);", "			input = prev[i] += alpha * (input - prev[i]);"))
rewrite("blockdc-order", "blockdc.hh", "C11 C15 C25 C28", ("		TYPE y0 = b * (x0 - x1) + a * y1;\n		x1 = x0; y1 = y0;\n		return y0;", "		y1 = a * y1 + b * (x0 - x1);\n		x1 = x0;\n		return y1;"),
 ("		a = VALUE(s - 1) / VALUE(s);\n		b = (VALUE(1) + a) / VALUE(2);", "		VALUE r = VALUE(1) / VALUE(s);\n		a = VALUE(1) - r;\n		b = VALUE(1) - r / VALUE(2);"))
rewrite("blockdc-distributed", "blockdc.hh", "C11 C15 C25 C28", ("		TYPE y0 = b * (x0 - x1) + a * y1;", "		TYPE y0 = b * x0 - b * x1 + a * y1;"))
rewrite("hilbert-ring", "hilbert.hh", "C10 C11 C15 C25 C29", ("""		for (int i = 0; i < TAPS-1; ++i)
			real[i] = real[i+1];
		real[TAPS-1] = input;
		return complex_type(re, im);
""", """		std::copy(real + 1, real + TAPS, real);
		real[TAPS-1] = input;
		return complex_type(re, im);
"""), ("""		value_type im = imco[0] * (real[(TAPS-1)/2-1] - real[(TAPS-1)/2+1]);
		for (int i = 1; i < (TAPS-1)/4; ++i)
""", """		value_type im = 0;
		for (int i = (TAPS-1)/4-1; i >= 0; --i)
"""))
rewrite("cdc-flag", "cdc.hh", "C11 C15 C25 C29", ("	bool sign;\n", "	int turn;\n"), (": sign(false)", ": turn(1)"), ("		sign = !sign;", "		turn = -turn;"),
 ("sign ? in1 : -in1", "turn < 0 ? in1 : -in1"), ("sign ? in0 : -in0", "value_type(-turn) * in0"))
rewrite("amd-clamp", "amd.hh", "C11 C15 C21", ("""		avg = lerp(avg, amp, amp < avg ? dec : att);
		avg = min(max(avg, lo), hi);
		amp /= avg;
		return (amp * (value_type(1)+idx) - value_type(1)) / idx;
""", """		value_type step = amp < avg ? dec : att;
		avg += step * (amp - avg);
		if (avg < lo)
			avg = lo;
		if (avg > hi)
			avg = hi;
		return (amp / avg * (value_type(1)+idx) - value_type(1)) / idx;
"""))
rewrite("fmd-product", "fmd.hh", "C11 C15 C22", ("		value_type phase = arg(input / prev);\n", "		value_type phase = arg(input * conj(prev));\n"),
 ("		value_type delta = phase - prev;\n		delta = wrap_around(delta);\n		prev = phase;\n		return scale * delta;", "		value_type before = prev;\n		prev = phase;\n		return wrap_around(phase - before) * scale;"))
rewrite("lms-backwards", "lms.hh", "C10 C11 C15 C20", ("""		for (int i = 0; i < SIZE; ++i)
			estimate += filter[i] * hist[i];
		TYPE error = desired - estimate;
		TYPE power = 0;
		for (int i = 0; i < SIZE; ++i)
			power += hist[i] * hist[i];
		if (power == 0)
			return error;
		TYPE rate = mu / power;
		for (int i = 0; i < SIZE; ++i)
			filter[i] += rate * error * hist[i];
""", """		TYPE power = 0;
		for (int i = SIZE - 1; i >= 0; --i) {
			estimate += hist[i] * filter[i];
			power += hist[i] * hist[i];
		}
		TYPE error = desired - estimate;
		if (power == 0)
			return error;
		TYPE step = mu * error / power;
		for (int i = 0; i < SIZE; ++i)
			filter[i] += step * hist[i];
"""))
rewrite("resampler-loop", "resampler.hh", "C10 C11 C15 C16 C26", ("""		again:
		IO sum = 0;
		for (int s = 0; s < TAPS; ++s) {
			TYPE k = s + dpos;
			sum += lpf(k) * buf[s];
		}
		output[samples++] = sum;
		dpos += delta;
		if (dpos > TYPE(0.5)) {
			dpos -= TYPE(1);
			goto again;
		}
		return samples;
""", """		while (true) {
			IO sum = 0;
			for (int s = TAPS - 1; s >= 0; --s)
				sum += buf[s] * lpf(TYPE(s) + dpos);
			output[samples++] = sum;
			dpos += delta;
			if (!(dpos > TYPE(0.5)))
				return samples;
			dpos -= TYPE(1);
		}
"""))
rewrite("resampler-block", "resampler.hh", "C12 C26", ("""			IO sum = 0;
			double x = i * ratio;
			int s0 = nearbyint(x);
			int s1 = s0 + TAPS;
			if (s0 < 0 || s1 > samples)
				continue;
			for (int s = s0; s < s1; ++s) {
				TYPE k = s - x;
				sum += lpf(k) * input[s * stride];
			}
			output[(i + (TAPS - 1) / 2) * stride] = sum;
""", """			double x = i * ratio;
			int s0 = nearbyint(x);
			if (s0 >= 0 && s0 <= samples - TAPS) {
				const IO *in = input + s0 * stride;
				IO sum = 0;
				for (int t = 0; t < TAPS; ++t)
					sum += lpf(TYPE(s0 + t - x)) * in[t * stride];
				output[(i + (TAPS - 1) / 2) * stride] = sum;
			}
"""))
rewrite("theilsen-stl", "theil_sen.hh", "C10 C11 C12 C26", ("slope_ = quick_select(temp_, count/2, count);", "std::nth_element(temp_, temp_ + count/2, temp_ + count);\n		slope_ = temp_[count/2];"),
 ("yint_ = quick_select(temp_, count/2, count);", "quick_sort(temp_, count);\n		yint_ = temp_[count/2];"))
rewrite("median-helper", "repeated_median.hh", "C12 C26", ("""template <typename TYPE, int SIZE>
class RepeatedMedianEstimator
""", """template <typename TYPE>
static TYPE median_of(TYPE *a, int n)
{
	return quick_select(a, n/2, n);
}

template <typename TYPE, int SIZE>
class RepeatedMedianEstimator
"""), ("quick_select(inner_, count/2, count)", "median_of(inner_, count)"), ("quick_select(outer_, LEN/2, LEN)", "median_of(outer_, LEN)"))
rewrite("regression-deviations", "regression.hh", "C12 C26", ("""			varX += (x[i] - avgX) * (x[i] - avgX);
			covXY += (x[i] - avgX) * (y[i] - avgY);
""", """			TYPE dx = x[i] - avgX, dy = y[i] - avgY;
			covXY += dx * dy;
			varX += dx * dx;
"""), ("""			varX += (dx * (i - midL)) * (dx * (i - midL));
			covXY += (dx * (i - midL)) * (y[i] - avgY);
""", """			TYPE d = dx * (i - midL);
			varX += d * d;
			covXY += d * (y[i] - avgY);
"""))
rewrite("quick-stl", "quick.hh", "C10 C12 C26", ("	QUICK::sort(a, 0, n-1);", "	std::sort(a, a + n);"), ("	QUICK::select(a, 0, n-1, k);", "	std::nth_element(a, a + k, a + n);"))
rewrite("quick-shorter", "quick.hh", "C12 C26", ("h - l < 32", "h - l < 8"), ("		TYPE t = a[i];\n		for (j = i; j > l && t < a[j-1]; --j)", "		TYPE t = a[i];\n		j = i;\n		for (; j > l && !(t >= a[j-1]); --j)"))
rewrite("fdzp-fill", "fdzp.hh", "C10 C11 C12 C27", ("""		for (int i = INPUT/2+1; i < OUTPUT-INPUT/2; ++i)
			tmp[i] = 0;
""", """		std::fill(tmp + INPUT/2+1, tmp + OUTPUT-INPUT/2, CMPLX(0));
"""))
rewrite("circle-libm", "unit_circle.hh", "C16 C17 C25 C27 C29 C31", ("""		return
			8*n <-7*N ? cosine_approx(rad(n+N, N)) :""", """		if (N)
			return std::cos(rad(n, N));
		return
			8*n <-7*N ? cosine_approx(rad(n+N, N)) :"""))
rewrite("window-halves", "window.hh", "C16 C25 C26 C29", ("		return TYPE(0.5) * (TYPE(1) - UnitCircle<TYPE>::cos(n, N - 1));", "		return TYPE(0.5) - UnitCircle<TYPE>::cos(n, N - 1) / TYPE(2);"),
 ("		for (int n = 1; n < 35; ++n) {\n			val *= x / TYPE(2 * n);\n			if (sum.same(val * val))\n				return sum();\n		}", "		TYPE half = x / TYPE(2);\n		for (int n = 1; n < 50; ++n) {\n			val = val * half / TYPE(n);\n			sum(val * val);\n		}"))
rewrite("filter-direct", "filter.hh", "C25 C29", ("		return f * sinc(f * x);\n	}\n};\n\ntemplate <typename TYPE>\nclass LowPass2", "		return TYPE(0) == x ? f : sin(Const<TYPE>::Pi() * f * x) / (Const<TYPE>::Pi() * x);\n	}\n};\n\ntemplate <typename TYPE>\nclass LowPass2"))
rewrite("coeffs-scale", "coeffs.hh", "C11 C12 C29", ("			w[n] /= divisor * abs(sum);", "			w[n] *= TYPE(1) / (divisor * abs(sum));"))
rewrite("normalize-reciprocal", "normalize.hh", "C11 C15 C28", ("		TYPE amp = sqrt(TYPE(2) * lpf(tmp * tmp));\n		return tmp / amp;", "		TYPE power = lpf(tmp * tmp);\n		return tmp / sqrt(power + power);"))
rewrite("spline-horner", "spline.hh", "C10 C11 C16 C26 C30", ("		return A[k] + t * (B[k] + t * (C[k] + t * D[k]));", "		TYPE_T r = D[k] * t + C[k];\n		r = r * t + B[k];\n		return r * t + A[k];".replace("TYPE_T", "OTYPE")))
rewrite("complex-fields", "complex.hh", "C10 C11 C17 C20 C22 C27 C31")
rewrite("complex-by-norm", "complex.hh", "C11 C16 C17 C20 C22 C25 C27 C31", ("""	return Complex<T>((a.real() * b.real() + a.imag() * b.imag()) / (b.real() * b.real() + b.imag() * b.imag()),
			(a.imag() * b.real() - a.real() * b.imag()) / (b.real() * b.real() + b.imag() * b.imag()));
""", """	T n = b.real() * b.real() + b.imag() * b.imag();
	return Complex<T>((b.imag() * a.imag() + b.real() * a.real()) / n, (b.real() * a.imag() - b.imag() * a.real()) / n);
"""))
rewrite("complex-in-place", "complex.hh", "C11 C17 C20 C22 C25 C27 C31", ("""		return *this = *this - a;
""", """		re -= a.re;
		im -= a.im;
		return *this;
"""), ("""	inline Complex<T> operator *= (Complex<T> a)
	{
		return *this = a * *this;
""", """	inline Complex<T> operator *= (Complex<T> a)
	{
		T r = re * a.re - im * a.im;
		im = re * a.im + im * a.re;
		re = r;
		return *this;
"""))
rewrite("complex-hypot", "complex.hh", "C17 C21 C31", ("	return sqrt(norm(a));", "	return hypot(a.real(), a.imag());"))
rewrite("spline-second-derivatives", "spline.hh", "C10 C11 C16 C26 C30", ("""			B[i] = Y[(i+1)*STRIDE] - Y[i*STRIDE] - (c + ITYPE(2) * C[i]) / ITYPE(3);
			D[i] = (c - C[i]) / ITYPE(3);
""", """			D[i] = (c - C[i]) / ITYPE(3);
			B[i] = Y[(i+1)*STRIDE] - Y[i*STRIDE] - C[i] - D[i];
"""))
rewrite("spline-limits", "spline.hh", "C16 C26 C30", ("""		int k = tx;
		ITYPE t = tx - ITYPE(k);
		if (k < 0) {
			t = tx;
			k = 0;
		}
		if (k >= KNOTS - 1) {
			t = tx - ITYPE(KNOTS-2);
			k = KNOTS-2;
		}
""", """		int k = tx < ITYPE(1) ? 0 : tx >= ITYPE(KNOTS-1) ? KNOTS-2 : int(tx);
		ITYPE t = tx - ITYPE(k);
"""))
rewrite("hermite-expanded", "spline.hh", "C30", ("		return (ITYPE(1) + ITYPE(2) * t) * (ITYPE(1) - t) * (ITYPE(1) - t);", "		return ITYPE(1) - h01(t);"), ("		return t * t * (t - ITYPE(1));", "		return t * t * t - t * t;"))
rewrite("hermite-upper", "spline.hh", "C30", ("std::lower_bound(X, X+n, x)", "std::upper_bound(X, X+n, x)"))
rewrite("lerp-step", "utils.hh", "C11 C15 C21 C25 C28 C31", ("	return (X(1) - x) * a + x * b;", "	return a + x * (b - a);"))
rewrite("clamp-minmax", "utils.hh", "C21 C31", ("	return x < a ? a : x > b ? b : x;", "	return std::min(std::max(x, a), b);"))
rewrite("sinc-product", "utils.hh", "C16 C26 C29 C31", ("	return TYPE(0) == x ? TYPE(1) : sin(Const<TYPE>::Pi() * x) / (Const<TYPE>::Pi() * x);", "	if (x == TYPE(0))\n		return TYPE(1);\n	TYPE a = x * Const<TYPE>::Pi();\n	return sin(a) / a;"))
rewrite("density-square", "utils.hh", "C31", ("	return exp(-pow((x - m) / s, TYPE(2)) / TYPE(2)) / (Const<TYPE>::SqrtTwoPi() * s);", "	TYPE d = (x - m) / s;\n	return exp(TYPE(-0.5) * d * d) / (s * Const<TYPE>::SqrtTwoPi());"))
rewrite("atan-libm", "atan2.hh", "C22 C31", ("	return x >= TYPE(0) ? atan_approx(x) : -atan_approx(-x);", "	return std::atan(x);"))
rewrite("atan-sign", "atan2.hh", "C22 C31", ("""	if (x < TYPE(0))
		return phase > TYPE(0) ?
			phase - Const<TYPE>::Pi() :
			phase + Const<TYPE>::Pi();
	return phase;
""", """	if (x >= TYPE(0))
		return phase;
	return phase + copysign(Const<TYPE>::Pi(), y);
"""))
rewrite("decibel-libm", "decibel.hh", "C25 C31", ("#if 0\n", "#if 1\n"))
rewrite("decibel-order", "decibel.hh", "C25 C31", ("	return scale * x * (xx *", "	x *= scale;\n	return x * (xx *"))
rewrite("exp10-libm", "exp.hh", "C25 C31", ("	TYPE i = nearbyint(x * LOG210);", "	return std::pow(TYPE(10), x);\n	TYPE i = nearbyint(x * LOG210);"))
rewrite("ldexp-libm", "exp.hh", "C25 C31", ("	int a = n < 0 ? -n : n;", "	return std::ldexp(x, n);\n	int a = n < 0 ? -n : n;"))
rewrite("cordic-sign", "cordic.hh", "C10 C12 C31", ("""			int re = real;
			int im = imag;
			if (imag < 0) {
				angle -= LUT[i];
				re -= imag >> i;
				im += real >> i;
			} else {
				angle += LUT[i];
				re += imag >> i;
				im -= real >> i;
			}
			real = re; imag = im;
""", """			int sign = imag < 0 ? -1 : 1;
			int turned = imag - sign * (real >> i);
			real += sign * (imag >> i);
			imag = turned;
			angle += sign * LUT[i];
"""))
rewrite("hilbert-outwards", "hilbert.hh", "C11 C15 C25 C29", ("""		value_type im = imco[0] * (real[(TAPS-1)/2-1] - real[(TAPS-1)/2+1]);
		for (int i = 1; i < (TAPS-1)/4; ++i)
""", """		value_type im = 0;
		for (int i = (TAPS-1)/4-1; i >= 0; --i)
"""))
rewrite("cdc-separate", "cdc.hh", "C11 C15 C25 C29", ("""		value_type im = imco[0] * (imag[(TAPS-1)/4-1] + imag[(TAPS-1)/4]);
		for (int i = 1; i < (TAPS-1)/4; ++i)
			im += imco[i] * (imag[(TAPS-1)/4-1-i] + imag[(TAPS-1)/4+i]);
""", """		value_type im = 0;
		for (int i = 0; i < (TAPS-1)/4; ++i)
			im += imco[i] * imag[(TAPS-1)/4-1-i];
		for (int i = 0; i < (TAPS-1)/4; ++i)
			im += imco[i] * imag[(TAPS-1)/4+i];
"""))

def comment(text):
    # a remark behind every function head and a statement without effect
    return re.sub(r'(\n\t\{\n)(?=\t\t)', r'\1\t\t// remark\n\t\t;\n', text)
rewrite("wav-remarks", "wav.hh", "C01 C02 C03 C04 C05 C06 C23")
rewrite("pnm-remarks", "netpbm.hh", "C07 C08 C09")

def main():
    want = sys.argv[1:]
    seconds = os.environ.get("SIM_SECONDS", "10")
    only = os.environ.get("ONLY", "").split()
    bad = 0
    for name, file, checks, pairs in R:
        if want and name not in want:
            continue
        with tempfile.TemporaryDirectory() as tmp:
            repo, verif = tmp + "/repo", tmp + "/verif"
            os.mkdir(repo)
            for f in os.listdir("/repo"):
                if f.endswith(".hh"):
                    shutil.copy("/repo/" + f, repo)
            os.mkdir(verif)
            shutil.copytree("/verif/sim", verif + "/sim")
            for f in ("run.py", "checks.py", "known-findings.txt"):
                shutil.copy("/verif/" + f, verif)
            text = open(repo + "/" + file).read()
            for old, new in pairs:
                assert old in text, (name, old)
                text = text.replace(old, new)
            if not pairs:
                text = comment(text)
            open(repo + "/" + file, "w").write(text)
            for c in checks:
                if only and c not in only:
                    continue
                p = subprocess.run(["python3", "run.py", c, "quick"], cwd=verif, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                                   env=dict(os.environ, VERIF_REPO=repo, SIM_SECONDS=seconds))
                out = p.stdout.strip().split("\n")
                note = [l for l in out if "violated" in l or "left out" in l or "error" in l]
                print(name, c, "quiet" if p.returncode == 0 else "ALARM %d" % p.returncode, " ".join(note)[:300], flush=True)
                bad += p.returncode != 0
    print("DONE, %d alarms" % bad)
    return bad > 0

sys.exit(main())
