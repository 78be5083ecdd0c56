From 2375259e12b95e60567e8a278554842d91a1ad1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:22 +0000
Subject: [PATCH 1/9] fix: ReadWAV is not good and delivers nothing after a
 rejected header

The members stayed uninitialised when the file could not be opened or its
header was rejected. good() could still be true then, and read() used
whatever channel count was in memory.
---
 wav.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wav.hh b/wav.hh
index 94c8e95..33b6231 100644
--- a/wav.hh
+++ b/wav.hh
@@ -15,8 +15,8 @@ template <typename TYPE>
 class ReadWAV : public ReadPCM<TYPE>
 {
 	std::ifstream is;
-	int bits_, bytes, rate_, channels_, frames_;
-	int offset, factor;
+	int bits_ = 0, bytes = 0, rate_ = 0, channels_ = 0, frames_ = -1;
+	int offset = 0, factor = 0;
 	int readLE(int b)
 	{
 		int v = 0;
@@ -128,6 +128,8 @@ public:
 	}
 	void read(TYPE *buf, int num, int stride = -1)
 	{
+		if (!factor)
+			return;
 		if (stride < 0)
 			stride = channels_;
 		for (int n = 0; n < num; ++n) {
@@ -141,7 +143,7 @@ public:
 	}
 	bool good()
 	{
-		return is.good();
+		return factor && is.good();
 	}
 	void skip(int num)
 	{
-- 
2.43.0


From 69428d9c08cf0741e67862dc64c414bc1624708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:50 +0000
Subject: [PATCH 2/9] fix: ReadWAV rejects a damaged sample rate and headers
 without channels

The product of rate and frame size overflowed, so that a damaged rate could
still match the byte rate. Zero channels led to a division by zero.
---
 wav.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wav.hh b/wav.hh
index 33b6231..ddbd01e 100644
--- a/wav.hh
+++ b/wav.hh
@@ -80,7 +80,7 @@ public:
 		bytes = bits_ / 8;
 		if (bytes * channels_ != BlockAlign)
 			return;
-		if (rate_ * bytes * channels_ != ByteRate)
+		if (channels_ < 1 || rate_ < 1 || (long long)rate_ * BlockAlign != (unsigned)ByteRate)
 			return;
 		if (Subchunk1Size == 18) {
 			int ExtSize = readLE(2);
-- 
2.43.0


From 3937124c4f5c68f2ed0245ea3f181aaf99eb773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:55 +0000
Subject: [PATCH 3/9] fix: ReadWAV takes the number of frames from the size of
 the data

The frame count of the fact chunk was trusted without any check. A damaged
one was reported as it is, and a reader opening the file while it was being
finalised could see zero frames.
---
 wav.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/wav.hh b/wav.hh
index ddbd01e..ed956cf 100644
--- a/wav.hh
+++ b/wav.hh
@@ -93,7 +93,7 @@ public:
 			int SubchunkSize = readLE(4);
 			if (SubchunkSize != 4)
 				return;
-			frames_ = readLE(4);
+			readLE(4); // FrameCount
 		}
 		char Subchunk2ID[4];
 		is.read(Subchunk2ID, 4);
@@ -106,8 +106,7 @@ public:
 		} else {
 			if (Subchunk2Size + overhead - 8 != ChunkSize)
 				return;
-			if (Subchunk1Size == 16)
-				frames_ = Subchunk2Size / (bytes * channels_);
+			frames_ = Subchunk2Size / (bytes * channels_);
 		}
 		switch (bits_) {
 			case 8:
-- 
2.43.0


From a1eb44c195daba16f49429fd34ac3d3a5f486191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:02:46 +0000
Subject: [PATCH 4/9] fix: ReadPNM is not good after a rejected or unsupported
 header

The members stayed uninitialised when the header was rejected and good()
was still true. Files with a maximum value of zero or above 255, which
have two bytes per value, were read as if they had one.
---
 netpbm.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/netpbm.hh b/netpbm.hh
index 6d78ac8..feae4db 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -15,8 +15,8 @@ template <typename TYPE>
 class ReadPNM : public ReadPEL<TYPE>
 {
 	std::ifstream is;
-	int width_, height_, maxval_;
-	bool mono_;
+	int width_ = 0, height_ = 0, maxval_ = 0;
+	bool mono_ = false;
 
 	TYPE linear(int val)
 	{
@@ -68,7 +68,7 @@ public:
 			for (num[i] = 0; digit(c); c = is.get())
 				num[i] = 10 * num[i] + value(c);
 		}
-		if (!space(c))
+		if (!space(c) || num[2] < 1 || num[2] > 255)
 			return;
 		width_ = num[0];
 		height_ = num[1];
@@ -98,7 +98,7 @@ public:
 	}
 	bool good()
 	{
-		return is.good();
+		return maxval_ && is.good();
 	}
 	bool mono()
 	{
-- 
2.43.0


From d27837d83204af05f75b3bc5803560d2d8c24d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:32 +0000
Subject: [PATCH 5/9] fix: WritePNM writes its header independent of the global
 locale

With a global locale that groups digits, an image wider than 999 pixels got
a header nobody can read.
---
 netpbm.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/netpbm.hh b/netpbm.hh
index feae4db..3fe5129 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -134,6 +134,7 @@ public:
 		width_(width), height_(height), maxval_(maxval), mono_(mono)
 	{
 		int number = mono ? 5 : 6;
+		os.imbue(std::locale::classic());
 		os << 'P' << number << ' ' << width << ' ' << height << ' ' << maxval << '\n';
 	}
 	void write(const TYPE *buf, int num, int stride = -1)
-- 
2.43.0


From 5dc8fad09e3205fdd874d9eaa57847e42d46b46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:46 +0000
Subject: [PATCH 6/9] fix: ReadPNM accepts comments after blanks and empty
 lines

A comment was only recognised when it directly followed the newline that
ended the field before it.
---
 netpbm.hh | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/netpbm.hh b/netpbm.hh
index 3fe5129..3cdd5ef 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -60,11 +60,9 @@ public:
 			return;
 		int num[3];
 		for (int i = 0; i < 3; ++i) {
-			if (newline(c))
-				for (c = is.get(); c == '#'; c = is.get())
+			for (; space(c) || c == '#'; c = is.get())
+				if (c == '#')
 					while (is.good() && !newline(is.get()));
-			while (space(c))
-				c = is.get();
 			for (num[i] = 0; digit(c); c = is.get())
 				num[i] = 10 * num[i] + value(c);
 		}
-- 
2.43.0


From 79b0a2d927be86d595070fed4416b259f0d5e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:21:23 +0000
Subject: [PATCH 7/9] fix: MovMax starts from the lowest value, not the
 smallest positive one

---
 movext.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movext.hh b/movext.hh
index ab9bf08..b66ffac 100644
--- a/movext.hh
+++ b/movext.hh
@@ -62,7 +62,7 @@ class MovMax
 {
 	MovExt<TYPE, std::equal_to<TYPE>, std::greater<TYPE>, NUM> movmax;
 public:
-	MovMax() : movmax(std::numeric_limits<TYPE>::min())
+	MovMax() : movmax(std::numeric_limits<TYPE>::lowest())
 	{
 	}
 	TYPE operator () (TYPE input)
-- 
2.43.0


From 852d5a783c5088258db920c3269825e6a448b16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:12:43 +0000
Subject: [PATCH 8/9] fix: zero padding of odd and of nearby sizes

Bin (INPUT+1)/2 of an odd size was never moved to its new place, and with
OUTPUT below one and a half times INPUT moved bins were cleared again or
overwrote the ones still to be moved.
---
 fdzp.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fdzp.hh b/fdzp.hh
index 09d71e4..5b8758a 100644
--- a/fdzp.hh
+++ b/fdzp.hh
@@ -23,14 +23,14 @@ public:
 	void operator ()(CMPLX *output, const CMPLX *input)
 	{
 		fwd(tmp, input);
+		for (int i = INPUT-1; i > INPUT/2; --i)
+			tmp[OUTPUT-INPUT+i] = tmp[i];
+		for (int i = INPUT/2+1; i < OUTPUT-INPUT/2; ++i)
+			tmp[i] = 0;
 		if (!(INPUT&1)) {
 			tmp[INPUT/2] *= VALUE(0.5);
 			tmp[OUTPUT-INPUT/2] = tmp[INPUT/2];
 		}
-		for (int i = (INPUT+1)/2+1; i < INPUT; ++i)
-			tmp[OUTPUT-INPUT+i] = tmp[i];
-		for (int i = (INPUT+1)/2+1; i < INPUT; ++i)
-			tmp[i] = 0;
 		bwd(output, tmp);
 		for (int i = 0; i < OUTPUT; ++i)
 			output[i] *= SCALE;
-- 
2.43.0


From 968034bf2d6f2dc92eb4a2ed83b7036c1a222be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:00:48 +0000
Subject: [PATCH 9/9] fix: exp10 and ldexp of exponents beyond 2^248 in double
 precision

---
 exp.hh | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/exp.hh b/exp.hh
index 6e822a4..a75d396 100644
--- a/exp.hh
+++ b/exp.hh
@@ -15,13 +15,16 @@ template <typename TYPE>
 TYPE ldexp(TYPE x, int n)
 {
 	int a = n < 0 ? -n : n;
-	int a8 = a / 8;
-	int ar = a - a8 * 8;
-	TYPE t = 1 << a8;
+	int a64 = a / 64;
+	int ar = a - a64 * 64;
+	TYPE t = 1ULL << a64;
 	t *= t;
 	t *= t;
 	t *= t;
-	t *= 1 << ar;
+	t *= t;
+	t *= t;
+	t *= t;
+	t *= 1ULL << ar;
 	return n < 0 ? x / t : x * t;
 }
 
-- 
2.43.0

