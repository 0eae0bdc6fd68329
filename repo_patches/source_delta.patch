From 5b71db8e717b659e466f6aee4f07e8e48a90606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 1/4] fix: round only once when converting floats to
 takum_linear8/16

---
 src/conversion.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index af7a9bf..46f402a 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -96,15 +96,15 @@ takum64_from_float32(float f)
 takum_linear8
 takum_linear8_from_float32(float f)
 {
-	return (takum_linear8)codec_takum8_from_s_and_l(
-		f < 0, (float)codec_linear_l_from_float32(f));
+	return takum_linear8_from_takum_linear64(
+		takum_linear64_from_float32(f));
 }
 
 takum_linear16
 takum_linear16_from_float32(float f)
 {
 	return (takum_linear16)codec_takum16_from_s_and_l(
-		f < 0, (float)codec_linear_l_from_float32(f));
+		f < 0, codec_linear_l_from_float32(f));
 }
 
 takum_linear32
@@ -177,15 +177,15 @@ takum64_from_float64(double f)
 takum_linear8
 takum_linear8_from_float64(double f)
 {
-	return (takum_linear8)codec_takum8_from_s_and_l(
-		f < 0, (float)codec_linear_l_from_float64(f));
+	return takum_linear8_from_takum_linear64(
+		takum_linear64_from_float64(f));
 }
 
 takum_linear16
 takum_linear16_from_float64(double f)
 {
-	return (takum_linear16)codec_takum16_from_s_and_l(
-		f < 0, (double)codec_linear_l_from_float64(f));
+	return takum_linear16_from_takum_linear64(
+		takum_linear64_from_float64(f));
 }
 
 takum_linear32
@@ -257,15 +257,15 @@ takum64_from_extended_float(long double f)
 takum_linear8
 takum_linear8_from_extended_float(long double f)
 {
-	return (takum_linear8)codec_takum8_from_s_and_l(
-		f < 0, (float)codec_linear_l_from_extended_float(f));
+	return takum_linear8_from_takum_linear64(
+		takum_linear64_from_extended_float(f));
 }
 
 takum_linear16
 takum_linear16_from_extended_float(long double f)
 {
-	return (takum_linear16)codec_takum16_from_s_and_l(
-		f < 0, (double)codec_linear_l_from_extended_float(f));
+	return takum_linear16_from_takum_linear64(
+		takum_linear64_from_extended_float(f));
 }
 
 takum_linear32
-- 
2.43.0


From 94db81c84d10e9c746b092e406720008687d05ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 2/4] fix: round only once in takum_linear64_to_float32

---
 src/conversion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conversion.c b/src/conversion.c
index 46f402a..3be9016 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -678,7 +678,7 @@ takum_linear32_to_float32(takum_linear32 t)
 float
 takum_linear64_to_float32(takum_linear64 t)
 {
-	return (float)codec_s_and_linear_l_to_float64(
+	return (float)codec_s_and_linear_l_to_extended_float(
 		t < 0, codec_takum64_to_l((takum64)t));
 }
 
-- 
2.43.0


From e802954ba81d572ce72c23df77c02fef6b84e3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:16 +0000
Subject: [PATCH 3/4] fix: odd roots of negative numbers in the linear takum
 types

---
 src/root.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/root.c b/src/root.c
index e116d31..2af1174 100644
--- a/src/root.c
+++ b/src/root.c
@@ -75,7 +75,10 @@ takum_linear8_root(takum_linear8 t, int64_t n)
 	}
 
 	f = takum_linear8_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = powl(fabsl(f), 1.0l / (long double)n);
+	if (t < 0) {
+		res = -res;
+	}
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
@@ -94,7 +97,10 @@ takum_linear16_root(takum_linear16 t, int64_t n)
 	}
 
 	f = takum_linear16_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = powl(fabsl(f), 1.0l / (long double)n);
+	if (t < 0) {
+		res = -res;
+	}
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
@@ -113,7 +119,10 @@ takum_linear32_root(takum_linear32 t, int64_t n)
 	}
 
 	f = takum_linear32_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = powl(fabsl(f), 1.0l / (long double)n);
+	if (t < 0) {
+		res = -res;
+	}
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
@@ -132,7 +141,10 @@ takum_linear64_root(takum_linear64 t, int64_t n)
 	}
 
 	f = takum_linear64_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = powl(fabsl(f), 1.0l / (long double)n);
+	if (t < 0) {
+		res = -res;
+	}
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
-- 
2.43.0


From 370927c5f69138d5684500c1f603ee1e86ea0e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:49 +0000
Subject: [PATCH 4/4] fix: do not negate NaR in absolute

-t overflows for NaR of the 32 and 64 bit types, which is undefined.
---
 src/absolute.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/absolute.c b/src/absolute.c
index e54ce80..e37ffb0 100644
--- a/src/absolute.c
+++ b/src/absolute.c
@@ -18,13 +18,13 @@ takum16_absolute(takum16 t)
 takum32
 takum32_absolute(takum32 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	return (t < 0 && t != TAKUM32_NAR) ? -t : t;
 }
 
 takum64
 takum64_absolute(takum64 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	return (t < 0 && t != TAKUM64_NAR) ? -t : t;
 }
 
 takum_linear8
@@ -42,11 +42,11 @@ takum_linear16_absolute(takum_linear16 t)
 takum_linear32
 takum_linear32_absolute(takum_linear32 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	return (t < 0 && t != TAKUM_LINEAR32_NAR) ? -t : t;
 }
 
 takum_linear64
 takum_linear64_absolute(takum_linear64 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	return (t < 0 && t != TAKUM_LINEAR64_NAR) ? -t : t;
 }
-- 
2.43.0

