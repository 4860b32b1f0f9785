From d7898ca76ccf4db4605c6fd0487eb348d8b6fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 1/8] fix: remember a decoding error in the third character of
 a group

The stream decoder bails out on input that follows an error, except
when the invalid character was the third of its group of four: in that
case the error was not recorded in the state, and the next call to
base64_stream_decode() would continue as if nothing had happened.
---
 lib/arch/generic/dec_tail.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/arch/generic/dec_tail.c b/lib/arch/generic/dec_tail.c
index e64f724..0c8adef 100644
--- a/lib/arch/generic/dec_tail.c
+++ b/lib/arch/generic/dec_tail.c
@@ -55,6 +55,7 @@
 				}
 			}
 			// If we get here, there was an error:
+			st.eof = BASE64_EOF;
 			break;
 		}
 		*o++ = st.carry | (q >> 2);
-- 
2.43.0


From 91be9b441cd7395ec024c2c549aadb9a40b558b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 2/8] fix: honour BASE64_FORCE_AVX512 when a codec was already
 chosen

base64_stream_encode_init() only looked at the low eight flag bits, so an
encoder forced to AVX512 silently kept the codec of an earlier call.
---
 lib/lib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lib.c b/lib/lib.c
index 053931a..72c4949 100644
--- a/lib/lib.c
+++ b/lib/lib.c
@@ -18,7 +18,7 @@ void
 base64_stream_encode_init (struct base64_state *state, int flags)
 {
 	// If any of the codec flags are set, redo choice:
-	if (codec.enc == NULL || flags & 0xFF) {
+	if (codec.enc == NULL || flags & 0xFFFF) {
 		codec_choose(&codec, flags);
 	}
 	state->eof = 0;
-- 
2.43.0


From c9f7121fa8005d3c0e713afceacdebb7eb4b19c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:23 +0000
Subject: [PATCH 3/8] fix: report zero output bytes from a decoder that is not
 compiled in

base64_stream_decode() documents that *outlen is set to zero when the
function starts; the stub left it untouched.
---
 lib/codecs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/codecs.h b/lib/codecs.h
index f6af0e7..4de3f42 100644
--- a/lib/codecs.h
+++ b/lib/codecs.h
@@ -40,8 +40,8 @@ base64_dec_stub BASE64_DEC_PARAMS
 	(void) src;
 	(void) srclen;
 	(void) out;
-	(void) outlen;
 
+	*outlen = 0;
 	return -1;
 }
 
-- 
2.43.0


From da6d5d29088ebc28b84a3cac7b95d7686cc0c1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 4/8] Verification hooks: OpenMP threshold and I/O buffer size
 can be overridden

Both keep their values unless BASE64_VERIF_OMP_THRESHOLD or
BASE64_VERIF_BUFFER_SIZE is defined.
---
 bin/base64.c | 4 ++++
 lib/lib.c    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/bin/base64.c b/bin/base64.c
index 02dcd1e..15d2f25 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -38,7 +38,11 @@
 #include "../include/libbase64.h"
 
 // Size of the buffer for the "raw" (not base64-encoded) data in bytes.
+#ifdef BASE64_VERIF_BUFFER_SIZE
+#define BUFFER_RAW_SIZE BASE64_VERIF_BUFFER_SIZE
+#else
 #define BUFFER_RAW_SIZE (1024 * 1024)
+#endif
 
 // Size of the buffer for the base64-encoded data in bytes. The base64-encoded
 // data is 4/3 the size of the input, with some margin to be sure.
diff --git a/lib/lib.c b/lib/lib.c
index 72c4949..c9a1b38 100644
--- a/lib/lib.c
+++ b/lib/lib.c
@@ -93,7 +93,11 @@ base64_stream_decode
 
 	// Due to the overhead of initializing OpenMP and creating a team of
 	// threads, we require the data length to be larger than a threshold:
+	#ifdef BASE64_VERIF_OMP_THRESHOLD
+	#define OMP_THRESHOLD BASE64_VERIF_OMP_THRESHOLD
+	#else
 	#define OMP_THRESHOLD 20000
+	#endif
 
 	// Conditionally include OpenMP-accelerated codec implementations:
 	#include "lib_openmp.c"
-- 
2.43.0


From 7437398ad1ef2d86eef0035bea823f1c52980f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 5/8] fix: OpenMP output offsets overflowed on 32-bit targets
 for inputs over 1 GiB

---
 lib/lib_openmp.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index 6b87c52..12e20e9 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -53,7 +53,7 @@ base64_encode_openmp
 		for (i = 0; i < num_threads; i++)
 		{
 			// Feed each part of the string to the stream reader:
-			base64_stream_encode(&state, src + i * len, len, out + i * len * 4 / 3, &s);
+			base64_stream_encode(&state, src + i * len, len, out + i * (len / 3 * 4), &s);
 			sum += s;
 		}
 	}
@@ -63,10 +63,10 @@ base64_encode_openmp
 	state = initial_state;
 
 	// Encode the remaining bytes:
-	base64_stream_encode(&state, src + num_threads * len, last_len, out + num_threads * len * 4 / 3, &s);
+	base64_stream_encode(&state, src + num_threads * len, last_len, out + num_threads * (len / 3 * 4), &s);
 
 	// Finalize the stream by writing trailer if any:
-	base64_stream_encode_final(&state, out + num_threads * len * 4 / 3 + s, &t);
+	base64_stream_encode_final(&state, out + num_threads * (len / 3 * 4) + s, &t);
 
 	// Final output length is stream length plus tail:
 	sum += s + t;
@@ -116,7 +116,7 @@ base64_decode_openmp
 			int this_result;
 
 			// Feed each part of the string to the stream reader:
-			this_result = base64_stream_decode(&state, src + i * len, len, out + i * len * 3 / 4, &s);
+			this_result = base64_stream_decode(&state, src + i * len, len, out + i * (len / 4 * 3), &s);
 			sum += s;
 			result += this_result;
 		}
@@ -137,7 +137,7 @@ base64_decode_openmp
 	// So far so good, now decode whatever remains in the buffer. Reuse the
 	// initial state, since we are at a 4-byte boundary:
 	state = initial_state;
-	result = base64_stream_decode(&state, src + num_threads * len, last_len, out + num_threads * len * 3 / 4, &s);
+	result = base64_stream_decode(&state, src + num_threads * len, last_len, out + num_threads * (len / 4 * 3), &s);
 	sum += s;
 	*outlen = sum;
 
-- 
2.43.0


From 8149b8a6816c10845c963333440638c5fc0e5355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 6/8] fix: OpenMP decoding differed from serial decoding after
 errors and padding

Padding inside the input was accepted when it fell on a chunk's edge, the
state saved no error when the last chunk ended in padding, and the output
length was left unset after an error.
---
 lib/lib_openmp.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/lib_openmp.c b/lib/lib_openmp.c
index 12e20e9..15adde1 100644
--- a/lib/lib_openmp.c
+++ b/lib/lib_openmp.c
@@ -97,8 +97,9 @@ base64_decode_openmp
 
 			// Split the input string into num_threads parts, each
 			// part a multiple of 4 bytes. The remaining bytes will
-			// be done later:
-			len = srclen / (num_threads * 4);
+			// be done later, and include the last ones, so that
+			// any padding is not part of a parallel piece:
+			len = (srclen - 1) / (num_threads * 4);
 			len *= 4;
 			last_len = srclen - num_threads * len;
 
@@ -125,13 +126,19 @@ base64_decode_openmp
 	// If `result' equals `-num_threads', then all threads returned -1,
 	// indicating that the requested codec is not available:
 	if (result == -num_threads) {
+		*outlen = 0;
 		return -1;
 	}
 
 	// If `result' does not equal `num_threads', then at least one of the
-	// threads hit a decode error:
-	if (result != num_threads) {
-		return 0;
+	// threads hit a decode error. If a part gave fewer bytes than it has
+	// room for, then it contained padding, and whatever follows that is an
+	// error. Either way, decode again in order, to stop at the right place
+	// and to report the number of bytes decoded up to there:
+	if (result != num_threads || sum != num_threads * (len / 4 * 3)) {
+		state = initial_state;
+		result = base64_stream_decode(&state, src, srclen, out, outlen);
+		return (result && state.bytes == 0) ? result : 0;
 	}
 
 	// So far so good, now decode whatever remains in the buffer. Reuse the
-- 
2.43.0


From 25b93ad6b44f4f7f0a5ff49785f7011af1a12768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 7/8] fix: base64 -i dropped padding and kept double quotes

The lookup table of characters that are not garbage listed '"' where it meant
'='.
---
 bin/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/base64.c b/bin/base64.c
index 15d2f25..a6aef8f 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -380,7 +380,7 @@ find_garbage (const char *p, const size_t avail)
 		['z'] = 1,
 		['0'] = 1, ['1'] = 1, ['2'] = 1, ['3'] = 1, ['4'] = 1,
 		['5'] = 1, ['6'] = 1, ['7'] = 1, ['8'] = 1, ['9'] = 1,
-		['+'] = 1, ['/'] = 1, ['"'] = 1,
+		['+'] = 1, ['/'] = 1, ['='] = 1,
 	};
 
 	for (size_t len = 0; len < avail; len++) {
-- 
2.43.0


From 7a1ccd899b45c510de3036c2edceb31a26f581ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 8/8] fix: emulated writev lost count of written vectors on a
 failing write

---
 bin/base64.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bin/base64.c b/bin/base64.c
index a6aef8f..fefd221 100644
--- a/bin/base64.c
+++ b/bin/base64.c
@@ -114,12 +114,12 @@ writev (const int fd, const struct iovec *iov, int iovcnt)
 
 	while (iovcnt-- > 0) {
 
-		// Write the vector; propagate errors back to the caller. Note
-		// that this loses information about how much vectors have been
-		// successfully written, but that also seems to be the case
-		// with the real function. The API is somewhat flawed.
+		// Write the vector; propagate errors back to the caller. If
+		// vectors have already been written, report those first, like
+		// the real function does. The caller would otherwise write
+		// them again when it retries.
 		if ((r = write(fd, iov->iov_base, iov->iov_len)) < 0) {
-			return r;
+			return (nwrite > 0) ? nwrite : r;
 		}
 
 		// Update the total write count.
-- 
2.43.0

