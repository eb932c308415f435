From 847ae770f182e2425d48c0d2f54804c9e39046bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 1/6] fix: wipe and free the expanded AES key when writing
 fails

scryptenc_file and scryptdec_file_copy freed the AES-CTR stream but not the
expanded key if fwrite failed, so the key was left in memory.
---
 lib/scryptenc/scryptenc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index 5f87382..affbff8 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -627,6 +627,7 @@ scryptenc_file(FILE * infile, FILE * outfile,
 		HMAC_SHA256_Update(&hctx, buf, readlen);
 		if (fwrite(buf, 1, readlen, outfile) < readlen) {
 			crypto_aesctr_free(AES);
+			crypto_aes_key_free(key_enc_exp);
 			rc = SCRYPT_EWRFILE;
 			goto err1;
 		}
@@ -845,6 +846,7 @@ scryptdec_file_copy(struct scryptdec_file_cookie * C, FILE * outfile)
 		crypto_aesctr_stream(AES, buf, buf, buflen - 32);
 		if (fwrite(buf, 1, buflen - 32, outfile) < buflen - 32) {
 			crypto_aesctr_free(AES);
+			crypto_aes_key_free(key_enc_exp);
 			rc = SCRYPT_EWRFILE;
 			goto err0;
 		}
-- 
2.43.0


From 79ea8402a645a7042f16e65e7139b38f4aecc962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 2/6] fix: do not shift out of range or overflow when
 displaying parameters

scryptdec_file_printparams passed unchecked values from the header on to
display_params, where logN >= 64 was an out-of-range shift; and the minimum
amount of memory wrapped for large values of r or N.  Refuse parameters
which can never be valid, and saturate instead of wrapping.
---
 lib/scryptenc/scryptenc.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index affbff8..ce1db43 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -72,10 +72,18 @@ display_params(int logN, uint32_t r, uint32_t p, size_t memlimit,
     double opps, double maxtime)
 {
 	uint64_t N = (uint64_t)(1) << logN;
-	uint64_t mem_minimum = 128 * r * N;
-	double expected_seconds = opps > 0 ? (double)(4 * N * r * p) / opps : 0;
+	uint64_t mem_minimum;
+	double expected_seconds = opps > 0 ?
+	    4.0 * (double)N * (double)r * (double)p / opps : 0;
 	char * human_memlimit = humansize(memlimit);
-	char * human_mem_minimum = humansize(mem_minimum);
+	char * human_mem_minimum;
+
+	/* Minimum memory required, saturating instead of overflowing. */
+	if (UINT64_MAX / N / 128 < r)
+		mem_minimum = UINT64_MAX;
+	else
+		mem_minimum = 128 * (uint64_t)(r) * N;
+	human_mem_minimum = humansize(mem_minimum);
 
 	/* Parameters */
 	fprintf(stderr, "Parameters used: N = %" PRIu64 "; r = %" PRIu32
@@ -334,6 +342,13 @@ scryptdec_file_printparams(FILE * infile)
 	r = be32dec(&header[8]);
 	p = be32dec(&header[12]);
 
+	/* Sanity-check values. */
+	if ((logN < 1) || (logN > 63) || (r == 0) || (p == 0) ||
+	    ((uint64_t)(r) * (uint64_t)(p) >= 0x40000000)) {
+		rc = SCRYPT_EINVAL;
+		goto err0;
+	}
+
 	/* Print parameters. */
 	display_params(logN, r, p, 0, 0, 0);
 
-- 
2.43.0


From 4d062921ba78d0e97def5f4e4eec3fe1fb872c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 3/6] fix: do not accept NaN as a number between bounds in
 PARSENUM

'scrypt enc -m nan' and '-t nan' were accepted, because both comparisons
with a NaN are false.
---
 libcperciva/util/parsenum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index d8406c9..3a6db81 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -151,7 +151,7 @@ parsenum_float(const char * s, double min, double max, int trailing)
 	val = strtod(s, &eptr);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
-	else if ((val < min) || (val > max))
+	else if (!((val >= min) && (val <= max)))
 		errno = ERANGE;
 	return (val);
 }
-- 
2.43.0


From 86561dc8cf4d175f7f8780e9376235ab4476904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 4/6] fix: do not accept negative numbers for unsigned
 variables in PARSENUM

strtoumax negates its result modulo 2^64 after a minus sign, so that for
example 'scrypt enc -r -18446744073709551608' was taken as '-r 8'.
---
 libcperciva/util/parsenum.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index 3a6db81..a979a7b 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -2,6 +2,7 @@
 #define PARSENUM_H_
 
 #include <assert.h>
+#include <ctype.h>
 #include <errno.h>
 #include <inttypes.h>
 #include <math.h>
@@ -191,6 +192,13 @@ parsenum_unsigned(const char * s, uintmax_t min, uintmax_t max,
 		errno = EINVAL;
 	else if ((val < min) || (val > max) || (val > typemax))
 		errno = ERANGE;
+	else if (val != 0) {
+		/* strtoumax accepts negative numbers and wraps them. */
+		while (isspace((unsigned char)*s))
+			s++;
+		if (*s == '-')
+			errno = ERANGE;
+	}
 	return (val);
 }
 
-- 
2.43.0


From a5952f7f6adfadf9f28d2526b0195bdf84d8e5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 5/6] fix: do not mistake a read error for the end of a
 passphrase file

If reading failed after the first line, fgetc returned EOF and the file was
taken to consist of that line only.
---
 libcperciva/util/readpass_file.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libcperciva/util/readpass_file.c b/libcperciva/util/readpass_file.c
index 957502a..dcdc7eb 100644
--- a/libcperciva/util/readpass_file.c
+++ b/libcperciva/util/readpass_file.c
@@ -45,6 +45,10 @@ readpass_file(char ** passwd, const char * filename)
 		warn0("line too long, or more than 1 line in %s", filename);
 		goto err2;
 	}
+	if (ferror(f)) {
+		warnp("fread(%s)", filename);
+		goto err2;
+	}
 
 	/* Close the file. */
 	if (fclose(f)) {
-- 
2.43.0


From 9c43259733409bd00189581be81cc53fd40c545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 6/6] fix: report failure to write out buffered output

A failing fclose(outfile) only printed a warning and exited with status 0,
and stdout was not flushed and checked at all, so that for example 'scrypt
dec file > /dev/full' reported success.
---
 main.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index d4c106b..60d9506 100644
--- a/main.c
+++ b/main.c
@@ -180,8 +180,13 @@ cleanup:
 	/* Close any files we opened. */
 	if ((infile != stdin) && fclose(infile))
 		warnp("fclose");
-	if ((outfile != stdout) && fclose(outfile))
-		warnp("fclose");
+	if ((outfile != stdout) ? fclose(outfile) : fflush(stdout)) {
+		/* Buffered output could not be written. */
+		if (rc == SCRYPT_OK)
+			rc = SCRYPT_EWRFILE;
+		else
+			warnp("fclose");
+	}
 
 	/* If we failed, print the right error message and exit. */
 	if (rc != SCRYPT_OK) {
-- 
2.43.0

