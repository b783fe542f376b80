From 4c03e2d6c1a30328bb4414188bc7c665b17513ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:17 +0000
Subject: [PATCH 01/12] fix: free the expanded AES key when writing the output
 file fails

scryptenc_file and scryptdec_file_copy returned SCRYPT_EWRFILE from the copy
loop without freeing (and thus zeroing) the expanded key.
---
 lib/scryptenc/scryptenc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index 5f87382..affbff8 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -627,6 +627,7 @@ scryptenc_file(FILE * infile, FILE * outfile,
 		HMAC_SHA256_Update(&hctx, buf, readlen);
 		if (fwrite(buf, 1, readlen, outfile) < readlen) {
 			crypto_aesctr_free(AES);
+			crypto_aes_key_free(key_enc_exp);
 			rc = SCRYPT_EWRFILE;
 			goto err1;
 		}
@@ -845,6 +846,7 @@ scryptdec_file_copy(struct scryptdec_file_cookie * C, FILE * outfile)
 		crypto_aesctr_stream(AES, buf, buf, buflen - 32);
 		if (fwrite(buf, 1, buflen - 32, outfile) < buflen - 32) {
 			crypto_aesctr_free(AES);
+			crypto_aes_key_free(key_enc_exp);
 			rc = SCRYPT_EWRFILE;
 			goto err0;
 		}
-- 
2.43.0


From c568755aac7da627c9c199f9a053d7224b40c884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 02/12] fix: report write errors detected when the output is
 flushed

Output smaller than the stdio buffer could fail to reach its destination
(e.g. a full disk) with the operation still reported as successful.
---
 lib/scryptenc/scryptenc.c | 12 ++++++++++++
 main.c                    |  5 ++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index affbff8..6a63692 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -648,6 +648,12 @@ scryptenc_file(FILE * infile, FILE * outfile,
 		goto err1;
 	}
 
+	/* Make sure that the buffered data has been written. */
+	if (fflush(outfile)) {
+		rc = SCRYPT_EWRFILE;
+		goto err1;
+	}
+
 	/* Zero sensitive data. */
 	insecure_memzero(dk, 64);
 
@@ -877,6 +883,12 @@ scryptdec_file_copy(struct scryptdec_file_cookie * C, FILE * outfile)
 		goto err0;
 	}
 
+	/* Make sure that the buffered data has been written. */
+	if (fflush(outfile)) {
+		rc = SCRYPT_EWRFILE;
+		goto err0;
+	}
+
 	/* Success! */
 	return (SCRYPT_OK);
 
diff --git a/main.c b/main.c
index d4c106b..f104607 100644
--- a/main.c
+++ b/main.c
@@ -180,8 +180,11 @@ cleanup:
 	/* Close any files we opened. */
 	if ((infile != stdin) && fclose(infile))
 		warnp("fclose");
-	if ((outfile != stdout) && fclose(outfile))
+	if ((outfile != stdout) && fclose(outfile)) {
 		warnp("fclose");
+		if (rc == SCRYPT_OK)
+			rc = SCRYPT_EWRFILE;
+	}
 
 	/* If we failed, print the right error message and exit. */
 	if (rc != SCRYPT_OK) {
-- 
2.43.0


From 78c7dabf7ef59478eabda18301c19eb793a03112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 03/12] fix: reject NaN in PARSENUM

NaN is not between any bounds; accepting it made 'scrypt -m nan' abort and
'scrypt -t nan' disable the time limit.
---
 libcperciva/util/parsenum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index d8406c9..3a6db81 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -151,7 +151,7 @@ parsenum_float(const char * s, double min, double max, int trailing)
 	val = strtod(s, &eptr);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
-	else if ((val < min) || (val > max))
+	else if (!((val >= min) && (val <= max)))
 		errno = ERANGE;
 	return (val);
 }
-- 
2.43.0


From e73bf934dd439693cae74221e0326afc33dde549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 04/12] fix: reject negative numbers in PARSENUM for unsigned
 types

strtoumax() accepts them, so -18446744073709551615 was taken to be 1.
---
 libcperciva/util/parsenum.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index 3a6db81..68efba5 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -7,6 +7,7 @@
 #include <math.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 /* Handle compiler warnings about implicit variable conversion in PARSENUM. */
 #ifdef __clang__
@@ -191,6 +192,10 @@ parsenum_unsigned(const char * s, uintmax_t min, uintmax_t max,
 		errno = EINVAL;
 	else if ((val < min) || (val > max) || (val > typemax))
 		errno = ERANGE;
+	else if ((val != 0) && (s[strspn(s, " \f\n\r\t\v")] == '-')) {
+		/* strtoumax() negated a negative number (modulo 2^N). */
+		errno = ERANGE;
+	}
 	return (val);
 }
 
-- 
2.43.0


From f1deefdf9f2d34b01fca0502494c265036e2c456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 05/12] fix: reject explicit scrypt parameters when decrypting

'scrypt dec --logN 10 -r 8 -p 1 file' failed an assertion.
---
 main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main.c b/main.c
index f104607..c281410 100644
--- a/main.c
+++ b/main.c
@@ -349,6 +349,12 @@ main(int argc, char * argv[])
 		goto err0;
 	}
 
+	/* The explicit parameters are only usable for encryption. */
+	if (dec && (params.logN != 0)) {
+		warn0("--logN, -r, and -p cannot be used when decrypting");
+		goto err0;
+	}
+
 	/* We can't have a maxmemfrac of 0. */
 	if (params.maxmemfrac == 0.0) {
 		warn0("-m must be greater than 0");
-- 
2.43.0


From d36e32bc905abab758a8d60c622e880cb1b417b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 06/12] fix: report failure to write the version number

---
 main.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index c281410..0bf185d 100644
--- a/main.c
+++ b/main.c
@@ -249,7 +249,11 @@ main(int argc, char * argv[])
 	} else if (strcmp(argv[1], "info") == 0) {
 		info = 1;
 	} else if (strcmp(argv[1], "--version") == 0) {
-		fprintf(stdout, "scrypt %s\n", PACKAGE_VERSION);
+		if ((fprintf(stdout, "scrypt %s\n", PACKAGE_VERSION) < 0) ||
+		    fflush(stdout)) {
+			warnp("Cannot write version");
+			exit(1);
+		}
 		exit(0);
 	} else {
 		warn0("First argument must be 'enc', 'dec', or 'info'.");
-- 
2.43.0


From 150b62639e13361c218ac110377375fb7e3dd8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 07/12] fix: avoid integer overflows when displaying scrypt
 parameters

128 * r was computed modulo 2^32, and the products with N modulo 2^64.
---
 lib/scryptenc/scryptenc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index 6a63692..ba0c466 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -72,8 +72,9 @@ display_params(int logN, uint32_t r, uint32_t p, size_t memlimit,
     double opps, double maxtime)
 {
 	uint64_t N = (uint64_t)(1) << logN;
-	uint64_t mem_minimum = 128 * r * N;
-	double expected_seconds = opps > 0 ? (double)(4 * N * r * p) / opps : 0;
+	uint64_t mem_minimum = (r > (UINT64_MAX / 128) / N) ? UINT64_MAX :
+	    (uint64_t)(128) * r * N;
+	double expected_seconds = opps > 0 ? 4.0 * (double)N * r * p / opps : 0;
 	char * human_memlimit = humansize(memlimit);
 	char * human_mem_minimum = humansize(mem_minimum);
 
-- 
2.43.0


From 6e93af0a5cfa6a2c68105d096f8e5e8d9da147a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:18 +0000
Subject: [PATCH 08/12] fix: reject invalid parameters in
 scryptdec_file_printparams

A header with log2(N) > 63 caused an invalid shift and bogus output.
---
 lib/scryptenc/scryptenc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index ba0c466..fffd67e 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -335,6 +335,13 @@ scryptdec_file_printparams(FILE * infile)
 	r = be32dec(&header[8]);
 	p = be32dec(&header[12]);
 
+	/* Check that they are valid. */
+	if ((logN < 1) || (logN > 63) || (r == 0) || (p == 0) ||
+	    ((uint64_t)(r) * (uint64_t)(p) >= 0x40000000)) {
+		rc = SCRYPT_EINVAL;
+		goto err0;
+	}
+
 	/* Print parameters. */
 	display_params(logN, r, p, 0, 0, 0);
 
-- 
2.43.0


From acfded7d48cd252bb78f33b222f937363baaaf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:55 +0000
Subject: [PATCH 09/12] fix: do not pass NULL to %s when a size cannot be
 formatted

---
 lib/scryptenc/scryptenc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index fffd67e..b6f46cc 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -84,8 +84,9 @@ display_params(int logN, uint32_t r, uint32_t p, size_t memlimit,
 
 	/* Memory */
 	fprintf(stderr, "    Decrypting this file requires at least"
-	    " %s of memory", human_mem_minimum);
-	if (memlimit > 0)
+	    " %s of memory", (human_mem_minimum != NULL) ?
+	    human_mem_minimum : "an unknown amount");
+	if ((memlimit > 0) && (human_memlimit != NULL))
 		fprintf(stderr, " (%s available)", human_memlimit);
 
 	/* CPU time */
-- 
2.43.0


From d37d71e3377962cab405f87347ec11f13da08bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:57 +0000
Subject: [PATCH 10/12] fix: reject over-long passwords in readpass instead of
 truncating them

---
 libcperciva/util/readpass.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libcperciva/util/readpass.c b/libcperciva/util/readpass.c
index 3683aa1..9404715 100644
--- a/libcperciva/util/readpass.c
+++ b/libcperciva/util/readpass.c
@@ -144,6 +144,13 @@ retry:
 		goto err3;
 	}
 
+	/* Bail if the line is too long; we would use only the start of it. */
+	if ((strlen(passbuf) == MAXPASSLEN - 1) &&
+	    (passbuf[MAXPASSLEN - 2] != '\n')) {
+		warn0("Password is too long");
+		goto err3;
+	}
+
 	/* Confirm the password if necessary. */
 	if (confirmprompt != NULL) {
 		if (usingtty)
-- 
2.43.0


From 19a5ed587a06a58ab2cf57c526cffe2d5653ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:57 +0000
Subject: [PATCH 11/12] fix: detect read errors after the first line in
 readpass_file

---
 libcperciva/util/readpass_file.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libcperciva/util/readpass_file.c b/libcperciva/util/readpass_file.c
index 957502a..5386ce1 100644
--- a/libcperciva/util/readpass_file.c
+++ b/libcperciva/util/readpass_file.c
@@ -46,6 +46,12 @@ readpass_file(char ** passwd, const char * filename)
 		goto err2;
 	}
 
+	/* Bail if we couldn't find out whether there is more in the file. */
+	if (ferror(f)) {
+		warnp("fread(%s)", filename);
+		goto err2;
+	}
+
 	/* Close the file. */
 	if (fclose(f)) {
 		warnp("fclose(%s)", filename);
-- 
2.43.0


From f3650929c5be2303bd3cb97ecad973db3aeb4224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:21 +0000
Subject: [PATCH 12/12] fix: crypto_scrypt: mix the right blocks when p > 2^25

With a uint32_t index, i * 128 wraps for i >= 2^25, so for valid parameters
with p > 2^25 earlier blocks were mixed again and later ones not at all.
---
 lib-platform/crypto/crypto_scrypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-platform/crypto/crypto_scrypt.c b/lib-platform/crypto/crypto_scrypt.c
index 6057f0a..3beabe8 100644
--- a/lib-platform/crypto/crypto_scrypt.c
+++ b/lib-platform/crypto/crypto_scrypt.c
@@ -63,7 +63,7 @@ crypto_scrypt_internal(const uint8_t * passwd, size_t passwdlen,
 	uint32_t * V;
 	uint32_t * XY;
 	size_t r = _r, p = _p;
-	uint32_t i;
+	size_t i;
 
 	/* Sanity-check parameters. */
 	if ((r == 0) || (p == 0)) {
-- 
2.43.0

