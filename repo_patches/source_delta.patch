From 6769e1c59b4077c4489215cfde858410721e97fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:01 +0000
Subject: [PATCH 01/10] fix: prove and verify report a failed flush of their
 output

---
 c-impl/prove.c  | 2 +-
 c-impl/verify.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/c-impl/prove.c b/c-impl/prove.c
index 00d17dd..77f5d46 100644
--- a/c-impl/prove.c
+++ b/c-impl/prove.c
@@ -32,7 +32,7 @@ int main(int argc, char **argv)
 
     Prove(&sec, prf);
 
-    if (!Dump(stdout, prf)) {
+    if (!Dump(stdout, prf) || fflush(stdout)) {
         fputs("could not write proof to output file\n", stderr);
         free(prf);
         return 3;
diff --git a/c-impl/verify.c b/c-impl/verify.c
index 669e2d0..7da4188 100644
--- a/c-impl/verify.c
+++ b/c-impl/verify.c
@@ -27,7 +27,8 @@ int main()
     }
 
     if (!Dump_Fp2(stdout, &prf->E0) \
-     || !Dump_Fp2(stdout, &prf->E1)) {
+     || !Dump_Fp2(stdout, &prf->E1) \
+     || fflush(stdout)) {
         fputs("could not write curve to output file\n", stderr);
         free(prf);
         return 3;
-- 
2.43.0


From fdfc2c3b4cbf8b5e9abdc3e5ea974b90cd62f1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:01 +0000
Subject: [PATCH 02/10] fix: Dump reports a failed write of a response tag

---
 c-impl/PQCrypto-SIDH/src/poik.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index cc88941..405c827 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -1549,7 +1549,8 @@ bool Dump(FILE *file, struct proof const *prf) {
     for (size_t i = 0; i < POIK_REPS; ++i) {
         struct response const *const r = &prf->resp[i];
 
-        fprintf(file, "%d\n", r->tag);
+        if (0 > fprintf(file, "%d\n", r->tag))
+            return false;
 
         switch (r->tag) {
         case RESP_LEFT:
-- 
2.43.0


From 7671ab6b54bf88c66cd3b955c5d31a4bfcfb1ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:01 +0000
Subject: [PATCH 03/10] fix: Pack_Chain_A aborts when no entropy is available

---
 c-impl/PQCrypto-SIDH/src/poik.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index 405c827..56203f7 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -954,7 +954,8 @@ static void Pack_Chain_A(chain_A const *in, packed_chain_A *out)
         digit_t scalar[NWORDS_ORDER];
         {
             unsigned char buf[SIDH_SECRETKEYBYTES_A];
-            random_mod_order_A(buf);
+            if (random_mod_order_A(buf))
+                fail("random_mod_order_A() failed -- could not get entropy");
             buf[0] |= 1;    // make it odd
             decode_to_digits(buf, scalar, SECRETKEY_A_BYTES, NWORDS_ORDER);
         }
-- 
2.43.0


From a747bab0bfee812c6b46cf3a075abaa41df72aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:01 +0000
Subject: [PATCH 04/10] fix: randombytes fills requests that exceed the range
 of int

---
 c-impl/PQCrypto-SIDH/src/random/random.c | 109 ++++++++++++-----------
 1 file changed, 55 insertions(+), 54 deletions(-)

diff --git a/c-impl/PQCrypto-SIDH/src/random/random.c b/c-impl/PQCrypto-SIDH/src/random/random.c
index b8c7e02..dd3b8cd 100644
--- a/c-impl/PQCrypto-SIDH/src/random/random.c
+++ b/c-impl/PQCrypto-SIDH/src/random/random.c
@@ -1,55 +1,56 @@
-/********************************************************************************************
-* Hardware-based random number generation function
-*
-* It uses /dev/urandom in Linux and CNG's BCryptGenRandom function in Windows
-*********************************************************************************************/ 
-
-#include "random.h"
-#include <stdlib.h>
-#if defined(__WINDOWS__)
-    #include <windows.h>
-    #include <bcrypt.h>
-#elif defined(__NIX__)
-    #include <unistd.h>
-    #include <fcntl.h>
-    static int lock = -1;
-#endif
-
-#define passed 0 
-#define failed 1
-
-
-int randombytes(unsigned char* random_array, unsigned long long nbytes)
-{ // Generation of "nbytes" of random values
-    
-#if defined(__WINDOWS__)   
-    if (!BCRYPT_SUCCESS(BCryptGenRandom(NULL, random_array, (unsigned long)nbytes, BCRYPT_USE_SYSTEM_PREFERRED_RNG))) {
-        return failed;
-    }
-
-#elif defined(__NIX__)
-    int r, n = (int)nbytes, count = 0;
-    
-    if (lock == -1) {
-        do {
-            lock = open("/dev/urandom", O_RDONLY);
-            if (lock == -1) {
-                sleep(1);
-            }
-        } while (lock == -1);
-    }
-
-    while (n > 0) {
-        do {
-            r = read(lock, random_array+count, n);
-            if (r == -1) {
-                sleep(1);
-            }
-        } while (r == -1);
-        count += r;
-        n -= r;
-    }
-#endif
-
-    return passed;
+/********************************************************************************************
+* Hardware-based random number generation function
+*
+* It uses /dev/urandom in Linux and CNG's BCryptGenRandom function in Windows
+*********************************************************************************************/ 
+
+#include "random.h"
+#include <stdlib.h>
+#if defined(__WINDOWS__)
+    #include <windows.h>
+    #include <bcrypt.h>
+#elif defined(__NIX__)
+    #include <unistd.h>
+    #include <fcntl.h>
+    static int lock = -1;
+#endif
+
+#define passed 0 
+#define failed 1
+
+
+int randombytes(unsigned char* random_array, unsigned long long nbytes)
+{ // Generation of "nbytes" of random values
+    
+#if defined(__WINDOWS__)   
+    if (!BCRYPT_SUCCESS(BCryptGenRandom(NULL, random_array, (unsigned long)nbytes, BCRYPT_USE_SYSTEM_PREFERRED_RNG))) {
+        return failed;
+    }
+
+#elif defined(__NIX__)
+    ssize_t r;
+    unsigned long long n = nbytes, count = 0;
+    
+    if (lock == -1) {
+        do {
+            lock = open("/dev/urandom", O_RDONLY);
+            if (lock == -1) {
+                sleep(1);
+            }
+        } while (lock == -1);
+    }
+
+    while (n > 0) {
+        do {
+            r = read(lock, random_array+count, n);
+            if (r == -1) {
+                sleep(1);
+            }
+        } while (r == -1);
+        count += r;
+        n -= r;
+    }
+#endif
+
+    return passed;
 }
\ No newline at end of file
-- 
2.43.0


From 2af27b43278ec4776d6a9535d95cb432302da9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:01 +0000
Subject: [PATCH 05/10] fix: randombytes opens its source without a data race

---
 c-impl/PQCrypto-SIDH/src/random/random.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/c-impl/PQCrypto-SIDH/src/random/random.c b/c-impl/PQCrypto-SIDH/src/random/random.c
index dd3b8cd..b3dc05e 100644
--- a/c-impl/PQCrypto-SIDH/src/random/random.c
+++ b/c-impl/PQCrypto-SIDH/src/random/random.c
@@ -12,7 +12,8 @@
 #elif defined(__NIX__)
     #include <unistd.h>
     #include <fcntl.h>
-    static int lock = -1;
+    #include <stdatomic.h>
+    static atomic_int lock = -1;
 #endif
 
 #define passed 0 
@@ -31,18 +32,26 @@ int randombytes(unsigned char* random_array, unsigned long long nbytes)
     ssize_t r;
     unsigned long long n = nbytes, count = 0;
     
-    if (lock == -1) {
+    int fd = atomic_load(&lock);
+
+    if (fd == -1) {
         do {
-            lock = open("/dev/urandom", O_RDONLY);
-            if (lock == -1) {
+            fd = open("/dev/urandom", O_RDONLY);
+            if (fd == -1) {
                 sleep(1);
             }
-        } while (lock == -1);
+        } while (fd == -1);
+
+        int expected = -1;
+        if (!atomic_compare_exchange_strong(&lock, &expected, fd)) {
+            close(fd);    // another thread was faster
+            fd = expected;
+        }
     }
 
     while (n > 0) {
         do {
-            r = read(lock, random_array+count, n);
+            r = read(fd, random_array+count, n);
             if (r == -1) {
                 sleep(1);
             }
-- 
2.43.0


From 4fa64a8d2ecc6ba84a455c7432f4aeccb36eca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:32 +0000
Subject: [PATCH 06/10] fix: solve_quadratic never reports more roots than it
 stores

---
 c-impl/PQCrypto-SIDH/src/poik.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index 56203f7..c4ff028 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -386,7 +386,7 @@ static size_t solve_quadratic(const f2elm_t A, f2elm_t *sols)
     fp2div2(sols[0], sols[0]);
     fp2sub(sols[0], sqrt_disc, sols[1]);
 
-    size_t num = 2 - fp2_equal(sols[0], sols[1]);
+    size_t num = 2;     // a double root is listed twice
 
 #ifndef NDEBUG
     {
-- 
2.43.0


From 780065140fad5789ee31a57badbdcf68a0c5d8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:32 +0000
Subject: [PATCH 07/10] fix: Prove does not continue with uninitialised curves
 when a step of the secret walk is invalid

---
 c-impl/PQCrypto-SIDH/src/poik.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index c4ff028..839a894 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -1120,8 +1120,8 @@ static void Instance(struct secret const *sec, struct instance *v, struct commit
             assert(curve_equal(&Et, &El));
             curve_proj Eb, Er;
             point_proj Kb = Kt, Kr = Kl;
-            Isogeny_A(&Et, &Kt, &Er, &Kr, NULL);
-            Isogeny_B(&El, &Kl, &Eb, &Kb, NULL);
+            if (!Isogeny_A(&Et, &Kt, &Er, &Kr, NULL) || !Isogeny_B(&El, &Kl, &Eb, &Kb, NULL))
+                fail("Instance() failed -- malformed secret?");
             bottom.E[col] = Eb;
             bottom.P[col] = Kb;
             El = Er;
@@ -1131,8 +1131,9 @@ static void Instance(struct secret const *sec, struct instance *v, struct commit
         right.P[row] = Kl;
     }
 
-    Isogeny_A(&bottom.E[POIK_WIDTH-1], &bottom.P[POIK_WIDTH-1], &bottom.E[POIK_WIDTH], NULL, NULL);
-    Isogeny_B(&right.E[POIK_HEIGHT-1], &right.P[POIK_HEIGHT-1], &right.E[POIK_HEIGHT], NULL, NULL);
+    if (!Isogeny_A(&bottom.E[POIK_WIDTH-1], &bottom.P[POIK_WIDTH-1], &bottom.E[POIK_WIDTH], NULL, NULL)
+     || !Isogeny_B(&right.E[POIK_HEIGHT-1], &right.P[POIK_HEIGHT-1], &right.E[POIK_HEIGHT], NULL, NULL))
+        fail("Instance() failed -- malformed secret?");
     assert(curve_equal(&bottom.E[POIK_WIDTH], &right.E[POIK_HEIGHT]));
 
     // proof instance
-- 
2.43.0


From f0e98b99ef193327eeaef890ca2875dc1ea5b390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:32 +0000
Subject: [PATCH 08/10] fix: verify.sage uses the commitment length of the
 selected parameter set

---
 sage-impl/verify.sage | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sage-impl/verify.sage b/sage-impl/verify.sage
index dcdd7f2..b5391a5 100755
--- a/sage-impl/verify.sage
+++ b/sage-impl/verify.sage
@@ -34,7 +34,8 @@ def hash_hiding(r, v):
     h.update(b'\x02')       # RO_COMMIT
     h.update(r)
     h.update(pack(v))
-    return h.read(int(32))  #XXX 32 is HASH_BYTES from poik.h
+    p = parent(v).characteristic()
+    return h.read(int({434: 32, 503: 32, 610: 48, 751: 64}[p.nbits()]))  # HASH_BYTES from poik.h
 
 def curve(A):
     E = EllipticCurve([0,A,0,1,0])
-- 
2.43.0


From 5d7761476428b1eb74401d6097ec4a46a2276499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:27 +0000
Subject: [PATCH 09/10] fix: random walks do not continue with an uninitialised
 curve when a step is invalid

---
 c-impl/PQCrypto-SIDH/src/poik.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c-impl/PQCrypto-SIDH/src/poik.c b/c-impl/PQCrypto-SIDH/src/poik.c
index 839a894..f3c692c 100644
--- a/c-impl/PQCrypto-SIDH/src/poik.c
+++ b/c-impl/PQCrypto-SIDH/src/poik.c
@@ -855,7 +855,8 @@ static void Random_Isogeny_Chain_A(curve_proj const *E0, chain_A *chain)
         Isogeny_A(&chain->E[i], &chain->P[i], &chain->E[i+1], NULL, &Pback2);
         assert(point_equal(&Pback, &Pback2));
 #else
-        Isogeny_A(&chain->E[i], &chain->P[i], &chain->E[i+1], NULL, NULL);
+        if (!Isogeny_A(&chain->E[i], &chain->P[i], &chain->E[i+1], NULL, NULL))
+            fail("Random_Isogeny_Chain_A() failed -- invalid curve?");
 #endif
     }
 
@@ -895,7 +896,8 @@ static void Random_Isogeny_Chain_B(curve_proj const *E0, chain_B *chain)
     chain->E[0] = *E0;
     for (size_t i = 0; i < POIK_HEIGHT; ++i) {
         Random_Point_B(&chain->E[i], &chain->P[i], i ? &Pback : NULL);
-        Isogeny_B(&chain->E[i], &chain->P[i], &chain->E[i+1], NULL, &Pback);
+        if (!Isogeny_B(&chain->E[i], &chain->P[i], &chain->E[i+1], NULL, &Pback))
+            fail("Random_Isogeny_Chain_B() failed -- invalid curve?");
     }
 
 #ifndef NDEBUG  // ensure there is no backtracking
-- 
2.43.0


From 85838b343fc09012c6dc1b5a1d29e871652e75d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:12 +0000
Subject: [PATCH 10/10] fix: compressed decapsulation replaces the whole
 message on a failed ciphertext check

---
 c-impl/PQCrypto-SIDH/src/fpx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c-impl/PQCrypto-SIDH/src/fpx.c b/c-impl/PQCrypto-SIDH/src/fpx.c
index a668fea..ed4fab9 100644
--- a/c-impl/PQCrypto-SIDH/src/fpx.c
+++ b/c-impl/PQCrypto-SIDH/src/fpx.c
@@ -1063,7 +1063,7 @@ int8_t cmp_f2elm(const f2elm_t x, const f2elm_t y)
     for (int i = NWORDS_FIELD-1; i >= 0; i--)
         r |= (a[0][i] ^ b[0][i]) | (a[1][i] ^ b[1][i]);
 
-    return (int8_t)(((0-(digit_t)(r & 1)) | (0-(digit_t)(r >> 1))) >> (8*sizeof(digit_t)-1));
+    return (int8_t)(0 - (((0-(digit_t)(r & 1)) | (0-(digit_t)(r >> 1))) >> (8*sizeof(digit_t)-1)));
 }
 
 
-- 
2.43.0

