From 6e21346b64c9246474f8aba60f7130a35e58098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:01 +0000
Subject: [PATCH 01/18] fix: isMexp misses the Mersenne exponent 24036583

---
 lib/period.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/period.cpp b/lib/period.cpp
index 556a495..0c77c76 100644
--- a/lib/period.cpp
+++ b/lib/period.cpp
@@ -17,7 +17,7 @@ namespace MTToolBox {
      2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701,
      23209, 44497, 86243, 110503, 132049, 216091, 756839, 859433,
      1257787, 1398269, 2976221, 3021377, 6972593, 13466917,
-     20996011, 25964951, -1};
+     20996011, 24036583, 25964951, -1};
 
     /**
      * 既約判定
-- 
2.43.0


From 63d8b5b1a56129855330b2c6ab4dc26f180453a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:47 +0000
Subject: [PATCH 02/18] fix: AlgorithmReducibleRecursionAndTempering measures
 the shortfall against the Mersenne exponent

The searched generator is reducible; its large component has dimension
getMexp(), so the theoretical upper bound of k(v) is floor(mexp/v), not
floor(bitSize/v). getDelta() and the verbose tables used the latter.
---
 include/MTToolBox/AlgorithmReducibleRT.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/MTToolBox/AlgorithmReducibleRT.hpp b/include/MTToolBox/AlgorithmReducibleRT.hpp
index a2b8279..7dc9de6 100644
--- a/include/MTToolBox/AlgorithmReducibleRT.hpp
+++ b/include/MTToolBox/AlgorithmReducibleRT.hpp
@@ -136,10 +136,11 @@ namespace MTToolBox {
             int veq[bit_size<U>()];
             AlgorithmReducibleRecursionSearch<U> search(rg, *baseGenerator);
             AlgorithmCalculateParity<U, G> cp;
-            int mexp = rg.bitSize();
+            int bitSize = rg.bitSize();
+            int mexp = rg.getMexp();
             bool found = false;
             for (int i = 0;; i++) {
-                if (search.start(1000 * mexp)) {
+                if (search.start(1000 * bitSize)) {
                     found = true;
                     break;
                 }
@@ -166,7 +167,7 @@ namespace MTToolBox {
             NTL::GF2X quotient = lcm / poly;
             annihilate(&rg, quotient);
             if (verbose) {
-                AlgorithmEquidistribution<U> sb(rg, bit_size<U>());
+                AlgorithmEquidistribution<U> sb(rg, bit_size<U>(), mexp);
                 int delta = sb.get_all_equidist(veq);
                 print_kv(veq, mexp, bit_size<U>());
                 *out << "delta = " << dec << delta << endl;
@@ -177,7 +178,7 @@ namespace MTToolBox {
                     if (st2.isLSBTempering()) {
                         rg.setReverseOutput();
                     }
-                    AlgorithmEquidistribution<U> sc(rg, bit_size<U>());
+                    AlgorithmEquidistribution<U> sc(rg, bit_size<U>(), mexp);
                     delta = sc.get_all_equidist(veq);
                     rg.resetReverseOutput();
                     time_t t = time(NULL);
@@ -188,7 +189,7 @@ namespace MTToolBox {
                 }
             }
             st1(rg, verbose);
-            AlgorithmEquidistribution<U> sc(rg, bit_size<U>());
+            AlgorithmEquidistribution<U> sc(rg, bit_size<U>(), mexp);
             delta = sc.get_all_equidist(veq);
             if (verbose) {
                 time_t t = time(NULL);
-- 
2.43.0


From 1a1f4000affe8cb54195335bcf665b0a9541cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:50 +0000
Subject: [PATCH 03/18] fix: single-tempering search of
 AlgorithmReducibleRecursionAndTempering does not compile

It took a TemperingCalculatable<U>& and passed it to the overload that
needs a G&.
---
 include/MTToolBox/AlgorithmReducibleRT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/MTToolBox/AlgorithmReducibleRT.hpp b/include/MTToolBox/AlgorithmReducibleRT.hpp
index 7dc9de6..7c8a4eb 100644
--- a/include/MTToolBox/AlgorithmReducibleRT.hpp
+++ b/include/MTToolBox/AlgorithmReducibleRT.hpp
@@ -231,7 +231,7 @@ namespace MTToolBox {
          * state transition function are found.
          *\endenglish
          */
-        bool search(TemperingCalculatable<U>& rg,
+        bool search(G& rg,
                     AlgorithmTempering<U>& st,
                     bool verbose = false,
                     std::ostream& os = std::cout) {
-- 
2.43.0


From 87d95db9ffaa47db316894b8003a1ba4e3da3cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:59 +0000
Subject: [PATCH 04/18] fix: copy the output direction of tinymt32

A copy or clone of a generator in reversed-output mode fell back to normal
output, so the search from the least significant bit measured the wrong bits.
---
 samples/TinyMTDC/tinymt32search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/TinyMTDC/tinymt32search.hpp b/samples/TinyMTDC/tinymt32search.hpp
index 3fa9084..9841971 100644
--- a/samples/TinyMTDC/tinymt32search.hpp
+++ b/samples/TinyMTDC/tinymt32search.hpp
@@ -145,7 +145,7 @@ namespace tinymt {
          */
         tinymt32(const tinymt32& src) : TemperingCalculatable<uint32_t>(),
                                         param(src.param) {
-            reverse_bit_flag = false;
+            reverse_bit_flag = src.reverse_bit_flag;
             status[0] = src.status[0];
             status[1] = src.status[1];
             status[2] = src.status[2];
-- 
2.43.0


From ffe4174e6bde54c447c7cd88eed3d492b69afe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:59 +0000
Subject: [PATCH 05/18] fix: isZero of the Mersenne Twister samples masks the
 oldest word

index is the newest word; the unused low bits belong to the word after it,
the oldest one. A state whose newest word had only low bits set was taken
for zero although its outputs are not.
---
 samples/MTDC/mt1.cpp | 4 ++--
 samples/MTDC/mt2.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/samples/MTDC/mt1.cpp b/samples/MTDC/mt1.cpp
index 4beff09..4d89817 100644
--- a/samples/MTDC/mt1.cpp
+++ b/samples/MTDC/mt1.cpp
@@ -40,10 +40,10 @@ public:
     }
 
     bool isZero() const {
-        if ((upper_mask & state[index]) != 0) {
+        if ((upper_mask & state[(index + 1) % N]) != 0) {
             return false;
         }
-        for (int i = 1; i < N; i++) {
+        for (int i = 2; i <= N; i++) {
             if (state[(index + i) % N] != 0) {
                 return false;
             }
diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index e55a6ca..d779b68 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -102,10 +102,10 @@ public:
     }
 
     bool isZero() const {
-        if ((upper_mask & state[index]) != 0) {
+        if ((upper_mask & state[(index + 1) % size]) != 0) {
             return false;
         }
-        for (int i = 1; i < size; i++) {
+        for (int i = 2; i <= size; i++) {
             if (state[(index + i) % size] != 0) {
                 return false;
             }
-- 
2.43.0


From 6472108f5ab19acdcb6aaa5ce61f2239f9313824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:59 +0000
Subject: [PATCH 06/18] fix: isZero of mtgp32 masks the oldest word with the
 parameter mask

It used an uninitialised member as the mask, and applied it to the newest
word instead of the oldest one, whose low bits are unused.
---
 samples/MTGPDC/MTGP32search.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/samples/MTGPDC/MTGP32search.hpp b/samples/MTGPDC/MTGP32search.hpp
index 2720d43..c4da9af 100644
--- a/samples/MTGPDC/MTGP32search.hpp
+++ b/samples/MTGPDC/MTGP32search.hpp
@@ -275,10 +275,10 @@ namespace mtgp {
          * @return true if all elements of status is zero
          */
         bool isZero() const {
-            if ((state[idx] & mask) != 0) {
+            if ((state[(idx + 1) % state_size] & param.mask) != 0) {
                 return false;
             }
-            for (int i = 1; i < state_size; i++) {
+            for (int i = 2; i <= state_size; i++) {
                 if (state[(idx + i) % state_size] != 0) {
                     return false;
                 }
@@ -305,7 +305,6 @@ namespace mtgp {
             return reverse_bit_flag;
         }
     private:
-        uint32_t mask;
         int state_size;
         mtgp_param<uint32_t> param;
         int idx;
-- 
2.43.0


From a6a9ccd7f78eacdab3cd095d4871aaa44ba80692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:59 +0000
Subject: [PATCH 07/18] fix: isZero of dSFMT checks the whole saved upper word

In weight mode 1 the output takes previous.u64[1], not previous.u[1].
---
 samples/dSFMTdc/dSFMTsearch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/dSFMTdc/dSFMTsearch.hpp b/samples/dSFMTdc/dSFMTsearch.hpp
index e54d833..74699c9 100644
--- a/samples/dSFMTdc/dSFMTsearch.hpp
+++ b/samples/dSFMTdc/dSFMTsearch.hpp
@@ -424,7 +424,7 @@ namespace MTToolBox {
                 return true;
             case 1:
             default:
-                return previous.u[1] == 0;
+                return previous.u64[1] == 0;
             }
         }
 
-- 
2.43.0


From 90aec51a9fbcc6a266ad6a71f775cc81e28a68ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:59 +0000
Subject: [PATCH 08/18] fix: setOneBit of RMT64Search shifts a 64-bit one

Bits 31 to 63 of each word could not be selected (the shift overflowed int).
---
 samples/RMT/rmt64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/RMT/rmt64.hpp b/samples/RMT/rmt64.hpp
index 23a7245..3ffe367 100644
--- a/samples/RMT/rmt64.hpp
+++ b/samples/RMT/rmt64.hpp
@@ -128,7 +128,7 @@ public:
 #endif
             return;
         }
-        state[idx] = 1 << r;
+        state[idx] = UINT64_C(1) << r;
 #if defined(DEBUG) && 0
         debug_print();
         fflush(stdout);
-- 
2.43.0


From 7dd6f6a943c41b712ea31f9e2404889d96f9c16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:35 +0000
Subject: [PATCH 09/18] fix: xorshift128_init_by_array stores the initialised
 state

---
 samples/XORSHIFT/xorshift128.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/samples/XORSHIFT/xorshift128.c b/samples/XORSHIFT/xorshift128.c
index 26807ea..bd7cf55 100644
--- a/samples/XORSHIFT/xorshift128.c
+++ b/samples/XORSHIFT/xorshift128.c
@@ -93,6 +93,10 @@ void xorshift128_init_by_array(xorshift128_t * xor,
         st[i % size] = r;
         i = (i + 1) % size;
     }
+    xor->x = st[0];
+    xor->y = st[1];
+    xor->z = st[2];
+    xor->w = st[3];
     period_certification(xor);
 }
 
-- 
2.43.0


From 43390439d80f09dfe72c361facb8d1e1e48281a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:42 +0000
Subject: [PATCH 10/18] fix: sfmtdc equidistribution counts the elements of the
 previous block exactly

---
 samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp b/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
index d3d771b..8528cec 100644
--- a/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
+++ b/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
@@ -306,6 +306,14 @@ namespace MTToolBox {
                 basis[i] = new linear_vec(rand, i, info, lsb);
             }
             basis[bit_size] = new linear_vec(rand, info, lsb);
+            int weight = basis[bit_size]->rand->getWeightMode()
+                * info.elementNo / (info.bitSize / 32);
+            // the elements from weight on come from the previous block:
+            // their unit vectors start one step late
+            delayed = (info.elementNo - weight) * bit_len;
+            for (int i = weight * bit_len; i < bit_size; i++) {
+                basis[i]->count = 1;
+            }
             basis[bit_size]->next_state(bit_len);
 #if defined(DEBUG)
             cout << "zero = " << dec << basis[bit_size]->zero << endl;
@@ -371,6 +379,7 @@ namespace MTToolBox {
          *\endenglish
          */
         int stateBitSize;
+        int delayed;
 
         /**
          *\japanese
@@ -706,7 +715,7 @@ namespace MTToolBox {
             }
         }
         int result = min_count;
-        if (result > stateBitSize / bitSize) {
+        if (result > (stateBitSize + delayed) / bitSize) {
 //        if (result > stateBitSize / (bitSize / info.elementNo)) {
             cerr << "over theoretical bound" << endl;
             cout << "bitSize = " << dec << bitSize << endl;
@@ -760,8 +769,8 @@ namespace MTToolBox {
 #endif
                 SIMDGenerator work = rand;
                 work.setStartMode(sm);
-                work.setWeightMode(wm);
                 work.generate();
+                work.setWeightMode(wm);
                 for (int v = 1; v <= bit_len; v++) {
                     AlgorithmSIMDEquidistribution<U, SIMDGenerator>
                         ase(work, v, info, rand.bitSize(), lsb);
-- 
2.43.0


From 569e9a47b7efda829619da78b29cb23df1df51fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:42 +0000
Subject: [PATCH 11/18] fix: dSFMTdc equidistribution counts the elements of
 the previous block exactly

---
 samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp b/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
index 3331286..b721b42 100644
--- a/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
+++ b/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
@@ -300,6 +300,13 @@ namespace MTToolBox {
                 basis[i] = new linear_vec(rand, i, info);
             }
             basis[bit_size] = new linear_vec(rand, info);
+            int weight = basis[bit_size]->rand->getWeightMode();
+            // the elements from weight on come from the previous block:
+            // their unit vectors start one step late
+            delayed = (info.elementNo - weight) * bit_len;
+            for (int i = weight * bit_len; i < bit_size; i++) {
+                basis[i]->count = 1;
+            }
             basis[bit_size]->next_state(bit_len);
 #if defined(DEBUG)
             cout << "zero = " << dec << basis[bit_size]->zero << endl;
@@ -365,6 +372,7 @@ namespace MTToolBox {
          *\endenglish
          */
         int stateBitSize;
+        int delayed;
 
         /**
          *\japanese
@@ -675,7 +683,7 @@ namespace MTToolBox {
             }
         }
         int result = min_count;
-        if (result > stateBitSize / bitSize) {
+        if (result > (stateBitSize + delayed) / bitSize) {
 //        if (result > stateBitSize / (bitSize / info.elementNo)) {
             cerr << "over theoretical bound" << endl;
             cout << "bitSize = " << dec << bitSize << endl;
@@ -729,9 +737,8 @@ namespace MTToolBox {
                 for (int v = 1; v <= bit_len; v++) {
                     SIMDGenerator work = rand;
                     work.setStartMode(sm);
-                    work.setWeightMode(wm);
-                    // previous set
                     work.generate();
+                    work.setWeightMode(wm);
                     AlgorithmDSFMTEquidistribution<U, SIMDGenerator>
                         ase(work, v, info, rand.bitSize());
                     int e = ase.get_equidist(v);
-- 
2.43.0


From 2f2412a220e50d7ef81fdd38cf82c010055e72ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:10 +0000
Subject: [PATCH 12/18] fix: mtgp_param initialises and copies the whole SHA-1
 string

---
 samples/MTGPDC/mtgp_param.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/samples/MTGPDC/mtgp_param.h b/samples/MTGPDC/mtgp_param.h
index 6fc46f3..8757d39 100644
--- a/samples/MTGPDC/mtgp_param.h
+++ b/samples/MTGPDC/mtgp_param.h
@@ -37,6 +37,7 @@ namespace mtgp {
                 p[i] = 0;
                 tp[i] = 0;
             }
+            sha1[0] = 0;
         }
         mtgp_param(const mtgp_param<T>& that) {
             mexp = that.mexp;
@@ -58,9 +59,10 @@ namespace mtgp {
                 tp[i] = that.tp[i];
             }
 #if defined(USE_SHA)
-            for (int i = 0; i < SHA_DIGEST_LENGTH * 2; i++) {
+            for (int i = 0; i < SHA_DIGEST_LENGTH * 2 + 1; i++) {
                 sha1[i] = that.sha1[i];
             }
+#else
             sha1[0] = that.sha1[0];
 #endif
         }
-- 
2.43.0


From 92973dc0122dd6f4fc5657ee40e74a3f46aad611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:23 +0000
Subject: [PATCH 13/18] fix: tinymt32dc checks the range of start and max
 before narrowing

---
 samples/TinyMTDC/parse_opt.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/samples/TinyMTDC/parse_opt.cpp b/samples/TinyMTDC/parse_opt.cpp
index 56f36e3..993434b 100644
--- a/samples/TinyMTDC/parse_opt.cpp
+++ b/samples/TinyMTDC/parse_opt.cpp
@@ -42,6 +42,8 @@ static void output_help(string& pgm, uint32_t start);
 bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
     int c;
     bool error = false;
+    unsigned long long start_pos;
+    long max_delta;
     string pgm = argv[0];
     static struct option longopts[] = {
         {"verbose", no_argument, NULL, 'v'},
@@ -73,22 +75,24 @@ bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
             opt.verbose = true;
             break;
         case 's':
-            opt.start = static_cast<uint32_t>(strtoull(optarg, NULL, 0));
+            start_pos = strtoull(optarg, NULL, 0);
             if (errno) {
                 error = true;
                 cerr << "start must be a number" << endl;
             }
-            if (opt.start > start) {
+            if (start_pos > start) {
                 error = true;
                 cerr << "start must be less than or equal to " << start << endl;
             }
+            opt.start = static_cast<uint32_t>(start_pos);
             break;
         case 'f':
             opt.filename = optarg;
             break;
         case 'm':
-            opt.max_delta = static_cast<int>(strtol(optarg, NULL, 10));
-            if (errno) {
+            max_delta = strtol(optarg, NULL, 10);
+            opt.max_delta = static_cast<int>(max_delta);
+            if (errno || opt.max_delta != max_delta) {
                 error = true;
                 cerr << "max must be a number" << endl;
             }
-- 
2.43.0


From 679eddd690336695f681c2756618675e9d2fd09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:23 +0000
Subject: [PATCH 14/18] fix: MTGP32dc checks the range of mexp and id before
 narrowing

---
 samples/MTGPDC/parse_opt.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/samples/MTGPDC/parse_opt.cpp b/samples/MTGPDC/parse_opt.cpp
index 707528d..691db07 100644
--- a/samples/MTGPDC/parse_opt.cpp
+++ b/samples/MTGPDC/parse_opt.cpp
@@ -72,8 +72,9 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
     if (argc < 2) {
         error = true;
     } else {
-        opt.mexp = static_cast<int>(strtol(argv[0], NULL, 10));
-        if (errno != 0) {
+        long mexp = strtol(argv[0], NULL, 10);
+        opt.mexp = static_cast<int>(mexp);
+        if (errno != 0 || opt.mexp != mexp) {
             error = true;
             cerr << "mexp must be number" << endl;
         } else {
@@ -91,7 +92,7 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
         }
         long long id = strtoll(argv[1], NULL, 10);
         opt.id = static_cast<uint32_t>(id);
-        if (errno != 0) {
+        if (errno != 0 || (id < 0 || id > 0xffffffff)) {
             error = true;
             cerr << "id must be a number between 0 and 2^32-1" << endl;
         }
-- 
2.43.0


From 8f90df487c6db00af2dec6408590ec2129ca7d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:23 +0000
Subject: [PATCH 15/18] fix: mt2 rejects counts and limits that do not fit and
 always sets the seed

---
 samples/MTDC/mt2.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index d779b68..a5b06eb 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -260,6 +260,8 @@ void output_help(string& pgm)
 bool parse_opt(options& opt, int argc, char **argv) {
     int c;
     bool error = false;
+    long max_delta;
+    long long count;
     string pgm = argv[0];
     static struct option longopts[] = {
         {"verbose", no_argument, NULL, 'v'},
@@ -272,6 +274,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
     opt.verbose = false;
     opt.count = 1;
     opt.max_delta = INT_MAX;
+    opt.seed = static_cast<uint32_t>(clock());
     opt.all = false;
     errno = 0;
     for (;;) {
@@ -310,15 +313,17 @@ bool parse_opt(options& opt, int argc, char **argv) {
             }
             break;
         case 'm':
-            opt.max_delta = static_cast<int>(strtol(optarg, NULL, 10));
-            if (errno) {
+            max_delta = strtol(optarg, NULL, 10);
+            opt.max_delta = static_cast<int>(max_delta);
+            if (errno || opt.max_delta != max_delta) {
                 error = true;
                 cerr << "max must be a number" << endl;
             }
             break;
         case 'c':
-            opt.count = static_cast<int>(strtoll(optarg, NULL, 10));
-            if (errno) {
+            count = strtoll(optarg, NULL, 10);
+            opt.count = static_cast<int>(count);
+            if (errno || opt.count != count) {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
-- 
2.43.0


From 7393b654c5c6eb7b66edbc16781aad8be4a0bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:53 +0000
Subject: [PATCH 16/18] fix: prepare tempering before measuring each candidate
 in AlgorithmBestBits

The candidates' patterns were installed without setUpTempering, so a
generator that prepares tables there was measured with stale ones.
---
 include/MTToolBox/AlgorithmBestBits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/MTToolBox/AlgorithmBestBits.hpp b/include/MTToolBox/AlgorithmBestBits.hpp
index 6b96656..b619c5f 100644
--- a/include/MTToolBox/AlgorithmBestBits.hpp
+++ b/include/MTToolBox/AlgorithmBestBits.hpp
@@ -392,6 +392,7 @@ namespace MTToolBox {
                 for (int j = 0; j < size; j++) {
                     rand.setTemperingPattern(mask, pattern->param[j], j);
                 }
+                rand.setUpTempering();
                 pattern->delta = get_equidist(rand, v_bit + 1);
                 if (verbose) {
                     cout << "pattern->delta:" << dec << pattern->delta << endl;
-- 
2.43.0


From 752544aa6061d04ebbeefd4a9d0e5ad6f89eb811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:56 +0000
Subject: [PATCH 17/18] fix: sfmtdc and dSFMTdc analysis programs clear the
 unset words of the seed

---
 samples/dSFMTdc/calc_equidist.cpp | 2 +-
 samples/dSFMTdc/calc_period.cpp   | 2 +-
 samples/sfmtdc/calc_equidist.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/samples/dSFMTdc/calc_equidist.cpp b/samples/dSFMTdc/calc_equidist.cpp
index 4359481..797bd72 100644
--- a/samples/dSFMTdc/calc_equidist.cpp
+++ b/samples/dSFMTdc/calc_equidist.cpp
@@ -33,7 +33,7 @@ int main(int argc, char * argv[])
     //cout << sf.getParamString() << endl;
     //w128_t wseed = {{0x1234, 0x5678, 0x9abc, 0xdef0}};
     //w128_t wseed = {{0x12345, 0x56789, 0x9abcd, 0xdef01}};
-    w128_t wseed;
+    w128_t wseed = {{0, 0, 0, 0}};
     wseed.u64[0] = opt.seed;
     sf.seed(wseed);
 #if defined(DEBUG)
diff --git a/samples/dSFMTdc/calc_period.cpp b/samples/dSFMTdc/calc_period.cpp
index 1f6403c..962ec48 100644
--- a/samples/dSFMTdc/calc_period.cpp
+++ b/samples/dSFMTdc/calc_period.cpp
@@ -38,7 +38,7 @@ int main(int argc, char * argv[])
     dSFMT sf(params);
     cout << sf.getParamString() << endl;
     int se = 1;
-    w128_t seedw;
+    w128_t seedw = {{0, 0, 0, 0}};
     int min = INT_MAX;
     int max = -10;
     seedw.u[0] = se;
diff --git a/samples/sfmtdc/calc_equidist.cpp b/samples/sfmtdc/calc_equidist.cpp
index a84d1f5..a6b4c9e 100644
--- a/samples/sfmtdc/calc_equidist.cpp
+++ b/samples/sfmtdc/calc_equidist.cpp
@@ -34,7 +34,7 @@ int main(int argc, char * argv[])
     //cout << sf.getParamString() << endl;
     //w128_t wseed = {{0x1234, 0x5678, 0x9abc, 0xdef0}};
     //w128_t wseed = {{0x12345, 0x56789, 0x9abcd, 0xdef01}};
-    w128_t wseed;
+    w128_t wseed = {{0, 0, 0, 0}};
     wseed.u64[0] = opt.seed;
     sf.seed(wseed);
     if (!anni(sf)) {
-- 
2.43.0


From 0656bae66b98005fc1199468d17fc43050293742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:56 +0000
Subject: [PATCH 18/18] fix: dSFMTdc calc_period looks at all 52 bits of the
 second element

---
 samples/dSFMTdc/calc_period.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/dSFMTdc/calc_period.cpp b/samples/dSFMTdc/calc_period.cpp
index 962ec48..d9ff27b 100644
--- a/samples/dSFMTdc/calc_period.cpp
+++ b/samples/dSFMTdc/calc_period.cpp
@@ -82,7 +82,7 @@ void min_max_poly(int &min, int&max, dSFMT& sf)
             max = d;
         }
     }
-    for (int i = 64; i < 104; i++) {
+    for (int i = 64; i < 116; i++) {
         minpoly<w128_t>(poly, sf, i);
         int d = deg(poly);
         if (d < min) {
-- 
2.43.0

