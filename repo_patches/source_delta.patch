From 57986ab1bf5c4e1401f7a3cceed994d548a3660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 01/18] fix: exact 256-bit products of values in [-2^128,
 -2^128 + 2^64)

---
 include/int256_t.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index f3b04da..eb983a8 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -159,11 +159,10 @@ public:
 
         if (low <= max64 &&
             other.low <= max64 &&
-            ((high == 0 || ~high == 0) &&
-             (other.high == 0 || ~other.high == 0)))
+            high == 0 &&
+            other.high == 0)
         {
-          return int256_t(low * other.low,
-                          (high == other.high) ? 0 : -1);
+          return int256_t(low * other.low, 0);
         }
         else
         {
-- 
2.43.0


From 83ad0dde18c801f659e2d7721ffd7f332216ef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 02/18] fix: shifting a 256-bit integer by 0 bits is undefined
 behavior

---
 include/int256_t.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index eb983a8..c4ccf7b 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -214,6 +214,8 @@ public:
     {
         if (bits >= 128)
             return int256_t(0, low << (bits - 128));
+        else if (bits == 0)
+            return *this;
         else
             return int256_t(low << bits, (high << bits) | (low >> (128 - bits)));
     }
@@ -222,6 +224,8 @@ public:
     {
         if (bits >= 128)
             return int256_t(high >> (bits - 128), 0);
+        else if (bits == 0)
+            return *this;
         else
             return int256_t((low >> bits) | (high << (128 - bits)), high >> bits);
     }
-- 
2.43.0


From d00c7e5c3288ed757d7c2446a11edbf7c290560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 03/18] fix: 256-bit division by divisors > 2^254

---
 include/int256_t.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index c4ccf7b..ca27f3f 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -576,7 +576,10 @@ private:
                 remainder <<= 1;
                 remainder.set_bit(0, get_bit(i));
 
-                if (remainder >= other)
+                // unsigned comparison as the remainder
+                // may temporarily be >= 2^255
+                if (remainder.high > other.high ||
+                    (remainder.high == other.high && remainder.low >= other.low))
                 {
                     remainder -= other;
                     quotient.set_bit(i, true);
-- 
2.43.0


From 71d097a01f652c94031ff1b190b48242d949d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 04/18] fix: print the smallest 256-bit integer

---
 include/int256_t.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index ca27f3f..b484c60 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -630,10 +630,12 @@ inline std::ostream& operator<<(std::ostream& stream, int256_t n)
         n = -n;
     }
 
-    while (n > 0)
+    // unsigned division as -n overflows if n = -2^255
+    while (n != 0)
     {
-        str += '0' + std::int8_t(n % 10);
-        n /= 10;
+        auto res = n.udiv256(10);
+        str += '0' + std::int8_t(res.second);
+        n = res.first;
     }
 
     if (str.empty())
-- 
2.43.0


From c5b74d65f5e6b90df3e866d30483c0467cc253f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 05/18] fix: sieve sums overflow 64 bits for segments >= 2^58

---
 src/BitSieve.cpp | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/BitSieve.cpp b/src/BitSieve.cpp
index fa525dd..9e21b6b 100644
--- a/src/BitSieve.cpp
+++ b/src/BitSieve.cpp
@@ -53,7 +53,7 @@ uint64_t fast_modulo(uint64_t x, uint64_t y)
   return x;
 }
 
-uint64_t sum_bits(uint64_t bits, uint64_t& low)
+int128_t sum_bits(uint64_t bits, uint64_t& low)
 {
   uint64_t bits0 = bits & 0xffff;
   uint64_t bits1 = (bits >> 16) & 0xffff;
@@ -66,15 +66,24 @@ uint64_t sum_bits(uint64_t bits, uint64_t& low)
   sum += sumBits[bits2];
   sum += sumBits[bits3];
 
-  sum += low * popcnt64(bits0); low += 32;
-  sum += low * popcnt64(bits1); low += 32;
-  sum += low * popcnt64(bits2); low += 32;
-  sum += low * popcnt64(bits3); low += 32;
+  uint64_t count0 = popcnt64(bits0);
+  uint64_t count1 = popcnt64(bits1);
+  uint64_t count2 = popcnt64(bits2);
+  uint64_t count3 = popcnt64(bits3);
 
-  return sum;
+  sum += 32 * count1;
+  sum += 64 * count2;
+  sum += 96 * count3;
+
+  // low * 64 > 2^64 for large low
+  int128_t sum_low = low;
+  sum_low *= count0 + count1 + count2 + count3;
+  low += 128;
+
+  return sum_low + sum;
 }
 
-uint64_t sum_bits(const uint16_t* bits, uint64_t& low)
+int128_t sum_bits(const uint16_t* bits, uint64_t& low)
 {
   uint64_t bits0 = bits[0];
   uint64_t bits1 = bits[1];
@@ -87,12 +96,21 @@ uint64_t sum_bits(const uint16_t* bits, uint64_t& low)
   sum += sumBits[bits2];
   sum += sumBits[bits3];
 
-  sum += low * popcnt64(bits0); low += 32;
-  sum += low * popcnt64(bits1); low += 32;
-  sum += low * popcnt64(bits2); low += 32;
-  sum += low * popcnt64(bits3); low += 32;
+  uint64_t count0 = popcnt64(bits0);
+  uint64_t count1 = popcnt64(bits1);
+  uint64_t count2 = popcnt64(bits2);
+  uint64_t count3 = popcnt64(bits3);
 
-  return sum;
+  sum += 32 * count1;
+  sum += 64 * count2;
+  sum += 96 * count3;
+
+  // low * 64 > 2^64 for large low
+  int128_t sum_low = low;
+  sum_low *= count0 + count1 + count2 + count3;
+  low += 128;
+
+  return sum_low + sum;
 }
 
 int128_t sum_bits(const uint64_t* bits, uint64_t size, uint64_t& low)
-- 
2.43.0


From fc61f6a84bdbb9137e826a48bac6cda2a5d68d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 06/18] fix: generate_n_primes() fails if the nth prime is the
 largest prime < 2^64

---
 lib/primesieve/include/primesieve/StorePrimes.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/primesieve/include/primesieve/StorePrimes.hpp b/lib/primesieve/include/primesieve/StorePrimes.hpp
index 0154bba..6beac08 100644
--- a/lib/primesieve/include/primesieve/StorePrimes.hpp
+++ b/lib/primesieve/include/primesieve/StorePrimes.hpp
@@ -83,12 +83,15 @@ inline void store_n_primes(uint64_t n,
   uint64_t stop = start + dist;
 
   primesieve::iterator it(start, stop);
-  uint64_t prime = it.next_prime();
-  for (; n > 0; n--, prime = it.next_prime())
-    primes.push_back((V) prime);
+  for (; n > 0; n--)
+  {
+    uint64_t prime = it.next_prime();
 
-  if (~prime == 0)
-    throw primesieve_error("cannot generate primes > 2^64");
+    if (~prime == 0)
+      throw primesieve_error("cannot generate primes > 2^64");
+
+    primes.push_back((V) prime);
+  }
 }
 
 } // namespace
-- 
2.43.0


From 835ef847456aaeb5f4f340e49bf6b9cd97c20372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 07/18] fix: reject --dist if START + DIST exceeds 64 bits

---
 lib/primesieve/src/app/cmdoptions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/primesieve/src/app/cmdoptions.cpp b/lib/primesieve/src/app/cmdoptions.cpp
index f1bd247..c16bff4 100644
--- a/lib/primesieve/src/app/cmdoptions.cpp
+++ b/lib/primesieve/src/app/cmdoptions.cpp
@@ -13,6 +13,7 @@
 
 #include <primesieve/calculator.hpp>
 #include <primesieve/CpuInfo.hpp>
+#include <primesieve/forward.hpp>
 #include <primesieve/PrimeSieve.hpp>
 #include <primesieve/primesieve_error.hpp>
 
@@ -300,6 +301,10 @@ void optionDistance(Option& opt,
   if (!numbers.empty())
     start = numbers[0];
 
+  // start + val must be <= 2^64 - 1
+  if (val > get_max_stop() - start)
+    throw primesieve_error("invalid option '" + opt.opt + "=" + opt.val + "'");
+
   numbers.push_back(start + val);
 }
 
-- 
2.43.0


From 404b6b1743f5eb6726b376f8a93aca9ca5480a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:38 +0000
Subject: [PATCH 08/18] fix: primesieve_next_prime() reads an uninitialized
 pointer on error

---
 lib/primesieve/src/iterator-c.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/primesieve/src/iterator-c.cpp b/lib/primesieve/src/iterator-c.cpp
index cc8d548..526532d 100644
--- a/lib/primesieve/src/iterator-c.cpp
+++ b/lib/primesieve/src/iterator-c.cpp
@@ -125,6 +125,7 @@ void primesieve_generate_next_primes(primesieve_iterator* it)
     clearPrimeGenerator(it);
     primes.resize(1);
     primes[0] = PRIMESIEVE_ERROR;
+    it->primes = &primes[0];
     it->last_idx = 1;
     it->is_error = true;
     errno = EDOM;
-- 
2.43.0


From 54470c63c70a37be87309c0a0acad73b1f936ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 09/18] hooks: PRIMESUM_VP_HOOKS makes the integer width limits
 adjustable at run time

---
 include/int128_t.hpp                      | 18 ++++++++++++++++++
 src/P2.cpp                                |  2 +-
 src/S1.cpp                                |  4 ++--
 src/deleglise-rivat/S2_easy.cpp           |  4 ++--
 src/deleglise-rivat/S2_easy_libdivide.cpp |  6 +++---
 src/deleglise-rivat/S2_hard.cpp           |  4 ++--
 src/deleglise-rivat/S2_trivial.cpp        |  2 +-
 src/phi_sum.cpp                           |  4 ++--
 8 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/include/int128_t.hpp b/include/int128_t.hpp
index 534f5cf..b176232 100644
--- a/include/int128_t.hpp
+++ b/include/int128_t.hpp
@@ -128,4 +128,22 @@ struct is_unsigned
 } // namespace prt
 } // namespace primesum
 
+/// Limits of the integer types used by the algorithms. If x <= LIMIT
+/// a smaller type which is faster and uses less memory can be used.
+/// Verification builds (PRIMESUM_VP_HOOKS) may lower these limits
+/// at run time in order to test the code for large x using small x.
+///
+#if defined(PRIMESUM_VP_HOOKS)
+
+namespace primesum {
+
+int128_t vp_limit(int128_t limit);
+
+} // namespace primesum
+
+  #define PRIMESUM_LIMIT(limit) primesum::vp_limit(limit)
+#else
+  #define PRIMESUM_LIMIT(limit) (limit)
+#endif
+
 #endif
diff --git a/src/P2.cpp b/src/P2.cpp
index 0dc9615..33700c8 100644
--- a/src/P2.cpp
+++ b/src/P2.cpp
@@ -194,7 +194,7 @@ int256_t P2(int128_t x, int64_t y, int threads)
   int256_t p2;
 
   // uses less memory
-  if (x <= numeric_limits<int64_t>::max())
+  if (x <= PRIMESUM_LIMIT(numeric_limits<int64_t>::max()))
     p2 = P2_OpenMP_master((int64_t) x, y, threads);
   else
     p2 = P2_OpenMP_master(x, y, threads);
diff --git a/src/S1.cpp b/src/S1.cpp
index 15411a4..36275ea 100644
--- a/src/S1.cpp
+++ b/src/S1.cpp
@@ -96,9 +96,9 @@ int256_t S1(int128_t x,
   int256_t s1_sum;
 
   // uses less memory
-  if (y <= numeric_limits<uint32_t>::max())
+  if (y <= PRIMESUM_LIMIT(numeric_limits<uint32_t>::max()))
   {
-    if (x <= numeric_limits<int64_t>::max())
+    if (x <= PRIMESUM_LIMIT(numeric_limits<int64_t>::max()))
       s1_sum = S1_OpenMP_master((int64_t) x, (uint32_t) y, c, threads);
     else
       s1_sum = S1_OpenMP_master(x, (uint32_t) y, c, threads);
diff --git a/src/deleglise-rivat/S2_easy.cpp b/src/deleglise-rivat/S2_easy.cpp
index 4308c97..647ae27 100644
--- a/src/deleglise-rivat/S2_easy.cpp
+++ b/src/deleglise-rivat/S2_easy.cpp
@@ -122,12 +122,12 @@ int256_t S2_easy(int128_t x,
   int256_t s2_easy;
 
   // uses less memory
-  if (y <= numeric_limits<uint32_t>::max())
+  if (y <= PRIMESUM_LIMIT(numeric_limits<uint32_t>::max()))
   {
     auto primes = generate_primes<uint32_t>(y);
     auto prime_sums = generate_prime_sums<uint64_t>(y);
 
-    if (x <= numeric_limits<uint64_t>::max())
+    if (x <= PRIMESUM_LIMIT(numeric_limits<uint64_t>::max()))
       s2_easy = S2_easy_OpenMP<int128_t>(x, y, z, c, primes, prime_sums, threads);
     else
       s2_easy = S2_easy_OpenMP<int256_t>(x, y, z, c, primes, prime_sums, threads);
diff --git a/src/deleglise-rivat/S2_easy_libdivide.cpp b/src/deleglise-rivat/S2_easy_libdivide.cpp
index 9f39b64..2190eb1 100644
--- a/src/deleglise-rivat/S2_easy_libdivide.cpp
+++ b/src/deleglise-rivat/S2_easy_libdivide.cpp
@@ -33,7 +33,7 @@ namespace {
 template <typename T>
 bool is_libdivide(T x)
 {
-  return x <= numeric_limits<uint64_t>::max();
+  return x <= PRIMESUM_LIMIT(numeric_limits<uint64_t>::max());
 }
 
 using fastdiv_t = libdivide::branchfree_divider<uint64_t>;
@@ -170,12 +170,12 @@ int256_t S2_easy(int128_t x,
   int256_t s2_easy;
 
   // uses less memory
-  if (y <= numeric_limits<uint32_t>::max())
+  if (y <= PRIMESUM_LIMIT(numeric_limits<uint32_t>::max()))
   {
     auto primes = generate_primes<uint32_t>(y);
     auto prime_sums = generate_prime_sums<uint64_t>(y);
 
-    if (x <= numeric_limits<uint64_t>::max())
+    if (x <= PRIMESUM_LIMIT(numeric_limits<uint64_t>::max()))
       s2_easy = S2_easy_OpenMP<int128_t>(x, y, z, c, primes, prime_sums, threads);
     else
       s2_easy = S2_easy_OpenMP<int256_t>(x, y, z, c, primes, prime_sums, threads);
diff --git a/src/deleglise-rivat/S2_hard.cpp b/src/deleglise-rivat/S2_hard.cpp
index 5806864..e031b9e 100644
--- a/src/deleglise-rivat/S2_hard.cpp
+++ b/src/deleglise-rivat/S2_hard.cpp
@@ -399,13 +399,13 @@ int256_t S2_hard(int128_t x,
   int256_t s2_hard;
 
   // uses less memory
-  if (y <= FactorTable<uint16_t>::max())
+  if (y <= PRIMESUM_LIMIT(FactorTable<uint16_t>::max()))
   {
     FactorTable<uint16_t> factors(y, threads);
     int64_t max_prime = z / isqrt(y);
     auto primes = generate_primes<uint32_t>(max_prime);
 
-    if (x <= numeric_limits<int64_t>::max())
+    if (x <= PRIMESUM_LIMIT(numeric_limits<int64_t>::max()))
       s2_hard = S2_hard_OpenMP_master((int64_t) x, y, z, c, primes, factors, threads);
     else
       s2_hard = S2_hard_OpenMP_master(x, y, z, c, primes, factors, threads);
diff --git a/src/deleglise-rivat/S2_trivial.cpp b/src/deleglise-rivat/S2_trivial.cpp
index 59eb7cb..a2cc65c 100644
--- a/src/deleglise-rivat/S2_trivial.cpp
+++ b/src/deleglise-rivat/S2_trivial.cpp
@@ -84,7 +84,7 @@ int256_t S2_trivial(int128_t x,
   int256_t s2_trivial;
 
   // uses less memory
-  if (y <= numeric_limits<uint32_t>::max())
+  if (y <= PRIMESUM_LIMIT(numeric_limits<uint32_t>::max()))
   {
     auto prime_sums = generate_prime_sums<uint64_t>(y);
     s2_trivial = S2_trivial_OpenMP(x, y, z, c, prime_sums, threads);
diff --git a/src/phi_sum.cpp b/src/phi_sum.cpp
index 0a2d256..9425446 100644
--- a/src/phi_sum.cpp
+++ b/src/phi_sum.cpp
@@ -62,7 +62,7 @@ int256_t phi_sum256(int128_t x,
     int128_t x2 = fast_div(x, primes[a]);
     int256_t phi_sum;
 
-    if (x2 <= numeric_limits<int64_t>::max())
+    if (x2 <= PRIMESUM_LIMIT(numeric_limits<int64_t>::max()))
       phi_sum = phi_sum128<-SIGN>((int64_t) x2, a - 1, primes);
     else
       phi_sum = phi_sum256<-SIGN>(x2, a - 1, primes);
@@ -94,7 +94,7 @@ int128_t phi_sum(int64_t x, int64_t a)
 
 int256_t phi_sum(int128_t x, int64_t a)
 {
-  if (x <= numeric_limits<int64_t>::max())
+  if (x <= PRIMESUM_LIMIT(numeric_limits<int64_t>::max()))
     return phi_sum((int64_t) x, a);
 
   if (a < 10)
-- 
2.43.0


From ac9ee625c804e3de3e34307691a2c4f2cdc7864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 10/18] fix: data race in S2Status::print()

time_ and percent_ were written without holding the lock, hence two
threads could print the status at the same time (ThreadSanitizer
reports the race) and the percentage could go down.
---
 src/S2Status.cpp | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/S2Status.cpp b/src/S2Status.cpp
index 4d1a063..6f78f55 100644
--- a/src/S2Status.cpp
+++ b/src/S2Status.cpp
@@ -45,23 +45,6 @@ double S2Status::skewed_percent(int128_t x, int128_t y)
   return percent;
 }
 
-#if defined(_OPENMP)
-
-bool S2Status::is_print(double time)
-{
-  TryLock lock(lock_);
-  if (lock.ownsLock())
-  {
-    double old = time_;
-    return old == 0 ||
-          (time - old) >= is_print_;
-  }
-
-  return false;
-}
-
-#else
-
 bool S2Status::is_print(double time)
 {
   double old = time_;
@@ -69,10 +52,16 @@ bool S2Status::is_print(double time)
         (time - old) >= is_print_;
 }
 
-#endif
-
 void S2Status::print(int128_t n, int128_t limit)
 {
+#if defined(_OPENMP)
+  // hold the lock until the status has been printed
+  // because time_ and percent_ are shared by all threads
+  TryLock lock(lock_);
+  if (!lock.ownsLock())
+    return;
+#endif
+
   double time = get_time();
 
   if (is_print(time))
-- 
2.43.0


From 5e7a2cd80e8d28e013544a217d86a386024ad01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 11/18] fix: printing the smallest 128-bit integer is undefined
 behavior

---
 include/int128_t.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/int128_t.hpp b/include/int128_t.hpp
index b176232..98d07e7 100644
--- a/include/int128_t.hpp
+++ b/include/int128_t.hpp
@@ -50,12 +50,13 @@ inline std::ostream& operator<<(std::ostream& stream, uint128_t n)
 
 inline std::ostream& operator<<(std::ostream& stream, int128_t n)
 {
+  uint128_t abs = (uint128_t) n;
   if (n < 0)
   {
     stream << "-";
-    n = -n;
+    abs = 0 - abs;
   }
-  stream << (uint128_t) n;
+  stream << abs;
   return stream;
 }
 
-- 
2.43.0


From 8773f756fb2b7e72df4414123524b8b7c157de2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:16 +0000
Subject: [PATCH 12/18] fix: phi_sum(x, a) of 128-bit x < -2^63

The 128-bit version truncated x to 64 bits, hence phi_sum(x, a)
was not 0 for some x < -2^63.
---
 src/phi_sum.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/phi_sum.cpp b/src/phi_sum.cpp
index 9425446..d10ce2c 100644
--- a/src/phi_sum.cpp
+++ b/src/phi_sum.cpp
@@ -94,6 +94,9 @@ int128_t phi_sum(int64_t x, int64_t a)
 
 int256_t phi_sum(int128_t x, int64_t a)
 {
+  if (x < 1)
+    return 0;
+
   if (x <= PRIMESUM_LIMIT(numeric_limits<int64_t>::max()))
     return phi_sum((int64_t) x, a);
 
-- 
2.43.0


From fb6a3df0dfe6b043e24a9442192962a16a884dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:05 +0000
Subject: [PATCH 13/18] fix: nthPrimeDist: no out of range double to integer
 conversion

For start > 2^64 - 1024 the difference start - pix rounds to 2^64 whose
conversion to uint64_t is undefined (0 on x86-64): the distance became tiny
and nth_prime(-9, 18446744073709551371) took minutes instead of seconds.
---
 lib/primesieve/src/nthPrime.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/primesieve/src/nthPrime.cpp b/lib/primesieve/src/nthPrime.cpp
index b03de60..2f22134 100644
--- a/lib/primesieve/src/nthPrime.cpp
+++ b/lib/primesieve/src/nthPrime.cpp
@@ -67,9 +67,7 @@ uint64_t nthPrimeDist(int64_t n, int64_t count, uint64_t start)
   // get more accurate approximation
   if (count >= n)
   {
-    double st = start - pix;
-    st = max(0.0, st);
-    start = (uint64_t) st;
+    start = checkedSub(start, (uint64_t) pix);
   }
 
   // approximate the nth prime using:
-- 
2.43.0


From 60c39915d795e63dd4a63458774d89de72667fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:07 +0000
Subject: [PATCH 14/18] fix: primesieve -n: refuse n >= 2^63

The number was converted to int64_t: 'primesieve 18446744073709551615 1000 -n'
printed the last prime before 1000.
---
 lib/primesieve/src/app/main.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/primesieve/src/app/main.cpp b/lib/primesieve/src/app/main.cpp
index d3b0105..c8f0e7b 100644
--- a/lib/primesieve/src/app/main.cpp
+++ b/lib/primesieve/src/app/main.cpp
@@ -9,12 +9,14 @@
 ///
 
 #include <primesieve/ParallelSieve.hpp>
+#include <primesieve/primesieve_error.hpp>
 #include "cmdoptions.hpp"
 
 #include <stdint.h>
 #include <iostream>
 #include <exception>
 #include <iomanip>
+#include <limits>
 #include <string>
 
 using namespace std;
@@ -92,11 +94,15 @@ void nthPrime(CmdOptions& opt)
   if (numbers.size() < 2)
     numbers.push_back(0);
 
+  // n is a signed 64-bit integer
+  if (numbers[0] > (uint64_t) numeric_limits<int64_t>::max())
+    throw primesieve_error("nth prime > 2^64");
+
   int64_t n = numbers[0];
   uint64_t start = numbers[1];
   uint64_t nthPrime = 0;
   ps.setStart(start);
-  ps.setStop(start + abs(n * 20));
+  ps.setStop(start + (uint64_t) n * 20);
 
   if (!opt.quiet)
     printSettings(ps);
-- 
2.43.0


From 4d2202b79800a6c7ed67ad17540cec942f07e330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 15/18] fix: converting an int256_t to the smallest int32_t,
 int64_t, int128_t is undefined

The negation of the absolute value overflows.
---
 include/int256_t.hpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index b484c60..5615f86 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -420,26 +420,17 @@ public:
 
     operator std::int32_t() const
     {
-        return (*this < 0)
-            ? -static_cast<std::int32_t>(
-                  (low - 1) ^ prt::numeric_limits<uint128_t>::max())
-            : static_cast<std::int32_t>(low);
+        return static_cast<std::int32_t>(low);
     }
 
     operator std::int64_t() const
     {
-        return (*this < 0)
-            ? -static_cast<std::int64_t>(
-                  (low - 1) ^ prt::numeric_limits<uint128_t>::max())
-            : static_cast<std::int64_t>(low);
+        return static_cast<std::int64_t>(low);
     }
 
     operator int128_t() const
     {
-        return (*this < 0)
-            ? -static_cast<int128_t>(
-                  (low - 1) ^ prt::numeric_limits<uint128_t>::max())
-            : static_cast<int128_t>(low);
+        return static_cast<int128_t>(low);
     }
 
     operator std::uint8_t() const
-- 
2.43.0


From f90cd62540d52a97e65f7b2af21865da3fac1612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 16/18] fix: 256-bit division shifts by 128 bits if the
 dividend is 2^255

The most significant bit is at the index find_most_significant_bit() - 1.
---
 include/int256_t.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/int256_t.hpp b/include/int256_t.hpp
index 5615f86..e87b96b 100644
--- a/include/int256_t.hpp
+++ b/include/int256_t.hpp
@@ -562,7 +562,7 @@ private:
             int256_t quotient = 0;
             int256_t remainder = 0;
 
-            for (int i = find_most_significant_bit(); i >= 0 && i <= 256; i--)
+            for (int i = find_most_significant_bit() - 1; i >= 0; i--)
             {
                 remainder <<= 1;
                 remainder.set_bit(0, get_bit(i));
-- 
2.43.0


From e8510a596204dd0660f7131bd22cfad2aa854a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 17/18] fix: deeply nested expressions overflow the stack

---
 include/calculator.hpp                           | 13 +++++++++++++
 lib/primesieve/include/primesieve/calculator.hpp | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/include/calculator.hpp b/include/calculator.hpp
index 1a1291c..5fd345f 100644
--- a/include/calculator.hpp
+++ b/include/calculator.hpp
@@ -101,6 +101,7 @@ public:
   {
     T result = 0;
     index_ = 0;
+    depth_ = 0;
     expr_ = expr;
     try
     {
@@ -142,6 +143,13 @@ private:
     OPERATOR_EXPONENT        /// e, E
   };
 
+  enum
+  {
+    /// Parentheses and unary operators cause recursion, the
+    /// nesting depth is limited to avoid a stack overflow.
+    MAX_DEPTH = 5000
+  };
+
   struct Operator
   {
     /// Operator, one of the OPERATOR_* enum definitions
@@ -178,6 +186,8 @@ private:
   std::string expr_;
   /// Current expression index, incremented whilst parsing
   std::size_t index_;
+  /// Nesting depth of parentheses and unary operators
+  std::size_t depth_;
   /// The current operator and its left value
   /// are pushed onto the stack if the operator on
   /// top of the stack has lower precedence.
@@ -360,6 +370,8 @@ private:
   T parseValue()
   {
     T val = 0;
+    if (++depth_ > MAX_DEPTH)
+      throw calculator::error(expr_, "Parser error: expression is nested too deeply");
     eatSpaces();
     switch (getCharacter())
     {
@@ -390,6 +402,7 @@ private:
                   unexpected();
                 throw calculator::error(expr_, "Syntax error: value expected at end of expression");
     }
+    depth_--;
     return val;
   }
 
diff --git a/lib/primesieve/include/primesieve/calculator.hpp b/lib/primesieve/include/primesieve/calculator.hpp
index 1a1291c..5fd345f 100644
--- a/lib/primesieve/include/primesieve/calculator.hpp
+++ b/lib/primesieve/include/primesieve/calculator.hpp
@@ -101,6 +101,7 @@ public:
   {
     T result = 0;
     index_ = 0;
+    depth_ = 0;
     expr_ = expr;
     try
     {
@@ -142,6 +143,13 @@ private:
     OPERATOR_EXPONENT        /// e, E
   };
 
+  enum
+  {
+    /// Parentheses and unary operators cause recursion, the
+    /// nesting depth is limited to avoid a stack overflow.
+    MAX_DEPTH = 5000
+  };
+
   struct Operator
   {
     /// Operator, one of the OPERATOR_* enum definitions
@@ -178,6 +186,8 @@ private:
   std::string expr_;
   /// Current expression index, incremented whilst parsing
   std::size_t index_;
+  /// Nesting depth of parentheses and unary operators
+  std::size_t depth_;
   /// The current operator and its left value
   /// are pushed onto the stack if the operator on
   /// top of the stack has lower precedence.
@@ -360,6 +370,8 @@ private:
   T parseValue()
   {
     T val = 0;
+    if (++depth_ > MAX_DEPTH)
+      throw calculator::error(expr_, "Parser error: expression is nested too deeply");
     eatSpaces();
     switch (getCharacter())
     {
@@ -390,6 +402,7 @@ private:
                   unexpected();
                 throw calculator::error(expr_, "Syntax error: value expected at end of expression");
     }
+    depth_--;
     return val;
   }
 
-- 
2.43.0


From 1530f8b00b5e6e8a5415631697c46a9bc7807277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 18/18] fix: generate_n_primes() crashes if n * sizeof(type) >=
 2^64

---
 lib/primesieve/include/primesieve/StorePrimes.hpp   | 4 ++++
 lib/primesieve/include/primesieve/malloc_vector.hpp | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/lib/primesieve/include/primesieve/StorePrimes.hpp b/lib/primesieve/include/primesieve/StorePrimes.hpp
index 6beac08..7b0b3f9 100644
--- a/lib/primesieve/include/primesieve/StorePrimes.hpp
+++ b/lib/primesieve/include/primesieve/StorePrimes.hpp
@@ -18,6 +18,7 @@
 #include <algorithm>
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include <vector>
 
 namespace primesieve {
@@ -72,6 +73,9 @@ inline void store_n_primes(uint64_t n,
   if (start > 0)
     start--;
 
+  if (n > std::numeric_limits<std::size_t>::max() - primes.size())
+    throw primesieve_error("cannot generate primes > 2^64");
+
   std::size_t size = primes.size() + (std::size_t) n;
   primes.reserve(size);
   using V = typename T::value_type;
diff --git a/lib/primesieve/include/primesieve/malloc_vector.hpp b/lib/primesieve/include/primesieve/malloc_vector.hpp
index e3b4951..f13d2d4 100644
--- a/lib/primesieve/include/primesieve/malloc_vector.hpp
+++ b/lib/primesieve/include/primesieve/malloc_vector.hpp
@@ -13,6 +13,7 @@
 #include <stdlib.h>
 #include <algorithm>
 #include <cstddef>
+#include <limits>
 #include <new>
 
 namespace {
@@ -57,6 +58,10 @@ public:
   void resize(std::size_t n)
   {
     n = std::max(n, (std::size_t) 16);
+
+    if (n > std::numeric_limits<std::size_t>::max() / sizeof(T))
+      throw std::bad_alloc();
+
     T* new_array = (T*) realloc((void*) array_, n * sizeof(T));
 
     if (!new_array)
-- 
2.43.0

