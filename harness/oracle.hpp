// Independent reference implementations (oracles). Nothing in here uses /repo.
#ifndef ORACLE_HPP
#define ORACLE_HPP

#include "pbt.hpp"
#include <math.h>

namespace oracle {

using pbt::i128;
using pbt::u128;

// ------------------------------------------------------------ small tables
// primes, lpf, mu, pi and prime sums up to LIMIT, by a linear sieve
struct Tables
{
  uint32_t limit = 0;
  std::vector<uint32_t> primes;        // primes[0] = 2
  std::vector<uint32_t> lpf;           // lpf[n], lpf[1] = 1
  std::vector<int8_t> mu;
  std::vector<uint32_t> pi;
  std::vector<uint64_t> psum;          // sum of the primes <= n
  explicit Tables(uint32_t n) : limit(n), lpf(n + 1, 0), mu(n + 1, 0), pi(n + 1, 0), psum(n + 1, 0)
  {
    if (n >= 1) { lpf[1] = 1; mu[1] = 1; }
    for (uint32_t i = 2; i <= n; i++)
    {
      if (!lpf[i]) { lpf[i] = i; mu[i] = -1; primes.push_back(i); }
      for (uint32_t p : primes)
      {
        if (p > lpf[i] || (uint64_t) p * i > n) break;
        lpf[p * i] = p;
        mu[p * i] = p == lpf[i] ? 0 : (int8_t) -mu[i];
      }
      pi[i] = pi[i - 1] + (lpf[i] == i);
      psum[i] = psum[i - 1] + (lpf[i] == i ? i : 0);
    }
  }
  bool is_prime(uint64_t n) const { return n >= 2 && lpf[n] == n; }
  uint64_t nth(uint64_t i) const { return i == 0 ? 0 : primes[i - 1]; } // 1-based
};

inline const Tables& tables(uint32_t at_least = 2000000)
{
  static Tables* t = nullptr;
  if (!t || t->limit < at_least)
  {
    delete t;
    t = new Tables(std::max<uint32_t>(at_least, 2000000));
  }
  return *t;
}

// ------------------------------------------------------------ arithmetic
inline uint64_t mulmod(uint64_t a, uint64_t b, uint64_t m) { return (uint64_t) ((u128) a * b % m); }
inline uint64_t powmod(uint64_t b, uint64_t e, uint64_t m)
{
  uint64_t r = 1 % m;
  b %= m;
  for (; e; e >>= 1) { if (e & 1) r = mulmod(r, b, m); b = mulmod(b, b, m); }
  return r;
}
// deterministic Miller-Rabin for 64-bit integers
inline bool is_prime64(uint64_t n)
{
  if (n < 2) return false;
  static const uint64_t sp[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 };
  for (uint64_t p : sp) { if (n == p) return true; if (n % p == 0) return false; }
  if (n < 41 * 41) return true;
  uint64_t d = n - 1;
  int s = 0;
  while (!(d & 1)) { d >>= 1; s++; }
  for (uint64_t a : sp)
  {
    uint64_t x = powmod(a, d, n);
    if (x == 1 || x == n - 1) continue;
    bool comp = true;
    for (int i = 1; i < s && comp; i++) { x = mulmod(x, x, n); if (x == n - 1) comp = false; }
    if (comp) return false;
  }
  return true;
}

inline u128 isqrt(u128 x)
{
  if (x == 0) return 0;
  u128 lo = 0, hi = ((u128) 1 << 64) - 1;
  while (lo < hi)
  {
    u128 mid = lo + (hi - lo + 1) / 2;
    if (mid <= x / mid) lo = mid; else hi = mid - 1;
  }
  return lo;
}
// floor(x^(1/n)), n >= 1, by binary search without overflow
inline u128 iroot(u128 x, int n)
{
  if (n == 1 || x < 2) return x;
  u128 lo = 1, hi = (u128) 1 << (128 / n + 1 < 128 ? 128 / n + 1 : 127);
  while (lo < hi)
  {
    u128 mid = lo + (hi - lo + 1) / 2;
    // mid^n <= x ?
    u128 q = x;
    for (int i = 0; i < n && q; i++) q /= mid;
    if (q >= 1) lo = mid; else hi = mid - 1;
  }
  return lo;
}

// primes in [a, b] (b - a small), by a segmented sieve with the primes
// below 2^16 followed by Miller-Rabin for candidates above 2^32
inline std::vector<uint64_t> primes_between(uint64_t a, uint64_t b)
{
  std::vector<uint64_t> r;
  if (a < 2) a = 2;
  if (a > b) return r;
  static const Tables small(1 << 16);
  uint64_t len = b - a + 1;
  std::vector<char> comp(len, 0);
  for (uint64_t p : small.primes)
  {
    u128 sq = (u128) p * p;
    if (sq > b) break;
    u128 s = ((u128) a + p - 1) / p * p;
    if (s < sq) s = sq;
    for (; s <= b; s += p) comp[(uint64_t) (s - a)] = 1;
  }
  for (uint64_t i = 0; i < len; i++)
    if (!comp[i])
    {
      uint64_t n = a + i;
      if (n < ((uint64_t) 1 << 32) || is_prime64(n)) r.push_back(n);
      if (n == ~0ull) break;
    }
  return r;
}
// the largest prime <= n (0 if none), the smallest prime >= n (0 if none)
inline uint64_t prev_prime_le(uint64_t n)
{
  for (; n >= 2; n--) if (is_prime64(n)) return n;
  return 0;
}
inline uint64_t next_prime_ge(uint64_t n)
{
  for (;; n++) { if (is_prime64(n)) return n; if (n == ~0ull) return 0; }
}

// ------------------------------------------------------------ prime sums
// Sum of the primes <= v for every v in { x / i }, Lucy_Hedgehog's algorithm.
// x^(3/4) operations; sums modulo 2^128 are exact for x < 2^63.
struct Lucy
{
  uint64_t x, r;
  std::vector<u128> lo, hi;      // lo[v] = S(v), v <= r; hi[i] = S(x / i), i <= r
  explicit Lucy(uint64_t x_) : x(x_)
  {
    r = (uint64_t) isqrt(x);
    lo.assign(r + 2, 0);
    hi.assign(r + 2, 0);
    auto T = [](uint64_t n) { return (n & 1) ? (u128) n * ((n + 1) / 2) : (u128) (n / 2) * (n + 1); };
    for (uint64_t i = 1; i <= r; i++) { lo[i] = T(i) - 1; hi[i] = T(x / i) - 1; }
    for (uint64_t p = 2; p <= r; p++)
    {
      if (lo[p] == lo[p - 1]) continue;
      u128 sp = lo[p - 1];
      uint64_t p2 = p * p;
      uint64_t end = std::min(r, x / p2);
      uint64_t xp = x / p;
      uint64_t k = std::min(end, r / p);
      for (uint64_t i = 1; i <= k; i++) hi[i] -= (hi[i * p] - sp) * p;
      for (uint64_t i = k + 1; i <= end; i++) hi[i] -= (lo[xp / i] - sp) * p;
      for (uint64_t v = r; v >= p2; v--) lo[v] -= (lo[v / p] - sp) * p;
    }
  }
  u128 sum(uint64_t v) const { return v <= r ? lo[v] : hi[x / v]; }
};

// sum of the primes <= x
inline u128 prime_sum(i128 x)
{
  if (x < 2) return 0;
  const Tables& t = tables();
  if (x <= (i128) t.limit) return t.psum[(size_t) x];
  Lucy l((uint64_t) x);
  return l.hi[1];
}

// sums of the primes < 10^n (OEIS A046731)
inline i128 known_sum_pow10(int n)
{
  static const char* s[] = { "0", "17", "1060", "76127", "5736396", "454396537", "37550402023", "3203324994356",
    "279209790387276", "24739512092254535", "2220822432581729238", "201467077743744681014",
    "18435588552550705911377", "1699246443377779418889494", "157589260710736940541561021",
    "14692398516908006398225702366", "1376110854313351899159632866552", "129408626276669278966252031311350",
    "12212914292949226570880576733896687", "1156251260549368082781614413945980126" };
  return pbt::parse(s[n]);
}

} // namespace oracle

#endif
