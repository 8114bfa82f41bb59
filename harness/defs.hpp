// Brute force evaluation of the definitions of the partial formulas.
// Nothing in here uses /repo (except int256_t for the comparison).
#ifndef DEFS_HPP
#define DEFS_HPP

#include "pbt.hpp"
#include "oracle.hpp"
#include <int128_t.hpp>
#include <int256_t.hpp>

namespace defs {

using pbt::i128;
using pbt::u128;

// 256-bit integers modulo 2^256
struct W
{
  u128 lo, hi;
  W(u128 l = 0, u128 h = 0) : lo(l), hi(h) { }
  static W s(i128 v) { return W((u128) v, v < 0 ? ~(u128) 0 : 0); }
  W operator+(const W& o) const { W r(lo + o.lo, hi + o.hi); if (r.lo < lo) r.hi++; return r; }
  W neg() const { return W(~lo, ~hi) + W(1); }
  W operator-(const W& o) const { return *this + o.neg(); }
  static W mul(u128 a, u128 b)
  {
    u128 m = ~(uint64_t) 0;
    u128 al = a & m, ah = a >> 64, bl = b & m, bh = b >> 64;
    u128 ll = al * bl, lh = al * bh, hl = ah * bl, hh = ah * bh;
    u128 mid = (ll >> 64) + (lh & m) + (hl & m);
    return W((ll & m) | (mid << 64), hh + (lh >> 64) + (hl >> 64) + (mid >> 64));
  }
  W operator*(const W& o) const { W r = mul(lo, o.lo); r.hi += lo * o.hi + hi * o.lo; return r; }
  W& operator+=(const W& o) { *this = *this + o; return *this; }
  W& operator-=(const W& o) { *this = *this - o; return *this; }
  bool operator==(const W& o) const { return lo == o.lo && hi == o.hi; }
  bool operator!=(const W& o) const { return !(*this == o); }
  std::string str() const
  {
    W v = *this;
    std::string s;
    bool neg_ = (v.hi >> 127) != 0;
    if (neg_) v = v.neg();
    do
    {
      // divide by 10, 32 bits at a time
      u128 rem = 0;
      uint32_t d[8];
      for (int i = 0; i < 4; i++) { d[i] = (uint32_t) (v.lo >> (32 * i)); d[i + 4] = (uint32_t) (v.hi >> (32 * i)); }
      for (int i = 7; i >= 0; i--) { u128 c = (rem << 32) | d[i]; d[i] = (uint32_t) (c / 10); rem = c % 10; }
      v = W();
      for (int i = 0; i < 4; i++) { v.lo |= (u128) d[i] << (32 * i); v.hi |= (u128) d[i + 4] << (32 * i); }
      s += (char) ('0' + (int) rem);
    } while (v.lo || v.hi);
    if (neg_) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
  }
};

inline W get(const primesum::int256_t& v)
{
  return W((u128) (primesum::uint128_t) v, (u128) (primesum::uint128_t) (v >> 128));
}

// T(v) = 1 + 2 + ... + v
inline W tri(u128 v) { return (v & 1) ? W::mul(v, (v >> 1) + 1) : W::mul(v >> 1, v + 1); }

// sum of the numbers in [1, v] coprime to the first c primes (inclusion-exclusion)
inline W phi_sum_ie(u128 v, int c)
{
  static const int p[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37 };
  W r;
  for (int m = 0; m < (1 << c); m++)
  {
    u128 d = 1;
    for (int i = 0; i < c; i++) if (m >> i & 1) d *= (u128) p[i];
    W t = tri(v / d) * W(d);
    if (__builtin_popcount((unsigned) m) & 1) r -= t; else r += t;
  }
  return r;
}
// the same by recursion on the number of primes (any a)
inline W phi_sum_rec(u128 v, int a, const std::vector<uint32_t>& primes)
{
  if (v == 0) return W();
  if (a == 0) return tri(v);
  if (v < primes[(size_t) a - 1])
  {
    // 1 is the only number <= v without a prime factor <= v
    while (a > 0 && primes[(size_t) a - 1] > v) a--;
    if (a == 0) return tri(v);
    return W(1);
  }
  W r = tri(v);
  for (int i = a - 1; i >= 0; i--)
    r -= phi_sum_rec(v / primes[(size_t) i], i, primes) * W(primes[(size_t) i]);
  return r;
}

// ------------------------------------------------------------ ordinary leaves
inline W S1(u128 x, int64_t y, int c)
{
  const oracle::Tables& t = oracle::tables((uint32_t) y + 1);
  uint64_t pc = t.nth((uint64_t) c);
  W r;
  for (int64_t n = 1; n <= y; n++)
  {
    if (t.mu[(size_t) n] == 0 || (n > 1 && t.lpf[(size_t) n] <= pc)) continue;
    W v = phi_sum_ie(x / (u128) n, c) * W((u128) n);
    if (t.mu[(size_t) n] > 0) r += v; else r -= v;
  }
  return r;
}

// ------------------------------------------------------------ special leaves
struct S2Leaves { W trivial, easy, hard; uint64_t n_trivial = 0, n_easy = 0, n_hard = 0; };

// Sum of the numbers <= v which are left after removing the multiples of
// the first primes, as a Fenwick tree
struct Fenwick
{
  std::vector<u128> t;
  std::vector<char> on;
  explicit Fenwick(size_t n) : t(n + 1, 0), on(n + 1, 1)
  {
    for (size_t i = 1; i <= n; i++) { t[i] += i; size_t j = i + (i & -i); if (j <= n) t[j] += t[i]; }
  }
  void remove(size_t v) { if (!on[v]) return; on[v] = 0; for (size_t i = v; i < t.size(); i += i & -i) t[i] -= v; }
  u128 sum(size_t v) const { u128 s = 0; for (size_t i = v; i; i -= i & -i) s += t[i]; return s; }
};

// All special leaves (p, m): m <= y < p * m, lpf(m) > p > p_c, mu(m) != 0.
// n = p * m contributes -mu(m) * n * phi_sum(x / n, pi(p) - 1).
// - p <= sqrt(y): hard.
// - p > sqrt(y) (m is a prime q > p): trivial if q > x / p^2,
//   hard if q <= z / p, otherwise easy.
inline S2Leaves S2(u128 x, int64_t y, int64_t z, int c)
{
  const oracle::Tables& t = oracle::tables((uint32_t) std::max<int64_t>(y, 100) + 1);
  S2Leaves r;
  size_t piy = t.pi[(size_t) y];
  int64_t sqrty = (int64_t) oracle::isqrt((u128) y);
  Fenwick f((size_t) std::max<int64_t>(z, y) + 1);
  size_t fb = 0;   // multiples of the first fb primes are removed from f
  for (size_t b = (size_t) c + 1; b <= piy; b++)
  {
    int64_t p = t.primes[b - 1];
    W p_sum = W();
    bool hard_done = false;
    auto advance = [&]() {
      // remove multiples of the first b - 1 primes
      for (; fb < b - 1; fb++)
        for (size_t j = t.primes[fb]; j < f.on.size(); j += t.primes[fb]) f.remove(j);
    };
    if (p <= sqrty)
    {
      advance();
      for (int64_t m = y / p + 1; m <= y; m++)
      {
        if (t.mu[(size_t) m] == 0 || (int64_t) t.lpf[(size_t) m] <= p || m == 1) continue;
        u128 v = x / ((u128) p * (u128) m);
        W s = W(f.sum((size_t) v)) * W((u128) p * (u128) m);
        if (t.mu[(size_t) m] > 0) r.hard -= s; else r.hard += s;
        r.n_hard++;
      }
    }
    else
    {
      u128 xpp = x / ((u128) p * (u128) p);
      for (size_t l = b + 1; l <= piy; l++)
      {
        int64_t q = t.primes[l - 1];
        u128 n = (u128) p * (u128) q;
        if ((u128) q > xpp) { r.trivial += W(n); r.n_trivial++; }
        else if (q <= z / p)
        {
          if (!hard_done) { advance(); hard_done = true; }
          r.hard += W(f.sum((size_t) (x / n))) * W(n);
          r.n_hard++;
        }
        else
        {
          // p <= x / n < p^2 and x / n <= y: only 1 and the primes in [p, x / n] are left
          uint64_t v = (uint64_t) (x / n);
          r.easy += W((u128) 1 + t.psum[v] - t.psum[(size_t) p - 1]) * W(n);
          r.n_easy++;
        }
      }
    }
    (void) p_sum;
  }
  return r;
}

inline W P2(uint64_t x, int64_t y, const oracle::Lucy& l)
{
  W r;
  uint64_t sx = (uint64_t) oracle::isqrt(x);
  const oracle::Tables& t = oracle::tables((uint32_t) sx + 1);
  for (size_t i = t.pi[(size_t) y < t.pi.size() ? (size_t) y : t.pi.size() - 1]; i < t.primes.size() && t.primes[i] <= sx; i++)
  {
    uint64_t p = t.primes[i];
    r += W::mul(p, l.sum(x / p) - l.sum(p - 1));
  }
  return r;
}

} // namespace defs

#endif
