// Shared by the harnesses of the prime sum properties
#ifndef PSUM_HPP
#define PSUM_HPP

#include "pbt.hpp"
#include "oracle.hpp"
#include "defs.hpp"
#include "hooks.hpp"
#include <primesum.hpp>
#include <primesum-internal.hpp>
#include <PhiTiny.hpp>
#include <S1.hpp>
#include <S2.hpp>

namespace primesum {
int256_t S2_easy_variant(int128_t x, int64_t y, int64_t z, int64_t c, int threads);
int256_t pi_deleglise_rivat_variant(int128_t x, int threads);
}

using namespace pbt;
using defs::W;

// integers with structure: (powers of) primes, squares, cubes, powers of 2
// and 10 and their neighbors, multiples, or log-uniform
inline i128 gen_x(Rng& r, i128 lo, i128 hi)
{
  for (int tries = 0; tries < 50; tries++)
  {
    i128 x = r.logrange(lo, hi);
    switch ((int) r.below(10))
    {
      case 0: if (x < ((i128) 1 << 63)) x = (i128) oracle::prev_prime_le((uint64_t) x); break;
      case 1: { u128 p = oracle::prev_prime_le((uint64_t) oracle::isqrt((u128) x)); x = (i128) (p * p); } break;
      case 2: { u128 p = oracle::prev_prime_le((uint64_t) oracle::iroot((u128) x, 3)); x = (i128) (p * p * p); } break;
      case 3: { u128 p = oracle::isqrt((u128) x); x = (i128) (p * p); } break;
      case 4: { u128 p = oracle::iroot((u128) x, 3); x = (i128) (p * p * p); } break;
      case 5: { int b = 0; while (((i128) 2 << b) <= x) b++; x = (i128) 1 << b; } break;
      case 6: { i128 t = 1; while (t * 10 <= x) t *= 10; x = t; } break;
      case 7: { u128 p = oracle::isqrt((u128) x); x = (i128) (p * (p + 1)); } break;
      default: break;
    }
    x += (i128) r.range(-2, 2);
    if (x >= lo && x <= hi) return x;
  }
  return r.logrange(lo, hi);
}

inline int gen_threads(Rng& r)
{
  static const std::vector<int> t = { 1, 1, 2, 3, 4, 5, 8 };
  return r.pick(t);
}

// alpha values as 64-bit fixed point numbers (millionths)
inline i128 gen_alpha(Rng& r, i128 x)
{
  double x16 = pow((double) std::max<i128>(x, 1), 1.0 / 6);
  switch ((int) r.below(9))
  {
    case 0: return -1000000;
    case 1: return 1000000;
    case 2: return (i128) (x16 * 1e6);
    case 3: return (i128) r.range(-5000000, 999999);
    case 4: return (i128) (x16 * 1e6) + r.range(-1000000, 1000000);
    case 5: return 1000000 + r.logrange(0, (i128) 1000000000000000LL);
    default: return 1000000 + r.logrange(0, (i128) (x16 * 1e6));
  }
}

struct Alpha
{
  Alpha(i128 millionths) { primesum::set_alpha((double) millionths / 1e6); }
  ~Alpha() { primesum::set_alpha(-1); }
};

// Exact prime sums at and around powers of 10 (OEIS A046731)
inline u128 sum_near_pow10(int n, int64_t delta)
{
  i128 p = 1;
  for (int i = 0; i < n; i++) p *= 10;
  i128 s = oracle::known_sum_pow10(n);
  if (delta >= 0) { for (uint64_t q : oracle::primes_between((uint64_t) p, (uint64_t) (p + delta))) s += q; }
  else { for (uint64_t q : oracle::primes_between((uint64_t) (p + delta + 1), (uint64_t) p)) s -= q; }
  return (u128) s;
}
inline i128 pow10(int n) { i128 p = 1; while (n-- > 0) p *= 10; return p; }

// The split points the program derives from x and alpha
struct Split { int64_t y, z, c; };
inline Split make_split(i128 x, int64_t y) { return { y, (int64_t) (x / y), primesum::PhiTiny::get_c(y) }; }

#define REQUIRE_EQ(actual, expected, ...) do { \
  W act_ = defs::get(actual); W exp_ = (expected); \
  if (act_ != exp_) throw pbt::Failure(pbt::cat(__VA_ARGS__, " = ", act_.str(), " but the exact value is ", exp_.str())); } while (0)

#endif
