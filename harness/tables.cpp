// S10: lookup tables, S11: segmented sieve, S12: load balancing
#include "pbt.hpp"
#include "oracle.hpp"
#include <primesum.hpp>
#include <primesum-internal.hpp>
#include <BinaryIndexedTree.hpp>
#include <BitSieve.hpp>
#include <FactorTable.hpp>
#include <PhiTiny.hpp>
#include <PiTable.hpp>
#include <S2LoadBalancer.hpp>
#include <Wheel.hpp>
#include <generate.hpp>
#include <cmath>
#include <memory>

using namespace pbt;
using namespace primesum;

static i128 gen_size(Rng& r, i128 hi)
{
  switch ((int) r.below(6))
  {
    case 0: return r.range(0, 70);
    case 1: return std::min<i128>(hi, 64 * r.logrange(0, hi / 64) + r.range(-2, 2) + 2);
    case 2: return std::min<i128>(hi, 210 * r.logrange(0, hi / 210) + r.range(0, 4));
    case 3: { u128 p = oracle::prev_prime_le((uint64_t) r.logrange(2, (i128) oracle::isqrt((u128) hi))); return std::min<i128>(hi, (i128) (p * p) + r.range(-2, 2)); }
    case 4: return (i128) oracle::prev_prime_le((uint64_t) r.logrange(2, hi));
    default: return r.logrange(0, hi);
  }
}
static std::function<bool(const Args&)> below(i128 hi) { return [hi](const Args& a) { return a[0] >= 0 && a[0] <= hi; }; }

// ------------------------------------------------------------------ S10
static void check_pi_table(uint64_t max)
{
  const oracle::Tables& t = oracle::tables();
  PiTable pi(max);
  PBT_REQUIRE(pi.size() == (int64_t) max + 1, "PiTable(", max, ").size() = ", pi.size());
  for (uint64_t n = 0; n <= max; n++)
    PBT_REQUIRE(pi[n] == (int64_t) t.pi[n], "PiTable(", max, ")[", n, "] = ", pi[n], " but there are ", t.pi[n], " primes <= ", n);
}
static Reg t1({ "table.pi", 10000, 150000,
  [](Rng& r) { return Args{ gen_size(r, r.chance(1, 50) ? 1900000 : 20000) }; },
  [](const Args& a, Ctx& c) {
    uint64_t max = (uint64_t) a[0];
    check_pi_table(max);
    auto pi = generate_pi((int64_t) max);
    PBT_REQUIRE(pi.size() == max + 1, "generate_pi(", max, ") has ", pi.size(), " elements");
    for (uint64_t n = 0; n <= max; n++)
      PBT_REQUIRE(pi[n] == (int64_t) oracle::tables().pi[n], "generate_pi(", max, ")[", n, "] = ", pi[n]);
    c.nontrivial(max >= 2);
  }, below(1999999), -1, 1, "table size >= 2" });

// windows of big tables
static Reg t1b({ "table.pi.big", 24, 150,
  [](Rng& r) { return Args{ r.logrange(2000000, 400000000) }; },
  [](const Args& a, Ctx& c) {
    uint64_t max = (uint64_t) a[0];
    PiTable pi(max);
    // number of primes <= max by Lucy is expensive for counts: check the differences in windows and the start
    for (uint64_t n = 0; n <= std::min<uint64_t>(max, 1000000); n++)
      PBT_REQUIRE(pi[n] == (int64_t) oracle::tables().pi[n], "PiTable(", max, ")[", n, "] = ", pi[n]);
    Rng r((uint64_t) max);
    uint64_t at[4] = { max > 300000 ? max - 300000 : 0, (uint64_t) r.below(max), (uint64_t) r.below(max), max / 2 };
    for (uint64_t w : at)
    {
      uint64_t e = std::min(max, w + 300000);
      int64_t n = pi[w];
      uint64_t v = w + 1;
      for (uint64_t p : oracle::primes_between(w + 1, e))
      {
        for (; v < p; v++) PBT_REQUIRE(pi[v] == n, "PiTable(", max, ")[", v, "] = ", pi[v], " but PiTable[", w, "] = ", pi[w]);
        n++;
      }
      for (; v <= e; v++) PBT_REQUIRE(pi[v] == n, "PiTable(", max, ")[", v, "] = ", pi[v], " but PiTable[", w, "] = ", pi[w]);
    }
    c.nontrivial();
  }, below(800000000), -1, 1, "table size > 2*10^6" });

template <typename T, typename V> static void check_primes(const std::string& what, const V& v, uint64_t max, bool sums)
{
  const oracle::Tables& t = oracle::tables();
  PBT_REQUIRE(v.size() == (size_t) t.pi[max] + 1, what, " has ", v.size(), " elements, expected ", t.pi[max] + 1);
  PBT_REQUIRE(v[0] == 0, what, "[0] is not 0");
  u128 s = 0;
  for (size_t i = 1; i < v.size(); i++)
  {
    s += t.primes[i - 1];
    u128 e = sums ? s : (u128) t.primes[i - 1];
    PBT_REQUIRE((u128) v[i] == e, what, "[", i, "] = ", (u128) v[i], " but it should be ", e);
  }
}
static Reg t2({ "table.primes", 10000, 150000,
  [](Rng& r) { return Args{ gen_size(r, r.chance(1, 30) ? 1900000 : 30000) }; },
  [](const Args& a, Ctx& c) {
    int64_t max = (int64_t) a[0];
    check_primes<int32_t>(cat("generate_primes(", max, ")"), generate_primes(max), max, false);
    check_primes<uint32_t>(cat("generate_primes<uint32_t>(", max, ")"), generate_primes<uint32_t>(max), max, false);
    check_primes<int64_t>(cat("generate_primes<int64_t>(", max, ")"), generate_primes<int64_t>(max), max, false);
    check_primes<uint64_t>(cat("generate_prime_sums<uint64_t>(", max, ")"), generate_prime_sums<uint64_t>(max), max, true);
    check_primes<int128_t>(cat("generate_prime_sums<int128_t>(", max, ")"), generate_prime_sums<int128_t>(max), max, true);
    int64_t n = oracle::tables().pi[(size_t) max];
    auto v = generate_n_primes(n);
    PBT_REQUIRE((int64_t) v.size() == n + 1, "generate_n_primes(", n, ") has ", v.size(), " elements");
    check_primes<int32_t>(cat("generate_n_primes(", n, ")"), v, n ? oracle::tables().primes[(size_t) n - 1] : 0, false);
    if (n < 10) PBT_REQUIRE(nth_prime(n) == (n < 2 ? 2 : (int64_t) oracle::tables().primes[(size_t) n - 1]), "nth_prime(", n, ") = ", nth_prime(n));
    else
    {
      bool thrown = false;
      try { nth_prime(n); } catch (primesum_error&) { thrown = true; }
      PBT_REQUIRE(thrown, "nth_prime(", n, ") does not fail");
    }
    c.nontrivial(max >= 2);
  }, below(1999999), -1, 1, "at least one prime" });
static Reg t3({ "table.mu", 10000, 150000,
  [](Rng& r) { return Args{ gen_size(r, r.chance(1, 30) ? 1900000 : 30000) }; },
  [](const Args& a, Ctx& c) {
    int64_t max = (int64_t) a[0];
    const oracle::Tables& t = oracle::tables();
    auto mu = generate_moebius(max);
    auto lpf = generate_lpf(max);
    PBT_REQUIRE((int64_t) mu.size() == max + 1 && (int64_t) lpf.size() == max + 1, "table sizes ", mu.size(), " ", lpf.size(), " for max ", max);
    for (int64_t n = 1; n <= max; n++)
    {
      PBT_REQUIRE(mu[n] == t.mu[n], "generate_moebius(", max, ")[", n, "] = ", mu[n]);
      int64_t e = n == 1 ? (int64_t) std::numeric_limits<int32_t>::max() : (int64_t) t.lpf[n];
      PBT_REQUIRE(lpf[n] == e, "generate_lpf(", max, ")[", n, "] = ", lpf[n]);
    }
    c.nontrivial(max >= 4);
  }, below(1999999), -1, 1, "table size >= 4" });

static bool coprime210(int64_t n) { return n % 2 && n % 3 && n % 5 && n % 7; }
// entry of the factor table for n > 1: 0 if mu = 0, lpf - 1 if mu = 1,
// lpf if mu = -1, the largest value if n is a prime
template <typename T> static void check_factor(const FactorTable<T>& f, int64_t y, int threads, int64_t n, uint64_t lpf, int mu)
{
  int64_t i = FactorTable<T>::get_index((uint64_t) n);
  int64_t max = std::numeric_limits<T>::max();
  int64_t e = (int64_t) lpf == n ? max : mu == 0 ? 0 : mu > 0 ? (int64_t) lpf - 1 : (int64_t) lpf;
  PBT_REQUIRE(f.lpf(i) == e, "FactorTable(", y, ", ", threads, ").lpf of ", n, " = ", f.lpf(i), " but it should be ", e);
  if (mu) PBT_REQUIRE(f.mu(i) == mu, "FactorTable(", y, ", ", threads, ").mu of ", n, " = ", f.mu(i), " but it should be ", mu);
}
template <typename T> static void check_factor_table(int64_t y, int threads)
{
  const oracle::Tables& t = oracle::tables((uint32_t) std::max<int64_t>(y, 100));
  FactorTable<T> f(y, threads);
  for (int64_t n = 2; n <= std::max<int64_t>(y, 8); n++)
    if (coprime210(n)) check_factor(f, y, threads, n, t.lpf[n], t.mu[n]);
}
static Reg t4({ "table.factor", 32000, 300000,
  [](Rng& r) { return Args{ gen_size(r, r.chance(1, 30) ? 1900000 : 30000), r.range(1, 16) }; },
  [](const Args& a, Ctx& c) {
    check_factor_table<uint16_t>((int64_t) a[0], (int) a[1]);
    check_factor_table<uint32_t>((int64_t) a[0], (int) a[1]);
    c.nontrivial(a[0] > 121);
  },
  [](const Args& a) { return a[0] >= 0 && a[0] < 2000000 && a[1] >= 1 && a[1] < 100; }, -1, 1, "numbers up to at least 11^2" });
// built by several threads
static Reg t5({ "table.factor.mt", 16, 100,
  [](Rng& r) { return Args{ r.range(20000000, 50000000), r.range(2, 6), r.range(0, 1) }; },
  [](const Args& a, Ctx& c) {
    int64_t y = (int64_t) a[0];
    int threads = (int) a[1];
    const oracle::Tables& small = oracle::tables();
    int64_t nthreads = std::min<int64_t>(threads, y / 10000000);
    int64_t dist = (y + nthreads - 1) / nthreads;
    // windows around the boundaries of the threads, and random ones
    std::vector<int64_t> at;
    for (int64_t i = 0; i <= nthreads; i++) at.push_back(i * dist);
    Rng r((uint64_t) y);
    for (int i = 0; i < 20; i++) at.push_back((int64_t) r.below((u128) y));
    auto check = [&](auto& f) {
      for (int64_t w : at)
        for (int64_t n = std::max<int64_t>(2, w - 3000); n <= std::min(y, w + 3000); n++)
          if (coprime210(n))
          {
            int64_t m = n, mu = 1;
            uint64_t lpf = 0;
            for (uint64_t p : small.primes)
            {
              if ((int64_t) (p * p) > m) break;
              if (m % (int64_t) p) continue;
              if (!lpf) lpf = p;
              m /= (int64_t) p;
              mu = -mu;
              if (m % (int64_t) p == 0) { mu = 0; break; }
            }
            if (m > 1 && mu) mu = -mu;
            if (!lpf) lpf = (uint64_t) n;
            check_factor(f, y, threads, n, lpf, (int) mu);
          }
    };
    if (a[2]) { FactorTable<uint32_t> f(y, threads); check(f); }
    else { FactorTable<uint16_t> f(y, threads); check(f); }
    c.nontrivial(nthreads > 1);
  },
  [](const Args& a) { return a[0] >= 10000000 && a[0] < 80000000 && a[1] >= 1 && a[1] < 100 && a[2] >= 0 && a[2] <= 1; }, -1, 1, "more than one thread builds the table" });
static Reg t6({ "table.index", 200000, 2000000,
  [](Rng& r) { return Args{ r.chance(1, 2) ? r.range(1, 100000) : (i128) r.bits(56) + 1 }; },
  [](const Args& a, Ctx& c) {
    typedef AbstractFactorTable F;
    int64_t n = (int64_t) a[0];
    int64_t i = F::get_index((uint64_t) n), m = n;
    F::to_index(&m);
    PBT_REQUIRE(m == i, "to_index(", n, ") = ", m, " but get_index = ", i);
    // largest number <= n which is coprime to 210
    int64_t k = n;
    while (!coprime210(k)) k--;
    PBT_REQUIRE(F::get_number((uint64_t) i) == k, "get_number(get_index(", n, ")) = ", F::get_number((uint64_t) i), " but it should be ", k);
    int64_t e = 48 * (k / 210);
    for (int64_t j = 1; j < k % 210; j++) e += coprime210(j);
    PBT_REQUIRE(i == e, "get_index(", n, ") = ", i, " but it should be ", e);
    c.nontrivial(n > 210);
  },
  [](const Args& a) { return a[0] >= 1 && a[0] >> 58 == 0; }, -1, 1, "n > 210" });
static Reg t7({ "table.limit", 200, 2000,
  [](Rng& r) { return Args{ r.chance(1, 2) ? r.range(1, 5) : (i128) r.bits(40) + 1 }; },
  [](const Args& a, Ctx& c) {
    i128 m16 = FactorTable<uint16_t>::max(), m32 = FactorTable<uint32_t>::max();
    // the tables store the least prime factors of composite numbers <= max
    PBT_REQUIRE(m16 >= 65521ll * 65521 && oracle::isqrt((u128) m16) < 65535, "FactorTable<uint16_t>::max() = ", m16);
    PBT_REQUIRE(m32 >= (i128) 4294967291ull * 4294967291ull / 2 && oracle::isqrt((u128) m32) < 4294967295ull, "FactorTable<uint32_t>::max() = ", m32);
    i128 y = m16 + a[0];
    bool thrown = false;
    try { FactorTable<uint16_t> f((int64_t) y, 1); } catch (primesum_error&) { thrown = true; }
    PBT_REQUIRE(thrown, "FactorTable<uint16_t>(", y, ") does not fail");
    c.nontrivial();
  },
  [](const Args& a) { return a[0] >= 1 && a[0] >> 41 == 0; }, -1, 1, "y larger than the limit" });
static Reg t7b({ "table.factor.max", 0, 1,
  [](Rng&) { return Args{ 0 }; },
  [](const Args& a, Ctx& c) {
    int64_t y = (int64_t) FactorTable<uint16_t>::max() - (int64_t) a[0];
    FactorTable<uint16_t> f(y, 8);
    const oracle::Tables& small = oracle::tables();
    for (int64_t n = y - 20000; n <= y; n++)
      if (coprime210(n))
      {
        int64_t m = n, mu = 1;
        uint64_t lpf = 0;
        for (uint64_t p : small.primes)
        {
          if ((int64_t) (p * p) > m) break;
          if (m % (int64_t) p) continue;
          if (!lpf) lpf = p;
          m /= (int64_t) p;
          mu = -mu;
          if (m % (int64_t) p == 0) { mu = 0; break; }
        }
        if (m > 1 && mu) mu = -mu;
        if (!lpf) lpf = (uint64_t) n;
        check_factor(f, y, 8, n, lpf, (int) mu);
      }
    c.nontrivial();
  }, nullptr, -1, 1, "the largest 16-bit factor table", 300 });
static Reg t8({ "table.phi_tiny", 100000, 1000000,
  [](Rng& r) { return Args{ (i128) r.bits(120), r.range(0, 6), r.range(0, 50000) }; },
  [](const Args& a, Ctx& c) {
    static const int p[] = { 2, 3, 5, 7, 11, 13 };
    auto ie = [&](u128 x) {
      i128 s = 0;
      for (int m = 0; m < (1 << (int) a[1]); m++)
      {
        u128 d = 1;
        for (int i = 0; i < (int) a[1]; i++) if (m >> i & 1) d *= (u128) p[i];
        s += __builtin_popcount((unsigned) m) & 1 ? -(i128) (x / d) : (i128) (x / d);
      }
      return s;
    };
    i128 x = a[0];
    PBT_REQUIRE(PhiTiny::max_a() == 6 && is_phi_tiny(6) && !is_phi_tiny(7), "PhiTiny::max_a()");
    PBT_REQUIRE(phi_tiny((int128_t) x, (int64_t) a[1]) == ie((u128) x), "phi_tiny(", x, ", ", a[1], ")");
    if (x >> 63 == 0) PBT_REQUIRE(phi_tiny((int64_t) x, (int64_t) a[1]) == ie((u128) x), "phi_tiny(int64 ", x, ", ", a[1], ")");
    int64_t y = (int64_t) a[2];
    int64_t e = std::min<int64_t>(6, oracle::tables().pi[(size_t) y]);
    PBT_REQUIRE(PhiTiny::get_c(y) == e, "PhiTiny::get_c(", y, ") = ", PhiTiny::get_c(y));
    c.nontrivial(a[1] > 0 && x > 1);
  },
  [](const Args& a) { return a[0] >= 0 && a[0] >> 121 == 0 && a[1] >= 0 && a[1] <= 6 && a[2] >= 0 && a[2] < 1000000; }, -1, 1, "x > 1, a > 0" });

// ------------------------------------------------------------------ S11
// args: low, log2(size) or size, c, tree?, then operations (op, u, v)
struct SieveModel
{
  i128 low;
  size_t size;
  std::vector<char> on;  // even positions only
  i128 sum(int64_t start, int64_t stop) const
  {
    i128 s = 0;
    for (int64_t i = std::max<int64_t>(start, 0); i <= stop && i < (int64_t) size; i++) if (i % 2 == 0 && on[(size_t) i]) s += low + i;
    return s;
  }
};
static void run_sieve(const Args& a, Ctx& ctx)
{
  static const int sp[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23 };
  int64_t low = (int64_t) a[0];
  size_t size = (size_t) a[1];
  uint64_t c = (uint64_t) a[2];
  bool with_tree = a[3] != 0;
  BitSieve sieve(size);
  SieveModel m{ low, size, std::vector<char>(size, 0) };
  PBT_REQUIRE(sieve.size() == size, "size() = ", sieve.size());
  auto pre = [&](int64_t lo, uint64_t cc) {
    m.low = lo;
    sieve.pre_sieve(cc, (uint64_t) lo);
    for (size_t i = 0; i < size; i += 2)
    {
      bool o = true;
      for (uint64_t k = 1; k < cc && o; k++) if ((lo + (int64_t) i) % sp[k] == 0) o = false;
      m.on[i] = o;
    }
  };
  pre(low, c);
  BinaryIndexedTree tree;
  if (with_tree) tree.init(sieve, low);
  int checks = 0;
  for (size_t i = 4; i + 2 < a.size(); i += 3)
  {
    int64_t u = (int64_t) ((u128) a[i + 1] % size), v = (int64_t) ((u128) a[i + 2] % size);
    switch ((int) a[i])
    {
      case 0: // cross off a number
        u &= ~(int64_t) 1;
        PBT_REQUIRE((bool) sieve[(uint64_t) u] == (bool) m.on[(size_t) u], "sieve[", u, "] is wrong, low = ", low, ", size = ", size);
        if (m.on[(size_t) u] && with_tree) tree.update(low + u, low);
        sieve.unset((uint64_t) u);
        m.on[(size_t) u] = 0;
        break;
      case 1: // cross off all multiples of a number
      {
        int64_t p = 2 * (v % 500) + 3;
        for (int64_t k = (low + p - 1) / p * p; k < low + (int64_t) size; k += p)
        {
          if ((k - low) & 1) continue;
          if (sieve[(uint64_t) (k - low)] && with_tree) tree.update(k, low);
          sieve.unset((uint64_t) (k - low));
          m.on[(size_t) (k - low)] = 0;
        }
        break;
      }
      case 2: // sum of a range
      {
        if (u > v) std::swap(u, v);
        i128 s = sieve.sum((uint64_t) low, (uint64_t) u, (uint64_t) v), e = m.sum(u, v);
        PBT_REQUIRE(s == e, "sum(low = ", low, ", ", u, ", ", v, ") = ", s, " but the numbers left add up to ", e, ", size = ", size);
        checks++;
        break;
      }
      case 3: // sum of a range, counted from either end
      {
        if (u > v) std::swap(u, v);
        int64_t high = low + (int64_t) size;
        i128 s0 = m.sum(0, u - 1), all = m.sum(0, (int64_t) size - 1), e = m.sum(u, v);
        i128 s = sieve.sum((uint64_t) u, (uint64_t) v, (uint64_t) low, (uint64_t) high, s0, all);
        PBT_REQUIRE(s == e, "sum(", u, ", ", v, ", ", low, ", ", high, ", ...) = ", s, " but the numbers left add up to ", e);
        checks++;
        break;
      }
      case 4: // prefix sum using the tree
        if (with_tree)
        {
          i128 s = tree.sum(u), e = m.sum(0, u);
          PBT_REQUIRE(s == e, "tree.sum(", u, ") = ", s, " but the numbers left add up to ", e, ", low = ", low, ", size = ", size);
          checks++;
        }
        break;
      case 5: // add a number
        if (with_tree) break;
        u &= ~(int64_t) 1;
        sieve.set((uint64_t) u);
        m.on[(size_t) u] = 1;
        break;
      case 6: // next segment
        if (low > ((int64_t) 1 << 61)) break;
        low += (int64_t) size + (int64_t) (size & 1);
        pre(low, (uint64_t) (v % 10));
        if (with_tree) tree.init(sieve, low);
        break;
    }
  }
  for (size_t i = 0; i < size; i += 2)
    PBT_REQUIRE((bool) sieve[i] == (bool) m.on[i], "sieve[", i, "] = ", (int) sieve[i], " at the end, low = ", low, ", size = ", size, ", c = ", c);
  i128 s = sieve.sum((uint64_t) low, 0, size - 1), e = m.sum(0, (int64_t) size - 1);
  PBT_REQUIRE(s == e, "sum of everything = ", s, " but the numbers left add up to ", e, ", low = ", low, ", size = ", size);
  ctx.nontrivial(checks > 0);
  if (with_tree) ctx.label("tree");
  if (low >> 57) ctx.label("low >= 2^57");
}
static Reg b1({ "sieve.history", 900000, 9000000,
  [](Rng& r) {
    Args a;
    i128 low = (i128) (r.chance(1, 4) ? ((u128) 1 << 61) - r.bits(30) : r.bits(61)) | 1;
    bool tree = r.chance(1, 2);
    i128 size = tree ? (i128) 1 << (int) r.range(7, 12) : (r.chance(1, 2) ? (i128) 1 << (int) r.range(7, 12) : 2 * r.logrange(1, 2000));
    a = { low, size, r.range(0, 9), tree };
    int n = (int) r.range(1, 40);
    for (int i = 0; i < n; i++)
    {
      a.push_back(r.range(0, r.chance(1, 5) ? 6 : 5));
      for (int k = 0; k < 2; k++) a.push_back(r.chance(1, 4) ? 128 * r.range(0, 32) + r.range(-2, 2) + 2 : r.range(0, size - 1));
    }
    return a;
  }, run_sieve,
  [](const Args& a) {
    if (a.size() < 4 || a[0] < 1 || a[0] % 2 == 0 || a[0] >> 62 || a[1] < 2 || a[1] % 2 || a[1] > 100000 || a[2] < 0 || a[2] > 9) return false;
    if (a[3] && (a[1] < 128 || (a[1] & (a[1] - 1)))) return false;
    for (size_t i = 4; i + 2 < a.size(); i += 3) if (a[i] < 0 || a[i] > 6 || a[i + 1] < 0 || a[i + 2] < 0) return false;
    return true;
  }, 4, 3, "a history with at least one sum" });
// the crossing-off done by the algorithms: multiples p * q, q coprime to 210
static Reg b2({ "sieve.wheel", 120000, 900000,
  [](Rng& r) { return Args{ (i128) r.bits(61) | 1, r.range(2, 400), r.range(1, 40) }; },
  [](const Args& a, Ctx& c) {
    const oracle::Tables& t = oracle::tables();
    std::vector<int64_t> primes(1, 0);
    for (size_t i = 0; i < (size_t) a[1]; i++) primes.push_back(t.primes[i]);
    std::vector<uint32_t> primes32(primes.begin(), primes.end());
    int64_t low = (int64_t) a[0];
    Wheel wheel(primes, a[1], low);
    Wheel wheel32(primes32, a[1], low);
    for (int64_t b = 1; b < (int64_t) a[1]; b++)
    {
      int64_t p = primes[b], q = (low + p - 1) / p;
      int64_t index = wheel[b].wheel_index, m = wheel[b].next_multiple;
      PBT_REQUIRE(wheel32[b].next_multiple == m && wheel32[b].wheel_index == index, "32-bit and 64-bit primes differ");
      for (int i = 0; i < (int) a[2]; i++)
      {
        while (!coprime210(q)) q++;
        PBT_REQUIRE(m == p * q, "multiple ", i, " of ", p, " >= ", low, " is ", m, " but it should be ", p * q);
        m += p * Wheel::next_multiple_factor(&index);
        q++;
      }
    }
    c.nontrivial();
  },
  [](const Args& a) { return a[0] >= 1 && a[0] >> 61 == 0 && a[1] >= 2 && a[1] < 2000 && a[2] >= 1 && a[2] < 500; }, -1, 1, "every case" });
// large sieves
static Reg b3({ "sieve.large", 1500, 12000,
  [](Rng& r) { return Args{ (i128) r.bits(61) | 1, (i128) 1 << (int) r.range(13, 20), r.range(0, 9), (i128) r.next() >> 1 }; },
  [](const Args& a, Ctx& c) {
    Args b = { a[0], a[1], a[2], (a[3] & 1) };
    Rng r((uint64_t) a[3]);
    for (int i = 0; i < 12; i++) { b.push_back(r.range(0, 4)); b.push_back(r.range(0, a[1] - 1)); b.push_back(r.range(0, a[1] - 1)); }
    run_sieve(b, c);
  },
  [](const Args& a) { return a[0] >= 1 && a[0] % 2 == 1 && a[0] >> 61 == 0 && a[1] >= 128 && (a[1] & (a[1] - 1)) == 0 && a[1] <= 2000000 && a[2] >= 0 && a[2] <= 9 && a[3] >= 0; }, -1, 1, "a history with at least one sum" });

// ------------------------------------------------------------------ S12
static double time_value(i128 t)
{
  // 0, or 10^-7 .. 10^9 seconds
  if (t <= 0) return 0;
  return pow(10.0, -7 + (double) (t % 1600000) / 100000);
}
// args: x, y, threads, then times; drives the balancer as the algorithms do
static Reg l1({ "balance.history", 250000, 2500000,
  [](Rng& r) {
    i128 x = r.chance(1, 3) ? r.logrange(2, 100000) : (i128) r.bits(91) + 2;
    i128 x13 = (i128) oracle::iroot((u128) x, 3), x16 = (i128) oracle::iroot((u128) x, 6);
    Args a = { x, r.logrange(x13, x13 * x16), r.logrange(1, 300), r.range(0, 3) };
    int n = (int) r.logrange(1, 200);
    int style = (int) r.below(5);
    for (int i = 0; i < n; i++)
      a.push_back(style == 0 ? r.range(0, 1) : style == 1 ? r.range(0, 1600000) : style == 2 ? r.range(400000, 700000) : style == 3 ? 1600000 - (i128) i * 8000 : r.pick(std::vector<i128>{ 0, 1, 1599999, 500000, 499999 }));
    return a;
  },
  [](const Args& a, Ctx& c) {
    i128 x = a[0];
    int64_t y = (int64_t) a[1], z = (int64_t) (x / y);
    int64_t threads = (int64_t) a[2];
    // 1: zero based, 2: threads are not limited by the number of segments
    int64_t low = a[3] & 1, limit = z + 1;
    S2LoadBalancer lb((int128_t) x, y, z, threads);
    int64_t min_size = lb.get_min_segment_size();
    int64_t size = min_size, per_thread = 1;
    PBT_REQUIRE(min_size > 0 && (min_size & (min_size - 1)) == 0, "minimum segment size ", min_size);
    std::vector<double> times;
    for (size_t i = 4; i < a.size(); i++) times.push_back(time_value(a[i]));
    size_t k = 4;
    int steps = 0, changes = 0;
    while (low < limit && k < a.size() && steps < 2000)
    {
      int64_t segments = ceil_div(limit - low, size);
      threads = in_between(1, threads, segments);
      per_thread = in_between(1, per_thread, ceil_div(segments, threads));
      aligned_vector<double> t((size_t) threads);
      for (size_t i = 0; i < (size_t) threads; i++) t[i] = times[(k - 4 + i) % times.size()];
      k++;
      i128 next = low + (i128) per_thread * threads * size;
      PBT_REQUIRE(next > low && next < ((i128) 1 << 63), "low = ", low, " is followed by ", next);
      low = (int64_t) next;
      int64_t os = size, op = per_thread;
      lb.update(low, threads, &size, &per_thread, t);
      changes += size != os || per_thread != op;
      PBT_REQUIRE(size > 0 && (size & (size - 1)) == 0, "segment size ", size, " after step ", steps);
      PBT_REQUIRE(size >= min_size, "segment size ", size, " is smaller than the minimum ", min_size);
      PBT_REQUIRE(per_thread >= 1, "segments per thread ", per_thread, " after step ", steps);
      PBT_REQUIRE(std::isfinite(lb.get_rsd()) && lb.get_rsd() >= 0, "relative standard deviation ", lb.get_rsd());
      min_size = std::min(min_size, lb.get_min_segment_size());
      PBT_REQUIRE(lb.get_min_segment_size() > 0, "minimum segment size ", lb.get_min_segment_size());
      steps++;
    }
    c.nontrivial(changes >= 2);
  },
  [](const Args& a) {
    if (a.size() < 5 || a[0] < 2 || a[0] >> 92 || a[2] < 1 || a[2] > 1000 || a[3] < 0 || a[3] > 3) return false;
    i128 x13 = (i128) oracle::iroot((u128) a[0], 3), x16 = (i128) oracle::iroot((u128) a[0], 6);
    if (a[1] < x13 || a[1] > x13 * x16 || (a[0] / a[1]) >> 62) return false;
    for (size_t i = 4; i < a.size(); i++) if (a[i] < 0) return false;
    return true;
  }, 4, 1, "the work distribution changed at least twice" });
static Reg l2({ "balance.threads", 600000, 5000000,
  [](Rng& r) { return Args{ r.range(-2, r.chance(1, 2) ? 64 : 1000000), (i128) r.bits(62), r.chance(1, 5) ? r.range(-5, 1) : (i128) r.bits(40) }; },
  [](const Args& a, Ctx& c) {
    int64_t n = ideal_num_threads((int) a[0], (int64_t) a[1], (int64_t) a[2]);
    i128 e = std::max<i128>(1, std::min<i128>(a[0], a[1] / std::max<i128>(1, a[2])));
    PBT_REQUIRE(n == e, "ideal_num_threads(", a[0], ", ", a[1], ", ", a[2], ") = ", n, " but it should be ", e);
    c.nontrivial(e > 1);
  },
  [](const Args& a) { return a[1] >= 0 && a[1] >> 63 == 0 && a[2] >> 62 == 0; }, -1, 1, "more than one thread" });

int main(int argc, char** argv) { return pbt::main(argc, argv); }
