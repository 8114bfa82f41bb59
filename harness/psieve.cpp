// libprimesieve: Q01 counts, Q02 arrays, Q03 nth prime, Q04 iterators,
// Q05 C interface, Q06 printing, Q07 settings
#include "psieve.hpp"
#include <primesieve.hpp>
#include <primesieve.h>
#include <atomic>
#include <cerrno>
#include <future>
#include <memory>
#include <new>
#include <thread>

using namespace ps;

// ------------------------------------------------------------------ fault injection
static thread_local bool fault_here = false;       // only allocations of this thread ...
static std::atomic<bool> fault_all(false);         // ... or of all threads
static std::atomic<long> fault_at(-1), fault_seen(0), fault_hit(0);
static bool fault_now()
{
  if (fault_at.load(std::memory_order_relaxed) < 0) return false;
  if (!fault_here && !fault_all) return false;
  if (fault_seen++ != fault_at) return false;
  fault_hit++;
  return true;
}
#ifndef VP_NO_FAULTS
void* operator new(size_t n)
{
  if (fault_now()) throw std::bad_alloc();
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
extern "C" void* __real_malloc(size_t);
extern "C" void* __wrap_malloc(size_t n) { return fault_now() ? nullptr : __real_malloc(n); }
extern "C" void* __real_realloc(void*, size_t);
extern "C" void* __wrap_realloc(void* p, size_t n) { return fault_now() ? nullptr : __real_realloc(p, n); }
#endif
struct Fault
{
  Fault(long at, bool all) { fault_seen = 0; fault_hit = 0; fault_all = all; fault_here = true; fault_at = at; }
  ~Fault() { fault_at = -1; fault_here = false; fault_all = false; }
};

// the settings are part of every case
static void settings(i128 v)
{
  // v = sieve size exponent + 16 * threads
  primesieve::set_sieve_size(8 << (int) (v % 16 % 10));
  primesieve::set_num_threads((int) (v / 16 % 16));
}
static i128 gen_settings(Rng& r) { return (i128) r.below(10) + 16 * (i128) (r.chance(1, 2) ? 1 : 1 + r.below(8)); }

typedef uint64_t (*count_fn)(uint64_t, uint64_t);
static const count_fn count_cpp[7] = { nullptr, primesieve::count_primes, primesieve::count_twins, primesieve::count_triplets,
  primesieve::count_quadruplets, primesieve::count_quintuplets, primesieve::count_sextuplets };
static const count_fn count_c[7] = { nullptr, primesieve_count_primes, primesieve_count_twins, primesieve_count_triplets,
  primesieve_count_quadruplets, primesieve_count_quintuplets, primesieve_count_sextuplets };
static const char* const names[7] = { "", "primes", "twins", "triplets", "quadruplets", "quintuplets", "sextuplets" };

// ------------------------------------------------------------------ Q01
static Args gen_interval(Rng& r, bool high = true)
{
  uint64_t a = gen_pos(r, cost_bits(r, high)), b;
  uint64_t w = 0;
  if (r.chance(1, 16))
  {
    // maximal gaps and dense clusters
    auto e = gen_special(r, (1ull << cost_bits(r, false)) - 1);
    return Args{ (i128) e.first, (i128) e.second };
  }
  switch ((int) r.below(6))
  {
    case 0: w = (uint64_t) r.below(3); break;
    case 1: w = (uint64_t) r.below(40); break;
    case 2: w = (uint64_t) r.below(2000); break;
    case 3: w = (uint64_t) r.below(30000); break;
    default: w = (uint64_t) r.bits(a < 10000000000000ull ? 21 : 15); break;
  }
  b = MAX - a < w ? MAX : a + w;
  if (r.chance(1, 25)) { a = gen_pos(r, 50); b = gen_pos(r, 34); if (a <= b && b - a > 3000000) std::swap(a, b); }
  return Args{ (i128) a, (i128) b };
}
// intervals which end at 2^64 - 1
static void to_the_top(Rng& r, Args& a)
{
  uint64_t b = MAX - (r.chance(2, 3) ? 0 : (uint64_t) r.below(100));
  a[1] = (i128) b;
  a[0] = (i128) (b - (uint64_t) r.bits(11));
}
static bool small_interval(const Args& a)
{
  return a[0] >= 0 && a[1] >= 0 && (u128) a[0] <= MAX && (u128) a[1] <= MAX && (a[0] > a[1] || a[1] - a[0] <= 5000000);
}
static Reg c1({ "count.window", 5500, 80000,
  [](Rng& r) { Args a = gen_interval(r); a.push_back(gen_settings(r)); return a; },
  [](const Args& a, Ctx& c) {
    uint64_t x = (uint64_t) a[0], y = (uint64_t) a[1];
    settings(a[2]);
    auto p = x <= y ? window(x, y) : std::vector<uint64_t>();
    for (int k = 1; k <= 6; k++)
    {
      uint64_t e = count_k(p, k), v = count_cpp[k](x, y);
      PBT_REQUIRE(v == e, "count_", names[k], "(", x, ", ", y, ") = ", v, " but it should be ", e, " (sieve size ", primesieve::get_sieve_size(), ")");
      if (e && k > 1) c.label(cat(k, "-tuplets"));
    }
    c.nontrivial(!p.empty());
    if (y > 1ull << 50) c.label("> 2^50");
    if (y > 1ull << 60) c.label("> 2^60");
    if (x > y) c.label("start > stop");
  }, small_interval, -1, 1, "the interval contains a prime" });

// wide intervals which are sieved by several threads
static Reg c2({ "count.wide", 60, 800,
  [](Rng& r) {
    uint64_t a = gen_pos(r, 42), w = 20000000 + (uint64_t) r.below(60000000);
    if (r.chance(1, 3)) w = 10000000 * (2 + (uint64_t) r.below(6)) + (uint64_t) r.below(5) - 2;
    return Args{ (i128) a, (i128) (a + w), gen_settings(r) + 16 }; },
  [](const Args& a, Ctx& c) {
    uint64_t x = (uint64_t) a[0], y = (uint64_t) a[1];
    settings(a[2]);
    auto p = window(x, y);
    for (int k = 1; k <= 6; k++)
    {
      uint64_t e = count_k(p, k), v = count_cpp[k](x, y);
      PBT_REQUIRE(v == e, "count_", names[k], "(", x, ", ", y, ") = ", v, " but it should be ", e, " (", primesieve::get_num_threads(), " threads, sieve size ", primesieve::get_sieve_size(), ")");
    }
    c.nontrivial(primesieve::get_num_threads() > 1);
    if (primesieve::get_num_threads() > 1) c.label("multi-threaded");
  }, [](const Args& a) { return a[0] >= 0 && a[1] >= a[0] && a[1] - a[0] <= 100000000 && a[1] < (i128) 9000000000000ll; }, -1, 1, "more than one thread" });

// counts of adjacent intervals add up; any number of threads gives the same counts
static Reg c3({ "count.split", 120, 1500,
  [](Rng& r) {
    uint64_t a = gen_pos(r, r.chance(1, 12) ? 56 : 48), w = 20000000 + (uint64_t) r.below(60000000);
    return Args{ (i128) a, (i128) (a + w), (i128) (a + r.below(w)), gen_settings(r) + 16 }; },
  [](const Args& a, Ctx& c) {
    uint64_t x = (uint64_t) a[0], y = (uint64_t) a[1], m = (uint64_t) a[2];
    settings(a[3]);
    uint64_t all[7], one[7];
    for (int k = 1; k <= 6; k++) all[k] = count_cpp[k](x, y);
    int threads = primesieve::get_num_threads();
    settings(16 + a[3] % 7);
    for (int k = 1; k <= 6; k += (k == 1 ? 1 + (int) (a[3] % 5) : 6))
    {
      one[k] = count_cpp[k](x, y);
      PBT_REQUIRE(all[k] == one[k], "count_", names[k], "(", x, ", ", y, ") is ", all[k], " with ", threads, " threads and ", one[k], " with one");
    }
    uint64_t l = primesieve::count_primes(x, m), h = primesieve::count_primes(m + 1, y);
    PBT_REQUIRE(l + h == all[1], "count_primes(", x, ", ", y, ") = ", all[1], " but [", x, ", ", m, "] contains ", l, " and [", m + 1, ", ", y, "] contains ", h);
    // tuplets which are cut by the split: those which contain primes on both sides
    auto p = window(m > 40 ? m - 40 : 0, m + 40);
    for (int k = 2; k <= 6; k += 1 + (int) (a[3] % 3))
    {
      uint64_t cut = 0;
      for (size_t i = 0; i < p.size(); i++)
        for (auto& pat : patterns(k))
          if (match(p, i, pat)) { if (p[i] >= x && p[i] <= m && p[i + (size_t) k - 1] > m && p[i + (size_t) k - 1] <= y) cut++; break; }
      uint64_t s = count_cpp[k](x, m) + count_cpp[k](m + 1, y) + cut;
      PBT_REQUIRE(s == all[k], "count_", names[k], "(", x, ", ", y, ") = ", all[k], " but ", s, " if split at ", m);
    }
    c.nontrivial();
  }, [](const Args& a) { return a[0] >= 0 && a[2] >= a[0] && a[1] > a[2] && a[1] - a[0] <= 100000000 && a[1] < ((i128) 1 << 57); }, -1, 1, "every case" });

// the end of the interval is near the end of a segment of the sieve
static Reg c4({ "count.segment", 1500, 20000,
  [](Rng& r) {
    int e = (int) r.below(r.chance(1, 8) ? 6 : 2);
    uint64_t a = r.chance(1, 3) ? (uint64_t) r.below(400) : gen_pos(r, 40);
    uint64_t seg = (uint64_t) (8 << e) * 1024 * 30;
    uint64_t b = a - a % 30 + seg * (1 + (uint64_t) r.below(3)) + (uint64_t) r.below(90);
    b -= 45;
    return Args{ (i128) a, (i128) b, (i128) e + 16 }; },
  [](const Args& a, Ctx& c) {
    uint64_t x = (uint64_t) a[0], y = (uint64_t) a[1];
    settings(a[2]);
    auto p = window(x, y);
    for (int k = 1; k <= 6; k++)
    {
      uint64_t e = count_k(p, k), v = count_cpp[k](x, y);
      PBT_REQUIRE(v == e, "count_", names[k], "(", x, ", ", y, ") = ", v, " but it should be ", e, " (sieve size ", primesieve::get_sieve_size(), ")");
    }
    std::vector<uint64_t> g;
    primesieve::generate_primes(x, y, &g);
    PBT_REQUIRE(g == p, "generate_primes(", x, ", ", y, ") is wrong");
    c.nontrivial();
  }, [](const Args& a) { return small_interval(a) && a[0] <= a[1] && a[1] < (i128) 2000000000000ll; }, -1, 1, "every case" });

// wide intervals at high positions, up to 2^64: several threads against one thread piece by piece.
// The pieces end at numbers = 2 (mod 30), where no k-tuplet is cut.
static Reg c5({ "count.far", 12, 60,
  [](Rng& r) {
    uint64_t b = r.chance(1, 2) ? MAX - (uint64_t) r.bits(7) : ((uint64_t) 1 << r.range(52, 63)) + (uint64_t) r.bits(51);
    uint64_t th = std::max<uint64_t>(10000000, (uint64_t) (sqrt((double) b) / 5));
    return Args{ (i128) b, (i128) (th * 2 + (uint64_t) r.below(th * 2)), (i128) (r.chance(1, 2) ? 0 : r.below(6)), 2 + (i128) r.below(7) }; },
  [](const Args& a, Ctx& c) {
    uint64_t y = (uint64_t) a[0], w = (uint64_t) a[1], x = y < w ? 0 : y - w;
    primesieve::set_num_threads((int) a[3]);
    primesieve::set_sieve_size(256 << (int) (a[3] % 5));
    int k = 1 + (int) a[2];
    uint64_t all = count_cpp[k](x, y);
    primesieve::set_num_threads(1);
    primesieve::set_sieve_size(512);
    std::vector<std::future<uint64_t>> f;
    uint64_t lo = x;
    for (int i = 0; i < 8; i++)
    {
      uint64_t hi = i == 7 ? y : x + w / 8 * (uint64_t) (i + 1);
      if (i < 7) hi = hi - hi % 30 + 2;
      f.push_back(std::async(std::launch::async, count_cpp[k], lo, hi));
      lo = hi + 1;
    }
    uint64_t sum = 0;
    for (auto& x : f) sum += x.get();
    PBT_REQUIRE(all == sum, "count_", names[k], "(", x, ", ", y, ") = ", all, " with ", (int) a[3], " threads, but ", sum, " if it is counted in 8 parts by one thread each");
    c.nontrivial();
    if (y > MAX - 1000) c.label("up to 2^64");
  }, [](const Args& a) { return a[0] > ((i128) 1 << 50) && (u128) a[0] <= MAX && a[1] > 1000 && a[1] < 4000000000ll && a[2] >= 0 && a[2] < 6 && a[3] > 0 && a[3] < 10; }, -1, 1, "every case" });

// more than 2^32 primes
static Reg c6({ "count.huge", 1, 6,
  [](Rng& r) { return Args{ 0, (i128) r.below(400), r.chance(3, 4) ? 8 : 1 + (i128) r.below(8), (i128) r.below(10) }; },
  [](const Args& a, Ctx& c) {
    primesieve::set_num_threads((int) a[2]);
    primesieve::set_sieve_size(8 << (int) a[3]);
    // pi(2^37), and a few numbers more
    uint64_t y = (1ull << 37) + (uint64_t) a[1], e = 5586502348ull + window((1ull << 37) + 1, y).size();
    uint64_t v = primesieve::count_primes((uint64_t) a[0], y);
    PBT_REQUIRE(v == e, "count_primes(", (uint64_t) a[0], ", ", y, ") = ", v, " but it should be ", e, " (", (int) a[2], " threads, sieve size ", primesieve::get_sieve_size(), ")");
    c.nontrivial();
  }, [](const Args& a) { return a[0] >= 0 && a[0] < 3 && a[1] >= 0 && a[1] < 100000 && a[2] > 0 && a[2] < 10 && a[3] >= 0 && a[3] < 10; }, -1, 1, "every case" });

// ------------------------------------------------------------------ Q02
template <typename T> static void check_gen(uint64_t x, uint64_t y, const std::vector<uint64_t>& p, int prefix, const char* t)
{
  std::vector<T> v;
  for (int i = 0; i < prefix; i++) v.push_back((T) (i * 7 + 1));
  if (x == 0 && prefix % 2) primesieve::generate_primes(y, &v); else primesieve::generate_primes(x, y, &v);
  PBT_REQUIRE(v.size() == p.size() + (size_t) prefix, "generate_primes<", t, ">(", x, ", ", y, ") appends ", v.size() - (size_t) prefix, " primes instead of ", p.size());
  for (int i = 0; i < prefix; i++) PBT_REQUIRE(v[(size_t) i] == (T) (i * 7 + 1), "generate_primes<", t, "> changes existing elements");
  for (size_t i = 0; i < p.size(); i++)
    PBT_REQUIRE(v[i + (size_t) prefix] == (T) p[i], "generate_primes<", t, ">(", x, ", ", y, "): prime number ", i, " is ", (i128) v[i + (size_t) prefix], " instead of ", p[i]);
}
static Reg g1({ "gen.window", 6000, 60000,
  [](Rng& r) { Args a = gen_interval(r); if (r.chance(1, 250)) to_the_top(r, a); a.push_back(gen_settings(r)); a.push_back((i128) r.below(4)); return a; },
  [](const Args& a, Ctx& c) {
    uint64_t x = (uint64_t) a[0], y = (uint64_t) a[1];
    settings(a[2]);
    auto p = x <= y ? window(x, y) : std::vector<uint64_t>();
    int n = (int) a[3];
    if (y == MAX) c.label("up to 2^64 - 1");
    check_gen<uint64_t>(x, y, p, n, "uint64_t");
    if (y < 1ull << 57)
    {
      check_gen<int64_t>(x, y, p, n + 1, "int64_t");
      check_gen<double>(x, y, p, n, "double");
    }
    if (y < 1ull << 31) check_gen<int32_t>(x, y, p, n, "int32_t");
    if (y < 1ull << 32) check_gen<uint32_t>(x, y, p, n, "uint32_t");
    if (y < 1ull << 16) check_gen<uint16_t>(x, y, p, n, "uint16_t");
    c.nontrivial(!p.empty());
    if (y > 1ull << 50) c.label("> 2^50");
    if (y > 1ull << 60) c.label("> 2^60");
    if (x > y) c.label("start > stop");
  }, small_interval, -1, 1, "the interval contains a prime" });

static Args gen_n(Rng& r)
{
  uint64_t a = gen_pos(r, cost_bits(r));
  if (r.chance(1, 40)) a = MAX - (uint64_t) r.bits(14);
  uint64_t n = a < 10000000000000ull ? (uint64_t) r.bits(16) : (uint64_t) r.bits(10);
  if (r.chance(1, 6)) n = (uint64_t) r.below(5);
  return Args{ (i128) n, (i128) a, gen_settings(r), (i128) r.below(4) };
}
template <typename T> static void check_n(uint64_t n, uint64_t x, const std::vector<uint64_t>& p, int prefix)
{
  std::vector<T> v((size_t) prefix, (T) 77);
  bool thrown = false;
  try { if (x == 0 && prefix % 2) primesieve::generate_n_primes(n, &v); else primesieve::generate_n_primes(n, x, &v); }
  catch (primesieve::primesieve_error&) { thrown = true; }
  if (p.size() < n) { PBT_REQUIRE(thrown, "generate_n_primes(", n, ", ", x, ") does not fail, there are only ", p.size(), " primes < 2^64"); return; }
  PBT_REQUIRE(!thrown, "generate_n_primes(", n, ", ", x, ") fails");
  PBT_REQUIRE(v.size() == n + (size_t) prefix, "generate_n_primes(", n, ", ", x, ") appends ", v.size() - (size_t) prefix, " primes");
  for (int i = 0; i < prefix; i++) PBT_REQUIRE(v[(size_t) i] == (T) 77, "generate_n_primes changes existing elements");
  for (size_t i = 0; i < p.size(); i++)
    PBT_REQUIRE(v[i + (size_t) prefix] == (T) p[i], "generate_n_primes(", n, ", ", x, "): prime number ", i, " is ", (i128) v[i + (size_t) prefix], " instead of ", p[i]);
}
// the n first primes >= x
static std::vector<uint64_t> first_n(uint64_t n, uint64_t x)
{
  std::vector<uint64_t> p;
  static Walker w;
  uint64_t q = x;
  if (x > 0) q = x - 1;
  while (p.size() < n) { q = w.next(q); if (q == MAX) break; p.push_back(q); }
  return p;
}
static Reg g2({ "gen.n", 4000, 40000, gen_n,
  [](const Args& a, Ctx& c) {
    uint64_t n = (uint64_t) a[0], x = (uint64_t) a[1];
    settings(a[2]);
    auto p = first_n(n, x);
    check_n<uint64_t>(n, x, p, (int) a[3]);
    if (!p.empty() && p.size() == n && p.back() < 1ull << 50) check_n<int64_t>(n, x, p, (int) a[3] + 1);
    if (!p.empty() && p.size() == n && p.back() < 1ull << 31) check_n<int32_t>(n, x, p, 0);
    c.nontrivial(n > 0);
    if (p.size() < n) c.label("beyond 2^64");
    if (x > 1ull << 60) c.label("> 2^60");
  }, [](const Args& a) { return a[0] >= 0 && a[0] <= 200000 && a[1] >= 0 && (u128) a[1] <= MAX; }, -1, 1, "n > 0" });

// arrays of more than 2^32 numbers' primes
static Reg g3({ "gen.deep", 1, 6,
  [](Rng& r) { int t = (int) r.below(3); return Args{ gen_settings(r), t == 2 ? (i128) r.below(3) : (i128) r.bits(36), 4300000000ll + (i128) r.below(100000000), t }; },
  [](const Args& a, Ctx& c) {
    settings(a[0]);
    uint64_t start = (uint64_t) a[1], end = start + (uint64_t) a[2];
    const uint64_t step = 20000000;
    // the first 203280221 primes are all the primes < 2^32
    if (a[3] == 2) end = 4294967295ull;
    auto check = [&](auto* v, size_t n) {
      size_t i = 0;
      for (uint64_t lo = start; lo <= end; lo += step)
        for (uint64_t e : window(lo, std::min(end, lo + step - 1)))
        {
          PBT_REQUIRE(i < n, "primes in [", start, ", ", end, "]: there are only ", n, " in the array");
          PBT_REQUIRE(v[i] == e, "primes in [", start, ", ", end, "]: number ", i, " is ", v[i], " instead of ", e);
          i++;
        }
      PBT_REQUIRE(i == n, "primes in [", start, ", ", end, "]: ", n, " instead of ", i, " are in the array");
    };
    if (a[3] == 0) { std::vector<uint64_t> v; primesieve::generate_primes(start, end, &v); check(v.data(), v.size()); }
    if (a[3] == 1)
    {
      size_t n = 0;
      uint64_t* v = (uint64_t*) primesieve_generate_primes(start, end, &n, UINT64_PRIMES);
      check(v, n);
      primesieve_free(v);
    }
    if (a[3] == 2) { std::vector<uint32_t> v; primesieve::generate_n_primes(203280221ull, start, &v); check(v.data(), v.size()); }
    c.nontrivial();
  }, [](const Args& a) { return a[1] >= 0 && (a[3] == 2 ? a[1] < 3 : a[1] < ((i128) 1 << 37)) && a[2] > 0 && a[2] < 5000000000ll && a[3] >= 0 && a[3] < 3; }, -1, 1, "every case" });

// ------------------------------------------------------------------ Q03
// the nth prime; false: it does not exist
static bool nth(int64_t n, uint64_t x, uint64_t& res)
{
  static Walker w;
  uint64_t q = x;
  if (n == 0) { if (oracle::is_prime64(x)) { res = x; return true; } q = w.next(x); res = q; return q != MAX; }
  // far away: skip over windows
  if (n > 0)
  {
    while (n > 0)
    {
      uint64_t d = q < 10000000000000ull ? 400000 : 4000;
      if (q >= LAST_PRIME) return false;
      uint64_t hi = MAX - q < d ? MAX : q + d;
      auto p = window(q + 1, hi);
      if ((int64_t) p.size() >= n) { res = p[(size_t) n - 1]; return true; }
      n -= (int64_t) p.size();
      q = hi;
      if (hi == MAX) return false;
    }
  }
  n = -n;
  while (n > 0)
  {
    if (q <= 2) return false;
    uint64_t d = q < 10000000000000ull ? 400000 : 4000;
    uint64_t lo = q < d ? 0 : q - d;
    auto p = window(lo, q - 1);
    if ((int64_t) p.size() >= n) { res = p[p.size() - (size_t) n]; return true; }
    n -= (int64_t) p.size();
    q = lo;
  }
  return false;
}
static void check_nth(int64_t n, uint64_t x, Ctx& c)
{
  uint64_t e = 0, v = 0;
  bool ok = nth(n, x, e), thrown = false;
  try { v = primesieve::nth_prime(n, x); } catch (primesieve::primesieve_error&) { thrown = true; }
  if (ok) PBT_REQUIRE(!thrown, "nth_prime(", n, ", ", x, ") fails but it is ", e);
  if (ok) PBT_REQUIRE(v == e, "nth_prime(", n, ", ", x, ") = ", v, " but it should be ", e);
  if (!ok) PBT_REQUIRE(thrown, "nth_prime(", n, ", ", x, ") = ", v, " but there is no such prime");
  c.label(ok ? "exists" : "does not exist");
  if (n < 0) c.label("backwards");
}
static Reg n1({ "nth.near", 3000, 30000,
  [](Rng& r) {
    uint64_t x = gen_pos(r, cost_bits(r));
    if (r.chance(1, 60)) x = MAX - (uint64_t) r.bits(13);
    int64_t n = (int64_t) r.bits(x < 10000000000000ull ? 13 : 8);
    if (r.chance(1, 8)) n = (int64_t) r.below(4);
    if (r.chance(1, 2)) n = -n;
    return Args{ n, (i128) x, gen_settings(r) }; },
  [](const Args& a, Ctx& c) { settings(a[2]); check_nth((int64_t) a[0], (uint64_t) a[1], c); c.nontrivial(); },
  [](const Args& a) { return a[0] > -100000 && a[0] < 100000 && a[1] >= 0 && (u128) a[1] <= MAX; }, -1, 1, "every case" });
// around the point where the search runs out of primes
static Reg n2({ "nth.end", 2000, 20000,
  [](Rng& r) {
    if (r.chance(1, 100))
    {
      // above: the number of primes > x is known from the oracle
      uint64_t x = MAX - (uint64_t) r.below(6000);
      int64_t n = (int64_t) window(x < MAX ? x + 1 : MAX, MAX).size() + (int64_t) r.range(-1, 2);
      return Args{ n, (i128) x, gen_settings(r) };
    }
    uint64_t x = (uint64_t) r.logrange(0, 2000000);
    int64_t n = -((int64_t) window(0, x ? x - 1 : 0).size() + (int64_t) r.range(-1, 2));
    return Args{ n, (i128) x, gen_settings(r) }; },
  [](const Args& a, Ctx& c) { settings(a[2]); check_nth((int64_t) a[0], (uint64_t) a[1], c); c.nontrivial(); },
  [](const Args& a) { return a[0] > -200000 && a[0] < 100000 && a[1] >= 0 && (u128) a[1] <= MAX; }, -1, 1, "every case" });
// large n: several rounds of counting, several threads
static Reg n3({ "nth.far", 200, 2500,
  [](Rng& r) {
    uint64_t x = gen_pos(r, 40);
    int64_t n = (int64_t) r.logrange(90000, 3000000);
    if (r.chance(1, 2)) n = -n;
    if (r.chance(1, 5)) { x = 0; n = std::abs(n); }
    return Args{ n, (i128) x, gen_settings(r) + 16 }; },
  [](const Args& a, Ctx& c) { settings(a[2]); check_nth((int64_t) a[0], (uint64_t) a[1], c); c.nontrivial(); },
  [](const Args& a) { return a[0] > -4000000 && a[0] < 4000000 && a[1] >= 0 && a[1] < ((i128) 1 << 42); }, -1, 1, "|n| >= 90000" });

// |n| > 2^31, by means of the number of primes below x
static Reg n5({ "nth.huge", 1, 6,
  [](Rng& r) { return Args{ (i128) (51500000000ll + (i128) r.below(4000000000ll)), (i128) r.below(2), r.chance(3, 4) ? 8 : 1 + (i128) r.below(8) }; },
  [](const Args& a, Ctx& c) {
    primesieve::set_num_threads(8);
    primesieve::set_sieve_size(256);
    uint64_t x = (uint64_t) a[0];
    // pi(5*10^10)
    int64_t n = (int64_t) (2119654578ull + primesieve::count_primes(50000000001ull, x));
    primesieve::set_num_threads((int) a[2]);
    if (a[1]) { n = -n; x++; }
    uint64_t e = a[1] ? 2 : oracle::prev_prime_le(x), v = primesieve::nth_prime(n, a[1] ? x : 0);
    PBT_REQUIRE(v == e, "nth_prime(", n, ", ", a[1] ? x : 0, ") = ", v, " but it should be ", e);
    c.nontrivial(std::abs(n) > 2147483647ll);
  }, [](const Args& a) { return a[0] > 50000000001ll && a[0] < 90000000000ll && a[1] >= 0 && a[1] < 2 && a[2] > 0 && a[2] < 10; }, -1, 1, "|n| > 2^31" });

// ------------------------------------------------------------------ Q04
// One operation is (code, value, hint)
enum { OP_NEXT, OP_PREV, OP_SKIP, OP_SKIP_HINT, OP_MOVE, OP_MOVE_INTO, OP_FRESH, OP_N };
static const uint64_t HIGH = 1ull << 50;

static uint64_t gen_hint(Rng& r, uint64_t pos)
{
  switch ((int) r.below(6))
  {
    case 0: return MAX;
    case 1: return pos;
    case 2: { u128 v = (u128) pos + r.bits(20); return v > MAX ? MAX : (uint64_t) v; }
    case 3: { u128 d = r.bits(20); return d > pos ? 0 : (uint64_t) (pos - d); }
    case 4: return gen_pos(r, 40);
    default: { u128 d = r.below(300); return d > pos ? 0 : (uint64_t) (pos - d); }
  }
}
static Args gen_history(Rng& r, int maxlen)
{
  Args a;
  a.push_back(gen_settings(r));
  int bits = cost_bits(r, true);
  bool high = bits > 50;
  // histories stay around a few places
  std::vector<uint64_t> places;
  for (int i = 0; i < (high ? 1 : 3); i++) places.push_back(high ? gen_pos(r, bits) : gen_pos(r, bits));
  if (r.chance(1, 3)) places.push_back((uint64_t) r.below(70000));
  if (high && r.chance(1, 2)) places[0] = MAX - (uint64_t) r.bits(10);
  int n = 1 + (int) r.below((u128) (high ? 6 : maxlen));
  uint64_t p = r.pick(places);
  a.insert(a.end(), { (i128) OP_SKIP_HINT, (i128) p, (i128) (high ? (p > 3000 ? p - 3000 : 0) : gen_hint(r, p)) });
  for (int i = 0; i < n; i++)
  {
    int op = (int) r.below(20);
    if (op < 7) a.insert(a.end(), { (i128) OP_NEXT, (i128) r.bits(r.chance(1, 4) ? 12 : 5), 0 });
    else if (op < 14) a.insert(a.end(), { (i128) OP_PREV, (i128) r.bits(r.chance(1, 4) ? 12 : 5), 0 });
    else if (op < 15) a.insert(a.end(), { (i128) OP_MOVE, 0, 0 });
    else
    {
      p = r.pick(places);
      if (r.chance(1, 2)) { u128 d = r.bits(10); p = d > p ? 0 : (uint64_t) (p - d); }
      uint64_t h = high && p > HIGH ? (p > 3000 ? p - 3000 : 0) : gen_hint(r, p);
      int code = op < 16 ? OP_SKIP : op < 18 ? OP_SKIP_HINT : op < 19 ? OP_MOVE_INTO : OP_FRESH;
      if (high && p > HIGH && code == OP_SKIP) code = OP_SKIP_HINT;
      a.insert(a.end(), { (i128) code, (i128) p, (i128) h });
    }
  }
  return a;
}
// the iterator under test
struct CppIt
{
  std::unique_ptr<primesieve::iterator> it;
  CppIt() : it(new primesieve::iterator) { }
  uint64_t next() { return it->next_prime(); }
  uint64_t prev() { return it->prev_prime(); }
  void skip(uint64_t p, uint64_t h, bool hint) { if (hint) it->skipto(p, h); else it->skipto(p); }
  void move() { std::unique_ptr<primesieve::iterator> n(new primesieve::iterator(std::move(*it))); it = std::move(n); }
  void move_into(uint64_t p, uint64_t h)
  {
    // a used iterator is the target
    primesieve::iterator t(p, h);
    if (p < HIGH) t.next_prime();
    t = std::move(*it);
    *it = primesieve::iterator(7);
    *it = std::move(t);
  }
  void fresh(uint64_t p, uint64_t h) { it.reset(new primesieve::iterator(p, h)); }
};
struct CIt
{
  primesieve_iterator it;
  CIt() { primesieve_init(&it); }
  ~CIt() { primesieve_free_iterator(&it); }
  uint64_t next() { return primesieve_next_prime(&it); }
  uint64_t prev() { return primesieve_prev_prime(&it); }
  void skip(uint64_t p, uint64_t h, bool hint) { primesieve_skipto(&it, p, hint ? h : primesieve_get_max_stop()); }
  void move() { primesieve_iterator b = it; it = b; }
  void move_into(uint64_t, uint64_t) { }
  void fresh(uint64_t p, uint64_t h) { primesieve_free_iterator(&it); primesieve_init(&it); primesieve_skipto(&it, p, h); }
};
template <typename It> static void run_history(const Args& a, Ctx& c)
{
  settings(a[0]);
  It it;
  Walker w;
  uint64_t pos = 0, hint = MAX;
  bool next_seen = false, prev_seen = false;
  std::string h;
  for (size_t i = 1; i + 2 < a.size(); i += 3)
  {
    int op = (int) a[i];
    uint64_t v = (uint64_t) a[i + 1], hv = (uint64_t) a[i + 2];
    if (op == OP_NEXT || op == OP_PREV)
    {
      if (h.size() < 600) h += op == OP_NEXT ? cat(" next*", v) : cat(" prev*", v);
      for (uint64_t k = 0; k < v; k++)
      {
        uint64_t e = op == OP_NEXT ? w.next(pos) : w.prev(pos);
        // searching backwards at high positions without a hint takes too long
        if (op == OP_PREV && pos > HIGH && (hint > e || pos - hint > 100000)) break;
        uint64_t g = op == OP_NEXT ? it.next() : it.prev();
        PBT_REQUIRE(g == e, op == OP_NEXT ? "next" : "prev", "_prime() at ", pos, " returns ", g, " instead of ", e, " after", h, " (call ", k + 1, ")");
        pos = e;
        if (e == MAX) c.label("walked above 2^64");
        if (e == 0) c.label("walked below 2");
        (op == OP_NEXT ? next_seen : prev_seen) = true;
      }
    }
    else if (op == OP_MOVE) { h += " move"; it.move(); }
    else if (op == OP_MOVE_INTO) { h += " move-into-used"; it.move_into(v, hv); }
    else
    {
      h += cat(op == OP_FRESH ? " new(" : " skipto(", v, op == OP_SKIP ? ")" : cat(", ", hv, ")"));
      if (op == OP_FRESH) it.fresh(v, hv); else it.skip(v, hv, op == OP_SKIP_HINT);
      pos = v;
      hint = op == OP_SKIP ? MAX : hv;
    }
    if (pos > HIGH) c.label("> 2^50");
  }
  c.nontrivial(next_seen && prev_seen);
  if (next_seen && prev_seen) c.label("both directions");
}
static bool valid_history(const Args& a)
{
  if (a.empty() || (a.size() - 1) % 3) return false;
  for (size_t i = 1; i + 2 < a.size(); i += 3)
  {
    if (a[i] < 0 || a[i] >= OP_N || a[i + 1] < 0 || (u128) a[i + 1] > MAX || a[i + 2] < 0 || (u128) a[i + 2] > MAX) return false;
    if (a[i] <= OP_PREV && a[i + 1] > 5000) return false;
  }
  return true;
}
static Reg i1({ "iter.cpp", 2500, 40000, [](Rng& r) { return gen_history(r, 25); }, run_history<CppIt>, valid_history, 1, 3, "the history goes in both directions" });
static Reg i2({ "iter.c", 1500, 25000, [](Rng& r) { return gen_history(r, 25); }, run_history<CIt>, valid_history, 1, 3, "the history goes in both directions" });
// long forward walks over several internal buffers and segments
static Reg i3({ "iter.long", 300, 4000,
  [](Rng& r) { uint64_t p = gen_pos(r, r.chance(1, 3) ? 46 : 38); return Args{ gen_settings(r), (i128) p, (i128) gen_hint(r, p), (i128) r.logrange(20000, 600000) }; },
  [](const Args& a, Ctx& c) {
    settings(a[0]);
    Walker w;
    uint64_t pos = (uint64_t) a[1], n = (uint64_t) a[3];
    primesieve::iterator it(pos, (uint64_t) a[2]);
    for (uint64_t i = 0; i < n; i++)
    {
      uint64_t e = w.next(pos), g = it.next_prime();
      PBT_REQUIRE(g == e, "iterator(", (uint64_t) a[1], ", ", (uint64_t) a[2], "): next_prime() at ", pos, " returns ", g, " instead of ", e);
      pos = e;
    }
    // and back, half the way
    for (uint64_t i = 0; i < n / 2; i++)
    {
      uint64_t e = w.prev(pos), g = it.prev_prime();
      PBT_REQUIRE(g == e, "iterator(", (uint64_t) a[1], ", ", (uint64_t) a[2], "): prev_prime() at ", pos, " returns ", g, " instead of ", e);
      pos = e;
    }
    c.nontrivial();
  }, [](const Args& a) { return a[1] >= 0 && a[1] < ((i128) 1 << 48) && a[2] >= 0 && (u128) a[2] <= MAX && a[3] >= 0 && a[3] <= 1000000; }, -1, 1, "every case" });

// starts among the first numbers, where primes are dense, over several internal buffers
static Reg i4({ "iter.low", 10000, 100000,
  [](Rng& r) { return Args{ gen_settings(r), (i128) r.below(r.chance(1, 2) ? 3000 : 20000), (i128) r.below(3), (i128) r.range(250, 1500) }; },
  [](const Args& a, Ctx& c) {
    settings(a[0]);
    uint64_t start = (uint64_t) a[1], pos = start;
    const auto& p = base().primes;
    size_t n = (size_t) a[3], j = (size_t) (start ? base().pi[(size_t) start] : 0), first = j;
    auto check = [&](auto& it) {
      for (size_t i = 0; i < n; i++, j++)
      {
        uint64_t g = it.next();
        PBT_REQUIRE(g == p[j], "iterator(", start, "): next_prime() at ", pos, " returns ", g, " instead of ", (uint64_t) p[j]);
        pos = g;
      }
      j--;
      for (size_t i = 0; i < std::min<size_t>(n, 400) && j > 0; i++)
      {
        j--;
        uint64_t g = it.prev();
        PBT_REQUIRE(g == p[j], "iterator(", start, "): prev_prime() at ", pos, " returns ", g, " instead of ", (uint64_t) p[j]);
        pos = g;
      }
      if (j > 0) return;
    };
    if (a[2] == 2) { CIt it; it.fresh(start, MAX); check(it); }
    else { CppIt it; it.fresh(start, a[2] ? MAX : 30000); check(it); }
    c.nontrivial();
    if (first == 0) c.label("from the first prime");
  }, [](const Args& a) { return a[1] >= 0 && a[1] < 100000 && a[2] >= 0 && a[2] < 3 && a[3] > 0 && a[3] < 20000; }, -1, 1, "every case" });

// one iterator over hundreds of millions of numbers, whose buffers grow up to wide distances
static Reg i5({ "iter.deep", 8, 48,
  [](Rng& r) {
    uint64_t p = r.chance(1, 2) ? (uint64_t) r.below(3000) : gen_pos(r, 41);
    return Args{ gen_settings(r), (i128) p, (i128) r.below(2), r.chance(1, 3) ? (i128) 4600000000ll : (i128) r.logrange(300000000, 2500000000ll) }; },
  [](const Args& a, Ctx& c) {
    settings(a[0]);
    uint64_t start = (uint64_t) a[1], end = start + (uint64_t) a[3], pos = start;
    const uint64_t step = 20000000;
    auto walk = [&](auto& it) {
      for (uint64_t lo = start + 1; lo <= end; lo += step)
      {
        auto p = window(lo, std::min(end, lo + step - 1));
        for (uint64_t e : p)
        {
          uint64_t g = it.next();
          PBT_REQUIRE(g == e, "iterator(", start, "): next_prime() at ", pos, " returns ", g, " instead of ", e);
          pos = g;
        }
        // a look back now and then
        if (lo / step % 40 == 39 && p.size() > 2)
          for (size_t i = p.size() - 1; i-- > p.size() - 3; )
          {
            uint64_t g = it.prev();
            PBT_REQUIRE(g == p[i], "iterator(", start, "): prev_prime() at ", pos, " returns ", g, " instead of ", p[i]);
            pos = g;
            if (i == p.size() - 3) { it.next(); pos = it.next(); }
          }
      }
    };
    if (a[2]) { CIt it; it.fresh(start, MAX); walk(it); }
    else { CppIt it; it.fresh(start, MAX); walk(it); }
    c.nontrivial();
    if (a[3] > 4294967296ll) c.label("distance > 2^32");
  }, [](const Args& a) { return a[1] >= 0 && a[1] < ((i128) 1 << 42) && a[2] >= 0 && a[2] < 2 && a[3] > 0 && a[3] <= 5000000000ll; }, -1, 1, "every case" });

// ------------------------------------------------------------------ Q05
struct CType { int code, bits; bool sign; };
static const CType ctypes[14] = { { SHORT_PRIMES, 16, true }, { USHORT_PRIMES, 16, false }, { INT_PRIMES, 32, true }, { UINT_PRIMES, 32, false },
  { LONG_PRIMES, 64, true }, { ULONG_PRIMES, 64, false }, { LONGLONG_PRIMES, 64, true }, { ULONGLONG_PRIMES, 64, false }, { INT16_PRIMES, 16, true },
  { UINT16_PRIMES, 16, false }, { INT32_PRIMES, 32, true }, { UINT32_PRIMES, 32, false }, { INT64_PRIMES, 64, true }, { UINT64_PRIMES, 64, false } };
static i128 elem(const void* p, const CType& t, size_t i)
{
  switch (t.bits) {
    case 16: return t.sign ? (i128) ((const int16_t*) p)[i] : (i128) ((const uint16_t*) p)[i];
    case 32: return t.sign ? (i128) ((const int32_t*) p)[i] : (i128) ((const uint32_t*) p)[i];
    default: return t.sign ? (i128) ((const int64_t*) p)[i] : (i128) ((const uint64_t*) p)[i];
  }
}
static i128 tmax(const CType& t) { return (i128) (((u128) 1 << (t.bits - (t.sign ? 1 : 0))) - 1); }
static void check_array(const std::string& what, void* p, size_t n, const CType& t, const std::vector<uint64_t>& e)
{
  struct Free { void* p; ~Free() { primesieve_free(p); } } f = { p };
  PBT_REQUIRE(p != nullptr || e.empty(), what, " returns NULL");
  PBT_REQUIRE(n == e.size(), what, " returns ", n, " primes instead of ", e.size());
  for (size_t i = 0; i < n; i++)
    PBT_REQUIRE(elem(p, t, i) == (i128) e[i], what, ": element ", i, " is ", elem(p, t, i), " instead of ", e[i]);
}
static Reg k1({ "c.arrays", 5000, 50000,
  [](Rng& r) {
    const CType& t = ctypes[r.below(14)];
    Args a = gen_interval(r, t.bits == 64);
    i128 m = tmax(t);
    // the primes must fit the type
    if (t.bits < 64) { a[0] %= m + 1; a[1] = std::min<i128>(m, a[0] + r.bits(t.bits == 16 ? 16 : 20)); }
    if (r.chance(1, 3)) { a[0] = std::max<i128>(0, std::min<i128>(a[1], m) - (i128) r.bits(8)); }
    if (a[1] > m) a[1] = m;
    if (m == (i128) MAX && r.chance(1, 80)) to_the_top(r, a);
    a.push_back(t.code); a.push_back((i128) r.bits(10)); a.push_back(gen_settings(r));
    return a; },
  [](const Args& a, Ctx& c) {
    uint64_t x = (uint64_t) a[0], y = (uint64_t) a[1], n = (uint64_t) a[3];
    const CType& t = ctypes[(int) a[2]];
    settings(a[4]);
    auto e = x <= y ? window(x, y) : std::vector<uint64_t>();
    size_t size = 12345;
    errno = 0;
    void* p = primesieve_generate_primes(x, y, &size, t.code);
    PBT_REQUIRE(errno == 0, "primesieve_generate_primes sets errno");
    check_array(cat("primesieve_generate_primes(", x, ", ", y, ", type ", t.code, ")"), p, size, t, e);
    if (t.bits == 16)
    {
      p = primesieve_generate_primes(x, y, nullptr, t.code);
      check_array("primesieve_generate_primes without size", p, e.size(), t, e);
    }
    auto f = first_n(n, x);
    if (f.size() == n && (f.empty() || (i128) f.back() <= tmax(t)))
    {
      errno = 0;
      p = primesieve_generate_n_primes(n, x, t.code);
      PBT_REQUIRE(errno == 0, "primesieve_generate_n_primes(", n, ", ", x, ") sets errno");
      check_array(cat("primesieve_generate_n_primes(", n, ", ", x, ", type ", t.code, ")"), p, f.size(), t, f);
      c.label("n primes");
    }
    else if (f.size() < n && t.bits == 64)
    {
      errno = 0;
      p = primesieve_generate_n_primes(n, x, t.code);
      PBT_REQUIRE(p == nullptr, "primesieve_generate_n_primes(", n, ", ", x, ") does not fail");
      PBT_REQUIRE(errno == EDOM, "primesieve_generate_n_primes(", n, ", ", x, ") does not set errno");
      c.label("beyond 2^64");
    }
    c.nontrivial(!e.empty());
    c.label(cat("type ", t.code));
  }, [](const Args& a) { return small_interval(a) && a[2] >= 0 && a[2] < 14 && a[1] <= tmax(ctypes[(int) a[2]]) && a[3] >= 0 && a[3] < 2000; }, -1, 1, "the interval contains a prime" });
static Reg k2({ "c.numbers", 3000, 30000,
  [](Rng& r) {
    Args a = gen_interval(r);
    int64_t n = (int64_t) r.bits(r.chance(1, 3) ? 3 : 9);
    if (r.chance(1, 2)) n = -n;
    a.push_back(n); a.push_back(gen_settings(r)); a.push_back((i128) r.range(-3, 20));
    return a; },
  [](const Args& a, Ctx& c) {
    uint64_t x = (uint64_t) a[0], y = (uint64_t) a[1];
    settings(a[3]);
    auto p = x <= y ? window(x, y) : std::vector<uint64_t>();
    errno = 0;
    for (int k = 1; k <= 6; k++)
    {
      if (y > 1ull << 57 && k > 1 && k != 1 + (int) (y % 6)) continue;
      uint64_t v = count_c[k](x, y);
      PBT_REQUIRE(v == count_k(p, k), "primesieve_count_", names[k], "(", x, ", ", y, ") = ", v, " but it should be ", count_k(p, k));
    }
    PBT_REQUIRE(errno == 0, "primesieve_count_* sets errno");
    int64_t n = (int64_t) a[2];
    uint64_t e = 0;
    bool ok = nth(n, x, e);
    uint64_t v = primesieve_nth_prime(n, x);
    PBT_REQUIRE(v == (ok ? e : PRIMESIEVE_ERROR), "primesieve_nth_prime(", n, ", ", x, ") = ", v, " instead of ", ok ? str(e) : "PRIMESIEVE_ERROR");
    PBT_REQUIRE(errno == (ok ? 0 : EDOM), "primesieve_nth_prime(", n, ", ", x, "): errno is ", errno);
    if (!ok) c.label("no such prime");
    // an invalid type
    int t = (int) a[4];
    if (t < 0 || t > 13)
    {
      size_t size = 99;
      errno = 0;
      PBT_REQUIRE(primesieve_generate_primes(0, 100, &size, t) == nullptr && size == 0 && errno == EDOM, "primesieve_generate_primes with type ", t, " does not fail");
      errno = 0;
      PBT_REQUIRE(primesieve_generate_n_primes(10, 0, t) == nullptr && errno == EDOM, "primesieve_generate_n_primes with type ", t, " does not fail");
      c.label("invalid type");
    }
    errno = 0;
    PBT_REQUIRE(primesieve_count_primes(0, 1000) == 168 && errno == 0, "the library is not usable after an error");
    PBT_REQUIRE(primesieve_get_max_stop() == primesieve::get_max_stop() && primesieve_get_max_stop() == MAX, "primesieve_get_max_stop()");
    PBT_REQUIRE(primesieve_get_num_threads() == primesieve::get_num_threads(), "primesieve_get_num_threads()");
    PBT_REQUIRE(primesieve_get_sieve_size() == primesieve::get_sieve_size(), "primesieve_get_sieve_size()");
    PBT_REQUIRE(std::string(primesieve_version()) == primesieve::primesieve_version(), "primesieve_version()");
    c.nontrivial(!p.empty());
  }, small_interval, -1, 1, "the interval contains a prime" });

// more primes than there are (or than fit the memory) are requested
static uint64_t huge_n(Rng& r)
{
  switch ((int) r.below(4))
  {
    case 0: return ((uint64_t) 1 << (50 + r.below(14))) + (uint64_t) r.bits(12);
    case 1: return MAX - (uint64_t) r.bits(20);
    case 2: return ((uint64_t) 1 << (59 + r.below(5))) * (1 + (uint64_t) r.below(3)) + (uint64_t) r.below(40);
    default: return ((uint64_t) 1 << 50) + (uint64_t) r.next() % (MAX - ((uint64_t) 1 << 50));
  }
}
static Reg k4({ "c.huge", 4000, 60000,
  [](Rng& r) { return Args{ (i128) huge_n(r), r.chance(1, 2) ? (i128) r.bits(10) : (i128) r.bits(64), (i128) r.below(14), (i128) r.below(3) }; },
  [](const Args& a, Ctx& c) {
    uint64_t n = (uint64_t) a[0], x = (uint64_t) a[1];
    if (n < (uint64_t) 1 << 50) n += (uint64_t) 1 << 50;
    int t = ctypes[(int) a[2]].code;
    errno = 0;
    void* p = primesieve_generate_n_primes(n, x, t);
    PBT_REQUIRE(p == nullptr && errno == EDOM, "primesieve_generate_n_primes(", n, ", ", x, ", type ", t, ") does not fail");
    errno = 0;
    p = primesieve_generate_n_primes(10, 100, UINT64_PRIMES);
    PBT_REQUIRE(p != nullptr && errno == 0 && ((uint64_t*) p)[9] == 149, "the library is not usable after primesieve_generate_n_primes(", n, ", ", x, ", type ", t, ")");
    primesieve_free(p);
#ifndef VP_NO_FAULTS
    // the C++ function
    std::vector<uint64_t> v((size_t) a[3], 77);
    bool thrown = false;
    try { primesieve::generate_n_primes(n, x, &v); } catch (std::exception&) { thrown = true; }
    PBT_REQUIRE(thrown, "generate_n_primes(", n, ", ", x, ") does not fail");
    for (size_t i = 0; i < (size_t) a[3]; i++) PBT_REQUIRE(v[i] == 77, "generate_n_primes(", n, ", ", x, ") changes existing elements");
#endif
    c.nontrivial();
  }, [](const Args& a) { return a[0] >= 0 && (u128) a[0] <= MAX && a[1] >= 0 && (u128) a[1] <= MAX && a[2] >= 0 && a[2] < 14 && a[3] >= 0 && a[3] < 3; }, -1, 1, "every case" });

#ifndef VP_NO_FAULTS
// an allocation fails: error value and errno, or the right result
static Reg k3({ "c.faults", 2500, 60000,
  [](Rng& r) {
    Args a = gen_interval(r, false);
    if (a[1] > ((i128) 1 << 44)) { a[0] = a[0] % ((i128) 1 << 44); a[1] = a[0] + (i128) r.bits(12); }
    if (r.chance(1, 12)) a[1] = a[0] + 30000000;
    a.push_back((i128) r.below(6)); a.push_back((i128) r.bits(r.chance(1, 2) ? 3 : 7)); a.push_back(gen_settings(r)); a.push_back((i128) r.bits(9));
    return a; },
  [](const Args& a, Ctx& c) {
    uint64_t x = (uint64_t) a[0], y = (uint64_t) a[1], n = (uint64_t) a[5];
    int what = (int) a[2];
    bool wide = x <= y && y - x > 5000000;
    if (wide && (what == 0 || what == 2)) what = 1;
    settings(a[4]);
    auto p = x <= y ? window(x, y) : std::vector<uint64_t>();
    auto f = first_n(n, x);
    bool failed = false;
    size_t size = 99;
    void* arr = nullptr;
    uint64_t v = 0;
    errno = 0;
    int err;
    switch (what)
    {
      case 0:
        { Fault ft((long) a[3], false); arr = primesieve_generate_primes(x, y, &size, UINT64_PRIMES); err = errno; }
        if (fault_hit && err == EDOM) { failed = true; PBT_REQUIRE(arr == nullptr && size == 0, "primesieve_generate_primes returns an array of ", size, " numbers after a failed allocation"); }
        else check_array(cat("primesieve_generate_primes(", x, ", ", y, ")"), arr, size, ctypes[13], p);
        break;
      case 1: case 5:
      {
        int k = what == 1 ? 1 : 2 + (int) (n % 5);
        { Fault ft((long) a[3], n % 2 == 0); v = count_c[k](x, y); err = errno; }
        if (fault_hit && err == EDOM) { failed = true; PBT_REQUIRE(v == PRIMESIEVE_ERROR, "primesieve_count_", names[k], " = ", v, " after a failed allocation"); }
        else PBT_REQUIRE(v == count_k(p, k), "primesieve_count_", names[k], "(", x, ", ", y, ") = ", v, " instead of ", count_k(p, k), " (errno ", err, ")");
        break;
      }
      case 2:
        { Fault ft((long) a[3], false); arr = primesieve_generate_n_primes(n, x, INT64_PRIMES); err = errno; }
        if (fault_hit && err == EDOM) { failed = true; PBT_REQUIRE(arr == nullptr, "primesieve_generate_n_primes returns an array after a failed allocation"); }
        else check_array(cat("primesieve_generate_n_primes(", n, ", ", x, ")"), arr, f.size(), ctypes[12], f);
        break;
      case 3:
      {
        uint64_t e = 0;
        bool ok = nth((int64_t) n, x, e);
        { Fault ft((long) a[3], false); v = primesieve_nth_prime((int64_t) n, x); err = errno; }
        if (fault_hit && err == EDOM) { failed = true; PBT_REQUIRE(v == PRIMESIEVE_ERROR, "primesieve_nth_prime = ", v, " after a failed allocation"); }
        else PBT_REQUIRE(!ok || v == e, "primesieve_nth_prime(", n, ", ", x, ") = ", v, " instead of ", e);
        break;
      }
      default:
      {
        primesieve_iterator it;
        primesieve_init(&it);
        primesieve_skipto(&it, x, y);
        static Walker w;
        uint64_t pos = x;
        bool back = n % 2;
        {
          Fault ft((long) a[3], false);
          for (uint64_t i = 0; i < n && !failed; i++)
          {
            uint64_t g = back ? primesieve_prev_prime(&it) : primesieve_next_prime(&it);
            long at = fault_at;
            fault_at = -1;      // not in the oracle
            uint64_t e = back ? w.prev(pos) : w.next(pos);
            if (it.is_error) failed = true;
            else if (g != e) { primesieve_free_iterator(&it); PBT_FAIL("C iterator at ", pos, " returns ", g, " instead of ", e, " (failed allocations: ", fault_hit.load(), ")"); }
            if (failed && (g != PRIMESIEVE_ERROR || errno != EDOM)) { primesieve_free_iterator(&it); PBT_FAIL("C iterator: is_error is set but ", g, " is returned, errno ", errno); }
            pos = e;
            fault_at = at;
          }
        }
        // usable after skipto
        primesieve_skipto(&it, 1000, MAX);
        uint64_t g = primesieve_next_prime(&it), b = primesieve_prev_prime(&it);
        primesieve_free_iterator(&it);
        PBT_REQUIRE(g == 1009 && b == 997, "C iterator is not usable after a failed allocation: ", g, " ", b);
      }
    }
    errno = 0;
    PBT_REQUIRE(primesieve_count_primes(0, 1000) == 168 && errno == 0, "the library is not usable after a failed allocation");
    c.nontrivial(fault_hit > 0);
    if (fault_hit) c.label(failed ? "fault reported" : "fault survived");
  }, [](const Args& a) { return a[0] >= 0 && a[1] >= 0 && a[1] < ((i128) 1 << 46) && a[0] < ((i128) 1 << 46) && (a[0] > a[1] || a[1] - a[0] <= 31000000) && a[5] < 1000 && a[5] >= 0; },
  -1, 1, "an allocation failed" });
#endif

// ------------------------------------------------------------------ Q06: printing (library)
typedef void (*print_fn)(uint64_t, uint64_t);
static const print_fn print_cpp[7] = { nullptr, primesieve::print_primes, primesieve::print_twins, primesieve::print_triplets,
  primesieve::print_quadruplets, primesieve::print_quintuplets, primesieve::print_sextuplets };
static const print_fn print_c[7] = { nullptr, primesieve_print_primes, primesieve_print_twins, primesieve_print_triplets,
  primesieve_print_quadruplets, primesieve_print_quintuplets, primesieve_print_sextuplets };
static Reg p1({ "print.window", 1800, 30000,
  [](Rng& r) { Args a = gen_interval(r); a.push_back(gen_settings(r)); return a; },
  [](const Args& a, Ctx& c) {
    uint64_t x = (uint64_t) a[0], y = (uint64_t) a[1];
    settings(a[2]);
    auto p = x <= y ? window(x, y) : std::vector<uint64_t>();
    for (int k = 1; k <= 6; k++)
    {
      if (y > 1ull << 57 && k != 1 + (int) (y % 6)) continue;
      std::ostringstream o;
      std::streambuf* old = std::cout.rdbuf(o.rdbuf());
      std::string err;
      try { ((a[2] & 16) ? print_cpp : print_c)[k](x, y); } catch (std::exception& e) { err = e.what(); }
      std::cout.rdbuf(old);
      std::string e = print_k(p, k), g = o.str();
      PBT_REQUIRE(err.empty(), "print_", names[k], " throws ", err);
      if (g != e)
      {
        size_t i = 0;
        while (i < g.size() && i < e.size() && g[i] == e[i]) i++;
        PBT_FAIL("print_", names[k], "(", x, ", ", y, ") differs at character ", i, ": \"", g.substr(i, 50), "\" instead of \"", e.substr(i, 50), "\"");
      }
    }
    c.nontrivial(!p.empty());
  }, small_interval, -1, 1, "the interval contains a prime" });

// wide intervals with any sieve size
static Reg p2({ "print.wide", 300, 3000,
  [](Rng& r) {
    uint64_t x = gen_pos(r, 42), w = r.chance(1, 6) ? 20000000 + (uint64_t) r.below(8000000) : 1000000 + (uint64_t) r.below(7000000);
    return Args{ (i128) x, (i128) (x + w), (i128) r.below(10) + 16 * (1 + (i128) r.below(8)), (i128) r.below(6) }; },
  [](const Args& a, Ctx& c) {
    uint64_t x = (uint64_t) a[0], y = (uint64_t) a[1];
    settings(a[2]);
    auto p = window(x, y);
    int k = 1 + (int) a[3];
    std::ostringstream o;
    std::streambuf* old = std::cout.rdbuf(o.rdbuf());
    std::string err;
    try { print_cpp[k](x, y); } catch (std::exception& e) { err = e.what(); }
    std::cout.rdbuf(old);
    std::string e = print_k(p, k), g = o.str();
    PBT_REQUIRE(err.empty(), "print_", names[k], " throws ", err);
    if (g != e)
    {
      size_t i = 0;
      while (i < g.size() && i < e.size() && g[i] == e[i]) i++;
      PBT_FAIL("print_", names[k], "(", x, ", ", y, ") differs at character ", i, ": \"", g.substr(i, 50), "\" instead of \"", e.substr(i, 50), "\" (sieve size ", primesieve::get_sieve_size(), ")");
    }
    c.nontrivial(!e.empty());
    if (y - x >= 20000000) c.label("wide enough for several threads");
  }, [](const Args& a) { return a[0] >= 0 && a[1] >= a[0] && a[1] - a[0] <= 30000000 && a[1] < (i128) 9000000000000ll && a[3] >= 0 && a[3] < 6; }, -1, 1, "something is printed" });

// ------------------------------------------------------------------ Q07
static Reg s1({ "settings.values", 20000, 200000,
  [](Rng& r) {
    auto v = [&]() -> i128 { switch ((int) r.below(5)) { case 0: return r.range(-3, 20); case 1: return ((i128) 1 << r.below(31)) + r.range(-2, 2); case 2: return r.range(0, 5000); case 3: return r.chance(1, 2) ? INT32_MAX : INT32_MIN; default: return (i128) (int32_t) r.next(); } };
    auto cl = [](i128 x) { return x > INT32_MAX ? INT32_MAX : x < INT32_MIN ? INT32_MIN : x; };
    Args a;
    for (int i = 1 + (int) r.below(6); i > 0; i--) { a.push_back((i128) r.below(4)); a.push_back(cl(v())); }
    return a; },
  [](const Args& a, Ctx& c) {
    int hw = std::max(1, (int) std::thread::hardware_concurrency());
    for (size_t i = 0; i + 1 < a.size(); i += 2)
    {
      int v = (int) a[i + 1];
      int oth_s = primesieve::get_sieve_size(), oth_t = primesieve::get_num_threads();
      if (a[i] < 2)
      {
        if (a[i] == 0) primesieve::set_sieve_size(v); else primesieve_set_sieve_size(v);
        int e = 8;
        while (e * 2 <= v && e < 4096) e *= 2;
        PBT_REQUIRE(primesieve::get_sieve_size() == e, "get_sieve_size() = ", primesieve::get_sieve_size(), " after set_sieve_size(", v, ")");
        PBT_REQUIRE(primesieve_get_sieve_size() == e, "primesieve_get_sieve_size()");
        PBT_REQUIRE(primesieve::get_num_threads() == oth_t, "set_sieve_size(", v, ") changes the number of threads");
      }
      else
      {
        if (a[i] == 2) primesieve::set_num_threads(v); else primesieve_set_num_threads(v);
        int e = std::max(1, std::min(v, hw));
        PBT_REQUIRE(primesieve::get_num_threads() == e, "get_num_threads() = ", primesieve::get_num_threads(), " after set_num_threads(", v, ")");
        PBT_REQUIRE(primesieve_get_num_threads() == e, "primesieve_get_num_threads()");
        PBT_REQUIRE(primesieve::get_sieve_size() == oth_s, "set_num_threads(", v, ") changes the sieve size");
      }
    }
    c.nontrivial(a.size() > 2);
  }, [](const Args& a) { for (size_t i = 0; i + 1 < a.size(); i += 2) if (a[i] < 0 || a[i] > 3 || a[i + 1] > INT32_MAX || a[i + 1] < INT32_MIN) return false; return a.size() % 2 == 0; },
  0, 2, "more than one setting" });
// the same results for every setting, also if the settings change while an iterator is in use
static Reg s2({ "settings.results", 1200, 12000,
  [](Rng& r) {
    uint64_t x = gen_pos(r, cost_bits(r, false)), w = (uint64_t) r.bits(r.chance(1, 10) ? 25 : 19);
    Args a{ (i128) x, (i128) (x + w) };
    if (a[1] > ((i128) 1 << 40) && w > 1000000) a[1] = a[0] + (i128) (w >> 6);
    if (r.chance(1, 8)) a[1] = a[0] + 30000000;
    for (int i = 2 + (int) r.below(4); i > 0; i--) { a.push_back((i128) (r.chance(1, 6) ? (int32_t) r.next() : (int32_t) r.bits(13))); a.push_back((i128) (r.chance(1, 6) ? (int32_t) r.next() : (int32_t) r.bits(5))); }
    return a; },
  [](const Args& a, Ctx& c) {
    uint64_t x = (uint64_t) a[0], y = (uint64_t) a[1];
    uint64_t cnt[7], nth1 = 0, nth2 = 0;
    std::vector<uint64_t> v;
    std::unique_ptr<primesieve::iterator> it;
    Walker w;
    uint64_t pos = x;
    for (size_t i = 2; i + 1 < a.size(); i += 2)
    {
      primesieve::set_sieve_size((int) a[i]);
      primesieve::set_num_threads((int) a[i + 1]);
      std::string s = cat(" (sieve size ", primesieve::get_sieve_size(), ", ", primesieve::get_num_threads(), " threads)");
      if (!it) it.reset(new primesieve::iterator(x, y));
      for (int k = 0; k < 700; k++)
      {
        bool back = (k / 350 + i / 2) % 3 == 2;
        uint64_t e = back ? w.prev(pos) : w.next(pos), g = back ? it->prev_prime() : it->next_prime();
        PBT_REQUIRE(g == e, "iterator at ", pos, " returns ", g, " instead of ", e, s);
        pos = e;
      }
      std::vector<uint64_t> u;
      primesieve::generate_primes(x, y, &u);
      uint64_t m = u.size() / 2 + 1;
      for (int k = 1; k <= 6; k++)
      {
        uint64_t n = count_cpp[k](x, y);
        if (i > 2) PBT_REQUIRE(n == cnt[k], "count_", names[k], "(", x, ", ", y, ") = ", n, " but it was ", cnt[k], s);
        cnt[k] = n;
      }
      PBT_REQUIRE(cnt[1] == u.size(), "count_primes(", x, ", ", y, ") = ", cnt[1], " but there are ", u.size(), " primes", s);
      uint64_t p = primesieve::nth_prime((int64_t) m, x), q = y > 10000000 ? primesieve::nth_prime(-(int64_t) m, y) : 0;
      if (i > 2)
      {
        PBT_REQUIRE(p == nth1 && q == nth2, "nth_prime(+-", m, ") = ", p, " ", q, " but it was ", nth1, " ", nth2, s);
        PBT_REQUIRE(u == v, "generate_primes(", x, ", ", y, ") differs", s);
      }
      nth1 = p; nth2 = q; v.swap(u);
    }
    // and they are right
    if (y - x < 3000000) PBT_REQUIRE(v == window(x, y), "generate_primes(", x, ", ", y, ") is wrong");
    c.nontrivial(!v.empty());
  }, [](const Args& a) { return a.size() >= 4 && a.size() % 2 == 0 && a[0] >= 0 && a[1] >= a[0] && a[1] - a[0] <= 40000000 && a[1] < ((i128) 1 << 51); }, 2, 2, "the interval contains a prime" });

// large sieve sizes at high positions, where all kinds of sieving primes are in use
static Reg s3({ "settings.high", 40, 600,
  [](Rng& r) {
    int bits = (int) r.range(50, r.chance(1, 8) ? 61 : 56);
    uint64_t x = ((uint64_t) 1 << bits) + (uint64_t) r.bits(bits), w = (uint64_t) r.range(1000, 12000);
    Args a{ (i128) x, (i128) (x + w) };
    for (int i = 2; i > 0; i--) { a.push_back(r.chance(1, 2) ? 4096 : (i128) (8 << r.below(10))); a.push_back((i128) r.range(1, 8)); }
    return a; },
  [](const Args& a, Ctx& c) {
    uint64_t x = (uint64_t) a[0], y = (uint64_t) a[1];
    auto p = window(x, y);
    for (size_t i = 2; i + 1 < a.size(); i += 2)
    {
      primesieve::set_sieve_size((int) a[i]);
      primesieve::set_num_threads((int) a[i + 1]);
      uint64_t n = primesieve::count_primes(x, y);
      PBT_REQUIRE(n == p.size(), "count_primes(", x, ", ", y, ") = ", n, " but there are ", p.size(), " primes (sieve size ", primesieve::get_sieve_size(), ")");
      // several segments; the tail is decided by the oracle
      uint64_t far = x - (uint64_t) primesieve::get_sieve_size() * 1024 * 30 * 2;
      primesieve::iterator it(y > 5000 ? y - 5000 : 0, y);
      Walker w;
      for (uint64_t q = y - 5000; ; )
      {
        uint64_t e = w.next(q), g = it.next_prime();
        PBT_REQUIRE(g == e, "iterator at ", q, " returns ", g, " instead of ", e, " (sieve size ", primesieve::get_sieve_size(), ")");
        q = e;
        if (q > y) break;
      }
      if (x < 1ull << 54)
      {
        primesieve::set_num_threads(1);
        uint64_t d = primesieve::count_primes(far, y);
        primesieve::set_sieve_size(64);
        primesieve::set_num_threads(8);
        uint64_t f = primesieve::count_primes(far, y);
        PBT_REQUIRE(d == f, "count_primes(", far, ", ", y, ") = ", d, " with sieve size ", (int) a[i], " but ", f, " with sieve size 64");
        c.label("several segments");
      }
    }
    c.nontrivial(!p.empty());
  }, [](const Args& a) { return a.size() >= 4 && a.size() % 2 == 0 && a[0] > 5000 && a[1] >= a[0] && a[1] - a[0] <= 40000 && a[1] < ((i128) 1 << 62); }, 2, 2, "the interval contains a prime" });

// many segments sieved by one thread: the sizes agree, and with a division into 8 intervals
static Reg s4({ "settings.segments", 40, 600,
  [](Rng& r) {
    int bits = (int) r.range(r.chance(1, 3) ? 44 : 50, 54);
    i128 kib = r.chance(2, 3) ? 4096 : (i128) (8 << r.below(10)), n = r.chance(1, 2) ? r.range(8, 14) : r.range(2, 8);
    if (kib < 512) n *= 16;
    i128 x = ((i128) 1 << bits) + (i128) r.bits(bits);
    return Args{ x, x + kib * 30720 * n + r.range(0, 100000), kib, (i128) (8 << r.below(10)) }; },
  [](const Args& a, Ctx& c) {
    uint64_t x = (uint64_t) a[0], y = (uint64_t) a[1];
    primesieve::set_num_threads(1);
    primesieve::set_sieve_size((int) a[2]);
    uint64_t d = primesieve::count_primes(x, y);
    primesieve::set_num_threads(8);
    primesieve::set_sieve_size((int) a[3]);
    uint64_t f = primesieve::count_primes(x, y);
    PBT_REQUIRE(d == f, "count_primes(", x, ", ", y, ") = ", d, " with sieve size ", (int) a[2], " and one thread but ", f, " with sieve size ", (int) a[3], " and 8 threads");
    c.label(cat((y - x) / ((uint64_t) a[2] * 30720), " segments"));
    c.nontrivial(true);
  }, [](const Args& a) { return a.size() == 4 && a[0] > 5000 && a[1] >= a[0] && a[1] - a[0] <= ((i128) 1 << 31) && a[1] < ((i128) 1 << 56) && a[2] > 0 && a[3] > 0 && a[2] < 10000 && a[3] < 10000; }, 0, 0, "every case" });

// ------------------------------------------------------------------ Q08
// independent calls in several threads; each must return what it returns alone.
// args: settings, then (kind, a, b) per call; calls are spread over the threads
static void one_call(int kind, uint64_t a, uint64_t b, std::string& err)
{
  Walker w;
  switch (kind)
  {
    case 0: case 1: case 2:
    {
      int k = kind == 0 ? 1 : 2 + (int) (b % 5);
      uint64_t e = count_k(window(a, b), k), v = (kind == 2 ? count_c : count_cpp)[k](a, b);
      if (v != e) err = cat("count_", names[k], "(", a, ", ", b, ") = ", v, " instead of ", e);
      break;
    }
    case 3:
    {
      std::vector<uint64_t> v;
      primesieve::generate_primes(a, b, &v);
      if (v != window(a, b)) err = cat("generate_primes(", a, ", ", b, ") is wrong");
      break;
    }
    case 4:
    {
      uint64_t e, n = 1 + b % 300;
      if (!nth((int64_t) n, a, e)) break;
      uint64_t v = primesieve::nth_prime((int64_t) n, a);
      if (v != e) err = cat("nth_prime(", n, ", ", a, ") = ", v, " instead of ", e);
      break;
    }
    default:
    {
      primesieve::iterator it(a, b);
      uint64_t pos = a;
      for (int i = 0; i < 900 && err.empty(); i++)
      {
        bool back = kind == 5 ? i % 300 > 180 : i % 450 < 180;
        uint64_t e = back ? w.prev(pos) : w.next(pos), g = back ? it.prev_prime() : it.next_prime();
        if (g != e) err = cat("iterator(", a, ", ", b, ") at ", pos, " returns ", g, " instead of ", e);
        pos = e;
      }
    }
  }
}
static Reg t1({ "threads.calls", 600, 6000,
  [](Rng& r) {
    Args a{ gen_settings(r) + 16 };
    for (int i = 2 + (int) r.below(7); i > 0; i--)
    {
      uint64_t x = gen_pos(r, 40), w = (uint64_t) r.bits(17);
      int kind = (int) r.below(7);
      if (kind < 3 && r.chance(1, 12)) w = 20000000 + (uint64_t) r.below(9000000);
      a.insert(a.end(), { (i128) kind, (i128) x, (i128) (x + w) });
    }
    return a; },
  [](const Args& a, Ctx& c) {
    settings(a[0]);
    base();
    size_t n = (a.size() - 1) / 3;
    std::vector<std::string> err(n);
    std::vector<std::thread> t;
    std::atomic<int> ready((int) n);
    for (size_t i = 0; i < n; i++)
      t.emplace_back([&, i]() {
        ready--;
        while (ready > 0) std::this_thread::yield();
        try { one_call((int) a[1 + 3 * i], (uint64_t) a[2 + 3 * i], (uint64_t) a[3 + 3 * i], err[i]); }
        catch (std::exception& e) { err[i] = cat("unexpected exception ", e.what()); } });
    for (auto& x : t) x.join();
    for (auto& e : err) PBT_REQUIRE(e.empty(), e, " (", n, " concurrent calls)");
    c.nontrivial(n > 1);
  }, [](const Args& a) {
    for (size_t i = 1; i + 2 < a.size(); i += 3)
      if (a[i] < 0 || a[i] > 6 || a[i + 1] < 0 || a[i + 2] < a[i + 1] || a[i + 2] - a[i + 1] > 40000000 || a[i + 2] > ((i128) 1 << 42)) return false;
    return a.size() >= 1 && (a.size() - 1) % 3 == 0; }, 1, 3, "more than one call" });

int main(int argc, char** argv)
{
  base();
  oracle::tables();
  return pbt::main(argc, argv);
}
