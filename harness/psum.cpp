// S01, S02, S04: whole prime sums
#include "psum.hpp"

using namespace primesum;

static W expect(i128 x) { return W(oracle::prime_sum(x)); }

// ------------------------------------------------------------------ S01
static Reg k1({ "sum.small", 40000, 400000,
  [](Rng& r) { return Args{ r.chance(1, 12) ? r.range(-1000, 3) : gen_x(r, 0, 1999000), gen_threads(r) }; },
  [](const Args& a, Ctx& c) {
    for (i128 x = a[0]; x < a[0] + 20; x++)
      REQUIRE_EQ(pi(x, (int) a[1]), expect(x), "sum of the primes <= ", x, " with ", a[1], " threads");
    c.nontrivial(a[0] > 100);
  },
  [](const Args& a) { return a[0] < 1999000 && a[1] >= 1 && a[1] < 100; }, -1, 1, "a block of 20 consecutive x > 100" });

static Reg k2({ "sum.lucy", 6000, 60000,
  [](Rng& r) { return Args{ gen_x(r, 1000000, r.chance(1, 6) ? (i128) 10000000000LL : (i128) 300000000), gen_threads(r) }; },
  [](const Args& a, Ctx& c) {
    REQUIRE_EQ(pi(a[0], (int) a[1]), expect(a[0]), "sum of the primes <= ", a[0], " with ", a[1], " threads");
    c.nontrivial();
  },
  [](const Args& a) { return a[0] < (i128) 20000000000LL && a[1] >= 1 && a[1] < 100; }, -1, 1, "x > 10^6" });

static Reg k3({ "sum.big", 12, 160,
  [](Rng& r) { return Args{ gen_x(r, 10000000000LL, 1000000000000LL), gen_threads(r) }; },
  [](const Args& a, Ctx& c) {
    REQUIRE_EQ(pi(a[0], (int) a[1]), expect(a[0]), "sum of the primes <= ", a[0], " with ", a[1], " threads");
    c.nontrivial();
  },
  [](const Args& a) { return a[0] < (i128) 2000000000000LL && a[1] >= 1 && a[1] < 100; }, -1, 1, "x > 10^10" });

// 10^n + delta, the exact value is the published sum and the primes in between
static Args gen_pow10(Rng& r, int lo, int hi)
{
  i128 d = r.chance(1, 3) ? r.range(-3, 3) : (i128) r.bits(22) * (r.chance(1, 2) ? 1 : -1);
  return Args{ r.range(lo, hi), d, gen_threads(r) };
}
static void run_pow10(const Args& a, Ctx& c)
{
  i128 x = pow10((int) a[0]) + a[1];
  REQUIRE_EQ(pi(x, (int) a[2]), W(sum_near_pow10((int) a[0], (int64_t) a[1])), "sum of the primes <= ", x, " with ", a[2], " threads");
  c.nontrivial();
}
static bool ok_pow10(const Args& a) { return a[0] >= 8 && a[0] <= 18 && a[1] > -6000000 && a[1] < 6000000 && a[2] >= 1 && a[2] < 100; }
static Reg k4({ "sum.pow10", 160, 1200, [](Rng& r) { return gen_pow10(r, 9, 13); }, run_pow10, ok_pow10, -1, 1, "x = 10^n + d, published sum" });
static Reg k4b({ "sum.pow10.big", 8, 60, [](Rng& r) { return gen_pow10(r, 14, 15); }, run_pow10, ok_pow10, -1, 1, "x = 10^n + d, published sum" });
static Reg k4c({ "sum.pow10.huge", 2, 12, [](Rng& r) { return gen_pow10(r, 16, 17); }, run_pow10, ok_pow10, -1, 1, "x = 10^n + d, published sum", 400 });
static Reg k4d({ "sum.pow10.max", 0, 1, [](Rng& r) { Args a = gen_pow10(r, 18, 18); a[2] = 8; return a; }, run_pow10, ok_pow10, -1, 1, "x = 10^18 + d, published sum", 400 });

// sum(x + d) - sum(x) = sum of the primes in ]x, x + d]
static void run_diff(const Args& a, Ctx& c)
{
  i128 x = a[0], d = a[1];
  W s1, s2;
  { Alpha al(a[2]); s1 = defs::get(pi(x, (int) a[3])); }
  { Alpha al(a[4]); s2 = defs::get(pi(x + d, (int) a[5])); }
  W e;
  for (uint64_t q : oracle::primes_between((uint64_t) x + 1, (uint64_t) (x + d))) e += W(q);
  PBT_REQUIRE(s2 - s1 == e, "sum(", x + d, ") - sum(", x, ") = ", (s2 - s1).str(), " but the primes between add up to ", e.str());
  c.nontrivial(d > 0);
}
static Args gen_diff(Rng& r, i128 lo, i128 hi)
{
  i128 x = gen_x(r, lo, hi);
  return Args{ x, (i128) r.bits(16), -1000000, gen_threads(r), r.chance(1, 2) ? -1000000 : 1000000 + r.logrange(0, 20000000), gen_threads(r) };
}
static bool ok_diff(const Args& a)
{
  return a[0] >= 100 && a[0] < (i128) 20000000000000000LL && a[1] >= 0 && a[1] < 1000000 && a[3] >= 1 && a[5] >= 1 && a[3] < 100 && a[5] < 100;
}
static Reg k5({ "sum.diff", 80, 800, [](Rng& r) { return gen_diff(r, 1000000000000LL, 100000000000000LL); }, run_diff, ok_diff, -1, 1, "x > 10^12 and different tuning" });
static Reg k5b({ "sum.diff.big", 0, 24, [](Rng& r) { return gen_diff(r, 100000000000000LL, 10000000000000000LL); }, run_diff, ok_diff, -1, 1, "x > 10^14 and different tuning", 300 });

// histories of calls in one process: (op, x) pairs
static Reg k6({ "sum.history", 4000, 40000,
  [](Rng& r) {
    Args a;
    int n = (int) r.range(2, 20);
    for (int i = 0; i < n; i++) { a.push_back(r.range(0, 7)); a.push_back(gen_x(r, 0, 1900000)); }
    return a;
  },
  [](const Args& a, Ctx& c) {
    struct Reset { ~Reset() { set_alpha(-1); set_num_threads(8); } } reset;
    set_num_threads(8);
    for (size_t i = 0; i + 1 < a.size(); i += 2)
    {
      i128 x = a[i + 1];
      switch ((int) a[i])
      {
        case 0: set_alpha((double) (x % 40) / 3 - 1); break;
        case 1: set_num_threads((int) (x % 12) - 1); break;
        case 2: { std::string s = pi(pbt::str(x)); std::string e = expect(x).str();
                  PBT_REQUIRE(s == e, "pi(\"", x, "\") = ", s, " but the exact value is ", e); } break;
        case 3: REQUIRE_EQ(pi_lmo(x, get_num_threads()), expect(x), "pi_lmo(", x, ")"); break;
        case 4: { PBT_REQUIRE(pi_legendre((int64_t) x) == (int64_t) oracle::tables().pi[(size_t) x], "pi_legendre(", x, ") is wrong"); } break;
        default: REQUIRE_EQ(pi(x), expect(x), "sum of the primes <= ", x, " (call ", i / 2, ")"); break;
      }
    }
    c.nontrivial(a.size() >= 8);
  },
  [](const Args& a) {
    if (a.size() % 2) return false;
    for (size_t i = 0; i + 1 < a.size(); i += 2) if (a[i] < 0 || a[i] > 7 || a[i + 1] < 0 || a[i + 1] > 1900000) return false;
    return true;
  }, 0, 2, "at least 4 calls" });

// ------------------------------------------------------------------ S02
// 63-bit result algorithms: the sum has to fit
static void algorithms(i128 x, int threads, const W& e, bool slow)
{
  REQUIRE_EQ(pi_deleglise_rivat(x, threads), e, "pi_deleglise_rivat(", x, ")");
  REQUIRE_EQ(pi_deleglise_rivat_variant(x, threads), e, "pi_deleglise_rivat without libdivide (", x, ")");
  REQUIRE_EQ(pi_lmo_parallel1(x, threads), e, "pi_lmo_parallel1(", x, ")");
  if (x < (i128) 20000000000LL)
  {
    int64_t n = (int64_t) x;
    REQUIRE_EQ(pi_lmo5(n), e, "pi_lmo5(", x, ")");
    REQUIRE_EQ(pi_lmo4(n), e, "pi_lmo4(", x, ")");
    REQUIRE_EQ(pi_lmo3(n), e, "pi_lmo3(", x, ")");
    if (slow) REQUIRE_EQ(pi_lmo2(n), e, "pi_lmo2(", x, ")");
  }
  if (slow) REQUIRE_EQ(pi_lmo1(x), e, "pi_lmo1(", x, ")");
}
static Reg k10({ "alg.small", 10000, 100000,
  [](Rng& r) { return Args{ r.chance(1, 12) ? r.range(-100, 50) : gen_x(r, 0, 1999900), gen_threads(r) }; },
  [](const Args& a, Ctx& c) {
    for (i128 x = a[0]; x < a[0] + 10; x++) algorithms(x, (int) a[1], expect(x), true);
    c.nontrivial(a[0] > 100);
  },
  [](const Args& a) { return a[0] < 1999900 && a[1] >= 1 && a[1] < 100; }, -1, 1, "all algorithms on a block of 10 consecutive x > 100" });
static Reg k11({ "alg.mid", 2500, 25000,
  [](Rng& r) { return Args{ gen_x(r, 1000000, r.chance(1, 5) ? (i128) 19000000000LL : (i128) 300000000), gen_threads(r) }; },
  [](const Args& a, Ctx& c) {
    algorithms(a[0], (int) a[1], expect(a[0]), a[0] < 300000000);
    c.nontrivial();
  },
  [](const Args& a) { return a[0] < (i128) 20000000000LL && a[1] >= 1 && a[1] < 100; }, -1, 1, "all algorithms, x > 10^6" });
static Reg k12({ "alg.big", 80, 800,
  [](Rng& r) { return Args{ gen_x(r, 20000000000LL, 20000000000000LL), gen_threads(r) }; },
  [](const Args& a, Ctx& c) {
    i128 x = a[0];
    W e = defs::get(pi_deleglise_rivat(x, (int) a[1]));
    REQUIRE_EQ(pi_deleglise_rivat_variant(x, (int) a[1]), e, "with pi_deleglise_rivat as reference: without libdivide (", x, ")");
    REQUIRE_EQ(pi_lmo_parallel1(x, (int) a[1]), e, "with pi_deleglise_rivat as reference: pi_lmo_parallel1(", x, ")");
    c.nontrivial();
  },
  [](const Args& a) { return a[0] < (i128) 40000000000000LL && a[1] >= 1 && a[1] < 100; }, -1, 1, "three implementations agree, x > 2*10^10" });
static Reg k13({ "alg.pow10", 4, 30,
  [](Rng& r) { return gen_pow10(r, 12, r.chance(1, 4) ? 14 : 13); },
  [](const Args& a, Ctx& c) {
    i128 x = pow10((int) a[0]) + a[1];
    W e(sum_near_pow10((int) a[0], (int64_t) a[1]));
    REQUIRE_EQ(pi_deleglise_rivat_variant(x, (int) a[2]), e, "pi_deleglise_rivat without libdivide (", x, ")");
    REQUIRE_EQ(pi_lmo_parallel1(x, (int) a[2]), e, "pi_lmo_parallel1(", x, ")");
    c.nontrivial();
  }, ok_pow10, -1, 1, "x = 10^n + d, published sum", 300 });

// the build without libdivide against the one with it, with different tuning
static Reg k14({ "alg.variant", 40, 400,
  [](Rng& r) {
    i128 x = r.chance(1, 3) ? gen_x(r, 100000000000000LL, r.chance(1, 6) ? 20000000000000000LL : 2000000000000000LL) : gen_x(r, 1000000000000LL, 100000000000000LL);
    return Args{ x, r.chance(1, 3) ? -1000000 : 1000000 + r.logrange(0, 30000000), gen_threads(r), r.chance(1, 3) ? -1000000 : 1000000 + r.logrange(0, 30000000), gen_threads(r) }; },
  [](const Args& a, Ctx& c) {
    W s1, s2;
    { Alpha al(a[1]); s1 = defs::get(pi_deleglise_rivat(a[0], (int) a[2])); }
    { Alpha al(a[3]); s2 = defs::get(pi_deleglise_rivat_variant(a[0], (int) a[4])); }
    PBT_REQUIRE(s1 == s2, "the sum of the primes <= ", a[0], " is ", s1.str(), " with libdivide and alpha = ", a[1], "/1000000 but ", s2.str(), " without libdivide and alpha = ", a[3], "/1000000");
    c.nontrivial(a[0] > (i128) 100000000000000LL);
  },
  [](const Args& a) { return a[0] >= 1000 && a[0] < (i128) 40000000000000000LL && a[2] >= 1 && a[2] < 100 && a[4] >= 1 && a[4] < 100; }, 0, 0, "x > 10^14", 300 });

// ------------------------------------------------------------------ S04
static void tunable(i128 x, i128 al, int threads, const W& e)
{
  // the LMO algorithm is slow for large x and small alpha
  Alpha alpha(al);
  REQUIRE_EQ(pi_deleglise_rivat(x, threads), e, "pi_deleglise_rivat(", x, ") with alpha = ", al, "/1000000");
  REQUIRE_EQ(pi_deleglise_rivat_variant(x, threads), e, "pi_deleglise_rivat without libdivide (", x, ") with alpha = ", al, "/1000000");
  if (x < 200000000000LL) REQUIRE_EQ(pi_lmo_parallel1(x, threads), e, "pi_lmo_parallel1(", x, ") with alpha = ", al, "/1000000");
}
static bool ok_alpha(const Args& a) { return a[0] >= -100 && a[0] < (i128) 20000000000LL && a[2] >= 1 && a[2] < 100; }
static Reg k20({ "alpha.small", 40000, 400000,
  [](Rng& r) { i128 x = r.chance(1, 15) ? r.range(-100, 50) : gen_x(r, 0, 1999000); return Args{ x, gen_alpha(r, x), gen_threads(r) }; },
  [](const Args& a, Ctx& c) { for (i128 x = a[0]; x < a[0] + 4; x++) tunable(x, a[1], (int) a[2], expect(x)); c.nontrivial(a[0] > 100 && a[1] >= 1000000); },
  ok_alpha, -1, 1, "x > 100 and alpha >= 1" });
static Reg k21({ "alpha.mid", 3000, 30000,
  [](Rng& r) { i128 x = gen_x(r, 1000000, r.chance(1, 5) ? (i128) 19000000000LL : (i128) 300000000); return Args{ x, gen_alpha(r, x), gen_threads(r) }; },
  [](const Args& a, Ctx& c) { tunable(a[0], a[1], (int) a[2], expect(a[0])); c.nontrivial(a[1] >= 1000000); },
  ok_alpha, -1, 1, "x > 10^6 and alpha >= 1" });
static Reg k22({ "alpha.pow10", 24, 200,
  [](Rng& r) { Args a = gen_pow10(r, 11, 14); a.push_back(gen_alpha(r, pow10((int) a[0]))); return a; },
  [](const Args& a, Ctx& c) { tunable(pow10((int) a[0]) + a[1], a[3], (int) a[2], W(sum_near_pow10((int) a[0], (int64_t) a[1]))); c.nontrivial(a[3] >= 1000000); },
  ok_pow10, -1, 1, "x = 10^n + d and alpha >= 1", 300 });
static Reg k23({ "alpha.big", 5, 30,
  [](Rng& r) { Args a = gen_pow10(r, 15, 15); a.push_back(r.chance(1, 2) ? (i128) 1000000 : 1000000 + r.logrange(0, 40000000)); return a; },
  [](const Args& a, Ctx& c) {
    Alpha alpha(a[3]);
    i128 x = pow10((int) a[0]) + a[1];
    REQUIRE_EQ(pi_deleglise_rivat(x, (int) a[2]), W(sum_near_pow10((int) a[0], (int64_t) a[1])), "sum of the primes <= ", x, " with alpha = ", a[3], "/1000000");
    c.nontrivial(a[3] >= 1000000);
  },
  ok_pow10, -1, 1, "x = 10^15 + d and alpha >= 1", 400 });

int main(int argc, char** argv) { return pbt::main(argc, argv); }
