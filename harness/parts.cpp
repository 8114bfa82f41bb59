// S05: the partial formulas against brute force, S06: the wide integer
// types, S09: Legendre's formula and the phi functions
#include "psum.hpp"

using namespace primesum;

// the split points reachable with some alpha
static int64_t y_min(i128 x) { return (int64_t) oracle::iroot((u128) x, 3); }
static int64_t y_max(i128 x) { return y_min(x) * (int64_t) oracle::iroot((u128) x, 6); }
static int64_t gen_y(Rng& r, i128 x)
{
  int64_t lo = y_min(x), hi = y_max(x);
  switch ((int) r.below(5))
  {
    case 0: return lo + (int64_t) r.below((u128) std::min<int64_t>(4, hi - lo + 1));
    case 1: return hi - (int64_t) r.below((u128) std::min<int64_t>(4, hi - lo + 1));
    case 2: return (int64_t) r.range(lo, hi);
    default: return (int64_t) r.logrange(lo, hi);
  }
}
static bool ok_split(i128 x, i128 y) { return x >= 2 && y >= y_min(x) && y <= y_max(x); }

static void parts(i128 x, int64_t y, int threads, Ctx& ctx, bool p2 = true, const char* how = "")
{
  Split s = make_split(x, y);
  std::string at = cat("(x = ", x, ", y = ", y, ", z = ", s.z, ", c = ", s.c, ", threads = ", threads, ")", how);
  W s1 = defs::S1((u128) x, y, (int) s.c);
  REQUIRE_EQ(S1(x, y, s.c, threads), s1, "S1", at);
  defs::S2Leaves l = defs::S2((u128) x, y, s.z, (int) s.c);
  REQUIRE_EQ(S2_trivial(x, y, s.z, s.c, threads), l.trivial, "S2_trivial", at);
  REQUIRE_EQ(S2_easy(x, y, s.z, s.c, threads), l.easy, "S2_easy", at);
  REQUIRE_EQ(S2_easy_variant(x, y, s.z, s.c, threads), l.easy, "S2_easy without libdivide", at);
  REQUIRE_EQ(S2_hard(x, y, s.z, s.c, threads), l.hard, "S2_hard", at);
  if (p2)
  {
    oracle::Lucy lu((uint64_t) x);
    W e = defs::P2((uint64_t) x, y, lu);
    REQUIRE_EQ(P2(x, y, threads), e, "P2", at);
    REQUIRE_EQ(prime_sum_tiny(y), W(oracle::prime_sum(y)), "prime_sum_tiny(", y, ")");
    W sum = s1 + l.trivial + l.easy + l.hard + W(oracle::prime_sum(y)) - W(1) - e;
    PBT_REQUIRE(sum == W(lu.hi[1]), "the definitions do not add up to the prime sum ", at, ": mistake in the harness");
  }
  ctx.nontrivial(l.n_trivial + l.n_easy + l.n_hard > 0);
  if (l.n_trivial) ctx.label("trivial leaves");
  if (l.n_easy) ctx.label("easy leaves");
  if (l.n_hard) ctx.label("hard leaves");
}

static bool ok_parts(const Args& a) { return a[0] <= (i128) 2000000000 && ok_split(a[0], a[1]) && a[2] >= 1 && a[2] < 100; }
static Reg k1({ "part.small", 150000, 1500000,
  [](Rng& r) { i128 x = gen_x(r, 2, 100000); return Args{ x, gen_y(r, x), gen_threads(r) }; },
  [](const Args& a, Ctx& c) { parts(a[0], (int64_t) a[1], (int) a[2], c); },
  ok_parts, -1, 1, "the split point has special leaves" });
static Reg k2({ "part.mid", 6000, 60000,
  [](Rng& r) { i128 x = gen_x(r, 100000, 1000000000); return Args{ x, gen_y(r, x), gen_threads(r) }; },
  [](const Args& a, Ctx& c) { parts(a[0], (int64_t) a[1], (int) a[2], c); },
  ok_parts, -1, 1, "the split point has special leaves" });
// large x with y >= x / 2*10^6 (brute force needs a table of size z)
static Reg k3({ "part.large", 240, 2000,
  [](Rng& r) {
    i128 x = gen_x(r, 2000000000, 200000000000LL);
    int64_t lo = std::max(y_min(x), (int64_t) (x / 2000000));
    return Args{ x, r.logrange(lo, y_max(x)), gen_threads(r) };
  },
  [](const Args& a, Ctx& c) { parts(a[0], (int64_t) a[1], (int) a[2], c, false); },
  [](const Args& a) { return a[0] <= 400000000000LL && ok_split(a[0], a[1]) && a[0] / a[1] <= 4000000 && a[2] >= 1 && a[2] < 100; },
  -1, 1, "x > 2*10^9 and special leaves" });

// many threads
static Reg k4({ "part.P2.mt", 40, 300,
  [](Rng& r) { i128 x = gen_x(r, 10000000000LL, 200000000000LL); return Args{ x, r.chance(1, 2) ? (i128) gen_y(r, x) : r.logrange(y_min(x), std::min<int64_t>(y_max(x), (int64_t) (x / 20000000))), r.range(1, 16) }; },
  [](const Args& a, Ctx& c) {
    static oracle::Lucy* lu = nullptr;
    if (!lu || lu->x != (uint64_t) a[0]) { delete lu; lu = new oracle::Lucy((uint64_t) a[0]); }
    REQUIRE_EQ(P2(a[0], (int64_t) a[1], (int) a[2]), defs::P2((uint64_t) a[0], (int64_t) a[1], *lu), "P2(x = ", a[0], ", y = ", a[1], ", threads = ", a[2], ")");
    c.nontrivial(a[0] / a[1] > (2 << 23));
  },
  [](const Args& a) { return a[0] <= 400000000000LL && ok_split(a[0], a[1]) && a[2] >= 1 && a[2] < 100; },
  -1, 1, "x / y > 2^24, more than one thread" });

struct PrimeSums   // primes <= n and their prefix sums
{
  std::vector<uint32_t> p;
  std::vector<uint64_t> s;
  explicit PrimeSums(uint32_t n)
  {
    std::vector<bool> comp(n + 1, false);
    uint64_t t = 0;
    for (uint64_t i = 2; i <= n; i++)
    {
      if (comp[i]) continue;
      p.push_back((uint32_t) i);
      t += i;
      s.push_back(t);
      for (uint64_t j = i * i; j <= n; j += i) comp[j] = true;
    }
  }
  uint64_t sum(uint64_t v) const
  {
    size_t i = (size_t) (std::upper_bound(p.begin(), p.end(), v) - p.begin());
    return i ? s[i - 1] : 0;
  }
};
static const PrimeSums& prime_sums(uint32_t n)
{
  static PrimeSums* t = nullptr;
  static uint32_t size = 0;
  if (n > size) { delete t; t = new PrimeSums(size = n); }
  return *t;
}
static W trivial_leaves(u128 x, int64_t y, int64_t z, int c)
{
  static const uint64_t small[] = { 0, 2, 3, 5, 7, 11, 13 };
  const PrimeSums& t = prime_sums((uint32_t) y + 1);
  u128 from = std::max<u128>(small[c], oracle::isqrt((u128) z));
  W r;
  for (size_t i = (size_t) (std::upper_bound(t.p.begin(), t.p.end(), (uint64_t) from) - t.p.begin()); i < t.p.size() && t.p[i] < y; i++)
  {
    uint64_t p = t.p[i];
    u128 q = std::max<u128>(x / ((u128) p * p), p);
    if (q >= (u128) y) continue;
    r += W::mul(p, t.sum((uint64_t) y) - t.sum((uint64_t) q));
  }
  return r;
}
static Reg k5({ "part.trivial.mt", 100, 1000,
  [](Rng& r) {
    int64_t y = (int64_t) r.range(10000000, 45000000);
    // the leaves next to y: y and the number below it are primes
    if (r.chance(1, 2)) { y = (int64_t) r.range(30000000, 80000000); do y = (int64_t) oracle::prev_prime_le((uint64_t) y - 1); while (!oracle::is_prime64((uint64_t) y - 2)); }
    // trivial leaves exist if sqrt(z) < y, x < y^3
    i128 x = r.logrange((i128) y * y, (i128) y * y * y / 2);
    return Args{ x, y, r.range(1, 12) };
  },
  [](const Args& a, Ctx& c) {
    Split s = make_split(a[0], (int64_t) a[1]);
    W e = trivial_leaves((u128) a[0], s.y, s.z, (int) s.c);
    REQUIRE_EQ(S2_trivial(a[0], s.y, s.z, s.c, (int) a[2]), e, "S2_trivial(x = ", a[0], ", y = ", a[1], ", z = ", s.z, ", c = ", s.c, ", threads = ", a[2], ")");
    c.nontrivial(e != W(0));
  },
  [](const Args& a) { return a[1] >= 2 && a[1] < 80000000 && a[0] >= a[1] * a[1] && a[0] / a[1] / a[1] <= a[1] && a[2] >= 1 && a[2] < 100; },
  -1, 1, "y > 10^7 and at least one trivial leaf" });
static Reg k6({ "part.S1.mt", 12, 150,
  [](Rng& r) {
    int64_t y = (int64_t) r.range(1900000, 5000000);
    return Args{ r.logrange((i128) y * y, (i128) y * y * y / 2), y, r.range(2, 12) };
  },
  [](const Args& a, Ctx& c) {
    Split s = make_split(a[0], (int64_t) a[1]);
    REQUIRE_EQ(S1(a[0], s.y, s.c, (int) a[2]), defs::S1((u128) a[0], s.y, (int) s.c), "S1(x = ", a[0], ", y = ", a[1], ", c = ", s.c, ", threads = ", a[2], ")");
    c.nontrivial();
  },
  [](const Args& a) { return a[1] >= 13 && a[1] < 8000000 && a[0] >= a[1] * a[1] && a[2] >= 1 && a[2] < 100; },
  -1, 1, "y > 1.9*10^6, more than one thread", 200 });

// ------------------------------------------------------------------ S06
// the code for wide integers is chosen by artificially low limits
static const char* LOW = " with lowered integer limits";
static Reg k10({ "wide.parts", 120000, 900000,
  [](Rng& r) { i128 x = gen_x(r, 2, 2000000); return Args{ x, gen_y(r, x), gen_threads(r), r.range(1, 24), r.range(1, 13) }; },
  [](const Args& a, Ctx& c) {
    vp::LowerLimits low((int) a[3], (int) a[4]);
    parts(a[0], (int64_t) a[1], (int) a[2], c, true, LOW);
  },
  [](const Args& a) { return ok_parts(a) && a[3] >= 1 && a[3] <= 127 && a[4] >= 1 && a[4] <= 127; }, -1, 1, "the split point has special leaves" });
static Reg k11({ "wide.parts.mid", 3000, 30000,
  [](Rng& r) { i128 x = gen_x(r, 2000000, 1000000000); return Args{ x, gen_y(r, x), gen_threads(r), r.range(4, 32), r.range(3, 16) }; },
  [](const Args& a, Ctx& c) {
    vp::LowerLimits low((int) a[3], (int) a[4]);
    parts(a[0], (int64_t) a[1], (int) a[2], c, true, LOW);
  },
  [](const Args& a) { return ok_parts(a) && a[3] >= 1 && a[3] <= 127 && a[4] >= 1 && a[4] <= 127; }, -1, 1, "the split point has special leaves" });
// whole sums, x up to 10^15, against the published values
static Reg k12({ "wide.sum", 40, 300,
  [](Rng& r) {
    int n = (int) r.range(11, 13);
    i128 d = (i128) r.bits(22) * (r.chance(1, 2) ? 1 : -1);
    return Args{ n, d, gen_threads(r), r.range(10, 63), r.range(4, 32), 1000000 + r.logrange(0, 40000000) };
  },
  [](const Args& a, Ctx& c) {
    vp::LowerLimits low((int) a[3], (int) a[4]);
    Alpha alpha(a[5]);
    i128 x = pow10((int) a[0]) + a[1];
    W e(sum_near_pow10((int) a[0], (int64_t) a[1]));
    REQUIRE_EQ(pi_deleglise_rivat(x, (int) a[2]), e, "pi_deleglise_rivat(", x, ")", LOW);
    REQUIRE_EQ(pi_deleglise_rivat_variant(x, (int) a[2]), e, "pi_deleglise_rivat without libdivide (", x, ")", LOW);
    c.nontrivial(a[3] < 33 || a[4] < 16);
  },
  [](const Args& a) { return a[0] >= 8 && a[0] <= 16 && a[1] > -6000000 && a[1] < 6000000 && a[2] >= 1 && a[2] < 100 && a[3] >= 1 && a[3] <= 127 && a[4] >= 1 && a[4] <= 127; },
  -1, 1, "the limits are below x or y", 300 });
static Reg k13({ "wide.sum.big", 4, 30,
  [](Rng& r) {
    return Args{ r.range(14, 15), (i128) r.bits(22) * (r.chance(1, 2) ? 1 : -1), gen_threads(r), r.range(10, 48), r.range(4, 18),
                 r.chance(1, 3) ? (i128) 1000000 : 1000000 + r.logrange(1000000, 40000000) };
  },
  [](const Args& a, Ctx& c) {
    vp::LowerLimits low((int) a[3], (int) a[4]);
    Alpha alpha(a[5]);
    i128 x = pow10((int) a[0]) + a[1];
    REQUIRE_EQ(pi_deleglise_rivat(x, (int) a[2]), W(sum_near_pow10((int) a[0], (int64_t) a[1])), "pi_deleglise_rivat(", x, ")", LOW);
    c.nontrivial();
  },
  [](const Args& a) { return a[0] >= 8 && a[0] <= 16 && a[1] > -6000000 && a[1] < 6000000 && a[2] >= 1 && a[2] < 100 && a[3] >= 1 && a[3] <= 127 && a[4] >= 1 && a[4] <= 127; },
  -1, 1, "x = 10^14 or 10^15 + d, the limits are below x and y", 300 });
// 10^19 > 2^63
static Reg k14({ "wide.sum.1e19", 0, 1,
  [](Rng& r) { return Args{ (i128) r.bits(22) * (r.chance(1, 2) ? 1 : -1) }; },
  [](const Args& a, Ctx& c) {
    i128 x = pow10(19) + a[0];
    REQUIRE_EQ(pi_deleglise_rivat(x, 8), W(sum_near_pow10(19, (int64_t) a[0])), "pi_deleglise_rivat(", x, ")");
    c.nontrivial();
  },
  [](const Args& a) { return a[0] > -6000000 && a[0] < 6000000; }, -1, 1, "x > 2^63", 700 });

// Real x > 2^63
static Reg k20({ "wide.S1", 800, 10000,
  [](Rng& r) {
    int64_t y = (int64_t) r.logrange(1, 20000);
    i128 x = r.chance(1, 4) ? (i128) 0 + (((i128) 1 << r.pick(std::vector<int>{ 63, 64, 95, 96, 124 })) + r.range(-3, 3)) : (i128) (r.bits(62) + ((u128) 1 << 62)) << (int) r.below(62);
    return Args{ x + r.range(0, 1000000), y, gen_threads(r) };
  },
  [](const Args& a, Ctx& c) {
    int64_t y = (int64_t) a[1], cc = PhiTiny::get_c(y);
    REQUIRE_EQ(S1(a[0], y, cc, (int) a[2]), defs::S1((u128) a[0], y, (int) cc), "S1(x = ", a[0], ", y = ", y, ", c = ", cc, ", threads = ", a[2], ")");
    c.nontrivial(a[0] >> 63 != 0 && y > 1);
  },
  [](const Args& a) { return a[0] >= 1 && a[0] >> 125 == 0 && a[1] >= 1 && a[1] < 100000 && a[2] >= 1 && a[2] < 100; },
  -1, 1, "x > 2^63 and y > 1" });

static Reg k21({ "wide.trivial", 60, 800,
  [](Rng& r) {
    int64_t y = (int64_t) r.range(2700000, r.chance(1, 4) ? 40000000 : 6000000);
    i128 lo = (i128) 1 << 63, hi = (i128) y * y * y;
    return Args{ r.chance(1, 3) ? lo + (i128) r.bits(62) : r.range(lo, hi - 1), y, gen_threads(r), r.chance(1, 2) ? (i128) 127 : r.range(10, 32) };
  },
  [](const Args& a, Ctx& c) {
    vp::LowerLimits low(127, (int) a[3]);
    Split s = make_split(a[0], (int64_t) a[1]);
    W e = trivial_leaves((u128) a[0], s.y, s.z, (int) s.c);
    REQUIRE_EQ(S2_trivial(a[0], s.y, s.z, s.c, (int) a[2]), e, "S2_trivial(x = ", a[0], ", y = ", a[1], ", z = ", s.z, ", c = ", s.c, ", threads = ", a[2], ")");
    c.nontrivial(e != W(0) && a[0] >> 63 != 0);
  },
  [](const Args& a) { return a[1] >= 2 && a[1] < 80000000 && a[0] >= a[1] * a[1] && a[0] / a[1] / a[1] <= a[1] && a[2] >= 1 && a[2] < 100 && a[3] >= 1 && a[3] <= 127; },
  -1, 1, "x > 2^63 and at least one trivial leaf" });

static W easy_leaves(u128 x, int64_t y, int64_t z, int c, uint64_t& n)
{
  const PrimeSums& t = prime_sums((uint32_t) y + 1);
  static std::vector<uint64_t> S;      // S[v] = sum of the primes <= v
  if (S.size() < (size_t) y + 1)
  {
    S.assign((size_t) y + 1, 0);
    size_t k = 0;
    uint64_t sum = 0;
    for (size_t v = 0; v < S.size(); v++) { if (k < t.p.size() && t.p[k] == v) { sum += v; k++; } S[v] = sum; }
  }
  uint64_t x13 = (uint64_t) oracle::iroot(x, 3), sqrty = (uint64_t) oracle::isqrt((u128) y);
  auto index = [&](uint64_t v) { return (size_t) (std::upper_bound(t.p.begin(), t.p.end(), v) - t.p.begin()); };
  W r;
  n = 0;
  for (size_t i = std::max<size_t>((size_t) c, index(sqrty)); i < t.p.size() && t.p[i] <= x13; i++)
  {
    uint64_t p = t.p[i];
    u128 x2 = x / p;
    uint64_t from = std::max<uint64_t>(std::max<uint64_t>((uint64_t) (z / (int64_t) p), (uint64_t) (y / (int64_t) p)), p);
    uint64_t to = (uint64_t) std::min<u128>(x2 / p, (u128) y);
    u128 acc = 0;
    for (size_t l = index(from); l < t.p.size() && t.p[l] <= to; l++)
    {
      uint64_t v = (uint64_t) (x2 / t.p[l]);
      acc += (u128) t.p[l] * (1 + S[v] - S[p - 1]);
      n++;
    }
    r += W(acc) * W(p);
  }
  return r;
}
static Reg k22({ "wide.easy", 48, 800,
  [](Rng& r) {
    i128 x = r.chance(1, 3) ? (((i128) 1 << (int) r.range(62, 66)) + r.range(-1000, 1000)) : r.logrange((i128) 1 << 62, (i128) 1 << 67);
    int64_t x13 = (int64_t) oracle::iroot((u128) x, 3);
    int64_t y = x13 + (int64_t) r.range(x13 / 1000, x13 / 60);
    return Args{ x, y, gen_threads(r), r.chance(1, 2) ? (i128) 127 : r.range(10, 64), r.chance(1, 2) ? (i128) 127 : r.range(10, 32) };
  },
  [](const Args& a, Ctx& c) {
    vp::LowerLimits low((int) a[3], (int) a[4]);
    Split s = make_split(a[0], (int64_t) a[1]);
    uint64_t n = 0;
    W e = easy_leaves((u128) a[0], s.y, s.z, (int) s.c, n);
    std::string at = cat("(x = ", a[0], ", y = ", a[1], ", z = ", s.z, ", c = ", s.c, ", threads = ", a[2], ")");
    REQUIRE_EQ(S2_easy(a[0], s.y, s.z, s.c, (int) a[2]), e, "S2_easy", at);
    REQUIRE_EQ(S2_easy_variant(a[0], s.y, s.z, s.c, (int) a[2]), e, "S2_easy without libdivide", at);
    c.nontrivial(n > 1000);
  },
  [](const Args& a) {
    if (a[0] < 1000 || a[0] >> 68 || a[2] < 1 || a[2] >= 100 || a[3] < 1 || a[3] > 127 || a[4] < 1 || a[4] > 127) return false;
    i128 x13 = (i128) oracle::iroot((u128) a[0], 3);
    return a[1] >= x13 && a[1] <= x13 + x13 / 50 + 2;
  }, -1, 1, "more than 1000 easy leaves, x > 2^62" });

// sqrt(x) next to the borders between the intervals of the threads
static Reg k4b({ "part.P2.edge", 48, 500,
  [](Rng& r) {
    static const std::vector<int> ks = [] {
      std::vector<int> v;
      for (int k = 1; k <= 20; k++) if (oracle::is_prime64(((uint64_t) k << 23) + 1)) v.push_back(k);
      return v; }();
    bool prime = r.chance(2, 3) && !ks.empty();
    int64_t s = prime ? ((int64_t) ks[(size_t) r.below(ks.size())] << 23) + 1 : ((int64_t) r.range(1, 20) << 23) + (int64_t) r.range(-3, 5);
    i128 x = (i128) s * s + (i128) (r.chance(1, 2) ? s + (int64_t) r.below((uint64_t) s) : (int64_t) r.below(2 * (uint64_t) s));
    int64_t lo = std::max<int64_t>(s / 2, (int64_t) (x / 250000000) + 1);
    return Args{ x, r.chance(1, 3) ? (i128) (s - (int64_t) r.below(200)) : (i128) r.range(std::min(lo, s - 1), s - 1), (i128) r.range(1, 16) }; },
  [](const Args& a, Ctx& c) {
    int64_t x = (int64_t) a[0], y = (int64_t) a[1], s = (int64_t) oracle::iroot((u128) x, 2);
    const PrimeSums& ps = prime_sums(260000000);
    W e;
    for (size_t i = (size_t) (std::upper_bound(ps.p.begin(), ps.p.end(), (uint32_t) y) - ps.p.begin()); i < ps.p.size() && ps.p[i] <= s; i++)
      e += W(ps.p[i]) * W(ps.sum((uint64_t) (x / ps.p[i])) - (i ? ps.s[i - 1] : 0));
    REQUIRE_EQ(P2(x, y, (int) a[2]), e, "P2(x = ", x, ", y = ", y, ", threads = ", a[2], ")");
    c.nontrivial(e != W(0));
  },
  [](const Args& a) {
    if (a.size() != 3 || a[0] < 1000 || a[0] > ((i128) 1 << 56) || a[2] < 1 || a[2] > 99) return false;
    i128 s = (i128) oracle::iroot((u128) a[0], 2);
    return a[1] >= (i128) oracle::iroot((u128) a[0], 3) && a[1] <= s && a[0] / a[1] < 260000000; },
  -1, 1, "primes between y and sqrt(x)", 200 });

static Reg k23({ "wide.P2", 3, 40,
  [](Rng& r) {
    i128 x = r.chance(1, 2) ? (((i128) 1 << (int) r.range(63, 64)) + r.range(-1000, 1000)) : r.logrange((i128) 1 << 63, (i128) 1 << 65);
    return Args{ x, (i128) y_max(x) - r.logrange(0, 3000000), r.range(4, 8) };
  },
  [](const Args& a, Ctx& c) {
    int64_t y = (int64_t) a[1];
    uint64_t sx = (uint64_t) oracle::isqrt((u128) a[0]), z = (uint64_t) (a[0] / y);
    oracle::Lucy lu((uint64_t) y);
    std::vector<uint64_t> p = oracle::primes_between((uint64_t) y + 1, z + 1);
    std::vector<u128> s(1, lu.hi[1]);
    for (uint64_t q : p) s.push_back(s.back() + q);
    auto S = [&](uint64_t v) { return s[(size_t) (std::upper_bound(p.begin(), p.end(), v) - p.begin())]; };
    W e;
    uint64_t n = 0;
    for (uint64_t q : p) if (q <= sx) { e += W::mul(q, S((uint64_t) (a[0] / q)) - S(q - 1)); n++; }
    REQUIRE_EQ(P2(a[0], y, (int) a[2]), e, "P2(x = ", a[0], ", y = ", y, ", threads = ", a[2], ")");
    c.nontrivial(n > 0);
  },
  [](const Args& a) { return a[0] >= 1000 && a[0] >> 66 == 0 && a[1] <= y_max(a[0]) && a[1] + 10000000 >= y_max(a[0]) && a[2] >= 1 && a[2] < 100; },
  -1, 1, "x > 2^63 and primes between y and sqrt(x)", 150 });

// ------------------------------------------------------------------ S09
// phi(v, a) and phi_sum(v, a) for all v = x / i at once
struct PhiTab
{
  uint64_t x, r;
  std::vector<i128> clo, chi;
  std::vector<W> slo, shi;
  int a = 0;
  explicit PhiTab(uint64_t x_) : x(x_)
  {
    r = (uint64_t) oracle::isqrt(x);
    clo.resize(r + 1); chi.resize(r + 1); slo.resize(r + 1); shi.resize(r + 1);
    for (uint64_t i = 1; i <= r; i++) { clo[i] = i; chi[i] = x / i; slo[i] = defs::tri(i); shi[i] = defs::tri(x / i); }
  }
  i128 c(uint64_t v) const { return v <= r ? clo[v] : chi[x / v]; }
  W s(uint64_t v) const { return v <= r ? slo[v] : shi[x / v]; }
  void next()
  {
    uint64_t p = oracle::tables().primes[(size_t) a++];
    for (uint64_t i = 1; i <= r; i++) { uint64_t v = x / i / p; if (v) { chi[i] -= c(v); shi[i] -= s(v) * W(p); } }
    for (uint64_t v = r; v >= p && v > 0; v--) { clo[v] -= clo[v / p]; slo[v] -= slo[v / p] * W(p); }
  }
};
static void check_phi(uint64_t x, int a, int threads, bool sum)
{
  PhiTab t(x);
  while (t.a < a) t.next();
  i128 e = x ? t.c(x) : 0;
  W es = x ? t.s(x) : W(0);
  i128 v = phi((int64_t) x, a, threads);
  PBT_REQUIRE(v == e, "phi(", x, ", ", a, ") with ", threads, " threads = ", v, " but the exact value is ", e);
  if (!sum) return;
  REQUIRE_EQ(int256_t(phi_sum((int64_t) x, (int64_t) a)), es, "phi_sum(int64 ", x, ", ", a, ")");
  REQUIRE_EQ(phi_sum((int128_t) x, (int64_t) a), es, "phi_sum(int128 ", x, ", ", a, ")");
}
static Reg k30({ "phi.small", 200000, 1000000,
  [](Rng& r) { return Args{ gen_x(r, 0, 5000), r.logrange(0, 700), gen_threads(r), r.range(4, 63) }; },
  [](const Args& a, Ctx& c) {
    vp::LowerLimits low((int) a[3], 127);
    check_phi((uint64_t) a[0], (int) a[1], (int) a[2], true);
    c.nontrivial(a[0] > 1 && a[1] > 0);
  },
  [](const Args& a) { return a[0] >= 0 && a[0] <= 100000 && a[1] >= 0 && a[1] < 2000 && a[2] >= 1 && a[2] < 100 && a[3] >= 1 && a[3] < 128; }, -1, 1, "x > 1, a > 0" });
static Reg k31({ "phi.mid", 20000, 80000,
  [](Rng& r) {
    i128 x = gen_x(r, 5000, 20000000);
    return Args{ x, r.chance(1, 3) ? r.range(0, 40) : r.logrange(0, 1000), gen_threads(r), r.range(4, 63) };
  },
  [](const Args& a, Ctx& c) {
    vp::LowerLimits low((int) a[3], 127);
    check_phi((uint64_t) a[0], (int) a[1], (int) a[2], a[0] < 2000000 || a[1] < 30);
    c.nontrivial(a[1] > 0);
  },
  [](const Args& a) { return a[0] >= 0 && a[0] <= 40000000 && a[1] >= 0 && a[1] < 2000 && a[2] >= 1 && a[2] < 100 && a[3] >= 1 && a[3] < 128; }, -1, 1, "x >= 5000, a > 0" });
static Reg k32({ "phi.big", 800, 4000,
  [](Rng& r) { return Args{ gen_x(r, 1000000000, 200000000000LL), r.logrange(0, 150), r.range(1, 12) }; },
  [](const Args& a, Ctx& c) {
    check_phi((uint64_t) a[0], (int) a[1], (int) a[2], a[1] < 12);
    c.nontrivial(a[1] > 6);
  },
  [](const Args& a) { return a[0] >= 0 && a[0] <= 400000000000LL && a[1] >= 0 && a[1] < 300 && a[2] >= 1 && a[2] < 100; }, -1, 1, "x > 10^9, a > 6", 150 });
// x < 1 and a > x
static Reg k33({ "phi.edge", 120000, 400000,
  [](Rng& r) {
    i128 x = r.chance(1, 2) ? r.range(-20, 20) : (i128) r.bits(127) * (r.chance(2, 3) ? -1 : 1);
    return Args{ x, r.chance(1, 2) ? r.range(0, 30) : (i128) r.bits(20) };
  },
  [](const Args& a, Ctx& c) {
    i128 x = a[0], n = a[1];
    if (x > 30) { x = -x; }
    W e;
    if (x >= 1)
    {
      const oracle::Tables& t = oracle::tables();
      for (i128 v = 1; v <= x; v++) if (v == 1 || t.lpf[(size_t) v] > t.primes[(size_t) (n < 1000 ? n : 1000) - (n > 0)] || n == 0) e += W((u128) v);
    }
    REQUIRE_EQ(phi_sum((int128_t) x, (int64_t) n), e, "phi_sum(int128 ", x, ", ", n, ")");
    if (x == (int64_t) x)
    {
      REQUIRE_EQ(int256_t(phi_sum((int64_t) x, (int64_t) n)), e, "phi_sum(int64 ", x, ", ", n, ")");
      if (x < 1) PBT_REQUIRE(phi((int64_t) x, (int64_t) n) == 0, "phi(", x, ", ", n, ") is not 0");
      if (x < 2) PBT_REQUIRE(pi_legendre((int64_t) x) == 0, "pi_legendre(", x, ") is not 0");
      if (x >= 1 && n > x) PBT_REQUIRE(phi((int64_t) x, (int64_t) n) == 1, "phi(", x, ", ", n, ") is not 1");
      if (n == 0 && x >= 1) PBT_REQUIRE(phi((int64_t) x, 0) == x, "phi(", x, ", 0) is not x");
    }
    c.nontrivial(x < 1 || n > x);
  },
  [](const Args& a) { return a[1] >= 0 && a[1] < (1 << 21); }, -1, 1, "x < 1 or a > x" });
// 128-bit x
static Reg k34({ "phi_sum.128", 24000, 150000,
  [](Rng& r) {
    i128 x = r.chance(1, 3) ? ((i128) 1 << (int) r.range(62, 124)) + r.range(-3, 3) : (i128) r.bits(125);
    return Args{ x, r.range(0, 14) };
  },
  [](const Args& a, Ctx& c) {
    REQUIRE_EQ(phi_sum((int128_t) a[0], (int64_t) a[1]), defs::phi_sum_rec((u128) a[0], (int) a[1], oracle::tables().primes), "phi_sum(", a[0], ", ", a[1], ")");
    c.nontrivial(a[0] >> 63 != 0 && a[1] > 0);
  },
  [](const Args& a) { return a[0] >= 1 && a[0] >> 125 == 0 && a[1] >= 0 && a[1] < 18; }, -1, 1, "x > 2^63, a > 0" });
static Reg k35({ "legendre.small", 150000, 1000000,
  [](Rng& r) { return Args{ r.chance(1, 20) ? r.range(-100, 10) : gen_x(r, 0, 1999900), gen_threads(r) }; },
  [](const Args& a, Ctx& c) {
    for (i128 x = a[0]; x < a[0] + 5; x++)
    {
      i128 v = pi_legendre((int64_t) x, (int) a[1]), e = x < 2 ? 0 : (i128) oracle::tables().pi[(size_t) x];
      PBT_REQUIRE(v == e, "pi_legendre(", x, ") with ", a[1], " threads = ", v, " but the exact value is ", e);
    }
    c.nontrivial(a[0] > 100);
  },
  [](const Args& a) { return a[0] < 1999900 && a[1] >= 1 && a[1] < 100; }, -1, 1, "x > 100" });
static Reg k36({ "legendre.pow10", 600, 2000,
  [](Rng& r) { return Args{ r.range(6, 12), (i128) r.bits(21) * (r.chance(1, 2) ? 1 : -1), r.range(1, 8) }; },
  [](const Args& a, Ctx& c) {
    static const int64_t pi10[] = { 0, 4, 25, 168, 1229, 9592, 78498, 664579, 5761455, 50847534, 455052511, 4118054813LL, 37607912018LL, 346065536839LL };
    int64_t p = (int64_t) pow10((int) a[0]), d = (int64_t) a[1];
    if (p + d < 0) d = -p;
    int64_t e = pi10[(int) a[0]];
    if (d >= 0) e += (int64_t) oracle::primes_between((uint64_t) p, (uint64_t) (p + d)).size();
    else e -= (int64_t) oracle::primes_between((uint64_t) (p + d + 1), (uint64_t) p).size();
    int64_t v = pi_legendre(p + d, (int) a[2]);
    PBT_REQUIRE(v == e, "pi_legendre(", p + d, ") with ", a[2], " threads = ", v, " but the exact value is ", e);
    c.nontrivial();
  },
  [](const Args& a) { return a[0] >= 1 && a[0] <= 13 && a[1] > -4000000 && a[1] < 4000000 && a[2] >= 1 && a[2] < 100; }, -1, 1, "x = 10^n + d, published count" });

int main(int argc, char** argv) { return pbt::main(argc, argv); }
