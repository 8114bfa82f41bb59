// S03: thread counts, schedules and measured times; S08: progress output.
// Linked with gomp_shim.cpp instead of libgomp.
#include "psum.hpp"
#include "shim.hpp"
#include <S2Status.hpp>
#include <iostream>
#include <sstream>

using namespace primesum;

// The schedule part of a case: threads, seed, policy, clock, team limit, threshold divisor
static void gen_schedule(Rng& r, Args& a, int max_threads = 64)
{
  static const std::vector<int> t = { 2, 3, 4, 7, 8, 16, 33, 64 };
  a.push_back(r.chance(2, 3) ? (i128) std::min(max_threads, r.pick(t)) : r.range(1, max_threads));
  a.push_back((i128) (r.next() >> 1));
  a.push_back(r.range(0, shim::policies - 1));
  a.push_back(r.range(0, 7));
  a.push_back(r.chance(1, 4) ? r.range(1, 8) : 0);
  static const std::vector<i128> d = { 1, 10, 100, 1000, 10000, 100000, 10000000 };
  a.push_back(r.pick(d));
}
static const size_t SCHED = 6;
static bool ok_schedule(const Args& a, size_t i)
{
  return a.size() >= i + SCHED && a[i] >= 1 && a[i] <= 64 && a[i + 1] >= 0 && a[i + 2] >= 0 && a[i + 2] < shim::policies &&
         a[i + 3] >= 0 && a[i + 3] <= 7 && a[i + 4] >= 0 && a[i + 4] <= 64 && a[i + 5] >= 1;
}
struct Schedule
{
  int threads;
  Schedule(const Args& a, size_t i)
  {
    const char* m = getenv("VP_SHIM");
    shim::mode = m && !strcmp(m, "real") ? shim::real : shim::sched;
    shim::reset((uint64_t) a[i + 1], (shim::Policy) (int) a[i + 2]);
    shim::clock_mode = (long) a[i + 3];
    shim::team_limit = (int) a[i + 4];
    shim::threshold_div = (int) a[i + 5];
    shim::max_threads = 64;
    threads = (int) a[i];
  }
  ~Schedule() { shim::clock_mode = 0; shim::team_limit = 0; shim::threshold_div = 1; }
  std::string str() const
  {
    static const char* p[] = { "uniform", "sequential", "priority", "lifo", "fifo" };
    return cat(" with ", threads, " threads, ", p[shim::policy], " schedule ", shim::seed, ", clock ", shim::clock_mode,
               ", team limit ", shim::team_limit, ", thread thresholds / ", shim::threshold_div);
  }
  void stats(Ctx& c) const
  {
    c.nontrivial(shim::biggest_team >= 2);
    if (shim::biggest_team >= 2) c.label("parallel");
    if (shim::biggest_team >= 16) c.label("16 or more threads");
    if (shim::switches >= 100) c.label("100 or more thread switches");
    if (shim::chunks >= 10) c.label("10 or more dynamic chunks");
    if (shim::clock_mode && shim::clock_reads >= 20) c.label("20 or more generated run times");
    if (shim::team_limit) c.label("fewer threads than requested");
  }
};

// ------------------------------------------------------------------ S03
static void run_sum(const Args& a, Ctx& c)
{
  i128 x = a[0];
  W e(oracle::prime_sum(x));
  Schedule s(a, 2);
  Alpha al(a[1]);
  std::string how = s.str() + cat(", alpha ", a[1], "/1000000");
  REQUIRE_EQ(pi_deleglise_rivat(x, s.threads), e, "pi_deleglise_rivat(", x, ")", how);
  if (a[0] % 2) REQUIRE_EQ(pi_deleglise_rivat_variant(x, s.threads), e, "pi_deleglise_rivat without libdivide (", x, ")", how);
  REQUIRE_EQ(pi_lmo_parallel1(x, s.threads), e, "pi_lmo_parallel1(", x, ")", how);
  s.stats(c);
}
static bool ok_sum(const Args& a) { return a.size() == 2 + SCHED && a[0] >= 0 && a[0] < (i128) 20000000000LL && ok_schedule(a, 2); }
static Reg k1({ "sched.small", 6000, 60000,
  [](Rng& r) { i128 x = gen_x(r, 100, 1999000); Args a = { x, r.chance(1, 2) ? -1000000 : gen_alpha(r, x) }; gen_schedule(r, a); return a; },
  run_sum, ok_sum, -1, 1, "at least one region with two or more threads" });
static Reg k2({ "sched.mid", 1600, 16000,
  [](Rng& r) { i128 x = gen_x(r, 2000000, r.chance(1, 4) ? (i128) 10000000000LL : (i128) 500000000); Args a = { x, r.chance(1, 2) ? -1000000 : gen_alpha(r, x) }; gen_schedule(r, a); return a; },
  run_sum, ok_sum, -1, 1, "at least one region with two or more threads" });

// larger x: sums near powers of 10
static Reg k3({ "sched.pow10", 60, 700,
  [](Rng& r) { Args a = { r.range(10, 13), (i128) r.bits(20), r.chance(1, 2) ? -1000000 : 1000000 + r.logrange(0, 30000000) }; gen_schedule(r, a); return a; },
  [](const Args& a, Ctx& c) {
    i128 x = pow10((int) a[0]) + a[1];
    W e(sum_near_pow10((int) a[0], (int64_t) a[1]));
    Schedule s(a, 3);
    Alpha al(a[2]);
    std::string how = s.str() + cat(", alpha ", a[2], "/1000000");
    REQUIRE_EQ(pi_deleglise_rivat(x, s.threads), e, "pi_deleglise_rivat(", x, ")", how);
    if (a[0] <= 11) REQUIRE_EQ(pi_lmo_parallel1(x, s.threads), e, "pi_lmo_parallel1(", x, ")", how);
    s.stats(c);
  },
  [](const Args& a) { return a.size() == 3 + SCHED && a[0] >= 9 && a[0] <= 13 && a[1] >= 0 && a[1] < 6000000 && ok_schedule(a, 3); },
  -1, 1, "at least one region with two or more threads", 120 });

// the partial formulas, one by one
static Reg k4({ "sched.parts", 2500, 30000,
  [](Rng& r) {
    i128 x = gen_x(r, 10000, r.chance(1, 3) ? 1000000000 : 20000000);
    int64_t lo = (int64_t) oracle::iroot((u128) x, 3), hi = lo * (int64_t) oracle::iroot((u128) x, 6);
    Args a = { x, r.chance(1, 3) ? r.range(lo, hi) : r.logrange(lo, hi) };
    gen_schedule(r, a);
    return a;
  },
  [](const Args& a, Ctx& c) {
    i128 x = a[0]; int64_t y = (int64_t) a[1];
    Split p = make_split(x, y);
    W s1 = defs::S1((u128) x, y, (int) p.c);
    defs::S2Leaves l = defs::S2((u128) x, y, p.z, (int) p.c);
    Schedule s(a, 2);
    std::string at = cat("(x = ", x, ", y = ", y, ")") + s.str();
    REQUIRE_EQ(S1(x, y, p.c, s.threads), s1, "S1", at);
    REQUIRE_EQ(S2_trivial(x, y, p.z, p.c, s.threads), l.trivial, "S2_trivial", at);
    REQUIRE_EQ(S2_easy(x, y, p.z, p.c, s.threads), l.easy, "S2_easy", at);
    REQUIRE_EQ(S2_easy_variant(x, y, p.z, p.c, s.threads), l.easy, "S2_easy without libdivide", at);
    REQUIRE_EQ(S2_hard(x, y, p.z, p.c, s.threads), l.hard, "S2_hard", at);
    s.stats(c);
  },
  [](const Args& a) {
    if (a.size() != 2 + SCHED || a[0] < 2 || a[0] > 2000000000 || !ok_schedule(a, 2)) return false;
    i128 lo = (i128) oracle::iroot((u128) a[0], 3), hi = lo * (i128) oracle::iroot((u128) a[0], 6);
    return a[1] >= lo && a[1] <= hi;
  }, -1, 1, "at least one region with two or more threads" });

static Reg k5({ "sched.P2", 60, 700,
  [](Rng& r) {
    i128 x = r.chance(1, 4) ? gen_x(r, 40000000000LL, 300000000000LL) : gen_x(r, 300000000000LL, 10000000000000LL);
    int64_t lo = (int64_t) oracle::iroot((u128) x, 3);
    Args a = { x, r.logrange(lo, std::max<int64_t>(lo, (int64_t) (x / 20000000))) };
    gen_schedule(r, a);
    return a;
  },
  [](const Args& a, Ctx& c) {
    W e;
    if (a[0] <= 300000000000LL) { oracle::Lucy lu((uint64_t) a[0]); e = defs::P2((uint64_t) a[0], (int64_t) a[1], lu); }
    else e = defs::get(P2(a[0], (int64_t) a[1], 1));
    Schedule s(a, 2);
    REQUIRE_EQ(P2(a[0], (int64_t) a[1], s.threads), e, "P2(x = ", a[0], ", y = ", a[1], ")", s.str());
    s.stats(c);
  },
  [](const Args& a) {
    if (a.size() != 2 + SCHED || a[0] < 1000 || a[0] > 20000000000000LL || !ok_schedule(a, 2)) return false;
    i128 lo = (i128) oracle::iroot((u128) a[0], 3);
    return a[1] >= lo && a[1] <= lo * (i128) oracle::iroot((u128) a[0], 6);
  }, -1, 1, "at least two threads", 120 });

static Reg k6({ "sched.phi", 1500, 15000,
  [](Rng& r) {
    i128 x = gen_x(r, 1000, 1999999);
    Args a = { x, r.chance(1, 2) ? (i128) r.below(600) : r.range(0, 60) };
    gen_schedule(r, a);
    a.back() = r.chance(1, 4) ? a.back() : pow10((int) r.range(7, 10));
    return a;
  },
  [](const Args& a, Ctx& c) {
    int64_t x = (int64_t) a[0], n = (int64_t) a[1];
    // phi(x, n) by its definition
    uint64_t e = 0;
    if (n == 0) e = (uint64_t) x;
    else
    {
      uint32_t p = 0; { int64_t k = n; for (p = 2; k > 0; p++) if (oracle::is_prime64(p) && --k == 0) break; }
      static std::vector<uint32_t> lpf;
      if (lpf.empty()) { lpf.assign(2000000, 0); for (uint32_t i = 2; i < 2000000; i++) if (!lpf[i]) for (uint32_t j = i; j < 2000000; j += i) if (!lpf[j]) lpf[j] = i; }
      for (int64_t i = 1; i <= x; i++) if (i == 1 || lpf[(size_t) i] > p) e++;
    }
    Schedule s(a, 2);
    int64_t v = phi(x, n, s.threads);
    PBT_REQUIRE(v == (int64_t) e, "phi(", x, ", ", n, ") = ", v, " instead of ", e, s.str());
    v = pi_legendre(x, s.threads);
    PBT_REQUIRE(v == (int64_t) oracle::tables().pi[(size_t) x], "pi_legendre(", x, ") = ", v, s.str());
    s.stats(c);
  },
  [](const Args& a) { return a.size() == 2 + SCHED && a[0] >= 1 && a[0] < 2000000 && a[1] >= 0 && a[1] < 5000 && ok_schedule(a, 2); },
  -1, 1, "at least two threads" });

// ------------------------------------------------------------------ S08
struct Capture
{
  std::ostringstream o;
  std::streambuf* old;
  std::ios state;
  Capture() : state(nullptr) { state.copyfmt(std::cout); old = std::cout.rdbuf(o.rdbuf()); }
  ~Capture() { std::cout.rdbuf(old); std::cout.copyfmt(state); }
};
struct Printing
{
  Printing(int precision) { set_print(true); set_status_precision(precision); }
  ~Printing() { set_print(false); set_print_variables(false); }
};

// checks everything that looks like a percentage; returns how many there were
static size_t check_status(const std::string& out, int decimals, const std::string& how)
{
  size_t n = 0;
  double last = -1;
  for (size_t i = 0; i < out.size(); i++)
  {
    if (out.compare(i, 4, "=== ") == 0 && (i == 0 || out[i - 1] == '\n' || out[i - 1] == '\r')) last = -1;
    if (out[i] != '%') continue;
    size_t b = i;
    while (b > 0 && !isspace((unsigned char) out[b - 1])) b--;
    std::string t = out.substr(b, i - b);
    PBT_REQUIRE(!t.empty() && t.find_first_not_of("0123456789.-+einfa") == std::string::npos, "odd status text ", json(out.substr(b, 20)), how);
    PBT_REQUIRE(t.find_first_not_of("0123456789.") == std::string::npos, "percentage ", t, " is not a number in [0, 100]", how);
    double v = atof(t.c_str());
    PBT_REQUIRE(v >= 0 && v <= 100, "percentage ", t, " is not in [0, 100]", how);
    PBT_REQUIRE(v >= last, "the percentage falls from ", last, " to ", t, how);
    size_t dot = t.find('.');
    size_t d = dot == std::string::npos ? 0 : t.size() - dot - 1;
    PBT_REQUIRE(t == "100" || (int) d == decimals, "percentage ", t, " has ", d, " decimals instead of ", decimals, how);
    last = v;
    n++;
  }
  return n;
}
// the value printed as "name = value"
static void check_value(const std::string& out, const char* name, const W& v, const std::string& how)
{
  std::string key = std::string(name) + " = ";
  size_t i = out.rfind("\n" + key);
  if (i == std::string::npos) i = out.rfind("\r" + key);
  PBT_REQUIRE(i != std::string::npos, "no line \"", key, "...\" was printed", how);
  i += 1 + key.size();
  std::string t = out.substr(i, out.find('\n', i) - i);
  PBT_REQUIRE(t == v.str(), "printed ", key, t, " but the result is ", v.str(), how);
}

static Reg k10({ "status.parts", 1200, 12000,
  [](Rng& r) {
    i128 x = gen_x(r, 1000, r.chance(1, 3) ? 10000000000LL : 20000000);
    int64_t lo = (int64_t) oracle::iroot((u128) x, 3), hi = lo * (int64_t) oracle::iroot((u128) x, 6);
    Args a = { x, r.logrange(lo, hi), r.range(0, 5), r.range(0, 1) };
    gen_schedule(r, a, 16);
    return a;
  },
  [](const Args& a, Ctx& c) {
    i128 x = a[0]; int64_t y = (int64_t) a[1]; int prec = (int) a[2];
    Split p = make_split(x, y);
    W v[5], w[5];
    {
      v[0] = defs::get(P2(x, y, 1)); v[1] = defs::get(S1(x, y, p.c, 1)); v[2] = defs::get(S2_trivial(x, y, p.z, p.c, 1));
      v[3] = defs::get(S2_easy(x, y, p.z, p.c, 1)); v[4] = defs::get(S2_hard(x, y, p.z, p.c, 1));
    }
    static const char* head[] = { "P2", "S1", "S2_trivial", "S2_easy", "S2_hard" };
    static const char* res[] = { "P2", "S1_sum", "S2_trivial", "S2_easy", "S2_hard" };
    Schedule s(a, 4);
    std::string how = cat(" (x = ", x, ", y = ", y, ", decimals = ", prec, ")") + s.str();
    size_t shown = 0;
    for (int k = 0; k < 5; k++)
    {
      Capture cap;
      {
        Printing pr(prec);
        set_print_variables(a[3] != 0);
        switch (k)
        {
          case 0: w[k] = defs::get(P2(x, y, s.threads)); break;
          case 1: w[k] = defs::get(S1(x, y, p.c, s.threads)); break;
          case 2: w[k] = defs::get(S2_trivial(x, y, p.z, p.c, s.threads)); break;
          case 3: w[k] = defs::get(s.threads % 2 ? S2_easy(x, y, p.z, p.c, s.threads) : S2_easy_variant(x, y, p.z, p.c, s.threads)); break;
          default: w[k] = defs::get(S2_hard(x, y, p.z, p.c, s.threads)); break;
        }
      }
      std::string out = cap.o.str();
      PBT_REQUIRE(w[k] == v[k], head[k], " = ", w[k].str(), " with progress output but ", v[k].str(), " without", how);
      shown += check_status(out, prec, cat(" in ", head[k], how));
      check_value(out, res[k], v[k], how);
      PBT_REQUIRE(out.find(cat("=== ", head[k], "(x, y) ===")) != std::string::npos, "no headline for ", head[k], how);
      PBT_REQUIRE(out.find("Seconds: ") != std::string::npos, "no run time was printed for ", head[k], how);
    }
    c.nontrivial(shown > 5);
    if (shown > 50) c.label("more than 50 percentages");
  },
  [](const Args& a) {
    if (a.size() != 4 + SCHED || a[0] < 2 || a[0] > 20000000000LL || a[2] < 0 || a[2] > 5 || a[3] < 0 || a[3] > 1 || !ok_schedule(a, 4)) return false;
    i128 lo = (i128) oracle::iroot((u128) a[0], 3);
    return a[1] >= lo && a[1] <= lo * (i128) oracle::iroot((u128) a[0], 6);
  }, -1, 1, "more percentages than the five final ones" });

static Reg k11({ "status.sum", 1200, 12000,
  [](Rng& r) {
    Args a = { gen_x(r, 100, r.chance(1, 3) ? 10000000000LL : 100000000), r.range(-1, 5), r.range(0, 3) };
    gen_schedule(r, a, 16);
    return a;
  },
  [](const Args& a, Ctx& c) {
    i128 x = a[0]; int prec = (int) a[1];
    W e(oracle::prime_sum(x)), v;
    Schedule s(a, 3);
    std::string how = cat(" (x = ", x, ", decimals = ", prec, ", algorithm ", a[2], ")") + s.str();
    Capture cap;
    {
      Printing pr(prec);
      switch ((int) a[2])
      {
        case 0: v = defs::get(pi_deleglise_rivat(x, s.threads)); break;
        case 1: v = defs::get(pi_lmo_parallel1(x, s.threads)); break;
        case 2: v = defs::get(pi_lmo5((int64_t) x)); break;
        default: v = defs::get(pi_deleglise_rivat_variant(x, s.threads)); break;
      }
    }
    PBT_REQUIRE(v == e, "prime sum = ", v.str(), " with progress output but ", e.str(), " without", how);
    size_t n = check_status(cap.o.str(), prec < 0 ? 0 : prec, how);
    c.nontrivial(n > 3);
    if (n > 20) c.label("more than 20 percentages");
  },
  [](const Args& a) { return a.size() == 3 + SCHED && a[0] >= 2 && a[0] < 20000000000LL && a[1] >= -1 && a[1] <= 5 && a[2] >= 0 && a[2] <= 3 && ok_schedule(a, 3); },
  -1, 1, "more than three percentages" });

// P2 prints while it sieves: needs a z of several times 2^23
static Reg k12({ "status.P2", 24, 300,
  [](Rng& r) {
    i128 x = gen_x(r, 100000000000LL, 10000000000000LL);
    int64_t lo = (int64_t) oracle::iroot((u128) x, 3);
    Args a = { x, r.logrange(lo, std::max<int64_t>(lo, (int64_t) (x / 20000000))), r.range(0, 5) };
    gen_schedule(r, a, 4);
    return a;
  },
  [](const Args& a, Ctx& c) {
    Schedule s(a, 3);
    std::string how = cat(" in P2 (x = ", a[0], ", y = ", a[1], ", decimals = ", a[2], ")") + s.str();
    W e = defs::get(P2(a[0], (int64_t) a[1], 1)), v;
    Capture cap;
    { Printing pr((int) a[2]); v = defs::get(P2(a[0], (int64_t) a[1], s.threads)); }
    PBT_REQUIRE(v == e, "P2 = ", v.str(), " with progress output but ", e.str(), " without", how);
    size_t n = check_status(cap.o.str(), (int) a[2], how);
    check_value(cap.o.str(), "P2", e, how);
    c.nontrivial(n > 2);
  },
  [](const Args& a) {
    if (a.size() != 3 + SCHED || a[0] < 1000 || a[0] > 20000000000000LL || a[2] < 0 || a[2] > 5 || !ok_schedule(a, 3)) return false;
    i128 lo = (i128) oracle::iroot((u128) a[0], 3);
    return a[1] >= lo && a[1] <= lo * (i128) oracle::iroot((u128) a[0], 6);
  }, -1, 1, "more than two percentages", 120 });

// histories of S2Status::print() calls: out of order and repeated progress
static Reg k13({ "status.history", 20000, 200000,
  [](Rng& r) {
    i128 limit = r.logrange(1, r.chance(1, 2) ? (i128) 1 << 100 : 100000);
    Args a = { r.chance(1, 2) ? pow10((int) r.range(1, 30)) : r.logrange(1, pow10(30)), limit, r.range(-1, 6) };
    gen_schedule(r, a, 1);
    int n = (int) r.range(1, 60);
    i128 at = 0;
    for (int i = 0; i < n; i++)
    {
      if (r.chance(1, 4)) at = r.range(0, limit);
      else at = std::min<i128>(limit, at + (i128) r.below((u128) limit / n + 2));
      a.push_back(r.chance(1, 20) ? limit : at);
    }
    return a;
  },
  [](const Args& a, Ctx& c) {
    Schedule s(a, 3);
    std::string how = cat(" (x = ", a[0], ", limit = ", a[1], ", precision = ", a[2], ", clock ", a[6], ")");
    Capture cap;
    size_t n;
    double last = -1;
    {
      Printing pr((int) a[2]);
      if (a[2] >= 0) PBT_REQUIRE(get_status_precision(a[0]) == std::min<int>(5, (int) a[2]), "get_status_precision() = ", get_status_precision(a[0]), how);
      S2Status st(a[0]);
      for (size_t i = 9; i < a.size(); i++)
      {
        st.print(a[i], a[1]);
        double p = S2Status::skewed_percent(a[i], a[1]);
        PBT_REQUIRE(p >= 0 && p <= 100, "skewed_percent(", a[i], ", ", a[1], ") = ", p, how);
        (void) last;
      }
      n = check_status(cap.o.str(), a[2] < 0 ? get_status_precision(a[0]) : std::min<int>(5, (int) a[2]), how);
    }
    c.nontrivial(n >= 2);
  },
  [](const Args& a) {
    if (a.size() < 10 || a[0] < 1 || a[1] < 1 || a[2] < -1 || a[2] > 10 || !ok_schedule(a, 3)) return false;
    for (size_t i = 9; i < a.size(); i++) if (a[i] < 0 || a[i] > a[1]) return false;
    return true;
  }, 9, 1, "at least two percentages" });

// percentages rise with the progress
static Reg k14({ "status.percent", 20000, 200000,
  [](Rng& r) {
    i128 limit = r.logrange(1, r.chance(1, 2) ? (i128) 1 << 100 : 100000);
    i128 p = r.range(0, limit);
    return Args{ limit, p, r.chance(1, 2) ? r.range(p, limit) : std::min(limit, p + 1) };
  },
  [](const Args& a, Ctx& c) {
    double p = S2Status::skewed_percent(a[1], a[0]), q = S2Status::skewed_percent(a[2], a[0]);
    PBT_REQUIRE(p >= 0 && p <= 100 && q >= 0 && q <= 100, "skewed_percent of ", a[1], " and ", a[2], " of ", a[0], " are ", p, " and ", q);
    PBT_REQUIRE(q >= p - 1e-9, "skewed_percent falls from ", p, " to ", q, " between ", a[1], " and ", a[2], " of ", a[0]);
    double e = get_percent((int128_t) a[1], (int128_t) a[0]);
    double f = 100.0 * ((double) a[1] / (double) a[0]);
    PBT_REQUIRE(fabs(e - f) < 1e-6 && e >= 0 && e <= 100, "get_percent(", a[1], ", ", a[0], ") = ", e, " instead of ", f);
    c.nontrivial(a[1] > 0 && a[2] > a[1]);
  },
  [](const Args& a) { return a[0] >= 1 && a[1] >= 0 && a[1] <= a[2] && a[2] <= a[0]; }, -1, 1, "0 < n1 < n2 <= limit" });

int main(int argc, char** argv) { return pbt::main(argc, argv); }
