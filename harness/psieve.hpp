// Shared by the harnesses of libprimesieve
#ifndef PSIEVE_HPP
#define PSIEVE_HPP
#include "pbt.hpp"
#include "oracle.hpp"

namespace ps {

using namespace pbt;
static const uint64_t MAX = ~0ull;
static const uint64_t LAST_PRIME = 18446744073709551557ull; // largest prime < 2^64

// ------------------------------------------------------------ generators
// the known maximal gaps between primes: p, distance to the next prime
inline const std::vector<std::pair<uint64_t, int>>& gaps()
{
  static const std::vector<std::pair<uint64_t, int>> g = {
    { 113ull, 14 }, { 523ull, 18 }, { 887ull, 20 }, { 1129ull, 22 }, { 1327ull, 34 }, { 9551ull, 36 }, { 15683ull, 44 }, {
    19609ull, 52 }, { 31397ull, 72 }, { 155921ull, 86 }, { 360653ull, 96 }, { 370261ull, 112 }, { 492113ull, 114 }, { 1349533ull,
    118 }, { 1357201ull, 132 }, { 2010733ull, 148 }, { 4652353ull, 154 }, { 17051707ull, 180 }, { 20831323ull, 210 }, {
    47326693ull, 220 }, { 122164747ull, 222 }, { 189695659ull, 234 }, { 191912783ull, 248 }, { 387096133ull, 250 }, {
    436273009ull, 282 }, { 1294268491ull, 288 }, { 1453168141ull, 292 }, { 2300942549ull, 320 }, { 3842610773ull, 336 }, {
    4302407359ull, 354 }, { 10726904659ull, 382 }, { 20678048297ull, 384 }, { 22367084959ull, 394 }, { 25056082087ull, 456 }, {
    42652618343ull, 464 }, { 127976334671ull, 468 }, { 182226896239ull, 474 }, { 241160624143ull, 486 }, { 297501075799ull, 490
    }, { 303371455241ull, 500 }, { 304599508537ull, 514 }, { 416608695821ull, 516 }, { 461690510011ull, 532 }, { 614487453523ull,
    534 }, { 738832927927ull, 540 }, { 1346294310749ull, 582 }, { 1408695493609ull, 588 }, { 1968188556461ull, 602 }, {
    2614941710599ull, 652 }, { 7177162611713ull, 674 }, { 13829048559701ull, 716 }, { 19581334192423ull, 766 }, {
    42842283925351ull, 778 }, { 90874329411493ull, 804 }, { 171231342420521ull, 806 }, { 218209405436543ull, 906 }, {
    1189459969825483ull, 916 }, { 1686994940955803ull, 924 }, { 1693182318746371ull, 1132 }, { 43841547845541059ull, 1184 }, {
    55350776431903243ull, 1198 }, { 80873624627234849ull, 1220 }, { 203986478517455989ull, 1224 }, { 218034721194214273ull, 1248
    }, { 305405826521087869ull, 1272 }, { 352521223451364323ull, 1328 }, { 401429925999153707ull, 1356 }, {
    418032645936712127ull, 1370 }, { 804212830686677669ull, 1442 }, { 1425172824437699411ull, 1476 }, { 5733241593241196731ull,
    1488 }, { 6787988999657777797ull, 1510 }, { 15570628755536096243ull, 1526 }, { 17678654157568189057ull, 1530 }, {
    18361375334787046697ull, 1550 } };
  return g;
}
// short intervals with unusually many primes
inline const std::vector<std::pair<uint64_t, int>>& clusters()
{
  static const std::vector<std::pair<uint64_t, int>> c = [] {
    std::vector<std::pair<uint64_t, int>> v = { { 33081664151ull, 32 }, { 1418575498567ull, 42 }, { 1418575498573ull, 36 }, { 10527733922579ull, 42 },
      { 186460616596321ull, 42 }, { 380284918609481ull, 36 }, { 7933248530182091ull, 48 }, { 21817283854511261ull, 50 }, { 1158722981124148367ull, 56 } };
    static const oracle::Tables t(3000000);
    // k primes within the smallest distances which occur
    for (size_t k = 6; k <= 14; k++)
    {
      std::vector<std::pair<int, uint64_t>> d;
      for (size_t i = 5; i + k <= t.primes.size(); i++) d.push_back({ (int) (t.primes[i + k - 1] - t.primes[i]), t.primes[i] });
      std::sort(d.begin(), d.end());
      for (size_t i = 0; i < 25; i++) v.push_back({ d[i].second, d[i].first });
      // the same among the larger numbers
      size_t n = 0;
      for (size_t i = 0; i < d.size() && n < 15; i++) if (d[i].second > 80000) { v.push_back({ d[i].second, d[i].first }); n++; }
    }
    return v; }();
  return c;
}
inline std::pair<uint64_t, uint64_t> gen_special(Rng& r, uint64_t lim)
{
  for (;;)
  {
    const auto& l = r.chance(1, 2) ? gaps() : clusters();
    const auto& e = l[(size_t) r.below(l.size())];
    uint64_t a = e.first, b = e.first + (uint64_t) e.second;
    if (b > lim) continue;
    if (r.chance(1, 2)) return { a, b };
    if (r.chance(1, 2)) return { a + 1, b - 1 };
    a += (uint64_t) r.below(7); b += (uint64_t) r.below(7);
    return { a - 3, std::max(a - 3, b - 3) };
  }
}

// log10 of the largest position limits the cost of a case:
// the sieve needs the primes up to the square root
inline uint64_t gen_pos(Rng& r, int maxbits)
{
  u128 lim = maxbits >= 64 ? (u128) MAX : ((u128) 1 << maxbits) - 1;
  auto clip = [&](i128 v) { return (uint64_t) (v < 0 ? 0 : (u128) v > lim ? lim : (u128) v); };
  if (maxbits > 10 && r.chance(1, 14))
  {
    auto e = gen_special(r, (uint64_t) lim);
    return r.chance(2, 3) ? e.first : e.second;
  }
  switch ((int) r.below(9))
  {
    case 0: return (uint64_t) r.below(60);
    case 1: return clip((i128) r.below(20000));
    case 2: return clip((i128) ((u128) 1 << r.below((u128) maxbits)) + r.range(-300, 300));
    case 3: { uint64_t p = oracle::prev_prime_le((uint64_t) r.bits(maxbits / 2)); return clip((i128) p * p + r.range(-60, 60)); }
    case 4: { i128 k = 30 * (i128) 1024 * (8 << r.below(6)); return clip(k * (i128) r.bits(std::max(1, maxbits - 18)) + r.range(-70, 70)); }
    case 5: { i128 t = 1; for (int i = (int) r.below(20); i > 0; i--) t *= 10; return clip(t + r.range(-200, 200)); }
    case 6: return clip((i128) r.bits(std::max(1, maxbits - 5)) * 30 + r.range(-8, 8));
    default: return clip((i128) r.bits(maxbits));
  }
}
inline int cost_bits(Rng& r, bool high = true)
{
  int k = (int) r.below(100);
  if (k < 45) return 34;
  if (k < 80) return 44;
  if (k < 96 || !high) return 50;
  if (k < 99) return 57;
  return 64;
}

// ------------------------------------------------------------ prime windows
inline const oracle::Tables& base() { static const oracle::Tables t(3200000); return t; }

inline std::vector<uint64_t> window(uint64_t a, uint64_t b)
{
  if (a < 2) a = 2;
  std::vector<uint64_t> r;
  if (a > b) return r;
  if (b < 3000000)
  {
    const oracle::Tables& t = base();
    for (size_t i = t.pi[(size_t) a - 1]; i < t.pi[(size_t) b]; i++) r.push_back(t.primes[i]);
    return r;
  }
  if (b < 10000000000000ull)
  {
    // exact segmented sieve
    const uint64_t SEG = 1 << 20;
    std::vector<char> comp;
    for (uint64_t lo = a; lo <= b; lo += SEG)
    {
      uint64_t hi = std::min(b, lo + SEG - 1);
      comp.assign((size_t) (hi - lo + 1), 0);
      for (uint64_t p : base().primes)
      {
        if (p * p > hi) break;
        uint64_t s = std::max(p * p, (lo + p - 1) / p * p);
        for (; s <= hi; s += p) comp[(size_t) (s - lo)] = 1;
      }
      for (uint64_t i = 0; i <= hi - lo; i++) if (!comp[(size_t) i]) r.push_back(lo + i);
    }
    return r;
  }
  return oracle::primes_between(a, b);
}

// k-tuplets: offsets of the patterns
inline const std::vector<std::vector<int>>& patterns(int k)
{
  static const std::vector<std::vector<int>> P[7] = { {}, { { 0 } }, { { 0, 2 } }, { { 0, 2, 6 }, { 0, 4, 6 } }, { { 0, 2, 6, 8 } },
    { { 0, 2, 6, 8, 12 }, { 0, 4, 6, 10, 12 } }, { { 0, 4, 6, 10, 12, 16 } } };
  return P[k];
}
inline bool match(const std::vector<uint64_t>& p, size_t i, const std::vector<int>& pat)
{
  if (i + pat.size() > p.size()) return false;
  for (size_t j = 0; j < pat.size(); j++) if (p[i + j] - p[i] != (uint64_t) pat[j]) return false;
  return true;
}
inline uint64_t count_k(const std::vector<uint64_t>& p, int k)
{
  uint64_t n = 0;
  for (size_t i = 0; i < p.size(); i++)
    for (auto& pat : patterns(k)) if (match(p, i, pat)) { n++; break; }
  return n;
}
inline std::string print_k(const std::vector<uint64_t>& p, int k)
{
  std::string s;
  for (size_t i = 0; i < p.size(); i++)
    for (auto& pat : patterns(k))
      if (match(p, i, pat))
      {
        if (k == 1) { s += str(p[i]) + "\n"; break; }
        s += "(";
        for (size_t j = 0; j < pat.size(); j++) s += (j ? ", " : "") + str(p[i + j]);
        s += ")\n";
        break;
      }
  return s;
}

// ------------------------------------------------------------ walking the primes
// the neighbours of a position; keeps a window of primes around it
struct Walker
{
  std::vector<uint64_t> w;
  uint64_t lo = 1, hi = 0;      // w = primes in [lo, hi]
  void load(uint64_t n, bool up)
  {
    uint64_t d = n < 3000000 ? 300000 : n < 10000000000000ull ? 200000 : 4000;
    if (up) { lo = n; hi = MAX - n < d ? MAX : n + d; }
    else { hi = n; lo = n < d ? 0 : n - d; }
    w = window(lo, hi);
  }
  // smallest prime > n, MAX if none
  uint64_t next(uint64_t n)
  {
    if (n >= LAST_PRIME) return MAX;
    n++;
    for (;;)
    {
      if (n < lo || n > hi) load(n, true);
      auto i = std::lower_bound(w.begin(), w.end(), n);
      if (i != w.end()) return *i;
      n = hi + 1;
    }
  }
  // largest prime < n, 0 if none
  uint64_t prev(uint64_t n)
  {
    if (n <= 2) return 0;
    n--;
    for (;;)
    {
      if (n < lo || n > hi) load(n, false);
      auto i = std::upper_bound(w.begin(), w.end(), n);
      if (i != w.begin()) return *--i;
      if (lo <= 2) return 0;
      n = lo - 1;
    }
  }
};

} // namespace ps
#endif
