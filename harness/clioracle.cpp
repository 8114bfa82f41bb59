// Answers what the command line programs have to print. Reads requests from
// stdin: "sum x", "part NAME x alpha" (alpha < 1: automatic) or
// "wide NAME x alpha" (x > 2^63, by a pass over a bitmap), one per line.
// The formulas are evaluated from their definitions (defs.hpp); only the
// automatic tuning factor is taken from /repo.
#include "psum.hpp"
using namespace primesum;

namespace {

// the odd primes up to n as a bitmap
struct Bitmap
{
  std::vector<uint64_t> b;
  uint64_t n;
  explicit Bitmap(uint64_t n_) : b(n_ / 128 + 1, ~0ull), n(n_)
  {
    std::vector<uint64_t> ps = oracle::primes_between(3, (uint64_t) oracle::isqrt(n) + 1), next;
    for (uint64_t p : ps) next.push_back(p * p / 2);
    const uint64_t seg = 1 << 20;
    for (uint64_t lo = 0; lo < b.size() * 64; lo += seg)
    {
      uint64_t hi = std::min<uint64_t>(lo + seg, b.size() * 64);
      for (size_t i = 0; i < ps.size(); i++)
      {
        uint64_t j = next[i];
        for (; j < hi; j += ps[i]) b[j / 64] &= ~(1ull << j % 64);
        next[i] = j;
      }
    }
    b[0] &= ~1ull;
  }
  bool prime(uint64_t v) const { return v == 2 || ((v & 1) && (b[v / 128] >> (v / 2 % 64) & 1)); }
  // the largest prime <= v, 0 if there is none
  uint64_t prev(uint64_t v) const { for (; v >= 2; v--) if (prime(v)) return v; return 0; }
};

// sum of the numbers in [1, v] coprime to the first c primes, by periodicity
struct PhiSum
{
  uint64_t m = 1;
  std::vector<uint64_t> cnt, sum;
  explicit PhiSum(int c)
  {
    static const uint64_t p[] = { 2, 3, 5, 7, 11, 13, 17, 19 };
    if (c > 8) throw std::runtime_error("c > 8");
    for (int i = 0; i < c; i++) m *= p[i];
    std::vector<char> no(m + 1, 0);
    for (int i = 0; i < c; i++) for (uint64_t j = p[i]; j <= m; j += p[i]) no[j] = 1;
    cnt.assign(m + 1, 0);
    sum.assign(m + 1, 0);
    for (uint64_t i = 1; i <= m; i++) { cnt[i] = cnt[i - 1] + !no[i]; sum[i] = sum[i - 1] + (no[i] ? 0 : i); }
  }
  W operator()(u128 v) const
  {
    u128 q = v / m;
    uint64_t r = (uint64_t) (v % m);
    W s = q > 0 ? defs::tri(q - 1) * W((u128) m * cnt[m]) : W();
    return s + W::mul(q, sum[m]) + W::mul(q, (u128) m * cnt[r]) + W(sum[r]);
  }
};

W wide(const std::string& name, u128 x, int64_t y, int64_t z, int c)
{
  W r;
  if (name == "P2")
  {
    // p descending from sqrt(x), psum(x / p) by one pass upwards
    uint64_t s = (uint64_t) oracle::isqrt(x);
    if ((uint64_t) y >= s) return r;
    Bitmap b((uint64_t) z + 1);
    u128 below_y = 0, sum = 0;   // sums of the primes < p, <= v
    uint64_t v = 1;
    auto advance = [&](uint64_t to) { for (v++; v <= to; v++) if (b.prime(v)) sum += v; v = to; };
    advance(s);
    below_y = sum;
    for (uint64_t p = b.prev(s); p > (uint64_t) y; p = b.prev(p - 1))
    {
      below_y -= p;
      advance((uint64_t) (x / p));
      r += W::mul(p, sum - below_y);
    }
    return r;
  }
  if (name == "S1")
  {
    PhiSum phi(c);
    const oracle::Tables& t = oracle::tables((uint32_t) y + 1);
    uint64_t pc = t.nth((uint64_t) c);
    for (int64_t n = 1; n <= y; n++)
    {
      if (t.mu[(size_t) n] == 0 || (n > 1 && t.lpf[(size_t) n] <= pc)) continue;
      W v = phi(x / (u128) n) * W((u128) n);
      if (t.mu[(size_t) n] > 0) r += v; else r -= v;
    }
    return r;
  }
  uint64_t lowest = std::max<uint64_t>((uint64_t) oracle::isqrt((u128) y), oracle::tables(100).nth((uint64_t) c));
  if (name == "S2_trivial")
  {
    // p descending from y, q in (max(p, x / p^2), y]
    Bitmap b((uint64_t) y + 1);
    u128 sum = 0;      // of the primes in (v, y]
    uint64_t v = (uint64_t) y;
    for (uint64_t p = b.prev((uint64_t) y); p > lowest; p = b.prev(p - 1))
    {
      u128 q = std::max<u128>(p, x / ((u128) p * p));
      if (q >= (u128) y) { if (q > p) break; continue; }
      // q first decreases with p and then increases
      for (; v > q; v--) if (b.prime(v)) sum += v;
      for (; v < q; v++) if (b.prime(v + 1)) sum -= v + 1;
      r += W::mul(p, sum);
    }
    return r;
  }
  if (name == "S2_easy")
  {
    const oracle::Tables& t = oracle::tables((uint32_t) y + 1);
    for (uint64_t p : t.primes)
    {
      if (p <= lowest) continue;
      if (p > (uint64_t) y) break;
      u128 xpp = x / ((u128) p * p);
      uint64_t hi = (uint64_t) std::min<u128>(xpp, (u128) y), lo = std::max<uint64_t>(p, (uint64_t) z / p);
      for (size_t l = lo < (uint64_t) y ? t.pi[lo] : t.primes.size(); l < t.primes.size() && t.primes[l] <= hi; l++)
      {
        u128 n = (u128) p * t.primes[l];
        uint64_t v = (uint64_t) (x / n);
        r += W((u128) 1 + t.psum[v] - t.psum[(size_t) p - 1]) * W(n);
      }
    }
    return r;
  }
  throw std::runtime_error("unknown part " + name);
}

} // namespace

int main()
{
  std::string line;
  while (std::getline(std::cin, line))
  {
    std::istringstream is(line);
    std::string cmd, name, xs;
    is >> cmd;
    if (cmd == "sum")
    {
      is >> xs;
      i128 x = pbt::parse(xs);
      if (x < 2) { std::cout << "0\n" << std::flush; continue; }
      oracle::Lucy lu((uint64_t) x);
      std::cout << W(lu.hi[1]).str() << "\n" << std::flush;
      continue;
    }
    double alpha;
    is >> name >> xs >> alpha;
    i128 x = pbt::parse(xs);
    if (x < 1) { std::cout << "0\n" << std::flush; continue; }
    if (alpha < 1) { set_alpha(-1); alpha = get_alpha_deleglise_rivat(x); }
    alpha = std::max(1.0, std::min(alpha, (double) oracle::iroot((u128) x, 6)));
    int64_t y = (int64_t) ((double) oracle::iroot((u128) x, 3) * alpha);
    Split s = make_split(x, y);
    W r;
    if (cmd == "wide") r = wide(name, (u128) x, y, s.z, (int) s.c);
    else if (name == "P2") { oracle::Lucy lu((uint64_t) x); r = defs::P2((uint64_t) x, y, lu); }
    else if (name == "S1") r = defs::S1((u128) x, y, (int) s.c);
    else
    {
      defs::S2Leaves l = defs::S2((u128) x, y, s.z, (int) s.c);
      r = name == "S2_trivial" ? l.trivial : name == "S2_easy" ? l.easy : l.hard;
    }
    std::cout << r.str() << "\n" << std::flush;
  }
}
