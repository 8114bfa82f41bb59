// A03: the integer helpers of libprimesieve (pmath.hpp)
#include "pbt.hpp"
#include "oracle.hpp"
#include <primesieve/pmath.hpp>

namespace {

using namespace pbt;

u128 near_square(Rng& r, int bits)
{
  u128 lim = ((u128) 1 << bits) - 1;
  u128 root = oracle::isqrt(lim);
  u128 b = r.chance(1, 4) ? root - r.below(3) : (u128) r.logrange(1, (i128) root);
  if (r.chance(1, 4)) { b = (u128) 1 << r.below(bits / 2); }
  i128 v = (i128) (b * b) + (i128) r.below(5) - 2;
  if (v < 0) v = 0;
  if (v > (i128) lim) v = (i128) lim;
  return (u128) v;
}

template <typename T>
void check(int bits, u128 x)
{
  u128 s = oracle::isqrt(x);
  PBT_REQUIRE((u128) isqrt((T) x) == s, "primesieve isqrt(", str(x), ") = ", str((u128) isqrt((T) x)), " for ", bits, " bits");
  PBT_REQUIRE((u128) ctSqrt((T) x) == s, "primesieve ctSqrt(", str(x), ") = ", str((u128) ctSqrt((T) x)), " for ", bits, " bits");
  if (x >= 1)
  {
    u128 p = 1;
    int l = 0;
    while (p * 2 <= x) { p *= 2; l++; }
    PBT_REQUIRE((u128) floorPow2((T) x) == p, "floorPow2(", str(x), ") = ", str((u128) floorPow2((T) x)), " for ", bits, " bits");
    PBT_REQUIRE((int) ilog2((T) x) == l, "ilog2(", str(x), ") = ", (int) ilog2((T) x), " for ", bits, " bits");
    PBT_REQUIRE(isPow2((T) x) == (p == x), "isPow2(", str(x), ")");
  }
}

Kind k1()
{
  Kind k;
  k.name = "psmath.root";
  k.quick = 2000000; k.thorough = 60000000;
  k.rule = "x > 100";
  k.gen = [](Rng& r) {
    static const int bits[4] = { 31, 32, 63, 64 };
    int t = (int) r.below(4);
    u128 x = r.chance(1, 2) ? near_square(r, bits[t]) : r.bits(bits[t]);
    if (r.chance(1, 6)) x = (((u128) 1 << r.below(bits[t])) + r.below(3) - 1) & (((u128) 1 << bits[t]) - 1);
    return Args{ t, (i128) x };
  };
  k.valid = [](const Args& a) {
    static const int bits[4] = { 31, 32, 63, 64 };
    return a.size() == 2 && a[0] >= 0 && a[0] < 4 && a[1] >= 0 && (a[1] >> bits[(int) a[0]]) == 0;
  };
  k.run = [](const Args& a, Ctx& c) {
    c.nontrivial(a[1] > 100);
    switch ((int) a[0])
    {
      case 0: check<int32_t>(31, (u128) a[1]); break;
      case 1: check<uint32_t>(32, (u128) a[1]); break;
      case 2: check<int64_t>(63, (u128) a[1]); break;
      default: check<uint64_t>(64, (u128) a[1]); break;
    }
  };
  return k;
}
Reg r1(k1());

Kind k2()
{
  Kind k;
  k.name = "psmath.helpers";
  k.quick = 1000000; k.thorough = 20000000;
  k.rule = "both arguments > 3";
  k.gen = [](Rng& r) {
    Args a;
    for (int i = 0; i < 3; i++)
    {
      u128 v = r.bits(64);
      if (r.chance(1, 4)) v = ~0ull - r.below(4);
      a.push_back((i128) v);
    }
    if (r.chance(1, 5)) a[1] = (i128) (uint64_t) (~0ull - (uint64_t) a[0] + (uint64_t) r.below(3) - 1);
    if (r.chance(1, 5)) a[1] = (i128) (uint64_t) ((uint64_t) a[0] + (uint64_t) r.below(3) - 1);
    return a;
  };
  k.valid = [](const Args& a) {
    for (i128 v : a) if (v < 0 || v >> 64) return false;
    return a.size() == 3;
  };
  k.run = [](const Args& a, Ctx& c) {
    uint64_t x = (uint64_t) a[0], y = (uint64_t) a[1], z = (uint64_t) a[2];
    c.nontrivial(x > 3 && y > 3);
    u128 s = (u128) x + y;
    uint64_t want = s > ~0ull ? ~0ull : (uint64_t) s;
    PBT_REQUIRE(checkedAdd(x, y) == want, "checkedAdd(", x, ", ", y, ") = ", checkedAdd(x, y));
    want = x > y ? x - y : 0;
    PBT_REQUIRE(checkedSub(x, y) == want, "checkedSub(", x, ", ", y, ") = ", checkedSub(x, y));
    uint64_t lo = std::min(y, z), hi = std::max(y, z);
    want = x < lo ? lo : x > hi ? hi : x;
    PBT_REQUIRE(inBetween(lo, x, hi) == want, "inBetween(", lo, ", ", x, ", ", hi, ") = ", inBetween(lo, x, hi));
    if (y > 0 && (u128) x + y - 1 <= ~0ull)
    {
      u128 q = ((u128) x + y - 1) / y;
      PBT_REQUIRE(ceilDiv(x, y) == (uint64_t) q, "ceilDiv(", x, ", ", y, ") = ", ceilDiv(x, y));
    }
    // primeCountApprox(x) >= pi(x): used to reserve memory
    const oracle::Tables& t = oracle::tables();
    uint64_t v = x % t.limit;
    PBT_REQUIRE(primeCountApprox(v) >= t.pi[v], "primeCountApprox(", v, ") = ", (uint64_t) primeCountApprox(v), " < pi");
  };
  return k;
}
Reg r2(k2());

} // namespace

int main(int argc, char** argv) { return pbt::main(argc, argv); }
