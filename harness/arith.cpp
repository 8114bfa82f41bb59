// A01 (256-bit arithmetic), A02 (decimal printing), A03 (roots, divisions and
// helpers of primesum). Oracle: Boost.Multiprecision cpp_int and binary search.
#include "pbt.hpp"
#include "oracle.hpp"

#include <int128_t.hpp>
#include <int256_t.hpp>
#include <imath.hpp>
#include <isqrt.hpp>
#include <fast_div.hpp>
#include <min_max.hpp>
#include <primesum.hpp>
#include <primesum-internal.hpp>

#include <boost/multiprecision/cpp_int.hpp>
#include <iomanip>

using namespace pbt;
typedef boost::multiprecision::cpp_int Z;
using primesum::int256_t;
typedef primesum::int128_t s128;
typedef primesum::uint128_t us128;

namespace {

const Z TWO64 = Z(1) << 64, TWO128 = Z(1) << 128, TWO255 = Z(1) << 255, TWO256 = Z(1) << 256;

Z zu(u128 v) { return (Z((uint64_t) (v >> 64)) << 64) + Z((uint64_t) v); }
Z zs(i128 v) { return v < 0 ? Z(-zu((u128) 0 - (u128) v)) : zu((u128) v); }
// to [-2^255, 2^255)
Z wrap(Z v)
{
  v %= TWO256;
  if (v < 0) v += TWO256;
  if (v >= TWO255) v -= TWO256;
  return v;
}
bool fits(const Z& v) { return v >= -TWO255 && v < TWO255; }
Z zpair(i128 hi, i128 lo) { return zs(hi) * TWO128 + zu((u128) lo); }
int256_t mk(i128 hi, i128 lo)
{
  return (int256_t((us128) hi) << 128) | int256_t((us128) lo);
}
Z get(const int256_t& v)
{
  us128 lo = (us128) v;
  us128 hi = (us128) (v >> 128);
  return wrap(zu(hi) * TWO128 + zu(lo));
}
std::string zstr(const Z& z) { return z.str(); }
u128 zlow(const Z& v0)
{
  Z v = v0 % TWO128;
  if (v < 0) v += TWO128;
  return ((u128) (uint64_t) (v >> 64) << 64) | (uint64_t) (v & (TWO64 - 1));
}
void split(const Z& v, Args& a)
{
  u128 lo = zlow(v);
  Z h = (wrap(v) - zu(lo)) / TWO128;
  a.push_back((i128) zlow(h));
  a.push_back((i128) lo);
}

// ---------------------------------------------------------------- generators
// numbers with special structure: 0, +-1, powers of 2 and 10 and 2^a +- 2^b,
// small numbers, random numbers of every bit length, either sign
Z gen_z(Rng& r)
{
  Z v;
  switch ((int) r.below(9))
  {
    case 0: v = (int) r.below(4); break;
    case 1: v = Z(1) << (int) r.below(256); break;
    case 2: v = (Z(1) << (int) r.below(256)) - 1; break;
    case 3: v = (Z(1) << (int) r.below(256)) + ((Z(1) << (int) r.below(130)) * (r.chance(1, 2) ? 1 : -1)); break;
    case 4: v = zu(r.bits(64)); break;
    case 5: v = zu(r.bits(128)); break;
    case 6: v = (zu(r.bits(127)) << 128) + zu(r.bits(128)); break;
    case 7: { v = 1; int n = (int) r.below(77); for (int i = 0; i < n; i++) v *= 10; v += (int) r.below(5); v -= 2; break; }
    default:
    {
      // 64-bit words which are mostly 0 or all ones
      v = 0;
      for (int i = 0; i < 4; i++)
      {
        Z w = r.chance(1, 3) ? Z(0) : r.chance(1, 2) ? Z(TWO64 - 1) : zu(r.bits(64));
        v = (v << 64) + w;
      }
    }
  }
  if (r.chance(2, 5)) v = -v;
  return wrap(v);
}
// numbers which fit 128 bits, as i128
i128 gen_128(Rng& r)
{
  switch ((int) r.below(6))
  {
    case 0: return (i128) r.below(4) - 1;
    case 1: { u128 v = (u128) 1 << r.below(128); return (i128) (v + r.below(3) - 1); }
    case 2: return (i128) r.bits(64) * (r.chance(1, 3) ? -1 : 1);
    case 3: return (i128) r.next128();
    case 4: { u128 v = 1; int n = (int) r.below(39); for (int i = 0; i < n; i++) v *= 10; return (i128) (v + r.below(5) - 2); }
    default: return (i128) r.bits(127) * (r.chance(1, 3) ? -1 : 1);
  }
}

const char* OPS[] = { "+", "-", "*", "/", "%", "&", "|", "^", "~", "neg", "++", "--", "<<", ">>", "cmp", "+x", "*x", "/x", "%x", "-x", "cmpx", "bits" };
const int NOPS = 22;

Z zand(const Z& a, const Z& b, int op)
{
  // two's complement bit operations on 256 bits
  Z x = a < 0 ? Z(a + TWO256) : a, y = b < 0 ? Z(b + TWO256) : b;
  return wrap(op == 0 ? Z(x & y) : op == 1 ? Z(x | y) : Z(x ^ y));
}

template <typename T> Z ztype(T v) { return v < 0 ? Z(-zu((u128) 0 - (u128) (i128) v)) : zu((u128) v); }

#define EQ(name, got, want) PBT_REQUIRE((got) == (want), name, ": a = ", zstr(za), ", b = ", zstr(zb), ": got ", zstr(got), ", expected ", zstr(want))

template <typename T>
void mixed_cmp(const int256_t& a, const Z& za, T b)
{
  Z zb = ztype(b);
  bool got[6] = { a == b, a != b, a < b, a <= b, a > b, a >= b };
  bool want[6] = { za == zb, za != zb, za < zb, za <= zb, za > zb, za >= zb };
  for (int i = 0; i < 6; i++)
    PBT_REQUIRE(got[i] == want[i], "comparison ", i, " with a builtin integer: a = ", zstr(za), ", b = ", zstr(zb));
}

template <typename T>
void mixed(int op, int256_t a, const Z& za, T b)
{
  Z zb = ztype(b);
  if (op == 15) { EQ("a + builtin", get(a + b), wrap(za + zb)); a += b; EQ("a += builtin", get(a), wrap(za + zb)); }
  if (op == 16) { EQ("a * builtin", get(a * b), wrap(za * zb)); a *= b; EQ("a *= builtin", get(a), wrap(za * zb)); }
  if (op == 17 && zb != 0 && fits(za / zb)) { EQ("a / builtin", get(a / b), Z(za / zb)); a /= b; EQ("a /= builtin", get(a), Z(za / zb)); }
  if (op == 18 && zb != 0 && fits(za / zb)) { EQ("a % builtin", get(a % b), Z(za % zb)); a %= b; EQ("a %= builtin", get(a), Z(za % zb)); }
  if (op == 19) { EQ("a - builtin", get(a - b), wrap(za - zb)); a -= b; EQ("a -= builtin", get(a), wrap(za - zb)); }
  if (op == 20) mixed_cmp(a, za, b);
  if (op == 21)
  {
    EQ("a & builtin", get(a & b), zand(za, zb, 0));
    EQ("a | builtin", get(a | b), zand(za, zb, 1));
    EQ("a ^ builtin", get(a ^ b), zand(za, zb, 2));
  }
}

// applies an operation, checks it, returns the result
Z apply(int op, const int256_t& a, const Z& za, const int256_t& b, const Z& zb, i128 k)
{
  switch (op)
  {
    case 0: { int256_t c = a; c += b; EQ("a += b", get(c), get(a + b)); EQ("a + b", get(a + b), wrap(za + zb)); return wrap(za + zb); }
    case 1: { int256_t c = a; c -= b; EQ("a -= b", get(c), get(a - b)); EQ("a - b", get(a - b), wrap(za - zb)); return wrap(za - zb); }
    case 2: { int256_t c = a; c *= b; EQ("a *= b", get(c), get(a * b)); EQ("a * b", get(a * b), wrap(za * zb)); return wrap(za * zb); }
    case 3:
    {
      if (zb == 0 || !fits(za / zb)) return za;
      int256_t c = a; c /= b;
      EQ("a / b", get(a / b), Z(za / zb)); EQ("a /= b", get(c), Z(za / zb));
      return za / zb;
    }
    case 4:
    {
      if (zb == 0 || !fits(za / zb)) return za;
      int256_t c = a; c %= b;
      EQ("a % b", get(a % b), Z(za % zb)); EQ("a %= b", get(c), Z(za % zb));
      EQ("(a / b) * b + a % b", get((a / b) * b + a % b), za);
      return za % zb;
    }
    case 5: { int256_t c = a; c &= b; EQ("a & b", get(a & b), zand(za, zb, 0)); EQ("a &= b", get(c), zand(za, zb, 0)); return zand(za, zb, 0); }
    case 6: { int256_t c = a; c |= b; EQ("a | b", get(a | b), zand(za, zb, 1)); EQ("a |= b", get(c), zand(za, zb, 1)); return zand(za, zb, 1); }
    case 7: { int256_t c = a; c ^= b; EQ("a ^ b", get(a ^ b), zand(za, zb, 2)); EQ("a ^= b", get(c), zand(za, zb, 2)); return zand(za, zb, 2); }
    case 8: EQ("~a", get(~a), Z(-za - 1)); return -za - 1;
    case 9: EQ("-a", get(-a), wrap(-za)); EQ("+a", get(+a), za); return wrap(-za);
    case 10:
    {
      int256_t c = a, d = a;
      EQ("++a", get(++c), wrap(za + 1)); EQ("a after ++a", get(c), wrap(za + 1));
      EQ("a++", get(d++), za); EQ("a after a++", get(d), wrap(za + 1));
      return wrap(za + 1);
    }
    case 11:
    {
      int256_t c = a, d = a;
      EQ("--a", get(--c), wrap(za - 1)); EQ("a after --a", get(c), wrap(za - 1));
      EQ("a--", get(d--), za); EQ("a after a--", get(d), wrap(za - 1));
      return wrap(za - 1);
    }
    case 12:
    {
      if (za < 0) return za;
      Z w = wrap(za << (unsigned) k);
      int256_t c = a; c <<= (size_t) k;
      EQ(cat("a << ", k), get(a << (size_t) k), w); EQ(cat("a << (int) ", k), get(a << (int) k), w); EQ(cat("a <<= ", k), get(c), w);
      return w;
    }
    case 13:
    {
      if (za < 0) return za;
      Z w = za >> (unsigned) k;
      int256_t c = a; c >>= (size_t) k;
      EQ(cat("a >> ", k), get(a >> (size_t) k), w); EQ(cat("a >> (int) ", k), get(a >> (int) k), w); EQ(cat("a >>= ", k), get(c), w);
      return w;
    }
    case 14:
    {
      bool got[6] = { a == b, a != b, a < b, a <= b, a > b, a >= b };
      bool want[6] = { za == zb, za != zb, za < zb, za <= zb, za > zb, za >= zb };
      for (int i = 0; i < 6; i++)
        PBT_REQUIRE(got[i] == want[i], "comparison ", i, ": a = ", zstr(za), ", b = ", zstr(zb));
      return zb;
    }
    default:
    {
      i128 v = (i128) zlow(zb);
      switch ((int) k % 10)
      {
        case 0: mixed(op, a, za, (int8_t) v); break;
        case 1: mixed(op, a, za, (int16_t) v); break;
        case 2: mixed(op, a, za, (int32_t) v); break;
        case 3: mixed(op, a, za, (int64_t) v); break;
        case 4: mixed(op, a, za, (s128) v); break;
        case 5: mixed(op, a, za, (uint8_t) v); break;
        case 6: mixed(op, a, za, (uint16_t) v); break;
        case 7: mixed(op, a, za, (uint32_t) v); break;
        case 8: mixed(op, a, za, (uint64_t) v); break;
        default: mixed(op, a, za, (us128) v); break;
      }
      return zb;
    }
  }
}

Kind a256()
{
  Kind k;
  k.name = "a256.op";
  k.quick = 2000000; k.thorough = 60000000;
  k.rule = "both operands non-zero and at least one outside [-2^127, 2^127)";
  k.gen = [](Rng& r) {
    Args a;
    int op = (int) r.below(NOPS);
    a.push_back(op);
    Z x = gen_z(r), y = gen_z(r);
    if ((op == 3 || op == 4 || op == 2) && r.chance(1, 2))
    {
      // divisions next to an exact multiple; products close to 2^255
      y = wrap(y >> (int) r.below(256));
      if (y == 0) y = 1;
      Z q = gen_z(r) >> (int) r.below(256);
      Z p = q * y + ((int) r.below(3) - 1);
      if (op == 2) x = q; else if (fits(p)) x = p;
    }
    if ((op == 14 || op == 20) && r.chance(1, 2)) x = wrap(y + ((int) r.below(3) - 1) * (r.chance(1, 2) ? Z(1) : TWO128));
    split(x, a);
    split(y, a);
    a.push_back((i128) (r.chance(1, 3) ? r.pick(std::vector<int>{ 0, 1, 63, 64, 65, 127, 128, 129, 191, 192, 254, 255 }) : (int) r.below(256)));
    return a;
  };
  k.valid = [](const Args& a) { return a.size() == 6 && a[0] >= 0 && a[0] < NOPS && a[5] >= 0 && a[5] < 256; };
  k.run = [](const Args& a, Ctx& c) {
    Z x = zpair(a[1], a[2]), y = zpair(a[3], a[4]);
    int256_t u = mk(a[1], a[2]), v = mk(a[3], a[4]);
    { Z za = x, zb = y; EQ("construction", get(u), x); EQ("construction", get(v), y); }
    c.label(OPS[(int) a[0]]);
    c.nontrivial(x != 0 && y != 0 && ((a[1] != 0 && a[1] != -1) || (a[3] != 0 && a[3] != -1)));
    apply((int) a[0], u, x, v, y, a[5]);
  };
  return k;
}
Reg r1(a256());

// a history of operations on one accumulator
Kind a256seq()
{
  Kind k;
  k.name = "a256.history";
  k.quick = 40000; k.thorough = 1200000;
  k.seq_head = 2; k.seq_unit = 4;
  k.rule = "at least 3 operations";
  k.gen = [](Rng& r) {
    Args a;
    split(gen_z(r), a);
    int n = 1 + (int) r.below(30);
    for (int i = 0; i < n; i++)
    {
      a.push_back((i128) r.below(15));
      split(r.chance(1, 2) ? gen_z(r) : zs(gen_128(r)), a);
      a.push_back((i128) r.below(256));
    }
    return a;
  };
  k.valid = [](const Args& a) {
    if (a.size() < 2 || (a.size() - 2) % 4) return false;
    for (size_t i = 2; i < a.size(); i += 4) if (a[i] < 0 || a[i] > 14 || a[i + 3] < 0 || a[i + 3] > 255) return false;
    return true;
  };
  k.run = [](const Args& a, Ctx& c) {
    Z x = zpair(a[0], a[1]);
    int256_t u = mk(a[0], a[1]);
    c.nontrivial(a.size() >= 14);
    for (size_t i = 2; i + 3 < a.size(); i += 4)
    {
      Z y = zpair(a[i + 1], a[i + 2]);
      int256_t v = mk(a[i + 1], a[i + 2]);
      int op = (int) a[i];
      Z w = apply(op, u, x, v, y, a[i + 3]);
      // the accumulator follows through the real operators
      switch (op)
      {
        case 0: u += v; break;
        case 1: u -= v; break;
        case 2: u *= v; break;
        case 3: if (y != 0 && fits(x / y)) u /= v; break;
        case 4: if (y != 0 && fits(x / y)) u %= v; break;
        case 5: u &= v; break;
        case 6: u |= v; break;
        case 7: u ^= v; break;
        case 8: u = ~u; break;
        case 9: u = -u; break;
        case 10: ++u; break;
        case 11: --u; break;
        case 12: if (x >= 0) u <<= (size_t) a[i + 3]; break;
        case 13: if (x >= 0) u >>= (size_t) a[i + 3]; break;
        default: u = v; break;
      }
      x = w;
      PBT_REQUIRE(get(u) == x, "after step ", (i128) (i - 2) / 4, ": got ", zstr(get(u)), " expected ", zstr(x));
    }
  };
  return k;
}
Reg r2(a256seq());

template <typename T>
void conv(i128 raw, const char* t)
{
  T v = (T) raw;
  int256_t a(v);
  Z z = ztype(v);
  PBT_REQUIRE(get(a) == z, "int256_t(", t, " ", zstr(z), ") = ", zstr(get(a)));
  T w = (T) a;
  PBT_REQUIRE(w == v, "(", t, ") int256_t(", zstr(z), ") = ", zstr(ztype(w)));
  int256_t b;
  b = v;
  PBT_REQUIRE(get(b) == z, "int256_t = ", t, " ", zstr(z), " gives ", zstr(get(b)));
}

Kind a256conv()
{
  Kind k;
  k.name = "a256.convert";
  k.quick = 200000; k.thorough = 4000000;
  k.rule = "value neither 0 nor 1";
  k.gen = [](Rng& r) {
    Args a;
    static const int bits[10] = { 8, 16, 32, 64, 128, 8, 16, 32, 64, 128 };
    int t = (int) r.below(10);
    a.push_back(t);
    i128 v = gen_128(r);
    if (r.chance(2, 3) && bits[t] < 128)
    {
      // around the limits of the type
      i128 top = (i128) 1 << (bits[t] - (t < 5 ? 1 : 0));
      v = r.chance(1, 2) ? top - 1 - (i128) r.below(4) : (t < 5 ? -top + (i128) r.below(4) : (i128) r.below(4));
    }
    a.push_back(v);
    return a;
  };
  k.valid = [](const Args& a) { return a.size() == 2 && a[0] >= 0 && a[0] < 10; };
  k.run = [](const Args& a, Ctx& c) {
    static const char* n[10] = { "int8", "int16", "int32", "int64", "int128", "uint8", "uint16", "uint32", "uint64", "uint128" };
    int t = (int) a[0];
    c.label(n[t]);
    c.nontrivial(a[1] != 0 && a[1] != 1);
    switch (t)
    {
      case 0: conv<int8_t>(a[1], n[t]); break;
      case 1: conv<int16_t>(a[1], n[t]); break;
      case 2: conv<int32_t>(a[1], n[t]); break;
      case 3: conv<int64_t>(a[1], n[t]); break;
      case 4: conv<s128>(a[1], n[t]); break;
      case 5: conv<uint8_t>(a[1], n[t]); break;
      case 6: conv<uint16_t>(a[1], n[t]); break;
      case 7: conv<uint32_t>(a[1], n[t]); break;
      case 8: conv<uint64_t>(a[1], n[t]); break;
      default: conv<us128>(a[1], n[t]); break;
    }
  };
  return k;
}
Reg r3(a256conv());

// ---------------------------------------------------------------- A02
using primesum::operator<<;

template <typename T> std::string out(const T& v) { std::ostringstream o; o << v; return o.str(); }

Kind print256()
{
  Kind k;
  k.name = "print.256";
  k.quick = 600000; k.thorough = 30000000;
  k.rule = "more than 39 digits or negative";
  k.gen = [](Rng& r) {
    Args a;
    Z v = gen_z(r);
    if (r.chance(1, 3))
    {
      // digits with long runs of 0 and 9
      v = 0;
      int n = 1 + (int) r.below(76);
      for (int i = 0; i < n; i++) v = v * 10 + (r.chance(1, 2) ? 0 : r.chance(1, 2) ? 9 : (int) r.below(10));
      if (r.chance(1, 2)) v = -v;
      v = wrap(v);
    }
    split(v, a);
    return a;
  };
  k.valid = [](const Args& a) { return a.size() == 2; };
  k.run = [](const Args& a, Ctx& c) {
    Z z = zpair(a[0], a[1]);
    std::string want = z.str(), got = out(mk(a[0], a[1]));
    c.nontrivial(want.size() > 39);
    PBT_REQUIRE(got == want, "printed ", got, " instead of ", want);
    std::ostringstream o;
    o << "x" << mk(a[0], a[1]) << "y" << mk(a[0], a[1]) << std::endl;
    PBT_REQUIRE(o.str() == "x" + want + "y" + want + "\n", "chained output: ", o.str());
  };
  return k;
}
Reg r4(print256());

Kind print128()
{
  Kind k;
  k.name = "print.128";
  k.quick = 2000000; k.thorough = 60000000;
  k.rule = "more than 19 digits or negative";
  k.gen = [](Rng& r) { return Args{ gen_128(r) }; };
  k.valid = [](const Args& a) { return a.size() == 1; };
  k.run = [](const Args& a, Ctx& c) {
    std::string w1 = zs(a[0]).str(), w2 = zu((u128) a[0]).str();
    std::string g1 = out((s128) a[0]), g2 = out((us128) a[0]);
    c.nontrivial(w1.size() > 19 || a[0] < 0);
    PBT_REQUIRE(g1 == w1, "int128 printed ", g1, " instead of ", w1);
    PBT_REQUIRE(g2 == w2, "uint128 printed ", g2, " instead of ", w2);
    std::string g3 = out(int256_t((s128) a[0]));
    PBT_REQUIRE(g3 == w1, "int256 printed ", g3, " instead of ", w1);
  };
  return k;
}
Reg r5(print128());

// the library function taking and returning strings
Kind strapi()
{
  Kind k;
  k.name = "print.api";
  k.quick = 6000; k.thorough = 100000;
  k.rule = "x >= 2";
  k.gen = [](Rng& r) { return Args{ (i128) r.logrange(0, 2000000) - (r.chance(1, 10) ? 50 : 0), (i128) r.below(3) }; };
  k.valid = [](const Args& a) { return a.size() == 2 && a[0] <= 2000000 && a[1] >= 0 && a[1] < 3; };
  k.run = [](const Args& a, Ctx& c) {
    c.nontrivial(a[0] >= 2);
    std::string x = str(a[0]);
    if (a[1] == 1) x = " (" + x + " ) ";
    if (a[1] == 2) x = x + "*1+0";
    std::string got = primesum::pi(x), want = str(oracle::prime_sum(a[0]));
    PBT_REQUIRE(got == want, "pi(\"", x, "\") = \"", got, "\", expected \"", want, "\"");
    got = primesum::pi(x, 1);
    PBT_REQUIRE(got == want, "pi(\"", x, "\", 1) = \"", got, "\", expected \"", want, "\"");
  };
  return k;
}
Reg r6(strapi());

// ---------------------------------------------------------------- A03
// values next to r^n, with r chosen at all scales
u128 near_power(Rng& r, int n, int maxbits)
{
  u128 lim = maxbits >= 128 ? ~(u128) 0 : ((u128) 1 << maxbits) - 1;
  u128 root = oracle::iroot(lim, n);
  u128 b = r.chance(1, 4) ? root - r.below(3) : (u128) r.logrange(1, (i128) root);
  if (r.chance(1, 4)) { b = (u128) 1 << r.below(128 / n); if (b > root) b = root; }
  u128 v = 1;
  for (int i = 0; i < n; i++) v *= b;
  int d = (int) r.below(5) - 2;
  if (d < 0 && v < (u128) -d) return v;
  if (d > 0 && lim - v < (u128) d) return v;
  return v + (u128) (i128) d;
}
u128 gen_u(Rng& r, int maxbits)
{
  u128 lim = maxbits >= 128 ? ~(u128) 0 : ((u128) 1 << maxbits) - 1;
  switch ((int) r.below(5))
  {
    case 0: return lim - std::min(lim, (u128) r.below(4));
    case 1: return r.below(10);
    case 2: return near_power(r, 2, maxbits);
    default: return r.bits(maxbits);
  }
}

template <typename T>
void root_check(int n, u128 xx, const char* t)
{
  T x = (T) xx;
  u128 want = n == 2 ? oracle::isqrt(xx) : oracle::iroot(xx, n);
  u128 got = 0;
  switch (n)
  {
    case 2: got = (u128) primesum::iroot<2>(x); break;
    case 3: got = (u128) primesum::iroot<3>(x); break;
    case 4: got = (u128) primesum::iroot<4>(x); break;
    case 5: got = (u128) primesum::iroot<5>(x); break;
    default: got = (u128) primesum::iroot<6>(x); break;
  }
  PBT_REQUIRE(got == want, "iroot<", n, ">(", t, " ", str(xx), ") = ", str(got), ", expected ", str(want));
  if (n == 2)
  {
    got = (u128) primesum::isqrt(x);
    PBT_REQUIRE(got == want, "isqrt(", t, " ", str(xx), ") = ", str(got), ", expected ", str(want));
  }
}


Kind roots()
{
  Kind k;
  k.name = "math.root";
  k.quick = 3000000; k.thorough = 100000000;
  k.rule = "x within 2 of a perfect n-th power, x > 100";
  k.gen = [](Rng& r) {
    static const int bits[6] = { 31, 32, 63, 64, 127, 128 };
    int t = (int) r.below(6);
    int n = r.chance(1, 2) ? 2 : 2 + (int) r.below(5);
    // iroot computes powers of root + 1 in the type of x
    if (n != 2 && t % 2) t--;
    u128 x = r.chance(2, 3) ? near_power(r, n, bits[t]) : gen_u(r, bits[t]);
    return Args{ t, n, (i128) x };
  };
  k.valid = [](const Args& a) {
    static const int bits[6] = { 31, 32, 63, 64, 127, 128 };
    if (a.size() != 3 || a[0] < 0 || a[0] > 5 || a[1] < 2 || a[1] > 6) return false;
    if (a[1] != 2 && a[0] % 2) return false;
    return bits[(int) a[0]] == 128 || ((u128) a[2] >> bits[(int) a[0]]) == 0;
  };
  k.run = [](const Args& a, Ctx& c) {
    int n = (int) a[1];
    u128 x = (u128) a[2];
    c.label(cat("n=", n));
    if (x > 100)
    {
      u128 lo = oracle::iroot(x - 2, n), hi = x > ~(u128) 0 - 2 ? oracle::iroot(x, n) : oracle::iroot(x + 2, n);
      u128 b = oracle::iroot(x, n), p = 1;
      for (int i = 0; i < n; i++) p *= b;
      c.nontrivial(lo != hi || x - p <= 2);
    }
    switch ((int) a[0])
    {
      case 0: root_check<int32_t>(n, x, "int32"); break;
      case 1: root_check<uint32_t>(2, x, "uint32"); break;
      case 2: root_check<int64_t>(n, x, "int64"); break;
      case 3: root_check<uint64_t>(2, x, "uint64"); break;
      case 4: root_check<s128>(n, x, "int128"); break;
      default:
      {
        u128 got = (u128) primesum::isqrt((us128) x), want = oracle::isqrt(x);
        PBT_REQUIRE(got == want, "isqrt(uint128 ", str(x), ") = ", str(got), ", expected ", str(want));
      }
    }
  };
  return k;
}
Reg r7(roots());

template <typename X, typename Y>
void div_check(u128 xx, u128 yy)
{
  X x = (X) xx;
  Y y = (Y) yy;
  if (y == 0) return;
  X got = primesum::fast_div(x, y);
  PBT_REQUIRE((u128) got == xx / yy, "fast_div(", str(xx), ", ", str(yy), ") = ", str((u128) got), ", sizes ", sizeof(X), "/", sizeof(Y));
}

Kind divs()
{
  Kind k;
  k.name = "math.fast_div";
  k.quick = 2000000; k.thorough = 60000000;
  k.rule = "dividend > 2^32 and divisor > 1";
  k.gen = [](Rng& r) {
    static const int xb[12] = { 128, 128, 128, 127, 127, 127, 63, 63, 64, 64, 31, 128 };
    static const int yb[12] = { 64, 32, 63, 63, 31, 32, 31, 32, 32, 63, 31, 31 };
    int t = (int) r.below(12);
    u128 y = r.chance(1, 4) ? gen_u(r, yb[t]) : r.bits(yb[t]);
    if (y == 0) y = 1;
    u128 x = r.bits(xb[t]);
    if (r.chance(1, 3))
    {
      // around the limits at which the type of the division changes
      u128 l = (u128) 1 << r.pick(std::vector<int>{ 31, 32, 63, 64 });
      x = l + r.below(4) - 2;
    }
    else if (r.chance(1, 3)) { x = x / y * y; x += r.below(3) - 1; }
    if (xb[t] < 128) x &= ((u128) 1 << xb[t]) - 1;
    return Args{ t, (i128) x, (i128) y };
  };
  k.valid = [](const Args& a) {
    static const int xb[12] = { 128, 128, 128, 127, 127, 127, 63, 63, 64, 64, 31, 128 };
    static const int yb[12] = { 64, 32, 63, 63, 31, 32, 31, 32, 32, 63, 31, 31 };
    if (a.size() != 3 || a[0] < 0 || a[0] > 11 || a[2] <= 0) return false;
    return (xb[(int) a[0]] == 128 || ((u128) a[1] >> xb[(int) a[0]]) == 0) && ((u128) a[2] >> yb[(int) a[0]]) == 0;
  };
  k.run = [](const Args& a, Ctx& c) {
    u128 x = (u128) a[1], y = (u128) a[2];
    c.label(cat("types ", (int) a[0]));
    c.nontrivial(x >> 32 && y > 1);
    switch ((int) a[0])
    {
      case 0: div_check<us128, uint64_t>(x, y); break;
      case 1: div_check<us128, uint32_t>(x, y); break;
      case 2: div_check<us128, int64_t>(x, y); break;
      case 3: div_check<s128, int64_t>(x, y); break;
      case 4: div_check<s128, int32_t>(x, y); break;
      case 5: div_check<s128, uint32_t>(x, y); break;
      case 6: div_check<int64_t, int32_t>(x, y); break;
      case 7: div_check<int64_t, uint32_t>(x, y); break;
      case 8: div_check<uint64_t, uint32_t>(x, y); break;
      case 9: div_check<uint64_t, uint64_t>(x, y); break;
      case 10: div_check<int32_t, int32_t>(x, y); break;
      default: div_check<us128, int32_t>(x, y); break;
    }
  };
  return k;
}
Reg r8(divs());

template <typename T>
T npow2(T x) { T p = 1; while (p < x) p *= 2; return p; }

Kind helpers()
{
  Kind k;
  k.name = "math.helpers";
  k.quick = 2000000; k.thorough = 40000000;
  k.rule = "first argument > 3";
  k.gen = [](Rng& r) {
    Args a;
    a.push_back((i128) r.below(7));
    for (int i = 0; i < 3; i++)
    {
      i128 v = (i128) gen_u(r, (int) r.range(1, 62));
      if (r.chance(1, 4)) v = ((i128) 1 << r.below(62)) + (i128) r.below(3) - 1;
      a.push_back(v);
    }
    return a;
  };
  k.valid = [](const Args& a) {
    if (a.size() != 4 || a[0] < 0 || a[0] > 6) return false;
    for (int i = 1; i < 4; i++) if (a[i] < 0 || a[i] >> 62) return false;
    return true;
  };
  k.run = [](const Args& a, Ctx& c) {
    using namespace primesum;
    int64_t x = (int64_t) a[1], y = (int64_t) a[2], z = (int64_t) a[3];
    c.nontrivial(x > 3);
    c.label(cat("f", (int) a[0]));
    switch ((int) a[0])
    {
      case 0: // ceil_div
        if (y > 0)
        {
          int64_t q = ceil_div(x, y);
          PBT_REQUIRE((i128) q * y >= x && ((i128) q - 1) * y < x, "ceil_div(", x, ", ", y, ") = ", q);
          uint64_t u = ceil_div((uint64_t) x, y);
          PBT_REQUIRE((i128) u == q, "ceil_div((uint64) ", x, ", ", y, ") = ", u);
        }
        break;
      case 1: // powers of two
      {
        int64_t p = next_power_of_2(x), w = npow2<int64_t>(x);
        PBT_REQUIRE(p == w, "next_power_of_2(", x, ") = ", p);
        uint64_t pu = next_power_of_2((uint64_t) x);
        PBT_REQUIRE((int64_t) pu == w, "next_power_of_2((uint64) ", x, ") = ", pu);
        if (x >= 1)
        {
          int64_t f = w == x ? w : w / 2;
          PBT_REQUIRE(prev_power_of_2(x) == f, "prev_power_of_2(", x, ") = ", prev_power_of_2(x));
          PBT_REQUIRE(prev_power_of_2((uint64_t) x) == (uint64_t) f, "prev_power_of_2((uint64) ", x, ")");
        }
        int32_t i = (int32_t) (x & 0x3fffffff);
        PBT_REQUIRE(next_power_of_2(i) == npow2<int32_t>(i), "next_power_of_2((int32) ", i, ") = ", next_power_of_2(i));
        break;
      }
      case 2: // ipow, isquare
      {
        i128 b = x % 2000;
        int n = (int) (y % 11);
        i128 w = 1;
        for (int i = 0; i < n; i++) w *= b;
        PBT_REQUIRE(ipow((s128) b, n) == w, "ipow(", b, ", ", n, ") = ", str(ipow((s128) b, n)));
        int64_t q = x & 0x7fffffff;
        PBT_REQUIRE((i128) isquare(q) == (i128) q * q, "isquare(", q, ")");
        break;
      }
      case 3: // in_between
      {
        int64_t lo = std::min(y, z), hi = std::max(y, z);
        for (int64_t v : { x, -x })
        {
          int64_t w = v < lo ? lo : v > hi ? hi : v;
          PBT_REQUIRE(in_between(lo, v, hi) == w, "in_between(", lo, ", ", v, ", ", hi, ") = ", in_between(lo, v, hi));
        }
        double d = (double) x / 7, l = 1;
        double w = d < l ? l : d > (double) hi ? (double) hi : d;
        PBT_REQUIRE(in_between(1, d, (s128) hi) == w, "in_between(1, ", d, ", ", hi, ")");
        break;
      }
      case 4: // min, max
      {
        s128 b = (s128) x * y;
        PBT_REQUIRE(primesum::min(b, z) == (b < z ? (int64_t) b : z), "min(", str((i128) b), ", ", z, ")");
        PBT_REQUIRE(primesum::max(b, z) == (b > z ? b : (s128) z), "max(", str((i128) b), ", ", z, ")");
        PBT_REQUIRE(primesum::min(x, y, z) == std::min(x, std::min(y, z)), "min(", x, ", ", y, ", ", z, ")");
        PBT_REQUIRE(primesum::max(x, y, z) == std::max(x, std::max(y, z)), "max(", x, ", ", y, ", ", z, ")");
        PBT_REQUIRE(primesum::min((us128) b, x, y) == (int64_t) std::min<i128>((i128) b, std::min(x, y)), "min(uint128 ", str((i128) b), ", ", x, ", ", y, ")");
        PBT_REQUIRE(primesum::max((us128) b, x, y) == (us128) std::max<i128>((i128) b, std::max(x, y)), "max(uint128 ", str((i128) b), ", ", x, ", ", y, ")");
        break;
      }
      case 5: // pi_bsearch
      {
        static std::vector<int32_t> p32;
        static std::vector<int64_t> p64;
        const oracle::Tables& t = oracle::tables();
        if (p32.empty())
        {
          p32.push_back(0); p64.push_back(0);
          for (uint32_t p : t.primes) { p32.push_back((int32_t) p); p64.push_back(p); }
        }
        int64_t v = x % (int64_t) t.primes.back();
        PBT_REQUIRE(pi_bsearch(p32, v) == (int64_t) t.pi[v], "pi_bsearch(", v, ") = ", pi_bsearch(p32, v));
        PBT_REQUIRE(pi_bsearch(p64, v) == (int64_t) t.pi[v], "pi_bsearch(", v, ") = ", pi_bsearch(p64, v));
        break;
      }
      default: // get_percent, ideal_num_threads
      {
        double p = get_percent((s128) x, (s128) y);
        PBT_REQUIRE(p >= 0 && p <= 100, "get_percent(", x, ", ", y, ") = ", p);
        PBT_REQUIRE(std::fabs(get_percent((s128) y, (s128) y) - (y ? 100 : 0)) < 1e-6, "get_percent(", y, ", ", y, ") = ", get_percent((s128) y, (s128) y));
        int th = 1 + (int) (z % 64);
        int n = ideal_num_threads(th, x, y);
        PBT_REQUIRE(n >= 1 && n <= th, "ideal_num_threads(", th, ", ", x, ", ", y, ") = ", n);
      }
    }
  };
  return k;
}
Reg r9(helpers());

} // namespace

int main(int argc, char** argv) { return pbt::main(argc, argv); }
