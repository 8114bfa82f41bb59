// E01: integer expressions, both copies of calculator.hpp
#include "pbt.hpp"
#define calculator calculator_sum
#include <calculator.hpp>
#undef calculator
#undef CALCULATOR_HPP
#include <primesieve/calculator.hpp>

using namespace pbt;

// ------------------------------------------------------------ values
// an exact value, or: it does not fit the type, or: division by zero
enum St { OK, OUT, ZERO };
struct V { St st; i128 v; };
struct Type { const char* name; i128 lo, hi; int bits; bool sgn; };
static const i128 I128MAX = (i128) (~(u128) 0 >> 1), I128MIN = -I128MAX - 1;
static const Type TYPES[] = {
  { "int", INT32_MIN, INT32_MAX, 32, true }, { "int64_t", INT64_MIN, INT64_MAX, 64, true },
  { "uint64_t", 0, (i128) UINT64_MAX, 64, false }, { "int128_t", I128MIN, I128MAX, 128, true },
  { "uint32_t", 0, UINT32_MAX, 32, false } };
static const int NTYPES = 5;

static V fit(const Type& t, i128 v) { return v < t.lo || v > t.hi ? V{ OUT, 0 } : V{ OK, v }; }
static V mul(const Type& t, i128 a, i128 b) { i128 r; return __builtin_mul_overflow(a, b, &r) ? V{ OUT, 0 } : fit(t, r); }
static V power(const Type& t, i128 b, i128 e)
{
  if (e < 0) return V{ OUT, 0 };
  if (e == 0) return V{ OK, 1 };
  if (b == 0 || b == 1) return V{ OK, b };
  if (b == -1) return V{ OK, e % 2 ? -1 : 1 };
  if (e > 130) return V{ OUT, 0 };
  V r{ OK, 1 };
  for (i128 i = 0; i < e; i++) { r = mul(t, r.v, b); if (r.st != OK) return r; }
  return r;
}
static V apply(const Type& t, const std::string& op, V a, V b)
{
  // what does not fit wins: then nothing is known
  if (a.st == OUT || b.st == OUT) return V{ OUT, 0 };
  if (a.st == ZERO || b.st == ZERO) return V{ ZERO, 0 };
  i128 r;
  if (op == "|") return fit(t, a.v | b.v);
  if (op == "&") return fit(t, a.v & b.v);
  if (op == "<<")
  {
    if (b.v < 0 || b.v >= t.bits || a.v < 0) return V{ OUT, 0 };
    if (a.v > (t.hi >> (int) b.v)) return V{ OUT, 0 };
    return fit(t, a.v << (int) b.v);
  }
  if (op == ">>") return b.v < 0 || b.v >= t.bits ? V{ OUT, 0 } : V{ OK, a.v >> (int) b.v };
  if (op == "+") return __builtin_add_overflow(a.v, b.v, &r) ? V{ OUT, 0 } : fit(t, r);
  if (op == "-") return __builtin_sub_overflow(a.v, b.v, &r) ? V{ OUT, 0 } : fit(t, r);
  if (op == "*") return mul(t, a.v, b.v);
  if (op == "/" || op == "%")
  {
    if (b.v == 0) return V{ ZERO, 0 };
    if (a.v == t.lo && t.sgn && b.v == -1) return V{ OUT, 0 };
    return fit(t, op == "/" ? a.v / b.v : a.v % b.v);
  }
  if (op == "^" || op == "**") return power(t, a.v, b.v);
  if (op == "e" || op == "E")
  {
    V p = power(t, 10, b.v);
    return p.st == OK ? mul(t, a.v, p.v) : p;
  }
  abort();
}
static V unary(const Type& t, char op, V a)
{
  if (a.st != OK) return a;
  if (op == '+') return a;
  if (op == '-') return a.v == I128MIN ? V{ OUT, 0 } : fit(t, -a.v);
  return fit(t, -1 - a.v);
}
static int prec(const std::string& op)
{
  switch (op[0])
  {
    case '|': return 4; case '&': return 6; case '<': case '>': return 9; case '+': case '-': return 10;
    case '*': return op.size() == 2 ? 30 : 20; case '/': case '%': return 20; case '^': return 30; default: return 40;
  }
}
static bool right_assoc(const std::string& op) { return prec(op) >= 30; }

// ------------------------------------------------------------ syntax trees
// made from a list of choices; an exhausted list gives 0s
struct Choices
{
  const Args& a; size_t i;
  u128 operator()(u128 n) { if (i >= a.size() || n == 0) return 0; u128 v = (u128) (a[i++] < 0 ? -a[i - 1] : a[i - 1]); return v % n; }
};
struct Node
{
  std::string op;               // "" number, "u-" ..., "(" parentheses, binary
  std::string text;             // number
  std::vector<Node> kid;
  V v;
};
static std::string hexstr(u128 v, bool upper) { std::string s; do { s += (upper ? "0123456789ABCDEF" : "0123456789abcdef")[(int) (v & 15)]; v >>= 4; } while (v); std::reverse(s.begin(), s.end()); return s; }
static Node number(const Type& t, Choices& c)
{
  Node n;
  i128 v;
  switch ((int) c(6))
  {
    case 0: v = (i128) c(10); break;
    case 1: v = (i128) c(100); break;
    case 2: v = (i128) c(100000); break;
    case 3: v = (i128) ((u128) 1 << (int) c((u128) (t.sgn ? t.bits - 1 : t.bits))); break;
    case 4: v = t.hi - (i128) c(3); break;
    default: { u128 w = c((u128) 1 << 100); w = w * 0x9E3779B97F4A7C15ull + w; int s = (int) c((u128) t.bits); v = (i128) ((w & (u128) t.hi) >> s); break; }
  }
  if (v < 0 || v > t.hi) v = t.hi;
  switch ((int) c(5))
  {
    case 0: n.text = "0x" + hexstr((u128) v, false); break;
    case 1: n.text = "0X" + hexstr((u128) v, true); break;
    case 2: n.text = std::string((size_t) c(3), '0') + str(v); break;
    default: n.text = str(v);
  }
  n.v = V{ OK, v };
  return n;
}
static Node tree(const Type& t, Choices& c, int depth)
{
  int k = depth <= 0 ? 0 : (int) c(8);
  if (k <= 1) return number(t, c);
  if (k == 2)
  {
    Node n, m = tree(t, c, depth - 1);
    static const char U[] = "-+~";
    n.op = std::string("u") + U[c(3)];
    n.v = unary(t, n.op[1], m.v);
    if (n.v.st == OUT) return m;
    n.kid.push_back(m);
    return n;
  }
  Node a = tree(t, c, depth - 1), b;
  static const char* const OPS[] = { "+", "*", "-", "/", "%", "|", "&", "<<", ">>", "^", "**", "e", "E" };
  Node n;
  n.op = OPS[c(13)];
  // exponents and shift counts have to be small
  if (prec(n.op) >= 30 || n.op == "<<" || n.op == ">>")
  {
    if (c(4) != 0)
    {
      b.v = V{ OK, (i128) c((u128) (n.op[0] == 'e' || n.op[0] == 'E' ? 1 + t.bits / 4 : t.bits)) };
      if (prec(n.op) == 30 && a.v.st == OK && (a.v.v > 16 || a.v.v < -16)) b.v.v %= 6;
      b.text = str(b.v.v);
    }
    else b = tree(t, c, depth - 2);
  }
  else b = tree(t, c, depth - 1);
  n.v = apply(t, n.op, a.v, b.v);
  if (n.v.st == ZERO && a.v.st == OK && b.v.st == OK && c(4)) { n.op = "|"; n.v = apply(t, n.op, a.v, b.v); }
  if (n.v.st == OUT) { n.op = c(2) ? "&" : "|"; n.v = apply(t, n.op, a.v, b.v); }
  n.kid.push_back(a); n.kid.push_back(b);
  return n;
}
static std::string space(Choices& c)
{
  if (c(5)) return "";
  static const char S[] = " \t\n\v\f\r";
  std::string s;
  for (int i = 1 + (int) c(3); i > 0; i--) s += S[c(3) ? 0 : (int) c(6)];
  return s;
}
static bool ends_in_hex(const std::string& s)
{
  size_t i = s.size();
  while (i > 0 && isxdigit((unsigned char) s[i - 1])) i--;
  return i > 0 && (s[i - 1] == 'x' || s[i - 1] == 'X');
}
static std::string render(const Node& n, Choices& c)
{
  if (c(12) == 1)
  {
    Node m = n;
    std::string s = space(c) + "(" + render(m, c) + space(c) + ")";
    return s;
  }
  if (n.kid.empty()) return space(c) + n.text;
  if (n.kid.size() == 1)
  {
    std::string k = render(n.kid[0], c);
    // unary operators bind tightest
    if (n.kid[0].kid.size() == 2) { if (!(k.find_first_not_of(" \t\n\v\f\r") != std::string::npos && false)) k = "(" + k + ")"; }
    return space(c) + n.op.substr(1) + k;
  }
  int p = prec(n.op);
  bool ra = right_assoc(n.op);
  auto side = [&](const Node& k, bool left) {
    std::string s = render(k, c);
    if (k.kid.size() == 2)
    {
      int q = prec(k.op);
      if (q < p || (q == p && left == ra)) s = space(c) + "(" + s + ")";
    }
    return s;
  };
  std::string l = side(n.kid[0], true), r = side(n.kid[1], false);
  std::string sp = space(c);
  if (sp.empty() && (n.op == "e" || n.op == "E") && ends_in_hex(l)) sp = " ";
  return l + sp + n.op + r;
}

// ------------------------------------------------------------ reference parser (precedence climbing)
struct Syntax { };
struct Ref
{
  const Type& t; const std::string& s; size_t i; bool out = false;
  Ref(const Type& t_, const std::string& s_) : t(t_), s(s_), i(0) { }
  V note(V v) { if (v.st == OUT) out = true; return v; }
  void skip() { while (i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) i++; }
  static int hexd(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
  V value()
  {
    skip();
    if (i >= s.size()) throw Syntax();
    char c = s[i];
    if (c == '-' || c == '+' || c == '~') { i++; return note(unary(t, c, value())); }
    if (c == '(')
    {
      i++;
      V v = expr(0);
      skip();
      if (i >= s.size() || s[i] != ')') throw Syntax();
      i++;
      return v;
    }
    if (c < '0' || c > '9') throw Syntax();
    V v{ OK, 0 };
    int base = 10;
    if (c == '0' && i + 2 < s.size() && (s[i + 1] == 'x' || s[i + 1] == 'X') && hexd(s[i + 2]) < 16) { base = 16; i += 2; }
    for (; i < s.size() && hexd(s[i]) < base; i++)
    {
      if (v.st == OK) v = mul(t, v.v, base);
      if (v.st == OK) { i128 r; if (__builtin_add_overflow(v.v, (i128) hexd(s[i]), &r)) v.st = OUT; else v = fit(t, r); }
    }
    return note(v);
  }
  std::string peek()
  {
    skip();
    if (i >= s.size()) return "";
    char c = s[i];
    if (c == '<' || c == '>') { if (i + 1 < s.size() && s[i + 1] == c) return std::string(2, c); throw Syntax(); }
    if (c == '*' && i + 1 < s.size() && s[i + 1] == '*') return "**";
    if (c != 0 && strchr("|&+-*/%^eE", c)) return std::string(1, c);
    return "";
  }
  V expr(int min)
  {
    V v = value();
    for (;;)
    {
      std::string op = peek();
      if (op.empty() || prec(op) < min) return v;
      i += op.size();
      V w = expr(prec(op) + (right_assoc(op) ? 0 : 1));
      v = note(apply(t, op, v, w));
    }
  }
  // OK, OUT: unknown, ZERO: must be rejected
  V eval()
  {
    V v;
    try { v = expr(0); skip(); if (i < s.size()) throw Syntax(); }
    catch (Syntax&) { return out ? V{ OUT, 0 } : V{ ZERO, 0 }; }
    return out ? V{ OUT, 0 } : v;
  }
};

// ------------------------------------------------------------ the programs' parsers
struct Res { bool ok; i128 v; std::string err; };
template <typename T> static Res call_sum(const std::string& s)
{
  try { return Res{ true, (i128) calculator_sum::eval<T>(s), "" }; } catch (const calculator_sum::error& e) { return Res{ false, 0, e.what() }; }
}
template <typename T> static Res call_sieve(const std::string& s)
{
  try { return Res{ true, (i128) calculator::eval<T>(s), "" }; } catch (const calculator::error& e) { return Res{ false, 0, e.what() }; }
}
static Res call(int copy, int t, const std::string& s)
{
  switch (t)
  {
    case 0: return copy ? call_sieve<int>(s) : call_sum<int>(s);
    case 1: return copy ? call_sieve<int64_t>(s) : call_sum<int64_t>(s);
    case 2: return copy ? call_sieve<uint64_t>(s) : call_sum<uint64_t>(s);
    case 3: return copy ? call_sieve<__int128>(s) : call_sum<__int128>(s);
    default: return copy ? call_sieve<uint32_t>(s) : call_sum<uint32_t>(s);
  }
}
static void compare(int t, const std::string& s, V e)
{
  for (int copy = 0; copy < 2; copy++)
  {
    Res r = call(copy, t, s);
    const char* w = copy ? "lib/primesieve's" : "primesum's";
    if (e.st == OK)
    {
      PBT_REQUIRE(r.ok, w, " calculator::eval<", TYPES[t].name, ">(\"", s, "\") fails: ", r.err, ", but it is ", e.v);
      PBT_REQUIRE(r.v == e.v, w, " calculator::eval<", TYPES[t].name, ">(\"", s, "\") = ", r.v, " but it is ", e.v);
    }
    else PBT_REQUIRE(!r.ok, w, " calculator::eval<", TYPES[t].name, ">(\"", s, "\") = ", r.v, " but the expression is invalid");
    if (!r.ok) PBT_REQUIRE(!r.err.empty(), "no error message for \"", s, "\"");
  }
}

static Reg t1({ "calc.tree", 1500000, 60000000,
  [](Rng& r) {
    Args a{ (i128) r.below(NTYPES), (i128) (r.chance(1, 3) ? 1 : 2 + r.below(5)) };
    for (int n = 10 + (int) r.below(150); n > 0; n--) a.push_back(r.chance(1, 6) ? (i128) r.bits(100) : (i128) r.below(64));
    return a; },
  [](const Args& a, Ctx& c) {
    const Type& t = TYPES[(int) a[0]];
    Choices ch{ a, 2 };
    Node n = tree(t, ch, (int) a[1]);
    std::string s = render(n, ch);
    V ref = Ref(t, s).eval();
    if (ref.st != n.v.st || (ref.st == OK && ref.v != n.v.v)) throw std::runtime_error("harness: the reference parser disagrees: " + s);
    compare((int) a[0], s, n.v);
    c.nontrivial(!n.kid.empty());
    c.label(n.v.st == OK ? "value" : "division by zero");
    if (n.v.st == OK && (n.v.v > INT32_MAX || n.v.v < INT32_MIN)) c.label("large value");
  }, [](const Args& a) { return a.size() >= 2 && a[0] >= 0 && a[0] < NTYPES && a[1] >= 0 && a[1] < 8; }, 2, 1, "the expression contains an operator" });

// arbitrary texts: expressions which have been edited, and random ones
static std::string text_of(const Args& a) { std::string s; for (size_t i = 1; i < a.size(); i++) s += (char) (int) a[i]; return s; }
static Reg t2({ "calc.text", 1500000, 50000000,
  [](Rng& r) {
    static const std::string AL = "0123456789abcdefxXeE+-*/%^~|&<>() \t";
    auto ch = [&]() -> char { return r.chance(1, 40) ? (char) r.next() : AL[(size_t) r.below(AL.size())]; };
    int ty = (int) r.below(NTYPES);
    std::string s;
    if (r.chance(2, 3))
    {
      Args q;
      for (int n = 10 + (int) r.below(60); n > 0; n--) q.push_back(r.chance(1, 8) ? (i128) r.bits(100) : (i128) r.below(64));
      Choices c{ q, 0 };
      Node n = tree(TYPES[ty], c, 1 + (int) r.below(4));
      s = render(n, c);
      if (s.size() > 300) s.resize(300);
      for (int k = (int) r.below(4); k > 0 && !s.empty(); k--)
      {
        size_t i = (size_t) r.below(s.size());
        switch ((int) r.below(6))
        {
          case 0: s.erase(i, 1); break;
          case 1: s.insert(i, 1, ch()); break;
          case 2: s[i] = ch(); break;
          case 3: s.erase(i); break;
          case 4: { size_t j = (size_t) r.below(s.size()); std::swap(s[i], s[j]); break; }
          default: s.insert((size_t) r.below(s.size()), s.substr(i, (size_t) r.below(6))); break;
        }
      }
    }
    else
    {
      // small numbers and operators in any order
      static const char* const TOK[] = { "1", "2", "3", "0", "10", "7", "0x", "0x1f", "0XA", "+", "-", "*", "/", "%", "^", "**", "e", "E", "<<", ">>", "<", ">", "&", "|", "~", "(", ")", " ", "1e2", "()", "!" };
      for (int k = (int) r.below(9); k > 0; k--) s += TOK[r.below(31)];
    }
    Args a{ (i128) ty };
    for (char x : s) a.push_back((i128) x);
    return a; },
  [](const Args& a, Ctx& c) {
    int t = (int) a[0];
    std::string s = text_of(a);
    V e = Ref(TYPES[t], s).eval();
    if (e.st == OUT) { c.label("does not fit the type"); return; }
    compare(t, s, e);
    c.label(e.st == OK ? "valid" : "invalid");
    c.nontrivial(s.size() > 2);
  }, [](const Args& a) {
    if (a.empty() || a[0] < 0 || a[0] >= NTYPES) return false;
    for (size_t i = 1; i < a.size(); i++) if (a[i] < -128 || a[i] > 127) return false;
    return true; }, 1, 1, "more than two characters, all values fit the type" });

// deep nesting, long chains
static Reg t3({ "calc.long", 300, 3000,
  [](Rng& r) { return Args{ (i128) r.below(NTYPES), (i128) r.below(6), r.logrange(100, 20000), (i128) r.below(4) }; },
  [](const Args& a, Ctx& c) {
    int t = (int) a[0];
    size_t n = (size_t) a[2];
    std::string s;
    switch ((int) a[1])
    {
      case 0: n %= 4000; s = std::string(n, '(') + "7" + std::string(n, ')'); break;
      case 1: for (size_t i = 0; i < n; i++) s += i ? "+1" : "1"; break;
      case 2: n %= 4000; s = std::string(n, '+') + "5"; break;
      case 3: for (size_t i = 0; i < n % 2000; i++) s += "1^"; s += "1"; break;
      case 4: s = std::string(n, ' ') + "4" + std::string(n, ' '); break;
      default: s = std::string(n, '0') + "42"; break;
    }
    switch ((int) a[3])
    {
      case 0: s += ")"; break;
      case 1: s = "(" + s; break;
      default: break;
    }
    V e = Ref(TYPES[t], s).eval();
    if (e.st == OUT) return;
    compare(t, s, e);
    c.nontrivial();
  }, [](const Args& a) { return a[0] >= 0 && a[0] < NTYPES && a[1] >= 0 && a[1] < 6 && a[2] >= 0 && a[2] <= 20000; }, -1, 1, "every case" });

// nested so deeply that the expression may be refused; if not, its value is exact
static Reg t4({ "calc.deep", 400, 4000,
  [](Rng& r) { return Args{ (i128) r.below(NTYPES), (i128) r.below(6), r.logrange(4000, 1000000), (i128) r.below(4) }; },
  [](const Args& a, Ctx& c) {
    size_t n = (size_t) a[2];
    std::string s, close;
    static const char* const U[] = { "(", "+", "-", "~", "-(", "1+(" };
    const char* u = U[(int) a[1]];
    for (size_t i = 0; i < n; i++) { s += u; if (strchr(u, '(')) close += ")"; }
    s += "7";
    bool valid = a[3] != 0;
    if (a[3] == 0) close.resize(close.size() / 2);
    if (close.empty()) valid = true;
    s += close;
    i128 v = a[1] == 2 || a[1] == 4 ? (n % 2 ? -7 : 7) : a[1] == 3 ? (n % 2 ? -8 : 7) : a[1] == 5 ? 7 + (i128) n : 7;
    if (!TYPES[(int) a[0]].sgn && a[1] >= 2 && a[1] <= 4) return;
    for (int copy = 0; copy < 2; copy++)
    {
      Res r = call(copy, (int) a[0], s);
      if (r.ok) PBT_REQUIRE(valid && r.v == v, n, " times \"", u, "\" evaluates to ", r.v, " instead of ", v);
      else PBT_REQUIRE(!r.err.empty(), "no error message for ", n, " times \"", u, "\"");
      c.label(r.ok ? "evaluated" : "refused");
    }
    c.nontrivial();
  }, [](const Args& a) { return a[0] >= 0 && a[0] < NTYPES && a[1] >= 0 && a[1] < 6 && a[2] >= 0 && a[2] <= 1000000 && a[3] >= 0 && a[3] < 4; }, -1, 1, "every case" });

int main(int argc, char** argv) { return pbt::main(argc, argv); }
