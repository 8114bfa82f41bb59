// Small property-based testing framework used by every C++ harness in /verif.
//
// A case is (kind, vector of 128-bit integers). A kind has a generator, a
// validity predicate (used only while shrinking), and a body which throws
// pbt::Failure when the property does not hold. All random choices come from
// the Rng that is handed to the generator, whose seed is a pure function of
// (VERIF_SEED, kind, index of the case), so that every run is reproducible
// and independent of how the cases are spread over processes.
#ifndef PBT_HPP
#define PBT_HPP

#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <functional>
#include <iostream>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

typedef __int128 i128;
typedef unsigned __int128 u128;
typedef std::vector<i128> Args;

// ---------------------------------------------------------------- text
inline std::string str(u128 v)
{
  if (v == 0) return "0";
  std::string s;
  while (v) { s += (char) ('0' + (int) (v % 10)); v /= 10; }
  std::reverse(s.begin(), s.end());
  return s;
}
inline std::string str(i128 v)
{
  return v < 0 ? "-" + str((u128) 0 - (u128) v) : str((u128) v);
}
inline std::string str(int v) { return str((i128) v); }
inline std::string str(unsigned v) { return str((u128) v); }
inline std::string str(long v) { return str((i128) v); }
inline std::string str(long long v) { return str((i128) v); }
inline std::string str(unsigned long v) { return str((u128) v); }
inline std::string str(unsigned long long v) { return str((u128) v); }
inline std::string str(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
inline std::string str(const std::string& s) { return s; }
inline std::string str(const char* s) { return s; }
inline std::string str(bool b) { return b ? "true" : "false"; }

inline i128 parse(const std::string& s)
{
  size_t i = 0;
  bool neg = false;
  if (i < s.size() && s[i] == '-') { neg = true; i++; }
  u128 v = 0;
  for (; i < s.size(); i++) v = v * 10 + (u128) (s[i] - '0');
  return neg ? (i128) ((u128) 0 - v) : (i128) v;
}

inline std::string cat() { return ""; }
template <typename A, typename... B>
std::string cat(const A& a, const B&... b) { return str(a) + cat(b...); }

struct Failure : std::runtime_error { Failure(const std::string& m) : std::runtime_error(m) { } };

#define PBT_FAIL(...) throw pbt::Failure(pbt::cat(__VA_ARGS__))
#define PBT_REQUIRE(cond, ...) do { if (!(cond)) throw pbt::Failure(pbt::cat(__VA_ARGS__)); } while (0)

// ---------------------------------------------------------------- random
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { for (int i = 0; i < 4; i++) next(); }
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  u128 next128() { u128 h = next(); return (h << 64) | next(); }
  // uniform in [0, n[
  u128 below(u128 n) { return n == 0 ? 0 : next128() % n; }
  // uniform in [lo, hi]
  i128 range(i128 lo, i128 hi) { return lo + (i128) below((u128) (hi - lo) + 1); }
  bool chance(int num, int den) { return (int) below(den) < num; }
  // value whose bit length is uniform in [0, maxbits]
  u128 bits(int maxbits)
  {
    int b = (int) below(maxbits + 1);
    if (b == 0) return 0;
    u128 v = next128();
    if (b < 128) v &= (((u128) 1) << b) - 1;
    return v | ((u128) 1 << (b - 1));
  }
  // log-uniform in [lo, hi]
  i128 logrange(i128 lo, i128 hi)
  {
    if (hi <= lo) return lo;
    u128 d = (u128) (hi - lo);
    int b = 0;
    while (b < 128 && (d >> b)) b++;
    for (int i = 0; i < 64; i++) { u128 v = bits(b); if (v <= d) return lo + (i128) v; }
    return range(lo, hi);
  }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[(size_t) below(v.size())]; }
};

inline uint64_t mix(uint64_t a, uint64_t b)
{
  Rng r(a * 0x2545F4914F6CDD1Dull + 0x9E3779B97F4A7C15ull * (b + 1));
  return r.next();
}
inline uint64_t hash_str(const std::string& s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}
inline uint64_t hash_args(const std::string& kind, const Args& a)
{
  uint64_t h = hash_str(kind);
  for (i128 v : a)
    for (int k = 0; k < 2; k++) { h ^= (uint64_t) ((u128) v >> (64 * k)); h *= 1099511628211ull; h ^= h >> 29; }
  return h;
}

inline double now()
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double) t.tv_sec + (double) t.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------- kinds
struct Ctx
{
  bool nontriv = false;
  std::vector<std::string> labels;
  void nontrivial(bool b = true) { if (b) nontriv = true; }
  void label(const std::string& s) { labels.push_back(s); }
};

struct Kind
{
  std::string name;
  long quick = 0;       // number of generated cases, quick tier
  long thorough = 0;    // number of generated cases, thorough tier
  std::function<Args(Rng&)> gen;
  std::function<void(const Args&, Ctx&)> run;
  std::function<bool(const Args&)> valid = [](const Args&) { return true; };
  int seq_head = -1;    // >= 0: args[seq_head..] is a sequence (shrunk by deletion)
  int seq_unit = 1;     // size of one element of the sequence
  std::string rule;     // what makes a case non-trivial
  double case_seconds = 60;  // a single case never takes this long
};

inline std::vector<Kind>& kinds() { static std::vector<Kind> k; return k; }
struct Reg { Reg(const Kind& k) { kinds().push_back(k); } };

inline Kind* find_kind(const std::string& n)
{
  for (auto& k : kinds()) if (k.name == n) return &k;
  return nullptr;
}

// ---------------------------------------------------------------- case files
inline void write_case(const std::string& file, const std::string& kind, const Args& a, const std::string& comment = "")
{
  std::ofstream o(file.c_str());
  std::istringstream cs(comment);
  std::string line;
  while (std::getline(cs, line)) o << "# " << line << "\n";
  o << kind;
  for (i128 v : a) o << " " << str(v);
  o << "\n";
}
inline bool read_case(const std::string& file, std::string& kind, Args& a)
{
  std::ifstream in(file.c_str());
  std::string line;
  while (std::getline(in, line))
  {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream is(line);
    is >> kind;
    a.clear();
    std::string t;
    while (is >> t) a.push_back(parse(t));
    return true;
  }
  return false;
}

// The case being run, in a file that survives a crash
struct State
{
  struct Hdr { uint64_t kind, index, n; };
  char* mem = nullptr;
  size_t cap = 0;
  void open(const std::string& file)
  {
    cap = 1 << 20;
    int fd = ::open(file.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, (off_t) cap) != 0) { perror("state"); exit(3); }
    mem = (char*) mmap(0, cap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    ::close(fd);
    Hdr h = { ~0ull, 0, 0 };
    memcpy(mem, &h, sizeof(h));
  }
  void set(uint64_t kind, uint64_t index, const Args& a)
  {
    if (!mem) return;
    size_t n = std::min(a.size(), (cap - sizeof(Hdr)) / sizeof(i128));
    Hdr h = { kind, index, n };
    memcpy(mem, &h, sizeof(h));
    if (n) memcpy(mem + sizeof(h), &a[0], n * sizeof(i128));
  }
  void clear() { if (mem) { Hdr h = { ~0ull, 0, 0 }; memcpy(mem, &h, sizeof(h)); } }
};

// runs one case; returns "" or the failure message
inline std::string run_one(const Kind& k, const Args& a, Ctx& ctx)
{
  // below valgrind (no 80-bit floating point) only its own errors count
  static const bool memcheck = getenv("VP_MEMCHECK") != nullptr;
  if (memcheck) { try { k.run(a, ctx); } catch (...) { } return ""; }
  try { k.run(a, ctx); }
  catch (const Failure& f) { std::string m = f.what(); return m.empty() ? "failed" : m; }
  catch (const std::exception& e) { return std::string("unexpected exception: ") + e.what(); }
  catch (...) { return "unexpected exception"; }
  return "";
}

inline std::string json(const std::string& s)
{
  std::string o = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
    else o += (char) c;
  }
  return o + "\"";
}
inline std::string case_text(const std::string& kind, const Args& a, size_t max = 24)
{
  std::string s = kind;
  for (size_t i = 0; i < a.size(); i++)
  {
    if (i == max) { s += cat(" ... (", a.size(), " values)"); break; }
    s += " " + str(a[i]);
  }
  return s;
}

struct Stats { uint64_t evals = 0, nontriv = 0; std::vector<std::string> samples; };

// optional hook called at the end of "run" (all shards), before the result is written
inline std::function<void()>& at_end() { static std::function<void()> f; return f; }

inline int cmd_run(std::map<std::string, std::string>& o)
{
  uint64_t seed = strtoull(o["seed"].c_str(), 0, 10);
  bool thorough = o["tier"] == "thorough";
  uint64_t shard = strtoull(o["shard"].c_str(), 0, 10);
  uint64_t shards = strtoull(o["shards"].c_str(), 0, 10);
  if (shards == 0) shards = 1;
  double cap = o.count("cap") ? atof(o["cap"].c_str()) : 1e9;
  double scale = o.count("scale") ? atof(o["scale"].c_str()) : 1;
  bool has_stop = o.count("stop-index") != 0;
  uint64_t stop_index = has_stop ? strtoull(o["stop-index"].c_str(), 0, 10) : 0;
  std::string stop_kind = o["stop-kind"];
  std::set<std::string> want;
  {
    std::istringstream is(o["kinds"]);
    std::string t;
    while (std::getline(is, t, ',')) if (!t.empty()) want.insert(t);
  }
  State st;
  if (o.count("state")) st.open(o["state"]);
  double t0 = now();
  std::map<std::string, Stats> stats;
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> hashes;
  bool truncated = false;
  std::string fail_kind, fail_msg;
  Args fail_args;
  uint64_t fail_index = 0;

  // The kinds are interleaved so that a run which hits its
  // time cap has still covered all of them
  struct Todo { size_t k; uint64_t total, next; };
  std::vector<Todo> todo;
  for (size_t k = 0; k < kinds().size(); k++)
  {
    if (!want.empty() && !want.count(kinds()[k].name)) continue;
    double n = (double) (thorough ? kinds()[k].thorough : kinds()[k].quick) * scale;
    todo.push_back({ k, (uint64_t) (n < 1 && n > 0 ? 1 : n), shard });
  }
  bool stop = false;
  for (int round = 1; round <= 64 && !stop; round++)
  {
    for (auto& t : todo)
    {
      Kind& K = kinds()[t.k];
      uint64_t until = t.total * round / 64;
      if (round == 64) until = t.total;
      for (; t.next < until && !stop; t.next += shards)
      {
        if (now() - t0 > cap) { truncated = true; stop = true; break; }
        Rng rng(mix(mix(seed, hash_str(K.name)), t.next));
        Args a = K.gen(rng);
        st.set(t.k, t.next, a);
        Ctx c;
        std::string m = run_one(K, a, c);
        Stats& s = stats[K.name];
        s.evals++;
        for (auto& l : c.labels) labels[K.name + "/" + l]++;
        if (c.nontriv && hashes.insert(hash_args(K.name, a)).second)
        {
          s.nontriv++;
          if (s.samples.size() < 2) s.samples.push_back(case_text(K.name, a));
        }
        if (!m.empty())
        {
          fail_kind = K.name; fail_args = a; fail_msg = m; fail_index = t.next;
          stop = true;
        }
        if (has_stop && K.name == stop_kind && t.next == stop_index) stop = true;
      }
    }
  }
  st.clear();
  if (fail_kind.empty() && at_end()) at_end()();
  std::ofstream out(o["out"].c_str());
  out << "{\"truncated\":" << (truncated ? "true" : "false") << ",\"kinds\":{";
  bool first = true;
  for (auto& s : stats)
  {
    out << (first ? "" : ",") << json(s.first) << ":{\"evaluations\":" << s.second.evals
        << ",\"nontrivial\":" << s.second.nontriv << ",\"samples\":[";
    for (size_t i = 0; i < s.second.samples.size(); i++) out << (i ? "," : "") << json(s.second.samples[i]);
    out << "]}";
    first = false;
  }
  out << "},\"labels\":{";
  first = true;
  for (auto& l : labels) { out << (first ? "" : ",") << json(l.first) << ":" << l.second; first = false; }
  out << "}";
  if (!fail_kind.empty())
  {
    out << ",\"failure\":{\"kind\":" << json(fail_kind) << ",\"index\":" << fail_index << ",\"message\":" << json(fail_msg) << "}";
    write_case(o["out"] + ".case", fail_kind, fail_args, fail_msg);
  }
  out << "}\n";
  out.close();
  std::ofstream hs((o["out"] + ".hashes").c_str(), std::ios::binary);
  for (uint64_t h : hashes) hs.write((const char*) &h, 8);
  return fail_kind.empty() ? 0 : 1;
}

inline int cmd_replay(const std::string& file)
{
  std::string kind;
  Args a;
  if (!read_case(file, kind, a)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 3; }
  Kind* k = find_kind(kind);
  if (!k) { fprintf(stderr, "unknown kind %s\n", kind.c_str()); return 3; }
  Ctx c;
  std::string m = run_one(*k, a, c);
  if (m.empty() && at_end())
  {
    try { at_end()(); } catch (const std::exception& e) { m = e.what(); }
  }
  if (m.empty()) { printf("OK %s\n", case_text(kind, a).c_str()); return 0; }
  printf("FAIL %s\n  %s\n", case_text(kind, a).c_str(), m.c_str());
  return 1;
}

// 0: the case passes, 1: it fails (or crashes, or hangs)
inline int probe(const Kind& k, const Args& a, double secs)
{
  fflush(0);
  pid_t p = fork();
  if (p == 0)
  {
    int n = ::open("/dev/null", O_WRONLY);
    dup2(n, 1); dup2(n, 2);
    alarm((unsigned) (secs + 1));
    Ctx c;
    std::string m = run_one(k, a, c);
    _exit(m.empty() ? 0 : 1);
  }
  int stt = 0;
  if (p < 0 || waitpid(p, &stt, 0) < 0) return 0;
  return !(WIFEXITED(stt) && WEXITSTATUS(stt) == 0);
}

inline int cmd_shrink(const std::string& in, const std::string& outf, double budget)
{
  std::string kind;
  Args a;
  if (!read_case(in, kind, a)) return 3;
  Kind* k = find_kind(kind);
  if (!k) return 3;
  double end = now() + budget;
  auto fails = [&](const Args& b) {
    if (now() > end) return false;
    bool ok = false;
    try { ok = k->valid(b); } catch (...) { ok = false; }
    return ok && probe(*k, b, k->case_seconds) != 0;
  };
  if (!probe(*k, a, k->case_seconds)) { return 4; }
  bool progress = true;
  while (progress && now() < end)
  {
    progress = false;
    if (k->seq_head >= 0)
    {
      size_t u = (size_t) k->seq_unit, h = (size_t) k->seq_head;
      size_t n = a.size() > h ? (a.size() - h) / u : 0;
      for (size_t chunk = std::max<size_t>(1, n / 2); chunk >= 1; chunk /= 2)
      {
        for (size_t i = 0; i + chunk <= n; )
        {
          Args b(a.begin(), a.begin() + (long) (h + i * u));
          b.insert(b.end(), a.begin() + (long) (h + (i + chunk) * u), a.end());
          if (fails(b)) { a = b; n -= chunk; progress = true; }
          else i += chunk;
          if (now() > end) break;
        }
        if (chunk == 1) break;
      }
    }
    for (size_t i = 0; i < a.size() && now() < end; i++)
    {
      i128 v = a[i];
      std::vector<i128> cand = { 0, 1, 2, 3, 10, 100 };
      for (i128 d = v / 2; d != 0; d /= 2) cand.push_back(v - d);
      cand.push_back(v > 0 ? v - 1 : v + 1);
      for (i128 w : cand)
      {
        u128 aw = w < 0 ? (u128) 0 - (u128) w : (u128) w, av = v < 0 ? (u128) 0 - (u128) v : (u128) v;
        if (aw >= av) continue;
        Args b = a;
        b[i] = w;
        if (fails(b)) { a = b; progress = true; break; }
      }
    }
  }
  Ctx c;
  write_case(outf, kind, a, "shrunk");
  return 0;
}

inline int cmd_state(const std::string& in, const std::string& outf)
{
  std::ifstream f(in.c_str(), std::ios::binary);
  State::Hdr h;
  if (!f.read((char*) &h, sizeof(h)) || h.kind >= kinds().size()) return 4;
  Args a((size_t) h.n);
  if (h.n) f.read((char*) &a[0], (std::streamsize) (h.n * sizeof(i128)));
  write_case(outf, kinds()[h.kind].name, a, "the case that was running");
  printf("%s %llu\n", kinds()[h.kind].name.c_str(), (unsigned long long) h.index);
  return 0;
}

inline int main(int argc, char** argv)
{
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "run")
  {
    std::map<std::string, std::string> o;
    for (int i = 2; i + 1 < argc; i += 2) o[std::string(argv[i] + 2)] = argv[i + 1];
    return cmd_run(o);
  }
  if (cmd == "replay" && argc > 2) return cmd_replay(argv[2]);
  if (cmd == "shrink" && argc > 4) return cmd_shrink(argv[2], argv[3], atof(argv[4]));
  if (cmd == "state" && argc > 3) return cmd_state(argv[2], argv[3]);
  if (cmd == "rules")
  {
    for (auto& k : kinds()) printf("%s\t%s\n", k.name.c_str(), k.rule.c_str());
    return 0;
  }
  fprintf(stderr, "usage: %s run|replay|shrink|state|rules\n", argv[0]);
  return 3;
}

} // namespace pbt

#endif
