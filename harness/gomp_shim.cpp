// A replacement of the OpenMP runtime library (libgomp) with a controllable
// scheduler. In mode "sched" the logical threads of a team are real threads
// which pass a baton: at each scheduling point (start and end of a thread,
// request for the next chunk of a loop, atomic and critical sections, locks,
// barriers, reading the clock) a seeded policy decides who runs next. So an
// interleaving is a pure function of (policy, seed) and can be replayed.
// In mode "real" the threads run concurrently and all synchronization is
// visible to ThreadSanitizer.
#include "shim.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

namespace shim {
Mode mode = sched;
Policy policy = uniform;
uint64_t seed = 1;
int max_threads = 64;
int team_limit = 0;
long clock_mode = 0;
int threshold_div = 1;
uint64_t regions, switches, chunks, biggest_team, clock_reads;

static uint64_t rng_state = 1;
static uint64_t clock_state = 1;
static double clock_now = 1;
static uint64_t splitmix(uint64_t& s)
{
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
void reset(uint64_t s, Policy p)
{
  seed = s; policy = p;
  rng_state = s * 2654435761u + 17;
  clock_state = s ^ 0xABCDEF;
  clock_now = 1;
  regions = switches = chunks = biggest_team = clock_reads = 0;
}

// ---------------------------------------------------------------- work shares
struct WorkShare
{
  bool ull = false, up = true;
  long start = 0, end = 0, incr = 1, chunk = 1;
  unsigned long long ustart = 0, uend = 0, uincr = 1, uchunk = 1;
  int kind = 0;                  // 0 static, 1 dynamic, 2 guided
  unsigned long long total = 0, next = 0; // in iterations
  std::vector<unsigned long long> stat;   // static: next chunk of each thread
  int sections = 0, section = 0;
  std::mutex m;
};

struct Team
{
  int n = 1;
  void (*fn)(void*) = nullptr;
  void* data = nullptr;
  std::mutex m;
  std::condition_variable cv;
  std::vector<std::unique_ptr<WorkShare>> ws;
  std::vector<size_t> ws_index;  // of each thread
  std::vector<size_t> single_index;
  size_t singles = 0;
  int arrived = 0;
  unsigned long generation = 0;
  std::unique_ptr<WorkShare> initial; // of GOMP_parallel_loop_*
  // scheduler
  std::vector<int> runnable;
  std::vector<std::condition_variable*> wake;
  std::vector<double> prio;
  int current = 0;
  int live = 0;
  std::mutex atomic, critical;
};

static thread_local Team* team = nullptr;
static thread_local int tnum = 0;
static thread_local size_t cur_ws = 0;
static thread_local int nesting = 0;

// The pool of threads used by mode sched (creating threads is slow)
struct Worker
{
  std::thread th;
  std::mutex m;
  std::condition_variable cv;
  Team* team = nullptr;
  int num = 0;
  bool busy = false;
};
static void run_member(Team* t, int num);
static void worker_main(Worker* w)
{
  for (;;)
  {
    Team* t; int n;
    {
      std::unique_lock<std::mutex> l(w->m);
      w->cv.wait(l, [&] { return w->team != nullptr; });
      t = w->team; n = w->num;
    }
    run_member(t, n);
    std::unique_lock<std::mutex> l(w->m);
    w->team = nullptr;
    w->cv.notify_all();
  }
}
static std::mutex pool_m;
static std::vector<Worker*>& pool() { static std::vector<Worker*>* p = new std::vector<Worker*>; return *p; }
static Worker* get_worker()
{
  std::lock_guard<std::mutex> l(pool_m);
  for (Worker* w : pool()) if (!w->busy) { w->busy = true; return w; }
  Worker* w = new Worker;
  w->busy = true;
  w->th = std::thread(worker_main, w);
  w->th.detach();
  pool().push_back(w);
  return w;
}

// ---------------------------------------------------------------- scheduler
static int choose(Team* t)
{
  // t->m is held and runnable is not empty
  auto& r = t->runnable;
  switch (policy)
  {
    case sequential:
      if (std::find(r.begin(), r.end(), t->current) != r.end()) return t->current;
      return r[splitmix(rng_state) % r.size()];
    case priority:
    {
      if (splitmix(rng_state) % 8 == 0) t->prio[(size_t) r[splitmix(rng_state) % r.size()]] = (double) (splitmix(rng_state) % 1000000);
      int b = r[0];
      for (int i : r) if (t->prio[(size_t) i] > t->prio[(size_t) b]) b = i;
      return b;
    }
    case lifo: return *std::max_element(r.begin(), r.end());
    case fifo: return *std::min_element(r.begin(), r.end());
    default: return r[splitmix(rng_state) % r.size()];
  }
}
static void wait_turn(Team* t, std::unique_lock<std::mutex>& l)
{
  int me = tnum;
  t->wake[(size_t) me]->wait(l, [&] { return t->current == me; });
}
static void yield_random(Team* t, std::unique_lock<std::mutex>& l, bool force_other)
{
  int next;
  if (force_other && t->runnable.size() > 1)
  {
    // somebody else must run, or a spinning thread would never stop
    std::vector<int> o;
    for (int i : t->runnable) if (i != tnum) o.push_back(i);
    next = o[splitmix(rng_state) % o.size()];
  }
  else
    next = choose(t);
  if (next != tnum)
  {
    switches++;
    t->current = next;
    t->wake[(size_t) next]->notify_one();
    wait_turn(t, l);
  }
}
static void point(bool force_other = false)
{
  Team* t = team;
  if (!t || t->n <= 1) return;
  if (mode == real) { std::this_thread::yield(); return; }
  std::unique_lock<std::mutex> l(t->m);
  yield_random(t, l, force_other);
}
// the calling thread stops being runnable and hands over
static void hand_over(Team* t)
{
  t->runnable.erase(std::find(t->runnable.begin(), t->runnable.end(), tnum));
  if (t->runnable.empty()) { t->current = -1; t->cv.notify_all(); return; }
  int next = choose(t);
  switches++;
  t->current = next;
  t->wake[(size_t) next]->notify_one();
}

static void run_member(Team* t, int num)
{
  Team* ot = team; int on = tnum; size_t ows = cur_ws;
  team = t; tnum = num; nesting++;
  if (mode == sched && t->n > 1)
  {
    std::unique_lock<std::mutex> l(t->m);
    wait_turn(t, l);
  }
  t->fn(t->data);
  if (mode == sched && t->n > 1)
  {
    std::unique_lock<std::mutex> l(t->m);
    t->live--;
    hand_over(t);
    if (t->live == 0) t->cv.notify_all();
  }
  team = ot; tnum = on; cur_ws = ows; nesting--;
}

static void run_team(Team& t)
{
  regions++;
  biggest_team = std::max<uint64_t>(biggest_team, (uint64_t) t.n);
  t.ws_index.assign((size_t) t.n, 0);
  t.single_index.assign((size_t) t.n, 0);
  if (t.n == 1) { run_member(&t, 0); return; }
  if (mode == real)
  {
    std::vector<std::thread> th;
    for (int i = 1; i < t.n; i++) th.emplace_back([&t, i] { run_member(&t, i); });
    run_member(&t, 0);
    for (auto& x : th) x.join();
    return;
  }
  std::vector<std::unique_ptr<std::condition_variable>> cvs;
  for (int i = 0; i < t.n; i++)
  {
    cvs.emplace_back(new std::condition_variable);
    t.wake.push_back(cvs.back().get());
    t.runnable.push_back(i);
    t.prio.push_back((double) (splitmix(rng_state) % 1000000));
  }
  t.live = t.n;
  t.current = -2;
  std::vector<Worker*> ws;
  for (int i = 1; i < t.n; i++)
  {
    Worker* w = get_worker();
    std::lock_guard<std::mutex> l(w->m);
    w->num = i;
    w->team = &t;
    w->cv.notify_all();
    ws.push_back(w);
  }
  {
    std::unique_lock<std::mutex> l(t.m);
    t.current = choose(&t);
    for (auto* c : t.wake) c->notify_all();
  }
  run_member(&t, 0);
  {
    std::unique_lock<std::mutex> l(t.m);
    t.cv.wait(l, [&] { return t.live == 0; });
  }
  for (Worker* w : ws)
  {
    {
      std::unique_lock<std::mutex> l(w->m);
      w->cv.wait(l, [&] { return w->team == nullptr; });
    }
    std::lock_guard<std::mutex> l(pool_m);
    w->busy = false;
  }
}

static int team_size(unsigned n)
{
  if (nesting > 0) return 1;
  int k = n == 0 ? max_threads : (int) n;
  if (team_limit > 0) k = std::min(k, team_limit);
  return std::max(1, std::min(k, 256));
}

// ---------------------------------------------------------------- loops
static void init_long(WorkShare& w, int kind, long s, long e, long incr, long chunk)
{
  w.kind = kind; w.start = s; w.end = e; w.incr = incr; w.chunk = chunk;
  if (incr > 0) w.total = e > s ? ((unsigned long long) (e - s) + (unsigned long long) incr - 1) / (unsigned long long) incr : 0;
  else w.total = s > e ? ((unsigned long long) (s - e) + (unsigned long long) -incr - 1) / (unsigned long long) -incr : 0;
}
static void init_ull(WorkShare& w, int kind, bool up, unsigned long long s, unsigned long long e, unsigned long long incr, unsigned long long chunk)
{
  w.ull = true; w.up = up; w.kind = kind; w.ustart = s; w.uend = e; w.uincr = incr; w.uchunk = chunk; w.chunk = (long) chunk;
  if (up) w.total = e > s ? (e - s + incr - 1) / incr : 0;
  else w.total = s > e ? (s - e + (0 - incr) - 1) / (0 - incr) : 0;
}
static bool take(WorkShare& w, Team* t, unsigned long long* a, unsigned long long* b)
{
  std::lock_guard<std::mutex> l(w.m);
  if (w.kind == 0)
  {
    unsigned long long n = (unsigned long long) t->n, me = (unsigned long long) tnum;
    if (w.stat.empty()) w.stat.assign((size_t) n, 0);
    unsigned long long& k = w.stat[(size_t) me];
    if (w.chunk <= 0)
    {
      if (k) return false;
      unsigned long long q = w.total / n, r = w.total % n;
      *a = me * q + std::min(me, r);
      *b = *a + q + (me < r);
      k = 1;
      return *a < *b;
    }
    unsigned long long c = (unsigned long long) w.chunk;
    *a = (me + k * n) * c;
    k++;
    if (*a >= w.total) return false;
    *b = std::min(*a + c, w.total);
    return true;
  }
  if (w.next >= w.total) return false;
  unsigned long long c = w.chunk > 0 ? (unsigned long long) w.chunk : 1;
  if (w.kind == 2)
  {
    unsigned long long left = w.total - w.next;
    c = std::max(c, (left + (unsigned long long) t->n - 1) / (unsigned long long) t->n);
  }
  *a = w.next;
  *b = std::min(w.next + c, w.total);
  w.next = *b;
  chunks++;
  return true;
}
static Team* my_team()
{
  static thread_local Team orphan;
  if (team) return team;
  if (orphan.ws_index.empty()) { orphan.ws_index.assign(1, 0); orphan.single_index.assign(1, 0); }
  return &orphan;
}
template <typename Init>
static WorkShare& enter_ws(Init init)
{
  Team* t = my_team();
  std::lock_guard<std::mutex> l(t->m);
  size_t i = t->ws_index[(size_t) tnum]++;
  while (t->ws.size() <= i)
  {
    t->ws.emplace_back(new WorkShare);
    init(*t->ws.back());
  }
  cur_ws = i;
  return *t->ws[i];
}
static WorkShare& this_ws()
{
  Team* t = my_team();
  std::lock_guard<std::mutex> l(t->m);
  return *t->ws[cur_ws];
}
static bool next_long(WorkShare& w, long* a, long* b)
{
  point();
  unsigned long long i, j;
  if (!take(w, my_team(), &i, &j)) return false;
  *a = w.start + (long) i * w.incr;
  *b = w.start + (long) j * w.incr;
  return true;
}
static bool next_ull(WorkShare& w, unsigned long long* a, unsigned long long* b)
{
  point();
  unsigned long long i, j;
  if (!take(w, my_team(), &i, &j)) return false;
  *a = w.ustart + i * w.uincr;
  *b = w.ustart + j * w.uincr;
  return true;
}
static void barrier()
{
  Team* t = team;
  if (!t || t->n == 1) return;
  if (mode == real)
  {
    std::unique_lock<std::mutex> l(t->m);
    unsigned long g = t->generation;
    if (++t->arrived == t->n) { t->arrived = 0; t->generation++; t->cv.notify_all(); }
    else t->cv.wait(l, [&] { return t->generation != g; });
    return;
  }
  std::unique_lock<std::mutex> l(t->m);
  unsigned long g = t->generation;
  if (++t->arrived == t->n) { t->arrived = 0; t->generation++; yield_random(t, l, false); return; }
  while (t->generation == g)
  {
    if (t->runnable.size() <= 1) { fprintf(stderr, "deadlock at a barrier\n"); abort(); }
    yield_random(t, l, true);
  }
}
static void lock_mutex(std::mutex& m)
{
  point();
  while (!m.try_lock())
  {
    if (mode == real) { m.lock(); return; }
    point(true);
  }
}
static void unlock_mutex(std::mutex& m) { m.unlock(); point(); }
static std::mutex global_atomic, global_critical, names;
static std::mutex& named(void** p)
{
  std::lock_guard<std::mutex> l(names);
  if (!*p) *p = new std::mutex;
  return *(std::mutex*) *p;
}
} // namespace shim

using namespace shim;

extern "C" {

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned)
{
  Team t;
  t.fn = fn; t.data = data; t.n = team_size(n);
  run_team(t);
}

#define LOOP(name, kind) \
bool GOMP_loop_##name##_start(long s, long e, long incr, long chunk, long* a, long* b) \
{ WorkShare& w = enter_ws([&](WorkShare& x) { init_long(x, kind, s, e, incr, chunk); }); return next_long(w, a, b); } \
bool GOMP_loop_##name##_next(long* a, long* b) { return next_long(this_ws(), a, b); } \
bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long incr, unsigned long long chunk, unsigned long long* a, unsigned long long* b) \
{ WorkShare& w = enter_ws([&](WorkShare& x) { init_ull(x, kind, up, s, e, incr, chunk); }); return next_ull(w, a, b); } \
bool GOMP_loop_ull_##name##_next(unsigned long long* a, unsigned long long* b) { return next_ull(this_ws(), a, b); } \
void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long s, long e, long incr, long chunk, unsigned) \
{ Team t; t.fn = fn; t.data = data; t.n = team_size(n); \
  t.ws.emplace_back(new WorkShare); init_long(*t.ws.back(), kind, s, e, incr, chunk); run_team(t); }

LOOP(static, 0)
LOOP(dynamic, 1)
LOOP(nonmonotonic_dynamic, 1)
LOOP(guided, 2)
LOOP(nonmonotonic_guided, 2)

#define LOOP_RT(name) \
bool GOMP_loop_##name##_start(long s, long e, long incr, long* a, long* b) \
{ WorkShare& w = enter_ws([&](WorkShare& x) { init_long(x, 1, s, e, incr, 1); }); return next_long(w, a, b); } \
bool GOMP_loop_##name##_next(long* a, long* b) { return next_long(this_ws(), a, b); } \
void GOMP_parallel_loop_##name(void (*fn)(void*), void* data, unsigned n, long s, long e, long incr, unsigned) \
{ Team t; t.fn = fn; t.data = data; t.n = team_size(n); \
  t.ws.emplace_back(new WorkShare); init_long(*t.ws.back(), 1, s, e, incr, 1); run_team(t); }
LOOP_RT(runtime)
LOOP_RT(nonmonotonic_runtime)
LOOP_RT(maybe_nonmonotonic_runtime)

void GOMP_loop_end_nowait(void) { point(); }
void GOMP_loop_end(void) { barrier(); }

unsigned GOMP_sections_next(void)
{
  point();
  WorkShare& w = this_ws();
  std::lock_guard<std::mutex> l(w.m);
  return w.section < w.sections ? (unsigned) ++w.section : 0;
}
unsigned GOMP_sections_start(unsigned count)
{
  enter_ws([&](WorkShare& x) { x.sections = (int) count; });
  return GOMP_sections_next();
}
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) { point(); }
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned)
{
  Team t;
  t.fn = fn; t.data = data; t.n = n == 0 ? team_size(std::min<unsigned>(count, (unsigned) max_threads)) : team_size(n);
  t.ws.emplace_back(new WorkShare);
  t.ws.back()->sections = (int) count;
  run_team(t);
}

bool GOMP_single_start(void)
{
  Team* t = my_team();
  std::lock_guard<std::mutex> l(t->m);
  size_t i = t->single_index[(size_t) tnum]++;
  if (t->singles <= i) { t->singles = i + 1; return true; }
  return false;
}
void GOMP_barrier(void) { barrier(); }
void GOMP_atomic_start(void) { lock_mutex(global_atomic); }
void GOMP_atomic_end(void) { unlock_mutex(global_atomic); }
void GOMP_critical_start(void) { lock_mutex(global_critical); }
void GOMP_critical_end(void) { unlock_mutex(global_critical); }
void GOMP_critical_name_start(void** p) { lock_mutex(named(p)); }
void GOMP_critical_name_end(void** p) { unlock_mutex(named(p)); }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*)
{
  if (!cpy) { fn(data); return; }
  std::vector<char> buf((size_t) (size + align));
  char* p = buf.data() + (align - (long) ((uintptr_t) buf.data() % (uintptr_t) align)) % align;
  cpy(p, data);
  fn(p);
}
void GOMP_taskwait(void) { point(); }
void GOMP_taskyield(void) { point(); }
void GOMP_taskgroup_start(void) { }
void GOMP_taskgroup_end(void) { point(); }

int omp_get_thread_num(void) { return team ? tnum : 0; }
int omp_get_num_threads(void) { return team ? team->n : 1; }
int omp_get_max_threads(void) { return max_threads; }
int omp_get_num_procs(void) { return max_threads; }
int omp_in_parallel(void) { return nesting > 0 && team && team->n > 1; }
int omp_get_level(void) { return nesting; }
int omp_get_dynamic(void) { return 0; }
int omp_get_nested(void) { return 0; }
int omp_get_thread_limit(void) { return 256; }
void omp_set_num_threads(int n) { if (n > 0) max_threads = n; }
void omp_set_dynamic(int) { }
void omp_set_nested(int) { }
double omp_get_wtime(void)
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double) t.tv_sec + (double) t.tv_nsec * 1e-9;
}

// omp_lock_t is four bytes
void omp_init_lock(int* l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); }
void omp_destroy_lock(int*) { }
int omp_test_lock(int* l)
{
  point();
  int z = 0;
  return __atomic_compare_exchange_n(l, &z, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE);
}
void omp_set_lock(int* l)
{
  point();
  for (;;)
  {
    int z = 0;
    if (__atomic_compare_exchange_n(l, &z, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) return;
    point(true);
  }
}
void omp_unset_lock(int* l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); point(); }

} // extern "C"

// ---------------------------------------------------------------- clock
// linked with --wrap: generated run times instead of measured ones
static std::mutex clock_m;
extern "C" double __real__ZN8primesum8get_timeEv() __attribute__((weak));
extern "C" double __wrap__ZN8primesum8get_timeEv()
{
  if (clock_mode == 0)
    return __real__ZN8primesum8get_timeEv();
  double r;
  {
    std::lock_guard<std::mutex> l(clock_m);
    clock_reads++;
    uint64_t u = splitmix(clock_state);
    double f = (double) (u >> 11) / 9007199254740992.0;
    switch (clock_mode)
    {
      case 1: break;                                   // the clock stands still
      case 2: clock_now += f * 1e-6; break;            // very fast computer
      case 3: clock_now += f; break;
      case 4: clock_now += f * 1000; break;            // very slow computer
      case 5: { double e = -9 + f * 13; double d = 1; while (e < 0) { d /= 10; e += 1; } while (e > 1) { d *= 10; e -= 1; } clock_now += d; } break; // 1e-9 .. 1e4 s
      case 6: clock_now += (u % 16 == 0) ? 100 * f : 1e-5; break;  // rare delays
      default: clock_now += 0.02 * f; break;
    }
    r = clock_now;
  }
  point();
  return r;
}
extern "C" int __real__ZN8primesum17ideal_num_threadsEill(int, int64_t, int64_t) __attribute__((weak));
extern "C" int __wrap__ZN8primesum17ideal_num_threadsEill(int threads, int64_t n, int64_t threshold)
{
  return __real__ZN8primesum17ideal_num_threadsEill(threads, n, std::max<int64_t>(1, threshold / threshold_div));
}
