// Controls gomp_shim.cpp, which replaces the OpenMP runtime library
#ifndef SHIM_HPP
#define SHIM_HPP
#include <stdint.h>
#include <stddef.h>
namespace shim {
// real: the threads of a team run concurrently (ThreadSanitizer can see them)
// sched: exactly one thread runs at a time, a seeded scheduler decides which
enum Mode { real, sched };
// uniform: random thread at each point, sequential: run each thread until it
// blocks, in random order, priority: random priorities with a few changes,
// lifo: prefer the highest thread number, fifo: the lowest
enum Policy { uniform, sequential, priority, lifo, fifo, policies };
extern Mode mode;
extern Policy policy;
extern uint64_t seed;
extern int max_threads;      // omp_get_max_threads()
extern int team_limit;       // teams get at most this many threads (0: no limit)
extern long clock_mode;      // 0: real clock, else generated run times
extern int threshold_div;    // divides the thread thresholds
// statistics
extern uint64_t regions, switches, chunks, biggest_team, clock_reads;
void reset(uint64_t seed, Policy p);
}
#endif
