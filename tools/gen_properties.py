#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

DR = "src/deleglise-rivat/"
ALLSUM = ["src/primesum.cpp", DR+"pi_deleglise_rivat_parallel1.cpp", "src/P2.cpp", "src/S1.cpp",
          DR+"S2_trivial.cpp", DR+"S2_easy.cpp", DR+"S2_easy_libdivide.cpp", DR+"S2_hard.cpp"]

p("S01", "The default computation returns the exact sum of the primes <= x",
  "For every integer x the default prime-sum function returns exactly the sum of all primes p <= x (0 for every x < 2). "
  "The result does not depend on previous calls made in the same process.",
  ["inputs", "histories"], "every x below the program's limit, including primes, prime powers, perfect squares and cubes +-1, powers of two and ten +-1, negative x; any order of calls",
  "The tests only reach x <= 10000 and random x below about 5e9, compare the algorithms with each other, and never check above 2^33.",
  ALLSUM, [("pi_deleglise_rivat", DR+"pi_deleglise_rivat_parallel1.cpp"), ("pi", "src/primesum.cpp")],
  observe=["primesum x on stdout", "primesum::pi(x)"])
p("S02", "All prime-sum algorithms and build variants return the same value",
  "For every x in an algorithm's domain, the Deleglise-Rivat implementation, the Lagarias-Miller-Odlyzko implementations (1 to 5 and parallel) and Legendre-style summation return the same exact sum. "
  "Building with or without the fast division library does not change any result.",
  ["inputs", "configurations"], "every x with the sum (or the documented 63-bit x) in the algorithm's domain, each selectable algorithm, both build configurations",
  "The tests compare them on x <= 10000 and a few hundred random x with one default tuning; the option-less build variant is never compared with the other one.",
  ["src/lmo/pi_lmo1.cpp", "src/lmo/pi_lmo2.cpp", "src/lmo/pi_lmo3.cpp", "src/lmo/pi_lmo4.cpp", "src/lmo/pi_lmo5.cpp", "src/lmo/pi_lmo_parallel1.cpp", DR+"pi_deleglise_rivat_parallel1.cpp", DR+"S2_easy.cpp", DR+"S2_easy_libdivide.cpp"],
  [("pi_lmo*", "src/lmo"), ("S2_easy", DR+"S2_easy.cpp"), ("S2_easy (libdivide)", DR+"S2_easy_libdivide.cpp")],
  observe=["primesum x --lmo --lmo1..--lmo5 -d"])
p("S03", "Results do not depend on thread count, scheduling or measured run times",
  "For every x the prime sum and each of its partial formulas are the same for every number of threads, for every assignment of loop iterations to threads and for every interleaving. "
  "The run times that the program measures in order to balance its load influence only how work is divided, never the result, and the computation has no data races.",
  ["schedules", "inputs", "configurations"], "all x; 1..many threads; all orders and chunk assignments of the parallel loops; arbitrary measured times (zero, huge, equal, decreasing)",
  "Tests run with 4 real threads on inputs so small that most parallel loops stay single threaded, under whatever timing the machine produces.",
  ["src/P2.cpp", "src/S1.cpp", DR+"S2_trivial.cpp", DR+"S2_easy.cpp", DR+"S2_easy_libdivide.cpp", DR+"S2_hard.cpp", "src/lmo/pi_lmo_parallel1.cpp", "src/phi.cpp", "src/S2LoadBalancer.cpp", "include/FactorTable.hpp"],
  [("OpenMP parallel loops and reductions", "src"), ("S2LoadBalancer", "src/S2LoadBalancer.cpp"), ("balanceLoad", "src/P2.cpp"), ("ideal_num_threads", "src/primesum.cpp")])
p("S04", "The alpha tuning factor never changes a result",
  "For every x and every alpha the user can set (values below 1 mean automatic, larger ones are clamped to [1, x^(1/6)]), the prime sum is the same exact value. "
  "Alpha only moves work between the partial formulas.",
  ["inputs", "configurations"], "all x, all real alpha including fractional, boundary, negative and far out of range values, for both tunable algorithms",
  "No existing test sets alpha at all, so every x is tested with one single split point.",
  ["src/primesum.cpp", DR+"pi_deleglise_rivat_parallel1.cpp", "src/lmo/pi_lmo_parallel1.cpp", DR+"S2_easy_libdivide.cpp", DR+"S2_hard.cpp", "src/S2LoadBalancer.cpp"],
  [("get_alpha_deleglise_rivat / get_alpha_lmo", "src/primesum.cpp"), ("set_alpha", "src/primesum.cpp")], observe=["primesum x -a<N>"])
p("S05", "Each partial formula equals its number-theoretic definition",
  "The ordinary leaves, the trivial, easy and hard special leaves and the second partial sieve function each return exactly the value their mathematical definition assigns to (x, y, z, c). "
  "Together with the sum of the primes <= y they recombine to the prime sum for every admissible y.",
  ["inputs"], "all x and all admissible split points y (x^(1/3) <= y <= x^(1/2)), the z = x / y and c the program derives from them",
  "No test checks any partial formula; compensating errors in two of them and errors at unusual split points stay invisible.",
  ALLSUM, [("P2", "src/P2.cpp"), ("S1", "src/S1.cpp"), ("S2_trivial", DR+"S2_trivial.cpp"), ("S2_easy", DR+"S2_easy_libdivide.cpp"), ("S2_hard", DR+"S2_hard.cpp")],
  observe=["primesum x --P2 --S1 --S2_trivial --S2_easy --S2_hard"])
p("S06", "Sums stay exact when x exceeds 63, 64 and 96 bits and for large tables",
  "When x exceeds 2^63 or 2^64, or when the internal tables exceed 16- or 32-bit ranges, the program switches to wider integer types and every partial formula still returns its exact mathematical value. "
  "No intermediate product, sum or quotient is truncated or overflows anywhere below the documented limit on x.",
  ["inputs"], "x on both sides of 2^63 and 2^64 and far above; split points y on both sides of the 16-bit and 32-bit table limits",
  "Every existing test stays below 2^33; the 128/256-bit code paths are never executed by any test.",
  ["src/P2.cpp", "src/S1.cpp", "src/phi_sum.cpp", DR+"S2_trivial.cpp", DR+"S2_easy.cpp", DR+"S2_easy_libdivide.cpp", DR+"S2_hard.cpp", "src/BitSieve.cpp"],
  [("width dispatch on x and y", "src/P2.cpp, src/S1.cpp, src/phi_sum.cpp, src/deleglise-rivat"), ("next_larger_type", "include/int256_t.hpp"), ("128-bit sieve sums", "src/BitSieve.cpp")],
  hook="PRIMESUM_VP_HOOKS: lets the harness lower the limits at which the wide code paths are chosen, so that they can be compared with brute force on small x")
p("S07", "Inputs outside an algorithm's range are refused, not answered wrongly",
  "An x larger than what the chosen algorithm and alpha support ends with an error message naming the limit, and x at or below the reported limit is accepted. "
  "The reported limit grows with alpha, and options restricted to 63-bit x refuse larger x.",
  ["inputs", "configurations"], "all x up to 2^127, all alphas, every algorithm and partial-formula option",
  "No test requests an x beyond 2^33 or looks at an error message.",
  ["src/primesum.cpp", "src/app/main.cpp", DR+"pi_deleglise_rivat_parallel1.cpp"],
  [("get_max_x", "src/primesum.cpp"), ("limit checks", "src/app/main.cpp"), ("int64_cast", "src/app/main.cpp")], observe=["stderr and exit status of primesum"])
p("S08", "Progress and timing output never alter the result and stay within 0-100%",
  "With status or time output enabled the program computes and prints the same result as without them, and the partial results it prints on the way add up to it. "
  "Every percentage shown lies between 0 and 100 with the requested number of decimals, and within one phase of the computation it never decreases.",
  ["inputs", "configurations", "schedules"], "all x, all status precisions, any thread count, all algorithms and partial formulas",
  "No test enables status output.",
  ["src/S2Status.cpp", "src/print.cpp", "src/P2.cpp", "src/primesum.cpp", DR+"S2_easy_libdivide.cpp"],
  [("S2Status", "src/S2Status.cpp"), ("get_percent", "src/print.cpp"), ("set_status_precision", "src/primesum.cpp")], observe=["stdout of primesum --status[=N] --time"])
p("S09", "Legendre counting and the phi functions are exact",
  "The Legendre prime count equals the number of primes <= x, the partial sieve count equals the number of integers in [1, x] with no prime factor among the first a primes, and the partial sieve sum equals the sum of those integers. "
  "This holds for every x and a and any number of threads.",
  ["inputs"], "all x (also x < 1), all a >= 0 including a larger than the number of primes <= sqrt(x) and a > x; 64-bit and 128-bit x",
  "Only a handful of values of the count version are tested; the sum version is not tested at all.",
  ["src/phi.cpp", "src/phi_sum.cpp", "src/pi_legendre.cpp", "src/PhiTiny.cpp", "include/PhiTiny.hpp"],
  [("phi", "src/phi.cpp"), ("phi_sum", "src/phi_sum.cpp"), ("pi_legendre", "src/pi_legendre.cpp"), ("PhiTiny", "src/PhiTiny.cpp")])
p("S10", "Number-theoretic lookup tables agree with their definitions everywhere",
  "Every table entry the algorithms look up is right: prime counts, generated primes, prime sums, Moebius values, least prime factors and the compressed factor table for numbers coprime to 210. "
  "This holds for every table size and for every number of threads used to build a table.",
  ["inputs", "configurations"], "all table sizes (including 0, tiny, word boundaries, multiples of 210 and sizes that are split between threads), every index, both entry widths",
  "No table is tested directly; algorithms only touch a fraction of the entries on small inputs.",
  ["src/PiTable.cpp", "include/PiTable.hpp", "include/FactorTable.hpp", "src/FactorTable.cpp", "src/generate.cpp", "include/generate.hpp"],
  [("PiTable", "src/PiTable.cpp"), ("FactorTable", "include/FactorTable.hpp"), ("generate_*", "src/generate.cpp")])
p("S11", "The segmented sieve and its running sums match a naive model",
  "After any sequence of pre-sieving, crossing-off and queries on a segment, the sieve reports exactly the numbers a naive sieve would, and every range sum (direct, complemented or through the indexed tree) equals the exact sum of the remaining numbers. "
  "This holds for every segment position up to the largest the program can reach (2^61) and every segment size.",
  ["histories", "inputs"], "segment start up to 2^61, segment sizes, number of pre-sieved primes 0..9, any order of cross-offs and any query ranges",
  "The sieve classes have no tests; integration tests only use small segment positions.",
  ["src/BitSieve.cpp", "include/BitSieve.hpp", "include/SumBits.hpp", "include/BinaryIndexedTree.hpp", "include/Wheel.hpp", "src/Wheel.cpp"],
  [("BitSieve", "src/BitSieve.cpp"), ("BinaryIndexedTree", "include/BinaryIndexedTree.hpp"), ("Wheel", "include/Wheel.hpp")])
p("S12", "Load balancing always yields valid work distribution and makes progress",
  "For any history of measured thread times the next segment size is a positive power of two not below the minimum, and the number of segments per thread is at least one, so the computation always terminates and covers every segment exactly once. "
  "The thread count chosen for a phase is always between 1 and the requested number.",
  ["histories", "schedules"], "all x, y, z, thread counts and all sequences of non-negative measured times, including zeros, equal, tiny and huge values",
  "Timing histories in tests are whatever the machine produces; nearly all runs finish before the balancer changes anything.",
  ["src/S2LoadBalancer.cpp", "include/S2LoadBalancer.hpp", "src/primesum.cpp", "src/P2.cpp"],
  [("S2LoadBalancer::update", "src/S2LoadBalancer.cpp"), ("ideal_num_threads", "src/primesum.cpp"), ("balanceLoad", "src/P2.cpp")])
p("A01", "256-bit signed integers behave like exact two's complement arithmetic",
  "Addition, subtraction, multiplication, comparison, increments, bitwise operations, shifts of non-negative values and truncating division and remainder of 256-bit integers give the mathematically exact result whenever it fits, and the result modulo 2^256 for ring operations otherwise. "
  "Conversions from and to the built-in 8- to 128-bit integers preserve the value whenever it fits.",
  ["inputs"], "all pairs of 256-bit values, in particular around 0, +-2^64, +-2^127, +-2^128, +-2^254 and the extremes",
  "The type has no unit tests; small sums never leave its low half.",
  ["include/int256_t.hpp", "include/int128_t.hpp"], [("int256_t", "include/int256_t.hpp")])
p("A02", "128- and 256-bit integers are printed exactly in decimal",
  "Every 128- and 256-bit integer is written to a stream as its exact decimal representation, with a leading minus sign for negative values and no leading zeros. "
  "The library function taking and returning strings therefore returns exactly the decimal digits of the sum.",
  ["inputs"], "all 128-bit signed and unsigned values and all 256-bit values",
  "Tests compare numbers, never printed text; only values below 2^64 would be printed.",
  ["include/int128_t.hpp", "include/int256_t.hpp", "src/print.cpp", "src/primesum.cpp"],
  [("operator<<", "include/int128_t.hpp, include/int256_t.hpp")])
p("A03", "Integer roots, divisions, powers and logarithms are exact for every input",
  "Integer square and n-th roots return the floor of the real root, fast division equals ordinary division, and the ceiling division, integer power, clamping, power-of-two rounding, binary-search counting and min/max helpers equal their definitions for all inputs whose result fits. "
  "This includes inputs next to perfect powers where floating point estimates are off by one.",
  ["inputs"], "all 32-, 64- and 128-bit signed and unsigned inputs, concentrated on perfect powers +-1, type limits and random bit lengths; for both libraries in the repository",
  "Only a few fixed square roots are tested, nothing tests n-th roots, fast division or the other helpers near their limits.",
  ["include/imath.hpp", "include/isqrt.hpp", "include/fast_div.hpp", "include/min_max.hpp", "lib/primesieve/include/primesieve/pmath.hpp"],
  [("isqrt", "include/isqrt.hpp"), ("iroot", "include/imath.hpp"), ("fast_div", "include/fast_div.hpp")])
p("E01", "Arithmetic expressions evaluate to their exact value or are rejected",
  "Every well-formed integer expression over the documented operators evaluates to the value given by the documented precedence and associativity, as long as all intermediate values fit the integer type. "
  "Every malformed expression and every division by zero is rejected with an error and never crashes or yields a number. (Expressions nested thousands of levels deep may be refused too, but never crash.)",
  ["inputs", "programs"], "all expression strings: random syntax trees with redundant spaces and parentheses, hexadecimal and scientific notation, and arbitrary mutations of them; for all integer types the programs use",
  "One test file evaluates a fixed list of expressions for the sieve library's copy; the prime sum program's own 128-bit copy is untested.",
  ["include/calculator.hpp", "lib/primesieve/include/primesieve/calculator.hpp"], [("ExpressionParser", "include/calculator.hpp"), ("to_int128", "src/primesum.cpp")])
p("C01", "The primesum command line prints exactly the requested result",
  "For every combination and order of documented options and exactly one number expression, the program writes the exact result of the selected computation as one decimal line on standard output and exits 0. "
  "Missing, repeated or malformed numbers and unknown options produce the help text and a failure exit status, never a number.",
  ["inputs", "configurations"], "all option combinations, spellings (short, long, attached or = values), orders, and number expressions; malformed command lines",
  "No test runs the command line program with anything but --test.",
  ["src/app/main.cpp", "src/app/cmdoptions.cpp", "src/app/help.cpp", "src/print.cpp"], [("parseOptions", "src/app/cmdoptions.cpp"), ("main", "src/app/main.cpp")], observe=["stdout, stderr and exit status of primesum"])
p("Q01", "Counts of primes and prime k-tuplets are exact for every interval",
  "For every interval [start, stop] within [0, 2^64-1] the sieve library counts exactly the primes, and exactly the twins, triplets, quadruplets, quintuplets and sextuplets lying completely inside it (0 if start > stop). "
  "Counts over adjacent intervals add up for primes.",
  ["inputs", "configurations"], "all intervals, including tiny ones, ones at 0..30, at multiples of 30 +-, ending at 2^64-1, and ones long enough to be split between threads; all sieve sizes",
  "The tests check a few fixed intervals mostly starting at 0 or at powers of ten.",
  ["lib/primesieve/src/PrimeSieve.cpp", "lib/primesieve/src/ParallelSieve.cpp", "lib/primesieve/src/PrintPrimes.cpp", "lib/primesieve/src/Erat.cpp", "lib/primesieve/src/EratSmall.cpp", "lib/primesieve/src/EratMedium.cpp", "lib/primesieve/src/EratBig.cpp", "lib/primesieve/src/PreSieve.cpp"],
  [("PrimeSieve::sieve", "lib/primesieve/src/PrimeSieve.cpp"), ("ParallelSieve::sieve", "lib/primesieve/src/ParallelSieve.cpp"), ("Erat*", "lib/primesieve/src")])
p("Q02", "Generated prime arrays contain exactly the requested primes",
  "Generating primes for an interval appends exactly the primes of that interval in increasing order to the vector, and generating n primes appends exactly the first n primes >= start. "
  "Elements already in the vector are kept, and a request that would need primes above 2^64 fails with an error instead of returning wrong numbers.",
  ["inputs", "histories"], "all intervals, all n, all element types that can hold the primes, vectors that already contain data, ranges next to 2^64",
  "Tests generate a few ranges starting at small numbers into empty vectors.",
  ["lib/primesieve/include/primesieve/StorePrimes.hpp", "lib/primesieve/include/primesieve.hpp", "lib/primesieve/src/PrimeGenerator.cpp"],
  [("store_primes / store_n_primes", "lib/primesieve/include/primesieve/StorePrimes.hpp"), ("PrimeGenerator", "lib/primesieve/src/PrimeGenerator.cpp")])
p("Q03", "The n-th prime search is exact in both directions from any start",
  "For n > 0 the n-th prime greater than start is returned, for n = 0 the first prime >= start, and for n < 0 the |n|-th prime below start. "
  "If no such prime exists (below 2 or above 2^64) an error is reported instead of a number.",
  ["inputs", "configurations"], "all n (both signs, small and large enough to use counting) and starts, including starts at primes, at 0..5, and next to 2^64",
  "Tests use a few fixed (n, start) pairs.",
  ["lib/primesieve/src/nthPrime.cpp", "lib/primesieve/src/api.cpp"], [("PrimeSieve::nthPrime", "lib/primesieve/src/nthPrime.cpp")])
p("Q04", "Prime iterators walk the primes correctly in any order of operations",
  "After any sequence of next, previous, skip-to and move operations a prime iterator returns exactly the neighbouring prime of its current position, whatever stop hint was given. "
  "Walking below 2 yields 0, walking above the largest 64-bit prime yields the maximum 64-bit value, and the walk can be resumed from there.",
  ["histories", "inputs"], "all operation sequences, all starts in [0, 2^64-1], all stop hints (before, at, after the start), direction changes at batch boundaries",
  "Tests walk in one direction from a few starts.",
  ["lib/primesieve/src/iterator.cpp", "lib/primesieve/src/iterator-c.cpp", "lib/primesieve/src/IteratorHelper.cpp", "lib/primesieve/include/primesieve/iterator.hpp", "lib/primesieve/include/primesieve/iterator.h", "lib/primesieve/src/PrimeGenerator.cpp"],
  [("generate_next_primes / generate_prev_primes", "lib/primesieve/src/iterator.cpp"), ("IteratorHelper", "lib/primesieve/src/IteratorHelper.cpp")],
  state=[("start_/stop_/dist_", "the interval of the current batch", "lib/primesieve/include/primesieve/iterator.hpp")])
p("Q05", "The C interface mirrors the C++ interface and reports errors by errno",
  "Every C function returns the same numbers as its C++ counterpart, for every element type of generated arrays. "
  "When an operation cannot succeed it returns the error value (or a null array), sets errno to EDOM and leaves the library usable.",
  ["inputs", "histories"], "all C functions, all arguments including invalid element types and impossible requests, followed by further valid calls",
  "Tests call four C functions on fixed arguments and never provoke an error.",
  ["lib/primesieve/src/api-c.cpp", "lib/primesieve/src/iterator-c.cpp", "lib/primesieve/include/primesieve.h"],
  [("api-c", "lib/primesieve/src/api-c.cpp"), ("iterator-c", "lib/primesieve/src/iterator-c.cpp")])
p("Q06", "The sieve program prints, counts and finds exactly what its options request",
  "The primesieve program prints or counts exactly the primes or k-tuplets of the requested interval (or finds the requested n-th prime) for every documented combination of options, and exits 0. "
  "Invalid options, numbers or intervals that do not fit 64 bits lead to an error message and a failure status, never to a wrong result.",
  ["inputs", "configurations"], "all option combinations and spellings, all intervals (START STOP, STOP, START with distance), print and count modes 1..6, malformed command lines",
  "The command line tests only count from fixed starts; printing and distances near the limit are not tested.",
  ["lib/primesieve/src/app/main.cpp", "lib/primesieve/src/app/cmdoptions.cpp", "lib/primesieve/src/PrintPrimes.cpp"],
  [("parseOptions", "lib/primesieve/src/app/cmdoptions.cpp"), ("PrintPrimes", "lib/primesieve/src/PrintPrimes.cpp")], observe=["stdout, stderr and exit status of primesieve"])
p("Q07", "Sieve size and thread settings affect speed only and are sanitised",
  "Whatever sieve size or thread number is set, all counts, arrays, n-th primes and iterators return the same values. "
  "The setting reported back is the requested one clamped to its valid range, with the sieve size rounded down to a power of two between 8 and 4096 KiB.",
  ["configurations", "inputs"], "all integer settings (negative, zero, huge, not powers of two) combined with any operation",
  "Tests run with the default settings of the machine.",
  ["lib/primesieve/src/api.cpp", "lib/primesieve/src/Erat.cpp", "lib/primesieve/src/PrimeSieve.cpp", "lib/primesieve/src/ParallelSieve.cpp", "lib/primesieve/src/EratBig.cpp", "lib/primesieve/src/MemoryPool.cpp"],
  [("set_sieve_size / set_num_threads", "lib/primesieve/src/api.cpp"), ("EratBig buckets", "lib/primesieve/src/EratBig.cpp")])
p("Q08", "Independent library calls can run concurrently without races",
  "Iterators, counts, generated arrays and n-th prime searches used from different threads at the same time return the same values as when used alone. "
  "No data race occurs, neither between such calls nor among the worker threads of one call.",
  ["schedules", "inputs"], "any mix of concurrent calls on separate objects from several threads, under any interleaving",
  "All tests are single threaded apart from the library's own workers, and run without a race detector.",
  ["lib/primesieve/src/ParallelSieve.cpp", "lib/primesieve/src/api.cpp", "lib/primesieve/src/PreSieve.cpp", "lib/primesieve/src/PrimeSieve.cpp"],
  [("ParallelSieve tasks", "lib/primesieve/src/ParallelSieve.cpp"), ("global settings", "lib/primesieve/src/api.cpp")])
p("M01", "No input makes the programs access invalid memory or execute undefined behaviour",
  "For every valid input and every documented parameter, none of the algorithms, tables, sieves, iterators or parsers reads or writes outside its memory, leaks memory, or executes undefined arithmetic. "
  "Internal consistency assertions never fail.",
  ["inputs", "histories"], "all inputs of all operations of both libraries, exercised with memory and undefined-behaviour detection and assertions enabled",
  "Tests run optimised binaries without sanitizers and with assertions disabled.",
  ["src", "include", "lib/primesieve/src", "lib/primesieve/include"],
  [("table and segment bounds", "include/PiTable.hpp, include/BitSieve.hpp, include/FactorTable.hpp"), ("bucket memory", "lib/primesieve/src/MemoryPool.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
