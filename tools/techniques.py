TECH.update({
 "S01": ("property-based differential testing of pi(x) against exact oracles (prefix sums, Lucy_Hedgehog, published values for powers of ten, differences summed by an independent sieve)", "x up to 3*10^7 densely, up to 10^11 against Lucy_Hedgehog, beyond that powers of ten and windows x..x+d whose primes are summed independently. Exploration."),
 "S02": ("property-based differential testing: every algorithm and build variant against the exact sum and against each other", "LMO algorithms up to their practical range, both S2_easy variants. Exploration."),
 "S03": ("schedule exploration: every OpenMP region is run by a shim which executes the threads in generated orders (seeded, shrinkable), with generated clock readings and thread thresholds; plus ThreadSanitizer runs with real threads", "Schedules are explored at the granularity of critical sections / chunk fetches, not of single memory accesses; races between those are left to ThreadSanitizer."),
 "S04": ("metamorphic / differential testing: generated tuning factors against the exact sum", "All alpha from below 1 to far above the clamp. Exploration."),
 "S05": ("property-based testing of every partial formula against its mathematical definition computed by an independent implementation", "x up to 10^18 for the formulas whose definition can be evaluated. Exploration."),
 "S06": ("differential testing of the narrow and wide integer paths (limits lowered by a compile-time guarded hook) against definitional oracles", "The wide paths are forced for small inputs through PRIMESUM_VP_HOOKS; a few genuine wide inputs."),
 "S08": ("metamorphic testing of progress output (same result with and without), history invariants of the printed percentages under generated schedules and clocks, plus ThreadSanitizer", "Library level for all formulas, schedules as in S03."),
 "S09": ("property-based testing of phi, phi_sum and Legendre's pi against definitional oracles", "phi up to x = 10^12 depending on a. Exploration."),
 "S10": ("property-based testing of the lookup tables against independent sieves and definitions", "Random sizes and positions, with the wide element types forced. Exploration."),
 "S11": ("stateful model-based testing: histories of pre_sieve/cross_off/count against a set model", "Generated histories with shrinking. Exploration."),
 "S12": ("stateful model-based testing of the load balancers: generated run-time histories, invariants over the handed out work", "Generated histories with shrinking. Exploration."),
 "Q01": ("property-based differential testing of count_*() against a prime walker with own pattern matching; additivity and thread-count metamorphic relations", "Windows anywhere in [0, 2^64). Exploration."),
 "Q02": ("property-based differential testing of generate_primes / generate_n_primes for every element type", "Windows anywhere in [0, 2^64). Exploration."),
 "Q03": ("property-based differential testing of nth_prime", "n forwards and backwards from starts anywhere in [0, 2^64). Exploration."),
 "Q04": ("stateful model-based testing: histories of next_prime/prev_prime/skipto (C++ and C) against a reference walker", "Generated histories with shrinking, positions anywhere in [0, 2^64). Exploration."),
 "Q05": ("property-based testing of the C API with injected allocation failures: value and errno against the model", "Every allocation index of a call may fail. Exploration."),
 "Q07": ("stateful testing of the settings against a model and metamorphic testing of results under changed settings", "Generated values over the whole int range. Exploration."),
 "Q08": ("generated concurrent calls, results against the sequential oracle, plus ThreadSanitizer", "Real threads: interleavings are sampled, not enumerated."),
 "E01": ("grammar-based generation of arithmetic expressions with a reference evaluator of unbounded integers (own parser and tree evaluator), shrinking; the same under ASan + UBSan", "Trees of generated shape for every operator, spelling and value type; arbitrary text for refusals. Exploration."),
 "C01": ("generated command lines (options, spellings of numbers, order) against the exact result and the documented output format; generated invalid command lines must be refused", "Both builds of the program (with and without libdivide). Exploration."),
 "S07": ("generated numbers around the computable limit of each algorithm and tuning factor: refusal or acceptance against the documented limit, metamorphic search of the limit itself", "Accepted computations are stopped once they have started: whether x is refused is decided, not its sum."),
 "Q06": ("generated command lines against an independent sieve (counts, printed lists, nth primes) and generated invalid command lines which must be refused", "Intervals anywhere in [0, 2^64). Exploration."),
 "M01": ("the generated cases of the other properties, executed with ASan, UBSan (including float-cast-overflow) and assertions, and a part of them below valgrind memcheck", "Sampled inputs; uninitialized reads are only seen in the part below memcheck or if they change a result."),
})
