prop("C01", "The IEEE backend is transparent",
     "Whatever the operands and whatever debug, formatting or counting options are set, every add, sub, mul, div, fma and "
     "double-to-float cast routed through the IEEE backend returns exactly the IEEE-754 round-to-nearest result of the native "
     "operation (any NaN for a NaN). With operation counting enabled, the counter of that operation, and no other, grows by one; "
     "otherwise no counter moves.",
     ["inputs", "configurations"], "every pair or triple of binary32/binary64 bit patterns, every combination of options, every counter value",
     "Tests run a handful of operands and compare printed text; signed zeros, NaN, subnormals, infinities and double rounding are not sampled.",
     [B + "ieee/interflop_ieee.c", STD + "fma/interflop_fma.c"],
     [("arithmetic entry points", B + "ieee/interflop_ieee.c"), ("fused multiply-add", STD + "fma/interflop_fma.c")],
     "Every obligation generated from interflop_ieee.c and interflop_fma.c is discharged for all inputs. Trusted: CBMC's C and IEEE-754 semantics, "
     "C meaning of isless & co., hardware FMA built-in taken as the correctly rounded fma; printing calls do not touch the operands.")
prop("C02", "IEEE comparisons follow the IEEE-754 predicate table",
     "For every comparison predicate and every pair of operands, including NaN, infinities and signed zeros, the IEEE backend's "
     "comparison returns true exactly when the LLVM predicate does: ordered predicates are false and unordered predicates true if "
     "either operand is NaN, otherwise the outcome is the relation's.",
     ["inputs", "configurations"], "every predicate, every pair of binary32/binary64 bit patterns, every debug option",
     "The tests only check that comparisons are interposed on ordinary numbers; no test compares with a NaN.",
     [B + "ieee/interflop_ieee.c"], [("comparison entry points", B + "ieee/interflop_ieee.c")],
     "All obligations discharged for all operands and predicates. Trusted: as C01.")
prop("C03", "Random streams: reproducible from the seed, in range, never degenerate",
     "With a fixed seed, the sequence of draws of a thread is a function of the seed and of the rank at which that thread first drew, "
     "independent of clock and system thread ids: xoroshiro128++ started at the SplitMix64 expansion of seed xor rank, so distinct seeds "
     "give distinct streams. Every draw, seeded or not, leaves a valid non-zero generator state, every real draw lies strictly inside (0,1) in the "
     "cell named by the generator's high bits, each draw advances the stream once, and a running stream is never reseeded by a repeated initialisation.",
     ["inputs", "histories"], "every seed, rank, clock value, system thread id and generator state",
     "Tests fix one or two seeds and look at a few draws; degenerate seeds, the (0,1) end points and clock-dependence need all 2^64 seeds and 2^128 states.",
     [STD + "rng/vfc_rng.c", STD + "rng/xoroshiro128.c", STD + "rng/splitmix64.c"],
     [("draw functions and lazy seeding", STD + "rng/vfc_rng.c"), ("generator step", STD + "rng/xoroshiro128.c")],
     "All obligations discharged. Atomicity of the rank counter's fetch-and-add is trusted (its sequential meaning is proved); uniformity is proved "
     "relative to uniform generator output bits.")
prop("C04", "MCA backend computes Monte Carlo arithmetic",
     "For every operation, operand, virtual precision, mode (ieee, mca, pb, rr), error mode, sparsity and daz/ftz setting, the MCA backend's result is "
     "the operation carried out in the next wider format, with noise 2^(e-(t-1)).xi (relative) and 2^E.xi (absolute), xi uniform in (-1/2,1/2), added to "
     "the operands (pb, mca) and to the result (rr, mca; rr leaves results representable on t bits untouched), then rounded once to the format. "
     "Zeros, infinities and NaN are never perturbed, daz/ftz replace exactly the subnormal inputs/outputs by zero, and noise is drawn from one stream per thread "
     "seeded as configured, one draw per perturbation (plus one per sparsity decision).",
     ["inputs", "configurations"], "all operands, all precisions 1..2^24, all absolute exponents, all draws of the generator, all modes and flags",
     "Tests compare statistics of a few kernels or one fixed seed; a wrong scale for one mode, operand class or exponent range is invisible in them.",
     [B + "mcaquad/interflop_mca.c", STD + "common/float_utils.h", STD + "common/options.h"],
     [("noise and inexact functions, operation macros", B + "mcaquad/interflop_mca.c")],
     "All obligations discharged (floating-point operators uninterpreted where the contract and the code apply the same ones). The random library is represented "
     "by its contract (C03).")
prop("C05", "MCA integer backend adds noise at the virtual last bit, in the significand",
     "For every operation, operand, mode (ieee, mca, pb, rr), sparsity and daz/ftz setting and every precision t the scheme can express, the integer MCA "
     "backend's result is the operation in the next wider format where each perturbed value is its own encoding plus a signed integer made of the leading bits "
     "of one random word, sized so that the noise is uniform in 2^(e-(t-1)).(-1/2,1/2), and the result is rounded once to the format. Zeros, infinities and NaN are "
     "never perturbed, results exact on t bits are left alone in rr, daz/ftz replace exactly the subnormal inputs/outputs by zero, one draw per perturbation.",
     ["inputs", "configurations"], "all operands, precisions 1..52 (float) and 1..112 (double), all random words, all modes and flags",
     "Tests run fixed kernels with the default precisions; an off-by-one shift or a missed special value changes only rare inputs or a statistic's last digit.",
     [B + "mcaint/interflop_mca_int.c"], [("inexact functions, operation macros", B + "mcaint/interflop_mca_int.c")],
     "All obligations discharged. Signed addition on the bit pattern is taken to wrap, as compiled. The random library is represented by its contract (C03).")
prop("C06", "Bitmask backend rewrites exactly the bits beyond the virtual precision",
     "For every operation, operand, virtual precision t, operator (zero, one, rand), mode (ieee, ib, ob, full) and daz/ftz setting, a perturbed value keeps its sign, "
     "exponent and t leading significant bits, and every later significant bit is cleared, set or xored with a random bit, as the operator says. Operands are perturbed "
     "in ib and full, the result in ob (unless exact on t bits) and full, nothing in ieee; zeros, infinities and NaN never; daz/ftz replace exactly the "
     "subnormal inputs/outputs by zero.",
     ["inputs", "configurations"], "all operands, all precisions 1..2^24, all random words, all operators, modes and flags",
     "Tests run a few precisions on a few operands, none subnormal.",
     [B + "bitmask/interflop_bitmask.c"], [("inexact macros, configure, operation macros", B + "bitmask/interflop_bitmask.c")],
     "All obligations discharged. The random library is represented by its contract (C03).")
prop("C07", "Cancellation backend adds noise exactly when a sum cancels",
     "For every operand pair, tolerance, seed and draw, an addition or subtraction whose result exponent is at least `tolerance` below the larger operand exponent "
     "(c digits cancelled) returns the IEEE result plus xi.2^(E-(c-1)), xi uniform in (-1/2,1/2), and, if warnings are on, is reported once; every other sum, "
     "and every product, quotient, fma and cast, returns the native result without drawing.",
     ["inputs", "configurations"], "all operands, tolerances, draws and flags",
     "The test checks that noise appears for one cancelling pair; the noise's magnitude and the exact boundary are not observed.",
     [B + "cancellation/interflop_cancellation.c"], [("cancel macro and entry points", B + "cancellation/interflop_cancellation.c")],
     "All obligations discharged. The random library is represented by its contract (C03).")
prop("C08", "VPREC rounds correctly into the virtual format",
     "With the relative error model, for every value and every format of p mantissa bits and r exponent bits, VPREC's rounding returns the nearest number of that format, "
     "ties to even, gradual underflow at 2^(1-emax) and overflow to infinity above the largest finite number; daz/ftz make the format's subnormals zero; "
     "zeros, infinities and NaN are unchanged. Operations apply it to the operands (ib, full) and to the result (ob, full).",
     ["inputs", "configurations"], "every binary32/binary64 value, every p in 1..23 / 1..52, every r in 2..8 / 2..11",
     "Tests compare sampled values against MPFR; binade boundaries, carries, double rounding near the subnormal boundary need every value.",
     [B + "vprec/interflop_vprec.c", B + "vprec/common/vprec_tools.c"],
     [("normal and denormal rounding", B + "vprec/common/vprec_tools.c"), ("range handling", B + "vprec/interflop_vprec.c")],
     "All obligations discharged bit-precisely against an integer-only specification. An underflow to zero gives +0, as the reference files of the tests ask; "
     "half the smallest subnormal rounds up, as the code documents.")
prop("C09", "VPREC operations round operands and result as the mode says",
     "For every operand and format, each VPREC operation (relative error) is the IEEE operation on operands rounded into the virtual format (ib, full) with the result "
     "rounded into it (ob, full), nothing in ieee mode; float operations use the binary32 format and double operations the binary64 format; a double-to-float cast "
     "rounds once, into the target format; the configuration is never changed by an operation.",
     ["inputs", "configurations"], "all operands, formats, modes and flags",
     "Tests sample operands and formats and never mix float and double settings.",
     [B + "vprec/interflop_vprec.c"], [("operation entry points", B + "vprec/interflop_vprec.c")],
     "All obligations discharged; the pipeline is proved against the rounding function's contract, itself proved.")
prop("C10", "VPREC absolute error model rounds at the threshold",
     "In error modes abs and all, for every value below the format's overflow bound and every threshold 2^q, VPREC's rounding returns the nearest multiple of 2^g, "
     "g = max(q, max(E,emin)-P), E the value's exponent, P the virtual precision (all) or the format's own (abs), ties to even except that half the threshold itself "
     "goes up to it; values below half the threshold become zero; daz/ftz make the format's subnormals zero; zeros, infinities and NaN are unchanged.",
     ["inputs", "configurations"], "every binary32/binary64 value below 2^emax, every p and r, every threshold exponent of magnitude below 2^13",
     "Tests use one threshold on a few values, none near or below the normal range of the virtual format.",
     [B + "vprec/interflop_vprec.c", B + "vprec/common/vprec_tools.c"],
     [("absolute error handling", B + "vprec/interflop_vprec.c")],
     "All obligations discharged bit-precisely against an integer-only specification.")
prop("C11", "What the user asks for is what runs: options, defaults, user calls",
     "For every backend, each documented option (by its long name) sets the parameter it names to the value given, whatever was set before, and touches no other; "
     "an argument that is not valid for it (unknown word, number out of bounds, not a number) is an error and never silently something else; without options the parameters "
     "are the documented defaults; initialisation hands the frontend this backend's own entry point for each operation and keeps the settings; configure() and "
     "interflop_call (set precision, set range, perturb a value) have the same effect on exactly the named parameters or value; the IEEE backend's final report "
     "prints each counter under its own name.",
     ["inputs", "histories", "configurations"], "every option, every listed word (any letter case where the backend ignores it), every number, every previous setting",
     "Tests launch a few option combinations and look at results; a swapped field, a preset off by one or a default that only matters in one mode goes unseen.",
     [B + x for x in ("ieee/interflop_ieee.c", "mcaquad/interflop_mca.c", "mcaint/interflop_mca_int.c", "bitmask/interflop_bitmask.c",
                      "cancellation/interflop_cancellation.c", "vprec/interflop_vprec.c")],
     [("option parsers, defaults, vtables, configure, user_call", B + "mcaquad/interflop_mca.c")],
     "One option from an arbitrary state, so any sequence by induction. argp is represented by its contract (the parser is called with the key declared for the option name); "
     "strtol/strtod by any value or an error, integers within int range; word arguments range over the accepted words, case variants and near misses.")
W = "src/vfcwrapper/"
prop("C12", "Every instrumented operation reaches every loaded backend, last result wins",
     "For any list of up to 16 loaded backends, each implementing any subset of the hooks, an instrumented scalar operation (+ - * / fma, comparison, double-to-float cast) "
     "calls the hook of every backend that implements it, exactly once, in loading order, with the program's operands unchanged and that backend's own context, and returns "
     "what the last of them produced; a vector operation of 2, 4, 8 or 16 lanes is the scalar one on each lane, in order, lane results in place; interflop_call reaches every backend; "
     "at exit every backend is finalised once.",
     ["inputs", "configurations", "histories"], "every backend list up to the maximum 16, every subset of hooks, all operands, every vector width",
     "Tests load one or two complete backends; a result taken from the wrong backend, a context mixed up or a lane swapped needs lists and hook subsets no test builds.",
     [W + "main.c.in"], [("operation macros, vector wrappers, interflop_call, vfc_atexit", W + "main.c.in")],
     "All obligations discharged. Backend hooks are contracts over an uninterpreted operator (any backend). 128-bit _Float128 hooks do not exist in this tree.")
prop("C13", "With delta-debug filters only selected addresses are perturbed",
     "In a ddebug build, for every call address and any inclusion and exclusion lists: an operation whose address is not selected (not in the inclusion list when one is given, or in the "
     "exclusion list) returns the native IEEE result and calls no backend; every other operation behaves as without filters (C12). When an inclusion file is being generated, each "
     "executed address is recorded and perturbed normally.",
     ["inputs", "configurations"], "all operands, addresses, filter settings and backend lists up to 16",
     "The test suite's ddebug run checks which line a search ends with, on one program.",
     [W + "main.c.in"], [("ddebug macro and operation wrappers", W + "main.c.in")],
     "All obligations discharged; the address sets are represented by the hash map's contract (C15). An excluded fma may be fused or not: the compiler decides.")
prop("C14", "Startup loads exactly the backends VFC_BACKENDS names, each with its words",
     "For every VFC_BACKENDS value within the limits, each semicolon-separated part loads the library named by its first word, in order, and hands it exactly its own words as argv "
     "(NULL-terminated); VFC_BACKENDS itself is left unchanged; each backend gets its own context, working library functions, and its vtable is the one called later; a program is refused at start (not run unperturbed) "
     "when no backend is given, a library or its init is missing, there are too many backends or words, or no backend implements comparison, fma or cast while the program was instrumented for it.",
     ["inputs", "configurations", "faults"], "every string of up to 17 backends of up to 3 words, or one backend of up to 257 words, every loading failure",
     "Tests use one to three backends with a few options; limits and failing loads are not run.",
     [W + "main.c.in"], [("vfc_init, parse_vfc_backends_env, load and init helpers", W + "main.c.in")],
     "Bounded in the number of words and backends (the limits themselves are crossed). dlopen, dlsym, getenv and strtok_r are represented by their contracts.", level="other")
prop("C15", "The runtime's hash map is a map, whatever was inserted and removed",
     "After any history of insertions and removals, the map used for addresses, function tables and probes answers exactly: have(v) iff v was inserted and not removed since, get(k) is a value "
     "inserted under k (the one, if there is one) or NULL if there is none, also when several elements share a key, num_items is the number of elements, asking changes nothing, growth loses nothing and frees the old table once, freeing the elements frees each exactly once. "
     "The key of a name depends on its characters only.",
     ["inputs", "histories"], "every key, value and table content within the invariant, every capacity checked (8, 16, grown to 16; 32 in thorough)",
     "Tests only fill a map with a few keys; collisions with removed elements and growth with a full probe sequence need particular key patterns.",
     ["src/interflop-stdlib/hashmap/vfc_hashmap.c"], [("all operations", "src/interflop-stdlib/hashmap/vfc_hashmap.c")],
     "Each operation proved from every state within a representation invariant, and the invariant proved preserved, so any history; bounded by the table capacity. "
     "The content is any set of (key, value) pairs with distinct values, keys may repeat; the same pair is given again only while nothing was removed, as every caller in the tree does. Memory allocation succeeds.", level="other")
prop("C16", "Probes are stored once under their names and exported exactly",
     "For every sequence of vfc_probe calls (C and Fortran forms, plain, absolute and relative checks): a probe whose test/variable pair was not used before and holds no comma is stored with exactly its value, its accuracy threshold "
     "(0 for a plain probe) and its kind of check, without disturbing the other probes; a name already used or holding a comma stops the program with an error and is never silently overwritten or dropped. vfc_dump_probes writes to "
     "VFC_PROBES_OUTPUT the header line and exactly one line for each stored probe, its numbers in an exact format, and frees everything once; without the variable no file is written; a file that cannot be written is an error.",
     ["inputs", "histories", "faults"], "every table content of up to 3 probes with names of up to 2 characters, every value, every hash collision",
     "Tests dump a handful of fixed probes; hash collisions, special values and refused names are not sampled.",
     ["src/common/vfc_probes.c"], [("vfc_probe and variants, vfc_dump_probes, vfc_init_probes", "src/common/vfc_probes.c")],
     "Bounded by the number of probes and the length of names; from any table content, so any history. The hash map is represented by its contract (C15), stdio by a recorder.", level="other")
prop("C17", "Backends see every instrumented call and return, with the call stack",
     "With function instrumentation, on every call of an instrumented function the function is pushed on the call stack (recorded once under its name, with its attributes, functions with the same hash told apart), and on return popped; "
     "when it uses float or double every loaded backend that asks for it is told exactly once, in order, with the stack whose top is that function and all the arguments from the first; a call beyond the stack's limit is an error, never an overrun.",
     ["inputs", "histories", "configurations"], "every stack depth class (empty, middle, full), every table of up to 3 functions, every list of up to 16 backends, up to 2 arguments",
     "Tests run one backend (VPREC) with shallow calls; several backends and hash collisions are not run.",
     [W + "funcinstr.c", W + "main.c.in"], [("vfc_enter_function, vfc_exit_function, init and quit", W + "funcinstr.c")],
     "Bounded: tables of 3 functions, names of up to 2 characters, stack depths at and next to both ends and in the middle (the code looks at the stack only from its top), up to 2 arguments.", level="other")
VD = "src/backends/interflop-backend-vprec/"
prop("C18", "VPREC rounds and profiles function by function as its profile says",
     "With VPREC function instrumentation, on every call and return: in modes operations and all, operations of a user function use the precisions its profile gives (those of the caller again after the return), and stay untouched otherwise; "
     "in modes arguments and all, each element of each float or double argument is rounded exactly once to the format its profile gives, on the way in or out as the VPREC mode says, and nothing else is written; "
     "the ranges recorded cover exactly all finite values seen; a function not described yet is recorded with its attributes and full precision; functions with the same hash are told apart; the other functions are undisturbed. "
     "A profile written at exit and read at the next start gives back every function, argument, precision and range.",
     ["inputs", "histories", "configurations"], "every table of up to 2 functions and collision of hashes, every value, precision, mode and log setting, up to 2 arguments of up to 2 elements, null pointers",
     "Tests compare one profile of one program; ranges at the limits, arrays, null arguments and colliding names are not run.",
     [VD + "interflop_vprec_function_instrumentation.c", "src/interflop-stdlib/interflop_stdlib.c"],
     [("_vfi_enter_function, _vfi_exit_function, _vfi_init, _vfi_finalize", VD + "interflop_vprec_function_instrumentation.c")],
     "Bounded by the number of functions, arguments and elements; from any table content, so any history. The hash map (C15) and rounding to a format (C08, C09) are represented by their contracts, the file by the words printed.", level="other")
prop("C19", "An error always stops the program; messages follow the logger's variables",
     "Whatever VFC_BACKENDS_LOGGER, _LOGGER_LEVEL, _COLORED_LOGGER and _LOGFILE hold: an error reported by the runtime or a backend is printed whole on the standard error and ends the program with a failure status, it never returns; "
     "a warning is printed on the standard error and never ends the program; an information or debug message is printed whole (level, backend's name, text, arguments) on the stream named exactly when the logger is on and the level admits it. "
     "The log file has the name given followed by the thread's id, keeps what it held, and is refused with an error, never overrun, when it cannot be opened or its name is too long; a library function handed over by name is installed under that name and no other.",
     ["inputs", "configurations", "faults"], "every combination of the variables' documented, differently cased, unknown and missing values, every message level and argument, a log file that opens or not, every function name",
     "Every refusal of C11, C14, C16, C17 ends in this function; tests never combine a disabled logger, a level and an error, nor use long file names.",
     [STD + "iostream/logger.c", STD + "interflop_stdlib.c"], [("logger_debug/info/warning/error and the v-forms, logger_init", STD + "iostream/logger.c"), ("interflop_set_handler", STD + "interflop_stdlib.c")],
     "All obligations discharged for the messages; the log file's name is bounded stand-in work: 1, 1012 and 1100 characters. Library functions by stand-ins that keep the text printed.", level="other")
prop("C20", "A delta-debug run selects exactly the listed addresses, and lists those run",
     "In a ddebug build the inclusion and exclusion sets of a run hold exactly the addresses listed in the files named by VFC_DDEBUG_INCLUDE and VFC_DDEBUG_EXCLUDE; a file that cannot be read, a line that holds no address, or INCLUDE together with GEN stops "
     "the program at start (it does not run unfiltered). A run with VFC_DDEBUG_GEN writes at exit one line for each distinct address executed, in a file that replaces an earlier one.",
     ["inputs", "configurations", "faults"], "every address below 2^48, filter files of up to 2 lines, well formed or not, readable or not, up to 3 recorded addresses",
     "The ddebug test runs a single search on well-formed files.",
     [W + "main.c.in"], [("ddebug_init and the generation at exit", W + "main.c.in")],
     "Bounded: filter files of up to 2 lines, 3 recorded addresses. The hash map by its contract (C15), stdio, fork and exec by stand-ins; addr2line itself is trusted.", level="other")
prop("C21", "Instrumentation replaces every selected floating-point operation, no other",
     "In a program compiled with verificarlo every scalar and vector add, sub, mul, div, and with the corresponding options comparison, fma and cast, of a selected function is replaced by one call of the runtime with the same operands, predicate and result type; "
     "functions excluded or not included are left as they were, and the program is otherwise unchanged.",
     ["inputs", "configurations"], "every LLVM module and every selection list",
     "Tests instrument a few programs.",
     ["src/libvfcinstrument/libVFCInstrument.cpp"], [("VfclibInst module pass", "src/libvfcinstrument/libVFCInstrument.cpp")], "",
     na="The pass is C++ over the LLVM API (class hierarchies, templates, dyn_cast over LLVM's own IR objects). No contract-based verifier present reads it: CBMC's C++ front end rejects the LLVM headers, frama-c has no WP and no C++ front end. What the replaced calls do is under contract (C12, C13, C17).")
prop("C22", "Delta debugging ends with a minimal set of unstable addresses",
     "The set reported by vfc_ddebug makes the comparison script fail, and no set obtained by removing one of its elements does, for every deterministic script.",
     ["inputs", "histories"], "every set of addresses and every outcome function",
     "Tests run the search on one program.",
     ["src/tools/ddebug/DD.py", "src/tools/ddebug/DD_stoch.py"], [("ddmin search", "src/tools/ddebug/DD.py")], "",
     na="Python, with callbacks that run external programs. No deductive verifier for Python is present (crosshair and hypothesis explore, they do not discharge contracts for all inputs); the filters the search relies on are under contract in C13 and C20.")
prop("C23", "CI reports show the statistics of the probes that were written",
     "For every set of probe files, each figure of a CI run (mean, standard deviation, significant digits, lower bounds, pass or fail of a check) is the documented statistic of the values exported for that probe.",
     ["inputs"], "every set of probe values", "Tests do not cover the report's figures.",
     ["src/tools/ci/test_data_processing.py", "src/tools/ci/test.py"], [("data processing", "src/tools/ci/test_data_processing.py")], "",
     na="Python over numpy, pandas and significantdigits, none of which a deductive verifier present can read. The values exported are under contract in C16.")
prop("C24", "PRISM rounds up or down with the documented probabilities",
     "The PRISM backend returns one of the two neighbours of the exact result, chosen with the probability of the mode (stochastic or up-down rounding), for scalars and every vector width.",
     ["inputs", "configurations"], "all operands and draws", "Tests sample a few sums.",
     ["src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp"], [("PRISM pass and backend", "src/libvfcinstrumentprism/libVFCInstrumentPRISM.cpp")], "",
     na="The arithmetic is in a separate repository (a git submodule, absent here: src/backends/prism is empty); what is here is an LLVM pass in C++, see C21.")
