from runner import Job, check, BACK, REPO, DEFAULT_FLAGS
WRAP = [f for f in DEFAULT_FLAGS if f != "--signed-overflow-check"]
AWRAP = ("signed addition on the bit pattern wraps (two's complement), as the compilers used emit it",)
IEEE = [BACK + "ieee"]
ops = ["add", "sub", "mul", "div"]
P = {}
P["C01"] = dict(jobs=[Job("ieee.c", f"h_{o}_{t}", f"interflop_ieee_{o}_{t}", incs=IEEE, unwind=30, mode='direct')
                      for o in ops + ["fma"] for t in ("float", "double")]
                + [Job("ieee.c", "h_cast_double_to_float", "interflop_ieee_cast_double_to_float", incs=IEEE, unwind=30, mode='direct')])
P["C02"] = dict(jobs=[Job("ieee.c", f"h_cmp_{t}", f"interflop_ieee_cmp_{t}", incs=IEEE, unwind=30, mode='direct')
                      for t in ("float", "double")])
P["C03"] = dict(jobs=[Job("rng.c", h, f, unwind=3, mode="direct", incs=[REPO + "/src/interflop-stdlib"],
                          defs=["VF_ABS_SEED"] if h in ("h_u32", "h_u64", "h_d01", "h_start") else []) for h, f in [
    ("h_next", "next"), ("h_start", "get_rand_uint64"), ("h_next_double", "next_double"), ("h_next_double_uniform", "next_double"),
    ("h_next_seed", "next_seed"), ("h_u32", "get_rand_uint32"), ("h_u64", "get_rand_uint64"),
    ("h_d01", "get_rand_double01"), ("h_any_u32", "get_rand_uint32"), ("h_any_u64", "get_rand_uint64"),
    ("h_any_d01", "get_rand_double01"), ("h_cont", "get_rand_uint64"), ("h_init", "_init_rng_state_struct"),
    ("h_tid", "_get_new_tid"), ("h_mix_step1", "next_seed"), ("h_mix_step2", "next_seed")]])
OPS13 = [f"{o}_{t}" for o in ops + ["fma"] for t in ("float", "double")]
MQ = [BACK + "mcaquad"]
CMQ = (("_mcaquad_inexact_binary64", "stub_inexact64"), ("_mcaquad_inexact_binary128", "stub_inexact128"))
P["C04"] = dict(jobs=[Job("mcaquad.c", f"h_inexact{n}", f"_mcaquad_inexact_binary{n}", defs=["VF_INTERNAL"], incs=MQ, unwind=14,
                          internal=True, solvers=("uf",), timeout=120) for n in (64, 128)]
                + [Job("mcaquad.c", f"h_{o}", f"interflop_mcaquad_{o}", incs=MQ, unwind=14, comp=CMQ,
                       solvers=("uf", "cadical"), timeout=240) for o in OPS13]
                + [Job("mcaquad.c", "h_cast", "interflop_mcaquad_cast_double_to_float", incs=MQ, unwind=14, comp=CMQ,
                       solvers=("uf", "cadical"))])
MI = [BACK + "mcaint"]
CMI = (("_mcaint_inexact_binary64", "stub_inexact64"), ("_mcaint_inexact_binary128", "stub_inexact128"))
P["C05"] = dict(jobs=[Job("mcaint.c", f"h_inexact{n}", f"_mcaint_inexact_binary{n}", defs=["VF_INTERNAL"], incs=MI, unwind=14,
                          internal=True, solvers=("uf",), timeout=120, flags=WRAP, assumes=AWRAP) for n in (64, 128)]
                + [Job("mcaint.c", f"h_{o}", f"interflop_mcaint_{o}", incs=MI, unwind=14, comp=CMI,
                       solvers=("uf", "cadical"), timeout=240, flags=WRAP) for o in OPS13]
                + [Job("mcaint.c", "h_cast", "interflop_mcaint_cast_double_to_float", incs=MI, unwind=14, comp=CMI,
                       solvers=("uf", "cadical"), flags=WRAP)])
BM = [BACK + "bitmask"]
CBM = (("_inexact_binary32", "stub_inexact32"), ("_inexact_binary64", "stub_inexact64"))
P["C06"] = dict(jobs=[Job("bitmask.c", f"h_inexact{n}", f"_inexact_binary{n}", defs=["VF_INTERNAL"], incs=BM, unwind=14,
                          internal=True, solvers=("uf", "cadical"), timeout=120) for n in (32, 64)]
                + [Job("bitmask.c", f"h_{o}", f"interflop_bitmask_{o}", incs=BM, unwind=14, comp=CBM,
                       solvers=("uf", "cadical"), timeout=240) for o in OPS13]
                + [Job("bitmask.c", "h_cast", "interflop_bitmask_cast_double_to_float", incs=BM, unwind=14, comp=CBM,
                       solvers=("uf", "cadical"))])
CA = [BACK + "cancellation"]
P["C07"] = dict(jobs=[Job("cancellation.c", f"h_{o}", f"interflop_cancellation_{o}", incs=CA, unwind=14,
                          solvers=("uf", "cadical", "cvc5")) for o in OPS13]
                + [Job("cancellation.c", "h_range", "lemma: noise range", incs=CA, unwind=14),
                   Job("cancellation.c", "h_cast", "interflop_cancellation_cast_double_to_float", incs=CA, unwind=14)])
VP = [BACK + "vprec"]
CVP = (("_vprec_round_binary32", "stub_vround32"), ("_vprec_round_binary64", "stub_vround64"))
P["C08"] = dict(jobs=[Job("vprec.c", f"h_round{n}", f"interflop_vprec_add_{t}", defs=[f"VF_MODE=vprecmode_{m}"], incs=VP, unwind=14, solvers=("cadical", "cvc5"))
                      for n, t in ((32, "float"), (64, "double")) for m in ("ib", "ob")])
VI = [Job("vprec.c", f"h_i{n}", f"_vprec_round_binary{n}", defs=["VF_INTERNAL"], incs=VP, unwind=14, internal=True,
          solvers=("cadical", "cvc5"), timeout=400) for n in (32, 64)]
P["C09"] = dict(jobs=VI + [Job("vprec.c", f"h_{o}", f"interflop_vprec_{o}", incs=VP, unwind=14, comp=CVP,
                               solvers=("uf", "cadical"), timeout=240) for o in OPS13]
                + [Job("vprec.c", "h_cast", "interflop_vprec_cast_double_to_float", incs=VP, unwind=14, comp=CVP,
                       solvers=("uf", "cadical"))])
P["C10"] = dict(jobs=[Job("vprec.c", f"h_abs{n}", f"interflop_vprec_add_{t}", defs=[f"VF_MODE=vprecmode_{m}", f"VF_ABS={a}"], incs=VP,
                          unwind=14, solvers=("cadical", "cvc5"))
                      for n, t in ((32, "float"), (64, "double")) for m in ("ib", "ob") for a in (1, 3)])
def cli(unit, b, incs, flags=None, extra=()):
    return [Job(unit, f"h_{h}", f"interflop_{b}_{f}", defs=["VF_CLI"], incs=incs, unwind=40, flags=flags,
                solvers=("uf", "cadical") if h == "user_inexact" else ("cadical",))
            for h, f in (("cli", "cli"), ("defaults", "pre_init"), ("table", "init"), ("configure", "configure")) + tuple(extra)]
CLI = {"C01": cli("ieee.c", "ieee", IEEE, extra=(("finalize", "finalize"),)),
       "C04": cli("mcaquad.c", "mcaquad", MQ, extra=(("user_call", "user_call"), ("user_inexact", "user_call"))),
       "C05": cli("mcaint.c", "mcaint", MI, WRAP),
       "C06": cli("bitmask.c", "bitmask", BM) + [
           Job("bitmask.c", f"h_add_{t}", f"interflop_bitmask_add_{t}", defs=["VF_CLI", "VF_VIA"], incs=BM, unwind=40, solvers=("uf", "cadical"))
           for t in ("float", "double")],
       "C07": cli("cancellation.c", "cancellation", CA),
       "C09": cli("vprec.c", "vprec", VP, extra=(("user_call", "user_call"),))}
P["C11"] = dict(jobs=sum(CLI.values(), []))
for _p, _j in CLI.items():
    P[_p]["jobs"] = P[_p]["jobs"] + _j
WR = [REPO + "/src/vfcwrapper"]
def wjob(h, f, **k):
    k.setdefault("solvers", ("cadical",))
    return Job("wrapper.c", h, f, incs=WR, unwind=18, cc="clang", **k)
P["C12"] = dict(jobs=[wjob(f"h_{o}_{t}", f"_{t}{o}") for t in ("float", "double") for o in ops + ["fma", "cmp"]]
                + [wjob("h_cast", "_doubletofloatcast"), wjob("h_user", "interflop_call"), wjob("h_finalize", "vfc_atexit")]
                + [wjob(f"h_v_{o}_{t}", f"_{n}x{t}{o}", defs=[f"VF_LANES={n}"], comp=((f"_{t}{o}", f"stub_{o}_{t}"),))
                   for n in (2, 4, 8, 16) for t in ("float", "double") for o in ops + ["cmp"]])
P["C13"] = dict(jobs=[wjob(f"h_{o}_{t}", f"_{t}{o}", defs=["DDEBUG", f"VF_DD={d}"], solvers=("uf", "cadical") if d else ("cadical",))
                      for d in (0, 1) for t in ("float", "double") for o in ops + ["fma"]])
INST = ["INST_FCMP", "INST_FMA", "INST_CAST"]
def sjob(defs, bounded, unwind):
    return Job("startup.c", "h_init", "vfc_init", incs=WR, unwind=unwind, cc="clang", solvers=("cadical",), confirm=True,
               defs=defs, bounded=bounded, timeout=500)
P["C14"] = dict(jobs=[sjob(["NB=17", "NA=3"] + INST, "0 to 17 backends, 0 to 3 words each", 30),
                      sjob(["NB=1", "NA=257"], "one backend, 0 to 257 words", 260),
                      sjob(["NB=1", "NA=2", "VF_HANDLERS"], "one backend; all the functions handed to it", 30)]
                + [sjob(["NB=1", "NA=1", i], "one backend", 30) for i in INST])
HM = [REPO + "/src/interflop-stdlib"]
def hjob(h, c, f=None, defs=(), quick=(8,), **k):
    return Job("hashmap.c", "h_" + h, f or "vfc_hashmap_" + h, incs=HM, defs=[f"CAP={c}"] + list(defs), unwind=4 * c + 2, solvers=("cadical",),
               bounded=f"capacity {c}, any content", timeout=400 if c in quick else 1500, tier="quick" if c in quick else "thorough", **k)
P["C15"] = dict(jobs=[hjob(h, c, quick=(8, 16)) for h in ("have", "get", "free") for c in (8, 16, 32)]
                + [hjob(h, c) for h in ("insert", "remove") for c in (8, 16)]
                + [hjob("insert", c, defs=["VF_GROW"], comp=(("hashmap_add_member", "stub_add"),)) for c in (8, 16)]
                + [hjob(h, c, "hashmap_add_member", ["VF_WEAK"], (8, 16), internal=True) for h in ("add", "add_mark") for c in (8, 16)]
                + [hjob("add", 32, "hashmap_add_member", ["VF_WEAK"], internal=True), hjob("add_mark", 32, "hashmap_add_member", ["VF_WEAK"], internal=True)]
                + [Job("hashmap.c", "h_create", "vfc_hashmap_create", incs=HM, unwind=34, solvers=("cadical",)),
                   Job("hashmap.c", "h_str", "vfc_hashmap_str_function", incs=HM, unwind=34, solvers=("cadical",), bounded="names of up to 6 bytes")])
PU = ["vf_fwrite.0:60", "strlen.0:60", "vf_calloc.0:34", "vf_fprintf.1:100", "vf_fprintf.0:60", "strcmp.0:22", "cat.0:25"]
def pjob(h, f, slots, defs=(), **k):
    return Job("probes.c", f"h_{h}", f, incs=HM + [REPO + "/src/common"], unwind=10, unwindset=PU, solvers=("cadical",), timeout=500, defs=[f"SLOTS={slots}"] + list(defs),
               bounded=None if h == "init" else f"{slots} probes in the table, names of up to 2 characters", **k)
P["C16"] = dict(jobs=[pjob("probe", f, 2, [f"WHICH={i}"]) for i, f in enumerate(
                    ("vfc_probe", "vfc_probe_check", "vfc_probe_check_relative", "vfc_probe_f", "vfc_probe_check_f", "vfc_probe_check_relative_f"))]
                + [pjob("dump", "vfc_dump_probes", 3), pjob("init", "vfc_init_probes", 3), pjob("probe", "vfc_probe_check", 3, ["WHICH=1"], tier="thorough")])
def cjob(h, f, top=None):
    return Job("calls.c", h, f, incs=WR, defs=[f"TOP={top}"] if top is not None else [], unwind=18, cc="clang", solvers=("cadical",), reach=top != 0,
               bounded=f"{4095 - top} calls deep, 3 functions known, 0 to 2 arguments" if top is not None else None)
P["C17"] = dict(jobs=[cjob("h_enter", "vfc_enter_function", t) for t in (0, 1, 2000, 4094, 4095)]
                + [cjob("h_exit", "vfc_exit_function", t) for t in (0, 1, 2000, 4094)] + [cjob("h_init", "vfc_init_func_inst")])
def fjob(h, f, *args, defs=(), bounded=None, **k):
    d = (["CALLARGS=" + ",".join("{%s,%d}" % a for a in args)] if args else []) + list(defs)
    return Job("vfi.c", h, f, incs=VP, defs=d, unwind=6, solvers=("cadical",), timeout=500, bounded=bounded or
               "2 functions known, names of up to 2 characters, " + (", ".join(f"{t} of {n}" if n >= 0 else f"{t} null" for t, n in args)), **k)
FA = [(("FDOUBLE", 1),), (("FFLOAT", 1),), (("FDOUBLE_PTR", 2),), (("FFLOAT_PTR", 2),), (("FDOUBLE_PTR", -1),), (("FDOUBLE", 1), ("FFLOAT", 1))]
FA2 = [(("FDOUBLE", 1), ("FDOUBLE_PTR", 2)), (("FFLOAT", 1), ("FFLOAT_PTR", 2)), (("FFLOAT_PTR", -1),)]
FD = [("h_enter", "_vfi_enter_function"), ("h_exit", "_vfi_exit_function")]
MFS = DEFAULT_FLAGS + ["--max-field-sensitivity-array-size", "128"]
P["C18"] = dict(jobs=[fjob(h, f, *a) for h, f in FD for a in FA] + [fjob(h, f, *a, tier="thorough") for h, f in FD for a in FA2]
                + [fjob(h, f, ("FDOUBLE", 1), defs=["LOG=3"]) for h, f in FD]
                + [Job("vfi.c", "h_profile", "_vfi_finalize, _vfi_init", incs=VP, defs=["SHAPE=" + s], unwind=16, unwindset=["s_fprintf.1:90", "s_strcpy.0:12"], flags=MFS,
                       solvers=("cadical",), bounded="2 functions with up to 2 inputs and outputs: shape " + s) for s in ("0,0,0,0,0", "3,1,0,0,1", "3,2,1,1,2", "2,0,0,2,2")]
                + [Job("vfi.c", "h_twice", "_vfi_init, _vfi_finalize", incs=VP, unwind=54, flags=MFS, solvers=("cadical",))]
                + [Job("vfi.c", "h_class", "_vfi isnan/isinf", incs=VP, unwind=6)])
P["C19"] = dict(jobs=[Job("loglib.c", "h_log", ("v" if v else "") + f, incs=HM, defs=[f"LEVEL={l}"] + (["VF_V"] if v else []), unwind=48, solvers=("cadical",))
                      for l, f in enumerate(("logger_debug", "logger_info", "logger_warning", "logger_error")) for v in (0, 1)]
                + [Job("loglib.c", "h_log", "logger_init", incs=HM, defs=[f"LEVEL=1", f"NAMELEN={n}"], unwind=n + 50, solvers=("cadical",), bounded=f"log file name of {n} characters")
                   for n in (1012, 1100)]
                + [Job("loglib.c", "h_table", "interflop_set_handler", incs=HM, unwind=34, solvers=("cadical",)),
                   Job("loglib.c", "h_pow2", "pow2i, fpow2i", incs=HM, unwind=34, solvers=("cadical",))])
P["C20"] = dict(jobs=[Job("filters.c", h, f, incs=WR, unwind=34, cc="clang", solvers=("cadical",), bounded=b) for h, f, b in (
    ("h_filters", "vfc_init", "filter files of up to 2 lines"), ("h_generate", "vfc_atexit", "up to 3 addresses"))])

# ---- assumptions left unchecked, by property (written in the evidence) ------------------------------
RN = "operations run in round to nearest even; the random library is represented by its contract (C03)"
LG = "logger_error does not return (C19)"
ASSUME = dict(
    C01=["hardware and compiler built-in fma is the correctly rounded one", "printing a debug line does not change operands", LG],
    C02=["printing a debug line does not change operands"],
    C03=["the fetch-and-add giving a thread its rank is atomic (its sequential meaning is proved)", "gettimeofday and gettid return any value",
         "uniform draws: relative to uniform generator output bits"],
    C04=[RN, LG, "binary128 arithmetic as CBMC models it"], C05=[RN, LG], C06=[RN, LG], C07=[RN, LG],
    C08=["precision 1..52 (23), range 2..11 (8): values C11 lets through"], C09=["as C08", LG], C10=["as C08; threshold |q| < 2^13; values below 2^emax in absolute mode"],
    C11=["argp_parse calls the parser once for each option, in order, with its key and argument, then with the end keys", "integers given fit in an int", "--sparsity is not NaN",
         "words: all documented ones, and a set of invalid ones", "strtol/strtod parse as libc does", LG],
    C12=["a backend changes no state of the runtime"],
    C13=["a backend changes no state of the runtime", "the address sets behave as C15 says", "an excluded fma may be fused or not: the compiler decides"],
    C14=["dlopen, dlsym, dlerror, getenv, strdup, strtok_r by contracts of libc", "the interflop_init of a backend does not touch the runtime", LG],
    C15=["malloc and calloc succeed", "keys and values range over sets with all collision patterns of the index mask", "the same (key, value) pair is inserted again only while nothing was removed"],
    C16=["the table behaves as C15 says, under any hash function", "stdio by a recorder: printf formats as libc's", "malloc succeeds"],
    C17=["the table behaves as C15 says, under any hash function", "malloc succeeds", "nothing else changes the call stack", LG],
    C18=["the table behaves as C15 says, under any hash function", "ids shorter than 512 characters, argument ids shorter than 128", "a call has as many arguments as its profile entry", "malloc succeeds", LG],
    C19=["getenv, fopen, (v)fprintf, vwarnx, sprintf, strcasecmp behave as libc's; exit does not return"],
    C20=["the address sets behave as C15 says", "addresses below 2^48", "fork, exec and addr2line succeed or fail as a whole", LG])
for k, v in ASSUME.items():
    P[k]["assumptions"] = v
