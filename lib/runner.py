"""Runs contract obligations with CBMC (goto-cc, goto-instrument --dfcc, cbmc)
against /repo's current sources, replays counterexamples natively, and writes
the evidence file. See DESIGN.md."""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BACK = REPO + "/src/backends/interflop-backend-"

SOLVERS = {
    "sat": [],
    "cadical": ["--sat-solver", "cadical"],
    "cvc5": ["--cvc5"],
    "z3": ["--z3"],
    "kissat": ["--external-sat-solver", "kissat"],
}
DEFAULT_FLAGS = ["--no-standard-checks", "--pointer-check", "--bounds-check",
                 "--pointer-primitive-check", "--div-by-zero-check",
                 "--undefined-shift-check", "--signed-overflow-check"]


class Job:
    """One function under contract: enforce `fn`'s contract from `harness`."""

    def __init__(self, unit, harness, fn=None, defs=(), replace=(), unwind=3, solvers=("cvc5", "cadical", "uf"),
                 timeout=300, flags=None, bounded=None, incs=(), tier="quick", reach=True, unwindset=(),
                 maxunwind=None, assumes=(), mode="direct", internal=False, comp=(), search=25, cc="gcc", confirm=False):
        # internal: a contract on an implementation-private function. It only enables
        # `comp` strategies; the property's verdict never depends on its existence.
        # comp: ((private function, stand-in with its contract), ...) for callers.
        self.internal, self.comp, self.search = internal, tuple(comp), search
        self.mode = mode
        self.unit, self.harness, self.fn = unit, harness, fn
        self.defs, self.replace, self.unwind = list(defs), list(replace), unwind
        self.solvers, self.timeout = list(solvers), timeout
        self.flags = DEFAULT_FLAGS if flags is None else list(flags)
        self.bounded, self.incs, self.tier, self.reach = bounded, list(incs), tier, reach
        self.unwindset = list(unwindset)
        self.maxunwind = maxunwind or unwind * 4
        self.assumes = list(assumes)
        # confirm: the stand-ins of the unit are coarser than the functions they stand for (token-level
        # strings), so that a counterexample is a violation only when the compiled real code shows it
        self.confirm = confirm
        self.cc = cc  # compiler of the native executable

    @property
    def name(self):
        d = ",".join(x for x in self.defs)
        return f"{self.unit}:{self.harness}" + (f"[{d}]" if d else "")


class Deadline:
    def __init__(self, t):
        self.t = t

    def __sub__(self, other):
        return self.t - other


procs = set()
plock = threading.Lock()
CORES = os.cpu_count() or 8
slots = threading.Semaphore(CORES)


def run(cmd, timeout, cwd=None, stop=None, env=None):
    """Run, returning (rc, out, err); rc None on timeout/stop."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         start_new_session=True)
    with plock:
        procs.add(p)
    res = {}

    def comm():
        try:
            o, e = p.communicate()
            res["o"], res["e"] = o.decode("utf8", "replace"), e.decode("utf8", "replace")
        except Exception as ex:  # pragma: no cover
            res["o"], res["e"] = "", str(ex)

    t = threading.Thread(target=comm)
    t.start()
    t0 = time.time()
    killed = False
    while t.is_alive():
        t.join(0.05)
        if t.is_alive() and (time.time() - t0 > timeout or (stop and stop.is_set())):
            killed = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            t.join()
    with plock:
        procs.discard(p)
    return (None if killed else p.returncode), res.get("o", ""), res.get("e", "")


def incflags(job, inc):
    return (["-I", inc, "-I", VERIF + "/contracts"] + [x for i in job.incs for x in ("-I", i)]
            + ["-D" + d for d in job.defs] + ["-DREPO_SRC=" + REPO + "/src"])


def build(job, d, inc, mode, extra=(), tag="", replace=()):
    t = tag
    a, b = f"{d}/a{t}.gb", f"{d}/b{t}.gb"
    src = f"{VERIF}/contracts/{job.unit}"
    cmds = []
    # CBMC's front end lacks arithmetic on bit-fields wider than 64 bits and _Generic
    # on 64-bit ones: make the integer conversion of such a read explicit. Nothing else of
    # the preprocessed text is touched.
    i = f"{d}/unit{t}.i"
    c = ["gcc", "-E", "-D__CPROVER__", src, "-o", i] + incflags(job, inc) + list(extra)
    if mode == "direct":
        c.append("-DVF_DIRECT")
    cmds.append(c)
    rc, o, e = run(c, 120)
    if rc != 0:
        return None, cmds, "preprocessing failed:\n" + (o + e)[-3000:]
    txt = open(i, encoding="utf8", errors="replace").read()
    txt = re.sub(r"(?<![.>])\b((?:\w+(?:\.|->))+(?:mantissa|mant_low|mant_high))\b(?!\s*(?:=[^=]|[-+|&^*]=|<<=|>>=|\+\+|--))",
                 lambda m: ("((__uint128_t)" if "128." in m.group(1) and m.group(1).endswith("mantissa") else
                            "((uint64_t)" if m.group(1).endswith(("low", "high")) else "(") + m.group(1) + ")", txt)
    # CBMC rejects an argument passed to a function defined with an empty parameter list
    # (allowed before C23, and ignored): name it, when the function is only called through
    # a _Generic selection.
    for f in set(re.findall(r"\b(\w+)\s*\(\)\s*\{", txt)):
        if len(re.findall(r"\b%s\s*\(" % f, txt)) == 1 and re.search(r":\s*%s\s*[,)]" % f, txt):
            txt = re.sub(r"\b%s\s*\(\)\s*\{" % f, f + "(void *vf_ignored) {", txt)
    # clang's ext_vector_type(K), counted in elements, is gcc's vector_size, counted in bytes
    txt = re.sub(r"(typedef\s+(\w+)\s+\w+\s+__attribute__\s*\(\()ext_vector_type\((\w+)\)", r"\1vector_size((\3) * sizeof(\2))", txt)
    open(i, "w", encoding="utf8").write(txt)
    c = ["goto-cc", "--function", job.harness, i, "-o", a]
    cmds.append(c)
    rc, o, e = run(c, 120)
    if rc != 0:
        return None, cmds, "goto-cc failed:\n" + (o + e)[-3000:]
    if replace:
        c = ["goto-instrument"] + [x for f, g in replace for x in ("--replace-calls", f"{f}:{g}")] + [a, b]
        cmds.append(c)
        rc, o, e = run(c, 120)
        if rc != 0:
            return None, cmds, "goto-instrument failed:\n" + (o + e)[-3000:]
    elif mode == "dfcc":
        c = ["goto-instrument", "--dfcc", job.harness, "--enforce-contract", job.fn]
        for r in job.replace:
            c += ["--replace-call-with-contract", r]
        c += [a, b]
        cmds.append(c)
        rc, o, e = run(c, 120)
        if rc != 0:
            return None, cmds, "goto-instrument failed:\n" + (o + e)[-3000:]
    else:
        b = a
    return b, cmds, None


def parse(out):
    """-> (results list, runtime, solver text) or None"""
    try:
        js = json.loads(out)
    except Exception:
        return None
    results, status, msgs = None, None, []
    for m in js:
        if "result" in m:
            results = m["result"]
        if "cProverStatus" in m:
            status = m["cProverStatus"]
        if m.get("messageType") in ("STATUS-MESSAGE", "ERROR", "WARNING"):
            msgs.append(m.get("messageText", ""))
    if results is None or status is None:
        return None
    return results, msgs


def is_unwind(r):
    return "unwind" in r["property"].rsplit(".", 2)[-2] or "recursion" in r["property"]


ABSTRACT = {"uf": "plus|minus|mult|div|rem|typecast",
            "uft": "mult|div|rem|typecast",
            "ufm": "mult|div|rem"}


def special_cases(name, ps):
    """Facts kept about an abstracted conversion: zero and infinity (0 for an
    integer source) convert to themselves. Any other value is uninterpreted."""
    m = re.match(r"\|?float_bv\.floatbv_typecast_([fsu])(\d+)(?:_(\d+))?->f(\d+)_(\d+)", name)
    if not m:
        return None
    k, w, fr, tw, tf = m.group(1), int(m.group(2)), m.group(3), int(m.group(4)), int(m.group(5))
    if k in "su":
        return [(f"(= op0 (_ bv0 {w}))", f"(_ bv0 {tw})")]
    fr = int(fr)
    sg = f"((_ extract {w - 1} {w - 1}) op0)"
    mag = f"((_ extract {w - 2} 0) op0)"
    inf = ((1 << (w - 1 - fr)) - 1) << fr
    tinf = ((1 << (tw - 1 - tf)) - 1) << tf
    return [(f"(= {mag} (_ bv0 {w - 1}))", f"(concat {sg} (_ bv0 {tw - 1}))"),
            (f"(= {mag} (_ bv{inf} {w - 1}))", f"(concat {sg} (_ bv{tinf} {tw - 1}))")]


def uf_text(src, dst, ops):
    """Replace the definitions of CBMC's floating-point operators by
    uninterpreted functions: a generalisation, so 'unsat' carries over."""
    pat = re.compile(r"\(define-fun (\|?float_bv\.floatbv_(?:%s)_\S*) (\(\(op0 .*?\)\)\)) (\(_ BitVec \d+\)|Bool) " % ops)
    n = 0
    with open(src) as f, open(dst, "w") as g:
        for l in f:
            m = pat.match(l)
            if m:
                ps = re.findall(r"\(op\d+ (\(_ BitVec \d+\)|Bool)\)", m.group(2))
                nm = m.group(1)
                sp = special_cases(nm, ps)
                if sp:
                    un = (nm.rstrip("|") + ".uf") + ("|" if nm.endswith("|") else "")
                    g.write(f"(declare-fun {un} ({' '.join(ps)}) {m.group(3)})\n")
                    body = f"({un} {' '.join('op%d' % i for i in range(len(ps)))})"
                    for c, v in reversed(sp):
                        body = f"(ite {c} {v} {body})"
                    g.write(f"(define-fun {nm} {m.group(2)} {m.group(3)} {body})\n")
                else:
                    g.write(f"(declare-fun {nm} ({' '.join(ps)}) {m.group(3)})\n")
                n += 1
            elif not l.startswith("(get-value"):
                g.write(l)
    return n


def uf_prove(job, d, inc, mode, unwind, kind, left, stop, proved):
    """Proof-only strategies: True when the abstracted formula is unsatisfiable, so that
    every obligation holds. kind: which floating-point operators become uninterpreted;
    kind "comp": additionally the private callees are replaced by their (proved) contracts."""
    t0 = time.time()
    extra, rep = ["-DVF_NOREACH"], ()
    if kind == "comp":
        if not all(f in proved for f, _ in job.comp):
            return None
        extra.append("-DVF_COMP")
        rep = job.comp
    gb, _, err = build(job, d, inc, mode if mode != "dfcc" else "direct", extra, kind, rep)
    if err:
        return None
    ops = ABSTRACT["uf" if kind == "comp" else kind]
    sm = f"{d}/{kind}.smt2"
    base = ["cbmc", gb, "--unwind", str(unwind), "--unwinding-assertions", "--object-bits", "10", "--slice-formula",
            "--drop-unused-functions"] + job.flags
    if kind == "comp" and "uf" not in job.solvers:
        # nothing to abstract: the bit-precise formula, callees by contract
        cmd, ops = base + ["--sat-solver", "cadical"], "nothing"
    else:
        cmd = base + ["--smt2", "--outfile", sm]
    rc, o, e = run(cmd, left, stop=stop)
    if rc is None:
        return None
    ans = {}
    if not os.path.exists(sm) or os.path.getsize(sm) == 0:
        if rc == 0 and "VERIFICATION SUCCESSFUL" in o:
            ans["a"], ans["by"] = "unsat", "cadical" if ops == "nothing" else "cbmc symbolic execution"
        else:
            return None
    else:
        uf_text(sm, sm + ".uf", ops)
        inner = threading.Event()

        def go(name, c):
            rc, o, e = run(c, max(1, left - (time.time() - t0)), stop=inner)
            w = o.split()
            if w and w[0] in ("unsat", "sat") and "a" not in ans:
                ans["a"], ans["by"] = w[0], name
                inner.set()

        ths = [threading.Thread(target=go, args=(n, c)) for n, c in
               (("cvc5", ["cvc5", sm + ".uf"]), ("z3-new", ["z3-new", "-smt2", sm + ".uf"]))]
        for t in ths:
            t.start()
        while any(t.is_alive() for t in ths):
            time.sleep(0.05)
            if stop.is_set():
                inner.set()
        for f in (sm, sm + ".uf"):
            try:
                os.unlink(f)
            except OSError:
                pass
    if ans.get("a") != "unsat":
        return None
    rc, o, e = run(base + ["--show-properties", "--json-ui"], 60)
    props = []
    try:
        for m in json.loads(o):
            if "properties" in m:
                props = m["properties"]
    except Exception:
        return None
    rs = [dict(property=p["name"], description=p.get("description", ""), status="SUCCESS",
               sourceLocation=p.get("sourceLocation", {})) for p in props]
    how = ans["by"] + ("" if ops == "nothing" else f", {ops} uninterpreted") + (
        ", callees by contract: " + ", ".join(f for f, _ in job.comp) if kind == "comp" else "")
    return dict(solver=how, results=rs, time=time.time() - t0, cmd=cmd, needreach=True, unwind=unwind)


def native_search(job, d, inc, secs, stop=None):
    """Evaluate the contract on the compiled real code over generated inputs.
    -> ("found", vals, text) | ("none", executions) | ("nobuild", text)"""
    exe, err = native_build(job, d, inc)
    if exe is None:
        exe, err = native_build(job, d, inc, san=False)
    if exe is None:
        return ("nobuild", err)
    out = f"{d}/found.txt"
    rc, o, e = run([exe, "search", "2000000000", str(SEED), str(secs), out], secs + 30, env=NENV, stop=stop)
    if rc not in (0, None):
        if not os.path.exists(out):  # crash: inputs are logged by the driver's crash mode
            rc, o, e = run([exe, "crash", "2000000000", str(SEED), str(secs), out], secs * 3 + 30, env=NENV, stop=stop)
        if os.path.exists(out):
            vals = dict(l.split() for l in open(out) if len(l.split()) == 2)
            rc2, o2, e2 = run([exe, "replay", out], 30, env=NENV)
            if rc2 not in (0, 77, None):
                return ("found", vals, (o2 + e2)[-1500:])
    m = re.search(r"(\d+) executions inside", o)
    return ("none", int(m.group(1)) if m else 0)


def solve(job, gb, deadline, d, inc, mode, proved):
    """Portfolio: first strategy with a definite answer wins. The native search joins
    after a few seconds; a failing input it finds is as definite as the verifier's."""
    unwind = job.unwind
    log = []
    native = {}
    while True:
        stop = threading.Event()
        win = {}
        crashed = []
        lock = threading.Lock()
        strategies = [s for s in (["comp"] if job.comp else []) + job.solvers]
        if gb is None:
            strategies = []

        def one(s):
            dt = 0
            if s in ABSTRACT or s == "comp":
                with slots:
                    left = min(job.timeout, deadline - time.time())
                    if stop.is_set() or left <= 1:
                        return
                    r = uf_prove(job, d, inc, mode, unwind, s, left, stop, proved)
                with lock:
                    if r and not win:
                        win.update(r)
                        stop.set()
                    elif not r and not stop.is_set():
                        log.append(f"{s}: not proved by congruence")
                return
            if s == "cadical" and (job.comp or "uf" in job.solvers):
                stop.wait(60 if "uf" not in job.solvers and all(f in proved for f, _ in job.comp) else 5)  # the congruence strategies usually answer at once
            cmd = ["cbmc", gb, "--json-ui", "--trace", "--unwind", str(unwind), "--unwinding-assertions",
                   "--object-bits", "10", "--drop-unused-functions"] + job.flags + SOLVERS[s]
            for u in job.unwindset:
                cmd += ["--unwindset", u]
            with slots:
                if stop.is_set():
                    return
                left = min(job.timeout, deadline - time.time())
                if left <= 1:
                    return
                t0 = time.time()
                rc, o, e = run(cmd, left, stop=stop)
                dt = time.time() - t0
            if rc not in (0, 10, None):
                crashed.append((e or o)[-300:])
            if rc in (0, 10):
                pr = parse(o)
                # after a failed fatal check (bad shift, bad pointer) CBMC leaves the
                # obligations behind it UNKNOWN; the failure itself is definite
                if pr and (not any(r["status"] in ("ERROR", "UNKNOWN") for r in pr[0]) or
                           any(r["status"] == "FAILURE" and r.get("description") != "VF_REACH" and not is_unwind(r)
                               for r in pr[0])):
                    with lock:
                        if not win:
                            win.update(solver=s, results=pr[0], time=dt, cmd=cmd)
                            stop.set()
                    return
            if not stop.is_set():
                with lock:
                    log.append(f"{s}: no answer (rc={rc}, {dt:.0f}s) {(e or o)[-300:]}")

        def nat():
            if gb is not None:
                stop.wait(8)
            if stop.is_set() or native:
                return
            with slots:
                if stop.is_set():
                    return
                r = native_search(job, d, inc, job.search, stop)
            with lock:
                if not stop.is_set() or r[0] == "found":
                    native["r"] = r
                if r[0] == "found":
                    stop.set()

        ths = [threading.Thread(target=one, args=(s,)) for s in strategies]
        if not job.internal:
            ths.append(threading.Thread(target=nat))
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if native.get("r", ("",))[0] == "found":
            if win:
                win["unwind"] = unwind
            return (win or None), log, native["r"]
        if not win:
            if crashed and len(crashed) == len([s for s in strategies if s in SOLVERS]):
                log.append("TOOL-REJECT")
            return None, log, native.get("r")
        bad = [r for r in win["results"] if r["status"] == "FAILURE" and is_unwind(r)]
        if bad and unwind < job.maxunwind:
            unwind = min(unwind * 2, job.maxunwind)
            log.append(f"unwinding assertion failed; retrying with --unwind {unwind}")
            continue
        win["unwind"] = unwind
        return win, log, native.get("r")


def trace_inputs(trace):
    vals = {}

    def put(name, v):
        if not isinstance(v, dict):
            return
        if "elements" in v:
            for el in v["elements"]:
                put(f"{name}[{el.get('index')}]", el.get("value"))
        elif "members" in v:
            pass
        elif "binary" in v:
            b = v["binary"]
            if set(b) <= set("01") and b:
                w = (len(b) + 7) // 8
                vals[name] = f"{int(b, 2):0{2 * w}x}"
    drawn, last = {}, ""
    for st in trace:
        if st.get("stepType") == "assignment":
            lhs = st.get("lhs", "")
            m = re.match(r"^(in_\w+)(\[\d+[a-zA-Z]*\])?$", lhs)
            if m:
                lhs = re.sub(r"\[(\d+)[a-zA-Z]*\]", r"[\1]", lhs)
                if last == "vf_nondet_":  # VF_GET: the k-th value asked under this name
                    k = drawn[lhs] = drawn.get(lhs, -1) + 1
                    put(f"{lhs}@{k}" if k else lhs, st.get("value"))
                elif lhs not in drawn:
                    put(lhs, st.get("value"))
            last = lhs
    return vals


def labels(job):
    """postcondition index -> label, from the POSTS_<fn> list in the unit."""
    txt = open(f"{VERIF}/contracts/{job.unit}").read().replace("\\\n", " ")
    m = re.search(r"#define\s+POSTS_%s\(X\)(.*)" % re.escape(job.fn or ""), txt)
    return re.findall(r'X\(\s*"([^"]*)"', m.group(1)) if m else []


def native_build(job, d, inc, san=True):
    exe = f"{d}/native"
    c = [job.cc, "-std=gnu11", "-O1", "-g", "-w", "-DVF_NATIVE", f"-DVF_HARNESS={job.harness}",
         f"{VERIF}/contracts/{job.unit}", f"{VERIF}/lib/vf_native.c", "-o", exe] + incflags(job, inc)
    if san:
        c += ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
        if "--signed-overflow-check" not in job.flags:
            c += ["-fno-sanitize=signed-integer-overflow"]
        if "--undefined-shift-check" not in job.flags:
            c += ["-fno-sanitize=shift"]
    c += ["-Wl,--unresolved-symbols=ignore-all", "-lquadmath", "-lm"]
    rc, o, e = run(c, 120)
    return (exe if rc == 0 else None), (o + e)[-2000:]


def reachable(job, gb, d, inc, win):
    """Vacuity guard for proofs by congruence: an execution of the real code that
    satisfies the precondition and runs to the end of the harness."""
    exe, _ = native_build(job, d, inc, san=False)
    if exe:
        rc, o, e = run([exe, "reach", "100000000", str(SEED), "10", "/dev/null"], 20)
        if rc == 0 and "REACHED" in o:
            return True, "concrete execution"
    rc, o, e = run(["cbmc", gb, "--show-properties", "--json-ui"], 60)
    try:
        nm = [p["name"] for m in json.loads(o) if "properties" in m for p in m["properties"]
              if p.get("description") == "VF_REACH"]
    except Exception:
        nm = []
    for n in nm:
        rc, o, e = run(["cbmc", gb, "--property", n, "--unwind", str(win["unwind"]), "--no-standard-checks",
                        "--sat-solver", "cadical"], 120)
        if rc == 10:
            return True, "solver"
    return False, "none found"


def handle(job, prop, inc, root, deadline, replaydir, proved):
    d = tempfile.mkdtemp(dir=root)
    t0 = time.time()
    rec = dict(job=job.name, function=job.fn or job.harness, bounded=job.bounded, internal=job.internal)
    mode = job.mode if job.fn else "direct"
    gb, cmds, err = build(job, d, inc, mode)
    win, nat, log = None, None, []
    if not (job.internal and err):
        win, log, nat = solve(job, None if err else gb, deadline, d, inc, mode, proved)
    rec["mode"] = mode
    rec["cmds"] = [" ".join(c) for c in cmds]
    rec["log"] = log
    fails, hyp = [], []
    if win:
        rs = win["results"]
        real = [r for r in rs if r.get("description") != "VF_REACH"]
        reach = [r for r in rs if r.get("description") == "VF_REACH"]
        if win.get("needreach") and job.reach:
            ok, how = reachable(job, gb, d, inc, win)
            rec["reach"] = how
            reach = [dict(status="FAILURE" if ok else "SUCCESS")]
        rec.update(obligations=len(real), discharged=sum(r["status"] == "SUCCESS" for r in real),
                   posts=sum(r.get("description", "").startswith(("post: ", "lemma: ")) or
                             ".postcondition." in r["property"] for r in real),
                   solver=win["solver"], solver_s=round(win["time"], 2), unwind=win["unwind"])
        rec["cmds"].append(" ".join(win["cmd"]))
        fails = [r for r in real if r["status"] == "FAILURE"]
        if not fails:
            if not real or (job.reach and not any(r["status"] == "FAILURE" for r in reach)):
                rec.update(outcome="error", detail="vacuous: harness end not reachable or no obligations")
            elif not rec["posts"]:
                rec.update(outcome="error", detail="no postcondition obligations generated")
            else:
                rec["outcome"] = "proved" if not job.bounded else "bounded-ok"
            if not (nat and nat[0] == "found"):
                rec["wall"] = round(time.time() - t0, 2)
                return rec
        uw = [r for r in fails if is_unwind(r)]
        if uw and len(uw) == len(fails):
            # only the loop bound is exceeded: undecided, not a violation
            fails = []
            rec.update(outcome="undecided", detail="loop bound exceeded: " + uw[0]["property"])
        else:
            fails = [r for r in fails if not is_unwind(r)]
            nobody = [r["property"] for r in fails if ".no-body." in r["property"]]
            if job.confirm and not nobody:
                rec.update(outcome="undecided", detail="not confirmed on the compiled code: " +
                           ", ".join(r["property"] + " " + r.get("description", "") for r in fails[:4]))
                hyp, fails = fails, []
            elif nobody:
                # a callee without a body or contract: counterexamples through it may be spurious;
                # only one that fails on the real code is a violation
                rec.update(outcome="undecided", detail="call without a contract: " + ", ".join(nobody))
                hyp, fails = fails, []
    else:
        rec.update(outcome="undecided", detail=(err or "no solver answer: " + "; ".join(log))[-1500:])
    if job.internal:
        rec["outcome"] = "not-established"
        rec["failed"] = [r["property"] + " " + r.get("description", "") for r in fails]
        rec["wall"] = round(time.time() - t0, 2)
        return rec
    # --- counterexample replay on the real code
    lab = labels(job)
    replayed = None
    desc = []
    for r in fails:
        pn = r["property"]
        nm = pn
        m = re.search(r"\.postcondition\.(\d+)$", pn)
        if m and int(m.group(1)) <= len(lab):
            nm = f"{pn} ({lab[int(m.group(1)) - 1]})"
        desc.append(f"{nm}: {r.get('description', '')} @ {r.get('sourceLocation', {}).get('file', '')}:"
                    f"{r.get('sourceLocation', {}).get('line', '')}")
    berr = ""
    if fails or hyp:
        exe, berr = native_build(job, d, inc)
        if exe is None:
            exe, berr = native_build(job, d, inc, san=False)
        if exe:
            order = sorted(fails or [r for r in hyp if ".no-body." not in r["property"]], key=lambda r: 0 if (".postcondition." in r["property"] or ".assertion." in r["property"]) else 1)
            for r in order[:6]:
                vals = trace_inputs(r.get("trace", []))
                f = f"{d}/in.txt"
                with open(f, "w") as fh:
                    for k, v in vals.items():
                        fh.write(f"{k} {v}\n")
                rc, o, e = run([exe, "replay", f], 30, env=NENV)
                if rc not in (0, 77, None):
                    replayed = (vals, (o + e)[-1500:], r["property"])
                    break
    if replayed is None and nat and nat[0] == "found":
        replayed = (nat[1], nat[2], "native evaluation of the same postconditions")
    if replayed is None and (fails or hyp) and nat is None:
        nat = native_search(job, d, inc, job.search)
        if nat[0] == "found":
            replayed = (nat[1], nat[2], "native evaluation of the same postconditions")
    if fails or replayed:
        rec["outcome"] = "violated"
        rec["failed"] = desc or [replayed[1]]
        rec["replayed"] = bool(replayed)
        os.makedirs(replaydir, exist_ok=True)
        path = f"{replaydir}/{prop}-{re.sub(r'[^A-Za-z0-9_]', '_', job.name)}.txt"
        with open(path, "w") as fh:
            fh.write(f"property {prop}\njob {job.name}\nfunction {job.fn}\n\nfailed obligations:\n")
            fh.writelines("  " + x + "\n" for x in rec["failed"])
            if replayed:
                fh.write("\nfailing input (big-endian hex of each harness input), replayed on the real code:\n")
                fh.writelines(f"  {k} {v}\n" for k, v in sorted(replayed[0].items()))
                fh.write(f"\nnative outcome:\n{replayed[1]}\n")
            else:
                fh.write("\nno failing input found natively; verifier inputs of the first failure:\n")
                for r in fails[:1]:
                    fh.writelines(f"  {k} {v}\n" for k, v in sorted(trace_inputs(r.get("trace", [])).items()))
                if berr:
                    fh.write("native build: " + berr + "\n")
            fh.write("\ncommands:\n" + "\n".join(rec["cmds"]) + "\n")
        rec["replay"] = path
    elif rec["outcome"] == "undecided" and nat and nat[0] == "none" and nat[1] >= 1000:
        # labelled stand-in: the same contract, evaluated on the compiled code; never counted as proved
        rec["outcome"] = "evaluated-only"
        rec["bounded"] = f"no proof ({rec['detail'][:300]}); contract evaluated on {nat[1]} generated inputs"
        rec.pop("obligations", None), rec.pop("discharged", None)
    elif rec["outcome"] == "undecided" and nat and nat[0] == "nobuild":
        rec["outcome"] = "error"
        rec["detail"] += "\nnative: " + nat[1]
    rec["wall"] = round(time.time() - t0, 2)
    return rec


NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="abort_on_error=1")
TRUSTED = ["CBMC 6.11 (goto-cc front end, goto-instrument --dfcc, symbolic execution, IEEE-754 bit-blasting)",
           "cvc5 1.1.2 / CaDiCaL as back ends",
           "C semantics as modelled by CBMC for x86_64; round-to-nearest-even",
           "contracts/shim.h: C11 meaning of isgreater/isless/... built-ins"]


def known_findings(prop):
    res = []
    p = f"{VERIF}/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def check(prop, jobs, level="proof", assumptions=(), tier=None, budget=600, extra=None):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    deadline = Deadline(t0 + (budget if tier == "quick" else 4 * 3600))
    js = [j for j in jobs if tier == "thorough" or j.tier == "quick"]
    if tier == "thorough":
        for j in js:
            j.timeout *= 8
    root = tempfile.mkdtemp(prefix="vf_")
    inc = root + "/inc"
    os.makedirs(inc)
    os.symlink(REPO + "/src/interflop-stdlib", inc + "/interflop")
    replaydir = VERIF + "/evidence/replay"
    recs = []
    try:
        gen = VERIF + "/lib/extract.py"
        with cf.ThreadPoolExecutor(max_workers=CORES) as ex:
          proved, unproved = set(), set()
          compset = {f for j in js for f, _ in j.comp}
          for phase in (True, False):
            futs = [ex.submit(handle, j, prop, inc, root, deadline, replaydir, proved) for j in js
                    if (j.internal or j.fn in compset) == phase]
            for f in cf.as_completed(futs):
                r = f.result()
                recs.append(r)
                if phase and r["outcome"] not in ("proved", "bounded-ok"):
                    unproved.add(r["function"])
                if r["outcome"] == "violated" and tier == "quick":
                    # decided: leave the other obligations a minute
                    deadline.t = min(deadline.t, time.time() + 60)
                print(f"  [{r['outcome']}] {r['job']} {r['function']} obligations={r.get('obligations')} "
                      f"solver={r.get('solver')} {r.get('wall')}s", flush=True)
                if r["outcome"] in ("error", "undecided", "evaluated-only", "not-established"):
                    print("     " + r.get("detail", "")[-1500:], flush=True)
            if phase:
                proved |= {r["function"] for r in recs} - unproved
        if extra:
            recs += extra(root, inc)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    known = known_findings(prop)
    for kid, txt in known:
        print(f"KNOWN-FINDING: property={prop} {txt}")
    viol = [r for r in recs if r["outcome"] == "violated"]
    und = [r for r in recs if r["outcome"] in ("error", "undecided")]
    evo = [r for r in recs if r["outcome"] == "evaluated-only"]
    ob = sum(r.get("obligations", 0) for r in recs)
    di = sum(r.get("discharged", 0) for r in recs)
    nb = [r for r in recs if r.get("bounded")]
    ev = dict(property=prop, tier=tier, seed=SEED, level=level, wall_s=round(time.time() - t0, 2),
              violations=len(viol),
              assumptions=list(assumptions) + sorted({a for j in js for a in j.assumes}),
              coverage=dict(
                  obligations=ob, discharged=di,
                  checker_cmd="; ".join(next((r["cmds"] for r in recs if len(r.get("cmds", [])) > 1), [""])),
                  trusted_base=TRUSTED,
                  functions_under_contract=sorted({r["function"] for r in recs}),
                  postcondition_obligations=sum(r.get("posts", 0) for r in recs),
                  solver_seconds=round(sum(r.get("solver_s", 0) for r in recs), 2),
                  bounded_stand_ins=[dict(job=r["job"], bound=r["bounded"]) for r in nb],
                  jobs=[{k: r.get(k) for k in ("job", "function", "outcome", "obligations", "discharged", "solver",
                                               "solver_s", "unwind", "bounded", "mode")} for r in
                        sorted(recs, key=lambda r: r["job"])],
                  undecided=[r["job"] for r in und]))
    if evo or any(r.get("bounded") for r in recs):
        level = ev["level"] = "other"
    if level != "proof":
        ev["coverage"]["explanation"] = "contract obligations discharged by CBMC; see jobs"
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    for r in sorted(viol, key=lambda r: not r["replayed"]):
        for x in r["failed"][:8]:
            print("  failed obligation: " + x)
        print(f"VIOLATION property={prop} replay={r['replay']}" + ("" if r["replayed"] else " no-failing-input-found"))
    if viol:
        return 1
    if und:
        print(f"UNDECIDED property={prop}: " + ", ".join(r["job"] for r in und))
        return 2
    if evo:
        print(f"NOT-PROVED property={prop}: contract only evaluated, not discharged, for " + ", ".join(r["job"] for r in evo))
    print(f"HOLDS property={prop}: {di}/{ob} obligations discharged, {len(recs)} jobs, {time.time() - t0:.1f}s")
    return 0
