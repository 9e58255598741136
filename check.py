#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property of /repo's current tree (see DESIGN.md)."""
import gc, json, os, pickle, re, resource, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/veriftools/pyvenv/bin/python3"
try:
    import z3
except ImportError:
    if os.path.realpath(sys.executable) != os.path.realpath(VENV) or "VC_REEXEC" not in os.environ:
        os.environ["VC_REEXEC"] = "1"
        os.execv(VENV, [VENV] + sys.argv)
sys.path.insert(0, os.path.join(HERE, "vcg"))
sys.setrecursionlimit(20000)
import build, ir, model, core, props
from engine import Unsupported

PID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
BUDGET = float(os.environ.get("VC_BUDGET", "780" if TIER == "quick" else "6000"))
FN_BUDGET = float(os.environ.get("VC_FN_BUDGET", "420" if TIER == "quick" else "3000"))
NAT_SECONDS = float(os.environ.get("VC_NAT_SECONDS", "20" if TIER == "quick" else "120"))
JOBS = int(os.environ.get("VC_JOBS", "8"))
CROSS = float(os.environ.get("VC_CROSS", "45" if TIER == "quick" else "300"))
T0 = time.time()
TMP = tempfile.mkdtemp(prefix="vc_%s_" % PID)
PROP = props.table(TIER)[PID]
ELEMS = [("Elem", True), ("ElemT", False)]
ONLY = re.compile(os.environ["VC_ONLY"]) if os.environ.get("VC_ONLY") else None


def left():
    return BUDGET - (time.time() - T0)


# ------------------------------------------------------------------ tiny process pool with hard limits
def pool(tasks, fn, limit, mem=10 << 30):
    """tasks: list of (key, args, seconds); runs fn(*args) in forked children; yields (key, ok, value)"""
    todo = list(tasks)
    run = {}
    while todo or run:
        while todo and len(run) < limit:
            key, args, sec = todo.pop(0)
            out = os.path.join(TMP, "r%d_%s" % (len(todo), re.sub(r"\W+", "_", str(key))[:150]))
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    if mem:                          # (not for address-sanitized programs, which reserve the address space)
                        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
                    try:
                        r = (True, fn(*args))
                    except Exception as e:       # reported, never swallowed
                        r = (False, "%s: %s" % (type(e).__name__, e))
                    with open(out + ".tmp", "wb") as f:
                        pickle.dump(r, f)
                    os.rename(out + ".tmp", out)
                finally:
                    os._exit(0)
            run[pid] = (key, out, time.time() + sec)
        try:
            pid, _ = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pid = 0
        if pid in run:
            key, out, _ = run.pop(pid)
            if os.path.exists(out):
                with open(out, "rb") as f:
                    ok, v = pickle.load(f)
                os.unlink(out)
            else:
                ok, v = False, "worker ended without a result"
            yield key, ok, v
            continue
        now = time.time()
        for p, (key, out, end) in list(run.items()):
            if now > end:
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
                run.pop(p)
                yield key, False, "time limit"
        time.sleep(0.02)


# ------------------------------------------------------------------ steps
def KEEP(d):
    """library searches stay out of line, so that their loops can be given invariants"""
    return re.match(r"[^(]*\bstd::__(lower_bound|upper_bound|equal_range)<", d) is not None


def build_tu(s):
    return build.build_ir(os.path.join(HERE, "harness", s.harness), list(s.defs), KEEP, TMP, s.tagname)


def prove_fn(irfile, fn, seconds):
    gc.disable()
    m = ir.Module(open(irfile).read())
    core.reset()
    P = model.Prover(m, model.externs(ELEMS), [], {})
    P.want, P.no_throw = PROP.want, PROP.no_throw
    P.deadline = time.time() + seconds
    t = time.time()
    unsupported = None
    paths = 0
    try:
        paths = P.verify_entry(fn)
    except Unsupported as e:
        unsupported = str(e)
    except RecursionError as e:
        unsupported = "recursion"
    obl = [(o.label, o.cat, o.status, o.reason, o.model, o.exc, o.where) for o in P.obligs]
    return dict(obl=obl, paths=paths, unsupported=unsupported, loops=P.loop_summaries, secs=time.time() - t,
                smt=core.STATS.queries, smt_s=core.STATS.time, externs=sorted(P.used_externs), skipped=P.skipped)


NATFLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-fsanitize=address"]
NATENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_segv=0:allocator_may_return_null=1:abort_on_error=1:handle_abort=0")


def ignored():
    """tags of postconditions that belong to other properties (see native.hpp)"""
    return "," + "".join("%s:%d," % (t, x) for t in ("seq", "ord", "find", "cap", "alloc", "bounds", "iter", "strong", "exc", "cmp") for x in (0, 1)
                         if not PROP.native_want("post", "[%s]" % t, bool(x)))


NATENV["VC_IGNORE"] = ignored()


def build_native(s):
    exe = os.path.join(TMP, "nat_" + s.tagname)
    cmd = ["clang++"] + NATFLAGS + ["-I" + os.path.join(build.REPO, "include"), "-I" + os.path.join(HERE, "harness")] + \
          ["-D" + d for d in s.defs] + [os.path.join(HERE, "harness", s.harness), "-o", exe]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("native compile failed: " + r.stderr[-1500:])
    return exe


def run_native(exe, fn, seconds):
    try:
        r = subprocess.run([exe, "run", str(seconds), fn], capture_output=True, text=True, env=NATENV, timeout=seconds + 90)
        return r.stdout
    except subprocess.TimeoutExpired:
        return "FAIL\t%s\ttermination\toperation does not terminate\t-\tnothrow\t-1\t\n" % fn


def list_native(exe):
    return subprocess.run([exe, "list"], capture_output=True, text=True, env=NATENV).stdout.split()


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("open: "):
                out.append(json.loads(l[6:]))
    return [k for k in out if k["property"] == PID]


def main():
    suites = PROP.suites
    viol = []          # (suite, fn, label, reason, native case or None)
    irs = {}
    natives = {}
    notes = []
    # --- 1. real headers + contracts -> IR (every run, from the current tree)
    todo = [((s.tagname), (s,), 300) for s in suites if not s.native]
    byname = {s.tagname: s for s in suites}
    for key, ok, v in pool([(s.tagname, (s,), 300) for s in suites if not s.native], lambda s: (lambda p, t: (open(p, "w").write(t), p)[1])(os.path.join(TMP, s.tagname + ".ir"), build_tu(s)), JOBS):
        if ok:
            irs[key] = v
        else:
            viol.append((byname[key], "(translation unit)", "the contracts compile against the library", v, None))
    # --- 2. one proof job per contract
    jobs = []
    for key, p in irs.items():
        s = byname[key]
        m = ir.Module(open(p).read())
        for fn in m.names():
            if fn.startswith("h_") and (not s.fns or s.fns.match(fn)) and not (s.skip and s.skip.match(fn)) and (not ONLY or ONLY.match(fn)):
                jobs.append((key, fn))
    heavy = json.load(open(os.path.join(HERE, "vcg", "cost.json"))) if os.path.exists(os.path.join(HERE, "vcg", "cost.json")) else {}

    def cost(j):
        s = byname[j[0]]
        return heavy.get(s.harness + ":" + s.defs[0] + ":" + j[1], 1)
    jobs.sort(key=cost, reverse=True)
    res = {}
    lim = max(60, min(FN_BUDGET, left() - 120))
    if TIER == "quick":      # a contract that suddenly takes far longer than it did is left to the bounded stand-in
        tl = {j: min(lim, max(90, 5 * cost(j))) for j in jobs}
    else:
        tl = {j: lim for j in jobs}
    for key, ok, v in pool([(j, (irs[j[0]], j[1], tl[j]), tl[j] + 30) for j in jobs], prove_fn, JOBS):
        res[key] = v if ok else dict(obl=[], paths=0, unsupported=v, loops=0, secs=0, smt=0, smt_s=0, externs=[], skipped=0)
    if os.environ.get("VC_COST"):
        c = dict(heavy)
        for (key, fn), r in res.items():
            s = byname[key]
            if r["secs"] > 3:
                c[s.harness + ":" + s.defs[0] + ":" + fn] = max(c.get(s.harness + ":" + s.defs[0] + ":" + fn, 0), round(r["secs"]))
        json.dump(c, open(os.path.join(HERE, "vcg", "cost.json"), "w"), indent=0, sort_keys=True)
    # --- 3. bounded stand-ins and concrete replays
    need = {}
    for (key, fn), r in res.items():
        bad = [o for o in r["obl"] if o[2] != "ok"]
        if bad or r["unsupported"] or (not r["paths"]):
            need.setdefault(key, []).append(fn)
    nat_suites = [s for s in suites if s.native]
    exes = {}
    cross = CROSS and left() > 300      # also execute the proved contracts: a guard against an unsound step of the verifier
    for key, ok, v in pool([(s.tagname, (s,), 400) for s in suites if s.native or cross or s.tagname in need], build_native, JOBS):
        if ok:
            exes[key] = v
        else:
            notes.append("native build failed: " + v[:300])
            if byname[key].native:
                viol.append((byname[key], "(translation unit)", "the bounded stand-in compiles against the library", v, None))
    njobs = []
    for key, fns in need.items():
        if key in exes:
            njobs += [((key, fn), (exes[key], fn, NAT_SECONDS), NAT_SECONDS + 120) for fn in fns]
    proved = [(key, fn) for (key, fn) in jobs if key in exes and fn not in need.get(key, [])] if cross else []
    csec = round(max(0.5, min(10, (min(CROSS, left() - 200) * JOBS) / max(1, len(proved)))), 2)
    xjobs = [((key, fn), (exes[key], fn, csec), csec + 120) for key, fn in proved]
    njobs += xjobs
    xkeys = {j[0] for j in xjobs}
    xcases = 0
    for s in nat_suites:
        if s.tagname in exes:
            for fn in list_native(exes[s.tagname]):
                if (not s.fns or s.fns.match(fn)) and not (s.skip and s.skip.match(fn)) and (not ONLY or ONLY.match(fn)):
                    sec = s.seconds if s.seconds and TIER == "quick" else NAT_SECONDS
                    njobs.append(((s.tagname, fn), (exes[s.tagname], fn, sec), sec + 120))
    nat = {}
    cases = distinct = 0
    samples = []
    for key, ok, v in pool(njobs, run_native, JOBS, 0):
        fail = None
        done = None
        for l in (v if ok else "").split("\n"):
            f = l.split("\t")
            if f[0] == "FAIL":
                fail = dict(fn=f[1], cat=f[2], msg=f[3], path=f[4], thrown=f[5] == "thrown", throwat=f[6], input=f[7] if len(f) > 7 else "")
            elif f[0] == "CRASH":
                fail = dict(fn=f[1], cat="memory", msg="the real code crashed: " + f[2], path="-", thrown=False, throwat="-1", input="")
            elif f[0] in ("DONE", "PART"):
                done = (f[0], int(f[2]))
                if key in xkeys:
                    xcases += int(f[2])
                    continue
                cases += int(f[2])
                if len(f) > 4:
                    distinct += int(f[3])
                    samples.append("%s %s:%s" % (key[0], f[1], f[4]))
        nat[key] = (fail, done)
    # --- 4. verdicts
    nobl = ndis = 0
    solver = 0.0
    functions, bounded, undecided = [], [], []
    externs = set()
    loops = paths = smt = 0
    for (key, fn), r in sorted(res.items()):
        s = byname[key]
        nobl += len(r["obl"])
        ndis += sum(1 for o in r["obl"] if o[2] == "ok")
        loops += r["loops"]; paths += r["paths"]; smt += r["smt"]; solver += r["smt_s"]
        externs |= set(r["externs"])
        bad = [o for o in r["obl"] if o[2] == "fail"]
        unk = [o for o in r["obl"] if o[2] == "unknown"]
        case = nat.get((key, fn), (None, None))
        name = "%s {%s} %s" % (s.harness, ",".join(s.defs), fn)
        if bad:
            viol.append((s, fn, bad[0][0], "; ".join(sorted({"%s [%s] %s" % (o[0], o[1], o[3]) for o in bad}))[:2000] + " model " + str(bad[0][4]), case[0]))
        elif unk or r["unsupported"] or not r["paths"]:
            why = r["unsupported"] or (unk[0][0] + ": " + unk[0][3] if unk else "no feasible path returns")
            if case[0] and PROP.native_want(case[0]["cat"], case[0]["msg"], case[0]["thrown"]):
                viol.append((s, fn, case[0]["msg"], "proof not available (%s); bounded stand-in fails" % why, case[0]))
            else:
                if not (r["unsupported"] or unk):
                    # a contract none of whose paths return is vacuous
                    if case[1] is None or case[1][1] == 0:
                        viol.append((s, fn, "some execution of the contract completes", why, case[0]))
                        continue
                nobl += 1
                undecided.append(dict(contract=name, reason=why, bounded="native exploration of %s cases, %s" % (case[1][1] if case[1] else 0, "exhaustive within its bound" if case[1] and case[1][0] == "DONE" else "time-bounded")))
        elif case[0] and PROP.native_want(case[0]["cat"], case[0]["msg"], case[0]["thrown"]):
            viol.append((s, fn, case[0]["msg"], "the real code fails although every obligation was discharged: the verifier or a trusted contract is unsound here", case[0]))
        else:
            functions.append(name)
    for s in nat_suites:
        for (key, fn), (fail, done) in sorted(nat.items()):
            if key != s.tagname:
                continue
            if fail and PROP.native_want(fail["cat"], fail["msg"], fail["thrown"]):
                viol.append((s, fn, fail["msg"], "bounded stand-in", fail))
            else:
                bounded.append("%s {%s} %s: %s" % (s.harness, ",".join(s.defs), fn, "%d cases%s" % (done[1], "" if done[0] == "DONE" else " (time bound)") if done else "stopped by a failure that belongs to another property"))
    # --- 5. report
    kn = known()
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(PID + "-"):
            os.unlink(os.path.join(rdir, f))
    nv = 0
    seen = set()
    for s, fn, label, reason, case in viol:
        k = next((k for k in kn if k["function"] == fn and (k["harness"] == s.harness) and k["define"] in s.defs and (label == k["label"] or (case and case["msg"] == k["label"]))), None)
        if k:
            if k["id"] not in seen:
                print("KNOWN-FINDING: property=%s %s" % (PID, k["what"]))
            seen.add(k["id"])
            continue
        nv += 1
        path = os.path.join(rdir, "%s-%d.json" % (PID, nv))
        rec = dict(property=PID, contract="%s in harness/%s with %s" % (fn, s.harness, " ".join("-D" + d for d in s.defs)), failed_obligation=label, verifier_output=reason)
        if case:
            rec["failing_input"] = case
            rec["replay"] = "clang++ %s -I/repo/include -I/verif/harness %s /verif/harness/%s -o /tmp/replay && /tmp/replay replay %s %s %s" % (
                " ".join(NATFLAGS), " ".join("-D" + d for d in s.defs), s.harness, fn, case["path"], case["throwat"])
        json.dump(rec, open(path, "w"), indent=1)
        print("  %s: %s: %s%s" % (fn, label, " ".join("-D" + d for d in s.defs), " input:%s" % case["input"] if case else ""))
        print("VIOLATION property=%s replay=%s%s" % (PID, path, "" if case else " no-failing-input-found"))
    level = "proof" if functions else "exploration"
    ev = dict(property=PID, tier=TIER, seed=SEED, level=level, wall_s=round(time.time() - T0, 2), violations=nv,
              coverage=dict(obligations=nobl, discharged=ndis, checker_cmd="python3-vt check.py %s %s" % (PID, TIER),
                            trusted_base=TRUSTED, back_end="z3 %s" % z3.get_version_string(), functions_under_contract=len(functions), contracts=functions,
                            symbolic_paths=paths, loop_invariants_proved=loops, smt_queries=smt, solver_seconds=round(solver, 1),
                            external_contracts_used=sorted(externs), undecided_by_proof=undecided, bounded_standins=bounded,
                            bounded_cases=cases, cross_check_cases_of_proved_contracts=xcases, explanation="obligations of this property discharged for every input, on the LLVM IR of the real headers; bounded stand-ins are listed separately and are not proofs", notes=notes),
              assumptions=ASSUME)
    if level == "exploration":
        ev["coverage"] = dict(evaluations=cases, distinct_nontrivial=distinct,
                              rule="a case is one choice of container states, arguments and (for histories) operation sequence, with one element operation or allocation made to fail or none; enumerated, then sampled when too many; "
                                   "distinct by choices and failure point, non-trivial when the operation performed an element operation or an allocation",
                              samples=samples[:8], bounded_standins=bounded, contracts_without_proof=len(bounded), obligations=0, discharged=0,
                              explanation="contracts executed natively on bounded states (address sanitizer, accounting of every element and block): nothing here is proved", notes=notes)
        ev["assumptions"] = ASSUME[:2]
    json.dump(ev, open(os.path.join(HERE, "evidence", PID + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged, %d contracts, %d undecided, %d bounded stand-ins, %d violations, %.0fs" %
          (PID, ndis, nobl, len(functions), len(undecided), len(bounded), nv, time.time() - T0))
    if os.environ.get("VC_VERBOSE"):
        for u in undecided:
            print("   undecided:", u)
    return 1 if nv else 0


TRUSTED = ["clang 18 front end and opt (inline, sroa, early-cse, simplifycfg) used to obtain the IR", "/verif/vcg (verification condition generator)",
           "z3", "contracts in /verif/harness", "assumed contracts of element operations, allocator and C++ runtime in vcg/model.py"]
ASSUME = ["element operations (constructors, assignments, destructor, comparison, swap) satisfy the contracts of vcg/model.py: no side effects outside the objects named, destructor does not throw, a throwing operation leaves its operands alive with unspecified value",
          "allocators return fresh storage disjoint from everything else or throw; equality is identity of their id",
          "elements are one byte in the proof (address arithmetic scales with sizeof, instantiations with other sizes are not re-proved)",
          "partial correctness: termination of loops is not proved",
          "pointer differences are exact multiples of the element size; addresses lie below 2^62",
          "templates are proved for the instantiations named in the contracts (opaque element type, custom allocator), not for every type argument"]

if __name__ == "__main__":
    rc = 2
    try:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        rc = main()
    finally:
        shutil.rmtree(TMP, ignore_errors=True)
    sys.exit(rc)
