#!/usr/bin/env python3
"""Audit of the verifier's soundness (not a check): mutate the library, and look for contracts that fail when executed
natively although the verifier discharges every obligation of theirs on the mutated code.
usage: python3-vt tools/mutaudit.py N SEED HARNESS:C_X[:extra defines] ..."""
import os, random, re, shutil, subprocess, sys, tempfile, time
from multiprocessing import Pool
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vcg"))
sys.setrecursionlimit(20000)
import build, ir, model, core
INC = "/repo/include/sfl"
HDR = {"VECTOR": "vector", "SMALL": "small_vector", "STATIC": "static_vector", "COMPACT": "compact_vector", "DEVECTOR": "devector"}
for a, x in (("SF", "small_flat"), ("TF", "static_flat"), ("SU", "small_unordered_flat"), ("TU", "static_unordered_flat")):
    for k, y in (("SET", "set"), ("MSET", "multiset"), ("MAP", "map"), ("MMAP", "multimap")):
        HDR["%s_%s" % (a, k)] = x + "_" + y
PAIRS = [("first", "last"), ("begin", "end"), ("lhs", "rhs"), ("true", "false"), ("copy", "move"), ("copy", "fill"), ("backward", ""), ("this", "other"), ("+ 1", ""), ("- 1", ""),
         ("+ n", ""), ("first_", "last_"), ("end_", "eos_"), ("lower", "upper"), ("if", "if not"), ("uninitialized_", ""), ("value", "*pos"), ("offset", "n"), ("max", "min"), ("std::move", ""),
         ("last_", "eos_"), ("first1", "first2"), ("new_", ""), ("n", "n + 1"), ("pos", "pos + 1"), ("num_elems", "n"), ("pos", "last"), ("p1", "p2"), ("p2", "p3"), ("p3", "p1"), ("p2", "last")]
OPS = [("==", "!="), ("!=", "=="), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" + ", " - "), (" - ", " + "), ("&&", "||"), ("||", "&&"), ("++", "--"), ("!", "")]


def mutants(rng, n, files):
    out = []
    src = {f: open(os.path.join(INC, f)).read().split("\n") for f in files}
    tries = 0
    while len(out) < n and tries < n * 200:
        tries += 1
        f = rng.choice(files)
        L = src[f]
        i = rng.randrange(80, len(L))
        l = L[i]
        s = l.strip()
        if not s or s.startswith(("//", "*", "/*", "#", "template", "typename", "SFL_", "using", "noexcept")) or not l.startswith("    "):
            continue
        k = rng.random()
        if k < 0.35:      # delete a statement
            if s.endswith(";") and not re.match(r"(return|static|constexpr|friend|typedef|\}|\))", s) and re.match(r"\S*(\+\+|--|[\w:.>-]+\()|[\w.>-]+ [+-]?= |swap|throw", s):
                new = {i: ""}
            elif i + 1 < len(L) and L[i + 1].strip() == "(" and re.match(r"[\w:.>= -]+$", s):
                j = i
                while j < len(L) and not L[j].strip().endswith(");"):
                    j += 1
                new = {x: "" for x in range(i, j + 1)}
            else:
                continue
        elif k < 0.65:
            a, b = rng.choice(OPS)
            c = [m.start() for m in re.finditer(re.escape(a), l)]
            if not c or "<" in a and "template" in l:
                continue
            p = rng.choice(c)
            new = {i: l[:p] + b + l[p + len(a):]}
        else:
            a, b = rng.choice(PAIRS)
            if rng.random() < 0.5 and b:
                a, b = b, a
            c = [m.start() for m in re.finditer((r"\b" if a[0].isalpha() else "") + re.escape(a) + (r"\b" if a[-1].isalnum() and len(a) < 4 else ""), l)]
            if not c:
                continue
            p = rng.choice(c)
            new = {i: l[:p] + b + l[p + len(a):]}
        if all(L[x] == y for x, y in new.items()):
            continue
        out.append((f, new))
    return out


KEEP = lambda d: re.match(r"[^(]*\bstd::__(lower_bound|upper_bound|equal_range)<", d) is not None
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_segv=0:allocator_may_return_null=1:abort_on_error=1:handle_abort=0")


def prove(txt, fn, sec):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        import gc
        gc.disable()
        core.reset()
        P = model.Prover(ir.Module(txt), model.externs([("Elem", True), ("ElemT", False)]), [], {})
        P.deadline = time.time() + sec
        try:
            k = P.verify_entry(fn)
            bad = [o for o in P.obligs if o.status != "ok"]
            v = "unknown " + bad[0].label if bad and all(o.status == "unknown" for o in bad) else "fail " + [o for o in bad if o.status != "unknown"][0].label if bad else "PROVED" if k else "vacuous"
        except Exception as e:
            v = "unsupported %s %s" % (type(e).__name__, str(e)[:80])
        os.write(w, v.encode()[:300])
        os._exit(0)
    os.close(w)
    end = time.time() + sec + 30
    while time.time() < end:
        if os.waitpid(pid, os.WNOHANG)[0]:
            break
        time.sleep(0.05)
    else:
        os.kill(pid, 9)
        os.waitpid(pid, 0)
    v = os.read(r, 1000).decode() or "no answer"
    os.close(r)
    return v


def one(a):
    idx, suite, f, new = a
    h, d, *x = suite.split(":")
    defs = [d, "VC_ELEM=ElemT", "ALP=0", "NN=3"] if not x else [d] + x
    tmp = tempfile.mkdtemp(prefix="mut_")
    try:
        inc = os.path.join(tmp, "include", "sfl")
        shutil.copytree(INC, inc)
        p = os.path.join(inc, f)
        L = open(p).read().split("\n")
        desc = "%s:%d %s -> %s" % (f, min(new) + 1, L[min(new)].strip(), " ".join(new[k].strip() for k in sorted(new)))
        for k in new:
            L[k] = new[k]
        open(p, "w").write("\n".join(L))
        exe = os.path.join(tmp, "nat")
        r = subprocess.run(["clang++", "-std=c++17", "-O1", "-w", "-fsanitize=address", "-I" + os.path.join(tmp, "include"), "-I" + os.path.join(HERE, "harness")] + ["-D" + y for y in defs]
                           + [os.path.join(HERE, "harness", h), "-o", exe], capture_output=True, text=True)
        if r.returncode:
            return desc, "nocompile", []
        fails = []
        fns = subprocess.run([exe, "list"], capture_output=True, text=True, env=ENV).stdout.split()
        t0 = time.time()
        rng = random.Random(idx)
        rng.shuffle(fns)
        for fn in fns:
            if time.time() - t0 > 45 or len(fails) >= 4:
                break
            try:
                o = subprocess.run([exe, "run", "0.5", fn], capture_output=True, text=True, env=ENV, timeout=75).stdout
            except subprocess.TimeoutExpired:
                continue
            for l in o.split("\n"):
                q = l.split("\t")
                if q[0] == "FAIL" and "terminat" not in q[3]:
                    fails.append((fn, q[3], q[5]))
                    break
                if q[0] == "CRASH":
                    fails.append((fn, "crash", "?"))
                    break
        if not fails:
            return desc, "survives", []
        build.REPO = tmp
        txt = build.build_ir(os.path.join(HERE, "harness", h), defs, KEEP, tmp, "m")
        names = set(ir.Module(txt).names())
        res = []
        for fn, msg, thr in fails:
            if fn in names:
                res.append((fn, msg, thr, prove(txt, fn, 60)))
        return desc, "killed", res
    except Exception as e:
        return "?", "error %s" % e, []
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    n, seed, suites = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    rng = random.Random(seed)
    todo = []
    for i, s in enumerate(suites):
        own = HDR[s.split(":")[1][2:]] + ".hpp"
        for f, new in mutants(rng, n, [own, own, own, "private.hpp"]):
            todo.append((len(todo), s, f, new))
    rng.shuffle(todo)
    st = {}
    with Pool(int(os.environ.get("J", "7"))) as p:
        for (desc, k, res) in p.imap_unordered(one, todo):
            st[k] = st.get(k, 0) + 1
            for fn, msg, thr, v in res:
                st["~" + v.split()[0]] = st.get("~" + v.split()[0], 0) + 1
                if v in ("PROVED", "vacuous"):
                    print("HOLE", v, fn, "|", msg, thr, "|", desc, flush=True)
            if k.startswith("error"):
                print(k, desc, flush=True)
    print(st)
