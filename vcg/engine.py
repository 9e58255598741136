"""Forward symbolic execution of LLVM IR with function contracts and checked loop summaries.

Every function entry point is executed for all inputs: loops are replaced by a closed-form summary that is
proposed automatically and then PROVED inductive; calls to functions under contract use only the contract.
All proof obligations go to z3.
"""
import re
import subprocess
import time
import z3
from core import *
import core
import ir


class Unsupported(Exception):
    pass


class Undef:
    pass


UNDEF = Undef()


class Agg(tuple):
    pass


class Obj:
    """A region of addressable memory known by a base atom (argument object, stack slot)."""
    __slots__ = ("name", "base", "size", "sym", "elemish", "stack")

    def __init__(self, name, base, size, sym, elemish, stack):
        self.name, self.base, self.size, self.sym, self.elemish, self.stack = name, base, size, sym, elemish, stack


class Block:
    """A heap block obtained from an allocator."""
    __slots__ = ("base", "size", "alloc", "new", "unit")

    def __init__(self, base, size, alloc, new, unit=1):
        self.base, self.size, self.alloc, self.new, self.unit = base, size, alloc, new, unit


class Frame:
    __slots__ = ("fn", "env", "blk", "idx", "prev", "ret", "loops", "inv")

    def __init__(self, fn):
        self.fn = fn
        self.env = {}
        self.blk = fn.entry
        self.idx = 0
        self.prev = None
        self.ret = None      # (res reg, invoke normal, invoke unwind) in caller
        self.loops = ()

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.idx, f.prev, f.ret, f.loops = self.fn, self.blk, self.idx, self.prev, self.ret, self.loops
        f.env = dict(self.env)
        return f


class State:
    def __init__(self):
        self.frames = []
        self.pc = []
        self.facts = []
        self.mem = {}          # obj name -> {off: (size, val)}
        self.objs = {}         # base atom -> Obj
        self.alive = None
        self.val = None
        self.blocks = []       # live heap blocks
        self.regions = []      # element-bearing regions (base,size) pairwise disjoint
        self.pre_owned = []    # [lo,hi) owned by containers at entry
        self.post_owned = []   # [lo,hi) live elements owned at exit
        self.post_blocks = []
        self.news = []         # regions created since entry
        self.alive0 = None
        self.snaps = {}
        self.exc = None        # exception in flight / last thrown kind
        self.caught = []
        self.thrown = 0        # number of exceptions raised along the path
        self.trace = []
        self.tbl = {}          # table memory
        self.flags = {}
        self.started = False

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc)
        s.facts = list(self.facts)
        s.mem = dict(self.mem)
        s.objs = dict(self.objs)
        s.alive, s.val = self.alive, self.val
        s.blocks = list(self.blocks)
        s.regions = list(self.regions)
        s.pre_owned = list(self.pre_owned)
        s.post_owned = list(self.post_owned)
        s.post_blocks = list(self.post_blocks)
        s.news = list(self.news)
        s.alive0 = self.alive0
        s.snaps = dict(self.snaps)
        s.exc = self.exc
        s.caught = list(self.caught)
        s.thrown = self.thrown
        s.trace = list(self.trace)
        s.tbl = dict(self.tbl)
        s.flags = dict(self.flags)
        s.started = self.started
        return s

    @property
    def fr(self):
        return self.frames[-1]


class CFG:
    def __init__(self, fn):
        self.succ = {}
        for b, ins in fn.blocks.items():
            i = ins[-1]
            if i.op == "br":
                s = [i.a["to"]] if "to" in i.a else [i.a["t"], i.a["f"]]
            elif i.op == "switch":
                s = [i.a["d"]] + [x[1] for x in i.a["cases"]]
            elif i.op == "invoke":
                s = [i.a["normal"], i.a["unwind"]]
            else:
                s = []
            self.succ[b] = s
        order, seen = [], set()

        def dfs(r):
            st = [(r, iter(self.succ[r]))]
            seen.add(r)
            while st:
                b, it = st[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        st.append((x, iter(self.succ[x])))
                        break
                else:
                    order.append(b)
                    st.pop()
        dfs(fn.entry)
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for x in self.succ[b]:
                pred[x].append(b)
        dom = {fn.entry: fn.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in dom]
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while idx[x] > idx[y]:
                            x = dom[x]
                        while idx[y] > idx[x]:
                            y = dom[y]
                    d = x
                if dom.get(b) != d:
                    dom[b] = d
                    ch = True

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if dom[b] == b:
                    return False
                b = dom[b]
        self.loops = {}
        for b in rpo:
            for x in self.succ[b]:
                if dominates(x, b):
                    body = self.loops.setdefault(x, {x})
                    st = [b]
                    while st:
                        y = st.pop()
                        if y not in body:
                            body.add(y)
                            st.extend(pred[y])
        # irreducible check: retreating edges to non-dominating targets
        for b in rpo:
            for x in self.succ[b]:
                if idx[x] <= idx[b] and not dominates(x, b):
                    raise Unsupported("irreducible control flow in " + fn.name)


class Oblig:
    __slots__ = ("label", "cat", "status", "model", "where", "reason", "exc", "trace")

    def __init__(self, label, cat, status, model, where, reason, exc, trace):
        self.label, self.cat, self.status, self.model = label, cat, status, model
        self.where, self.reason, self.exc, self.trace = where, reason, exc, trace


def demangle(names):
    p = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split("\n")))


class Engine:
    def __init__(self, module, externs, contracts, cfg=None):
        self.m = module
        self.externs = externs          # mangled/demangled matcher -> handler
        self.contracts = contracts
        self.cfg = cfg or {}
        self.cfgs = {}
        self.obligs = []
        self.silent = 0
        self.solver = Solver()
        self.inputs = []
        self.npaths = 0
        names = set(module.names()) | set(module.decls)
        self.dem = demangle(sorted(names))
        self.handler_cache = {}
        self.fn_under = None
        self.max_paths = 4000
        self.deadline = None
        self.val_root = None
        self.inst_skipped = False
        self.within_cache = {}
        self.quot = {}            # quotient atom -> (dividend, divisor)
        self.used_contracts = set()
        self.used_externs = set()
        self.loop_summaries = 0
        self.want = None          # which obligations this run decides (the others are decided by other properties' runs)
        self.no_throw = False     # the run only decides obligations of executions in which nothing throws
        self.skipped = 0

    # ---------------------------------------------------------------- proving
    def feasible(self, st, *extra):
        STATS.feas += 1
        for e in extra:
            if e is False:
                return False
        r = self.solver.check(st.pc, *[e for e in extra if e is not True])
        return r != z3.unsat

    def inst_facts(self, st, goal_exprs, tier=1):
        """instantiate quantified facts at the ghost addresses mentioned by the query"""
        if not st.facts:
            return []
        out = []
        done = set()
        exprs = list(goal_exprs)
        for rnd in range(self.cfg.get("inst_rounds", 2)):
            addrs = collect_apps(exprs, self.root_names, self.val_root)
            addrs.tier = tier
            addrs.within = lambda a, p, n: self.maybe_within(st, a, p, n)
            new = []
            for f in st.facts:
                for a in addrs:
                    k = (id(f), a.get_id())
                    if k in done:
                        continue
                    done.add(k)
                    e = f(lin_of_z3(a), addrs)
                    if e is True or e is None:
                        continue
                    if isinstance(e, list):
                        new.extend(zb(x) for x in e if x is not True)
                    else:
                        new.append(zb(e))
            self.inst_skipped = self.inst_skipped or addrs.skipped
            if not new:
                break
            out.extend(new)
            exprs = new
        return out

    def maybe_within(self, st, a, p, n):
        """can address a lie in [p,p+n) on this path? (prunes useless instances only)"""
        k = (a.key, p.key, n.key)
        c = self.within_cache
        if c.get("pc") is not st.pc or c.get("len") != len(st.pc):
            c.clear()
            c["pc"], c["len"] = st.pc, len(st.pc)
        r = c.get(k)
        if r is None:
            r = c[k] = self.solver.check(st.pc, zb(land(le(p, a), lt(a, p + n)))) != z3.unsat
        return r

    def entails(self, st, ng):
        """can the negated goal be refuted with the facts instantiated at the addresses in question?"""
        ex = [ng] + [c for c in st.pc if not isinstance(c, bool)]
        self.inst_skipped = False
        facts = self.inst_facts(st, ex, 0)
        r = self.solver.check(st.pc, ng, *facts)
        if r != z3.unsat and self.inst_skipped:
            facts = self.inst_facts(st, ex, 1)
            r = self.solver.check(st.pc, ng, *facts)
        return r, facts

    def prove(self, st, goal, label, cat):
        if self.silent:
            return True
        if self.want is not None and cat != "loop" and not self.want(cat, label, bool(st.thrown)):
            self.skipped += 1
            return True
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        where = self.dem.get(st.frames[-1].fn.name, "") if st.frames else ""
        if goal is True:
            self.obligs.append(Oblig(label, cat, "ok", None, where, "", bool(st.thrown), None))
            return True
        ng = zb(lnot(goal))
        r = self.solver.check(st.pc, ng)
        facts = []
        if r != z3.unsat and st.facts:
            r, facts = self.entails(st, ng)
        if r == z3.unknown:
            # independent fresh solver, no incremental state
            s = z3.SolverFor("ALL") if False else z3.Solver()
            s.set("timeout", 4 * TIMEOUT_MS)
            s.add(*[zb(c) for c in st.pc]); s.add(ng); s.add(*facts)
            r = s.check()
            self.solver.model = s.model() if r == z3.sat else None
            self.solver.reason = s.reason_unknown() if r == z3.unknown else ""
        if r == z3.unsat:
            self.obligs.append(Oblig(label, cat, "ok", None, where, "", bool(st.thrown), None))
            return True
        model = None
        if r == z3.sat:
            m = self.solver.model
            model = {}
            for name, l in self.inputs:
                try:
                    v = m.eval(l.z if isinstance(l, Lin) else zb(l), model_completion=True)
                    model[name] = str(v)
                except z3.Z3Exception:
                    pass
            if self.cfg.get("dump"):
                print("FAIL", label, "goal", str(goal)[:600])
                for n_, (z_, _, _) in sorted(ATOMS.items()):
                    if z3.is_const(z_) and z_.decl().name() == n_ and not n_.startswith("@"):
                        print("   ", n_, m.eval(z_))
                print("   pc", [str(c)[:200] for c in st.pc[-12:]])
                print("   facts", [str(z3.simplify(c))[:300] for c in facts])
        weak = st.flags.get("weak")
        self.obligs.append(Oblig(label, cat, "fail" if r == z3.sat and not weak else "unknown", model, where,
                                 ("sat (counter-model)" + (" under an approximated loop summary" if weak else "")) if r == z3.sat else "solver: unknown " + self.solver.reason,
                                 bool(st.thrown), list(st.trace)))
        return False

    def assume(self, st, c):
        if c is True:
            return
        st.pc.append(zb(c))

    # ---------------------------------------------------------------- arithmetic
    def norm(self, st, x, w):
        """bring an exact integer back into the canonical window of a w-bit register"""
        lo, hi = x.iv()
        m = 1 << w
        if lo is not None and hi is not None and lo >= -(m >> 1) and hi < m:
            return x
        if x.is_const():
            c = x.c % m
            return K(c)
        ck = ("nw", x.key, w)
        r = st.flags.get(ck)
        if r is None:
            r = not self.feasible(st, z3.Or(x.z < -(m >> 1), x.z >= m))
            st.flags = dict(st.flags)
            st.flags[ck] = r
        if r:
            return x
        k = atom("wrap", None, None)
        r = atom("n", 0, m - 1)
        st.pc.append(r.z == x.z - m * k.z)
        st.pc.append(z3.And(r.z >= 0, r.z < m))
        return r

    def nonneg(self, st, x):
        lo, _ = x.iv()
        if lo is not None and lo >= 0:
            return True
        ck = ("nn", x.key)
        r = st.flags.get(ck)
        if r is None:
            r = not self.feasible(st, x.z < 0)
            if r:
                st.flags = dict(st.flags)
                st.flags[ck] = True
        return r

    def small(self, st, x, w):
        _, hi = x.iv()
        if hi is not None and hi < 1 << (w - 1):
            return True
        ck = ("sm", x.key, w)
        r = st.flags.get(ck)
        if r is None:
            r = not self.feasible(st, x.z >= 1 << (w - 1))
            if r:
                st.flags = dict(st.flags)
                st.flags[ck] = True
        return r

    def Ulin(self, st, x, w):
        """unsigned value of a register as a linear term"""
        m = 1 << w
        if self.nonneg(st, x):
            return x
        _, hi = x.iv()
        if hi is not None and hi < 0:
            return x + m
        r = atom("u", 0, m - 1)
        st.pc.append(r.z == z3.If(x.z < 0, x.z + m, x.z))
        st.pc.append(z3.And(r.z >= 0, r.z < m))
        return r

    def Slin(self, st, x, w):
        if self.small(st, x, w):
            return x
        m = 1 << w
        lo, _ = x.iv()
        if lo is not None and lo >= m >> 1:
            return x - m
        r = atom("s", -(m >> 1), (m >> 1) - 1)
        st.pc.append(r.z == z3.If(x.z >= m >> 1, x.z - m, x.z))
        st.pc.append(z3.And(r.z >= -(m >> 1), r.z < m >> 1))
        return r

    def icmp(self, st, pred, a, b, w):
        m = 1 << w
        if pred in ("eq", "ne"):
            al, ah = a.iv()
            bl, bh = b.iv()
            sa = al is not None and ah is not None and al >= 0
            sb = bl is not None and bh is not None and bl >= 0
            if (sa and sb) or (ah is not None and bh is not None and ah < m >> 1 and bh < m >> 1):
                e = eq(a, b)
            else:
                e = eq(self.Ulin(st, a, w), self.Ulin(st, b, w))
            return e if pred == "eq" else lnot(e)
        if pred[0] == "u":
            x, y = self.Ulin(st, a, w), self.Ulin(st, b, w)
        else:
            x, y = self.Slin(st, a, w), self.Slin(st, b, w)
        p = pred[1:]
        if p == "lt":
            return lt(x, y)
        if p == "le":
            return le(x, y)
        if p == "gt":
            return lt(y, x)
        return le(y, x)

    def b2l(self, st, b):
        if b is True:
            return K(1)
        if b is False:
            return K(0)
        t = lin_of_z3(z3.If(b, z3.IntVal(1), z3.IntVal(0)), 0, 1)
        self.boolof[next(iter(t.t))] = b
        return t

    def l2b(self, l):
        if isinstance(l, Undef):
            raise Unsupported("branch on undef")
        if not isinstance(l, Lin):
            return l
        if l.is_const():
            return l.c % 2 != 0
        if len(l.t) == 1 and l.c == 0:
            a, k = next(iter(l.t.items()))
            if k == 1 and a in self.boolof:
                return self.boolof[a]
        return l.z % 2 == 1

    # ---------------------------------------------------------------- values
    def value(self, st, v, ty):
        k = v[0]
        if k == "reg":
            return st.fr.env[v[1]]
        if k == "const":
            if ty[0] == "int" and ty[1] == 1:
                return bool(v[1])
            return K(v[1])
        if k == "null":
            return K(0)
        if k == "glob":
            return atom_named(v[1], 1, P62)
        if k == "undef":
            return UNDEF
        if k == "zero":
            t = self.m.rtype(ty)
            if t[0] == "struct":
                return Agg(self.value(st, ("zero", x), x) for x in t[1])
            if t[0] == "array":
                return Agg(self.value(st, ("zero", t[2]), t[2]) for _ in range(t[1]))
            return False if t == ("int", 1) else K(0)
        if k == "cgep":
            base = self.value(st, v[2][0][1], v[2][0][0])
            return base + self.gep_off(st, v[1], v[2][1:])
        if k == "agg":
            t = self.m.rtype(ty)
            return Agg(self.value(st, x, y) for x, y in zip(v[1], t[1]))
        raise Unsupported("value %r" % (v,))

    def gep_off(self, st, ty, ops):
        off = K(0)
        first = True
        for oty, ov in ops:
            x = self.value(st, ov, oty)
            if not isinstance(x, Lin):
                raise Unsupported("gep index")
            if oty[0] == "int" and oty[1] == 64:
                lo, hi = x.iv()
                if hi is None or hi >= P63:
                    x = self.Slin(st, x, 64)
            if first:
                off = off + x.mul(self.m.size(ty))
                first = False
            else:
                t = self.m.rtype(ty)
                if t[0] == "array":
                    off = off + x.mul(self.m.size(t[2]))
                    ty = t[2]
                else:
                    o, ty = self.m.field(t, x.c)
                    off = off + o
        return off

    # ---------------------------------------------------------------- memory
    def find_obj(self, st, p):
        for a, k in p.t.items():
            if k == 1 and a in st.objs:
                o = st.objs[a]
                r = p - o.base
                return o, r
        return None, None

    def load(self, st, p, ty):
        if not isinstance(p, Lin):
            raise Unsupported("load through undefined pointer")
        o, r = self.find_obj(st, p)
        if o is None:
            for a, k in p.t.items():
                if k == 1 and a in self.selects:      # *(c ? x : y)
                    c, x, y = self.selects[a]
                    rest = p - self.sel_lin[a]
                    return self.select(st, c, self.load(st, x + rest, ty), self.load(st, y + rest, ty), ty)
            return self.tload(st, p, ty)
        if not r.is_const():
            raise Unsupported("symbolic offset load %r" % (p,))
        off = r.c
        t = self.m.rtype(ty)
        if t[0] in ("struct", "array"):
            n = len(t[1]) if t[0] == "struct" else t[1]
            return Agg(self.load(st, p + self.m.field(t, i)[0], self.m.field(t, i)[1]) for i in range(n))
        size = self.m.size(t)
        cells = st.mem[o.name]
        c = cells.get(off)
        if c is not None:
            if c[0] == size:
                v = c[1]
                if t == ("int", 1):
                    return self.l2b(v)
                return v
            raise Unsupported("load size mismatch %r" % (p,))
        for oo, (ss, _) in cells.items():
            if oo < off + size and off < oo + ss:
                raise Unsupported("overlapping load")
        if not o.sym:
            return UNDEF
        nm = "%s.%d" % (o.name, off)
        if t[0] == "ptr":
            v = atom_named(nm, 0, P62)
            self.assume(st, z3.And(v.z >= 0, v.z <= P62))
        else:
            m = 1 << t[1]
            v = atom_named(nm, 0, m - 1)
            self.assume(st, z3.And(v.z >= 0, v.z < m))
        nc = dict(cells)
        nc[off] = (size, v)
        st.mem[o.name] = nc
        self.initial_cells.setdefault(o.name, {})[off] = (size, v)
        return v

    def store(self, st, p, ty, v):
        if not isinstance(p, Lin):
            raise Unsupported("store through undefined pointer")
        o, r = self.find_obj(st, p)
        if o is None:
            return self.tstore(st, p, ty, v)
        if not r.is_const():
            raise Unsupported("symbolic offset store %r" % (p,))
        t = self.m.rtype(ty)
        if isinstance(v, Agg):
            for i, x in enumerate(v):
                fo, ft = self.m.field(t, i)
                self.store(st, p + fo, ft, x)
            return
        off = r.c
        size = self.m.size(t)
        nc = dict(st.mem[o.name])
        for oo in list(nc):
            ss = nc[oo][0]
            if oo != off and oo < off + size and off < oo + ss:
                if oo >= off and oo + ss <= off + size:
                    del nc[oo]
                else:
                    raise Unsupported("overlapping store")
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            v = self.b2l(st, v)
        nc[off] = (size, v)
        st.mem[o.name] = nc

    def copy_cells(self, st, d, s, n):
        """memcpy of n bytes between modelled objects"""
        so, so_off = self.find_obj(st, s)
        do, do_off = self.find_obj(st, d)
        if so is None or do is None or not so_off.is_const() or not do_off.is_const():
            raise Unsupported("memcpy outside modelled objects")
        a, b = so_off.c, so_off.c + n
        pos = a
        pieces = []
        while pos < b:
            c = st.mem[so.name].get(pos)
            if c is not None and pos + c[0] <= b:
                pieces.append((pos, c[0], c[1]))
                pos += c[0]
                continue
            nxt = min([o for o in st.mem[so.name] if o > pos] + [b])
            if any(o < pos < o + sz[0] for o, sz in st.mem[so.name].items()):
                raise Unsupported("memcpy splits a cell")
            w = 8
            while w > nxt - pos or pos % w:
                w //= 2
            if so.sym:
                pieces.append((pos, w, self.load(st, so.base + pos, ("int", 8 * w))))
            else:
                pieces.append((pos, w, None))
            pos += w
        for o, w, v in pieces:
            q = do_off.c + o - a
            nc = dict(st.mem[do.name])
            for oo in list(nc):
                ss = nc[oo][0]
                if oo < q + w and q < oo + ss:
                    if oo >= q and oo + ss <= q + w:
                        del nc[oo]
                    elif do_off.c <= oo and oo + ss <= do_off.c + n:
                        del nc[oo]
                    else:
                        raise Unsupported("memcpy overlaps a cell")
            if v is not None:
                nc[q] = (w, v)
            st.mem[do.name] = nc

    def tload(self, st, p, ty):
        raise Unsupported("load from unknown memory %r" % (p,))

    def tstore(self, st, p, ty, v):
        raise Unsupported("store to unknown memory %r" % (p,))

    def new_obj(self, st, name, size, sym, elemish, stack):
        n = fresh_name(name)
        base = atom_named(n, 1, P62)
        st.pc.append(z3.And(base.z >= 1, base.z <= P62 - size))
        o = Obj(n, base, size, sym, elemish, stack)
        st.objs[n] = o
        st.mem[n] = {}
        if elemish:
            self.add_region(st, base, K(size))
            if stack:
                st.alive = st.alive.rng(base, base + size, "const", F)
                st.news.append((base, base + size))
        return o

    def add_region(self, st, base, size):
        for x in st.flags.get("points", ()):
            if st.started:
                self.assume(st, lor(lt(x, base), le(base + size, x)))
        for b2, s2 in st.regions:
            c = lor(le(base + size, b2), le(b2 + s2, base), le(size, K(0)), le(s2, K(0)))
            self.assume(st, c)
        st.regions.append((base, size))

    def is_elemish(self, ty):
        if ty[0] == "named":
            if re.match(r'%"?(struct|class)\.(Elem|Key|Map)', ty[1]):
                return True
            if self.m.types.get(ty[1]) in (None, "opaque"):
                return False
            return self.is_elemish(self.m.rtype(ty))
        if ty[0] == "struct":
            return any(self.is_elemish(x) for x in ty[1])
        if ty[0] == "array":
            return ty[2] == ("int", 8) or self.is_elemish(ty[2])
        return False

    # ---------------------------------------------------------------- execution
    def call_state(self, st, fn, args):
        f = Frame(fn)
        for (ty, reg, _), v in zip(fn.params, args):
            f.env[reg] = v
        st.frames.append(f)

    def cfg_of(self, fn):
        c = self.cfgs.get(fn.name)
        if c is None:
            c = self.cfgs[fn.name] = CFG(fn)
        return c

    def run(self, st, stop=None):
        """explore all paths from st; returns outcomes (kind, state, value)
        kind: ret | unwind | back | exit (left the allowed block set)"""
        base_depth = stop[0] if stop else 1
        work = [st]
        out = []
        while work:
            s = work.pop()
            self.npaths += 0
            if len(out) + len(work) > self.max_paths:
                raise Unsupported("too many paths")
            r = self.step_path(s, work, out, stop)
        return out

    def goto(self, st, target, work, out, stop):
        """enter block `target`; returns False if the path was diverted"""
        fr = st.fr
        prev = fr.blk
        if stop is not None and len(st.frames) == stop[0] and target not in stop[1]:
            out.append(("exit", st, target))
            return False
        cfg = self.cfg_of(fr.fn)
        # leaving loops
        fr.loops = tuple(l for l in fr.loops if target in cfg.loops[l])
        if target in cfg.loops:
            if target in fr.loops:
                # back edge
                self.do_phis(st, target, prev)
                fr.prev, fr.blk, fr.idx = prev, target, 0
                out.append(("back", st, target))
                return False
            self.do_phis(st, target, prev)
            fr.prev, fr.blk, fr.idx = prev, target, 0
            outs = self.do_loop(st, target, stop)
            out.extend(outs)
            return False
        self.do_phis(st, target, prev)
        fr.prev, fr.blk, fr.idx = prev, target, 0
        return True

    def do_phis(self, st, target, prev):
        fr = st.fr
        new = {}
        for ins in fr.fn.blocks[target]:
            if ins.op != "phi":
                break
            for v, l in ins.a["inc"]:
                if l == prev:
                    new[ins.res] = self.value(st, v, ins.ty)
                    break
            else:
                raise Unsupported("phi without incoming edge")
        fr.env.update(new)

    def step_path(self, st, work, out, stop):
        while True:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget exhausted")
            fr = st.fr
            ins = fr.fn.blocks[fr.blk][fr.idx]
            fr.idx += 1
            op = ins.op
            if op == "phi":
                continue
            if op == "br":
                if "to" in ins.a:
                    if not self.goto(st, ins.a["to"], work, out, stop):
                        return
                    continue
                c = self.l2b(self.value(st, ins.a["c"], ("int", 1)))
                nxt = self.fork(st, c, ins.a["t"], ins.a["f"])
                nxt = [x for x in nxt]
                if not nxt:
                    return
                for s2, tgt in nxt[1:]:
                    if self.goto(s2, tgt, work, out, stop):
                        work.append(s2)
                s2, tgt = nxt[0]
                if not self.goto(s2, tgt, work, out, stop):
                    return
                st = s2
                continue
            if op == "switch":
                v = self.value(st, ins.a["v"], ins.ty)
                rest = []
                alts = []
                for c, tgt in ins.a["cases"]:
                    e = self.icmp(st, "eq", v, self.value(st, c, ins.ty), ins.ty[1])
                    alts.append((land(e, *[lnot(x) for x in rest]), tgt))
                    rest.append(e)
                alts.append((land(*[lnot(x) for x in rest]), ins.a["d"]))
                for c, tgt in alts:
                    if c is False or not self.feasible(st, c):
                        continue
                    s2 = st.copy()
                    self.assume(s2, c)
                    if self.goto(s2, tgt, work, out, stop):
                        work.append(s2)
                return
            if op == "ret":
                v = self.value(st, ins.a["v"], ins.ty) if ins.a["v"] is not None else None
                if len(st.frames) == 1:
                    out.append(("ret", st, v))
                    return
                self.pop_allocas(st)
                f = st.frames.pop()
                res, normal, unwind = f.ret
                if res is not None:
                    st.fr.env[res] = v
                if normal is not None:
                    if not self.goto(st, normal, work, out, stop):
                        return
                continue
            if op == "unreachable":
                self.prove(st, False, "unreachable code reached", "ub")
                return
            if op == "resume":
                if not self.unwind(st, work, out, stop):
                    return
                continue
            if op in ("call", "invoke"):
                r = self.do_call(st, ins, work, out, stop)
                if r is False:
                    return
                st = r
                continue
            self.exec_simple(st, ins)
            if st.flags.get("forked"):
                pass

    def pop_allocas(self, st):
        pass

    def fork(self, st, c, t, f):
        if c is True:
            return [(st, t)]
        if c is False:
            return [(st, f)]
        a = self.feasible(st, c)
        b = True if not a else self.feasible(st, z3.Not(c))     # a path that has been feasible so far goes one of the two ways
        if a and b:
            s2 = st.copy()
            self.assume(st, c)
            self.assume(s2, z3.Not(c))
            return [(st, t), (s2, f)]
        if a:
            self.assume(st, c)
            return [(st, t)]
        if b:
            self.assume(st, z3.Not(c))
            return [(st, f)]
        return []

    def unwind(self, st, work, out, stop):
        """exception in flight leaves the current function; returns True if the path continues in st"""
        if len(st.frames) == 1:
            out.append(("unwind", st, st.exc))
            return False
        f = st.frames.pop()
        res, normal, uw = f.ret
        if uw is None:
            return self.unwind(st, work, out, stop)
        return self.goto(st, uw, work, out, stop)

    def exec_simple(self, st, ins):
        fr = st.fr
        op = ins.op
        a = ins.a
        if op == "alloca":
            size = self.m.size(ins.ty)
            n = a["n"]
            if n[0] != "const":
                raise Unsupported("dynamic alloca")
            o = self.new_obj(st, "stk", size * n[1], False, self.is_elemish(ins.ty), True)
            fr.env[ins.res] = o.base
        elif op == "load":
            fr.env[ins.res] = self.load(st, self.value(st, a["p"], ("ptr",)), ins.ty)
        elif op == "store":
            v = self.value(st, a["v"], ins.ty)
            self.store(st, self.value(st, a["p"], ("ptr",)), ins.ty, v)
        elif op == "getelementptr":
            base = self.value(st, a["ops"][0][1], ("ptr",))
            if not isinstance(base, Lin):
                raise Unsupported("gep on undef")
            r = base + self.gep_off(st, ins.ty, a["ops"][1:])
            fr.env[ins.res] = r
        elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            fr.env[ins.res] = self.arith(st, ins)
        elif op == "icmp":
            x = self.value(st, a["a"], ins.ty)
            y = self.value(st, a["b"], ins.ty)
            if isinstance(x, Undef) or isinstance(y, Undef):
                raise Unsupported("compare undef")
            if ins.ty == ("int", 1):
                bx, by = zb(self.l2b(x)), zb(self.l2b(y))
                fr.env[ins.res] = {"eq": bx == by, "ne": bx != by}[a["pred"]]
                return
            w = 64 if ins.ty[0] == "ptr" else ins.ty[1]
            # comparison of a widened boolean with a constant
            fr.env[ins.res] = self.icmp(st, a["pred"], x, y, w)
        elif op in ("zext", "sext", "trunc"):
            v = self.value(st, a["v"], a["from"])
            if isinstance(v, Undef):
                fr.env[ins.res] = v
                return
            fw = a["from"][1]
            tw = ins.ty[1]
            if fw == 1:
                b = self.l2b(v)
                l = self.b2l(st, b)
                fr.env[ins.res] = l if op == "zext" else -l
            elif op == "zext":
                fr.env[ins.res] = self.Ulin(st, v, fw)
            elif op == "sext":
                fr.env[ins.res] = self.Slin(st, v, fw)
            else:
                if tw == 1:
                    fr.env[ins.res] = self.l2b(v)
                else:
                    fr.env[ins.res] = self.norm(st, v, tw)
        elif op in ("bitcast", "ptrtoint", "inttoptr", "freeze"):
            fr.env[ins.res] = self.value(st, a["v"], a["from"])
        elif op == "select":
            c = self.l2b(self.value(st, a["c"], ("int", 1)))
            x = self.value(st, a["a"], ins.ty)
            y = self.value(st, a["b"], ins.ty)
            fr.env[ins.res] = self.select(st, c, x, y, ins.ty)
        elif op == "extractvalue":
            v = self.value(st, a["v"], ins.ty)
            for i in a["idx"]:
                v = v[i] if not isinstance(v, Undef) else v
            fr.env[ins.res] = v
        elif op == "insertvalue":
            v = self.value(st, a["v"], ins.ty)
            w = self.value(st, a["w"], ("?",))
            t = self.m.rtype(ins.ty)
            if isinstance(v, Undef):
                v = Agg([UNDEF] * len(t[1]))
            l = list(v)
            if len(a["idx"]) != 1:
                raise Unsupported("nested insertvalue")
            l[a["idx"][0]] = w
            fr.env[ins.res] = Agg(l)
        elif op == "landingpad":
            fr.env[ins.res] = Agg([K(7), K(1)])
        else:
            raise Unsupported("instruction " + ins.text.strip()[:120])

    def select(self, st, c, x, y, ty):
        if c is True:
            return x
        if c is False:
            return y
        if isinstance(x, Undef) or isinstance(y, Undef):
            raise Unsupported("select undef")
        if not isinstance(x, Lin) or not isinstance(y, Lin):
            return lite(c, zb(x), zb(y))
        if x.same(y):
            return x
        if not self.feasible(st, c):
            return y
        if not self.feasible(st, z3.Not(c)):
            return x
        l1, h1 = x.iv()
        l2, h2 = y.iv()
        lo = None if l1 is None or l2 is None else min(l1, l2)
        hi = None if h1 is None or h2 is None else max(h1, h2)
        t = atom("sel", lo, hi)
        st.pc.append(z3.If(c, t.z == x.z, t.z == y.z))
        if ty[0] == "ptr":
            self.selects[next(iter(t.t))] = (c, x, y)
            self.sel_lin[next(iter(t.t))] = t
        return t

    def arith(self, st, ins):
        w = ins.ty[1]
        x = self.value(st, ins.a["a"], ins.ty)
        y = self.value(st, ins.a["b"], ins.ty)
        op = ins.op
        if isinstance(x, Undef) or isinstance(y, Undef):
            raise Unsupported("arith on undef")
        if w == 1 or not isinstance(x, Lin) or not isinstance(y, Lin):
            x, y = zb(self.l2b(x)), zb(self.l2b(y))
            if op == "and":
                return z3.And(x, y)
            if op == "or":
                return z3.Or(x, y)
            if op in ("xor", "add", "sub"):
                return z3.Xor(x, y)
            raise Unsupported("bool " + op)
        if op == "add":
            return self.norm(st, x + y, w)
        if op == "sub":
            return self.norm(st, x - y, w)
        if op == "mul":
            if y.is_const():
                return self.norm(st, x.mul(y.c), w)
            if x.is_const():
                return self.norm(st, y.mul(x.c), w)
            raise Unsupported("nonlinear multiplication")
        if op == "shl" and y.is_const():
            return self.norm(st, x.mul(1 << y.c), w)
        if op in ("sdiv", "udiv", "srem", "urem", "lshr", "ashr"):
            if not y.is_const():
                raise Unsupported("division by non-constant")
            d = y.c if op not in ("lshr", "ashr") else 1 << y.c
            if d <= 0:
                raise Unsupported("division by %d" % d)
            if op in ("udiv", "urem", "lshr"):
                x = self.Ulin(st, x, w)
            else:
                x = self.Slin(st, x, w)
            if op in ("sdiv", "ashr") and ins.a["exact"]:
                if d == 1:
                    return x
                if all(k % d == 0 for k in x.t.values()) and x.c % d == 0:
                    return Lin({a: k // d for a, k in x.t.items()}, x.c // d)
                lo, hi = x.iv()
                q = atom("q", None if lo is None else -(-lo // d), None if hi is None else hi // d)
                # pointer difference within one array: exactness is a typing fact of the language
                st.pc.append(q.z * d == x.z)
                self.quot[next(iter(q.t))] = (x, d)
                return q
            lo, hi = x.iv()
            if x.is_const():
                if op in ("udiv", "lshr", "ashr"):
                    return K(x.c // d)
                if op == "urem":
                    return K(x.c % d)
                q = abs(x.c) // d * (1 if x.c >= 0 else -1)
                return K(q) if op == "sdiv" else K(x.c - q * d)
            nonneg = (lo is not None and lo >= 0) or op == "ashr"
            key = (x.key, d, "t" if not nonneg else "f")
            qr = st.flags.get(("div", key))
            if qr is None:
                q = atom("q", None if lo is None else (lo // d if nonneg else -((-lo) // d)), None if hi is None else max(hi // d, 0))
                r = atom("r", 0 if nonneg else -(d - 1), d - 1)
                st.pc.append(x.z == q.z * d + r.z)
                if nonneg:
                    self.quot[next(iter(q.t))] = (x, d)
                if nonneg:
                    st.pc.append(z3.And(r.z >= 0, r.z < d))
                else:
                    st.pc.append(z3.If(x.z >= 0, z3.And(r.z >= 0, r.z < d), z3.And(r.z <= 0, r.z > -d)))
                qr = (q, r)
                st.flags = dict(st.flags)
                st.flags[("div", key)] = qr
            return qr[0] if op in ("udiv", "sdiv", "lshr", "ashr") else qr[1]
        if op == "and" and y.is_const() and y.c in (1, 255):
            if y.c == 1:
                return self.b2l(st, self.l2b(x))
        if op in ("and", "or", "xor") and x.is_const() and y.is_const():
            return K({"and": x.c & y.c, "or": x.c | y.c, "xor": x.c ^ y.c}[op])
        if op == "xor" and y.is_const() and y.c == -1:
            return self.norm(st, -x - 1, w)
        # boolean flags carried in wider integers
        lo, hi = x.iv(); l2, h2 = y.iv()
        if lo is not None and lo >= 0 and hi is not None and hi <= 1 and l2 is not None and l2 >= 0 and h2 is not None and h2 <= 1:
            bx, by = zb(self.l2b(x)), zb(self.l2b(y))
            return self.b2l(st, {"and": z3.And(bx, by), "or": z3.Or(bx, by), "xor": z3.Xor(bx, by)}[op])
        raise Unsupported("arith " + ins.text.strip()[:100])

    # ---------------------------------------------------------------- calls
    IGN = re.compile(r"llvm\.(lifetime|dbg|assume|experimental\.noalias|donothing|invariant)")

    def do_call(self, st, ins, work, out, stop):
        cal = ins.a["callee"]
        if cal[0] != "glob":
            raise Unsupported("indirect call")
        name = cal[1][1:].strip('"')
        if self.IGN.match(name):
            return st
        args = [self.value(st, v, ty) if v is not None else None for ty, v in ins.a["args"]]
        if name.startswith(("llvm.memcpy.", "llvm.memmove.")):
            if not (isinstance(args[2], Lin) and args[2].is_const()):
                raise Unsupported("memcpy of symbolic size")
            self.copy_cells(st, args[0], args[1], args[2].c)
            return st
        if name.startswith("llvm.is.constant"):
            st.fr.env[ins.res] = False
            return st
        h = self.lookup(name)
        normal = ins.a.get("normal")
        uw = ins.a.get("unwind")
        if h is not None:
            self.cur_ins = ins
            outs = h(self, st, args, ins)
            # outs: list of (kind, state, value): kind ret / throw / stop
            cont = []
            for kind, s2, v in outs:
                if kind == "stop":
                    continue
                if kind == "ret":
                    if ins.res is not None:
                        s2.fr.env[ins.res] = v
                    if normal is not None:
                        if self.goto(s2, normal, work, out, stop):
                            cont.append(s2)
                    else:
                        cont.append(s2)
                elif kind == "throw":
                    if self.no_throw:
                        continue
                    s2.exc = v
                    s2.thrown += 1
                    if uw is not None:
                        if self.goto(s2, uw, work, out, stop):
                            cont.append(s2)
                    else:
                        if self.unwind(s2, work, out, stop):
                            cont.append(s2)
            if not cont:
                return False
            work.extend(cont[1:])
            return cont[0]
        if self.m.has(name):
            fn = self.m.func(name)
            if any(f.fn is fn for f in st.frames):
                raise Unsupported("recursion in " + self.dem.get(name, name))
            f = Frame(fn)
            for (ty, reg, attrs), v in zip(fn.params, args):
                f.env[reg] = v
            f.ret = (ins.res, normal, uw)
            st.frames.append(f)
            return st
        raise Unsupported("call to unmodelled external " + self.dem.get(name, name))

    def lookup(self, name):
        if name in self.handler_cache:
            return self.handler_cache[name]
        d = self.dem.get(name, name)
        h = None
        for rx, fn, kind in self.externs:
            if rx.match(d):
                h = fn
                self.used_externs.add(d)
                break
        if h is None and name != self.fn_under:
            for c in self.contracts:
                if c.matches(d, self):
                    h = c.call
                    break
        self.handler_cache[name] = h
        return h

    # ---------------------------------------------------------------- loops
    def loop_vars(self, st, header):
        fr = st.fr
        return [i.res for i in fr.fn.blocks[header] if i.op == "phi"]

    SEARCH = re.compile(r"[^(]*\bstd::__(lower_bound|upper_bound|equal_range)<sfl::dtl::normal_iterator<(.*?)( const)?\*, ")

    def search_loop(self, st0, header, stop, mo):
        """binary search of the standard library over its real code: the invariant is supplied, the body has to maintain it"""
        fr = st0.fr
        kind = mo.group(1)
        rel_lo = (lambda x, k: x <= k) if kind == "upper_bound" else (lambda x, k: x < k)
        rel_hi = (lambda x, k: x >= k) if kind == "lower_bound" else (lambda x, k: x > k)
        unit = self.unit_of(mo.group(2))
        regs = {r[1:]: r for _, r, _ in fr.fn.params}
        phis = self.loop_vars(st0, header)
        comp = [r for r in regs if r.startswith("__comp")]
        if "__first" not in regs or "__last" not in regs or "__val" not in regs or not comp or len(phis) != 1:
            raise Unsupported("shape of binary search")
        cell = fr.env[regs["__first"]]
        o, r = self.find_obj(st0, cell)
        cid = fr.env[regs[comp[0]]]
        if o is None or not r.is_const() or not isinstance(cid, Lin):
            raise Unsupported("shape of binary search")
        base = self.load(st0, cell, ("ptr",))
        end = self.load(st0, fr.env[regs["__last"]], ("ptr",))
        n = fr.env[phis[0]]
        key = self.rank2(cid, st0.val.ev(fr.env[regs["__val"]]))
        self.prove(st0, land(eq(end - base, n.mul(unit)), le(K(0), n)), "binary search starts with the whole range", "loop")
        s = st0.copy()
        fr = s.fr
        at, ln = atom("at", 0, P62), atom("len", 0, P62)
        self.assume(s, z3.And(at.z >= 0, ln.z >= 0, zb(le(at + ln, n))))
        self.store(s, cell, ("ptr",), base + at.mul(unit))
        fr.env[phis[0]] = ln
        val, alive = s.val, s.alive

        def inv(x, at, ln):
            """the part of the invariant about the key at address x"""
            rk = self.rank2(cid, val.ev(x))
            g = land(le(base, x), lt(x, end), self.aligned(x - base, unit))
            return [limp(land(g, lt(x, base + at.mul(unit))), rel_lo(rk, key)), limp(land(g, le(base + (at + ln).mul(unit), x)), rel_hi(rk, key))]
        s.facts = s.facts + [lambda x, ad: inv(x, at, ln)]
        fr.loops = fr.loops + (header,)
        depth = len(s.frames)
        outs = self.run(s, stop)
        res = []
        for oc in outs:
            if oc[0] == "back" and len(oc[1].frames) == depth and oc[2] == header:
                b = oc[1]
                if b.val is not val or b.alive is not alive:
                    raise Unsupported("binary search modifies elements")
                f2, l2 = self.load(b, cell, ("ptr",)), b.fr.env[phis[0]]
                d = f2 - base
                if any(c % unit for c in d.t.values()) or d.c % unit:
                    raise Unsupported("shape of binary search")
                a2 = Lin({a: c // unit for a, c in d.t.items()}, d.c // unit)
                j = atom("sk")
                self.prove(b, land(le(K(0), a2), le(K(0), l2), le(a2 + l2, n)), "binary search stays inside the range", "loop")
                self.prove(b, land(*inv(base + j.mul(unit), a2, l2)), "binary search invariant maintained", "loop")
                continue
            res.append(oc)
        self.loop_summaries += 1
        return res

    def do_loop(self, st0, header, stop):
        fr = st0.fr
        mo = self.SEARCH.match(self.dem.get(fr.fn.name, ""))
        if mo:
            return self.search_loop(st0, header, stop, mo)
        cfg = self.cfg_of(fr.fn)
        body = cfg.loops[header]
        depth = len(st0.frames)
        phis = self.loop_vars(st0, header)
        init = {p: fr.env[p] for p in phis}
        # ---- probe: find which cells change and how
        cellvars = {}      # (obj, off) -> (size, init value)
        for attempt in range(4):
            sp = st0.copy()
            pv = {}
            for p in phis:
                v = init[p]
                if isinstance(v, Lin):
                    pv[p] = atom("probe", *self.widen(v, True))
                    sp.fr.env[p] = pv[p]
                elif isinstance(v, (bool, z3.BoolRef)):
                    pv[p] = z3.Bool(fresh_name("probeb"))
                    sp.fr.env[p] = pv[p]
                elif isinstance(v, Undef):
                    pv[p] = v
                else:
                    raise Unsupported("loop phi kind")
            cv = {}
            for (on, off), (size, v) in cellvars.items():
                a = atom("probe", *self.widen(v, True))
                cv[(on, off)] = a
                c = dict(sp.mem[on]); c[off] = (size, a); sp.mem[on] = c
            sp.fr.loops = sp.fr.loops + (header,)
            base_alive, base_val = sp.alive, sp.val
            self.silent += 1
            n_ob = len(self.obligs)
            try:
                outs = self.run(sp, (depth, body))
            finally:
                self.silent -= 1
                del self.obligs[n_ob:]
            backs = [s for k, s, v in outs if k == "back" and len(s.frames) == depth and v == header]
            grew = False
            for s in backs:
                for on, cells in s.mem.items():
                    if on not in st0.mem:
                        continue
                    old = sp.mem.get(on, {})
                    if old is cells:
                        continue
                    for off, (size, v) in cells.items():
                        if off in old:
                            ov = old[off][1]
                            if (on, off) in cellvars:
                                continue
                            if isinstance(v, Lin) and isinstance(ov, Lin) and v.same(ov):
                                continue
                            if v is ov:
                                continue
                            cellvars[(on, off)] = (size, st0.mem[on][off][1] if off in st0.mem[on] else ov)
                            grew = True
                        else:
                            # written inside, dead before: scratch cell
                            if st0.objs[on].sym:
                                raise Unsupported("loop touches fresh argument cell")
                            cellvars.setdefault((on, off), (size, UNDEF))
            if not grew:
                break
        else:
            raise Unsupported("loop memory does not stabilise")
        if not backs:
            # the body never comes back: plain execution of one pass
            s1 = st0
            s1.fr.loops = s1.fr.loops + (header,)
            outs = self.run(s1, stop)
            return [o for o in outs if not (o[0] == "back" and len(o[1].frames) == depth and o[2] == header)]
        for s in backs:
            if len(s.blocks) != len(st0.blocks) or any(x is not y for x, y in zip(s.blocks, st0.blocks)):
                raise Unsupported("allocation inside loop")
        # ---- affine deltas
        k = atom("k", 0, P62)
        deltas = {}
        cur = {}
        bvars = []
        for p in phis:
            if isinstance(pv[p], Undef) or not isinstance(pv[p], Lin):
                deltas[p] = None
                continue
            ds = {(s.fr.env[p] - pv[p]).key if isinstance(s.fr.env[p], Lin) else None for s in backs}
            d = next(iter(ds))
            deltas[p] = d[1] if len(ds) == 1 and d is not None and not d[0] else None
        for c, a in cv.items():
            on, off = c
            ds = set()
            for s in backs:
                v = s.mem[on][off][1]
                ds.add((v - a).key if isinstance(v, Lin) and isinstance(a, Lin) else None)
            d = next(iter(ds))
            deltas[c] = d[1] if len(ds) == 1 and d is not None and not d[0] else None
        sub = {}
        for p in phis:
            v = init[p]
            if deltas[p] is not None:
                lo, hi = v.iv()
                cur[p] = v + k.mul(deltas[p]) if deltas[p] else v
                sub[next(iter(pv[p].t))] = cur[p]
            else:
                if isinstance(v, Lin):
                    cur[p] = atom("hv", *self.widen(v))
                    sub[next(iter(pv[p].t))] = cur[p]
                elif isinstance(v, Undef):
                    cur[p] = v
                else:
                    cur[p] = z3.Bool(fresh_name("hvb"))
        cellcur = {}
        for c, (size, v) in cellvars.items():
            a = cv.get(c)
            if a is None or isinstance(v, Undef):
                cellcur[c] = UNDEF
            elif deltas.get(c) is not None:
                cellcur[c] = v + k.mul(deltas[c])
                sub[next(iter(a.t))] = cellcur[c]
            else:
                cellcur[c] = atom("hv", *self.widen(v))
                sub[next(iter(a.t))] = cellcur[c]
        # ---- ghost array summary
        first_try = True
        for mode in ("exact0", "exact", "weak"):
            try:
                S_alive = self.summarise(st0.alive, base_alive, [s.alive for s in backs], sub, k, mode, st0)
                S_val = self.summarise(st0.val, base_val, [s.val for s in backs], sub, k, mode, st0)
            except Unsupported:
                if mode == "weak":
                    raise
                continue
            res = self.try_loop(st0, header, body, depth, k, cur, cellcur, cellvars, S_alive, S_val, deltas, init, pv, stop, mode)
            if res is not None:
                self.loop_summaries += 1
                return res
        raise Unsupported("loop summary not inductive in %s" % self.dem.get(fr.fn.name, fr.fn.name)[:200])

    def widen(self, v, guess=False):
        if guess and isinstance(v, Lin):
            lo, hi = v.iv()      # only used to guess strides; the guess is proved inductive afterwards
            return (0 if lo is not None and lo >= 0 else -P62), P62
        if not isinstance(v, Lin):
            return (None, None)
        lo, hi = v.iv()
        if lo is not None and lo >= 0:
            return (0, P64 - 1 if (hi is None or hi > P62 + 4096) else P62 + 4096)
        if lo is not None and lo >= -(P62 + 4096) and hi is not None and hi <= P62 + 4096:
            return (-(P62 + 4096), P62 + 4096)
        return (-P63, P63 - 1)

    def resolve_src(self, src, arr, stop):
        """follow copies through temporaries inside one iteration (a guess; the inductive step checks it)"""
        while arr is not stop and arr.kind != "root":
            if arr.lo.same(src) and arr.single():
                if arr.kind != "copy":
                    return None
                src, arr = arr.data
                continue
            arr = arr.parent
        return src

    def summarise(self, base0, pbase, backs, sub, k, mode, st0):
        """closed form of k iterations: function k(Lin) -> GArr, or None when unchanged"""
        lay = None
        for b in backs:
            l = b.layers(pbase)
            if l is None:
                raise Unsupported("array root replaced")
            if lay is None:
                lay = l
            else:
                if len(l) != len(lay) or any(x is not y for x, y in zip(l, lay)):
                    # different effects on different paths: weaken to fresh over all of them
                    lay = lay + [x for x in l if x not in lay]
                    mode = "weak"
        if not lay:
            return lambda kk: base0
        kat = next(iter(k.t))
        desc = []
        if mode == "exact0":
            ll = [x for x in lay if x.kind == "fresh"] + [x for x in lay if x.kind != "fresh"]
            lay, mode = ll, "exact"
        for L in lay:
            if L.guard is not True:
                raise Unsupported("nested guarded layer")
            lo, hi = L.lo.subst(sub), L.hi.subst(sub)
            w = hi - lo
            c = lo.t.get(kat, 0)
            ch = hi.t.get(kat, 0)
            desc.append((L, lo, hi, c, ch))

        def build(kk, st=self):
            arr = base0
            m = {kat: kk}
            for L, lo, hi, c, ch in desc:
                lo0 = lo.subst({kat: K(0)})
                hi0 = hi.subst({kat: K(0)})
                if c == ch == 0:
                    # same region every iteration
                    if L.kind == "const" and mode == "exact":
                        arr = GArr(arr, lo0, hi0, "const", L.data, guard=le(K(1), kk))
                    else:
                        g = arr.fresh(lo0, hi0)
                        g.guard = le(K(1), kk)
                        arr = g
                    continue
                if c != ch:
                    raise Unsupported("loop layer with varying width")
                w = hi0 - lo0
                if not w.is_const():
                    raise Unsupported("loop layer with symbolic width")
                w = w.c
                if c > 0:
                    rl, rh = lo0, lo0 + kk.mul(c)
                else:
                    rl, rh = lo0 + kk.mul(c) - c, lo0 - c
                    # cells lo0, lo0+c, ... lo0+c(k-1): lowest start lo0+c(k-1); span up to lo0+|c|
                stride, width = abs(c), w
                kw = {}
                if width < stride:
                    kw = dict(stride=stride, width=width)
                elif width > stride:
                    raise Unsupported("overlapping loop layers")
                if L.kind == "const":
                    d = L.data
                    arr = GArr(arr, rl, rh, "const", d, **kw)
                elif L.kind == "copy" and mode == "exact":
                    src, sarr = L.data
                    src = self.resolve_src(src, sarr, pbase)
                    if src is None:
                        g = arr.fresh(rl, rh)
                        arr = GArr(arr, rl, rh, "fresh", g.data, **kw)
                        continue
                    s2 = src.subst(sub)
                    sc = s2.t.get(kat, 0)
                    s20 = s2.subst({kat: K(0)})
                    arr0 = base0
                    if sc == c:
                        # element at a came from a - lo0 + src0
                        arr = GArr(arr, rl, rh, "fn", (lambda a, s20=s20, lo0=lo0: base0.ev(a - lo0 + s20)), **kw)
                    elif sc == 0 and width == 1:
                        arr = GArr(arr, rl, rh, "fn", (lambda a, s20=s20: base0.ev(s20)), **kw)
                    else:
                        g = arr.fresh(rl, rh)
                        arr = GArr(arr, rl, rh, "fresh", g.data, **kw)
                else:
                    g = arr.fresh(rl, rh)
                    arr = GArr(arr, rl, rh, "fresh", g.data, **kw)
            return arr
        build(k)
        return build

    def try_loop(self, st0, header, body, depth, k, cur, cellcur, cellvars, S_alive, S_val, deltas, init, pv, stop, mode):
        s = st0.copy()
        fr = s.fr
        if mode == "weak" or any(isinstance(v, Lin) and any(a.startswith("hv!") for a in v.t) for v in list(cur.values()) + list(cellcur.values())):
            s.flags = dict(s.flags)
            s.flags["weak"] = True
        s.pc.append(z3.And(k.z >= 0, k.z <= P62))
        fr.env.update(cur)
        for (on, off), v in cellcur.items():
            c = dict(s.mem[on]); c[off] = (cellvars[(on, off)][0], v); s.mem[on] = c
        s.alive = S_alive(k)
        s.val = S_val(k)
        fr.loops = fr.loops + (header,)
        for v in list(cur.values()) + list(cellcur.values()):
            if isinstance(v, Lin):
                for a in v.t:
                    if a.startswith("hv!"):
                        z_, lo, hi = ATOMS[a]
                        self.assume(s, z3.And(z_ >= lo, z_ <= hi))
        # ---- candidate scalar bounds
        cands = self.bound_candidates(st0, s, header, body, cur, cellcur, init, deltas, k)
        good = []
        pre = []
        for name, f0, fk, fk1 in cands:
            # initially true?
            if f0 is True or self.holds(st0, f0):
                pre.append((name, f0, fk, fk1))
        # Houdini
        conds = pre
        self.silent += 1
        n_ob = len(self.obligs)
        try:
            while True:
                t = s.copy()
                for _, _, fk, _ in conds:
                    self.assume(t, fk)
                outs = self.run(t, (depth, body))
                backs = [x for kk, x, v in outs if kk == "back" and len(x.frames) == depth and v == header]
                keep = []
                for cnd in conds:
                    ok = True
                    for b in backs:
                        if not self.holds(b, cnd[3](b)):
                            ok = False
                            break
                    if ok:
                        keep.append(cnd)
                if len(keep) == len(conds):
                    break
                conds = keep
        finally:
            self.silent -= 1
            del self.obligs[n_ob:]
        for _, _, fk, _ in conds:
            self.assume(s, fk)
        npc = len(s.pc)
        # history: every earlier iteration took a continuing path
        cont = []
        for b in backs:
            ext = [c for c in b.pc[npc:]]
            cont.append(land(*ext) if ext else True)
        hist = lor(*cont) if cont else True
        # ---- the inductive step (probed silently first, then with obligations on)
        kat = next(iter(k.t))
        bad = None
        for b in backs:
            bad = self.check_step(b, k, cur, cellcur, cellvars, S_alive, S_val, header)
            if bad:
                break
        if bad:
            if self.cfg.get("debug"):
                print("   loop", mode, "not inductive:", bad)
            return None
        # havoc'd registers that stay boolean etc. need no step
        if hist is not True and not isinstance(hist, bool):
            self.add_history(s, k, hist, cur, deltas, init, cellcur)
        outs = self.run(s, stop)
        res = []
        for o in outs:
            if o[0] == "back" and len(o[1].frames) == depth and o[2] == header:
                bad = self.check_step(o[1], k, cur, cellcur, cellvars, S_alive, S_val, header)
                if not self.silent:
                    self.prove(o[1], bad is None, "loop invariant maintained: %s" % (bad or "closed-form summary"), "loop")
                continue
            res.append(o)
        return res

    def holds(self, st, g):
        if g is True:
            return True
        if g is False:
            return False
        ng = z3.Not(zb(g))
        if self.solver.check(st.pc, ng) == z3.unsat:
            return True
        if st.facts:
            return self.entails(st, ng)[0] == z3.unsat
        return False

    def check_step(self, b, k, cur, cellcur, cellvars, S_alive, S_val, header):
        k1 = k + 1
        kat = next(iter(k.t))
        fr = b.fr
        for p, v in cur.items():
            nv = fr.env[p]
            if not isinstance(v, Lin):
                continue
            if kat in v.t or True:
                want = v.subst({kat: k1})
                if any(a.startswith("hv!") for a in v.t):
                    lo, hi = v.iv()
                    if not isinstance(nv, Lin) or not self.holds(b, land(le(K(lo), nv), le(nv, K(hi)))):
                        return "range of " + p[:60]
                    continue
                if not isinstance(nv, Lin) or not self.holds(b, eq(nv, want)):
                    return "variable " + p[:60]
        for c, v in cellcur.items():
            if isinstance(v, Undef):
                continue
            nv = b.mem[c[0]][c[1]][1]
            if any(a.startswith("hv!") for a in v.t):
                lo, hi = v.iv()
                if not isinstance(nv, Lin) or not self.holds(b, land(le(K(lo), nv), le(nv, K(hi)))):
                    return "range of cell %s+%d" % c
                continue
            if not isinstance(nv, Lin) or not self.holds(b, eq(nv, v.subst({kat: k1}))):
                return "memory cell %s+%d" % c
        a = atom("sk")
        A1 = S_alive(k1)
        base = S_alive(K(0))
        if A1 is not b.alive:
            un = A1.unspec(a, None)
            g = lor(un, zb(A1.ev(a)) == zb(b.alive.ev(a)))
            if not self.holds(b, g):
                return "aliveness"
        V1 = S_val(k1)
        if V1 is not b.val:
            un = V1.unspec(a, None) if V1.kind != "root" else False
            g = lor(un, lnot(A1.ev(a)), V1.ev(a) == b.val.ev(a))
            if not self.holds(b, g):
                return "values"
        return None

    def app_addresses(self, hist, kz):
        """addresses, affine in the iteration number, that the condition of one iteration reads: (address in iteration 0, stride)"""
        out = []
        for a in collect_apps([hist], self.root_names):
            def at(v):
                return z3.simplify(z3.substitute(a, (kz, v)))
            c = z3.simplify(at(z3.IntVal(1)) - at(z3.IntVal(0)))
            c2 = z3.simplify(z3.substitute(a, (kz, kz + 1)) - a)
            if z3.is_int_value(c) and z3.is_int_value(c2) and c.as_long() == c2.as_long():
                if c.as_long():
                    out.append((lin_of_z3(at(z3.IntVal(0))), c.as_long()))
            else:
                self.nonaffine = True
        return out

    def bound_candidates(self, st0, s, header, body, cur, cellcur, init, deltas, k):
        """candidate invariants  x <= b / x >= b  for comparisons appearing in the loop, over affine variables"""
        fr = s.fr
        fn = fr.fn
        pairs = []
        kat = next(iter(k.t))
        # evaluate comparison operands symbolically in terms of the header state
        t = s.copy()
        self.silent += 1
        n_ob = len(self.obligs)
        rec = []
        old = self.icmp

        def hook(st, pred, a, b, w):
            rec.append((a, b))
            return old(st, pred, a, b, w)
        self.icmp = hook
        try:
            try:
                self.run(t, (len(s.frames), body))
            except Unsupported:
                pass
        finally:
            self.icmp = old
            self.silent -= 1
            del self.obligs[n_ob:]
        out = []
        seen = set()
        for a, b in rec:
            d = a - b
            for _ in range(3):
                # compare multiples instead of quotients: the candidate must not mention an atom private to one evaluation
                qa = next((x for x in d.t if x in self.quot), None)
                if qa is None or (kat in d.t and d.t[qa] * d.t[kat] > 0):
                    break
                x, m = self.quot[qa]
                cq = d.t[qa]
                d = Lin({y: c_ * m for y, c_ in d.t.items() if y != qa}, d.c * m) + x.mul(cq)
            c = d.t.get(kat, 0)
            if c == 0:
                continue
            key = d.key
            if key in seen:
                continue
            seen.add(key)
            known = set(ATOMS)

            def inst(d=d, c=c):
                def f(kk):
                    x = d.subst({kat: kk})
                    return le(x, K(0)) if c > 0 else le(K(0), x)
                return f
            f = inst()
            if any(a_ not in ATOMS for a_ in d.t):
                continue
            out.append(("bound", f(K(0)), f(k), (lambda st, f=f: f(k + 1))))
            if abs(c) > 1:
                # divisibility: the remaining distance is a multiple of the stride
                def g(kk, d=d, c=c):
                    return d.subst({kat: kk}).z % abs(c) == 0
                out.append(("div", g(K(0)), g(k), (lambda st, g=g: g(k + 1))))
        return out

    def add_history(self, s, k, hist, cur, deltas, init, cellcur):
        kz = k.z
        ptrs = []
        kat = next(iter(k.t))
        for v in list(cur.values()) + list(cellcur.values()):
            if isinstance(v, Lin) and kat in v.t and not any(a.startswith("hv!") for a in v.t):
                ptrs.append((v.subst({kat: K(0)}), v.t[kat]))
        if any(a.startswith("hv!") for v in cur.values() if isinstance(v, Lin) for a in v.t):
            return
        # only meaningful when the condition depends on ghost values
        if not collect_apps([hist], self.root_names):
            return
        self.nonaffine = False
        have = {(x0.key, c) for x0, c in ptrs}
        ptrs += [x for x in self.app_addresses(hist, kz) if (x[0].key, x[1]) not in have]
        if self.nonaffine:
            s.flags = dict(s.flags)      # what earlier iterations saw is not fully recorded
            s.flags["weak"] = True

        def fact(a, addrs, ptrs=ptrs):
            r = []
            for x0, c in ptrs:
                if abs(c) == 1:
                    j = (a - x0).mul(c)
                    jz = j.z
                    r.append(z3.Implies(z3.And(jz >= 0, jz < kz), z3.substitute(zb(hist), (kz, jz))))
                else:
                    q = atom("hj", None, None)
                    jz = q.z
                    dd = (a - x0).z if c > 0 else (x0 - a).z
                    r.append(z3.And(jz * abs(c) <= dd, dd < (jz + 1) * abs(c)))
                    r.append(z3.Implies(z3.And(jz >= 0, jz < kz), z3.substitute(zb(hist), (kz, jz))))
            return r
        s.facts = s.facts + [fact]
