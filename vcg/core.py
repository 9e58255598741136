"""Values, ghost arrays and solver plumbing of the verification-condition generator."""
import itertools
import time
import z3
import fastz3
from fastz3 import solver_add

P62 = 1 << 62
P63 = 1 << 63
P64 = 1 << 64

ATOMS = {}
_cnt = itertools.count()


def reset():
    ATOMS.clear()
    Lin._z.clear()
    _LINS.clear()
    GArr._memo.clear()
    _APPS.clear()


def fresh_name(p):
    return "%s!%d" % (p, next(_cnt))


_LINS = {}       # z3 term id -> the linear form it was built from


class Lin:
    """Integer linear expression over atoms: exact mathematical integer."""
    __slots__ = ("t", "c", "_k")
    _z = {}

    def __init__(self, t, c):
        self.t = t
        self.c = c
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = (tuple(sorted(self.t.items())), self.c)
        return self._k

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o)
        t = dict(self.t)
        for a, k in o.t.items():
            v = t.get(a, 0) + k
            if v:
                t[a] = v
            else:
                t.pop(a, None)
        return Lin(t, self.c + o.c)

    def __neg__(self):
        return Lin({a: -k for a, k in self.t.items()}, -self.c)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c - o)
        return self + (-o)

    def mul(self, k):
        if k == 0:
            return Lin({}, 0)
        return Lin({a: c * k for a, c in self.t.items()}, self.c * k)

    def is_const(self):
        return not self.t

    def same(self, o):
        return self.c == o.c and self.t == o.t

    def iv(self):
        lo = hi = self.c
        for a, k in self.t.items():
            _, l, h = ATOMS[a]
            if k > 0:
                lo = None if lo is None or l is None else lo + k * l
                hi = None if hi is None or h is None else hi + k * h
            else:
                lo = None if lo is None or h is None else lo + k * h
                hi = None if hi is None or l is None else hi + k * l
        return lo, hi

    @property
    def z(self):
        k = self.key
        r = Lin._z.get(k)
        if r is None:
            ts = []
            for a, c in k[0]:
                v = ATOMS[a][0]
                ts.append(v if c == 1 else c * v)
            if self.c or not ts:
                ts.append(z3.IntVal(self.c))
            r = ts[0] if len(ts) == 1 else z3.Sum(ts)
            Lin._z[k] = r
            _LINS[r.get_id()] = self
        return r

    def subst(self, m):
        r = Lin({}, self.c)
        for a, k in self.t.items():
            if a in m:
                r = r + m[a].mul(k)
            else:
                r = r + Lin({a: k}, 0)
        return r

    def __repr__(self):
        return " + ".join(["%s%s" % ("" if c == 1 else "%d*" % c, a) for a, c in self.key[0]] + ([str(self.c)] if self.c or not self.t else []))


def K(n):
    return Lin({}, n)


def atom(prefix, lo=None, hi=None, z=None):
    n = fresh_name(prefix)
    ATOMS[n] = (z3.Int(n) if z is None else z, lo, hi)
    return Lin({n: 1}, 0)


def atom_named(n, lo=None, hi=None):
    if n not in ATOMS:
        ATOMS[n] = (z3.Int(n), lo, hi)
    return Lin({n: 1}, 0)


def lin_of_z3(e, lo=None, hi=None):
    if z3.is_int_value(e):
        return K(e.as_long())
    r = _LINS.get(e.get_id())
    if r is not None:
        return r
    n = "z%d" % e.get_id()
    if n not in ATOMS:
        ATOMS[n] = (e, lo, hi)
    return Lin({n: 1}, 0)


T = z3.BoolVal(True)
F = z3.BoolVal(False)


def zb(b):
    if b is True:
        return T
    if b is False:
        return F
    return b


def le(a, b):
    d = b - a
    lo, hi = d.iv()
    if lo is not None and lo >= 0:
        return True
    if hi is not None and hi < 0:
        return False
    return a.z <= b.z


def lt(a, b):
    return le(a + 1, b)


def eq(a, b):
    d = a - b
    if d.is_const():
        return d.c == 0
    lo, hi = d.iv()
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    return a.z == b.z


def land(*xs):
    r = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def lor(*xs):
    r = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def lnot(x):
    if x is True:
        return False
    if x is False:
        return True
    return z3.Not(x)


def limp(a, b):
    return lor(lnot(a), b)


def lite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) or isinstance(b, bool):
        a, b = zb(a), zb(b)
    return z3.If(c, a, b)


# --------------------------------------------------------------------------- ghost arrays
class GArr:
    """Ghost map address -> value, as a stack of closed-form range updates over a root function."""
    __slots__ = ("parent", "lo", "hi", "stride", "width", "kind", "data", "n", "bool", "guard")
    _memo = {}
    _ids = itertools.count()

    def __init__(self, parent, lo, hi, kind, data, stride=None, width=None, guard=True, isbool=None):
        self.parent, self.lo, self.hi, self.kind, self.data = parent, lo, hi, kind, data
        self.stride, self.width, self.guard = stride, width, guard
        self.n = next(GArr._ids)
        self.bool = parent.bool if parent is not None else isbool

    @staticmethod
    def root(name, isbool):
        f = z3.Function(name, z3.IntSort(), z3.BoolSort() if isbool else z3.IntSort())
        return GArr(None, None, None, "root", f, isbool=isbool)

    def single(self):
        return self.stride is None and (self.hi - self.lo).is_const() and (self.hi - self.lo).c == 1

    def cond(self, a):
        if self.single():
            c = eq(a, self.lo)
        else:
            c = land(le(self.lo, a), lt(a, self.hi))
        if self.stride is not None and self.width < self.stride and c is not False:
            # gap between consecutive records
            c = land(c, z3.Or(*[(a - self.lo - w).z % self.stride == 0 for w in range(self.width)]))
        return land(self.guard, c)

    def value(self, a):
        if self.kind == "const":
            return self.data
        if self.kind == "copy":
            src, arr = self.data
            return arr.ev(src if self.single() else a - self.lo + src)      # a == lo in a layer of one cell
        if self.kind == "fresh":
            return self.data(self.lo.z if self.single() else a.z)
        if self.kind == "fn":
            return self.data(a)
        raise ValueError(self.kind)

    def ev(self, a):
        if self.kind == "root":
            return self.data(a.z)
        m = GArr._memo.get((self.n, a.key))
        if m is not None:
            return m
        c = self.cond(a)
        if c is True:
            r = self.value(a)
        elif c is False:
            r = self.parent.ev(a)
        else:
            x, y = zb(self.value(a)), zb(self.parent.ev(a))
            r = x if x.eq(y) else z3.If(c, x, y)
        r = zb(r)
        GArr._memo[(self.n, a.key)] = r
        return r

    def unspec(self, a, stop):
        """true where the topmost layer above `stop` covering a is 'fresh' (unconstrained)"""
        if self is stop or self.kind == "root":
            return False
        c = self.cond(a)
        return lite(c, self.kind == "fresh", self.parent.unspec(a, stop)) if c is not True else self.kind == "fresh"

    # updates
    def set1(self, a, v):
        return GArr(self, a, a + 1, "const", v)

    def rng(self, lo, hi, kind, data):
        return GArr(self, lo, hi, kind, data)

    def fresh(self, lo, hi, tag="u"):
        n = fresh_name(tag)
        f = z3.Function(n, z3.IntSort(), z3.BoolSort() if self.bool else z3.IntSort())
        return GArr(self, lo, hi, "fresh", f)

    def layers(self, stop):
        r = []
        x = self
        while x is not stop:
            if x.kind == "root":
                return None
            r.append(x)
            x = x.parent
        return r[::-1]


# --------------------------------------------------------------------------- solver
class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.feas = 0


STATS = Stats()
TIMEOUT_MS = 8000
z3.set_param('smt.arith.solver', 2)


class Solver:
    """Incremental solver that tracks a stack of path conditions; facts are instantiated per query."""

    def __init__(self):
        self.s = z3.Solver()
        self.s.set("timeout", TIMEOUT_MS)
        self.stack = []
        self.open = False
        self._model = None

    def sync(self, pc):
        i = 0
        n = min(len(pc), len(self.stack))
        while i < n and pc[i] is self.stack[i]:
            i += 1
        k = len(self.stack) - i
        if k:
            self.s.pop(k)
            del self.stack[i:]
        for c in pc[i:]:
            self.s.push()
            solver_add(self.s, c)
            self.stack.append(c)

    def close(self):
        if self.open:
            self.s.pop()
            self.open = False

    @property
    def model(self):
        """model of the last query (only until the next one)"""
        if self._model is None and self.open:
            self._model = self.s.model()
        return self._model

    @model.setter
    def model(self, m):
        self._model = m

    def check(self, pc, *extra):
        t = time.time()
        self.close()
        self._model = None
        self.sync(pc)
        self.s.push()
        self.open = True
        for e in extra:
            if e is False:
                return z3.unsat
            if e is True:
                continue
            solver_add(self.s, e)
        r = self.s.check()
        self.reason = self.s.reason_unknown() if r == z3.unknown else ""
        STATS.queries += 1
        STATS.time += time.time() - t
        return r


_APPS = {}
_EMPTY = frozenset()


_Z3_get_app_arg = fastz3.L.Z3_get_app_arg
_Z3_get_app_decl = fastz3.L.Z3_get_app_decl
_Z3_get_app_num_args = fastz3.L.Z3_get_app_num_args
_Z3_get_ast_id = fastz3.L.Z3_get_ast_id
_Z3_get_ast_kind = fastz3.L.Z3_get_ast_kind
_Z3_get_decl_kind = fastz3.L.Z3_get_decl_kind
_Z3_get_decl_name = fastz3.L.Z3_get_decl_name
_Z3_get_symbol_string = fastz3.L.Z3_get_symbol_string


class Addrs(list):
    vals = frozenset()     # those at which the value map is read
    tier = 1
    skipped = False


def collect_apps(exprs, names, val_root=None):
    """arguments of applications of the unary uninterpreted functions `names` (memoised over the shared term graph)"""
    cr = fastz3.C
    apps = _APPS
    out = {}
    vals = set()

    def visit(root):
        st = [(root, _Z3_get_ast_id(cr, root), False)]
        while st:
            a, i, done = st.pop()
            if i in apps:
                continue
            kind = _Z3_get_ast_kind(cr, a)
            if kind != z3.Z3_APP_AST:
                if kind == z3.Z3_QUANTIFIER_AST:
                    raise ValueError("quantifier")
                apps[i] = (a, _EMPTY)
                continue
            n = _Z3_get_app_num_args(cr, a)
            if n == 0:
                apps[i] = (a, _EMPTY)
                continue
            ch = [_Z3_get_app_arg(cr, a, j) for j in range(n)]
            ids = [_Z3_get_ast_id(cr, c) for c in ch]
            if not done:
                st.append((a, i, True))
                for c, ci in zip(ch, ids):
                    if ci not in apps:
                        st.append((c, ci, False))
                continue
            r = _EMPTY
            for ci in ids:
                x = apps[ci][1]
                if x:
                    r = x if not r else (r if x <= r else r | x)
            if n == 1:
                d = _Z3_get_app_decl(cr, a)
                if _Z3_get_decl_kind(cr, d) == z3.Z3_OP_UNINTERPRETED:
                    nm = _Z3_get_symbol_string(cr, _Z3_get_decl_name(cr, d)).decode()
                    r = r | {(nm, ids[0])}
            apps[i] = (a, r)
    for e in exprs:
        if isinstance(e, bool):
            continue
        a = e.ast
        i = _Z3_get_ast_id(cr, a)
        if i not in apps:
            visit(a)
        for nm, ai in apps[i][1]:
            if names is None or nm in names:
                if ai not in out:
                    out[ai] = apps[ai][0]
                if val_root is not None and nm == val_root:
                    vals.add(ai)
    r = Addrs(z3.z3._to_expr_ref(out[k], fastz3.CTX) for k in sorted(out))
    r.vals = vals
    return r
