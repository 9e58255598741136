"""Meaning of everything outside the verified text: element operations, allocator, C++ runtime, specification intrinsics.

Each handler is an (assumed) contract of an external function: it states obligations and returns outcomes.
"""
import re
import z3
from core import *
import core
from engine import Engine, Unsupported, UNDEF, Undef, Agg, Block, Obj

VDEF = z3.Int("val_default")          # value of a default constructed element
RANK = z3.Function("rank", z3.IntSort(), z3.IntSort())   # order used by comparators
LIMIT = z3.Function("alloc_limit", z3.IntSort(), z3.IntSort())   # max_size() of the allocator with a given id
RANK2 = z3.Function("rank_under", z3.IntSort(), z3.IntSort(), z3.IntSort())   # order (or equivalence class) of a value under a comparator
CODE = z3.Function("valof", z3.IntSort(), z3.IntSort())  # value produced by constructing from an int


class SpecMixin:
    """Specification helpers shared by extern handlers, contracts and intrinsics (mixed into Engine)."""

    def sk(self, tag="sk"):
        return atom(tag)

    # --- obligations / assumptions in both modes
    def require(self, st, cond, label, cat="pre"):
        if self.assume_pre:
            self.assume(st, cond)
        else:
            self.prove(st, cond, label, cat)

    def require_all(self, st, lo, hi, arr, want, label, cat="lifetime"):
        """forall a in [lo,hi): arr(a) == want"""
        if (hi - lo).is_const() and (hi - lo).c <= 0:
            return
        if self.assume_pre:
            st.facts = st.facts + [lambda a, addrs, lo=lo, hi=hi, arr=arr: limp(land(le(lo, a), lt(a, hi)),
                                   arr.ev(a) if want else lnot(arr.ev(a)))]
            return
        if (hi - lo).is_const() and (hi - lo).c <= 4:
            for k in range((hi - lo).c):
                e = arr.ev(lo + k)
                self.prove(st, e if want else lnot(e), label, cat)
            return
        a = self.sk()
        e = arr.ev(a)
        self.prove(st, limp(land(le(lo, a), lt(a, hi)), e if want else lnot(e)), label, cat)

    def req_alive(self, st, lo, hi, label):
        self.require_all(st, lo, hi, st.alive, True, label)

    def req_dead(self, st, lo, hi, label):
        self.require_all(st, lo, hi, st.alive, False, label)

    def req_valid(self, st, lo, hi, label):
        """[lo,hi) lies inside one accessible region"""
        if self.assume_pre:
            st.regions.append((lo, hi - lo))
            self.assume(st, lor(le(hi, lo), land(le(K(1), lo), le(hi, K(P62)))))
            return
        c = [land(le(b, lo), le(hi, b + s)) for b, s in st.regions]
        self.prove(st, lor(le(hi, lo), *c), label, "memory")

    # --- effects
    def eff(self, st, arr, lo, hi, kind, data):
        if (hi - lo).is_const() and (hi - lo).c <= 0:
            return
        if kind == "fresh":
            setattr(st, arr, getattr(st, arr).fresh(lo, hi))
        else:
            setattr(st, arr, getattr(st, arr).rng(lo, hi, kind, data))

    def set_alive(self, st, lo, hi, b):
        self.eff(st, "alive", lo, hi, "const", T if b else F)

    def copy_vals(self, st, lo, hi, src, old=None):
        old = old if old is not None else st.val
        self.eff(st, "val", lo, hi, "copy", (src, old))


def esize(E, name):
    return 1


# ------------------------------------------------------------------ element operations
def mk_elem(cls, nothrow_move):
    """contracts of the opaque element type `cls` (one byte)"""
    hs = []
    c = re.escape(cls)

    def throwing(E, st, f=None):
        s = st.copy()
        if f:
            f(s)
        return ("throw", s, "inj")

    def default(E, st, a, ins):
        p = a[0]
        E.req_valid(st, p, p + 1, "constructed element lies in accessible storage")
        E.req_dead(st, p, p + 1, "no live element is constructed over")
        t = throwing(E, st)
        st.alive = st.alive.set1(p, T)
        st.val = st.val.set1(p, VDEF)
        return [("ret", st, None), t]

    def from_int(E, st, a, ins):
        p = a[0]
        E.req_valid(st, p, p + 1, "constructed element lies in accessible storage")
        E.req_dead(st, p, p + 1, "no live element is constructed over")
        t = throwing(E, st)
        st.alive = st.alive.set1(p, T)
        st.val = st.val.set1(p, CODE(a[1].z))
        return [("ret", st, None), t]

    def cctor(E, st, a, ins):
        p, o = a[0], a[1]
        E.req_valid(st, p, p + 1, "constructed element lies in accessible storage")
        E.req_dead(st, p, p + 1, "no live element is constructed over")
        E.req_alive(st, o, o + 1, "copied-from element is alive")
        t = throwing(E, st)
        st.alive = st.alive.set1(p, T)
        st.val = GArr(st.val, p, p + 1, "copy", (o, st.val))
        return [("ret", st, None), t]

    def mctor(E, st, a, ins):
        p, o = a[0], a[1]
        E.req_valid(st, p, p + 1, "constructed element lies in accessible storage")
        E.req_dead(st, p, p + 1, "no live element is constructed over")
        E.req_alive(st, o, o + 1, "moved-from element is alive")
        outs = []
        if not nothrow_move:
            outs.append(throwing(E, st, lambda s: E.eff(s, "val", o, o + 1, "fresh", None)))
        old = st.val
        st.alive = st.alive.set1(p, T)
        E.eff(st, "val", o, o + 1, "fresh", None)
        st.val = GArr(st.val, p, p + 1, "copy", (o, old))
        return [("ret", st, None)] + outs

    def cassign(E, st, a, ins):
        p, o = a[0], a[1]
        E.req_alive(st, p, p + 1, "assigned-to element is alive")
        E.req_alive(st, o, o + 1, "assigned-from element is alive")
        t = throwing(E, st, lambda s: E.eff(s, "val", p, p + 1, "fresh", None))
        st.val = GArr(st.val, p, p + 1, "copy", (o, st.val))
        return [("ret", st, p), t]

    def massign(E, st, a, ins):
        p, o = a[0], a[1]
        E.req_alive(st, p, p + 1, "assigned-to element is alive")
        E.req_alive(st, o, o + 1, "assigned-from element is alive")
        outs = []
        if not nothrow_move:
            def f(s):
                E.eff(s, "val", p, p + 1, "fresh", None)
                E.eff(s, "val", o, o + 1, "fresh", None)
            outs.append(throwing(E, st, f))
        old = st.val
        d = p - o
        st.val = GArr(st.val, p, p + 1, "copy", (o, old))
        # a moved-from element (also after self-move) has an unspecified value
        E.eff(st, "val", o, o + 1, "fresh", None)
        return [("ret", st, p)] + outs

    def dtor(E, st, a, ins):
        p = a[0]
        E.req_alive(st, p, p + 1, "destroyed element is alive")
        st.alive = st.alive.set1(p, F)
        return [("ret", st, None)]

    def swapf(E, st, a, ins):
        p, o = a[0], a[1]
        E.req_alive(st, p, p + 1, "swapped element is alive")
        E.req_alive(st, o, o + 1, "swapped element is alive")
        old = st.val
        st.val = GArr(GArr(old, p, p + 1, "copy", (o, old)), o, o + 1, "copy", (p, old))
        return [("ret", st, None)]

    def cmp(kind):
        def h(E, st, a, ins):
            p, o = a[-2], a[-1]
            E.req_alive(st, p, p + 1, "compared element is alive")
            E.req_alive(st, o, o + 1, "compared element is alive")
            x, y = st.val.ev(p), st.val.ev(o)
            r = {"eq": x == y, "ne": x != y, "lt": RANK(x) < RANK(y)}[kind]
            return [("ret", st, r)]
        return h

    def functor(kind):
        def h(E, st, a, ins):
            this, p, o = a[-3], a[-2], a[-1]
            E.req_alive(st, p, p + 1, "compared element is alive")
            E.req_alive(st, o, o + 1, "compared element is alive")
            cid = E.load(st, this, ("int", 32))
            x, y = RANK2(cid.z, st.val.ev(p)), RANK2(cid.z, st.val.ev(o))
            outs = [("ret", st, x < y if kind == "lt" else x == y)]
            if not nothrow_move:
                outs.append(throwing(E, st))
            return outs
        return h

    hs.append((r"%s::%s\(KeyX const&\)$" % (c, c), cctor))     # the element made from a key has the key's value
    for F_, kd in (("Cmp", "lt"), ("Eq", "eq")):
        for x_, y_ in ((c, c), (c, "KeyX"), ("KeyX", c)):
            hs.append((r"%s::operator\(\)\(%s const&, %s const&\) const$" % (F_, x_, y_), functor(kd)))
    hs.append((r"%s::%s\(\)$" % (c, c), default))
    hs.append((r"%s::%s\(int\)$" % (c, c), from_int))
    hs.append((r"%s::%s\(%s const&\)$" % (c, c, c), cctor))
    hs.append((r"%s::%s\(%s&&\)$" % (c, c, c), mctor))
    hs.append((r"%s::operator=\(%s const&\)$" % (c, c), cassign))
    hs.append((r"%s::operator=\(%s&&\)$" % (c, c), massign))
    hs.append((r"%s::~%s\(\)$" % (c, c), dtor))
    hs.append((r"swap\(%s&, %s&\)$" % (c, c), swapf))
    hs.append((r"operator==\(%s const&, %s const&\)$" % (c, c), cmp("eq")))
    hs.append((r"operator<\(%s const&, %s const&\)$" % (c, c), cmp("lt")))
    return hs


# ------------------------------------------------------------------ allocator
def al_allocate(E, st, a, ins):
    this, n = a[0], a[1]
    sz = E.alloc_unit(ins)
    aid = E.load(st, this, ("int", 32))
    n = E.Ulin(st, n, 64)
    bytes_ = n.mul(sz)
    E.prove(st, le(bytes_, K(P63 - 1)), "allocation request does not exceed the address range", "capacity")
    if sz == 1:
        E.prove(st, n.z <= LIMIT(aid.z), "allocation request does not exceed the allocator's maximum size", "capacity")
    t = st.copy()
    base = atom("heap", 1, P62)
    E.assume(st, z3.And(base.z >= 1, bytes_.z >= 0, base.z + bytes_.z <= P62))
    E.add_region(st, base, bytes_)
    st.alive = GArr(st.alive, base, base + bytes_, "const", F)
    st.news.append((base, base + bytes_))
    st.blocks.append(Block(base, bytes_, aid, True, sz))
    st.flags = dict(st.flags)
    st.flags["allocs"] = st.flags.get("allocs", 0) + 1
    if st.flags.get("noalloc"):
        E.prove(st, False, "no allocation is permitted here", "capacity")
    return [("ret", st, base), ("throw", t, "alloc")]


def al_limit(E, st, a, ins):
    r = atom("limit", 16, P63 - 1)
    E.assume(st, z3.And(r.z == LIMIT(a[0].z), r.z >= 16, r.z <= P63 - 1))
    return [("ret", st, r)]


def al_deallocate(E, st, a, ins):
    this, p, n = a[0], a[1], a[2]
    sz = E.alloc_unit(ins)
    aid = E.load(st, this, ("int", 32))
    n = E.Ulin(st, n, 64)
    bytes_ = n.mul(sz)
    cand = [b for b in st.blocks if E.feasible(st, eq(p, b.base))]
    E.prove(st, lor(*[eq(p, b.base) for b in cand]), "released storage was obtained from an allocator and not yet released", "storage")
    outs = []
    for b in cand:
        s = st.copy() if len(cand) > 1 else st
        if len(cand) > 1:
            E.assume(s, eq(p, b.base))
        E.prove(s, eq(bytes_, b.size), "storage released with the size it was requested with", "storage")
        E.prove(s, eq(aid, b.alloc), "storage released through an allocator equal to the one that supplied it", "storage")
        E.req_dead(s, b.base, b.base + b.size, "no live element in released storage")
        s.blocks = [x for x in s.blocks if x is not b]
        # memory may not be used any more
        s.regions = [r for r in s.regions if not (r[0].same(b.base) and r[1].same(b.size))]
        s.flags = dict(s.flags)
        s.flags["frees"] = s.flags.get("frees", 0) + 1
        outs.append(("ret", s, None))
    return outs


# ------------------------------------------------------------------ C++ runtime
def rt_begin_catch(E, st, a, ins):
    st.caught.append(st.exc)
    st.exc = None
    return [("ret", st, K(4096))]


def rt_end_catch(E, st, a, ins):
    if st.caught:
        st.caught.pop()
    return [("ret", st, None)]


def rt_rethrow(E, st, a, ins):
    return [("throw", st, st.caught[-1] if st.caught else "none")]


def rt_alloc_exc(E, st, a, ins):
    return [("ret", st, K(8192))]


def rt_throw(E, st, a, ins):
    ti = ins.a["args"][1][1]
    return [("throw", st, ti[1] if ti[0] == "glob" else "exc")]


def rt_nop(E, st, a, ins):
    return [("ret", st, UNDEF)]


def rt_terminate(E, st, a, ins):
    E.prove(st, False, "std::terminate is not reached", "terminate")
    return [("stop", st, None)]


def rt_assert(E, st, a, ins):
    s = E.cstr(ins.a["args"][0][1])
    E.prove(st, False, "library precondition check holds: %s" % s, "assert")
    return [("stop", st, None)]


def rt_length(E, st, a, ins):
    return [("throw", st, "length_error")]


def rt_range(E, st, a, ins):
    return [("throw", st, "out_of_range")]


def rt_typeid(E, st, a, ins):
    return [("ret", st, K(1))]


# ------------------------------------------------------------------ specification intrinsics
def i_obj(E, st, a, ins):
    p, n = a
    if len(p.t) != 1 or p.c:
        raise Unsupported("vc_obj on interior pointer")
    nm = next(iter(p.t))
    o = Obj(nm, p, n.c, True, False, False)
    st.objs[nm] = o
    st.mem[nm] = {}
    E.assume(st, z3.And(p.z >= 1, p.z <= P62 - n.c))
    E.add_region(st, p, n)
    return [("ret", st, None)]


def i_assume(E, st, a, ins):
    c = E.l2b(a[0])
    E.assume(st, c)
    if c is False or not E.feasible(st):
        return [("stop", st, None)]
    return [("ret", st, None)]


def i_assert(E, st, a, ins):
    E.prove(st, E.l2b(a[0]), E.cstr(ins.a["args"][1][1]), "post")
    return [("ret", st, None)]


def i_unreach(E, st, a, ins):
    E.prove(st, False, E.cstr(ins.a["args"][0][1]), "post")
    return [("stop", st, None)]


def i_pre_live(E, st, a, ins):
    p, n = a[0], E.Ulin(st, a[1], 64)
    arr = st.alive
    st.facts = st.facts + [lambda x, ad: limp(land(le(p, x), lt(x, p + n)), arr.ev(x))]
    st.pre_owned.append((p, p + n))
    return [("ret", st, None)]


def i_pre_raw(E, st, a, ins):
    p, n = a[0], E.Ulin(st, a[1], 64)
    arr = st.alive
    st.facts = st.facts + [lambda x, ad: limp(land(le(p, x), lt(x, p + n)), lnot(arr.ev(x)))]
    return [("ret", st, None)]


def i_pre_block(E, st, a, ins):
    p, n, sz, aid = a
    n = E.Ulin(st, n, 64).mul(sz.c)
    E.assume(st, z3.And(p.z >= 1, p.z + n.z <= P62))
    E.add_region(st, p, n)
    st.blocks.append(Block(p, n, aid, False, sz.c))
    return [("ret", st, None)]


def i_arg(E, st, a, ins):
    p, n = a[0], E.Ulin(st, a[1], 64)
    arr = st.alive
    E.assume(st, z3.And(p.z >= 1, p.z + n.z <= P62, n.z >= 0))
    st.facts = st.facts + [lambda x, ad: limp(land(le(p, x), lt(x, p + n)), arr.ev(x))]
    st.flags = dict(st.flags)
    if n.is_const() and n.c == 1:
        st.flags["points"] = st.flags.get("points", ()) + (p,)
    elif n.is_const() and n.c <= 4:
        st.flags["points"] = st.flags.get("points", ()) + tuple(p + i for i in range(n.c))
    else:
        raise Unsupported("vc_arg range")
    return [("ret", st, None)]


def i_slot(E, st, a, ins):
    x, p, n, stride = a[0], a[1], E.Ulin(st, a[2], 64), a[3].c
    k = E.sk("slot")
    E.assume(st, lor(le(x + stride, p), le(p + n, x), eq(x, p + k.mul(stride))))
    return [("ret", st, None)]


def i_range(E, st, a, ins):
    """external range of live elements, outside all storage of the containers"""
    p, n = a[0], E.Ulin(st, a[1], 64)
    arr = st.alive
    E.assume(st, z3.And(p.z >= 1, p.z + n.z <= P62, n.z >= 0))
    E.add_region(st, p, n)
    st.facts = st.facts + [lambda x, ad: limp(land(le(p, x), lt(x, p + n)), arr.ev(x))]
    return [("ret", st, None)]


def i_begin(E, st, a, ins):
    st.started = True
    for x in st.flags.get("points", ()):
        for o in st.objs.values():
            E.assume(st, lor(lt(x, o.base), le(o.base + o.size, x)))
    return [("ret", st, None)]


def i_mark(E, st, a, ins):
    st.snaps["old"] = (st.alive, st.val)
    return [("ret", st, None)]


def old(st):
    return st.snaps["old"]


def i_eq_old(E, st, a, ins):
    p, n, q = a[0], E.Ulin(st, a[1], 64), a[2]
    j = E.sk()
    g = st.val.ev(p + j) == old(st)[1].ev(q + j)
    E.prove(st, limp(land(le(K(0), j), lt(j, n)), g), E.cstr(ins.a["args"][3][1]), "post")
    return [("ret", st, None)]


def i_eq_now(E, st, a, ins):
    p, n, q = a[0], E.Ulin(st, a[1], 64), a[2]
    j = E.sk()
    g = st.val.ev(p + j) == st.val.ev(q + j)
    E.prove(st, limp(land(le(K(0), j), lt(j, n)), g), E.cstr(ins.a["args"][3][1]), "post")
    return [("ret", st, None)]


def i_eq_one(E, st, a, ins):
    """every one-byte element of [p,p+n) has the old value of x"""
    p, n, x = a[0], E.Ulin(st, a[1], 64), a[2]
    j = E.sk()
    g = st.val.ev(p + j) == old(st)[1].ev(x)
    E.prove(st, limp(land(le(K(0), j), lt(j, n)), g), E.cstr(ins.a["args"][3][1]), "post")
    return [("ret", st, None)]


def i_eq_def(E, st, a, ins):
    p, n = a[0], E.Ulin(st, a[1], 64)
    j = E.sk()
    E.prove(st, limp(land(le(K(0), j), lt(j, n)), st.val.ev(p + j) == VDEF), E.cstr(ins.a["args"][2][1]), "post")
    return [("ret", st, None)]


def i_eq_int(E, st, a, ins):
    E.prove(st, st.val.ev(a[0]) == CODE(a[1].z), E.cstr(ins.a["args"][2][1]), "post")
    return [("ret", st, None)]


def i_differ(E, st, a, ins):
    """some position of the two ranges differs: assume none does and derive a contradiction"""
    p, n, q = a[0], E.Ulin(st, a[1], 64), a[2]
    val = st.val
    s = st.copy()
    s.facts = s.facts + [lambda x, ad: [limp(land(le(p, x), lt(x, p + n)), val.ev(x) == val.ev(x - p + q)),
                                        limp(land(le(q, x), lt(x, q + n)), val.ev(x) == val.ev(x - q + p))]]
    E.prove(s, False, E.cstr(ins.a["args"][3][1]), "post")
    return [("ret", st, None)]


def i_lex(E, st, a, ins):
    p, n, q, m, r = a[0], E.Ulin(st, a[1], 64), a[2], E.Ulin(st, a[3], 64), E.l2b(a[4])
    val = st.val
    s = st.copy()
    k = E.sk("lex")
    E.assume(s, land(le(K(0), k), le(k, n), le(k, m)))
    rk = lambda x: RANK(val.ev(x))
    s.facts = s.facts + [lambda x, ad: [limp(land(le(p, x), lt(x, p + k)), rk(x) == rk(x - p + q)),
                                        limp(land(le(q, x), lt(x, q + k)), rk(x) == rk(x - q + p))]]
    ra, rb = rk(p + k), rk(q + k)
    inside = land(lt(k, n), lt(k, m))
    z = zb(r)
    g = land(limp(land(inside, ra < rb), z), limp(land(inside, rb < ra), z3.Not(z)),
             limp(land(eq(k, n), lt(k, m)), z), limp(eq(k, m), z3.Not(z)))
    E.prove(s, g, E.cstr(ins.a["args"][5][1]), "post")
    return [("ret", st, None)]


# ---- order of keys
def aligned(d, stride):
    if stride == 1:
        return True
    if d.is_const():
        return d.c % stride == 0
    t = {a: k % stride for a, k in d.t.items() if k % stride}
    if not t:
        return d.c % stride == 0
    return d.z % stride == 0


def pair_fact(p, n, stride, rel):
    """facts about every pair of key positions"""
    def fact(a, addrs):
        if lt(a, p) is True or le(p + n, a) is True or a.z.get_id() not in addrs.vals:
            return None
        al = aligned(a - p, stride)
        if al is False:
            return None
        if al is not True and addrs.tier == 0:
            addrs.skipped = True
            return None
        many = len(addrs.vals) > 16
        if many and not addrs.within(a, p, n):
            return None
        r = []
        for b in addrs:
            if b.get_id() not in addrs.vals:
                continue
            b = lin_of_z3(b)
            if b.key == a.key:
                continue
            bl = aligned(b - p, stride)
            if bl is False:
                continue
            if bl is not True and addrs.tier == 0:
                addrs.skipped = True
                continue
            if many and not addrs.within(b, p, n):
                continue
            g = land(le(p, a), lt(a, b), lt(b, p + n), al, bl)
            if g is False:
                continue
            r.append(limp(g, rel(a, b)))
        return r
    return fact


def i_pre_sorted(E, st, a, ins):
    p, n, stride, cid, strict = a[0], E.Ulin(st, a[1], 64), a[2].c, a[3], E.l2b(a[4])
    val = st.val
    rk = lambda x: RANK2(cid.z, val.ev(x))
    st.flags = dict(st.flags)
    st.flags["sorted"] = True
    st.facts = st.facts + [pair_fact(p, n, stride, (lambda x, y: rk(x) < rk(y)) if strict is True else (lambda x, y: rk(x) <= rk(y)))]
    return [("ret", st, None)]


def i_sorted(E, st, a, ins):
    p, n, stride, cid, strict = a[0], E.Ulin(st, a[1], 64), a[2].c, a[3], E.l2b(a[4])
    j = E.sk()
    x, y = p + j.mul(stride), p + j.mul(stride) + stride
    rx, ry = RANK2(cid.z, st.val.ev(x)), RANK2(cid.z, st.val.ev(y))
    E.prove(st, limp(land(le(K(0), j), lt(j.mul(stride) + stride, n)), rx < ry if strict is True else rx <= ry), E.cstr(ins.a["args"][5][1]), "post")
    return [("ret", st, None)]


def i_pre_distinct(E, st, a, ins):
    p, n, stride, cid = a[0], E.Ulin(st, a[1], 64), a[2].c, a[3]
    val = st.val
    rk = lambda x: RANK2(cid.z, val.ev(x))
    st.flags = dict(st.flags)
    st.flags["distinct"] = True
    st.facts = st.facts + [pair_fact(p, n, stride, lambda x, y: rk(x) != rk(y))]
    return [("ret", st, None)]


def i_distinct(E, st, a, ins):
    p, n, stride, cid = a[0], E.Ulin(st, a[1], 64), a[2].c, a[3]
    i, j = E.sk(), E.sk()
    x, y = p + i.mul(stride), p + j.mul(stride)
    rx, ry = RANK2(cid.z, st.val.ev(x)), RANK2(cid.z, st.val.ev(y))
    E.prove(st, limp(land(le(K(0), i), lt(i, j), lt(j.mul(stride), n)), rx != ry), E.cstr(ins.a["args"][4][1]), "post")
    return [("ret", st, None)]


def relate(rel, x, k):
    return {-2: x < k, -1: x <= k, 0: x == k, 1: x >= k, 2: x > k, 3: x != k}[rel]


def i_rank_all(E, st, a, ins):
    cid, p, n, stride, k, rel = a[0], a[1], E.Ulin(st, a[2], 64), a[3].c, a[4], a[5].c
    if rel >= 1 << 31:
        rel -= 1 << 32
    j = E.sk()
    d = j.mul(stride)
    g = relate(rel, RANK2(cid.z, st.val.ev(p + d)), RANK2(cid.z, old(st)[1].ev(k)))
    E.prove(st, limp(land(le(K(0), j), lt(d, n)), g), E.cstr(ins.a["args"][6][1]), "post")
    return [("ret", st, None)]


def i_rank_some(E, st, a, ins):
    cid, p, n, stride, k = a[0], a[1], E.Ulin(st, a[2], 64), a[3].c, a[4]
    val, key = st.val, RANK2(cid.z, old(st)[1].ev(k))
    s = st.copy()
    s.facts = s.facts + [lambda x, ad: limp(land(le(p, x), lt(x, p + n), aligned(x - p, stride)), RANK2(cid.z, val.ev(x)) != key)]
    E.prove(s, False, E.cstr(ins.a["args"][5][1]), "post")
    return [("ret", st, None)]


def rank_count(E, st, a, ins, val):
    """number of keys equivalent to k in a sorted range: distance between its two partition points"""
    cid, p, n, stride, k, want = a[0], a[1], E.Ulin(st, a[2], 64), a[3].c, a[4], E.Ulin(st, a[5], 64)
    if st.flags.get("distinct"):       # at most one key is equivalent to any other
        label = E.cstr(ins.a["args"][6][1])
        key = RANK2(cid.z, old(st)[1].ev(k))
        E.prove(st, le(want, K(1)), label, "post")
        j = E.sk()
        E.prove(st, limp(land(eq(want, K(0)), le(K(0), j), lt(j.mul(stride), n)), RANK2(cid.z, val.ev(p + j.mul(stride))) != key), label, "post")
        s = st.copy()
        E.assume(s, le(K(1), want))
        s.facts = s.facts + [lambda x, ad: limp(land(le(p, x), lt(x, p + n), aligned(x - p, stride)), RANK2(cid.z, val.ev(x)) != key)]
        E.prove(s, False, label, "post")
        return [("ret", st, None)]
    if not st.flags.get("sorted"):
        raise Unsupported("number of equivalent keys of an unordered range")
    key = RANK2(cid.z, old(st)[1].ev(k))
    lo, hi = E.sk("lb"), E.sk("ub")
    s = st.copy()
    l, u = lo.mul(stride), hi.mul(stride)
    E.assume(s, land(le(K(0), lo), le(lo, hi), le(u, n)))
    def fact(x, ad):
        r = RANK2(cid.z, val.ev(x))
        i = land(le(p, x), lt(x, p + n), aligned(x - p, stride))
        return [limp(land(i, lt(x, p + l)), r < key), limp(land(i, le(p + l, x)), r >= key), limp(land(i, lt(x, p + u)), r <= key), limp(land(i, le(p + u, x)), r > key)]
    s.facts = s.facts + [fact]
    # the terms make the partition points visible to instantiation
    mention = [val.ev(p + e + d) == val.ev(p + e + d) for e in (l, u) for d in (0, -stride)]
    E.prove(s, land(eq(want, hi - lo), *mention), E.cstr(ins.a["args"][6][1]), "post")
    return [("ret", st, None)]


def i_rank_count(E, st, a, ins):
    return rank_count(E, st, a, ins, st.val)


def i_rank_count_old(E, st, a, ins):
    return rank_count(E, st, a, ins, old(st)[1])


def first_difference(E, s, now, val, q, oval, n):
    """d = length of the longest common prefix of [now,now+n) and the old [q,q+n)"""
    d = E.sk("dif")
    E.assume(s, land(le(K(0), d), le(d, n)))
    E.assume(s, lor(eq(d, n), val.ev(now + d) != oval.ev(q + d)))
    s.facts = s.facts + [lambda x, ad: [limp(land(le(now, x), lt(x, now + d)), val.ev(x) == oval.ev(x - now + q)),
                                        limp(land(le(q, x), lt(x, q + d)), val.ev(x - q + now) == oval.ev(x))]]
    return d


def i_erased_block(E, st, a, ins):
    now, q, total, n, stride = a[0], a[1], E.Ulin(st, a[2], 64), E.Ulin(st, a[3], 64), a[4].c
    val, oval = st.val, old(st)[1]
    s = st.copy()
    d = first_difference(E, s, now, val, q, oval, total - n)
    j = E.sk()
    E.prove(s, limp(land(le(d, j), lt(j, total - n)), val.ev(now + j) == oval.ev(q + j + n)), E.cstr(ins.a["args"][5][1]), "post")
    return [("ret", st, None)]


def removed(E, s, now, q, total, pos, n, label):
    """[now, now+total-n) holds the old elements except those at [pos,pos+n): some bijection is exhibited"""
    val, oval = s.val, old(s)[1]
    j = E.sk()
    dom = land(le(K(0), j), lt(j, total - n))
    here = val.ev(now + j)
    shift = limp(dom, here == z3.If(j.z < pos.z, oval.ev(q + j), oval.ev(q + j + n)))
    fill = limp(dom, here == z3.If(zb(land(le(pos, j), lt(j, pos + n))), oval.ev(q + total - n + j - pos), oval.ev(q + j)))
    # filling the gap from the end is a bijection only if the moved elements lie behind the gap
    for g in (shift, land(limp(lt(pos, total - n), le(pos + n, total - n)), fill)):
        if E.holds(s, g):
            E.prove(s, g, label, "post")
            return
    if E.silent or (E.want is not None and not E.want("post", label, bool(s.thrown))):
        return
    raise Unsupported("no known rearrangement of the remaining elements: " + label)


def i_removed(E, st, a, ins):
    removed(E, st, a[0], a[1], E.Ulin(st, a[2], 64), E.Ulin(st, a[3], 64), E.Ulin(st, a[4], 64), E.cstr(ins.a["args"][6][1]))
    return [("ret", st, None)]


def i_erased_some(E, st, a, ins):
    now, q, total, n, stride = a[0], a[1], E.Ulin(st, a[2], 64), E.Ulin(st, a[3], 64), a[4].c
    s = st.copy()
    d = first_difference(E, s, now, s.val, q, old(s)[1], total - n)
    if stride > 1:
        m = E.sk("al")
        E.assume(s, land(le(m.mul(stride), d), lt(d, m.mul(stride) + stride)))
        d = m.mul(stride)
    removed(E, s, now, q, total, d, n, E.cstr(ins.a["args"][5][1]))
    return [("ret", st, None)]


def i_own(E, st, a, ins):
    p, n = a[0], E.Ulin(st, a[1], 64)
    st.post_owned.append((p, p + n))
    return [("ret", st, None)]


def i_own_block(E, st, a, ins):
    p, n, sz, aid = a
    n = E.Ulin(st, n, 64).mul(sz.c)
    st.post_blocks.append((p, n))
    return [("ret", st, None)]


def i_chk_block(E, st, a, ins):
    p, n, sz, aid = a
    n = E.Ulin(st, n, 64).mul(sz.c)
    E.prove(st, lor(*[land(eq(p, b.base), eq(n, b.size), eq(aid, b.alloc)) for b in st.blocks]),
            "container storage is a live allocation of exactly its capacity from its own allocator", "storage")
    return [("ret", st, None)]


def i_kind(E, st, a, ins):
    k = st.caught[-1] if st.caught else None
    return [("ret", st, K({"inj": 1, "alloc": 1, "length_error": 2, "out_of_range": 3}.get(k, 9)))]


def i_allocs(E, st, a, ins):
    return [("ret", st, K(st.flags.get("allocs", 0)))]


def i_frees(E, st, a, ins):
    return [("ret", st, K(st.flags.get("frees", 0)))]


def i_nothrow(E, st, a, ins):
    E.prove(st, True, "", "post")
    return [("ret", st, None)]


def i_new_obj(E, st, a, ins):
    return [("ret", st, None)]


INTR = {
    "vc_obj": i_obj, "vc_assume": i_assume, "vc_assert": i_assert, "vc_unreachable": i_unreach,
    "vc_pre_live": i_pre_live, "vc_pre_raw": i_pre_raw, "vc_pre_block": i_pre_block, "vc_arg": i_arg,
    "vc_range": i_range, "vc_slot": i_slot, "vc_mark": i_mark, "vc_begin": i_begin, "vc_eq_old": i_eq_old, "vc_eq_now": i_eq_now, "vc_eq_one": i_eq_one,
    "vc_eq_def": i_eq_def, "vc_eq_int": i_eq_int, "vc_own": i_own, "vc_own_block": i_own_block, "vc_chk_block": i_chk_block, "vc_differ": i_differ, "vc_lex": i_lex,
    "vc_pre_sorted": i_pre_sorted, "vc_sorted": i_sorted, "vc_pre_distinct": i_pre_distinct, "vc_distinct": i_distinct,
    "vc_rank_all": i_rank_all, "vc_rank_some": i_rank_some, "vc_rank_count": i_rank_count, "vc_rank_count_old": i_rank_count_old,
    "vc_erased_block": i_erased_block, "vc_removed": i_removed, "vc_erased_some": i_erased_some,
    "vc_exc_kind": i_kind, "vc_limit": al_limit, "vc_allocs": i_allocs, "vc_frees": i_frees,
}


class Prover(SpecMixin, Engine):
    def __init__(self, *a, **k):
        Engine.__init__(self, *a, **k)
        self.assume_pre = False
        self.root_names = set()
        self.boolof = {}
        self.initial_cells = {}
        self.selects = {}
        self.sel_lin = {}

    def rank2(self, cid, v):
        return RANK2(cid.z, v)

    def aligned(self, d, u):
        return aligned(d, u)

    def cstr(self, v):
        g = self.m.globals.get(v[1][1:].strip('"'), "") if v[0] == "glob" else ""
        m = re.search(r'c"((?:[^"\\]|\\.)*)\\00"', g)
        return m.group(1) if m else "?"

    def alloc_unit(self, ins):
        name = ins.a["callee"][1][1:].strip('"')
        d = self.dem.get(name, name)
        m = re.match(r"(?:\w+)<(.*)>::(de)?allocate\(", d)
        t = m.group(1)
        return self.unit_of(t)

    def unit_of(self, t):
        t = t.strip()
        if t.endswith("*"):
            return 8
        if t.startswith("std::pair<"):
            return 2
        return 1

    def start(self, name):
        """fresh symbolic state at the entry of function `name`"""
        from engine import State, Frame
        fn = self.m.func(name)
        self.fn_under = name
        st = State()
        av, vv = fresh_name("alive"), fresh_name("val")
        self.root_names |= {av, vv}
        self.val_root = vv
        st.alive = GArr.root(av, True)
        st.val = GArr.root(vv, False)
        st.alive0 = st.alive
        st.snaps["old"] = (st.alive, st.val)
        f = Frame(fn)
        for ty, reg, attrs in fn.params:
            nm = "arg." + reg[1:]
            if ty[0] == "ptr":
                v = atom_named(nm, 0, P62)
                st.pc.append(z3.And(v.z >= 0, v.z <= P62))
            elif ty == ("int", 1):
                v = z3.Bool(nm)
                self.inputs.append((nm, v))
                f.env[reg] = v
                continue
            elif ty[0] == "int":
                m = 1 << ty[1]
                v = atom_named(nm, 0, m - 1)
                st.pc.append(z3.And(v.z >= 0, v.z < m))
            else:
                raise Unsupported("parameter type")
            self.inputs.append((nm, v))
            f.env[reg] = v
        st.frames.append(f)
        return st

    def final_check(self, st):
        """ownership of every live element and every allocation at exit"""
        a = self.sk("ex")
        inpost = lor(*[land(le(lo, a), lt(a, hi)) for lo, hi in st.post_owned])
        inpre = lor(*[land(le(lo, a), lt(a, hi)) for lo, hi in st.pre_owned])
        innew = lor(*[land(le(lo, a), lt(a, hi)) for lo, hi in st.news])
        want = lor(inpost, land(lnot(innew), lnot(inpre), st.alive0.ev(a)))
        al = st.alive.ev(a)
        self.prove(st, limp(want, al), "every element a container holds afterwards is alive; no other element was destroyed", "lifetime")
        self.prove(st, limp(al, want), "no element is left alive outside the containers (no leak)", "lifetime")
        for b in st.blocks:
            self.prove(st, lor(*[land(eq(p, b.base), eq(n, b.size)) for p, n in st.post_blocks]),
                       "no allocation is leaked", "storage")

    def verify_entry(self, name):
        st = self.start(name)
        outs = self.run(st)
        n = 0
        for kind, s, v in outs:
            if kind == "ret":
                if not self.feasible(s):
                    continue
                n += 1
                self.final_check(s)
            elif kind == "unwind":
                self.prove(s, False, "no exception escapes the specification wrapper", "terminate")
            else:
                raise Unsupported("outcome " + kind)
        return n


def externs(elems):
    hs = []
    for cls, nm in elems:
        for rx, h in mk_elem(cls, nm):
            hs.append((re.compile(rx), h, "element"))
    R = re.compile
    hs += [(R(r"Al\w*<.*>::allocate\(unsigned long\)$"), al_allocate, "allocator"),
           (R(r"Al\w*<.*>::deallocate\(.*, unsigned long\)$"), al_deallocate, "allocator"),
           (R(r"__cxa_begin_catch$"), rt_begin_catch, "rt"), (R(r"__cxa_end_catch$"), rt_end_catch, "rt"),
           (R(r"__cxa_rethrow$"), rt_rethrow, "rt"), (R(r"__cxa_allocate_exception$"), rt_alloc_exc, "rt"),
           (R(r"__cxa_free_exception$"), rt_nop, "rt"), (R(r"__cxa_throw$"), rt_throw, "rt"),
           (R(r"(__clang_call_terminate|std::terminate)(\(\))?$"), rt_terminate, "rt"), (R(r"__assert_fail$"), rt_assert, "rt"),
           (R(r"sfl::dtl::throw_length_error"), rt_length, "rt"), (R(r"sfl::dtl::throw_out_of_range"), rt_range, "rt"),
           (R(r"llvm\.eh\.typeid\.for"), rt_typeid, "rt")]
    for k, h in INTR.items():
        hs.append((R(k + "$"), h, "spec"))
    return hs
