"""Which contracts decide which property."""
import re

TAG = re.compile(r"\[(\w+)\]")
CORE = {"memory", "lifetime", "assert", "terminate", "ub"}


def tag(label):
    m = TAG.match(label)
    return m.group(1) if m else ""


class Suite:
    """One translation unit: a harness compiled with given definitions; `fns` restricts the contracts used."""

    def __init__(self, harness, defs, fns=None, skip=None, native=False, seconds=None):
        self.harness, self.defs = harness, tuple(defs)
        self.fns = re.compile(fns) if fns else None
        self.skip = re.compile(skip) if skip else None
        self.native = native      # bounded stand-in: executed natively, never counted as proved
        self.seconds = seconds

    @property
    def tagname(self):
        return re.sub(r"[^A-Za-z0-9]+", "_", self.harness + "_" + "_".join(self.defs)) + ("_native" if self.native else "")


class Prop:
    def __init__(self, suites, want, no_throw=False, native_want=None):
        self.suites, self.want, self.no_throw = suites, want, no_throw
        self.native_want = native_want or (lambda cat, label, exc: want(cat, label, exc))


def seq(conts, elem="ElemT", alp=0, fns=None, skip=None, nn=3):
    return [Suite("seq.cpp", ["C_" + c, "VC_ELEM=" + elem, "ALP=%d" % alp, "NN=%d" % nn], fns, skip) for c in conts]


def hist(conts):
    """histories of operations: bounded, next to the proofs of the single operations"""
    return [Suite("seq.cpp", ["C_" + c, "VC_ELEM=ElemT", "ALP=0", "NN=3"], "h_history$", None, True, 4) for c in conts]


def flat(conts, elem="ElemT", alp=0, fns=None, skip=None, nn=3, native=False, seconds=None):
    return [Suite("flat.cpp", ["C_" + c, "VC_ELEM=" + elem, "ALP=%d" % alp, "NN=%d" % nn], fns, skip, native, seconds) for c in conts]


SEGM = ["SVEC", "SDEV"]


def seg(conts=SEGM, elem="ElemT", alp=0, fns=None, skip=None, nn=(3, 1), seconds=1.5):
    """segmented containers: executed natively on small states and histories (bounded)"""
    return [Suite("seg.cpp", ["C_" + c, "VC_ELEM=" + elem, "ALP=%d" % alp, "NN=%d" % n], fns, skip, True, seconds) for c in conts for n in nn]


KINDS = ["SET", "MSET", "MAP", "MMAP"]
SF, TF, SU, TU = (["%s_%s" % (a, k) for k in KINDS] for a in ("SF", "TF", "SU", "TU"))
ORDERED, UNORDERED = SF + TF, SU + TU
MAPS = [c for c in ORDERED + UNORDERED if c.endswith("_MAP")]
LOOK = r"h_(find|contains|count|lower_bound|upper_bound|equal_range)"
HINT = r"h_\w*hint"
BULK = r"h_(ctor_range|ctor_ilist|assign_ilist|insert_range|insert_ilist|insert_convertible|erase_if|erase_mutable|ctor_copy_of_range_moved)"
VEC = ["VECTOR", "SMALL", "STATIC", "COMPACT"]
ALL5 = VEC + ["DEVECTOR"]
COPYMOVE = r"h_(ctor_copy|ctor_move|copy_assign|move_assign|swap)"
MODIF = r"h_(?!at$|observe|eq$|ne$|lt$|gt$|le$|ge$)"


def w_seq(cat, label, exc):
    return not exc and (cat in CORE or tag(label) in ("seq", "shape"))


def w_flat(cat, label, exc):
    return not exc and (cat in CORE or tag(label) in ("seq", "shape", "ord"))


def w_life(cat, label, exc):
    return cat in CORE


def w_stor(cat, label, exc):
    return cat in ("storage", "capacity") or (cat == "lifetime" and "storage" in label)


def w_exc(cat, label, exc):
    return exc and (tag(label) != "alloc")


def w_cap(cat, label, exc):
    return tag(label) == "cap" or cat == "capacity"


def w_copy(cat, label, exc):
    return tag(label) in ("alloc", "seq", "exc") or cat in ("lifetime", "storage", "memory", "assert", "terminate")


def w_tag(*tags):
    return lambda cat, label, exc: tag(label) in tags or cat in CORE


def table(tier):
    T = tier == "thorough"
    P = {}
    HQ = None if T else HINT       # insertion with a hint: failure points are proved in the thorough tier (bounded in the quick one)
    # failure-point suites of the flat containers
    fl = flat(SF, skip=HQ) + flat(TF + UNORDERED)
    flh = [] if T else flat(SF, fns=HINT, native=True, seconds=2)
    flb = flat(ORDERED + UNORDERED, fns=BULK, native=True, seconds=1.5)
    NS = (1, 2, 3, 4) if T else (3, 1)
    sg = seg(nn=NS)
    P["C03"] = Prop(seg(nn=NS, fns=MODIF, seconds=4) + seg(elem="Elem", nn=(2,), fns=MODIF, seconds=2), w_seq)
    P["C01"] = Prop(seq(VEC, fns=MODIF) + seq(VEC, "Elem", 7 if T else 0, fns=MODIF) + seq(["SMALL"], fns=MODIF, nn=0) + hist(VEC), w_seq, no_throw=True)
    P["C02"] = Prop(seq(["DEVECTOR"], fns=MODIF) + seq(["DEVECTOR"], "Elem", fns=MODIF) + hist(["DEVECTOR"]), w_seq, no_throw=True)
    P["C04"] = Prop(seq(ALL5) + (seq(ALL5, "Elem", 7) if T else []) + fl + flh + flb + sg, w_life)
    P["C05"] = Prop(seq(["VECTOR", "SMALL", "COMPACT", "DEVECTOR"]) + seq(["VECTOR", "SMALL", "COMPACT", "DEVECTOR"], "ElemT", 7, fns=COPYMOVE)
                    + flat(SF, skip=HQ) + flat(SU) + flat(SF + SU, alp=7, fns=COPYMOVE) + (flat(SF, fns=HINT, native=True, seconds=2) if not T else []) + flat(SF + SU, fns=BULK, native=True, seconds=1.5) + sg, w_stor)
    P["C06"] = Prop(seq(ALL5) + fl + flh + flb + sg, w_exc)
    P["C07"] = Prop(seq(ALL5) + seq(["SMALL"], nn=0) + flat(SF, skip=LOOK + ("|" + HQ if HQ else "")) + flat(TF + UNORDERED, skip=LOOK) + flat(SF + SU, nn=0, fns=r"h_(insert_copy|reserve|shrink|copy_assign|move_assign|ctor_)") + sg, w_cap)
    P["C08"] = Prop(flat(ORDERED, skip=LOOK) + flat(ORDERED, fns=BULK, native=True, seconds=2), w_flat, no_throw=True)
    P["C09"] = Prop(flat(ORDERED + UNORDERED, fns=LOOK), w_tag("find", "seq"))
    P["C10"] = Prop(flat(UNORDERED, skip=LOOK) + flat(UNORDERED, fns=BULK, native=True, seconds=2), w_flat, no_throw=True)
    P["C12"] = Prop(flat(MAPS, fns=r"h_(insert_or_assign|try_emplace|subscript)"), w_flat, no_throw=True)
    AL = (0, 1, 2, 4, 7) if not T else range(8)
    P["C13"] = Prop(sum([seq(["VECTOR", "SMALL", "COMPACT", "DEVECTOR"], "ElemT", a, fns=COPYMOVE) for a in AL], [])
                    + seq(["STATIC"], fns=COPYMOVE) + sum([flat(SF + SU, alp=a, fns=COPYMOVE) for a in (AL if T else (0, 7))], []) + flat(TF + TU, fns=COPYMOVE)
                    + sum([seg(alp=a, nn=(2,), fns=COPYMOVE, seconds=2) for a in (AL if T else (0, 7))], []), w_copy)
    P["C14"] = Prop(seq(ALL5, fns=r"h_(eq|ne|lt|gt|le|ge)$") + flat(ORDERED + UNORDERED, fns=r"h_(eq|eq_variants|lex)$", native=True, seconds=3) + seg(fns="h_cmp", seconds=5), w_tag("cmp", "seq"))
    P["C15"] = Prop(seq(ALL5, fns=r"h_at$") + flat(MAPS, fns="h_at") + seg(fns="h_at", seconds=5), w_tag("bounds", "seq"))
    P["C11"] = Prop(seq(ALL5, fns=r"h_observe$") + flat(ORDERED + UNORDERED, fns="h_observe$") + seg(nn=(1, 2, 3, 4), fns="h_observe", seconds=5), w_tag("iter", "seq"))
    FREE = r"h_(erase_value|erase_dup|erase_if|ctor_input|assign_input|insert_input)$"
    P["C16"] = Prop([Suite("seq.cpp", ["C_" + c, "VC_ELEM=ElemT", "ALP=0", "NN=3"], FREE, None, True, 4) for c in ALL5]
                    + seg(fns=r"h_(erase_value|erase_if|ctor_range|assign_range|insert_range)$", seconds=4)
                    + flat(ORDERED + UNORDERED, fns=r"h_(erase_if|ctor_range|insert_range)", native=True, seconds=2), lambda cat, label, exc: cat in CORE | {"storage"} or tag(label) in ("seq", "shape", "ord", "exc"))
    return P
