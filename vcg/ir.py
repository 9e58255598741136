"""Parser for the textual LLVM IR (clang 18, opaque pointers) of the instantiated real code."""
import re

IDENT = r'(?:[-a-zA-Z$._0-9]+|"(?:[^"\\]|\\.)*")'


class Tok:
    __slots__ = ("s", "i", "toks")
    RX = re.compile(r'\s*(%s|%%%s|@%s|![^\s,(){}]*|#\d+|c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|-?\d+\.\d+e[+-]\d+|0x[0-9A-Fa-f]+|-?\d+|\.\.\.|[a-zA-Z_$.][-a-zA-Z$._0-9]*|[=,(){}\[\]<>*|:])' % ("\0", IDENT, IDENT))

    def __init__(self, s):
        self.toks = self.RX.findall(s)
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.toks[j] if j < len(self.toks) else None

    def next(self):
        t = self.toks[self.i]
        self.i += 1
        return t

    def accept(self, t):
        if self.peek() == t:
            self.i += 1
            return True
        return False

    def expect(self, t):
        x = self.next()
        if x != t:
            raise SyntaxError("expected %r got %r in %r" % (t, x, " ".join(self.toks)[:400]))


# ---- types: ('int',n) ('ptr',) ('void',) ('float',) ('struct',[...],packed) ('named',n) ('array',n,t) ('label',) ('fn',)
def parse_type(t):
    x = t.next()
    if x == "ptr":
        if t.peek() == "addrspace":
            t.next(); t.expect("("); t.next(); t.expect(")")
        r = ("ptr",)
    elif x == "void":
        r = ("void",)
    elif re.fullmatch(r"i\d+", x):
        r = ("int", int(x[1:]))
    elif x in ("float", "double", "x86_fp80", "half", "fp128"):
        r = ("float", x)
    elif x == "label":
        r = ("label",)
    elif x == "metadata":
        r = ("metadata",)
    elif x == "token":
        r = ("token",)
    elif x == "opaque":
        r = ("opaque",)
    elif x.startswith("%"):
        r = ("named", x)
    elif x == "{":
        fs = []
        if not t.accept("}"):
            while True:
                fs.append(parse_type(t))
                if t.accept("}"):
                    break
                t.expect(",")
        r = ("struct", fs, False)
    elif x == "<":
        if t.peek() == "{":
            t.next()
            fs = []
            if not t.accept("}"):
                while True:
                    fs.append(parse_type(t))
                    if t.accept("}"):
                        break
                    t.expect(",")
            t.expect(">")
            r = ("struct", fs, True)
        else:
            n = int(t.next()); t.expect("x"); e = parse_type(t); t.expect(">")
            r = ("vector", n, e)
    elif x == "[":
        n = int(t.next())
        t.expect("x")
        e = parse_type(t)
        t.expect("]")
        r = ("array", n, e)
    else:
        raise SyntaxError("type? %r in %s" % (x, " ".join(t.toks)[:300]))
    while t.peek() == "(":  # function type
        depth = 0
        while True:
            y = t.next()
            if y == "(":
                depth += 1
            elif y == ")":
                depth -= 1
                if depth == 0:
                    break
        r = ("fn", r)
    return r


class Ins:
    __slots__ = ("op", "res", "ty", "a", "text", "loc")

    def __init__(self, op, res=None, ty=None, a=None, text=""):
        self.op, self.res, self.ty, self.a, self.text = op, res, ty, a, text
        self.loc = None

    def __repr__(self):
        return self.text.strip()


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []   # (type, regname, attrs)
        self.ret = None
        self.blocks = {}   # label -> [Ins]
        self.entry = None
        self.attrs = ""


ATTR_SKIP = {"noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "readonly", "writeonly",
             "readnone", "returned", "nofree", "swiftself", "immarg", "dso_local", "fastcc", "ccc", "coldcc", "tail",
             "musttail", "notail", "nounwind", "local_unnamed_addr", "unnamed_addr", "inbounds", "nuw", "nsw", "exact", "disjoint",
             "nneg", "nest", "volatile", "atomic", "linkonce_odr", "internal", "private", "weak_odr", "available_externally",
             "weak", "hidden", "external", "common", "noreturn", "writable", "dead_on_unwind", "thread_local",
             "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "constant", "global", "appending"}


def skip_attrs(t):
    while True:
        x = t.peek()
        if x is None:
            return
        if x in ATTR_SKIP or x.startswith("#"):
            t.next()
        elif x in ("align",):
            t.next()
            if t.accept("("):
                t.next(); t.expect(")")
            else:
                t.next()
        elif x in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "range", "memory", "captures", "initializes"):
            t.next()
            if t.accept("("):
                d = 1
                while d:
                    y = t.next()
                    if y == "(":
                        d += 1
                    elif y == ")":
                        d -= 1
        elif x.startswith('"'):
            t.next()
            if t.accept("="):
                t.next()
        else:
            return


def parse_value(t, ty):
    """operand of given type"""
    x = t.next()
    if x.startswith("%"):
        return ("reg", x)
    if x.startswith("@"):
        return ("glob", x)
    if re.fullmatch(r"-?\d+", x):
        return ("const", int(x))
    if x == "true":
        return ("const", 1)
    if x == "false":
        return ("const", 0)
    if x == "null":
        return ("null",)
    if x in ("undef", "poison"):
        return ("undef", ty)
    if x == "zeroinitializer":
        return ("zero", ty)
    if x == "getelementptr":
        skip_attrs(t)
        t.expect("(")
        skip_attrs(t)
        st = parse_type(t)
        t.expect(",")
        ops = []
        while True:
            skip_attrs(t)
            oty = parse_type(t)
            ops.append((oty, parse_value(t, oty)))
            if t.accept(")"):
                break
            t.expect(",")
        return ("cgep", st, ops)
    if x in ("ptrtoint", "inttoptr", "bitcast"):
        t.expect("(")
        oty = parse_type(t)
        v = parse_value(t, oty)
        t.expect("to")
        parse_type(t)
        t.expect(")")
        return v
    if x == "{":
        vs = []
        while True:
            oty = parse_type(t)
            vs.append(parse_value(t, oty))
            if t.accept("}"):
                break
            t.expect(",")
        return ("agg", vs)
    if x.startswith('c"') or re.match(r"0x|-?\d+\.", x):
        return ("opaque", x)
    raise SyntaxError("value? %r in %s" % (x, " ".join(t.toks)[:300]))


def parse_tv(t):
    ty = parse_type(t)
    skip_attrs(t)
    return ty, parse_value(t, ty)


def parse_call(t, op, res, text):
    skip_attrs(t)
    rt = parse_type(t)
    skip_attrs(t)
    if rt[0] == "fn":
        rt = rt[1]
    callee = parse_value(t, ("ptr",))
    t.expect("(")
    args = []
    if not t.accept(")"):
        while True:
            ty = parse_type(t)
            if ty[0] == "metadata":
                d = 0
                while t.peek() not in (",", ")") or d:
                    y = t.next()
                    d += (y == "(") - (y == ")")
                args.append((ty, None))
            else:
                skip_attrs(t)
                args.append((ty, parse_value(t, ty)))
            if t.accept(")"):
                break
            t.expect(",")
    skip_attrs(t)
    a = {"callee": callee, "args": args}
    if op == "invoke":
        t.expect("to"); t.expect("label"); a["normal"] = t.next()
        t.expect("unwind"); t.expect("label"); a["unwind"] = t.next()
    return Ins(op, res, rt, a, text)


def parse_ins(line):
    text = line
    t = Tok(line)
    res = None
    if t.peek().startswith("%") and t.peek(1) == "=":
        res = t.next(); t.next()
    op = t.next()
    if op in ("tail", "musttail", "notail"):
        op = t.next()
    if op in ("call", "invoke"):
        return parse_call(t, op, res, text)
    if op == "alloca":
        ty = parse_type(t)
        n = ("const", 1)
        while t.accept(","):
            if t.peek() == "align" or t.peek().startswith("!"):
                break
            _, n = parse_tv(t)
        return Ins(op, res, ty, {"n": n}, text)
    if op == "load":
        skip_attrs(t)
        ty = parse_type(t)
        t.expect(",")
        _, p = parse_tv(t)
        return Ins(op, res, ty, {"p": p}, text)
    if op == "store":
        skip_attrs(t)
        ty, v = parse_tv(t)
        t.expect(",")
        _, p = parse_tv(t)
        return Ins(op, None, ty, {"v": v, "p": p}, text)
    if op == "getelementptr":
        skip_attrs(t)
        ty = parse_type(t)
        t.expect(",")
        ops = []
        while True:
            ops.append(parse_tv(t))
            if not t.accept(","):
                break
            if t.peek().startswith("!"):
                break
        return Ins(op, res, ty, {"ops": ops}, text)
    if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
        exact = " exact " in line
        skip_attrs(t)
        ty = parse_type(t)
        a = parse_value(t, ty); t.expect(","); b = parse_value(t, ty)
        return Ins(op, res, ty, {"a": a, "b": b, "exact": exact}, text)
    if op == "icmp":
        pred = t.next()
        ty = parse_type(t)
        a = parse_value(t, ty); t.expect(","); b = parse_value(t, ty)
        return Ins(op, res, ty, {"pred": pred, "a": a, "b": b}, text)
    if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze"):
        skip_attrs(t)
        ty, v = parse_tv(t)
        to = ty
        if op != "freeze":
            t.expect("to")
            to = parse_type(t)
        return Ins(op, res, to, {"v": v, "from": ty}, text)
    if op == "select":
        skip_attrs(t)
        _, c = parse_tv(t); t.expect(",")
        ty, a = parse_tv(t); t.expect(",")
        _, b = parse_tv(t)
        return Ins(op, res, ty, {"c": c, "a": a, "b": b}, text)
    if op == "phi":
        skip_attrs(t)
        ty = parse_type(t)
        inc = []
        while True:
            t.expect("[")
            v = parse_value(t, ty); t.expect(","); l = t.next(); t.expect("]")
            inc.append((v, l))
            if not t.accept(","):
                break
            if t.peek().startswith("!"):
                break
        return Ins(op, res, ty, {"inc": inc}, text)
    if op == "br":
        if t.peek() == "label":
            t.next()
            return Ins(op, None, None, {"to": t.next()}, text)
        _, c = parse_tv(t); t.expect(","); t.expect("label"); x = t.next(); t.expect(","); t.expect("label"); y = t.next()
        return Ins(op, None, None, {"c": c, "t": x, "f": y}, text)
    if op == "switch":
        ty, v = parse_tv(t); t.expect(","); t.expect("label"); d = t.next()
        t.expect("[")
        cases = []
        while not t.accept("]"):
            _, c = parse_tv(t); t.expect(","); t.expect("label"); cases.append((c, t.next()))
        return Ins(op, None, ty, {"v": v, "d": d, "cases": cases}, text)
    if op == "ret":
        if t.peek() == "void":
            return Ins(op, None, ("void",), {"v": None}, text)
        ty, v = parse_tv(t)
        return Ins(op, None, ty, {"v": v}, text)
    if op == "unreachable":
        return Ins(op, text=text)
    if op == "resume":
        ty, v = parse_tv(t)
        return Ins(op, None, ty, {"v": v}, text)
    if op == "landingpad":
        ty = parse_type(t)
        return Ins(op, res, ty, {"clauses": line.split("landingpad", 1)[1]}, text)
    if op == "extractvalue":
        ty, v = parse_tv(t)
        idx = []
        while t.accept(","):
            if t.peek().startswith("!"):
                break
            idx.append(int(t.next()))
        return Ins(op, res, ty, {"v": v, "idx": idx}, text)
    if op == "insertvalue":
        ty, v = parse_tv(t); t.expect(",")
        ty2, w = parse_tv(t)
        idx = []
        while t.accept(","):
            if t.peek().startswith("!"):
                break
            idx.append(int(t.next()))
        return Ins(op, res, ty, {"v": v, "w": w, "idx": idx}, text)
    return Ins("unsupported", res, None, {}, text)


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self._raw = {}
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                name, rhs = l.split(" = type ", 1)
                self.types[name] = rhs
            elif l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                m = re.search(r'@(%s)\(' % IDENT, l)
                self._raw[m.group(1).strip('"')] = (l, lines[i + 1:j])
                i = j
            elif l.startswith("declare"):
                m = re.search(r'@(%s)\(' % IDENT, l)
                self.decls[m.group(1).strip('"')] = l
            elif l.startswith("@"):
                m = re.match(r'@(%s) = (.*)' % IDENT, l)
                self.globals[m.group(1).strip('"')] = m.group(2)
            i += 1
        self._tcache = {}

    def has(self, name):
        return name in self._raw

    def names(self):
        return list(self._raw)

    def func(self, name):
        if name in self.funcs:
            return self.funcs[name]
        head, body = self._raw[name]
        f = Func(name)
        f.head = head
        m = re.match(r'define\b(.*?)@%s\(' % IDENT, head)
        pre = Tok(m.group(1))
        skip_attrs(pre)
        f.ret = parse_type(pre)
        t = Tok(head[m.end() - 1:])
        t.expect("(")
        if not t.accept(")"):
            while True:
                if t.accept("..."):
                    t.expect(")")
                    break
                ty = parse_type(t)
                sret = None
                k0 = t.i
                skip_attrs(t)
                attrs = t.toks[k0:t.i]
                f.params.append((ty, t.next(), attrs))
                if t.accept(")"):
                    break
                t.expect(",")
        cur = None
        logical = []
        buf = None
        for l in body:
            s = l.strip()
            if not s or s.startswith(";"):
                continue
            if buf is not None:
                buf += " " + s
                if s.startswith("]"):
                    logical.append(buf); buf = None
                continue
            if re.match(r"switch ", s) and not s.endswith("]") and "]" not in s.split(";")[0]:
                buf = s
                continue
            if logical and (re.match(r"(catch|filter) |cleanup$", s) or re.match(r"to label ", s)):
                logical[-1] += " " + s
                continue
            logical.append(s)
        for s in logical:
            m = re.match(r'(%s):(\s*;.*)?$' % IDENT, s)
            if m:
                cur = "%" + m.group(1)
                f.blocks[cur] = []
                if f.entry is None:
                    f.entry = cur
                continue
            if cur is None:
                cur = "%__entry"
                f.blocks[cur] = []
                f.entry = cur
            # strip trailing comments / metadata
            f.blocks[cur].append(parse_ins(re.sub(r", !\w[\w.]* !\d+", "", s)))
        self.funcs[name] = f
        return f

    # ---- layout
    def rtype(self, ty):
        while ty[0] == "named":
            n = ty[1]
            if n not in self._tcache:
                self._tcache[n] = parse_type(Tok(self.types[n]))
            ty = self._tcache[n]
        return ty

    def align(self, ty):
        ty = self.rtype(ty)
        if ty[0] == "int":
            b = (ty[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if ty[0] == "ptr":
            return 8
        if ty[0] == "float":
            return {"float": 4, "double": 8}.get(ty[1], 16)
        if ty[0] == "array":
            return self.align(ty[2])
        if ty[0] == "struct":
            return 1 if ty[2] else max([self.align(x) for x in ty[1]] or [1])
        raise ValueError(ty)

    def size(self, ty):
        ty = self.rtype(ty)
        if ty[0] == "int":
            return (ty[1] + 7) // 8
        if ty[0] == "ptr":
            return 8
        if ty[0] == "float":
            return {"float": 4, "double": 8}.get(ty[1], 16)
        if ty[0] == "array":
            return ty[1] * self.size(ty[2])
        if ty[0] == "struct":
            o = 0
            for x in ty[1]:
                if not ty[2]:
                    a = self.align(x)
                    o = (o + a - 1) // a * a
                o += self.size(x)
            if not ty[2]:
                a = self.align(ty)
                o = (o + a - 1) // a * a
            return o
        raise ValueError(ty)

    def field(self, ty, k):
        ty = self.rtype(ty)
        if ty[0] == "array":
            return k * self.size(ty[2]), ty[2]
        o = 0
        for j, x in enumerate(ty[1]):
            if not ty[2]:
                a = self.align(x)
                o = (o + a - 1) // a * a
            if j == k:
                return o, x
            o += self.size(x)
        raise ValueError
