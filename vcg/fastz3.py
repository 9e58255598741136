"""Thin construction layer over the z3 C interface: the same terms as z3.And, z3.If, <=, ..., built without the
per-call sort coercions of the Python wrapper. Terms are never released (one process proves one contract)."""
import ctypes
import z3
from z3 import z3core as zc



class _Lib:
    """the foreign functions behind the wrapper's entry points (without its per-call error poll)"""
    def __getattr__(self, n):
        return getattr(zc, n).__defaults__[0].f


CTX = z3.main_ctx()
C = CTX.ref()
L = _Lib()
Ast = zc.Ast
_inc = L.Z3_inc_ref


try:
    del z3.AstRef.__del__            # reference counts only ever grow
except AttributeError:
    pass
_new_b, _new_a = z3.BoolRef, z3.ArithRef


class Failure(Exception):
    pass


def B(a):
    if not a.value:
        raise Failure("z3 rejected a term")
    _inc(C, a)
    r = _new_b.__new__(_new_b)
    r.ast = a
    r.ctx = CTX
    return r


def A(a):
    if not a.value:
        raise Failure("z3 rejected a term")
    _inc(C, a)
    r = _new_a.__new__(_new_a)
    r.ast = a
    r.ctx = CTX
    return r


_and, _or, _not, _ite, _eq = L.Z3_mk_and, L.Z3_mk_or, L.Z3_mk_not, L.Z3_mk_ite, L.Z3_mk_eq
_le, _lt, _ge, _gt = L.Z3_mk_le, L.Z3_mk_lt, L.Z3_mk_ge, L.Z3_mk_gt
_add, _sub, _mul, _mod, _div, _neg = L.Z3_mk_add, L.Z3_mk_sub, L.Z3_mk_mul, L.Z3_mk_mod, L.Z3_mk_div, L.Z3_mk_unary_minus
_app = L.Z3_mk_app
_imp, _xor = L.Z3_mk_implies, L.Z3_mk_xor
_ARR = {}


def arr(xs):
    n = len(xs)
    t = _ARR.get(n)
    if t is None:
        t = _ARR[n] = Ast * n
    return t(*[x.ast for x in xs])


T = z3.BoolVal(True)
F = z3.BoolVal(False)
_ints = {}


def num(n):
    r = _ints.get(n)
    if r is None:
        r = _ints[n] = _IntVal(n)
    return r


_IntVal = z3.IntVal


def lift(x):
    if x is True:
        return T
    if x is False:
        return F
    return x


def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    xs = [lift(x) for x in xs]
    return B(_and(C, len(xs), arr(xs)))


def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    xs = [lift(x) for x in xs]
    return B(_or(C, len(xs), arr(xs)))


def Not(x):
    return B(_not(C, lift(x).ast))


def Implies(a, b):
    return B(_imp(C, lift(a).ast, lift(b).ast))


def Xor(a, b):
    return B(_xor(C, lift(a).ast, lift(b).ast))


def If(c, a, b):
    a = num(a) if type(a) is int else lift(a)
    b = num(b) if type(b) is int else lift(b)
    r = _ite(C, lift(c).ast, a.ast, b.ast)
    return A(r) if isinstance(a, _new_a) else B(r)


def Sum(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    return A(_add(C, len(xs), arr(xs)))


def _i(x):
    return num(x) if type(x) is int else x


def _bin(f, wrap):
    def g(self, o):
        return wrap(f(C, self.ast, _i(o).ast))
    return g


def _nary(f, rev=False):
    def g(self, o):
        p = (_i(o), self) if rev else (self, _i(o))
        return A(f(C, 2, arr(p)))
    return g


z3.ArithRef.__le__ = _bin(_le, B)
z3.ArithRef.__lt__ = _bin(_lt, B)
z3.ArithRef.__ge__ = _bin(_ge, B)
z3.ArithRef.__gt__ = _bin(_gt, B)
z3.ArithRef.__mod__ = _bin(_mod, A)
z3.ArithRef.__add__ = _nary(_add)
z3.ArithRef.__radd__ = _nary(_add, True)
z3.ArithRef.__sub__ = _nary(_sub)
z3.ArithRef.__rsub__ = _nary(_sub, True)
z3.ArithRef.__mul__ = _nary(_mul)
z3.ArithRef.__rmul__ = _nary(_mul, True)


def _eqop(self, o):
    if o is None:
        return False
    return B(_eq(C, self.ast, (_i(o) if type(o) is not bool else lift(o)).ast))


def _neop(self, o):
    if o is None:
        return True
    return B(_not(C, _eq(C, self.ast, (_i(o) if type(o) is not bool else lift(o)).ast)))


z3.ExprRef.__eq__ = _eqop
z3.ExprRef.__ne__ = _neop
z3.ExprRef.__hash__ = z3.AstRef.__hash__
for _c in (z3.ArithRef, z3.BoolRef):
    for _n in ("__eq__", "__ne__", "__hash__"):
        if _n in _c.__dict__:
            delattr(_c, _n)


def _call(self, *args):
    xs = [_i(x) for x in args]
    r = _app(C, self.ast, len(xs), arr(xs))
    k = getattr(self, "_isb", None)
    if k is None:
        k = self._isb = self.range().kind() == z3.Z3_BOOL_SORT
    return B(r) if k else A(r)


z3.FuncDeclRef.__call__ = _call
_eqast = L.Z3_is_eq_ast
_getid = L.Z3_get_ast_id


def _same(self, o):
    return bool(_eqast(C, self.ast, o.ast))


def _id(self):
    return _getid(C, self.ast)


z3.AstRef.eq = _same
z3.AstRef.get_id = _id
z3.ExprRef.get_id = _id
z3.And, z3.Or, z3.Not, z3.Implies, z3.Xor, z3.If, z3.Sum, z3.IntVal = And, Or, Not, Implies, Xor, If, Sum, num
_assert = L.Z3_solver_assert


def solver_add(s, *cs):
    for c in cs:
        _assert(C, s.solver, lift(c).ast)
