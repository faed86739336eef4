"""Symbolic values of the deductive engine.

Scalars are wrapped z3 terms; collections are lists of *entries* (bound
variables, guard, key, value), i.e. set-builder expressions; guarded unions
(GU) hold values of different shapes under mutually exclusive guards.
"""
from fractions import Fraction
import itertools
import numbers
import numpy as np
import z3


class Unsupported(Exception):
    """The code uses something outside the verified subset."""


_ctr = itertools.count()


def fresh_name(p="v"):
    return f"{p}!{next(_ctr)}"


# ---------------------------------------------------------------- booleans
def is_true(f):
    return f is True or (z3.is_expr(f) and z3.is_true(f))


def is_false(f):
    return f is False or (z3.is_expr(f) and z3.is_false(f))


def And(*fs):
    out = []
    for f in fs:
        if is_true(f):
            continue
        if is_false(f):
            return False
        if isinstance(f, np.bool_):
            if not f:
                return False
            continue
        out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*fs):
    out = []
    for f in fs:
        if is_false(f):
            continue
        if is_true(f):
            return True
        if isinstance(f, np.bool_):
            if f:
                return True
            continue
        out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Not(f):
    if is_true(f):
        return False
    if is_false(f):
        return True
    if isinstance(f, np.bool_):
        return not bool(f)
    if z3.is_not(f):
        return f.arg(0)
    return z3.Not(f)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if is_true(a):
        return b
    if is_true(b):
        return a
    if is_false(a):
        return Not(b)
    if is_false(b):
        return Not(a)
    return a == b


def Xor(a, b):
    return Not(Iff(a, b))


def zb(f):
    """Python bool or z3 Bool -> z3 Bool."""
    if isinstance(f, (bool, np.bool_)):
        return z3.BoolVal(bool(f))
    return f


# ---------------------------------------------------------------- scalars
class SV:
    """A symbolic scalar."""

    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return f"<{self.e}>"

    def __hash__(self):
        return hash(self.e)


class SBool(SV):
    __slots__ = ()

    def __bool__(self):
        s = z3.simplify(self.e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        raise Unsupported(f"native truth test of a symbolic boolean: {self.e}")


class SNum(SV):
    """Integer or real term (by z3 sort)."""

    __slots__ = ()

    @property
    def is_int(self):
        return self.e.sort() == z3.IntSort()

    def __bool__(self):
        s = z3.simplify(self.e != 0)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        raise Unsupported(f"native truth test of a symbolic number: {self.e}")

    def __index__(self):
        s = z3.simplify(self.e)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported("native index use of a symbolic number")

    def __add__(self, o):
        return num_op("+", self, o)

    def __radd__(self, o):
        return num_op("+", o, self)

    def __sub__(self, o):
        return num_op("-", self, o)

    def __rsub__(self, o):
        return num_op("-", o, self)

    def __mul__(self, o):
        return num_op("*", self, o)

    def __rmul__(self, o):
        return num_op("*", o, self)

    def __truediv__(self, o):
        return num_op("/", self, o)

    def __rtruediv__(self, o):
        return num_op("/", o, self)

    def __floordiv__(self, o):
        return num_op("//", self, o)

    def __rfloordiv__(self, o):
        return num_op("//", o, self)

    def __mod__(self, o):
        return num_op("%", self, o)

    def __rmod__(self, o):
        return num_op("%", o, self)

    def __pow__(self, o):
        return num_op("**", self, o)

    def __rpow__(self, o):
        return num_op("**", o, self)

    def __xor__(self, o):
        return num_op("^", self, o)

    def __rxor__(self, o):
        return num_op("^", o, self)

    def __neg__(self):
        return SNum(-self.e)

    def __abs__(self):
        return SNum(z3.If(self.e >= 0, self.e, -self.e))

    def __lt__(self, o):
        return cmp_op("<", self, o)

    def __le__(self, o):
        return cmp_op("<=", self, o)

    def __gt__(self, o):
        return cmp_op(">", self, o)

    def __ge__(self, o):
        return cmp_op(">=", self, o)

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if is_num(o):
            return cmp_op("==", self, o)
        return False

    def __ne__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if is_num(o):
            return cmp_op("!=", self, o)
        return True

    __hash__ = SV.__hash__


class SRef(SV):
    """An element of an uninterpreted sort (opaque object, identity = z3 equality)."""

    __slots__ = ("cls", "attrs")

    def __init__(self, e, cls=None):
        super().__init__(e)
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, SRef) and self.e.eq(o.e)

    __hash__ = SV.__hash__


class Opaque:
    """A value about which nothing is known (formatted strings, plots...)."""

    def __init__(self, what="opaque"):
        self.what = what

    def __repr__(self):
        return f"<opaque {self.what}>"


class Undef:
    def __repr__(self):
        return "<undef>"


UNDEF = Undef()


class GU:
    """Guarded union: [(guard, value)], guards exclusive and exhaustive."""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return f"GU{self.alts}"


def is_num(v):
    return isinstance(v, (numbers.Number, np.number, np.bool_, SNum, SBool)) and not isinstance(
        v, complex
    )


def lift_num(v):
    """Number -> z3 arithmetic term."""
    if isinstance(v, SNum):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, (bool, np.bool_)):
        return z3.IntVal(int(v))
    if isinstance(v, (int, np.integer)):
        return z3.IntVal(int(v))
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, (float, np.floating)):
        f = float(v)
        if f != f or f in (float("inf"), float("-inf")):
            raise Unsupported("nan/inf in symbolic arithmetic")
        return z3.RealVal(Fraction(f))
    raise Unsupported(f"not a number: {v!r}")


def norm_num(e):
    """z3 arithmetic term -> python int when constant int, else SNum."""
    if z3.is_int_value(e):
        return e.as_long()
    return SNum(e)


def unify(a, b):
    if a.sort() == b.sort():
        return a, b
    if a.sort() == z3.IntSort():
        a = z3.ToReal(a)
    if b.sort() == z3.IntSort():
        b = z3.ToReal(b)
    return a, b


def _is_bit(e):
    """Syntactically a 0/1 integer term."""
    if z3.is_int_value(e):
        return e.as_long() in (0, 1)
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return _is_bit(e.arg(1)) and _is_bit(e.arg(2))
    if z3.is_app_of(e, z3.Z3_OP_MOD):
        return z3.is_int_value(e.arg(1)) and e.arg(1).as_long() == 2
    return False


def bit_to_bool(e):
    """0/1 integer term -> Bool term."""
    if z3.is_int_value(e):
        return z3.BoolVal(e.as_long() == 1)
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        a, b = e.arg(1), e.arg(2)
        if z3.is_int_value(a) and z3.is_int_value(b):
            if a.as_long() == 1 and b.as_long() == 0:
                return e.arg(0)
            if a.as_long() == 0 and b.as_long() == 1:
                return z3.Not(e.arg(0))
        return z3.If(e.arg(0), bit_to_bool(a), bit_to_bool(b))
    return e == 1


def bool_to_bit(f):
    return z3.If(zb(f), z3.IntVal(1), z3.IntVal(0))


def prove_bit(e):
    """Overridden by the engine: decide that e is 0/1 in context."""
    return False


_hooks = {"prove": None}


def num_op(op, a, b):
    if not (is_num(a) and is_num(b)):
        return NotImplemented
    x, y = lift_num(a), lift_num(b)
    if op in ("^", "&", "|"):
        if not (x.sort() == z3.IntSort() and y.sort() == z3.IntSort()):
            raise Unsupported("bit operation on reals")
        for t in (x, y):
            if not _is_bit(t):
                pr = _hooks["prove"]
                if pr is None or not pr(z3.Or(t == 0, t == 1)):
                    raise Unsupported(f"bit operation on a term not known to be 0/1: {t}")
        p, q = bit_to_bool(x), bit_to_bool(y)
        r = {"^": z3.Xor, "&": z3.And, "|": z3.Or}[op](p, q)
        if isinstance(a, SBool) and isinstance(b, SBool):
            return SBool(r)
        return SNum(bool_to_bit(r))
    if op == "/":
        if x.sort() == z3.IntSort():
            x = z3.ToReal(x)
        if y.sort() == z3.IntSort():
            y = z3.ToReal(y)
        return SNum(x / y)
    if op == "**":
        if z3.is_int_value(y):
            n = y.as_long()
            if 0 <= n <= 6:
                r = z3.IntVal(1) if x.sort() == z3.IntSort() else z3.RealVal(1)
                for _ in range(n):
                    r = r * x if _ else x
                return norm_num(z3.simplify(r)) if z3.is_int_value(z3.simplify(r)) else SNum(r)
        if z3.is_int_value(x) and x.as_long() == -1 and y.sort() == z3.IntSort():
            return SNum(z3.If(y % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))
        if z3.is_rational_value(y) and y.as_fraction() == Fraction(1, 2):
            return sqrt_term(x)
        raise Unsupported(f"power {x}**{y}")
    x, y = unify(x, y)
    if op == "+":
        r = x + y
    elif op == "-":
        r = x - y
    elif op == "*":
        r = x * y
    elif op in ("//", "%"):
        if x.sort() == z3.IntSort():
            if not (z3.is_int_value(y) and y.as_long() > 0):
                pr = _hooks["prove"]
                if pr is None or not pr(y > 0):
                    raise Unsupported("integer division by a term not known positive")
            r = x / y if op == "//" else x % y
        else:
            q = z3.ToInt(x / y) if z3.is_rational_value(y) else FDIV(x, y)
            pr = _hooks["prove"]
            if pr is None or not pr(y > 0):
                raise Unsupported("real modulus by a term not known positive")
            r = z3.ToReal(q) if op == "//" else x - z3.ToReal(q) * y
    else:
        raise Unsupported(f"operator {op}")
    if z3.is_int_value(x) and z3.is_int_value(y):
        r = z3.simplify(r)
        return norm_num(r)
    return SNum(r)


SQRT = z3.Function("sqrt", z3.RealSort(), z3.RealSort())
LOG = z3.Function("ln", z3.RealSort(), z3.RealSort())
EXP = z3.Function("exp", z3.RealSort(), z3.RealSort())
ERF = z3.Function("erf", z3.RealSort(), z3.RealSort())
COS = z3.Function("cos", z3.RealSort(), z3.RealSort())
SIN = z3.Function("sin", z3.RealSort(), z3.RealSort())
ROUND = z3.Function("round_to", z3.RealSort(), z3.IntSort(), z3.RealSort())
PI = z3.Real("pi")
# floor(x / y) for y > 0 that is not a number
FDIV = z3.Function("fdiv", z3.RealSort(), z3.RealSort(), z3.IntSort())


def sqrt_term(x):
    if x.sort() == z3.IntSort():
        x = z3.ToReal(x)
    return SNum(SQRT(x))


def cmp_op(op, a, b):
    if not (is_num(a) and is_num(b)):
        return NotImplemented
    if isinstance(a, SBool) and isinstance(b, (SBool, bool, np.bool_)) and op in ("==", "!="):
        f = Iff(a.e, b.e if isinstance(b, SBool) else bool(b))
        return mk_bool(f if op == "==" else Not(f))
    x, y = unify(lift_num(a), lift_num(b))
    f = {
        "<": lambda: x < y,
        "<=": lambda: x <= y,
        ">": lambda: x > y,
        ">=": lambda: x >= y,
        "==": lambda: x == y,
        "!=": lambda: x != y,
    }[op]()
    return mk_bool(f)


def mk_bool(f):
    if isinstance(f, (bool, np.bool_)):
        return bool(f)
    s = z3.simplify(f)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return SBool(f)


# ---------------------------------------------------------------- entries
class Entry:
    """{ key -> value | vars : guard }.  For lists/sets only value is used."""

    # rng: (first, end, step) if the entry stands for consecutive list items, its variable going through that range
    __slots__ = ("vars", "guard", "key", "value", "op", "rng")

    def __init__(self, vars, guard, value, key=None, op=None, rng=None):
        self.rng = rng
        self.vars = tuple(vars)
        self.guard = guard
        self.value = value
        self.key = key
        self.op = op

    def __repr__(self):
        return f"Entry({self.vars}|{self.guard}|{self.key}->{self.value})"

    def plain(self):
        return not self.vars and is_true(self.guard)


class Store:
    """Shared storage of one heap object (or template of a family of them)."""

    __slots__ = ("id", "path", "params", "data", "kind", "meta", "name")

    def __init__(self, kind, path, params, data, name=None):
        self.id = next(_ctr)
        self.kind = kind
        self.path = path
        self.params = params
        self.data = data
        self.meta = {}
        self.name = name or kind


class Heap:
    """Reference to a heap object: a store plus an instantiation of its params."""

    __slots__ = ("store", "map")

    def __init__(self, store, map=None):
        self.store = store
        self.map = map or None

    def __repr__(self):
        return f"<{self.store.name}#{self.store.id}{self.map or ''}>"

    def __hash__(self):
        return hash(self.store.id)

    def __eq__(self, o):
        if not isinstance(o, Heap) or o.store is not self.store:
            return False
        a, b = self.args(), o.args()
        return all(x.eq(y) for x, y in zip(a, b))

    def args(self):
        m = dict((k.get_id(), v) for k, v in (self.map or ()))
        return [m.get(p.get_id(), p) for p in self.store.params]


class PList(Heap):
    __slots__ = ()


class PSet(Heap):
    __slots__ = ()


class PDict(Heap):
    __slots__ = ()


class PObj(Heap):
    """Instance of a class of the repository (or of a modelled class)."""

    __slots__ = ()

    @property
    def cls(self):
        return self.store.meta["cls"]


class Seq:
    """An immutable ordered sequence with (possibly) symbolic length."""

    __slots__ = ("n", "at", "distinct")

    def __init__(self, n, at, distinct=False):
        self.n = n
        self.at = at
        self.distinct = distinct

    def __repr__(self):
        return f"<Seq len={self.n}>"
