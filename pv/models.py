"""Models of builtins and of the dependencies (assumed contracts), as far as the verified functions use them."""
import ast
import re
import numpy as np
import z3

from pv.values import *
from pv.engine import ModelFn, ExtModule, ExcType, ExcVal, ClassVal, FuncVal, BoundMethod, Chunk, Poison, PObj
from pv.engine import Module, value_vars, subst_value
from pv.logic import exists, subst, free_vars
from pv import logic

EXC = ["ValueError", "TypeError", "KeyError", "IndexError", "Exception", "NotImplementedError", "AttributeError",
       "RuntimeError", "AssertionError", "ZeroDivisionError", "StopIteration", "ImportError", "RecursionError",
       "NetworkXError", "FileExistsError", "FileNotFoundError", "OSError", "IOError", "LookupError", "ArithmeticError", "BaseException"]
TYPES = ["int", "float", "str", "bool", "list", "tuple", "dict", "set", "frozenset", "type", "object", "complex", "range"]


_B = {}


def bi(name):
    def d(f):
        _B[name] = f
        return f

    return d


def builtin(e, name):
    if name in e.builtins:
        return e.builtins[name]
    if name in EXC:
        return ExcType(name)
    if name in _B:
        return ModelFn(name, _B[name])
    if name in ("True", "False", "None"):
        return {"True": True, "False": False, "None": None}[name]
    if name == "__name__":
        return "module"
    raise Unsupported(f"name {name}")


def native(v):
    """A fully concrete Python value (deep), or None wrapped: (ok, value)."""
    if isinstance(v, (str, bytes, bool, type(None), int, float, np.generic, range, type, np.dtype)):
        return True, v
    if isinstance(v, np.ndarray):
        if v.dtype != object:
            return True, v
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            ok, x = native(v[i])
            if not ok:
                return False, None
            out[i] = x
        if v.size:
            return True, np.array(out.tolist())
        return True, v
    if isinstance(v, tuple):
        out = []
        for x in v:
            ok, y = native(x)
            if not ok:
                return False, None
            out.append(y)
        return True, tuple(out)
    if isinstance(v, PList):
        if all(en.plain() for en in v.store.data) and not v.map:
            ok, t = native(tuple(en.value for en in v.store.data))
            return ok, list(t) if ok else None
        return False, None
    if isinstance(v, SNum):
        s = z3.simplify(v.e)
        if z3.is_int_value(s):
            return True, s.as_long()
    if isinstance(v, slice):
        return native(v.start)[0] and native(v.stop)[0] and native(v.step)[0], v
    return False, None


# ---------------------------------------------------------------- collections with symbolic extent
class SymRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def chunks(self, e):
        v = z3.Int(fresh_name("i"))
        lo, hi = lift_num(self.lo), lift_num(self.hi)
        if self.step > 0:
            g = z3.And(lo <= v, v < hi)
        else:
            g = z3.And(hi < v, v <= lo)
        if abs(self.step) != 1:
            g = z3.And(g, (v - lo) % abs(self.step) == 0)
        return [Chunk([v], g, SNum(v), rng=(lo, hi, self.step))]

    def length(self, e):
        lo, hi = lift_num(self.lo), lift_num(self.hi)
        if self.step == 1:
            d = hi - lo
        elif self.step > 0:
            d = (hi - lo + self.step - 1) / self.step
        else:
            raise Unsupported("length of a descending range")
        if e.entails(d >= 0):
            return norm_num(z3.simplify(d))
        return SNum(z3.If(d >= 0, d, z3.IntVal(0)))

    def contains(self, e, x):
        if not is_num(x):
            return False
        t = lift_num(x)
        lo, hi = lift_num(self.lo), lift_num(self.hi)
        f = z3.And(lo <= t, t < hi) if self.step > 0 else z3.And(hi < t, t <= lo)
        if abs(self.step) != 1:
            f = z3.And(f, (t - lo) % abs(self.step) == 0)
        return f

    def truth(self, e):
        return lift_num(self.length(e)) > 0

    def getitem(self, e, i):
        n = lift_num(self.length(e))
        k = lift_num(i)
        e.do_raise("IndexError", "", Not(z3.And(k >= -n, k < n)))
        if e.entails(k >= 0):
            return SNum(lift_num(self.lo) + self.step * k)
        return SNum(z3.If(k >= 0, lift_num(self.lo) + self.step * k, lift_num(self.hi) + self.step * k))

    def eq_value(self, e, o):
        if o is self:
            return True
        return False


class Chunks:
    """A one-shot iterable given by a chunk producer (fresh variables on every use)."""

    def __init__(self, fn, length=None, what="iterable", contains=None, count=None):
        self.fn, self.what, self._len, self._contains = fn, what, length, contains

    def chunks(self, e):
        return self.fn(e)

    def length(self, e):
        if self._len is None:
            return count_chunks(e, self.fn(e))
        return self._len(e)

    def contains(self, e, x):
        if self._contains:
            return self._contains(e, x)
        fs = []
        for c in self.fn(e):
            f = And(c.guard, e.eq(c.value, x))
            fs.append(exists(list(c.vars), zb(f)) if c.vars else f)
        return Or(*fs)

    def truth(self, e):
        return e.truth_nonempty(self.fn(e))


class Rows1:
    """A two-dimensional array of rows of length 1: arrays made as np.array([a]) of an array a of length 1."""

    def __init__(self, rows):
        self.rows = rows

    def getitem(self, e, i):
        i = e.force(i)
        if isinstance(i, PList):
            i = as_symlist(e, i)
        if isinstance(i, (SymArr, SymList)) and not is_mask(i):
            return Rows1(self.rows.getitem(e, i))
        if is_num(i):
            x = self.rows.getitem(e, i)
            return SymArr(1, lambda j: x)
        raise Unsupported("indexing of rows")

    def binop(self, e, op, o):
        t = {v: k for k, v in e.OPS.items()}[op]
        if isinstance(o, Rows1):
            return Rows1(e.binop(t, self.rows, o.rows))
        if is_num(o):
            return Rows1(e.binop(t, self.rows, o))
        raise Unsupported("array operation on rows")


class Indexed_:
    """Elements by index: substitution goes into every element."""

    def subst(self, pairs):
        from pv.engine import subst_value
        base, J = self.at, z3.Int(fresh_name("J"))
        memo = []

        def at(j):
            if not memo:
                memo.append(subst_value(base(SNum(J)), pairs))
            return subst_value(memo[0], [(J, lift_num(j))])
        r = type(self)(subst_value(self.n, pairs), at)
        for k in ("whole", "shares"):
            if k in self.__dict__:
                setattr(r, k, getattr(self, k))
        return r

    def vars_of(self, acc):
        from pv.engine import value_vars
        J = z3.Int(fresh_name("J"))
        value_vars(self.n, acc)
        value_vars(self.at(SNum(J)), acc)
        acc.pop(J.get_id(), None)


def slice_bound(e, x, n, default):
    """An index that counts from the end if it is negative."""
    if x is None:
        return default
    x = lift_num(x)
    if e.entails(x >= 0):
        return x
    y = z3.simplify(n + x)
    if e.entails(x < 0):
        return y if e.entails(y >= 0) else z3.If(y >= 0, y, 0)
    return z3.If(x >= 0, x, z3.If(y >= 0, y, 0))


class SymList(Indexed_):
    """A list of symbolic length, given by a function of the index."""

    def __init__(self, n, at):
        self.n, self.at = n, at

    def length(self, e):
        return self.n

    def chunks(self, e):
        v = z3.Int(fresh_name("i"))
        n = lift_num(self.n)
        return [Chunk([v], z3.And(v >= 0, v < n), self.at(SNum(v)), rng=(z3.IntVal(0), n, 1))]

    def getitem(self, e, i):
        if isinstance(i, slice):
            if i.step not in (None, 1) and not (isinstance(i.step, int) and i.step > 1):
                raise Unsupported("slice step")
            n = lift_num(self.n)
            lo = slice_bound(e, i.start, n, z3.IntVal(0))
            hi = slice_bound(e, i.stop, n, n)
            if i.step not in (None, 1):
                st = i.step
                if not e.entails(z3.And(0 <= lo, lo <= hi, hi <= n)):
                    raise Unsupported("slice of a symbolic list out of range")
                m = z3.simplify((hi - lo + (st - 1)) / st)
                return SymList(norm_num(m), lambda k: self.at(norm_num(z3.simplify(lift_num(k) * st + lo))))
            if not e.entails(z3.And(0 <= lo, lo <= n, 0 <= hi, hi <= n)):
                raise Unsupported("slice of a symbolic list out of range")
            if not e.entails(lo <= hi):
                hi = z3.If(lo <= hi, hi, lo)
            return SymList(norm_num(z3.simplify(hi - lo)), lambda k: self.at(norm_num(z3.simplify(lift_num(k) + lo))))
        n = lift_num(self.n)
        k = lift_num(i)
        e.do_raise("IndexError", "", Not(z3.And(k >= -n, k < n)))
        if e.entails(k >= 0):
            return self.at(norm_num(z3.simplify(k)))
        if e.entails(k < 0):
            return self.at(norm_num(z3.simplify(k + n)))
        return self.at(SNum(z3.If(k >= 0, k, k + n)))

    def truth(self, e):
        return lift_num(self.n) > 0


def length(e, v):
    v = e.force(v)
    if isinstance(v, GU):
        return e.lift(v, lambda x: length(e, x))
    if isinstance(v, (str, tuple, range, np.ndarray, list, dict)):
        return len(v)
    if hasattr(v, "length"):
        return v.length(e)
    if isinstance(v, PList):
        s = ordered(e, v)
        if s is not None and s.n is not None:
            return s.n
        n = 0
        t = z3.IntVal(0)
        for en in e.ents(v):
            if en.plain():
                n += 1
            elif not [x for x in en.vars if x.get_id() not in e.active()]:
                t = t + z3.If(zb(en.guard), z3.IntVal(1), z3.IntVal(0))
            else:
                en, q = e.fresh_entry(en)
                t = t + e.aggregate("sum", list(q), en.guard, z3.IntVal(1))
        return norm_num(z3.simplify(t + n))
    if isinstance(v, (PSet, PDict)):
        return count_chunks(e, e.iterate(v))
    if isinstance(v, PObj):
        if "graph" in v.store.meta:
            return node_count(e, v)
        f = e.find_method(v.cls, "__len__")
        if f:
            return e.call(BoundMethod(f, v), [])
    raise Unsupported(f"len of {type(v).__name__}")


def count_chunks(e, chs):
    t = z3.IntVal(0)
    for c in chs:
        if c.vars:
            t = t + e.aggregate("sum", list(c.vars), c.guard, z3.IntVal(1))
        else:
            t = t + z3.If(zb(c.guard), z3.IntVal(1), z3.IntVal(0))
    return norm_num(z3.simplify(t))


@bi("len")
def _len(e, a, k):
    return length(e, a[0])


@bi("range")
def _range(e, a, k):
    a = [e.force(x) for x in a]
    for x in a:
        if isinstance(x, GU):
            raise Unsupported("range of alternatives")
        if not is_num(x) or isinstance(x, float) or (isinstance(x, SNum) and not x.is_int):
            e.do_raise("TypeError", "range")
            return Poison("range of a non-integer")
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    oks = [native(x) for x in (lo, hi, st)]
    if all(o[0] for o in oks):
        return range(*[int(o[1]) for o in oks])
    if not oks[2][0]:
        raise Unsupported("range with a symbolic step")
    step = int(oks[2][1])
    # a small constant number of elements: unroll
    d = z3.simplify(lift_num(hi) - lift_num(lo))
    if z3.is_int_value(d) and 0 <= d.as_long() <= 12 and step > 0:
        return tuple(norm_num(z3.simplify(lift_num(lo) + j)) for j in range(0, d.as_long(), step))
    return SymRange(lo, hi, step)


@bi("print")
def _print(e, a, k):
    e.log.append(("print", a))
    return None


@bi("isinstance")
def _isinstance(e, a, k):
    v, t = e.force(a[0]), a[1]
    if isinstance(v, GU):
        return mk_bool(Or(*[And(g, zb_(is_inst(e, x, t))) for g, x in v.alts]))
    return is_inst(e, v, t)


def zb_(x):
    return x.e if isinstance(x, SBool) else x


def is_inst(e, v, t):
    if isinstance(t, tuple):
        return any(is_inst(e, v, x) for x in t)
    if isinstance(t, ModelFn):
        n = t.name
        if isinstance(v, (Opaque, Poison)):
            if isinstance(v, Opaque) and v.what == n:
                return True
            raise Unsupported("type test of an unknown value")
        if n == "int":
            return isinstance(v, (int, SBool)) or isinstance(v, SNum) and v.is_int
        if n == "float":
            return isinstance(v, float) or isinstance(v, SNum) and not v.is_int
        if n == "bool":
            return isinstance(v, (bool, SBool))
        if n == "str":
            return isinstance(v, str)
        if n == "tuple":
            return isinstance(v, tuple)
        if n == "list":
            return isinstance(v, (PList, SymList))
        if n == "dict":
            return isinstance(v, PDict)
        if n == "set":
            return isinstance(v, PSet)
        if n == "numpy.ndarray":
            return isinstance(v, np.ndarray) or getattr(v, "is_array", False)
        if n == "numpy.integer":
            return isinstance(v, np.integer)
        if n == "object":
            return True
        if n == "networkx.Graph":
            return isinstance(v, PObj) and "graph" in v.store.meta
        if n in ("complex", "frozenset", "range", "type"):
            return isinstance(v, (range, SymRange)) if n == "range" else False
    if isinstance(t, ClassVal):
        if isinstance(v, PObj) and isinstance(v.cls, ClassVal):
            return e.is_subclass(v.cls, t)
        if isinstance(v, SRef) and v.cls is not None:
            return e.is_subclass(v.cls, t)
        return False
    if isinstance(t, type):
        ok, x = native(v)
        if ok:
            return isinstance(x, t)
        return getattr(v, "is_instance", lambda _: False)(t)
    raise Unsupported(f"isinstance with {t!r}")


for _t in TYPES:
    pass


class TypeOf:
    def __init__(self, v):
        self.v = v

    def eq_value(self, e, o):
        if isinstance(o, ModelFn):
            return is_inst(e, self.v, o)
        if isinstance(o, TypeOf):
            raise Unsupported("comparison of types")
        return False


@bi("type")
def _type(e, a, k):
    return TypeOf(e.force(a[0]))


@bi("object")
def _object(e, a, k):
    raise Unsupported("object()")


@bi("int")
def _int(e, a, k):
    v = e.force(a[0]) if a else 0
    if isinstance(v, GU):
        return e.lift(v, lambda x: _int(e, [x], k))
    if isinstance(v, (int, float, str, np.generic)):
        return int(v)
    if isinstance(v, SBool):
        return SNum(lift_num(v))
    if isinstance(v, SNum):
        if v.is_int:
            return v
        return SNum(z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e)))
    if hasattr(v, "to_int"):
        return v.to_int(e)
    if isinstance(v, np.ndarray) and v.size == 1:
        return _int(e, [v.flat[0]], k)
    raise Unsupported("int()")


@bi("float")
def _float(e, a, k):
    v = e.force(a[0])
    if isinstance(v, GU):
        return e.lift(v, lambda x: _float(e, [x], k))
    if isinstance(v, (int, float, str, np.generic)):
        return float(v)
    if isinstance(v, (SNum, SBool)):
        x = lift_num(v)
        return SNum(z3.ToReal(x) if x.sort() == z3.IntSort() else x)
    if v is None:
        e.do_raise("TypeError", "float(None)")
        return Poison("float(None)")
    raise Unsupported("float()")


@bi("bool")
def _bool(e, a, k):
    if not a:
        return False
    return mk_bool(e.truth(e.force(a[0])))


@bi("str")
def _str(e, a, k):
    v = e.force(a[0])
    if isinstance(v, (str, int)) and not isinstance(v, bool) or v is None:
        return str(v)
    if isinstance(v, StrOf):
        return v
    if isinstance(v, (SNum, SRef)):
        return StrOf(v)
    if hasattr(v, "str_value"):
        return v.str_value(e)
    return Opaque("str")


class StrOf:
    """str(v) for an unknown v."""

    def __init__(self, v):
        self.v = v

    def subst(self, pairs):
        from pv.engine import subst_value
        return StrOf(subst_value(self.v, pairs))

    def vars_of(self, acc):
        from pv.engine import value_vars
        value_vars(self.v, acc)

    def eq_value(self, e, o):
        if isinstance(o, StrOf) and is_true(e.eq(self.v, o.v)):
            return True
        raise Unsupported("comparison of texts")


@bi("globals")
def _globals(e, a, k):
    return Globals(e.frames[-1].module)


class Globals:
    def __init__(self, module):
        self.module = module

    def contains(self, e, x):
        if not isinstance(x, str):
            raise Unsupported("globals()")
        try:
            self.module.get(x)
        except KeyError:
            return False
        return True

    def getitem(self, e, x):
        return self.module.get(x)


@bi("repr")
def _repr(e, a, k):
    return Opaque("str")


@bi("abs")
def _abs(e, a, k):
    v = e.force(a[0])
    if isinstance(v, GU):
        return e.lift(v, lambda x: _abs(e, [x], k))
    if isinstance(v, np.ndarray):
        return np_map(lambda x: abs(x), v)
    if hasattr(v, "map"):
        return v.map(lambda x: abs(x))
    return abs(v)


def whole_summands(x):
    """Integer terms t such that x is a sum with the summand ToReal(t)."""
    parts = x.children() if z3.is_add(x) else [x]
    return [p.arg(0) for p in parts if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_TO_REAL and not z3.is_int_value(p.arg(0))]


def round_half_even(e, x):
    """Integer nearest to the real x, ties to even."""
    for w in whole_summands(x):
        r = z3.simplify(x - z3.ToReal(w))
        if e.entails(z3.And(r > -z3.Q(1, 2), r < z3.Q(1, 2))):
            return w
    f = z3.ToInt(x)
    r = x - z3.ToReal(f)
    return z3.If(r < z3.Q(1, 2), f, z3.If(r > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1)))


@bi("round")
def _round(e, a, k):
    v = e.force(a[0])
    if isinstance(v, GU):
        return e.lift(v, lambda x: _round(e, [x] + a[1:], k))
    if len(a) > 1:
        ok, _ = native(v)
        if ok:
            return round(v, a[1])
        if isinstance(v, SNum) and not v.is_int and isinstance(a[1], int):
            return SNum(ROUND(v.e, a[1]))
        raise Unsupported("round to digits")
    if isinstance(v, (int, float, np.generic)):
        return round(v)
    if isinstance(v, SNum):
        if v.is_int:
            return v
        return SNum(round_half_even(e, v.e))
    raise Unsupported("round")


def flat_args(e, a):
    if len(a) == 1:
        return e.iterate(a[0])
    return [Chunk((), True, x) for x in a]


def family_extremum(e, chs, k, lt):
    """The least or greatest number of a (finite) family: a member that bounds all members."""
    if k.get("key") is not None or not all(is_num(c.value) and not isinstance(c.value, (bool, SBool)) for c in chs):
        raise Unsupported("min/max over a symbolic collection")
    whole = all(lift_num(c.value).sort() == z3.IntSort() for c in chs)
    ps = e.path_vars()
    mk = lambda n, s: z3.Function(fresh_name(n), *[p.sort() for p in ps], s)(*ps) if ps else z3.Const(fresh_name(n), s)
    m, some = mk("extremum", z3.IntSort() if whole else z3.RealSort()), mk("nonempty", z3.BoolSort())
    path, facts, attained = zb(e.path_formula()), [], []
    for c in chs:
        x = lift_num(c.value)
        x = x if whole or x.sort() == z3.RealSort() else z3.ToReal(x)
        b = z3.Implies(z3.And(path, zb(c.guard)), z3.And(some, m <= x if lt else m >= x))
        vs = [*ps, *c.vars]
        facts.append(z3.ForAll(vs, b) if vs else b)
        wit = [(v, mk("extremal", v.sort())) for v in c.vars]
        attained.append(subst(z3.And(zb(c.guard), m == x), wit))
    b = z3.Implies(z3.And(path, some), z3.Or(*attained))
    facts.append(z3.ForAll(ps, b) if ps else b)
    for f in facts:
        e.add_fact(f)
    if "default" in k:
        return e.merge(some, SNum(m), k["default"])
    e.do_raise("ValueError", "min/max of nothing", Not(some))
    return SNum(m)


def extremum(e, a, k, lt):
    a = [e.force(x) for x in a]
    key = k.get("key")
    chs = flat_args(e, a)
    if any(c.vars for c in chs):
        return family_extremum(e, chs, k, lt)
    res, g = None, False
    for c in chs:
        if res is None:
            res, g = c.value, c.guard
            continue
        kv = (lambda x: e.call(key, [x])) if key else (lambda x: x)
        better = e.truth(e.compare(ast.Lt() if lt else ast.Gt(), kv(c.value), kv(res)))
        cond = And(c.guard, Or(Not(g), better))
        res = e.merge(cond, c.value, res)
        g = Or(g, c.guard)
    if "default" in k:
        if res is None:
            return k["default"]
        return e.merge(g, res, k["default"])
    if res is None or not is_true(g):
        e.do_raise("ValueError", "min/max of nothing", Not(g))
    return res if res is not None else Poison("min of nothing")


@bi("min")
def _min(e, a, k):
    if len(a) == 1 and hasattr(e.force(a[0]), "minimum"):
        return e.force(a[0]).minimum(e, k)
    return extremum(e, a, k, True)


@bi("max")
def _max(e, a, k):
    if len(a) == 1 and hasattr(e.force(a[0]), "maximum"):
        return e.force(a[0]).maximum(e, k)
    return extremum(e, a, k, False)


@bi("sum")
def _sum(e, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)
    v = e.force(a[0])
    acc = start
    for c in e.iterate(v):
        if c.vars:
            if not is_num(c.value):
                raise Unsupported("sum of a family of non-numbers")
            sym = e.aggregate("sum", list(c.vars), c.guard, lift_num(c.value))
            acc = e.binop(ast.Add, acc, SNum(sym))
        else:
            g = e.decide(c.guard)
            if g is False:
                continue
            if g is True:
                acc = e.binop(ast.Add, acc, c.value)
            else:
                acc = e.merge(g, e.binop(ast.Add, acc, c.value), acc)
    return acc


def any_all(e, v, isany):
    fs = []
    for c in e.iterate(v):
        for it in e.chunk_items(c):
            e.push_item(it)
        t = e.truth(c.value)
        for it in e.chunk_items(c):
            e.pop()
        f = And(c.guard, t if isany else Not(t))
        fs.append(exists(list(c.vars), zb(f)) if c.vars else f)
    r = Or(*fs)
    return mk_bool(r if isany else Not(r))


@bi("any")
def _any(e, a, k):
    return any_all(e, a[0], True)


@bi("all")
def _all(e, a, k):
    return any_all(e, a[0], False)


@bi("set")
def _set(e, a, k):
    if not a:
        return e.new_set()
    v = e.force(a[0])
    if isinstance(v, PSet):
        return e.new_set(entries=list(e.ents(v)))
    if isinstance(v, PList):
        ents = e.ents(v)
        for en in ents:
            e.check_hashable(en.value)
        s = e.new_set()
        if all(en.plain() for en in ents):
            for en in ents:
                e.set_add(s, en.value)
        else:
            s.store.data = [Entry(en.vars, en.guard, en.value) for en in ents]
        return s
    s = e.new_set()
    if isinstance(v, PDict):
        s.store.data = [Entry(en.vars, en.guard, en.key) for en in e.ents(v)]
        if any(en.op == "del" for en in e.ents(v)):
            raise Unsupported("set of a dict with deletions")
        return s
    for c in e.iterate(v):
        e.set_add(s, c.value, c.vars, c.guard)
    return s


_B["frozenset"] = _set


@bi("list")
def _list(e, a, k):
    l = e.new_list()
    if a:
        v = e.force(a[0])
        if isinstance(v, (SymList, SymRange)) or hasattr(v, "as_list"):
            if isinstance(v, SymRange):
                return SymList(v.length(e), lambda i: v.getitem(e, i) if not isinstance(i, SNum) else SNum(lift_num(v.lo) + v.step * i.e))
            return v.as_list(e) if hasattr(v, "as_list") else v
        if isinstance(v, GU):
            return e.lift(v, lambda x: _list(e, [x], k))
        for c in e.iterate(v):
            e.list_append(l, c.value, c.vars, c.guard, c.rng)
        if isinstance(v, PSet):
            l.store.meta["set"] = list(l.store.data)
    return l


@bi("tuple")
def _tuple(e, a, k):
    if not a:
        return ()
    v = e.force(a[0])
    if isinstance(v, GU):
        return e.lift(v, lambda x: _tuple(e, [x], k))
    return tuple(e.unpack(v))


@bi("dict")
def _dict(e, a, k):
    d = e.new_dict()
    if a:
        v = e.force(a[0])
        if isinstance(v, PDict):
            d.store.data = list(e.ents(v))
        else:
            for c in e.iterate(v):
                kk, vv = e.unpack(c.value)
                for it in e.chunk_items(c):
                    e.push_item(it)
                e.dict_set(d, kk, vv)
                for it in e.chunk_items(c):
                    e.pop()
    for x, y in k.items():
        e.dict_set(d, x, y)
    return d


@bi("zip")
def _zip(e, a, k):
    vs = [e.force(x) for x in a]
    if len(vs) == 2 and isinstance(vs[0], SortedList) and isinstance(vs[1], (SymRange, range)):
        return vs[0].ranked(e, vs[1])
    if any(isinstance(v, SymList) or hasattr(v, "elem") for v in vs) or e.sizes and any(isinstance(v, PList) and e.plain(v) is None for v in vs):
        ls = []
        for v in vs:
            ls.append(as_symlist(e, v))
        n = ls[0].n
        for l in ls[1:]:
            x, y = lift_num(l.n), lift_num(n)
            if not e.entails(y <= x):
                n = l.n if e.entails(x <= y) else SNum(z3.If(x <= y, x, y))
        return SymList(n, lambda i: tuple(l.at(i) for l in ls))
    ls = [e.unpack(v) for v in vs]
    return e.new_list(list(zip(*ls)))


def as_symlist(e, v):
    if isinstance(v, SymList):
        return v
    if isinstance(v, PList):
        s = in_some_order(e, v)
        if s is not None:
            return s
    if hasattr(v, "as_symlist"):
        return v.as_symlist(e)
    if isinstance(v, SymRange):
        return SymList(v.length(e), lambda i: SNum(lift_num(v.lo) + v.step * lift_num(i)))
    items = e.unpack(v)
    return SymList(len(items), lambda i: e.index_seq(tuple(items), i))


@bi("enumerate")
def _enumerate(e, a, k):
    v = e.force(a[0])
    if e.sizes and isinstance(v, PList) and e.plain(v) is None:
        v = as_symlist(e, v)
    if not isinstance(v, (SymList, PList, tuple, list, range, np.ndarray, str)):
        v = _list(e, [v], {})
    if isinstance(v, PList) and e.plain(v) is None:
        s = ordered(e, v)
        v = v if s is None else s
    lo = a[1] if len(a) > 1 else k.get("start", 0)
    if isinstance(v, SymList):
        return SymList(v.n, lambda i: (i if lo == 0 else e.binop(ast.Add, lo, i), v.at(i)))
    return e.new_list([(i if lo == 0 else e.binop(ast.Add, lo, i), x) for i, x in enumerate(e.unpack(v))])


@bi("reversed")
def _reversed(e, a, k):
    return e.new_list(list(reversed(e.unpack(a[0]))))


MAP = ast.parse("[f(x) for x in v]", mode="eval").body
FILTER = ast.parse("[x for x in v if f(x)]", mode="eval").body
for _n in [*ast.walk(MAP), *ast.walk(FILTER)]:
    for _a in ("lineno", "end_lineno"):
        if hasattr(_n, _a):
            delattr(_n, _a)


def as_comp(e, tree, f, v):
    """map and filter: what the comprehension of the same meaning gives."""
    from .engine import Frame

    fr = Frame(None, None)
    fr.locals.update(f=f, v=v)
    return e.eval(tree, fr)


@bi("map")
def _map(e, a, k):
    if len(a) != 2:
        raise Unsupported("map of several iterables")
    v = e.force(a[1])
    if isinstance(v, SymList):
        return SymList(v.n, lambda i: e.call(a[0], [v.at(i)]))
    return as_comp(e, MAP, a[0], v)


@bi("filter")
def _filter(e, a, k):
    f = a[0] if a[0] is not None else ModelFn("bool", _bool)
    return as_comp(e, FILTER, f, a[1])


@bi("sorted")
def _sorted(e, a, k):
    v = e.force(a[0])
    ok, x = native(v) if not isinstance(v, PSet) else (False, None)
    if isinstance(v, PSet) and all(en.plain() for en in v.store.data):
        ok, x = native(tuple(en.value for en in v.store.data))
    if ok and not k:
        return e.new_list(sorted(x))
    if hasattr(v, "sorted_list"):
        return v.sorted_list(e)
    key, rev = e.force(k.get("key")), k.get("reverse")
    if e.sizes and rev in (None, False):
        s = placed(e, e.iterate(v), key, True)
        if s is not None:
            return s
    e.order_lost = True
    return SortedList(e, v)


def like(proto, terms):
    """A value of the shape of proto, of these terms."""
    if isinstance(proto, tuple):
        return tuple(like(x, terms) for x in proto)
    t = next(terms)
    return SRef(t, proto.cls) if isinstance(proto, SRef) else SNum(t)


def repeat_free(e, chs):
    """No item occurs twice."""
    for i, a in enumerate(chs):
        for j, b in enumerate(chs[i:]):
            ren = [(v, z3.Const(fresh_name("z"), v.sort())) for v in b.vars]
            if j == 0 and not ren:
                continue
            other = z3.Or(*[x != y for x, y in ren]) if j == 0 else z3.BoolVal(True)
            if e.check(And(zb(a.guard), subst(zb(b.guard), ren), other, zb(e.eq(a.value, subst_value(b.value, ren)))), 5000) != z3.unsat:
                return False
    return True


def placed(e, chs, key=None, ordered=False):
    """A list of pairwise distinct items, each once, as a function of the index: there is one, since the items are as
    many as the list is long.  Only for items of which the number is known (e.sizes).  ordered: by key."""
    if not chs:
        return None
    try:
        sorts = [[t.sort() for t in flat_terms(c.value)] for c in chs]
    except Unsupported:
        return None
    mixed = [z3.RealSort() if {x.name() for x in ss} == {"Int", "Real"} else ss[0] for ss in zip(*sorts)]
    if len({len(s) for s in sorts}) != 1 or any(not all(x == m or m == z3.RealSort() for x in ss) for m, ss in zip(mixed, zip(*sorts))):
        return None
    if not any([s.name() for s in ss] == [m.name() for m in mixed] for ss, _, _ in e.sizes):
        return None
    if not repeat_free(e, chs):
        return None
    proto = chs[0].value

    def member(*ts):
        V = like(proto, iter(ts))
        return zb(Or(*[exists(list(c.vars), zb(And(c.guard, e.eq(c.value, V)))) if c.vars else And(c.guard, e.eq(c.value, V)) for c in chs]))

    vs = [z3.Const(fresh_name("y"), s) for s in mixed]
    n = None
    for ss, fn, size in e.sizes:
        if [s.name() for s in ss] == [m.name() for m in mixed] and e.check(member(*vs) != zb(fn(*vs)), 5000) == z3.unsat:
            n, known = size, fn
            break
    else:
        return None
    fs = [z3.Function(fresh_name("item"), z3.IntSort(), s) for s in mixed]
    inv = z3.Function(fresh_name("place"), *mixed, z3.IntSort())
    dom = lambda i: z3.And(i >= 0, i < n)
    logic.bijection_n(fs, inv, dom, known)
    at = lambda k: like(proto, iter([f(lift_num(k)) for f in fs]))
    if ordered:
        def keys(i):
            x = at(SNum(i))
            if key is None:
                return flat_terms(x)
            e.push_binder([i])
            e.push_guard(dom(i))
            try:
                return flat_terms(e.call(key, [x]))
            finally:
                e.pop()
                e.pop()

        i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
        less = z3.BoolVal(key is not None)
        for a, b in reversed(list(zip(keys(i), keys(j)))):
            less = z3.Or(a < b, z3.And(a == b, less))
        e.add_fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), less)))
    r = SymList(norm_num(n), at)
    r.distinct = True
    return r


def flat_terms(x):
    """The scalar components of a value."""
    if isinstance(x, tuple):
        return [t for y in x for t in flat_terms(y)]
    if isinstance(x, SRef):
        return [x.e]
    if isinstance(x, Heap):
        return list(x.args())
    if is_num(x):
        return [lift_num(x)]
    raise Unsupported("ordering of these values")


class Pairs:
    """A sequence of pairs given once (zip of a sorted collection with its positions)."""

    def __init__(self, chs):
        self.chs = chs

    def chunks(self, e):
        out = []
        for c in self.chs:
            ren = [(v, z3.Const(fresh_name("z"), v.sort())) for v in c.vars]
            out.append(Chunk([b for _, b in ren], subst(c.guard, ren), subst_value(c.value, ren)))
        return out


class SortedList:
    """The elements of a collection in increasing order (as a family; position is not known)."""

    def __init__(self, e, v):
        self.v = v
        self.fn = None

    def chunks(self, e):
        return [Chunk(c.vars, c.guard, c.value) for c in e.iterate(self.v)]

    def contains(self, e, x):
        return e.contains(self.v, x)

    def length(self, e):
        return length(e, self.v)

    def rank(self, e, x):
        """Position of x: an injective function of the element, with values in 0..n-1 on the elements."""
        parts = flat_terms(x)
        if self.fn is None:
            self.fn = z3.Function(fresh_name("rank"), *[p.sort() for p in parts], z3.IntSort())
            logic.INJECTIVE.add(self.fn.name())
            vs = [z3.Const(fresh_name("x"), p.sort()) for p in parts]
            r = self.fn(*vs)
            for i, v in enumerate(vs):
                inv = z3.Function(fresh_name("rankinv"), z3.IntSort(), v.sort())
                e.add_fact(z3.ForAll(vs, inv(r) == v, patterns=[r]))
            self.at = lambda y: self.fn(*flat_terms(y))
        return SNum(self.fn(*parts))

    def ranked(self, e, rng):
        n = self.length(e)
        lo, m, step = (rng.lo, rng.length(e), rng.step) if isinstance(rng, SymRange) else (rng.start, len(rng), rng.step)
        if step != 1 or not e.entails(lift_num(n) == lift_num(m)):
            raise Unsupported("zip of a sorted collection with a range of another length")
        if isinstance(self.v, PList) and not repeat_free(e, e.iterate(self.v)):
            raise Unsupported("positions in a list that may repeat items")
        out = []
        for c in self.chunks(e):
            with e.in_chunk(c):
                r = self.rank(e, c.value)
                e.add_fact(z3.Implies(zb(c.guard), z3.And(r.e >= 0, r.e < lift_num(n))))
            out.append(Chunk(c.vars, c.guard, (c.value, num_op("+", r, lo) if lift_num(lo).eq(z3.IntVal(0)) is False else r)))
        return Pairs(out)

    def truth(self, e):
        return e.truth(self.v)


@bi("getattr")
def _getattr(e, a, k):
    n = a[1]
    if not isinstance(n, str):
        raise Unsupported("getattr with an unknown name")
    if len(a) > 2:
        return e.getattr(a[0], n, a[2], True)
    return e.getattr(a[0], n)


@bi("setattr")
def _setattr(e, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("setattr with an unknown name")
    e.setattr(a[0], a[1], a[2])


@bi("hasattr")
def _hasattr(e, a, k):
    v = e.force(a[0])
    if isinstance(v, PObj):
        f, _ = e.obj_get(v, a[1])
        if isinstance(v.cls, ClassVal) and e.find_member(v.cls, a[1])[1] is not None:
            return True
        return mk_bool(f)
    raise Unsupported("hasattr")


@bi("callable")
def _callable(e, a, k):
    return isinstance(e.force(a[0]), (FuncVal, BoundMethod, ModelFn, ClassVal))


@bi("iter")
def _iter(e, a, k):
    return a[0]


@bi("next")
def _next(e, a, k):
    raise Unsupported("next")


@bi("complex")
def _complex(e, a, k):
    raise Unsupported("complex")


# ---------------------------------------------------------------- methods of values
def value_attr(e, v, name):
    """(value,) or None."""
    if isinstance(v, str):
        if hasattr(str, name):
            def f(e, a, k, v=v):
                oks = [native(x) for x in a]
                if all(o[0] for o in oks):
                    r = getattr(v, name)(*[o[1] for o in oks])
                    return e.new_list(r) if isinstance(r, list) else r
                return Opaque("str")

            return (ModelFn("str." + name, f),)
    if isinstance(v, PList):
        m = LIST.get(name)
        if m:
            return (ModelFn("list." + name, lambda e, a, k: m(e, v, a, k)),)
    if isinstance(v, PSet):
        m = SET.get(name)
        if m:
            return (ModelFn("set." + name, lambda e, a, k: m(e, v, a, k)),)
    if isinstance(v, PDict):
        m = DICT.get(name)
        if m:
            return (ModelFn("dict." + name, lambda e, a, k: m(e, v, a, k)),)
    if isinstance(v, tuple):
        if name == "index":
            return (ModelFn("tuple.index", lambda e, a, k: list_index(e, e.new_list(v), a, k)),)
        if name == "count":
            raise Unsupported("tuple.count")
    if isinstance(v, np.ndarray):
        return np_attr(e, v, name)
    if isinstance(v, np.generic) and hasattr(v, name):
        x = getattr(v, name)
        if callable(x):
            return (ModelFn("numpy." + name, lambda e, a, k: x(*a)),)
        return (x,)
    if isinstance(v, SBool) and name == "astype":
        return (ModelFn("astype", lambda e, a, k: astype(e, v, a[0])),)
    if isinstance(v, SNum):
        if name == "item":
            return (ModelFn("item", lambda e, a, k: v),)
        if name == "real":
            return (v,)
        if name == "astype":
            return (ModelFn("astype", lambda e, a, k: astype(e, v, a[0])),)
    if isinstance(v, FuncVal) and name == "__name__":
        return (v.name,)
    if isinstance(v, BoundMethod) and name == "__self__":
        return (v.self_,)
    if isinstance(v, ModelFn):
        if name == "__name__":
            return (v.name.split(".")[-1],)
        sub = v.name + "." + name
        if sub in EXT:
            return (EXT_value(sub),)
    if isinstance(v, TypeOf) and name == "__name__":
        return (Opaque("type name"),)
    if hasattr(v, "getattr_model"):
        return v.getattr_model(e, name)
    return None


def list_index(e, l, a, k):
    p = e.plain(l)
    if p is None:
        raise Unsupported("index of a symbolic list")
    res, missing = None, True
    found = []
    for i, x in enumerate(p):
        q = And(missing, e.eq(x, a[0]))
        found.append((q, i))
        missing = And(missing, Not(e.eq(x, a[0])))
    e.do_raise("ValueError", "not in list", missing)
    res = len(p)
    for q, i in reversed(found):
        res = e.merge(q, i, res)
    return res


def list_pop(e, l, a, k):
    p = e.plain(l)
    vars, g = e.rel(l)
    if p is None or vars or not is_true(g):
        raise Unsupported("pop from a symbolic list")
    if not p:
        e.do_raise("IndexError", "pop from an empty list")
        return Poison("pop from an empty list")
    i = a[0] if a else -1
    v = l.store.data.pop(i)
    e.note_write(l, "items", Entry((), True, None))
    return v.value


def list_remove_family(e, l, x, vars, g):
    """Removal from a list without repeated items (or at least with x at most once)."""
    e.do_raise("ValueError", "not in list", Not(e.contains(l, x)))
    ents = e.ents(l)
    for i, en in enumerate(ents):
        a, q = e.fresh_entry(en)
        for j in range(i, len(ents)):
            b, r = e.fresh_entry(ents[j])
            other = z3.Or(*[u != v for u, v in zip(q, r)]) if i == j else z3.BoolVal(True)
            if e.check(And(zb(a.guard), zb(b.guard), other, zb(e.eq(a.value, x)), zb(e.eq(b.value, x))), 5000) != z3.unsat:
                raise Unsupported("remove from a list that may have the item more than once")
    data = []
    for en in l.store.data:
        f, q = e.fresh_entry(en)
        hit = exists(list(vars), zb(And(g, e.eq(f.value, x)))) if vars else And(g, e.eq(f.value, x))
        guard = e._simp(And(f.guard, Not(hit)))
        if not is_false(guard):
            data.append(Entry(q, guard, f.value))
    l.store.data[:] = data
    e.note_write(l, "items", Entry(tuple(vars), g, x))
    return None


def list_remove(e, l, a, k):
    p = e.plain(l)
    vars, g = e.rel(l)
    if p is None or vars or not is_true(g):
        return list_remove_family(e, l, a[0], vars, g)
    for i, x in enumerate(p):
        q = e.decide(e.eq(x, a[0]))
        if q is True:
            del l.store.data[i]
            e.note_write(l, "items", Entry((), True, None))
            return None
        if q is not False:
            raise Unsupported("remove of an undetermined element")
    e.do_raise("ValueError", "not in list")


def list_insert(e, l, a, k):
    vars, g = e.rel(l)
    if e.plain(l) is None or vars or not is_true(g) or not isinstance(a[0], int):
        raise Unsupported("insert")
    l.store.data.insert(a[0], Entry((), True, a[1]))


LIST = {
    "append": lambda e, l, a, k: e.list_append(l, a[0]),
    "extend": lambda e, l, a, k: e.list_extend(l, a[0]),
    "index": list_index,
    "pop": list_pop,
    "remove": list_remove,
    "insert": list_insert,
    "copy": lambda e, l, a, k: e.new_list(entries=list(e.ents(l))),
}


def set_of(e, x):
    x = e.force(x)
    return x if isinstance(x, PSet) else _set(e, [x], {})


def contains_set_op(op):
    def f(e, s, a, k):
        r = s
        for x in a:
            x = e.force(x)
            if op in "&-":
                ents = []
                for en in e.ents(r):
                    en, q = e.fresh_entry(en)
                    m = e.contains(x, en.value)
                    g = e._simp(And(en.guard, m if op == "&" else Not(m)))
                    if not is_false(g):
                        ents.append(Entry(q, g, en.value))
                r = e.new_set(entries=ents)
            else:
                r = e.set_op(op, r, set_of(e, x))
        if r is s:
            r = e.new_set(entries=list(e.ents(s)))
        return r

    return f


def set_update(e, s, a, k):
    for x in a:
        for c in e.iterate(x):
            e.set_add(s, c.value, c.vars, c.guard)


def set_discard(e, s, a, k, must=False):
    vars, g = e.rel(s)
    if vars:
        raise Unsupported("discard inside a symbolic loop")
    if must:
        e.do_raise("KeyError", "", Not(e.member(e.ents(s), a[0])))
    out = []
    for en in s.store.data:
        q = And(g, e.eq(en.value, a[0]))
        gg = e._simp(And(en.guard, Not(q)))
        if not is_false(gg):
            out.append(Entry(en.vars, gg, en.value))
    s.store.data = out
    e.note_write(s, "items", Entry((), True, None))


def set_pop(e, s, a, k):
    """An arbitrary element: a fresh value constrained to be a member."""
    ents = e.ents(s)
    vars, g = e.rel(s)
    if len(ents) == 1 and ents[0].plain():
        s.store.data = []
        return ents[0].value
    e.do_raise("KeyError", "pop from an empty set", Not(e.truth(s)))
    return arbitrary_member(e, ents)


def arbitrary_member(e, ents):
    """A value known only to be one of the entries."""
    shapes = {}
    for en in ents:
        shapes.setdefault(e.shape(en.value), en)
    if len(shapes) != 1 or None in shapes:
        raise Unsupported("arbitrary element of mixed elements")
    (sh, en), = shapes.items()
    act = [v for v in e.path_vars()]
    base, vs = e.fresh_of_shape(sh, en.value, "pick")
    # the choice may depend on everything that is in scope
    ren = []
    for v in vs:
        fn = z3.Function(fresh_name("pick"), *[x.sort() for x in act], v.sort()) if act else None
        ren.append((v, fn(*act) if act else z3.Const(fresh_name("pick"), v.sort())))
    val = subst_value(base, ren)
    fact = Or(Not(e.truth_nonempty([e.chunk_of(x) for x in ents])), e.member(ents, val))
    if act and not is_true(fact):
        fact = Or(Not(e.path_formula()), fact)
        for _, x in ren:
            logic.DEFS[x.decl().name()] = (act, fact)
    else:
        e.add_fact(fact)
    return val


SET = {
    "add": lambda e, s, a, k: e.set_add(s, a[0]),
    "update": set_update,
    "intersection": contains_set_op("&"),
    "difference": contains_set_op("-"),
    "union": contains_set_op("|"),
    "symmetric_difference": contains_set_op("^"),
    "symmetric_difference_update": lambda e, s, a, k: (e.inplace(ast.BitXor, s, a[0] if isinstance(e.force(a[0]), PSet) else _set(e, [a[0]], {})), None)[1],
    "discard": set_discard,
    "remove": lambda e, s, a, k: set_discard(e, s, a, k, True),
    "pop": set_pop,
    "copy": lambda e, s, a, k: e.new_set(entries=list(e.ents(s))),
    "issubset": lambda e, s, a, k: mk_bool(e.subset(s, set_of(e, a[0]))),
}


def dict_get_m(e, d, a, k):
    default = a[1] if len(a) > 1 else k.get("default")
    f, v = e.dict_get(d, a[0])
    if is_false(f):
        return default
    if is_true(f):
        return v
    return e.merge(f, v, default)


def dict_update(e, d, o):
    o = e.force(o)
    if isinstance(o, PDict):
        for en in e.alive(e.ents(o)):
            en, q = e.fresh_entry(en)
            e.dict_set(d, en.key, en.value, q, en.guard)
        return
    if o is None:
        raise Unsupported("update from None")
    raise Unsupported("dict.update")


def delitem(e, v, i):
    if isinstance(v, PDict):
        f, _ = e.dict_get(v, i)
        e.do_raise("KeyError", "", Not(f))
        dict_del(e, v, i)
        return
    if hasattr(v, "delitem"):
        return v.delitem(e, i)
    raise Unsupported("del of an item")


def dict_del(e, d, key):
    vars, g = e.rel(d)
    if not vars and is_true(g) and all(en.plain() for en in d.store.data):
        out = []
        for en in d.store.data:
            q = e.decide(e.eq(en.key, key))
            if q is True:
                continue
            if q is False:
                out.append(en)
            else:
                out.append(Entry((), Not(q), en.value, key=en.key))
        d.store.data = out
        e.note_write(d, "items", Entry((), True, None, key=key))
        return
    en = Entry(tuple(vars), g, None, key=key, op="del")
    d.store.data.append(en)
    e.note_write(d, "items", en)


def dict_pop(e, d, a, k):
    f, v = e.dict_get(d, a[0])
    if len(a) < 2:
        e.do_raise("KeyError", "", Not(f))
        dict_del(e, d, a[0])
        return v
    dict_del(e, d, a[0])
    return a[1] if is_false(f) else e.merge(f, v, a[1])


def dict_setdefault(e, d, a, k):
    f, v = e.dict_get(d, a[0])
    f = e.decide(f)
    if f is True:
        return v
    default = a[1] if len(a) > 1 else None
    if f is False:
        e.dict_set(d, a[0], default)
        return default
    with e.guard(Not(f)):
        e.dict_set(d, a[0], default)
    return e.merge(f, v, default)


DICT = {
    "get": dict_get_m,
    "items": lambda e, d, a, k: Chunks(lambda e: e.dict_item_chunks(d), what="items"),
    "keys": lambda e, d, a, k: Chunks(lambda e: e.dict_key_chunks(d), what="keys", contains=lambda e, x: e.contains(d, x)),
    "values": lambda e, d, a, k: Chunks(
        lambda e: [Chunk(c.vars, c.guard, c.value[1]) for c in e.dict_item_chunks(d)], what="values"
    ),
    "update": lambda e, d, a, k: ([dict_update(e, d, x) for x in a], [e.dict_set(d, x, y) for x, y in k.items()], None)[2],
    "pop": dict_pop,
    "setdefault": dict_setdefault,
    "copy": lambda e, d, a, k: e.new_dict(entries=list(e.ents(d))),
}


def list_finish(e, l):
    return l


def symlist_getitem(e, l, i):
    """Indexing of a list whose items are in a known order."""
    s = in_some_order(e, l)
    return None if s is None else (s.getitem(e, i),)


def in_some_order(e, l):
    """The list as a function of the index, whatever the order of its items."""
    s = ordered(e, l)
    if s is None and e.sizes and not l.store.params:
        n = (l.store.meta.get("mut", 0), len(l.store.data))
        if l.store.meta.get("placed", (None,))[0] != n:
            l.store.meta["placed"] = (n, placed(e, e.iterate(l)))
        s = l.store.meta["placed"][1]
    return s


def ordered(e, l):
    """The list as a function of the index, if the order of its items is known."""
    parts = []
    for en in e.ents(l):
        if en.plain():
            parts.append((z3.IntVal(1), lambda k, x=en.value: x))
            continue
        if not en.vars and en.op != "del":
            # an item that is there under a condition
            g = e.decide(en.guard)
            if g is False:
                continue
            parts.append((z3.IntVal(1) if g is True else z3.If(zb(g), z3.IntVal(1), z3.IntVal(0)), lambda k, x=en.value: x))
            continue
        if en.rng is None or len(en.vars) != 1 or en.vars[0].get_id() in e.active():
            return None
        lo, hi, st = en.rng
        d = hi - lo if st > 0 else lo - hi
        n = z3.simplify(d if abs(st) == 1 else (d + (abs(st) - 1)) / abs(st))
        if not e.entails(n >= 0):
            n = z3.If(n >= 0, n, z3.IntVal(0))
        parts.append((n, lambda k, x=en.value, v=en.vars[0], lo=lo, st=st: subst_value(x, [(v, z3.simplify(lo + st * k))])))
    n = z3.simplify(sum([p[0] for p in parts], z3.IntVal(0)))

    def at(i):
        k, res, off = lift_num(i), None, n
        for m, f in reversed(parts):
            off = z3.simplify(off - m)
            x = f(z3.simplify(k - off))
            res = x if res is None else e.merge(k >= off + m, res, x)
        return res

    return SymList(norm_num(n), at)


# ---------------------------------------------------------------- graphs (networkx)
class EdgeKey:
    """An undirected edge."""

    def __init__(self, u, v):
        self.u, self.v = u, v

    def eq_value(self, e, o):
        if not isinstance(o, EdgeKey):
            return False
        return Or(And(e.eq(self.u, o.u), e.eq(self.v, o.v)), And(e.eq(self.u, o.v), e.eq(self.v, o.u)))

    def subst(self, pairs):
        return EdgeKey(subst_value(self.u, pairs), subst_value(self.v, pairs))

    def vars_of(self, acc):
        value_vars(self.u, acc)
        value_vars(self.v, acc)

    def __repr__(self):
        return f"Edge({self.u},{self.v})"


def new_graph(e, cls, attrs=()):
    g = e.new_obj(cls)
    init_graph(e, g, attrs)
    return g


def init_graph(e, g, attrs=()):
    st = g.store
    st.meta["graph"] = True
    st.data.setdefault("graph", [Entry((), True, e.new_dict(list(attrs)))])
    st.data.setdefault("%nodes", [])
    st.data.setdefault("%edges", [])


def facet_ents(e, g, facet):
    return e.inst(g, g.store.data.get(facet, []))


def graph_read(e, g, facet, key):
    return e.read(g, g.store.data.get(facet, []), key, facet)


def graph_write(e, g, facet, key, value, commut=False, vars0=(), guard0=True):
    vars, gd = e.rel(g)
    en = Entry(tuple(vars) + tuple(vars0), And(gd, guard0), value, key=key)
    lst = g.store.data.setdefault(facet, [])
    if en.plain():
        for n, o in enumerate(lst):
            if o.plain() and is_true(e.eq(o.key, key)) and n == len(lst) - 1:
                lst[n] = en
                break
        else:
            lst.append(en)
    else:
        lst.append(en)
    e.note_write(g, facet, en, commut=commut)


def graph_has_node(e, g, n):
    f, _ = graph_read(e, g, "%nodes", n)
    return f


def graph_has_edge(e, g, u, v):
    f, _ = graph_read(e, g, "%edges", EdgeKey(u, v))
    return f


def graph_node_chunks(e, g):
    ents = facet_ents(e, g, "%nodes")
    e.note_read(g, "%nodes")
    if "node_chunks" in g.store.meta:
        return g.store.meta["node_chunks"](e, g)
    return e.set_chunks([Entry(en.vars, en.guard, en.key) for en in e.alive(ents)])


def attr_items(e, attrs):
    """(presence, name, value) of keyword attributes; ** of attribute views and dictionaries included."""
    for a, v in attrs.items():
        if a != "**":
            yield True, a, v
            continue
        for d in v:
            if isinstance(d, AttrView) and not d.g.store.meta.get("attr_hook"):
                for f in list(d.g.store.data):
                    if f.startswith(d.prefix):
                        fd, x = d.get(e, f[len(d.prefix):])
                        if not is_false(fd):
                            yield fd, f[len(d.prefix):], x
            elif isinstance(d, PDict) and all(not en.vars and isinstance(en.key, str) and en.op != "del" for en in e.ents(d)):
                for en in e.ents(d):
                    yield en.guard, en.key, en.value
            else:
                raise Unsupported("** of a symbolic dict")


def graph_add_node(e, g, n, attrs):
    e.check_hashable(n)
    graph_write(e, g, "%nodes", n, True, commut=True)
    for p, a, v in attr_items(e, attrs):
        with e.guard(p):
            graph_write(e, g, "%nattr:" + a, n, v)


def graph_add_edge(e, g, u, v, attrs):
    graph_write(e, g, "%nodes", u, True, commut=True)
    graph_write(e, g, "%nodes", v, True, commut=True)
    graph_write(e, g, "%edges", EdgeKey(u, v), True, commut=True)
    for p, a, x in attr_items(e, attrs):
        with e.guard(p):
            graph_write(e, g, "%eattr:" + a, EdgeKey(u, v), x)


def node_count(e, g):
    if "order" in g.store.meta:
        return g.store.meta["order"]
    ents = g.store.data["%nodes"]
    k = (len(ents), id(ents[-1]) if ents else 0, tuple(a.get_id() for a in g.args()))
    c = g.store.meta.get("count")
    if c is None or c[0] != k:
        c = (k, count_chunks(e, graph_node_chunks(e, g)), list(ents))
        g.store.meta["count"] = c
    return c[1]


class AttrView:
    """The attribute dictionary of a node or an edge."""

    def __init__(self, g, prefix, key, data=None):
        self.g, self.prefix, self.key = g, prefix, key

    def subst(self, pairs):
        return AttrView(subst_value(self.g, pairs), self.prefix, subst_value(self.key, pairs))

    def vars_of(self, acc):
        value_vars(self.key, acc)

    def get(self, e, a):
        if not isinstance(a, str):
            raise Unsupported("attribute name")
        hook = self.g.store.meta.get("attr_hook")
        if hook:
            r = hook(e, self, a)
            if r is not None:
                return r
        return graph_read(e, self.g, self.prefix + a, self.key)

    def getitem(self, e, a):
        f, v = self.get(e, a)
        e.do_raise("KeyError", f"no attribute {a}", Not(f))
        return Poison(f"missing attribute {a}") if is_false(f) else v

    def setitem(self, e, a, val):
        if not isinstance(a, str):
            raise Unsupported("attribute name")
        graph_write(e, self.g, self.prefix + a, self.key, val)

    def contains(self, e, a):
        return self.get(e, a)[0]

    def getattr_model(self, e, name):
        if name == "get":
            def f(e, a, k):
                fd, v = self.get(e, a[0])
                d = a[1] if len(a) > 1 else None
                return d if is_false(fd) else e.merge(fd, v, d)

            return (ModelFn("dict.get", f),)
        if name == "update":
            def f(e, a, k):
                for x in a:
                    x = e.force(x)
                    for en in e.ents(x):
                        if not isinstance(en.key, str):
                            raise Unsupported("update")
                        with e.guard(en.guard):
                            self.setitem(e, en.key, en.value)
                for n, v in k.items():
                    self.setitem(e, n, v)

            return (ModelFn("dict.update", f),)
        if name == "pop":
            raise Unsupported("pop of an attribute")
        return None


class NodeView:
    def __init__(self, g, data=False):
        self.g, self.data = g, data

    def getitem(self, e, n):
        e.do_raise("KeyError", "no such node", Not(graph_has_node(e, self.g, n)))
        return AttrView(self.g, "%nattr:", n)

    def chunks(self, e):
        cs = graph_node_chunks(e, self.g)
        if self.data is False:
            return cs
        if self.data is True:
            return [Chunk(c.vars, c.guard, (c.value, AttrView(self.g, "%nattr:", c.value))) for c in cs]
        out = []
        for c in cs:
            with e.in_chunk(c):
                f, v = graph_read(e, self.g, "%nattr:" + self.data, c.value)
                v = None if is_false(f) else e.merge(f, v, None)
            out.append(Chunk(c.vars, c.guard, (c.value, v)))
        return out

    def contains(self, e, n):
        return graph_has_node(e, self.g, n)

    def length(self, e):
        return node_count(e, self.g)

    def truth(self, e):
        return e.truth_nonempty(graph_node_chunks(e, self.g))

    def call_value(self, e, a, k):
        d = a[0] if a else k.get("data", False)
        return NodeView(self.g, d)

    def getattr_model(self, e, name):
        if name == "data":
            return (ModelFn("nodes.data", lambda e, a, k: NodeView(self.g, a[0] if a else k.get("data", True))),)
        if name == "items":
            return (ModelFn("nodes.items", lambda e, a, k: NodeView(self.g, True)),)
        if name == "keys":
            return (ModelFn("nodes.keys", lambda e, a, k: NodeView(self.g)),)
        if name == "values":
            return (ModelFn("nodes.values", lambda e, a, k: Chunks(lambda e: [Chunk(c.vars, c.guard, c.value[1]) for c in NodeView(self.g, True).chunks(e)])),)
        return None


class EdgeView:
    def __init__(self, g, data=False):
        self.g, self.data = g, data

    def getitem(self, e, ed):
        u, v = e.unpack(ed)[:2]
        e.do_raise("KeyError", "no such edge", Not(graph_has_edge(e, self.g, u, v)))
        return AttrView(self.g, "%eattr:", EdgeKey(u, v))

    def chunks(self, e):
        if "edge_chunks" in self.g.store.meta:
            cs = self.g.store.meta["edge_chunks"](e, self.g)
        else:
            cs = edge_chunks(e, self.g)
        if self.data is False:
            return cs
        if self.data is True:
            return [Chunk(c.vars, c.guard, c.value + (AttrView(self.g, "%eattr:", EdgeKey(*c.value)),)) for c in cs]
        out = []
        for c in cs:
            with e.in_chunk(c):
                f, v = graph_read(e, self.g, "%eattr:" + self.data, EdgeKey(*c.value))
                v = None if is_false(f) else e.merge(f, v, None)
            out.append(Chunk(c.vars, c.guard, c.value + (v,)))
        return out

    def contains(self, e, ed):
        u, v = e.unpack(ed)
        return graph_has_edge(e, self.g, u, v)

    def length(self, e):
        return count_chunks(e, self.chunks(e))

    def truth(self, e):
        return e.truth_nonempty(self.chunks(e))

    def call_value(self, e, a, k):
        if a and not isinstance(a[0], bool):
            n = a[0]
            return Chunks(lambda e: [Chunk(c.vars, c.guard, (n, c.value)) for c in neighbor_chunks(e, self.g, n)])
        return EdgeView(self.g, a[0] if a else k.get("data", False))


def edge_chunks(e, g):
    """Every edge once, in some orientation."""
    ents = facet_ents(e, g, "%edges")
    e.note_read(g, "%edges")
    out = []
    done = []
    for en in ents:
        if en.op == "del":
            raise Unsupported("iteration over edges after removals")
        en, q = e.fresh_entry(en)
        key = en.key
        guard = en.guard
        for o in done:
            guard = e._simp(And(guard, Not(_edge_member(e, [o], key))))
        if is_false(guard):
            continue
        if q and not e.injective(q, (key.u, key.v)) and not determined(e, q, guard, key):
            raise Unsupported("iteration over edges that are not determined by their ends")
        if q:
            # the same edge in both orientations within one family?
            ren = [(v, z3.Const(fresh_name("o"), v.sort())) for v in q]
            k2 = key.subst(ren)
            both = And(guard, subst(zb(guard), ren), e.eq(key.u, k2.v), e.eq(key.v, k2.u))
            if e.check(both) != z3.unsat:
                raise Unsupported("edges may occur in both orientations")
        out.append(Chunk(q, guard, (key.u, key.v)))
        done.append(en)
    return out


def determined(e, q, guard, key):
    """The ends of the edge determine the bound variables."""
    ren = [(v, z3.Const(fresh_name("o"), v.sort())) for v in q]
    k2 = key.subst(ren)
    return e.check(And(guard, subst(zb(guard), ren), e.eq(key.u, k2.u), e.eq(key.v, k2.v), Or(*[a != b for a, b in ren]))) == z3.unsat


def _edge_member(e, ents, key):
    fs = []
    for en in ents:
        en, q = e.fresh_entry(Entry(en.vars, en.guard, True, key=en.key), keep_active=False) if False else (en, ())
        ren = [(v, z3.Const(fresh_name("m"), v.sort())) for v in en.vars]
        f = And(subst(zb(en.guard), ren), e.eq(en.key.subst(ren), key))
        fs.append(exists([b for _, b in ren], zb(f)) if ren else f)
    return Or(*fs)


def neighbor_chunks(e, g, n):
    if "neighbor_chunks" in g.store.meta:
        return g.store.meta["neighbor_chunks"](e, g, n)
    e.note_read(g, "%edges")
    ents = facet_ents(e, g, "%edges")
    nodes = facet_ents(e, g, "%nodes")
    if all(en.plain() for en in ents):
        out = []
        for en in ents:
            for a, b in ((en.key.u, en.key.v), (en.key.v, en.key.u)):
                q = e.eq(a, n)
                if not is_false(q):
                    out.append(Entry((), q, b))
        return e.set_chunks(out)
    shapes = {}
    for en in nodes:
        shapes.setdefault(e.shape(en.key), en)
    out = []
    for sh, en in shapes.items():
        if sh is None:
            raise Unsupported("neighbours in a graph of mixed nodes")
        w, vs = e.fresh_of_shape(sh, en.key, "nb")
        out.append(Chunk(vs, e._simp(graph_has_edge(e, g, n, w)), w))
    return out


class Adj:
    def __init__(self, g, n):
        self.g, self.n = g, n

    def chunks(self, e):
        return neighbor_chunks(e, self.g, self.n)

    def length(self, e):
        return count_chunks(e, neighbor_chunks(e, self.g, self.n))

    def contains(self, e, x):
        return graph_has_edge(e, self.g, self.n, x)

    def getitem(self, e, x):
        e.do_raise("KeyError", "no such edge", Not(graph_has_edge(e, self.g, self.n, x)))
        return AttrView(self.g, "%eattr:", EdgeKey(self.n, x))

    def truth(self, e):
        return e.truth_nonempty(neighbor_chunks(e, self.g, self.n))


def graph_getitem(e, g, n):
    e.do_raise("KeyError", "no such node", Not(graph_has_node(e, g, n)))
    return Adj(g, n)


def graph_remove_node(e, g, n):
    e.do_raise("NetworkXError", "no such node", Not(graph_has_node(e, g, n)))
    for facet in ("%nodes",):
        vars, gd = e.rel(g)
        if vars or not is_true(gd):
            raise Unsupported("a node removed in a loop or a branch")
        en = Entry(tuple(vars), gd, None, key=n, op="del")
        g.store.data[facet].append(en)
        e.note_write(g, facet, en)
    g.store.meta.setdefault("removed", []).append(n)
    en = Entry((), True, None, key=NodeStar(n), op="del")
    g.store.data["%edges"].append(en)
    for f in list(g.store.data):
        if f.startswith("%eattr:"):
            g.store.data[f].append(Entry((), True, None, key=NodeStar(n), op="del"))
        if f.startswith("%nattr:"):
            g.store.data[f].append(Entry((), True, None, key=n, op="del"))


class NodeStar(EdgeKey):
    """All edges at a node (used to delete them)."""

    def __init__(self, n):
        self.n = n

    def eq_value(self, e, o):
        if isinstance(o, EdgeKey) and not isinstance(o, NodeStar):
            return Or(e.eq(self.n, o.u), e.eq(self.n, o.v))
        return False

    def subst(self, pairs):
        return NodeStar(subst_value(self.n, pairs))

    def vars_of(self, acc):
        value_vars(self.n, acc)


class SubGraph:
    pass


def graph_subgraph(e, g, nodes):
    """Induced subgraph view: a graph object that shares the attributes of g."""
    s = e.new_obj(g.cls)
    s.store.meta["graph"] = True
    s.store.meta["view_of"] = g
    s.store.data["%view_nodes"] = [Entry((), True, nodes)]
    ents = []
    for c in e.iterate(nodes):
        ents.append(Entry(c.vars, And(c.guard, graph_has_node(e, g, c.value)), True, key=c.value))
    s.store.data["%nodes"] = ents
    s.store.data["%edges"] = []

    def hook(e2, view, a):
        gg = s.store.meta["view_of"]
        gg = subst_ref(e2, view.g, gg)
        if view.prefix == "%nattr:":
            return graph_read(e2, gg, "%nattr:" + a, view.key)
        return graph_read(e2, gg, "%eattr:" + a, view.key)

    s.store.meta["attr_hook"] = hook
    return s


def subst_ref(e, h, g):
    if h.map is None:
        return g
    return subst_value(g, [(p, a) for p, a in zip(h.store.params, h.args())])


def obj_attr(e, o, name):
    m = o.store.meta
    if "graph" in m:
        if name in ("nodes", "_node"):
            return (NodeView(o),)
        if name == "edges":
            return (EdgeView(o),)
        if name == "adj":
            return (Chunks(lambda e: graph_node_chunks(e, o)),)
    if "attr" in m:
        return m["attr"](e, o, name)
    return None


def obj_setattr(e, o, name, val):
    return False


GRAPH_METHODS = {
    "add_node": lambda e, g, a, k: graph_add_node(e, g, a[0], k),
    "add_edge": lambda e, g, a, k: graph_add_edge(e, g, a[0], a[1], k),
    "remove_node": lambda e, g, a, k: graph_remove_node(e, g, a[0]),
    "has_node": lambda e, g, a, k: mk_bool(graph_has_node(e, g, a[0])),
    "has_edge": lambda e, g, a, k: mk_bool(graph_has_edge(e, g, a[0], a[1])),
    "neighbors": lambda e, g, a, k: Adj(g, a[0]),
    "order": lambda e, g, a, k: NodeView(g).length(e),
    "number_of_nodes": lambda e, g, a, k: NodeView(g).length(e),
    "subgraph": lambda e, g, a, k: graph_subgraph(e, g, a[0]),
}


def graph_copy(e, g):
    """nx.Graph.copy of a plain graph: its own nodes and edges, the same attribute values."""
    if not isinstance(g.cls, (ExtModule, ModelFn)) or "view_of" in g.store.meta or "attr_hook" in g.store.meta:
        raise Unsupported("copy of this graph")
    c = new_graph(e, g.cls)
    for f in g.store.data:
        if f.startswith("%"):
            c.store.data[f] = list(facet_ents(e, g, f))
    for m in ("node_chunks", "edge_chunks", "neighbor_chunks", "order"):
        if m in g.store.meta:
            raise Unsupported("copy of this graph")
    return c


def graph_remove_nodes_from(e, g, a, k):
    for x in e.unpack(a[0]):
        if not e.entails(zb(graph_has_node(e, g, x))):
            raise Unsupported("removal of nodes that may not be there")
        graph_remove_node(e, g, x)


def graph_add_edges_from(e, g, a, k):
    for c in e.iterate(a[0]):
        items = e.chunk_items(c)
        for it in items:
            e.push_item(it)
        t = e.unpack(c.value)
        graph_add_edge(e, g, t[0], t[1], k)
        for it in items:
            e.pop()


def graph_add_nodes_from(e, g, a, k):
    for c in e.iterate(a[0]):
        items = e.chunk_items(c)
        for it in items:
            e.push_item(it)
        graph_add_node(e, g, c.value, k)
        for it in items:
            e.pop()


GRAPH_METHODS["copy"] = lambda e, g, a, k: graph_copy(e, g)
GRAPH_METHODS["remove_nodes_from"] = graph_remove_nodes_from
GRAPH_METHODS["add_edges_from"] = graph_add_edges_from
GRAPH_METHODS["add_nodes_from"] = graph_add_nodes_from


def copy_graph(e, dst, src):
    """nx.Graph(other): nodes, edges and attributes are copied (attribute dictionaries one level deep)."""
    for f, ents in src.store.data.items():
        if f.startswith("%"):
            dst.store.data[f] = list(ents)
    _, gd = e.obj_get(src, "graph")
    dst.store.data["graph"] = [Entry((), True, e.new_dict(entries=list(e.ents(gd))))]
    for m in ("node_chunks", "edge_chunks", "neighbor_chunks", "order"):
        if m in src.store.meta:
            dst.store.meta[m] = src.store.meta[m]


def graph_init(e, g, a, k):
    init_graph(e, g)
    if a and e.force(a[0]) is not None:
        src = e.force(a[0])
        if isinstance(src, PObj) and "graph" in src.store.meta:
            copy_graph(e, g, src)
        else:
            raise Unsupported("graph from data")
    gd = e.obj_get(g, "graph")[1]
    for n, v in k.items():
        e.dict_set(gd, n, v)


def base_method(e, cls, name, obj):
    n = getattr(cls, "name", None)
    if n == "networkx.Graph":
        if name == "__init__":
            return ModelFn("networkx.Graph", lambda e, a, k: graph_init(e, obj, a, k))
        m = GRAPH_METHODS.get(name)
        if m:
            return ModelFn("networkx.Graph." + name, lambda e, a, k: m(e, obj, a, k))
        return None
    m = CLASS_METHODS.get(n)
    if m and name in m:
        f = m[name]
        return ModelFn(f"{n}.{name}", lambda e, a, k: f(e, obj, a, k))
    if name == "__init__":
        return ModelFn("object.__init__", lambda e, a, k: None)
    return None


CLASS_METHODS = {}


def base_init(e, cls, o):
    if getattr(cls, "name", None) == "networkx.Graph":
        init_graph(e, o)


# ---------------------------------------------------------------- external modules
EXT = {}


def ext(name):
    def d(f):
        EXT[name] = f
        return f

    return d


CONST = {
    "numpy.pi": None,
    "sys.float_info": None,
}


def EXT_value(full):
    f = EXT[full]
    if callable(f):
        return ModelFn(full, f)
    return f


ALIAS = {"np": "numpy", "nx": "networkx", "rx": "rustworkx"}


def ext_attr(e, mod, name):
    full = f"{mod.name}.{name}"
    if full in e.ext_contracts:
        return e.ext_contracts[full]
    if full in EXT:
        return EXT_value(full)
    if full == "numpy.pi":
        return SNum(PI) if e.symbolic_pi else np.pi
    if full == "numpy.newaxis":
        return None
    if mod.name in ("typing", "abc", "warnings", "matplotlib", "matplotlib.pyplot", "logging", "argparse"):
        return Opaque(full)
    if mod.name == "numpy" and name in NP_TYPES:
        return ModelFn(full, np_type_call(name))
    if mod.name == "numpy" and hasattr(np, name):
        x = getattr(np, name)
        if isinstance(x, (int, float, type(None))):
            return x
        if callable(x) and not isinstance(x, type):
            return ModelFn(full, np_native(name))
    if full in SUBMODULES:
        return ExtModule(full)
    return ModelFn(full, _unmodelled(full))


def _unmodelled(full):
    def f(e, a, k):
        raise Unsupported(f"call of {full}, which has no model")

    return f


SUBMODULES = {"numpy.random", "numpy.linalg", "scipy.sparse", "scipy.special", "networkx.algorithms", "networkx.linalg",
              "networkx.algorithms.shortest_paths"}
NP_TYPES = {"integer", "int8", "int16", "int32", "int64", "float64", "float32", "bool_", "ndarray", "floating", "number",
            "uint8", "str_"}


def np_type_call(name):
    def f(e, a, k):
        if name.startswith("int") or name.startswith("uint"):
            return _int(e, a, k)
        if name.startswith("float"):
            return _float(e, a, k)
        raise Unsupported("numpy type call")

    return f


def np_native(name):
    def f(e, a, k):
        m = NPM.get(name)
        if m is not None:
            r = m(e, a, k)
            if r is not NotImplemented:
                return r
        oka = [native(x) for x in a]
        okk = {n: native(v) for n, v in k.items()}
        if all(o[0] for o in oka) and all(o[0] for o in okk.values()):
            r = getattr(np, name)(*[o[1] for o in oka], **{n: v[1] for n, v in okk.items()})
            return from_native(e, r)
        for j, x in enumerate(a):
            if isinstance(x, GU):
                y = e.force(x)
                if not isinstance(y, GU):
                    return f(e, [*a[:j], y, *a[j + 1:]], k)
                return e.lift(y, lambda z: f(e, [*a[:j], z, *a[j + 1:]], k))
        raise Unsupported(f"numpy.{name} of symbolic values")

    return f


def from_native(e, r):
    if isinstance(r, tuple):
        return tuple(from_native(e, x) for x in r)
    if isinstance(r, list):
        return e.new_list([from_native(e, x) for x in r])
    return r


NPM = {}


def npm(name):
    def d(f):
        NPM[name] = f
        return f

    return d


def arr(vals, shape=None):
    out = np.empty(len(vals) if shape is None else shape, dtype=object)
    if shape is None:
        for i, v in enumerate(vals):
            out[i] = v
    else:
        for i, v in zip(np.ndindex(*shape), vals):
            out[i] = v
    return out


def to_array(e, v):
    """A numpy array for a value of known shape, else None."""
    v = e.force(v)
    if isinstance(v, np.ndarray):
        return v
    ok, x = native(v)
    if ok and not isinstance(x, (str, type(None))):
        return np.array(x)
    if isinstance(v, (tuple, PList)):
        items = list(v) if isinstance(v, tuple) else e.plain(v)
        if items is None:
            return None
        if not items:
            return np.array([])
        subs = [to_array(e, x) if isinstance(x, (tuple, PList, np.ndarray)) else x for x in items]
        if any(isinstance(s, np.ndarray) for s in subs):
            shp = subs[0].shape
            if any(not isinstance(s, np.ndarray) or s.shape != shp for s in subs):
                return None
            out = np.empty((len(subs),) + shp, dtype=object)
            for i, s in enumerate(subs):
                for j in np.ndindex(*shp):
                    out[(i,) + j] = s[j]
            return out
        subs = [e.force(s) for s in subs]
        if all(is_num(s) for s in subs):
            return arr(subs)
        if all(is_num(s) or s is None or isinstance(s, GU) and all(is_num(x) or x is None for _, x in s.alts) for s in subs):
            return arr(subs)
    if is_num(v):
        out = np.empty((), dtype=object)
        out[()] = v
        return out
    return None


@npm("array")
def _np_array(e, a, k):
    v = e.force(a[0])
    if isinstance(v, GU):
        return e.lift(v, lambda x: _np_array(e, [x], k))
    r = None
    p = e.plain(v) if isinstance(v, PList) else None
    if p is not None and len(p) == 1 and isinstance(p[0], SymArr) and not k and len(a) == 1:
        if not e.entails(lift_num(p[0].n) == 1):
            raise Unsupported("array of rows")
        return Rows1(SymArr(p[0].n, p[0].at))
    if getattr(v, "is_array", False):
        r = v.copy_array(e) if hasattr(v, "copy_array") else v
    elif isinstance(v, np.ndarray):
        r = v.copy()
    elif hasattr(v, "to_array"):
        r = v.to_array(e)
    else:
        r = to_array(e, v)
        if r is None and isinstance(v, SymRange):
            v = as_symlist(e, v)
        if r is None and isinstance(v, SymList):
            r = SymArr(v.n, v.at)
        if r is None and isinstance(v, SortedList) and isinstance(v.v, PSet):
            v = _list(e, [v.v], {})
        if r is None and isinstance(v, PList):
            r = listed_set(e, v)
    if r is None:
        return NotImplemented
    t = k.get("dtype", a[1] if len(a) > 1 else None)
    if isinstance(r, SymArr) and t is not None:
        n = getattr(t, "name", str(t))
        if n != "object":
            r = astype(e, r, t)
        r.whole = "int" in n or "bool" in n
    return r


@npm("asarray")
def _np_asarray(e, a, k):
    v = e.force(a[0])
    if isinstance(v, (SymArr, np.ndarray)) and len(a) == 1 and not k:
        return v
    return _np_array(e, a, k)


def listed_set(e, l):
    """An array of the members of a finite set of integers, in unknown order."""
    src = l.store.meta.get("set")
    if src is None or len(src) != len(l.store.data) or any(x is not y for x, y in zip(src, l.store.data)):
        s = ordered(e, l)
        if s is not None:
            return SymArr(s.n, s.at)
        es = e.ents(l)
        if len(es) != 1 or not e.injective(es[0].vars, es[0].value):
            return None
    if e.path_vars():
        raise Unsupported("array of a set inside of a symbolic loop")
    ents = e.ents(l)
    if any(e.shape(x.value) != "i" for x in ents):
        raise Unsupported("array of a set of other values")
    n = z3.Int(fresh_name("size"))
    f = z3.Function(fresh_name("listed"), z3.IntSort(), z3.IntSort())
    pos = z3.Function(fresh_name("place"), z3.IntSort(), z3.IntSort())
    x = z3.Int(fresh_name("x"))
    mem = e._simp(e.member(ents, SNum(x)))
    e.add_fact(n >= 0)
    logic.bijection(f, pos, lambda k: And(k >= 0, k < n), lambda y: subst(zb(mem), [(x, y)]))
    return SymArr(SNum(n), lambda k: SNum(f(lift_num(k))))


def is_mask(a):
    x = a.at(SNum(z3.Int(fresh_name("j"))))
    return isinstance(x, (bool, SBool, np.bool_))


def index_terms(e, n, i):
    """The places selected by an index array (all known to be in range), as a function of the position."""
    k = z3.Int(fresh_name("k"))
    x = i.at(SNum(k))
    if not is_num(x) or lift_num(x).sort() != z3.IntSort():
        raise Unsupported("index array of other values")
    x = lift_num(x)
    if not e.entails(z3.Implies(z3.And(k >= 0, k < lift_num(i.n)), z3.And(x >= 0, x < lift_num(n)))):
        raise Unsupported("index array that may leave the range")
    return i.at


def put_item(e, c, new, old):
    c = e.decide(c)
    if c is False:
        return old
    if c is True:
        return new()
    with e.guard(c):
        v = new()
    return e.merge(c, v, old)


def reshape_method(v):
    return ModelFn("reshape", lambda e, a, k: _np_reshape(e, [v, *a], k))


class SymArr(Indexed_):
    """A one-dimensional array of symbolic length: elements by index."""

    is_array = True
    ndim = 1

    def __init__(self, n, at):
        self.n, self.at = n, at

    def length(self, e):
        return self.n

    def elem(self, e, i):
        return self.at(i)

    def as_symlist(self, e):
        return SymList(self.n, self.at)

    def copy_array(self, e):
        return SymArr(self.n, self.at)

    def chunks(self, e):
        return SymList(self.n, self.at).chunks(e)

    def as_list(self, e):
        return SymList(self.n, self.at)

    whole = False  # an integer array: assigned numbers are truncated
    shares = False  # a view, or an array with views: assignments would show in both

    def getitem(self, e, i):
        at = self.at
        if isinstance(i, slice):
            r = SymList(self.n, at).getitem(e, i)
            r = SymArr(r.n, r.at)
            r.shares = self.shares = True
            return r
        if isinstance(i, PList):
            i = as_symlist(e, i)
        if isinstance(i, (range, SymRange)):
            i = as_symlist(e, i)
        if isinstance(i, (SymArr, SymList)):
            if is_mask(i):
                raise Unsupported("boolean mask")
            pos = index_terms(e, self.n, i)
            return SymArr(i.n, lambda j: at(pos(j)))
        if isinstance(i, tuple) and len(i) == 1:
            return self.getitem(e, i[0])
        return SymList(self.n, at).getitem(e, i)

    def setitem(self, e, i, val):
        if self.shares:
            raise Unsupported("assignment into an array that shares memory")
        if not e.writable(self):
            raise Unsupported("assignment into an array inside of a symbolic loop")
        g, old = e.path_formula(), self.at
        val = e.force(val)
        if isinstance(val, Rows1):
            # one row of one number: fills whatever is assigned to
            if not e.entails(lift_num(val.rows.n) == 1):
                raise Unsupported("assignment of rows")
            val = val.rows.at(SNum(z3.IntVal(0)))
        if isinstance(val, (PList, tuple)):
            val = _np_array(e, [val], {})
        if not is_num(val) and not isinstance(val, SymArr):
            raise Unsupported("value of an array assignment")
        item = (lambda k: val.at(k)) if isinstance(val, SymArr) else (lambda k: val)
        if self.whole and not (isinstance(val, (bool, int, SBool)) or isinstance(val, SNum) and val.is_int or isinstance(val, SymArr) and val.whole):
            raise Unsupported("assignment of other numbers into an integer array")

        def fits(n):
            if isinstance(val, SymArr) and not e.entails(lift_num(val.n) == lift_num(n)):
                raise Unsupported("assignment of another length")

        def put(cond, new):
            self.at = lambda j: put_item(e, And(g, cond(j)), lambda: new(j), old(j))
        if isinstance(i, (PList, range, SymRange)):
            i = as_symlist(e, i)
        if isinstance(i, slice):
            r = SymList(self.n, lambda k: k).getitem(e, i)
            lo = lift_num(i.start) if i.start is not None else z3.IntVal(0)
            fits(r.n)
            put(lambda j: z3.And(lift_num(j) >= lo, lift_num(j) < lo + lift_num(r.n)), lambda j: item(norm_num(z3.simplify(lift_num(j) - lo))))
        elif isinstance(i, (SymArr, SymList)) and is_mask(i):
            if isinstance(val, SymArr):
                raise Unsupported("values for a mask")
            if not e.entails(lift_num(i.n) == lift_num(self.n)):
                raise Unsupported("mask of another length")
            put(lambda j: e.truth(i.at(j)), lambda j: val)
        elif isinstance(i, (SymArr, SymList)):
            fits(i.n)
            pos = index_terms(e, self.n, i)
            n = lift_num(i.n)

            def find(j):
                k = z3.Int(fresh_name("k"))
                f = zb(And(k >= 0, k < n, lift_num(pos(SNum(k))) == lift_num(j)))
                if isinstance(val, SymArr):
                    return logic.cases([k], f, {k.get_id()}), k
                return logic.exists([k], f), None

            def at(j):
                r, k = find(j)
                if k is None:
                    return put_item(e, And(g, r), lambda: val, old(j))
                if len(r) > 1 and not all(is_false(e.decide(And(x, y))) for x, _ in r for y, _ in r if x is not y):
                    raise Unsupported("places that are assigned twice")
                out = old(j)
                for c, sub in r:
                    out = put_item(e, And(g, c), lambda: val.at(norm_num(dict((a.get_id(), b) for a, b in sub)[k.get_id()])), out)
                return out
            self.at = at
        else:
            k = lift_num(e.unbool(i)) if hasattr(e, "unbool") else lift_num(i)
            n = lift_num(self.n)
            e.do_raise("IndexError", "", Not(z3.And(k >= -n, k < n)))
            if isinstance(val, SymArr):
                raise Unsupported("array as an element")
            put(lambda j: lift_num(j) == z3.If(k >= 0, k, k + n), lambda j: val)

    def inplace(self, e, op, o):
        """a += b changes the array itself."""
        t = {v: k for k, v in e.OPS.items()}[op]
        if self.shares or not e.writable(self):
            raise Unsupported("array changed in place")
        new = e.binop(t, SymArr(self.n, self.at), o)
        if not isinstance(new, SymArr) or not e.entails(lift_num(new.n) == lift_num(self.n)):
            raise Unsupported("array changed in place")
        if self.whole and not (new.whole or is_num(o) and lift_num(o).sort() == z3.IntSort() or isinstance(o, SymArr) and o.whole):
            raise Unsupported("integer array changed in place")
        g, old, to = e.path_formula(), self.at, new.at
        self.at = to if is_true(e.decide(g)) else lambda j: put_item(e, g, lambda: to(j), old(j))
        return self

    def map(self, f):
        at = self.at
        return SymArr(self.n, lambda i: f(at(i)))

    def getattr_model(self, e, name):
        if name == "size":
            return (self.n,)
        if name == "shape":
            return ((self.n,),)
        if name == "T":
            return (self,)
        if name == "ndim":
            return (1,)
        if name == "copy":
            return (ModelFn("copy", lambda e, a, k: SymArr(self.n, self.at)),)
        if name == "dtype":
            return (Opaque("dtype"),)
        if name == "reshape":
            return (reshape_method(self),)
        if name in ("flatten", "ravel"):
            return (ModelFn(name, lambda e, a, k: SymArr(self.n, self.at)),)
        if name == "astype":
            return (ModelFn("astype", lambda e, a, k: astype(e, self, a[0])),)
        return None

    def _zip(self, e, o, f):
        if isinstance(o, SymArr):
            if not e.entails(lift_num(o.n) == lift_num(self.n)):
                raise Unsupported("arrays not known to have the same length")
            return SymArr(self.n, lambda i: f(self.at(i), o.at(i)))
        if is_num(o):
            return SymArr(self.n, lambda i: f(self.at(i), o))
        raise Unsupported("array operation")

    def binop(self, e, op, o):
        t = {v: k for k, v in e.OPS.items()}[op]
        if op == "@":
            raise Unsupported("matmul of vectors")
        return self._zip(e, o, lambda x, y: e.binop(t, x, y))

    def rbinop(self, e, op, o):
        t = {v: k for k, v in e.OPS.items()}[op]
        return self._zip(e, o, lambda x, y: e.binop(t, y, x))

    def compare(self, e, op, o):
        return self._zip(e, o, lambda x, y: e.compare(op, x, y))

    def rcompare(self, e, op, o):
        return self._zip(e, o, lambda x, y: e.compare(op, y, x))

    def neg(self, e):
        return self.map(lambda x: -x)


def narrow(e, x, bits, signed=True):
    """Conversion to a narrow machine integer: exact within its range, modulo 2^bits outside."""
    lo, hi = (-(2 ** (bits - 1)), 2 ** (bits - 1) - 1) if signed else (0, 2**bits - 1)
    y = lift_num(x)
    if not isinstance(x, SV) and lo <= x <= hi:
        return x
    return norm_num(z3.simplify(z3.If(z3.And(y >= lo, y <= hi), y, (y - lo) % 2**bits + lo)))


def astype(e, v, t):
    v = e.force(v)
    if isinstance(v, GU):
        return e.lift(v, lambda x: astype(e, x, t))
    if v is None:
        return Poison("conversion of None")
    n = getattr(t, "name", str(t))
    f = None
    m = re.fullmatch(r"(?:numpy\.)?(u?)int(8|16|32)(?:_)?|(?:numpy\.)?(intc|short|byte)", n)
    if m:
        bits = int(m.group(2)) if m.group(2) else {"intc": 32, "short": 16, "byte": 8}[m.group(3)]
        f = lambda x: narrow(e, _int(e, [x], {}), bits, not m.group(1))
    elif "int" in n or n in ("numpy.long", "numpy.longlong"):
        f = lambda x: _int(e, [x], {})
    elif "float" in n or n in ("numpy.single", "numpy.double"):
        f = lambda x: _float(e, [x], {})
    elif "bool" in n:
        f = lambda x: _bool(e, [x], {})
    if f is None:
        raise Unsupported("astype")
    if isinstance(v, np.ndarray):
        return np_map(f, v)
    if is_num(v):
        return f(v)
    return v.map(f)


@npm("size")
def _np_size(e, a, k):
    v = e.force(a[0])
    if isinstance(v, GU):
        return e.lift(v, lambda x: _np_size(e, [x], k))
    if is_num(v):
        return 1
    if isinstance(v, (tuple, PList)):
        x = to_array(e, v)
        if x is not None:
            return int(x.size)
    if isinstance(v, np.ndarray):
        return int(v.size)
    if isinstance(v, (SymList, SymArr)):
        return v.n
    return NotImplemented


@npm("issubdtype")
def _issub(e, a, k):
    t, base = a
    if isinstance(t, TypeOf) and isinstance(base, ModelFn):
        v = e.force(t.v)
        if isinstance(v, GU):
            return e.lift(v, lambda x: _issub(e, [TypeOf(x), base], k))
        if base.name == "numpy.integer":
            return (isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_))) or (
                isinstance(v, SNum) and v.is_int
            )
        if base.name == "numpy.floating":
            return isinstance(v, float) or isinstance(v, SNum) and not v.is_int
    raise Unsupported("issubdtype")


def np_map(f, x, *more):
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = f(x[i], *[m[i] for m in more])
    return out


def is_symbolic_array(v):
    return isinstance(v, np.ndarray) and v.dtype == object


def np_binop(e, op, a, b):
    x = to_array(e, a)
    y = to_array(e, b)
    if x is None or y is None:
        raise Unsupported(f"array operation {op} on {type(a).__name__}, {type(b).__name__}")
    t = {v: k for k, v in e.OPS.items()}[op]
    if x.dtype != object and y.dtype != object:
        return e.native_op(op, x, y)
    if op == "@":
        return matmul(e, x, y)
    x, y = np.broadcast_arrays(x, y)
    if x.ndim == 0:
        return e.binop(t, x[()], y[()])
    return np_map(lambda p, q: e.binop(t, p, q), x, y)


def matmul(e, x, y):
    def dot(u, v):
        acc = 0
        for p, q in zip(u, v):
            acc = e.binop(ast.Add, acc, e.binop(ast.Mult, p, q))
        return acc

    if x.ndim == 2 and y.ndim == 2:
        out = np.empty((x.shape[0], y.shape[1]), dtype=object)
        for i in range(x.shape[0]):
            for j in range(y.shape[1]):
                out[i, j] = dot(x[i], y[:, j])
        return out
    if x.ndim == 2 and y.ndim == 1:
        return arr([dot(x[i], y) for i in range(x.shape[0])])
    if x.ndim == 1 and y.ndim == 1:
        return dot(x, y)
    raise Unsupported("matmul")


def np_compare(e, op, a, b):
    if isinstance(a, str) or isinstance(b, str) or (
        isinstance(a, np.ndarray) and a.dtype != object and isinstance(b, np.ndarray) and b.dtype != object
    ) or (isinstance(a, np.ndarray) and a.dtype != object and not isinstance(b, SV) and is_num(b)):
        import operator as o

        f = {ast.Eq: o.eq, ast.NotEq: o.ne, ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge}[type(op)]
        return f(a, b)
    x, y = to_array(e, a), to_array(e, b)
    if x is None or y is None:
        raise Unsupported("array comparison")
    x, y = np.broadcast_arrays(x, y)
    return np_map(lambda p, q: e.compare(op, p, q), x, y)


def np_inplace(e, op, cur, val):
    r = np_binop(e, op, cur, val)
    if isinstance(r, np.ndarray) and r.shape == cur.shape and cur.dtype == object and not e.path:
        cur[...] = r
        return cur
    return r


class PartArr:
    """An array of some of finitely many values: (condition, value), in order."""

    is_array = True
    ndim = 1

    def __init__(self, items):
        self.items = items

    def chunks(self, e):
        return [Chunk((), g, x) for g, x in self.items]

    def copy_array(self, e):
        return PartArr(list(self.items))

    def length(self, e):
        return count_chunks(e, self.chunks(e))

    def map(self, e, f):
        out = []
        for g, x in self.items:
            with e.guard(g):
                out.append((g, f(e.force(x))))
        return PartArr(out)

    def getattr_model(self, e, name):
        if name == "astype":
            return (ModelFn("astype", lambda e, a, k: self.map(e, lambda x: astype(e, x, a[0]))),)
        if name == "sum":
            return (ModelFn("sum", lambda e, a, k: _sum(e, [self], {})),)
        if name == "size":
            return (self.length(e),)
        return None

    def binop(self, e, op, o):
        if not is_num(e.force(o)):
            raise Unsupported("operation on an array of unknown members")
        t = {v: k for k, v in e.OPS.items()}[op]
        return self.map(e, lambda x: e.binop(t, x, o))

    def rbinop(self, e, op, o):
        if not is_num(e.force(o)):
            raise Unsupported("operation on an array of unknown members")
        t = {v: k for k, v in e.OPS.items()}[op]
        return self.map(e, lambda x: e.binop(t, o, x))


    def fixed(self, e):
        """The elements, if their number is known."""
        c = z3.Sum([z3.If(zb(g), 1, 0) for g, _ in self.items])
        for n in range(len(self.items) + 1):
            if e.entails(c == n):
                break
        else:
            raise Unsupported("array of an unknown number of elements")
        out = []
        for p in range(n):
            res = None
            for t in reversed(range(p, len(self.items))):
                g, x = self.items[t]
                if res is None:
                    res = x
                else:
                    before = z3.Sum([z3.If(zb(h), 1, 0) for h, _ in self.items[:t]]) if t else z3.IntVal(0)
                    res = e.merge(z3.And(zb(g), before == p), x, res)
            out.append(res)
        return arr(out)


class SymRows:
    """A matrix with rows of a fixed length: row(k) gives the list of elements of the k-th row."""

    is_array = True
    ndim = 2

    def __init__(self, n, width, row):
        self.n, self.width, self.row = n, width, row

    def chunks(self, e):
        v = z3.Int(fresh_name("row"))
        n = lift_num(self.n)
        return [Chunk([v], z3.And(v >= 0, v < n), arr(self.row(v)), rng=(z3.IntVal(0), n, 1))]

    def length(self, e):
        return self.n

    def getitem(self, e, i):
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], slice) and i[0] == slice(None) and isinstance(i[1], int) and -self.width <= i[1] < self.width:
            return SymArr(self.n, lambda k: self.row(lift_num(k))[i[1]])
        if isinstance(i, (int, SNum)):
            k = lift_num(i)
            e.do_raise("IndexError", "", Not(z3.And(k >= -lift_num(self.n), k < lift_num(self.n))))
            if e.entails(k >= 0):
                return arr(self.row(k))
        raise Unsupported("indexing of a matrix")

    def flat(self, e):
        def at(j):
            j = lift_num(j)
            k, r = z3.simplify(j / self.width), z3.simplify(j % self.width)
            xs = self.row(k)
            res = xs[-1]
            for i in reversed(range(self.width - 1)):
                c = e.decide(r == i)
                res = e.merge(c if isinstance(c, bool) else z3.simplify(c), xs[i], res)
            return res
        out = SymArr(norm_num(z3.simplify(lift_num(self.n) * self.width)), at)
        out.whole = all(is_num(x) and lift_num(x).sort() == z3.IntSort() for x in self.row(z3.Int(fresh_name("row"))))
        return out

    def getattr_model(self, e, name):
        if name in ("flatten", "ravel"):
            return (ModelFn(name, lambda e, a, k: self.flat(e)),)
        if name == "reshape":
            def f(e, a, k):
                if len(a) == 1 and a[0] == -1:
                    return self.flat(e)
                raise Unsupported("reshape")
            return (ModelFn(name, f),)
        if name == "shape":
            return ((self.n, self.width),)
        return None


@npm("reshape")
def _np_reshape(e, a, k):
    v = e.force(a[0])
    sh = a[1] if len(a) == 2 else tuple(a[1:])
    if isinstance(v, SymRows) and not k and (sh == -1 or sh == (-1,)):
        return v.flat(e)
    if not isinstance(v, SymArr) or k or not isinstance(sh, (tuple, PList)):
        return NotImplemented
    sh = e.unpack(sh)
    if len(sh) != 2 or not isinstance(sh[1], int) or sh[1] < 1:
        raise Unsupported("reshape")
    n, w = lift_num(v.n), sh[1]
    rows = z3.simplify(n / w) if isinstance(sh[0], int) and sh[0] == -1 else lift_num(sh[0])
    if not e.entails(n == rows * w):
        raise Unsupported("reshape of another size")
    at = v.at
    return SymRows(norm_num(rows), w, lambda k: [at(norm_num(z3.simplify(k * w + i))) for i in range(w)])


@npm("apply_along_axis")
def _np_along(e, a, k):
    if len(a) != 3 or k:
        return NotImplemented
    f, ax, v = a[0], a[1], e.force(a[2])
    if not isinstance(v, SymRows) or ax not in (1, -1):
        return NotImplemented
    q = z3.Int(fresh_name("row"))
    with e.in_chunk(Chunk([q], z3.And(q >= 0, q < lift_num(v.n)), None)):
        r = e.force(e.call(f, [arr(v.row(q))]))
        if isinstance(r, PartArr):
            r = r.fixed(e)
        if not isinstance(r, np.ndarray) or r.ndim != 1 or not all(is_num(e.force(x)) for x in r):
            raise Unsupported("result of a function on rows")
        xs = [e.force(x) for x in r]
    return SymRows(v.n, len(xs), lambda k: [subst_value(x, [(q, k)]) for x in xs])


def np_getitem(e, v, i):
    if isinstance(i, PList) and v.ndim == 1:
        ents = e.ents(i)
        if not any(x.vars or x.op == "del" for x in ents) and any(not is_true(x.guard) for x in ents) and all(native(x.value)[0] for x in ents):
            return PartArr([(x.guard, np_getitem(e, v, x.value)) for x in ents])
    if isinstance(i, PList) or isinstance(i, np.ndarray) and i.dtype == object and i.ndim == 1 and v.ndim == 1:
        items = e.plain(i) if isinstance(i, PList) else list(i)
        if items and v.ndim == 1 and not native(i)[0]:
            items = [e.force(x) for x in items]
            if all(isinstance(x, (bool, np.bool_, SBool)) for x in items):
                if len(items) != v.shape[0]:
                    raise Unsupported("mask of another length")
                return PartArr([(zb(x) if isinstance(x, (bool, np.bool_)) else x.e, y) for x, y in zip(items, v)])
            if all(isinstance(x, (int, np.integer, SNum)) for x in items):
                return arr([np_getitem(e, v, x) for x in items])
    if isinstance(i, PList):
        ok, x = native(i)
        if not ok:
            raise Unsupported("array index")
        try:
            return v[x]
        except IndexError:
            e.do_raise("IndexError", "")
            return Poison("index out of range")
    if isinstance(i, tuple):
        i = tuple(native(x)[1] if native(x)[0] else x for x in i)
    ok, x = native(i)
    if ok:
        try:
            return v[x]
        except IndexError:
            e.do_raise("IndexError", "")
            return Poison("index out of range")
    if isinstance(i, slice):
        return v[i]
    if isinstance(i, SNum) and v.ndim == 1:
        return e.index_seq(tuple(v[j] for j in range(len(v))), i)
    if isinstance(i, SNum) and v.ndim > 1:
        n = v.shape[0]
        e.do_raise("IndexError", "", Not(z3.And(i.e >= -n, i.e < n)))
        res = v[0]
        for j in range(1, n):
            res = e.merge(z3.Or(i.e == j, i.e == j - n), v[j], res)
        return res
    if isinstance(i, tuple) and len(i) == v.ndim and all(isinstance(x, (int, np.integer, SNum)) for x in i):
        r = v
        for x in i:
            r = np_getitem(e, r, x)
        return r
    raise Unsupported("symbolic array index")


def np_setitem(e, v, i, val):
    if not e.writable(v):
        raise Unsupported("array assignment inside a symbolic loop")
    g = e.path_formula()
    if v.dtype != object:
        raise Unsupported("assignment into a concrete array")
    if isinstance(i, tuple):
        i = tuple(native(x)[1] if native(x)[0] else x for x in i)
    ok, x = native(i)
    if ok or isinstance(i, slice):
        x = x if ok else i
        old = v[x]
        if isinstance(old, np.ndarray):
            new = to_array(e, val)
            new = np.broadcast_to(new, old.shape)
            v[x] = np_map(lambda p, q: e.merge(g, q, p), old, new)
        else:
            v[x] = e.merge(g, val, old)
        return
    if isinstance(i, SNum) and v.ndim == 1:
        for j in range(len(v)):
            v[j] = e.merge(And(g, Or(i.e == j, i.e == j - len(v))), val, v[j])
        return
    raise Unsupported("array assignment")


def np_attr(e, v, name):
    if name in ("shape", "ndim", "size", "T", "dtype"):
        return (getattr(v, name),)
    if name == "nonzero":
        def f(e, a, k):
            return np_nonzero(e, v)

        return (ModelFn("nonzero", f),)
    if name == "astype":
        return (ModelFn("astype", lambda e, a, k: v if v.dtype != object and False else astype(e, v, a[0])),)
    if name == "copy":
        return (ModelFn("copy", lambda e, a, k: v.copy()),)
    if name == "tolist":
        return (ModelFn("tolist", lambda e, a, k: e.new_list(list(v)) if v.ndim == 1 else None),)
    if name in ("sum",):
        return (ModelFn("sum", lambda e, a, k: _np_sum(e, [v], k)),)
    if name == "reshape":
        return (ModelFn("reshape", lambda e, a, k: v.reshape(*a)),)
    if v.dtype != object and hasattr(v, name):
        x = getattr(v, name)

        def f(e, a, k):
            ns = [native(q) for q in a]
            if not all(n[0] for n in ns):
                raise Unsupported("numpy method")
            return from_native(e, x(*[n[1] for n in ns], **k))

        return (ModelFn("ndarray." + name, f),)
    return None


def np_nonzero(e, v):
    if v.dtype != object:
        return tuple(v.nonzero())
    if v.ndim != 1:
        raise Unsupported("nonzero")
    conds = [e.decide(e.truth(x)) for x in v]
    if all(isinstance(c, bool) for c in conds):
        return (np.array([i for i, c in enumerate(conds) if c], dtype=int),)
    # guarded positions: usable with [0][0] as the first non-zero one
    return (NonZero(conds),)


class NonZero:
    def __init__(self, conds):
        self.conds = conds

    def getitem(self, e, i):
        if i != 0:
            raise Unsupported("nonzero position")
        e.do_raise("IndexError", "", Not(Or(*self.conds)))
        res = None
        for j in reversed(range(len(self.conds))):
            res = j if res is None else e.merge(self.conds[j], j, res)
        return res

    def chunks(self, e):
        return [Chunk((), c, j) for j, c in enumerate(self.conds)]

    def contains(self, e, x):
        return Or(*[And(c, e.eq(j, x)) for j, c in enumerate(self.conds)])


@npm("where")
def _np_where(e, a, k):
    v = e.force(a[0])
    if len(a) == 1:
        if isinstance(v, np.ndarray):
            return np_nonzero(e, v)
        if isinstance(v, PList):
            return np_nonzero(e, to_array(e, v))
        if isinstance(v, SymArr):
            return (_flatnonzero(e, [v], {}),)
        return NotImplemented
    x, y = e.force(a[1]), e.force(a[2])
    if isinstance(v, SymArr):
        def at(i):
            p = x.at(i) if isinstance(x, SymArr) else x
            q = y.at(i) if isinstance(y, SymArr) else y
            return e.merge(e.truth(v.at(i)), p, q)

        return SymArr(v.n, at)
    c, x, y = to_array(e, v), to_array(e, x), to_array(e, y)
    if c is None and isinstance(v, (bool, SBool)):
        c = np.empty((), dtype=object)
        c[()] = v
    if c is None or x is None or y is None:
        return NotImplemented
    c, x, y = np.broadcast_arrays(c, x, y)
    if c.ndim == 0:
        return e.merge(e.truth(c[()]), x[()], y[()])
    return np_map(lambda p, q, r: e.merge(e.truth(p), q, r), c, x, y)


def sum_of_arrays(e, v):
    """np.sum(rows, 0): the elementwise sum of a family of arrays (or of numbers)."""
    chs = e.iterate(v)
    vals = [e.force(c.value) for c in chs]
    if all(is_num(x) for x in vals):
        return _sum(e, [v], {})
    if not all(isinstance(x, SymArr) for x in vals) or any(not c.vars for c in chs):
        raise Unsupported("sum of mixed rows")
    n = vals[0].n
    for c, x in zip(chs, vals):
        if {q.get_id() for q in c.vars} & set(free_vars(lift_num(x.n))) or not e.entails(z3.Implies(zb(c.guard), lift_num(x.n) == lift_num(n))):
            raise Unsupported("rows of different lengths")
    J = z3.Int(fresh_name("J"))
    e.push_binder([J])
    e.push_guard(z3.And(J >= 0, J < lift_num(n)))
    try:
        acc = z3.RealVal(0)
        for c, x in zip(chs, vals):
            with e.in_chunk(c):
                y = x.at(SNum(J))
                if not is_num(y):
                    raise Unsupported("sum of other values")
                y = real(y)
            acc = acc + e.aggregate("sum", list(c.vars), c.guard, y)
        acc = z3.simplify(acc)
    finally:
        e.pop()
        e.pop()
    return SymArr(n, lambda j: SNum(z3.substitute(acc, (J, lift_num(j)))))


@npm("isscalar")
def _isscalar(e, a, k):
    v = e.force(a[0])
    if is_num(v) or isinstance(v, str):
        return True
    if isinstance(v, (np.ndarray, SymArr, SymList, PList, tuple)) or v is None:
        return False
    return NotImplemented


@npm("shape")
def _np_shape(e, a, k):
    v = e.force(a[0])
    if isinstance(v, SymArr):
        return (v.n,)
    if is_num(v):
        return ()
    return NotImplemented


def array_max(sign):
    def m(e, a, k):
        v = e.force(a[0])
        if not isinstance(v, SymArr) or len(a) > 1 or k or e.path_vars():
            return NotImplemented
        n = lift_num(v.n)
        e.do_raise("ValueError", "of an empty array", n <= 0)
        x = v.at(SNum(z3.Int("J")))
        whole = lift_num(x).sort() == z3.IntSort()
        M = z3.Int(fresh_name("max")) if whole else z3.Real(fresh_name("max"))
        w = z3.Int(fresh_name("argmax"))
        e.add_fact(z3.And(w >= 0, z3.Implies(n > 0, w < n)))
        e.add_fact(M == lift_num(v.at(SNum(w))))
        at = v.at
        e.maxima.append((M, sign, lambda j: z3.Implies(z3.And(j >= 0, j < n), M >= lift_num(at(SNum(j))) if sign > 0 else M <= lift_num(at(SNum(j))))))
        return SNum(M)
    return m


NPM["amax"] = NPM["max"] = array_max(1)
NPM["amin"] = NPM["min"] = array_max(-1)


def selected(e, n, pred, name):
    """An array of the places in range(n) that satisfy pred (a function of a term), in increasing order."""
    m = z3.Int(fresh_name(name + "_count"))
    if e.path_vars():
        raise Unsupported("selection inside of a symbolic loop")
    f = z3.Function(fresh_name(name), z3.IntSort(), z3.IntSort())
    pos = z3.Function(fresh_name(name + "_place"), z3.IntSort(), z3.IntSort())
    x = z3.Int(fresh_name("x"))
    mem = zb(And(x >= 0, x < lift_num(n), pred(x)))
    e.add_fact(z3.And(m >= 0, m <= z3.If(lift_num(n) > 0, lift_num(n), 0)))
    logic.bijection(f, pos, lambda k: And(k >= 0, k < m), lambda y: subst(mem, [(x, y)]))
    r = SymArr(SNum(m), lambda k: SNum(f(lift_num(k))))
    r.whole = True
    return r


@npm("flatnonzero")
def _flatnonzero(e, a, k):
    v = e.force(a[0])
    if isinstance(v, SymArr):
        return selected(e, v.n, lambda x: e.truth(v.at(SNum(x))), "where")
    return NotImplemented


@npm("delete")
def _np_delete(e, a, k):
    v, i = e.force(a[0]), e.force(a[1])
    if k or len(a) != 2 or not isinstance(v, SymArr) or not isinstance(i, (SymArr, SymList)):
        return NotImplemented
    if is_mask(i):
        raise Unsupported("deletion by a mask")
    index_terms(e, v.n, i)
    keep = selected(e, v.n, lambda x: Not(e.contains(i, SNum(x))), "kept")
    at = v.at
    r = SymArr(keep.n, lambda j: at(keep.at(j)))
    r.whole = v.whole
    return r


@npm("broadcast_to")
def _broadcast_to(e, a, k):
    v, sh = e.force(a[0]), e.force(a[1])
    sh = shape_of(e, sh)
    if len(sh) == 1 and isinstance(sh[0], SNum):
        if is_num(v):
            return SymArr(sh[0], lambda j: v)
        if isinstance(v, SymArr):
            if not e.entails(lift_num(v.n) == lift_num(sh[0])):
                raise Unsupported("broadcast to another length")
            r = SymArr(v.n, v.at)
            r.shares = v.shares = True
            return r
    return NotImplemented


@ext("scipy.special.erf")
def _erf(e, a, k):
    v = e.force(a[0])
    if is_num(v):
        return SNum(ERF(real(v)))
    if isinstance(v, SymArr):
        return v.map(lambda y: SNum(ERF(real(y))))
    raise Unsupported("erf")


def _np_sum(e, a, k):
    v = e.force(a[0])
    ax = k.get("axis", a[1] if len(a) > 1 else None)
    if isinstance(v, GU) and ax is None:
        return e.lift(v, lambda x: _np_sum(e, [x], {}))
    if (is_num(v) and not isinstance(v, np.ndarray) or isinstance(v, PartArr)) and ax is None:
        return v if is_num(v) else _sum(e, [v], {})
    if isinstance(v, PList) and isinstance(ax, int) and ax == 0 and e.plain(v) is None:
        return sum_of_arrays(e, v)
    if isinstance(v, (SymArr, SymList, PList, Chunks)) and ax is None:
        x = to_array(e, v) if isinstance(v, PList) else None
        if x is None:
            return _sum(e, [v], {})
        v = x
    if isinstance(v, np.ndarray):
        if v.dtype != object:
            return v.sum(axis=ax)
        if ax is None:
            acc = 0
            for x in v.flat:
                acc = e.binop(ast.Add, acc, x)
            return acc
        r = np.add.reduce(v, axis=ax)
        return r
    return NotImplemented


NPM["sum"] = _np_sum


@npm("all")
def _np_all(e, a, k):
    v = e.force(a[0])
    if isinstance(v, (bool, SBool)):
        return v
    if isinstance(v, np.ndarray):
        return mk_bool(And(*[e.truth(x) for x in v.flat]))
    return any_all(e, v, False)


@npm("any")
def _np_any(e, a, k):
    v = e.force(a[0])
    if isinstance(v, (bool, SBool)):
        return v
    if isinstance(v, np.ndarray):
        return mk_bool(Or(*[e.truth(x) for x in v.flat]))
    return any_all(e, v, True)


def elementwise(name, f):
    def m(e, a, k):
        v = e.force(a[0])
        if isinstance(v, GU):
            return e.lift(v, lambda x: m(e, [x] + list(a[1:]), k))
        ok, x = native(v)
        if ok and is_num(x) and not e.symbolic_pi:
            return getattr(np, name)(x)
        if is_num(v):
            return f(e, v)
        if hasattr(v, "map"):
            return v.map(lambda y: f(e, y))
        y = to_array(e, v)
        if y is None:
            return NotImplemented
        if y.ndim == 0:
            return f(e, y[()])
        return np_map(lambda z: f(e, z), y)

    NPM[name] = m


def real(v):
    x = lift_num(v)
    return z3.ToReal(x) if x.sort() == z3.IntSort() else x


elementwise("log", lambda e, v: SNum(LOG(real(v))))
elementwise("exp", lambda e, v: SNum(EXP(real(v))))
elementwise("sqrt", lambda e, v: SNum(SQRT(real(v))))
elementwise("abs", lambda e, v: abs(v) if isinstance(v, SV) else abs(v))
elementwise("absolute", lambda e, v: abs(v))
elementwise("floor", lambda e, v: SNum(z3.ToReal(z3.ToInt(real(v)))))
elementwise("ceil", lambda e, v: SNum(-z3.ToReal(z3.ToInt(-real(v)))))
elementwise("square", lambda e, v: v * v)
elementwise("rint", lambda e, v: SNum(z3.ToReal(round_half_even(e, real(v)))))
def ufunc2(name, node):
    def m(e, a, k):
        x, y = e.force(a[0]), e.force(a[1])
        if isinstance(node, ast.cmpop):
            if is_num(x) and is_num(y):
                return e.compare(node, x, y)
            return e.compare(node, np_operand(e, x), np_operand(e, y))
        return e.binop(type(node), np_operand(e, x), np_operand(e, y))

    NPM[name] = m


def np_operand(e, v):
    """Lists and tuples are arrays for ufuncs."""
    if isinstance(v, (tuple, PList, SymList)):
        r = _np_array(e, [v], {})
        if r is NotImplemented:
            raise Unsupported("array operand")
        return r
    return v


for _n, _o in (("greater", ast.Gt()), ("greater_equal", ast.GtE()), ("less", ast.Lt()), ("less_equal", ast.LtE()), ("equal", ast.Eq()),
               ("not_equal", ast.NotEq()), ("add", ast.Add()), ("subtract", ast.Sub()), ("multiply", ast.Mult()),
               ("true_divide", ast.Div()), ("divide", ast.Div()), ("mod", ast.Mod()), ("remainder", ast.Mod()),
               ("floor_divide", ast.FloorDiv()), ("power", ast.Pow())):
    ufunc2(_n, _o)
elementwise("cos", lambda e, v: SNum(COS(real(v))))
elementwise("sin", lambda e, v: SNum(SIN(real(v))))
LOG10 = z3.Function("log10", z3.RealSort(), z3.RealSort())
ROUND = z3.Function("round_to", z3.RealSort(), z3.IntSort(), z3.RealSort())
TENTH = z3.Function("tenth_to_the", z3.IntSort(), z3.RealSort())


def log10(e, v):
    x = real(v)
    if not any(x.eq(y) for y in e.logs):
        e.logs.append(x)
    return SNum(LOG10(x))


elementwise("log10", log10)


def round_to(e, v, k):
    """v rounded to k decimals: within half a unit of the last one; odd."""
    x = real(v)
    k = lift_num(k)
    x = z3.simplify(x, som=True)
    if z3.is_rational_value(x) and x.numerator_as_long() == 0:
        return 0.0
    if k.sort() != z3.IntSort():
        raise Unsupported("number of decimals")
    if e.entails(x == 0):
        return 0.0
    for y, j, r in e.rounded:
        if j.eq(k):
            if e.entails(x == y):
                return SNum(r)
            if e.entails(x == -y):
                return SNum(-r)
    r, u = ROUND(x, k), TENTH(k)
    e.rounded.append((x, k, r))
    facts = [u > 0, r - x <= u / 2, x - r <= u / 2, z3.Implies(k >= 1, u <= z3.Q(1, 10)), z3.Implies(k >= 9, u <= z3.Q(1, 10**9))]
    for y in e.logs:
        # -k <= log10(y) - 9: a unit of the last decimal is at most y / 10^9
        facts.append(z3.Implies(z3.And(y > 0, z3.ToReal(-k) <= LOG10(y) - 9), u <= y / 10**9))
        facts.append(z3.And(z3.Implies(z3.And(y > 0, y <= 1), LOG10(y) <= 0), z3.Implies(y >= 1, LOG10(y) >= 0)))
    # what follows about r alone (the laws are needed no further)
    tiny = z3.Q(1, 10**9)
    with e.guard(z3.And(*facts)):
        cs = [c for c in (z3.And(r - x <= tiny, x - r <= tiny), z3.And(x > 0, r >= x * (1 - tiny), r <= x * (1 + tiny)),
                          z3.And(x < 0, r <= x * (1 - tiny), r >= x * (1 + tiny))) if e.entails(c, 8000)]
    for c in cs or facts:
        e.add_fact(c)
    return SNum(r)


def first_extremum(sign):
    def m(e, a, k):
        if len(a) != 1 or k or native(a[0])[0]:
            return NotImplemented
        v = e.force(a[0])
        xs = list(v) if isinstance(v, (tuple, np.ndarray)) and np.ndim(v) == 1 or isinstance(v, tuple) else e.plain(v) if isinstance(v, PList) else None
        if not xs or not all(is_num(x) for x in xs):
            raise Unsupported("numpy.argmin of these values")
        ts = [z3.ToReal(t) if t.sort() == z3.IntSort() else t for t in (lift_num(x) for x in xs)]
        best, at = ts[0], z3.IntVal(0)
        for i, t in enumerate(ts[1:], 1):
            c = t < best if sign < 0 else t > best
            best, at = z3.If(c, t, best), z3.If(c, z3.IntVal(i), at)
        return norm_num(z3.simplify(at))

    return m


NPM["argmin"], NPM["argmax"] = first_extremum(-1), first_extremum(1)


@npm("round")
def _np_round(e, a, k):
    v = e.force(a[0])
    d = e.force(a[1] if len(a) > 1 else k.get("decimals", 0))
    if isinstance(v, np.ndarray) and v.dtype == object and (isinstance(d, SNum) or not all(native(x)[0] for x in v.flat)):
        return np_map(lambda z: round_to(e, z, d), v)
    if isinstance(v, SNum) or isinstance(d, SNum) and is_num(v):
        return round_to(e, v, d)
    return NotImplemented


NPM["around"] = _np_round


@ext("numpy.linalg.norm")
def _norm(e, a, k):
    v = to_array(e, e.force(a[0]))
    if v is None or v.ndim != 1 or len(a) > 1 or k:
        raise Unsupported("norm")
    xs = [z3.simplify(real(x)) for x in v.flat]
    xs = [x for x in xs if not (z3.is_rational_value(x) and x.numerator_as_long() == 0)]
    if not xs:
        return 0.0
    if len(xs) == 1:
        x = xs[0]
        if z3.is_rational_value(x):
            return SNum(z3.simplify(z3.If(x >= 0, x, -x)))
        d = e.decide(x >= 0)
        return SNum(x if d is True else -x if d is False else z3.If(x >= 0, x, -x))
    t = xs[0] * xs[0]
    for x in xs[1:]:
        t = t + x * x
    return SNum(SQRT(t))


@npm("divmod")
def _np_divmod(e, a, k):
    v, w = np_operand(e, e.force(a[0])), np_operand(e, e.force(a[1]))
    return e.binop(ast.FloorDiv, v, w), e.binop(ast.Mod, v, w)


def shape_of(e, v):
    v = e.force(v)
    if isinstance(v, (int, np.integer)):
        return (int(v),)
    if isinstance(v, SNum):
        return (v,)
    return tuple(e.unpack(v))


def filled(name, val):
    def m(e, a, k):
        v = e.force(a[0] if a else k["shape"])
        if isinstance(v, PList) and e.plain(v) is None:
            return NotImplemented
        sh = shape_of(e, v)
        x = val if val is not None else e.force(a[1] if len(a) > 1 else k["fill_value"])
        dt = k.get("dtype", a[1] if val is not None and len(a) > 1 else None)
        if any(n in (getattr(dt, "name", None) or str(dt)) for n in ("int8", "int16", "float16", "uint", "complex")):
            raise Unsupported(f"array of type {dt}")
        if "dtype" in k and getattr(k["dtype"], "name", "").endswith("bool"):
            x = bool(x)
        if all(native(s)[0] for s in sh):
            out = np.empty(tuple(int(native(s)[1]) for s in sh), dtype=object)
            out[...] = x
            return out
        if len(sh) == 1:
            r = SymArr(sh[0], lambda i: x)
            r.whole = "int" in getattr(k.get("dtype"), "name", str(k.get("dtype"))) or "bool" in getattr(k.get("dtype"), "name", "") \
                or name == "full" and "dtype" not in k and (isinstance(x, int) or isinstance(x, SNum) and x.is_int)
            return r
        return NotImplemented

    NPM[name] = m


filled("zeros", 0)
filled("ones", 1)
filled("full", None)
filled("empty", Poison("uninitialised"))


@npm("full_like")
def _full_like(e, a, k):
    v = e.force(a[0])
    if isinstance(v, SymArr):
        return SymArr(v.n, lambda i: a[1])
    return NotImplemented


@npm("setdiff1d")
def _setdiff(e, a, k):
    x, y = e.force(a[0]), e.force(a[1])
    if k or len(a) != 2 or not any(isinstance(v, (SymArr, SymList, SymRange, PList)) for v in (x, y)):
        return NotImplemented
    return _np_array(e, [_list(e, [e.set_op("-", _set(e, [x], {}), _set(e, [y], {}))], {})], {})


@npm("isin")
def _isin(e, a, k):
    if len(a) != 2 or k:
        raise Unsupported("isin with options")
    x, c = e.force(a[0]), e.force(a[1])
    if not isinstance(x, (SymArr, SymList, SymRange)):
        return NotImplemented
    x = as_symlist(e, x)
    return SymArr(x.n, lambda i: mk_bool(e._simp(e.contains(c, x.at(i)))))


@npm("arange")
def _arange(e, a, k):
    r = _range(e, a, {})
    if isinstance(r, range):
        return np.array(list(r))
    if isinstance(r, tuple):
        return arr(list(r))
    n = r.length(e)
    r_ = SymArr(n, lambda i: norm_num(z3.simplify(lift_num(r.lo) + r.step * lift_num(i))))
    r_.whole = True
    return r_


@npm("concatenate")
def _np_concat(e, a, k):
    parts = [e.force(x) for x in e.unpack(a[0])]
    for j, p in enumerate(parts):
        if isinstance(p, GU):
            return e.lift(p, lambda x: _np_concat(e, [tuple(parts[:j] + [x] + parts[j + 1:])] + list(a[1:]), k))
    if any(isinstance(p, (SymArr, SymList)) for p in parts):
        ps = [as_symlist(e, p) for p in parts]
        ps = [p for p in ps if not (isinstance(p.n, int) and p.n == 0)]
        offs = [z3.IntVal(0)]
        for p in ps:
            offs.append(z3.simplify(offs[-1] + lift_num(p.n)))

        def at(i):
            t = lift_num(i)
            res = None
            for j in reversed(range(len(ps))):
                v = ps[j].at(norm_num(z3.simplify(t - offs[j])))
                res = v if res is None else e.merge(t < offs[j + 1], v, res)
            return res

        if len(ps) == 1:
            return SymArr(ps[0].n, ps[0].at)
        return SymArr(norm_num(offs[-1]), at)
    if any(isinstance(p, PartArr) for p in parts) and not k and len(a) == 1:
        items = []
        for p in parts:
            q = p.items if isinstance(p, PartArr) else [(True, x) for x in to_array(e, p)]
            items += q
        return PartArr(items)
    xs = [to_array(e, p) for p in parts]
    if any(x is None for x in xs):
        return NotImplemented
    ax = k.get("axis", a[1] if len(a) > 1 else 0)
    return np.concatenate([x if x.dtype == object else x.astype(object) for x in xs], axis=ax)


@npm("random")
def _np_random(e, a, k):
    raise Unsupported("np.random")


EXT["numpy.float_info"] = None


@ext("numpy.random.default_rng")
def _default_rng(e, a, k):
    from pv.rng import RNG

    return RNG("default_rng")


@ext("itertools.product")
def _product(e, a, k):
    rep = k.get("repeat", 1)
    vs = [e.force(x) for x in a] * rep

    def fn(e):
        outs = [Chunk((), True, ())]
        for v in vs:
            nxt = []
            for o in outs:
                for c in e.iterate(v):
                    nxt.append(Chunk(tuple(o.vars) + tuple(c.vars), And(o.guard, c.guard), o.value + (c.value,)))
            outs = nxt
        return outs

    def ln(e):
        t = 1
        for v in vs:
            t = e.binop(ast.Mult, t, length(e, v))
        return t

    return Chunks(fn, ln, "product")


@ext("itertools.chain")
def _chain(e, a, k):
    vs = [e.force(x) for x in a]
    return Chunks(lambda e: [c for v in vs for c in e.iterate(v)], what="chain")


@ext("itertools.chain.from_iterable")
def _chain_fi(e, a, k):
    def fn(e):
        out = []
        for c in e.iterate(a[0]):
            with e.in_chunk(c):
                for d in e.iterate(c.value):
                    out.append(Chunk(tuple(c.vars) + tuple(d.vars), And(c.guard, d.guard), d.value))
        return out

    return Chunks(fn)


@ext("itertools.combinations")
def _combinations(e, a, k):
    if a[1] != 2:
        raise Unsupported("combinations")
    v = e.force(a[0])
    if isinstance(v, PList) and e.plain(v) is not None:
        import itertools

        return e.new_list(list(itertools.combinations(e.plain(v), 2)))
    if isinstance(v, SymList):
        i, j, n = z3.Int(fresh_name("i")), z3.Int(fresh_name("j")), lift_num(v.n)
        return Chunks(lambda e: [Chunk([i, j], z3.And(0 <= i, i < j, j < n), (v.at(SNum(i)), v.at(SNum(j))))], what="combinations")

    def fn(e):
        cs = e.iterate(v)
        ds = e.iterate(v)
        out = []
        for i, c in enumerate(cs):
            for j, d in enumerate(ds):
                if i < j:
                    out.append(Chunk(tuple(c.vars) + tuple(d.vars), And(c.guard, d.guard), (c.value, d.value)))
                elif i == j and c.vars:
                    # position in the list: an unknown strict total order of the family
                    bef = before_pred(e, v, i, c)
                    g = bef(c.vars, d.vars)
                    out.append(Chunk(tuple(c.vars) + tuple(d.vars), And(c.guard, d.guard, g), (c.value, d.value)))
        return out

    return Chunks(fn, what="combinations")


def before_pred(e, v, i, c):
    key = (id(v.store) if isinstance(v, Heap) else id(v), i)
    tab = e.before
    if key not in tab:
        fn = z3.Function(fresh_name("before"), *([x.sort() for x in c.vars] * 2), z3.BoolSort())
        logic.ORDERS.add(fn.name())
        tab[key] = fn
    fn = tab[key]

    def bef(xs, ys):
        return fn(*xs, *ys)

    return bef


@ext("itertools.count")
def _count(e, a, k):
    raise Unsupported("count")


@ext("networkx.Graph")
def _nxgraph(e, a, k):
    g = e.new_obj(ModelFn("networkx.Graph", None))
    graph_init(e, g, a, k)
    return g


@ext("sys.float_info")
def _fi(e, a, k):
    raise Unsupported("float_info")


class FloatInfo:
    def getattr_model(self, e, name):
        import sys

        return (getattr(sys.float_info, name),)


EXT["sys.float_info"] = FloatInfo()


def EXT_value(full):  # noqa: F811
    f = EXT[full]
    if isinstance(f, FloatInfo):
        return f
    return ModelFn(full, f)


for _t in ("int", "float", "str", "bool", "list", "tuple", "dict", "set"):
    assert _t in _B


# ---------------------------------------------------------------- rustworkx.PyGraph
@ext("rustworkx.PyGraph")
def _rxgraph(e, a, k):
    """Nodes are indices (opaque here, one per call of add_node), with payloads; parallel edges are refused."""
    g = e.new_obj(ExtModule("rustworkx.PyGraph"))
    st = g.store
    st.data["%nodes"], st.data["%edges"], st.data["%edata"] = [], [], []
    st.meta["rx"] = 0
    st.meta["attr"] = rx_attr
    return g


def rx_index(e, g):
    vars, gd = e.rel(g)
    n = g.store.meta["rx"]
    g.store.meta["rx"] = n + 1
    if all(en.plain() for en in g.store.data["%nodes"]) and not vars and is_true(gd):
        return (f"rx index {n}",)
    return (f"rx index {n}",) + tuple(SNum(v) if v.sort() == z3.IntSort() else SRef(v) for v in vars)


def rx_attr(e, g, name):
    if name not in RX:
        raise Unsupported(f"rustworkx.PyGraph.{name}")
    return (ModelFn("rustworkx.PyGraph." + name, lambda e, a, k: RX[name](e, g, *a, **k)),)


def rx_add_node(e, g, payload):
    i = rx_index(e, g)
    graph_write(e, g, "%nodes", i, payload, commut=True)
    return i


def written_here(e, ents, key):
    """An entry with this key was written earlier on this path."""
    act = e.active()
    return any(en.op != "del" and all(v.get_id() in act for v in en.vars) and e.entails(zb(And(en.guard, e.eq(en.key, key)))) for en in ents[-4:])


def rx_add_edge(e, g, i, j, data):
    for x in (i, j):
        if not written_here(e, g.store.data["%nodes"], x):
            e.do_raise("IndexError", "no such node", Not(graph_read(e, g, "%nodes", x)[0]))
    graph_write(e, g, "%edges", EdgeKey(i, j), True, commut=True)
    graph_write(e, g, "%edata", EdgeKey(i, j), data)
    rx_parallel(e, g)
    return Opaque("edge index")


def rx_parallel(e, g):
    """The newest family of edges does not repeat an edge (else there would be parallel edges)."""
    ents = g.store.data["%edges"]
    en = ents[-1]
    for o in ents:
        ren = [(v, z3.Const(fresh_name("o"), v.sort())) for v in o.vars]
        k2 = o.key.subst(ren)
        same = And(zb(en.guard), subst(zb(o.guard), ren), e.eq(en.key, k2))
        if o is en:
            if not ren:
                continue
            same = And(same, Or(*[a != b for a, b in ren]))
        if is_false(same):
            continue
        if e.check(same) != z3.unsat:
            raise Unsupported("there may be parallel edges")


def rx_get_edge_data(e, g, i, j):
    f, v = graph_read(e, g, "%edata", EdgeKey(i, j))
    e.do_raise("NoEdgeBetweenNodes", "", Not(f))
    return Poison("no edge") if is_false(f) else v


def rx_get_node_data(e, g, i):
    f, v = graph_read(e, g, "%nodes", i)
    e.do_raise("IndexError", "", Not(f))
    return Poison("no node") if is_false(f) else v


def rx_nodes(e, g):
    return e.new_list(entries=[Entry(en.vars, en.guard, en.value) for en in facet_ents(e, g, "%nodes")])


def rx_out_edges(e, g, i):
    out = []
    for c in neighbor_chunks(e, g, i):
        with e.in_chunk(c):
            d = rx_get_edge_data(e, g, i, c.value)
        out.append(Entry(c.vars, c.guard, (i, c.value, d)))
    return e.new_list(entries=out)


def rx_copy(e, g):
    """A shallow copy: the same payloads."""
    c = _rxgraph(e, [], {})
    for f in ("%nodes", "%edges", "%edata"):
        c.store.data[f] = list(facet_ents(e, g, f))
    c.store.meta["rx"] = g.store.meta["rx"]
    return c


def rx_remove_nodes(e, g, idx):
    vars, gd = e.rel(g)
    xs = e.unpack(idx)
    if vars or not is_true(gd):
        raise Unsupported("nodes removed in a loop or a branch")
    for x in xs:
        if isinstance(x, (list, tuple)) or not is_num(x) and not isinstance(x, str):
            raise Unsupported("nodes to remove")
        for f in ("%nodes", "%edges", "%edata"):
            out = []
            for en in g.store.data[f]:
                hit = e.eq(en.key, x) if f == "%nodes" else Or(e.eq(en.key.u, x), e.eq(en.key.v, x))
                gg = e._simp(And(en.guard, Not(hit)))
                if not is_false(gg):
                    n = Entry(en.vars, gg, en.value, key=en.key, op=en.op)
                    out.append(n)
            g.store.data[f] = out
            e.note_write(g, f, Entry((), True, None))


RX = {
    "copy": rx_copy,
    "remove_nodes_from": rx_remove_nodes,
    "remove_node": lambda e, g, i: rx_remove_nodes(e, g, e.new_list([i])),
    "add_node": rx_add_node,
    "add_edge": rx_add_edge,
    "nodes": rx_nodes,
    "node_indices": lambda e, g: Chunks(lambda e: e.set_chunks([Entry(en.vars, en.guard, en.key) for en in facet_ents(e, g, "%nodes")])),
    "get_edge_data": rx_get_edge_data,
    "get_node_data": rx_get_node_data,
    "has_edge": lambda e, g, i, j: mk_bool(graph_has_edge(e, g, i, j)),
    "edge_list": lambda e, g: Chunks(lambda e: edge_chunks(e, g)),
    "neighbors": lambda e, g, i: Chunks(lambda e: neighbor_chunks(e, g, i)),
    "out_edges": rx_out_edges,
    "num_nodes": lambda e, g: count_chunks(e, e.set_chunks([Entry(en.vars, en.guard, en.key) for en in facet_ents(e, g, "%nodes")])),
}

from pv import matrices  # noqa: E402,F401  (adds models)
