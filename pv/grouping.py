"""Dictionaries of lists that are filled by a loop (get-or-create a list, append to it).

Inside of the loop whether a key is present at the start of an iteration is unknown (any predicate of the iteration and
the key); present keys have nonempty lists, which is checked for every key that an iteration creates.  After the loop the
dictionary has the keys appended to, each with the list of all values appended, in an order about which nothing is known."""
import numpy as np
import z3
from pv.values import *
from pv.values import zb, mk_bool
from pv.logic import subst, exists, free_vars


class Event:
    def __init__(self, vars, guard, key, value):
        self.vars, self.guard, self.key, self.value = tuple(vars), guard, key, value


def key_terms(k):
    if isinstance(k, tuple):
        return [t for x in k for t in key_terms(x)]
    if isinstance(k, SV):
        return [k.e]
    if is_num(k):
        return [lift_num(k)]
    raise Unsupported("key of a dictionary that is filled in a loop")


def key_like(k, terms):
    if isinstance(k, tuple):
        return tuple(key_like(x, terms) for x in k)
    t = terms.pop(0)
    return SRef(t, k.cls) if isinstance(k, SRef) else SNum(t)


class GroupDict:
    def __init__(self, e, target):
        self.target = target
        self.depth = len(e.path)
        self.created, self.events = [], []
        self.seen = fresh_name("seen")

    # -- the state within an iteration
    def here(self, e):
        items = e.path[self.depth:]
        return [v for it in items if it[0] == "b" for v in it[1]], And(*[it[1] for it in items if it[0] == "g"])

    def visible(self, e, lst, key):
        """Some entry of this iteration has the key."""
        act = e.active()
        cur = e.path_vars(self.depth)
        fs = []
        for x in lst:
            if all(v.get_id() in act for v in x.vars):
                fs.append(And(x.guard, e.eq(x.key, key)))
            elif cur and any(v.get_id() == cur[0].get_id() for v in x.vars):
                raise Unsupported("dictionary filled by an inner loop")
        return Or(*fs)

    def present0(self, e, key):
        vs = e.path_vars(self.depth)
        ts = key_terms(key)
        f = z3.Function(self.seen + "_" + "_".join(str(x.sort()) for x in vs + ts), *[x.sort() for x in vs + ts], z3.BoolSort())
        return f(*vs, *ts)

    def present(self, e, key):
        return Or(self.present0(e, key), self.visible(e, self.created, key))

    def filled(self, e, key):
        return Or(self.present0(e, key), self.visible(e, self.events, key))

    # -- operations
    def contains(self, e, key):
        return self.present(e, key)

    def getitem(self, e, key):
        e.do_raise("KeyError", "", Not(self.present(e, key)))
        return GroupList(self, key)

    def setitem(self, e, key, val):
        val = e.force(val)
        if isinstance(val, GroupList) and val.d is self and is_true(e._simp(zb(e.eq(val.key, key)))):
            return
        if not isinstance(val, PList) or e.plain(val) is None:
            raise Unsupported("value of a dictionary that is filled in a loop")
        if not e.entails(zb(Not(self.present(e, key)))):
            raise Unsupported("a list that is replaced in a loop")
        vars, g = self.here(e)
        self.created.append(Event(vars, g, key, None))
        for x in e.plain(val):
            self.events.append(Event(vars, g, key, x))

    def truth(self, e):
        raise Unsupported("truth of a dictionary that is filled in a loop")

    def getattr_model(self, e, name):
        from pv.engine import ModelFn

        def get(e, a, k):
            d = a[1] if len(a) > 1 else k.get("default")
            return e.merge(self.present(e, a[0]), GroupList(self, a[0]), d)

        def setdefault(e, a, k):
            p = self.present(e, a[0])
            d = e.decide(p)
            if d is not True:
                with e.guard(Not(p)):
                    self.setitem(e, a[0], a[1] if len(a) > 1 else None)
            return GroupList(self, a[0])

        if name in ("get", "setdefault"):
            return (ModelFn("dict." + name, get if name == "get" else setdefault),)
        raise Unsupported(f"{name} of a dictionary that is filled in a loop")

    # -- after the loop
    def close(self, e):
        from pv.engine import Entry, subst_value

        for c in self.created:
            ok = Or(*[And(x.guard, e.eq(x.key, c.key)) for x in self.events if {v.get_id() for v in x.vars} <= {v.get_id() for v in c.vars}])
            if not e.entails(zb(Implies(c.guard, ok))):
                raise Unsupported("a list that may stay empty")
        if not self.events:
            return
        shapes = {}
        for x in self.events:
            shapes.setdefault(str([t.sort() for t in key_terms(x.key)]) + str(e.shape(x.key)), []).append(x)
        for xs in shapes.values():
            proto = xs[0].key
            kv = [z3.Const(fresh_name("key"), t.sort()) for t in key_terms(proto)]
            K = key_like(proto, list(kv))
            e.push_binder(kv)
            try:
                l = e.new_list()
                some = []
                for x in xs:
                    vars, g, value = list(x.vars), zb(x.guard), x.value
                    eqs = []
                    for t, k in zip(key_terms(x.key), kv):
                        t = z3.simplify(t)
                        hit = [v for v in vars if v.get_id() in free_vars(t)]
                        s = solve_for(t, k, hit[0]) if len(hit) == 1 and not any(hit[0].get_id() in free_vars(q.arg(0)) for q in eqs) else None
                        if s is None:
                            eqs.append(t == k)
                            continue
                        v = hit[0]
                        vars = [w for w in vars if not w.eq(v)]
                        g, value = subst(g, [(v, s)]), subst_value(value, [(v, s)])
                        eqs = [subst(q, [(v, s)]) for q in eqs]
                        # later components of the key
                        x = Event(x.vars, x.guard, subst_value(x.key, [(v, s)]), None)
                    rest = [t == k for t, k in zip(key_terms(x.key), kv)]
                    g = z3.simplify(z3.And(g, *rest))
                    if z3.is_false(g):
                        continue
                    l.store.data.append(Entry(tuple(vars), g, value))
                    some.append(exists(vars, g) if vars else g)
            finally:
                e.pop()
            self.target.store.data.append(Entry(tuple(kv), e._simp(Or(*some)), l, key=K))


def solve_for(t, k, v):
    """v with t == k, for t = v or v + constant."""
    d = z3.simplify(t - v) if t.sort() == v.sort() and t.sort() in (z3.IntSort(), z3.RealSort()) else None
    if t.eq(v):
        return k
    if d is not None and v.get_id() not in free_vars(d):
        return z3.simplify(k - d)
    return None


class GroupList:
    def __init__(self, d, key):
        self.d, self.key = d, key

    def truth(self, e):
        return self.d.filled(e, self.key)

    def append(self, e, x):
        vars, g = self.d.here(e)
        if not e.entails(zb(self.d.present(e, self.key))):
            raise Unsupported("append to a list that is not in the dictionary")
        self.d.events.append(Event(vars, g, self.key, x))

    def inplace(self, e, op, val):
        val = e.force(val)
        if op != "+" or not isinstance(val, (PList, tuple)):
            raise Unsupported("operation on a list that is filled in a loop")
        xs = e.plain(val) if isinstance(val, PList) else list(val)
        if xs is None:
            raise Unsupported("operation on a list that is filled in a loop")
        for x in xs:
            self.append(e, x)
        return self

    def getattr_model(self, e, name):
        from pv.engine import ModelFn

        if name == "append":
            return (ModelFn("list.append", lambda e, a, k: self.append(e, a[0])),)
        if name == "extend":
            return (ModelFn("list.extend", lambda e, a, k: (self.inplace(e, "+", a[0]), None)[1]),)
        raise Unsupported(f"{name} of a list that is filled in a loop")


class CellArr:
    """An array whose elements a loop assigns: a dictionary from places to elements while the loop runs."""

    is_array = True
    ndim = 1

    def __init__(self, e, target):
        from pv.engine import Entry

        self.target, self.n, self.old = target, target.n, target.at
        j = z3.Int(fresh_name("j"))
        self.d = e.new_dict(entries=[Entry((j,), z3.And(j >= 0, j < lift_num(self.n)), target.at(SNum(j)), key=SNum(j))])

        def other(j):
            raise Unsupported("array read through another name in a loop that assigns to it")
        target.at = other

    def places(self, e, i):
        """(is it a list of places, the places)"""
        many = isinstance(i, PList) or getattr(i, "is_array", False) or isinstance(i, (list, np.ndarray))
        xs = e.unpack(i) if many else [i]
        n = lift_num(self.n)
        out = []
        for x in xs:
            x = e.force(x)
            if isinstance(x, bool) or not is_num(x) or lift_num(x).sort() != z3.IntSort():
                raise Unsupported("place in an array")
            e.do_raise("IndexError", "", Not(z3.And(lift_num(x) >= -n, lift_num(x) < n)))
            if not e.entails(lift_num(x) >= 0):
                raise Unsupported("negative place in an array")
            out.append(norm_num(z3.simplify(lift_num(x))))
        return many, out

    def getitem(self, e, i):
        from pv.models import arr

        many, ps = self.places(e, i)
        vals = [e.dict_get(self.d, p)[1] for p in ps]
        return arr(vals) if many else vals[0]

    def setitem(self, e, i, val):
        from pv.models import to_array

        many, ps = self.places(e, i)
        val = e.force(val)
        if many:
            v = to_array(e, val)
            if v is None or v.ndim > 1 or v.ndim == 1 and len(v) not in (1, len(ps)):
                raise Unsupported("value of an array assignment")
            vals = [v[()]] * len(ps) if v.ndim == 0 else [v[0]] * len(ps) if len(v) == 1 else list(v)
        else:
            vals = [val]
        for p, x in zip(ps, vals):
            x = e.force(x)
            if not is_num(x) or self.target.whole and lift_num(x).sort() != z3.IntSort():
                raise Unsupported("value of an array assignment")
            e.dict_set(self.d, p, x)

    def length(self, e):
        return self.n

    def getattr_model(self, e, name):
        if name in ("size", "shape"):
            return (self.n if name == "size" else (self.n,),)
        return None

    def close(self, e):
        self.target.at = lambda j: e.dict_get(self.d, j)[1]
