"""numpy.random.Generator: every call is a family of fresh draws, logged with the iterations that make it."""
import z3
from pv.values import *
from pv.engine import ModelFn, Chunk, Opaque
from pv.logic import exists


class Draw:
    """One call site reached under a path: method, arguments, bound variables, guard, result."""

    def __init__(self, method, args, vars, guard, value, extra=None):
        self.method, self.args, self.vars, self.guard, self.value, self.extra = method, args, tuple(vars), guard, value, extra


class RNG:
    def __init__(self, name="rng"):
        self.name = name
        self.draws = []

    def __repr__(self):
        return f"<{self.name}>"

    def log(self, e, method, args, value, extra=None):
        self.draws.append(Draw(method, args, e.path_vars(), e.path_formula(), value, extra))
        return value

    def fresh(self, e, name, sort, more=()):
        """A fresh function of the active iteration variables (and of an index)."""
        vs = e.path_vars()
        f = z3.Function(fresh_name(name), *[v.sort() for v in vs], *[z3.IntSort() for _ in more], sort) if vs or more else None
        if f is None:
            return z3.Const(fresh_name(name), sort)
        return f(*vs, *more)

    def getattr_model(self, e, name):
        m = getattr(self, "m_" + name, None)
        if m is None:
            return None
        return (ModelFn("numpy.random.Generator." + name, lambda e, a, k: m(e, a, k)),)

    def m_random(self, e, a, k):
        from pv.models import SymArr
        size = a[0] if a else k.get("size")
        size = e.force(size)
        if size is None:
            r = self.fresh(e, "random", z3.RealSort())
            e.add_fact(z3.And(r >= 0, r < 1))
            return self.log(e, "random", (None,), SNum(r))
        if not is_num(size):
            raise Unsupported("random of a shape")
        vs = e.path_vars()
        f = z3.Function(fresh_name("random"), *[v.sort() for v in vs], z3.IntSort(), z3.RealSort())

        def at(i):
            t = f(*vs, lift_num(i))
            e.add_fact(z3.And(t >= 0, t < 1))
            return SNum(t)
        return self.log(e, "random", (size,), SymArr(size, at))

    def m_integers(self, e, a, k):
        from pv.models import SymArr
        lo, hi = (a[0], a[1]) if len(a) > 1 else (k.get("low", 0), a[0] if a else k["high"])
        size = e.force(a[2] if len(a) > 2 else k.get("size"))
        if set(k) - {"low", "high", "size"}:
            raise Unsupported("integers with options")
        lo_, hi_ = lift_num(lo), lift_num(hi)
        vs = e.path_vars()
        if size is None:
            r = self.fresh(e, "integers", z3.IntSort())
            e.add_fact(z3.And(r >= lo_, r < hi_))
            return self.log(e, "integers", (lo, hi, None), SNum(r))
        f = z3.Function(fresh_name("integers"), *[v.sort() for v in vs], z3.IntSort(), z3.IntSort())

        def at(i):
            t = f(*vs, lift_num(i))
            e.add_fact(z3.And(t >= lo_, t < hi_))
            return SNum(t)
        return self.log(e, "integers", (lo, hi, size), SymArr(size, at))

    def m_binomial(self, e, a, k):
        n, p = (list(a) + [None, None])[:2]
        n = k.get("n", n)
        p = k.get("p", p)
        if len(a) > 2 or "size" in k:
            raise Unsupported("binomial with a size")
        bad = Or(lift_num(n) < 0, lift_num(p) < 0, lift_num(p) > 1)
        e.do_raise("ValueError", "binomial", bad)
        r = self.fresh(e, "binomial", z3.IntSort())
        e.add_fact(z3.Implies(z3.Not(zb(bad)), z3.And(r >= 0, r <= lift_num(n))))
        # degenerate parameters
        e.add_fact(z3.Implies(lift_num(p) == 0, r == 0))
        e.add_fact(z3.Implies(lift_num(p) == 1, r == lift_num(n)))
        return self.log(e, "binomial", (n, p), SNum(r))

    def m_choice(self, e, a, k):
        """choice(population, size, replace=False): distinct members of the population."""
        from pv.models import SymArr, SymRange, as_symlist
        pop = e.force(a[0])
        size = e.force(a[1] if len(a) > 1 else k.get("size"))
        replace = a[2] if len(a) > 2 else k.get("replace", True)
        if set(k) - {"size", "replace"} or len(a) > 3 or size is None or not isinstance(replace, bool):
            raise Unsupported("choice with options")
        if is_num(pop):
            pop = SymRange(0, pop)
        s = as_symlist(e, pop)
        if s is None:
            raise Unsupported("choice from a collection")
        if isinstance(pop, SymArr):
            i0 = z3.Int(fresh_name("i"))
            x0 = pop.at(SNum(i0))
            if is_num(x0) and z3.is_true(z3.simplify(lift_num(x0) == i0)):
                pop = SymRange(0, pop.n)  # arange
        n = lift_num(s.n)
        m = lift_num(size)
        if replace:
            e.do_raise("ValueError", "choice", Or(m < 0, And(n <= 0, m > 0)))
        else:
            e.do_raise("ValueError", "choice", Or(m < 0, m > n))
        vs = e.path_vars()
        sorts = [v.sort() for v in vs]
        f = z3.Function(fresh_name("choice"), *sorts, z3.IntSort(), z3.IntSort())
        inv = z3.Function(fresh_name("choice_inv"), *sorts, z3.IntSort(), z3.IntSort())
        bv = z3.Int(fresh_name("i"))

        drawn = z3.Function(fresh_name("drawn"), *sorts, z3.IntSort(), z3.BoolSort())
        from pv import logic
        logic.DEFS[drawn.name()] = ([*vs, bv], z3.Implies(drawn(*vs, bv), z3.And(bv >= 0, bv < n, m > 0)))
        (logic.enumeration if replace else logic.bijection)(
            *((f, lambda i: And(i >= 0, i < m), lambda x: drawn(*vs, x), inv) if replace else
              (f, inv, lambda i: And(i >= 0, i < m), lambda x: drawn(*vs, x))), vs)

        def at(i):
            t = f(*vs, lift_num(i))
            return s.at(SNum(t))
        return self.log(e, "choice", (pop, size, replace), SymArr(size, at), extra=dict(f=f, inv=inv, bv=bv, drawn=drawn))

    def m_normal(self, e, a, k):
        from pv.models import SymArr
        if set(k) - {"loc", "scale"} or len(a) > 2:
            raise Unsupported("normal with a size")
        loc = e.force(a[0] if a else k.get("loc", 0))
        sc = e.force(a[1] if len(a) > 1 else k.get("scale", 1))
        vs = e.path_vars()
        if is_num(loc) and is_num(sc):
            return self.log(e, "normal", (loc, sc), SNum(self.fresh(e, "normal", z3.RealSort())))
        n = None
        for x in (loc, sc):
            if isinstance(x, SymArr):
                if n is not None and not e.entails(lift_num(n) == lift_num(x.n)):
                    raise Unsupported("normal: lengths not known to agree")
                n = x.n
            elif not is_num(x):
                raise Unsupported("normal of other arrays")
        f = z3.Function(fresh_name("normal"), *[v.sort() for v in vs], z3.IntSort(), z3.RealSort())
        return self.log(e, "normal", (loc, sc), SymArr(n, lambda i: SNum(f(*vs, lift_num(i)))))
