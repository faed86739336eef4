"""C14: integer_fractional and GKP_binner (cv/gkp.py)."""
import z3
from pv.prove import Unit
from pv.values import *
from pv.models import SymArr, SymList
from pv import models

GKP = "flamingpy.cv.gkp."
ASSUMPTIONS = ["the quotient x / alpha fits into a 64-bit integer; NumPy's elementwise operations treat every element alike "
               "(proved for scalars and for one-dimensional arrays of any length)"]


def replay(alpha=None):
    def case(m):
        def num(x):
            v = m.eval(x, model_completion=True)
            return float(v.as_fraction()) if z3.is_rational_value(v) else float(v.approx(12).as_fraction()) if z3.is_algebraic_value(v) else float(v.as_long())
        return num
    return case


def argument(t, kind):
    """The outcome(s) of any kind, and the element of it that is looked at."""
    e = t.e
    if kind == "scalar":
        x = z3.Real("x")
        return SNum(x), x, lambda r: r
    X = z3.Function("X", z3.IntSort(), z3.RealSort())
    n = z3.Int("n")
    i = z3.Int("i")
    e.assume(n >= 0)
    e.assume(i >= 0)
    e.assume(i < n)
    cls = SymArr if kind == "array" else SymList
    return cls(SNum(n), lambda j: SNum(X(lift_num(j)))), X(i), lambda r: t.e.getitem(r, SNum(i))


def int_frac_unit(t, kind):
    e = t.e
    e.symbolic_pi = e.reals = True
    a = z3.Real("alpha")
    e.assume(a > 0)
    arg, x, at = argument(t, kind)

    def case(m):
        f = replay()(m)
        return dict(x=f(x) if kind == "scalar" else [f(x)], a=f(a))
    t.case = case
    n, f = e.unpack(e.call(e.lookup(GKP + "integer_fractional"), [arg, SNum(a)]))
    t.no_raise()
    if kind != "scalar":
        t.prove("as many integer parts as outcomes", e.eq(e.call(e.builtin("len"), [n]), arg.n))
        t.prove("as many fractional parts as outcomes", e.eq(e.call(e.builtin("len"), [f]), arg.n))
    n, f = lift_num(at(n)), lift_num(at(f))
    t.prove("the integer part is an integer", n.sort() == z3.IntSort())
    t.prove("x = n * alpha + f", x == z3.ToReal(n) * a + f)
    t.prove("|f| <= alpha / 2", z3.And(f <= a / 2, -f <= a / 2))
    t.reach("a negative fractional part", f < 0)


def binner_unit(t, kind):
    """GKP_binner against the contract of integer_fractional: a pair (n, f) with x = n alpha + f and |f| <= alpha / 2."""
    e = t.e
    e.symbolic_pi = e.reals = True
    arg, x, at = argument(t, kind)
    t.case = lambda m: dict(x=replay()(m)(x) if kind == "scalar" else [replay()(m)(x)], a=1.7724538509055159)
    bits, frac = e.unpack(e.call(e.lookup(GKP + "GKP_binner"), [arg], {"return_fraction": True}))
    only = e.call(e.lookup(GKP + "GKP_binner"), [arg])
    t.no_raise()
    b, f, b2 = lift_num(at(bits)), lift_num(at(frac)), lift_num(at(only))
    al = SQRT(PI)
    n = z3.Int("m")
    t.prove("a bit", z3.Or(b == 0, b == 1))
    t.prove("the same bit with and without the fraction", b == b2)
    t.prove("|f| <= alpha / 2", z3.And(f <= al / 2, -f <= al / 2))
    # any integer part for this fractional part is n mod 2
    t.prove("n mod 2 for the integer part n", z3.Implies(x == z3.ToReal(n) * al + f, b == n % 2))
    N, F = e.unpack(e.call(e.lookup(GKP + "integer_fractional"), [arg, SNum(al)]))
    t.prove("an integer part exists", z3.And(x == z3.ToReal(lift_num(at(N))) * al + f, lift_num(at(F)) == f))


def units():
    out = []
    for k in ("scalar", "array"):
        out.append(Unit(f"integer_fractional {k}", int_frac_unit, (k,)))
        out.append(Unit(f"GKP_binner {k}", binner_unit, (k,)))
    out.append(Unit("GKP_binner list", binner_unit, ("list",)))
    return out
