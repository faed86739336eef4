"""C15: Z_err_cond and Z_err (cv/gkp.py).

The sums of the code are recognised as the defining sums term by term; what is said about finite sums are the laws of
lemmas/sums.lean (sums of nonnegative terms, of smaller terms, telescoping)."""
import z3
from pv.prove import Unit
from pv.values import *
from pv.values import zb, SQRT, EXP, PI, ERF
from pv.models import SymArr, real
from pv import logic
from pv.logic import subst, free_vars
from pv import models

GKP = "flamingpy.cv.gkp."
ASSUMPTIONS = ["exp is nonnegative and monotone, erf is monotone with values in [-1, 1] (also as computed); sums and products are exact"]


def elements(name, j, law):
    """A precondition on every element of an array."""
    logic.DEFS[name] = ([j], law)


class Sum:
    """One sum of the code over a single integer variable k in [lo, hi): body(k)."""

    def __init__(self, t, agg):
        self.agg = agg
        if len(agg.vars) != 1 or not z3.is_expr(agg.value):
            raise Unsupported("sum over several variables")
        self.v = agg.vars[0]
        self.guard = zb(agg.guard)
        self.body = real(SNum(agg.value))

    def at(self, k):
        return z3.substitute(self.body, (self.v, k))

    def holds(self, k):
        return z3.substitute(self.guard, (self.v, k))


def poly(x):
    return z3.simplify(x, som=True, expand_power=True) if z3.is_expr(x) else x


def same_real(t, hyps, a, b):
    """The two terms are equal (up to the arithmetic of polynomials)."""
    d = poly(a - b)
    if z3.is_rational_value(d) and d.numerator_as_long() == 0:
        return True
    return t.quick(list(hyps) + [a != b], 4) == z3.unsat


def exponent(x):
    """x = c * exp(y): (c, y)."""
    if z3.is_app(x) and x.decl().name() == "exp":
        return x.arg(0)
    return None


def match(t, s, lo, hi, shift, want, hyps):
    """Is the sum s the one over m in [lo, hi) of exp(want(m))?  shift: k = m + shift."""
    m = z3.Int("m")
    k = m + shift
    inside = z3.And(lo <= m, m < hi)
    if t.quick(list(hyps) + [s.holds(k) != inside], 4) != z3.unsat:
        return False
    y = exponent(z3.simplify(s.at(k)))
    if y is None:
        return False
    return same_real(t, list(hyps) + [inside], y, want(m))


def symbols(t, term):
    """The aggregate symbols inside of a term, with their parameters filled in."""
    out, todo, seen = [], [term], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            a = t.e.aggs.get(x.decl().name())
            if a is not None:
                out.append((x, a))
            todo += x.children()
    return out


def filled(t, x, a):
    """The sum behind the symbol x, its parameters replaced by the arguments."""
    s = Sum(t, a)
    pairs = list(zip(a.params, x.children()))
    if pairs:
        s.guard, s.body = z3.substitute(s.guard, *pairs), z3.substitute(s.body, *pairs)
    return s


def cond_unit(t, kind, use, repl):
    e = t.e
    e.symbolic_pi = e.reals = True
    N = z3.Int("var_num")
    e.assume(N >= 1)
    al = SQRT(PI)
    i = z3.Int("i")
    if kind == "scalar":
        v, x = z3.Reals("v x")
        var, hom = SNum(v), SNum(x)
        n = z3.IntVal(1)
        e.assume(v > 0)
        bit, fr = z3.Int("bit"), z3.Real("frac")
        B, F = SNum(bit), SNum(fr)
        X, V = x, v
    else:
        n = z3.Int("n")
        e.assume(n == 1 if kind == "one" else n >= 2)
        fs = [z3.Function(q, z3.IntSort(), s) for q, s in (("var", z3.RealSort()), ("hom", z3.RealSort()), ("bits", z3.IntSort()), ("fracs", z3.RealSort()))]
        var, hom, B, F = [SymArr(SNum(n), lambda j, f=f: SNum(f(lift_num(j)))) for f in fs]
        B.whole = True
        e.assume(z3.And(i >= 0, i < n))
        V, X, bit, fr = [f(i) for f in fs]
        e.assume(V > 0)
        j = z3.Int("j0")
        elements(fs[0].name(), j, fs[0](j) > 0)
        elements(fs[2].name(), j, z3.Or(fs[2](j) == 0, fs[2](j) == 1))

    # GKP_binner by contract (C14)
    def binner(en, a, k):
        y = a[0]
        if not (y is hom) or not (k.get("return_fraction", a[1] if len(a) > 1 else False) is True):
            raise Unsupported("GKP_binner of something else")
        return (B, F)
    e.contracts[GKP + "GKP_binner"] = binner
    e.assume(z3.And(z3.Or(bit == 0, bit == 1), fr <= al / 2, -fr <= al / 2))
    R = z3.Real("replacement")
    e.assume(z3.And(R >= 0, R <= 1))
    kw = dict(var_num=SNum(N), replace_undefined="bin_location" if repl == "bin_location" else SNum(R))
    if use:
        kw["use_hom_val"] = True
    if repl == "default":
        del kw["replace_undefined"]

    def case(m):
        def num(y):
            q = m.eval(y, model_completion=True)
            return float(q.as_fraction()) if z3.is_rational_value(q) else float(q.approx(12).as_fraction()) if z3.is_algebraic_value(q) else float(q.as_long())
        k = max(1, min(int(num(N)), 12))
        vv, xx = [max(1e-7, min(num(V), 50.0)), 1e-6], [max(-20.0, min(num(fr), 20.0)), 0.5]
        c = dict(vn=k, ru="bin_location" if repl == "bin_location" else 0 if repl == "default" else 0.25, uh=use)
        if kind == "scalar":
            return dict(v=vv[0], x=xx[0], **c)
        return dict(v=vv[:1] if kind == "one" else vv, x=xx[:1] if kind == "one" else xx, **c)
    t.case = case
    r = e.call(e.lookup(GKP + "Z_err_cond"), [var, hom], kw)
    t.no_raise()
    if kind == "array":
        t.prove("as many probabilities as variances", zb(e.eq(e.call(e.builtin("len"), [r]), SNum(n))))
        r = e.getitem(r, SNum(i))
    elif kind == "one" and isinstance(r, SymArr):
        r = e.getitem(r, SNum(i))
    r = e.force(r)
    if not is_num(r):
        raise Unsupported("form of the result")
    res = real(SNum(lift_num(r)))

    # the sums that appear in the result
    z, f = (X, z3.ToReal(1 - bit)) if use else (fr, z3.RealVal(1))
    num, den = z3.Reals("numerator denominator")
    hyps = list(e.assumptions)
    want = {"num": lambda m: -((z - (2 * z3.ToReal(m) + f) * al) * (z - (2 * z3.ToReal(m) + f) * al)) / V,
            "den": lambda m: -((z - z3.ToReal(m) * al) * (z - z3.ToReal(m) * al)) / V}
    links, seen, known = [], set(), {}
    fun = {q: (lambda xs, c=c: c) if kind == "scalar" else (lambda xs, g=z3.Function(q + "_sum", z3.IntSort(), z3.RealSort()): g(*xs)) for q, c in (("num", num), ("den", den))}
    if kind != "scalar":
        num, den = fun["num"]([i]), fun["den"]([i])
    for sym, a in symbols(t, z3.And(res == 0, *[h for h in e.facts if not z3.is_quantifier(h)])):
        d = sym.decl().name()
        if len(a.params) != (0 if kind == "scalar" else 1):
            continue
        if d not in known:
            # for an arbitrary index, here i
            s = filled(t, a.sym(i) if a.params else sym, a)
            known[d] = [q for q, w in want.items() if any(match(t, s, -N, N, sh, w, hyps) for sh in (0, N))]
        if known[d]:
            links.append(sym == fun[known[d][0]](sym.children()))
            seen.add(known[d][0])
    if len(symbols(t, res)) and seen != {"num", "den"}:
        raise Unsupported("the sums of the code are not recognised as the defining ones")
    # laws of sums: terms are not negative; each term of the numerator is below the one of the denominator
    m = z3.Int("m")
    law = [num >= 0, den >= 0]
    t.lean("sums of nonnegative and of smaller terms", "sums.lean")
    t.prove("terms are not negative", z3.And(EXP(want["num"](m)) >= 0, EXP(want["den"](m)) >= 0))
    if not use:
        k = z3.ToReal(m)
        # (z - (2m+1)a)^2 - (z - ma)^2 = (m+1) a ((3m+1) a - 2z)
        A, Z = z3.Reals("a z")
        hy = [A > 0, Z <= A / 2, -Z <= A / 2]
        t.prove("a polynomial identity", poly((Z - (2 * k + 1) * A) * (Z - (2 * k + 1) * A) - (Z - k * A) * (Z - k * A) - (k + 1) * A * ((3 * k + 1) * A - 2 * Z)) == 0)
        u, w = z3.Reals("u w")
        t.prove("sign of the second factor", z3.And(z3.Implies(m >= 0, (3 * k + 1) * A - 2 * Z >= 0), z3.Implies(m <= -2, (3 * k + 1) * A - 2 * Z <= 0)),
                hy + [z3.Implies(m >= 0, k * A >= 0), z3.Implies(m <= -2, k * A <= -2 * A)])
        t.prove("multiples of a", z3.And(z3.Implies(m >= 0, k * A >= 0), z3.Implies(m <= -2, k * A <= -2 * A)), hy)
        t.prove("the product is not negative",
                (k + 1) * u * w >= 0, [u > 0, z3.Or(z3.And(m >= 0, w >= 0), m == -1, z3.And(m <= -2, w <= 0))])
        p, q = z3.Reals("p q")
        t.prove("a larger square has the smaller term", EXP(-p / V) <= EXP(-q / V), [V > 0, p >= q, -p / V <= -q / V])
        t.prove("quotients are monotone", -p / V <= -q / V, [V > 0, p >= q])
        law.append(num <= den)
    h = links + law
    t.prove("where the denominator does not vanish the result is the quotient", z3.Implies(den != 0, res * den == num), h)
    undef = {"bin_location": z3.If(fr >= 0, fr, -fr) / al, "default": z3.RealVal(0)}.get(repl, R)
    t.prove("where the denominator vanishes the result is the replacement", z3.Implies(den == 0, res == undef), h)
    if not use:
        t.prove("a probability", z3.And(res >= 0, res <= 1), [z3.Implies(den != 0, res * den == num), z3.Implies(den == 0, res == undef)] + law)
    t.reach("a vanishing denominator", z3.And(den == 0, *links))
    t.reach("another one", z3.And(den > 0, *links))


def uncond_unit(t, real_num):
    e = t.e
    e.symbolic_pi = e.reals = True
    n, i = z3.Ints("n i")
    e.assume(n >= 1)
    e.assume(z3.And(i >= 0, i < n))
    f = z3.Function("var", z3.IntSort(), z3.RealSort())
    W = z3.Real("var_num") if real_num else z3.Int("var_num")
    e.assume(W > 0)
    V = f(i)
    e.assume(V > 0)
    j = z3.Int("j0")
    elements("var", j, f(j) > 0)
    al = SQRT(PI)
    t.case = lambda m: dict(zerr=[0.3, 1.7], vn=3)
    var = SymArr(SNum(n), lambda j: SNum(f(lift_num(j))))
    r = e.call(e.lookup(GKP + "Z_err"), [var, SNum(W)])
    t.no_raise()
    t.prove("as many probabilities as variances", zb(e.eq(e.call(e.builtin("len"), [r]), SNum(n))))
    t.prove("the variances are left alone", lift_num(var.at(SNum(i))) == V)
    res = real(SNum(lift_num(e.force(e.getitem(r, SNum(i))))))
    syms = symbols(t, res)
    if len(syms) != 1 or len(e.maxima) != 1:
        raise Unsupported("one sum, over a range given by the largest variance")
    M, sign, above = e.maxima[0]
    t.prove("the largest variance is taken", sign > 0)
    hyps = list(e.assumptions) + [x for x in e.facts if not z3.is_quantifier(x)]
    s = filled(t, *syms[0])
    # n_max = 4 q + 1 with q = ceil(var_num * largest variance) // 2
    WM = (W if real_num else z3.ToReal(W)) * M
    q, c = z3.Ints("q c")
    size = [z3.ToReal(c) >= WM, z3.ToReal(c) < WM + 1, 2 * q <= c, c < 2 * q + 2, M > 0, WM > 0]
    nm = 4 * q + 1
    k = z3.Int("k")
    K = 2 * q + 1
    inside = z3.And(k >= 0, k < K)
    # k-th bin of bit 0: from 4 k - n_max to 4 k - n_max + 2
    at = 4 * k - nm
    if t.quick(hyps + size + [inside, z3.Not(s.holds(at))], 8) != z3.unsat:
        raise Unsupported("the range of the sum is not recognised")
    y = z3.Int("y")
    if t.quick(hyps + size + [s.holds(y), z3.Not(z3.And((y + nm) % 4 == 0, y >= -nm, y < nm))], 8) != z3.unsat:
        raise Unsupported("the range of the sum is not recognised")
    t.prove("bins in the summation range", z3.And(z3.Implies(inside, s.holds(at)),
            z3.Implies(s.holds(y), z3.And((y + nm) / 4 >= 0, (y + nm) / 4 < K, y == 4 * ((y + nm) / 4) - nm))), size)
    G = lambda z: ERF(z3.ToReal(z) * al / (2 * V))
    body = s.at(at)
    erfs = []
    todo = [body]
    while todo:
        x = todo.pop()
        if z3.is_app(x):
            if x.decl().name() == "erf":
                erfs.append(x)
            todo += x.children()
    up, lo = z3.Reals("up lo")
    eqs = []
    for x in erfs:
        a = x.arg(0)
        if same_real(t, [V > 0], a, z3.ToReal(at + 2) * al / (2 * V)):
            eqs.append((x, up))
        elif same_real(t, [V > 0], a, z3.ToReal(at) * al / (2 * V)):
            eqs.append((x, lo))
        else:
            raise Unsupported("bounds of the integral are not recognised")
    term = z3.substitute(body, *eqs)
    sgn = [w for w in (1, -1) if same_real(t, [], term, w * (up - lo) / 2)]
    t.prove("each term is the Gaussian mass of a bin", len(sgn) == 1)
    if len(sgn) != 1:
        return
    total = z3.Real("mass")
    t.prove("1 minus the mass of all the bins", res == 1 - total, [syms[0][0] == sgn[0] * total])
    # laws of sums: 0 <= mass <= (G(last) - G(first)) / 2
    t.lean("sums of nonnegative and of smaller terms, telescoping", "sums.lean")
    p, w = z3.Reals("p w")
    a, b = z3.Ints("a b")
    t.prove("bounds of the bins in order", z3.Implies(a <= b, z3.ToReal(a) * al / (2 * V) <= z3.ToReal(b) * al / (2 * V)),
            [p == al / (2 * V), p >= 0, z3.ToReal(a) * al / (2 * V) == z3.ToReal(a) * p, z3.ToReal(b) * al / (2 * V) == z3.ToReal(b) * p])
    t.prove("a positive scale", al / (2 * V) >= 0, [al > 0])
    t.prove("multiples of it", z3.ToReal(a) * al / (2 * V) == z3.ToReal(a) * (al / (2 * V)))
    inc = lambda x_, y_: z3.ToReal(x_) * al / (2 * V) <= z3.ToReal(y_) * al / (2 * V)
    t.prove("terms are not negative", G(at) <= G(at + 2), [inc(at, at + 2)])
    t.prove("terms are below the steps of the telescoping sum", G(at + 2) <= G(at + 4), [inc(at + 2, at + 4)])
    first, last = z3.Reals("first last")
    t.prove("a probability", z3.And(1 - total >= 0, 1 - total <= 1), [total >= 0, total <= (last - first) / 2, last <= 1, first >= -1])
    t.prove("erf is within its bounds", z3.And(G(at) <= 1, G(at) >= -1))


def units():
    us = []
    for kind in ("scalar", "array", "one"):
        for use in (False, True):
            for repl in ("default", "number", "bin_location"):
                us.append(Unit(f"Z_err_cond {kind}, {'whole outcome' if use else 'fraction'}, undefined: {repl}", cond_unit, (kind, use, repl)))
    us += [Unit(f"Z_err, {'real' if x else 'whole'} range factor", uncond_unit, (x,)) for x in (True, False)]
    return us
