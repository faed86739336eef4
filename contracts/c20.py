"""C20: the named graph states, for every n."""
from pv.prove import Unit
from contracts.absgraph import *

GS = "flamingpy.utils.graph_states."


def linear_unit(t, fn):
    e = t.e
    n = z3.Int("n")
    if fn == "bell":
        n = z3.IntVal(2)
        G = e.call(e.lookup(GS + "bell"), [])
    else:
        e.assume(n >= 1)
        t.small = [n]
        t.case = lambda m: dict(f="linear_cluster", n=m.eval(n, model_completion=True).as_long())
        G = e.call(e.lookup(GS + "linear_cluster"), [SNum(n)])
    t.no_raise()
    i, j, y, z = z3.Ints("i j y z")
    t.prove("nodes are the n points of a line", zb(models.graph_has_node(e, G, (SNum(i), SNum(y), SNum(z)))) == z3.And(i >= 0, i < n, y == 0, z == 0))
    t.prove("edges join consecutive points", zb(models.graph_has_edge(e, G, (SNum(i), 0, 0), (SNum(j), 0, 0))) == z3.And(
        i >= 0, j >= 0, i < n, j < n, z3.Or(i == j + 1, j == i + 1)))


def refuse_unit(t, fn):
    e = t.e
    n = z3.Int("n")
    e.assume(n < 1)
    t.small = [n]
    t.case = lambda m: dict(f=fn, bad=m.eval(n, model_completion=True).as_long())
    e.call(e.lookup(GS + fn), [SNum(n)])
    t.prove("integers below 1 are refused", zb(t.raised("ValueError")))


def refuse_real_unit(t, fn):
    e = t.e
    x = z3.Real("x")
    t.case = lambda m: dict(f=fn, bad=float(m.eval(x, model_completion=True).as_fraction()))
    e.call(e.lookup(GS + fn), [SNum(x)])
    t.prove("numbers that are not integers are refused", zb(t.raised("ValueError")))


def refuse_other_unit(t, fn):
    e = t.e
    for v in ("3", None, (4,)):
        n0 = len(e.raises)
        e.call(e.lookup(GS + fn), [v])
        r = [x for x in e.raises[n0:] if x["exc"] == "ValueError"]
        t.prove(f"{v!r} is refused", Or(*[x["cond"] for x in r]))


FNS = ("star_graph", "complete_graph", "linear_cluster", "ring_graph")


def units():
    out = [Unit("linear_cluster", linear_unit, ("linear_cluster",)), Unit("bell", linear_unit, ("bell",))]
    for f in FNS:
        out.append(Unit(f + " refuses integers below 1", refuse_unit, (f,)))
        out.append(Unit(f + " refuses reals", refuse_real_unit, (f,)))
        out.append(Unit(f + " refuses other types", refuse_other_unit, (f,)))
    return out


def same_point(e, key, q):
    return zb(e.eq(key, q))


def circle(n, a, rounded):
    """The a-th of n points on the unit circle."""
    x = z3.RealVal(2) * PI * z3.ToReal(a) / z3.ToReal(n)
    f = (lambda y: ROUND(y, z3.IntVal(5))) if rounded else (lambda y: y)
    return (SNum(f(COS(x))), SNum(f(SIN(x))), 0)


def angle_lemmas(t, n, terms):
    """Facts about the angles 2 pi a / n (proved, then used)."""
    e = t.e
    for a in terms:
        x = z3.RealVal(2) * PI * z3.ToReal(a) / z3.ToReal(n)
        for f, g in ((z3.And(n > 0, a == n), x == 2 * PI), (z3.And(n > 0, a == 0), x == 0), (z3.And(n > 0, a >= 0, a < n), z3.And(x >= 0, x < 2 * PI))):
            yield z3.Implies(f, g)


def witness(t, name, hyp, goals, lemmas):
    """Prove hyp -> one of the candidate goals."""
    base = [h for h in t.hyps() if not z3.is_quantifier(h)]
    for g in goals[:-1]:
        if is_false(z3.simplify(g)):
            continue
        if t.quick(base + lemmas + [hyp, z3.Not(g)]) == z3.unsat:
            t.prove(name, z3.Implies(hyp, g), lemmas, qf=True)
            return
    t.prove(name, z3.Implies(hyp, goals[-1]), lemmas, qf=True)


def circle_unit(t, fn):
    e = t.e
    e.symbolic_pi = e.reals = True
    n = z3.Int("n")
    e.assume(n >= 2)
    t.small = [n]
    t.case = lambda m: dict(f=fn, n=m.eval(n, model_completion=True).as_long())
    G = e.call(e.lookup(GS + fn), [SNum(n)])
    t.no_raise()
    star = fn == "star_graph"
    N = n - 1 if star else n  # points on the circle
    a, b = z3.Ints("a b")

    def P(x):
        return circle(N, x, not star)
    centre = (0, 0, 0)

    def lem(*xs):
        """Instances of real arithmetic about the angles, each proved on its own."""
        out = []
        for x in xs:
            ang = z3.RealVal(2) * PI * z3.ToReal(x) / z3.ToReal(N)
            out.append(z3.Implies(x == N, ang == 2 * PI))
            out.append(z3.Implies(x == 0, ang == 0))
            out.append(z3.Implies(z3.And(x >= 0, x < N), z3.And(ang >= 0, ang < 2 * PI)))
            for y in xs:
                if y is not x:
                    an2 = z3.RealVal(2) * PI * z3.ToReal(y) / z3.ToReal(N)
                    out.append(z3.Implies(x != y, ang != an2))
        return out
    for i, f in enumerate(lem(a, b)):
        t.prove(f"angle lemma {i}", f)

    def sums(vs):
        """2 pi j / n + 2 pi i / n is the angle of i + j."""
        out = []
        for x in vs:
            for y in vs:
                if x is not y:
                    ang = lambda w: z3.RealVal(2) * PI * z3.ToReal(w) / z3.ToReal(N)
                    out.append(ang(x) + ang(y) == ang(x + y))
        return out
    for i, f in enumerate(sums([a, b])):
        t.prove(f"sum lemma {i}", f)
    g = G.store

    def pick(fct):
        return [x for x in g.data[fct] if x.op != "del" and not (is_false(t.e.decide(zb(x.guard))) if not x.vars else False)]
    # every node is the centre of the star or one of the points
    for k, en in enumerate(pick("%nodes")):
        vs = list(en.vars)
        cand = [(centre, z3.BoolVal(star))] if star else []
        for w in [*vs, *[z3.If(v == N, 0, v) for v in vs], *[v - 1 for v in vs], *[v + 1 for v in vs], *[x + y for x in vs for y in vs if x is not y], z3.IntVal(0)]:
            cand.append((P(w), z3.And(w >= 0, w < N)))
        ws = [w for w in vs]
        goals = [z3.And(c, same_point(e, en.key, q)) for q, c in cand]
        L = lem(*ws, *[v - 1 for v in vs]) + sums(ws) + t.instances(vs) + [PI > 3]
        witness(t, f"node family {k}", zb(en.guard), goals + [z3.Or(*goals)], L)
    # every edge is an expected one
    def expected(x, y):
        if star:
            return z3.BoolVal(False)
        r = z3.And(x >= 0, y >= 0, x < N, y < N, x != y)
        if fn == "ring_graph":
            r = z3.And(r, z3.Or(y == x + 1, x == y + 1, z3.And(x == 0, y == N - 1), z3.And(y == 0, x == N - 1)))
        return r
    for k, en in enumerate(pick("%edges")):
        vs = list(en.vars)
        ts = [*[v - 1 for v in vs], *[z3.If(v == N, 0, v) for v in vs], *vs, *[v + 1 for v in vs], *[x + y for x in vs for y in vs if x is not y][:1], z3.IntVal(0)]
        goals = []
        for x in ts:
            if star:
                for p, q in ((en.key.u, en.key.v), (en.key.v, en.key.u)):
                    goals.append(z3.And(x >= 0, x < N, same_point(e, p, centre), same_point(e, q, P(x))))
            else:
                for y in ts:
                    if x is not y:
                        goals.append(z3.And(expected(x, y), same_point(e, en.key.u, P(x)), same_point(e, en.key.v, P(y))))
        L = lem(*vs, *[v - 1 for v in vs]) + sums(vs) + t.instances(vs) + [PI > 3]
        witness(t, f"edge family {k}", zb(en.guard), goals + [z3.Or(*goals)], L)
    # every expected node and edge is there

    def there(fct, want, hyp, label, consts):
        goals = []
        for en in pick(fct):
            vs = list(en.vars)
            for ws in itertools.product(*[consts for _ in vs]):
                f = subst(zb(en.guard), list(zip(vs, ws)))
                key = subst_value(en.key, list(zip(vs, ws)))
                goals.append(z3.And(f, want(key)))
        witness(t, label, hyp, goals + [z3.Or(*goals)], lem(a, b) + sums([a, b - a]) + t.instances(consts) + [PI > 3])
    tw = [a, b, b - a, a + 1, b + 1, z3.IntVal(0), z3.simplify(N)]
    here = z3.And(a >= 0, a < N)
    there("%nodes", lambda k: same_point(e, k, P(a)), here, "every point is a node", tw) if star else there(
        "%nodes", lambda k: same_point(e, k, P(a)), z3.And(here, b >= 0, b < N, a != b), "every point is a node", tw)

    def linked(p, q):
        return lambda k: z3.Or(z3.And(same_point(e, k.u, p), same_point(e, k.v, q)), z3.And(same_point(e, k.u, q), same_point(e, k.v, p)))
    if star:
        there("%nodes", lambda k: same_point(e, k, centre), here, "the centre is a node", tw)
        there("%edges", linked(centre, P(a)), here, "every leaf is linked to the centre", tw)
        t.prove("the n points differ", z3.Implies(z3.And(a >= 0, b >= 0, a < N, b < N, a != b), z3.Not(same_point(e, P(a), P(b)))), lem(a, b) + [PI > 3])
        t.prove("the centre is not on the circle", z3.Not(same_point(e, P(a), centre)))
    elif fn == "complete_graph":
        there("%edges", linked(P(a), P(b)), z3.And(a >= 0, a < b, b < N), "every two points are linked", tw)
    else:
        there("%edges", linked(P(a), P(b)), z3.And(a >= 0, b == a + 1, b < N), "consecutive points are linked", tw)
        there("%edges", linked(P(a), P(z3.IntVal(0))), a == N - 1, "the last point is linked to the first", tw)


def one_unit(t, fn):
    e = t.e
    G = e.call(e.lookup(GS + fn), [1])
    t.no_raise()
    t.case = lambda m: dict(f=fn, n=1)
    t.prove("one node", e.eq(models.node_count(e, G), 1))
    t.prove("no edge", len(G.store.data["%edges"]) == 0)


_units = units


def units():
    out = _units()
    for f in ("star_graph", "complete_graph", "ring_graph"):
        out.append(Unit(f, circle_unit, (f,)))
    for f in FNS:
        out.append(Unit(f + " of one node", one_unit, (f,)))
    return out


ASSUMPTIONS = ["the points of the circle are computed exactly (floats as reals); in ring and complete graphs they differ after "
               "rounding (precondition)", "rounding to digits is a function of its arguments"]
