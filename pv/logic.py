"""First-order helpers: exact elimination of bound variables, substitution."""
import z3

from pv.values import (
    And, Or, Not, is_true, is_false, fresh_name, Unsupported, zb,
)


_fv_memo = {}
_EMPTY = {}


def free_vars(e):
    """Uninterpreted constants of e: {id: const} (memoised per subterm; do not mutate)."""
    k = e.get_id()
    m = _fv_memo.get(k)
    if m is not None:
        return m[0]
    st = [e]
    while st:
        t = st[-1]
        i = t.get_id()
        if i in _fv_memo:
            st.pop()
            continue
        if z3.is_quantifier(t):
            ch = [t.body()]
        elif z3.is_var(t):
            ch = []
        else:
            ch = t.children()
            if not ch:
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    _fv_memo[i] = ({i: t}, t)
                else:
                    _fv_memo[i] = (_EMPTY, t)
                st.pop()
                continue
        todo = [c for c in ch if c.get_id() not in _fv_memo]
        if todo:
            st.extend(todo)
            continue
        r = _EMPTY
        own = False
        for c in ch:
            d = _fv_memo[c.get_id()][0]
            if not d or d is r:
                continue
            if not r:
                r = d
                continue
            if all(x in r for x in d):
                continue
            if not own:
                r, own = dict(r), True
            r.update(d)
        _fv_memo[i] = (r, t)
        st.pop()
    return _fv_memo[k][0]


def contains(e, v):
    return v.get_id() in free_vars(e)


def subst(f, pairs):
    if not pairs or isinstance(f, bool):
        return f
    return z3.substitute(f, *pairs)


# ------------------------------------------------------------ linear forms
def lin(e):
    """Integer term -> ({atom id: (atom, coeff)}, const)."""
    co, k = {}, 0

    def go(t, m):
        nonlocal k
        if z3.is_int_value(t):
            k += m * t.as_long()
            return
        if z3.is_add(t):
            for c in t.children():
                go(c, m)
            return
        if z3.is_sub(t):
            ch = t.children()
            go(ch[0], m)
            for c in ch[1:]:
                go(c, -m)
            return
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            go(t.arg(0), -m)
            return
        if z3.is_mul(t):
            cs = t.children()
            nums = [c for c in cs if z3.is_int_value(c)]
            rest = [c for c in cs if not z3.is_int_value(c)]
            if len(rest) <= 1:
                mm = m
                for c in nums:
                    mm *= c.as_long()
                if rest:
                    go(rest[0], mm)
                else:
                    k += mm
                return
        i = t.get_id()
        a, c = co.get(i, (t, 0))
        co[i] = (t, c + m)

    go(e, 1)
    return {i: (a, c) for i, (a, c) in co.items() if c != 0}, k


def unlin(co, k):
    terms = []
    for a, c in co.values():
        terms.append(a if c == 1 else c * a)
    if k or not terms:
        terms.append(z3.IntVal(k))
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


INJECTIVE = set()
ORDERS = set()  # names of strict total orders f(xs, ys)
DEFS = {}  # name of a function -> (variables, formula that holds for f(variables))


def split_injective(g):
    """f(a..) == f(b..) for an injective f, as equations of the arguments."""
    a, b = g.arg(0), g.arg(1)
    if (
        z3.is_app(a) and z3.is_app(b) and a.num_args() and a.decl().kind() == z3.Z3_OP_UNINTERPRETED
        and a.decl().eq(b.decl()) and a.decl().name() in INJECTIVE
    ):
        return [x == y for x, y in zip(a.children(), b.children())]
    return None


def conjuncts(f):
    out = []

    def go(g, neg):
        if isinstance(g, bool):
            g = z3.BoolVal(g)
        if z3.is_not(g):
            return go(g.arg(0), not neg)
        if not neg and z3.is_and(g):
            for c in g.children():
                go(c, False)
            return
        if not neg and z3.is_eq(g):
            sp = split_injective(g)
            if sp is not None:
                for c in sp:
                    go(c, False)
                return
        if neg and z3.is_or(g):
            for c in g.children():
                go(c, True)
            return
        if neg and z3.is_app_of(g, z3.Z3_OP_IMPLIES):
            go(g.arg(0), False)
            go(g.arg(1), True)
            return
        out.append(z3.Not(g) if neg else g)

    go(f, False)
    return out


def _first_ite_with(e, vids):
    """A (cond) of some ite subterm of e that mentions the variables."""
    st = [e]
    seen = set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE) and t.sort() != z3.BoolSort():
            if any(i in vids for i in free_vars(t)):
                return t.arg(0)
        st.extend(t.children())
    return None


def _ite_in_equation(inside, vids):
    """Condition of an if-then-else inside an equation that mentions the variables."""
    for c in inside:
        if z3.is_eq(c) and c.arg(0).sort() != z3.BoolSort():
            cond = _first_ite_with(c, vids)
            if cond is not None:
                return cond
    return None


def _disjuncts(c):
    """Exclusive-or-not list of disjuncts of a conjunct, or None."""
    if z3.is_or(c):
        return c.children()
    if z3.is_not(c) and z3.is_and(c.arg(0)):
        return [Not(x) for x in c.arg(0).children()]
    if z3.is_app_of(c, z3.Z3_OP_IMPLIES):
        return [Not(c.arg(0)), c.arg(1)]
    if z3.is_app_of(c, z3.Z3_OP_ITE) and c.sort() == z3.BoolSort():
        return [And(c.arg(0), c.arg(1)), And(Not(c.arg(0)), c.arg(2))]
    if z3.is_eq(c) and c.arg(0).sort() == z3.BoolSort():
        a, b = c.arg(0), c.arg(1)
        return [And(a, b), And(Not(a), Not(b))]
    if z3.is_not(c) and z3.is_eq(c.arg(0)) and c.arg(0).arg(0).sort() == z3.BoolSort():
        a, b = c.arg(0).arg(0), c.arg(0).arg(1)
        return [And(a, Not(b)), And(Not(a), b)]
    return None


def _split_score(ds, vids):
    """Disjuncts that do not pin a variable by an equation, then their number."""
    loose = 0
    for d in ds:
        if isinstance(d, bool):
            continue
        hit = False
        for c in conjuncts(d):
            if z3.is_eq(c) and c.arg(0).sort() != z3.BoolSort() and any(i in vids for i in free_vars(c)):
                hit = True
                break
        loose += not hit
    return (loose > 0, loose + len(ds))


def _best_split(inside, vids):
    best = None
    for n, c in enumerate(inside):
        if not any(i in vids for i in free_vars(c)):
            continue
        ds = _disjuncts(c)
        if ds is None:
            continue
        sc = _split_score(ds, vids)
        if best is None or sc < best[0]:
            best = (sc, n, ds)
    return best


# name -> (inverse, domain, range): one-to-one on its domain (functions of the last argument; the others are parameters)
INVERSES = {}
# name -> (domain, members): the values of the function over its domain, some perhaps more than once
ENUMS = {}


def bijection(f, inv, dom, ran, params=()):
    """f maps dom one-to-one onto ran, with inverse inv (z3 functions of params + one argument)."""
    x, y = z3.Const(fresh_name("x"), f.domain(len(params))), z3.Const(fresh_name("y"), inv.domain(len(params)))
    DEFS[f.name()] = ([*params, x], z3.Implies(zb(dom(x)), z3.And(zb(ran(f(*params, x))), inv(*params, f(*params, x)) == x)))
    DEFS[inv.name()] = ([*params, y], z3.Implies(zb(ran(y)), z3.And(zb(dom(inv(*params, y))), f(*params, inv(*params, y)) == y)))
    INVERSES[f.name()] = (inv, dom, ran)
    INVERSES[inv.name()] = (f, ran, dom)


TUPLES = []


def bijection_n(fs, inv, dom, ran):
    """The functions fs (of one argument) together map dom one-to-one onto the tuples in ran, with inverse inv."""
    x = z3.Const(fresh_name("x"), fs[0].domain(0))
    ys = [z3.Const(fresh_name("y"), f.range()) for f in fs]
    for f in fs:
        DEFS[f.name()] = ([x], z3.Implies(zb(dom(x)), z3.And(zb(ran(*[g(x) for g in fs])), inv(*[g(x) for g in fs]) == x)))
    DEFS[inv.name()] = (ys, z3.Implies(zb(ran(*ys)), z3.And(zb(dom(inv(*ys))), *[f(inv(*ys)) == y for f, y in zip(fs, ys)])))
    TUPLES.append((fs, inv, dom, ran))


def invert_tuples(inside, vids):
    """The same for bijections onto tuples."""
    for fs, inv, dom, ran in TUPLES:
        names = [f.name() for f in fs]
        hits = {}
        for n, c in enumerate(inside):
            if not z3.is_eq(c) or solved(c, vids):
                continue
            for l, r in isolated(c, vids):
                if not (z3.is_app(l) and l.num_args() and l.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                    continue
                if l.decl().name() == inv.name() and any(_mentions(x, vids) for x in l.children()):
                    d = zb(ran(*l.children()))
                    if _prove(z3.Implies(z3.And(*inside), d)):
                        new = [d, zb(dom(r)), *[x == f(r) for x, f in zip(l.children(), fs)]]
                        return inside[:n] + [y for x in new for y in conjuncts(z3.simplify(x))] + inside[n + 1:]
                elif l.decl().name() in names and _mentions(l.arg(0), vids):
                    h = hits.setdefault(l.arg(0).get_id(), (l.arg(0), {}))[1]
                    h.setdefault(l.decl().name(), (n, r))
        for t, h in hits.values():
            if len(h) == len(fs):
                rs = [h[n][1] for n in names]
                used = {h[n][0] for n in names}
                d = zb(dom(t))
                if len(used) == len(fs) and _prove(z3.Implies(z3.And(*inside), d)):
                    new = [d, zb(ran(*rs)), t == inv(*rs)]
                    return [c for n, c in enumerate(inside) if n not in used] + [y for x in new for y in conjuncts(z3.simplify(x))]
    return None


def enumeration(f, dom, members, pos, params=()):
    """f maps dom onto the members (perhaps not one-to-one); pos: some place of each member."""
    x, y = z3.Const(fresh_name("x"), f.domain(len(params))), z3.Const(fresh_name("y"), pos.domain(len(params)))
    DEFS[f.name()] = ([*params, x], z3.Implies(zb(dom(x)), zb(members(f(*params, x)))))
    DEFS[pos.name()] = ([*params, y], z3.Implies(zb(members(y)), z3.And(zb(dom(pos(*params, y))), f(*params, pos(*params, y)) == y)))
    ENUMS[f.name()] = (dom, members)


def _mentions(t, vids):
    return any(i in vids for i in free_vars(t))


def solved(c, vids):
    """The equation says what one of the variables is."""
    a, b = c.arg(0), c.arg(1)
    return any(x.get_id() in vids and not contains(y, x) for x, y in ((a, b), (b, a)))


def isolated(c, vids):
    """Pairs (l, r) with  c  equivalent to l == r."""
    a, b = c.arg(0), c.arg(1)
    yield a, b
    yield b, a
    if a.sort() == z3.IntSort() and (z3.is_add(a) or z3.is_add(b)):
        co, k = lin(a - b)
        for i, (t, m) in co.items():
            if m in (1, -1) and _mentions(t, vids):
                rest = {j: (x, -w if m == 1 else w) for j, (x, w) in co.items() if j != i}
                yield t, unlin(rest, -k if m == 1 else k)


def invert(inside, vids):
    """Conjuncts with one equation f(t) == c replaced by t == f^-1(c), or None."""
    if TUPLES:
        r = invert_tuples(inside, vids)
        if r is not None:
            return r
    if not INVERSES and not ENUMS:
        return None
    for n, c in enumerate(inside):
        if not z3.is_eq(c) or solved(c, vids):
            continue
        for l, r in isolated(c, vids):
            if not (z3.is_app(l) and l.num_args() and l.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                continue
            name, t = l.decl().name(), l.arg(l.num_args() - 1)
            if name in INVERSES and _mentions(t, vids) and not any(_mentions(x, vids) for x in l.children()[:-1]):
                inv, dom, ran = INVERSES[name]
                d = zb(dom(t))
                if _prove(z3.Implies(z3.And(*inside), d)):
                    ps = l.children()[:-1]
                    return inside[:n] + [x for x in conjuncts(z3.simplify(zb(And(d, ran(r), t == inv(*ps, r)))))] + inside[n + 1:]
    return None


def from_members(v, inside):
    """exists v. inside, for a v that only selects a member of an enumeration; or None."""
    for n, c in enumerate(inside):
        if not z3.is_eq(c):
            continue
        for l, r in isolated(c, {v.get_id()}):
            if not (z3.is_app(l) and l.num_args() and l.decl().name() in ENUMS and l.arg(l.num_args() - 1).eq(v)):
                continue
            if contains(r, v) or any(contains(x, v) for x in l.children()[:-1]):
                continue
            dom, mem = ENUMS[l.decl().name()]
            d = zb(dom(v))
            rest = inside[:n] + inside[n + 1:]
            with_v = [x for x in rest if contains(x, v)]
            if _prove(z3.Implies(z3.And(*inside), d)) and all(_prove(z3.Implies(d, x)) for x in with_v):
                return And(mem(r), *[x for x in rest if not contains(x, v)])
    return None


def apps_at(t, v, acc):
    """Names of functions applied to v as the last argument (v nowhere else in the application)."""
    if not z3.is_expr(t):
        return
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x) and x.num_args():
            if x.decl().name() in ENUMS and x.arg(x.num_args() - 1).eq(v) and not any(contains(y, v) for y in x.children()[:-1]):
                acc.setdefault(x.decl().name(), x)
            todo.extend(x.children())


def by_member(v, guard, terms):
    """If v only selects a member f(v) of an enumeration: (f(v), fresh member, guard on it); else None."""
    acc = {}
    for t in [guard, *terms]:
        apps_at(t, v, acc)
    for name, app in acc.items():
        dom, mem = ENUMS[name]
        x = z3.Const(fresh_name("m"), app.sort())
        if any(contains(subst(t, [(app, x)]), v) for t in terms if z3.is_expr(t)):
            continue
        cs = conjuncts(z3.simplify(zb(guard)))
        d = zb(dom(v))
        rest = [subst(c, [(app, x)]) for c in cs]
        if _prove(z3.Implies(z3.And(*cs), d)) and all(_prove(z3.Implies(d, c)) for c in rest if contains(c, v)):
            return app, x, And(mem(x), *[c for c in rest if not contains(c, v)])
    return None


def _prove(f):
    from pv.values import _hooks

    h = _hooks.get("prove")
    f = z3.simplify(f)
    return z3.is_true(f) or (h is not None and h(f))


def count(vs, f):
    """The number of values of the integer variables with f, for variables determined by equations and one interval."""
    while True:
        f = z3.simplify(f)
        if z3.is_false(f):
            return z3.IntVal(0)
        vids = {v.get_id() for v in vs}
        if not vs:
            return z3.If(f, z3.IntVal(1), z3.IntVal(0))
        if any(v.sort() != z3.IntSort() for v in vs):
            return None
        inside = conjuncts(f)
        n = whole_numbers(inside, vids)
        if n is not None:
            f = zb(And(*n))
            continue
        hit = None
        for c in inside:
            if hit is not None or not z3.is_eq(c) or c.arg(0).sort() != z3.IntSort():
                continue
            co, k = lin(c.arg(0) - c.arg(1))
            for v in vs:
                if v.get_id() in co and abs(co[v.get_id()][1]) == 1:
                    rest = {i: x for i, x in co.items() if i != v.get_id()}
                    if not any(contains(x[0], v) for x in rest.values()):
                        hit = (c, v, unlin({i: (x, -m) for i, (x, m) in rest.items()}, -k) if co[v.get_id()][1] > 0 else unlin(rest, k))
                        break
        if hit is None:
            break
        c, v, t = hit
        f = subst(zb(And(*[x for x in inside if x is not c])), [(v, t)])
        vs = [w for w in vs if not w.eq(v)]
    if len(vs) != 1:
        return None
    v, los, his, other = vs[0], [], [], []
    for c in inside:
        if not contains(c, v):
            other.append(c)
            continue
        neg = z3.is_not(c)
        a = c.arg(0) if neg else c
        if not (z3.is_le(a) or z3.is_ge(a) or z3.is_lt(a) or z3.is_gt(a)) or a.arg(0).sort() != z3.IntSort():
            return None
        # as  d >= 0
        x, y = a.arg(0), a.arg(1)
        d = y - x if z3.is_le(a) else x - y if z3.is_ge(a) else y - x - 1 if z3.is_lt(a) else x - y - 1
        if neg:
            d = -d - 1
        co, k = lin(d)
        if v.get_id() not in co or abs(co[v.get_id()][1]) != 1:
            return None
        rest = {i: x for i, x in co.items() if i != v.get_id()}
        if any(contains(x[0], v) for x in rest.values()):
            return None
        if co[v.get_id()][1] > 0:
            los.append(unlin({i: (x, -m) for i, (x, m) in rest.items()}, -k))
        else:
            his.append(unlin(rest, k))
    if not los or not his:
        return None
    lo, hi = los[0], his[0]
    for x in los[1:]:
        lo = z3.If(x > lo, x, lo)
    for x in his[1:]:
        hi = z3.If(x < hi, x, hi)
    return z3.If(z3.And(*other, hi >= lo), hi - lo + 1, z3.IntVal(0))


def over_integers(c, vids):
    """A real equality in which the variables occur only in whole numbers, as an equation of whole numbers (or None)."""
    if not z3.is_eq(c) or c.arg(0).sort() != z3.RealSort():
        return None
    if vids and not any(i in vids for i in free_vars(c)):
        return None
    d = z3.simplify(c.arg(0) - c.arg(1), som=True)
    whole, rest = [], []
    for t in d.children() if z3.is_add(d) else [d]:
        co, at = 1, t
        if z3.is_rational_value(t):
            rest.append(t)
            continue
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
            co, at = t.arg(0).as_fraction(), t.arg(1)
        if at.decl().kind() == z3.Z3_OP_TO_REAL:
            whole.append((co, at.arg(0)))
        elif any(i in vids for i in free_vars(at)):
            return None
        else:
            rest.append(t)
    from math import lcm
    from fractions import Fraction

    scale = lcm(*[Fraction(co).denominator for co, at in whole])
    if not whole:
        return None
    lhs = z3.Sum([z3.IntVal(int(co * scale)) * at for co, at in whole])
    if not rest:
        return lhs == 0
    r = z3.simplify(-(z3.Sum(rest) * scale if len(rest) > 1 else rest[0] * scale))
    if z3.is_rational_value(r):
        r = r.as_fraction()
        return lhs == z3.IntVal(int(r)) if r.denominator == 1 else False
    return And(z3.IsInt(r), lhs == z3.ToInt(r))


def whole_numbers(inside, vids):
    """The formulas with equations of whole numbers instead of real ones (None: nothing to do)."""
    out, hit = [], False
    for c in inside:
        n = over_integers(c, vids)
        out.append(c if n is None else zb(n))
        hit = hit or n is not None
    return out if hit else None


def apart(f):
    """f with its equations between reals split into a whole and a fractional part."""
    cs = conjuncts(zb(f))
    return z3.And(*(whole_numbers(cs, ()) or cs))


def exists(vs, f, depth=0):
    """A formula equivalent to  exists vs. f,  quantifier-free if possible."""
    if isinstance(f, bool):
        return f
    f = z3.simplify(f)
    if is_true(f):
        return True
    if is_false(f):
        return False
    fv = free_vars(f)
    vs = [v for v in vs if v.get_id() in fv]
    if not vs:
        return f
    vids = {v.get_id() for v in vs}
    if z3.is_or(f):
        return Or(*[exists(vs, c, depth) for c in f.children()])
    cs = conjuncts(f)
    inside, outside = [], []
    for c in cs:
        (inside if any(i in vids for i in free_vars(c)) else outside).append(c)
    if outside:
        return And(*outside, exists(vs, And(*inside), depth))
    # independent groups of variables
    if len(vs) > 1:
        groups = []
        for c in inside:
            ids = {i for i in free_vars(c) if i in vids}
            hit = [g for g in groups if g[0] & ids]
            new = (set(ids), [c])
            for g in hit:
                new[0].update(g[0])
                new[1].extend(g[1])
                groups.remove(g)
            groups.append(new)
        if len(groups) > 1:
            return And(
                *[
                    exists([v for v in vs if v.get_id() in g[0]], And(*g[1]), depth)
                    for g in groups
                ]
            )
    if INVERSES or ENUMS or TUPLES:
        n = invert(inside, vids)
        if n is not None:
            return exists(vs, And(*n), depth)
        for v in vs:
            n = from_members(v, inside) if depth < 12 else None
            if n is not None:
                return exists([w for w in vs if not w.eq(v)], n, depth + 1)
    n = whole_numbers(inside, vids)
    if n is not None:
        return exists(vs, And(*n), depth)
    # equalities
    best = None
    for c in inside:
        if not z3.is_eq(c):
            continue
        a, b = c.arg(0), c.arg(1)
        for v in vs:
            if a.sort() != v.sort():
                continue
            if a.sort() == z3.IntSort():
                co, k = lin(a - b)
                if v.get_id() not in co:
                    continue
                coef = co[v.get_id()][1]
                rest = {i: x for i, x in co.items() if i != v.get_id()}
                if any(contains(x[0], v) for x in rest.values()):
                    continue
                score = abs(coef)
                if best is None or score < best[0]:
                    best = (score, c, v, coef, rest, k)
            else:
                for l, r in ((a, b), (b, a)):
                    if l.eq(v) and not contains(r, v):
                        best = (0, c, v, None, r, 0)
        if best is not None and best[0] <= 1:
            break
    if best is not None:
        _, c, v, coef, rest, k = best
        others = [x for x in inside if x is not c]
        if coef is None:
            sol, side = rest, True
        else:
            # coef*v + rest + k == 0   ->  v = -(rest+k)/coef
            if coef > 0:
                t = unlin({i: (x, -m) for i, (x, m) in rest.items()}, -k)
            else:
                t = unlin(rest, k)
            n = abs(coef)
            if n == 1:
                sol, side = t, True
            else:
                t = z3.simplify(t)
                sol, side = t / n, t % n == 0
        body = subst(And(*others), [(v, sol)])
        return exists([w for w in vs if not w.eq(v)], And(side, body), depth)
    # boolean variables
    for v in vs:
        if v.sort() == z3.BoolSort():
            rest = [w for w in vs if not w.eq(v)]
            return Or(
                exists(rest, subst(And(*inside), [(v, z3.BoolVal(True))]), depth),
                exists(rest, subst(And(*inside), [(v, z3.BoolVal(False))]), depth),
            )
    cond = _ite_in_equation(inside, vids) if depth < 12 else None
    if cond is not None:
        body = And(*inside)
        t = subst(body, [(cond, z3.BoolVal(True))])
        e = subst(body, [(cond, z3.BoolVal(False))])
        return Or(exists(vs, And(cond, t), depth + 1), exists(vs, And(Not(cond), e), depth + 1))
    # disjunctive conjuncts
    best = _best_split(inside, vids) if depth < 12 else None
    if best is not None:
        _, n, ds = best
        rest = inside[:n] + inside[n + 1 :]
        return Or(*[exists(vs, And(*rest, d), depth + 1) for d in ds])
    # ite terms
    for c in inside:
        cond = _first_ite_with(c, vids)
        if cond is not None and depth < 12:
            body = And(*inside)
            t = subst(body, [(cond, z3.BoolVal(True))])
            e = subst(body, [(cond, z3.BoolVal(False))])
            return Or(
                exists(vs, And(cond, t), depth + 1), exists(vs, And(Not(cond), e), depth + 1)
            )
    if len(vs) <= 3 and depth < 4:
        for n, c in enumerate(inside):
            if z3.is_not(c) and z3.is_eq(c.arg(0)) and c.arg(0).arg(0).sort() == z3.IntSort():
                a, b = c.arg(0).arg(0), c.arg(0).arg(1)
                rest = inside[:n] + inside[n + 1 :]
                return Or(*[exists(vs, And(*rest, d), depth + 1) for d in (a < b, a > b)])
    # linear inequalities with unit coefficients: Fourier-Motzkin is exact
    for v in vs:
        if v.sort() != z3.IntSort():
            continue
        lo, hi, rest, ok = [], [], [], True
        for c in inside:
            if not contains(c, v):
                rest.append(c)
                continue
            g, neg = (c.arg(0), True) if z3.is_not(c) else (c, False)
            if z3.is_le(g):
                d = (g.arg(0), g.arg(1), 0)
            elif z3.is_ge(g):
                d = (g.arg(1), g.arg(0), 0)
            elif z3.is_lt(g):
                d = (g.arg(0), g.arg(1), 1)
            elif z3.is_gt(g):
                d = (g.arg(1), g.arg(0), 1)
            else:
                ok = False
                break
            a, b, s = d  # a + s <= b
            if neg:  # not (a + s <= b)  <=>  b + 1 - s <= a
                a, b, s = b, a, 1 - s
            if a.sort() != z3.IntSort():
                ok = False
                break
            co, k = lin(a - b)
            k += s  # sum + k <= 0
            if v.get_id() not in co:
                ok = False
                break
            cf = co[v.get_id()][1]
            r = {i: x for i, x in co.items() if i != v.get_id()}
            if abs(cf) != 1 or any(contains(x[0], v) for x in r.values()):
                ok = False
                break
            if cf == 1:  # v <= -(r+k)
                hi.append(unlin({i: (x, -m) for i, (x, m) in r.items()}, -k))
            else:  # v >= r + k
                lo.append(unlin(r, k))
        if ok:
            new = [l <= h for l in lo for h in hi]
            return exists([w for w in vs if not w.eq(v)], And(*rest, *new), depth)
    # parity conditions  v % 2 == c together with bounds are left to the solver
    body = zb(And(*inside))
    ren = [(v, z3.Const(fresh_name("q"), v.sort())) for v in vs]
    return z3.Exists([b for _, b in ren], subst(body, ren))


def cases(vs, f, needed, depth=0):
    """exists vs. f  as a list of (cond, substitution for the needed vars).

    The substitution maps every needed variable to the only value it can have
    under cond (one-point rule); raises Unsupported if that cannot be found.
    """
    if isinstance(f, bool):
        if not f:
            return []
        if any(v.get_id() in needed for v in vs):
            raise Unsupported("value not determined by its key")
        return [(True, [])]
    f = z3.simplify(f)
    if is_false(f):
        return []
    if not any(v.get_id() in needed for v in vs):
        c = exists(vs, f)
        return [] if is_false(c) else [(c, [])]
    if is_true(f):
        raise Unsupported("value not determined by its key")
    if z3.is_or(f):
        out = []
        for c in f.children():
            out += cases(vs, c, needed, depth)
        return out
    vids = {v.get_id() for v in vs}
    inside = conjuncts(f)
    n = invert(inside, vids)
    if n is not None:
        return cases(vs, And(*n), needed, depth)
    n = whole_numbers(inside, vids)
    if n is not None:
        return cases(vs, And(*n), needed, depth)
    best = None
    for c in inside:
        if not z3.is_eq(c):
            continue
        a, b = c.arg(0), c.arg(1)
        for v in vs:
            if a.sort() != v.sort():
                continue
            if a.sort() == z3.IntSort():
                co, k = lin(a - b)
                if v.get_id() not in co:
                    continue
                coef = co[v.get_id()][1]
                rest = {i: x for i, x in co.items() if i != v.get_id()}
                if any(contains(x[0], v) for x in rest.values()):
                    continue
                if best is None or abs(coef) < best[0]:
                    best = (abs(coef), c, v, coef, rest, k)
            else:
                for l, r in ((a, b), (b, a)):
                    if l.eq(v) and not contains(r, v):
                        best = (0, c, v, None, r, 0)
        if best is not None and best[0] <= 1:
            break
    if best is not None:
        _, c, v, coef, rest, k = best
        others = [x for x in inside if x is not c]
        if coef is None:
            sol, side = rest, True
        else:
            if coef > 0:
                t = unlin({i: (x, -m) for i, (x, m) in rest.items()}, -k)
            else:
                t = unlin(rest, k)
            n = abs(coef)
            if n == 1:
                sol, side = t, True
            else:
                t = z3.simplify(t)
                sol, side = t / n, t % n == 0
        body = subst(And(*others), [(v, sol)])
        need2 = set(needed)
        if v.get_id() in need2:
            need2.discard(v.get_id())
            need2 |= {i for i in free_vars(sol) if i in vids}
        sub = cases([w for w in vs if not w.eq(v)], And(side, body), need2, depth)
        out = []
        for cond, s in sub:
            if v.get_id() in needed:
                s = s + [(v, subst(sol, s))]
            out.append((cond, s))
        return out
    cond = _ite_in_equation(inside, vids) if depth < 12 else None
    if cond is not None:
        body = And(*inside)
        t = subst(body, [(cond, z3.BoolVal(True))])
        e = subst(body, [(cond, z3.BoolVal(False))])
        return cases(vs, And(cond, t), needed, depth + 1) + cases(vs, And(Not(cond), e), needed, depth + 1)
    best = _best_split(inside, vids) if depth < 12 else None
    if best is not None:
        _, n, ds = best
        rest = inside[:n] + inside[n + 1 :]
        out = []
        for d in ds:
            out += cases(vs, And(*rest, d), needed, depth + 1)
        return out
    for c in inside:
        cond = _first_ite_with(c, vids)
        if cond is not None and depth < 12:
            body = And(*inside)
            t = subst(body, [(cond, z3.BoolVal(True))])
            e = subst(body, [(cond, z3.BoolVal(False))])
            return cases(vs, And(cond, t), needed, depth + 1) + cases(
                vs, And(Not(cond), e), needed, depth + 1
            )
    raise Unsupported("value not determined by its key")


# ---------------------------------------------------------------- instances of axioms of the real functions
def _apps(fs):
    """Ground applications of the real functions in the formulas."""
    from pv.values import SQRT, LOG, EXP, ERF, FDIV, PI, COS, SIN

    decls = {d.name(): d for d in (SQRT, LOG, EXP, ERF, FDIV, COS, SIN)}
    out, todo, pi, seen = {n: [] for n in decls}, [], False, set()
    for x in fs:
        if not z3.is_expr(x):
            continue
        pi = pi or PI.get_id() in free_vars(x)
        for i, (n, t) in ground_apps(x).items():
            if z3.is_quantifier(t):
                todo.append(t.body())
            elif n in decls and t.decl().eq(decls[n]) and i not in seen:
                seen.add(i)
                if not _has_bound(t):
                    out[n].append(t)
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if not z3.is_expr(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            n = x.decl().name()
            if n in decls and x.decl().eq(decls[n]) and not _has_bound(x):
                out[n].append(x)
            todo += x.children()
    return out, pi


_apps_memo = {}


def _has_bound(x):
    todo = [x]
    while todo:
        y = todo.pop()
        if z3.is_var(y):
            return True
        todo += y.children()
    return False


def real_axioms(fs):
    from pv.values import SQRT, EXP, PI, FDIV, COS, SIN

    apps, pi = {}, False
    for f in fs:
        if not z3.is_expr(f):
            continue
        m = _apps_memo.get(f.get_id())
        if m is None:
            m = _apps_memo[f.get_id()] = (_apps([f]), f)
        (a, p), _ = m
        pi = pi or p
        for n, xs in a.items():
            l = apps.setdefault(n, {})
            for x in xs:
                l[x.get_id()] = x
    if not apps:
        return []
    apps = {n: list(l.values()) for n, l in apps.items()}
    out = []
    if pi:
        out += [PI > z3.Q(314159, 100000), PI < z3.Q(314160, 100000)]
    for q in apps["fdiv"]:
        x, y = q.arg(0), q.arg(1)
        r = z3.ToReal(q)
        out.append(z3.Implies(y > 0, z3.And(r * y <= x, x < r * y + y)))
    for s in apps["sqrt"]:
        x = s.arg(0)
        out.append(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
        out.append(z3.Implies(x > 0, s > 0))
    ex = apps["exp"]
    for i, s in enumerate(ex):
        x = s.arg(0)
        out += [s >= 0, z3.Implies(x <= 0, s <= 1), z3.Implies(x >= 0, s >= 1)]
        if len(ex) <= 40:
            for r in ex[:i]:
                y = r.arg(0)
                out += [z3.Implies(x <= y, s <= r), z3.Implies(y <= x, r <= s)]
    ln = apps["ln"]
    for i, s in enumerate(ln):
        x = s.arg(0)
        out += [z3.Implies(z3.And(x > 0, x <= 1), s <= 0), z3.Implies(x >= 1, s >= 0)]
        for r in ln[:i]:
            y = r.arg(0)
            out += [z3.Implies(z3.And(x > 0, x <= y), s <= r), z3.Implies(z3.And(y > 0, y <= x), r <= s)]
    tr = {}
    for s in apps["cos"] + apps["sin"]:
        tr[s.arg(0).get_id()] = s.arg(0)
    tr = list(tr.values())
    for i, x in enumerate(tr):
        c, d = COS(x), SIN(x)
        out += [c * c + d * d == 1, z3.Implies(z3.Or(x == 0, x == 2 * PI), z3.And(c == 1, d == 0))]
        if len(tr) <= 12:
            for y in tr[:i]:
                out.append(z3.Implies(z3.And(c == COS(y), d == SIN(y), x - y < 2 * PI, y - x < 2 * PI), x == y))
    er = apps["erf"]
    for i, s in enumerate(er):
        x = s.arg(0)
        out += [s >= -1, s <= 1, z3.Implies(x >= 0, s >= 0), z3.Implies(x <= 0, s <= 0)]
        for r in er[:i]:
            y = r.arg(0)
            out += [z3.Implies(x <= y, s <= r), z3.Implies(y <= x, r <= s), z3.Implies(x == -y, s == -r)]
    return out


_ga_memo = {}


def ground_apps(e):
    """Applications of uninterpreted functions in e outside of quantifiers: {id: application} (memoised; do not mutate)."""
    k = e.get_id()
    m = _ga_memo.get(k)
    if m is not None:
        return m[0]
    st = [e]
    while st:
        t = st[-1]
        i = t.get_id()
        if i in _ga_memo:
            st.pop()
            continue
        if not z3.is_app(t) or not t.num_args():
            _ga_memo[i] = ({i: ("", t)} if z3.is_quantifier(t) else _EMPTY, t)
            st.pop()
            continue
        ch = t.children()
        todo = [c for c in ch if c.get_id() not in _ga_memo]
        if todo:
            st.extend(todo)
            continue
        r, own = _EMPTY, False
        for c in ch:
            d = _ga_memo[c.get_id()][0]
            if not d or d is r:
                continue
            if not r:
                r = d
                continue
            if all(x in r for x in d):
                continue
            if not own:
                r, own = dict(r), True
            r.update(d)
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = dict(r)
            r[i] = (t.decl().name(), t)
        _ga_memo[i] = (r, t)
        st.pop()
    return _ga_memo[k][0]


_inst_memo = {}


def ground_axioms(fs, rounds=3):
    """Properties of order functions and of chosen elements, at the ground terms of the formulas."""
    if not ORDERS and not DEFS:
        return []
    seen, out, done, todo = set(), [], set(), [f for f in fs if z3.is_expr(f)]
    for _ in range(rounds):
        new = []
        for h in todo:
            for i, (name, f) in ground_apps(h).items():
                if i in seen:
                    continue
                seen.add(i)
                if name in ORDERS:
                    n = f.num_args() // 2
                    xs, ys = f.children()[:n], f.children()[n:]
                    new.append(z3.If(z3.And(*[x == y for x, y in zip(xs, ys)]), z3.Not(f), z3.Xor(f, f.decl()(*ys, *xs))))
                elif name in DEFS:
                    vs, g = DEFS[name]
                    k = (g.get_id(), i)
                    if k not in _inst_memo:
                        _inst_memo[k] = (z3.substitute(g, *list(zip(vs, f.children()))), g, f)
                    new.append(_inst_memo[k][0])
        if not new:
            break
        out += new
        todo = new
    return out
