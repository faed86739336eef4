"""C02: stabilizers, syndrome and boundary of a SurfaceCode."""
from pv.prove import Unit
from pv.logic import exists
from contracts.geometry import *


def centre_candidates(vs):
    for k in (1, 2, 0, -1, 3):
        for m in (2, 1):
            yield [m * v + k for v in vs]


def code_unit(t, ec, b):
    e = t.e
    t.case = lambda m: dict(d=dims_of(m, t.small), ec=ec, b=b)
    code, d, bs = real_code(t, ec, b)
    t.no_raise()
    p, P = point("p")
    c, _ = point("c")
    stabs = e.getattr(code, ec + "_stabilizers")
    chs = e.iterate(stabs)
    wit = []
    for n, ch in enumerate(chs):
        if len(ch.vars) != 3:
            raise Unsupported("stabilizers are not indexed by three numbers")
        with e.in_chunk(ch):
            cs = e.call(e.getattr(ch.value, "coords"), [])
            has = zb(e.contains(cs, P))
            for w in centre_candidates(ch.vars):
                r, _, _ = t.solve(t.hyps() + [z3.Not(z3.And(is_cell(w, d, bs, ec), has == in_cell(p, w, d, bs)))], 20)
                if r == z3.unsat:
                    break
            else:
                w = next(iter(centre_candidates(ch.vars)))
            t.prove(f"stabilizer {n} has the centre of a cell", is_cell(w, d, bs, ec))
            t.prove(f"stabilizer {n} contains exactly the face points of the cell", has == in_cell(p, w, d, bs))
            t.reach(f"stabilizer {n} member", has)
            wit.append((ch, w))
    t.prove("every cell has a stabilizer", z3.Implies(
        is_cell(c, d, bs, ec), zb(Or(*[exists(list(ch.vars), z3.And(zb(ch.guard), eq3(w, c))) for ch, w in wit]))))
    for i, (ch, w) in enumerate(wit):
        for ch2, w2 in wit[i:]:
            ren = [(v, z3.Const(fresh_name("o"), v.sort())) for v in ch2.vars]
            w2 = [subst(x, ren) for x in w2]
            same = z3.And(*[a == x[1] for a, x in zip(ch.vars, ren)]) if ch2 is ch else z3.BoolVal(False)
            t.prove("no cell has two stabilizers", z3.Implies(z3.And(zb(ch.guard), subst(zb(ch2.guard), ren), eq3(w, w2)), same))
    # syndrome
    coords = e.getattr(code, ec + "_syndrome_coords")
    syn = is_syndrome(p, d, bs, ec)
    t.prove("syndrome coordinates", zb(e.contains(coords, P)) == syn)
    t.prove("all syndrome coordinates", zb(e.contains(e.getattr(code, "all_syndrome_coords"), P)) == syn)
    G = e.getattr(code, "graph")
    to_ind, to_pts = e.getattr(G, "to_indices"), e.getattr(G, "to_points")
    n0 = len(e.raises)
    for att in (ec + "_syndrome_inds", "all_syndrome_inds"):
        inds = e.getattr(code, att)
        with e.guard(syn):
            i = e.getitem(to_ind, P)
            t.prove(att + " contain the index of every syndrome qubit", e.contains(inds, i))
        for ch in e.iterate(inds):
            with e.in_chunk(ch):
                q = e.getitem(to_pts, ch.value)
                q = [lift_num(x) for x in e.unpack(q)]
                t.prove(att + " are indices of syndrome qubits", is_syndrome(q, d, bs, ec))
                t.prove(att + " agree with the index tables", e.eq(e.getitem(to_ind, tuple(SNum(x) for x in q)), ch.value))
    t.no_raise("index lookups succeed")
    # boundary
    bp = e.getattr(code, ec + "_bound_points")
    isb = zb(e.contains(bp, P))
    if "periodic" in bs:
        t.prove("no boundary points", z3.Not(isb))
        ax = None
    else:
        ax = bs.index(ec)
        lo, hi = extent(d[ax], bs[ax])
        t.prove("boundary points", isb == z3.And(syn, z3.Or(p[ax] == lo, p[ax] == hi)))
        t.reach("a boundary point", isb)
        # order: entries of the lower plane come before those of the upper one, as many on each
        low, high, phase = [], [], 0
        for ch in e.iterate(bp):
            with e.in_chunk(ch):
                x = [lift_num(y) for y in e.unpack(ch.value)]
                if phase == 0 and e.entails(x[ax] == lo):
                    low.append((ch, x))
                    t.prove("lower plane first", x[ax] == lo)
                else:
                    phase = 1
                    high.append((ch, x))
                    t.prove("upper plane last", x[ax] == hi)

        def member(part, q):
            return zb(Or(*[exists(list(ch.vars), z3.And(zb(ch.guard), eq3(x, q))) for ch, x in part]))
        sh = [p[i] + (hi - lo if i == ax else 0) for i in range(3)]
        t.prove("as many on each plane (translation is a bijection)", member(low, p) == member(high, sh))
        for part in (low, high):
            for i, (ch, x) in enumerate(part):
                for ch2, x2 in part[i:]:
                    ren = [(v, z3.Const(fresh_name("o"), v.sort())) for v in ch2.vars]
                    same = z3.And(*[a == r[1] for a, r in zip(ch.vars, ren)]) if ch2 is ch else z3.BoolVal(False)
                    t.prove("no boundary point is listed twice", z3.Implies(
                        z3.And(zb(ch.guard), subst(zb(ch2.guard), ren), eq3(x, [subst(y, ren) for y in x2])), same))
    # covering: the cells at a syndrome point
    cand = cells_of(p, d, bs)
    ok = [is_cell(x, d, bs, ec) for x in cand]
    two = z3.Or(*[z3.And(ok[i], ok[j], z3.Not(eq3(cand[i], cand[j]))) for i in range(6) for j in range(i)])
    three = z3.Or(*[z3.And(ok[i], ok[j], ok[k], z3.Not(eq3(cand[i], cand[j])), z3.Not(eq3(cand[i], cand[k])), z3.Not(eq3(cand[k], cand[j])))
                    for i in range(6) for j in range(i) for k in range(j)])
    t.prove("every syndrome vertex is in two stabilizers, boundary points in one", z3.Implies(syn, two == z3.Not(isb)))
    t.prove("no vertex is in three stabilizers", z3.Implies(syn, z3.Not(three)))


def units():
    return [Unit(f"SurfaceCode {ec} {b}", code_unit, (ec, b)) for ec, b in COMBOS]
