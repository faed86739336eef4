from base import *

RULE = "one SurfaceCode per case, its stabilizers, syndrome and boundary compared with the reference cells; non-trivial: every case (d>=2)"


def core(tier):
    hi = 4 if tier == "quick" else 5
    for ec, b in CODES:
        for d in it.product(range(2, hi + 1), repeat=3):
            yield dict(d=d, ec=ec, b=b)
        for d in (2, 3, 5):
            yield dict(d=d, ec=ec, b=b)
        for d in ((2, 2, 9), (9, 2, 2), (2, 8, 3)):
            yield dict(d=d, ec=ec, b=b, sb="networkx")


def count(tier):
    return dict(quick=60, thorough=1200, search=1500)[tier]


def rand(rng, tier):
    ec, b = rng.choice(CODES)
    return dict(d=rand_dims(rng, 2, 9, 120), ec=ec, b=b, pol=rng.random() < 0.3)


def nontrivial(c):
    return True


def check(c):
    code = mkcode(c)
    ec, b = c["ec"], c["b"]
    dims = (c["d"],) * 3 if isinstance(c["d"], int) else tuple(c["d"])
    bounds = ref.code_bounds(ec, b)
    nodes, _ = ref.lattice(dims, bounds)
    ck(tuple(code.dims) == dims, "dims")
    ck(set(code.graph.nodes) == set(nodes), "lattice vertices")
    cells = [ref.cell(x, dims, bounds, nodes) for x in ref.centres(dims, bounds, ec)]
    got = getattr(code, ec + "_stabilizers")
    gl = sorted(sorted(s.coords()) for s in got)
    ck(gl == sorted(sorted(x) for x in cells), lambda: f"stabilizers differ: {len(gl)} instead of {len(cells)}; extra {[s for s in gl if frozenset(s) not in cells][:3]}; missing {[sorted(s) for s in cells if sorted(s) not in gl][:3]}")
    ck(len(set(map(id, got))) == len(got), "one object per cell")
    for s in got:
        ck(set(s.egraph.nodes) == set(s.coords()) and len(s.coords()) == len(set(s.coords())), "coords repeated")
    syn = set().union(*cells)
    for pre in (ec, "all"):
        sc = getattr(code, pre + "_syndrome_coords")
        ck(set(sc) == syn, lambda: f"{pre}_syndrome_coords differ: {sorted(set(sc) ^ syn)[:5]}")
        ck(len(sc) == len(set(sc)), "syndrome coordinates repeated")
        si = getattr(code, pre + "_syndrome_inds")
        ck({code.graph.to_points[i] for i in si} == syn and all(code.graph.to_indices[code.graph.to_points[i]] == i for i in si), f"{pre}_syndrome_inds")
    lo, hi = ref.boundary(dims, bounds, ec, syn)
    bp = list(getattr(code, ec + "_bound_points"))
    ck(len(lo) == len(hi), "reference planes differ in size")
    ck(sorted(bp[: len(lo)]) == lo and sorted(bp[len(lo):]) == hi, lambda: f"boundary points {bp} instead of {lo} + {hi}")
    cover = {}
    for s in got:
        for p in s.coords():
            cover[p] = cover.get(p, 0) + 1
    if all(d > 2 or bb != "periodic" for d, bb in zip(dims, bounds)) or True:
        for p in syn:
            ck(cover[p] == (1 if p in lo or p in hi else 2), lambda: f"{p} is in {cover[p]} stabilizers")
