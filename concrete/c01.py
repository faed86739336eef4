from base import *

RULE = "one RHG lattice per case (dims, boundaries, form of the arguments, polarity), compared with the defining sets; non-trivial: some vertex exists"


def core(tier):
    hi = 3 if tier == "quick" else 4
    for d in it.product(range(2, hi + 1), repeat=3):
        for b in it.product(ref.BOUNDS, repeat=3):
            yield dict(d=d, b=b, pol="alt")
    for name in ref.NAMED:
        for d in (2, 3):
            for f in ("int", "tuple", "list", "array"):
                yield dict(d=d if f == "int" else (d, d + 1, 2), b=name, pol="none", form=f)
    for b in it.product(ref.BOUNDS, repeat=3):
        for f in ("list", "tuple", "array"):
            yield dict(d=(2, 3, 2), b=b, pol="hash", bform=f)
    for d in ((9, 2, 2), (2, 11, 2), (2, 2, 13), (6, 5, 4), (7, 7, 2)):
        for b in (("primal",) * 3, ("dual",) * 3, ("periodic",) * 3, ("primal", "dual", "periodic")):
            yield dict(d=d, b=b, pol="hash")


def count(tier):
    return dict(quick=150, thorough=3000, search=3000)[tier]


def rand(rng, tier):
    return dict(
        d=rand_dims(rng, 2, 12, 200), b=[rng.choice(ref.BOUNDS) for _ in range(3)],
        pol=rng.choice(["none", "alt", "hash"]), bform=rng.choice(["list", "tuple", "array"]),
        form=rng.choice(["tuple", "list", "array"]),
    )


def nontrivial(c):
    return True


def hashpol(e):
    # not symmetric in its end points' roles on purpose: only uses sums, so orientation is irrelevant
    a, b = sorted(e)
    return (sum((i + 2) * x for i, x in enumerate(a)) * 31 + sum((i + 5) * x for i, x in enumerate(b))) % 97 - 48


def check(c):
    from flamingpy.codes import RHG_graph, alternating_polarity

    d, b = c["d"], c["b"]
    bounds = ref.NAMED[b] if isinstance(b, str) else tuple(b)
    dims = (d,) * 3 if isinstance(d, int) else tuple(d)
    arg_d = d if isinstance(d, int) else {"tuple": tuple, "list": list, "array": np.array}[c.get("form", "tuple")](d)
    arg_b = b if isinstance(b, str) else {"tuple": tuple, "list": list, "array": np.array}[c.get("bform", "array")](b)
    pol = {"none": None, "alt": alternating_polarity, "hash": hashpol}[c["pol"]]
    G = RHG_graph(arg_d, arg_b) if pol is None else RHG_graph(arg_d, arg_b, polarity=pol)
    nodes, edges = ref.lattice(dims, bounds)
    got = set(G.nodes)
    ck(got == set(nodes), lambda: f"vertices differ: extra {sorted(got - set(nodes))[:5]} missing {sorted(set(nodes) - got)[:5]}")
    for p, t in nodes.items():
        ck(dict(G.nodes[p]) == {"type": t}, lambda: f"node {p} has attributes {dict(G.nodes[p])}, expected type {t}")
    ge = {frozenset(e) for e in G.edges}
    ck(ge == set(edges), lambda: f"edges differ: extra {[sorted(e) for e in ge - set(edges)][:5]} missing {[sorted(e) for e in set(edges) - ge][:5]}")
    for u, v, data in G.edges(data=True):
        per = edges[frozenset((u, v))]
        ck(bool(data.get("periodic", False)) == per, lambda: f"edge {u}-{v}: periodic mark {data.get('periodic')}")
        w = data["weight"]
        if pol is None:
            ck(w == 1, lambda: f"edge {u}-{v} weighs {w}")
        else:
            ck(w in (pol((u, v)), pol((v, u))), lambda: f"edge {u}-{v} weighs {w}, polarity gives {pol((u, v))}")
        ck(set(data) <= {"weight", "periodic"}, lambda: f"edge data {data}")
    if c["pol"] == "alt":
        for p in nodes:
            ws = sorted(G.edges[p, q]["weight"] for q in G[p])
            if len(ws) == 4:
                ck(ws == [-1, -1, 1, 1], lambda: f"vertex {p} has edge weights {ws}")
