from mw import *
from functools import lru_cache

RULE = "one code, bit/weight assignment and backend per case; edge weights against an own shortest-path computation, total weight of the correction against an own exact minimum over all pairings (at most 12 odd stabilizers), and across backends; non-trivial: some error was placed"


def core(tier):
    yield from map(simplify, common(tier, True))


def count(tier):
    return dict(quick=500, thorough=8000, search=6000)[tier]


def rand(rng, tier):
    return simplify(case(rng, rng.random() < 0.7))


def nontrivial(c):
    return c.get("k", 1) > 0


def check(c):
    from flamingpy.decoders.mwpm.algos import mwpm_decoder, build_match_graph

    code, ec, sg, syn, bits = setup(c)
    R = Ref(code, ec)
    odd = [i for i, s in enumerate(R.cs) if sum(bits[p] for p in s) % 2]
    if len(odd) > 60:
        odd_few = False
        return
    D = {i: R.dist(i) for i in odd}
    mg = build_match_graph(code, ec, c["mb"])
    hasb = any(R.exits.values())
    virt = list(mg.virtual_points)

    def close(a, b, tol=1e-9):
        return a == b or abs(a - b) <= tol * max(1e-12, abs(a), abs(b))

    def plen(path):
        tot = 0
        for a, b in zip(path, path[1:]):
            q = sg.edge_data(a, b)["common_vertex"]
            tot += R.w[q]
        return tot

    for x, i in enumerate(odd):
        for j in odd[x + 1:]:
            e = (R.stabs[i], R.stabs[j])
            ck(close(mg.edge_weight(e), D[i][0][j]), lambda: f"edge weight {mg.edge_weight(e)}, shortest chain {D[i][0][j]}")
            ck(close(plen(mg.edge_path(e)), D[i][0][j]), lambda: f"carried path weighs {plen(mg.edge_path(e))}, shortest {D[i][0][j]}")
    g = mg.graph if isinstance(mg.graph, nx.Graph) else mg.to_nx().graph
    for u, v in g.edges:
        uv, vv = u in virt, v in virt
        if uv and vv:
            ck(mg.edge_weight((u, v)) == 0, "boundary points linked with non-zero weight")
        elif uv or vv:
            s = v if uv else u
            i = next(k for k in odd if R.stabs[k] is s)
            ck(close(mg.edge_weight((u, v)), D[i][1]), lambda: f"boundary edge weighs {mg.edge_weight((u, v))}, shortest {D[i][1]}")
            ck(close(plen(mg.edge_path((u, v))), D[i][1]), "boundary path does not attain its weight")
    fl = set(mwpm_decoder(code, ec, backend=c["mb"]))
    total = sum(R.w[q] for q in fl)
    if len(odd) <= 12:

        @lru_cache(None)
        def best(S):
            if not S:
                return 0.0
            i, rest = S[0], S[1:]
            r = D[i][1] + best(rest) if hasb else float("inf")
            for k, j in enumerate(rest):
                r = min(r, D[i][0][j] + best(rest[:k] + rest[k + 1:]))
            return r

        opt = best(tuple(odd))
        tol = 1e-5 if c["mb"] == "lemon" else 1e-8
        ck(total <= opt + tol * max(1, opt) if c["w"] != "small" else total <= opt * (1 + 10 * tol) + 1e-9 * len(fl), lambda: f"{c['mb']} correction weighs {total}, the optimum is {opt}")
        ck(total >= opt * (1 - 1e-9) - 1e-12, lambda: f"correction weighs {total} < optimum {opt}: it cannot clear the syndrome")
    else:
        for mb in BACK:
            t2 = sum(R.w[q] for q in mwpm_decoder(code, ec, backend=mb))
            ck(abs(t2 - total) <= 2e-5 * max(total, t2), lambda: f"total weight {total} with {c['mb']}, {t2} with {mb}")
