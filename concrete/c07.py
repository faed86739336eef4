from mw import *

RULE = "one code, bit/weight assignment, matching backend and stabilizer-graph backend per case; the decoded set must clear the syndrome and every matching edge must carry a proper path; non-trivial: some error was placed"


def core(tier):
    yield from common(tier, False)
    for ec, b in CODES:
        for mb in BACK:
            yield dict(d=[3, 4, 3], ec=ec, b=b, mb=mb, err="rate", p=0.2, w="wild", seed=3)
            yield dict(d=[2, 2, 7], ec=ec, b=b, mb=mb, err="all", w="one", seed=3)


def count(tier):
    return dict(quick=500, thorough=8000, search=6000)[tier]


def rand(rng, tier):
    return case(rng, False)


def nontrivial(c):
    return c.get("k", 1) > 0


def check(c):
    from flamingpy.decoders.mwpm.algos import mwpm_decoder, build_match_graph

    code, ec, sg, syn, bits = setup(c)
    before = {p: dict(code.graph.nodes[p]) for p in code.graph.nodes}
    stabs = getattr(code, ec + "_stabilizers")
    cs = {s: frozenset(s.coords()) for s in stabs}
    odd = {s for s in stabs if sum(bits[p] for p in cs[s]) % 2}
    res = mwpm_decoder(code, ec, backend=c["mb"])
    flips = list(res)
    ck(len(flips) == len(set(flips)) and set(flips) <= set(syn), lambda: f"decoder returns {[q for q in flips if q not in set(syn)][:3]}, not syndrome qubits")
    fl = set(flips)
    bad = [sorted(cs[s]) for s in stabs if (sum(bits[p] for p in cs[s]) + len(cs[s] & fl)) % 2]
    ck(not bad, lambda: f"{len(bad)} of {len(stabs)} stabilizers stay odd, e.g. {bad[0]}")
    ck({p: dict(code.graph.nodes[p]) for p in code.graph.nodes} == before, "the decoder changed node data")
    if not odd:
        ck(not fl, "flips without a syndrome")
    if len(odd) <= 40:
        mg = build_match_graph(code, ec, c["mb"])
        g = mg.graph if isinstance(mg.graph, nx.Graph) else mg.to_nx().graph
        # bits of the code the decoder saw are unchanged, so the odd stabilizers are the same
        virt = list(mg.virtual_points)
        ck(set(n for n in g.nodes if n not in virt) == odd, "matching-graph nodes")
        bp = set(getattr(code, ec + "_bound_points"))
        hasb = bool(bp)
        ck(len(virt) == (len(odd) if hasb else 0) and len(set(virt)) == len(virt), "virtual points")
        owner = {}
        for u, v in g.edges:
            uv, vv = u in virt, v in virt
            if uv and vv:
                continue
            path = list(mg.edge_path((u, v)))
            ends = [u[0] if uv else u, v[0] if vv else v]
            ck(path and {path[0], path[-1]} == set(ends) and len(set(path)) == len(path), lambda: f"path {path} does not join its ends {ends}")
            ck("low" not in path and "high" not in path, lambda: f"path passes a connector: {path}")
            ck(all(n in cs or n in bp for n in path), "path has unknown nodes")
            for a, b in zip(path, path[1:]):
                A = cs.get(a, {a} if isinstance(a, tuple) else None)
                B = cs.get(b, {b} if isinstance(b, tuple) else None)
                ck(A & B, lambda: f"path step {a}-{b} is not an edge")
            if uv or vv:
                s = v if uv else u
                owner[s] = owner.get(s, 0) + 1
                ck((u if uv else v)[0] in bp, "virtual point is not a boundary point")
        if hasb:
            ck(all(owner.get(s) == 1 for s in odd), "each odd stabilizer needs exactly one boundary point")
        n = len(odd)
        want = n * (n - 1) // 2 + (n + n * (n - 1) // 2 if hasb else 0)
        ck(g.number_of_edges() == want, lambda: f"{g.number_of_edges()} matching edges instead of {want}")
