from base import *

RULE = "one code, bit assignment and erasure set per case; the Union-Find result must clear the syndrome, using only erased qubits if these explain it; non-trivial: some error or erasure was placed"
LIMIT = 60


def core(tier):
    for ec, b in CODES:
        for sb in ("rustworkx", "networkx"):
            for er in (0, 0.3, 1.0, "single", "line"):
                for p in (0.0, 0.1, 0.4):
                    yield dict(d=[2, 3, 3], ec=ec, b=b, sb=sb, er=er, p=p, seed=int(10 * p))
        for er in ("line", 1.0, 0.5):
            yield dict(d=[2, 2, 9], ec=ec, b=b, er=er, p=0.2, seed=2)
            yield dict(d=[4, 4, 4], ec=ec, b=b, er=er, p=0.05, seed=2)
            yield dict(d=[3, 3, 3], ec=ec, b=b, er=er, p="explained", seed=2)


def count(tier):
    return dict(quick=700, thorough=10000, search=8000)[tier]


def rand(rng, tier):
    ec, b = rng.choice(CODES)
    return dict(d=rand_dims(rng, 2, 6, 80), ec=ec, b=b, sb=rng.choice(["rustworkx", "networkx"]), er=rng.choice([0, 0.05, 0.3, 0.6, 1.0, "single", "line", "blob"]),
                p=rng.choice(["explained", "explained", 0.02, 0.1, 0.3, 0.5, 1.0]), seed=rng.randrange(10**6))


def nontrivial(c):
    return True


def check(c):
    from flamingpy.decoders.unionfind.algos import uf_decoder

    code = cached_code(c)
    ec = c["ec"]
    rng = random.Random(c["seed"])
    syn = sorted(getattr(code, ec + "_syndrome_coords"))
    er = c["er"]
    if er == "single":
        E = {rng.choice(syn)}
    elif er == "line":
        a = rng.randrange(3)
        p0 = rng.choice(syn)
        E = {p for p in syn if all(p[x] == p0[x] for x in range(3) if x != a)}
    elif er == "blob":
        p0 = rng.choice(syn)
        E = {p for p in syn if sum(abs(x - y) for x, y in zip(p, p0)) <= 3}
    else:
        E = {p for p in syn if rng.random() < er}
    bits = {p: 0 for p in code.graph.nodes}
    if c["p"] == "explained":
        for p in E:
            bits[p] = rng.randint(0, 1)
    else:
        bits = {p: int(rng.random() < c["p"]) for p in bits}
    for p in code.graph.nodes:
        code.graph.nodes[p]["bit_val"] = bits[p]
        code.graph.nodes[p]["weight"] = -1 if p in E else 2
    sg = getattr(code, ec + "_stab_graph")
    sg.assign_weights(code)
    stabs = [frozenset(s.coords()) for s in getattr(code, ec + "_stabilizers")]
    before = {p: dict(code.graph.nodes[p]) for p in code.graph.nodes}
    res = list(uf_decoder(code, ec))
    ck(len(res) == len(set(res)) and set(res) <= set(syn), lambda: f"not syndrome qubits: {[q for q in res if q not in set(syn)][:3]}")
    fl = set(res)
    bad = [s for s in stabs if (sum(bits[p] for p in s) + len(s & fl)) % 2]
    ck(not bad, lambda: f"{len(bad)} stabilizers stay odd, e.g. {sorted(bad[0])}")
    ck({p: dict(code.graph.nodes[p]) for p in code.graph.nodes} == before, "the decoder changed node data")
    # can the erased qubits alone explain the syndrome?  (parity per erasure component, boundary qubits absorb)
    owner = {}
    for i, s in enumerate(stabs):
        for p in s:
            owner.setdefault(p, []).append(i)
    par = list(range(len(stabs) + 1))  # last: outside

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x

    for p in E:
        o = owner[p]
        par[find(o[0])] = find(o[1] if len(o) == 2 else len(stabs))
    odd = {}
    for i, s in enumerate(stabs):
        odd[find(i)] = odd.get(find(i), 0) ^ (sum(bits[p] for p in s) % 2)
    expl = all(v == 0 or r == find(len(stabs)) for r, v in odd.items())
    if c["p"] == "explained":
        ck(expl, "oracle: should be explained")
    if expl:
        ck(not simple(c) or all(q in E for q in fl), lambda: f"erased qubits explain the syndrome, but {[q for q in fl if q not in E][:3]} are flipped")
