from base import *

RULE = "one code and bit assignment per case: random assignments (parity formula of every plane) and syndrome-free ones (sums of loops and logical chains; all planes agree); non-trivial: some bit is 1"


def core(tier):
    for ec, b in CODES:
        for d in it.product((2, 3, 4), repeat=3):
            for mode in ("zero", "free", "logical", "random"):
                yield dict(d=d, ec=ec, b=b, seed=sum(d) + len(mode), mode=mode)


def count(tier):
    return dict(quick=400, thorough=6000, search=6000)[tier]


def rand(rng, tier):
    ec, b = rng.choice(CODES)
    return dict(d=rand_dims(rng, 2, 6, 100), ec=ec, b=b, seed=rng.randrange(10**6), mode=rng.choice(["free", "logical", "random", "single"]))


def nontrivial(c):
    return c["mode"] != "zero"


def nullspace_vectors(stabs, qubits, rng, k):
    """random vectors in the kernel of the parity map (GF(2)), as sets of qubits"""
    idx = {q: i for i, q in enumerate(qubits)}
    rows = []
    for s in stabs:
        v = 0
        for q in s:
            v |= 1 << idx[q]
        rows.append(v)
    piv = {}
    for v in rows:
        while v:
            h = v.bit_length() - 1
            if h in piv:
                v ^= piv[h]
            else:
                piv[h] = v
                break
    order = sorted(piv)
    out = []
    for _ in range(k):
        x = 0
        for i in range(len(qubits)):  # from low bits to high: pivot is the highest bit of its row
            if i in piv:
                if bin(piv[i] & x).count("1") % 2:
                    x |= 1 << i
            elif rng.random() < 0.5:
                x |= 1 << i
        out.append({q for q in qubits if x >> idx[q] & 1})
    return out


def planes(code, ec, bits):
    dims = code.dims
    syn = set(getattr(code, ec + "_syndrome_coords"))
    b = tuple(str(x) for x in code.boundaries)
    if b == ("periodic",) * 3:
        dirs = "xyz"
    elif b[0] == "periodic":
        dirs = "xy"
    else:
        dirs = "x" if ec == "primal" else "y"
    out = {}
    for ch in "xyz":
        out[ch] = []
        if ch in dirs:
            a = "xyz".index(ch)
            for s in range(0 if ec == "primal" else 1, 2 * dims[a], 2):
                out[ch].append(sum(bits[p] for p in syn if p[a] == s) % 2 == 0)
    return dirs, out


def check(c):
    from flamingpy.decoders.decoder import check_correction

    code = cached_code(c)
    ec = c["ec"]
    rng = random.Random(c["seed"])
    stabs = [frozenset(s.coords()) for s in getattr(code, ec + "_stabilizers")]
    syn = sorted(getattr(code, ec + "_syndrome_coords"))
    bits = {p: 0 for p in code.graph.nodes}
    if c["mode"] == "random":
        bits = {p: rng.randint(0, 1) for p in code.graph.nodes}
    elif c["mode"] == "single":
        bits[rng.choice(syn)] = 1
    elif c["mode"] in ("free", "logical"):
        for p in nullspace_vectors(stabs, syn, rng, 1)[0]:
            bits[p] = 1
        for p in set(bits) - set(syn):  # other qubits do not matter
            bits[p] = rng.randint(0, 1)
    for p in bits:
        code.graph.nodes[p]["bit_val"] = bits[p]
    if c["mode"] in ("free", "logical", "zero"):
        ck(not list(getattr(code, ec + "_stab_graph").odd_parity_stabilizers()), "the assignment should be syndrome free")
    dirs, want = planes(code, ec, bits)
    r = check_correction(code)
    ck(len(r) == 1 and bool(r[0]) == all(want[x][0] for x in dirs), lambda: f"check_correction gives {r}, plane parities {want}")
    r2, t = check_correction(code, sanity_check=True)
    ck(len(r2) == 1 and bool(r2[0]) == bool(r[0]), "sanity check changes the outcome")
    got = {k: [bool(x) for x in v] for k, v in t[0].items()}
    ck(got == want, lambda: f"sanity check reports {got}, expected {want}")
    if c["mode"] in ("free", "logical", "zero"):
        for x in dirs:
            ck(len(set(want[x])) == 1, lambda: f"parallel planes disagree: {want}")
