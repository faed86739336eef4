from base import *

RULE = "one pair of graphs (equivalence against LC orbits and Clifford validity) or one binary matrix (row reduction and nullspace) per case; non-trivial: not both empty"


def all_graphs(n):
    prs = list(it.combinations(range(n), 2))
    for m in range(1 << len(prs)):
        yield [prs[i] for i in range(len(prs)) if m >> i & 1]


def core(tier):
    for n in (1, 2, 3):
        for E in all_graphs(n):
            for F in all_graphs(n):
                yield dict(n=n, m=n, E=E, F=F)
    yield dict(n=0, m=0, E=[], F=[])
    yield dict(n=0, m=2, E=[], F=[])
    yield dict(n=2, m=0, E=[(0, 1)], F=[])
    for a, b in ((1, 2), (3, 2), (4, 5)):
        yield dict(n=a, m=b, E=[], F=[])
        yield dict(n=a, m=b, E=[(i, i + 1) for i in range(a - 1)], F=[(i, i + 1) for i in range(b - 1)])
    for M in ([[0]], [[1]], [[0, 0], [0, 0]], [[1, 1]], [[1], [1]], [[0, 1], [1, 0]], [[0, 0, 1], [0, 1, 1]], [[0, 0], [0, 0], [1, 1]]):
        yield dict(M=M)


def count(tier):
    return dict(quick=2500, thorough=30000, search=30000)[tier]


def rand(rng, tier):
    if rng.random() < 0.3:
        r, k = rng.choice([(rng.randint(1, 8), rng.randint(1, 9)), (rng.randint(1, 4), rng.randint(4, 40)), (rng.randint(4, 40), rng.randint(1, 5))])
        p = rng.choice([0.1, 0.5, 0.9])
        return dict(M=[[int(rng.random() < p) for _ in range(k)] for _ in range(r)], dt=rng.choice(["int64", "int8"]))
    n = rng.choice([3, 4, 4, 5, 5, 6, 6, 7]) if rng.random() < 0.97 else rng.randint(8, 11)
    p = rng.choice([0.25, 0.4, 0.6])
    E = [e for e in it.combinations(range(n), 2) if rng.random() < p]
    mode = rng.choice(["lc", "lc", "lcflip", "rand", "perm"])
    A = adj(n, E)
    if mode.startswith("lc"):
        for _ in range(rng.randint(1, 12)):
            A = lc(A, rng.randrange(n))
    F = edges(A)
    if mode == "lcflip":
        e = tuple(sorted(rng.sample(range(n), 2)))
        F = [x for x in F if x != e] if e in F else F + [e]
    if mode == "rand":
        F = [e for e in it.combinations(range(n), 2) if rng.random() < p]
    if mode == "perm":
        pi = rng.sample(range(n), n)
        F = [tuple(sorted((pi[a], pi[b]))) for a, b in E]
    return dict(n=n, m=n, E=E, F=F, lc=mode == "lc", pos=rng.random() < 0.3)


def nontrivial(c):
    return bool(c.get("M") or c.get("E") or c.get("F"))


def adj(n, E):
    A = [0] * n
    for a, b in E:
        A[a] |= 1 << b
        A[b] |= 1 << a
    return tuple(A)


def edges(A):
    return [(i, j) for i in range(len(A)) for j in range(i + 1, len(A)) if A[i] >> j & 1]


def lc(A, v):
    B = list(A)
    N = A[v]
    for i in range(len(A)):
        if N >> i & 1:
            B[i] ^= N & ~(1 << i)
    return tuple(B)


_orb = {}


def orbit(A):
    if A in _orb:
        return _orb[A]
    seen = {A}
    st = [A]
    while st:
        x = st.pop()
        for v in range(len(x)):
            y = lc(x, v)
            if y not in seen:
                seen.add(y)
                st.append(y)
    if len(_orb) > 20000:
        _orb.clear()
    f = frozenset(seen)
    for x in f:
        _orb[x] = f
    return f


def graph(n, E, rng, pos):
    from flamingpy.codes.graphs import EGraph

    g = EGraph()
    order = list(range(n))
    rng.shuffle(order)
    name = (lambda i: (i // 2, i % 2, 0)) if pos else (lambda i: (i, 0, 0))
    for i in order:
        g.add_node(name(i))
    for a, b in E:
        if rng.random() < 0.5:
            g.add_edge(name(a), name(b))
        else:
            g.add_edge(name(b), name(a), weight=1)
    return g


def rref(M):
    R = [list(r) for r in M]
    p = 0
    k = len(R[0])
    for j in range(k):
        piv = next((i for i in range(p, len(R)) if R[i][j]), None)
        if piv is None:
            continue
        R[p], R[piv] = R[piv], R[p]
        for i in range(len(R)):
            if i != p and R[i][j]:
                R[i] = [x ^ y for x, y in zip(R[i], R[p])]
        p += 1
        if p == len(R):
            break
    return R, p


def check(c):
    from flamingpy.utils.linalg import reduce_RREform_mod2, nullspace_basis
    from flamingpy.utils.linalg import are_lc_equivalent

    if "M" in c:
        M = np.array(c["M"], dtype=c.get("dt", "int64"))
        K = M.copy()
        R, p = reduce_RREform_mod2(M)
        W, q = rref(c["M"])
        ck(np.array_equal(M, K), "argument changed")
        ck(p == q, lambda: f"rank {p} instead of {q} for {c['M']}")
        ck(np.array_equal(np.array(R), np.array(W)), lambda: f"row reduction of {c['M']} gives {np.array(R).tolist()} instead of {W}")
        B = np.array(nullspace_basis(M.astype(int)))
        k = M.shape[1]
        ck(B.ndim == 2 and B.shape == (k - q, k), lambda: f"nullspace basis of shape {B.shape}, dimension {k - q}")
        if k - q:
            ck(not np.any(M.astype(int) @ B.T % 2), lambda: f"basis {B.tolist()} is not in the nullspace of {c['M']}")
            ck(rref(B.astype(int).tolist())[1] == k - q and np.isin(B, (0, 1)).all(), "basis is not independent")
        return
    n, m = c["n"], c["m"]
    rng = random.Random(str(c))
    mk = lambda: (graph(n, c["E"], rng, c.get("pos")), graph(m, c["F"], rng, c.get("pos")))
    if n == 0 or m == 0 or n != m:
        for form in ("tensor", "global"):
            g, h = mk()
            r = are_lc_equivalent(g, h, form)
            ck(r[0] is False or not r[0], "graphs of different or zero size reported as equivalent")
            ck(r[1] is None, "Clifford returned without equivalence")
        return
    A, B = adj(n, c["E"]), adj(n, c["F"])
    if n <= 7:
        want = B in orbit(A)
    else:
        want = True if c.get("lc") else None
    for form in ("tensor", "global", None):
        g, h = mk()
        if form is None:
            r, cl = g.is_lc_equivalent(h)
            form = "tensor"
        else:
            r, cl = g.is_lc_equivalent(h, clifford_form=form) if rng.random() < 0.5 else are_lc_equivalent(g, h, form)
        if want is not None:
            ck(bool(r) == want, lambda: f"reported {r}, the local complementation orbit says {want}: {c['E']} / {c['F']}")
        if not r:
            ck(cl is None, "Clifford returned without equivalence")
            continue
        if form == "tensor":
            ck(len(cl) == n and all(np.shape(x) == (2, 2) for x in cl), "tensor form")
            blocks = [np.array(x) for x in cl]
        else:
            Q = np.array(cl)
            ck(Q.shape == (2 * n, 2 * n), "global form")
            blocks = [np.array([[Q[i, i], Q[i, i + n]], [Q[i + n, i], Q[i + n, i + n]]]) for i in range(n)]
            Z = Q.copy()
            for i in range(n):
                Z[i, i] = Z[i, i + n] = Z[i + n, i] = Z[i + n, i + n] = 0
            ck(not Z.any(), "global form is not local")
        for x in blocks:
            ck(np.isin(x, (0, 1)).all() and (x[0, 0] * x[1, 1] + x[0, 1] * x[1, 0]) % 2 == 1, lambda: f"block {x.tolist()} is not invertible")
        # (theta; identity) columns generate the space of a graph; the image must be generated by the second's
        G = np.array([[A[i] >> j & 1 for j in range(n)] for i in range(n)])
        H = np.array([[B[i] >> j & 1 for j in range(n)] for i in range(n)])
        a, b, cc, d = (np.diag([int(x[i, j]) for x in blocks]) for i in (0, 1) for j in (0, 1))
        top, bot = a @ G + b, cc @ G + d
        ck(not np.any((top + H @ bot) % 2), lambda: f"the Clifford does not map the first graph onto the second: {c['E']} / {c['F']}")
