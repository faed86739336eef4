from base import *
import scipy.sparse as sp

RULE = "one symmetric matrix, storage format and operand per case; compared with dense block arithmetic; non-trivial: the matrix is not 0"
FORMS = ("dense", "csr_array", "coo_array", "csr_matrix", "csc_array")


def core(tier):
    for n in (1, 2, 3, 5):
        for f in FORMS:
            for dt in ("int8", "int64", "float64", "float32"):
                yield dict(n=n, form=f, dt=dt, seed=n)
    for n in (1, 2, 7, 50):
        yield dict(perm=n, seed=3)
    yield dict(n=40, form="csr_array", dt="int8", seed=3)


def count(tier):
    return dict(quick=600, thorough=8000, search=8000)[tier]


def rand(rng, tier):
    if rng.random() < 0.2:
        return dict(perm=rng.randint(1, 30), seed=rng.randrange(10**6))
    return dict(n=rng.randint(1, 9), form=rng.choice(FORMS), dt=rng.choice(["int8", "int64", "float64", "float32"]), seed=rng.randrange(10**6))


def nontrivial(c):
    return True


def check(c):
    from flamingpy.cv.ops import SCZ_mat, SCZ_apply, invert_permutation

    rng = np.random.default_rng(c["seed"])
    if "perm" in c:
        n = c["perm"]
        p = rng.permutation(n)
        if rng.random() < 0.5:
            p = p.astype(np.int32)
        keep = p.copy()
        q = np.array(invert_permutation(p))
        ck(np.array_equal(p, keep), "argument changed")
        ck(q.shape == (n,) and np.array_equal(p[q], np.arange(n)) and np.array_equal(q[p], np.arange(n)), lambda: f"{q} is not the inverse of {p}")
        return
    n = c["n"]
    A = rng.integers(-2, 3, (n, n)).astype(float)
    if c["dt"].startswith("float"):
        A = A * 0.25
    A = np.triu(A, 1)
    A = (A + A.T).astype(c["dt"])
    adj = A if c["form"] == "dense" else getattr(sp, c["form"])(A)
    S = np.block([[np.eye(n), np.zeros((n, n))], [A, np.eye(n)]]).astype(float)
    for sparse in (True, False, None):
        M = SCZ_mat(adj) if sparse is None else SCZ_mat(adj, sparse) if rng.random() < 0.5 else SCZ_mat(adj, sparse=sparse)
        isd = isinstance(M, np.ndarray)
        ck(isd == (c["form"] == "dense" or sparse is False), lambda: f"SCZ_mat(sparse={sparse}) of {type(adj).__name__} returns {type(M).__name__}")
        D = M if isd else M.toarray()
        ck(D.shape == (2 * n, 2 * n) and np.array_equal(D.astype(float), S), "CZ matrix")
        J = np.block([[np.zeros((n, n)), np.eye(n)], [-np.eye(n), np.zeros((n, n))]])
        ck(np.allclose(D.astype(float) @ J @ D.T.astype(float), J), "not symplectic")
    ck(np.array_equal(A, adj if c["form"] == "dense" else adj.toarray()), "argument changed")
    for dt in (float, np.float32, np.int64):
        v = rng.normal(size=2 * n) * 5
        M = rng.normal(size=(2 * n, 2 * n)) * 5
        v, M = v.astype(dt), M.astype(dt)
        kv, kM = v.copy(), M.copy()
        wv, wM = S @ v, S @ M.astype(float) @ S.T
        for os in (True, False):
            r = SCZ_apply(adj, v, one_shot=os)
            ck(np.shape(r) == (2 * n,) and np.allclose(r, wv, atol=1e-3 if dt is np.float32 else 1e-9, rtol=1e-4), lambda: f"one_shot={os}: vector {v} of {dt.__name__} goes to {r}, expected {wv}")
            R = SCZ_apply(adj, M, one_shot=os)
            ck(np.shape(R) == (2 * n, 2 * n) and np.allclose(R, wM, atol=1e-2 if dt is np.float32 else 1e-9, rtol=1e-4), lambda: f"one_shot={os}: matrix differs by {np.max(np.abs(R - wM))}")
        ck(np.array_equal(v, kv) and np.array_equal(M, kM), "operand changed in place")
