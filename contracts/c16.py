"""C16: CZ matrices as block matrices over unknown blocks; inverse permutations."""
import z3
from pv.prove import Unit
from pv.values import *
from pv.models import SymArr
from pv import logic, matrices
from pv.matrices import Mat, ONE, ZERO, atom, lean_ring

OPS = "flamingpy.cv.ops."
FORMS = {"dense": False, "sparse": True}


class Ring:
    """Obligations about equality of blocks: compared in normal form and by Lean."""

    def __init__(self, t):
        self.t, self.todo = t, []

    def equal(self, name, got, want, dim="n"):
        if got != want:
            self.t.obs.append(dict(name=f"{self.t.name}: {name}", status="refuted", s=0.0, by="normal form",
                                   detail=f"is {got}\nexpected {want}"[:2000], case=self.t.case(None)))
        else:
            self.todo.append((name, got.tree, want.tree, dim))

    def done(self):
        import time
        if not self.todo:
            return
        t0 = time.time()
        ok, out = lean_ring(self.todo)
        if not ok:
            raise Unsupported("Lean does not confirm the block identities: " + out)
        for name, *_ in self.todo:
            self.t.obs.append(dict(name=f"{self.t.name}: {name}", status="proved", s=(time.time() - t0) / len(self.todo), by="Lean 4"))
        self.todo = []


def setting(t, form):
    e = t.e
    N = z3.Int("N")
    e.assume(N >= 1)
    t.case = lambda m: dict(n=3, form="dense" if form == "dense" else "csr_array", dt="int64", seed=2)
    A = atom("A", True)
    return e, N, A, Mat([N], [N], [[A]], FORMS[form])


def is_mat(t, name, m, sparse, rows, cols):
    ok = isinstance(m, Mat)
    t.prove(f"{name}: a matrix", ok)
    if not ok:
        return None
    t.prove(f"{name}: {'sparse' if sparse else 'dense'}", m.sparse == sparse)
    return m.aligned(t.e, rows, cols)


def mat_unit(t, form, sparse):
    e, N, A, adj = setting(t, form)
    call = lambda *a: e.call(e.lookup(OPS + "SCZ_mat"), list(a))
    S = call(adj) if sparse is None else call(adj, sparse)
    t.no_raise()
    ring = Ring(t)
    S = is_mat(t, "result", S, form == "sparse" and sparse is not False, [N, N], [N, N])
    if S is None:
        return
    want = [[ONE, ZERO], [A, ONE]]
    for i in range(2):
        for j in range(2):
            ring.equal(f"block {i}{j}", S.blocks[i][j], want[i][j])
    J = Mat([N, N], [N, N], [[ZERO, ONE], [-ONE, ZERO]])
    P = S.copy(False).dot(e, J).dot(e, S.copy(False).transpose())
    for i in range(2):
        for j in range(2):
            ring.equal(f"symplectic, block {i}{j}", P.blocks[i][j], J.blocks[i][j])
    t.prove("the argument is not changed", adj.blocks[0][0].terms == A.terms and len(adj.rows) == 1)
    ring.done()


def apply_unit(t, form, one_shot, dim):
    e, N, A, adj = setting(t, form)
    ring = Ring(t)
    names = ["v_q", "v_p"] if dim == 1 else ["M11", "M12", "M21", "M22"]
    at = [atom(n) for n in names]
    x = Mat([N, N], None, [[at[0]], [at[1]]]) if dim == 1 else Mat([N, N], [N, N], [at[:2], at[2:]])
    kw = {} if one_shot is None else {"one_shot": one_shot}
    r = e.call(e.lookup(OPS + "SCZ_apply"), [adj, x], kw)
    t.no_raise()
    r = is_mat(t, "result", r, False, [N, N], None if dim == 1 else [N, N])
    if r is None:
        return
    t.prove("as many dimensions", r.ndim == dim)
    S = Mat([N, N], [N, N], [[ONE, ZERO], [A, ONE]])
    want = S.dot(e, x) if dim == 1 else S.dot(e, x).dot(e, S.transpose())
    for i in range(2):
        for j in range(len(want.width())):
            ring.equal(f"block {i}{j}", r.blocks[i][j], want.blocks[i][j], "m" if dim == 1 else "n")
    ring.done()


def inverse_unit(t):
    e = t.e
    n, i = z3.Int("n"), z3.Int("i")
    e.assume(n >= 0)
    t.case = lambda m: dict(perm=5, seed=3)
    P, Q = z3.Function("p", z3.IntSort(), z3.IntSort()), z3.Function("p_inv", z3.IntSort(), z3.IntSort())
    inside = lambda x: z3.And(x >= 0, x < n)
    logic.bijection(P, Q, inside, inside)
    p = SymArr(SNum(n), lambda j: SNum(P(lift_num(j))))
    r = e.call(e.lookup(OPS + "invert_permutation"), [p])
    t.no_raise()
    t.prove("as long as the permutation", e.eq(e.call(e.builtin("len"), [r]), SNum(n)))
    with e.guard(inside(i)):
        got = lift_num(e.getitem(r, SNum(P(i))))
        t.prove("inverse after the permutation", got == i)
        back = lift_num(e.getitem(r, SNum(i)))
        t.prove("in range", inside(back))
        t.prove("permutation after the inverse", P(back) == i)
        t.prove("the argument is not changed", lift_num(e.getitem(p, SNum(i))) == P(i))
    t.no_raise("indices are valid")


def units():
    out = [Unit("invert_permutation", inverse_unit)]
    for form in FORMS:
        for s in (None, True, False):
            out.append(Unit(f"SCZ_mat {form} sparse={s}", mat_unit, (form, s)))
        for o in (None, True, False):
            for d in (1, 2):
                out.append(Unit(f"SCZ_apply {form} one_shot={o} {d}-dimensional", apply_unit, (form, o, d)))
    return out
