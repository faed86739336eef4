"""Block matrices over unknown square blocks.

A block is a polynomial in matrix atoms and their transposes (non-commutative): a normal form, together with the
expression it came from, which Lean (Mathlib) compares with the expected one (Task.ring).
"""
import ast
import z3
from pv.values import *
from pv.engine import ModelFn
from pv import models
from pv.models import EXT, NPM, npm, ext, native

ATOMS = {}  # name -> symmetric


class Poly:
    """sum of coefficient * word; a word is a tuple of (atom, transposed); tree: the Lean term."""

    def __init__(self, terms, tree):
        self.terms, self.tree = {w: c for w, c in terms.items() if c != 0}, tree

    def __add__(self, o):
        if not self.terms:
            return o
        if not o.terms:
            return self
        t = dict(self.terms)
        for w, c in o.terms.items():
            t[w] = t.get(w, 0) + c
        return Poly(t, f"({self.tree} + {o.tree})")

    def __neg__(self):
        if not self.terms:
            return self
        return Poly({w: -c for w, c in self.terms.items()}, f"(-{self.tree})")

    def __mul__(self, o):
        if not self.terms:
            return self
        if not o.terms:
            return o
        if self.is_one():
            return o
        if o.is_one():
            return self
        t = {}
        for w, c in self.terms.items():
            for x, d in o.terms.items():
                t[w + x] = t.get(w + x, 0) + c * d
        return Poly(t, f"({self.tree} * {o.tree})")

    def is_one(self):
        return self.terms == {(): 1}

    def transpose(self):
        if not self.terms or self.is_one():
            return self
        t = {}
        for w, c in self.terms.items():
            x = tuple((a, False if ATOMS[a] else not f) for a, f in reversed(w))
            t[x] = t.get(x, 0) + c
        return Poly(t, f"({self.tree})ᵀ")

    def scale(self, k):
        if k == 1:
            return self
        if k == 0:
            return ZERO
        return Poly({w: c * k for w, c in self.terms.items()}, f"(({int(k)} : ℤ) • {self.tree})")

    def __eq__(self, o):
        return isinstance(o, Poly) and self.terms == o.terms

    __hash__ = None

    def __repr__(self):
        return self.tree


ZERO = Poly({}, "0")
ONE = Poly({(): 1}, "1")


def atom(name, symmetric=False):
    ATOMS[name] = symmetric
    return Poly({((name, False),): 1}, name)


def same(e, a, b):
    return a is b or (z3.is_expr(a) and z3.is_expr(b) and a.eq(b)) or e.entails(a == b)


class Mat:
    """rows, cols: block sizes (cols None: a vector); blocks[i][j] (one column for a vector)."""

    is_array = True

    def __init__(self, rows, cols, blocks, sparse=False):
        self.rows, self.cols, self.blocks, self.sparse = list(rows), None if cols is None else list(cols), [list(r) for r in blocks], sparse
        self.is_array = not sparse
        self.viewed = False

    def copy(self, sparse=None):
        return Mat(self.rows, self.cols, self.blocks, self.sparse if sparse is None else sparse)

    copy_array = lambda self, e: self.copy()

    @property
    def ndim(self):
        return 1 if self.cols is None else 2

    def width(self):
        return self.cols if self.cols is not None else [None]

    def shape(self):
        s = lambda p: norm_num(z3.simplify(sum(p[1:], p[0])))
        return (s(self.rows),) if self.cols is None else (s(self.rows), s(self.cols))

    def length(self, e):
        return self.shape()[0]

    def truth(self, e):
        raise Unsupported("truth value of an array")

    # ---- structure
    def split(self, e, axis, at):
        """Make `at` (a term) a block border; its position in the partition."""
        part = self.rows if axis == 0 else self.cols
        off = z3.IntVal(0)
        for i, s in enumerate(part):
            if same(e, z3.simplify(off), at):
                return i
            nxt = z3.simplify(off + s)
            if not e.entails(at >= nxt):
                if not e.entails(z3.And(at > off, at < nxt)):
                    raise Unsupported("a border of unknown position")
                line = [r[i] for r in self.blocks] if axis == 1 else self.blocks[i]
                a, b = z3.simplify(at - off), z3.simplify(nxt - at)
                if all(not p.terms for p in line):
                    part[i:i + 1] = [a, b]
                    if axis == 1:
                        for r in self.blocks:
                            r[i:i + 1] = [ZERO, ZERO]
                    else:
                        self.blocks[i:i + 1] = [list(line), [ZERO] * len(line)]
                    return i + 1
                raise Unsupported("a border inside of a block")
            off = nxt
        if same(e, z3.simplify(off), at):
            return len(part)
        raise Unsupported("a border outside of the matrix")

    def bounds(self, e, axis, i):
        part = self.rows if axis == 0 else self.cols
        tot = z3.simplify(sum(part[1:], part[0]))
        if not isinstance(i, slice) or i.step not in (None, 1):
            raise Unsupported("matrix index")

        def pos(x):
            x = lift_num(x)
            return z3.simplify(x + tot) if e.entails(x < 0) else x
        lo = 0 if i.start is None else self.split(e, axis, pos(i.start))
        hi = len(self.rows if axis == 0 else self.cols) if i.stop is None else self.split(e, axis, pos(i.stop))
        if i.start is not None and i.stop is not None:
            lo = self.split(e, axis, pos(i.start))
        if lo > hi:
            raise Unsupported("an empty slice")
        return lo, hi

    def index(self, e, i):
        i = i if isinstance(i, tuple) else (i,)
        if len(i) > self.ndim or self.sparse:
            raise Unsupported("matrix index")
        if self.ndim == 2:
            i = i + (slice(None),) * (2 - len(i))
            return self.bounds(e, 0, i[0]), self.bounds(e, 1, i[1])
        return self.bounds(e, 0, i[0]), (0, 1)

    def getitem(self, e, i):
        if isinstance(i, tuple) and self.ndim == 1 and len(i) == 2 and i[1] is None:
            m = self.getitem(e, i[0])
            return Mat(m.rows, [z3.IntVal(1)], m.blocks)
        (a, b), (c, d) = self.index(e, i)
        m = Mat(self.rows[a:b], None if self.cols is None else self.cols[c:d], [r[c:d] for r in self.blocks[a:b]])
        m.base = self
        self.viewed = True
        return m

    def setitem(self, e, i, val):
        if self.viewed or getattr(self, "base", None) is not None or e.path:
            raise Unsupported("assignment into a matrix that shares memory")
        (a, b), (c, d) = self.index(e, i)
        if is_num(val) and not isinstance(val, SV) and val == 0:
            val = Mat(self.rows[a:b], None if self.cols is None else self.cols[c:d], [[ZERO] * (d - c) for _ in range(a, b)])
        if not isinstance(val, Mat):
            raise Unsupported("assignment into a matrix")
        if val.ndim != self.ndim or val.sparse:
            raise Unsupported("assignment into a matrix")
        val = val.aligned(e, self.rows[a:b], None if self.cols is None else self.cols[c:d])
        for x in range(a, b):
            self.blocks[x][c:d] = val.blocks[x - a]

    def aligned(self, e, rows, cols):
        """The same matrix on this partition."""
        m = self.copy()
        for axis, want in ((0, rows), (1, cols)):
            if want is None:
                continue
            off = z3.IntVal(0)
            for s in want:
                off = z3.simplify(off + s)
                m.split(e, axis, off)
            have = m.rows if axis == 0 else m.cols
            if len(have) != len(want) or not all(same(e, x, y) for x, y in zip(have, want)):
                raise Unsupported("matrices on different partitions")
        return m

    # ---- algebra
    def zip(self, e, o, f):
        if self.ndim != o.ndim:
            raise Unsupported("broadcasting of matrices")
        if self.sparse != o.sparse:
            raise Unsupported("sum of a sparse and a dense matrix")
        o = o.aligned(e, self.rows, self.cols) if len(o.rows) <= len(self.rows) else o
        s = self.aligned(e, o.rows, o.cols)
        return Mat(s.rows, s.cols, [[f(x, y) for x, y in zip(p, q)] for p, q in zip(s.blocks, o.blocks)], s.sparse)

    def map(self, f):
        return Mat(self.rows, self.cols, [[f(x) for x in r] for r in self.blocks], self.sparse)

    def neg(self, e):
        return self.map(lambda p: -p)

    def transpose(self):
        if self.cols is None:
            return self
        self.viewed = True
        r = Mat(self.cols, self.rows, [[self.blocks[i][j].transpose() for i in range(len(self.rows))] for j in range(len(self.cols))], self.sparse)
        r.base = self
        return r

    def inplace(self, e, op, o):
        if self.viewed or getattr(self, "base", None) is not None or e.path:
            raise Unsupported("assignment into a matrix that shares memory")
        r = self.binop(e, op, o)
        self.rows, self.cols, self.blocks = r.rows, r.cols, r.blocks
        return self

    def dot(self, e, o, method="dot"):
        if not isinstance(o, Mat):
            raise Unsupported("product with another kind of value")
        if method == "dot" and o.sparse and not self.sparse:
            raise Unsupported("ndarray.dot of a sparse matrix")
        if self.cols is None:
            raise Unsupported("product of a vector")
        s = self.copy()
        o = o.copy()
        for p, m, ax in ((o.rows, s, 1), (s.cols, o, 0)):
            off = z3.IntVal(0)
            for x in list(p):
                off = z3.simplify(off + x)
                m.split(e, ax, off)
        if len(s.cols) != len(o.rows) or not all(same(e, x, y) for x, y in zip(s.cols, o.rows)):
            raise Unsupported("product of matrices on different partitions")
        out = []
        for i in range(len(s.rows)):
            row = []
            for j in range(len(o.width())):
                acc = ZERO
                for k in range(len(s.cols)):
                    acc = acc + s.blocks[i][k] * o.blocks[k][j]
                row.append(acc)
            out.append(row)
        return Mat(s.rows, o.cols, out, s.sparse and o.sparse)

    def binop(self, e, op, o):
        if op == "@":
            return self.dot(e, o, "@")
        if isinstance(o, Mat) and op in "+-":
            return self.zip(e, o, (lambda x, y: x + y) if op == "+" else (lambda x, y: x + -y))
        if op == "*" and isinstance(o, (int, np.integer)):
            return self.map(lambda p: p.scale(int(o)))
        if isinstance(o, Mat) and op == "*" and False:
            pass
        raise Unsupported(f"matrix operation {op}")

    def rbinop(self, e, op, o):
        if op == "*" and isinstance(o, (int, np.integer)):
            return self.map(lambda p: p.scale(int(o)))
        raise Unsupported(f"matrix operation {op}")

    def getattr_model(self, e, name):
        fn = lambda f: (ModelFn("matrix." + name, f),)
        if name == "shape":
            return (self.shape(),)
        if name == "ndim":
            return (self.ndim,)
        if name == "T":
            return (self.transpose(),)
        if name == "transpose":
            return fn(lambda e, a, k: self.transpose())
        if name == "dot":
            return fn(lambda e, a, k: self.dot(e, e.force(a[0])))
        if name == "copy":
            return fn(lambda e, a, k: self.copy())
        if self.sparse and name == "toarray":
            return fn(lambda e, a, k: self.copy(False))
        if self.sparse and name in ("tocsr", "tocsc", "tocoo"):
            return fn(lambda e, a, k: self.copy())
        return None


def mats(e, v):
    return [e.force(x) for x in e.unpack(v)]


def joined(e, ms, axis):
    """Concatenation along an axis."""
    if not all(isinstance(m, Mat) for m in ms):
        return NotImplemented
    if axis >= ms[0].ndim or any(m.ndim != ms[0].ndim for m in ms):
        raise Unsupported("concatenation of vectors and matrices")
    a = ms[0]
    for m in ms[1:]:
        m = m.copy()
        a = a.copy()
        if a.cols is not None:
            other = 1 - axis
            p, q = (a.cols, m.cols) if other == 1 else (a.rows, m.rows)
            for src, dst in ((list(p), m), (list(q), a)):
                off = z3.IntVal(0)
                for x in src:
                    off = z3.simplify(off + x)
                    dst.split(e, other, off)
            p, q = (a.cols, m.cols) if other == 1 else (a.rows, m.rows)
            if len(p) != len(q) or not all(same(e, x, y) for x, y in zip(p, q)):
                raise Unsupported("matrices on different partitions")
        if axis == 0:
            a = Mat(a.rows + m.rows, a.cols, a.blocks + m.blocks, a.sparse or m.sparse)
        else:
            a = Mat(a.rows, a.cols + m.cols, [x + y for x, y in zip(a.blocks, m.blocks)], a.sparse or m.sparse)
    return a


def block(e, v, sparse):
    rows = []
    for r in e.unpack(v):
        r = e.force(r)
        items = mats(e, r) if isinstance(r, (tuple, PList)) else [r]
        rows.append(items)
    flat = [x for r in rows for x in r]
    if not any(isinstance(x, Mat) for x in flat):
        return NotImplemented
    if not sparse and any(isinstance(x, Mat) and x.sparse for x in flat):
        raise Unsupported("np.block of sparse matrices")
    if any(x is None for x in flat):
        if not sparse:
            raise Unsupported("np.block of None")
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                if x is None:
                    h = [y for y in r if y is not None]
                    w = [q[j] for q in rows if q[j] is not None]
                    if not h or not w:
                        raise Unsupported("empty row of blocks")
                    rows[i][j] = Mat(h[0].rows, w[0].cols, [[ZERO] * len(w[0].cols) for _ in h[0].rows], True)
    if not all(isinstance(x, Mat) for r in rows for x in r):
        raise Unsupported("block of other values")
    if sparse:
        rows = [[x.copy(True) for x in r] for r in rows]
    if all(x.ndim == 1 for r in rows for x in r):
        if len(rows) == 1:
            return joined(e, rows[0], 0)
        raise Unsupported("block of vectors")
    return joined(e, [joined(e, r, 1) for r in rows], 0)


def chain(name, f, table=NPM):
    """A model tried before the existing one."""
    old = table.get(name)

    def m(e, a, k):
        r = f(e, a, k)
        if r is NotImplemented and old is not None:
            return old(e, a, k)
        return r

    table[name] = m


def symbolic_dims(e, v):
    v = e.force(v)
    if isinstance(v, SNum):
        return [lift_num(v)]
    if isinstance(v, (tuple, PList)):
        xs = [e.force(x) for x in (v if isinstance(v, tuple) else e.plain(v) or [])]
        if xs and all(is_num(x) for x in xs) and any(isinstance(x, SNum) for x in xs):
            return [lift_num(x) for x in xs]
    return None


def zeros(e, a, k):
    d = symbolic_dims(e, a[0] if a else k["shape"])
    if d is None or len(d) != 2:
        return NotImplemented
    return Mat([d[0]], [d[1]], [[ZERO]])


def eye(sparse):
    def f(e, a, k):
        if set(k) - {"dtype", "format"} or len(a) > (2 if sparse else 1) and a[1] is not None and not (is_num(a[1]) and e.entails(lift_num(a[1]) == lift_num(a[0]))):
            raise Unsupported("identity with options")
        n = lift_num(e.force(a[0]))
        if not sparse and not isinstance(e.force(a[0]), SNum):
            return NotImplemented
        return Mat([n], [n], [[ONE]], sparse)
    return f


def spzeros(e, a, k):
    v = e.force(a[0])
    if isinstance(v, Mat):
        return v.copy(True)
    d = symbolic_dims(e, v)
    if d is None or len(d) != 2:
        raise Unsupported("sparse matrix from other data")
    return Mat([d[0]], [d[1]], [[ZERO]], True)


chain("zeros", zeros)
chain("eye", eye(False))
chain("identity", eye(False))
chain("block", lambda e, a, k: block(e, a[0], False))
chain("hstack", lambda e, a, k: (lambda ms: joined(e, ms, 0 if ms[0].ndim == 1 else 1) if all(isinstance(m, Mat) for m in ms) else NotImplemented)(mats(e, a[0])))
chain("vstack", lambda e, a, k: (lambda ms: joined(e, ms, 0) if all(isinstance(m, Mat) and m.ndim == 2 for m in ms) else NotImplemented)(mats(e, a[0])))
chain("dot", lambda e, a, k: e.force(a[0]).dot(e, e.force(a[1])) if isinstance(e.force(a[0]), Mat) else NotImplemented)
chain("matmul", lambda e, a, k: e.force(a[0]).dot(e, e.force(a[1]), "@") if isinstance(e.force(a[0]), Mat) else NotImplemented)
chain("transpose", lambda e, a, k: e.force(a[0]).transpose() if isinstance(e.force(a[0]), Mat) else NotImplemented)


def concat(e, a, k):
    ms = a[0]
    ms = e.force(ms)
    if not isinstance(ms, (tuple, PList)) or isinstance(ms, PList) and e.plain(ms) is None:
        return NotImplemented
    ms = mats(e, ms)
    if not any(isinstance(m, Mat) for m in ms):
        return NotImplemented
    if any(isinstance(m, Mat) and m.sparse for m in ms):
        raise Unsupported("np.concatenate of sparse matrices")
    return joined(e, ms, k.get("axis", a[1] if len(a) > 1 else 0))


chain("concatenate", concat)
EXT["scipy.sparse.identity"] = EXT["scipy.sparse.eye"] = EXT["scipy.sparse.eye_array"] = eye(True)
for _n in ("csr_matrix", "csr_array", "csc_matrix", "csc_array", "coo_matrix", "coo_array", "lil_matrix", "dok_matrix"):
    EXT["scipy.sparse." + _n] = spzeros
EXT["scipy.sparse.bmat"] = EXT["scipy.sparse.block_array"] = lambda e, a, k: block(e, a[0], True)
EXT["scipy.sparse.hstack"] = lambda e, a, k: joined(e, [m.copy(True) for m in mats(e, a[0])], 1)
EXT["scipy.sparse.vstack"] = lambda e, a, k: joined(e, [m.copy(True) for m in mats(e, a[0])], 0)


def issparse(e, a, k):
    v = e.force(a[0])
    if isinstance(v, GU):
        return e.lift(v, lambda x: issparse(e, [x], k))
    if isinstance(v, Mat):
        return v.sparse
    if isinstance(v, np.ndarray) or is_num(v) or v is None or getattr(v, "is_array", False):
        return False
    raise Unsupported("issparse")


EXT["scipy.sparse.issparse"] = issparse


def lean_ring(obligations):
    """One Lean file: the trees agree, for all matrices over all commutative rings.  [(name, tree, tree)] -> failures"""
    import subprocess, tempfile, os

    names = sorted(ATOMS)
    sym = " ".join(f"(h{n} : {n}ᵀ = {n})" for n in names if ATOMS[n])
    hs = ", ".join(f"h{n}" for n in names if ATOMS[n])
    lemmas = ("Matrix.transpose_mul, Matrix.transpose_add, Matrix.transpose_neg, Matrix.transpose_smul, Matrix.transpose_transpose, "
              "Matrix.transpose_one, Matrix.transpose_zero, Matrix.mul_add, Matrix.add_mul, Matrix.mul_assoc, Matrix.mul_one, Matrix.one_mul, "
              "Matrix.mul_zero, Matrix.zero_mul, Matrix.mul_neg, Matrix.neg_mul, add_zero, zero_add, neg_neg, neg_zero")
    vec = [n for n in names if n.startswith("v_")]
    sq = [n for n in names if n not in vec]
    txt = ["import Mathlib.Data.Matrix.Mul", "import Mathlib.Tactic.Abel", "set_option linter.all false", "open Matrix",
           "variable {n m R : Type*} [Fintype n] [DecidableEq n] [CommRing R]"]
    for i, (_, a, b, dim) in enumerate(obligations):
        bind = (f"({' '.join(sq)} : Matrix n n R) " if sq else "") + (f"({' '.join(vec)} : Matrix n m R) " if vec else "")
        txt.append(f"theorem t{i} {bind}{sym} : ({a} : Matrix n {dim} R) = {b} := by\n  (try simp only [{lemmas}{', ' + hs if hs else ''}]) <;> (try abel)")
    with tempfile.NamedTemporaryFile("w", suffix=".lean", delete=False) as f:
        f.write("\n".join(txt) + "\n")
    try:
        r = subprocess.run(["lean", f.name], capture_output=True, text=True, timeout=240)
    except (OSError, subprocess.TimeoutExpired) as x:
        raise Unsupported(f"Lean gives no answer: {x}")
    finally:
        os.unlink(f.name)
    return r.returncode == 0 and "error" not in r.stdout, (r.stdout + r.stderr)[:1500]
