"""Guarded symbolic evaluation of the real Python source.

The evaluator never forks: it carries a *path* (a stack of guards and of
bound-variable families), merges local state with if-then-else, and records
what the code does to collections, graphs and objects as guarded families of
entries.  A loop over a symbolic collection is summarised exactly by running
its body once for an arbitrary element; order dependence is either excluded by
proof (the engine asks the solver) or the code is rejected as outside of the
verified subset (Unsupported).
"""
import ast
import builtins
import contextlib
import operator
import os
import time
import warnings
import numpy as np
import z3

from pv.values import *
from pv.values import _hooks
from pv import logic
from pv.logic import exists, cases, subst, free_vars


DELETED = object()


warnings.filterwarnings("ignore", category=SyntaxWarning)


class Poison:
    def __init__(self, why):
        self.why = why


class VerifError(Exception):
    """Internal inconsistency of a contract file."""


# ---------------------------------------------------------------- functions
class FuncVal:
    def __init__(self, module, node, closure=None, cls=None, qual=None):
        self.module, self.node, self.closure, self.cls = module, node, closure, cls
        self.name = getattr(node, "name", "<lambda>")
        self.qual = qual or f"{module.name}.{self.name}"
        self.defaults = None

    def __repr__(self):
        return f"<func {self.qual}>"


class BoundMethod:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __repr__(self):
        return f"<bound {self.func}>"


class ModelFn:
    """A modelled function: fn(engine, args, kwargs)."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<model {self.name}>"


class ExtModule:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<module {self.name}>"


class ExcType:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<exc {self.name}>"


class ExcVal:
    def __init__(self, name, args=()):
        self.name, self.args = name, args


class ClassVal:
    def __init__(self, module, node):
        self.module, self.node = module, node
        self.name = node.name
        self.qual = f"{module.name}.{node.name}"
        self.members = {}
        self.bases = None
        self._mro = None
        self.is_dataclass = any(
            "dataclass" in ast.unparse(d) for d in node.decorator_list
        )
        self.fields = []
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                self.members[st.name] = st
            elif isinstance(st, ast.Assign) and len(st.targets) == 1:
                if isinstance(st.targets[0], ast.Name):
                    self.members[st.targets[0].id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.fields.append((st.target.id, st.value))
                if st.value is not None:
                    self.members[st.target.id] = st.value

    def __repr__(self):
        return f"<class {self.qual}>"


class SuperVal:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Module:
    def __init__(self, engine, name, path):
        self.engine, self.name, self.path = engine, name, path
        with open(path, encoding="utf8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.defs = {}
        self.cache = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    nm = a.asname or a.name.split(".")[0]
                    self.defs[nm] = ("import", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    if not self.path.endswith("__init__.py"):
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (st.level - 1)]
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    self.defs[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ("expr", st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.defs[st.target.id] = ("expr", st.value)
            elif isinstance(st, ast.Try):
                self._scan(st.body)
            elif isinstance(st, ast.If):
                pass

    def get(self, name):
        if name in self.cache:
            return self.cache[name]
        if name not in self.defs:
            raise KeyError(name)
        d = self.defs[name]
        e = self.engine
        if isinstance(d, ast.FunctionDef):
            v = FuncVal(self, d)
            for dec in d.decorator_list:
                raise Unsupported(f"decorator on {name}")
        elif isinstance(d, ast.ClassDef):
            v = ClassVal(self, d)
        elif d[0] == "import":
            v = e.module_value(d[1])
        elif d[0] == "from":
            v = e.import_from(d[1], d[2])
        else:
            fr = Frame(self, None)
            v = e.eval(d[1], fr)
        self.cache[name] = v
        return v


class Frame:
    def __init__(self, module, func, closure=None):
        self.module, self.func, self.closure = module, func, closure
        self.locals = {}
        self.returns = []
        self.base = 0
        self.cls = None
        self.globals_decl = set()


class Flow:
    __slots__ = ("ret", "brk", "cont", "exc")

    def __init__(self, ret=False, brk=False, cont=False, exc=False):
        self.ret, self.brk, self.cont, self.exc = ret, brk, cont, exc

    def all(self):
        return Or(self.ret, self.brk, self.cont, self.exc)


NOFLOW = Flow()


class Chunk:
    """rng: (first, end, step) if the chunk is a range in order, its variable going through it."""

    __slots__ = ("vars", "guard", "value", "rng")

    def __init__(self, vars, guard, value, rng=None):
        self.vars, self.guard, self.value, self.rng = tuple(vars), guard, value, rng


class LoopRec:
    def __init__(self, depth, vars, ch=None):
        self.depth, self.vars, self.ch = depth, vars, ch
        self.reads, self.writes = [], []


class Agg:
    """Definition of an aggregate symbol over a family."""

    def __init__(self, kind, sym, params, vars, guard, value):
        self.kind, self.sym, self.params = kind, sym, params
        self.vars, self.guard, self.value = vars, guard, value


def subst_value(v, pairs):
    if not pairs:
        return v
    if isinstance(v, SBool):
        return mk_bool(subst(v.e, pairs))
    if isinstance(v, SNum):
        return norm_num(subst(v.e, pairs))
    if isinstance(v, SRef):
        return SRef(subst(v.e, pairs), v.cls)
    if isinstance(v, tuple):
        return tuple(subst_value(x, pairs) for x in v)
    if isinstance(v, GU):
        return GU([(subst(g, pairs), subst_value(x, pairs)) for g, x in v.alts])
    if isinstance(v, Heap):
        if not v.store.params:
            return v
        args = [subst(a, pairs) for a in v.args()]
        return type(v)(v.store, [(p, a) for p, a in zip(v.store.params, args)])
    if isinstance(v, np.ndarray) and v.dtype == object:
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            out[i] = subst_value(v[i], pairs)
        return out
    if hasattr(v, "subst"):
        return v.subst(pairs)
    return v


def value_terms(v):
    """The z3 terms of a value."""
    if isinstance(v, SV):
        return [v.e]
    if isinstance(v, tuple):
        return [t for x in v for t in value_terms(x)]
    if isinstance(v, GU):
        return [t for g, x in v.alts for t in ([g] if z3.is_expr(g) else []) + value_terms(x)]
    if isinstance(v, Heap):
        return list(v.args())
    if isinstance(v, np.ndarray) and v.dtype == object:
        return [t for x in v.flat for t in value_terms(x)]
    if hasattr(v, "parts"):
        return [t for x in v.parts() for t in value_terms(x)]
    if hasattr(v, "vars_of"):
        acc = {}
        v.vars_of(acc)
        return list(acc.values())
    return []


def contains_any(v, x):
    return x.get_id() in value_vars(v, {})


def value_vars(v, acc):
    """ids of the free z3 constants in a value."""
    if isinstance(v, SV):
        acc.update(free_vars(v.e))
    elif isinstance(v, tuple):
        for x in v:
            value_vars(x, acc)
    elif isinstance(v, GU):
        for g, x in v.alts:
            if not isinstance(g, bool):
                acc.update(free_vars(g))
            value_vars(x, acc)
    elif isinstance(v, Heap):
        for a in v.args():
            acc.update(free_vars(a))
    elif isinstance(v, np.ndarray) and v.dtype == object:
        for x in v.flat:
            value_vars(x, acc)
    elif hasattr(v, "vars_of"):
        v.vars_of(acc)
    return acc


def unnp(x):
    return str(x) if isinstance(x, np.str_) else x


class Engine:
    ref_coords = None  # coordinates of a node that is an unknown point

    def __init__(self, root="/repo"):
        self.root = root
        self.modules = {}
        self.path = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 2000)
        self.assumptions = []
        self.loops = []
        self.raises = []
        self.frames = []
        self.obls = []
        self.aggs = {}
        self.contracts = {}
        self.ext_contracts = {}
        self.builtins = {}
        self.owned = []
        self.maxima = []
        self.logs, self.rounded = [], []
        self.sizes, self.order_lost = [], False
        self.inlined = set()
        self.used_contracts = set()
        self.models_used = set()
        self.notes = []
        self.log = []
        self.stats = dict(queries=0, solver_s=0.0)
        self.loop_contracts = {}
        self.expected_exc = None
        self.on_aggregate = None  # contract hook: (engine, Agg, symbol applied to the active variables)
        self._decide_cache = {}
        self.exec_lines = 0
        self.symbolic_pi = False
        self.reals = False  # the code computes with roots, exponentials, ...
        self.before = {}
        self.facts = []
        self.level_facts = []
        _hooks["prove"] = lambda f: self.entails(f)
        from pv import models

        self.models = models

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name not in self.modules:
            p = os.path.join(self.root, *name.split("."))
            if os.path.isdir(p):
                p = os.path.join(p, "__init__.py")
            else:
                p += ".py"
            if not os.path.exists(p):
                raise Unsupported(f"module {name} not found")
            self.modules[name] = Module(self, name, p)
        return self.modules[name]

    def module_value(self, name):
        if name.split(".")[0] == "flamingpy":
            if os.path.exists(os.path.join(self.root, *name.split(".")) + ".cpp"):
                return ExtModule(name)  # compiled
            return self.module(name)
        return ExtModule(name)

    def import_from(self, base, name):
        if base.split(".")[0] == "flamingpy":
            m = self.module(base)
            try:
                return m.get(name)
            except KeyError:
                return self.module_value(base + "." + name)
        return self.models.ext_attr(self, ExtModule(base), name)

    def lookup(self, qual):
        """Resolve 'flamingpy.x.y.Name[.method]'."""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mod = ".".join(parts[:i])
            try:
                m = self.module(mod)
            except Unsupported:
                continue
            v = m.get(parts[i])
            for p in parts[i + 1 :]:
                v = self.class_member(v, p)
            return v
        raise KeyError(qual)

    # ------------------------------------------------------------ path
    @contextlib.contextmanager
    def guard(self, f):
        self.push_guard(f)
        try:
            yield
        finally:
            self.pop()

    def push_guard(self, f):
        self.path.append(("g", f))
        self.solver.push()
        self.solver.add(zb(f))
        self._decide_cache = {}

    def push_binder(self, vars):
        self.path.append(("b", tuple(vars)))
        self.solver.push()

    def pop(self):
        self.path.pop()
        self.solver.pop()
        n = len(self.path)
        for lf in self.level_facts:
            if lf[0] > n:
                lf[0] = n
                self.solver.add(lf[1])
        self._decide_cache = {}

    def assume(self, f):
        """Precondition of a contract (only at the outermost level)."""
        if self.path:
            self.push_guard(f)
        else:
            self.assumptions.append(zb(f))
            self.solver.add(zb(f))
        self._decide_cache = {}

    def add_fact(self, f):
        """A fact about fresh symbols (definitional), valid in every context; free bound variables are universal."""
        if is_true(f):
            return
        vs = self.path_vars()
        fv = free_vars(zb(f))
        vs = [v for v in vs if v.get_id() in fv]
        g = self.path_formula()
        f = zb(f)
        if z3.is_quantifier(f):
            self.facts.append(f)  # for the obligations only: keeps the engine's own queries quantifier-free
            return
        if not vs:
            # about closed terms: definitional, so true everywhere
            self.facts.append(f)
            self.level_facts.append([len(self.path), f])
        else:
            self.facts.append(z3.ForAll(vs, f) if not is_false(g) else f)
        self.solver.add(f)
        self._decide_cache = {}

    def active(self):
        s = set()
        for it in self.path:
            if it[0] == "b":
                s.update(v.get_id() for v in it[1])
        return s

    def path_formula(self, start=0):
        return And(*[it[1] for it in self.path[start:] if it[0] == "g"])

    def path_vars(self, start=0):
        return [v for it in self.path[start:] if it[0] == "b" for v in it[1]]

    def check(self, f, timeout=2000):
        """sat / unsat / unknown of path & f."""
        t = time.time()
        self.stats["queries"] += 1
        self.solver.set("timeout", timeout)
        self.solver.push()
        self.solver.add(zb(f))
        if self.reals:
            for x in logic.real_axioms([zb(f)]):
                self.solver.add(x)
        if logic.ORDERS or logic.DEFS:
            for x in logic.ground_axioms([zb(f)] + [zb(it[1]) for it in self.path if it[0] == "g"]):
                self.solver.add(x)
        r = self.solver.check()
        self.solver.pop()
        self.stats["solver_s"] += time.time() - t
        return r

    def entails(self, f, timeout=2000):
        if isinstance(f, bool) and f:
            return True
        return self.check(Not(f), timeout) == z3.unsat

    def infeasible(self, f=True):
        return self.check(f, 1000) == z3.unsat

    def decide(self, f):
        """True/False if the path settles f, else f itself."""
        if isinstance(f, (bool, np.bool_)):
            return bool(f)
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        k = f.get_id()
        if k in self._decide_cache:
            return self._decide_cache[k][0]
        r = f
        if self.check(f, 1500) == z3.unsat:
            r = False
        elif self.check(z3.Not(f), 1500) == z3.unsat:
            r = True
        self._decide_cache[k] = (r, f)
        return r

    # ------------------------------------------------------------ heap
    def new_store(self, kind, data, name=None):
        st = Store(kind, tuple(self.path), tuple(self.path_vars()), data, name)
        return st

    def new_list(self, values=(), entries=None):
        ents = [Entry((), True, v) for v in values] if entries is None else entries
        st = self.new_store("list", ents)
        return PList(st)

    def new_set(self, values=(), entries=None):
        st = self.new_store("set", [])
        s = PSet(st)
        if entries is not None:
            st.data = list(entries)
        else:
            for v in values:
                self.set_add(s, v)
        return s

    def new_dict(self, items=(), entries=None):
        st = self.new_store("dict", [])
        d = PDict(st)
        if entries is not None:
            st.data = list(entries)
        else:
            for k, v in items:
                self.dict_set(d, k, v)
        return d

    def new_obj(self, cls):
        st = self.new_store("obj", {}, name=cls.name if hasattr(cls, "name") else str(cls))
        st.meta["cls"] = cls
        return PObj(st)

    def _prefix(self, store):
        n = 0
        for a, b in zip(self.path, store.path):
            if a is not b:
                break
            n += 1
        return n

    def rel(self, h):
        """Bound variables and guard of an effect on h at the current path."""
        store = h.store
        n = self._prefix(store)
        items = self.path[n:]
        vars = [v for it in items if it[0] == "b" for v in it[1]]
        g = And(*[it[1] for it in items if it[0] == "g"])
        if store.params:
            act = self.active()
            conds = []
            for p, a in zip(store.params, h.args()):
                if p.eq(a):
                    if p.get_id() not in act and store.meta.get("closed"):
                        pass
                    continue
                if p.get_id() in act:
                    raise Unsupported("mutation of an object of another iteration")
                conds.append(p == a)
            g = And(g, *conds)
        return vars, g

    def inst(self, h, ents):
        """Entries of a store seen through the reference h (params replaced)."""
        if h.map is None:
            return ents
        pairs = [(p, a) for p, a in zip(h.store.params, h.args()) if not p.eq(a)]
        if not pairs:
            return ents
        return [self.subst_entry(e, pairs) for e in ents]

    def subst_entry(self, e, pairs):
        return Entry(
            e.vars,
            subst(e.guard, pairs),
            subst_value(e.value, pairs),
            subst_value(e.key, pairs) if e.key is not None else None,
            e.op,
            e.rng and (subst(e.rng[0], pairs), subst(e.rng[1], pairs), e.rng[2]),
        )

    def fresh_entry(self, e, keep_active=True):
        """Alpha-rename the bound variables that are not currently active."""
        if not e.vars:
            return e, ()
        act = self.active() if keep_active else set()
        ren, q = [], []
        for v in e.vars:
            if v.get_id() in act:
                continue
            nv = z3.Const(fresh_name(v.decl().name().split("!")[0]), v.sort())
            ren.append((v, nv))
            q.append(nv)
        if not ren:
            return e, ()
        f = self.subst_entry(e, ren)
        f.vars = tuple(q)
        return f, tuple(q)

    def note_read(self, h, facet, key=None):
        for lr in self.loops:
            if self._outer(h.store, lr):
                lr.reads.append((h.store.id, facet, key, self.path_vars(lr.depth + 1),
                                 self.path_formula(lr.depth), list(zip(h.store.params, h.args()))))

    def note_write(self, h, facet, entry, commut=False):
        h.store.meta["mut"] = h.store.meta.get("mut", 0) + 1
        for lr in self.loops:
            if self._outer(h.store, lr):
                lr.writes.append((h.store, facet, entry, commut, self.path_vars(lr.depth + 1),
                                  self.path_formula(lr.depth)))

    def _outer(self, store, lr):
        """Was the store created outside of (before) the loop's binder?"""
        it = self.path[lr.depth] if lr.depth < len(self.path) else None
        return it is not None and not any(x is it for x in store.path)

    # -------- scalars
    def fresh_int(self, name="n"):
        return SNum(z3.Int(fresh_name(name)))

    def fresh_real(self, name="r"):
        return SNum(z3.Real(fresh_name(name)))

    # -------- equality
    def eq(self, a, b):
        """Formula: the Python values are equal."""
        if isinstance(a, GU):
            return Or(*[And(g, self.eq(x, b)) for g, x in a.alts])
        if isinstance(b, GU):
            return Or(*[And(g, self.eq(a, x)) for g, x in b.alts])
        if isinstance(a, (Opaque, Poison)) or isinstance(b, (Opaque, Poison)):
            if a is b:
                return True
            raise Unsupported(f"comparison of an unknown value ({a!r}, {b!r})")
        if hasattr(a, "eq_value"):
            return a.eq_value(self, b)
        if hasattr(b, "eq_value"):
            return b.eq_value(self, a)
        if is_num(a) and is_num(b):
            if isinstance(a, (bool, np.bool_)) and isinstance(b, SBool):
                return b.e if a else Not(b.e)
            if isinstance(b, (bool, np.bool_)) and isinstance(a, SBool):
                return a.e if b else Not(a.e)
            r = cmp_op("==", a, b)
            if isinstance(r, SBool) and z3.is_eq(r.e):
                sp = logic.split_injective(r.e)
                if sp is not None:
                    return And(*sp)
            return r.e if isinstance(r, SBool) else bool(r)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return And(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, SRef) and isinstance(b, SRef):
            if a.e.sort() != b.e.sort():
                return False
            return True if a.e.eq(b.e) else a.e == b.e
        if isinstance(a, PList) and isinstance(b, PList):
            x, y = self.plain(a), self.plain(b)
            if x is None or y is None:
                raise Unsupported("comparison of symbolic lists")
            return And(len(x) == len(y), *[self.eq(p, q) for p, q in zip(x, y)])
        if isinstance(a, PSet) and isinstance(b, PSet):
            return And(self.subset(a, b), self.subset(b, a))
        if isinstance(a, PDict) and isinstance(b, PDict) and a.store is not b.store:
            raise Unsupported("comparison of dicts")
        if isinstance(a, Heap) and isinstance(b, Heap):
            if a.store is not b.store:
                return False
            return And(*[x == y for x, y in zip(a.args(), b.args()) if not x.eq(y)])
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            raise Unsupported("array equality as a truth value")
        if isinstance(a, np.str_):
            a = str(a)
        if isinstance(b, np.str_):
            b = str(b)
        if type(a) in (str, type(None)) or type(b) in (str, type(None)):
            return type(a) is type(b) and a == b
        if isinstance(a, SV) or isinstance(b, SV):
            return False
        if isinstance(a, Heap) or isinstance(b, Heap):
            return False
        return bool(a == b) if type(a) is type(b) else a is b

    # -------- merge
    def merge(self, g, a, b):
        """Value a if g else b."""
        if is_true(g):
            return a
        if is_false(g):
            return b
        if a is b:
            return a
        if type(a) in (str, bool, type(None), int) and type(a) is type(b) and a == b:
            return a
        ab = isinstance(a, (bool, np.bool_, SBool))
        bb = isinstance(b, (bool, np.bool_, SBool))
        if ab and bb:
            x = a.e if isinstance(a, SBool) else z3.BoolVal(bool(a))
            y = b.e if isinstance(b, SBool) else z3.BoolVal(bool(b))
            return a if x.eq(y) else mk_bool(z3.If(g, x, y))
        if is_num(a) and is_num(b) and not ab and not bb:
            try:
                x, y = lift_num(a), lift_num(b)
            except Unsupported:
                return GU([(g, a), (Not(g), b)])
            if x.sort() != y.sort():
                x, y = unify(x, y)
            return a if x.eq(y) else SNum(z3.If(g, x, y))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(g, x, y) for x, y in zip(a, b))
        if isinstance(a, SRef) and isinstance(b, SRef) and a.e.sort() == b.e.sort():
            return a if a.e.eq(b.e) else SRef(z3.If(g, a.e, b.e), a.cls)
        if isinstance(a, Heap) and isinstance(b, Heap) and a.store is b.store:
            args = [
                x if x.eq(y) else z3.If(g, x, y) for x, y in zip(a.args(), b.args())
            ]
            return type(a)(a.store, list(zip(a.store.params, args)))
        if (
            isinstance(a, np.ndarray)
            and isinstance(b, np.ndarray)
            and a.shape == b.shape
            and a.ndim > 0
        ):
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                out[i] = self.merge(g, a[i], b[i])
            return out
        if hasattr(a, "merge_with"):
            r = a.merge_with(self, g, b)
            if r is not None:
                return r
        alts = []
        for gg, v in ((g, a), (Not(g), b)):
            if isinstance(v, GU):
                alts += [(And(gg, h), x) for h, x in v.alts]
            else:
                alts.append((gg, v))
        # coalesce alternatives that are identical
        out = []
        for h, x in alts:
            for n, (h2, x2) in enumerate(out):
                same = x is x2 or (
                    type(x) in (str, bool, int, type(None)) and type(x) is type(x2) and x == x2
                )
                if same:
                    out[n] = (Or(h2, h), x2)
                    break
                if (isinstance(x, tuple) and isinstance(x2, tuple) and len(x) == len(x2)) or (
                    isinstance(x, Heap) and isinstance(x2, Heap) and x.store is x2.store
                ) or (is_num(x) and is_num(x2) and not isinstance(x, (bool, SBool))
                      and not isinstance(x2, (bool, SBool))):
                    out[n] = (Or(h2, h), self.merge(h2, x2, x))
                    break
            else:
                out.append((h, x))
        if len(out) == 1:
            return out[0][1]
        return GU(out)

    def lift(self, v, fn):
        """Apply fn under the guard of every alternative of a guarded union."""
        if not isinstance(v, GU):
            return fn(v)
        res, first = None, True
        alts = v.alts
        done = []
        for g, x in alts:
            gd = self.decide(g)
            if gd is False:
                continue
            if gd is True:
                return fn(x)
            with self.guard(g):
                r = fn(x)
            done.append((g, r))
        if not done:
            return Poison("no feasible alternative")
        res = done[-1][1]
        for g, r in reversed(done[:-1]):
            res = self.merge(g, r, res)
        return res

    def force(self, v):
        """Reduce a guarded union to its only feasible alternative, if any."""
        if not isinstance(v, GU):
            return v
        keep = [(g, x) for g, x in v.alts if self.decide(g) is not False]
        if len(keep) == 1:
            return keep[0][1]
        if not keep:
            return Poison("infeasible")
        return GU(keep)

    # -------- dict-like reading (last writer wins)
    def read(self, h, ents, key, facet, default=None):
        """(cond found, value) of the newest matching entry."""
        self.note_read(h, facet, key)
        return self.read_raw(self.inst(h, ents), key)

    def read_raw(self, ents, key):
        found = []  # (cond, value), newest first; conds already exclusive
        missing = True
        for e in reversed(ents):
            e, q = self.fresh_entry(e)
            if logic.ENUMS and q:
                e, q = self.by_members(e, q)
            m = True if key is None and e.key is None else self.eq(e.key, key)
            f = And(e.guard, m)
            if is_false(f):
                continue
            if q:
                need = {i for i in value_vars(e.value, {})}
                qid = {v.get_id() for v in q}
                cs = cases(list(q), f, need & qid if need else set())
            else:
                cs = [(f, [])]
            for c, s in cs:
                cc = And(missing, c)
                if not isinstance(cc, bool):
                    cc = z3.simplify(cc)
                if is_false(cc):
                    continue
                if not is_true(cc) and (not is_true(missing) or len(ents) > 1):
                    cc = self.decide(cc)
                    if cc is False:
                        continue
                found.append((cc, DELETED if e.op == "del" else subst_value(e.value, s)))
                missing = And(missing, Not(c))
                if not isinstance(missing, bool):
                    missing = z3.simplify(missing)
                if is_false(missing):
                    break
            if is_false(missing):
                break
            if not is_true(missing):
                missing = self.decide(missing)
                if missing is False:
                    break
        gone = Or(*[c for c, v in found if v is DELETED])
        found = [(c, v) for c, v in found if v is not DELETED]
        if not found:
            return False, None
        val = found[-1][1]
        for c, v in reversed(found[:-1]):
            val = self.merge(c, v, val)
        return And(Not(missing), Not(gone)), val

    def by_members(self, e, q):
        """An entry whose variables only select members of enumerations, by those members."""
        for v in list(q):
            if not contains_any(e.value, v):
                continue
            r = logic.by_member(v, zb(e.guard), [x for y in (e.key, e.value) for x in value_terms(y)])
            if r is not None:
                app, x, g = r
                e = self.subst_entry(e, [(app, x)])
                e.guard = g
                q = tuple(w for w in q if not w.eq(v)) + (x,)
                e.vars = q
        return e, q

    def member(self, ents, value):
        """Formula: value is among the (set or list) entries."""
        fs = []
        for e in ents:
            e, q = self.fresh_entry(e)
            f = And(e.guard, self.eq(e.value, value))
            if q:
                f = exists(list(q), f)
            fs.append(f)
            if is_true(f):
                return True
        return Or(*fs)

    # -------- lists
    def ents(self, h, facet="items"):
        self.note_read(h, facet)
        if "toggles" in h.store.meta:
            raise Unsupported("a set made by symmetric differences in a loop")
        return self.inst(h, h.store.data)

    def set_toggle(self, s, value):
        """s ^= {value} inside of a symbolic loop, s empty before: value is in s iff this happened an odd number of times."""
        self.check_hashable(value)
        vars, g = self.rel(s)
        e = Entry(tuple(vars), g, value)
        s.store.meta.setdefault("toggles", []).append(e)
        self.note_write(s, "items", e, commut=True)

    def plain(self, h):
        es = self.ents(h)
        if all(e.plain() for e in es):
            return [e.value for e in es]
        return None

    def list_append(self, l, value, vars0=(), guard0=True, rng=None):
        vars, g = self.rel(l)
        e = Entry(tuple(vars) + tuple(vars0), And(g, guard0), value, rng=rng if is_true(g) and not vars else None)
        if self.loops and len(vars) == 1 and not vars0 and is_true(guard0):
            ch = self.loops[-1].ch
            if ch is not None and ch.rng is not None and vars[0].eq(ch.vars[0]) and zb(g).eq(zb(ch.guard)):
                if any(o.vars and o.vars[0].eq(vars[0]) for o in l.store.data):
                    for o in l.store.data:
                        if o.vars and o.vars[0].eq(vars[0]):
                            o.rng = None  # several items per iteration: interleaved
                else:
                    e.rng = ch.rng
        l.store.data.append(e)
        self.note_write(l, "items", e, commut=True)

    def list_extend(self, l, other):
        for ch in self.iterate(other, dedupe=True):
            self.list_append(l, ch.value, ch.vars, ch.guard, ch.rng)

    # -------- sets
    def set_add(self, s, value, vars0=(), guard0=True):
        self.check_hashable(value)
        if "toggles" in s.store.meta:
            raise Unsupported("a set made by symmetric differences in a loop")
        vars, g = self.rel(s)
        e = Entry(tuple(vars) + tuple(vars0), And(g, guard0), value)
        if e.plain() and not isinstance(value, (SV, GU)):
            for o in s.store.data:
                if o.plain():
                    q = self.eq(o.value, value)
                    if is_true(q):
                        return
        s.store.data.append(e)
        self.note_write(s, "items", e, commut=True)

    def check_hashable(self, v):
        if isinstance(v, (PList, PSet, PDict, np.ndarray)):
            self.do_raise("TypeError", "unhashable")

    def subset(self, a, b):
        fs = []
        for e in self.ents(a):
            e, q = self.fresh_entry(e)
            bad = And(e.guard, Not(self.member(self.ents(b), e.value)))
            fs.append(Not(exists(list(q), bad)) if q else Not(bad))
        return And(*fs)

    def set_op(self, op, a, b):
        ea, eb = self.ents(a), self.ents(b)
        out = []
        if op in ("&", "-", "^", "|"):
            if op == "|":
                out = list(ea)
            else:
                for e in ea:
                    e, q = self.fresh_entry(e)
                    m = self.member(eb, e.value)
                    g = And(e.guard, m if op == "&" else Not(m))
                    if not is_false(g):
                        out.append(Entry(q, self._simp(g), e.value))
            if op in ("^", "|"):
                for e in eb:
                    e, q = self.fresh_entry(e)
                    g = And(e.guard, Not(self.member(ea, e.value)))
                    if not is_false(g):
                        out.append(Entry(q, self._simp(g), e.value))
        # entries of active families keep their (active) variables free
        return self.new_set(entries=out)

    def _simp(self, g):
        if isinstance(g, bool):
            return g
        g = z3.simplify(g)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        return g

    def set_assign(self, s, new):
        """In-place replacement of the contents of s (under the path)."""
        vars, g = self.rel(s)
        if vars:
            raise Unsupported("in-place set operation inside a symbolic loop")
        ents = [e for e in new.store.data]
        if is_true(g):
            s.store.data = ents
        else:
            out = []
            for e in s.store.data:
                gg = And(e.guard, Or(Not(g), self.member(ents, e.value)))
                out.append(Entry(e.vars, self._simp(gg), e.value))
            for e in ents:
                if any(e.value is o.value and e.vars == o.vars for o in s.store.data):
                    # may be an updated guard of the same element
                    pass
                out.append(Entry(e.vars, And(g, e.guard), e.value))
            s.store.data = [e for e in out if not is_false(e.guard)]
        self.note_write(s, "items", Entry((), True, None))

    # -------- dicts
    def dict_set(self, d, key, value, vars0=(), guard0=True, commut=False):
        """commut: the value is a function of the key alone."""
        self.check_hashable(key)
        vars, g = self.rel(d)
        e = Entry(tuple(vars) + tuple(vars0), And(g, guard0), value, key=key)
        if e.plain():
            for n, o in enumerate(d.store.data):
                if o.plain() and is_true(self.eq(o.key, key)) and all(
                    is_false(self.eq(x.key, key)) if not x.vars else False
                    for x in d.store.data[n + 1 :]
                ):
                    d.store.data[n] = e
                    break
            else:
                d.store.data.append(e)
        else:
            d.store.data.append(e)
        self.note_write(d, "items", e, commut=commut)

    def dict_get(self, d, key):
        return self.read(d, d.store.data, key, "items")

    # -------- objects
    def obj_get(self, o, attr):
        ents = o.store.data.get(attr)
        if not ents:
            return False, None
        return self.read(o, ents, None, "." + attr)

    def obj_set(self, o, attr, value):
        vars, g = self.rel(o)
        e = Entry(vars, g, value)
        if e.plain():
            o.store.data[attr] = [e]
        else:
            o.store.data.setdefault(attr, []).append(e)
        self.note_write(o, "." + attr, e)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        """Formula: bool(v)."""
        if isinstance(v, SBool):
            return v.e
        if isinstance(v, SNum):
            return v.e != 0
        if isinstance(v, GU):
            return Or(*[And(g, self.truth(x)) for g, x in v.alts])
        if isinstance(v, (Opaque, Poison)):
            raise Unsupported(f"truth of an unknown value {getattr(v, 'why', v)}")
        if isinstance(v, (PList, PSet, PDict)):
            fs = []
            for e in self.ents(v):
                e, q = self.fresh_entry(e)
                if e.op == "del":
                    raise Unsupported("truth of a dict with deletions")
                fs.append(exists(list(q), e.guard) if q else e.guard)
            return Or(*fs)
        if isinstance(v, PObj):
            if "graph" in v.store.meta:
                return self.truth_nonempty(self.iterate(v))
            return True
        if isinstance(v, SRef):
            return True
        if hasattr(v, "truth"):
            return v.truth(self)
        if isinstance(v, np.ndarray):
            if v.size != 1:
                raise Unsupported("truth of an array")
            return self.truth(v.flat[0])
        return bool(v)

    def truth_nonempty(self, chunks):
        return Or(*[exists(list(c.vars), c.guard) if c.vars else c.guard for c in chunks])

    # ------------------------------------------------------------ iteration
    def iterate(self, v, dedupe=False):
        """List of chunks (fresh bound variables, guard, element)."""
        v = self.force(v)
        if isinstance(v, GU):
            out = []
            for g, x in v.alts:
                with self.guard(g):
                    for c in self.iterate(x):
                        out.append(Chunk(c.vars, And(g, c.guard), c.value))
            return out
        if isinstance(v, SRef) and self.ref_coords is not None:
            return [Chunk((), True, x) for x in self.ref_coords(v.e)]
        if isinstance(v, (Opaque, Poison)):
            raise Unsupported(f"iteration over an unknown value: {getattr(v,'why',v)}")
        if isinstance(v, (tuple, list, range, str)):
            return [Chunk((), True, x) for x in v]
        if isinstance(v, dict):
            return [Chunk((), True, x) for x in v]
        if isinstance(v, np.ndarray):
            return [Chunk((), True, unnp(v[i])) for i in range(v.shape[0])]
        if isinstance(v, PList):
            return [self.chunk_of(e) for e in self.ents(v)]
        if isinstance(v, PSet):
            return self.set_chunks(self.ents(v))
        if isinstance(v, PDict):
            return self.dict_key_chunks(v)
        if hasattr(v, "chunks"):
            return v.chunks(self)
        if isinstance(v, PObj):
            if "graph" in v.store.meta:
                return self.models.graph_node_chunks(self, v)
            f = self.find_method(v.store.meta["cls"], "__iter__")
            if f is not None:
                return self.iterate(self.call(BoundMethod(f, v), []))
        raise Unsupported(f"iteration over {type(v).__name__}")

    def chunk_of(self, e):
        e, q = self.fresh_entry(e)
        return Chunk(q, e.guard, e.value, rng=e.rng if len(q) == 1 else None)

    def set_chunks(self, ents):
        """Every element exactly once."""
        if all(not e.vars or not set(v.get_id() for v in e.vars) - self.active() for e in ents):
            out = []
            for e in ents:
                g = e.guard
                for o in out:
                    q = self.eq(o.value, e.value)
                    if not is_false(q):
                        g = And(g, Not(And(o.guard, q)))
                g = self._simp(g)
                if not is_false(g):
                    out.append(Chunk((), g, e.value))
            return out
        # families: use the element itself as the bound variable
        shapes = {}
        for e in ents:
            k = self.shape(e.value)
            if k is None:
                raise Unsupported("iteration over a set of mixed elements")
            shapes.setdefault(k, []).append(e)
        # whole and real numbers may be equal
        real = lambda k: tuple(real(x) for x in k) if isinstance(k, tuple) and k[0] == "t" else "x" if k == "i" else k
        wide = {}
        for k in shapes:
            wide.setdefault(real(k), []).append(k)
        shapes = {ks[0] if len(ks) == 1 else r: [e for k in ks for e in shapes[k]] for r, ks in wide.items()}
        out = []
        for k, es in shapes.items():
            if len(es) == 1:
                e, q = self.fresh_entry(es[0])
                if self.injective(q, e.value):
                    out.append(Chunk(q, e.guard, e.value))
                    continue
            val, vs = self.fresh_of_shape(k, es[0].value)
            g = self.member(es, val)
            out.append(Chunk(vs, g, val))
        return out

    def shape(self, v):
        if isinstance(v, tuple):
            s = tuple(self.shape(x) for x in v)
            return None if None in s else ("t",) + s
        if isinstance(v, (bool, SBool)):
            return "b"
        if isinstance(v, (int, np.integer)) or (isinstance(v, SNum) and v.is_int):
            return "i"
        if isinstance(v, (float, np.floating)) or isinstance(v, SNum):
            return "x"
        if isinstance(v, Heap):
            return ("h", v.store.id) + tuple(str(p.sort()) for p in v.store.params)
        if isinstance(v, SRef):
            return ("r", str(v.e.sort()))
        if isinstance(v, str):
            return ("s", v)
        return None

    def fresh_of_shape(self, k, proto, name="e"):
        if isinstance(k, tuple) and k[0] == "t":
            vals, vs = [], []
            for kk, pp in zip(k[1:], proto):
                a, b = self.fresh_of_shape(kk, pp, name)
                vals.append(a)
                vs += b
            return tuple(vals), vs
        if k == "i" or k == "x":
            c = z3.Int(fresh_name(name)) if k == "i" else z3.Real(fresh_name(name))
            return SNum(c), [c]
        if k == "b":
            c = z3.Bool(fresh_name(name))
            return SBool(c), [c]
        if k[0] == "h":
            vs = [z3.Const(fresh_name(name), p.sort()) for p in proto.store.params]
            return type(proto)(proto.store, list(zip(proto.store.params, vs))), vs
        if k[0] == "r":
            c = z3.Const(fresh_name(name), proto.e.sort())
            return SRef(c, proto.cls), [c]
        if k[0] == "s":
            return k[1], []
        raise Unsupported("shape")

    def injective(self, vars, value):
        """Syntactic: the bound variables are components of the value."""
        comps = set()

        def go(v):
            if isinstance(v, SV):
                comps.add(v.e.get_id())
            elif isinstance(v, tuple):
                for x in v:
                    go(x)
            elif isinstance(v, Heap):
                for a in v.args():
                    comps.add(a.get_id())

        go(value)
        return all(v.get_id() in comps for v in vars)

    def dict_key_chunks(self, d):
        return self.set_chunks([Entry(e.vars, e.guard, e.key) for e in self.alive(self.ents(d))])

    def alive(self, ents):
        """The entries that later deletions leave."""
        if not any(e.op == "del" for e in ents):
            return ents
        out = []
        for i, e in enumerate(ents):
            if e.op == "del":
                continue
            dels = [Entry(x.vars, x.guard, x.key) for x in ents[i + 1:] if x.op == "del"]
            g = self._simp(And(e.guard, Not(self.member(dels, e.key)))) if dels else e.guard
            if not is_false(g):
                out.append(Entry(e.vars, g, e.value, key=e.key))
        return out

    def dict_item_chunks(self, d):
        out = []
        for c in self.dict_key_chunks(d):
            for v in c.vars:
                pass
            if c.vars:
                self.push_binder(c.vars)
            self.push_guard(c.guard)
            try:
                f, val = self.dict_get(d, c.value)
            finally:
                self.pop()
                if c.vars:
                    self.pop()
            out.append(Chunk(c.vars, c.guard, (c.value, val)))
        return out

    @contextlib.contextmanager
    def in_chunk(self, ch):
        n = 0
        if ch.vars:
            self.push_binder(ch.vars)
            n += 1
        if not is_true(ch.guard):
            self.push_guard(ch.guard)
            n += 1
        try:
            yield
        finally:
            for _ in range(n):
                self.pop()

    # ------------------------------------------------------------ raising
    def do_raise(self, name, msg="", cond=True):
        """Record that an exception is raised under the path and cond."""
        if is_false(cond):
            return False
        c = self.decide(cond)
        if c is False:
            return False
        where = ""
        if self.frames and getattr(self, "cur_node", None) is not None:
            where = f"{self.frames[-1].module.name}:{getattr(self.cur_node,'lineno','?')}"
        if self.infeasible(c):
            return False
        self.raises.append(
            dict(cond=And(self.path_formula(), c), vars=self.path_vars(), exc=name, msg=str(msg)[:80],
                 where=where, own=c, path=tuple(self.path), node=getattr(self, "cur_node", None))
        )
        return c

    # ------------------------------------------------------------ aggregates
    def aggregate(self, kind, vars, guard, value):
        """Symbol for  kind_{vars | guard} value  (value: z3 term or Bool)."""
        if kind == "sum" and z3.is_int_value(value):
            n = logic.count(list(vars), zb(guard))
            if n is not None:
                return z3.simplify(n * value)
        body = [guard] + ([value] if z3.is_expr(value) else [])
        vid = {v.get_id() for v in vars}
        fv = {}
        for b in body:
            if z3.is_expr(b):
                fv.update(free_vars(b))
        act = self.active()
        params = [t for i, t in sorted(fv.items()) if i not in vid and i in act]
        if kind in ("xor", "or"):
            rng = z3.BoolSort()
        elif z3.is_expr(value) and value.sort() == z3.RealSort():
            rng = z3.RealSort()
        else:
            rng = z3.IntSort()
        name = fresh_name("agg_" + kind)
        if params:
            fn = z3.Function(name, *[p.sort() for p in params], rng)
            sym = fn(*params)
        else:
            fn = z3.Const(name, rng)
            sym = fn
        self.aggs[name] = Agg(kind, fn, params, list(vars), guard, value)
        if kind == "sum" and (z3.is_int_value(value) and value.as_long() >= 0):
            self.add_fact(sym >= 0)
        if self.on_aggregate is not None:
            self.on_aggregate(self, self.aggs[name], sym)
        return sym
