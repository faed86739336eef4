"""Expressions, statements, calls and loops of the verified Python subset."""
import ast
import numpy as np
import z3

from pv.values import *
from pv.engine import *
from pv.engine import Engine as _Base
from pv import logic
from pv.logic import exists, subst, free_vars


def ret_flow(f):
    return Flow(ret=f)


def occurs(c, t):
    """Does the term c occur in t?"""
    return not z3.substitute(t, (c, z3.FreshConst(c.sort()))).eq(t)


class NativeIter:
    def __init__(self, items):
        self.items = items


def fun_apps(f):
    """Applications inside of a term."""
    out, todo, seen = [], [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args():
            out.append(x)
        todo += x.children()
    return out


def counters(stmts):
    """Names that a body only adds to or subtracts from (or sets to something plain)."""
    add, other = set(), set()
    for st in stmts:
        for n in ast.walk(st):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                (add if isinstance(n.op, (ast.Add, ast.Sub)) else other).add(n.target.id)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(n.value, ast.BinOp) and isinstance(n.value.op, (ast.Add, ast.Sub)):
                            add.add(t.id)
                        elif any(isinstance(x, (ast.Mod, ast.BitXor, ast.BitOr)) for x in ast.walk(n.value)):
                            other.add(t.id)
    return add - other


def assigned_names(stmts):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            pass

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    for s in stmts:
        V().visit(s)
    return out


class Engine(_Base):
    # ------------------------------------------------------------ classes
    def bases(self, cls):
        if cls.bases is None:
            fr = Frame(cls.module, None)
            bs = []
            for b in cls.node.bases:
                v = self.eval(b, fr)
                bs.append(v)
            cls.bases = bs
        return cls.bases

    def mro(self, cls):
        out = [cls]
        for b in self.bases(cls):
            if isinstance(b, ClassVal):
                for c in self.mro(b):
                    if c not in out:
                        out.append(c)
            else:
                out.append(b)
        return out

    def find_member(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, ClassVal) and name in c.members:
                return c, c.members[name]
        return None, None

    def class_member(self, cls, name):
        if isinstance(cls, Module):
            return cls.get(name)
        c, m = self.find_member(cls, name)
        if m is None:
            raise KeyError(f"{cls}.{name}")
        if isinstance(m, ast.FunctionDef):
            return FuncVal(c.module, m, cls=c, qual=f"{c.qual}.{name}")
        return self.eval(m, Frame(c.module, None))

    def find_method(self, cls, name):
        if not isinstance(cls, ClassVal):
            return None
        c, m = self.find_member(cls, name)
        if isinstance(m, ast.FunctionDef):
            return FuncVal(c.module, m, cls=c, qual=f"{c.qual}.{name}")
        return None

    def is_subclass(self, cls, other):
        if cls is other:
            return True
        if isinstance(cls, ClassVal):
            for c in self.mro(cls):
                if c is other or (getattr(c, "name", None) is not None and c == other):
                    return True
                if isinstance(c, ModelFn) and isinstance(other, ModelFn) and c.name == other.name:
                    return True
        return False

    # ------------------------------------------------------------ exceptions
    exc_acc = False

    def do_raise(self, name, msg="", cond=True):
        c = _Base.do_raise(self, name, msg, cond)
        if c is not False:
            self.exc_acc = Or(self.exc_acc, c)
        return c

    def leave(self, f, items):
        """Formula f seen from outside of the path items (innermost last)."""
        for it in reversed(items):
            if is_false(f):
                return False
            if it[0] == "g":
                f = And(it[1], f)
            else:
                f = exists(list(it[1]), zb(f)) if not isinstance(f, bool) else f
        return f

    # ------------------------------------------------------------ names
    def builtin(self, name):
        return self.models.builtin(self, name)

    def lookup_name(self, name, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if v is UNDEF:
                    raise Unsupported(f"name {name} may be undefined")
                if isinstance(v, GU):
                    v = self.force(v)
                    if isinstance(v, GU) and any(x is UNDEF for _, x in v.alts):
                        v = GU([(g, x) for g, x in v.alts if x is not UNDEF])
                        if len(v.alts) == 1:
                            v = v.alts[0][1]
                return v
            f = f.closure
        try:
            return fr.module.get(name)
        except KeyError:
            pass
        return self.models.builtin(self, name)

    # ------------------------------------------------------------ eval
    def eval(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        if hasattr(n, "lineno"):
            self.cur_node = n
        return m(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.lookup_name(n.id, fr)

    def e_JoinedStr(self, n, fr):
        vs = [v for v in n.values if not (isinstance(v, ast.Constant) and v.value == "")]
        if len(vs) == 1 and isinstance(vs[0], ast.FormattedValue) and vs[0].format_spec is None and vs[0].conversion in (-1, 115):
            return self.call(self.builtin("str"), [self.eval(vs[0].value, fr)])
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                x = self.eval(v.value, fr)
                if not isinstance(x, (str, int)) or v.format_spec is not None or v.conversion != -1:
                    return Opaque("formatted string")
        out = ""
        for v in n.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                out += str(self.eval(v.value, fr))
        return out

    def elts(self, elts, fr):
        """Evaluated elements as a list of (vars, guard, value) chunks or plain values."""
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out += self.unpack(self.eval(e.value, fr))
            else:
                out.append(self.eval(e, fr))
        return out

    def unpack(self, v):
        """The concrete list of elements of an iterable of known length."""
        v = self.force(v)
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, PList):
            p = self.plain(v)
            if p is None:
                raise Unsupported("unpacking of a symbolic list")
            return p
        if isinstance(v, np.ndarray):
            return [v[i] for i in range(v.shape[0])]
        chs = self.iterate(v)
        if any(c.vars or not is_true(c.guard) for c in chs):
            raise Unsupported("unpacking of a symbolic collection")
        return [c.value for c in chs]

    def e_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def e_List(self, n, fr):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            l = self.new_list()
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    self.list_extend(l, self.eval(e.value, fr))
                else:
                    self.list_append(l, self.eval(e, fr))
            return l
        return self.new_list(self.elts(n.elts, fr))

    def e_Set(self, n, fr):
        return self.new_set(self.elts(n.elts, fr))

    def e_Dict(self, n, fr):
        d = self.new_dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.models.dict_update(self, d, self.eval(v, fr))
            else:
                kk = self.eval(k, fr)
                self.dict_set(d, kk, self.eval(v, fr))
        return d

    def e_Starred(self, n, fr):
        raise Unsupported("starred expression")

    def e_UnaryOp(self, n, fr):
        v = self.eval(n.operand, fr)
        if isinstance(n.op, ast.Not):
            return mk_bool(Not(self.truth(v)))
        return self.lift(v, lambda x: self.unary(n.op, x))

    def unary(self, op, x):
        if isinstance(op, ast.USub):
            if hasattr(x, "neg"):
                return x.neg(self)
            if isinstance(x, SBool):
                x = SNum(lift_num(x))
            return -x
        if isinstance(op, ast.UAdd):
            return x
        raise Unsupported("unary operator")

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)

        def go(vals):
            v = self.eval(vals[0], fr)
            if len(vals) == 1:
                return v
            t = self.decide(self.truth(v))
            if t is True:
                return go(vals[1:]) if isand else v
            if t is False:
                return v if isand else go(vals[1:])
            with self.guarded_eval(t if isand else Not(t)) as _:
                w = go(vals[1:])
            if isinstance(v, (bool, SBool)) and isinstance(w, (bool, SBool)):
                wt = self.truth(w)
                return mk_bool(And(t, wt) if isand else Or(t, wt))
            # the value itself only matters through its truth
            return self.merge(t, w, v) if isand else self.merge(t, v, w)

        return go(n.values)

    def guarded_eval(self, g):
        import contextlib

        @contextlib.contextmanager
        def cm():
            old = self.exc_acc
            self.exc_acc = False
            self.push_guard(g)
            try:
                yield
            finally:
                self.pop()
                self.exc_acc = Or(old, And(g, self.exc_acc))

        return cm()

    def e_IfExp(self, n, fr):
        c = self.decide(self.truth(self.eval(n.test, fr)))
        if c is True:
            return self.eval(n.body, fr)
        if c is False:
            return self.eval(n.orelse, fr)
        with self.guarded_eval(c):
            a = self.eval(n.body, fr)
        with self.guarded_eval(Not(c)):
            b = self.eval(n.orelse, fr)
        return self.merge(c, a, b)

    def e_Compare(self, n, fr):
        left = self.eval(n.left, fr)
        res = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, fr)
            res.append(self.compare(op, left, right))
            left = right
        if len(res) == 1:
            return res[0]
        return mk_bool(And(*[self.truth(x) for x in res]))

    def compare(self, op, a, b):
        if isinstance(a, GU) and not isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            return self.lift(a, lambda x: self.compare(op, x, b))
        if isinstance(b, GU) and not isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            return self.lift(b, lambda x: self.compare(op, a, x))
        if isinstance(op, ast.In):
            return mk_bool(self.contains(b, a))
        if isinstance(op, ast.NotIn):
            return mk_bool(Not(self.contains(b, a)))
        if isinstance(op, (ast.Is, ast.IsNot)):
            f = self.identical(a, b)
            return mk_bool(f if isinstance(op, ast.Is) else Not(f))
        if hasattr(a, "compare") or hasattr(b, "compare"):
            if hasattr(a, "compare"):
                return a.compare(self, op, b)
            return b.rcompare(self, op, a)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return self.models.np_compare(self, op, a, b)
        if isinstance(op, ast.Eq):
            return mk_bool(self.eq(a, b))
        if isinstance(op, ast.NotEq):
            return mk_bool(Not(self.eq(a, b)))
        sym = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
        if is_num(a) and is_num(b):
            if not isinstance(a, SV) and not isinstance(b, SV):
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[sym]
            for x, y, flip in ((a, b, False), (b, a, True)):
                if not isinstance(x, SV) and isinstance(x, float) and x in (float("inf"), -float("inf")):
                    big = x > 0
                    return (sym in (">", ">=")) == (big != flip)
            return cmp_op(sym, a, b)
        if isinstance(a, PSet) and isinstance(b, PSet):
            if sym == "<=":
                return mk_bool(self.subset(a, b))
            if sym == ">=":
                return mk_bool(self.subset(b, a))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and len(a):
            f = False
            pre = True
            for i, (x, y) in enumerate(zip(a, b)):
                s = sym[0] if i < len(a) - 1 else sym
                f = Or(f, And(pre, self.truth(cmp_op(s, x, y))))
                pre = And(pre, self.eq(x, y))
            return mk_bool(f)
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[sym]
        raise Unsupported(f"comparison {sym} of {type(a).__name__} and {type(b).__name__}")

    def identical(self, a, b):
        if isinstance(a, GU):
            return Or(*[And(g, self.identical(x, b)) for g, x in a.alts])
        if isinstance(b, GU):
            return Or(*[And(g, self.identical(a, x)) for g, x in b.alts])
        if a is None or b is None:
            if isinstance(a, (Opaque, Poison)) or isinstance(b, (Opaque, Poison)):
                if isinstance(a, Opaque) or isinstance(b, Opaque):
                    return False
                raise Unsupported("identity of an unknown value")
            return a is b
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return self.eq(a, b)
        if isinstance(a, (Heap, SRef)) and isinstance(b, (Heap, SRef)):
            return self.eq(a, b)
        if isinstance(a, (str, int)) and isinstance(b, (str, int)):
            return type(a) is type(b) and a == b
        return a is b

    def contains(self, coll, v):
        coll = self.force(coll)
        if isinstance(coll, GU):
            return Or(*[And(g, self.contains(x, v)) for g, x in coll.alts])
        if isinstance(coll, (PList, PSet)):
            return self.member(self.ents(coll), v)
        if isinstance(coll, PDict):
            f, _ = self.dict_get(coll, v)
            return f
        if isinstance(coll, (tuple, list)):
            return Or(*[self.eq(x, v) for x in coll])
        if isinstance(coll, str):
            if isinstance(v, str):
                return v in coll
            raise Unsupported("substring test")
        if isinstance(coll, range):
            return Or(*[self.eq(x, v) for x in coll])
        if isinstance(coll, np.ndarray):
            return Or(*[self.eq(x, v) for x in coll.flat])
        if hasattr(coll, "contains"):
            return coll.contains(self, v)
        if isinstance(coll, PObj):
            if "graph" in coll.store.meta:
                return self.models.graph_has_node(self, coll, v)
            f = self.find_method(coll.cls, "__contains__")
            if f is not None:
                return self.truth(self.call(BoundMethod(f, coll), [v]))
        if hasattr(coll, "chunks"):
            return Or(*[logic.exists(list(c.vars), zb(And(c.guard, self.eq(c.value, v)))) if c.vars else And(c.guard, self.eq(c.value, v)) for c in coll.chunks(self)])
        raise Unsupported(f"membership in {type(coll).__name__}")

    OPS = {
        ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
        ast.Mod: "%", ast.Pow: "**", ast.BitXor: "^", ast.BitAnd: "&", ast.BitOr: "|",
        ast.MatMult: "@",
    }

    def e_BinOp(self, n, fr):
        a = self.eval(n.left, fr)
        b = self.eval(n.right, fr)
        return self.binop(type(n.op), a, b)

    def binop(self, opt, a, b):
        if opt not in self.OPS:
            raise Unsupported(f"operator {opt.__name__}")
        a, b = self.force(a), self.force(b)
        if isinstance(a, GU):
            return self.lift(a, lambda x: self.binop(opt, x, b))
        if isinstance(b, GU):
            return self.lift(b, lambda x: self.binop(opt, a, x))
        op = self.OPS[opt]
        if isinstance(a, str) and op == "%":
            if all(isinstance(x, (str, int, float)) for x in (b if isinstance(b, tuple) else (b,))):
                return a % b
            return Opaque("formatted string")
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("arithmetic on " + (a.why if isinstance(a, Poison) else b.why))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("from opaque")
        if hasattr(a, "binop"):
            r = a.binop(self, op, b)
            if r is not NotImplemented:
                return r
        if hasattr(b, "rbinop"):
            r = b.rbinop(self, op, a)
            if r is not NotImplemented:
                return r
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return self.models.np_binop(self, op, a, b)
        if is_num(a) and is_num(b):
            if not isinstance(a, SV) and not isinstance(b, SV):
                return self.native_op(op, a, b)
            if op == "@":
                raise Unsupported("matmul of scalars")
            if op in ("//", "%", "/") and True:
                z = lift_num(b)
                nz = self.decide(z != 0)
                if nz is not True:
                    if not self.float_ctx(a, b):
                        self.do_raise("ZeroDivisionError", "", Not(nz))
            return num_op(op, a, b)
        if isinstance(a, PSet) and isinstance(b, PSet) and op in ("&", "|", "-", "^"):
            return self.set_op(op, a, b)
        if isinstance(a, PList) and isinstance(b, PList) and op == "+":
            l = self.new_list()
            self.list_extend(l, a)
            self.list_extend(l, b)
            return l
        if isinstance(a, PList) and isinstance(b, (int, SNum)) and op == "*":
            return self.list_repeat(a, b)
        if isinstance(b, PList) and isinstance(a, (int, SNum)) and op == "*":
            return self.list_repeat(b, a)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "+":
            return a + b
        if isinstance(a, tuple) and isinstance(b, (int, np.integer)) and op == "*":
            return a * int(b)
        if isinstance(b, tuple) and isinstance(a, (int, np.integer)) and op == "*":
            return b * int(a)
        if isinstance(a, str) and isinstance(b, (str, int)):
            return {"+": lambda: a + b, "*": lambda: a * b, "%": lambda: Opaque("str %")}[op]()
        if isinstance(a, str) and op == "%":
            return Opaque("formatted string")
        if isinstance(a, (PSet,)) or isinstance(b, (PSet,)):
            raise Unsupported(f"set operator {op} on {type(a).__name__}, {type(b).__name__}")
        for x, y, nm in ((a, b, "__%s__"), (b, a, "__r%s__")):
            if isinstance(x, PObj):
                dn = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "@": "matmul"}.get(op)
                f = dn and self.find_method(x.cls, nm % dn)
                if f:
                    return self.call(BoundMethod(f, x), [y])
        raise Unsupported(f"operator {op} on {type(a).__name__} and {type(b).__name__}")

    def float_ctx(self, a, b):
        return False

    def list_repeat(self, l, n):
        if isinstance(n, (int, np.integer)):
            out = self.new_list()
            for _ in range(max(0, int(n))):
                self.list_extend(out, l)
            return out
        p = self.plain(l)
        if p is not None and len(p) == 1:
            return self.models.SymList(n, lambda i: p[0])
        raise Unsupported("repetition of a list")

    def native_op(self, op, a, b):
        import operator as o

        f = {"+": o.add, "-": o.sub, "*": o.mul, "/": o.truediv, "//": o.floordiv, "%": o.mod,
             "**": o.pow, "^": o.xor, "&": o.and_, "|": o.or_, "@": o.matmul}[op]
        return f(a, b)

    # ---- attributes
    def e_Attribute(self, n, fr):
        v = self.eval(n.value, fr)
        return self.getattr(v, n.attr)

    def getattr(self, v, name, default=None, has_default=False):
        v = self.force(v)
        if isinstance(v, GU):
            return self.lift(v, lambda x: self.getattr(x, name))
        if isinstance(v, Poison):
            raise Unsupported(f"attribute {name} of {v.why}")
        if isinstance(v, Opaque):
            return Opaque(f"{v.what}.{name}")
        if isinstance(v, Module):
            try:
                return v.get(name)
            except KeyError:
                return self.module_value(v.name + "." + name)
        if isinstance(v, ExtModule):
            return self.models.ext_attr(self, v, name)
        if isinstance(v, SuperVal):
            mro = self.mro(v.obj.cls)
            i = mro.index(v.cls) + 1
            for c in mro[i:]:
                if isinstance(c, ClassVal):
                    if name in c.members:
                        m = c.members[name]
                        return BoundMethod(FuncVal(c.module, m, cls=c, qual=f"{c.qual}.{name}"), v.obj)
                else:
                    r = self.models.base_method(self, c, name, v.obj)
                    if r is not None:
                        return r
            if name == "__init__":
                return ModelFn("object.__init__", lambda e, a, k: None)
            raise Unsupported(f"super().{name}")
        if isinstance(v, ClassVal):
            c, m = self.find_member(v, name)
            if m is None:
                if name == "__name__":
                    return v.name
                raise Unsupported(f"class attribute {v.name}.{name}")
            if isinstance(m, ast.FunctionDef):
                decs = [ast.unparse(d) for d in m.decorator_list]
                f = FuncVal(c.module, m, cls=c, qual=f"{c.qual}.{name}")
                if "classmethod" in decs:
                    return BoundMethod(f, v)
                return f
            return self.eval(m, Frame(c.module, None))
        if isinstance(v, PObj):
            cls = v.cls
            dep = self.models.obj_attr(self, v, name)
            if dep is not None:
                return dep[0]
            if isinstance(cls, ClassVal):
                c, m = self.find_member(cls, name)
                if isinstance(m, ast.FunctionDef):
                    decs = [ast.unparse(d) for d in m.decorator_list]
                    f = FuncVal(c.module, m, cls=c, qual=f"{c.qual}.{name}")
                    if "property" in decs:
                        return self.call(BoundMethod(f, v), [])
                    if "staticmethod" in decs:
                        return f
                    own, val = self.obj_get(v, name)
                    if is_false(own):
                        return BoundMethod(f, v)
            found, val = self.obj_get(v, name)
            if is_true(found) or self.decide(found) is True:
                return val
            if isinstance(cls, ClassVal):
                c, m = self.find_member(cls, name)
                if m is not None and not isinstance(m, ast.FunctionDef):
                    d = self.eval(m, Frame(c.module, None))
                    return d if is_false(found) else self.merge(found, val, d)
                for b in self.mro(cls):
                    if not isinstance(b, ClassVal):
                        r = self.models.base_method(self, b, name, v)
                        if r is not None:
                            return r
            else:
                r = self.models.base_method(self, cls, name, v)
                if r is not None:
                    return r
            if has_default:
                return default if is_false(found) else self.merge(found, val, default)
            self.do_raise("AttributeError", name, Not(found))
            if val is None:
                return Poison(f"attribute {name} never set")
            return val
        r = self.models.value_attr(self, v, name)
        if r is not None:
            return r[0]
        if has_default:
            return default
        raise Unsupported(f"attribute {name} of {type(v).__name__}")

    def setattr(self, o, name, val):
        o = self.force(o)
        if isinstance(o, GU):
            for g, x in o.alts:
                with self.guard(g):
                    self.setattr(x, name, val)
            return
        if isinstance(o, PObj):
            if self.models.obj_setattr(self, o, name, val):
                return
            self.obj_set(o, name, val)
            return
        if isinstance(o, Opaque):
            return
        raise Unsupported(f"attribute assignment on {type(o).__name__}")

    # ---- subscripts
    def e_Subscript(self, n, fr):
        v = self.eval(n.value, fr)
        i = self.eval_index(n.slice, fr)
        return self.getitem(v, i)

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Slice(self, n, fr):
        return self.eval_index(n, fr)

    def getitem(self, v, i):
        v = self.force(v)
        if isinstance(v, GU):
            return self.lift(v, lambda x: self.getitem(x, i))
        if isinstance(i, GU):
            return self.lift(i, lambda x: self.getitem(v, x))
        if isinstance(v, Poison):
            raise Unsupported(f"subscript of {v.why}")
        if isinstance(v, Opaque):
            return Opaque(v.what + "[]")
        if hasattr(v, "getitem"):
            return v.getitem(self, i)
        if isinstance(v, PDict):
            f, val = self.dict_get(v, i)
            self.do_raise("KeyError", "", Not(f))
            return Poison("missing key") if is_false(f) else val
        if isinstance(v, (tuple, str, range)):
            return self.index_seq(v, i)
        if isinstance(v, PList):
            p = self.plain(v)
            if p is None:
                r = self.models.symlist_getitem(self, v, i)
                if r is not None:
                    return r[0]
                raise Unsupported("indexing of a symbolic list")
            if isinstance(i, slice):
                return self.new_list(self.index_seq(tuple(p), i))
            return self.index_seq(tuple(p), i)
        if isinstance(v, np.ndarray):
            return self.models.np_getitem(self, v, i)
        if isinstance(v, PObj):
            if "graph" in v.store.meta:
                return self.models.graph_getitem(self, v, i)
            f = self.find_method(v.cls, "__getitem__")
            if f:
                return self.call(BoundMethod(f, v), [i])
        raise Unsupported(f"subscript of {type(v).__name__}")

    def index_seq(self, t, i):
        if isinstance(i, slice):
            if any(isinstance(x, SV) for x in (i.start, i.stop, i.step)):
                raise Unsupported("symbolic slice")
            return t[i]
        if isinstance(i, (bool, SBool)):
            i = SNum(lift_num(i)) if isinstance(i, SBool) else int(i)
        if isinstance(i, (int, np.integer)):
            if not -len(t) <= i < len(t):
                self.do_raise("IndexError", "")
                return Poison("index out of range")
            return t[int(i)]
        if isinstance(i, SNum) and i.is_int:
            n = len(t)
            self.do_raise("IndexError", "", Not(And(i.e >= -n, i.e < n)))
            res = None
            for k in range(n):
                c = self.decide(Or(i.e == k, i.e == k - n))
                if c is False:
                    continue
                if c is True:
                    return t[k]
                res = t[k] if res is None else self.merge(c, t[k], res)
            return res if res is not None else Poison("index out of range")
        raise Unsupported("index of a sequence")

    def setitem(self, v, i, val):
        v = self.force(v)
        if isinstance(v, GU):
            for g, x in v.alts:
                with self.guard(g):
                    self.setitem(x, i, val)
            return
        if hasattr(v, "setitem"):
            return v.setitem(self, i, val)
        if isinstance(v, PDict):
            return self.dict_set(v, i, val)
        if isinstance(v, PList):
            p = self.plain(v)
            if p is None or isinstance(i, slice):
                raise Unsupported("item assignment on a symbolic list")
            vars, g = self.rel(v)
            if vars:
                raise Unsupported("item assignment inside a symbolic loop")
            if isinstance(i, (int, np.integer)):
                if not -len(p) <= i < len(p):
                    self.do_raise("IndexError", "")
                    return
                k = int(i) % len(p)
                p[k] = self.merge(g, val, p[k])
            else:
                for k in range(len(p)):
                    c = And(g, Or(i.e == k, i.e == k - len(p)))
                    p[k] = self.merge(c, val, p[k])
            v.store.data = [Entry((), True, x) for x in p]
            self.note_write(v, "items", Entry((), True, val))
            return
        if isinstance(v, np.ndarray):
            return self.models.np_setitem(self, v, i, val)
        if isinstance(v, PObj):
            f = self.find_method(v.cls, "__setitem__")
            if f:
                return self.call(BoundMethod(f, v), [i, val])
        raise Unsupported(f"item assignment on {type(v).__name__}")

    # ---- comprehensions
    def e_ListComp(self, n, fr):
        l = self.new_list()
        self.comp(n.generators, fr, lambda f: self.list_append(l, self.eval(n.elt, f)))
        r = self.models.list_finish(self, l)
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, fr):
        s = self.new_set()
        self.comp(n.generators, fr, lambda f: self.set_add(s, self.eval(n.elt, f)))
        return s

    def e_DictComp(self, n, fr):
        d = self.new_dict()

        def leaf(f):
            k = self.eval(n.key, f)
            self.dict_set(d, k, self.eval(n.value, f))

        self.comp(n.generators, fr, leaf)
        return d

    def comp(self, gens, fr, leaf):
        sub = Frame(fr.module, fr.func, closure=fr)
        sub.cls = fr.cls
        sub.is_comp = True

        def go(k):
            if k == len(gens):
                leaf(sub)
                return
            g = gens[k]
            it = self.eval(g.iter, sub if k else fr)
            for ch in self.iterate(it):
                items = self.chunk_items(ch)
                old = self.exc_acc
                self.exc_acc = False
                lr = None
                if ch.vars:
                    lr = LoopRec(len(self.path), ch.vars, ch)
                for itm in items:
                    self.push_item(itm)
                if lr:
                    self.loops.append(lr)
                try:
                    if self.infeasible():
                        continue
                    self.assign(g.target, ch.value, sub)
                    conds = []
                    dead = False
                    for t in g.ifs:
                        c = self.decide(self.truth(self.eval(t, sub)))
                        if c is False:
                            dead = True
                            break
                        if c is not True:
                            self.push_guard(c)
                            conds.append(c)
                    if not dead:
                        go(k + 1)
                    for c in conds:
                        self.pop()
                        self.exc_acc = And(c, self.exc_acc)
                finally:
                    if lr:
                        self.loops.pop()
                    for _ in items:
                        self.pop()
                    self.exc_acc = Or(old, self.leave(self.exc_acc, items))
                if lr:
                    self.check_loop(lr)

        go(0)

    def chunk_items(self, ch):
        items = []
        if ch.vars:
            items.append(("b", tuple(ch.vars)))
        if not is_true(ch.guard):
            items.append(("g", ch.guard))
        return items

    def push_item(self, it):
        self.path.append(it)
        self.solver.push()
        if it[0] == "g":
            self.solver.add(zb(it[1]))
        self._decide_cache = {}

    def e_Lambda(self, n, fr):
        f = FuncVal(fr.module, n, closure=fr, qual=f"{fr.module.name}.<lambda>")
        f.defaults = [self.eval(d, fr) for d in n.args.defaults]
        return f

    # ------------------------------------------------------------ calls
    def e_Call(self, n, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr
            while f.cls is None and f.closure is not None:
                f = f.closure
            return SuperVal(f.cls, f.locals[f.func.node.args.args[0].arg])
        fn = self.eval(n.func, fr)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += self.unpack(self.eval(a.value, fr))
            else:
                args.append(self.eval(a, fr))
        for k in n.keywords:
            if k.arg is None:
                d = self.force(self.eval(k.value, fr))
                if isinstance(d, dict):
                    kwargs.update(d)
                    continue
                es = self.ents(d) if isinstance(d, PDict) else None
                if es is None or any(not e.plain() or not isinstance(e.key, str) for e in es):
                    if isinstance(fn, (ModelFn,)) or hasattr(fn, "call_value"):
                        kwargs["**"] = kwargs.get("**", ()) + (d,)  # the contract of the callee takes it as it is
                        continue
                    raise Unsupported("** of a symbolic dict")
                for e in es:
                    kwargs[e.key] = e.value
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        self.cur_node = n
        return self.call(fn, args, kwargs)

    def call(self, fn, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        fn = self.force(fn)
        if isinstance(fn, GU):
            return self.lift(fn, lambda f: self.call(f, args, kwargs))
        if isinstance(fn, ModelFn):
            self.models_used.add(fn.name)
            return fn.fn(self, args, kwargs)
        if isinstance(fn, BoundMethod):
            if isinstance(fn.func, FuncVal):
                return self.call(fn.func, [fn.self_] + args, kwargs)
            return self.call(fn.func, [fn.self_] + args, kwargs)
        if isinstance(fn, FuncVal):
            c = self.contracts.get(fn.qual)
            if c is not None:
                self.used_contracts.add(fn.qual)
                return c(self, args, kwargs)
            return self.inline(fn, args, kwargs)
        if isinstance(fn, ClassVal):
            c = self.contracts.get(fn.qual)
            if c is not None:
                self.used_contracts.add(fn.qual)
                return c(self, args, kwargs)
            return self.instantiate(fn, args, kwargs)
        if isinstance(fn, ExcType):
            return ExcVal(fn.name, args)
        if isinstance(fn, Opaque):
            return Opaque(fn.what + "()")
        if hasattr(fn, "call_value"):
            return fn.call_value(self, args, kwargs)
        if isinstance(fn, PObj):
            f = self.find_method(fn.cls, "__call__")
            if f:
                return self.call(BoundMethod(f, fn), args, kwargs)
        raise Unsupported(f"call of {fn!r}")

    def instantiate(self, cls, args, kwargs):
        o = self.new_obj(cls)
        for b in self.mro(cls):
            if not isinstance(b, ClassVal):
                self.models.base_init(self, b, o)
        f = self.find_method(cls, "__init__")
        if f is None and cls.is_dataclass:
            names = [x for x, _ in cls.fields]
            vals = dict(zip(names, args))
            vals.update(kwargs)
            for x, d in cls.fields:
                if x not in vals:
                    if d is None:
                        raise Unsupported("missing dataclass field")
                    vals[x] = self.eval(d, Frame(cls.module, None))
                self.obj_set(o, x, vals[x])
            f = self.find_method(cls, "__post_init__")
            if f:
                self.call(BoundMethod(f, o), [])
            return o
        if f is not None:
            self.call(BoundMethod(f, o), args, kwargs)
        else:
            for b in self.mro(cls):
                if not isinstance(b, ClassVal):
                    r = self.models.base_method(self, b, "__init__", o)
                    if r is not None:
                        self.call(r, args, kwargs)
        return o

    def bind(self, fn, args, kwargs):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        if len(args) > len(names) and a.vararg is None:
            self.do_raise("TypeError", "too many arguments")
            raise Unsupported(f"too many arguments for {fn.qual}")
        for nme, v in zip(names, args):
            loc[nme] = v
        if a.vararg is not None:
            loc[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        knames = names + [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in knames:
                if k in loc:
                    raise Unsupported(f"argument {k} given twice")
                loc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.do_raise("TypeError", f"unexpected keyword {k}")
                raise Unsupported(f"unexpected keyword {k} for {fn.qual}")
        if a.kwarg is not None:
            loc[a.kwarg.arg] = self.new_dict(list(extra.items()))
        dfr = Frame(fn.module, None, closure=fn.closure)
        defs = a.defaults
        for nme, d, k in zip(names[len(names) - len(defs):], defs, range(len(defs))):
            if nme not in loc:
                loc[nme] = fn.defaults[k] if fn.defaults else self.eval(d, dfr)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in loc:
                if d is None:
                    raise Unsupported("missing keyword argument")
                loc[x.arg] = self.eval(d, dfr)
        for nme in names:
            if nme not in loc:
                self.do_raise("TypeError", f"missing argument {nme}")
                raise Unsupported(f"missing argument {nme} for {fn.qual}")
        return loc

    depth = 0

    def inline(self, fn, args, kwargs):
        self.depth += 1
        if self.depth > 40:
            self.depth = 0
            raise Unsupported("recursion")
        if not isinstance(fn.node, ast.Lambda):
            for d in fn.node.decorator_list:
                if ast.unparse(d) not in ("property", "staticmethod", "classmethod", "abstractmethod"):
                    raise Unsupported(f"decorator {ast.unparse(d)}")
        fr = Frame(fn.module, fn, closure=fn.closure)
        fr.cls = fn.cls
        fr.locals = self.bind(fn, args, kwargs)
        fr.base = len(self.path)
        self.frames.append(fr)
        old = self.exc_acc
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, fr)
            self.inlined.add(fn.qual)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn.node)):
                fr.yields = self.new_list()
            self.exc_acc = False
            flow = self.exec_block(fn.node.body, fr)
            self.exc_acc = Or(old, flow.exc)
            if getattr(fr, "yields", None) is not None:
                return fr.yields
            return self.merge_returns(fr, flow)
        finally:
            self.frames.pop()
            self.depth -= 1

    def merge_returns(self, fr, flow):
        rs = fr.returns
        if not rs:
            return None
        rest = Not(Or(flow.ret, flow.exc))
        if not isinstance(rest, bool):
            rest = self.decide(rest)
        res = None
        have = False
        if rest is not False:
            res, have = None, True
        for g, v in reversed(rs):
            if not have:
                res, have = v, True
            else:
                res = self.merge(g, v, res)
        return res

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, fr):
        flow = Flow()
        pushed = []  # formulas of flow so far
        saved = []
        i = 0
        for st in stmts:
            f = self.exec_stmt(st, fr)
            tot = f.all()
            if is_false(tot):
                continue
            # translate to the outside of the guards pushed so far
            pre = And(*[Not(p) for p in pushed])
            flow = Flow(
                Or(flow.ret, And(pre, f.ret)),
                Or(flow.brk, And(pre, f.brk)),
                Or(flow.cont, And(pre, f.cont)),
                Or(flow.exc, And(pre, f.exc)),
            )
            d = self.decide(tot)
            if d is True:
                break
            if d is False:
                continue
            keep = Or(f.brk, f.cont)
            saved.append((keep, dict(fr.locals) if not is_false(keep) else None))
            pushed.append(tot)
            self.push_guard(Not(tot))
        for p in reversed(pushed):
            self.pop()
            keep, loc = saved.pop()
            if loc is not None:
                fr.locals = self.merge_locals(keep, loc, fr.locals)
        return flow

    def merge_locals(self, c, a, b):
        out = {}
        for k in list(a) + [k for k in b if k not in a]:
            x, y = a.get(k, UNDEF), b.get(k, UNDEF)
            if x is y:
                out[k] = x
            elif x is UNDEF or y is UNDEF:
                out[k] = GU([(c, x), (Not(c), y)])
            else:
                out[k] = self.merge(c, x, y)
        return out

    def exec_stmt(self, st, fr):
        self.cur_node = st
        self.exec_lines += 1
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        old = self.exc_acc
        self.exc_acc = False
        f = m(st, fr)
        acc, self.exc_acc = self.exc_acc, old
        if f is None:
            f = NOFLOW
        if not is_false(acc):
            f = Flow(And(f.ret, Not(acc)), And(f.brk, Not(acc)), And(f.cont, Not(acc)), Or(f.exc, acc))
        return f

    def s_Pass(self, st, fr):
        pass

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, ast.Yield):
            v = self.eval(st.value.value, fr)
            self.list_append(fr.yields, v)
            return
        self.eval(st.value, fr)

    def s_Import(self, st, fr):
        for a in st.names:
            fr.locals[a.asname or a.name.split(".")[0]] = self.module_value(
                a.name if a.asname else a.name.split(".")[0]
            )

    def s_ImportFrom(self, st, fr):
        for a in st.names:
            fr.locals[a.asname or a.name] = self.import_from(st.module, a.name)

    def s_FunctionDef(self, st, fr):
        f = FuncVal(fr.module, st, closure=fr, qual=f"{fr.module.name}.<local>.{st.name}")
        f.defaults = [self.eval(d, fr) for d in st.args.defaults]
        fr.locals[st.name] = f

    def s_Assert(self, st, fr):
        c = self.truth(self.eval(st.test, fr))
        self.do_raise("AssertionError", "", Not(c))

    def s_Return(self, st, fr):
        v = self.eval(st.value, fr) if st.value is not None else None
        items = self.path[fr.base:]
        if any(it[0] == "b" for it in items):
            self.return_in_loop(fr, items, v)
        else:
            fr.returns.append((And(*[it[1] for it in items]), v))
        return Flow(ret=True)

    def return_in_loop(self, fr, items, v):
        """return inside a loop over a family: only if all exits agree on the value."""
        bound = {x.get_id() for it in items if it[0] == "b" for x in it[1]}
        if set(value_vars(v, {})) & bound or isinstance(v, Heap):
            v = Poison("value returned from inside a loop over a symbolic collection")
        f = True
        f = self.leave(True, items) if False else None
        g = True
        for it in reversed(items):
            if it[0] == "g":
                g = And(it[1], g)
            else:
                g = exists(list(it[1]), zb(g))
        fr.returns.append((g, v))

    def s_Raise(self, st, fr):
        name = "Exception"
        if st.exc is not None:
            x = st.exc
            if isinstance(x, ast.Call):
                x = x.func
            v = self.eval(x, fr)
            name = getattr(v, "name", None) or "Exception"
        _Base.do_raise(self, name, "", True)
        return Flow(exc=True)

    def s_If(self, st, fr):
        c = self.decide(self.truth(self.eval(st.test, fr)))
        if c is True:
            return self.exec_block(st.body, fr)
        if c is False:
            return self.exec_block(st.orelse, fr)
        before = dict(fr.locals)
        with self.guard(c):
            f1 = self.exec_block(st.body, fr)
            d1 = self.decide(f1.all())
        l1 = fr.locals
        fr.locals = dict(before)
        with self.guard(Not(c)):
            f2 = self.exec_block(st.orelse, fr)
            d2 = self.decide(f2.all())
        l2 = fr.locals
        if d1 is True and is_false(Or(f1.brk, f1.cont)):
            fr.locals = l2
        elif d2 is True and is_false(Or(f2.brk, f2.cont)):
            fr.locals = l1
        else:
            fr.locals = self.merge_locals(c, l1, l2)
        n = Not(c)
        return Flow(
            Or(And(c, f1.ret), And(n, f2.ret)),
            Or(And(c, f1.brk), And(n, f2.brk)),
            Or(And(c, f1.cont), And(n, f2.cont)),
            Or(And(c, f1.exc), And(n, f2.exc)),
        )

    def s_Break(self, st, fr):
        return Flow(brk=True)

    def s_Continue(self, st, fr):
        return Flow(cont=True)

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                v = self.force(self.eval(t.value, fr))
                i = self.eval_index(t.slice, fr)
                self.models.delitem(self, v, i)
            else:
                raise Unsupported("del")

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.force(v)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if isinstance(v, self.models.SymList) and len(star) == 1:
                i, m = star[0], len(t.elts) - 1
                self.do_raise("ValueError", "unpack", lift_num(v.n) < m)
                for j, x in enumerate(t.elts[:i]):
                    self.assign(x, v.getitem(self, j), fr)
                stop = i - m if i < m else None
                self.assign(t.elts[i].value, v.getitem(self, slice(i, stop)), fr)
                for j, x in enumerate(t.elts[i + 1:]):
                    self.assign(x, v.getitem(self, j + i - m), fr)
                return
            if isinstance(v, GU):
                n = len(t.elts)
                parts = self.lift(v, lambda x: tuple(self.unpack(x)))
                if not isinstance(parts, tuple):
                    raise Unsupported("unpacking of alternatives")
                vals = list(parts)
            else:
                vals = self.unpack(v)
            if star:
                if len(star) > 1 or len(vals) < len(t.elts) - 1:
                    raise Unsupported("starred target")
                i, m = star[0], len(vals) - len(t.elts) + 1
                vals = vals[:i] + [self.new_list(vals[i:i + m])] + vals[i + m:]
                t = ast.Tuple([x.value if isinstance(x, ast.Starred) else x for x in t.elts], ast.Store())
            if len(vals) != len(t.elts):
                self.do_raise("ValueError", "unpack")
                raise Unsupported("unpacking length")
            for x, y in zip(t.elts, vals):
                self.assign(x, y, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval_index(t.slice, fr), v)
        else:
            raise Unsupported("assignment target")

    def s_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup_name(t.id, fr)
            new = self.inplace(type(st.op), cur, self.eval(st.value, fr))
            # the nearest scope that is a function scope: fr itself
            fr.locals[t.id] = new
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            new = self.inplace(type(st.op), cur, self.eval(st.value, fr))
            if isinstance(new, PList) and isinstance(cur, PList) and new == cur and isinstance(self.force(o), PObj) and len(self.force(o).store.data.get(t.attr, [])) == 1:
                return  # the list is the attribute's value already
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            cur = self.getitem(o, i)
            new = self.inplace(type(st.op), cur, self.eval(st.value, fr))
            if isinstance(new, PList) and isinstance(cur, PList) and new == cur and isinstance(self.force(o), PDict) and self.entails(zb(self.contains(o, i))):
                return  # the list is there already
            self.setitem(o, i, new)
        else:
            raise Unsupported("augmented assignment")

    def toggled(self, cur, val):
        val = self.force(val)
        if not isinstance(val, PSet) or cur.store.params or cur.store.data or val.store is cur.store:
            return False
        if "toggles" not in cur.store.meta and not self.rel(cur)[0]:
            return False
        one = self.plain(val)
        if one is None or len(one) != 1:
            return False
        self.set_toggle(cur, one[0])
        return True

    def inplace(self, opt, cur, val):
        cur = self.force(cur)
        if isinstance(cur, PSet) and opt is ast.BitXor and self.toggled(cur, val):
            return cur
        if isinstance(cur, PSet):
            new = self.set_op(self.OPS[opt], cur, val)
            self.set_assign(cur, new)
            return cur
        if isinstance(cur, PList) and opt is ast.Add:
            self.list_extend(cur, val)
            return cur
        if hasattr(cur, "inplace"):
            return cur.inplace(self, self.OPS[opt], val)
        if isinstance(cur, np.ndarray):
            return self.models.np_inplace(self, self.OPS[opt], cur, val)
        return self.binop(opt, cur, val)

    def s_With(self, st, fr):
        opened = []
        for it in st.items:
            v = self.eval(it.context_expr, fr)
            opened.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        f = self.exec_block(st.body, fr)
        for v in reversed(opened):
            r = v.getattr_model(self, "__exit__") if hasattr(v, "getattr_model") else None
            if r is not None:
                self.call(r[0], [None, None, None])
        return f

    def s_Try(self, st, fr):
        n0, r0 = len(self.raises), len(fr.returns)
        before = dict(fr.locals)
        depth = len(self.path)
        f = self.exec_block(st.body, fr)
        new = self.raises[n0:]
        if any(len(r["path"]) < depth or any(a is not b for a, b in zip(r["path"], self.path)) for r in new):
            raise Unsupported("exception from elsewhere")
        if len({r["exc"] for r in new}) == 0 and not is_false(f.exc):
            raise Unsupported("unknown exception")
        todo, rest = [], list(new)
        for h in st.handlers:
            names = None
            if h.type is not None:
                v = self.eval(h.type, fr)
                names = [getattr(x, "name", None) for x in (v if isinstance(v, tuple) else (v,))]
            mine = [r for r in rest if names is None or any(self.exc_matches(r["exc"], n) for n in names)]
            rest = [r for r in rest if not any(r is m for m in mine)]
            if mine:
                todo.append((h, Or(*[self.leave(r["own"], r["path"][depth:]) for r in mine])))
        if todo:
            self.raises[n0:] = rest
        elif not st.handlers and new and not st.finalbody:
            raise Unsupported("try without handlers")
        caught = Or(*[c for _, c in todo])
        done = dict(fr.locals)
        assigned = assigned_names(st.body)
        first = [r for r in new if any(r["node"] is x for x in ast.walk(st.body[0]))]
        safe = len(first) == len(new)
        left = Or(*[self.leave(r["own"], r["path"][depth:]) for r in rest])
        if not is_false(caught):
            fr.returns[r0:] = [(And(g, Not(caught)), v) for g, v in fr.returns[r0:]]
        out = Flow(And(f.ret, Not(caught)), And(f.brk, Not(caught)), And(f.cont, Not(caught)),
                   f.exc if not todo else left)
        if st.orelse:
            with self.guard(Not(Or(caught, left, f.ret, f.brk, f.cont))):
                fe = self.exec_block(st.orelse, fr)
            c = Not(Or(caught, left, f.ret, f.brk, f.cont))
            out = Flow(Or(out.ret, And(c, fe.ret)), Or(out.brk, And(c, fe.brk)), Or(out.cont, And(c, fe.cont)), Or(out.exc, And(c, fe.exc)))
            done = dict(fr.locals)
        res = done
        for h, c in todo:
            fr.locals = dict(before)
            if not safe:
                for w in assigned:
                    fr.locals[w] = Poison(f"{w} after an exception")
            if h.name:
                fr.locals[h.name] = ExcVal("caught")
            with self.guard(c):
                fh = self.exec_block(h.body, fr)
            out = Flow(Or(out.ret, And(c, fh.ret)), Or(out.brk, And(c, fh.brk)), Or(out.cont, And(c, fh.cont)), Or(out.exc, And(c, fh.exc)))
            res = self.merge_locals(c, fr.locals, res)
        fr.locals = res
        if st.finalbody:
            ff = self.exec_block(st.finalbody, fr)
            if not is_false(ff.all()):
                raise Unsupported("exit from finally")
        return out

    EXC_BASES = {"FileExistsError": "OSError", "FileNotFoundError": "OSError", "OSError": "Exception", "KeyError": "LookupError",
                 "IndexError": "LookupError", "LookupError": "Exception", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
                 "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "StopIteration": "Exception", "ValueError": "Exception",
                 "TypeError": "Exception", "AttributeError": "Exception", "AssertionError": "Exception", "Exception": "BaseException"}

    def exc_matches(self, exc, name):
        if name in ("IOError", "EnvironmentError"):
            name = "OSError"
        while exc is not None:
            if exc == name:
                return True
            if exc not in self.EXC_BASES and exc not in ("BaseException",):
                raise Unsupported(f"handler for {exc}")
            exc = self.EXC_BASES.get(exc)
        return False

    def s_Global(self, st, fr):
        raise Unsupported("global")

    def s_While(self, st, fr):
        lc = self.loop_contracts.get((fr.func.qual if fr.func else None, "while"))
        if lc is not None:
            return lc(self, st, fr)
        tot = Flow()
        n = 0
        pushed = 0
        try:
            while True:
                c = self.decide(self.truth(self.eval(st.test, fr)))
                if c is False:
                    break
                if c is not True:
                    raise Unsupported("while loop without an invariant")
                n += 1
                if n > 200:
                    raise Unsupported("while loop too long to unroll")
                f = self.exec_block(st.body, fr)
                if not is_false(f.brk) and self.decide(f.brk) is True:
                    return Flow(tot.ret, False, False, tot.exc)
                if not is_false(Or(f.brk, f.ret, f.exc)):
                    if self.decide(f.ret) is True:
                        return Flow(ret=True)
                    if self.decide(f.exc) is True:
                        return Flow(exc=True)
                    raise Unsupported("conditional exit of a while loop")
        finally:
            pass
        if st.orelse:
            raise Unsupported("while/else")
        return tot

    # ---- for loops
    def s_For(self, st, fr):
        it = self.eval(st.iter, fr)
        key = (fr.func.qual if fr.func else None, "for")
        lc = self.loop_contracts.get(key)
        if lc is not None:
            r = lc(self, st, fr, it)
            if r is not NotImplemented:
                return r
        if st.orelse:
            raise Unsupported("for/else")
        chunks = self.iterate(it)
        gs = self.grouped(st, fr) if any(c.vars for c in chunks) and not self.path_binders() else []
        if any(c.vars for c in chunks) and not self.path_binders():
            gs += self.cells(st, fr)
        for w, g in gs:
            fr.locals[w] = g
        try:
            f = self.for_chunks(st, fr, chunks, self.any_order(it, chunks))
        finally:
            for w, g in gs:
                fr.locals[w] = g.target
        for w, g in gs:
            if not is_false(f.all()) and self.decide(f.all()) is not False:
                raise Unsupported("exit from a loop that fills a dictionary")
            g.close(self)
        return f

    def grouped(self, st, fr):
        """Local dictionaries, still empty, in which the body creates lists and appends to them."""
        from pv.grouping import GroupDict

        names = set()
        for x in st.body:
            for n in ast.walk(x):
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                    if isinstance(n.ctx, ast.Store):
                        names.add(n.value.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "setdefault" and isinstance(n.func.value, ast.Name):
                    names.add(n.func.value.id)
        out = []
        for w in sorted(names):
            v = fr.locals.get(w)
            if isinstance(v, PDict) and not v.store.data and not v.store.params and sum(x is v or isinstance(x, Heap) and x.store is v.store for x in fr.locals.values()) == 1:
                if any(isinstance(n, ast.List) for x in st.body for n in ast.walk(x)):
                    out.append((w, GroupDict(self, v)))
        return out

    def cells(self, st, fr):
        """Local arrays of which the body assigns elements."""
        from pv.grouping import CellArr

        names = {n.value.id for x in st.body for n in ast.walk(x) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name)}
        out = []
        for w in sorted(names):
            v = fr.locals.get(w)
            if isinstance(v, self.models.SymArr) and not v.shares and sum(x is v for x in fr.locals.values()) == 1:
                if any(isinstance(n, ast.Name) and n.id == w and isinstance(n.ctx, (ast.Store, ast.Del)) for x in st.body for n in ast.walk(x)):
                    continue
                out.append((w, CellArr(self, v)))
        return out

    def any_order(self, it, chunks):
        """May the iterations of the chunks be interleaved?"""
        if len(chunks) < 2:
            return False
        it = self.force(it)
        if isinstance(it, PSet):
            return True
        return any(c.vars for c in chunks) and not isinstance(it, (tuple, list, range, str, np.ndarray))

    def for_chunks(self, st, fr, chunks, any_order=False):
        flow = Flow()
        pushed = []
        saved = []
        recs = []
        for ch in chunks:
            if ch.vars:
                f, lr = self.family_loop(st, fr, ch)
            elif any_order:
                lr = LoopRec(len(self.path), (), ch)
                self.push_guard(z3.BoolVal(True))
                self.loops.append(lr)
                try:
                    f = self.single_iter(st, fr, ch)
                finally:
                    self.loops.pop()
                    self.pop()
            else:
                f, lr = self.single_iter(st, fr, ch), None
            if any_order and lr is not None:
                for old in recs:
                    self.check_pair(old, lr)
                    self.check_pair(lr, old, writes=False)
                recs.append(lr)
            ex = Or(f.ret, f.brk, f.exc)
            if is_false(ex):
                continue
            pre = And(*[Not(p) for p in pushed])
            flow = Flow(Or(flow.ret, And(pre, f.ret)), Or(flow.brk, And(pre, f.brk)), False,
                        Or(flow.exc, And(pre, f.exc)))
            d = self.decide(ex)
            if d is True:
                break
            if d is False:
                continue
            saved.append((f.brk, dict(fr.locals) if not is_false(f.brk) else None))
            pushed.append(ex)
            self.push_guard(Not(ex))
        for p in reversed(pushed):
            self.pop()
            keep, loc = saved.pop()
            if loc is not None:
                fr.locals = self.merge_locals(keep, loc, fr.locals)
        return Flow(flow.ret, False, False, flow.exc)

    def single_iter(self, st, fr, ch):
        g = self.decide(ch.guard)
        if g is False:
            return NOFLOW
        if g is True:
            self.assign(st.target, ch.value, fr)
            f = self.exec_block(st.body, fr)
            return Flow(f.ret, f.brk, False, f.exc)
        before = dict(fr.locals)
        with self.guard(g):
            self.assign(st.target, ch.value, fr)
            f = self.exec_block(st.body, fr)
        fr.locals = self.merge_locals(g, fr.locals, before)
        return Flow(And(g, f.ret), And(g, f.brk), False, And(g, f.exc))

    def family_loop(self, st, fr, ch):
        W = assigned_names(st.body) | assigned_names([ast.Assign(targets=[st.target], value=st.target)])
        tnames = assigned_names([ast.Assign(targets=[st.target], value=ast.Constant(0))])
        W = assigned_names(st.body) | tnames
        before = dict(fr.locals)
        carry, arrs = {}, {}
        for w in W:
            if w in tnames:
                continue
            if w in fr.locals:
                v = fr.locals[w]
                v = self.force(v)
                if isinstance(v, Heap) or v is None or isinstance(v, (str, FuncVal)):
                    continue  # must come out unchanged
                if is_num(v):
                    carry[w] = self.carry_symbol(v, w, ch, w in counters(st.body))
                    fr.locals[w] = carry[w][0]
                elif isinstance(v, self.models.SymArr) and not v.shares and sum(x is v for x in fr.locals.values()) == 1:
                    arrs[w] = self.carry_array(v, w, ch)
                    fr.locals[w] = arrs[w][0]
                else:
                    fr.locals[w] = Poison(f"{w} carried through a loop over a symbolic collection")
        items = self.chunk_items(ch)
        lr = LoopRec(len(self.path), ch.vars, ch)
        cells = self.carried_cells(st, fr, ch)
        for itm in items:
            self.push_item(itm)
        self.loops.append(lr)
        for v in [v for v, cs in cells] + [x[0] for x in arrs.values()]:
            self.owned.append((v, len(self.path_binders())))
        try:
            if self.infeasible():
                fr.locals = before
                for v, cs in cells:
                    for i, old, c in cs:
                        v[i] = old
                return NOFLOW, None
            self.assign(st.target, ch.value, fr)
            f = self.exec_block(st.body, fr)
            after = fr.locals
            fr.locals = dict(before)
            for w in W:
                if w in tnames or w not in before:
                    fr.locals[w] = Poison(f"{w} assigned in a loop over a symbolic collection")
                    continue
                v, a = self.force(before[w]), after.get(w, UNDEF)
                if w in arrs:
                    if not is_false(Or(f.brk, f.ret)):
                        fr.locals[w] = Poison(f"{w} carried through a loop with exits")
                    else:
                        fr.locals[w] = self.close_array(w, v, arrs[w], self.force(a), ch)
                elif w in carry:
                    if not is_false(Or(f.brk, f.ret)):
                        fr.locals[w] = Poison(f"{w} carried through a loop with exits")
                    else:
                        fr.locals[w] = self.close_carry(w, v, carry[w], a, ch, [x[1] for x in carry.values()])
                elif isinstance(a, GU) or not (a is v or (isinstance(a, Heap) and a == v)):
                    a = self.force(a)
                    if a is v or (isinstance(a, Heap) and isinstance(v, Heap) and a == v):
                        continue
                    fr.locals[w] = Poison(f"{w} rebound in a loop over a symbolic collection")
            known = [x[1] for x in carry.values()] + [c[1] for v, cs in cells for i, old, c in cs]
            for v, cs in cells:
                new = [v[i] for i, old, c in cs]
                for (i, old, c), y in zip(cs, new):
                    v[i] = self.close_carry("cell", old, c, y, ch, known) if is_false(Or(f.brk, f.ret)) else Poison("array changed in a loop with exits")
        finally:
            for _ in range(len(cells) + len(arrs)):
                self.owned.pop()
            self.loops.pop()
            for _ in items:
                self.pop()
        if not is_false(f.brk):
            if lr.writes:
                raise Unsupported("break out of a loop over a symbolic collection that has effects")
        if not is_false(Or(f.ret, f.exc)) and lr.writes and self.keep_after_exit(lr):
            raise Unsupported("exit from a loop over a symbolic collection that has effects")
        self.check_loop(lr)
        return Flow(self.leave(f.ret, items), self.leave(f.brk, items), False, self.leave(f.exc, items)), lr

    def carry_array(self, v, w, ch):
        """The array that an iteration finds: unknown elements (a function of the iteration and the index)."""
        vs = self.path_vars() + list(ch.vars)
        x = v.at(SNum(z3.Int(fresh_name("J"))))
        if not is_num(x) or isinstance(x, (bool, SBool)):
            raise Unsupported("array of other values carried through a loop")
        s = z3.IntSort() if v.whole else z3.RealSort()
        fn = z3.Function(fresh_name("carry_" + w), *[y.sort() for y in vs], z3.IntSort(), s)
        c = self.models.SymArr(v.n, lambda j: SNum(fn(*vs, lift_num(j))))
        c.whole = v.whole
        return c, fn, vs

    def close_array(self, w, v0, carry, a, ch):
        c, fn, vs = carry
        if not isinstance(a, self.models.SymArr):
            return Poison(f"{w} carried through a loop")
        J = z3.Int(fresh_name("J"))
        n = lift_num(v0.n)
        if not self.entails(lift_num(a.n) == n):
            return Poison(f"{w} carried through a loop")
        new = a.at(SNum(J))
        old = fn(*vs, J)
        if not is_num(new):
            return Poison(f"{w} carried through a loop")
        x, y = unify(lift_num(new), old)
        step = z3.simplify(self.minus(x, y))
        if fn.name() in {d.decl().name() for d in fun_apps(step)}:
            return Poison(f"{w} carried through a loop")
        items = self.path[self.loops[-1].depth:]
        vars = [q for it in items if it[0] == "b" for q in it[1]]
        guard = And(*[it[1] for it in items if it[0] == "g"])
        d = self.loops[-1].depth
        saved = self.path
        self.path = self.path[:d] + [("b", (J,))]
        try:
            sym = self.aggregate("sum", vars, guard, step)
        finally:
            self.path = saved
        at0 = v0.at

        def at(j):
            p, q = unify(lift_num(at0(j)), z3.substitute(sym, (J, lift_num(j))))
            return SNum(p + q)
        if a is c:
            # changed in place: the same array throughout
            v0.at = at
            return v0
        r = self.models.SymArr(v0.n, at)
        r.whole = v0.whole
        return r

    def path_binders(self):
        return [it for it in self.path if it[0] == "b"]

    def carried_cells(self, st, fr, ch):
        """The cells of small arrays that the body assigns to: each is carried like a local variable."""
        names = set()
        for x in st.body:
            for n in ast.walk(x):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AugAssign) else []:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                        names.add(t.value.id)
        out, seen = [], set()
        for w in sorted(names):
            v = self.force(fr.locals[w]) if w in fr.locals else None
            if isinstance(v, np.ndarray) and v.dtype == object and 0 < v.size <= 16 and all(is_num(x) for x in v.flat) and id(v) not in seen:
                seen.add(id(v))
                if not self.writable(v):
                    continue
                cs = []
                for i in np.ndindex(*v.shape):
                    old = v[i]
                    c = self.carry_symbol(old, w, ch, True)
                    v[i] = c[0]
                    cs.append((i, old, c))
                out.append((v, cs))
        return out


    def writable(self, v):
        """May the array be written to here: under no loop that it was not made for."""
        n = len(self.path_binders())
        for a, k in reversed(self.owned):
            if a is v:
                return k == n
        return n == 0

    def keep_after_exit(self, lr):
        return True

    def carry_symbol(self, v, w, ch, counter=False):
        """The value that an iteration finds: a function of the iteration."""
        x = lift_num(v)
        vs = self.path_vars() + list(ch.vars)

        def sym(sort):
            return z3.Function(fresh_name("carry_" + w), *[y.sort() for y in vs], sort)(*vs)
        if isinstance(v, (bool, SBool)):
            c = sym(z3.BoolSort())
            return (SBool(c), c, "bool")
        if x.sort() == z3.RealSort():
            c = sym(z3.RealSort())
            return (SNum(c), c, "num")
        # an integer: bit or number
        if not counter and (z3.is_int_value(x) and x.as_long() in (0, 1) or self.is_bit(x)):
            b = sym(z3.BoolSort())
            return (SNum(z3.If(b, z3.IntVal(1), z3.IntVal(0))), b, "bit")
        c = sym(z3.IntSort())
        return (SNum(c), c, "num")

    def is_bit(self, x):
        from pv.values import _is_bit

        return _is_bit(x)

    def close_carry(self, w, v0, carry, a, ch, carries):
        val, c, kind = carry
        r = self.close_carry_(w, v0, carry, a, ch)
        if not isinstance(r, Poison) or ch.rng is None or not is_num(self.force(a)):
            return r
        # the value does not depend on the carried ones: the next iteration finds it
        a = self.force(a)
        y = zb(a.e if isinstance(a, SBool) else bool(a)) if kind == "bool" else lift_num(a)
        if kind == "bit":
            y = self.as_bit(y)
            x = None if y is None else self.as_bit(lift_num(v0))
        else:
            x = zb(v0.e if isinstance(v0, SBool) else bool(v0)) if kind == "bool" else lift_num(v0)
        if y is None or x is None or any(occurs(k, y) for k in carries):
            return r
        if z3.is_arith(y):
            x, y = unify(x, y)
            if c.sort() != y.sort():
                return r
        i = ch.vars[0]
        lo, hi, st = ch.rng
        body = And(*[it[1] for it in self.path[self.loops[-1].depth:] if it[0] == "g"])
        if not self.entails(zb(body)) or len(ch.vars) != 1:
            return r
        prev = z3.substitute(y, (i, i - st))
        self.add_fact(z3.Implies(ch.guard, c == z3.If(i == lo, x, prev)))
        if st == 1:
            last, some = hi - 1, lo < hi
        elif st == -1:
            last, some = hi + 1, lo > hi
        else:
            return r
        res = z3.If(some, z3.substitute(y, (i, last)), x)
        return mk_bool(res) if kind == "bool" else SNum(bool_to_bit(res)) if kind == "bit" else SNum(res)

    def close_carry_(self, w, v0, carry, a, ch):
        val, c, kind = carry
        a = self.force(a)
        if a is val:
            return v0
        if isinstance(a, (GU, Poison, Opaque)) or a is UNDEF or not is_num(a):
            return Poison(f"{w} carried through a loop")
        depth_items = self.path[self.loops[-1].depth:]
        vars = [x for it in depth_items if it[0] == "b" for x in it[1]]
        guard = And(*[it[1] for it in depth_items if it[0] == "g"])
        e = lift_num(a) if not isinstance(a, SBool) else a.e
        if kind == "bit":
            e = lift_num(a)
            ct = z3.simplify(z3.substitute(e, (c, z3.BoolVal(True))))
            cf = z3.simplify(z3.substitute(e, (c, z3.BoolVal(False))))
            tb = self.as_bit(ct)
            fb = self.as_bit(cf)
            if tb is not None and fb is not None:
                tb, fb = z3.simplify(zb(tb)), z3.simplify(zb(fb))
                if self.entails(tb == z3.Not(fb)):
                    sym = self.aggregate_out("xor", vars, guard, fb)
                    return SNum(bool_to_bit(Xor(self.as_bit(lift_num(v0)), sym)))
                if self.entails(tb):
                    sym = self.aggregate_out("or", vars, guard, fb)
                    return SNum(bool_to_bit(Or(self.as_bit(lift_num(v0)), sym)))
            # an integer counter that starts at 0 or 1
            d1, d0 = z3.simplify(ct - 1), z3.simplify(cf)
            if self.entails(d1 == d0):
                # redo as a number: the step must not depend on the carried value
                n = z3.Int(fresh_name("carry_" + w))
                step = self.step_of(e, c, n)
                if step is not None:
                    sym = self.aggregate_out("sum", vars, guard, step)
                    return SNum(lift_num(v0) + sym)
            return Poison(f"{w} carried through a loop")
        if kind == "bool":
            ct = z3.simplify(z3.substitute(zb(e), (c, z3.BoolVal(True))))
            cf = z3.simplify(z3.substitute(zb(e), (c, z3.BoolVal(False))))
            x0 = v0.e if isinstance(v0, SBool) else z3.BoolVal(bool(v0))
            if self.entails(ct):
                return mk_bool(Or(x0, self.aggregate_out("or", vars, guard, cf)))
            if self.entails(z3.Not(cf)):
                return mk_bool(And(x0, Not(self.aggregate_out("or", vars, guard, z3.Not(ct)))))
            if self.entails(ct == z3.Not(cf)):
                return mk_bool(Xor(x0, self.aggregate_out("xor", vars, guard, cf)))
            return Poison(f"{w} carried through a loop")
        x, y = unify(e, c)
        step = z3.simplify(self.minus(x, y))
        if not occurs(c, step):
            if ch.rng is not None and ch.rng[2] == 1 and (z3.is_int_value(step) or z3.is_rational_value(step)) and len(vars) == 1:
                lo, hi, _ = ch.rng
                if self.entails(guard):
                    p, q = unify(lift_num(v0), step)
                    k = ch.vars[0] - lo
                    self.add_fact(z3.Implies(ch.guard, c == p + q * k))
                    return SNum(p + q * z3.If(hi > lo, hi - lo, 0))
            sym = self.aggregate_out("sum", vars, guard, step)
            p, q = unify(lift_num(v0), sym)
            return SNum(p + q)
        return Poison(f"{w} carried through a loop")

    def minus(self, x, c):
        """x - c, with the subtraction moved into conditionals."""
        if z3.is_app_of(x, z3.Z3_OP_ITE) and not occurs(c, x.arg(0)):
            return z3.If(x.arg(0), self.minus(x.arg(1), c), self.minus(x.arg(2), c))
        return z3.simplify(x - c)

    def step_of(self, e, c, n):
        """e is a term over If(c,1,0): replace that by n and subtract."""
        bit = z3.If(c, z3.IntVal(1), z3.IntVal(0))
        t = z3.substitute(e, (bit, n))
        if occurs(c, t):
            return None
        s = z3.simplify(t - n)
        return None if n.get_id() in free_vars(s) else s

    def as_bit(self, e):
        if z3.is_int_value(e) and e.as_long() not in (0, 1):
            return None
        if not self.is_bit(e) and not self.entails(z3.Or(e == 0, e == 1)):
            return None
        return z3.simplify(bit_to_bool(e))

    def aggregate_out(self, kind, vars, guard, value):
        """Aggregate over the loop's variables, as seen outside of the loop."""
        n = self.loops[-1].depth
        items = self.path[n:]
        saved = self.path
        self.path = self.path[:n]
        try:
            return self.aggregate(kind, vars, guard, value)
        finally:
            self.path = saved

    # ---- order independence of a loop over a family
    def check_loop(self, lr):
        if not lr.writes:
            return
        by = {}
        for w in lr.writes:
            by.setdefault((w[0].id, w[1]), []).append(w)
        for (sid, facet), ws in by.items():
            rd = [r for r in lr.reads if r[0] == sid and r[1] == facet]
            for r in rd:
                for w in ws:
                    if not self.no_conflict(lr, *r[2:6], w):
                        raise Unsupported(
                            f"an iteration may read what another one writes ({ws[0][0].name}:{facet})"
                        )
            if all(w[3] for w in ws):
                continue
            for i, w in enumerate(ws):
                for w2 in ws[i:]:
                    if not self.same_write(lr, w, w2):
                        raise Unsupported(
                            f"iterations may write different values to the same place ({w[0].name}:{facet})"
                        )

    def check_pair(self, lr, lr2, writes=True):
        """No iteration of the second chunk reads what one of the first writes, or writes something else to the same place."""
        for w in lr.writes:
            store, facet = w[0], w[1]
            for r in lr2.reads:
                if r[0] == store.id and r[1] == facet and not self.no_conflict(lr, *r[2:6], w, True):
                    raise Unsupported(f"an iteration may read what another one writes ({store.name}:{facet})")
            for w2 in lr2.writes if writes else ():
                if w2[0] is store and w2[1] == facet and not (w[3] and w2[3]) and not self.same_write(lr2, w, w2, True):
                    raise Unsupported(f"iterations may write different values to the same place ({store.name}:{facet})")

    def rename_iter(self, lr, formula, *vals, extra=()):
        ren = []
        for v in tuple(lr.vars) + tuple(extra):
            ren.append((v, z3.Const(fresh_name("it"), v.sort())))
        f = subst(zb(formula), ren)
        out = [subst_value(x, ren) if x is not None else None for x in vals]
        diff = z3.Or(*[a != b for a, b in ren[: len(lr.vars)]])
        return f, out, diff

    def no_conflict(self, lr, key, rvars, rform, inst, w, other=False):
        store, facet, e, commut, wvars, wform = w
        if e is None or e.key is None and facet == "items" and store.kind in ("list", "set"):
            # a list or set that is read in the loop
            if e is None or not inst:
                return False
            # lists of a family: another iteration may write to another list only
            f2, _, diff = self.rename_iter(lr, And(wform, e.guard), extra=wvars)
            diff = other or diff
            return self.check(And(zb(rform), subst(f2, inst), diff), 5000) == z3.unsat
        f2, (k2,), diff = self.rename_iter(lr, wform, e.key, extra=wvars)
        diff = other or diff
        if key is None or k2 is None:
            return False if (k2 is not None or facet.startswith(".")) is False else (
                self.check(And(rform, f2, diff)) == z3.unsat
            )
        q = self.eq(key, k2)
        return self.check(And(zb(rform), f2, diff, logic.apart(q)), 5000) == z3.unsat

    def same_write(self, lr, w, w2, other=False):
        s, facet, e, _, v1, f1 = w
        _, _, e2, _, v2, f2 = w2
        # the guards of the entries say which instance of a family of objects is written
        g2, (k2, x2), diff = self.rename_iter(lr, And(f2, e2.guard), e2.key, e2.value, extra=v2)
        diff = other or diff
        f1 = And(f1, e.guard)
        kq = True if e.key is None and k2 is None else self.eq(e.key, k2)
        if is_false(kq):
            return True
        base = And(zb(f1), g2, diff, logic.apart(kq))
        if e.op != e2.op:
            return self.check(base, 5000) == z3.unsat
        try:
            vq = self.eq(e.value, x2)
        except Unsupported:
            vq = False
        return self.check(And(base, Not(vq)), 5000) == z3.unsat
