"""C21: Monte Carlo runs (simulations.py): trials, failures and the results file."""
import z3
from pv.prove import Unit
from pv.values import *
from pv.values import zb
from pv.engine import ModelFn, Opaque, Chunk, BoundMethod
from pv.logic import free_vars, subst
from pv import models
from contracts.absgraph import simple_obj

S = "flamingpy.simulations."
ASSUMPTIONS = [
    "mpi4py's Reduce with SUM and root 0 leaves on process 0 the sum of the first arguments of all processes",
    "csv.writer writes one line per writerow, from which csv.reader gives back the same texts; open() follows its documentation for modes x and a",
    "str() of an argument value determines the value (true of Python literals)",
    "counts are exact in double precision (fewer than 2**53 trials)",
]
VAL = z3.DeclareSort("Value")


def val(name):
    return SRef(z3.Const(name, VAL))


class Recorder:
    """An object of which only these methods may be used."""

    def __init__(self, name, **methods):
        self.name, self.methods = name, methods

    def getattr_model(self, e, name):
        m = self.methods.get(name)
        if m is None:
            return None
        return (ModelFn(f"{self.name}.{name}", m) if callable(m) else m,)


def same(a, b):
    return a is b or isinstance(a, SRef) and isinstance(b, SRef) and a.e.eq(b.e)


# ---------------------------------------------------------------- one trial
def trial_unit(t):
    e = t.e
    log = []
    t.case = lambda m: dict(mc=1, trials=3, size=1, mpi=False, dec="MWPM", fail=[True, False, True], seed=0)

    def note(what):
        def f(en, a, k):
            log.append((what, list(a), dict(k), en.path_formula(), en.path_vars()))
            return SBool(z3.Bool("corrected")) if what == "correct" else None
        return f
    noise = Recorder("noise", apply_noise=note("noise"))
    code, dec, opts, rng = val("code"), val("decoder"), val("weight_opts"), val("rng")
    e.contracts["flamingpy.decoders.decoder.correct"] = note("correct")
    r = e.call(e.lookup(S + "ec_mc_trial"), [code, noise, dec, opts, rng])
    t.no_raise()
    t.prove("noise is applied once, then the code is corrected once", [x[0] for x in log] == ["noise", "correct"])
    if len(log) != 2:
        return
    n, c = log
    t.prove("in every trial", zb(And(n[3], c[3])))
    args = list(n[1]) + list(n[2].values())
    t.prove("the noise draws from the given generator", len(args) == 1 and same(args[0], rng))
    names = dict(zip(("code", "decoder", "weight_options", "sanity_check", "decoder_opts"), c[1]))
    names.update(c[2])
    t.prove("the given code is corrected", same(names.get("code"), code))
    t.prove("by the given decoder", same(names.get("decoder"), dec))
    t.prove("with the given weight options", same(names.get("weight_options"), opts))
    t.prove("nothing else is asked for", set(names) <= {"code", "decoder", "weight_options"})
    t.prove("the outcome of the correction is the result", zb(e.truth(r)) == z3.Bool("corrected"))


def mods(f):
    """Remainders that a formula mentions."""
    out, todo = [], [f]
    while todo:
        x = todo.pop()
        if z3.is_app_of(x, z3.Z3_OP_MOD):
            out.append(x)
        todo += x.children()
    return out


# ---------------------------------------------------------------- all trials of a run
def run_unit(t, mpi):
    e = t.e
    trials = z3.Int("trials")
    e.assume(trials >= 0)
    if mpi:
        size, rank = z3.Ints("size rank")
        e.assume(size >= 1)
        e.assume(z3.And(rank >= 0, rank < size))
    else:
        size, rank = z3.IntVal(1), z3.IntVal(0)

    def case(m):
        n = max(0, min(m.eval(trials, model_completion=True).as_long(), 25))
        k = m.eval(size, model_completion=True).as_long() if mpi else 1
        return dict(mc=1, trials=n, size=max(1, min(k, 8)), mpi=mpi, dec="MWPM", fail=[i % 2 == 0 for i in range(n)], seed=0)
    t.case = case
    t.small = [trials, size]
    mod = e.module("flamingpy.simulations")
    mod.cache["int_time"] = SNum(z3.Int("int_time"))
    mod.cache.pop("MPI", None)
    mod.defs.pop("MPI", None)
    SUM = object()
    if mpi:
        mod.cache["MPI"] = Recorder("MPI", SUM=SUM)
    calls, red = [], []
    code, noise, dec, opts = val("code"), val("noise"), val("decoder"), val("weight_opts")
    names = ("code_instance", "noise_instance", "decoder", "weight_opts", "rng")
    gens = []
    e.ext_contracts["numpy.random.default_rng"] = ModelFn("default_rng", lambda en, a, k: gens.append(val(f"generator{len(gens)}")) or gens[-1])

    def trial(en, a, k):
        d = dict(zip(names, a))
        d.update(k)
        vs = en.path_vars()
        ok = z3.Function(f"ok{len(calls)}", *[v.sort() for v in vs], z3.BoolSort())(*vs) if vs else z3.Bool(f"ok{len(calls)}")
        calls.append((d, list(vs), en.path_formula(), ok))
        return SBool(ok)
    e.contracts[S + "ec_mc_trial"] = trial

    total = z3.Real("total")

    def reduce(en, a, k):
        d = dict(zip(("sendbuf", "recvbuf", "op", "root"), a))
        d.update(k)
        red.append((en.getitem(d["sendbuf"], 0), models.length(en, d["sendbuf"]), d, en.path_formula(), en.path_vars()))
        with en.guard(rank == 0):
            en.setitem(d["recvbuf"], 0, SNum(total))
    comm = Recorder("comm", Reduce=reduce) if mpi else None
    args = [SNum(trials), code, noise, dec, e.new_dict([("weight_opts", opts)])]
    r = e.call(e.lookup(S + "ec_monte_carlo"), args, dict(world_comm=comm, mpi_rank=SNum(rank), mpi_size=SNum(size)) if mpi else {})
    t.no_raise()
    if len(calls) != 1 or len(calls[0][1]) != 1:
        raise Unsupported("the trials of a process are not one simple loop")
    d, vs, g, ok = calls[0]
    v = vs[0]
    g = zb(g)
    t.prove("the trial gets the code, noise, decoder and weight options of the run",
            same(d.get("code_instance"), code) and same(d.get("noise_instance"), noise) and same(d.get("decoder"), dec) and same(d.get("weight_opts"), opts))
    t.prove("all trials of a process draw from one generator", "rng" in d and len(gens) == 1 and same(d["rng"], gens[0]))

    # every number in [0, trials) is one trial of one process
    def dom(r_, v_):
        return z3.And(r_ >= 0, r_ < size, z3.substitute(g, (v, v_), *([(rank, r_)] if mpi else [])))
    number = None
    for f in (lambda r_, v_: v_, lambda r_, v_: r_ + size * v_):
        x, y = z3.Ints("x y")
        if t.quick(list(e.assumptions) + [dom(x, y), z3.Or(f(x, y) < 0, f(x, y) >= trials)], 10) == z3.unsat:
            number = f
            break
    if number is None:
        raise Unsupported("how the trials are distributed is not recognised")
    x, y, x2, y2, i = z3.Ints("x y x2 y2 i")
    t.prove("the trials are numbered", z3.Implies(dom(x, y), z3.And(number(x, y) >= 0, number(x, y) < trials)))
    if number(x, y).eq(y):
        t.prove("no trial is done twice", z3.Implies(z3.And(dom(x, y), dom(x2, y)), x == x2))
        rs = [i % size] + [subst(m, [(v, i)]) for m in mods(g)]
        rs = [r_ for r_ in rs if t.quick(list(e.assumptions) + [i >= 0, i < trials, Not(dom(r_, i))], 10) == z3.unsat] or rs
        t.prove("every trial is done", z3.Implies(z3.And(i >= 0, i < trials), dom(rs[0], i)))
    else:
        # x + size y = x2 + size y2 with remainders below size
        t.prove("no trial is done twice", z3.Implies(z3.And(dom(x, y), dom(x2, y2), x + size * y == x2 + size * y2), z3.And(x == x2, y == y2)),
                [z3.Or(y == y2, size * (y - y2) >= size, size * (y - y2) <= -size)])
        t.prove("every trial is done", z3.Implies(z3.And(i >= 0, i < trials), dom(i % size, i / size)), [i == i % size + size * (i / size)])

    # the local count
    if mpi:
        if len(red) != 1:
            t.prove("one reduction", False)
            return
        local, n, dd, rg, rv = red[0]
        t.prove("every process takes part in one reduction", zb(rg) if not rv else False)
        t.prove("of one number", lift_num(n) == 1)
        t.prove("a sum", dd.get("op") is SUM)
        t.prove("onto process 0", dd.get("root", 0) == 0)
    else:
        local = None
    sums = [a for a in e.aggs.values() if a.kind == "sum" and not a.params]
    if len(sums) != 1:
        raise Unsupported("the count of a process is not one sum")
    a = sums[0]
    if len(a.vars) != 1:
        raise Unsupported("the count of a process is not a simple sum")
    ren = [(a.vars[0], v)]
    term = zb(a.guard)
    value = lift_num(SNum(a.value)) if z3.is_expr(a.value) else z3.IntVal(int(a.value))
    term, value = subst(term, ren), subst(value, ren)
    # the sum over all trials: a value for every outcome of every call
    T = z3.substitute(z3.If(term, value, 0), (ok, z3.BoolVal(True)))
    F = z3.substitute(z3.If(term, value, 0), (ok, z3.BoolVal(False)))
    one, zero = [z3.simplify(c) for c in (T, F)]
    cands = [(z3.IntVal(1), z3.IntVal(0)), (z3.IntVal(0), z3.IntVal(1))]
    outside = t.quick(list(e.assumptions) + [z3.Not(g), z3.Or(T != 0, F != 0)], 10)
    found = [c for c in cands if t.quick(list(e.assumptions) + [g, z3.Or(one != c[0], zero != c[1])], 10) == z3.unsat]
    if len(found) != 1 or outside != z3.unsat:
        # neither successes nor failures of the calls are counted
        t.prove("the count of a process is the number of its successful trials",
                z3.And(z3.Implies(g, z3.And(T == 1, F == 0)), z3.Implies(z3.Not(g), z3.And(T == 0, F == 0))))
        return
    a1, a0 = found[0]
    c0 = None
    sym = a.sym if z3.is_expr(a.sym) else a.sym()
    if mpi:
        t.prove("each process contributes its count", lift_num(local) == sym)
        tot = total
    else:
        tot = z3.ToReal(sym)
    # over all processes: a1 for every success and a0 for every failure (finite sums over disjoint sets, lemmas/sums.lean)
    t.lean("the sum over all processes", "sums.lean")
    fails = z3.Int("failures")
    law = z3.And(fails >= 0, fails <= trials, tot == z3.ToReal(a1 * (trials - fails) + a0 * fails))
    t.reach("some failures", z3.And(law, fails > 0, trials > fails))
    with e.guard(rank == 0):
        t.prove("the number of failed trials is reported", lift_num(r) == fails, [law])
        t.prove("as an integer", lift_num(r).sort() == z3.IntSort())


# ---------------------------------------------------------------- the results file
class Args:
    """Any dictionary of arguments: n pairs in order."""

    def __init__(self, name):
        self.name = name
        self.n = z3.Int(name + "_n")
        self.key = z3.Function(name + "_key", z3.IntSort(), VAL)
        self.value = z3.Function(name + "_value", z3.IntSort(), VAL)

    def view(self, f):
        def ch(e):
            j = z3.Int(fresh_name("j"))
            return [Chunk((j,), z3.And(j >= 0, j < self.n), f(j), rng=(z3.IntVal(0), self.n, 1))]
        return models.Chunks(ch, lambda e: SNum(self.n))

    def chunks(self, e):
        return self.view(lambda j: SRef(self.key(j))).chunks(e)

    def length(self, e):
        return SNum(self.n)

    def getattr_model(self, e, name):
        f = dict(keys=lambda j: SRef(self.key(j)), values=lambda j: SRef(self.value(j)),
                 items=lambda j: (SRef(self.key(j)), SRef(self.value(j)))).get(name)
        return None if f is None else (ModelFn("dict." + name, lambda e, a, k: self.view(f)),)


class Klass:
    """A code or noise class: its instances are opaque."""

    def __init__(self, name, log):
        self.name, self.log = name, log
        self.text = val(name + "_name")

    def call_value(self, e, a, k):
        self.log.append((self.name, list(a), dict(k), e.path_formula()))
        return val(self.name + "_instance")

    def getattr_model(self, e, name):
        return (Text(self.text),) if name == "__name__" else None


class Text:
    """An unknown text (not empty): str() leaves it alone."""

    def truth(self, e):
        return True

    def __init__(self, v):
        self.v = v

    def str_value(self, e):
        return self


class Disk:
    """The results file: whether it exists, and what is written to it."""

    def __init__(self, e, name):
        self.e, self.name = e, name
        self.old = z3.Bool("file_exists")
        self.there = self.old
        self.rows, self.lost, self.opened = [], False, []

    def check(self, e, f):
        f = e.force(f)
        if self.name is None and isinstance(f, str):
            self.name = f
        if f is not self.name and not (isinstance(f, str) and f == self.name):
            raise Unsupported("another file")

    def open(self, e, a, k):
        d = dict(zip(("file", "mode", "buffering", "encoding", "errors", "newline"), a))
        d.update(k)
        if any(it[0] == "b" for it in e.path):
            raise Unsupported("file opened in a loop")
        self.check(e, d["file"])
        mode = d.get("mode", "r").replace("t", "")
        if mode not in ("x", "a", "w") or d.get("encoding", "utf8").lower() not in ("utf8", "utf-8"):
            raise Unsupported(f"open with mode {mode}")
        if d.get("newline", "") not in ("", "\n"):
            raise Unsupported("newline translation")
        if mode == "x":
            e.do_raise("FileExistsError", "", self.there)
            ok = And(e.path_formula(), Not(self.there))
        else:
            ok = e.path_formula()
        if mode == "w":
            self.lost = Or(self.lost, And(ok, self.there))
        self.there = Or(self.there, ok)
        def close(e, a, k):
            if any(it[0] == "b" for it in e.path):
                raise Unsupported("file closed in a loop")
            f.closed = Or(f.closed, e.path_formula())

        def leave(e, a, k):
            close(e, a, k)
        f = File("file", close=close, flush=lambda e, a, k: None, __exit__=leave)
        f.ok, f.closed = ok, False
        return f

    def exists(self, e, a, k):
        self.check(e, a[0])
        return mk_bool(zb(self.there))

    def writer(self, e, a, k):
        if set(k) - {"lineterminator"} or k.get("lineterminator", "\n") not in ("\n", "\r\n") or len(a) != 1:
            raise Unsupported("csv dialect")
        parts = file_alts(e, a[0])

        def row(e, a, k):
            if any(it[0] == "b" for it in e.path):
                raise Unsupported("row written in a loop")
            g = e.path_formula()
            for c, f in parts:
                e.do_raise("ValueError", "closed file", And(c, f.closed))
            # where the handle did not come from a successful open the row does not exist
            v = e.force(a[0])
            es = [x for x in e.ents(v)] if isinstance(v, PList) else None
            if es is None:
                v = e.call(e.builtin("list"), [v])
                es = [x for x in e.ents(v)]
            self.rows.append((g, es))

        def rows(e, a, k):
            for x in e.unpack(a[0]):
                row(e, [x], {})
        return Recorder("writer", writerow=row, writerows=rows)


class File(Recorder):
    pass


def file_alts(e, v):
    v = e.force(v)
    xs = v.alts if isinstance(v, GU) else [(True, v)]
    if not all(isinstance(x, File) for _, x in xs):
        raise Unsupported("writer to something else")
    return xs


def csv_unit(t, mpi, named):
    e = t.e
    t.case = lambda m: dict(run=1, seed=0, rows=2)
    log, done = [], []
    code, noise = Klass("code", log), Klass("noise", log)
    A, B, C = Args("code_args"), Args("noise_args"), Args("decoder_args")
    for x in (A, B, C):
        e.assume(x.n >= 0)
    trials, errors = z3.Ints("trials errors")
    dec = Text(val("decoder"))
    fn = Text(val("file_name")) if named else None
    disk = Disk(e, fn)
    e.builtins["open"] = ModelFn("open", disk.open)
    e.ext_contracts["csv.writer"] = ModelFn("csv.writer", disk.writer)
    for q in ("exists", "isfile"):
        e.ext_contracts["os.path." + q] = ModelFn(q, disk.exists)
    e.ext_contracts["time.perf_counter"] = ModelFn("perf_counter", lambda e, a, k: SNum(z3.Real(fresh_name("clock"))))
    e.ext_contracts["datetime.datetime"] = Opaque("datetime")
    mod = e.module("flamingpy.simulations")
    mod.cache.pop("MPI", None)
    mod.defs.pop("MPI", None)
    rank, size = z3.IntVal(0), z3.IntVal(1)
    comm = None
    if mpi:
        rank, size = z3.Ints("rank size")
        e.assume(z3.And(rank >= 0, rank < size))
        comm = Recorder("comm", Get_size=lambda e, a, k: SNum(size), Get_rank=lambda e, a, k: SNum(rank))
        mod.cache["MPI"] = Recorder("MPI", COMM_WORLD=comm, SUM=object())
    names = ("trials", "code_instance", "noise_instance", "decoder", "decoder_args", "world_comm", "mpi_rank", "mpi_size")

    def mc(en, a, k):
        d = dict(world_comm=None, mpi_rank=0, mpi_size=1)
        d.update(zip(names, a))
        d.update(k)
        done.append((d, en.path_formula(), en.path_vars()))
        return SNum(errors)
    e.contracts[S + "ec_monte_carlo"] = mc
    e.call(e.lookup(S + "run_ec_simulation"), [SNum(trials), code, A, noise, B, dec, C], {"fname": fn})
    t.no_raise()

    # the run itself
    t.prove("one code, then one noise layer", [x[0] for x in log] == ["code", "noise"] and all(is_true(x[3]) or t.quick(t.hyps() + [Not(zb(x[3]))]) == z3.unsat for x in log))
    if len(log) == 2:
        t.prove("with the code's arguments", not log[0][1] and set(log[0][2]) == {"**"} and log[0][2]["**"] == (A,))
        t.prove("with the code and the noise's arguments",
                len(log[1][1]) == 1 and same(log[1][1][0], val("code_instance")) and set(log[1][2]) == {"**"} and log[1][2]["**"] == (B,))
    t.prove("one run", len(done) == 1 and not done[0][2])
    if len(done) != 1:
        return
    d, g, _ = done[0]
    t.prove("every process runs", zb(g))
    t.prove("all trials are run", zb(e.eq(d["trials"], SNum(trials))))
    t.prove("on the code and noise", same(d["code_instance"], val("code_instance")) and same(d["noise_instance"], val("noise_instance")))
    t.prove("with the decoder and its arguments", d["decoder"] is dec and d["decoder_args"] is C)
    t.prove("in its place among the processes", z3.And(lift_num(d["mpi_rank"]) == rank, lift_num(d["mpi_size"]) == size))
    t.prove("with the communicator of all processes", d["world_comm"] is comm)

    # the file
    t.prove("existing rows are kept", Not(disk.lost))
    here = rank == 0
    t.prove("the file exists afterwards", z3.Implies(here, zb(disk.there)))
    # one header for a new file, one row always, in this order
    heads = [(g, es) for g, es in disk.rows if flat(es) is not None and flat(es)[0] == "code"]
    rows = [(g, es) for g, es in disk.rows if not any(es is h for _, h in heads)]
    k = [any(es is h for _, h in heads) for _, es in disk.rows]
    if k != sorted(k, reverse=True):
        raise Unsupported("rows before headers")
    for what, some, when in (("header", heads, z3.And(here, z3.Not(disk.old))), ("row", rows, here)):
        t.prove(f"a {what} is written in these cases only", Or(*[g for g, _ in some]) == when if some else z3.Not(when))
        for a in range(len(some)):
            for b in range(a):
                t.prove(f"not more than one {what}", Not(And(some[a][0], some[b][0])))
    for gh, h in heads or [(True, None)]:
        for gr, r in rows:
            if h is None:
                continue
            hs, rs = flat(h), flat(r)
            t.prove("one field per column", len(hs) == len(rs) and all(type(x) is type(y) for x, y in zip(hs, rs) if isinstance(x, Part) or isinstance(y, Part)))
            col = {}
            for x, y in zip(hs, rs):
                if isinstance(x, Part) and isinstance(y, Part):
                    j = x.j
                    src = [q for q in (A, B, C) if t.quick(t.hyps() + [Not(zb(e.eq(x.value, SRef(q.key(j))) if isinstance(x.value, SRef) else False))]) == z3.unsat]
                    if len(src) != 1:
                        raise Unsupported("columns of arguments")
                    q = src[0]
                    yv = y.at(j)
                    want = models.StrOf(SRef(q.value(j)))
                    if not isinstance(yv, models.StrOf):
                        if isinstance(yv, SRef):
                            t.prove(f"values of {q.name} are written as text", False)
                            continue
                        raise Unsupported("form of a field")
                    gs = z3.And(j >= 0, j < q.n)
                    t.prove(f"columns of {q.name}", z3.And(zb(x.guard) == gs, zb(y.gat(j)) == gs, zb(x.ordered and y.ordered)))
                    t.prove(f"values of {q.name}", z3.Implies(gs, zb(e.eq(yv.v, want.v))))
                    col.setdefault(q.name, 0)
                    col[q.name] += 1
                elif isinstance(x, str):
                    col[x] = y
                elif isinstance(x, models.StrOf):
                    raise Unsupported("header")
            for q in (A, B, C):
                t.prove(f"every argument of {q.name} is recorded once", col.get(q.name) == 1)
            t.prove("the code is recorded", text_is(col.get("code"), code.text))
            t.prove("the noise is recorded", text_is(col.get("noise"), noise.text))
            t.prove("the decoder is recorded", col.get("decoder") is dec)
            t.prove("the error count is recorded", num_is(e, col.get("errors"), errors))
            t.prove("the trial count is recorded", num_is(e, col.get("trials"), trials))
            t.prove("the number of processes is recorded", num_is(e, col.get("mpi_size"), size))
    t.reach("an existing file", disk.old)
    t.reach("a new file", z3.Not(disk.old))


def text_is(x, v):
    return isinstance(x, Text) and same(x.v, v)


def num_is(e, x, v):
    if isinstance(x, models.StrOf) and is_num(x.v):
        return lift_num(x.v) == v
    if isinstance(x, str) and x.lstrip("-").isdigit():
        return z3.IntVal(int(x)) == v
    if is_num(x):
        return lift_num(x) == v
    if x is None:
        return False
    raise Unsupported("form of a count")


class Part:
    """A stretch of a row with one field per argument of a dictionary."""

    def __init__(self, en):
        self.j, self.guard, self.value = en.vars[0], en.guard, en.value
        self.ordered = en.rng is not None

    def at(self, j):
        from pv.engine import subst_value
        return subst_value(self.value, [(self.j, j)])

    def gat(self, j):
        return subst(zb(self.guard), [(self.j, j)])


def flat(es):
    out = []
    for en in es:
        if not en.vars:
            if not is_true(en.guard):
                raise Unsupported("field that may be missing")
            out.append(en.value)
        elif len(en.vars) == 1:
            out.append(Part(en))
        else:
            raise Unsupported("fields")
    return out


def units():
    return [Unit("ec_mc_trial", trial_unit)] + [Unit(f"ec_monte_carlo {'with' if m else 'without'} MPI", run_unit, (m,)) for m in (False, True)] + [
        Unit(f"run_ec_simulation {'with' if m else 'without'} MPI", csv_unit, (m, True)) for m in (False, True)] + [
        Unit("run_ec_simulation, default file", csv_unit, (False, False))]
