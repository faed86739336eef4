from base import *
import math

RULE = "one scalar or array and alpha per case; the defining equation and inequality; non-trivial: some x is not 0"


def core(tier):
    al = math.sqrt(math.pi)
    for a in (al, 1.0, 2, 0.3, 1e-3, 1e3, 7):
        for k in range(-6, 7):
            for e in (0.0, 1e-9, -1e-9, 1e-13, -1e-13, 0.25):
                yield dict(x=k * a / 2 + e, a=a)
        yield dict(x=[k * a / 2 for k in range(-9, 10)], a=a)
        yield dict(x=[[0.1, -0.9], [a, -3.3 * a]], a=a)
        yield dict(x=[], a=a)
        yield dict(x=0, a=a)
        yield dict(x=5, a=a)
        yield dict(x=[1, 2, 3], a=a, form="int")
        yield dict(x=1e5 + 0.1, a=a)
        yield dict(x=-1e5 - 0.7, a=a)
        yield dict(x=-1e-20, a=a)


def count(tier):
    return dict(quick=4000, thorough=60000, search=60000)[tier]


def rand(rng, tier):
    a = rng.choice([math.sqrt(math.pi), math.sqrt(math.pi), rng.random() * 3 + 1e-3, float(rng.randint(1, 9))])

    def x():
        return rng.choice([rng.uniform(-5, 5), rng.uniform(-1000, 1000), rng.gauss(0, 0.3), a * rng.randint(-40, 40) / 2, rng.randint(-5, 5) * 1.0])

    r = rng.random()
    if r < 0.3:
        return dict(x=x(), a=a, form=rng.choice(["float", "np"]))
    if r < 0.8:
        return dict(x=[x() for _ in range(rng.randint(1, 12))], a=a, form=rng.choice(["list", "array", "f32"]))
    return dict(x=[[x() for _ in range(3)] for _ in range(rng.randint(1, 4))], a=a)


def nontrivial(c):
    return bool(np.any(np.array(c["x"])))


def check(c):
    from flamingpy.cv.gkp import integer_fractional, GKP_binner

    x, a = c["x"], c["a"]
    f = c.get("form")
    arg = x
    tol = 1e-9
    if isinstance(x, list):
        arg = np.array(x, dtype=float)
        if f == "list":
            arg = list(x)
        if f == "int":
            arg = np.array(x)
        if f == "f32":
            arg = np.array(x, dtype=np.float32)
            tol = 1e-5
    elif f == "np":
        arg = np.float64(x)
    X = np.array(arg, dtype=float)
    sc = 1 + float(np.max(np.abs(X), initial=0))

    def judge(n, fr, al):
        ck(np.shape(n) == X.shape and np.shape(fr) == X.shape, lambda: f"shapes {np.shape(n)} {np.shape(fr)} for {X.shape}")
        n_, f_ = np.array(n), np.array(fr, dtype=float)
        ck(n_.dtype.kind in "iu", lambda: f"integer part has type {n_.dtype}")
        ck(np.all(np.abs(n_ * al + f_ - X) <= tol * sc), lambda: f"n*alpha+f != x: {n} {fr} for {arg}")
        ck(np.all(np.abs(f_) <= al / 2 * (1 + 1e-12) + tol * sc), lambda: f"|f| > alpha/2: {fr} for {arg}, alpha {al}")

    n, fr = integer_fractional(arg, a)
    judge(n, fr, a)
    al = np.sqrt(np.pi)
    bit = GKP_binner(arg)
    bit2, fr2 = GKP_binner(arg, return_fraction=True)
    ck(np.shape(bit) == X.shape and np.array_equal(bit, bit2), "bits with and without the fraction differ")
    q = X / al
    away = np.abs(np.abs(q - np.floor(q)) - 0.5) > 1e-4 if f == "f32" else np.abs(np.abs(q - np.floor(q)) - 0.5) > 1e-9
    want = np.floor(q + 0.5).astype(int)
    ck(np.all(((np.array(bit) - want) % 2 == 0) | ~away) and np.all(np.isin(bit, (0, 1))), lambda: f"bits {bit}, nearest multiples {want} for {arg}")
    n0, f0 = integer_fractional(arg, al)
    ck(np.array_equal(np.array(n0) % 2, np.array(bit)) and np.allclose(fr2, f0, atol=1e-12 * sc), "GKP_binner disagrees with integer_fractional")
    ck(np.all(np.abs(fr2) <= al / 2 + tol * sc), "fraction too large")
