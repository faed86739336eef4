from base import *
import math

RULE = "one variance/outcome (scalar or 1-D array), summation range and replacement per case; compared with the defining sums; non-trivial: every case"


def core(tier):
    for v in (1e-6, 1e-3, 0.05, 0.3, 1.0, 10.0, 1e3):
        for x in (0.0, 0.4, -0.4, 0.886, -0.88, 1.77, 3.0, -7.7, 100.0):
            for vn in (1, 2, 5, 10, 30):
                yield dict(v=v, x=x, vn=vn)
                yield dict(v=v, x=x, vn=vn, form="np")
    for ru in (0, 0.25, "bin_location"):
        for v in ([1e-6, 0.1, 1e-5, 2.0], [1e-6] * 3, [0.2, 0.3, 0.1], [1e-6], [0.3]):
            yield dict(v=v, x=[0.7, -0.6, 2.6, -0.1][: len(v)], ru=ru)
            yield dict(v=v, x=[0.7, -0.6, 2.6, -0.1][: len(v)], ru=ru, uh=True)
        yield dict(v=1e-7, x=0.5, ru=ru)
        yield dict(v=1e-7, x=-2.2, ru=ru)
        yield dict(v=1e-7, x=0.5, ru=ru, uh=True)
    for v in ([0.1], [0.5, 1.0], [0.01, 3.0, 0.2], [10.0], [1.2, 1.2]):
        for vn in (1, 3, 5, 9):
            yield dict(zerr=v, vn=vn)


def count(tier):
    return dict(quick=2500, thorough=40000, search=40000)[tier]


def rand(rng, tier):
    def v():
        return rng.choice([10 ** rng.uniform(-7, 3), rng.uniform(0.01, 2)])

    def x():
        return rng.choice([rng.uniform(-1, 1), rng.uniform(-20, 20), math.sqrt(math.pi) * rng.randint(-6, 6) / 2])

    if rng.random() < 0.2:
        return dict(zerr=[10 ** rng.uniform(-2, 1.2) for _ in range(rng.randint(1, 5))], vn=rng.randint(1, 12))
    c = dict(vn=rng.choice([1, 2, 3, 10, 10, 17]), ru=rng.choice([0, 0.3, 1, "bin_location"]), uh=rng.random() < 0.2)
    if rng.random() < 0.4:
        return dict(v=v(), x=x(), form=rng.choice(["float", "np"]), **c)
    n = rng.randint(1, 7)
    return dict(v=[v() for _ in range(n)], x=[x() for _ in range(n)], **c)


def nontrivial(c):
    return True


def check(c):
    from flamingpy.cv.gkp import Z_err_cond, Z_err
    from scipy.special import erf

    al = math.sqrt(math.pi)
    if "zerr" in c:
        v = np.array(c["zerr"], dtype=float)
        vn = c["vn"]
        e = Z_err(v, var_num=vn) if vn != 5 else Z_err(v)
        ck(np.shape(e) == v.shape, "shape")
        # bins [(4m-1), (4m+1)] * sqrt(pi)/2 are those of bit 0; range as documented: the largest variance times
        # var_num rounded up, in bins
        nmax = int(np.ceil(vn * np.amax(v)) // 2 * 4 + 1)
        want = np.ones(len(v))
        for m in range(-nmax - 8, nmax + 8):
            i = 4 * m - 1
            if -nmax <= i < nmax:
                want -= 0.5 * (erf((i + 2) * al / (2 * v)) - erf(i * al / (2 * v)))
        ck(np.allclose(e, want, atol=1e-12), lambda: f"Z_err gives {e}, expected {want}")
        ck(np.all(e >= -1e-12) and np.all(e <= 1 + 1e-12), lambda: f"not a probability: {e}")
        return
    v, x = c["v"], c["x"]
    vn, ru, uh = c["vn"] if "vn" in c else 10, c.get("ru", 0), c.get("uh", False)
    kw = {}
    if "vn" in c:
        kw["var_num"] = vn
    if "ru" in c:
        kw["replace_undefined"] = ru
    if uh:
        kw["use_hom_val"] = True
    arr = isinstance(v, list)
    if arr:
        r = Z_err_cond(np.array(v), np.array(x), **kw)
        R = np.atleast_1d(r)
        ck(R.shape == (len(v),), lambda: f"result {r} for {len(v)} variances")
    else:
        a, b = (np.float64(v), np.float64(x)) if c.get("form") == "np" else (v, x)
        r = Z_err_cond(a, b, **kw)
        ck(np.ndim(r) == 0, "result of scalars is not a scalar")
        R = np.array([r])
    for k, (vv, xx) in enumerate(zip(v if arr else [v], x if arr else [x])):
        n, fr = None, None
        q = xx / al
        n = math.floor(q + 0.5)
        fr = xx - n * al
        edge = abs(abs(q - math.floor(q)) - 0.5) < 1e-9
        z, f = (xx, 1 - n % 2) if uh else (fr, 1)
        with np.errstate(all="ignore"):
            ex = lambda m: math.exp(-((z - m * al) ** 2) / vv) if (z - m * al) ** 2 / vv < 740 else float(np.exp(-((z - m * al) ** 2) / vv))
        den = sum(ex(i) for i in range(-vn, vn))
        num = sum(ex(2 * i + f) for i in range(-vn, vn))
        got = float(R[k])
        if den == 0:
            want = abs(fr) / al if ru == "bin_location" else ru
            ck(abs(got - want) < 1e-9, lambda: f"undefined position {k}: {got} instead of {want} (var {vv}, outcome {xx}, {kw})")
        elif den < 1e-290:
            continue
        else:
            if not uh:
                ck(-1e-12 <= got <= 1 + 1e-9, lambda: f"position {k}: {got} is not a probability (var {vv}, outcome {xx}, {kw})")
            if edge or uh and n < 0 and False:
                continue
            ck(abs(got - num / den) <= 1e-6 + 1e-6 * abs(num / den), lambda: f"position {k}: {got}, the sums give {num / den} (var {vv}, outcome {xx}, {kw})")
