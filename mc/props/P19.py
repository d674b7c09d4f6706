"""One-point and slice statistics, and pooled moments."""
import itertools
import math
import numpy as np
from fractions import Fraction
from mc import core
from mc.core import FnSuite, call, eq, near, expect, digest, must_raise

LEVEL = "model_checking"
ASSUMPTIONS = ["skewness and kurtosis use the documented sample variance with n-1"]


def exact_moments(v):
    """exact rational arithmetic"""
    v = [Fraction(x) for x in v]
    n = len(v)
    m = sum(v) / n
    d = [x - m for x in v]
    s2 = sum(x ** 2 for x in d) / (n - 1)
    s3, s4 = sum(x ** 3 for x in d) / n, sum(x ** 4 for x in d) / n
    if s2 == 0:
        return m, None, None
    return float(m), float(s3) / float(s2) ** 1.5, float(s4 / s2 ** 2)


def cases_mom(tier):
    n = 6 if tier == "quick" else 7
    for k in range(2, n + 1):
        for v in itertools.product((-1, 0, 2), repeat=k):
            yield {"v": v}


SHAPES = {2: [(2,), (2, 1)], 3: [(3, 1, 1)], 4: [(2, 2), (4,)], 5: [(1, 5)], 6: [(2, 3), (1, 3, 2)], 7: [(7,)]}


def check_mom(case):
    t = core.t2c()
    v = case["v"]
    m, sk, ku = exact_moments(v)
    for sh in SHAPES[len(v)]:
        for dt in ("f8", "i4", "f4"):
            a = np.array(v, dt).reshape(sh)
            if sk is None:
                continue
            near(call(t.skewness, a), sk, "skewness", f"{case} {dt}", rtol=1e-5 if dt == "f4" else 1e-10, atol=1e-6 if dt == "f4" else 1e-12)
            near(call(t.kurtosis, a), ku, "kurtosis", f"{case} {dt}", rtol=1e-5 if dt == "f4" else 1e-10)
            # units and offsets do not matter; the sign follows
            near(t.skewness(-3. * a + 5), -sk, "skewness-affine", str(case), rtol=1e-5, atol=1e-6)
            near(t.kurtosis(-3. * a + 5), ku, "kurtosis-affine", str(case), rtol=1e-5)
    return (sk, ku) if sk is not None else None


# ---------------------------------------------------------------- slices

SL = [(2, 3, 4), (3, 3, 3), (1, 4, 2), (4, 1, 1), (1, 1, 5), (1, 1, 1), (5, 2, 3)]


def cases_slice(tier):
    for sh, ax, dt in itertools.product(SL, (0, 1, 2, -1, -2, -3), ("f8", "f4", "i4", "bool")):
        yield {"shape": sh, "axis": ax, "dtype": dt}


def check_slice(case):
    t = core.t2c()
    sh, ax = tuple(case["shape"]), case["axis"]
    a = core.field(sh, 2, lo=1, hi=9)
    a = (a > 4) if case["dtype"] == "bool" else a.astype(case["dtype"])
    if case["dtype"] == "bool":
        a.ravel()[::2] = True
    A = a.astype(float)
    pax = ax % 3
    n = sh[pax]
    means = [math.fsum(np.take(A, i, axis=pax).ravel()) / (A.size / n) for i in range(n)]
    b = [1, 1, 1]
    b[pax] = n
    M = np.array(means).reshape(b)
    tol = dict(rtol=2e-6, atol=2e-6)
    kw = {} if ax == 2 else {"los_axis": ax}
    got = call(t.subtract_mean_signal, a, **kw)
    near(got, A - M, "subtract-mean", str(case), **tol)
    expect(got is not a and np.abs(np.asarray(got, float).mean(axis=tuple(i for i in range(3) if i != pax))).max() < 1e-5, "zero-mean", str(case))
    if (M != 0).all():
        near(call(t.signal_overdensity, a, ax), A / M - 1, "overdensity", str(case), **tol)
    if ax >= 0:
        for f in (np.mean, np.var, np.max, np.sum, np.size, lambda s: np.ravel(s)[0]):
            want = [f(np.take(A, i, axis=pax)) for i in range(n)]
            near(call(t.apply_func_along_los, a, f, ax), want, "along-los", str(case), **tol)
        w = [exact_moments(np.take(A, i, axis=pax).ravel())[1] if A.size / n > 1 else None for i in range(n)]
        if None not in w:
            near(call(t.apply_func_along_los, A, t.skewness, ax), w, "along-los-skew", str(case), rtol=1e-9, atol=1e-9)
    else:
        must_raise(t.apply_func_along_los, a, np.mean, ax, kind="bad-axis")
    must_raise(t.apply_func_along_los, a, np.mean, 3, kind="bad-axis")
    x, r = core.field(sh, 5), core.field(sh, 6, lo=0, hi=4)
    num = math.fsum(float(p) * float(q) for p, q in zip(x.ravel(), r.ravel()))
    near(call(t.mass_weighted_mean_xi, x, r), num / math.fsum(r.ravel()), "mass-weighted", str(case), rtol=1e-9)
    near(call(t.mass_weighted_mean_xi, x.astype("f4"), (r * 7e-28).astype("f4")), num / math.fsum(r.ravel()), "mass-weighted", str(case), rtol=1e-5)
    near(call(t.mass_weighted_mean_xi, x > .5, (r * 9).astype(int) + 1), ((x > .5) * ((r * 9).astype(int) + 1)).sum() / ((r * 9).astype(int) + 1).sum(), "mass-weighted", str(case), rtol=1e-9)
    return digest(np.asarray(got, float))


# ---------------------------------------------------------------- pooled moments

def cuts(n):
    """all ways to cut n values into consecutive groups"""
    for k in range(1, n + 1):
        for c in itertools.combinations(range(1, n), k - 1):
            yield [0] + list(c) + [n]


def cases_pool(tier):
    n = 7 if tier == "quick" else 9
    for c in cuts(n):
        for form in ("list", "array", "dict", "tuple"):
            for dim in (0, 1, 2):
                yield {"cuts": c, "form": form, "dim": dim}


def check_pool(case):
    t = core.t2c()
    c = case["cuts"]
    n = c[-1]
    ext = {0: (), 1: (3,), 2: (2, 3)}[case["dim"]]
    data = core.field((n,) + ext, 3, lo=-4, hi=9)
    groups = [data[i:j] for i, j in zip(c[:-1], c[1:])]
    means = [g.mean(axis=0) for g in groups]
    var = [g.var(axis=0, ddof=1) if len(g) > 1 else np.zeros(ext) for g in groups]
    ns = [len(g) for g in groups]
    if case["form"] == "array":
        means, var, ns = np.array(means), np.array(var), np.array(ns)
    elif case["form"] == "dict":
        means, var, ns = ({k: v for k, v in enumerate(q)} for q in (means, var, ns))
    elif case["form"] == "tuple":
        means, var, ns = tuple(means), tuple(var), tuple(ns)
    m, v = call(t.combined_mean_variance, means, var, ns)
    near(m, data.mean(axis=0), "pooled-mean", str(case), rtol=1e-10, atol=1e-12)
    near(v, data.var(axis=0, ddof=1), "pooled-variance", str(case), rtol=1e-10, atol=1e-12)
    if len(groups) == n:
        m, v = call(t.combined_mean_variance, means, var)
        near(m, data.mean(axis=0), "pooled-mean-default", str(case), rtol=1e-10, atol=1e-12)
        near(v, data.var(axis=0, ddof=1), "pooled-variance-default", str(case), rtol=1e-10, atol=1e-12)
    return digest(c, case["dim"])


# ---------------------------------------------------------------- everyday sizes

def fmom(v):
    v = np.asarray(v, float).ravel()
    d = v - math.fsum(v) / v.size
    s2 = math.fsum(d ** 2) / (v.size - 1)
    return math.fsum(d ** 3) / v.size / s2 ** 1.5, math.fsum(d ** 4) / v.size / s2 ** 2


def cases_real(tier):
    for sh, dt in itertools.product([(40, 33, 28), (300, 11, 7), (5, 70, 260)], ("f8", "f4", "i4")):
        yield {"shape": sh, "dtype": dt}


def check_real(case):
    """boxes of everyday size"""
    t = core.t2c()
    sh = tuple(case["shape"])
    a = (core.field(sh, 2) ** 2 * 90 + 1).astype(case["dtype"])
    A = a.astype(float)
    sk, ku = fmom(A)
    near(call(t.skewness, a), sk, "skewness", str(case), rtol=1e-4)
    near(call(t.kurtosis, a), ku, "kurtosis", str(case), rtol=1e-4)
    for ax in (0, 1, 2, -1):
        M = A.mean(axis=tuple(i for i in range(3) if i != ax % 3), keepdims=True)
        near(call(t.subtract_mean_signal, a, ax), A - M, "subtract-mean", f"{case} {ax}", rtol=2e-5, atol=2e-4)
        near(call(t.signal_overdensity, a, ax), A / M - 1, "overdensity", f"{case} {ax}", rtol=2e-5, atol=2e-5)
        if ax >= 0:
            near(call(t.apply_func_along_los, a, np.mean, ax), M.ravel(), "along-los", f"{case} {ax}", rtol=2e-5)
            near(call(t.apply_func_along_los, A, t.skewness, ax), [fmom(np.take(A, i, axis=ax))[0] for i in range(sh[ax])], "along-los", f"{case} {ax}", rtol=1e-9)
    r = core.field(sh, 6, lo=0, hi=4)
    near(call(t.mass_weighted_mean_xi, A / 100, r), math.fsum((A / 100 * r).ravel()) / math.fsum(r.ravel()), "mass-weighted", str(case), rtol=1e-9)
    near(call(t.mass_weighted_mean_xi, (A / 100).astype("f4"), r.astype("f4")), math.fsum((A / 100 * r).ravel()) / math.fsum(r.ravel()), "mass-weighted", str(case), rtol=1e-4)
    # pooled over many groups of many sizes
    flat = A.ravel()
    cut = np.cumsum([1 + (7 * i) % 300 for i in range(120)])
    g = np.split(flat[:cut[-1]], cut[:-1])
    m, v = call(t.combined_mean_variance, [x.mean() for x in g], [x.var(ddof=1) if len(x) > 1 else 0. for x in g], [len(x) for x in g])
    near(m, flat[:cut[-1]].mean(), "pooled-mean", str(case), rtol=1e-10)
    near(v, flat[:cut[-1]].var(ddof=1), "pooled-variance", str(case), rtol=1e-10)
    return sk, ku


SUITES = [
    FnSuite("moments", cases_mom, check_mom, "all samples of 2-6 (thorough 7) values of 3 levels x shapes x 3 dtypes, against exact rational arithmetic; affine invariance"),
    FnSuite("slices", cases_slice, check_slice, "7 shapes x 6 axes x 4 dtypes x 8 statistics"),
    FnSuite("pooled-moments", cases_pool, check_pool, "all cuts of 7 (thorough 9) values x 4 containers x 3 dimensions"),
    FnSuite("realistic", cases_real, check_real, "3 boxes of 23000-91000 cells x 3 dtypes x 4 axes x 7 statistics; 120 pooled groups"),
]
