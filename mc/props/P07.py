"""Power spectra: volume normalisation, mode bookkeeping, windows, 1D and cylindrical binning."""
import itertools
import numpy as np
from mc import core, psref
from mc.core import FnSuite, call, eq, near, expect, digest

LEVEL = "model_checking"
ASSUMPTIONS = ["grids small enough for explicit DFT sums", "box sizes for which no mode falls on an interior bin edge by rounding are compared bin by bin; the others by totals"]


def ps():
    return core.t2c().power_spectrum


def fld(shape, kind, salt=0):
    n = int(np.prod(shape))
    if kind == "generic":
        return core.field(shape, salt, lo=-1, hi=1.5)
    if kind == "int":
        return (core.field(shape, salt) * 9).astype(np.int64) - 3
    if kind == "f32":
        return core.field(shape, salt, lo=-1, hi=1.5).astype(np.float32)
    if kind == "const":
        return np.full(shape, 2.5)
    if kind == "fortran":
        return np.asfortranarray(core.field(shape, salt, lo=-1, hi=1.5))
    if kind == "bool":
        return core.field(shape, salt) > 0.5
    bits = int(kind[1:])
    return np.array([(bits >> i) & 1 for i in range(n)], dtype=float).reshape(shape)


DIMS = ["none", "scalar", "int", "list", "tuple", "array", "kw", "np"]


def dims(kind, nd):
    """-> (argument, kwargs, per-axis lengths)"""
    L = [7.3, 11.9, 5.1][:nd]
    if kind == "none":
        lb = core.t2c().conv.LB
        return None, {}, [lb] * nd
    if kind == "scalar":
        return 8.7, {}, [8.7] * nd
    if kind == "int":
        return 9, {}, [9] * nd
    if kind == "np":
        return np.float64(8.7), {}, [8.7] * nd
    if kind == "kw":
        return 3.3, {"boxsize": 6.1}, [6.1] * nd
    if kind == "kwl":
        return None, {"boxsize": L}, L
    if kind == "list":
        return L, {}, L
    if kind == "tuple":
        return tuple(L), {}, L
    return np.array(L), {}, L


SH = {1: [(n,) for n in range(1, 8)], 2: [(a, b) for a in range(1, 5) for b in range(1, 6)],
      3: [(2, 2, 2), (3, 3, 3), (4, 4, 4), (2, 3, 4), (4, 3, 2), (3, 4, 5), (1, 4, 3), (5, 2, 1), (6, 3, 4), (5, 5, 4)]}


def cases_nd(tier):
    for nd in (1, 2, 3):
        for sh in SH[nd]:
            for d in DIMS + ["kwl"]:
                yield {"sh": list(sh), "dims": d, "kind": "generic"}
            for k in ("int", "f32", "const", "fortran", "bool"):
                yield {"sh": list(sh), "dims": "list", "kind": k}
    for sh in ((2, 2, 2), (3, 2), (5,), (2, 1, 3)):
        for b in range(1 << int(np.prod(sh))):
            yield {"sh": list(sh), "dims": "list", "kind": f"b{b}"}
    if tier == "thorough":
        for sh in ((3, 2, 2), (3, 4), (12,)):
            for b in range(1 << int(np.prod(sh))):
                yield {"sh": list(sh), "dims": "list", "kind": f"b{b}"}


def check_nd(case):
    P = ps()
    sh = tuple(case["sh"])
    arg, kw, L = dims(case["dims"], len(sh))
    x = fld(sh, case["kind"])
    y = core.field(sh, 5, lo=-2, hi=1)
    want = psref.power(x, L)
    got = call(P.power_spectrum_nd, x, arg, **kw)
    near(got, want, "nd-value", f"power_spectrum_nd {case}", rtol=1e-5 if case["kind"] == "f32" else 1e-9, scale=1e-6 if case["kind"] == "f32" else 1e-12)
    # Parseval: the sum over modes is N^2 times pixel volume ... mean square times volume
    near(np.sum(got), np.mean(np.asarray(x, dtype=float) ** 2) * np.prod(L), "parseval", f"sum over modes {case}", rtol=1e-5)
    near(call(P.cross_power_spectrum_nd, x, x, arg, **kw), want, "cross-self", f"cross with itself {case}", rtol=1e-5, scale=1e-6)
    c = call(P.cross_power_spectrum_nd, x, y, arg, **kw)
    near(c, psref.power(x, L, y), "cross-value", f"cross_power_spectrum_nd {case}", rtol=1e-5, scale=1e-6)
    near(call(P.cross_power_spectrum_nd, y, x, arg, **kw), c, "cross-symmetry", f"swapped arguments {case}", rtol=1e-9, scale=1e-12)
    kc, k = call(P.get_k, x, arg if not kw else L)
    v = psref.modes(sh, L)
    near(np.array([np.broadcast_to(q, sh).ravel() for q in kc]).T, v, "k-components", f"get_k components {case}", rtol=1e-12, atol=1e-14)
    near(np.ravel(k), psref.kmag(sh, L), "k-magnitude", f"get_k magnitudes {case}", rtol=1e-12, atol=1e-14)
    return digest(want, v)


# ---------------------------------------------------------------- spherical average
def cases_1d(tier):
    for nd in (1, 2, 3):
        shs = SH[nd] if nd < 3 else SH[3] + [(8, 8, 8), (7, 6, 5)]
        for sh in shs:
            if max(sh) < 2:
                continue
            for d in ("scalar", "list", "array", "none", "kw"):
                for b in ("log", "linear", "mixed"):
                    for kb in (1, 2, 3, 5):
                        yield {"sh": list(sh), "dims": d, "kb": kb, "b": b}
            for kb in ("arr", "list"):
                yield {"sh": list(sh), "dims": "list", "kb": kb, "b": "log"}
    for L in range(10, 130 if tier == "quick" else 600):
        yield {"sh": [4, 4, 4], "dims": L, "kb": 4, "b": "log"}


def check_1d(case):
    P = ps()
    sh = tuple(case["sh"])
    if isinstance(case["dims"], int):
        arg, kw, L = float(case["dims"]), {}, [float(case["dims"])] * 3
    else:
        arg, kw, L = dims(case["dims"], len(sh))
    x, y = fld(sh, "generic"), core.field(sh, 5, lo=-2, hi=1)
    k = psref.kmag(sh, L)
    kb = case["kb"]
    lo, hi = 2 * np.pi / max(L), k.max()
    ex = np.array([0.6 * lo, 1.3171 * lo, 1.9173 * lo, 0.93121 * hi])
    ex = np.sort(ex)
    kbarg = {"arr": ex, "list": ex.tolist()}.get(kb, kb)
    bp = 0.37 * hi
    E = psref.edges(ex if isinstance(kb, str) else kb, sh, L, case["b"], bp)
    if len(E) < 2 or 2 * np.pi / min(L) >= hi * (1 - 1e-9):
        return None
    kws = dict(binning=case["b"], breakpoint=bp, **kw)
    mid = (E[1:] + E[:-1]) / 2
    amb = psref.ambiguous(k, E)
    for nm, f, a, pw in (("auto", P.power_spectrum_1d, (x,), psref.power(x, L)), ("cross", P.cross_power_spectrum_1d, (x, y), psref.power(x, L, y))):
        got, kk, n = call(f, *a, kbins=kbarg, box_dims=arg, return_n_modes=True, **kws)
        near(kk, mid, "bin-centres", f"{nm} bin centres {case}", rtol=1e-9)
        idx = psref.member(k, E)
        m, c = psref.mean_in(pw.ravel(), idx, len(mid))
        if amb:
            expect(np.sum(n) == (idx >= 0).sum(), "modes-total", f"{nm} {case}: {np.sum(n)} modes counted, {(idx >= 0).sum()} expected")
        else:
            eq(np.asarray(n), c, "mode-count", f"{nm} modes per bin {case}")
            near(got, m, "bin-power", f"{nm} mean power per bin {case}", rtol=1e-8, scale=1e-11)
        g2 = call(f, *a, kbins=kbarg, box_dims=arg, **kws)
        expect(len(g2) == 2, "arity", f"{nm} returns {len(g2)} values without return_n_modes")
        near(g2[0], got, "n-modes-flag", f"{nm} with and without mode counts {case}", rtol=1e-12)
    if not kw:
        g3 = call(P.radial_average, psref.power(x, L), arg, kbins=kbarg, binning=case["b"], breakpoint=bp)
        if not amb:
            near(g3[0], psref.mean_in(psref.power(x, L).ravel(), psref.member(k, E), len(mid))[0], "radial-average", f"radial_average {case}", rtol=1e-8, scale=1e-11)
        if case["b"] != "mixed":
            near(call(P.get_kbins, kbarg, arg, array=x, binning=case["b"]), E, "get-kbins", f"get_kbins {case}", rtol=1e-9)
            near(call(P.get_kbins, kbarg, arg, k=k.reshape(sh), binning=case["b"]), E, "get-kbins", f"get_kbins(k=) {case}", rtol=1e-9)
    return digest(E, c, m)


# ---------------------------------------------------------------- windows
def cases_win(tier):
    for sh in ((3, 4, 5), (4, 4, 4), (2, 3, 6)):
        for w in ("none", "blackmanharris", "tukey", "BlackmanHarris", "Tukey", "array3", "array1"):
            for f in ("apply", "1d", "2d", "1dint"):
                yield {"sh": list(sh), "w": w, "f": f}


def check_win(case):
    P = ps()
    sh = tuple(case["sh"])
    x = fld(sh, "int" if case["f"] == "1dint" else "generic")
    n = sh[2]
    i = np.arange(n)
    w = case["w"].lower()
    if w == "none":
        arg, W = None, 1.
    elif w == "blackmanharris":
        arg = case["w"]
        t = 2 * np.pi * i / (n - 1)
        W = 0.35875 - 0.48829 * np.cos(t) + 0.14128 * np.cos(2 * t) - 0.01168 * np.cos(3 * t)
    elif w == "tukey":
        arg = case["w"]
        W = np.ones(n)
        edge = 0.5 * (n - 1) / 2
        for q in i:
            d = min(q, n - 1 - q)
            if d < edge:
                W[q] = 0.5 * (1 + np.cos(np.pi * (d / edge - 1)))
    elif w == "array3":
        arg = W = core.field(sh, 9)
    else:
        arg = W = core.field((n,), 9)
    xw = x * W
    L = [7.3, 11.9, 5.1]
    if case["f"] == "apply":
        near(call(P.apply_window, x, arg), xw, "window", f"apply_window {case}", rtol=1e-9, atol=1e-12)
        return digest(xw)
    if case["f"] in ("1d", "1dint"):
        a = call(P.power_spectrum_1d, x, kbins=3, box_dims=L, window=arg)
        b = call(P.power_spectrum_1d, xw, kbins=3, box_dims=L)
    else:
        a = call(P.power_spectrum_2d, x, kbins=3, box_dims=L, window=arg)
        b = call(P.power_spectrum_2d, xw, kbins=3, box_dims=L)
    near(a[0], b[0], "window", f"windowed spectrum {case}", rtol=1e-9, scale=1e-12)
    return digest(a[0])


# ---------------------------------------------------------------- cylindrical
def cases_2d(tier):
    shs = [(3, 3, 3), (4, 4, 4), (2, 3, 4), (4, 3, 2), (3, 4, 5), (5, 4, 6)] + ([(8, 8, 8), (6, 5, 7)] if tier == "thorough" else [])
    for sh in shs:
        for ax in (0, 1, 2):
            for d in ("scalar", "list", "array", "none", "kw"):
                for kb in (2, 3, [2, 3], [4, 1], (3, 2), "edges", "arr-edges"):
                    for b in ("log", "linear"):
                        yield {"sh": list(sh), "ax": ax, "dims": d, "kb": kb, "b": b}


def check_2d(case):
    P = ps()
    sh = tuple(case["sh"])
    arg, kw, L = dims(case["dims"], 3)
    x = fld(sh, "generic")
    v = psref.modes(sh, L)
    ax = case["ax"]
    kz = np.abs(v[:, ax])
    kp = np.sqrt(sum(v[:, i] ** 2 for i in range(3) if i != ax))
    kb = case["kb"]
    if kb in ("edges", "arr-edges"):
        e1 = np.array([0., 0.71, 1.307, 0.9713 * kp.max()])
        e2 = np.array([0., 0.533, 0.9711 * kz.max()])
        if not np.all(np.diff(e1) > 0) or not np.all(np.diff(e2) > 0):
            return None
        kbarg = [e1, e2] if kb == "edges" else [e1.tolist(), e2.tolist()]
        c1, c2 = (e1[1:] + e1[:-1]) / 2, (e2[1:] + e2[:-1]) / 2
    else:
        kbarg = kb
        n1, n2 = (kb, kb) if isinstance(kb, int) else kb
        es = []
        for q, n in ((kp, n1), (kz, n2)):
            lo, hi = q[q > 1e-12].min(), q.max()
            f = np.arange(n + 1) / n
            e = lo * (hi / lo) ** f if case["b"] == "log" else lo + (hi - lo) * f
            e[0], e[-1] = lo, hi
            es.append(e)
        e1, e2 = es
        if e1[0] == e1[-1] or e2[0] == e2[-1]:
            return None   # a single non-zero mode length along one direction: no range to bin
        mid = (lambda e: np.sqrt(e[1:] * e[:-1])) if case["b"] == "log" else (lambda e: (e[1:] + e[:-1]) / 2)
        c1, c2 = mid(e1), mid(e2)
    out = call(P.power_spectrum_2d, x, kbins=kbarg, binning=case["b"], box_dims=arg, return_modes=True, nu_axis=ax, **kw)
    pk, k1, k2, n = out
    near(k1, c1, "kper-centres", f"{case}", rtol=1e-9)
    near(k2, c2, "kpar-centres", f"{case}", rtol=1e-9)
    i1, i2 = psref.member(kp, e1), psref.member(kz, e2)
    pw = psref.power(x, L).ravel()
    want = np.full((len(c1), len(c2)), np.nan)
    cnt = np.zeros((len(c1), len(c2)))
    for i in range(len(c1)):
        for j in range(len(c2)):
            s = (i1 == i) & (i2 == j)
            cnt[i, j] = s.sum()
            if s.any():
                want[i, j] = pw[s].mean()
    if psref.ambiguous(kp, e1) or psref.ambiguous(kz, e2):
        expect(np.sum(n) == cnt.sum(), "2d-modes-total", f"{case}: {np.sum(n)} modes, expected {cnt.sum()}")
    else:
        eq(np.asarray(n), cnt, "2d-mode-count", f"modes per bin {case}")
        near(pk, want, "2d-power", f"mean power per bin {case}", rtol=1e-8, scale=1e-11)
    o2 = call(P.power_spectrum_2d, x, kbins=kbarg, binning=case["b"], box_dims=arg, nu_axis=ax, **kw)
    expect(len(o2) == 3, "arity", f"{case}: {len(o2)} values without return_modes")
    near(o2[0], pk, "n-modes-flag", f"{case}", rtol=1e-12)
    return digest(cnt, want)


# ---------------------------------------------------------------- dimensionless
def cases_dl(tier):
    for sh in ((6, 6, 6), (8, 8, 8), (6, 5, 4), (9, 9, 9)):
        for b in ("log", "linear"):
            for kb, fac in ((2, 1), (3, 1), (2, 2), (4, 1), (3, 2)):
                for L in (20., 31.7, [20., 31.7, 12.9]):
                    yield {"sh": list(sh), "b": b, "kb": kb, "fac": fac, "L": L}
    for L in range(10, 60 if tier == "quick" else 300):
        yield {"sh": [6, 6, 6], "b": "log", "kb": 3, "fac": 1, "L": L}


def check_dl(case):
    P = ps()
    sh = tuple(case["sh"])
    L = case["L"] if isinstance(case["L"], list) else [case["L"]] * 3
    x = fld(sh, "generic")
    k = psref.kmag(sh, L)
    E = psref.edges(case["kb"] * case["fac"], sh, L, case["b"])
    mid = (E[1:] + E[:-1]) / 2
    m, c = psref.mean_in(psref.power(x, L).ravel(), psref.member(k, E), len(mid))
    d = m * mid ** 3 / 2 / np.pi ** 2
    got, kn = call(P.dimensionless_ps, x, kbins=case["kb"], box_dims=case["L"], binning=case["b"], factor=case["fac"])
    f = np.arange(case["kb"]) / max(case["kb"] - 1, 1)
    want_k = mid[1] * (mid[-1] / mid[1]) ** f if case["b"] == "log" else mid[1] + (mid[-1] - mid[1]) * f
    near(kn, want_k, "dl-k", f"dimensionless_ps k {case}", rtol=1e-9)
    if psref.ambiguous(k, E):
        return digest(want_k)
    for i, q in enumerate(want_k):
        j = min(max(int(np.searchsorted(mid, q * (1 - 1e-12))), 1), len(mid) - 1)
        if abs(q / mid[j] - 1) < 1e-9:
            w = d[j]
        else:
            w = d[j - 1] + (d[j] - d[j - 1]) * (q - mid[j - 1]) / (mid[j] - mid[j - 1])
        if np.all(np.isfinite(d[max(j - 1, 0):j + 2])):
            near(got[i], w, "dl-value", f"dimensionless_ps at k={q} {case}", rtol=1e-7)
    return digest(want_k, d)


# ---------------------------------------------------------------- boxes of everyday size
def cases_real(tier):
    for sh in [(40, 33, 28), (24, 24, 24), (9, 130, 20), (60, 50), (500,)] + ([(64, 64, 64), (80, 70, 60)] if tier == "thorough" else []):
        for d in ("list", "scalar", "none", "kw"):
            yield {"f": "nd", "sh": list(sh), "dims": d, "kind": "generic"}
            for b in ("log", "linear", "mixed"):
                for kb in (6, 20, "arr"):
                    if b == "log" or kb != "arr":
                        yield {"f": "1d", "sh": list(sh), "dims": d, "kb": kb, "b": b}
            if len(sh) == 3:
                for ax in (0, 1, 2):
                    for kb, b in ((5, "log"), ([4, 7], "linear"), ("edges", "log")):
                        yield {"f": "2d", "sh": list(sh), "ax": ax, "dims": d, "kb": kb, "b": b}
        for k in ("int", "f32", "fortran"):
            yield {"f": "nd", "sh": list(sh), "dims": "list", "kind": k}
        if len(sh) == 3:
            for w in ("blackmanharris", "tukey", "array3"):
                yield {"f": "win", "sh": list(sh), "w": w}
            yield {"f": "dl", "sh": list(sh), "b": "log", "kb": 10, "fac": 2, "L": [120.3, 97.1, 88.9]}
            yield {"f": "dl", "sh": list(sh), "b": "linear", "kb": 5, "fac": 10, "L": 97.1}


def check_real(case):
    c = {k: v for k, v in case.items() if k != "f"}
    if case["f"] == "win":
        return [check_win(dict(c, f=f)) for f in ("apply", "1d", "2d")]
    return {"nd": check_nd, "1d": check_1d, "2d": check_2d, "dl": check_dl}[case["f"]](c)


SUITES = [
    FnSuite("nd", cases_nd, check_nd, "37 shapes in 1D-3D x 9 ways to give the box x 6 field kinds; all binary fields of 4 shapes"),
    FnSuite("average1d", cases_1d, check_1d, "shapes x box x bins x binning; every integer box length in a range"),
    FnSuite("windows", cases_win, check_win, "3 shapes x 7 windows x 4 uses"),
    FnSuite("cylindrical", cases_2d, check_2d, "shapes x line-of-sight axis x box x bins x binning"),
    FnSuite("dimensionless", cases_dl, check_dl, "shapes x binning x bins x factor x box"),
    FnSuite("realistic", cases_real, check_real, "boxes of up to 37000 (thorough 336000) cells, long and odd sides: all of the above", chunk=1),
]
