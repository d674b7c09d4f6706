"""Anisotropic spectra: (k, mu) binning, Legendre multipoles, anisotropy ratio."""
import itertools
import numpy as np
from mc import core, psref
from mc.core import FnSuite, call, eq, near, expect, digest

LEVEL = "model_checking"
ASSUMPTIONS = ["bins with a mode within 1e-9 of an interior edge are compared through totals only"]


def ps():
    return core.t2c().power_spectrum


SHS = [(3, 3, 3), (4, 4, 4), (2, 3, 4), (4, 3, 5), (5, 4, 3), (3, 6, 2)]
DIMS = {"scalar": 8.7, "list": [7.3, 11.9, 5.1], "array": None, "none": None, "kw": 3.3, "huge": [70000.3, 119000.7, 51000.1]}


def dims(kind):
    if kind == "none":
        return None, {}, [core.t2c().conv.LB] * 3
    if kind == "kw":
        return 3.3, {"boxsize": 6.1}, [6.1] * 3
    if kind == "scalar":
        return 8.7, {}, [8.7] * 3
    if kind == "array":
        return np.array([7.3, 11.9, 5.1]), {}, [7.3, 11.9, 5.1]
    return DIMS[kind], {}, DIMS[kind]


def mu_of(sh, L, ax, absolute):
    v = psref.modes(sh, L)
    k = np.sqrt((v ** 2).sum(axis=1))
    with np.errstate(all="ignore"):
        mu = v[:, ax] / k
    return k, (np.abs(mu) if absolute else mu), np.all(np.delete(v, ax, axis=1) == 0, axis=1)


def ref_mu(pw, sh, L, ax, E, M, absolute, excl, w=None):
    k, mu, par = mu_of(sh, L, ax, absolute)
    ik = psref.member(k, E)
    im = np.full(len(k), -1)
    ok = k > 0
    im[ok] = psref.member(mu[ok], M)
    if excl:
        ok = ok & ~par
    out = np.full((len(M) - 1, len(E) - 1), np.nan)
    cnt = np.zeros_like(out)
    for i in range(len(M) - 1):
        for j in range(len(E) - 1):
            s = ok & (ik == j) & (im == i)
            cnt[i, j] = s.sum()
            if s.any():
                out[i, j] = pw[s].mean() if w is None else (pw[s] * w[s]).sum() / w[s].sum()
    fin = np.isfinite(mu)
    amb = psref.ambiguous(k, E) or any(np.any(np.abs(mu[fin] - e) < 1e-9) for e in M[1:-1] if e != 0)
    return out, cnt, amb


def cases_mu(tier):
    for sh in SHS + ([(6, 6, 6), (7, 4, 5)] if tier == "thorough" else []):
        for ax in (0, 1, 2):
            for d in ("scalar", "list", "array", "none", "kw", "huge"):
                for mub, kb in ((1, 2), (2, 3), (3, 1), (4, 2), ("arr", 2), (2, "arr")):
                    for ab in (True, False):
                        for ex in (True, False):
                            yield {"sh": list(sh), "ax": ax, "dims": d, "mub": mub, "kb": kb, "abs": ab, "excl": ex}


def check_mu(case):
    P = ps()
    sh = tuple(case["sh"])
    ax = case["ax"]
    arg, kw, L = dims(case["dims"])
    x, y = core.field(sh, 1, lo=-1, hi=1.5), core.field(sh, 5, lo=-2, hi=1)
    k = psref.kmag(sh, L)
    kbarg = case["kb"]
    if kbarg == "arr":
        kbarg = np.array([0.61, 0.9317, 1.0531]) * np.median(k)
    E = psref.edges(kbarg, sh, L, "log")
    if not np.all(np.diff(E) > 0):
        return None
    lo = 0. if case["abs"] else -1.
    mub = case["mub"]
    mubarg = np.array([lo + 0.1713, 0.5317, 0.8739]) if mub == "arr" else mub
    M = mubarg if mub == "arr" else lo + (1 - lo) * np.arange(mub + 1) / mub
    kws = dict(los_axis=ax, mubins=mubarg, kbins=kbarg, box_dims=arg, exclude_zero_modes=case["excl"], absolute_mus=case["abs"], **kw)
    obs = []
    pw, cw = psref.power(x, L), psref.power(x, L, y)
    for nm, f, a, q in (("auto", P.power_spectrum_mu, (x,), pw), ("cross", P.cross_power_spectrum_mu, (x, y), cw)):
        got, mm, kk, n = call(f, *a, return_n_modes=True, **kws)
        near(mm, (M[1:] + M[:-1]) / 2, "mu-centres", f"{nm} {case}", rtol=1e-9, atol=1e-12)
        near(kk, (E[1:] + E[:-1]) / 2, "k-centres", f"{nm} {case}", rtol=1e-9)
        want, cnt, amb = ref_mu(q.ravel(), sh, L, ax, E, M, case["abs"], case["excl"])
        if amb:
            if not case["excl"] and mub != "arr":
                expect(np.sum(n) == cnt.sum(), "mu-modes-total", f"{nm} {case}: {np.sum(n)} modes counted, expected {cnt.sum()}")
        else:
            eq(n, cnt, "mu-mode-count", f"{nm} modes per (mu,k) bin {case}")
            near(got, want, "mu-power", f"{nm} power per (mu,k) bin {case}", rtol=1e-8, scale=1e-11)
        g3 = call(f, *a, **kws)
        expect(len(g3) == 3, "arity", f"{nm}: {len(g3)} values without return_n_modes")
        near(g3[0], got, "n-modes-flag", f"{nm} {case}", rtol=1e-12)
        obs.append(digest(cnt))
    # weights
    w = core.field(sh, 3, lo=0.2, hi=2.)
    gw, _, _, nw = call(P.power_spectrum_mu, x, weights=w, return_n_modes=True, **kws)
    want, cnt, amb = ref_mu(pw.ravel(), sh, L, ax, E, M, case["abs"], case["excl"], w.ravel())
    if not amb:
        near(gw, want, "mu-weights", f"weighted power {case}", rtol=1e-8, scale=1e-11)
    b = call(P.mu_binning, pw, los_axis=ax, mubins=mubarg, kbins=kbarg, box_dims=L, exclude_zero_modes=case["excl"], absolute_mus=case["abs"])
    near(b[0], call(P.power_spectrum_mu, x, **kws)[0], "mu-binning", f"mu_binning of the n-d spectrum {case}", rtol=1e-8, scale=1e-11)
    return tuple(obs)


def cases_r(tier):
    for sh in SHS:
        for ax in (0, 1, 2):
            for cut in (0.5, 0.3, 0.71, 0.375, 0.625):
                for mub, kb in ((4, 2), (10, 3)):
                    for ex in (True, False):
                        yield {"sh": list(sh), "ax": ax, "cut": cut, "mub": mub, "kb": kb, "excl": ex}


def check_r(case):
    P = ps()
    sh, ax, L = tuple(case["sh"]), case["ax"], [7.3, 11.9, 5.1]
    x = core.field(sh, 1, lo=-1, hi=1.5)
    E = psref.edges(case["kb"], sh, L, "log")
    if not np.all(np.diff(E) > 0):
        return None
    M = np.arange(case["mub"] + 1) / case["mub"]
    want, cnt, amb = ref_mu(psref.power(x, L).ravel(), sh, L, ax, E, M, True, case["excl"])
    kws = dict(los_axis=ax, mu_cut=case["cut"], mubins=case["mub"], kbins=case["kb"], box_dims=L, exclude_zero_modes=case["excl"])
    r, kk = call(P.anisotropy_ratio_r_mu, x, **kws)
    r3 = call(P.anisotropy_ratio_r_mu, x, return_n_modes=True, **kws)
    near(kk, (E[1:] + E[:-1]) / 2, "r-k", f"{case}", rtol=1e-9)
    near(r3[0], r, "n-modes-flag", f"{case}", rtol=1e-12)
    if amb:
        return digest(kk)
    mid = (M[1:] + M[:-1]) / 2
    w = []
    for j in range(len(kk)):
        up = [v for v, m in zip(want[:, j], mid) if m >= case["cut"] and np.isfinite(v)]
        dn = [v for v, m in zip(want[:, j], mid) if m < case["cut"] and np.isfinite(v)]
        w.append(np.mean(up) / np.mean(dn) - 1 if up and dn else np.nan)
    near(r, np.array(w), "r-mu", f"anisotropy ratio {case}", rtol=1e-8)
    eq(np.asarray(r3[2]).reshape(-1, len(kk)).sum(axis=0), cnt.sum(axis=0), "r-modes", f"number of modes {case}")
    return digest(np.array(w))


def cases_l(tier):
    outs = [["P0"], ["P2"], ["P4"], ["P0", "P2", "P4", "nmodes"], ["P2", "nmodes"], ["P0", "P4"]]
    for sh in SHS + ([(6, 6, 6), (7, 4, 5)] if tier == "thorough" else []):
        for ax in (0, 1, 2):
            for d in ("scalar", "list", "none", "huge"):
                for kb in (1, 3, "arr"):
                    for ex in (True, False):
                        for o in range(len(outs)) if d == "list" else (3,):
                            yield {"sh": list(sh), "ax": ax, "dims": d, "kb": kb, "excl": ex, "out": outs[o]}


def check_l(case):
    t = core.t2c()
    sh, ax = tuple(case["sh"]), case["ax"]
    arg, kw, L = dims(case["dims"])
    x = core.field(sh, 1, lo=-1, hi=1.5)
    k, mu, par = mu_of(sh, L, ax, True)
    kb = case["kb"]
    if kb == "arr":
        kb = np.array([0.61, 0.9317, 1.0531]) * np.median(k)
    E = psref.edges(kb, sh, L, "log")
    if not np.all(np.diff(E) > 0):
        return None
    res, kk = call(t.power_spectrum_multipoles, x, kbins=kb, box_dims=arg, los_axis=ax, output=case["out"], exclude_zero_modes=case["excl"])
    near(kk, (E[1:] + E[:-1]) / 2, "ml-k", f"{case}", rtol=1e-9)
    pol = {"P0": np.ones_like(mu), "P2": (3 * mu ** 2 - 1) / 2, "P4": (35 * mu ** 4 - 30 * mu ** 2 + 3) / 8}
    pw = psref.power(x, L).ravel()
    idx = psref.member(k, E)
    idx[k == 0] = -1
    if case["excl"]:
        idx[par] = -1
    if psref.ambiguous(k, E):
        return digest(kk)
    n = np.array([np.sum(idx == j) for j in range(len(kk))], dtype=float)
    for nm in ("P0", "P2", "P4"):
        if nm in case["out"]:
            with np.errstate(all="ignore"):
                num = np.array([np.sum(pw[idx == j] * pol[nm][idx == j]) for j in range(len(kk))])
                den = np.array([np.sum(pol[nm][idx == j] ** 2) for j in range(len(kk))])
                want = num / den
            bad = den < 1e-4   # all modes sit on the zeros of the polynomial: 0/0 up to the rounding of its coefficients
            g = np.array(res[nm], dtype=float)
            g[bad] = want[bad] = 0
            near(g, want, "multipole", f"{nm} {case}", rtol=2e-3, scale=1e-4)
        else:
            expect(nm not in res, "extra-output", f"{nm} returned but not asked for: {case}")
    if "nmodes" in case["out"]:
        eq(np.asarray(res["nmodes"], dtype=float), n, "ml-modes", f"number of modes {case}")
    return digest(n)


# boxes of everyday size
def cases_real(tier):
    for sh in [(24, 20, 22), (15, 33, 16), (7, 9, 70)] + ([(40, 40, 40)] if tier == "thorough" else []):
        for ax in (0, 1, 2):
            for d in ("list", "scalar", "none"):
                for ab in (True, False):
                    for ex in (True, False):
                        yield {"f": "mu", "sh": list(sh), "ax": ax, "dims": d, "mub": 8, "kb": 6, "abs": ab, "excl": ex}
                    yield {"f": "l", "sh": list(sh), "ax": ax, "dims": d, "kb": 9, "excl": ab, "out": ["P0", "P2", "P4", "nmodes"]}
            yield {"f": "r", "sh": list(sh), "ax": ax, "cut": 0.4, "mub": 12, "kb": 7, "excl": True}


def check_real(case):
    return {"mu": check_mu, "l": check_l, "r": check_r}[case["f"]]({k: v for k, v in case.items() if k != "f"})


SUITES = [
    FnSuite("mu", cases_mu, check_mu, "shapes x line of sight x box x bins x absolute_mus x exclude_zero_modes, auto and cross, weighted and not"),
    FnSuite("ratio", cases_r, check_r, "shapes x line of sight x cut x bins x exclude_zero_modes"),
    FnSuite("multipoles", cases_l, check_l, "shapes x line of sight x box x bins x outputs x exclude_zero_modes"),
    FnSuite("realistic", cases_real, check_real, "boxes of up to 10560 (thorough 64000) cells: all of the above", chunk=1),
]
