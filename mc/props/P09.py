"""Three-point statistics: bispectrum by closed triangles, integrated bispectrum / response by sub-volumes."""
import itertools
import numpy as np
from mc import core, psref
from mc.core import FnSuite, call, eq, near, expect, digest

LEVEL = "model_checking"
ASSUMPTIONS = ["triangles are closed modulo the grid, as in every FFT estimator", "shells without any closed triangle are not compared (0/0)"]


def tri_sum(F, sel, sh):
    """sum over closed triangles of F[q1]F[q2]F[q3] and their number; sel: three boolean shells (centred order)"""
    c = np.array([n // 2 for n in sh])
    pos = [np.argwhere(s) - c for s in sel]
    n = np.array(sh)
    tot, cnt = 0j, 0
    third = sel[2]
    for a in pos[0]:
        fa = F[tuple(a + c)]
        q = -(a + pos[1])
        q = (q + c) % n          # index in centred order, closed modulo the grid
        ok = third[tuple(q.T)]
        qq = q[ok]
        tot += fa * np.sum(F[tuple((pos[1][ok] + c).T)] * F[tuple(qq.T)])
        cnt += ok.sum()
    return tot, cnt


def ref_b(x, L, ks, dks):
    sh = x.shape
    F = psref.dft(x)
    k = psref.kmag(sh, L).reshape(sh)
    amb = any(np.any(np.abs(np.abs(k - q) - d / 2) < 1e-9) for q, d in zip(ks, dks))
    sel = [np.abs(k - q) < d / 2 for q, d in zip(ks, dks)]
    t, c = tri_sum(F, sel, sh)
    if c == 0 or amb:
        return None
    return t.real / c * np.prod(L) ** 2 / x.size ** 3


SH = [(3, 3, 3), (4, 4, 4), (5, 5, 5), (3, 4, 5), (4, 3, 2)]
LS = {"scalar": (13.3, [13.3] * 3), "list": ([11.3, 12.9, 14.1], [11.3, 12.9, 14.1]), "none": (None, None), "array": (np.array([11.3, 12.9, 14.1]), [11.3, 12.9, 14.1])}


def cases_b(tier):
    for sh in SH + ([(6, 6, 6), (7, 5, 6)] if tier == "thorough" else []):
        for d in LS:
            for how in ("object", "method"):
                for w in (None, "arr", "tukey"):
                    for fn in ("k", "k1k2", "k1k1"):
                        for b in ("linear", "log"):
                            for dk in (0.2, 0.43):
                                yield {"sh": list(sh), "L": d, "how": how, "w": w, "fn": fn, "b": b, "dk": dk}


def check_b(case):
    B = core.t2c().bispectrum
    sh = tuple(case["sh"])
    arg, L = LS[case["L"]]
    if L is None:
        L = [core.t2c().conv.LB] * 3
    x = core.field(sh, 2, lo=-1, hi=1.3)
    win = core.field(sh, 7) if case["w"] == "arr" else case["w"]
    xw = x if win is None else core.t2c().power_spectrum.apply_window(x, win)
    scale = 13.3 / L[0] if case["L"] == "none" else 1.
    dk = case["dk"] * scale
    if case["how"] == "object":
        ob, kw = call(B.Bispectrum, x, box_dims=arg, verbose=False), {}
    else:
        ob, kw = call(B.Bispectrum, x, box_dims=1.7, verbose=False), {"box_dims": arg}
        if arg is None:
            return None
    kfun = 2 * np.pi / min(L)
    seen = []
    kmax = psref.kmag(sh, L).max()
    if case["fn"] == "k":
        nb = 4
        E = psref.edges(nb, sh, L, case["b"])
        hi = kmax / 2
        f = np.arange(nb + 1) / nb
        E = kfun * (hi / kfun) ** f if case["b"] == "log" else kfun + (hi - kfun) * f
        out = call(ob.bispectrum_k, dk=dk, n_bins=nb, binning=case["b"], verbose=False, window=win, **kw)
        kc = (E[1:] + E[:-1]) / 2
        near(out["k"], kc, "bk-k", f"bispectrum_k wave numbers {case}", rtol=1e-9)
        trip = [(q, q, q) for q in kc]
    else:
        k1, k2 = 1.07 * kfun, (1.07 if case["fn"] == "k1k1" else 1.61) * kfun
        nb = 5
        al = np.pi * np.arange(nb) / (nb - 1) if case["b"] == "linear" else 10 ** (-2 + (np.log10(np.pi) + 2) * np.arange(nb) / (nb - 1))
        out = call(ob.bispectrum_k1k2, k1, k2, dk=dk, n_bins=nb, binning=case["b"], verbose=False, window=win, **kw)
        k3 = np.sqrt(np.maximum((k1 + k2 * np.cos(al)) ** 2 + (k2 * np.sin(al)) ** 2, 0))
        near(out["alpha"], al, "alpha", f"{case}", rtol=1e-9, atol=1e-12)
        near(out["theta"], np.pi - al, "theta", f"{case}", rtol=1e-9, atol=1e-12)
        near(out["k3"], k3, "k3", f"{case}", rtol=1e-6, atol=1e-7 * k1)
        expect(out["k1"] == k1 and out["k2"] == k2, "k1k2", f"{case}: {out['k1']}, {out['k2']}")
        trip = [(k1, k2, q) for q in k3]
    expect(len(out["B"]) == len(trip), "b-size", f"{case}: {len(out['B'])} values for {len(trip)} triangles")
    for g, t in zip(out["B"], trip):
        w = ref_b(xw, L, t, (dk,) * 3)
        if w is not None:
            near(float(g), w, "b-value", f"bispectrum of shells {t} {case}", rtol=1e-6, atol=1e-9 * np.prod(L) ** 2)
            seen.append("%.5g" % w)
    # shell mask from components or magnitudes
    v = psref.modes(sh, L)
    k = psref.kmag(sh, L).reshape(sh)
    q, wd = 1.2 * kfun, 0.9 * kfun
    m = (np.abs(k - q) < wd / 2).astype(float)
    if not np.any(np.abs(np.abs(k - q) - wd / 2) < 1e-9 * kfun):
        eq(call(ob.spherical_shell_mask, sh, q, wd, k_mag=k), m, "shell", f"shell mask {case}")
        eq(call(ob.spherical_shell_mask, sh, q, wd, k_comp=[v[:, i].reshape(sh) for i in range(3)]), m, "shell", f"shell mask from components {case}")
    return tuple(seen) or None


# ---------------------------------------------------------------- position dependent
def cases_i(tier):
    for sh, nc in (((4, 4, 4), 2), ((6, 6, 6), 3), ((6, 6, 6), 2), ((4, 6, 8), 2), ((3, 3, 3), 1), ((4, 4, 4), 4), ((3, 6, 9), 3), ((6, 7, 8), 1), ((12, 14, 2), 2)):
        for b in ("log", "linear"):
            for kb in (1, 3):
                for fn in ("response", "response2", "auto", "auto-n", "cross", "cross-n"):
                    for verbose in (True, False):
                        yield {"sh": list(sh), "nc": nc, "b": b, "kb": kb, "fn": fn, "v": verbose}


def check_i(case):
    M = core.t2c().position_dependent_power_spectrum
    sh, nc, kb, fn = tuple(case["sh"]), case["nc"], case["kb"], case["fn"]
    L = 11.3
    a = core.field(sh, 2, lo=-1, hi=1.3)
    c = a if fn in ("response", "auto", "auto-n") else core.field(sh, 8, lo=-0.7, hi=1)
    E = psref.edges(kb, sh, [L] * 3, case["b"])
    k = psref.kmag(sh, [L] * 3)
    idx = psref.member(k, E)
    s = [n // nc for n in sh]
    Bk, Pk, s2 = 0, 0, 0
    for o in itertools.product(range(nc), repeat=3):
        sl = tuple(slice(i * q, (i + 1) * q) for i, q in zip(o, s))
        z = np.zeros(sh)
        z[sl] = a[sl]
        p = psref.mean_in(psref.power(z, [L] * 3).ravel(), idx, kb)[0]
        d = c[sl].mean()
        Bk, Pk, s2 = Bk + p * d, Pk + p, s2 + d * d
    n = nc ** 3
    want = Bk / n
    if fn.startswith("response") or fn.endswith("-n"):
        want = (Bk / n) / (Pk / n) / (s2 / n)
    kws = dict(Ncuts=nc, kbins=kb, box_dims=L, binning=case["b"], verbose=case["v"])
    if fn == "response":
        got, kk = call(M.power_spectrum_response, a, **kws)
    elif fn == "response2":
        got, kk = call(M.power_spectrum_response, a, c, **kws)
    elif fn.startswith("auto"):
        got, kk = call(M.integrated_bispectrum, a, normalize=fn.endswith("-n"), **kws)
    else:
        got, kk = call(M.integrated_bispectrum_cross, a, c, normalize=fn.endswith("-n"), **kws)
    near(kk, (E[1:] + E[:-1]) / 2, "ib-k", f"{case}", rtol=1e-9)
    if not psref.ambiguous(k, E):
        near(got, want, "ib-value", f"{case}", rtol=1e-7, scale=1e-10)
    return digest(want)


def cases_rej(tier):
    for sh in ((4, 4, 6), (4, 6, 4), (6, 4, 4), (5, 5, 5)):
        for nc in (2, 3, 4, 5):
            yield {"sh": list(sh), "nc": nc}


def check_rej(case):
    M = core.t2c().position_dependent_power_spectrum
    sh, nc = tuple(case["sh"]), case["nc"]
    a = core.field(sh, 2)
    if any(n % nc for n in sh):
        core.must_raise(M.integrated_bispectrum, a, Ncuts=nc, kbins=2, box_dims=5., verbose=False, what=f"{sh} cannot be cut into {nc}")
        return "rejected"
    core.must_raise(M.integrated_bispectrum_cross, a, a[:-1], Ncuts=nc, kbins=2, box_dims=5., verbose=False, what="different shapes")
    return "ok"


# larger boxes: hundreds of modes per shell, many sub-volumes
def cases_real(tier):
    for sh in [(12, 12, 12), (10, 14, 9), (16, 16, 16)] + ([(20, 20, 20), (24, 15, 18)] if tier == "thorough" else []):
        for d in ("list", "scalar", "none"):
            for fn in ("k", "k1k2"):
                for w in (None, "tukey"):
                    yield {"f": "b", "sh": list(sh), "L": d, "how": "object", "w": w, "fn": fn, "b": "linear", "dk": 0.31}
    for sh, nc in (((24, 24, 24), 3), ((20, 16, 12), 4), ((30, 10, 15), 5), ((18, 24, 12), 6)):
        for fn in ("response", "auto", "auto-n", "cross", "cross-n"):
            yield {"f": "i", "sh": list(sh), "nc": nc, "b": "log", "kb": 6, "fn": fn, "v": False}


def check_real(case):
    return {"b": check_b, "i": check_i}[case["f"]]({k: v for k, v in case.items() if k != "f"})


# ------------------------------------------------------------- shells one by one

def cases_sh(tier):
    for sh in [(4, 4, 4), (5, 5, 5), (3, 4, 5)]:
        for d in ("scalar", "list"):
            for dk in (0.2, 0.43):
                yield {"sh": list(sh), "L": d, "dk": dk}


def check_sh(case):
    """every ordered triple of shells from a set that holds nearly equal radii with different members; one width per shell of bispectrum_k"""
    B = core.t2c().bispectrum
    sh, dk = tuple(case["sh"]), case["dk"]
    arg, L = LS[case["L"]]
    x = core.field(sh, 5, lo=-1, hi=1.3)
    kk = psref.kmag(sh, L).reshape(sh)
    m = np.unique(np.round(kk[kk > 0], 9))
    e = m[2] + dk / 2
    ks = [e * (1 - 1e-4), e * (1 + 1e-4), m[0], m[0] * 1.001, m[len(m) // 2]]
    ob = call(B.Bispectrum, x, box_dims=arg, verbose=False)
    F, _, km = call(B.fft_nd, x, box_dims=L)
    seen = []
    for t in itertools.product(ks, repeat=3):
        w = ref_b(x, L, t, (dk,) * 3)
        if w is None:
            continue
        g = call(ob.bispectrum_fast, F, *t, dk, dk, dk, box_dims=np.array(L), k_mag=km)
        near(float(g), w, "b-value", f"shells {t} of width {dk} {case}", rtol=1e-6, atol=1e-9 * np.prod(L) ** 2)
        seen.append("%.5g" % w)
    expect(len(seen) > 20, "setup", f"only {len(seen)} triples with triangles {case}")
    nb = 4
    for b in ("linear", "log"):
        dks = dk * np.array([.7, 1., 1.6, 1.2])
        out = call(ob.bispectrum_k, dk=dks, n_bins=nb, binning=b, verbose=False)
        for q, d, g in zip(out["k"], dks, out["B"]):
            w = ref_b(x, L, (q,) * 3, (d,) * 3)
            if w is not None:
                near(float(g), w, "b-value", f"shell {q} of width {d} {case}", rtol=1e-6, atol=1e-9 * np.prod(L) ** 2)
                seen.append("%.5g" % w)
    return digest(*seen)


SUITES = [
    FnSuite("bispectrum", cases_b, check_b, "5 shapes x box x window x triangle family x binning x shell width, compared with explicit triangle sums"),
    FnSuite("integrated", cases_i, check_i, "9 (shape, cuts) x binning x bins x 6 statistics"),
    FnSuite("reject", cases_rej, check_rej, "16 (shape, cuts) pairs"),
    FnSuite("realistic", cases_real, check_real, "boxes of 1260-13824 cells: shells of hundreds of modes, up to 216 sub-volumes", chunk=1),
    FnSuite("shells", cases_sh, check_sh, "3 shapes x 2 boxes x 2 widths x all 125 ordered triples of 5 shells, two of them nearly equal; one width per bin"),
]
