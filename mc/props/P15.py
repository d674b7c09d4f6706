"""Conversions between physical (comoving) and observational (angle, frequency) light-cones, stage by stage and end to end."""
import itertools
import math
import numpy as np
from scipy.ndimage import map_coordinates
from mc import core
from mc.core import FnSuite, call, eq, near, expect, digest, must_raise
from mc.props.P13 import reset
from mc.props.P14 import ref_cdist, ref_ldist

LEVEL = "model_checking"
ASSUMPTIONS = ["numbers of cells within 1e-5 of a whole number may come out either way",
               "the angular scale uses the package's luminosity distance and pi = 3.1415 (checked in P14 to 1e-4)"]


def A():
    return core.t2c().angular_coordinates


def fov_deg(mpc, z):
    return float(core.t2c().cosmo.angular_size_comoving(mpc, z))


def whole(x):
    """-> candidates for the number of whole cells"""
    r = round(x)
    return {int(x), int(r)} if abs(x - r) < 1e-5 else {int(x)}


# --------------------------------------------------------------- binning along the line of sight

def moving(x, w):
    """mean over the window of w cells around every cell, incomplete at the ends"""
    n = x.shape[2]
    out = np.zeros_like(x)
    for i in range(n):
        a, b = i - (w - 1 - (w - 1) // 2), i + (w - 1) // 2
        out[:, :, i] = x[:, :, max(0, a):min(n, b + 1)].mean(axis=2)
    return out


def frac_idx(a, v):
    a = np.asarray(a)
    i = np.arange(len(a))
    return float(np.interp(v, a, i) if a[-1] > a[0] else np.interp(-v, -a, i))


def in_cell(a, v):
    """index of the cell that contains v (cells start at the values of a)"""
    return int(frac_idx(a, v) + 1e-9)


def edge(a, v):
    """v so close to the start of a cell (other than the first) that rounding decides"""
    f = frac_idx(a, v)
    return f > 1e-9 and abs(f - round(f)) < 1e-5


def ref_bin_nu(lc, zl, box, dnu):
    cell = box / lc.shape[0]
    n = lc.shape[2]
    C = core.t2c().cosmo
    nus = 1420. / (1 + C.cdist_to_z(ref_cdist(zl, .7, .27, .73) + np.arange(n) * cell))
    out = [nus[0]]
    while out[-1] - dnu > nus[-1]:
        out.append(nus[0] - dnu * len(out))
    out = np.array(out)
    d = [ref_cdist(1420. / v - 1, .7, .27, .73) for v in out[-2:]]
    if len(d) < 2:
        return None, out, True
    w = max(1, int(np.round((d[1] - d[0]) / cell)))
    sm = moving(lc, w)
    idx = [in_cell(nus, v) for v in out]
    amb = abs((d[1] - d[0]) / cell % 1 - .5) < 1e-4 or any(edge(nus, v) for v in out) or abs((nus[0] - nus[-1]) / dnu - round((nus[0] - nus[-1]) / dnu)) < 1e-6
    return sm[:, :, idx], out, amb


def cases_bin(tier):
    for sh in [(2, 2, 5), (3, 2, 12), (4, 4, 9), (2, 3, 30)]:
        for zl in (6.1, 7.3, 11.):
            for box in (20., 60.):
                for f in (.4, .83, 1.07, 2.2, 3.1, 4.3):
                    yield {"op": "nu", "sh": sh, "zl": zl, "box": box, "f": f}
        for zl in (6.1, 9.):
            for dnu in (.1, .37):
                for f in (.3, .61, .97, 1.03, 2.2, 3.7):
                    yield {"op": "mpc", "sh": sh, "zl": zl, "dnu": dnu, "f": f}


def check_bin(case):
    t = reset()
    sh, zl = tuple(case["sh"]), case["zl"]
    lc = core.field(sh, 2, lo=-1, hi=2)
    if case["op"] == "nu":
        cell = case["box"] / sh[0]
        H = 70 * math.sqrt(.27 * (1 + zl) ** 3 + .73)
        dnu = case["f"] * 1420 * H * cell / (3e5 * (1 + zl) ** 2)
        if case["f"] * 2 > sh[2] - 2:
            return None
        want, nus, amb = ref_bin_nu(lc, zl, case["box"], dnu)
        if amb or len(nus) < 2:
            return None
        got, out = call(A().bin_lightcone_in_frequency, lc, zl, case["box"], dnu)
        near(out, nus, "bin-freqs", str(case), rtol=1e-7)
        near(got, want, "bin-nu", str(case), atol=1e-9)
        one = call(A().bin_lightcone_in_frequency, np.full(sh, 2.5), zl, case["box"], dnu)[0]
    else:
        nus = 1420. / (1 + zl) - np.arange(sh[2]) * case["dnu"]
        d = np.array([ref_cdist(1420. / v - 1, .7, .27, .73) for v in nus])
        cell = case["f"] * (d[-1] - d[-2])
        n = (d[-1] - d[0]) / cell
        N = whole(n)
        if len(N) > 1 or abs((sh[2] / n) % 1 - .5) < 1e-4 or n < 1:
            return None
        N = N.pop()
        w = max(1, int(np.round(sh[2] / n)))
        sm = moving(lc, w)
        pos = d[0] + np.arange(N) * cell
        if any(edge(d, p) for p in pos):
            return None
        got, z = call(A().bin_lightcone_in_mpc, lc, nus, cell)
        near(got, sm[:, :, [in_cell(d, p) for p in pos]], "bin-mpc", str(case), atol=1e-9)
        expect(len(np.atleast_1d(z)) == got.shape[2], "bin-mpc-z", f"{case}: {np.size(z)} redshifts for {got.shape[2]} slices")
        near([ref_cdist(float(v), .7, .27, .73) for v in np.atleast_1d(z)], pos, "bin-mpc-z", str(case), rtol=1e-5)
        one = call(A().bin_lightcone_in_mpc, np.full(sh, 2.5), nus, cell)[0]
    near(one, np.full(one.shape, 2.5), "bin-constant", f"{case}: a constant light-cone must stay constant", rtol=1e-9)
    return digest(got)


# --------------------------------------------------------------- slices

def top(x, w):
    """square tophat of width w on a periodic slice, as specified for smooth_tophat (even sizes: one extra wrapped row and column)"""
    n = x.shape[0]
    if n % 2 == 0:
        y = np.pad(x, ((0, 1), (0, 1)), mode="wrap")
        return top(y, w)[:-1, :-1]
    out = np.zeros(x.shape)
    k = int(w)
    a = k // 2
    for i in range(-a, k - a):
        for j in range(-a, k - a):
            out += np.roll(x, (i, j), (0, 1))
    return out / k ** 2


def ref_resample(x, n, order, pre=True):
    w = np.round(x.shape[0] / n)
    if w < 1 or not pre:
        w = 1
    s = core.t2c().smoothing.smooth_tophat(x, w)
    i = np.linspace(0, x.shape[0] - 1, n)
    g = np.meshgrid(i, i, indexing="ij")
    return map_coordinates(s, g, order=order, mode="wrap" if order == 99 else "wrap")


def cases_res(tier):
    for n in range(2, 12):
        for m in range(1, 14):
            for order in (0, 1, 2, 3) if tier != "quick" else (0, 1, 3):
                for pre in (True, False):
                    yield {"n": n, "m": m, "order": order, "pre": pre}
    for n in range(2, 8):
        for p in range(n, 2 * n + 1):
            yield {"pad": p, "n": n}
    for sh in ((2, 2, 3), (4, 4, 2), (5, 5, 1), (6, 4, 2), (3, 3, 2)):
        for p in (None, 0, 1, 2):
            for mode in ("wrap", "constant", "edge", "reflect"):
                for v in (True, False):
                    yield {"lc": sh, "p": p, "mode": mode, "v": v}


def check_res(case):
    t = core.t2c()
    if "pad" in case:
        x = core.field((case["n"],) * 2, 3)
        if not hasattr(A(), "_get_padded_slice"):   # an internal helper; its effect is also covered by physical_slice_to_angular
            return None
        try:
            got = call(A()._get_padded_slice, x, case["pad"])
        except TypeError:
            return None
        eq(got, np.pad(x, ((0, case["pad"] - case["n"]),) * 2, mode="wrap"), "padded", str(case))
        return digest(got)
    if "lc" in case:
        sh = tuple(case["lc"])
        x = core.field(sh, 5)
        p = case["p"] if case["p"] is not None else sh[1] // 2
        kw = {} if case["p"] is None else {"padded_n": p}
        if case["mode"] != "wrap":
            kw["mode"] = case["mode"]
        elif p > min(sh[:2]):
            return None
        if not case["v"]:
            kw["verbose"] = False
        if case["mode"] == "reflect" and p >= min(sh[:2]):
            return None
        eq(call(A().padding_lightcone, x, **kw), np.pad(x, ((p, p), (p, p), (0, 0)), mode=case["mode"]), "lc-padded", str(case))
        return str(case)
    n, m = case["n"], case["m"]
    x = core.field((n, n), 7, lo=-1, hi=2)
    w = max(1, int(np.round(n / m))) if case["pre"] else 1
    kw = {} if (case["order"] == 0 and case["pre"]) else {"order": case["order"], "prefilter": case["pre"]}
    got = call(A().resample_slice, x, m, **kw)
    expect(got.shape == (m, m), "resample-shape", str(case))
    s = top(x, w) if w <= (n if n % 2 else n + 1) else x
    if n / m % 1 == .5:   # rounding half to even: either width is a fair reading
        return "tie"
    i = np.linspace(0, n - 1, m)
    if case["order"] == 0:
        f = i % 1
        if np.any(np.abs(f - .5) < 1e-9):
            return "tie"
        j = np.round(i).astype(int)
        near(got, s[np.ix_(j, j)], "resample", str(case), atol=1e-9)
    elif case["order"] == 1:
        j = np.minimum(i.astype(int), n - 2)
        f = i - j
        r = s[j] * (1 - f)[:, None] + s[j + 1] * f[:, None]
        r = r[:, j] * (1 - f) + r[:, j + 1] * f
        near(got, r, "resample", str(case), atol=1e-9)
    if m == n:
        near(got, s, "resample-identity", str(case), atol=1e-6)
    near(call(A().resample_slice, np.full((n, n), 1.7), m, **kw), np.full((m, m), 1.7), "resample-constant", str(case), rtol=1e-6)
    return digest(got)


def cases_slice(tier):
    for n in (4, 5, 8, 9):
        for z in (6.5, 8., 11.3):
            for f in (.37, .8, 1.13, 1.7):
                for order in (0, 1, 2):
                    yield {"op": "ang", "n": n, "z": z, "f": f, "order": order, "pad": 1.}
                    yield {"op": "ang", "n": n, "z": z, "f": f, "order": order, "pad": 1.31}
                    for pre in (True, False):
                        yield {"op": "phys", "n": n, "z": z, "f": f, "order": order, "cut": .78, "pre": pre}
                    yield {"op": "phys", "n": n, "z": z, "f": f, "order": order, "cut": 1., "pre": True}


def ref_ang(x, z, size, fov, dth, order):
    fm = fov / fov_deg(1., z)
    N = fov * 60 / dth
    out = []
    for m in whole(size / (fm / N)):
        if m % 2 == 0:
            m -= 1
        for p in whole(N):
            if m < 1:
                out.append(None)
                continue
            r = A().resample_slice(x, m, order)
            p = max(p, m)
            if p > 2 * m:
                out.append(None)
                continue
            out.append(np.pad(r, ((0, p - m),) * 2, mode="wrap"))
    return out


def ref_phys(x, z, deg, cell, size, order, pre=True):
    sm = deg / fov_deg(1., z)
    out = []
    for m in whole(sm / cell):
        m += m % 2 == 0
        for c in whole(size / cell):
            out.append(A().resample_slice(x, m, order, pre)[:min(c, len(x)), :min(c, len(x))] if m > 0 else None)
    return out


def one_of(got, refs, kind, what, atol=1e-7):
    if any(r is None for r in refs):
        return
    ok = any(r.shape == got.shape and np.allclose(got, r, atol=atol, rtol=1e-6) for r in refs)
    if not ok:
        near(got, refs[0], kind, what, atol=atol)


def check_slice(case):
    t = reset()
    n, z, order = case["n"], case["z"], case["order"]
    x = core.field((n, n), 3, lo=-1, hi=1)
    if case["op"] == "ang":
        size = 150.
        fov = fov_deg(size, z) * case["pad"]
        dth = case["f"] * fov_deg(size, z) * 60 / n
        w = ref_ang(x, z, size, fov, dth, order)
        if any(v is None for v in w):
            return None
        kw = {} if order == 0 else {"order": order}
        got = call(A().physical_slice_to_angular, x, z, size, fov, dth, **kw)
        one_of(got, w, "slice-angular", str(case))
    else:
        deg = 1.3
        size = case["cut"] * deg / fov_deg(1., z)
        cell = case["f"] * deg / fov_deg(1., z) / n
        w = ref_phys(x, z, deg, cell, size, order, case["pre"])
        kw = {} if order == 0 and case["pre"] else {"order": order, "prefilter": case["pre"]}
        got = call(A().angular_slice_to_physical, x, z, deg, cell, size, **kw)
        one_of(got, w, "slice-physical", str(case))
    return digest(got)


# --------------------------------------------------------------- light-cones

def cases_p2o(tier):
    for n, M in ((4, 6), (5, 9), (8, 7), (9, 14)):
        for zl in (6.2, 9.):
            for fz in ("float", "int", "array", "np"):
                if fz == "int" and zl != 9.:
                    continue
                for fd in (.63, 1.21):
                    for ft in (.71, 1., 1.37):
                        for mode in ("pad", "crop", "valid", "full", "Extend"):
                            for order in (0, 2) if mode == "pad" else (1,):
                                yield {"n": n, "M": M, "zl": zl, "fz": fz, "fd": fd, "ft": ft, "mode": mode, "order": order, "box": 120. if n != 5 else None}
    yield {"bad": "mode"}


def check_p2o(case):
    t = reset()
    F = A().physical_lightcone_to_observational
    if "bad" in case:
        must_raise(F, np.ones((3, 3, 4)), 7., .1, 1., kind="bad-mode", what="mode='same'", mode="same", verbose=False)
        return "bad"
    n, M, zl, order = case["n"], case["M"], case["zl"], case["order"]
    box = case["box"] or t.conv.LB
    cell = box / n
    dist = ref_cdist(zl, .7, .27, .73) + np.arange(M) * cell
    zs = np.atleast_1d(t.cosmo.cdist_to_z(dist))
    x = core.field((n, n, M), 3, lo=0, hi=1)
    fl, fh = fov_deg(box, zl), fov_deg(box, float(zs[-1]))
    dth = case["ft"] * fl * 60 / n
    H = 70 * math.sqrt(.27 * (1 + zl) ** 3 + .73)
    dnu = case["fd"] * 1420 * H * cell / (3e5 * (1 + zl) ** 2)
    lf, nus, amb = ref_bin_nu(x, zl, box, dnu)
    if amb:
        return None
    kw = {"mode": case["mode"], "order": order}
    if case["mode"] == "pad":
        kw.pop("mode")
        if order == 2:
            kw.pop("order")
    if case["box"]:
        kw["input_box_size_mpc"] = box
    if case["mode"] != "crop":
        kw["verbose"] = False
    Z = {"float": float(zl), "int": int(zl), "array": zs, "np": np.float64(zl)}[case["fz"]]
    if case["fz"] == "array":
        zs[0] = zl
    got, out = call(F, x, Z, dnu, dth, **kw)
    near(out, nus, "p2o-freqs", str(case), rtol=1e-7)
    Ns = whole(fl * 60 / dth)
    refs = []
    for N in Ns:
        vol = np.zeros((N, N, len(nus)))
        ok = True
        for i, v in enumerate(nus):
            w = [r for r in ref_ang(lf[:, :, i], 1420. / v - 1, box, fl, dth, order) if r is not None and r.shape == (N, N)]
            if not w:
                ok = False
                break
            vol[:, :, i] = w[0]
        if not ok:
            continue
        if case["mode"] in ("crop", "valid"):
            for No in whole(fh * 60 / dth):
                refs.append(vol[(N - No) // 2:(N + No) // 2, (N - No) // 2:(N + No) // 2])
        else:
            refs.append(vol)
    if not refs:
        return None
    one_of(got, refs, "p2o", str(case))
    return digest(got)


def cases_o2p(tier):
    for n in (3, 4, 7, 8):
        for M in (3, 7, 12):
            for nu in (200., 170., 120.):
                for dth in (.6, 1.9, 5.):
                    for dnu in (.13, .7):
                        for order in (0, 1, 2):
                            yield {"n": n, "M": M, "nu": nu, "dth": dth, "dnu": dnu, "order": order}
    yield {"bad": "increasing"}
    yield {"bad": "rect"}


def check_o2p(case):
    t = reset()
    F = A().observational_lightcone_to_physical
    if "bad" in case:
        x = np.ones((3, 3, 4)) if case["bad"] == "increasing" else np.ones((3, 4, 4))
        f = np.linspace(150., 152., 4)
        must_raise(F, x, f if case["bad"] == "increasing" else f[::-1], 1., kind="o2p-reject", what=str(case))
        return case["bad"]
    n, M, dth, order = case["n"], case["M"], case["dth"], case["order"]
    nus = case["nu"] - case["dnu"] * np.arange(M)
    x = core.field((n, n, M), 8, lo=-1, hi=1)
    z0 = 1420. / nus[0] - 1
    deg = n * dth / 60
    fm = deg / fov_deg(1., z0)
    d = [ref_cdist(1420. / v - 1, .7, .27, .73) for v in nus]
    cell = max(d[-1] - d[-2], fm / n)
    if fm / cell < 1.001 or (d[-1] - d[0]) / cell < 1.001:      # less than one output cell
        return None
    kw = {} if order == 2 else {"order": order, "verbose": False}
    got, zz, c = call(F, x, nus, dth, **kw)
    near(c, cell, "o2p-cell", str(case), rtol=1e-6)
    n_out = (d[-1] - d[0]) / cell
    D = np.array(d)
    refs = []
    for N in whole(fm / cell):
        sl = []
        for i, v in enumerate(nus):
            w = [r for r in ref_phys(x[:, :, i], 1420. / v - 1, deg, cell, fm, order) if r is not None and r.shape == (N, N)]
            if not w:
                break
            sl.append(w[0])
        if len(sl) < M:
            continue
        vol = np.stack(sl, axis=2)
        for m in whole(n_out):
            w = max(1, int(np.round(M / n_out)))
            if abs(M / n_out % 1 - .5) < 1e-6:
                return None
            pos = D[0] + np.arange(m) * cell
            if any(edge(D, p) for p in pos):
                return None
            refs.append(moving(vol, w)[:, :, [in_cell(D, p) for p in pos]])
    if not refs:
        return None
    one_of(got, refs, "o2p", str(case))
    if abs(fm / cell - n) < 1e-5:
        expect(got.shape[0] == n, "o2p-lost-row", f"{case}: {got.shape[0]} instead of {n} cells across")
    expect(np.size(zz) == got.shape[2], "o2p-z", f"{case}: {np.size(zz)} redshifts for {got.shape[2]} slices")
    near([ref_cdist(float(v), .7, .27, .73) for v in np.atleast_1d(zz)], D[0] + np.arange(np.size(zz)) * cell, "o2p-z", str(case), rtol=1e-5)
    return digest(got)


# --------------------------------------------------------------- sizes of everyday use

def cases_real(tier):
    for sh in [(24, 24, 150), (40, 40, 60)]:
        for zl in (6.1, 9.):
            for f in (.83, 1.07, 3.1, 7.3):
                yield {"f0": "bin", "op": "nu", "sh": sh, "zl": zl, "box": 150., "f": f}
                yield {"f0": "bin", "op": "mpc", "sh": sh, "zl": zl, "dnu": .1, "f": f}
    for n, m in ((60, 60), (60, 59), (61, 33), (100, 21), (33, 90), (150, 64)):
        for order in (0, 1, 2):
            yield {"f0": "res", "n": n, "m": m, "order": order, "pre": True}
    for n in (40, 63):
        for z in (6.5, 11.3):
            for f in (.7, 1.13):
                for order in (0, 2):
                    yield {"f0": "slice", "op": "ang", "n": n, "z": z, "f": f, "order": order, "pad": 1.31}
                    yield {"f0": "slice", "op": "phys", "n": n, "z": z, "f": f, "order": order, "cut": .78, "pre": True}
    for n, M, box in ((30, 40, 200.), (25, 64, 120.)):
        for mode in ("pad", "crop", "full"):
            for order in (0, 2) if mode == "pad" else (1,):
                for fd, ft in ((.63, 1.37), (1.21, .71), (2.3, 1.)):
                    yield {"f0": "p2o", "n": n, "M": M, "zl": 7.4, "fz": "float", "fd": fd, "ft": ft, "mode": mode, "order": order, "box": box}
            yield {"f0": "p2o", "n": n, "M": M, "zl": 7.4, "fz": "array", "fd": 1.21, "ft": 1.37, "mode": mode, "order": 2 if mode == "pad" else 1, "box": box}
    for n, M in ((24, 60), (41, 33)):
        for nu in (190., 120.):
            for dth in (.6, 1.9):
                for dnu in (.1, .23):
                    for order in (0, 2):
                        yield {"f0": "o2p", "n": n, "M": M, "nu": nu, "dth": dth, "dnu": dnu, "order": order}


def check_real(case):
    return {"bin": check_bin, "res": check_res, "slice": check_slice, "p2o": check_p2o, "o2p": check_o2p}[case["f0"]]({k: v for k, v in case.items() if k != "f0"})


SUITES = [
    FnSuite("binning", cases_bin, check_bin, "4 shapes x redshifts x boxes x 6 bin widths, both directions; constants"),
    FnSuite("resampling", cases_res, check_res, "all (input, output) sizes 2-11 x 1-13 x spline orders x prefilter; all periodic paddings; light-cone padding modes"),
    FnSuite("slices", cases_slice, check_slice, "4 sizes x 3 redshifts x 4 resolutions x orders x padding and cuts"),
    FnSuite("to-observational", cases_p2o, check_p2o, "4 shapes x redshift forms x frequency and angular resolutions x 5 modes"),
    FnSuite("to-physical", cases_o2p, check_o2p, "4 x 3 shapes x 3 frequencies x resolutions x orders; rejections"),
    FnSuite("realistic", cases_real, check_real, "light-cones of up to 150 slices and 64000 cells, slices of up to 150^2: all of the above", chunk=1),
]
