"""Brightness temperature and Thomson optical depth, cell by cell, with the redshift of each cell."""
import itertools
import math
import os
import struct
import numpy as np
from mc import core
from mc.core import FnSuite, call, eq, near, expect, digest, must_raise
from mc.props.P13 import reset
from mc.props.P14 import ref_cdist

LEVEL = "model_checking"
ASSUMPTIONS = ["the optical depth of a fully ionised universe below the lowest redshift assumes flatness, as documented",
               "densities are not negative"]


def z_of_cdist(D, h, om, la):
    lo, hi = 0., 400.
    for _ in range(200):
        m = (lo + hi) / 2
        if ref_cdist(m, h, om, la) < D:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


def mdt(t, z):
    c = t.const
    z = np.asarray(z, dtype=float)
    # 28.1 mK at z=9 for these parameters: derived from fundamental constants in P13
    return c.meandt / c.h * (1 + z) ** 2 / np.sqrt(c.Omega0 * (1 + z) ** 3 + c.lam + (1 - c.Omega0 - c.lam) * (1 + z) ** 2)


def refdt(t, x, rho, z, T=None, correct=True):
    """cell by cell; z is a scalar or one redshift per cell"""
    c = t.const
    x, rho = np.asarray(x, float), np.asarray(rho, float)
    z = np.broadcast_to(np.asarray(z, float), x.shape)
    v = mdt(t, z) * (1 - x) * rho / (c.rho_crit_0 * c.OmegaB)
    if T is None:
        return v
    tc = c.Tcmb0 * (1 + z)
    ts = np.asarray(T, float)
    if correct:
        tmin = c.Tcmb0 * 201 * (1 + z) ** 2 / 201 ** 2
        neutral = x < 1
        ts = np.where(neutral, np.maximum(tmin, (ts - x * 2e4) / np.where(neutral, 1 - x, 1.)), tmin)
    return v * (ts - tc) / ts



COS = [None, (.6711, .3175, .6825), (.7, .3, .6)]


def setc(t, c):
    if c:
        t.set_hubble_h(c[0])
        t.set_omega_matter(c[1])
        t.set_omega_lambda(c[2])


SH = [(2, 3, 4), (3, 3, 3), (1, 2, 1)]


def data(sh, t, mode):
    x = core.field(sh, 1)
    x.ravel()[::3] = 0
    x.ravel()[1::4] = 1
    rho = core.field(sh, 2, lo=0, hi=5) * t.const.rho_crit_0 * t.const.OmegaB
    rho.ravel()[-1] = 0
    T = {"cold": core.field(sh, 3, lo=2, hi=60), "hot": core.field(sh, 3, lo=1e3, hi=5e4), "edge": np.full(sh, 2e4)}[mode]
    return x, rho, T


def cases_dt(tier):
    for sh, z, mode, c, zf in itertools.product(SH, (0., 6., 7.059, 9., 20.), ("cold", "hot", "edge"), range(len(COS)), ("float64", "float32", "int")):
        yield {"shape": sh, "z": z, "mode": mode, "cosmo": c, "dtype": zf}


def check_dt(case):
    t = reset()
    try:
        setc(t, COS[case["cosmo"]])
        sh, z = tuple(case["shape"]), case["z"]
        x, rho, T = data(sh, t, case["mode"])
        if case["dtype"] == "float32":
            x, rho, T = x.astype("f4"), rho.astype("f4"), T.astype("f4")
        elif case["dtype"] == "int":
            x = (x > .5).astype(int)
        near(call(t.mean_dt, z), mdt(t, z), "mean-dt", str(case), rtol=1e-12)
        near(call(t.mean_dt, np.array([z, 3.])), mdt(t, [z, 3.]), "mean-dt", str(case), rtol=1e-12)
        near(call(t.calc_dt, x, rho, z=z), refdt(t, x, rho, z), "dt", str(case), rtol=1e-9)
        for corr in (True, False):
            near(call(t.calc_dt_full, x, rho, T, z=z, correct=corr), refdt(t, x, rho, z, T, corr), "dt-full", str(case), rtol=1e-5 if case["dtype"] == "float32" else 1e-9, scale=1e-9)
        near(call(t.calc_dt_full, x, rho, T, z), refdt(t, x, rho, z, T, True), "dt-full-default", str(case), rtol=1e-5 if case["dtype"] == "float32" else 1e-9, scale=1e-9)
        # saturated limit: far above the microwave background both agree
        near(call(t.calc_dt_full, x, rho, np.full(sh, 1e12), z=z, correct=False), refdt(t, x, rho, z), "dt-saturated", str(case), rtol=1e-6)
        eq(call(t.calc_dt, np.ones(sh), rho, z=z), np.zeros(sh), "dt-ionised", str(case))
        return digest(call(t.calc_dt, x, rho, z=z))
    finally:
        reset()


def cases_files(tier):
    for fx, fn, ft in itertools.product(("name", "object", "array", "noz"), repeat=3):
        for z in (None, 8.25):
            yield {"x": fx, "n": fn, "t": ft, "z": z}


def check_files(case):
    """file names, file objects and arrays in any combination, with the redshift given or found"""
    t = reset()
    sh = (40, 2, 1)
    x, rho, T = core.field(sh, 1), core.field(sh, 2, lo=.2, hi=3) * 1e9, core.field(sh, 4, lo=3, hi=40)
    with core.scratch_dir() as d:
        def put(kind, form, z):
            if form == "array":
                return {"x": x, "n": rho * t.const.rho_crit_0 * (sh[0] / 8000) ** 3 * t.const.OmegaB, "t": T}[kind]
            nm = {"x": "xfrac3d_%s.bin", "n": "%sn_all.dat", "t": "Temper3D_%s.bin"}[kind] % ("%.3f" % z if form != "noz" else {"x": "mean", "n": "mean", "t": "mean"}[kind])
            if form == "noz":
                nm = nm.replace("3d", "3d").replace("3D", "D")
            p = os.path.join(d, nm)
            if kind == "x":
                t.XfracFile().write_to_file(p, x)
            elif kind == "n":
                t.DensityFile().write_to_file(p, raw_density=rho)
            else:
                with open(p, "wb") as f:
                    f.write(struct.pack("<6i", 12, *sh, 12, 4 * T.size) + T.flatten(order="F").astype("f4").tobytes())
            if form == "name":
                return p
            return {"x": t.XfracFile, "n": t.DensityFile, "t": t.TemperFile}[kind](p)
        zs = {"x": 7.059, "n": 7.062, "t": 7.065}
        a = {k: put(k, case[k], zs[k]) for k in "xnt"}
        R = rho * t.const.rho_crit_0 * (sh[0] / 8000) ** 3 * t.const.OmegaB
        for names, fn in (("xn", t.calc_dt), ("xnt", t.calc_dt_full)):
            known = [zs[k] for k in names if case[k] in ("name", "object")]
            z = case["z"] or (known[0] if known else None)
            args = [a[k] for k in names]
            if z is None:
                must_raise(fn, *args, kind="no-redshift", what=str(case))
                continue
            kw = {"z": case["z"]} if case["z"] else {}
            near(call(fn, *args, **kw), refdt(t, x, R, z, T if names == "xnt" else None), "dt-files", f"{case} {names}", rtol=1e-4)
    return digest(str(case))


def cases_lc(tier):
    for sh, ax, z, c, form, mode in itertools.product([(2, 3, 4), (3, 3, 3), (4, 2, 1), (1, 4, 2), (2, 5, 2)], (2, 1, 0, -1), (6.2, 8.), range(len(COS)), ("array", "cbin", "float32"), ("cold", "hot")):
        if form != "array" and (z == 8. or c):
            continue
        yield {"shape": sh, "axis": ax, "z": z, "cosmo": c, "form": form, "mode": mode}


def check_lc(case):
    t = reset()
    try:
        setc(t, COS[case["cosmo"]])
        if case["cosmo"] == 2:
            t.set_sim_constants(37.)
        c = t.const
        sh, ax, zl = tuple(case["shape"]), case["axis"], case["z"]
        x, rho, T = data(sh, t, case["mode"])
        cell = t.conv.LB / sh[(ax + 1) % 3]
        D0 = ref_cdist(zl, c.h, c.Omega0, c.lam)
        zz = np.array([z_of_cdist(D0 + i * cell, c.h, c.Omega0, c.lam) for i in range(sh[ax])])
        b = [1, 1, 1]
        b[ax] = -1
        zc = zz.reshape(b)
        if case["form"] == "float32":
            x, rho, T = x.astype("f4"), rho.astype("f4"), T.astype("f4")
        tol = dict(rtol=2e-4 if case["form"] != "array" else 1e-6, scale=1e-6)
        with core.scratch_dir() as d:
            ax_, an, at = x, rho, T
            if case["form"] == "cbin":
                ax_, an, at = (os.path.join(d, n) for n in ("x.cbin", "n.cbin", "t.cbin"))
                for p, v in ((ax_, x), (an, rho), (at, T)):
                    t.save_cbin(p, v)
            kw = {} if ax == 2 else {"los_axis": ax}
            g = call(t.calc_dt_lightcone, ax_, an, zl, **kw)
            near(g, refdt(t, x, rho, zc), "lc-dt", str(case), **tol)
            for corr in (True, False):
                g2 = call(t.calc_dt_full_lightcone, ax_, at, an, zl, correct=corr, **kw)
                near(g2, refdt(t, x, rho, zc, T, corr), "lc-dt-full", str(case), **tol)
        return digest(g)
    finally:
        reset()


def cases_real(tier):
    for sh, mode, z in [((40, 33, 28), "cold", 9.), ((65, 20, 130), "hot", 6.), ((300, 9, 5), "cold", 7.059), ((20, 3, 270), "edge", 12.)]:
        for ax in (2, 0, 1):
            yield {"shape": sh, "axis": ax, "z": z, "cosmo": 2 if max(sh) > 200 else 0, "mode": mode, "form": "array", "dtype": "float32" if ax == 1 else "float64"}


def check_real(case):
    """coeval boxes and light-cones of everyday size"""
    return check_dt(case), check_lc(case)


def cases_realtau(tier):
    for n, pts in ((300, 50), (40, 700), (2, 1500)):
        yield {"n": n, "points": pts}


def check_realtau(case):
    t = reset()
    n = case["n"]
    z = np.linspace(6, 12, n)
    lc = core.field((7, 9, n), 4)
    m, mz = call(t.tau_map, lc, z, num_points=case["points"])
    for i, j in np.ndindex(7, 9):
        w, wz = ref_tau(t, lc[i, j], z, case["points"])
        near(m[i, j], w, "tau-map", f"{case} {i} {j}", rtol=1e-9)
    near(mz, wz, "tau-map-z", str(case), rtol=1e-12)
    g, _ = call(t.tau, lc[0, 0], z, num_points=case["points"])
    near(g, m[0, 0], "tau", str(case), rtol=1e-12)
    return digest(m)


def cases_halo(tier):
    for n, box, Y, unit, c in itertools.product((1, 3, 4), (10., 200.), (None, .2), (False, True), (None, "wmap")):
        yield {"n": n, "box": box, "Y": Y, "unit": unit, "cosmo": c}


def check_halo(case):
    t = reset()
    import astropy.units as u
    import astropy.constants as ac
    from astropy.cosmology import Planck18, WMAP9
    m = core.field((case["n"],) * 3, 3, lo=1e8, hi=1e11)
    kw, cs = {}, Planck18
    if case["Y"]:
        kw["Y_p"] = case["Y"]
    if case["cosmo"]:
        kw["cosmo"] = cs = WMAP9
    g = call(t.calc_dt_halo, m * u.Msun if case["unit"] else m, case["box"] * u.Mpc if case["unit"] else case["box"], 8.2, **kw)
    rho = m * 1.98840987e33 / ((case["box"] / case["n"]) * 3.0856775814913674e24) ** 3
    w = mdt(t, 8.2) * rho / (cs.Ob0 * cs.critical_density0.to("g/cm3").value)
    near(np.asarray(u.Quantity(g).value), w, "dt-halo", str(case), rtol=1e-6)
    return digest(w)


# --------------------------------------------------------------- optical depth

def coeff(t):
    c = t.const
    return 2. * c.c * 1e5 * 6.65e-25 * c.OmegaB / c.Omega0 * c.rho_crit_0 * (1 + c.abu_he) / c.mean_molecular / c.m_p / (3 * c.H0cgs)


def ref_tau(t, x, z, n):
    """trapezoidal sums after an analytic start"""
    c = t.const
    k = coeff(t)
    zz = [(i + 1) / n * z[0] for i in range(n)] + list(z)
    out = [k * (math.sqrt(c.Omega0 * (1 + q) ** 3 + c.lam) - 1) for q in zz[:n]]
    f = lambda q: 1.5 * k * c.Omega0 * (1 + q) ** 2 / math.sqrt(c.Omega0 * (1 + q) ** 3 + c.lam)
    acc = out[-1]
    for i in range(len(z)):
        if i:
            acc += (x[i - 1] * f(z[i - 1]) + x[i] * f(z[i])) * (z[i] - z[i - 1]) / 2
        out.append(acc)
    return np.array(out), np.array(zz)


ZT = [[6.0], [6.0, 6.5], [5.5, 6.0, 7.25, 9.0], [7., 7.1, 7.2, 7.3, 7.4]]


def cases_tau(tier):
    for zs in ZT:
        for xs in itertools.product((0., .4, 1.), repeat=min(len(zs), 4)):
            xs = list(xs) + [.25] * (len(zs) - len(xs))
            perms = list(itertools.permutations(range(len(zs)))) if len(zs) < 5 else [tuple(range(5)), (4, 3, 2, 1, 0), (2, 0, 4, 1, 3)]
            for p in perms:
                yield {"z": zs, "x": xs, "perm": p, "n": 50 if sum(p[:1]) % 2 else 7, "cosmo": (sum(p[:2]) + len(zs)) % 2}


def check_tau(case):
    t = reset()
    try:
        setc(t, COS[case["cosmo"]])
        z, x, p, n = np.array(case["z"]), np.array(case["x"]), list(case["perm"]), case["n"]
        want, wz = ref_tau(t, x, z, n)
        kw = {} if n == 50 else {"num_points": n}
        g, gz = call(t.tau, x[p], z[p], **kw)
        near(gz, wz, "tau-z", str(case), rtol=1e-12)
        near(g, want, "tau", str(case), rtol=1e-9)
        expect(np.all(np.diff(g) >= 0), "tau-monotone", str(case))
        # maps: one line of sight per pixel
        lc = np.stack([np.stack([x, x[::-1]]), np.stack([x * 0 + 1, x * 0]), np.stack([x ** 2, x])])
        m, mz = call(t.tau_map, lc[:, :, p], z[p], **kw)
        near(mz, wz, "tau-map-z", str(case), rtol=1e-12)
        for i, j in np.ndindex(3, 2):
            near(m[i, j], ref_tau(t, lc[i, j], z, n)[0], "tau-map", str(case), rtol=1e-9)
        # as many pixels along the first or second axis as slices
        k = len(x)
        sq = np.stack([x * (1 - .3 * i / k) for i in range(k)])
        for shape in ((k, 1, k), (1, k, k)):
            m, mz = call(t.tau_map, sq.reshape(shape)[:, :, p], z[p], **kw)
            near(mz, wz, "tau-map-z", str(case), rtol=1e-12)
            near(np.asarray(m).reshape(k, -1), [ref_tau(t, sq[i], z, n)[0] for i in range(k)], "tau-map", f"{case} map {shape}", rtol=1e-9)
        must_raise(t.tau, x, np.append(z, 30.), kind="tau-lengths")
        return digest(g)
    finally:
        reset()


def cases_exact(tier):
    for c, zr in itertools.product((0, 1), (6., 8., 11., 25.)):
        yield {"cosmo": c, "z": zr}


def check_exact(case):
    """instantaneous reionisation: the analytic depth, whatever the sampling below"""
    t = reset()
    try:
        setc(t, COS[case["cosmo"]])
        c, zr = t.const, case["z"]
        w = coeff(t) * (math.sqrt(c.Omega0 * (1 + zr) ** 3 + c.lam) - 1)
        for lo, n in ((5., 400), (zr, 1), (3., 900)):
            if lo == zr:
                z, x = np.linspace(zr, 1100, 50), np.zeros(50)
            else:
                z = np.concatenate([np.linspace(lo, zr, n), np.linspace(zr + 1e-9, 40, 30)])
                x = np.concatenate([np.ones(n), np.zeros(30)])
            g, _ = call(t.tau, x, z)
            near(g[-1], w, "tau-analytic", str(case), rtol=1e-4)
        return w
    finally:
        reset()


def cases_taulc(tier):
    for order in itertools.permutations(range(3)):
        yield {"order": order}


def check_taulc(case):
    """dictionaries of coeval cubes, in any order: the depth of their light-cone"""
    t = reset()
    zs = [6.8, 7.0, 7.3]
    cubes = {z: core.field((4, 4, 4), i) for i, z in enumerate(zs)}
    lc, lz = t.make_lightcone(dict(cubes))
    d = {zs[i]: cubes[zs[i]] for i in case["order"]}
    m, mz = call(t.tau_map, d, num_points=9)
    expect(m.shape == (4, 4, len(lz) + 9), "tau-lc-shape", str(m.shape))
    for i, j in np.ndindex(4, 4):
        near(m[i, j], ref_tau(t, lc[i, j].astype(float), lz, 9)[0], "tau-lc", str(case), rtol=1e-6)
    m2, _ = call(t.tau_map, {z: i for i, z in enumerate(d)}, num_points=9, reading_function=lambda i: d[list(d)[i]])
    near(m2, m, "tau-lc-reader", str(case), rtol=1e-9)
    return digest(m)


SUITES = [
    FnSuite("coeval", cases_dt, check_dt, "3 shapes x 5 redshifts x 3 temperature regimes x 3 cosmologies x 3 dtypes; ionised, neutral, empty and mixed cells"),
    FnSuite("files", cases_files, check_files, "4 forms of each of 3 inputs x redshift given or found"),
    FnSuite("light-cones", cases_lc, check_lc, "5 shapes x 4 axes x 2 redshifts x 3 cosmologies/boxes x 3 forms x 2 regimes x 3 functions"),
    FnSuite("haloes", cases_halo, check_halo, "3 grids x 2 boxes x helium x units x cosmology"),
    FnSuite("optical-depth", cases_tau, check_tau, "all histories of 3 ionisation levels on 4 redshift grids x all orders, and maps"),
    FnSuite("analytic-depth", cases_exact, check_exact, "2 cosmologies x 4 redshifts x 3 samplings"),
    FnSuite("realistic", cases_real, check_real, "4 boxes of up to 169000 cells and 300 slices x 3 axes"),
    FnSuite("realistic-depth", cases_realtau, check_realtau, "63 lines of sight of up to 300 cells x up to 1500 points"),
    FnSuite("depth-of-cubes", cases_taulc, check_taulc, "all orders of 3 cubes"),
]
