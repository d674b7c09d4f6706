"""Light-cone construction: output redshift grids, bracketing and interpolation of snapshots, periodic continuation, sub-volumes."""
import itertools
import os
import numpy as np
from mc import core
from mc.core import FnSuite, call, eq, near, expect, digest, must_raise

LEVEL = "model_checking"
ASSUMPTIONS = ["output redshifts within 1e-9 of a snapshot or a transition are not compared between the two sides"]


def L():
    return core.t2c().lightcone


def Hz(z):
    c = core.t2c().const
    return c.H0 * np.sqrt(c.Omega0 * (1 + z) ** 3 + c.lam)


def grid_cdist(zl, zh, n, box):
    """steps of one cell: dnu = nu0 H(z) dx / (c (1+z)^2)"""
    c = core.t2c().const
    z, out = zl, []
    while z < zh:
        out.append(z)
        nu = c.nu0 / (1 + z) - c.nu0 * Hz(z) * (box / n) / (c.c * (1 + z) ** 2)
        z = c.nu0 / nu - 1
    return np.array(out)


def grid_nu(zl, zh, dnu):
    c = core.t2c().const
    nu, lo, out = c.nu0 / (1 + zh), c.nu0 / (1 + zl), []
    k = 0
    while nu + k * dnu < lo:
        out.append(c.nu0 / (nu + k * dnu) - 1)
        k += 1
    return np.array(out)[::-1]


# ------------------------------------------------------------- redshift grids

def cases_grid(tier):
    Z = [(6., 6.3), (6., 7.1), (7.5, 9.), (0.2, .4), (15., 20.)]
    for zl, zh in Z:
        for n in (2, 5, 64, 256) if tier == "quick" else (1, 2, 3, 5, 17, 64, 256, 700):
            for box in (None, 100., 348.57):
                yield {"op": "cdist", "z": [zl, zh], "n": n, "box": box}
        for dnu in (.05, .3, 1.7, 40.):
            yield {"op": "nu", "z": [zl, zh], "dnu": dnu}
    for op in ("cdist", "nu"):
        yield {"op": op + "-bad", "z": [8., 8.]}
        yield {"op": op + "-bad", "z": [9., 8.]}


def check_grid(case):
    t = core.t2c()
    zl, zh = case["z"]
    if case["op"] == "cdist-bad":
        must_raise(L().redshifts_at_equal_comoving_distance, zl, zh, 10, kind="range", what=str(case))
        return "bad"
    if case["op"] == "nu-bad":
        must_raise(L().redshifts_at_equal_frequncy_width, zl, zh, 1., kind="range", what=str(case))
        return "bad"
    if case["op"] == "cdist":
        box = t.conv.LB if case["box"] is None else case["box"]
        kw = {} if case["box"] is None else {"box_length_mpc": box}
        got = call(L().redshifts_at_equal_comoving_distance, zl, zh, case["n"], **kw)
        want = grid_cdist(zl, zh, case["n"], box)
        if case["n"] == 256:
            near(call(L().redshifts_at_equal_comoving_distance, zl, zh, **kw), want, "grid-default", str(case), rtol=1e-9)
        near(got, want, "grid-cdist", str(case), rtol=1e-9)
        if case["n"] >= 64:  # the spacing is a cell of comoving distance
            d = call(t.cosmo.z_to_cdist, got[:20])
            near(np.diff(np.atleast_1d(d)), np.full(min(len(got), 20) - 1, box / case["n"]), "grid-spacing", str(case), rtol=.03)
    else:
        got = call(L().redshifts_at_equal_frequncy_width, zl, zh, case["dnu"])
        want = grid_nu(zl, zh, case["dnu"])
        near(got, want, "grid-nu", str(case), rtol=1e-9)
    expect(np.all(np.diff(got) > 0), "grid-order", str(case))
    expect(got.min() >= zl - 1e-9 and got.max() <= zh + 1e-9, "grid-range", str(case))
    return digest(got)


# ------------------------------------------------------------- light-cones

def shuffled(C, k):
    """the same dictionary, filled in another order"""
    q = list(C)
    q = q[::-1] if k % 2 else q[1:] + q[:1]
    return {z: C[z] for z in q}


def cubes(zs, sh, seed=0, vec=False):
    return {z: core.field(((3,) if vec else ()) + tuple(sh), seed + i, lo=.1, hi=1.9).astype("f8") for i, z in enumerate(zs)}


def ref_interp(hi, lo, zh, zl, z, kind):
    if kind == "linear":
        return (hi * (z - zl) + lo * (zh - z)) / (zh - zl)
    if kind == "step":
        return lo if z < (zh + zl) / 2 else hi
    if kind == "sigmoid":
        g = 1 / (1 + np.exp(-2 * (-10 + 20 * (z - zl) / (zh - zl))))
        return lo * (1 - g) + hi * g
    raise ValueError(kind)


def ref_lc(C, zs, oz, ax, kind):
    out, n = [], None
    for i, z in enumerate(oz):
        hi = min([q for q in zs if q > z], default=max(zs))
        lo = max(q for q in zs if q <= z and q < hi)
        n = C[lo].shape[ax - 3]
        H, Lo = [np.take(C[q], i % n, axis=ax - 3) for q in (hi, lo)]
        out.append((ref_interp(H, Lo, hi, lo, z, kind), Lo, H, lo, hi, z))
    return out


ZS = {"two": [7., 9.], "three": [7., 7.6, 9.], "dense": [7., 7.1, 7.17, 7.3, 8.4, 8.5, 9.], "one-skip": [7., 7.05, 9.],
      "today": [0., .11, .3], "many": [round(7. + .013 * i + .0003 * i * i, 3) for i in range(60)]}
BOX = 400.


def cases_lc(tier):
    for zs in list(ZS)[:4]:
        for sh in [(4, 4, 4), (3, 3, 3), (2, 4, 3), (5, 2, 2)]:
            for ax in (0, 1, 2):
                for kind in ("linear", "step", "sigmoid"):
                    yield {"zs": zs, "sh": sh, "ax": ax, "kind": kind, "rng": "none", "src": "dict"}
        for rng in ("inside", "exact", "low", "high", "snap", "wide"):
            for dnu in (None, 1.3, 6.):
                for ax in (0, 2):
                    yield {"zs": zs, "sh": (4, 4, 4), "ax": ax, "kind": "linear", "rng": rng, "src": "dict", "dnu": dnu}
        for src in ("dict+fn", "list+fn", "cbin", "cbin64", "cbinF", "textfile", "dir", "density", "density-raw", "xfrac", "zlist", "zfile", "textfile+fn"):
            for ax in (0, 1, 2):
                for sh in ((4, 4, 4), (3, 4, 2)):
                    yield {"zs": zs, "sh": sh, "ax": ax, "kind": "linear", "rng": "none", "src": src}
        for box in (None, 150.):
            yield {"zs": zs, "sh": (4, 4, 4), "ax": 0, "kind": "linear", "rng": "inside", "src": "dict", "box": box}
    for rng in ("none", "zero", "tenth"):
        for ax in (0, 1, 2):
            for kind in ("linear", "step"):
                yield {"zs": "today", "sh": (3, 3, 3), "ax": ax, "kind": kind, "rng": rng, "src": "dict"}
    for kind in ("cubic", "Linear"):
        yield {"zs": "two", "sh": (2, 2, 2), "ax": 0, "kind": kind, "rng": "none", "src": "dict"}
    yield {"zs": "two", "sh": (2, 2, 2), "ax": 0, "kind": "linear", "rng": "outside", "src": "dict"}


RNG = {"none": (None, None), "inside": (7.21, 8.77), "exact": (7., 9.), "low": (7.3, None), "high": (None, 8.2), "snap": (7., 8.9), "wide": (6.5, 9.4), "outside": (9.5, 10.), "zero": (0., .27), "tenth": (.05, .3)}


def write_cube(d, src, z, x):
    t = core.t2c()
    if src in ("density", "density-raw"):
        f = os.path.join(d, "%.3fn_all.dat" % z)
        with open(f, "wb") as fh:
            np.array(x.shape, dtype="i4").tofile(fh)
            x.astype("f4").flatten(order="F").tofile(fh)
    elif src == "xfrac":
        f = os.path.join(d, "xfrac3d_%.3f.bin" % z)
        with open(f, "wb") as fh:
            np.array([12, *x.shape, 12, 0], dtype="i4").tofile(fh)
            x.astype("f8").flatten(order="F").tofile(fh)
    else:
        f = os.path.join(d, "dT_%.3f.cbin" % z)
        with open(f, "wb") as fh:
            np.array(x.shape, dtype="i4").tofile(fh)
            x.astype("f8" if src == "cbin64" else "f4").flatten(order="F" if src == "cbinF" else "C").tofile(fh)
    return f


def check_lc(case):
    t = core.t2c()
    zs, sh, ax, kind, src = ZS[case["zs"]], case["sh"], case["ax"], case["kind"], case["src"]
    C = cubes(zs, sh)
    zl, zh = RNG[case["rng"]]
    dnu = case.get("dnu")
    box = case.get("box", BOX)
    kw = {"interpolation": kind, "los_axis": ax}
    if kind == "linear" and ax == 0:
        kw = {}
    if box is not None:
        kw["box_length_mpc"] = box
    if zl is not None:
        kw["z_low"] = zl
    if zh is not None:
        kw["z_high"] = zh
    if dnu is not None:
        kw["depth_mhz"] = dnu
    if kind not in ("linear", "step", "sigmoid"):
        must_raise(L().make_lightcone, C, kind="bad-interpolation", what=kind, exc=ValueError, interpolation=kind)
        return "bad"
    if case["rng"] == "outside":
        must_raise(L().make_lightcone, C, kind="outside-range", what=str(case), **kw)
        return "outside"
    zl, zh = min(zs) if zl is None else zl, max(zs) if zh is None else zh
    b = t.conv.LB if box is None else box
    oz = grid_nu(zl, zh, dnu) if dnu else grid_cdist(zl, zh, sh[0], b)
    oz = oz[(oz >= min(zs)) & (oz <= max(zs))]
    if any(abs(z - q) < 1e-9 for z in oz[1:-1] for q in zs) or (case["rng"] == "wide" and any(abs(z - q) < 1e-9 for z in oz for q in zs)):
        return None
    ref = ref_lc(C, zs, oz, ax, kind)
    if kind == "step" and any(abs(z - (a + q) / 2) < 1e-9 for *_, a, q, z in ref):
        return None
    want = np.stack([r[0] for r in ref], axis=-1).astype("f4")
    with core.scratch_dir() as d:
        if src == "dict":
            got, z = call(L().make_lightcone, shuffled(C, sum(sh) + ax), **kw)
        elif src == "dict+fn":
            got, z = call(L().make_lightcone, shuffled({q: str(i) for i, q in enumerate(zs)}, ax), reading_function=lambda s: C[zs[int(s)]], **kw)
        elif src == "list+fn":
            order = [zs.index(q) for q in sorted(zs, key=lambda q: (q * 7.3) % 1)]     # not sorted in redshift
            got, z = call(L().make_lightcone, [str(i) for i in order], reading_function=lambda s: C[zs[int(s)]], file_redshifts=np.array([zs[i] for i in order]), **kw)
        else:
            if ax:      # a folder name with a blank
                d = os.path.join(d, "my run")
                os.mkdir(d)
            fs = [write_cube(d, src, q, C[q]) for q in zs]
            lst = fs[1:] + fs[:1]
            lz = zs[1:] + zs[:1]
            if src == "cbin64":
                kw["cbin_bits"] = 64
            if src == "cbinF":
                kw["cbin_order"] = "F"
            if src == "density-raw":
                kw["raw_density"] = True
            if src == "textfile" or src == "textfile+fn":
                tf = os.path.join(d, "list of files.txt")
                open(tf, "w").write("\n".join(lst) + "\n")
                if src == "textfile":
                    got, z = call(L().make_lightcone, tf, **kw)
                else:
                    got, z = call(L().make_lightcone, tf, reading_function=lambda f: t.read_cbin(str(f)), file_redshifts=lz, **kw)
            elif src == "dir":
                got, z = call(L().make_lightcone, d, **kw)
            elif src == "zlist":
                got, z = call(L().make_lightcone, lst, file_redshifts=lz, **kw)
            elif src == "zfile":
                zf = os.path.join(d, "z.txt")
                np.savetxt(zf, lz)
                got, z = call(L().make_lightcone, lst, file_redshifts=zf, **kw)
            else:
                got, z = call(L().make_lightcone, lst, **kw)
            if src == "density":
                c = t.const
                want = want.astype("f8") * (c.rho_crit_0 * (sh[0] / t.conv.nbox_fine) ** 3 * c.OmegaB)
    near(z, oz, "lc-redshifts", str(case), rtol=1e-9)
    near(got, want, "lc-slices", str(case), rtol=2e-6, atol=5e-45)
    return digest(got)


# ------------------------------------------------------------- step per cell

def cases_cell(tier):
    for mode in ("generic", "half", "same", "one", "two", "binary"):
        for n in (3, 4, 6):
            for frac in (0., .1, .35, .5, .65, .9, .999):
                for ax in (0, 1, 2):
                    yield {"mode": mode, "n": n, "f": frac, "ax": ax}


def check_cell(case):
    n, ax = case["n"], case["ax"]
    hi = core.field((n, n), 1, lo=0, hi=1)
    if case["mode"] == "generic":
        lo = core.field((n, n), 2, lo=0, hi=1)
    elif case["mode"] == "half":
        lo = np.where(core.field((n, n), 4) > .5, core.field((n, n), 2), hi)
    elif case["mode"] == "binary":
        hi = (hi > .6).astype(float)
        lo = np.maximum(hi, (core.field((n, n), 2) > .5))
    else:
        lo = hi.copy()
        for k in range({"same": 0, "one": 1, "two": 2}[case["mode"]]):
            lo[k, (2 * k + 1) % n] += .7
    zl, zh = 7., 9.
    z = zl + case["f"] * (zh - zl)
    H, Lo = np.zeros((n, n, n)), np.zeros((n, n, n))
    for A, s in ((H, hi), (Lo, lo)):
        np.moveaxis(A, ax, 0)[:] = s

    def cut(q):
        """the slice at redshift q of the light-cone of the two cubes"""
        lc, zs = call(L().make_lightcone, {zl: Lo, zh: H}, z_low=q, z_high=min(q + 1e-6, zh), interpolation="step_cell", los_axis=ax, box_length_mpc=600.)
        expect(len(zs) == 1 and zs[0] == q, "grid", f"{case}: {zs}")
        return lc[:, :, 0]

    hi, lo = hi.astype(np.float32).astype(float), lo.astype(np.float32).astype(float)   # light-cones are in single precision
    H, Lo = H.astype(np.float32).astype(float), Lo.astype(np.float32).astype(float)
    got = cut(z)
    isl, ish = got == lo, got == hi
    expect(np.all(isl | ish), "cell-values", f"{case}: a cell has neither its low nor its high redshift value")
    diff = np.abs(hi - lo) > 1e-3
    # later in redshift, cells only change from the low to the high redshift value
    g2 = cut(min(z + .2, zh - 1e-5))
    if case["mode"] in ("generic", "half", "two"):
        expect(not np.any(diff & ish & ~(g2 == hi)), "cell-monotonic", f"{case}: a cell jumped back")
        sm = core.t2c().smoothing.smooth_gauss(hi, sigma=4.)
        # among the changing cells those in the more ionised (higher) surroundings keep the low redshift value longest
        a, b = sm[diff & isl & ~ish], sm[diff & ish & ~isl]
        if len(a) and len(b):
            expect(a.min() >= b.max() - 1e-8, "cell-order", f"{case}: {a} {b}")
    sm = core.t2c().smoothing.smooth_gauss(hi, sigma=4.)
    if case["mode"] in ("generic", "half", "one", "two"):
        # transitions of the changing cells are spread over the bracket by rank
        v = np.sort(sm[diff])
        if len(v) < 2:
            tz = np.full(lo.shape, (zl + zh) / 2)
        else:
            tz = zl + (zh - zl) * np.interp(sm, v, np.linspace(0, 1, len(v)))
        clear = diff & (np.abs(tz - z) > 1e-6)
        expect(len(v) < 2 or np.diff(v).min() > 1e-8, "setup", "tie")
        want = np.where(z < tz, lo, hi)
        eq(got[clear], want[clear], "cell-rank", str(case))
    full = call(L().make_lightcone, {7.: Lo, 9.: H}, interpolation="step_cell", los_axis=ax, box_length_mpc=600.)
    cone = full[0]
    ok = (cone == lo.astype("f4")[:, :, None]) | (cone == hi.astype("f4")[:, :, None])
    expect(bool(np.all(ok)), "cell-cone", f"{case}: light-cone cell with neither value")
    return digest(got)


# ------------------------------------------------------------- velocity

def cases_v(tier):
    for zs in list(ZS)[:4]:
        for sh in ((3, 3, 3), (4, 4, 4), (2, 4, 3)):
            for ax in (0, 1, 2):
                for rng in ("none", "inside", "high"):
                    yield {"zs": zs, "sh": sh, "ax": ax, "rng": rng, "src": "dict"}
                yield {"zs": zs, "sh": sh, "ax": ax, "rng": "none", "src": "files"}
    yield {"zs": "three", "sh": (4, 4, 4), "ax": 0, "rng": "none", "src": "fn"}


def check_v(case):
    t = core.t2c()
    zs, sh, ax, src = ZS[case["zs"]], case["sh"], case["ax"], case["src"]
    V, D = cubes(zs, sh, 3, vec=True), cubes(zs, sh, 9)
    zl, zh = RNG[case["rng"]]
    kw = {"los_axis": ax}
    if zl is not None:
        kw["z_low"] = zl
    if zh is not None:
        kw["z_high"] = zh
    zl, zh = min(zs) if zl is None else zl, max(zs) if zh is None else zh
    oz = grid_cdist(zl, zh, sh[0], t.conv.LB)
    if any(abs(z - q) < 1e-9 for z in oz[1:] for q in zs):
        return None
    with core.scratch_dir() as d:
        if src == "dict":
            got, z = call(L().make_velocity_lightcone, shuffled(V, ax), shuffled(D, ax + 1), **kw)
            W = V
        elif src == "fn":
            got, z = call(L().make_velocity_lightcone, {q: i for i, q in enumerate(zs)}, {q: i for i, q in enumerate(zs)},
                          vel_reading_function=lambda i: V[zs[i]] * 2, dens_reading_function=lambda i: D[zs[i]], **kw)
            W = {q: V[q] * 2 for q in zs}
        else:
            vf, df = [], []
            for q in zs:
                f = os.path.join(d, "%.3fv_all.dat" % q)
                with open(f, "wb") as fh:
                    np.array(sh, dtype="i4").tofile(fh)
                    V[q].astype("f4").flatten(order="F").tofile(fh)
                vf.append(f)
                df.append(write_cube(d, "density", q, D[q]))
            got, z = call(L().make_velocity_lightcone, vf, df, **kw)
            W = {q: V[q].astype("f4") * t.conv.velconvert(q) / (D[q].astype("f4") / 8) for q in zs}
    want = np.stack([r[0] for r in ref_lc(W, zs, oz, ax, "linear")], axis=-1)
    near(z, oz, "vlc-redshifts", str(case), rtol=1e-9)
    near(got, want, "vlc-slices", str(case), rtol=3e-6)
    return digest(got)


# ------------------------------------------------------------- sub-volumes

def cases_sub(tier):
    for N in (7, 8, 20):
        for cz in (8.0, 8.13, 8.4):
            for how in ("mpc", "mhz"):
                for depth in ("tiny", "small", "mid", "max"):
                    for odd in (True, False):
                        for sm in (True, False):
                            for verbose in (True, False):
                                yield {"N": N, "cz": cz, "how": how, "d": depth, "odd": odd, "sm": sm, "v": verbose}
    for bad in ("both", "none", "low", "high"):
        yield {"bad": bad}


def check_sub(case):
    t = core.t2c()
    F = L().get_lightcone_subvolume
    if "bad" in case:
        z = np.linspace(7.5, 9., 10)
        x = np.ones((2, 2, 10))
        kw = {"both": dict(depth_mhz=1., depth_mpc=10.), "none": {}, "low": dict(depth_mpc=400.), "high": dict(depth_mhz=60.)}[case["bad"]]
        must_raise(F, x, z, 7.6 if case["bad"] == "low" else 8.9, kind="subvolume-reject", what=str(case), **kw)
        return case["bad"]
    z = grid_cdist(7.5, 30., 64, 400.)[:case["N"] * 4:4]
    z = np.array(z)
    zc = min(case["cz"], (z[0] + z[-1]) / 2)
    c = t.const
    nu = lambda q: c.nu0 / (1 + q)
    dist = lambda q: float(t.cosmo.z_to_cdist(float(q)))
    if case["how"] == "mpc":
        full = 2 * min(dist(zc) - dist(z[0]), dist(z[-1]) - dist(zc))
    else:
        full = 2 * min(nu(z[0]) - nu(zc), nu(zc) - nu(z[-1]))
    depth = full * {"tiny": .01, "small": .33, "mid": .61, "max": .998}[case["d"]]
    if case["how"] == "mpc":
        lo, hi = float(t.cosmo.cdist_to_z(dist(zc) - depth / 2)), float(t.cosmo.cdist_to_z(dist(zc) + depth / 2))
        D = depth
        kw = {"depth_mpc": depth}
    else:
        lo, hi = c.nu0 / (nu(zc) + depth / 2) - 1, c.nu0 / (nu(zc) - depth / 2) - 1
        D = dist(hi) - dist(lo)
        kw = {"depth_mhz": depth}
    a, b = int(np.argmin(np.abs(z - lo))), int(np.argmin(np.abs(z - hi)))
    if case["odd"] and (b - a) % 2 == 0:
        b += 1
    x = core.field((3, 2, len(z)), 5, lo=-1, hi=3)
    want = x[:, :, a:b]
    if case["sm"]:
        want = want - want.mean(axis=(0, 1), keepdims=True) if b > a else want
    if not (case["odd"] and case["sm"] and case["v"]):
        kw.update(odd_num_cells=case["odd"], subtract_mean=case["sm"], verbose=case["v"])
    fov = None if case["N"] == 7 else 123.
    if fov:
        kw["fov_Mpc"] = fov
    sub, dims, zz = call(F, x, z, zc, **kw)
    fov = fov or t.conv.LB
    near(sub, want, "subvolume", str(case), atol=1e-12)
    near(zz, z[a:b], "subvolume-z", str(case))
    near(dims, [fov, fov, D], "subvolume-dims", str(case), rtol=1e-6)
    if case["odd"]:
        expect(sub.shape[2] % 2 == 1, "subvolume-odd", str(case))
    return digest(sub, a, b)


# ------------------------------------------------------------- boxes of everyday size, many snapshots, several periods along the line of sight

def cases_real(tier):
    for zs in ("three", "many"):
        for sh, box in (((20, 24, 17), 90.), ((30, 30, 30), 244. / .7), ((16, 16, 16), 70.)):
            for ax in (0, 1, 2):
                for kind in ("linear", "step", "sigmoid"):
                    yield {"f": "lc", "zs": zs, "sh": sh, "ax": ax, "kind": kind, "rng": "none", "src": "dict", "box": box}
                for rng in ("inside", "snap"):
                    yield {"f": "lc", "zs": zs, "sh": sh, "ax": ax, "kind": "linear", "rng": rng if zs == "three" else "low", "src": "dict", "dnu": .21, "box": box}
                for src in ("list+fn", "cbin", "dir", "xfrac", "textfile"):
                    yield {"f": "lc", "zs": zs, "sh": sh, "ax": ax, "kind": "linear", "rng": "none", "src": src, "box": box}
    for zs in ("three", "many"):
        for ax in (0, 1, 2):
            for src in ("dict", "files"):
                yield {"f": "v", "zs": zs, "sh": (20, 16, 18), "ax": ax, "rng": "none", "src": src}
    for n in (16, 25):
        for fr in (.1, .5, .9):
            for ax in (0, 1, 2):
                yield {"f": "cell", "mode": "generic", "n": n, "fr": fr, "ax": ax}


def check_real(case):
    c = {("f" if k == "fr" else k): v for k, v in case.items() if k != "f"}
    return {"lc": check_lc, "v": check_v, "cell": check_cell}[case["f"]](c)


# ------------------------------------------------------------- inputs that cannot be right

def cases_rej(tier):
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            for src in ("list", "list+fn", "textfile", "zfile", "velocity"):
                yield {"n": n, "m": m, "src": src}
    for bad in ("mixed-directory", "no-such-file", "number", "no-such-zfile", "fn-without-z"):
        for n in (2, 3):
            yield {"n": n, "m": n, "src": bad}


def check_rej(case):
    """n files with m redshifts: never a light-cone unless the numbers agree; no light-cone from other input"""
    n, m, src = case["n"], case["m"], case["src"]
    zf, zz = [7. + i for i in range(n)], [7. + i for i in range(m)]
    C = cubes(zf, (2, 2, 2))
    with core.scratch_dir() as d:
        files = [write_cube(d, "cbin", z, C[z]) for z in zf]
        f = lambda **kw: L().make_lightcone(kw.pop("names", files), box_length_mpc=BOX, **kw)
        run = None
        if src == "list":
            run = lambda: f(file_redshifts=zz)
        elif src == "list+fn":
            run = lambda: f(names=[C[z] for z in zf], file_redshifts=np.array(zz), reading_function=lambda x: x)
        elif src == "textfile":
            open(os.path.join(d, "names.txt"), "w").write("\n".join(files) + "\n")
            run = lambda: f(names=os.path.join(d, "names.txt"), file_redshifts=zz)
        elif src == "zfile":
            np.savetxt(os.path.join(d, "z.txt"), zz)
            run = lambda: f(file_redshifts=os.path.join(d, "z.txt"))
        elif src == "velocity":
            fn = lambda i: C[zf[0]]
            dens = [write_cube(d, "density", z, C[z]) for z in zf]
            run = lambda: L().make_velocity_lightcone(dens[:1] * m, dens, file_redshifts=zf)
        elif src == "mixed-directory":
            open(os.path.join(d, "notes.txt"), "w").write("x")
            must_raise(f, names=d, kind="mixed-directory")
            return src
        elif src == "no-such-file":
            must_raise(f, names=os.path.join(d, "nothing"), kind="no-such-file")
            return src
        elif src == "number":
            must_raise(f, names=3, kind="number-as-files")
            return src
        elif src == "no-such-zfile":
            must_raise(f, file_redshifts=os.path.join(d, "nothing"), kind="no-such-redshift-file")
            return src
        elif src == "fn-without-z":
            must_raise(f, names=[C[z] for z in zf], reading_function=lambda x: x, kind="no-redshifts")
            return src
        if n != m:
            must_raise(run, kind="numbers-differ", what=str(case))
            return "rejected"
        if n == 1 or src == "velocity":
            return "one"
        lc, oz = call(run)
        ref = ref_lc(C, zf, np.asarray(oz), 0, "linear")
        near(lc, np.stack([r[0] for r in ref], -1), "light-cone", rtol=1e-5)
        return len(oz)


SUITES = [
    FnSuite("redshift-grids", cases_grid, check_grid, "5 ranges x cells x boxes; 5 ranges x channel widths; rejections"),
    FnSuite("lightcones", cases_lc, check_lc, "4 snapshot sets x 4 shapes x 3 axes x 3 interpolations; x 6 ranges x 3 channel widths; x 13 ways to pass the cubes"),
    FnSuite("step-cell", cases_cell, check_cell, "5 change patterns x 3 sizes x 7 positions x 3 axes"),
    FnSuite("velocity", cases_v, check_v, "4 snapshot sets x 3 shapes x 3 axes x ranges, arrays and files"),
    FnSuite("subvolumes", cases_sub, check_sub, "3 lengths x 3 centres x 2 units x 4 depths x 8 flag combinations; rejections"),
    FnSuite("realistic", cases_real, check_real, "boxes of up to 27000 cells, 60 snapshots, up to 6 box lengths along the line of sight: light-cones from arrays and files", chunk=1),
    FnSuite("rejections", cases_rej, check_rej, "1-3 files with 1-3 redshifts x 5 ways to pass them; 5 kinds of unusable input"),
]
