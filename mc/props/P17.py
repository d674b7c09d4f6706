"""Finding simulation outputs: redshifts in file names, ranges of redshifts, coeval cubes between snapshots, whatever the order in which the file system lists them."""
import contextlib
import glob
import itertools
import os
import numpy as np
from mc import core
from mc.core import FnSuite, call, eq, near, expect, digest, must_raise
from mc.props.P13 import reset

LEVEL = "model_checking"
ASSUMPTIONS = ["the order of a directory listing is arbitrary: every permutation is explored by substituting glob.glob",
               "names in which two number sequences are equally long, and names without extension, are not judged"]


@contextlib.contextmanager
def listing(perm):
    """directory listings come in the given order"""
    orig = glob.glob

    def g(*a, **k):
        r = sorted(orig(*a, **k))
        p = [i for i in perm if i < len(r)]
        p += [i for i in range(len(r)) if i not in p]
        return [r[i] for i in p]
    glob.glob = g
    try:
        yield
    finally:
        glob.glob = orig


# --------------------------------------------------------------- redshift lists

ZS = [6.0, 7.059, 8.5, 10.11, 12.048]


def cases_list(tier):
    lims = [None, 5.0, 6.0, 6.5, 7.059, 8.5, 10.11, 11.3, 12.048, 14.0]
    perms = [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 0, 4, 1, 3)]
    for kind, (lo, hi), br, p in itertools.product(("xfrac", "dens", "source"), itertools.product(lims, lims), (False, True), perms):
        if lo is not None and hi is not None and lo > hi:
            continue
        for slash in (False, True):
            if slash and p != perms[0]:
                continue
            yield {"kind": kind, "lo": lo, "hi": hi, "bracket": br, "perm": p, "slash": slash}


def check_list(case):
    t = core.t2c()
    H = t.helper_functions
    k, lo, hi = case["kind"], case["lo"], case["hi"]
    fmt = {"xfrac": "xfrac3d_%.3f.bin", "dens": "%.3fn_all.dat", "source": "%.3f-coarsest_wsubgrid_sources.dat"}[k]
    junk = {"xfrac": "xfrac3d_mean.bin", "dens": "meann_all.dat", "source": "all-coarsest_wsubgrid_sources.dat"}[k]
    fn = {"xfrac": H.get_xfrac_redshifts, "dens": H.get_dens_redshifts, "source": H.get_source_redshifts}[k]
    with core.scratch_dir() as d0:
        d = os.path.join(d0, "run_512.7_n_all-x")
        os.mkdir(d)
        for n in [fmt % z for z in ZS] + [junk, "notes.txt", "7.3.cbin"]:
            open(os.path.join(d, n), "w").close()
        if case["slash"]:
            d += "/"
        with listing(case["perm"]):
            kw = {"z_low": lo, "z_high": hi, "bracket": case["bracket"]}
            if case["bracket"]:
                if (lo is not None and lo < ZS[0]) or (hi is not None and hi > ZS[-1]) or (lo is not None and lo > ZS[-1]) or (hi is not None and hi < ZS[0]):
                    if (lo is not None and lo < ZS[0]) or (hi is not None and hi > ZS[-1]):
                        must_raise(fn, d, kind="bracket-impossible", **kw)
                    return None
                a = max(z for z in ZS if z <= lo) if lo is not None else -1
                b = min(z for z in ZS if z >= hi) if hi is not None else 99
            else:
                a, b = (-1 if lo is None else lo), (99 if hi is None else hi)
            want = [z for z in ZS if a <= z <= b]
            eq(call(fn, d, **kw), want, "redshift-list", str(case))
            if k != "source" and lo is None and hi is None and not case["bracket"]:
                os.remove(os.path.join(d, junk))
                ft = {"xfrac": "/xfrac3d_*.bin", "dens": "/*n_all.dat"}[k]
                eq(call(t.get_zs_list, d, file_type=ft), ZS, "zs-list", str(case))
                if k == "xfrac":
                    eq(call(t.get_zs_list, d), ZS, "zs-list", str(case))
    return digest(np.array(want), k)


# --------------------------------------------------------------- names

def cases_names(tier):
    pre = ["", "xfrac3d_", "run2_", "a.b_", "density", "Temper3D_", "x2y3z4_", "z="]
    zs = ["7.059", "10.000", "12.3456", "6", "15", "0.250"]
    suf = ["", "n_all", "v_all", "_v1", ".x", "-c"]
    for p, z, s, e, dr in itertools.product(pre, zs, suf, (".bin", ".dat", ".cbin", ".npy"), ("", "/data/512.75234_run7/", "rel.d/")):
        yield {"pre": p, "z": z, "suf": s, "ext": e, "dir": dr}


def runs(s):
    out, cur = [], ""
    for c in s + "#":
        if c.isdigit() or c == ".":
            cur += c
        elif cur:
            out.append(cur)
            cur = ""
    return out


def check_names(case):
    t = core.t2c()
    base = case["pre"] + case["z"] + case["suf"]
    name = case["dir"] + base + case["ext"]
    rs = runs(base)
    m = max(len(r) for r in rs)
    long_ = [r for r in rs if len(r) == m]
    obs = []
    got = call(t.determine_redshift_from_filename, name)
    if len(long_) == 1 and long_[0].strip(".") == case["z"]:
        eq(got, float(case["z"]), "redshift-of-name", name)
        obs.append(case["z"])
    b = base + case["ext"]
    want = ("xfrac" if "xfrac3d" in b else "density" if "n_all" in b else "temper" if "Temper" in b
            else "velocity" if "v_all" in b else "cbin" if ".cbin" in b else "unknown")
    eq(call(t.determine_filetype, name), want, "filetype", name)
    nodig = case["dir"] + case["pre"].translate({ord(c): None for c in "0123456789."}) + case["suf"].translate({ord(c): None for c in "0123456789."}) + "q" + case["ext"]
    eq(call(t.determine_redshift_from_filename, nodig), -1, "no-redshift-in-name", nodig)
    eq(call(t.determine_redshift_from_filename, case["dir"] + "a.b..c" + case["ext"]), -1, "no-redshift-in-name", case["dir"] + "a.b..c" + case["ext"])
    return digest(case["z"], want) if obs else None


# --------------------------------------------------------------- coeval cubes

CZ = [6.5, 7.25, 8.0, 9.125]
SH = (3, 4, 2)


def cube(kind, z):
    """a different cube for every redshift (not a smooth function of it)"""
    s = {6.5: 3, 7.25: 11, 8.0: 5, 9.125: 17}.get(z, 23)
    if kind == "x":
        return core.field(SH, s)
    if kind == "v":
        return core.field((3,) + SH, s, lo=-40, hi=60).astype(np.float32).astype(np.float64)
    return (core.field(SH, s, lo=.5, hi=4.) * 2e10).astype(np.float32).astype(np.float64)


def populate(t, d):
    os.mkdir(os.path.join(d, "x"))
    os.mkdir(os.path.join(d, "n"))
    os.mkdir(os.path.join(d, "v"))
    for z in CZ:
        t.XfracFile().write_to_file(os.path.join(d, "x", "xfrac3d_%.3f.bin" % z), cube("x", z))
        t.VelocityFile().write_to_file(os.path.join(d, "v", "%.3fv_all.dat" % z), cube("v", z))
    for z in CZ + [5.75, 7.625]:        # densities are written more often
        if z == 7.625:
            continue
        t.DensityFile().write_to_file(os.path.join(d, "n", "%.3fn_all.dat" % z), raw_density=cube("n", z))


ZQ = [6.5, 7.25, 8.0, 9.125, 6.6, 7.0, 7.9, 8.0625, 9.0, 7.2499]


def cases_coeval(tier):
    perms = list(itertools.permutations(range(4))) if tier == "thorough" else [(0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 0, 3, 1), (1, 0, 3, 2)]
    for z in ZQ + [5.0, 9.2]:
        for p in perms:
            for api in ("usefuls", "c2ray"):
                yield {"z": z, "perm": p, "api": api}


def lin(f, z, zs):
    if z in zs:
        return f(z)
    a, b = max(q for q in zs if q < z), min(q for q in zs if q > z)
    w = (z - a) / (b - a)
    return f(a) * (1 - w) + f(b) * w


def check_coeval(case):
    t = reset()
    z = case["z"]
    U = t.usefuls if case["api"] == "usefuls" else t.read_files
    sfx = "" if case["api"] == "usefuls" else "_c2ray"
    xf, nf, f21 = (getattr(U, n + sfx) for n in ("coeval_xfrac", "coeval_dens", "coeval_21cm"))
    cf = t.const.rho_crit_0 * (SH[0] / 8000) ** 3 * t.const.OmegaB

    def rd(q):
        return np.float32(1) * cube("n", q) * cf

    with core.scratch_dir() as d:
        populate(t, d)
        X, N, V = (os.path.join(d, k) for k in "xnv")
        with listing(case["perm"]):
            if z < CZ[0] or z > CZ[-1]:
                must_raise(xf, X, z, kind="extrapolated", what=str(case))
                if z > CZ[-1]:
                    must_raise(nf, N, z, kind="extrapolated", what=str(case))
                if case["api"] == "usefuls":
                    must_raise(t.usefuls.coeval_vel, N, V, z, kind="extrapolated", what=str(case))
                return None
            want_x = lin(lambda q: cube("x", q), z, CZ)
            gx = call(xf, X, z)
            near(gx, want_x, "coeval-xfrac", str(case), rtol=1e-12)
            must_raise(xf, X, z, interpolation="cubic", kind="unknown-interpolation")
            if case["api"] == "c2ray" and z not in CZ:
                gn = call(nf, N, z)         # the structures of the snapshot before (its scaling is not judged)
                prev = rd(min(q for q in CZ if q > z))
                near(gn / gn.mean(), prev / prev.mean(), "coeval-dens-previous", str(case), rtol=2e-3)
                return digest(gx)
            want_n = lin(rd, z, CZ + [5.75])
            gn = call(nf, N, z)
            near(gn, want_n, "coeval-dens", str(case), rtol=2e-3)       # subnormal single precision for so small a mesh
            expect(gn.dtype == np.float64, "coeval-dens-type", str(gn.dtype))
            ref = t.temperature.mean_dt(z) * (1 - gx) * gn / (t.const.rho_crit_0 * t.const.OmegaB)
            g = call(f21, X, N, z)
            near(g, ref, "coeval-21cm", str(case), rtol=1e-6)
            g = call(f21, X, N, z, mean_subtract=True)
            m = ref.mean() if case["api"] == "usefuls" else ref.mean(axis=(0, 1), keepdims=True)
            near(g, ref - m, "coeval-21cm-mean", str(case), rtol=1e-6, scale=1e-6)
            if case["api"] == "usefuls":
                near(call(t.usefuls.coeval_overdens, N, z), gn / gn.mean() - 1, "coeval-overdens", str(case), rtol=1e-6, atol=1e-9)
                kms = lambda q: cube("v", q) * t.conv.velconvert(q) / (cube("n", q) / 8)
                near(call(t.usefuls.coeval_vel, N, V, z), lin(kms, z, CZ), "coeval-vel", str(case), rtol=1e-6, scale=1e-9)
                must_raise(nf, N, z, interpolation="cubic", kind="unknown-interpolation")
                must_raise(t.usefuls.coeval_vel, N, V, z, interpolation="cubic", kind="unknown-interpolation")
        return digest(gx, g)


SUITES = [
    FnSuite("redshift-lists", cases_list, check_list, "3 file types x 10 x 10 limits x bracket x 3 listing orders x trailing slash, with unrelated files"),
    FnSuite("names", cases_names, check_names, "8 prefixes x 6 redshifts x 6 suffixes x 4 extensions x 3 directories"),
    FnSuite("coeval", cases_coeval, check_coeval, "12 redshifts (on, between and outside snapshots) x 5 (thorough all 24) listing orders x 2 APIs x 5 quantities"),
]
