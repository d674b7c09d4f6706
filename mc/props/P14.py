"""Cosmological conversions: distances, redshifts, frequencies, ages, angles, virial temperatures, under every cosmology and history of cosmologies."""
import itertools
import math
import numpy as np
from mc import core
from mc.core import FnSuite, call, near, expect, eq, digest
from mc.props.P13 import reset, MPC

LEVEL = "model_checking"
ASSUMPTIONS = ["flat cosmologies (z_to_cdist has no curvature); luminosity distances also for other Lambda",
               "angular sizes to 1e-4 (the code uses pi = 3.1415)"]
COSMO = [(.7, .27, None), (.674, .315, .685), (.5, 1., 0.), (.9, .2, None), (.7, .31, None), (.6, .27, None)]
_x, _w = np.polynomial.legendre.leggauss(80)


def integ(f, a, b):
    y = .5 * (b - a) * _x + .5 * (b + a)
    return .5 * (b - a) * float(np.sum(_w * f(y)))


def setc(t, c):
    call(t.set_hubble_h, c[0])
    call(t.set_omega_matter, c[1])
    if c[2] is not None:
        call(t.set_omega_lambda, c[2])
    return c[0], c[1], (1 - c[1] if c[2] is None else c[2])


def ref_cdist(z, h, om, lam):
    return 3e5 / (100 * h) * integ(lambda x: np.exp(x) / np.sqrt(om * np.exp(3 * x) + lam), 0, math.log(1 + z)) if z else 0.


def ref_ldist(z, h, om, lam, k=0):
    q = .5 * om - lam
    d = integ(lambda x: 1 / np.sqrt((1 + x) ** 2 * (1 + 2 * (q + lam) * x) - x * (2 + x) * lam), 0, z) if z else 0.
    if z > 3:
        e = [0, .5, 1.5, 3.] + [v for v in (7., 15., 40.) if v < z] + [z]
        d = sum(integ(lambda x: 1 / np.sqrt((1 + x) ** 2 * (1 + 2 * (q + lam) * x) - x * (2 + x) * lam), a, b) for a, b in zip(e, e[1:]))
    if k > 0:
        d = math.sinh(math.sqrt(k) * d) / math.sqrt(k)
    elif k < 0:
        d = math.sin(math.sqrt(-k) * d) / math.sqrt(-k)
    return 3e5 * (1 + z) * d / (100 * h)


def ref_age(z, h, om, lam):
    a = 1 / (1 + z)
    # substitution a = u^(2/3) removes the square-root behaviour at 0
    v = integ(lambda u: (2 / 3) / np.sqrt(om + lam * u ** 2), 0, a ** 1.5)
    return v / (100 * h) * MPC / 1e5 / 3.154e7 / 1e9


ZS = [0., 2e-4, 1e-3, .01, .3, .99, 1., 2.5, 6., 9., 12.34, 30., 60., 99.]


def cases_calc(tier):
    for c in COSMO:
        for z in ZS:
            for form in ("scalar", "array"):
                yield {"c": c, "z": z, "form": form}
        for form in ("int", "intarray", "list", "np", "array2"):
            yield {"c": c, "z": 9, "form": form}
            yield {"c": c, "z": 1, "form": form}
    for k in (.3, -.2):
        for z in (1., 8.):
            yield {"c": COSMO[0], "z": z, "form": "scalar", "k": k}


def check_calc(case):
    t = reset()
    try:
        p = setc(t, case["c"])
        z, form = case["z"], case["form"]
        zs = [z] if form in ("scalar", "int", "np", "array") else [z, z + 3, 2 * z]
        if form == "array2":
            zs = zs[::-1]
        fm = {"scalar": lambda v: float(v[0]), "int": lambda v: int(v[0]), "np": lambda v: np.float64(v[0]), "array": lambda v: np.array(v, dtype=float),
              "intarray": lambda v: np.array(v, dtype=int), "list": lambda v: list(v), "array2": lambda v: np.array(v, dtype=float)}[form]
        Z = fm(zs)
        C = t.cosmo
        sh = lambda w: np.asarray(w, dtype=float) if len(zs) > 1 else np.float64(w[0])
        flat = abs(p[1] + p[2] - 1) < 1e-12
        res = []

        def cmp(got, want, kind, rtol=1e-6):
            got = np.asarray(got, dtype=float)
            want = np.asarray(want, dtype=float)
            if len(zs) == 1:
                got = got.reshape(-1)[0] if got.size == 1 else got
                want = want.reshape(-1)[0]
            near(got, want, kind, str(case), rtol=rtol, atol=1e-9)
            res.append(np.round(got, 4).tolist())
        d = [ref_cdist(q, *p) for q in zs]
        if case.get("k") is None:
            cmp(call(C.z_to_cdist, Z), d, "cdist")
            cmp(call(C.z_to_age, Z), [ref_age(q, *p) for q in zs], "age")
            cmp(call(C.cdist_to_z, fm(d) if form not in ("int", "intarray") else sh(d)), zs, "cdist-inverse", 1e-4)
            if form in ("int", "intarray"):     # integer distances
                di = [int(q) for q in d]
                z2 = call(C.cdist_to_z, fm(di))
                cmp([ref_cdist(float(q), *p) for q in np.atleast_1d(z2)], di, "cdist-int", 1e-4)
        if form == "list":
            return digest(*res)
        ld = [ref_ldist(q, *p, case.get("k") or 0) for q in zs]
        if case.get("k") is not None:
            cmp(call(C.luminosity_distance, Z, case["k"]), ld, "ldist-k")
            return digest(*res)
        cmp(call(C.luminosity_distance, Z), ld, "ldist", 1e-6)
        if flat:
            near(ld, np.array(d) * (1 + np.array(zs)), "setup", "reference", rtol=1e-6)
        nu = call(C.z_to_nu, Z)
        cmp(nu, [1420. / (1 + q) for q in zs], "nu", 1e-12)
        cmp(call(C.nu_to_z, nu), zs, "nu-inverse", 1e-9)
        cmp(call(C.nu_to_cdist, nu), d, "nu-cdist", 1e-6)
        cmp(call(C.nu_to_wavel, nu), [3e8 * (1 + q) / 1.42e9 for q in zs], "wavelength", 1e-9)
        cmp(call(C.c_to_p, 10., Z), [10. / (1 + q) for q in zs], "c_to_p", 1e-12)
        cmp(call(C.p_to_c, 10., Z), [10. * (1 + q) for q in zs], "p_to_c", 1e-12)
        if min(zs) > 0:
            cmp(call(C.angular_size, 5., Z), [math.degrees(5e-3 / (l / (1 + q) ** 2)) * 3600 for q, l in zip(zs, ld)], "angular-size", 1e-4)
            w = [math.degrees(50. * (1 + q) / l) for q, l in zip(zs, ld)]
            cmp(call(C.angular_size_comoving, 50., Z), w, "angular-comoving", 1e-4)
            cmp(call(C.deg_to_cdist, sh(w), Z), [50.] * len(zs), "deg-inverse", 1e-4)
            for s in (1., 1000.):
                near(call(C.deg_to_cdist, call(C.angular_size_comoving, s, Z), Z), np.full(np.shape(call(C.deg_to_cdist, 1., Z)), s), "deg-roundtrip", str(case), rtol=1e-9)
        om, ol = p[1], t.const.OmegaL
        for M in (1e8, 3e10):
            T = call(C.M_to_Tvir, M, Z)
            omz = [om * (1 + q) ** 3 / (om * (1 + q) ** 3 + ol + (1 - om - ol) * (1 + q) ** 2) for q in zs]
            dc = [18 * math.pi ** 2 + 82 * (o - 1) - 39 * (o - 1) ** 2 for o in omz]
            cmp(T, [1.98e4 * (M * p[0] / 1e8) ** (2 / 3) * (om / o * x / (18 * math.pi ** 2)) ** (1 / 3) * (1 + q) / 10 for q, o, x in zip(zs, omz, dc)], "Tvir", 1e-9)
            cmp(call(C.Tvir_to_M, T, Z), [M] * len(zs), "Tvir-inverse", 1e-9)
        return digest(*res)
    finally:
        reset()


def cases_dense(tier):
    n = 400 if tier == "quick" else 4000
    for c in COSMO:
        for i in range(0, n, 20):
            yield {"c": c, "i": i, "n": n}


def check_dense(case):
    """inverse and monotonicity on a dense set of distances covering 0 <= z < 100, as scalars and as one array"""
    t = reset()
    try:
        p = setc(t, case["c"])
        top = ref_cdist(99., *p)
        d = top * (np.arange(case["i"], case["i"] + 20) + .37) / case["n"]
        C = t.cosmo
        z = call(C.cdist_to_z, d)
        near([ref_cdist(float(q), *p) for q in z], d, "dense-inverse", str(case), rtol=1e-5, atol=1e-3)
        expect(np.all(np.diff(z) > 0), "dense-monotonic", str(case))
        for q, w in zip(d[::7], z[::7]):
            near(float(call(C.cdist_to_z, float(q))), w, "dense-scalar", str(case), rtol=1e-5, atol=1e-6)
        near(call(C.z_to_cdist, z), d, "dense-roundtrip", str(case), rtol=1e-5, atol=1e-3)
        return digest(z)
    finally:
        reset()


def cases_hist(tier):
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for s in itertools.product(range(4), repeat=n):
            yield {"seq": list(s)}


def check_hist(case):
    """conversions depend on the current cosmology only, not on what was computed before"""
    t = reset()
    try:
        C, obs = t.cosmo, []
        for i in case["seq"]:
            p = setc(t, COSMO[i])
            d = ref_cdist(8.2, *p)
            near(float(call(C.z_to_cdist, 8.2)), d, "hist-cdist", str(case), rtol=1e-6)
            near(float(call(C.cdist_to_z, d)), 8.2, "hist-inverse", str(case), rtol=1e-4)
            near(float(call(C.luminosity_distance, 8.2)), ref_ldist(8.2, *p), "hist-ldist", str(case), rtol=1e-6)
            near(float(call(C.nu_to_cdist, 1420. / 9.2)), d, "hist-nu", str(case), rtol=1e-6)
            near(float(call(C.z_to_age, 8.2)), ref_age(8.2, *p), "hist-age", str(case), rtol=1e-6)
            obs.append(d)
        return digest(*obs)
    finally:
        reset()


def cases_virial(tier):
    for om in (.27, .315):
        yield {"om": om}


def check_virial(case):
    """in a flat cosmology selected with set_omega_matter alone, virial temperatures use OmegaL = 1 - Om"""
    t = reset()
    try:
        call(t.set_omega_matter, case["om"])
        om = case["om"]
        o = om * 1e3 / (om * 1e3 + 1 - om)
        x = 18 * math.pi ** 2 + 82 * (o - 1) - 39 * (o - 1) ** 2
        w = 1.98e4 * .7 ** (2 / 3) * (om / o * x / (18 * math.pi ** 2)) ** (1 / 3)
        near(call(t.cosmo.M_to_Tvir, 1e8, 9.), w, "virial-flat", str(case), rtol=1e-9)
        return w
    finally:
        reset()


SUITES = [
    FnSuite("calculators", cases_calc, check_calc, "6 cosmologies x 12 redshifts x 7 argument forms x 15 calculators and their inverses; curvature"),
    FnSuite("inverse-grid", cases_dense, check_dense, "400 (thorough 4000) distances over 0 <= z < 99 x 6 cosmologies"),
    FnSuite("histories", cases_hist, check_hist, "all sequences of 2 and 3 (4) of 4 cosmologies"),
    FnSuite("virial-flat", cases_virial, check_virial, "2 flat cosmologies"),
]
