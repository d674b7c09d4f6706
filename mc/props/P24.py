"""P24: instrumental noise has exactly the covariance that the uv coverage and the sensitivity imply."""
import itertools

import numpy as np

from mc.core import C, Fail, FnSuite, call, digest, eq, expect, field, must_raise, near, t2c
from mc import rnd
from mc.props import P22
from mc.props.P13 import reset

TITLE = "Telescope noise and response follow exactly from uv coverage and sensitivity"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "noise is drawn from the global numpy generator (normal, randn, standard_normal): its draws are replaced one by one by unit vectors, "
    "which gives the complete linear map from draws to noise, compared through its covariance (independent of order and sign of the draws)",
    "suppress_sharp_features_uv_map and fft_wrap are not claimed",
]

KB, CL = 1.3806504e-23, 299792458.


def mods():
    t2c()
    import tools21cm.radio_telescope_noise as n
    import tools21cm.radio_telescope_sensitivity as s
    return n, s


class Draws:
    """np.random.normal & co return zeros except for a one at draw number `target`"""

    def __init__(self, target=None):
        self.target, self.n = target, 0

    def one(self, size):
        m = int(np.prod(size)) if size is not None else 1
        v = np.zeros(m)
        if self.target is not None and self.n <= self.target < self.n + m:
            v[self.target - self.n] = 1.
        self.n += m
        return v.reshape(size) if size is not None else float(v[0])

    def __enter__(self):
        self.ctx = rnd.standard_normals(self.one)
        self.ctx.__enter__()
        return self

    def __exit__(self, *e):
        self.ctx.__exit__(*e)


def covariance(f):
    """exact covariance matrix of f() over independent standard normal draws, from the images of all unit vectors"""
    with Draws() as d:
        zero = np.asarray(f())
    expect(not np.any(zero), "noise-offset", f"noise without any fluctuation is not zero: {zero}")
    if d.n == 0:
        return None
    M = np.zeros((zero.size, zero.size))
    for k in range(d.n):
        with Draws(k):
            v = np.asarray(f(), float).ravel()
        C.calls += 1
        M += np.outer(v, v)
    return M


def bh(n):
    if n == 1:
        return np.ones(1)
    x = 2 * np.pi * np.arange(n) / (n - 1)
    return .35875 - .48829 * np.cos(x) + .14128 * np.cos(2 * x) - .01168 * np.cos(3 * x)


def ref_cov(n, uv, rms, ratio, uniform=False):
    """covariance of the real part of the inverse DFT of independent complex visibilities, one per uv cell with data"""
    w = bh(n)
    m = np.fft.fftfreq(n, 1. / n).astype(int)      # signed frequencies in fft order
    g = np.zeros((n, n))
    for i, j in itertools.product(range(n), repeat=2):
        if uv[i, j] >= .01:
            g[i, j] = (w[m[i] + n // 2] * w[m[j] + n // 2]) ** 2 * (1. if uniform else 1. / uv[i, j])
    c = np.zeros((n, n))
    for a, b in itertools.product(range(n), repeat=2):
        for i, j in itertools.product(range(n), repeat=2):
            if g[i, j]:
                c[a, b] += g[i, j] * np.cos(2 * np.pi * (i * a + j * b) / n)
    c *= rms ** 2 * ratio / n ** 4
    out = np.zeros((n, n, n, n))
    for a, b, e, f in itertools.product(range(n), repeat=4):
        out[a, b, e, f] = c[(a - e) % n, (b - f) % n]
    return out.reshape(n * n, n * n)


def sefd_model(nu, T=None, D=40., ep=None):
    T = 60. * (300. / nu) ** 2.55 + 100. if T is None else T
    ep = (1. if nu <= 110. else (110. / nu) ** 2) if ep is None else ep
    return 2 * KB * T / (ep * np.pi * (D / 2) ** 2) / 1e-26


def vis_rms(z, depth, int_time, **k):
    return 1e6 * sefd_model(1420. / (1 + z), **k) / np.sqrt(2 * depth * 1e6 * int_time)


def mk_per_mujy(n, z, box):
    t2c()
    d = P22.ref_cdist(z)
    nu = 1420e6 / (1 + z)
    return 1. / (2e3 * KB / CL ** 2 / 1e-26 * nu ** 2 * (box / d) ** 2 / n ** 2)


UVS = {
    "full": lambda n: np.ones((n, n)),
    "counts": lambda n: np.round(field((n, n), 3, lo=1, hi=9)),
    "gaps": lambda n: np.where(field((n, n), 5) > .1, np.round(field((n, n), 4, lo=1, hi=30)) / 4., 0.),
    "few": lambda n: np.array([[2.5 if (3 * i + 5 * j) % (n + 1) == 1 else 0. for j in range(n)] for i in range(n)]),
    "none": lambda n: np.zeros((n, n)),
}


# ---------------------------------------------------------------- noise maps

def cases_map(tier):
    ns = range(1, 7) if tier == "quick" else range(1, 10)
    for n in ns:
        for uv in UVS:
            for w in ("natural", "uniform", "NAT", "Uni"):
                for v in (0, 1, 2, 3):
                    if w in ("NAT", "Uni") and v:
                        continue
                    yield dict(n=n, uv=uv, w=w, v=v)


VAR = [dict(z=9., depth_mhz=.2, obs_time=1000., int_time=10.),
       dict(z=7.2, depth_mhz=1.5, obs_time=100., int_time=60., T_sys=350.),
       dict(z=25., depth_mhz=.05, obs_time=3., int_time=1800., D_station=35., ep_aperture=.7),
       dict(z=12., depth_mhz=.1, obs_time=40., int_time=10., T_sys=280., ep_aperture=.6)]


def model_args(v):
    k = {}
    if "T_sys" in v:
        k["T"] = v["T_sys"]
    if "D_station" in v:
        k["D"] = v["D_station"]
    if "ep_aperture" in v:
        k["ep"] = v["ep_aperture"]
    return k


def check_map(c):
    reset()
    N, S = mods()
    n, v = c["n"], VAR[c["v"]]
    uv = UVS[c["uv"]](n)
    keep = uv.copy()
    f = lambda: N.noise_map(n, subarray_type=np.array(P22.ANTS[3]), boxsize=500., uv_map=uv, uv_weighting=c["w"], verbose=False, **v)
    cov = covariance(f)
    expect(np.array_equal(uv, keep), "mutates-input", "uv_map")
    out = f()
    expect(out.shape == (n, n) and not np.iscomplexobj(out) and np.isfinite(out).all(), "noise-form", f"{out.shape} {out.dtype}")
    if cov is not None:
        rms = vis_rms(v["z"], v["depth_mhz"], v["int_time"], **model_args(v))
        near(cov, ref_cov(n, uv, rms, v["int_time"] / 3600. / v["obs_time"], c["w"].lower() in ("uni", "uniform")), "noise-covariance", f"{c}", rtol=1e-4, scale=1e-9)
    # reproducible
    np.random.seed(5)
    a = call(f)
    np.random.seed(5)
    eq(call(f), a, "noise-seed", "same seed")
    b = call(f)
    expect(not uv.any() or not np.array_equal(a, b), "noise-repeats", "two noise maps are the same")
    # uv cells without data carry no noise
    F = np.fft.fft2(a)
    mirror = np.roll(uv[::-1, ::-1], (1, 1), (0, 1))
    m = (uv == 0) & (mirror == 0)
    expect(np.abs(F[m]).max(initial=0.) <= 1e-10 * np.abs(F).max(initial=1.), "noise-in-gaps", "noise in cells without visibilities")
    return digest(np.round(np.log10(np.abs(np.diag(cov)) + 1e-300), 6)) if cov is not None else digest(c["uv"], n)


# ---------------------------------------------------------------- cubes

def cases_cube(tier):
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for uv in ("counts", "gaps", "few"):
            for w in ("natural", "uniform"):
                for depth in (None, .25):
                    for box in (None, 300., 900.):
                        yield dict(n=n, uv=uv, w=w, depth=depth, box=box)


def z_at(d):
    """redshift of a comoving distance (bisection on the reference)"""
    lo, hi = 0., 60.
    for _ in range(60):
        m = (lo + hi) / 2
        if P22.ref_cdist(m) < d:
            lo = m
        else:
            hi = m
    return lo


_depth = {}


def ref_depth(z, box, n):
    if (z, box, n) not in _depth:
        d = P22.ref_cdist(z)
        _depth[z, box, n] = (1420. / (1 + z_at(d - box / 2)) - 1420. / (1 + z_at(d + box / 2))) / n
    return _depth[z, box, n]


def blocks(cov, n, nz):
    return cov.reshape(n * n, nz, n * n, nz)


def check_cube(c):
    t = reset()
    N, S = mods()
    n = c["n"]
    uv = UVS[c["uv"]](n)
    if c["box"] is None:
        t.set_sim_constants(244.)
    box = c["box"] or t.conv.LB
    z = 8.5
    kw = dict(depth_mhz=c["depth"], obs_time=200., subarray_type=np.array(P22.ANTS[4]), boxsize=c["box"], int_time=30., uv_map=uv, uv_weighting=c["w"], verbose=False)
    f = lambda: N.noise_cube_coeval(n, z, **kw)
    out = call(f)
    expect(out.shape == (n, n, n), "noise-form", f"{out.shape}")
    cov = covariance(f)
    if cov is not None:
        depth = c["depth"] or ref_depth(z, box, n)
        one = ref_cov(n, uv, vis_rms(z, depth, 30.), 30. / 3600. / 200., c["w"] == "uniform") * mk_per_mujy(n, z, box) ** 2
        want = np.zeros((n * n, n, n * n, n))
        for k in range(n):
            want[:, k, :, k] = one
        near(blocks(cov, n, n), want, "noise-covariance", f"{c}", rtol=2e-3, scale=1e-8)
    np.random.seed(3)
    a = call(f)
    np.random.seed(3)
    eq(call(f), a, "noise-seed", "same seed")
    return digest(np.round(np.log10(np.diag(cov) + 1e-300), 4)) if cov is not None else digest(n)


ZS = {"list": [7., 7.5, 9.], "array": np.array([7., 7.5, 9.]), "down": [9., 7.5, 7.], "two": [8., 8.3], "uneven": np.array([6.5, 6.51, 7.1, 11.]), "int": [7, 8, 10]}


SHORT = np.array([[0., 0., 0.], [30., -37., 4.], [-19., 55., 26.], [80., 12., 5.], [44., 95., -3.], [61., 29., 9.]])     # baselines inside of small uv maps


def cases_lc(tier):
    for n in (3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6):
        for zs in ZS:
            for w in ("natural", "uniform"):
                for box in (None, 60.):
                    yield dict(n=n, zs=zs, w=w, box=box)
        for w in ("natural", "uniform"):
            for z in (7.5, 9.):
                for box in (None, 60.):
                    yield dict(n=n, zs=None, z=z, w=w, box=box)


def check_lc(c):
    t = reset()
    N, S = mods()
    n = c["n"]
    if c["box"] is None:
        t.set_sim_constants(64)
    box = c["box"] or t.conv.LB
    ants = SHORT
    obs = dict(total_int_time=1., int_time=1200., declination=-35.)
    kw = dict(obs_time=50., subarray_type=ants, boxsize=c["box"], uv_weighting=c["w"], verbose=False, n_jobs=1, **obs)
    if c["zs"] is None:
        d = P22.ref_cdist(c["z"])
        zs = np.array([z_at(d - box / 2 + box * i / (n - 1)) for i in range(n)])
        f = lambda: N.noise_cube_lightcone(n, c["z"], **kw)
    else:
        zz = ZS[c["zs"]]
        zs = np.array(zz, float)
        f = lambda: N.noise_lightcone(n, zz, **kw)
    nz = len(zs)
    out = call(f)
    expect(out.shape == (n, n, nz), "noise-form", f"{out.shape}")
    cov = covariance(f)
    if cov is None:
        return digest(n)
    want = np.zeros((n * n, nz, n * n, nz))
    some = 0
    for k in range(nz):
        uv = N.get_uv_map(n, float(zs[k]), subarray_type=ants, boxsize=box, verbose=False, **obs)[0]
        some += (uv > 0).sum()
        i = k if k + 1 < nz else nz - 2
        depth = abs(1420. / (1 + zs[i + 1]) - 1420. / (1 + zs[i]))
        want[:, k, :, k] = ref_cov(n, uv, vis_rms(zs[k], depth, 1200.), 1200. / 3600. / 50., c["w"] == "uniform") * mk_per_mujy(n, zs[k], box) ** 2
    assert some, "no baseline inside of the uv map"
    near(blocks(cov, n, nz), want, "noise-covariance", f"{c}", rtol=5e-3, scale=1e-8)
    return digest(np.round(np.log10(np.diag(cov) + 1e-300), 3))


# ---------------------------------------------------------------- simulated uv map inside of noise_map

def cases_sim(tier):
    for n in (2, 3, 4, 5):
        for a in (3, 6):
            for box in (None, 60.):
                for fn in ("map", "cube", "coeval"):
                    yield dict(n=n, a=a, box=box, fn=fn)


def check_sim(c):
    """leaving out the uv map is the same as giving the one of this observation"""
    t = reset()
    N, S = mods()
    n, ants = c["n"], SHORT[:c["a"]]
    if c["box"] is None:
        t.set_sim_constants(64)
    box = c["box"] or t.conv.LB
    obs = dict(total_int_time=1., int_time=900., declination=-40.)
    uv = N.get_uv_map(n, 8., subarray_type=ants, boxsize=box, verbose=False, **obs)[0]
    assert uv.any(), "no baseline inside of the uv map"
    if c["fn"] == "coeval":
        x = field((n, n, n + 1), 7, lo=-3, hi=3)
        a = call(N.apply_uv_response_on_coeval, x, 8., subarray_type=ants, boxsize=c["box"], **obs)
        b = call(N.apply_uv_response_on_coeval, x, 8., uv_map=uv)
    else:
        g = (lambda **k: N.noise_map(n, 8., .3, **k)) if c["fn"] == "map" else (lambda **k: N.noise_cube_coeval(n, 8., .3, **k))
        np.random.seed(1)
        a = call(g, subarray_type=ants, boxsize=c["box"], verbose=False, **obs)
        np.random.seed(1)
        b = call(g, subarray_type=ants, boxsize=c["box"], verbose=False, uv_map=uv, **obs)
    near(a, b, "uv-map-default", f"{c}", rtol=1e-9, scale=1e-12)
    return digest(np.round(a, 9))


# ---------------------------------------------------------------- response

def cases_resp(tier):
    shapes = [(n, m) for n in range(1, 6 if tier == "quick" else 9) for m in range(1, 6 if tier == "quick" else 9)]
    for s in shapes:
        for uv in ("full", "half", "few", "none", "dc"):
            yield dict(shape=s, uv=uv)


def rect_uv(s, name):
    if name == "full":
        return np.ones(s)
    if name == "none":
        return np.zeros(s)
    if name == "dc":
        u = np.zeros(s)
        u[0, 0] = 3.
        return u
    k = 2 if name == "half" else 4
    u = np.array([[float((i * 3 + j * 5 + i * j) % (k + 1)) for j in range(s[1])] for i in range(s[0])])
    return u if name == "half" else np.where(u == 1, .5, 0.)


def check_resp(c):
    reset()
    N, S = mods()
    s = tuple(c["shape"])
    uv = rect_uv(s, c["uv"])
    n, m = s
    E = lambda a, k: np.exp(2j * np.pi * np.outer(np.arange(a), np.arange(a)) * k / a)
    P = np.zeros((n * m, n * m))
    # all unit images: the complete linear map
    for p in range(n * m):
        x = np.zeros(n * m)
        x[p] = 1.
        x = x.reshape(s)
        F = E(n, -1) @ x @ E(m, -1)
        F = np.where(uv == 0, 0, F)
        want = np.real(E(n, 1) @ F @ E(m, 1)) / (n * m)
        for dt in (float, np.float32, int, bool):
            y = call(N.apply_uv_response_on_image, x.astype(dt), uv)
            near(y, want, "response", f"{c} pixel {p} {dt}", rtol=1e-4, atol=1e-6 if dt is np.float32 else 1e-9)
        P[:, p] = want.ravel()
    for nz in (1, 2, s[0] + 2):
        cube = field((n, m, nz), 11, lo=-2, hi=5)
        y = call(N.apply_uv_response_on_coeval, cube, 8., uv_map=uv)
        near(y, np.einsum("ab,bk->ak", P, cube.reshape(n * m, nz)).reshape(cube.shape), "response-cube", f"{c} nz={nz}", rtol=1e-6, atol=1e-9)
    if n != m:
        must_raise(N.apply_uv_response_on_image, np.zeros((m, n)), uv, kind="shape-accepted", what=f"{s}")
    return digest(np.round(P, 9))


def cases_weight(tier):
    for n in range(1, 6 if tier == "quick" else 9):
        for uv in UVS:
            for scale in (1., .003):
                yield dict(n=n, uv=uv, scale=scale)


def check_weight(c):
    reset()
    N, S = mods()
    n = c["n"]
    uv = UVS[c["uv"]](n) * c["scale"]
    x = field((n, n), 8, lo=-2, hi=2) + 1j * field((n, n), 9, lo=-2, hi=2)
    w = np.zeros((n, n), complex)
    for i, j in itertools.product(range(n), repeat=2):
        if uv[i, j]:
            w[i, j] = x[i, j] / np.sqrt(uv[i, j])
    y = call(S.apply_uv_response, x, uv)
    near(y, w, "uv-response", f"{c}", rtol=1e-9)
    for cut in (None, .02, 3.):
        k = {} if cut is None else dict(uv_map_min=cut)
        low = uv < (.01 if cut is None else cut)
        for a in (x, x.real, x.real.astype(np.float32)):
            y = call(N.apply_uv_response_noise, a, uv, **k)
            near(y, np.where(low, 0, a / np.where(uv == 0, 1, np.sqrt(uv))), "weight-natural", f"{c} {cut}", rtol=1e-5)
            y = call(N.apply_uv_response_noise, a, uv, uv_weighting="uniform", **k)
            near(y, np.where(low, 0, a), "weight-uniform", f"{c} {cut}", rtol=1e-6)
    if uv.any():
        for r in (-2., 0., 1.):
            y = call(N.apply_uv_response_noise_briggs, x, uv, robust=r)
            expect(not np.any(y[uv == 0]) and np.isfinite(y).all(), "briggs-empty", f"{c}")
            near(call(N.apply_uv_response_noise_briggs, 2 * x, uv, robust=r), 2 * y, "briggs-linear", f"{c}", rtol=1e-9)
            q = np.abs(y / x)
            for val in np.unique(uv[uv > 0]):
                near(q[uv == val], np.full((uv == val).sum(), q[uv == val][0]), "briggs-cell", f"{c}", rtol=1e-9)
    return digest(np.round(w, 9))


# ---------------------------------------------------------------- sensitivity

def cases_sefd(tier):
    nus = (30., 50., 109.999, 110., 110.001, 142., 200., 350.)
    for T in ("none", "const", "func"):
        for ep in ("none", "const", "int", "func"):
            for D in (40., 35., 3.5):
                for form in ("float", "int", "np", "array", "2d", "list"):
                    yield dict(T=T, ep=ep, D=D, form=form, nus=nus)
    for form in ("float", "array", "list", "SKA1-Low", "ska1"):
        yield dict(T="table", ep="none", D=40., form=form, nus=nus)


def check_sefd(c):
    reset()
    N, S = mods()
    k = dict(D_station=c["D"])
    Tf = {"none": None, "const": lambda nu: 321., "func": lambda nu: 40. + 2. * nu}
    if c["T"] == "table":
        tn, ts = [50., 100., 150., 300.], [20000., 5000., 2500., 1800.]
        if c["form"].upper().startswith("SKA1"):
            import os
            import tools21cm
            tab = np.loadtxt(os.path.join(os.path.dirname(tools21cm.__file__), "input_data", "SEFD_SKAO-TEL-0000818-V2_SKA1.txt"))
            tn, ts = tab[:, 0], tab[:, 2]
            k.update(sefd_data=c["form"])
        else:
            k.update(sefd_data=ts if c["form"] == "list" else np.array(ts), nu_data=tn if c["form"] == "list" else np.array(tn))
            must_raise(S.get_SEFD, 100., sefd_data=ts, kind="no-frequencies", what="sefd without frequencies", exc=ValueError)
        for nu in (50., 60., 100., 133., 299., 300.):
            want = 10 ** np.interp(nu, tn, np.log10(ts))
            near(float(call(S.get_SEFD, nu, **k)), want, "sefd-table", f"{nu}", rtol=1e-9)
        near(call(S.get_SEFD, np.array([60., 70., 200.]), **k), 10 ** np.interp([60., 70., 200.], tn, np.log10(ts)), "sefd-table", "array", rtol=1e-9)
        return digest(c["form"])
    epf = {"none": None, "const": lambda nu: .55, "int": lambda nu: 1, "func": lambda nu: 1. / (1. + nu / 200.)}
    if c["T"] != "none":
        k["T_sys"] = 321. if c["T"] == "const" else Tf["func"]
    if c["ep"] != "none":
        k["ep_aperture"] = {"const": .55, "int": 1, "func": epf["func"]}[c["ep"]]
    val = lambda nu: sefd_model(nu, T=Tf[c["T"]] and Tf[c["T"]](nu), D=c["D"], ep=epf[c["ep"]] and epf[c["ep"]](nu))
    nus = np.array(c["nus"])
    if c["form"] in ("float", "int", "np"):
        for nu in nus:
            v = {"float": float, "int": lambda q: int(q), "np": np.float64}[c["form"]](nu)
            r = call(S.get_SEFD, v, **k)
            expect(np.ndim(r) == 0, "sefd-form", f"{r!r}")
            near(float(r), val(float(v)), "sefd", f"{c} nu={v}", rtol=1e-4)
    else:
        a = {"array": nus, "2d": nus.reshape(2, 4), "list": list(nus)}[c["form"]]
        r = call(S.get_SEFD, a, **k)
        near(r, np.vectorize(val)(np.array(a)), "sefd", f"{c}", rtol=1e-4)
    return digest(c["T"], c["ep"], c["D"], c["form"])


def cases_sigma(tier):
    for z in (0., 5.5, 9, 27.):
        for depth in (.01, 1., 10.):
            for obs in (1., 100., 1000):
                for it in (1., 10., 3600):
                    yield dict(z=z, depth=depth, obs=obs, it=it)


def check_sigma(c):
    reset()
    N, S = mods()
    for na in (2, 3, 40, 512):
        for uv in (None, np.ones((3, 3))):
            for v in (False, True):
                s, r = call(S.sigma_noise_radio, c["z"], c["depth"], c["obs"], c["it"], N_ant=na, uv_map=uv, verbose=v)
                want = vis_rms(c["z"], c["depth"], c["it"])
                near(r, want, "sigma-visibility", f"{c}", rtol=1e-4)
                # independent of the integration time: all baselines and all the time together
                near(s, 1e6 * sefd_model(1420. / (1 + c["z"])) / np.sqrt(2 * c["depth"] * 1e6 * c["obs"] * 3600. * na * (na - 1) / 2), "sigma-image", f"{c} N={na}", rtol=1e-4)
        a = S.sigma_noise_radio(c["z"], c["depth"], c["obs"], c["it"], N_ant=na, verbose=False, T_sys=500., ep_aperture=.5, D_station=20.)
        near(a[1], vis_rms(c["z"], c["depth"], c["it"], T=500., ep=.5, D=20.), "sigma-model", f"{c}", rtol=1e-4)
        a = S.sigma_noise_radio(c["z"], c["depth"], c["obs"], c["it"], N_ant=na, verbose=False, sefd_data=np.array([4000., 4000.]), nu_data=np.array([10., 2000.]))
        near(a[1], 4000e6 / np.sqrt(2 * c["depth"] * 1e6 * c["it"]), "sigma-model", f"{c}", rtol=1e-6)
    return digest(c)


def cases_kj(tier):
    for co in range(3):
        for z in (0.5, 6., 8.25, 11, 30.):
            for n in (1, 2, 17, 256):
                for box in (None, 100., 714.):
                    yield dict(co=co, z=z, n=n, box=box)


COS = [None, (.6711, .3175, .6825), (.7, .25, .75)]


def check_kj(c):
    t = reset()
    if COS[c["co"]]:
        h, om, la = COS[c["co"]]
        t.set_hubble_h(h)
        t.set_omega_matter(om)
        t.set_omega_lambda(la)
    if c["box"] is None:
        t.set_sim_constants(425.)
    N, S = mods()
    box = c["box"] or t.conv.LB
    f = 1. / mk_per_mujy(c["n"], c["z"], box)
    near(float(call(S.kelvin_jansky_conversion, c["n"], c["z"], boxsize=c["box"])), f, "kelvin-jansky", f"{c}", rtol=1e-4)
    for shape in ((3, 3), (3, 3, 4), (2,)):
        a = field(shape, 6, lo=-4, hi=9)
        j = call(S.kelvin_2_jansky, a, c["z"], boxsize=c["box"], ncells=c["n"])
        near(j, a * f, "kelvin-jansky", f"{c}", rtol=1e-4)
        near(call(S.jansky_2_kelvin, j, c["z"], boxsize=c["box"], ncells=c["n"]), a, "kelvin-jansky-inverse", f"{c}", rtol=1e-9)
        fn = 1. / mk_per_mujy(shape[0], c["z"], box)
        near(call(S.kelvin_2_jansky, a, c["z"], boxsize=c["box"]), a * fn, "kelvin-jansky", f"{c} default ncells", rtol=1e-4)
        near(call(S.jansky_2_kelvin, a, c["z"], boxsize=c["box"]), a / fn, "kelvin-jansky", f"{c} default ncells", rtol=1e-4)
    reset()
    return digest(c)


# ---------------------------------------------------------------- windows and kernels

def cases_win(tier):
    for n in range(1, 13 if tier == "quick" else 41):
        for m in ("blackmanharris", "Blackman-Harris", "blackman", "barthann", "BARTLETT", "gaussian", "hamming", "hann", "kaiser"):
            yield dict(n=n, m=m)
    yield dict(n=4, m="unknown")


def ref_win(n, m, p):
    if n == 1:
        return np.ones(1)
    i = np.arange(n)
    x = 2 * np.pi * i / (n - 1)
    m = m.lower()
    if m in ("blackmanharris", "blackman-harris"):
        return bh(n)
    if m == "blackman":
        return .42 - .5 * np.cos(x) + .08 * np.cos(2 * x)
    if m == "hann":
        return .5 - .5 * np.cos(x)
    if m == "hamming":
        return .54 - .46 * np.cos(x)
    if m == "bartlett":
        return 1 - np.abs(2. * i / (n - 1) - 1)
    if m == "barthann":
        f = np.abs(i / (n - 1.) - .5)
        return .62 - .48 * f + .38 * np.cos(2 * np.pi * f)
    if m == "gaussian":
        return np.exp(-.5 * ((i - (n - 1) / 2.) / p) ** 2)
    if m == "kaiser":
        return np.i0(p * np.sqrt(np.clip(1 - (2. * i / (n - 1) - 1) ** 2, 0, None))) / np.i0(p)


def check_win(c):
    reset()
    N, S = mods()
    n, m = c["n"], c["m"]
    if m == "unknown":
        expect(call(N.signal_window, 4, m) is None and call(N.signal_window, 4, "hann", ndim=4) is None, "window-unknown", "")
        return digest(m)
    for p in (None, 3., 7.5):
        k = {} if p is None else dict(extra_param=p)
        w = ref_win(n, m, 30. if p is None else p)
        near(call(N.signal_window, n, m, **k), w, "window", f"{c} {p}", rtol=1e-9, atol=1e-12)
        near(call(N.signal_window, n, m, ndim=2, **k), w[:, None] * w[None, :], "window", f"{c} 2D", rtol=1e-9, atol=1e-12)
        near(call(N.signal_window, n, m, ndim=3, **k), w[:, None, None] * w[None, :, None] * w[None, None, :], "window", f"{c} 3D", rtol=1e-9, atol=1e-12)
    return digest(np.round(w, 9))


def cases_ker(tier):
    for n in range(1, 8 if tier == "quick" else 13):
        for s in (None, .5, 2.):
            for f in (None, 1., 3.):
                yield dict(n=n, s=s, f=f)


def check_ker(c):
    reset()
    N, S = mods()
    k = {}
    if c["s"] is not None:
        k["sigma"] = c["s"]
    if c["f"] is not None:
        k["fwhm"] = c["f"]
    g = call(N.gauss_kernel_3d, c["n"], **k)
    n = c["n"]
    s = c["f"] / 2.354820045 if c["f"] is not None else (c["s"] or 1.)
    i = np.arange(n) - n // 2
    w = np.exp(-i ** 2 / (2 * s ** 2))
    w = w[:, None, None] * w[None, :, None] * w[None, None, :]
    near(g, w / w.sum(), "kernel", f"{c}", rtol=1e-7)
    return digest(np.round(g, 12))


# ---------------------------------------------------------------- everyday sizes

class Ones(Draws):
    """every draw is the same number"""

    def one(self, size):
        self.n += 1
        return np.ones(size) if size is not None else 1.


def cases_real(tier):
    for n in (20, 33) if tier == "quick" else (20, 33, 64):
        for w in ("natural", "uniform"):
            yield dict(what="map", n=n, w=w)
    for n in (24, 40):
        yield dict(what="lightcone", n=n)
    for n, m, nz in ((65, 40, 3), (128, 128, 2), (33, 33, 70)):
        for uv in ("half", "few"):
            yield dict(what="response", n=n, m=m, nz=nz, uv=uv)


def check_real(c):
    """maps of up to 64 cells a side by the images of all unit vectors; light-cones of 60 channels; responses on images of 128 cells"""
    reset()
    N, S = mods()
    n = c["n"]
    if c["what"] == "map":
        v = VAR[0]
        uv = UVS["gaps"](n) * 40
        f = lambda: N.noise_map(n, subarray_type=np.array(P22.ANTS[3]), boxsize=500., uv_map=uv, uv_weighting=c["w"], verbose=False, **v)
        with Draws() as d:
            zero = np.asarray(call(f))
        expect(not zero.any(), "noise-offset", str(c))
        var, row = np.zeros((n, n)), np.zeros((n, n))
        for k in range(d.n):
            with Draws(k):
                r = np.asarray(f())
            C.calls += 1
            var += r ** 2
            row += r * r[1, 2]
        wgt = bh(n)
        m = np.fft.fftfreq(n, 1. / n).astype(int)
        ww = np.outer(wgt[m + n // 2], wgt[m + n // 2]) ** 2
        g = np.where(uv >= .01, ww * (1. if c["w"] == "uniform" else 1. / np.where(uv > 0, uv, 1)), 0)
        cc = np.real(np.fft.ifft2(g)) * n * n * vis_rms(v["z"], v["depth_mhz"], v["int_time"]) ** 2 * v["int_time"] / 3600. / v["obs_time"] / n ** 4
        near(var, np.full((n, n), cc[0, 0]), "noise-covariance", str(c), rtol=1e-4)
        a, b = np.indices((n, n))
        near(row, cc[(a - 1) % n, (b - 2) % n], "noise-covariance", str(c), rtol=1e-3, scale=1e-6)
        return digest(np.round(np.log10(var), 4))
    if c["what"] == "lightcone":
        zs = np.linspace(7., 10., 60)
        ants, obs = P22.spiral(12, 90.), dict(total_int_time=1., int_time=1200., declination=-35.)
        with Ones():
            y = np.asarray(call(N.noise_lightcone, n, zs, obs_time=50., subarray_type=ants, boxsize=60., verbose=False, n_jobs=1, **obs))
        expect(y.shape == (n, n, len(zs)), "noise-form", f"{y.shape}")
        for k in range(len(zs)):
            uv = N.get_uv_map(n, float(zs[k]), subarray_type=ants, boxsize=60., verbose=False, **obs)[0]
            i = k if k + 1 < len(zs) else len(zs) - 2
            depth = abs(1420. / (1 + zs[i + 1]) - 1420. / (1 + zs[i]))
            with Ones():
                one = np.asarray(N.noise_map(n, zs[k], depth, obs_time=50., subarray_type=ants, boxsize=60., uv_map=uv, verbose=False, int_time=1200.))
            near(y[:, :, k], one * mk_per_mujy(n, zs[k], 60.), "noise-channel", f"{c} channel {k}", rtol=5e-3, scale=1e-6)
        return digest(n)
    uv = rect_uv((n, c["m"]), c["uv"])
    x = field((n, c["m"], c["nz"]), 11, lo=-2, hi=5)
    want = np.real(np.fft.ifft2(np.where(uv[:, :, None] == 0, 0, np.fft.fft2(x, axes=(0, 1))), axes=(0, 1)))
    for k in range(c["nz"]):
        near(call(N.apply_uv_response_on_image, x[:, :, k], uv), want[:, :, k], "response", str(c), rtol=1e-6, atol=1e-8)
    near(call(N.apply_uv_response_on_coeval, x, 8., uv_map=uv), want, "response-cube", str(c), rtol=1e-6, atol=1e-8)
    return digest(np.round(want, 6))


SUITES = [
    FnSuite("noise-map", cases_map, check_map, "1..6 (9) cells per side x 5 coverages x 4 weightings x 4 instruments; all unit vectors of the draws"),
    FnSuite("noise-cube", cases_cube, check_cube, "2..4 (5) cells x 3 coverages x weightings x depth x boxes; all unit vectors of the draws", timeout=300),
    FnSuite("noise-lightcone", cases_lc, check_lc, "2..3 (4) cells x 6 redshift lists + 2 light-cones around a redshift x weightings x boxes; all unit vectors of the draws", timeout=300),
    FnSuite("simulated-uv", cases_sim, check_sim, "4 grids x 2 telescopes x boxes x 3 functions"),
    FnSuite("response", cases_resp, check_resp, "all shapes up to 5x5 (8x8) x 5 coverages x all unit images x 4 dtypes; cubes"),
    FnSuite("weighting", cases_weight, check_weight, "grids x coverages x thresholds x weightings"),
    FnSuite("sefd", cases_sefd, check_sefd, "3 system temperatures x 4 efficiencies x 3 diameters x 6 forms x 8 frequencies; tables"),
    FnSuite("sigma", cases_sigma, check_sigma, "4 redshifts x 3 bandwidths x 3 observations x 3 integration times x 4 numbers of antennas"),
    FnSuite("kelvin-jansky", cases_kj, check_kj, "3 cosmologies x 5 redshifts x 4 grids x 3 boxes"),
    FnSuite("windows", cases_win, check_win, "9 names x 1..12 (40) cells x 3 parameters x 3 dimensions"),
    FnSuite("kernel", cases_ker, check_ker, "1..7 (12) cells x sigma x fwhm"),
    FnSuite("realistic", cases_real, check_real, "maps of 20 and 33 (64) cells a side by all unit vectors of the draws; light-cones of 60 channels; responses on images up to 128x128", timeout=400),
]
