"""P22: the uv coverage is where the baselines are, at every time, for every entry point."""
import itertools

import numpy as np

from mc.core import C, Fail, FnSuite, call, digest, eq, expect, field, must_raise, near, t2c
from mc.props import P14

TITLE = "UV coverage puts every baseline of every time slot into its own uv cell"
ASSUMPTIONS = [
    "uv positions closer than 1e-4 of a cell to the border between two cells are not asked for (rounding of the last bit)",
    "cells on the negative Nyquist row/column are not compared when mirror baselines are requested (their mirror image is outside of the grid)",
    "the maximum-baseline cut is not compared within 1.5% of the cut (the code uses 21 cm instead of 21.1 cm)",
    "the parallel sections are executed in every order of their tasks by a stand-in for joblib.Parallel; one case runs the real joblib",
]

def ref_cdist(z):
    t2c()
    from tools21cm import const
    return float(np.ravel(P14.ref_cdist(z, const.h, const.Omega0, const.lam))[0])


def T():
    return t2c()


def LAY():
    t2c()
    import tools21cm.radio_telescope_layout as m
    return m


def CAL():
    t2c()
    import tools21cm.radio_telescope_calibration as m
    return m


def NOI():
    t2c()
    import tools21cm.radio_telescope_noise as m
    return m


def wavelength(z):
    t2c()
    from tools21cm import const
    return const.c_light_cgs / (const.nu0 / (1 + z) * 1e6) / 100.


def theta(z, box):
    return box / float(ref_cdist(z))


ANTS = {
    2: [[0., 0., 0.], [310., -177., 41.]],
    3: [[12., 0., 3.], [210., -377., 41.], [-190., 95., 260.]],
    4: [[12., 0., 3.], [210., -377., 41.], [-190., 95., 260.], [-60., -480., -170.]],
    # two antennas at the same place and an east-west pair: degenerate baselines
    5: [[5., 5., 5.], [5., 5., 5.], [205., 5., 5.], [5., -295., 5.], [5., 5., 420.]],
}


def ref_base(ants, z):
    a = np.asarray(ants, float) / wavelength(z)
    return np.array([a[i] - a[j] for i, j in itertools.combinations(range(len(a)), 2)])


def ref_rot(b, slot, dt, hours, dec):
    """textbook (u,v,w) of baselines (X,Y,Z) at hour angle H and declination dec"""
    H = np.deg2rad(15. * (-hours / 2. + slot * dt / 3600.))
    d = np.deg2rad(dec)
    R = np.array([[np.sin(H), np.cos(H), 0.],
                  [-np.sin(d) * np.cos(H), np.sin(d) * np.sin(H), np.cos(d)],
                  [np.cos(d) * np.cos(H), -np.cos(d) * np.sin(H), np.sin(d)]])
    return b @ R.T


def ref_cells(uvw, z, box, n):
    """-> list of (x, y) or None per baseline, in FFT index order (0 = zero mode); None if on a border"""
    p = uvw[:, :2] * theta(z, box)
    f = p - np.floor(p)
    if np.any(np.abs(f - 0.5) < 1e-4):
        return None
    q = np.rint(p).astype(int)
    lo = -(n // 2)
    hi = lo + n
    return [(int(x), int(y)) if lo <= x < hi and lo <= y < hi else None for x, y in q]


def ref_map(uvw, z, box, n, mirror):
    m = np.zeros((n, n))
    c = ref_cells(uvw, z, box, n)
    if c is None:
        return None
    if mirror:
        d = ref_cells(-uvw, z, box, n)
        if d is None:
            return None
        c = c + d
    for e in c:
        if e is not None:
            m[e[0] % n, e[1] % n] += 0.5 if mirror else 1.
    return m


# ---------------------------------------------------------------- gridding one snapshot

def cases_grid(tier):
    ns = (1, 2, 3, 4, 5, 6, 7) if tier == "quick" else tuple(range(1, 12))
    for n in ns:
        for mirror in (False, True):
            for z, box in ((9., 244.), (6.3, 60.)):
                for r in range(-n - 1, n + 2):
                    yield dict(n=n, mirror=mirror, z=z, box=box, row=r)


def check_grid(c):
    f = LAY().grid_uv_tracks
    n, z, box = c["n"], c["z"], c["box"]
    th = theta(z, box)
    obs = set()
    tot = np.zeros((n, n))
    pts = []
    for fx in (-.45, 0., .45):
        for col in range(-n - 1, n + 2):
            for fy in (-.45, 0., .45):
                b = np.array([[(c["row"] + fx) / th, (col + fy) / th, 1.7]])
                w = ref_map(b, z, box, n, c["mirror"])
                if w is None:
                    continue
                g = np.asarray(call(f, b, z, n, boxsize=box, include_mirror_baselines=c["mirror"]), float)
                near(g, w, "wrong-cell", f"baseline at ({c['row'] + fx}, {col + fy}) cells", rtol=0, atol=1e-9)
                tot += w
                pts.append(b[0])
                obs.add(digest(g))
    if pts:
        g = np.asarray(call(f, np.array(pts), z, n, boxsize=box, include_mirror_baselines=c["mirror"]), float)
        near(g, tot, "wrong-count", "all baselines together", rtol=0, atol=1e-9)
        g = np.asarray(call(f, np.array(pts)[::-1], str(z), n, boxsize=box, include_mirror_baselines=c["mirror"]), float)
        near(g, tot, "wrong-count", "all baselines in reverse order", rtol=0, atol=1e-9)
    return obs


def cases_box(tier):
    for box in (64., 244., 500.):
        for n in (4, 5):
            for order in (0, 1):
                yield dict(box=box, n=n, order=order)


def check_box(c):
    """without a box size the current simulation box counts"""
    t = T()
    from tools21cm import conv
    from mc.props import P13
    try:
        boxes = [c["box"], 114.] if c["order"] else [c["box"]]
        for b in boxes[::-1]:
            t.set_sim_constants(b)
        L = conv.LB
        b = ref_rot(ref_base(ANTS[4], 8.), 3, 600., 4., -30.)
        w = ref_map(b, 8., L, c["n"], False)
        g = call(LAY().grid_uv_tracks, b, 8., c["n"])
        near(np.asarray(g, float), w, "default-box", f"set_sim_constants({c['box']})", atol=1e-9)
        ants = np.array(ANTS[4])
        for mirror in (True, False):
            kw = dict(total_int_time=1., int_time=600.)
            a = call(NOI().get_uv_map, c["n"], 8., subarray_type=ants, include_mirror_baselines=mirror, verbose=False, **kw)[0]
            d = call(NOI().get_uv_map, c["n"], 8., subarray_type=ants, include_mirror_baselines=mirror, verbose=False, boxsize=L, **kw)[0]
            eq(a, d, "default-box", "get_uv_map")
        a = call(CAL().get_uv_map_with_gains, c["n"], 8., gain_model=GAINS[4], subarray_type=ants, verbose=False, **kw)[0]
        d = call(CAL().get_uv_map_with_gains, c["n"], 8., gain_model=GAINS[4], subarray_type=ants, verbose=False, boxsize=L, **kw)[0]
        eq(a, d, "default-box", "get_uv_map_with_gains")
        return digest(g, a)
    finally:
        P13.reset()


# ---------------------------------------------------------------- earth rotation

def cases_rot(tier):
    decs = (-90., -60., -30., 0., 20., 90.) if tier == "quick" else tuple(np.linspace(-90, 90, 25))
    for dec in decs:
        for hours in (1., 4., 6., 12., 24., 1 / 7, 2.0001, 5.5):
            for dt in (10., 60., 600., 1800., 7.3):
                yield dict(dec=float(dec), hours=hours, dt=dt)


def check_rot(c):
    f = LAY().earth_rotation_effect
    b = np.vstack([np.eye(3), -np.eye(3)[:1], np.zeros((1, 3)), field((3, 3), 4, lo=-900., hi=900.)])
    n = int(c["hours"] * 3600 / c["dt"])
    slots = sorted({0, 1, 2, n // 2, n - 1, n, n // 3})
    for s in slots:
        w = ref_rot(b, s, c["dt"], c["hours"], c["dec"])
        g = call(f, b, s, c["dt"], c["hours"], c["dec"])
        near(g, w, "rotation", f"slot {s}", atol=1e-9, scale=1e-12)
        near(np.linalg.norm(g, axis=1), np.linalg.norm(b, axis=1), "rotation-length", f"slot {s}", rtol=1e-9, atol=1e-9)
        g = call(f, b, np.array([s]), c["dt"], c["hours"], declination=c["dec"])
        near(g, w, "rotation", f"slot array [{s}]", atol=1e-9, scale=1e-12)
    g = call(f, b, np.array(slots), c["dt"], c["hours"], c["dec"])
    W = np.array([ref_rot(b, s, c["dt"], c["hours"], c["dec"]) for s in slots])
    if len(slots) == 1:
        W = W[0]
    near(g, W, "rotation-vector", "many slots", atol=1e-9, scale=1e-12)
    if c["dec"] == -30.:
        near(call(f, b, slots[1], c["dt"], c["hours"]), ref_rot(b, slots[1], c["dt"], c["hours"], -30.), "rotation-default", "declination", atol=1e-9)
    return digest(g)


# ---------------------------------------------------------------- baselines

def cases_base(tier):
    for k in ANTS:
        for z in (5., 6.7, 9., 14.2):
            for form in ("m", "km", "array"):
                yield dict(k=k, z=z, form=form)


def ant_form(ants, form):
    import astropy.units as u
    a = np.array(ants, float)
    if form == "m":
        return a * u.m
    if form == "km":
        return (a / 1e3) * u.km
    return a


def check_base(c):
    lay, cal = LAY(), CAL()
    a = ant_form(ANTS[c["k"]], c["form"])
    w = ref_base(ANTS[c["k"]], c["z"])
    g, n = call(lay.from_antenna_config, a, c["z"])
    eq(n, c["k"], "antenna-number", "from_antenna_config")
    near(g, w, "baselines", "from_antenna_config", rtol=1e-8, atol=1e-9)
    from tools21cm import const
    nu = const.nu0 / (1 + c["z"])
    g2, n = call(lay.from_antenna_config, a, 3.3, nu=nu)
    near(g2, w, "baselines", "from_antenna_config with frequency", rtol=1e-8, atol=1e-9)
    pairs = np.array(list(itertools.combinations(range(1, c["k"] + 1), 2)))
    g3, n = call(cal.from_antenna_config_with_antenna_stamp, a, c["z"])
    eq(n, c["k"], "antenna-number", "with_antenna_stamp")
    near(g3, np.hstack([w, pairs]), "baselines", "with_antenna_stamp", rtol=1e-8, atol=1e-9)
    G = GAINS[c["k"]]
    g4, n = call(cal.from_antenna_config_with_gains, a, c["z"], gain_model=G)
    eq(n, c["k"], "antenna-number", "with_gains")
    near(g4, np.hstack([w, ref_products(G)]), "baselines", "with_gains", rtol=1e-8, atol=1e-9)
    import astropy.units as u
    g5 = call(lay.antenna_positions_to_baselines, a)
    un = u.Quantity(g5, u.m).value if hasattr(g5, "unit") else np.asarray(g5)
    A = np.array(ANTS[c["k"]])
    near(un, np.array([A[i] - A[j] for i, j in itertools.permutations(range(c["k"]), 2)]), "baselines", "antenna_positions_to_baselines", rtol=1e-9, atol=1e-9)
    return digest(g)


# ---------------------------------------------------------------- daily observation

OBS = [(1., 600.), (0.5, 1800.), (2., 1029.), (6., 2400.)]   # hours, seconds


def slots_of(h, dt):
    return int(h * 3600 / dt)


def ref_daily(ants, z, n, box, h, dt, dec, mirror):
    b = ref_base(ants, z)
    S = slots_of(h, dt)
    m = np.zeros((n, n))
    for s in range(1, S + 1):
        one = ref_map(ref_rot(b, s, dt, h, dec), z, box, n, mirror)
        if one is None:
            return None
        m += one
    return m / S


def cases_daily(tier):
    ns = (3, 4, 7, 8) if tier == "quick" else (2, 3, 4, 5, 6, 7, 8, 9, 16, 17)
    for n in ns:
        for k in ANTS:
            for (h, dt) in OBS:
                for dec in (-30., -75., 10.):
                    for z, box in ((9., 1200.), (6.3, 400.)):
                        yield dict(n=n, k=k, h=h, dt=dt, dec=dec, z=z, box=box)


def check_daily(c):
    n, z, box, h, dt, dec = (c[x] for x in ("n", "z", "box", "h", "dt", "dec"))
    ants = ANTS[c["k"]]
    form = ("m", "km", "array")[(n + int(h)) % 3]
    kw = dict(total_int_time=h, int_time=dt, boxsize=box, declination=dec, verbose=False)
    out = []
    for mirror in (False, True):
        w = ref_daily(ants, z, n, box, h, dt, dec, mirror)
        if w is None:
            continue
        g, N = call(LAY().get_uv_daily_observation, n, z, ant_form(ants, form), include_mirror_baselines=mirror, **kw)
        eq(N, c["k"], "antenna-number", "get_uv_daily_observation")
        near(g, w, "daily", f"get_uv_daily_observation mirror={mirror}", rtol=1e-5, atol=1e-6)
        g2, N = call(NOI().get_uv_map, n, z, subarray_type=ant_form(ants, form), include_mirror_baselines=mirror, **kw)
        eq(N, c["k"], "antenna-number", "get_uv_map")
        near(g2, w, "daily", f"get_uv_map mirror={mirror}", rtol=1e-5, atol=1e-6)
        out.append(g)
        if mirror:
            # default of get_uv_map; point symmetric apart from the negative Nyquist row and column
            g3, N = call(NOI().get_uv_map, n, z, subarray_type=ant_form(ants, "m"), **kw)
            eq(g3, g2, "daily-default", "mirror baselines are the default of get_uv_map")
            # longest baseline cut
            th = theta(z, box)
            i = np.fft.fftfreq(n) * n
            r = np.hypot(*np.meshgrid(i, i, indexing="ij"))
            for cells in (0.5, 1.2, 1.7, 2.5, n / 2.):
                bm = cells / th * wavelength(z)     # metres
                import astropy.units as u
                for arg in (bm / 1e3, bm * u.m):
                    g4, N = call(NOI().get_uv_map, n, z, subarray_type=ant_form(ants, "m"), max_baseline=arg, **kw)
                    sure = np.abs(r / cells - 1) > 0.015
                    near(np.where(sure, g4, 0), np.where(sure & (r < cells), w, 0), "baseline-cut", f"longest baseline {cells} cells", rtol=1e-5, atol=1e-6)
    return digest(*out)


def cases_zlc(tier):
    for n in (4, 5):
        for zs in ([9.], [9., 7.], [7., 8.5, 9.], [8., 8., 7.9]):
            yield dict(n=n, zs=zs)


def check_zlc(c):
    kw = dict(total_int_time=1., int_time=900., boxsize=900., declination=-40.)
    ants = np.array(ANTS[4])
    g, N = call(NOI().make_uv_map_lightcone, c["n"], np.array(c["zs"]), subarray_type=ants, verbose=False, **kw)
    eq(N, 4, "antenna-number", "make_uv_map_lightcone")
    w = np.stack([ref_daily(ANTS[4], z, c["n"], 900., 1., 900., -40., True) for z in c["zs"]], axis=-1)
    near(g, w, "uv-lightcone", f"redshifts {c['zs']}", rtol=1e-5, atol=1e-6)
    return digest(g)


def cases_names(tier):
    for name, n in (("AA0.5", 4), ("AA1", 16)):
        for nc in (6, 7) if tier == "quick" else (4, 5, 6, 7, 8, 12):
            for z, box in ((8., 120.), (6.5, 60.)):
                yield dict(name=name, N=n, n=nc, z=z, box=box)


def check_names(c):
    """telescopes given by name: their layout file through all conversions"""
    lay = LAY()
    a = lay.get_SKA_Low_layout(subarray_type=c["name"], unit="xyz", verbose=False).to("m").value
    kw = dict(total_int_time=2., int_time=1800., boxsize=c["box"], declination=-30., verbose=False)
    w = ref_daily(a, c["z"], c["n"], c["box"], 2., 1800., -30., True)
    if w is None:
        return None
    outs = []
    for name in (c["name"], c["name"].lower()):
        g, N = call(NOI().get_uv_map, c["n"], c["z"], subarray_type=name, **kw)
        eq(N, c["N"], "antenna-number", name)
        near(g, w, "named-telescope", name, rtol=1e-5, atol=1e-6)
        outs.append(g)
    return digest(*outs)


# ---------------------------------------------------------------- gains and antenna stamps

GAINS = {k: np.stack([field((k,), 11 + k, lo=0.5, hi=1.5), field((k,), 30 + k, lo=-0.7, hi=0.7)], axis=1) for k in ANTS}


def ref_products(G):
    r, i = G[:, 0], G[:, 1]
    return np.array([[r[a] * r[b], i[a] * i[b], r[a] * i[b], i[a] * r[b]] for a, b in itertools.combinations(range(len(G)), 2)])


def cases_gain(tier):
    ns = (3, 4, 5, 8) if tier == "quick" else (2, 3, 4, 5, 6, 7, 8, 9, 12)
    for n in ns:
        for k in ANTS:
            for (h, dt) in ((1., 600.), (2., 1029.), (0.5, 1800.)):
                for z, box in ((9., 1200.), (6.3, 400.)):
                    for dec in (-30., 15.):
                        yield dict(n=n, k=k, h=h, dt=dt, z=z, box=box, dec=dec)


def slots_cells(c):
    b = ref_base(ANTS[c["k"]], c["z"])
    out = []
    for s in range(slots_of(c["h"], c["dt"])):
        e = ref_cells(ref_rot(b, s, c["dt"], c["h"], c["dec"]), c["z"], c["box"], c["n"])
        if e is None:
            return None
        out.append(e)
    return out


def check_gain(c):
    cal = CAL()
    n, k = c["n"], c["k"]
    cells = slots_cells(c)
    if cells is None:
        return None
    kw = dict(total_int_time=c["h"], int_time=c["dt"], boxsize=c["box"], declination=c["dec"], verbose=False,
              subarray_type=ant_form(ANTS[k], ("m", "array", "km")[n % 3]))
    outs = []

    def ref(gains, mirror):
        m = np.zeros((n, n, 5))
        for s, cs in enumerate(cells):
            p = ref_products(gains[s])
            for e, row in zip(cs, p):
                if e is None:
                    continue
                v = np.r_[1., row]
                m[e[0] % n, e[1] % n] += v
                if mirror:
                    m[-e[0] % n, -e[1] % n] += v
        return m

    inner = np.ones((n, n), bool)
    if n % 2 == 0:
        inner[n // 2, :] = inner[:, n // 2] = False
    S = len(cells)
    # constant gains given as an array
    for mirror in (False, True):
        g, N = call(cal.get_uv_map_with_gains, n, c["z"], gain_model=GAINS[k], include_mirror_baselines=mirror, **kw)
        eq(N, k, "antenna-number", "get_uv_map_with_gains")
        expect(g.shape == (n, n, 5), "shape", f"{g.shape}")
        w = ref([GAINS[k]] * S, mirror)
        if mirror:
            g, w = g[inner], w[inner]
        near(g, w, "gain-map", f"constant gains mirror={mirror}", rtol=1e-9, atol=1e-9)
        if not mirror:
            eq(call(cal.gain_uv_map_to_uv_map, g), np.rint(w[:, :, 0]).astype(int), "gain-hits", "hits")
        outs.append(g)
    # gains changing in time: new ones whenever one of the time scales has passed
    for scales in ([c["dt"]], [2 * c["dt"]], [3 * c["dt"], 2 * c["dt"]], [1e9]):
        for names in (("real", "imag"), ("amplitude", "phase")):
            cnt = {names[0]: 0, names[1]: 0}

            def gen(which, m):
                cnt[which] += 1
                return GAINS[k][:, names.index(which)] + 0.125 * cnt[which] * (1 + names.index(which)) + np.zeros(m)
            model = {names[0]: lambda m: gen(names[0], m), names[1]: lambda m: gen(names[1], m)}
            g, N = call(cal.get_uv_map_with_gains, n, c["z"], gain_model=model, gain_timescale=scales, mutates=True, **kw)
            seq, nd = [], 0
            for s in range(S):
                if any((s * c["dt"]) % t == 0 for t in scales):
                    nd += 1
                seq.append(np.stack([GAINS[k][:, 0] + 0.125 * nd, GAINS[k][:, 1] + 0.25 * nd], axis=1))
            near(g, ref(seq, False), "gain-map-time", f"gains {names} changing every {scales} s", rtol=1e-9, atol=1e-9)
            eq(sorted(cnt.values()), [nd, nd], "gain-draws", f"number of draws {names} {scales}")
    # named models without scatter
    for model, (a, b) in (({"name": "random_uniform", "min": .75, "max": .75}, (.75, .75)), ({"name": "Random_Gaussian", "mu": 1.25, "std": 0.}, (1.25, 1.25))):
        g, N = call(cal.get_uv_map_with_gains, n, c["z"], gain_model=model, **kw)
        near(g, ref([np.tile([a, b], (k, 1))] * S, False), "gain-map", f"{model}", rtol=1e-9, atol=1e-9)
    # the response of ideal gains is that of the uv map itself
    unit = np.tile([1., 0.], (k, 1))
    g, N = call(cal.get_uv_map_with_gains, n, c["z"], gain_model=unit, include_mirror_baselines=True, **kw)
    img = field((n, n), 3, lo=-1., hi=1.)
    want = np.real(np.fft.ifft2(np.where(g[:, :, 0] > 0, np.fft.fft2(img), 0)))
    near(call(cal.apply_uv_with_gains_response_on_image, img, g), want, "gain-response", "ideal gains", atol=1e-9)
    near(call(NOI().apply_uv_response_on_image, img, g[:, :, 0]), want, "uv-response", "image", atol=1e-9)
    g, N = call(cal.get_uv_map_with_gains, n, c["z"], gain_model=GAINS[k], **kw)
    with np.errstate(all="ignore"):
        resp = np.where(g[:, :, 0] > 0, np.sqrt((g[:, :, 1] + 1j * g[:, :, 2]) / np.where(g[:, :, 0] > 0, g[:, :, 0], 1)), 0)
    near(call(cal.apply_uv_with_gains_response_on_image, img, g), np.real(np.fft.ifft2(np.fft.fft2(img) * resp)), "gain-response", "general gains", atol=1e-9)
    must_raise(cal.apply_uv_with_gains_response_on_image, np.zeros((n + 1, n)), g, kind="shape-accepted", what="wrong shape")
    return digest(*outs)


def _delayed(f):
    def w(*a, **k):
        return f, a, k
    return w


class Orders:
    """joblib.Parallel executing its tasks in one fixed permutation; results in submission order"""
    perm = None      # function n -> permutation
    calls = 0
    sizes = []

    def __init__(self, n_jobs=None, *a, **k):
        self.n_jobs = n_jobs

    def __enter__(self):
        return self

    def __exit__(self, *e):
        return False

    def __call__(self, it):
        calls = list(it)
        Orders.calls += 1
        Orders.sizes.append(len(calls))
        res = [None] * len(calls)
        for i in Orders.perm(len(calls)):
            f, a, k = calls[i]
            res[i] = f(*a, **k)
        return res


class ordered:
    def __init__(self, *mods):
        self.mods = mods

    def __enter__(self):
        import joblib
        self.saved = []
        for m in (joblib,) + self.mods:
            for n, v in (("Parallel", Orders), ("delayed", _delayed)):
                if hasattr(m, n):
                    self.saved.append((m, n, getattr(m, n)))
                    setattr(m, n, v)
        Orders.sizes = []
        return self

    def __exit__(self, *e):
        for m, n, v in self.saved:
            setattr(m, n, v)


def perms(n, cap=4):
    """all orders of up to cap tasks; for more: all rotations and the reverse of each"""
    if n <= cap:
        return list(itertools.permutations(range(n)))
    rot = [tuple((i + s) % n for i in range(n)) for s in range(n)]
    return rot + [r[::-1] for r in rot]


def cases_stamp(tier):
    for k in (2, 3, 4, 5):
        for n in (4, 5) if tier == "quick" else (3, 4, 5, 6, 7):
            for (h, dt) in ((1., 1800.), (1., 720.), (2., 1029.)):
                for z, box, dec in ((9., 1200., -30.), (6.3, 400., 15.)):
                    S = slots_of(h, dt)
                    for nj in range(1, S + 2):
                        yield dict(k=k, n=n, h=h, dt=dt, z=z, box=box, dec=dec, jobs=nj)


def check_stamp(c):
    cal = CAL()
    n, k = c["n"], c["k"]
    cells = slots_cells(c)
    if cells is None:
        return None
    S = len(cells)
    pairs = list(itertools.combinations(range(1, k + 1), 2))
    want_l = np.full((S, len(pairs), 2), np.nan)
    want_m = [[[[] for _ in range(n)] for _ in range(n)] for _ in range(S)]
    hits = np.zeros((n, n), int)
    for s, cs in enumerate(cells):
        for i, e in enumerate(cs):
            if e is not None:
                want_l[s, i] = e
                want_m[s][e[0] % n][e[1] % n].append(list(pairs[i]))
                hits[e[0] % n, e[1] % n] += 1
    kw = dict(subarray_type=ant_form(ANTS[k], ("m", "array", "km")[k % 3]), total_int_time=c["h"], int_time=c["dt"], boxsize=c["box"],
              declination=c["dec"], verbose=False, n_jobs=c["jobs"])
    obs = set()
    todo = [None]
    done = set()
    with ordered(cal):
        while todo:
            p = todo.pop()
            if p in done:
                continue
            done.add(p)
            Orders.perm = lambda m, p=p: p if p is not None and len(p) == m else range(m)
            Orders.sizes = []
            m, N = call(cal.get_full_uv_map_with_antenna_stamp, n, c["z"], **kw)
            eq(N, k, "antenna-number", "get_full_uv_map_with_antenna_stamp")
            expect(m.shape == (S, n, n), "shape", f"{m.shape}, expected {(S, n, n)}")
            for s in range(S):
                for x in range(n):
                    for y in range(n):
                        got = sorted([int(a), int(b)] for a, b in m[s, x, y])
                        expect(got == want_m[s][x][y], "antenna-stamp", lambda: f"order {p}: slot {s} cell {(x, y)}: {got}, expected {want_m[s][x][y]}")
            eq(call(cal.full_uv_map_with_antenna_stamp_to_uv_map, m, verbose=False), hits, "stamp-hits", f"order {p}")
            L, prs = call(cal.get_full_uv_lagrangian_with_antenna_stamp, n, c["z"], **kw)
            near(L, want_l, "lagrangian", f"order {p}", rtol=0, atol=1e-9)
            eq(np.asarray(prs, int), np.array(pairs), "lagrangian-pairs", f"order {p}")
            obs.add((p, digest(L)))
            if p is None:
                for q in set(Orders.sizes):
                    todo += perms(q)
    if c["jobs"] == 1 and c["n"] == 4:
        # same hits as the gain map
        g, N = call(cal.get_uv_map_with_gains, n, c["z"], gain_model=GAINS[k], **{a: b for a, b in kw.items() if a != "n_jobs"})
        eq(np.rint(g[:, :, 0]).astype(int), hits, "stamp-gain", "hits of gain map and stamps")
    return obs


def cases_free(tier):
    for jobs in (1, 2, -1):
        yield dict(jobs=jobs)


def check_free(c):
    """the real joblib, not controlled"""
    try:
        return _check_free(c)
    finally:
        from joblib.externals.loky import get_reusable_executor
        get_reusable_executor().shutdown(wait=True)


def _check_free(c):
    cal = CAL()
    d = dict(k=4, n=5, h=1., dt=720., z=9., box=1200., dec=-30.)
    cells = slots_cells(d)
    kw = dict(subarray_type=ant_form(ANTS[4], "m"), total_int_time=1., int_time=720., boxsize=1200., declination=-30., verbose=False, n_jobs=c["jobs"])
    L, prs = call(cal.get_full_uv_lagrangian_with_antenna_stamp, 5, 9., **kw)
    w = np.array([[e if e is not None else (np.nan, np.nan) for e in cs] for cs in cells], float)
    near(L, w, "lagrangian", "real joblib", rtol=0, atol=1e-9)
    m, N = call(cal.get_full_uv_map_with_antenna_stamp, 5, 9., **kw)
    expect(m.shape == (len(cells), 5, 5), "shape", f"{m.shape}")
    for s, cs in enumerate(cells):
        eq(sum(len(v) for v in m[s].ravel()), sum(e is not None for e in cs), "antenna-stamp", f"slot {s}")
    return digest(L)


# ---------------------------------------------------------------- coordinate systems

def cases_geo(tier):
    lons = range(-180, 181, 30) if tier == "quick" else range(-180, 181, 10)
    for lon in lons:
        yield dict(lon=lon)


def check_geo(c):
    import astropy.units as u
    lay = LAY()
    lats = np.arange(-90, 91, 15.)
    ll = np.stack([np.full(lats.size, float(c["lon"])), lats], axis=1)
    R = 6371e3
    lo, la = np.deg2rad(ll).T
    w = R * np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)], axis=1)
    for a in (ll, ll * u.deg, np.deg2rad(ll) * u.rad):
        g = call(lay.geographic_to_cartesian_coordinate_system, a)
        near(g, w, "geographic", f"lon {c['lon']}", atol=1e-5)
    for h in (0., 350., -1000.):
        x = w * (R + h) / R
        for a in (x, x * u.m, x / 1e3 * u.km):
            b = call(lay.cartesian_to_geographic_coordinate_system, a)
            b = b.value if hasattr(b, "unit") else np.asarray(b)
            near(b[:, 1], lats, "geographic-inverse", "latitude", atol=1e-5)
            near(b[:, 2], np.full(lats.size, h), "geographic-inverse", "height", atol=1e-4)
            inner = np.abs(lats) < 89
            d = (b[inner, 0] - c["lon"] + 180) % 360 - 180
            near(d, np.zeros(inner.sum()), "geographic-inverse", "longitude", atol=1e-6)
    # local frames
    o = w[3] * 1.0003
    enu = np.vstack([np.eye(3) * 1000., field((4, 3), 7, lo=-5e4, hi=5e4), np.zeros((1, 3))])
    for la_d in lats:
        la_, lo_ = np.deg2rad(la_d), np.deg2rad(c["lon"])
        E = np.array([-np.sin(lo_), np.cos(lo_), 0.])
        U = np.array([np.cos(la_) * np.cos(lo_), np.cos(la_) * np.sin(lo_), np.sin(la_)])
        N = np.cross(U, E)
        want = enu[:, :1] * E + enu[:, 1:2] * N + enu[:, 2:] * U + o
        g = call(lay.enu_to_ecef, enu, la_d, float(c["lon"]), o)
        near(g, want, "enu", f"lat {la_d}", atol=1e-4)
        x = call(lay.ecef_to_xyz, g, float(c["lon"]), o)
        d = want - o
        wx = np.stack([d @ np.array([np.cos(lo_), np.sin(lo_), 0]), d @ E, d[:, 2]], axis=1)
        near(x - o, wx, "xyz", f"lat {la_d}", atol=1e-4)
    return digest(np.round(g, 2))


LAYOUTS = {"AA4": 512, "AA*": 307, "AAstar": 307, "AASTAR": 307, "aa4": 512, "AA2": 64, "AA1": 16, "AA0.5": 4}


def cases_lay(tier):
    for n in LAYOUTS:
        yield dict(name=n)


def check_lay(c):
    import os
    import astropy.units as u
    lay = LAY()
    t = t2c()
    d = os.path.join(os.path.dirname(t.__file__), "input_data")
    key = c["name"].upper()
    fn = {"AA4": "AA4", "AA*": "AAstar", "AASTAR": "AAstar", "AA2": "AA2", "AA1": "AA1", "AA0.5": "AA0.5"}[key]
    enu = np.array([[float(v) for v in l.split()[:3]] for l in open(os.path.join(d, f"skalow_{fn}_layout.txt")) if l.strip() and not l.startswith("#")])
    eq(len(enu), LAYOUTS[c["name"]], "layout-file", "number of antennas")
    lon, lat, h = [float(v) for l in open(os.path.join(d, "central_geographic_position.txt")) if not l.startswith("#") for v in l.split()][:3]
    # WGS84
    a, f = 6378137.0, 1 / 298.257223563
    e2 = f * (2 - f)
    lo, la = np.deg2rad(lon), np.deg2rad(lat)
    Nn = a / np.sqrt(1 - e2 * np.sin(la) ** 2)
    o = np.array([(Nn + h) * np.cos(la) * np.cos(lo), (Nn + h) * np.cos(la) * np.sin(lo), (Nn * (1 - e2) + h) * np.sin(la)])
    E = np.array([-np.sin(lo), np.cos(lo), 0.])
    U = np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
    Nv = np.cross(U, E)
    d3 = enu[:, :1] * E + enu[:, 1:2] * Nv + enu[:, 2:] * U
    xyz = np.stack([d3 @ np.array([np.cos(lo), np.sin(lo), 0]), d3 @ E, d3[:, 2]], axis=1)
    for unit, want in (("enu", enu), ("ecef", d3 + o), ("xyz", xyz + o)):
        for un in (unit, unit.upper()):
            g = call(lay.get_SKA_Low_layout, subarray_type=c["name"], unit=un, verbose=False)
            near(g.to(u.m).value, want, "layout", f"{c['name']} {un}", rtol=1e-9, atol=1e-3)
    g, N = call(lay.subarray_type_to_antxyz, c["name"], verbose=False)
    near(g.to(u.m).value, xyz + o, "layout", "subarray_type_to_antxyz", rtol=1e-9, atol=1e-3)
    eq(N, len(enu), "antenna-number", "subarray_type_to_antxyz")
    must_raise(lay.get_SKA_Low_layout, subarray_type=c["name"], unit="furlong", verbose=False, kind="unit-accepted", what="unknown unit")
    if c["name"] == "AA4":
        ll = call(lay.SKA1_LowConfig_Sept2016)
        w = call(lay.geographic_to_cartesian_coordinate_system, ll)
        g, N = call(lay.subarray_type_to_antxyz, None)
        near(g.to(u.m).value, w, "layout", "default telescope", atol=1e-4)
        b, n = call(lay.from_antenna_config, None, 9.)
        i = [0, 1, 510]
        near(b[i], np.array([w[0] - w[1], w[0] - w[2], w[0] - w[511]]) / wavelength(9.), "baselines", "default telescope", rtol=1e-6, atol=1e-6)
        eq(len(b), 512 * 511 // 2, "baselines", "number")
    return digest(np.round(xyz, 1))


def cases_k(tier):
    for z in (5.5, 7., 9., 13.):
        for b in (0.5, 2., 10., 70.):
            yield dict(z=z, b=b)


def check_k(c):
    import astropy.units as u
    f = NOI().max_baseline_to_max_k
    w = np.pi * c["b"] * 1e5 / (21. * (1 + c["z"]) * float(ref_cdist(c["z"])))
    for a in (c["b"], c["b"] * u.km, c["b"] * 1e3 * u.m):
        g = call(f, c["z"], a)
        near(getattr(g, "value", g), w, "max-k", f"{a}", rtol=1e-5)
    return digest(w)


# ---------------------------------------------------------------- everyday sizes

def spiral(k, r):
    i = np.arange(k)
    a, q = 2.399963 * i, r * ((i + .5) / k) ** 1.5
    return np.stack([q * np.cos(a), q * np.sin(a), .3 * q * np.sin(3 * a + 1)], axis=1)


def cases_real(tier):
    for k, r, n, z, box, h, dt in ((40, 900., 64, 9., 1200., 6., 600.), (64, 300., 130, 6.3, 2500., 4., 1029.), (150, 60., 5, 9., 400., 2., 900.),
                                   (120, 3000., 300, 8.2, 244., 1., 1200.), (10, 500., 40, 7., 700., 6., 60.), (380, 12., 3, 9., 244., .5, 900.)):
        yield dict(k=k, r=r, n=n, z=z, box=box, h=h, dt=dt)


def check_real(c):
    """arrays of up to 380 antennas, grids of up to 300 cells, hundreds of integrations"""
    ants = spiral(c["k"], c["r"])
    n, z, box = c["n"], c["z"], c["box"]
    b = ref_base(ants, z)
    th, lo = theta(z, box), -(n // 2)
    kw = dict(total_int_time=c["h"], int_time=c["dt"], boxsize=box, declination=-40., verbose=False)
    S = slots_of(c["h"], c["dt"])

    def gather(slots, mirror):
        m, amb = np.zeros((n, n)), 0
        for s in slots:
            p = ref_rot(b, s, c["dt"], c["h"], -40.)[:, :2] * th
            amb += int((np.abs(p - np.floor(p) - .5) < 1e-7).any(axis=1).sum())
            for sg in ((1, -1) if mirror else (1,)):
                q = np.rint(sg * p).astype(int)
                q = q[((q >= lo) & (q < lo + n)).all(axis=1)]
                np.add.at(m, (q[:, 0] % n, q[:, 1] % n), .5 if mirror else 1.)
        return m, amb
    for mirror in (False, True):
        w, amb = gather(range(1, S + 1), mirror)
        for f in (LAY().get_uv_daily_observation, NOI().get_uv_map):
            kk = {"subarray_type": ant_form(ants, "m")}
            g, N = call(f, n, z, **kk, include_mirror_baselines=mirror, **kw) if f is NOI().get_uv_map else call(f, n, z, ant_form(ants, "m"), include_mirror_baselines=mirror, **kw)
            eq(N, c["k"], "antenna-number", str(c))
            expect(np.abs(np.asarray(g, float) * S - w).sum() <= 2 * amb + 1e-4 * w.sum() + 1e-6, "daily", lambda: f"{c} mirror={mirror}: the maps differ by {np.abs(g * S - w).sum()} of {w.sum()} hits")
            expect(np.abs(np.asarray(g, float) * S - w).max() <= 2 * amb + 1e-5 * w.max() + 1e-6, "daily", lambda: f"{c} mirror={mirror}: a cell differs by {np.abs(g * S - w).max()} hits")
    if c["k"] <= 64:
        G = np.stack([1 + .1 * np.cos(np.arange(c["k"])), .2 * np.sin(np.arange(c["k"]))], axis=1)
        g, N = call(CAL().get_uv_map_with_gains, n, z, gain_model=G, subarray_type=ant_form(ants, "m"), include_mirror_baselines=False, **kw)
        w, amb = gather(range(S), False)
        expect(np.abs(g[:, :, 0] - w).sum() <= 2 * amb, "gain-hits", lambda: f"{c}: {np.abs(g[:, :, 0] - w).sum()} hits differ")
        P = ref_products(G)
        tot = np.zeros(4)
        for s in range(S):
            q = np.rint(ref_rot(b, s, c["dt"], c["h"], -40.)[:, :2] * th).astype(int)
            tot += P[((q >= lo) & (q < lo + n)).all(axis=1)].sum(axis=0)
        near(g[:, :, 1:].sum(axis=(0, 1)), tot, "gain-map", str(c), rtol=1e-6, atol=2. * (amb + 1e-6))
    return digest(w)


SUITES = [
    FnSuite("grid", cases_grid, check_grid, "1..7 (11) cells per side x mirror x 2 fields x every cell of the grid and one row beyond x 3 positions in the cell, one by one and together"),
    FnSuite("default-box", cases_box, check_box, "3 simulation boxes x order"),
    FnSuite("rotation", cases_rot, check_rot, "6 (25) declinations x 5 durations x 4 integration times x 7 slots x 8 baselines"),
    FnSuite("baselines", cases_base, check_base, "4 telescopes x 4 redshifts x 3 units"),
    FnSuite("daily", cases_daily, check_daily, "4 (10) grids x 4 telescopes x 4 observations x 3 declinations x 2 fields x mirror x 5 longest baselines"),
    FnSuite("uv-lightcone", cases_zlc, check_zlc, "redshift lists"),
    FnSuite("named", cases_names, check_names, "AA0.5, AA1"),
    FnSuite("gains", cases_gain, check_gain, "4 (9) grids x 4 telescopes x 3 observations x 2 fields x 2 declinations x gain models x 4 time scales"),
    FnSuite("stamps", cases_stamp, check_stamp, "4 telescopes x grids x 3 observations x all numbers of jobs x all orders of up to 4 tasks (rotations and reversals beyond)"),
    FnSuite("free-running", cases_free, check_free, "real joblib with 1, 2 and all CPUs", timeout=200, serial=True),
    FnSuite("frames", cases_geo, check_geo, "all longitudes x latitudes on a 30 (10) / 15 degree grid x units x heights"),
    FnSuite("layouts", cases_lay, check_lay, "all telescope names x all coordinate systems"),
    FnSuite("max-k", cases_k, check_k, "4 redshifts x 4 baselines x units"),
    FnSuite("realistic", cases_real, check_real, "6 arrays of 10-380 antennas, 3-300 cells, up to 360 integrations x mirror x 3 functions", timeout=300),
]
