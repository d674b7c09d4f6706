"""P29: what is left out, reported or distributed never changes a result."""
import contextlib
import inspect
import itertools
import sys

import numpy as np

from mc import catalog as K
from mc import core
from mc.core import C, Fail, FnSuite, expect, t2c
from mc.props import P27 as H

TITLE = "Defaults, reporting, units and parallel work do not change results"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "the calls are those of the catalogue (mc/catalog.py), four argument variants each",
    "a worker process of joblib starts with the package as imported (default cosmology and box) and receives its tasks by pickling; a thread shares everything",
    "functions whose workers draw random numbers are compared for defaults and reporting only",
]

BOX = ("boxsize", "box_size_mpc", "box_dims", "box_length_mpc", "fov_Mpc", "input_box_size_mpc")
PRISTINE = {}


def setup(tier):
    K.make_files()
    t = t2c()
    for m in (t.const, t.conv):
        PRISTINE[m.__name__] = {k: v for k, v in vars(m).items() if not k.startswith("__")}
    import skimage.segmentation, sklearn.cluster, astropy.io.fits, pandas, yaml, scipy.optimize  # noqa: imported on demand by the package
    import joblib  # noqa
    from astropy.cosmology import Planck18
    Planck18.comoving_distance(1.)
    H.warm()


def reset():
    t = t2c()
    for m in (t.const, t.conv):
        for k in [k for k in vars(m) if not k.startswith("__") and k not in PRISTINE[m.__name__]]:
            del vars(m)[k]
        vars(m).update(PRISTINE[m.__name__])


def sig(f):
    try:
        return inspect.signature(f)
    except (TypeError, ValueError):
        return None


def has(name, pred):
    s = sig(H.Call(name, 0).f)
    return s is not None and any(pred(p) for p in s.parameters.values())


def again(name, v, change):
    """a fresh call with other arguments -> its result as a value"""
    x = H.Call(name, v)
    s = sig(x.f)
    b = s.bind(*x.a, **x.k) if s is not None else None
    if b is not None:
        ps = list(s.parameters)
        a = dict(zip(ps, x.a)) if not any(p.kind == p.VAR_POSITIONAL for p in s.parameters.values()) else None
        if a is not None:
            x.a, x.k = [], dict(a, **x.k)
    x.a, x.k = list(x.a), dict(x.k)
    change(x)
    x.run()
    return H.norm(x.r)


def agree(a, b, kind, what):
    C.compares += 1
    d = H.same(a, b)
    if d:
        raise Fail(kind, f"{what}: {d}")


# ---------------------------------------------------------------- the box that is set

WORLDS = [(.7, 244), (.7, 114), (.6, 500), (.6, 37), (.7, 47)]


def world(w):
    t = t2c()
    h, box = WORLDS[w]
    t.set_hubble_h(h)
    t.set_sim_constants(box)
    return box / h


# a box has to be given, or the default is the documented number 244/0.7
NOT_CURRENT = {"cross_power_spectrum_nd", "radial_average", "get_k", "make_gaussian_random_field", "make_gaussian_random_field-noseed", "make_gaussian_random_field_like_field",
               "bin_lightcone_in_frequency", "galactic_synch_fg", "extragalactic_pointsource_fg",
               "power_spectrum_2d", "power_spectrum_response", "integrated_bispectrum", "integrated_bispectrum_cross"}


def cases_box(tier):
    for n in K.E:
        if n not in NOT_CURRENT and has(n, lambda p: p.name in BOX):
            for v in range(K.NV):
                yield dict(n=n, v=v, full=tier == "thorough")


def _coarser(x, L):
    """keeps the grid of the observed light-cone small"""
    x.k["output_dtheta"] = x.k["output_dtheta"] * L / 20.


TWEAK = {"physical_lightcone_to_observational": _coarser}


def drop(x, s, alias):
    for k in BOX:
        if k in s.parameters or k in alias:
            x.k.pop(k, None)


def check_box(c):
    name, v = c["n"], c["v"]
    s = sig(H.Call(name, v).f)
    p = [k for k in s.parameters if k in BOX][0]
    sent = s.parameters[p].default
    if sent is not None and sent is not False:
        sent = None
    alias = ("boxsize",) if any(q.kind == q.VAR_KEYWORD for q in s.parameters.values()) and p == "box_dims" else ()

    def given(L):
        def ch(x):
            drop(x, s, alias)
            if name in TWEAK:
                TWEAK[name](x, t2c().conv.LB)
            if L is not drop:
                x.k[p] = L
        return ch

    def aliased(L):
        def ch(x):
            drop(x, s, alias)
            x.k["boxsize"] = L
        return ch

    def go():
        reset()
        ref = {}
        nw = len(WORLDS) if c["full"] else 3
        for w in range(nw):
            L = world(w)
            try:
                ref[w] = again(name, v, given(L))
            except Fail:
                raise
            except Exception as e:
                raise Fail("call-raises", f"{name} (variant {v}) with a box of {L:.2f} Mpc raises {e!r}")
        for a, b in itertools.product(range(nw), repeat=2):
            reset()
            hist = []
            for w in (a, b):
                L = world(w)
                hist.append(f"{L:.1f}")
                what = f"{name} (variant {v}), box {' then '.join(hist)} Mpc"
                agree(again(name, v, given(drop)), ref[w], "default-box", f"{what}, left out")
                agree(again(name, v, given(sent)), ref[w], "default-box", f"{what}, given as {sent}")
                for k in alias:
                    agree(again(name, v, aliased(L)), ref[w], "alias", f"{what}, given as {k}")
                # a rejected box changes nothing
                try:
                    t2c().set_sim_constants(101)
                except Exception:
                    pass
                agree(again(name, v, given(drop)), ref[w], "default-box", f"{what}, after a rejected box")
            # a box passed explicitly is not remembered
            again(name, v, given(WORLDS[a][1] / WORLDS[a][0]))
            agree(again(name, v, given(drop)), ref[b], "remembered-box", f"{name} (variant {v}), box {' then '.join(hist)} Mpc, after a call with a given box")
        return nw * nw
    k = H.child(go, 560)
    return {(name, v, i) for i in range(k)}


# ---------------------------------------------------------------- reporting

def cases_verbose(tier):
    for n, e in K.E.items():
        if "unusual hangs in skimage" not in e.tags:
            for v in range(K.NV):
                yield dict(n=n, v=v)


def check_verbose(c):
    name, v = c["n"], c["v"]
    own = has(name, lambda p: p.name == "verbose")

    def go():
        reset()
        out = []
        t = t2c()
        for glob in (False, True):
            for loc in ((False, True) if own else (None,)):
                t.set_verbose(glob)
                try:
                    def ch(x):
                        if loc is not None:
                            x.k["verbose"] = loc
                    try:
                        r = again(name, v, ch)
                    except Exception as e:
                        raise Fail("reporting-raises", f"{name} (variant {v}) with verbose={loc} and set_verbose({glob}) raises {e!r}")
                    st = np.random.get_state()
                    r = ("l", [r, H.norm(st[1]), H.norm(st[2])])
                finally:
                    t.set_verbose(False)
                out.append((glob, loc, r))
        for glob, loc, r in out[1:]:
            agree(r, out[0][2], "reporting", f"{name} (variant {v}) with verbose={loc} and set_verbose({glob}) (result, random state)")
        return len(out)
    k = H.child(go, 280)
    return {(name, v, i) for i in range(k)}


# ---------------------------------------------------------------- workers

def pickler():
    try:
        import cloudpickle
    except ImportError:
        from joblib.externals import cloudpickle
    return cloudpickle


class Pool:
    """stand-in for joblib.Parallel: runs the tasks in a chosen order, each in a chosen worker"""
    order = None         # function of the number of tasks -> order
    workers = 1          # 1: one worker runs all; 0: a worker for each task
    log = []

    def __init__(self, n_jobs=None, *a, **k):
        self.n_jobs = n_jobs
        self.threads = k.get("backend") in ("threading",) or k.get("prefer") == "threads" or k.get("require") == "sharedmem"
        self.generator = str(k.get("return_as", "list"))

    def __enter__(self):
        return self

    def __exit__(self, *e):
        return False

    def __call__(self, it):
        tasks = list(it)
        n = len(tasks)
        Pool.log.append(n)
        if self.n_jobs in (None, 1):
            out = [f(*a, **k) for f, a, k in tasks]
            return iter(out) if self.generator.startswith("gen") else out
        order = Pool.order(n)
        res = [None] * n
        if self.threads:
            for i in order:
                f, a, k = tasks[i]
                res[i] = f(*a, **k)
        else:
            cloudpickle = pickler()
            blobs = [cloudpickle.dumps(x) for x in tasks]
            lots = [order] if Pool.workers else [[i] for i in order]
            for lot in lots:
                def work():
                    reset()
                    np.random.seed(987)
                    o = []
                    for i in lot:
                        f, a, k = cloudpickle.loads(blobs[i])
                        o.append(cloudpickle.dumps(f(*a, **k)))
                    return o
                for i, r in zip(lot, H.child(work, 200)):
                    res[i] = cloudpickle.loads(r)
        if self.generator == "generator_unordered":
            return iter([res[i] for i in order])
        return iter(res) if self.generator.startswith("gen") else res


@contextlib.contextmanager
def pool():
    import joblib
    saved = [(joblib, "Parallel", joblib.Parallel)]
    for n, m in list(sys.modules.items()):
        if n.startswith("tools21cm") and getattr(m, "Parallel", None) is joblib.Parallel:
            saved.append((m, "Parallel", joblib.Parallel))
    for o, k, _ in saved:
        setattr(o, k, Pool)
    try:
        yield
    finally:
        for o, k, x in saved:
            setattr(o, k, x)


def orders(n, tier):
    if n <= (4 if tier == "thorough" else 3):
        return [lambda m, p=p: list(p) if m == len(p) else list(range(m))[::-1] for p in itertools.permutations(range(n))]
    return [lambda m: list(range(m)), lambda m: list(range(m))[::-1], lambda m: list(range(m // 2, m)) + list(range(m // 2)), lambda m: list(range(0, m, 2)) + list(range(1, m, 2))]


def cases_jobs(tier):
    for n, e in K.E.items():
        if has(n, lambda p: p.name == "n_jobs"):
            for v in range(K.NV):
                for s in (0, 1):
                    yield dict(n=n, v=v, s=s, tier=tier)


def check_jobs(c):
    name, v, s = c["n"], c["v"], c["s"]

    def go():
        H.settings(s)
        nobox = [False] + [True] * (has(name, lambda p: p.name in BOX) and name not in ("EulerCharacteristic-cython",))
        k = 0
        for left in nobox:
            def one(nj):
                def ch(x):
                    if left:
                        drop(x, sig(x.f), ())
                    x.k["n_jobs"] = nj
                return again(name, v, ch)
            ref = one(1)
            with pool():
                for nj in (2, 3, -1) if c["tier"] == "quick" else (2, 3, 4, 7, -1):
                    Pool.order, Pool.workers, Pool.log = (lambda m: list(range(m))), 1, []
                    agree(one(nj), ref, "parallel", f"{name} (variant {v}, setting {s}) with n_jobs={nj} instead of 1{', box left out' * left}")
                    n = max(Pool.log, default=0)
                    for o in orders(n, c["tier"])[1 if n else 0:]:
                        for w in (0, 1):
                            if not n:
                                continue
                            Pool.order, Pool.workers = o, w
                            agree(one(nj), ref, "parallel-order", f"{name} (variant {v}, setting {s}) with n_jobs={nj}, tasks run in the order {o(n)} by {'one worker' if w else 'a worker each'}{', box left out' * left}")
                            k += 1
                    k += 1
        return k
    k = H.child(go, 560)
    return {(name, v, s, i) for i in range(k)}


FREE = ["get_uv_map_lightcone", "get_full_uv_map_with_antenna_stamp", "get_full_uv_lagrangian_with_antenna_stamp", "noise_cube_lightcone", "granulometry_bsd", "betti1"]


def cases_free(tier):
    for v in range(1 if tier == "quick" else K.NV):
        yield dict(v=v)


def check_free(c):
    """the real joblib, its processes and their schedule"""
    v = c["v"]

    def go():
        import time
        time.sleep = time._mc_real_sleep      # joblib polls with sleep
        H.settings(1)
        try:
            for n in FREE:
                def ch(nj):
                    def f(x):
                        x.k["n_jobs"] = nj
                    return f
                agree(again(n, v, ch(2)), again(n, v, ch(1)), "parallel-real", f"{n} (variant {v}, setting 1) with two real worker processes instead of one")
        finally:
            from joblib.externals.loky import reusable_executor as rx
            if rx._executor is not None:
                rx._executor.shutdown(wait=True, kill_workers=True)
        return len(FREE)
    k = H.child(go, 280)
    return {(v, i) for i in range(k)}


# ---------------------------------------------------------------- units


# entry -> {argument: (documented unit, other units)}
UNITS = {
    "M_HI_on_grid": {"mass": ("Msun", "g"), "pos_xyz": ("Mpc", "kpc"), "box_dim": ("Mpc", "kpc")},
    "L_CII_on_grid": {"mass": ("Msun", "g"), "pos_xyz": ("Mpc", "kpc"), "box_dim": ("Mpc", "kpc")},
    "halo_list_to_grid": {"mass": ("Msun", "g"), "pos_xyz": ("Mpc", "kpc"), "box_dim": ("Mpc", "kpc")},
    "halo_mass_to_particle_number": {"Lbox": ("Mpc", "kpc"), "halo_mass": ("Msun", "g")},
    "lyA_scattering_cross_section": {"nu": ("Hz", "GHz"), "Tk": ("K", "mK")},
    "tau_nu_lyA": {"Tk": ("K", "mK"), "dr": ("Mpc", "kpc"), "nu": ("Hz", "GHz")},
    "tau_nu_lyA_FGPA": {"lambda_alpha": ("Angstrom", "nm")},
    "tau_nu_lyA_los-voigt": {"los_len": (None, "Mpc", "kpc"), "box_len": (None, "Mpc", "kpc")},
    "primary_beam": {"D_station": ("m", "km")},
    "circular_beam": {"D_station": ("m", "km")},
    "subarray_type_to_antxyz": {"subarray_type": ("m",)},
    "from_antenna_config": {"antxyz": ("m", "km")},
    "from_antenna_config_with_antenna_stamp": {"antxyz": ("m", "km")},
    "geographic_to_cartesian_coordinate_system": {"antll": ("deg", "rad")},
    "cartesian_to_geographic_coordinate_system": {"antxyz": ("m", "km")},
    "get_uv_daily_observation": {"antxyz": ("m", "km")},
    "get_uv_map": {"subarray_type": ("m", "km"), "max_baseline": ("km", "m", .1)},
    "get_uv_map_with_gains": {"subarray_type": ("m", "km")},
    "get_full_uv_map_with_antenna_stamp": {"subarray_type": ("m", "km")},
    "get_full_uv_lagrangian_with_antenna_stamp": {"subarray_type": ("m", "km")},
    "get_uv_map_lightcone": {"subarray_type": ("m", "km")},
    "make_uv_map_lightcone": {"subarray_type": ("m", "km")},
    "noise_lightcone": {"subarray_type": ("m", "km")},
    "noise_cube_lightcone": {"subarray_type": ("m", "km")},
    "max_baseline_to_max_k": {"max_baseline": ("km", "m")},
}


def cases_units(tier):
    for n in UNITS:
        if n in K.E:
            for v in range(K.NV):
                yield dict(n=n, v=v)


def check_units(c):
    import astropy.units as u
    name, v = c["n"], c["v"]

    def go():
        reset()
        s = sig(H.Call(name, v).f)
        k = 0
        spec = UNITS[name]

        def value(x, p):
            if p in x.k:
                return x.k[p]
            return s.parameters[p].default
        forms = []
        for p, sp in spec.items():
            val = value(_byname(name, v), p)
            us = sp[:2]
            if len(sp) == 3 and sp[0] is not None:
                val = sp[2]                     # a value for an argument that is usually left out
            base = us[0] or sp[1]
            q = val if hasattr(val, "unit") else np.asarray(val) * u.Unit(base)
            l = [("with units", q.to(base))] + [(f"in {z}", q.to(z)) for z in sp[1:2 if sp[0] is not None else None]]
            if sp[0] is not None:
                l = [("plain", np.array(q.to(base).value) if np.ndim(q.value) else float(q.to(base).value))] + l
            forms.append([(p, d, x) for d, x in l])
        ref = None
        for combo in itertools.product(*forms):
            def ch(x):
                for p, d, val in combo:
                    x.k[p] = val.copy() if hasattr(val, "copy") else val
            r = again(name, v, ch)
            txt = ", ".join(f"{p} {d}" for p, d, _ in combo)
            if ref is None:
                ref = (r, txt)
            else:
                C.compares += 1
                d = H.same(r, ref[0]) and _close(r, ref[0])
                if d:
                    raise Fail("units", f"{name} (variant {v}) with {txt} instead of {ref[1]}: {d}")
            k += 1
        return k
    k = H.child(go, 280)
    return {(name, v, i) for i in range(k)}


def _byname(name, v):
    x = H.Call(name, v)
    s = sig(x.f)
    x.k = dict(zip(s.parameters, x.a), **x.k)
    x.a = []
    return x


def _close(a, b):
    """None when the two values agree to the accuracy of the unit conversions (1e-6; single precision grids)"""
    if a[0] == "q" and b[0] == "q" or a[0] == b[0] == "a":
        x, y = (np.asarray(a[-1][-1]), np.asarray(b[-1][-1])) if a[0] == "q" else (a[3], b[3])
        if a[0] == "q" and a[1] != b[1]:
            return f"unit {a[1]} instead of {b[1]}"
        if x.shape == y.shape and x.dtype.kind in "fciu" and np.array_equal(np.isfinite(x), np.isfinite(y)):
            f = np.isfinite(y)
            if not f.any() or np.abs(x[f] - y[f]).max() <= 1e-6 * np.abs(y[f]).max():
                return None
        return H.same(a, b)
    if a[0] == b[0] == "l" and len(a[1]) == len(b[1]):
        return next((d for d in (_close(x, y) for x, y in zip(a[1], b[1])) if d), None)
    if a[0] == b[0] == "d" and [k for k, _ in a[1]] == [k for k, _ in b[1]]:
        return next((d for d in (_close(x[1], y[1]) for x, y in zip(a[1], b[1]) if x[0] != "'subarray_type'") if d), None)
    return H.same(a, b)


# ---------------------------------------------------------------- intermediate results that may be passed

M = K.M


def _sp(v):
    d = v.f(lo=-1)
    lab = K.LAB(v)
    lab = np.unique(lab, return_inverse=True)[1].reshape(lab.shape)
    return d, lab


def e_betti1(v):
    t = t2c()
    d = v.f()
    th = float(np.sort(d.ravel())[int(d.size * v.p(.8, .2))])
    vals = dict(b0=t.betti0(d, thres=th), b2=t.betti2(d, thres=th), chi=t.EulerCharacteristic(d, thres=th, verbose=False))
    for r in range(4):
        for ks in itertools.combinations(vals, r):
            yield f"given {ks}", lambda ks=ks: t.betti1(d, thres=th, verbose=False, **{k: vals[k] for k in ks})


def e_superpixel_map(v):
    t = t2c()
    d, lab = _sp(v)
    yield "means left out", lambda: t.superpixel_map(d, lab, verbose=False)
    yield "means given", lambda: t.superpixel_map(d, lab, mns=t.get_superpixel_means(d, labels=lab, verbose=False), verbose=False)


def e_snr(v):
    t = t2c()
    d, lab = _sp(v)
    mk = dict(means=lambda: t.get_superpixel_means(d, labels=lab, verbose=False), sigmas=lambda: t.get_superpixel_sigmas(d, labels=lab, verbose=False), n_pix=lambda: t.get_superpixel_n_pixels(d, labels=lab, verbose=False))
    for r in range(4):
        for ks in itertools.combinations(mk, r):
            yield f"given {ks}", lambda ks=ks: t.get_superpixel_SNRs(data=d, labels=lab, **{k: mk[k]() for k in ks})
    yield "given all, without data", lambda: t.get_superpixel_SNRs(**{k: mk[k]() for k in mk})


def e_mean_estimate(v):
    t = t2c()
    d, lab = _sp(v)
    mk = dict(means=lambda: t.get_superpixel_means(d, labels=lab, verbose=False), sigmas=lambda: t.get_superpixel_sigmas(d, labels=lab, verbose=False), n_pix=lambda: t.get_superpixel_n_pixels(d, labels=lab, verbose=False))
    for r in range(4):
        for ks in itertools.combinations(mk, r):
            yield f"given {ks}", lambda ks=ks: t.mean_estimate(d, labels=lab, SNR_thres=1, **{k: mk[k]() for k in ks})


def _slic(fn, **kw):
    def e(v):
        t = t2c()
        d = v.c(lo=-1, hi=3, n=6 + (v.v == 3))
        f = getattr(t, fn)
        n = v.p(8, 5)
        yield "labels left out", lambda: f(d, slic_segments=n, **kw)
        yield "labels given", lambda: f(d, labels=t.slic_cube(d, n_segments=n, compactness=kw.get("c", .1), verbose=False), **kw)
    return e


UVA = lambda v: dict(subarray_type=K.ANT(v), total_int_time=1., int_time=1200., boxsize=v.p(200., 100.))


def _uv(v, z, n):
    return M("radio_telescope_noise").get_uv_map(n, z, verbose=False, **UVA(v))


def e_noise_map(v):
    z, n = v.p(8., 9.), 6 + (v.v == 3)
    f = M("radio_telescope_noise").noise_map
    m, a = _uv(v, z, n)
    yield "uv map left out", lambda: f(n, z, .5, verbose=False, **UVA(v))
    yield "uv map given", lambda: f(n, z, .5, verbose=False, uv_map=m.copy(), N_ant=a, **UVA(v))


def e_noise_coeval(v):
    z, n = v.p(8., 9.), 6 + (v.v == 3)
    f = M("radio_telescope_noise").noise_cube_coeval
    m, a = _uv(v, z, n)
    yield "uv map left out", lambda: f(n, z, depth_mhz=.5, verbose=False, **UVA(v))
    yield "uv map given", lambda: f(n, z, depth_mhz=.5, verbose=False, uv_map=m.copy(), N_ant=a, **UVA(v))


def e_on_coeval(v):
    z = v.p(8., 9.)
    f = M("radio_telescope_noise").apply_uv_response_on_coeval
    d = v.c(n=6)
    m, a = _uv(v, z, 6)
    yield "uv map left out", lambda: f(d, z, **UVA(v))
    yield "uv map given", lambda: f(d, z, uv_map=m.copy(), N_ant=a, **UVA(v))


def e_noise_1d(v):
    z, n = v.p(8., 9.), 8
    f = M("radio_telescope_noise").noise_coeval_power_spectrum_1d
    m, a = _uv(v, z, n)
    yield "uv map left out", lambda: f(n, z, .5, kbins=3, verbose=False, **UVA(v))
    yield "uv map given", lambda: f(n, z, .5, kbins=3, verbose=False, uv_map=m.copy(), N_ant=a, **UVA(v))


def e_convolve(v):
    SM = M("smoothing")
    z, a = v.p(8., 9.), v.f((6, 6))
    k = dict(total_int_time=1., int_time=1200., declination=v.p(-30., -50.))
    b = 200. if v.v == 3 else 30.
    for who, lay in (("positions", K.ANT(v)), ("the default telescope", None)):
        m = M("radio_telescope_noise").get_uv_map(6, z, subarray_type=lay, boxsize=b, verbose=False, **k)[0]
        for mb in (None, 1.5):
            forms = [lambda: SM.convolve_uvmap(a, z=z, uv_map=m.copy(), max_baseline=mb, box_size_mpc=b, verbose=False), lambda: SM.convolve_uvmap(a, z=z, filename=lay, max_baseline=mb, box_size_mpc=b, verbose=False, **k)]
            r = [H.norm(f()) for f in forms]
            expect(np.isfinite(r[0][3]).all(), "harness", lambda: "an empty uv map")
            d = H.same(r[1], r[0])
            expect(not d, "equal", lambda: f"convolve_uvmap (variant {v.v}, {who}, longest baseline {mb}) without a uv map: {d}")
        c = v.c(n=6)
        x, y = (H.norm(SM.convolve_uvmap_coeval(c, z, box_size_mpc=b, max_baseline=1.5, verbose=False, **q)) for q in (dict(uv_map=m.copy()), dict(k, filename=lay)))
        d = H.same(y, x)
        expect(not d, "equal", lambda: f"convolve_uvmap_coeval (variant {v.v}, {who}) without a uv map: {d}")
    yield "", lambda: 0


def e_wedge(v):
    FG = M("foreground_model")
    d, z = v.c(n=6), v.p(8., 9.)
    yield "filter left out", lambda: FG.remove_wedge_image(d, z, mu=v.p(.5, .3), boxsize=100.)
    yield "filter given", lambda: FG.remove_wedge_image(d, z, filt=FG.diabolo_filter(z, array=d, boxsize=100., mu=v.p(.5, .3)), boxsize=100.)


def e_lyacosmo(v):
    from astropy.cosmology import Planck18
    L = M("lyman_alpha_transmission")
    a = (v.p(6., 7.), v.f((4,), 1e-5, 1e-4), v.f((4,), 5e3, 2e4, k=1), K._q(v.f((4,), .1, 1., k=2), "Mpc"))
    yield "cosmology left out", lambda: L.tau_nu_lyA(*a)
    yield "Planck18 given", lambda: L.tau_nu_lyA(*a, cosmo=Planck18)


def e_fgpacosmo(v):
    from astropy.cosmology import Planck18
    L = M("lyman_alpha_transmission")
    a = (v.p(6., 7.), v.f(), v.f(lo=-1, hi=3, k=1))
    yield "cosmology left out", lambda: L.tau_nu_lyA_FGPA(*a)
    yield "Planck18 given", lambda: L.tau_nu_lyA_FGPA(*a, cosmo=Planck18)


def e_loscosmo(v):
    from astropy.cosmology import Planck18
    import astropy.units as u
    L = M("lyman_alpha_transmission")
    a = (v.p(6., 7.), v.c() * 2e-6, v.c(lo=-1, hi=3, k=1))
    k = dict(los_len=150. * u.Mpc, los_axis=v.p(2, 1))
    yield "cosmology and box left out", lambda: L.tau_nu_lyA_los(*a, **k)
    yield "Planck18 given", lambda: L.tau_nu_lyA_los(*a, cosmo=Planck18, **k)
    yield "box given", lambda: L.tau_nu_lyA_los(*a, box_len=200 / Planck18.h * u.Mpc, **k)


def e_mags(v):
    import astropy.units as u
    from astropy.cosmology import Planck18
    A = M("astro_tools")
    m, z = (v.f((3,), 20., 25.)) * u.mag, v.p(6., 8.)
    yield "cosmology left out", lambda: (A.Muv_to_muv(m, z), A.muv_to_Muv(m, z), A.FoV_cMpc2(4. * u.deg**2, z))
    yield "Planck18 given", lambda: (A.Muv_to_muv(m, z, cosmo=Planck18), A.muv_to_Muv(m, z, cosmo=Planck18), A.FoV_cMpc2(4. * u.deg**2, z, cosmo=Planck18))


def e_window(v):
    t = t2c()
    d = v.c(n=6)
    w = v.p("blackmanharris", "tukey")
    from scipy.signal import windows
    x = getattr(windows, w)(6)
    yield "window by name", lambda: t.power_spectrum_1d(d, kbins=3, box_dims=50., window=w)
    yield "window as an array", lambda: t.power_spectrum_1d(d, kbins=3, box_dims=50., window=np.ones((6, 6, 1)) * x[None, None, :])


def e_ps_boxes(v):
    t = t2c()
    d = v.c(n=6)
    for b in (50., [50., 50., 50.], (50., 50., 50.), np.array([50., 50., 50.])):
        yield f"box {b!r}", lambda b=b: (t.power_spectrum_1d(d, kbins=3, box_dims=b), t.power_spectrum_nd(d, box_dims=b), t.power_spectrum_2d(d, kbins=3, box_dims=b), t.cross_power_spectrum_1d(d, d[::-1], kbins=3, box_dims=b),
                                             t.power_spectrum_mu(d, kbins=3, mubins=2, box_dims=b), t.power_spectrum_multipoles(d, kbins=3, box_dims=b), t.dimensionless_ps(d, kbins=3, box_dims=b))


EQUAL = {
    "betti1 from the other Betti numbers": e_betti1, "superpixel means": e_superpixel_map, "superpixel SNRs": e_snr, "estimated mean": e_mean_estimate,
    "superpixel means, labels": _slic("get_superpixel_means", verbose=False), "superpixel sigmas, labels": _slic("get_superpixel_sigmas", verbose=False),
    "superpixel sizes, labels": _slic("get_superpixel_n_pixels", verbose=False), "superpixel pixels, labels": _slic("get_superpixel_pixels", verbose=False),
    "noise_map": e_noise_map, "noise_cube_coeval": e_noise_coeval, "apply_uv_response_on_coeval": e_on_coeval, "noise_coeval_power_spectrum_1d": e_noise_1d,
    "convolve_uvmap": e_convolve, "remove_wedge_image": e_wedge, "tau_nu_lyA": e_lyacosmo, "tau_nu_lyA_FGPA": e_fgpacosmo, "tau_nu_lyA_los": e_loscosmo, "magnitudes": e_mags,
    "window": e_window, "boxes": e_ps_boxes,
}


def cases_equal(tier):
    for n in EQUAL:
        for v in range(K.NV):
            for s in (0, 1):
                yield dict(n=n, v=v, s=s)


def check_equal(c):
    def go():
        H.settings(c["s"])
        out = []
        for what, f in EQUAL[c["n"]](K.V(c["v"])):
            np.random.seed(20261)
            C.calls += 1
            try:
                out.append((what, H.norm(f())))
            except Exception as e:
                raise Fail("equal-raises", f"{c['n']} (variant {c['v']}, setting {c['s']}), {what}: raises {e!r}")
        for what, r in out[1:]:
            agree(r, out[0][1], "equal", f"{c['n']} (variant {c['v']}, setting {c['s']}), {what} instead of {out[0][0]}")
        return len(out)
    k = H.child(go, 280)
    return {(c["n"], c["v"], c["s"], i) for i in range(k)}


SUITES = [
    FnSuite("box", cases_box, check_box, "every function with an optional box x 4 variants x all histories of two of 3 (5) simulation boxes: left out, given as the sentinel, by its other name, after a rejected box, after an explicit one", timeout=600, chunk=1),
    FnSuite("verbose", cases_verbose, check_verbose, "every call of the catalogue x 4 variants x verbose on/off x set_verbose on/off: result and state of the random generator", timeout=300, chunk=2),
    FnSuite("jobs", cases_jobs, check_jobs, "every function that distributes deterministic work x 4 variants x 2 cosmologies x 2, 3 or all jobs x all orders of up to 3 (4) tasks (4 orders of more) x one worker or one per task", timeout=600, chunk=1),
    FnSuite("free-running", cases_free, check_free, "6 functions with two real loky workers in another cosmology", timeout=300, chunk=1),
    FnSuite("units", cases_units, check_units, "every argument that takes a quantity: plain number, documented unit, another unit, in all combinations", timeout=300, chunk=1),
    FnSuite("equal", cases_equal, check_equal, "intermediate results and defaults left out or given, in all combinations, 4 variants, 2 settings", timeout=300, chunk=1),
]
