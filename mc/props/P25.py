"""P25: primary beams, foregrounds and wedge filters act on every channel and mode as stated."""
import itertools

import numpy as np
from scipy.special import j1

from mc.core import C, FnSuite, call, digest, eq, expect, field, must_raise, near, t2c
from mc.props import P22
from mc.props.P13 import reset
from mc.props.P24 import Draws, mk_per_mujy

TITLE = "Primary beams, foregrounds and wedge removal act on every channel and mode as stated"
LEVEL = "model_checking"
ASSUMPTIONS = ["images are square on the sky (as documented by the single box size)",
               "diabolo_filter and barrel_filter themselves are not claimed; remove_wedge_image is checked with given filters",
               "rolling wedge removal is compared at channels of one redshift (the channel that decides the slope of the wedge is not specified); with varying redshifts only linearity and locality are checked"]


def mods():
    t2c()
    import sys
    return sys.modules["tools21cm.foreground_model"], sys.modules["tools21cm.primary_beam"]


def null(z, D):
    lam = 299792458. / (1420e6 / (1 + z))
    return 1.22 * lam / D * P22.ref_cdist(z)


def ref_beam(n, f, box, ln):
    i = (np.arange(n) - n / 2.) * box / n
    r = np.sqrt(i[:, None] ** 2 + i[None, :] ** 2)
    f = f.lower()
    if f == "step":
        b = (r <= ln / 2.).astype(float)
    elif f == "gaussian":
        s = ln / 1.186 / 2.355
        b = np.exp(-r ** 2 / (2 * s ** 2))
    elif f == "bessel":
        x = 3.8317 / ln * r
        b = np.where(x == 0, 1., (2 * j1(np.where(x == 0, 1., x)) / np.where(x == 0, 1., x)) ** 2)
    else:
        b = 1. / (1. + np.exp(.5 * (r - ln / 2.)))
    return b / b.max() if b.max() > 1e-4 else None       # the image does not contain the beam


BF = ("step", "gaussian", "bessel", "sigmoid", "Gaussian", "STEP")


def cases_beam(tier):
    for n in range(1, 10 if tier == "quick" else 20):
        for f in BF:
            for z in (6.5, 9):
                for D in (40., 25., "q"):
                    for ln in (None, 210.):
                        yield dict(n=n, f=f, z=z, D=D, ln=ln)


def check_beam(c):
    t = reset()
    from astropy import units as u
    F, P = mods()
    D = 4000. * u.cm if c["D"] == "q" else c["D"]
    Dm = 40. if c["D"] == "q" else c["D"]
    out = []
    near(float(call(P.primary_beam_null, c["z"], D_station=D)), null(c["z"], Dm), "beam-null", f"{c}", rtol=1e-3)
    for box in (None, 700.):
        if box is None:
            t.set_sim_constants(500.)
        if ref_beam(c["n"], c["f"], box or t.conv.LB, .99 * (c["ln"] or null(c["z"], Dm))) is None:
            continue
        b = call(P.circular_beam, c["n"], c["z"], D_station=D, beam_func=c["f"], boxsize=box, l_null=c["ln"])
        L = box or t.conv.LB
        ln = c["ln"] or float(P.primary_beam_null(c["z"], D_station=D))
        near(b, ref_beam(c["n"], c["f"], L, ln), "beam", f"{c} {box}", rtol=1e-6, atol=1e-9)
        eq(b, b.T, "beam-symmetry", f"{c}")
        near(b[1:, 1:], b[1:, 1:][::-1, ::-1] if c["n"] % 2 == 0 else b[1:, 1:], "beam-symmetry", f"{c}", rtol=1e-9, atol=1e-12)
        out.append(digest(np.round(b, 6)))
    must_raise(P.circular_beam, 4, 8., beam_func="other", kind="beam-unknown", what="unknown beam", exc=ValueError)
    return out or None


def cases_pb(tier):
    for n in (1, 2, 3, 5):
        for nf in (1, 2, 4):
            for ax in (0, 1, 2, -1, -2, -3):
                for f in BF[:4]:
                    for zf in ("scalar", "int", "array", "list", "one", "down"):
                        yield dict(n=n, nf=nf, ax=ax, f=f, zf=zf)


def check_pb(c):
    reset()
    F, P = mods()
    n, nf = c["n"], c["nf"]
    shape = [n, n, n]
    shape[c["ax"]] = nf
    x = field(tuple(shape), 4, lo=-3, hi=4)
    za = np.linspace(7., 9., nf)
    z = {"scalar": 8., "int": 8, "array": za, "list": list(za), "one": np.array([8.]), "down": za[::-1]}[c["zf"]]
    zs = np.full(nf, 8.) if c["zf"] in ("scalar", "int", "one") else (za[::-1] if c["zf"] == "down" else za)
    if any(ref_beam(n, c["f"], 333., .99 * ln) is None for ln in (120., 150., null(7., 40.))):
        return None
    for dt in (float, np.float32, int):
        a = x.astype(dt)
        if c["ax"] == -1 or c["ax"] == 2:
            a = np.asfortranarray(a)
        y = call(P.primary_beam, a, z, nu_axis=c["ax"], beam_func=c["f"], boxsize=333., verbose=False)
        b = np.stack([np.asarray(P.circular_beam(n, zi, beam_func=c["f"], boxsize=333.)) for zi in zs], axis=-1)
        want = np.moveaxis(np.moveaxis(a, c["ax"], -1) * b, -1, c["ax"])
        # the two sky axes are interchangeable (symmetric beam)
        near(y, want, "beam-channel", f"{c} {dt}", rtol=1e-5)
        y = call(P.primary_beam, a, z, nu_axis=c["ax"], beam_func=c["f"], boxsize=333., l_null=150., D_station=10., verbose=False)
        b = np.stack([ref_beam(n, c["f"], 333., 150.)] * nf, axis=-1)
        near(y, np.moveaxis(np.moveaxis(a, c["ax"], -1) * b, -1, c["ax"]), "beam-given-null", f"{c} {dt}", rtol=1e-5, atol=1e-9)
    if nf == 1:
        img = x.take(0, axis=c["ax"])
        for k in (dict(), dict(l_null=120.), dict(D_station=30.)):
            y = call(P.primary_beam, img, 8., beam_func=c["f"], boxsize=333., **k)
            near(y, img * np.asarray(P.circular_beam(n, 8., beam_func=c["f"], boxsize=333., **k)), "beam-image", f"{c} {k}", rtol=1e-9)
    return digest(np.round(y, 6))


# ---------------------------------------------------------------- galactic foreground

def syn(n, z, box):
    """amplitudes of the modes of the galactic foreground in mK (image amplitude of one unit draw)"""
    nu = 1420. / (1 + z)
    d = P22.ref_cdist(z)
    i = np.arange(n) - n / 2. + .5
    l = 2 * np.pi * np.sqrt(i[:, None] ** 2 + i[None, :] ** 2) * d / box
    with np.errstate(divide="ignore"):
        cl = 513. * (1000. / l) ** 2.34 * (nu / 150.) ** (-5.6 - .2 * np.log(nu / 150.))
    cl[l == 0] = 0
    return np.sqrt(box ** 2 / d ** 2 * cl / 2) / n ** 2 * 1e6 * mk_per_mujy(n, z, box)


def cases_gal(tier):
    for n in range(2, 7 if tier == "quick" else 11):
        for z in (8., 7.25, 9, [8., 9.], [7, 8, 9], "array"):
            for box in (200., 714.):
                yield dict(n=n, z=z, box=box)


def check_gal(c):
    reset()
    F, P = mods()
    n, box = c["n"], c["box"]
    z = np.array([7.5, 10.]) if c["z"] == "array" else c["z"]
    zs = np.atleast_1d(np.asarray(z, float))
    f = lambda zz=z, **k: F.galactic_synch_fg(zz, n, box, **k)
    amp = [syn(n, zi, box) for zi in zs]
    with Draws() as d:
        zero = call(f)
    expect(zero.shape == ((n, n, len(zs)) if len(zs) > 1 else (n, n)), "foreground-form", f"{zero.shape}")
    if d.n:
        expect(not zero.any(), "foreground-offset", "")
        got = []
        for k in range(d.n):
            with Draws(k):
                r = np.asarray(f()).reshape(n, n, -1)
            C.calls += 1
            near(r, np.broadcast_to(r[:1, :1], r.shape), "foreground-mode", f"{c} draw {k}", rtol=1e-6, scale=1e-9)
            got.append(r[0, 0])
        for i in range(len(zs)):
            near(np.sort([g[i] for g in got]), np.sort(np.concatenate([amp[i].ravel()] * 2)), "foreground-amplitude", f"{c} z={zs[i]}", rtol=1e-4, scale=1e-9)
    np.random.seed(11)
    a = call(f)
    np.random.seed(11)
    eq(call(f), a, "foreground-seed", "global seed")
    for s in (0, 1, 77):
        r = call(f, rseed=s)
        np.random.seed(s)
        eq(np.asarray(f()), np.asarray(r), "foreground-seed", f"seed {s}")
        expect(np.isfinite(r).all() and (np.asarray(r) >= 0).all(), "foreground-finite", f"{c}")
        # the same sky at every frequency: a channel does not depend on the others
        for i, zi in enumerate(zs):
            one = call(f, float(zi), rseed=s)
            eq(np.asarray(one), np.asarray(r).reshape(n, n, -1)[..., i], "foreground-channel", f"{c} seed {s} channel {i}")
    return digest(np.round(np.log10(np.asarray(r) + 1e-30), 3))


def cases_exg(tier):
    for n in (1, 2, 3, 5, 8):
        for z in (8., 9, [8., 9.5], [10., 7.]):
            for smax in (.111, 1.):
                for seed in (0, 1, 2, 3) if tier == "quick" else range(20):
                    yield dict(n=n, z=z, smax=smax, seed=seed)


def check_exg(c):
    """statements that hold for every draw: number and flux limits, spectral indices, reproducibility"""
    reset()
    F, P = mods()
    n, box = c["n"], 150.
    zs = np.atleast_1d(np.asarray(c["z"], float))
    f = lambda zz=c["z"]: F.extragalactic_pointsource_fg(zz, n, box, rseed=c["seed"], S_max=c["smax"])
    r = call(f)
    expect(np.shape(r) == tuple(s for s in (n, n, len(zs)) if s > 1), "foreground-form", f"{np.shape(r)}")
    r = np.asarray(r).reshape(n, n, len(zs))
    eq(np.asarray(call(f)).reshape(r.shape), r, "foreground-seed", f"{c}")
    expect(np.isfinite(r).all() and (r >= 0).all(), "foreground-finite", f"{c}")
    # number of sources from dN/dS = 10^3.75 S^-1.6 within the field of view
    S = np.arange(.1, c["smax"], .01)
    om = box ** 2 / P22.ref_cdist(zs.min()) ** 2
    y = S ** -1.6
    N = 10 ** 3.75 * np.sum((y[1:] + y[:-1]) / 2 * np.diff(S)) * om
    for i, z in enumerate(zs):
        nu = 1420. / (1 + z)
        fl = r[..., i] / mk_per_mujy(n, z, box)            # muJy per pixel
        tot = fl.sum()
        s = sorted(((nu / 150.) ** -.7, (nu / 150.) ** -.8))
        expect(tot <= (N + 1) * S[-1] * s[1] * 1.01, "foreground-flux", f"{c}: total {tot} of at most {N} sources")
        expect(tot >= (N - 1.01) * S[0] * s[0] * .99, "foreground-flux", f"{c}: total {tot} of at least {N - 1} sources")
    if len(zs) > 1:
        # the order of the redshifts does not matter, the sources are those of the lowest redshift
        back = np.asarray(call(f, list(zs)[::-1])).reshape(r.shape)
        eq(back[..., ::-1], r, "foreground-redshift-order", f"{c}: redshifts in reversed order")
        one = np.asarray(call(f, float(zs.min()))).reshape(n, n)
        eq(r[..., int(np.argmin(zs))], one, "foreground-sources", f"{c}: slice of the lowest redshift and a call with that redshift")
    for i in range(1, len(zs)):
        nu = 1420. / (1 + zs)
        a, b = r[..., 0] / mk_per_mujy(n, zs[0], box), r[..., i] / mk_per_mujy(n, zs[i], box)
        q = sorted(((nu[i] / nu[0]) ** -.7, (nu[i] / nu[0]) ** -.8))
        m = a > 0
        eq(b > 0, m, "foreground-position", f"{c}")
        expect((b[m] / a[m] >= q[0] * .995).all() and (b[m] / a[m] <= q[1] * 1.005).all(), "foreground-spectrum", f"{c}: ratios {b[m] / a[m]} outside of {q}")
    return digest(np.round(r, 6))


# ---------------------------------------------------------------- wedge filters

def cases_wedge(tier):
    dims = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5)
    for s in itertools.product(dims, repeat=3):
        yield dict(s=s)


def check_wedge(c):
    reset()
    F, P = mods()
    s = tuple(c["s"])
    n = int(np.prod(s))
    x = field(s, 9, lo=-2, hi=2)
    near(call(F.remove_wedge_image, x, 8., filt=np.ones(s)), x, "wedge-identity", f"{s}", rtol=1e-9, atol=1e-12)
    near(call(F.remove_wedge_image, x, 8., filt=np.zeros(s)), np.zeros(s), "wedge-zero", f"{s}", atol=1e-12)
    # every single mode can be removed and nothing else changes; filters are centred on the zero mode
    grid = list(itertools.product(*[range(a) for a in s]))
    X = np.fft.fftn(x)
    for k in grid:
        filt = np.ones(s)
        cen = tuple((k[i] + s[i] // 2) % s[i] for i in range(3))
        filt[cen] = 0
        Y = X.copy()
        Y[k] = 0
        near(call(F.remove_wedge_image, x, 8., filt=filt), np.real(np.fft.ifftn(Y)), "wedge-mode", f"{s} mode {k}", rtol=1e-7, atol=1e-10)
    return digest(s)


def ref_roll(lc, z, cell, cl, om, thr):
    """wedge removal with the slope of one redshift, chunk by chunk"""
    from scipy.integrate import quad
    n, nz = lc.shape[0], lc.shape[2]
    E = lambda x: np.sqrt(om * (1 + x) ** 3 + 1 - om)
    mf = E(z) / (1 + z) * quad(lambda x: 1 / E(x), 0, z)[0]
    k = np.fft.fftfreq(n, d=cell)
    kp = np.fft.fftfreq(cl, d=cell)
    kt = np.sqrt(k[:, None] ** 2 + k[None, :] ** 2)[:, :, None]
    bl = np.blackman(cl)
    bm = np.abs(np.fft.fft(bl)) ** 2
    buf = (kp[1] - kp[0]) * (np.where(bm / bm.max() <= thr)[0][0] - 1)
    with np.errstate(divide="ignore", invalid="ignore"):
        W = kp[None, None, :] / (kt * mf + buf)
        edge = np.isfinite(W) & (np.abs(np.abs(W) - 1) < 1e-4)
        w = (W < -1) | (W > 1)
    pad = np.concatenate([np.zeros((n, n, cl)), lc, np.zeros((n, n, cl))], axis=2)
    out = np.zeros((2,) + lc.shape)           # modes exactly on the edge of the wedge removed, kept
    for j in range(nz):
        i = j + cl - cl // 2
        T = np.fft.fftn(pad[..., i:i + cl] * bl)
        out[0, ..., j] = np.real(np.fft.ifftn(T * (w & ~edge)))[..., cl // 2]
        out[1, ..., j] = np.real(np.fft.ifftn(T * (w | edge)))[..., cl // 2]
    return out


def cases_roll(tier):
    for n in (2, 3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6, 8):
        for nz in (1, 3, 6):
            for cl in (None, 2, 4, 6, 8, 9, 12):
                for z in (.2, .7, 7.5):
                    for om in (None, .15):
                        for thr in (1e-10, 1e-3, .05):
                            yield dict(n=n, nz=nz, cl=cl, z=z, om=om, thr=thr)


def check_roll(c):
    t = reset()
    F, P = mods()
    n, nz = c["n"], c["nz"]
    cl = c["cl"] or min(n, nz)
    thr = c["thr"]
    bl = np.abs(np.fft.fft(np.blackman(cl))) ** 2
    if cl < 2 or not (bl / bl.max() <= thr).any():
        return None
    x = field((n, n, nz), 3, lo=-3, hi=5)
    k = dict(cell_size=1.7, buffer_threshold=thr)
    if c["cl"]:
        k["chunk_length"] = c["cl"]
    if c["om"]:
        k["OMm"] = c["om"]
    zz = np.full(nz, c["z"])
    y = call(F.rolling_wedge_removal_lightcone, x, zz, **k)
    expect(y.shape == x.shape, "roll-form", f"{y.shape}")
    want, other = ref_roll(x, c["z"], 1.7, cl, c["om"] or float(t.const.Omega0), thr)
    top = max(np.abs(want).max(), np.abs(other).max())
    if not np.allclose(y, other, rtol=1e-3, atol=1e-4 * top):
        near(y, want, "roll", f"{c}", rtol=1e-3, atol=1e-4 * top)
    near(call(F.rolling_wedge_removal_lightcone, 2. * x, zz, **k), 2 * np.asarray(y, float), "roll-linear", f"{c}", rtol=1e-3, scale=1e-4)
    # linear and local with varying redshifts
    zv = np.linspace(c["z"], c["z"] + .5, nz)
    y = np.asarray(call(F.rolling_wedge_removal_lightcone, x, zv, **k), float)
    parts = np.zeros(x.shape)
    for j in range(nz):
        p = np.zeros(x.shape)
        p[..., j] = x[..., j]
        r = np.asarray(call(F.rolling_wedge_removal_lightcone, p, zv, **k), float)
        far = [q for q in range(nz) if not (q - cl // 2 <= j < q - cl // 2 + cl)]
        expect(not np.any(r[..., far]), "roll-local", f"{c}: channel {j} leaks into {far}")
        parts += r
    near(parts, y, "roll-linear", f"{c} sum of channels", rtol=1e-3, scale=1e-4)
    # the wedge of a channel is that of one of the redshifts of its own chunk
    one = [np.asarray(F.rolling_wedge_removal_lightcone(x, np.full(nz, z), **k), float) for z in zv]
    for q in range(nz):
        own = [j for j in range(nz) if q - cl // 2 <= j < q - cl // 2 + cl]
        d = min(np.abs(one[j][..., q] - y[..., q]).max() for j in own)
        expect(d <= 1e-3 * max(np.abs(o).max() for o in one) + 1e-9, "roll-own-wedge", f"{c}: channel {q} is not cleaned with the wedge of any redshift of its chunk ({d})")
    return digest(np.round(want, 3)) if np.abs(want).max() > 1e-6 else None


# ---------------------------------------------------------------- everyday sizes

def cases_real(tier):
    for n, f in itertools.product((64, 129), BF[:4]):
        yield dict(what="beam", n=n, f=f)
    for s in ((40, 33, 28), (300, 6, 7), (5, 8, 270)):
        yield dict(what="wedge", s=s)
    for n, nz, cl in ((6, 40, 16), (5, 150, 9), (20, 20, None)):
        for z in (.2, 7.5):
            yield dict(what="roll", n=n, nz=nz, cl=cl, z=z, om=None, thr=1e-3)
    for n, z in ((24, 8.), (33, [7., 9.])):
        yield dict(what="gal", n=n, z=z, box=300.)


def check_real(c):
    """images of up to 129 cells, 150 channels"""
    t = reset()
    F, P = mods()
    if c["what"] == "gal":
        return check_gal(c)
    if c["what"] == "wedge":
        s = tuple(c["s"])
        x = field(s, 9, lo=-2, hi=2)
        filt = np.round(field(s, 5) * 2) / 2
        near(call(F.remove_wedge_image, x, 8., filt=filt), np.real(np.fft.ifftn(np.fft.fftn(x) * np.fft.ifftshift(filt))), "wedge", str(c), rtol=1e-7, atol=1e-9)
        return digest(s)
    if c["what"] == "roll":
        n, nz = c["n"], c["nz"]
        cl = c["cl"] or min(n, nz)
        x = field((n, n, nz), 3, lo=-3, hi=5)
        k = dict(cell_size=1.7, buffer_threshold=c["thr"])
        if c["cl"]:
            k["chunk_length"] = c["cl"]
        y = call(F.rolling_wedge_removal_lightcone, x, np.full(nz, c["z"]), **k)
        want, other = ref_roll(x, c["z"], 1.7, cl, float(t.const.Omega0), c["thr"])
        top = max(np.abs(want).max(), np.abs(other).max())
        if not np.allclose(y, other, rtol=1e-3, atol=1e-4 * top):
            near(y, want, "roll", f"{c}", rtol=1e-3, atol=1e-4 * top)
        return digest(np.round(want, 2))
    n, f = c["n"], c["f"]
    b = call(P.circular_beam, n, 8., beam_func=f, boxsize=500., l_null=300.)
    near(b, ref_beam(n, f, 500., 300.), "beam", str(c), rtol=1e-6, atol=1e-9)
    zs = np.linspace(7., 9., 30)
    x = field((n, n, 30), 4, lo=-3, hi=4)
    y = call(P.primary_beam, x, zs, nu_axis=2, beam_func=f, boxsize=500., verbose=False)
    for i, z in enumerate(zs):
        near(y[:, :, i], x[:, :, i] * np.asarray(P.circular_beam(n, z, beam_func=f, boxsize=500.)), "beam-channel", f"{c} {i}", rtol=1e-5)
    return digest(np.round(b, 6))


SUITES = [
    FnSuite("beam", cases_beam, check_beam, "1..9 (19) cells x 6 names x 2 redshifts x 3 stations x given null x 2 boxes"),
    FnSuite("primary-beam", cases_pb, check_pb, "4 sizes x 3 numbers of channels x 6 frequency axes x 4 beams x 5 forms of the redshift x 3 dtypes"),
    FnSuite("galactic", cases_gal, check_gal, "2..6 (10) cells x 6 redshift forms x 2 boxes; all unit vectors of the draws; 3 seeds"),
    FnSuite("extragalactic", cases_exg, check_exg, "5 grids x 4 redshift forms x 2 flux limits x 4 (20) seeds"),
    FnSuite("wedge", cases_wedge, check_wedge, "all shapes up to 4x4x4 (5x5x5) x every single mode"),
    FnSuite("rolling", cases_roll, check_roll, "4 (6) sizes x 3 depths x 7 chunk lengths x 3 redshifts (steep and shallow wedges) x 2 cosmologies x 3 buffers; every channel"),
    FnSuite("realistic", cases_real, check_real, "beams of 64 and 129 cells and 30 channels; filters on 3 boxes; 3 light-cones of up to 150 channels; galactic maps of 24 and 33 cells", timeout=300),
]
