"""Convolution and smoothing. fftconvolve is bilinear, so all pairs of unit impulses decide every pair of arrays of a shape;
the smoothing operators are linear in the data and are decided on every unit impulse plus a generic field."""
import itertools
import numpy as np
from mc import core
from mc.core import FnSuite, call, eq, near, expect, digest, must_raise

LEVEL = "model_checking"
ASSUMPTIONS = ["only the numpy backend is installed", "float rounding below 1e-9 of the field's scale is not a difference"]


def ext(i, n, b):
    """index of the extended array, None = zero"""
    if 0 <= i < n:
        return i
    if b == "constant":
        return None
    if b in ("wrap", "circular"):
        return i % n
    if b == "nearest":
        return min(max(i, 0), n - 1)
    if b == "reflect":            # numpy naming: the edge cell is not repeated
        if n == 1:
            return 0
        p = 2 * n - 2
        i %= p
        return i if i < n else p - i
    p = 2 * n                     # mirror: the edge cell is repeated
    i %= p
    return i if i < n else p - 1 - i


def conv_ref(x, k, mode, b):
    """sum_j k[j] x[i + c - j]; 'same': centre c = n//2 of the kernel; 'full': c = 0, 'valid': c = n-1"""
    s1, s2 = x.shape, k.shape
    if mode == "valid":           # takes precedence over the boundary
        b = "constant"
    if b == "circular":
        mode = "same"
    if mode == "same":
        osh, c = s1, [n // 2 for n in s2]
    elif mode == "full":
        osh, c = tuple(a + q - 1 for a, q in zip(s1, s2)), [0] * len(s2)
    else:
        osh, c = tuple(a - q + 1 for a, q in zip(s1, s2)), [q - 1 for q in s2]
    if np.prod(osh, dtype=float) * k.size > 3e5:
        from scipy import signal
        xe = x.astype(np.result_type(x.dtype, np.float64))
        for a in range(x.ndim):
            ii = [ext(t + c[a] - (s2[a] - 1), s1[a], b) for t in range(osh[a] + s2[a] - 1)]
            xe = np.take(np.concatenate([xe, np.zeros_like(np.take(xe, [0], axis=a))], axis=a), [s1[a] if q is None else q for q in ii], axis=a)
        return signal.fftconvolve(xe, k, "valid")
    out = np.zeros(osh, dtype=np.result_type(x.dtype, k.dtype, np.float64))
    axes = [[[ext(i + c[a] - j, s1[a], b) for j in range(s2[a])] for i in range(osh[a])] for a in range(len(s1))]
    for o in itertools.product(*[range(n) for n in osh]):
        t = 0
        for j in itertools.product(*[range(n) for n in s2]):
            p = tuple(axes[a][o[a]][j[a]] for a in range(len(s1)))
            if None not in p:
                t += k[j] * x[p]
        out[o] = t
    return out


BND = ["constant", "circular", "reflect", "nearest", "mirror", "wrap"]


def cases_conv(tier):
    one = [((n,), (m,)) for n in range(1, 7) for m in range(1, 8)]
    two = [((3, 4), (2, 3)), ((4, 3), (3, 2)), ((2, 5), (3, 4)), ((3, 3), (3, 3)), ((4, 4), (4, 4)), ((2, 3), (5, 1)), ((5, 2), (1, 2))]
    three = [((3, 2, 4), (2, 3, 3)), ((2, 2, 3), (3, 1, 2)), ((3, 3, 3), (3, 3, 3))]
    for s1, s2 in one + two + three:
        for mode in ("same", "full", "valid"):
            for b in BND:
                yield {"s1": list(s1), "s2": list(s2), "mode": mode, "b": b, "k": "generic"}
                yield {"s1": list(s1), "s2": list(s2), "mode": mode, "b": b, "k": "complex"}
                if len(s1) < 3 or tier != "quick":
                    yield {"s1": list(s1), "s2": list(s2), "mode": mode, "b": b, "k": "impulses"}
    for s1, s2 in [((4,), (3,)), ((3, 4), (2, 3))]:
        for k in ("int", "f4", "bool", "upper", "bad"):
            yield {"s1": list(s1), "s2": list(s2), "mode": "same", "b": "circular", "k": k}


def check_conv(case):
    F = core.t2c().fft_functions.fftconvolve
    s1, s2 = tuple(case["s1"]), tuple(case["s2"])
    mode, b, kind = case["mode"], case["b"], case["k"]
    x, k = core.field(s1, 1, lo=-1, hi=2), core.field(s2, 2, lo=-1, hi=2)
    if mode == "valid" and any(a < q for a, q in zip(s1, s2)):
        must_raise(F, x, k, mode=mode, boundary=b, kind="valid-too-small", what=str(case), exc=ValueError)
        return "reject"
    if kind == "bad":
        must_raise(F, x, k, mode="sam", kind="bad-mode", what="mode", exc=ValueError)
        must_raise(F, x, k, boundary="fill", kind="bad-boundary", what="boundary", exc=ValueError)
        return "bad"
    if kind == "complex":
        x = x + 1j * core.field(s1, 3)
    if kind == "int":
        x, k = (x * 10).astype(int), (k * 10).astype(int)
    if kind == "f4":
        x, k = x.astype("f4"), np.asfortranarray(k)
    if kind == "bool":
        x = x > 0
    if kind == "upper":
        near(call(F, x, k, backend="NumPy"), conv_ref(x, k, "same", "circular"), "conv", str(case), atol=1e-12, scale=1e-9)
        return "upper"
    if kind == "impulses":
        for p in range(x.size):
            for q in range(k.size):
                e, f = np.zeros(s1), np.zeros(s2)
                e.ravel()[p] = 1.
                f.ravel()[q] = 1.
                near(call(F, e, f, mode=mode, boundary=b), conv_ref(e, f, mode, b), "conv-impulse", f"{case} {p} {q}", atol=1e-9)
        return digest("imp", x.size * k.size)
    kw = {} if (mode, b) == ("same", "circular") else {"mode": mode, "boundary": b}
    got = call(F, x, k, **kw)
    near(got, conv_ref(x, k, mode, b), "conv", str(case), atol=1e-12, scale=1e-7 if kind == "f4" else 1e-9)
    expect(np.iscomplexobj(got) == (kind == "complex"), "conv-type", f"{case}: dtype {got.dtype}")
    return digest(np.abs(got))


# ------------------------------------------------------------- kernels

def dist(n):
    return np.arange(n) - n // 2


def k_gauss(n, s, d):
    g = np.exp(-dist(n) ** 2 / (2. * s * s))
    g = g / g.sum()
    out = g
    for _ in range(d - 1):
        out = np.multiply.outer(out, g)
    return out


def k_top(n, w, d):
    """cells whose index is in [floor(n/2 - floor(w/2)), floor(n/2 + ceil(w/2)))"""
    lo, hi = int(n / 2 - np.floor(w / 2)), int(n / 2 + np.ceil(w / 2))
    g = np.array([1. if lo <= i < hi else 0. for i in range(n)])
    g /= g.sum()
    out = g
    for _ in range(d - 1):
        out = np.multiply.outer(out, g)
    return out


def k_sphere(n, w):
    x = dist(n)
    r = np.sqrt(x[:, None, None] ** 2 + x[None, :, None] ** 2 + x[None, None, :] ** 2)
    k = (r <= 0.5 * w).astype(float)
    return k / k.sum()


def k_lanczos(n, a):
    x = np.linspace(-n / 2, n / 2, n)
    f = np.sinc(x) * np.sinc(x / a)
    f[np.abs(x) > a] = 0
    k = np.multiply.outer(f, f)
    return k / k.sum()


def cases_ker(tier):
    N = range(1, 10) if tier == "quick" else range(1, 17)
    for n in N:
        for s in (0.4, 1., 2.5):
            yield {"fn": "gauss", "n": n, "s": s}
            yield {"fn": "gauss3", "n": n, "s": s}
            yield {"fn": "fwhm", "n": n, "s": s}
        for w in [.5, 1, 1.5, 2, 2.2, 3, 4, 5, 6.7, 7, 8, 9, 12, 15]:
            if w <= n:
                yield {"fn": "top", "n": n, "w": w}
                yield {"fn": "top3", "n": n, "w": w}
                yield {"fn": "sphere", "n": n, "w": w}
        for w in (1, 2, 3):
            if n > 1:
                yield {"fn": "lanczos", "n": n, "w": w}


def check_ker(case):
    S = core.t2c().smoothing
    n, fn = case["n"], case["fn"]
    c = 2 * np.sqrt(2 * np.log(2))
    if fn == "gauss":
        got = [call(S.gauss_kernel, n, sigma=case["s"])]
        want = k_gauss(n, case["s"], 2)
        if case["s"] == 1.:
            got.append(call(S.gauss_kernel, n))
    elif fn == "gauss3":
        got = [call(S.gauss_kernel_3d, n, sigma=case["s"])]
        want = k_gauss(n, case["s"], 3)
        if case["s"] == 1.:
            got.append(call(S.gauss_kernel_3d, n))
    elif fn == "fwhm":
        near(call(S.gauss_kernel_3d, n, sigma=9., fwhm=case["s"] * c), k_gauss(n, case["s"], 3), "kernel", str(case), atol=1e-12)
        got = [call(S.gauss_kernel, n, sigma=9., fwhm=case["s"] * c)]
        want = k_gauss(n, case["s"], 2)
    elif fn == "top":
        got, want = [call(S.tophat_kernel, n, case["w"])], k_top(n, case["w"], 2)
    elif fn == "top3":
        got, want = [call(S.tophat_kernel_3d, n, case["w"]), call(S.tophat_kernel_3d, n, case["w"], shape="cube")], k_top(n, case["w"], 3)
    elif fn == "sphere":
        got, want = [call(S.tophat_kernel_3d, n, case["w"], shape="sphere")], k_sphere(n, case["w"])
    else:
        got, want = [call(S.lanczos_kernel, n, case["w"])], k_lanczos(n, case["w"])
    for g in got:
        near(g, want, "kernel", str(case), atol=1e-12)
        if fn != "lanczos":
            near(np.sum(g), 1., "kernel-norm", str(case), rtol=1e-9)
    return digest(want)


# ------------------------------------------------------------- 2D smoothing

def fields(sh, tier):
    n = int(np.prod(sh))
    yield "generic", core.field(sh, 5, lo=-1, hi=2)
    for i in (range(n) if n < 100 else (0, n // 2, n - 1)):
        e = np.zeros(sh)
        e.ravel()[i] = 1.
        yield i, e


def cases_s2(tier):
    for sh in [(1, 1), (2, 2), (3, 3), (4, 4), (5, 5), (6, 6), (3, 5), (5, 3), (4, 3), (2, 5)]:
        for op, ps in (("gauss", (.7, 1., 2.)), ("fwhm", (1., 3.)), ("top", (1, 2, 3, 4.5)), ("lanczos", (2,)), ("kernel", (0, 1))):
            for p in ps:
                if op in ("top", "lanczos") and (sh[0] != sh[1] or sh[0] < max(p, 2)):
                    continue
                yield {"sh": list(sh), "op": op, "p": p}


def check_s2(case):
    S = core.t2c().smoothing
    sh, op, p = tuple(case["sh"]), case["op"], case["p"]
    n = sh[0]
    c = 2 * np.sqrt(2 * np.log(2))
    for tag, x in fields(sh, None):
        if op == "gauss":
            got = call(S.smooth_gauss, x, sigma=p)
            if p == 1.:
                eq(call(S.smooth_gauss, x), got, "default", str(case))
            want = conv_ref(x, k_gauss(n, p, 2), "same", "circular")
        elif op == "fwhm":
            got = call(S.smooth_gauss, x, fwhm=p)
            want = conv_ref(x, k_gauss(n, p / c, 2), "same", "circular")
        elif op == "top":
            got = call(S.smooth_tophat, x, p)
            if n % 2:
                want = conv_ref(x, k_top(n, p, 2), "same", "circular")
            else:   # periodically continued by one cell to an odd size
                i = np.arange(n + 1) % n
                want = conv_ref(x[np.ix_(i, i)], k_top(n + 1, p, 2), "same", "circular")[:-1, :-1]
        elif op == "lanczos":
            got = call(S.smooth_lanczos, x, p)
            want = conv_ref(x, k_lanczos(n, p), "same", "circular")
        else:
            k = core.field((3, 2) if p else sh, 4)
            got = call(S.smooth_with_kernel, x, k)
            want = conv_ref(x, k, "same", "circular")
        near(got, want, "smooth2d", f"{case} field {tag}", atol=1e-11, scale=1e-9)
        if op in ("gauss", "fwhm") or (op == "top" and n % 2):
            near(np.sum(got), np.sum(x), "conserves", f"{case} field {tag}: smoothing changed the total", rtol=1e-9, atol=1e-9)
    return digest(case)


# ------------------------------------------------------------- cubes and light cones

def ref_gauss(x, fwhm, ax):
    out = np.zeros(x.shape)
    c = 2 * np.sqrt(2 * np.log(2))
    for i in range(x.shape[ax]):
        s = [slice(None)] * 3
        s[ax] = i
        y = x[tuple(s)]
        out[tuple(s)] = conv_ref(y, k_gauss(y.shape[0], fwhm[i] / c, 2), "same", "circular")
    return out


def ref_top(x, w, ax):
    n = x.shape[ax]
    k = k_top(n, w, 1)
    sh = [1, 1, 1]
    sh[ax] = n
    return conv_ref(x, k.reshape(sh), "same", "circular")


def cases_s3(tier):
    shs = [(3, 3, 3), (4, 4, 4), (3, 3, 5), (5, 3, 3), (3, 4, 2), (2, 3, 4)]
    for sh in shs:
        for ax in (0, 1, 2, -1):
            for w in (1, 2, 2.6, 3):
                if w <= sh[ax]:
                    yield {"sh": list(sh), "op": "top", "ax": ax, "w": w}
            for f in (.8, 2.):
                if ax >= 0:
                    yield {"sh": list(sh), "op": "gauss", "ax": ax, "f": f}
            if ax >= 0:
                yield {"sh": list(sh), "op": "lcgauss", "ax": ax}
                for box in (30., 90., None):
                    for bl in (1., 2., "q"):
                        for ratio in (1., .5):
                            yield {"sh": list(sh), "op": "coeval", "ax": ax, "box": box, "bl": bl, "ratio": ratio}
        yield {"sh": list(sh), "op": "lcgauss-len", "ax": 1}


def check_s3(case):
    t = core.t2c()
    S, cm, conv = t.smoothing, t.cosmo, t.conv
    sh, ax, op = tuple(case["sh"]), case["ax"], case["op"]
    x = core.field(sh, 7, lo=-1, hi=2)
    if op == "top":
        got, want = call(S.smooth_coeval_tophat, x, case["w"], ax, verbose=False), ref_top(x, case["w"], ax % 3)
        if case["w"] == 2:
            eq(call(S.smooth_coeval_tophat, x, case["w"], ax), got, "verbose", str(case))
        near(got.sum(axis=ax), x.sum(axis=ax), "conserves", f"{case}: total along the line of sight", rtol=1e-9, atol=1e-9)
    elif op == "gauss":
        got, want = call(S.smooth_coeval_gauss, x, case["f"], ax), ref_gauss(x, [case["f"]] * sh[ax], ax)
    elif op == "lcgauss":
        f = np.array([.6, 1.1, 1.7, 2.3, .9])[:sh[ax]] if sh[ax] < 6 else core.field((sh[ax],), 4, lo=.7, hi=6.)
        got, want = call(S.smooth_lightcone_gauss, x, f, nu_axis=ax), ref_gauss(x, f, ax)
        if ax == 2:
            eq(call(S.smooth_lightcone_gauss, x, f), got, "default-axis", str(case))
    elif op == "lcgauss-len":
        must_raise(S.smooth_lightcone_gauss, x, np.ones(sh[2] + 1), kind="length", what="one width too many")
        return "len"
    else:
        z = 9.
        box = conv.LB if case["box"] is None else case["box"]
        bl = 1.5 if case["bl"] == "q" else case["bl"]
        w = (1 + z) * 21e-5 / bl * cm.z_to_cdist(z) * sh[0] / box
        if not .5 <= w * case["ratio"] <= sh[ax]:
            return None
        import astropy.units as u
        kw = {} if case["box"] is None else {"box_size_mpc": box}
        got = call(S.smooth_coeval, x, z, max_baseline=1500 * u.m if case["bl"] == "q" else bl, ratio=case["ratio"], nu_axis=ax, verbose=False, **kw)
        want = ref_gauss(ref_top(x, w * case["ratio"], ax), [w] * sh[ax], ax)
    near(got, want, "smooth3d", str(case), atol=1e-11, scale=1e-9)
    return digest(got)


def zgrid(kind, n):
    if kind == "uniform":
        return 7. + .05 * np.arange(n)
    if n > 7 and kind == "uneven":
        return 7. + np.cumsum(.01 + .02 * core.field((n,), 3))
    if kind == "uneven":
        return 7. + np.cumsum(np.array([0., .03, .08, .05, .1, .02, .04])[:n])
    return None


def ref_lctop(x, z, dz):
    out = np.zeros(x.shape)
    for i in range(len(z)):
        lo, hi = max(z[i] - dz[i] / 2, z.min()), min(z[i] + dz[i] / 2, z.max())
        a = next(j for j in range(len(z)) if z[j] >= lo)
        b = next(j for j in range(len(z)) if z[j] >= hi)
        out[:, :, i] = x[:, :, a:b + 1].mean(axis=2)
    return out


def cases_lc(tier):
    for n in (2, 3, 5, 7):
        for zk in ("uniform", "uneven"):
            for dz in (.03, .07, .11, .23, 1., "vary"):
                yield {"op": "top", "n": n, "z": zk, "dz": dz}
            for order in ("up", "down"):
                for bl in (2., 5., "q"):
                    for ratio in (1., 3.):
                        for box in (20., None):
                            yield {"op": "full", "n": n, "z": zk, "order": order, "bl": bl, "ratio": ratio, "box": box}
        for zk in ("scalar", "array1"):
            yield {"op": "full", "n": n, "z": zk, "order": "up", "bl": 2., "ratio": 1., "box": 20.}


def check_lc(case):
    t = core.t2c()
    S, cm, conv, const = t.smoothing, t.cosmo, t.conv, t.const
    n = case["n"]
    x = core.field((4, 4, n), 9, lo=-1, hi=2)
    if case["op"] == "top":
        z = zgrid(case["z"], n)
        dz = (np.array([.03, .2, .11, .05, .3, .07, .09])[:n] if case["dz"] == "vary" else np.full(n, case["dz"]))
        if n > 7 and case["dz"] == "vary":
            dz = core.field((n,), 4, lo=.02, hi=.4)
        got = call(S.smooth_lightcone_tophat, x, z, dz, verbose=False)
        eq(call(S.smooth_lightcone_tophat, x, z, dz), got, "verbose", str(case))
        near(got, ref_lctop(x, z, dz), "lc-tophat", str(case), atol=1e-12)
        return digest(got)
    box = conv.LB if case["box"] is None else case["box"]
    bl = 1.5 if case["bl"] == "q" else case["bl"]
    import astropy.units as u
    if case["z"] in ("scalar", "array1"):
        arg = 7.5 if case["z"] == "scalar" else np.array([7.5])
        z = cm.cdist_to_z(cm.z_to_cdist(7.5) + np.arange(n) * box / 4)
    else:
        z = zgrid(case["z"], n)
        arg = z[::-1].copy() if case["order"] == "down" else z
    ang = (1 + z) * 21e-5 / bl * cm.z_to_cdist(z)
    dz = case["ratio"] * ang / const.c * cm.hubble_parameter(z)
    xa = x[:, :, ::-1] if case["order"] == "down" else x
    want = ref_gauss(ref_lctop(xa, z, dz), ang * 4 / box, 2)
    kw = {} if case["box"] is None else {"box_size_mpc": box}
    got, zz = call(S.smooth_lightcone, x, arg, max_baseline=1500 * u.m if case["bl"] == "q" else bl, ratio=case["ratio"], verbose=False, **kw)
    if case["order"] == "down":
        want, z = want[:, :, ::-1], z[::-1]
    near(zz, z, "lc-z", f"{case}: redshifts", rtol=1e-12)
    near(got, want, "lc-smooth", str(case), atol=1e-11, scale=1e-9)
    return digest(got)


# ------------------------------------------------------------- uv filters

def uv_ok(n, r, i, j):
    """cell within r of the origin of the (corner-centred) uv plane; the origin itself is excluded"""
    a, b = min(i, n - i), min(j, n - j)
    return (a * a + b * b <= r * r) and (i, j) != (0, 0)


def cases_uv(tier):
    for n in (2, 3, 4, 5, 6):
        for uv in ("generic", "int", "ones"):
            for box in (60., 200., None):
                for bl in (.3, 1., "q"):
                    yield {"op": "remove", "n": n, "uv": uv, "box": box, "bl": bl}
        for uv in ("generic", "sparse", "weak"):
            yield {"op": "conv", "n": n, "uv": uv, "bl": None}
            yield {"op": "conv", "n": n, "uv": uv, "bl": 1.}
            for ax in (0, 1, 2, -1):
                yield {"op": "coeval", "n": n, "uv": uv, "ax": ax}
        for thr in (0., .3, .7):
            yield {"op": "thr", "n": n, "thr": thr}
    yield {"op": "thr-bad"}


def uvm(kind, n):
    m = core.field((n, n), 11, lo=.1, hi=5.)
    if kind == "int":
        return (m * 3).astype(int)
    if kind == "ones":
        return np.ones((n, n))
    if kind == "weak":      # every cell seen less than once
        return m * .02
    if kind == "sparse":
        return np.where(m > 2, m, 0.)
    return m


def check_uv(case):
    t = core.t2c()
    S, cm, conv = t.smoothing, t.cosmo, t.conv
    import astropy.units as u
    if case["op"] == "thr-bad":
        for thr in (-.1, -1., 1, "a", None):
            must_raise(S.smooth_lightcone_uv_threshold, np.ones((2, 2, 2)), np.ones((2, 2, 2)), threshold=thr, kind="bad-threshold", what=repr(thr), exc=ValueError)
        return "bad"
    n = case["n"]
    z = 8.5
    if case["op"] == "thr":
        x, uvb = core.field((n, n, 3), 2), core.field((n, n, 3), 5)
        uvb[0, 0, 0] = case["thr"]
        f = np.fft.fft2(x, axes=(0, 1))
        want = np.real(np.fft.ifft2(np.where(uvb < case["thr"], 0, f), axes=(0, 1)))
        near(call(S.smooth_lightcone_uv_threshold, x, uvb, threshold=case["thr"]), want, "uv-threshold", str(case), atol=1e-12)
        if case["thr"] == 0.:
            near(call(S.smooth_lightcone_uv_threshold, x, uvb), want, "uv-threshold", str(case), atol=1e-12)
        return digest(want)
    box = conv.LB if case.get("box") is None else case["box"]
    bl = case.get("bl", 1.)
    blv = .6 if bl == "q" else bl
    m = uvm(case["uv"], n)
    r = None if bl is None else box / ((1 + z) * 21e-5 / blv * cm.z_to_cdist(z))
    keep = np.array([[r is None or uv_ok(n, r, i, j) for j in range(n)] for i in range(n)])
    kept = m * keep
    if case["op"] == "remove":
        kw = {} if case["box"] is None else {"box_size_mpc": box}
        got = call(S.remove_baselines_from_uvmap, m, z, max_baseline=600 * u.m if bl == "q" else bl, **kw)
        near(got, kept, "uv-baselines", str(case), rtol=1e-12)
        return digest(got)
    if kept.max() == 0:
        return None
    W = kept / kept.max()
    flt = lambda y: np.real(np.fft.ifft2(np.fft.fft2(y) * W))
    if case["op"] == "conv":
        for tag, x in fields((n, n), None):
            near(call(S.convolve_uvmap, x, z=z, uv_map=m, max_baseline=bl), flt(x), "uv-convolve", f"{case} {tag}", atol=1e-12)
        return digest(W)
    sh = (n, n, n) if case["ax"] in (2, -1) else (n, n, n)
    x = core.field(sh, 12, lo=-1, hi=2)
    w = (1 + z) * 21e-5 / 1. * cm.z_to_cdist(z) * n / box
    if not .5 <= w <= n:
        return None
    y = np.moveaxis(ref_top(x, w, case["ax"] % 3), case["ax"], -1)
    # the two angular axes keep their order when the frequency axis is last or in the middle
    perm = {0: (2, 1, 0), 1: (0, 2, 1), 2: (0, 1, 2)}[case["ax"] % 3]
    y = np.transpose(ref_top(x, w, case["ax"] % 3), perm)
    y = np.stack([flt(y[:, :, i]) for i in range(n)], axis=2)
    want = np.transpose(y, perm)
    got = call(S.convolve_uvmap_coeval, x, z, max_baseline=1., nu_axis=case["ax"], uv_map=m, verbose=False)
    near(got, want, "uv-coeval", str(case), atol=1e-11, scale=1e-9)
    return digest(got)


# ------------------------------------------------------------- 1D smoothing, interpolation, find_idx

def ref_line(y, w):
    c = (len(w) - 1) // 2
    return np.array([sum(w[j] * y[i + c - j] for j in range(len(w)) if 0 <= i + c - j < len(y)) for i in range(len(y))])


def win(kind, w):
    if kind in ("tophat", "boxcar"):
        a = np.ones(w)
    elif kind in ("gaussian", "normal"):
        a = np.exp(-np.arange(-3 * w, 3 * w + 1) ** 2 / (2. * w * w))
    elif kind == "triangular":
        a = np.array([min(i + 1, 2 * w - 1 - i) for i in range(2 * w - 1)], dtype=float)
    else:
        b = .54 if kind == "hamming" else .5
        a = np.ones(1) if w == 1 else b - (1 - b) * np.cos(2 * np.pi * np.arange(w) / (w - 1))
    return a / a.sum()


def cases_line(tier):
    for n in (1, 2, 3, 5, 8, 20):
        for kind in ("tophat", "boxcar", "gaussian", "normal", "triangular", "hamming", "hanning", "Tophat"):
            for w in range(1, 8):
                if not (kind == "hanning" and w == 2):
                    yield {"n": n, "kind": kind, "w": w}
        for w in ([1], [1, 2], [1, 2, 3], [.2, .5, .9, .1], "arr", "iarr"):
            yield {"n": n, "kind": "custom", "w": w}
    yield {"n": 4, "kind": "bad", "w": 3}


def check_line(case):
    S = core.t2c().smoothing
    n = case["n"]
    y = core.field((n,), 3, lo=-1, hi=2)
    if case["kind"] == "bad":
        must_raise(S.smooth_line, y, window=3, kind="cosine", kind_="x") if False else None
        core.C.compares += 1
        for a in (dict(window=3, kind="cosine"), dict(window=3.5), dict(window=None)):
            try:
                S.smooth_line(y, **a)
            except ValueError:
                continue
            raise core.Fail("bad-window", f"{a} accepted")
        return "bad"
    if case["kind"] == "custom":
        w = {"arr": np.array([1., 2., 4.]), "iarr": np.array([1, 2, 5, 1])}.get(case["w"]) if isinstance(case["w"], str) else case["w"]
        got = call(S.smooth_line, y, window=w)
        wn = np.array(w, dtype=float) / np.sum(w)
    else:
        got = call(S.smooth_line, y, window=case["w"], kind=case["kind"])
        wn = win(case["kind"].lower(), case["w"])
        if case["w"] == 3 and case["kind"] == "tophat":
            eq(call(S.smooth_line, y), got, "default", str(case))
            near(call(S.smooth_line, list(y)), got, "list", str(case))
    near(got, ref_line(y, wn), "smooth-line", str(case), atol=1e-12)
    return digest(got)


def cases_idx(tier):
    arrs = [[0., 1.], [1., 2., 4.], [5., 4., 2.5, 0.], [-1., .5, 3., 3.5, 10.], [1., 3.], [0., .1, .2, .3, .4], [9., 3., 2.9]]
    for a in arrs:
        yield {"op": "idx", "a": a}
    for a in ([0., 2., 1.], [1., 0., 3.]):
        yield {"op": "idx-bad", "a": a}
    for sh in [(2, 3, 4), (3, 3, 3)]:
        for order in (0, 1, "d"):
            yield {"op": "i3", "sh": list(sh), "order": order}
    for sh in [(2, 3), (4, 3), (1, 5)]:
        for order in (0, 1, "d"):
            yield {"op": "i2", "sh": list(sh), "order": order}
    for bl in (10., 1000., 2.5e3):
        for z in (0., 6., 9.1, 27.):
            yield {"op": "beam", "bl": bl, "z": z}


def check_idx(case):
    t = core.t2c()
    S, H = t.smoothing, t.helper_functions
    if case["op"] == "idx-bad":
        must_raise(H.find_idx, np.array(case["a"]), 1., kind="non-monotonic", what=str(case), exc=ValueError)
        return "bad"
    if case["op"] == "idx":
        a = np.array(case["a"])
        inc = a if a[0] < a[-1] else a[::-1]
        vals = sorted(set(inc.tolist() + ((inc[1:] + inc[:-1]) / 2).tolist() + (inc[:-1] * .75 + inc[1:] * .25).tolist() + [inc[0] - 1, inc[-1] + 1, inc[0] - 1e-9, inc[-1] + 7]))
        want = np.interp(vals, inc, np.arange(len(a)))
        if a[0] > a[-1]:
            want = len(a) - 1 - want
        near(call(H.find_idx, a, np.array(vals)), want, "find-idx", str(case), atol=1e-12)
        for v, w in zip(vals, want):
            g = call(H.find_idx, a, v)
            expect(np.ndim(g) == 0, "find-idx-scalar", f"{case} {v}: {g!r}")
            near(g, w, "find-idx", f"{case} {v}", atol=1e-12)
        iv = np.arange(-2, 12)
        wi = np.interp(iv, inc, np.arange(len(a)))
        near(call(H.find_idx, a, iv), len(a) - 1 - wi if a[0] > a[-1] else wi, "find-idx-int", str(case), atol=1e-12)
        return digest(want)
    if case["op"] == "beam":
        # lambda = 21 cm (1+z), angle = lambda/baseline in arcmin
        want = (t.const.c / (t.const.nu0 / (1 + case["z"]))) * 1e-3 / case["bl"] * 180 / np.pi * 60
        near(call(S.get_beam_w, case["bl"], case["z"]), want, "beam", str(case), rtol=1e-9)
        near(want, .2110611 * (1 + case["z"]) / case["bl"] * 180 / np.pi * 60, "beam-21cm", str(case), rtol=1e-3)
        return digest(want)
    sh = tuple(case["sh"])
    x = core.field(sh, 4, lo=-1, hi=2)
    kw = {} if case["order"] == "d" else {"order": case["order"]}
    f = S.interpolate3d if case["op"] == "i3" else S.interpolate2d
    near(call(f, x, *[np.arange(n) for n in sh], **kw), x, "interp-nodes", str(case), atol=1e-12)
    sub = [np.array([n - 1, 0, n // 2][:k]) for n, k in zip(sh, (3, 2, 1))]
    near(call(f, x, *sub, **kw), x[np.ix_(*sub)], "interp-select", str(case), atol=1e-12)
    if case["order"] == 1:
        pos = [np.linspace(0, n - 1, 2 * n - 1) if n > 1 else np.zeros(1) for n in sh]
        want = x
        for a, p in enumerate(pos):
            want = np.apply_along_axis(lambda v: np.interp(p, np.arange(len(v)), v), a, want)
        near(call(f, x, *pos, order=1), want, "interp-linear", str(case), atol=1e-9)
    return digest(x)


# ------------------------------------------------------------- images and cubes of everyday size

def cases_real(tier):
    for s1, s2 in [((500,), (31,)), ((70, 45), (9, 14)), ((64, 64), (64, 64)), ((33, 40), (33, 40)), ((24, 30, 18), (5, 4, 7)), ((10, 9, 200), (1, 1, 40))]:
        for mode in ("same", "full", "valid"):
            for b in BND:
                yield {"f": "conv", "s1": list(s1), "s2": list(s2), "mode": mode, "b": b, "k": "generic"}
    for sh in [(64, 64), (45, 45), (40, 31), (130, 130)]:
        for op, ps in (("gauss", (.7, 5.)), ("fwhm", (9.,)), ("top", (1, 6, 7, 20.5)), ("lanczos", (3,)), ("kernel", (0, 1))):
            for p in ps:
                if op not in ("top", "lanczos") or sh[0] == sh[1]:
                    yield {"f": "s2", "sh": list(sh), "op": op, "p": p}
    for sh in [(30, 30, 40), (33, 33, 33), (20, 26, 17)]:
        for ax in (0, 1, 2):
            for w in (5, 8.5):
                yield {"f": "s3", "sh": list(sh), "op": "top", "ax": ax, "w": w}
            yield {"f": "s3", "sh": list(sh), "op": "gauss", "ax": ax, "f2": 3.3}
            yield {"f": "s3", "sh": list(sh), "op": "lcgauss", "ax": ax}
            for box in (60., 200.):
                yield {"f": "s3", "sh": list(sh), "op": "coeval", "ax": ax, "box": box, "bl": 2., "ratio": 1.}
    for n in (40, 150):
        for zk in ("uniform", "uneven"):
            for dz in (.03, .11, 1., "vary"):
                yield {"f": "lc", "op": "top", "n": n, "z": zk, "dz": dz}
            for order in ("up", "down"):
                yield {"f": "lc", "op": "full", "n": n, "z": zk, "order": order, "bl": 2., "ratio": 1., "box": 20.}
        yield {"f": "lc", "op": "full", "n": n, "z": "scalar", "order": "up", "bl": 2., "ratio": 1., "box": 20.}
    for n in (40, 63):
        for box in (60., 500.):
            yield {"f": "uv", "op": "remove", "n": n, "uv": "generic", "box": box, "bl": 1.}
        for uv in ("generic", "sparse"):
            yield {"f": "uv", "op": "conv", "n": n, "uv": uv, "bl": 1.}
            yield {"f": "uv", "op": "conv", "n": n, "uv": uv, "bl": None}
        for ax in (0, 1, 2):
            yield {"f": "uv", "op": "coeval", "n": 24 + n % 2, "uv": "generic", "ax": ax}
        yield {"f": "uv", "op": "thr", "n": n, "thr": .4}
    for kind in ("tophat", "gaussian", "triangular", "hamming", "hanning"):
        for n, w in ((300, 21), (300, 30), (1000, 101)):
            yield {"f": "line", "n": n, "kind": kind, "w": w}
    for k in range(3):
        yield {"f": "idx", "op": "idx", "a": (core.field((400,), 3).cumsum() * (-1) ** k).tolist()}
    for sh in [(20, 33, 14), (40, 40, 40)]:
        for order in (0, 1, "d"):
            yield {"f": "idx", "op": "i3", "sh": list(sh), "order": order}
            yield {"f": "idx", "op": "i2", "sh": list(sh[:2]), "order": order}


def check_real(case):
    c = {("f" if k == "f2" else k): v for k, v in case.items() if k != "f"}
    return {"conv": check_conv, "s2": check_s2, "s3": check_s3, "lc": check_lc, "uv": check_uv, "line": check_line, "idx": check_idx}[case["f"]](c)


SUITES = [
    FnSuite("convolution", cases_conv, check_conv, "all 1D shapes up to 6 x kernels up to 7 (1-3D list) x 3 modes x 6 boundaries; all pairs of unit impulses in 1D/2D"),
    FnSuite("kernels", cases_ker, check_ker, "kernel sizes 1-9 (16 thorough) x widths"),
    FnSuite("planes", cases_s2, check_s2, "10 shapes x operators x widths x every unit impulse"),
    FnSuite("coeval", cases_s3, check_s3, "6 shapes x every axis x operators"),
    FnSuite("lightcone", cases_lc, check_lc, "2-7 slices x redshift grids x widths x order x units"),
    FnSuite("uv", cases_uv, check_uv, "uv maps 2-6 wide x baselines x boxes x axes x thresholds"),
    FnSuite("lines", cases_line, check_line, "line lengths x window kinds x widths, custom windows"),
    FnSuite("index-interp", cases_idx, check_idx, "monotonic arrays x values at/between/outside nodes; interpolation at nodes and midpoints; beam widths"),
    FnSuite("realistic", cases_real, check_real, "lines of up to 1000, images of up to 130^2, cubes of up to 64000 cells, light cones of up to 150 slices: all of the above", chunk=1),
]
