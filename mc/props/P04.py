"""Bubble size estimators: SPA, mean free path, granulometry, watershed."""
import itertools
import numpy as np
from mc import core, rnd
from mc.core import FnSuite, Fail, call, eq, near, expect, digest

TITLE = "bubble size estimators"
ASSUMPTIONS = ["random draws of the mean-free-path methods are replaced by an exhaustive enumeration of ray directions/starts; if an implementation draws "
               "its randomness in another way the ray-by-ray comparison is skipped and only the invariants are checked",
               "skimage.morphology.ball supplies the spherical kernel of SPA"]


def B():
    return core.t2c().bubble_stats


# ---------------------------------------------------------------- SPA
def ref_same(data, k):
    if data.size > 5000:
        from scipy import signal
        return signal.fftconvolve(data, k, "same")
    out = np.zeros([d + s - 1 for d, s in zip(data.shape, k.shape)])
    for o in np.argwhere(k):
        o = tuple(o)
        out[tuple(slice(a, a + d) for a, d in zip(o, data.shape))] += k[o] * data
    return out[tuple(slice((s - 1) // 2, (s - 1) // 2 + d) for d, s in zip(data.shape, k.shape))]


def blob(shape, salt):
    """binary box with a big block, a few small ones and one on the faces"""
    A = (core.field(shape, salt) > 0.75).astype(float)
    n = np.array(shape)
    a = tuple(slice(int(m * 0.2), int(m * (0.55 + 0.1 * (salt % 3)))) for m in n)
    A[a] = 1.
    A[:, 0, :] = 1. if salt % 2 else A[:, 0, :]
    return A


def make(kind, shape, salt):
    if kind == "bin":
        return blob(shape, salt)
    if kind == "gen":
        return core.field(shape, salt)
    if kind == "mix":
        return 0.5 * blob(shape, salt) + 0.5 * core.field(shape, salt + 3)
    if kind == "full":
        return np.ones(shape)
    if kind == "tb":
        return 40. * core.field(shape, salt) - 10.
    raise KeyError(kind)


def cases_spa(tier):
    shapes = [(6, 6, 6), (8, 8, 8), (7, 9, 5), (9, 6, 8)] + ([(12, 12, 12), (11, 5, 14)] if tier == "thorough" else [])
    for sh in shapes:
        for kind, ths in (("bin", (0.5, 0.95, 0.3)), ("mix", (0.4, 0.6)), ("full", (0.95, 0.5)), ("tb", (5., 12.))):
            for s in (0, 1):
                for th in ths:
                    for up in (False, True):
                        yield {"shape": list(sh), "kind": kind, "salt": s, "xth": th, "upper": up}


def check_spa(case):
    from skimage.morphology import ball
    A = make(case["kind"], case["shape"], case["salt"])
    th, up = case["xth"], case["upper"]
    D, t = (-A, -th) if up else (A, th)
    out = []
    for n, binning in ((3, "log"), (5, "linear"), (1, "log"), (7, "log")):
        R = A.shape[0]
        rs = np.linspace(1, R / 2., n) if binning == "linear" else np.exp(np.linspace(np.log(2.), np.log(R / 2.), n))
        rad = np.zeros(A.shape)
        tie = False
        for r in rs:
            k = ball(r).astype(float)
            sm = ref_same(D, k / k.sum())
            tie |= bool((np.abs(sm - t) < 1e-9).any())
            rad[sm >= t] = r
        if tie:
            continue
        cnt = np.array([(rad == r).sum() for r in rs], dtype=float)
        for fft in (True, False):
            for bs in (100., 7.5):
                if fft is False and bs == 100. and n > 3:
                    continue
                r_, n_ = call(B().spa, A, xth=th, boxsize=bs, nscales=n, upper_lim=up, binning=binning, verbose=False, use_fftconvolve=fft)
                near(r_, rs * bs / R, "spa-r", f"spa radii {case} n={n} {binning}", rtol=1e-9)
                if cnt.sum() > 0:
                    near(n_, cnt / cnt.sum(), "spa-n", f"spa distribution {case} n={n} {binning} fft={fft}", rtol=1e-9)
        out.append(tuple(cnt))
    return out or None


# ---------------------------------------------------------------- mean free path
class Draws:
    """stands in for np.random.randint: enumerates directions and starts instead of sampling them"""

    def __init__(self, angles, starts):
        self.angles, self.starts = list(angles), starts     # angles: queue of callables size -> array
        self.log = []
        self.ok = True

    def __call__(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        high = high + 1 if endpoint else high
        n = 1 if size is None else int(np.prod(size))
        if low == 0 and high == 360 and self.angles:
            v = self.angles.pop(0)(n)
            self.log.append(("a", v))
        elif low == 0 and self.starts is not None:
            v = self.starts(n, int(high))
            self.log.append(("s", v))
        else:
            self.ok = False
            v = np.zeros(n, dtype=int)
        return int(v[0]) if size is None else np.array(v).astype(dtype).reshape(size)

    def choice(self, a, size=None, replace=True, p=None):
        n = int(a) if np.ndim(a) == 0 else len(a)
        if not replace or p is not None:
            self.ok = False
        i = self(0, n, size)
        return i if np.ndim(a) == 0 else np.asarray(a)[i]

    def __enter__(self):
        self.cm = rnd.integer_draws(self)
        self.cm.__enter__()
        return self

    def __exit__(self, *e):
        self.cm.__exit__(*e)


def interp(ar, pts):
    """multilinear interpolation at the points (columns), zero outside the grid"""
    nd = ar.ndim
    inside = np.ones(pts.shape[1], dtype=bool)
    lo = []
    fr = []
    for d in range(nd):
        inside &= (pts[d] >= 0) & (pts[d] <= ar.shape[d] - 1)
        i = np.clip(np.floor(pts[d]).astype(int), 0, max(ar.shape[d] - 2, 0))
        lo.append(i)
        fr.append(pts[d] - i)
    v = np.zeros(pts.shape[1])
    for c in itertools.product((0, 1), repeat=nd):
        w = np.ones(pts.shape[1])
        for d in range(nd):
            w = w * (fr[d] if c[d] else 1 - fr[d])
        v += w * ar[tuple(np.clip(lo[d] + c[d], 0, ar.shape[d] - 1) for d in range(nd))]
    v[~inside] = 0
    edge = np.zeros(pts.shape[1], dtype=bool)     # rounding can move a point across the outer face
    for d in range(nd):
        edge |= (np.abs(pts[d]) < 1e-9) & (pts[d] != 0) | (np.abs(pts[d] - ar.shape[d] + 1) < 1e-9) & (pts[d] != ar.shape[d] - 1)
    return v, edge


def ref_rays(mask, starts, dirs):
    """-> (certain counts per step, number of rays whose end is within rounding of a tie)"""
    nd = mask.ndim
    longest = max(mask.shape) if nd == 3 else int(np.sqrt(2) * max(mask.shape))
    pos = np.array(starts, dtype=float)
    alive = np.ones(pos.shape[1], dtype=bool)
    amb = np.zeros(pos.shape[1], dtype=bool)
    end = np.full(pos.shape[1], -1)
    ar = mask.astype(float)
    for s in range(longest):
        pos = pos + dirs
        v, edge = interp(ar, pos)
        amb |= alive & ((np.abs(v - 0.5) < 1e-9) | edge)
        stop = alive & ~(v > 0.5)
        end[stop] = s
        alive &= ~stop
        if not alive.any():
            break
    cnt = np.array([((end == s) & ~amb).sum() for s in range(longest)], dtype=float)
    return cnt, int(amb.sum()), longest


def cmp_counts(got, cnt, amb, what):
    g = np.asarray(got, dtype=float)
    expect(g.shape == cnt.shape, "mfp-bins", f"{what}: {g.shape} bins, expected {cnt.shape}")
    ok = np.all(g > cnt - 1e-6) and np.all(g < cnt + amb + 1e-6) and g.sum() <= cnt.sum() + amb + 1e-6
    expect(bool(ok), "mfp-rays", lambda: f"{what}: rays ending per step {g.tolist()}, expected {cnt.tolist()} (+{amb} undecided)")


def dir3(th, ph):
    th, ph = np.radians(th), np.radians(ph)
    return np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])


def struct(name, nd):
    if name.startswith("big"):
        sh = (41, 30) if nd == 2 else (20, 26, 17)
        x = np.indices(sh)
        if name == "bigballs":
            c = [[.3, .4, .5], [.8, .2, .6], [.6, .8, .3]]
            return np.any([sum((x[i] - sh[i] * q[i]) ** 2 for i in range(nd)) < r * r for q, r in zip(c, (7, 4, 5))], axis=0).astype(float)
        return (core.field(sh, 1) > 0.04).astype(float)
    if nd == 2:
        A = np.zeros((7, 9))
        if name == "block":
            A[2:6, 1:8] = 1
        elif name == "single":
            A[3, 4] = 1
        elif name == "two":
            A[0:3, 0:3] = 1
            A[4:7, 5:9] = 1
        elif name == "full":
            A[:] = 1
        elif name == "rand":
            A = (core.field((7, 9), 1) > 0.3).astype(float)
        return A
    A = np.zeros((6, 8, 5))
    if name == "block":
        A[1:5, 1:7, 1:4] = 1
    elif name == "single":
        A[3, 4, 2] = 1
    elif name == "two":
        A[0:3, 0:3, 0:3] = 1
        A[3:6, 4:8, 2:5] = 1
    elif name == "full":
        A[:] = 1
    elif name == "rand":
        A = (core.field((6, 8, 5), 1) > 0.2).astype(float)
    elif name == "rod":
        A[2, :, 2] = 1
    return A


def cases_mfp(tier):
    for nd in (2, 3):
        for s in ("block", "single", "two", "full", "rand") + (("rod",) if nd == 3 else ()):
            n = int(struct(s, nd).sum())
            for i in range(min(n, 3 if tier == "quick" else 12)):
                yield {"nd": nd, "struct": s, "start": (i * 7) % n, "mode": "point"}
            yield {"nd": nd, "struct": s, "start": -1, "mode": "random"}
            yield {"nd": nd, "struct": s, "start": -1, "mode": "upper"}
            if nd == 3:
                yield {"nd": nd, "struct": s, "start": -1, "mode": "averaged"}
                yield {"nd": nd, "struct": s, "start": -2, "mode": "averaged"}
        yield {"nd": nd, "struct": "none", "start": -1, "mode": "none"}


def check_mfp(case):
    b = B()
    nd, mode = case["nd"], case["mode"]
    A = struct(case["struct"], nd)
    th = 20.
    g = core.field(A.shape, 2)
    g[g < 0.4] = 0.                                  # many cells exactly at / just below the threshold
    F = np.where(A == 1, th + 5 * g, np.nextafter(th, 0) - 30 * g)
    loc = np.argwhere(A == 1)
    bs = 50.
    if mode == "none":
        for fn, kw in ((b.mfp, {}), (b.mfp_from_point, {"point": [1] * nd})):
            for x in (0.5, 1.5, 200.):
                for data, up, xx in ((-core.field(A.shape) - 1, False, x), (1 + core.field(A.shape), True, -x)):
                    r, p = call(fn, data, xth=xx, boxsize=bs, iterations=50, verbose=False, upper_lim=up, **kw)
                    expect(bool(np.all(np.asarray(p) == 0)), "mfp-none", f"{fn.__name__} finds sizes {p} in a field without region of interest")
                    near(r, np.arange(len(r)) * bs / A.shape[0], "mfp-r", "radii", rtol=1e-9)
        return "none"
    longest = max(A.shape) if nd == 3 else int(np.sqrt(2) * max(A.shape))
    if mode == "point":
        p = loc[case["start"]]
        if nd == 2:
            it = 360
            ang = [lambda n: np.arange(n) % 360]
        else:
            it = 360 * 360
            ang = [lambda n: (np.arange(n) // 360) % 360, lambda n: np.arange(n) % 360]
        kinds = [list(map(int, p)), np.array(p)] if nd == 2 else [list(map(int, p))]
        for pt in kinds:
            with Draws(ang, None) as d:
                if case["start"] % 2:
                    r, q = call(b.mfp_from_point, -F, pt, xth=-th, boxsize=bs, iterations=it, verbose=False, upper_lim=True)
                else:
                    r, q = call(b.mfp_from_point, F, pt, xth=th, boxsize=bs, iterations=it, verbose=False)
            near(r, np.arange(longest) * bs / A.shape[0], "mfp-r", f"{case} radii", rtol=1e-9)
            expect(bool(np.all(q >= 0)) and q.sum() <= 1 + 1e-9, "mfp-prob", f"{case}: probabilities {q}")
            av = [v for k, v in d.log if k == "a"]
            if not d.ok or len(av) != nd - 1:
                continue
            dirs = np.array([np.sin(np.radians(av[0])), np.cos(np.radians(av[0]))]) if nd == 2 else dir3(*av)
            cnt, amb, _ = ref_rays(A == 1, np.repeat(np.array(p)[:, None], it, axis=1), dirs)
            cmp_counts(q * it, cnt, amb, f"mfp_from_point {case}")
        # a point outside the structure has no size
        out = np.argwhere(A == 0)
        if len(out):
            expect(call(b.mfp_from_point, F, list(map(int, out[0])), xth=th, boxsize=bs, iterations=5, verbose=False) is None,
                   "mfp-outside", "a point outside the region of interest was given a size")
        return digest(r, np.round(q, 3))
    if mode in ("random", "upper"):
        step = 30 if nd == 3 else 3
        na = 360 // step
        n_dir = na if nd == 2 else na * na
        it = n_dir * min(len(loc), 150)
        if nd == 2:
            ang = [lambda n: (np.arange(n) % na) * step]
        else:
            ang = [lambda n: ((np.arange(n) // na) % na) * step + 1, lambda n: (np.arange(n) % na) * step + 2]
        st = (lambda n, hi: (np.arange(n) // n_dir) * (1 if hi <= 150 else 11) % hi)
        D, t, up = (F, th, False) if mode == "random" else (-F, -th, True)
        with Draws(ang, st) as d:
            r, q = call(b.mfp, D, xth=t, boxsize=bs, iterations=it, verbose=False, upper_lim=up)
        near(r, np.arange(longest) * bs / A.shape[0], "mfp-r", f"{case} radii", rtol=1e-9)
        expect(bool(np.all(q >= 0)), "mfp-prob", f"{case}: {q}")
        av = [v for k, v in d.log if k == "a"]
        sv = [v for k, v in d.log if k == "s"]
        if d.ok and len(av) == nd - 1 and len(sv) == 1:
            dirs = np.array([np.sin(np.radians(av[0])), np.cos(np.radians(av[0]))]) if nd == 2 else dir3(*av)
            cnt, amb, _ = ref_rays(A == 1, loc[sv[0]].T, dirs)
            k = np.arange(longest)
            g = np.asarray(q)[1:] * it / k[1:]        # r dP/dr in grid units
            expect(q[0] == 0, "mfp-prob", f"{case}: r*P(r) at r=0 is {q[0]}")
            cmp_counts(g, cnt[1:], amb, f"mfp {case}")
        # re-binning evaluates the same curve
        with Draws([*ang], st) as d2:
            sizes = r[1:longest - 1:2]
            r2, q2 = call(b.mfp, D, xth=t, boxsize=bs, iterations=it, verbose=False, upper_lim=up, bins=sizes)
        if d2.ok:
            eq(r2, sizes, "mfp-rebin", f"{case}: sizes after re-binning")
            near(q2, q[1:longest - 1:2], "mfp-rebin", f"{case}: values after re-binning", rtol=1e-8, atol=1e-10)
        with Draws([*ang], st) as d3:
            r3, q3 = call(b.mfp, D, xth=t, boxsize=bs, iterations=it, verbose=False, upper_lim=up, bins=4, r_min=r[1], r_max=r[-2])
        near(r3, np.geomspace(r[1], r[-2], 4), "mfp-rebin", f"{case}: log-spaced sizes", rtol=1e-8)
        return digest(r, np.round(q, 3))
    # averaged
    n = min(len(loc), 40)
    rays = 36
    ang = []
    for j in range(n):
        ang += [lambda m: (np.arange(m) // 6) * 30 + 1, lambda m: (np.arange(m) % 6) * 60 + 2]
    with Draws(ang, lambda m, hi: (np.arange(m) * 3) % hi) as d:
        try:
            core.C.calls += 1
            if case["start"] == -2:
                r, q = b.averaged_mfp(-F, xth=-th, boxsize=bs, iterations=n, rays_per_point=rays, verbose=False, n_jobs=1, upper_lim=True)
            else:
                r, q = b.averaged_mfp(F, xth=th, boxsize=bs, iterations=n, rays_per_point=rays, verbose=False, n_jobs=1)
        except ValueError:
            # every ray stops at once: no positive length exists
            expect(case["struct"] in ("single",), "mfp-averaged", f"averaged_mfp failed on {case}")
            return "no-length"
    r, q = np.asarray(r), np.asarray(q)
    if case["struct"] == "single":
        return "no-length"
    av = [v for k, v in d.log if k == "a"]
    sv = [v for k, v in d.log if k == "s"]
    if d.ok and len(sv) == 1 and len(av) == 2 * n and len(sv[0]) == n:
        ls, amb = [], 0
        for j in range(n):
            cnt, a, longest = ref_rays(A == 1, np.repeat(loc[sv[0][j]][:, None], rays, axis=1), dir3(av[2 * j], av[2 * j + 1]))
            amb += a
            if cnt.sum():
                ls.append((cnt * np.arange(longest)).sum() / cnt.sum())
            else:
                amb += 1
        ls = np.array(ls)
        ls = ls[ls > 0]
        if amb == 0 and len(ls):
            h, e = np.histogram(np.log(ls), density=True, bins=50)
            near(r, np.exp((e[1:] + e[:-1]) / 2) * bs / A.shape[0], "mfp-averaged", f"{case} radii", rtol=1e-7)
            near(q, h, "mfp-averaged", f"{case} distribution", rtol=1e-6, atol=1e-9)
    if len(r) > 1 and d.ok and av and np.ptp(np.log(r)) > 1e-6:
        near(float(np.sum(q * np.log(r[1] / r[0]))), 1.0, "mfp-averaged-norm", f"{case}: probability density does not integrate to one", rtol=1e-6)
    return digest(r)


# ---------------------------------------------------------------- granulometry
def ball_offsets(n, nd):
    return [o for o in itertools.product(range(-n, n + 1), repeat=nd) if sum(x * x for x in o) <= n * n]


def ref_open_count(M, n):
    offs = ball_offsets(n, M.ndim)
    if M.size > 5000:      # distance of every cell to the nearest empty cell / eroded cell (outside counts as empty)
        from scipy import ndimage
        er = ndimage.distance_transform_edt(np.pad(M, 1))[(slice(1, -1),) * M.ndim] ** 2 > n * n + 0.5
        er = er & M
        return int((ndimage.distance_transform_edt(~er) ** 2 < n * n + 0.5).sum()) if er.any() else 0
    P = np.pad(M, 2 * n)
    er = np.ones_like(P)
    for o in offs:
        er &= np.roll(P, o, axis=tuple(range(M.ndim)))
    # erosion restricted to the grid, then dilation restricted to the grid
    c = tuple(slice(2 * n, 2 * n + s) for s in M.shape)
    E = np.zeros_like(P)
    E[c] = er[c]
    di = np.zeros_like(P)
    for o in offs:
        di |= np.roll(E, o, axis=tuple(range(M.ndim)))
    return int(di[c].sum())


def cases_gran(tier):
    for sh in [(3, 4), (2, 5), (4, 3)] + ([(4, 4)] if tier == "thorough" else []):
        n = 1 << int(np.prod(sh))
        for lo in range(0, n, 128):
            yield {"shape": list(sh), "lo": lo, "hi": min(n, lo + 128)}
    for sh in [(12, 12), (9, 14), (15, 7), (8, 8, 8), (6, 9, 7), (10, 10, 10)]:
        for s in range(6):
            yield {"shape": list(sh), "lo": -1, "hi": s}


def check_gran(case):
    b = B()
    sh = case["shape"]
    if case["lo"] >= 0:
        n = int(np.prod(sh))
        Ms = [np.array([(v >> i) & 1 for i in range(n)], dtype=bool).reshape(sh) for v in range(case["lo"], case["hi"])]
    else:
        s = case["hi"]
        M = core.field(sh, s) > 0.93
        if s < 5:
            x = np.indices(sh)
            c = [d * (0.35 + 0.05 * s) for d in sh]
            M = M | (sum((x[i] - int(c[i])) ** 2 for i in range(len(sh))) <= (1 + s) ** 2)
        if s == 5:
            M = core.field(sh, s) > 0.1
        Ms = [M]
    seen = set()
    for k, M in enumerate(Ms):
        if not M.any():
            continue
        px = list(range(int(max(sh) / 2)))
        area = []
        for n in px:
            area.append(ref_open_count(M, n))
            if area[-1] == 0:
                break
        area += [0] * (len(px) - len(area))
        area = np.array(area, dtype=float)
        dF = np.append((area[:-1] - area[1:]) / area[0], 0)
        seen.add(tuple(area))
        for up in ((False, True) if case["lo"] < 0 else (bool(k % 2),)):
            lv = np.where(M, np.nextafter(0.5, 1), 0.5)
            D, th = (-lv, -0.5) if up else (lv, 0.5)
            R, dl, d = call(b.granulometry_bsd, D, xth=th, boxsize=30., verbose=False, upper_lim=up)
            near(R, np.array(px) * 30. / sh[0], "gran-r", f"radii of {M.astype(int).tolist()}", rtol=1e-9)
            near(d, dF, "gran-dF", f"granulometry upper_lim={up} of {M.astype(int).tolist()}", rtol=1e-9, atol=1e-12)
            near(dl, np.array(px) * dF, "gran-dFdlnR", f"granulometry upper_lim={up} of {M.astype(int).tolist()}", rtol=1e-9, atol=1e-12)
        if case["lo"] < 0 and len(sh) == 3:
            for sz in (np.array([1, 2, 3]), np.array([3, 1, 2, 4]), np.array([2.0, 1.0])):
                want = [ref_open_count(M, int(n)) for n in np.sort(sz)]
                eq(call(b.granulometry_CDF, M, sizes=sz, verbose=False), want, "gran-cdf", f"granulometry_CDF sizes {sz.tolist()}")
                import joblib
                for nj in (2, 3):
                    with joblib.parallel_config(backend="threading"):
                        eq(call(b.granulometry_CDF, M, sizes=sz, verbose=False, n_jobs=nj), want, "gran-cdf", f"granulometry_CDF sizes {sz.tolist()}, {nj} jobs")
    return seen or None


# ---------------------------------------------------------------- watershed
def cases_ws(tier):
    for nd in (2, 3):
        bl = [b for b in itertools.product((1, 3, 5), repeat=nd) if list(b) == sorted(b)] + [(7,) * nd, (9,) * nd]
        for k in (1, 2) + ((3,) if tier == "thorough" or nd == 2 else ()):
            for c in itertools.combinations_with_replacement(bl, k):
                for pad in (0, 1, 2):
                    yield {"nd": nd, "sides": [list(x) for x in c], "upper": bool((pad + sum(map(sum, c)) + k) % 2), "pad": pad}


def check_ws(case):
    nd = case["nd"]
    sd = case["sides"]
    pad = case["pad"]
    L = sum(x[0] for x in sd) + 2 * len(sd) + 2 * pad - 2
    M = np.zeros((L,) + tuple(max(x[i] for x in sd) + 2 * pad for i in range(1, nd)), dtype=bool)
    if M.size < 2:
        return None
    p = pad
    for x in sd:
        M[(slice(p, p + x[0]),) + tuple(slice(pad, pad + n) for n in x[1:])] = True
        p += x[0] + 2
    lv = np.where(M, np.nextafter(0.5, 1), 0.5)
    D, th = (-lv, -0.5) if case["upper"] else (lv, 0.5)
    R, dl, d = call(B().watershed_bsd, D, xth=th, boxsize=20., verbose=False, upper_lim=case["upper"])
    r = np.cbrt(3 * np.array([np.prod(x) for x in sd]) / 4 / np.pi)
    R, d, dl = map(np.asarray, (R, d, dl))
    px = R * L / 20.
    near(px, np.arange(len(px)), "ws-r", f"{case} radii", atol=1e-9)
    want = np.array([((r >= i - 0.5) & (r < i + 0.5)).sum() for i in range(len(px))]) / len(sd)
    near(d, want, "ws-dF", f"watershed of isolated blocks {case}", atol=1e-9)
    near(dl, px * want, "ws-dF", f"watershed of isolated blocks {case}", atol=1e-9)
    near(d.sum(), 1., "ws-norm", f"{case}: distribution sums to {d.sum()}", rtol=1e-9)
    return digest(d)


# boxes of everyday size
def cases_real(tier):
    for sh in [(30, 30, 30), (24, 33, 20), (50, 9, 40)] + ([(48, 48, 48)] if tier == "thorough" else []):
        for kind, th in (("bin", 0.5), ("mix", 0.4), ("mix", 0.6), ("tb", 12.)):
            for up in (False, True):
                yield {"f": "spa", "shape": list(sh), "kind": kind, "salt": 1, "xth": th, "upper": up}
    for sh in [(30, 30, 30), (24, 33, 20), (90, 70), (40, 200)]:
        for s in range(6):
            yield {"f": "gran", "shape": list(sh), "lo": -1, "hi": s}
    for nd in (2, 3):
        for s in ("bigballs", "bigrand"):
            yield {"f": "mfp", "nd": nd, "struct": s, "start": 2, "mode": "point"}
            for m in ("random", "upper"):
                yield {"f": "mfp", "nd": nd, "struct": s, "start": -1, "mode": m}
            if nd == 3:
                yield {"f": "mfp", "nd": nd, "struct": s, "start": -1, "mode": "averaged"}
        for n in (7, 20, 40):
            b = [[1] * nd, [3] * nd, [5] * nd, [3] + [5] * (nd - 1), [9] * nd, [1] + [3] * (nd - 1), [7] * nd]
            yield {"f": "ws", "nd": nd, "sides": [b[i * i % 7] for i in range(n)], "upper": bool(n % 2), "pad": 1}


def check_real(case):
    return {"spa": check_spa, "gran": check_gran, "mfp": check_mfp, "ws": check_ws}[case["f"]]({k: v for k, v in case.items() if k != "f"})


SUITES = [
    FnSuite("spa", cases_spa, check_spa, "shapes x field kinds x thresholds x upper_lim x (nscales,binning) x boxsize x convolution backend", chunk=2),
    FnSuite("mfp", cases_mfp, check_mfp, "6 structures in 2D/3D: every integer-degree direction from chosen starts; every start x direction lattice", chunk=1),
    FnSuite("granulometry", cases_gran, check_gran, "all 2D masks of 2-3 shapes up to 12 cells (thorough 16) plus generic 2D/3D structures"),
    FnSuite("watershed", cases_ws, check_ws, "all multisets of up to 3 isolated odd blocks in 2D/3D", chunk=2),
    FnSuite("realistic", cases_real, check_real, "boxes of up to 27000 (thorough 110592) cells, up to 40 isolated regions: all of the above", chunk=1),
]
