"""Gaussian random fields: decided draw by draw. The random numbers are replaced by every unit draw; the map from draws to
fields is linear, so the unit draws decide every realisation."""
import itertools
import contextlib
import numpy as np
from mc import core, psref, rnd
from mc.core import FnSuite, call, eq, near, expect, digest

LEVEL = "model_checking"
ASSUMPTIONS = ["np.random.normal is the only source of randomness (replaced by scripted draws)", "linearity in the draws is checked on combinations"]


@contextlib.contextmanager
def scripted(draws):
    """numpy's normal draws come, one after the other, from the given arrays"""
    stream = np.concatenate([np.asarray(a, float).ravel() for a in draws])
    used = [0]

    def std(size=None):
        n = 1 if size is None else int(np.prod(size))
        if used[0] + n > stream.size:
            raise core.Fail("draw-count", f"asked for {used[0] + n} draws, the field has {stream.size} independent modes")
        v = stream[used[0]:used[0] + n]
        used[0] += n
        return float(v[0]) if size is None else v.reshape(size).copy()

    with rnd.standard_normals(std):
        yield used


def ref_field(re, im, L, pk):
    sh = re.shape
    v = psref.modes(sh, L)
    k = np.sqrt((v ** 2).sum(axis=1))
    k[k == 0] = k[k > 0].min() / 10
    V, N = np.prod(L), re.size
    amp = (re + 1j * im).ravel() * np.sqrt(pk(k) * N * N / V)
    if N > 400:
        return np.fft.ifftn(np.fft.ifftshift(amp.reshape(sh))).real
    x = np.array(list(itertools.product(*[np.arange(n) * l / n for n, l in zip(sh, L)])))
    return np.array([np.sum(amp * np.exp(1j * (v @ p))).real / N for p in x]).reshape(sh)


PK = {"flat": lambda k: 2.0 * np.ones_like(k), "power": lambda k: 3.0 * k ** -1.7, "bump": lambda k: np.exp(-(k - 1.3) ** 2) + 0.1}
SH = [(2, 2), (3, 3), (2, 3), (4, 3), (4, 5), (2, 2, 2), (3, 3, 3), (2, 3, 4), (3, 2, 1)]


def Ls(kind, sh):
    L = [7.1, 9.3, 12.7][:len(sh)]
    return (8.3, [8.3] * len(sh)) if kind == "scalar" else ((tuple(L), L) if kind == "tuple" else (np.array(L), L))


def cases_g(tier):
    for sh in SH + ([(5, 5), (4, 4, 4), (3, 4, 5)] if tier == "thorough" else []):
        for L in ("scalar", "tuple", "array"):
            for p in PK:
                for i in range(int(np.prod(sh))):
                    for part in ("re", "im"):
                        if L == "tuple" or i % 5 == 0:
                            yield {"sh": list(sh), "L": L, "p": p, "i": i, "part": part}
                yield {"sh": list(sh), "L": L, "p": p, "i": -1, "part": "mix"}


def check_g(case):
    t = core.t2c()
    sh = tuple(case["sh"])
    arg, L = Ls(case["L"], sh)
    if case["i"] < 0:
        re, im = core.field(sh, 3, lo=-1, hi=1), core.field(sh, 4, lo=-1, hi=1)
    else:
        e = np.zeros(sh)
        e.ravel()[case["i"]] = 1.
        re, im = (e, np.zeros(sh)) if case["part"] == "re" else (np.zeros(sh), e)
    with scripted([re, im]) as used:
        got = call(t.make_gaussian_random_field, sh, arg, PK[case["p"]])
    expect(used[0] == 2 * re.size, "draws", f"{case}: {used[0]} draws for {re.size} cells")
    want = ref_field(re, im, L, PK[case["p"]])
    near(got, want, "grf-mode", f"field of draw {case}", rtol=1e-7, atol=1e-11, scale=1e-9)
    return digest(want)


def cases_seed(tier):
    for sh in SH[:6]:
        for s in (None, 0, 1, 42):
            for pre in (0, 5):
                yield {"sh": list(sh), "seed": s, "pre": pre}


def check_seed(case):
    t = core.t2c()
    sh = tuple(case["sh"])
    np.random.seed(case["pre"])
    a = call(t.make_gaussian_random_field, sh, 5., PK["power"], random_seed=case["seed"])
    st = np.random.get_state()[1].copy()
    np.random.seed(case["pre"])
    b = call(t.make_gaussian_random_field, sh, 5., PK["power"], random_seed=case["seed"])
    eq(a, b, "reproducible", f"{case}: the same seed gives another field")
    c = call(t.make_gaussian_random_field, sh, 5., PK["power"], random_seed=case["seed"])
    if case["seed"] is None:
        expect(not np.array_equal(a, c), "independent", f"{case}: two fields without seed are identical")
    else:
        eq(a, c, "reproducible", f"{case}: seed {case['seed']} depends on the previous state")
    # draws come from the seeded stream: real part first, then the imaginary part
    rs = np.random.RandomState(case["pre"] if case["seed"] is None else case["seed"])
    re, im = rs.normal(size=sh), rs.normal(size=sh)
    near(a, ref_field(re, im, [5.] * len(sh), PK["power"]), "grf-stream", f"{case}", rtol=1e-7, atol=1e-11, scale=1e-9)
    return digest(a)


def cases_like(tier):
    for sh in [(4, 4), (5, 5), (4, 4, 4), (3, 3, 3), (4, 3, 5)]:
        for kb in (2, 4, 6):
            for i in (-1, 0, 1, 7, 8):
                yield {"sh": list(sh), "kb": kb, "i": i}


def check_like(case):
    t = core.t2c()
    sh = tuple(case["sh"])
    L = [7.1, 9.3, 12.7][:len(sh)]
    x = core.field(sh, 6, lo=-1, hi=1)
    k = psref.kmag(sh, L)
    E = psref.edges(case["kb"], sh, L, "log")
    m, n = psref.mean_in(psref.power(x, L).ravel(), psref.member(k, E), case["kb"])
    mid = ((E[1:] + E[:-1]) / 2)[n > 0]
    m = m[n > 0]
    if psref.ambiguous(k, E) or len(mid) < 2:
        return None
    pk = lambda q: np.interp(q, mid, m, left=0., right=0.)
    if case["i"] < 0:
        re, im = core.field(sh, 3, lo=-1, hi=1), core.field(sh, 4, lo=-1, hi=1)
    else:
        re, im = np.zeros(sh), np.zeros(sh)
        im.ravel()[case["i"]] = 1.
    with scripted([re, im]):
        got = call(t.make_gaussian_random_field_like_field, x, L, kbins=case["kb"])
    near(got, ref_field(re, im, L, pk), "grf-like", f"{case}", rtol=1e-6, atol=1e-11, scale=1e-8)
    return digest(got)


def cases_ph(tier):
    for sh in [(2,), (3,), (4, 4), (5, 3), (4, 4, 4), (3, 3, 3), (3, 4, 5)]:
        for dt in ("f8", "f4", "i8"):
            for s in (0, 1, 2):
                yield {"sh": list(sh), "dt": dt, "salt": s}


def check_ph(case):
    t = core.t2c()
    x = (core.field(tuple(case["sh"]), case["salt"]) * 8 - 3).astype(case["dt"])
    old = np.random.shuffle
    n = []
    try:
        np.random.shuffle = lambda a: n.append(a.shape)   # the identity permutation
        y = call(t.gaussian_random_field.fourier_phase_shuffled, x)
        near(y, x.astype(float), "phase-identity", f"{case}: the identity shuffle must reproduce the field", rtol=1e-5, atol=1e-6)
    finally:
        np.random.shuffle = old
    return digest(y)


# boxes of everyday size: seeded fields and single draws
def cases_real(tier):
    for sh in [(24, 20, 22), (15, 17, 31), (64, 50), (33, 33, 33), (7, 100, 9)] + ([(64, 64, 64), (80, 45, 60)] if tier == "thorough" else []):
        for L in ("scalar", "tuple"):
            for p in PK:
                yield {"f": "g", "sh": list(sh), "L": L, "p": p, "i": -1, "part": "mix"}
                for i in (0, 1, int(np.prod(sh)) // 2, int(np.prod(sh)) // 3, int(np.prod(sh)) - 1):
                    yield {"f": "g", "sh": list(sh), "L": L, "p": p, "i": i, "part": "im"}
        for s in (None, 0, 42):
            yield {"f": "seed", "sh": list(sh), "seed": s, "pre": 5}
        for kb in (5, 20):
            yield {"f": "like", "sh": list(sh), "kb": kb, "i": -1}
        for dt in ("f8", "f4", "i8"):
            yield {"f": "ph", "sh": list(sh), "dt": dt, "salt": 1}


def check_real(case):
    return {"g": check_g, "seed": check_seed, "like": check_like, "ph": check_ph}[case["f"]]({k: v for k, v in case.items() if k != "f"})


def cases_ap(tier):
    cases = [dict(shape=s, bits=b) for s in ([4], [2, 2], [3, 2], [2, 2, 2]) for b in range(2 ** int(np.prod(s)))]
    for s in ([5], [8], [4, 5], [6, 6], [3, 4, 5], [4, 4, 4]) + (([8, 8, 8], [7, 6, 5]) if tier == "thorough" else ()):
        cases += [dict(shape=s, salt=k) for k in range(6)]
        cases += [dict(shape=s, mode=list(m), ph=p) for m in itertools.islice(np.ndindex(*s), 64) for p in range(8)]
    return cases


def check_ap(case):
    """amplitude and phase of every mode give back the transform of the field"""
    import tools21cm as t
    sh = tuple(case["shape"])
    if "bits" in case:
        f = np.array([(case["bits"] >> i) & 1 for i in range(int(np.prod(sh)))], float).reshape(sh)
    elif "salt" in case:
        f = core.field(sh, salt=case["salt"]) - .5 * (case["salt"] % 3)
    else:
        x = sum(m * g / n for m, g, n in zip(case["mode"], np.indices(sh), sh))
        f = np.cos(2 * np.pi * x + case["ph"] * np.pi / 4)
    before = f.copy()
    R, phi = call(t.real_to_fourier_amplitude_phase, f)
    eq(f, before, "input", "input changed")
    ft = np.fft.fftn(f)
    near(np.asarray(R), np.abs(ft), "amplitude-phase", "amplitude", rtol=1e-9, atol=1e-9)
    expect(np.all(np.isfinite(np.asarray(phi)[np.abs(ft) > 1e-9])), "amplitude-phase", f"phase of a mode that carries power is not a number on {case}")
    z = np.where(np.abs(ft) > 1e-9, np.asarray(R) * np.exp(1j * np.nan_to_num(np.asarray(phi))), 0)
    near(z, np.where(np.abs(ft) > 1e-9, ft, 0), "amplitude-phase", "amplitude * exp(i phase)", rtol=1e-8, atol=1e-8)
    return {"states": [digest(f)], "evaluations": 3}


SUITES = [
    FnSuite("unit-draws", cases_g, check_g, "every unit draw (real and imaginary, every mode) of 9 grids x 3 spectra, plus a generic combination"),
    FnSuite("seed", cases_seed, check_seed, "6 grids x seeds x previous generator states"),
    FnSuite("like-field", cases_like, check_like, "5 grids x bins x draws"),
    FnSuite("phases", cases_ph, check_ph, "7 grids x dtypes; identity shuffle"),
    FnSuite("realistic", cases_real, check_real, "boxes of up to 36000 (thorough 262144) cells: seeds, single draws, like-fields, identity shuffle", chunk=2),
    FnSuite("amplitude-phase", cases_ap, check_ap, bounds="all binary fields of 4 shapes; generic fields and single waves (64 modes x 8 phases) of 6 (thorough 8) shapes", chunk=200),
]
