"""Cubical-complex topology: every backend builds the exact periodic cubical complex."""
import itertools
import numpy as np
from mc import core, cybuild
from mc.core import FnSuite, Fail, call, eq, expect, digest

TITLE = "cubical complex, Euler characteristic and Betti numbers"
ASSUMPTIONS = ["grids beyond the listed shapes behave like the enumerated ones (the code has no size dependent branch)",
               "torch and CUDA backends are not installed here and are not covered"]


def pre_import():
    cybuild.install()


_NB = {}


def setup(tier):
    t = core.t2c()
    from tools21cm import ViteBetti as VB
    for dt in (np.int32,):
        VB.CubeMap_numba(np.zeros((1, 1, 1), dtype=dt))   # jit once, before forking
    expect(VB.cython_available and VB.numba_available, "backend", "cython/numba backend missing")


def VB():
    from tools21cm import ViteBetti
    return ViteBetti


def ref_cubemap(A):
    """cell present iff all its (periodic) vertices are; marker = 1 + dimension of the cell"""
    A = A.astype(bool)
    nx, ny, nz = A.shape
    out = np.zeros((2 * nx, 2 * ny, 2 * nz), dtype=np.int32)
    for p in itertools.product((0, 1), repeat=3):
        m = np.ones_like(A)
        for d in itertools.product(*[(0, 1) if q else (0,) for q in p]):
            m = m & np.roll(A, (-d[0], -d[1], -d[2]), axis=(0, 1, 2))
        out[p[0]::2, p[1]::2, p[2]::2] = m * (1 + sum(p))
    return out


def ref_cubemaps(A):
    """the same for a batch of fields (leading axis)"""
    A = A.astype(bool)
    b, nx, ny, nz = A.shape
    out = np.zeros((b, 2 * nx, 2 * ny, 2 * nz), dtype=np.int32)
    for p in itertools.product((0, 1), repeat=3):
        m = np.ones_like(A)
        for d in itertools.product(*[(0, 1) if q else (0,) for q in p]):
            m = m & np.roll(A, (-d[0], -d[1], -d[2]), axis=(1, 2, 3))
        out[:, p[0]::2, p[1]::2, p[2]::2] = m * (1 + sum(p))
    return out


def ref_chi(A):
    c = ref_cubemap(A)
    return float((c == 1).sum() - (c == 2).sum() + (c == 3).sum() - (c == 4).sum())


def decode(bits, shape):
    n = int(np.prod(shape))
    return np.array([(bits >> i) & 1 for i in range(n)], dtype=np.int32).reshape(shape)


BLOCK = 512


def block_cases(shapes):
    for sh in shapes:
        n = int(np.prod(sh))
        for b in range(max(1, (1 << n) // BLOCK)):
            yield {"shape": list(sh), "block": b}


def fields(case):
    n = int(np.prod(case["shape"]))
    lo = case["block"] * BLOCK
    for bits in range(lo, min(lo + BLOCK, 1 << n)):
        yield bits, decode(bits, case["shape"])


SMALL = [(1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 2, 1), (1, 1, 3), (1, 2, 2), (2, 1, 2), (2, 2, 1), (3, 1, 2), (1, 3, 3),
         (2, 2, 2), (3, 2, 1), (1, 2, 4)]
MID = [(2, 2, 3), (2, 3, 2), (3, 2, 2)]
BIG = [(2, 3, 3), (3, 2, 3), (3, 3, 2)]


def check_compiled(case):
    vb, seen = VB(), set()
    n = int(np.prod(case["shape"]))
    lo = case["block"] * BLOCK
    b = np.arange(lo, min(lo + BLOCK, 1 << n), dtype=np.int64)
    A = np.ascontiguousarray(((b[:, None] >> np.arange(n)) & 1).astype(np.int32).reshape((-1,) + tuple(case["shape"])))
    A0 = A.copy()
    want = ref_cubemaps(A)
    for nm, f in (("numba", vb.CubeMap_numba), ("cython", vb.CubeMap_cython)):
        try:
            got = np.stack([f(a) for a in A])
        except Exception as e:
            raise Fail("raises", f"CubeMap_{nm}: {type(e).__name__}: {e}")
        core.C.calls += len(b)
        core.C.compares += len(b)
        if got.shape != want.shape:
            raise Fail("cubemap-" + nm, f"CubeMap_{nm} returns shape {got.shape[1:]} for a {case['shape']} field")
        bad = (got != want).reshape(len(b), -1).any(axis=1)
        if bad.any():
            k = int(np.flatnonzero(bad)[0])
            raise Fail("cubemap-" + nm, f"CubeMap_{nm} wrong for field bits={b[k]} shape={case['shape']}: cells "
                       f"{np.argwhere(got[k] != want[k]).tolist()[:5]}")
        expect(np.array_equal(A, A0), "mutates-input", f"CubeMap_{nm} modified its input")
    w = want.reshape(len(b), -1)
    cnt = np.stack([(w == m).sum(1) for m in range(5)], axis=1)
    return {(tuple(case["shape"]),) + tuple(r) for r in np.unique(cnt, axis=0).tolist()}


def check_python(case):
    vb, seen = VB(), set()
    for bits, A in fields(case):
        want = ref_cubemap(A)
        eq(call(vb.CubeMap, A), want, "cubemap-python", f"CubeMap bits={bits} shape={case['shape']}")
        seen.add(digest(want))
    return seen


def cases_sparse(tier):
    shapes = [(4, 3, 5), (5, 4, 3), (1, 5, 6), (7, 1, 2), (3, 3, 3)] + ([(6, 5, 4)] if tier == "thorough" else [])
    for sh in shapes:
        n = int(np.prod(sh))
        for comp in (0, 1):
            for i in range(n):
                yield {"shape": list(sh), "comp": comp, "cell": i}


def check_sparse(case):
    """all fields with at most two set (or cleared) cells, one of them `cell`"""
    vb, seen = VB(), set()
    n = int(np.prod(case["shape"]))
    for j in range(case["cell"], n):
        A = np.zeros(n, dtype=np.int32)
        A[case["cell"]] = A[j] = 1
        if case["comp"]:
            A = 1 - A
        A = A.reshape(case["shape"])
        want = ref_cubemap(A)
        for nm, f in (("numba", vb.CubeMap_numba), ("cython", vb.CubeMap_cython)):
            eq(call(f, A), want, "cubemap-" + nm, f"{nm} {case} second cell {j}")
        seen.add(digest(np.bincount(want.ravel(), minlength=5)))
    return seen


# ---- EulerCharacteristic front end: thresholds, dtypes, neighbours, backends
ENC = [  # (dtype, value in, value out, threshold)
    ("float64", 1.0, 0.0, 0.5), ("float64", 0.5000001, 0.5, 0.5), ("float32", 0.75, 0.25, 0.5), ("float64", 1e-9, 0.0, 0.0),
    ("float64", -1.0, -2.0, -1.5), ("int32", 1, 0, 0.5), ("int64", 3, 2, 2), ("bool", True, False, 0.5), ("uint8", 1, 0, 0.5),
    ("float64", float("inf"), 1e30, 1e30), ("int8", 1, 0, 0),
]


def cases_euler(tier):
    for sh in [(2, 2, 2), (1, 2, 3), (3, 1, 2)] + ([(2, 2, 3)] if tier == "thorough" else []):
        n = int(np.prod(sh))
        for b in range(max(1, (1 << n) // 64)):
            for e in range(len(ENC)):
                yield {"shape": list(sh), "block": b, "enc": e}


def check_euler(case):
    t, seen = core.t2c(), set()
    dt, vi, vo, th = ENC[case["enc"]]
    n = int(np.prod(case["shape"]))
    for bits in range(case["block"] * 64, min(case["block"] * 64 + 64, 1 << n)):
        A = decode(bits, case["shape"])
        data = np.where(A, np.array(vi), np.array(vo)).astype(dt)
        want6, wantc = ref_chi(A), ref_chi(1 - A)
        for sp in ("cython", "numba", "numpy", "python", "Cython"):
            got = call(t.EulerCharacteristic, data, thres=th, neighbors=6, speed_up=sp, verbose=False)
            expect(got == want6, "euler", f"EulerCharacteristic({sp}, enc={ENC[case['enc']]}) = {got}, V-E+F-C = {want6}, bits={bits} {case}")
        for nb in (4, 18, 26, 8):
            want = want6 if nb == 4 else wantc
            got = call(t.EulerCharacteristic, data, thres=th, neighbors=nb, speed_up="cython" if nb != 26 else "numba", verbose=False)
            expect(got == want, "euler-neighbors", f"EulerCharacteristic(neighbors={nb}) = {got}, expected {want}, bits={bits} {case}")
        # Fortran order and a strided view of the same data
        view = np.zeros(tuple(2 * s for s in data.shape), dtype=data.dtype)[::2, ::2, ::2]
        view[...] = data
        for d2 in (np.asfortranarray(data), view):
            got = call(t.EulerCharacteristic, d2, thres=th, neighbors=6, verbose=False)
            expect(got == want6, "euler-layout", f"memory layout changes the Euler characteristic: {got} != {want6} bits={bits} {case}")
        seen.add((case["enc"], want6, wantc))
    return seen


# ---- Betti numbers
def components(A, conn):
    """number of connected components of True cells, open boundaries; conn = max number of differing axes"""
    A = np.asarray(A, dtype=bool)
    todo = set(map(tuple, np.argwhere(A).tolist()))
    offs = [d for d in itertools.product((-1, 0, 1), repeat=A.ndim) if 0 < sum(map(abs, d)) <= conn]
    n = 0
    while todo:
        n += 1
        st = [todo.pop()]
        while st:
            p = st.pop()
            for d in offs:
                q = tuple(a + b for a, b in zip(p, d))
                if q in todo:
                    todo.discard(q)
                    st.append(q)
    return n


def cases_betti(tier):
    shapes = MID + [(2, 2, 2), (1, 3, 4)] + (BIG if tier == "thorough" else [])
    yield from block_cases(shapes)
    for k in range(27):
        for comp in (0, 1):
            yield {"shape": [3, 3, 3], "first": k, "comp": comp}


def betti_fields(case):
    if "block" in case:
        yield from fields(case)
        return
    n = int(np.prod(case["shape"]))
    for i in range(case["first"], n):
        for j in range(i, n):
            A = np.zeros(n, dtype=np.int32)
            A[[case["first"], i, j]] = 1
            yield (i, j), (1 - A if case["comp"] else A).reshape(case["shape"])


def check_betti(case):
    t, seen = core.t2c(), set()
    for bits, A in betti_fields(case):
        data = A * 0.6 + 0.2
        b0, b2, chi = components(A, 1), components(1 - A, 1), ref_chi(A)
        g0, g2 = call(t.betti0, data, thres=0.5, neighbors=6), call(t.betti2, data, thres=0.5, neighbors=6)
        expect(g0 == b0, "betti0", f"betti0={g0}, components={b0}, bits={bits} {case}")
        expect(g2 == b2, "betti2", f"betti2={g2}, components of the complement={b2}, bits={bits} {case}")
        g1 = call(t.betti1, data, thres=0.5, neighbors=6, verbose=False)
        expect(g1 == b0 + b2 - chi, "betti1", f"betti1={g1}, expected {b0 + b2 - chi}, bits={bits} {case}")
        g1 = call(t.betti1, data, thres=0.5, neighbors=6, b0=5, b2=7, chi=11.0, verbose=False)
        expect(g1 == 1, "betti1-given", f"betti1 ignores the supplied b0, b2, chi: {g1}")
        e0, e2 = components(A, 2), components(1 - A, 2)
        g0, g2 = call(t.betti0, data, neighbors=26), call(t.betti2, data, neighbors=26)
        expect(g0 == e0 and g2 == e2, "betti-26", f"betti0,2 (neighbors=26) = {g0},{g2}, expected {e0},{e2}, bits={bits} {case}")
        chi_c = ref_chi(1 - A)
        g1 = call(t.betti1, data, neighbors=26, verbose=False)
        expect(g1 == e0 + e2 - chi_c, "betti1-26", f"betti1(26)={g1}, expected {e0 + e2 - chi_c}, bits={bits}")
        seen.add((b0, b2, chi, e0, e2))
    return seen


# ---- thorough: all 3x3x3 fields, one per translation class
def cases_333(tier):
    if tier == "thorough":
        for b in range(2048):
            yield {"block": b}


_PERM = None


def check_333(case):
    global _PERM
    vb, seen = VB(), set()
    if _PERM is None:
        idx = np.arange(27).reshape(3, 3, 3)
        _PERM = [np.roll(idx, s, axis=(0, 1, 2)).ravel() for s in itertools.product(range(3), repeat=3)]
    w = 1 << np.arange(27, dtype=np.int64)
    lo = case["block"] << 16
    allb = ((np.arange(lo, lo + 65536, dtype=np.int64)[:, None] >> np.arange(27)) & 1)
    val = allb @ w
    canon = np.ones(len(val), bool)
    for p in _PERM[1:]:
        canon &= (allb[:, p] @ w) >= val
    for A in allb[canon].astype(np.int32).reshape(-1, 3, 3, 3):
        want = ref_cubemap(A)
        core.C.calls += 1
        core.C.compares += 1
        if not np.array_equal(vb.CubeMap_numba(A), want) or not np.array_equal(vb.CubeMap_cython(A), want):
            raise Fail("cubemap-333", f"compiled CubeMap wrong for {A.ravel().tolist()}")
        seen.add(tuple(np.bincount(want.ravel(), minlength=5)))
    return seen


# ---- boxes of everyday size: many components, long axes
def cases_real(tier):
    shapes = [(24, 24, 24), (40, 33, 28), (20, 70, 9), (3, 130, 5)] + ([(64, 64, 64), (128, 40, 40)] if tier == "thorough" else [])
    for sh in shapes:
        for k in range(6):
            yield {"shape": list(sh), "k": k}
    yield {"shape": [42, 42, 42], "k": 6}


def check_real(case):
    from scipy import ndimage
    t, vb = core.t2c(), VB()
    k, sh = case["k"], case["shape"]
    if k == 6:
        A = (np.indices(sh).sum(0) % 2 == 0).astype(np.int32)              # 37044 components
    else:
        A = (core.field(sh, k) > (0.5, 0.9, 0.1, 0.7, 0.3, 0.03)[k]).astype(np.int32)
    want = ref_cubemap(A)
    for nm, f in (("numba", vb.CubeMap_numba), ("cython", vb.CubeMap_cython)) + ((("python", vb.CubeMap),) if k == 0 and A.size < 15000 else ()):
        eq(call(f, A), want, "cubemap-" + nm, f"{nm} {case}")
    data = np.where(A == 1, 0.7, 0.2)
    st = ndimage.generate_binary_structure
    n = [ndimage.label(x, st(3, c))[1] for x, c in ((A, 1), (1 - A, 1), (A, 2), (1 - A, 2))]
    chi, chc = ref_chi(A), ref_chi(1 - A)
    for nb, b0, b2, ch in ((6, n[0], n[1], chi), (26, n[2], n[3], chc)):
        for sp in ("cython", "numba"):
            g = call(t.EulerCharacteristic, data, neighbors=nb, speed_up=sp, verbose=False)
            expect(g == ch, "euler", f"EulerCharacteristic({sp}, neighbors={nb}) = {g}, expected {ch} {case}")
        g = (call(t.betti0, data, neighbors=nb), call(t.betti1, data, neighbors=nb, verbose=False), call(t.betti2, data, neighbors=nb))
        expect(g == (b0, b0 + b2 - ch, b2), "betti-real", f"Betti numbers {g}, expected {(b0, b0 + b2 - ch, b2)} {case} neighbors={nb}")
    return (chi, chc) + tuple(n)


# ---- Betti numbers at every threshold
LEVELS = [[0, 1, 2], [-1.5, 0., .25], [.1, .5, .9], [1e30, 1e31, float("inf")], [-7, -3, 4]]


def cases_bthr(tier):
    for lv in range(len(LEVELS)):
        for sh in [(2, 2, 2), (1, 3, 2), (4, 1, 1)] + ([(2, 2, 3)] if tier == "thorough" else []):
            n = 3 ** int(np.prod(sh))
            for b in range(0, n, 729):
                yield {"shape": list(sh), "first": b, "lv": lv}


def check_bthr(case):
    """fields of three values: the structure is what lies above the threshold, in all three numbers alike"""
    t, seen = core.t2c(), set()
    lv = LEVELS[case["lv"]]
    n = int(np.prod(case["shape"]))
    dt = "int64" if all(isinstance(x, int) for x in lv) else "float64"
    memo = {}
    for bits in range(case["first"], min(case["first"] + 729, 3 ** n), 1 if n < 7 else 7):
        d = np.array([(bits // 3 ** i) % 3 for i in range(n)]).reshape(case["shape"])
        data = np.array(lv, dtype=dt)[d]
        for th in [lv[0], lv[1]] + ([(lv[0] + lv[1]) / 2] if bits % 5 == 0 else []):
            A = (data > th).astype(np.int32)
            k = A.tobytes()
            if k not in memo:
                memo[k] = [(components(A, c), components(1 - A, c), ref_chi(A) if c == 1 else ref_chi(1 - A)) for c in (1, 2)]
            for nb in ((6, 26) if bits % 3 else (4, 18)):
                b0, b2, chi = memo[k][0 if nb in (4, 6) else 1]
                g = (call(t.betti0, data, thres=th, neighbors=nb), call(t.betti1, data, thres=th, neighbors=nb, verbose=False), call(t.betti2, data, thres=th, neighbors=nb))
                expect(g == (b0, b0 + b2 - chi, b2), "betti-threshold", f"Betti numbers {g}, expected {(b0, b0 + b2 - chi, b2)}: values {data.ravel().tolist()}, threshold {th}, neighbors={nb} {case}")
                if nb == 6:
                    g = call(t.betti1, data, thres=th, b0=b0, verbose=False), call(t.betti1, data, thres=th, b2=b2, verbose=False), call(t.betti1, data, thres=th, chi=chi, verbose=False)
                    expect(g == (b0 + b2 - chi,) * 3, "betti1-given", f"betti1 with one number given: {g}, expected {b0 + b2 - chi}: values {data.ravel().tolist()}, threshold {th}")
                seen.add((nb, b0, b2, chi))
    return seen


SUITES = [
    FnSuite("cubemap_compiled", lambda tier: block_cases(SMALL + MID + BIG), check_compiled,
            "numba and cython: all binary fields on every listed shape up to 18 cells", chunk=4),
    FnSuite("cubemap_python", lambda tier: block_cases(SMALL + MID), check_python,
            "pure Python: all binary fields up to 12 cells", chunk=1),
    FnSuite("cubemap_sparse", cases_sparse, check_sparse,
            "larger/odd shapes: all fields with <=2 set or <=2 cleared cells", chunk=6),
    FnSuite("euler_api", cases_euler, check_euler,
            "all fields of 3 shapes x 11 dtype/threshold encodings x 5 backends x 5 neighbour codes x 3 layouts", chunk=2),
    FnSuite("betti", cases_betti, check_betti,
            "all fields of 5 shapes (<=12 cells), 3x3x3 with <=3 set/cleared cells", chunk=1),
    FnSuite("cubemap_333", cases_333, check_333, "thorough: all 2^27 3x3x3 fields up to translation", timeout=600, chunk=4),
    FnSuite("realistic", cases_real, check_real, "boxes of up to 74000 (thorough 262144) cells, long axes, up to 37044 components: all backends, chi and Betti numbers", chunk=1),
    FnSuite("betti-thresholds", cases_bthr, check_bthr, "fields of three values on 3 (thorough 4) shapes x 5 sets of values x 3 thresholds x 4 neighbour codes; betti1 with every one number given"),
]
