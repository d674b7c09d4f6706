"""Morphology, test-time-augmentation symmetries and sliding box counts."""
import itertools
import numpy as np
from mc import core
from mc.core import FnSuite, Fail, call, eq, near, expect, digest

TITLE = "morphology, symmetry operations and sliding box counts"
ASSUMPTIONS = ["the neural network itself (tensorflow is not installed) is replaced by exactly equivariant stand-ins"]


def M():
    from tools21cm import morph
    return morph


def ref_erode(A, B):
    """cells x with x+b inside A for every b of the structure (outside the grid counts as empty)"""
    c = [s // 2 for s in B.shape]
    out = np.ones(A.shape, dtype=bool)
    P = np.pad(A.astype(bool), [(s, s) for s in B.shape])
    for o in np.argwhere(B):
        sl = tuple(slice(s + int(a) - k, s + int(a) - k + d) for a, k, s, d in zip(o, c, B.shape, A.shape))
        out &= P[sl]
    return out


def ref_dilate(A, B):
    c = [s // 2 for s in B.shape]
    out = np.zeros(A.shape, dtype=bool)
    P = np.pad(A.astype(bool), [(s, s) for s in B.shape])
    for o in np.argwhere(B):
        sl = tuple(slice(s - int(a) + k, s - int(a) + k + d) for a, k, s, d in zip(o, c, B.shape, A.shape))
        out |= P[sl]
    return out


STRUCTS = {"cross": [[0, 1, 0], [1, 1, 1], [0, 1, 0]], "L": [[0, 1, 0], [0, 1, 1], [0, 0, 0]], "full": [[1] * 3] * 3, "dot": [[1]],
           "corner": [[1, 1, 0], [1, 0, 0], [0, 0, 0]], "row": [[1, 1, 1]], "edge": [[1, 0, 0, 0, 0]], "long": [[1, 1, 1, 0, 1]], "col": [[1], [0], [1]]}


def cases_all2d(tier):
    for sh in [(3, 3), (2, 4), (1, 6)] + ([(3, 5), (4, 4)] if tier == "thorough" else [(3, 4)]):
        n = 1 << int(np.prod(sh))
        for st in STRUCTS:
            for lo in range(0, n, 512):
                yield {"shape": list(sh), "struct": st, "lo": lo, "hi": min(n, lo + 512)}
        if sh == (3, 3):
            for b in range(0, 512, 32):     # every 3x3 structure
                yield {"shape": [3, 3], "struct": "block", "lo": b, "hi": b + 32}


def one(A, B, st):
    m = M()
    er, di = ref_erode(A, B), ref_dilate(A, B)
    eq(np.asarray(call(m.binary_erosion, A, B)).astype(bool), er, "erosion", f"structure {B.tolist()} image {A.astype(int).tolist()}")
    eq(np.asarray(call(m.binary_dilation, A, B)).astype(bool), di, "dilation", f"structure {B.tolist()} image {A.astype(int).tolist()}")
    op = ref_dilate(er, B)
    eq(np.asarray(call(m.binary_opening, A, structure=B)).astype(bool), op, "opening", f"structure {B.tolist()} image {A.astype(int).tolist()}")
    return op


def check_all2d(case):
    sh = case["shape"]
    n = int(np.prod(sh))
    seen = set()
    if case["struct"] == "block":
        imgs = [core.field((4, 5), s) > 0.3 for s in range(6)]
        for v in range(max(case["lo"], 1), case["hi"]):
            B = np.array([(v >> i) & 1 for i in range(9)]).reshape(3, 3)
            for A in imgs:
                seen.add(one(A, B, v).tobytes())
        return {hash(x) for x in seen}
    B = np.array(STRUCTS[case["struct"]])
    for v in range(case["lo"], case["hi"]):
        A = np.array([(v >> i) & 1 for i in range(n)], dtype=bool if v % 2 else float).reshape(sh)
        seen.add(one(A, B, case["struct"]).tobytes())
        if case["struct"] == "cross":
            eq(np.asarray(call(M().binary_opening, A)).astype(bool), ref_dilate(ref_erode(A, B), B), "opening-default", f"default structure image {A.tolist()}")
    return seen


def cases_3d(tier):
    for sh in [(4, 5, 6), (6, 6, 6), (3, 7, 2)]:
        for s in range(4):
            for k in range(6):
                yield {"shape": list(sh), "salt": s, "k": k}


def check_3d(case):
    A = core.field(case["shape"], case["salt"]) > (0.15, 0.3, 0.02, 0.6)[case["salt"]]
    k = case["k"]
    g = np.indices((5, 5, 5)) - 2
    B = {0: (g ** 2).sum(0) <= 1, 1: (g ** 2).sum(0) <= 4, 2: np.ones((3, 3, 3)), 3: core.field((3, 3, 3), 5) > 0.6,
         4: core.field((1, 3, 5), 6) > 0.5, 5: np.ones((1, 1, 1))}[k].astype(int)
    if k == 0:
        eq(np.asarray(call(M().binary_opening, A)).astype(bool), ref_dilate(ref_erode(A, B), B), "opening-default", f"{case}")
    return digest(one(A, B, k))


# ---------------------------------------------------------------- symmetry operations
def cases_sym(tier):
    for tta in (0, 1, 2):
        for n in (2, 3, 4):
            for k in range(4):
                yield {"tta": tta, "n": n, "k": k}


class Net:
    """stands in for the network: predict() acts on each 2D slice independently"""

    def __init__(self, f):
        self.f = f
        self.n = 0

    def predict(self, X, verbose=0):
        self.n += 1
        return self.f(np.asarray(X))


def check_sym(case):
    from tools21cm import segmentation
    core.C.calls += 1
    u = segmentation.segunet21cm(tta=case["tta"], verbose=False)
    n = case["n"]
    # every operation is a distinct relabelling of the cells of a cube
    idx = np.arange(27).reshape(3, 3, 3)
    perms = set()
    if case["tta"] == 2:
        ops = [u.MANIP[f"opt{i}"] for i in range(len(u.MANIP))]
        for f, ax, rot in ops:
            a = [0, 1, 2]
            a.remove(ax)
            p = np.rot90(f(idx), k=rot, axes=a)
            perms.add(tuple(p.ravel().tolist()))
            back = f(np.rot90(p, k=-rot, axes=a))
            eq(back, idx, "sym-inverse", "an operation followed by its inverse is not the identity")
        expect(len(perms) == len(ops), "sym-distinct", f"{len(ops)} operations, {len(perms)} distinct")
        expect(tuple(range(27)) in perms, "sym-identity", "the identity is missing")
        full = set()
        for f in (lambda a: a, np.fliplr, np.flipud, lambda a: np.flipud(np.fliplr(a))):
            for ax in range(3):
                a = [0, 1, 2]
                a.remove(ax)
                for r in range(4):
                    full.add(tuple(np.rot90(f(idx), k=r, axes=a).ravel().tolist()))
        expect(perms == full, "sym-complete", f"operations missing or extra: {len(perms)} vs {len(full)}")
    else:
        expect(len(u.MANIP) == 1, "sym-single", "one operation expected without augmentation")
    # prediction with an exactly equivariant network returns the segmentation itself, with zero spread
    x = core.field((n, n, n), case["k"])
    for name, f, want, err in (("identity", lambda X: X, np.round(x), 0 * x),
                               ("affine", lambda X: 0.25 + 0.5 * X, np.round(0.25 + 0.5 * x), 0 * x),
                               ("square", lambda X: X ** 2, np.round(x ** 2), 0 * x)):
        u.MODEL_LOADED = Net(f)
        seg, e = call(u.prediction, x)
        eq(seg, want, "sym-predict", f"segmentation with an equivariant network ({name}) {case}")
        near(e, err, "sym-spread", f"spread with an equivariant network ({name}) {case}", atol=1e-12)
    # a network that alternates: the mean and the spread are those of the collected answers
    cnt = [0]

    def flip(X):
        cnt[0] += 1
        return X * 0 + (0., 0.7, 0.6)[cnt[0] % 3]
    u.MODEL_LOADED = Net(flip)
    seg, e = call(u.prediction, x)
    expect(bool(np.all((seg == 0) | (seg == 1))), "sym-binary", "segmentation is not binary")
    # the three directions are asked in turn, so every cell collects equally many answers 0.7, 0.6 and 0:
    # their mean rounds to 0 although most answers round to 1
    near(e, np.full(x.shape, np.std([0.7, 0.6, 0.0])), "sym-spread", f"spread {case}", rtol=1e-9)
    eq(seg, np.zeros(x.shape), "sym-predict", f"mean {case}")
    return (case["tta"], len(perms), digest(x))


# ---------------------------------------------------------------- box counts
def cases_box(tier):
    for sh in [(6, 6, 6), (5, 7, 4), (8, 8, 8)]:
        for size in (1, 2, 3, 4, 5):
            for w in ("cube", "ball"):
                for s in range(2):
                    yield {"shape": list(sh), "size": size, "window": w, "salt": s}


def check_box(case):
    import tools21cm.box_counting as bc
    n = case["size"]
    D = core.field(case["shape"], case["salt"])
    if case["window"] == "cube":
        K = np.ones((n, n, n))
    else:
        h = n // 2
        x = np.indices((n, n, n)) - h
        K = ((x ** 2).sum(0) <= h * h).astype(float)
    K /= K.sum()
    near(call(bc.get_kernel, n, case["window"]), K, "box-kernel", f"{case}", rtol=1e-9, atol=1e-15)
    full = np.zeros([d + n - 1 for d in D.shape])
    for o in itertools.product(range(n), repeat=3):
        full[tuple(slice(a, a + d) for a, d in zip(o, D.shape))] += K[o] * D
    sm = full[tuple(slice((n - 1) // 2, (n - 1) // 2 + d) for d in D.shape)]
    out = []
    for q in (1, 2, 3):
        g = call(bc.box_count_sliding, D, n, q, window=case["window"])
        near(g, (sm ** q).sum(), "box-sum", f"{case} q={q}", rtol=1e-8)
        out.append(float(g))
    if case["window"] == "ball":
        near(call(bc.box_count_sliding, D, n, 2), (sm ** 2).sum(), "box-sum", f"{case} default window", rtol=1e-8)
    core.must_raise(bc.box_count_sliding, D, n, 2, window="disc", kind="box-window", what="unknown window")
    return digest(*out)


# boxes of everyday size against scipy.ndimage
def cases_real(tier):
    for sh in [(40, 33, 28), (90, 7, 12), (150, 61)]:
        for k in range(4):
            yield {"shape": list(sh), "k": k}


def check_real(case):
    from scipy import ndimage
    import tools21cm.box_counting as bc
    sh, k = case["shape"], case["k"]
    nd = len(sh)
    A = core.field(sh, k) > (0.1, 0.3, 0.02, 0.6)[k]
    n = (5, 3, 7, 3)[k]
    g = np.indices((n,) * nd) - n // 2
    B = ((g ** 2).sum(0) <= (n // 2) ** 2).astype(int) if k % 2 == 0 else (core.field((n,) * nd, 5) > 0.6).astype(int)
    op = one(A, B, k)
    if nd == 3:
        D = core.field(sh, k)
        for size, w in ((4, "cube"), (7, "ball"), (6, "ball"), (9, "cube")):
            K = call(bc.get_kernel, size, w)
            sm = ndimage.convolve(D, K, mode="constant", origin=0 if size % 2 else -1)
            for q in (1, 2):
                near(call(bc.box_count_sliding, D, size, q, window=w), (sm ** q).sum(), "box-sum", f"{case} size {size} {w} q={q}", rtol=1e-8)
    return digest(op)


SUITES = [
    FnSuite("morphology", cases_all2d, check_all2d, "all binary images of 4-5 small 2D shapes x 9 structures; all 3x3 structures x 6 images"),
    FnSuite("morphology3d", cases_3d, check_3d, "3 boxes x 4 filling fractions x 6 structures"),
    FnSuite("symmetries", cases_sym, check_sym, "all augmentation modes x cube sizes x fields with exactly equivariant networks"),
    FnSuite("boxcount", cases_box, check_box, "3 boxes x window sizes 1-5 x windows x moments"),
    FnSuite("realistic", cases_real, check_real, "boxes of up to 37000 cells x 4 fillings x structures of up to 7 cells across; box counts of 4 windows", chunk=1),
]
