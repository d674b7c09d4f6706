"""Region labelling: friends-of-friends labels are exactly the connected regions; size lists and size distributions count each once."""
import itertools
import numpy as np
from mc import core
from mc.core import FnSuite, Fail, call, eq, near, expect, digest

TITLE = "region labelling and size distributions"
ASSUMPTIONS = ["real-valued fields are represented by binary fields plus two-level fields with values equal to / around the threshold"]


def offsets(nd, conn):
    return [o for o in itertools.product((-1, 0, 1), repeat=nd) if any(o) and sum(map(abs, o)) <= conn]


def ref_regions(M, conn):
    """set of frozensets of cells (flood fill on an open, i.e. non periodic, grid)"""
    todo = set(map(tuple, np.argwhere(M).tolist()))
    offs = offsets(M.ndim, conn)
    out = []
    while todo:
        st = [todo.pop()]
        reg = set(st)
        while st:
            p = st.pop()
            for o in offs:
                q = tuple(a + b for a, b in zip(p, o))
                if q in todo:
                    todo.discard(q)
                    reg.add(q)
                    st.append(q)
        out.append(frozenset(reg))
    return out


def verify(lab, sizes, M, conn, what):
    lab = np.asarray(lab)
    expect(lab.shape == M.shape, "shape", f"{what}: label map shape {lab.shape}")
    regs = ref_regions(M, conn)
    expect(set(np.unique(lab).tolist()) - {0} == set(range(1, len(regs) + 1)), "labels",
           lambda: f"{what}: labels {np.unique(lab).tolist()} for {len(regs)} regions; field {M.astype(int).tolist()}")
    expect(bool(np.all((lab > 0) == M)), "membership", lambda: f"{what}: labelled cells differ from the selected cells; field {M.astype(int).tolist()} labels {lab.tolist()}")
    for r in regs:
        ls = {int(lab[c]) for c in r}
        expect(len(ls) == 1 and int((lab == next(iter(ls))).sum()) == len(r), "partition",
               lambda: f"{what}: region {sorted(r)} is not exactly one label; field {M.astype(int).tolist()} labels {lab.tolist()}")
    want = [int((lab == i + 1).sum()) for i in range(len(regs))]
    expect(list(np.asarray(sizes).tolist()) == want, "sizes", lambda: f"{what}: sizes {np.asarray(sizes).tolist()} expected {want}; field {M.astype(int).tolist()}")
    return tuple(sorted(want))


def fields(shape, lo, hi):
    n = int(np.prod(shape))
    for b in range(lo, min(hi, 1 << n)):
        yield np.array([(b >> i) & 1 for i in range(n)], dtype=np.int64).reshape(shape)


def blocks(shape, size):
    n = 1 << int(np.prod(shape))
    for lo in range(0, n, size):
        yield lo, min(lo + size, n)


def cases_fof(tier):
    plan = [((4,), (1,)), ((6,), (1,)), ((3, 3), (1, 2)), ((2, 5), (1, 2)), ((2, 2, 2), (1, 2, 3)), ((1, 3, 3), (1, 3)), ((3, 2, 1), (1, 2, 3)),
            ((2, 3, 2), (1, 2, 3))]
    if tier == "thorough":
        plan += [((4, 4), (1, 2)), ((2, 2, 4), (1, 2, 3)), ((3, 5), (1, 2))]
    for sh, cs in plan:
        for c in cs:
            for lo, hi in blocks(sh, 128):
                yield {"shape": list(sh), "conn": c, "lo": lo, "hi": hi}


LEV = {"bin": (0.0, 1.0, 0.5), "tie": (0.2, 0.5, 0.5), "below": (np.nextafter(0.5, 0), 0.7, 0.5), "neg": (-3.0, -1.0, -1.0), "big": (3.0, 40.0, 20.0)}


def check_fof(case):
    b = core.t2c().bubble_stats
    seen = set()
    for k, F in enumerate(fields(case["shape"], case["lo"], case["hi"])):
        names = ["bin"] if k % 8 else list(LEV)
        for nm in names:
            lo, hi, th = LEV[nm]
            A = np.where(F == 1, hi, lo)
            if k % 16 == 8:
                A = np.asfortranarray(A)
            if k % 16 == 0:
                A = A.astype(np.float32)
                th = float(np.float32(th))
                M = A >= th
            else:
                M = F == 1
            lab, sz = call(b.fof, A, xth=th, connectivity=case["conn"])
            seen.add(verify(lab, sz, M, case["conn"], f"fof xth={th} connectivity={case['conn']} levels={nm}"))
        if k % 8 == 0:
            lab, sz = call(b.fof, F.astype(bool), connectivity=case["conn"])
            verify(lab, sz, F == 1, case["conn"], "fof on a boolean mask")
    if case["lo"] == 0 and case["conn"] == 1:
        lab, sz = call(b.fof, np.where(F == 1, 0.6, 0.4))
        verify(lab, sz, F == 1, 1, "fof with default threshold and connectivity")
    return {(tuple(case["shape"]), case["conn"], s) for s in seen}


def cases_search(tier):
    plan = [(4,), (3, 3), (2, 2, 2), (2, 4), (3, 2, 1)] + ([(2, 3, 2), (4, 3), (2, 2, 2, 1)] if tier == "thorough" else [(2, 5)])
    for sh in plan:
        for lo, hi in blocks(sh, 64):
            yield {"shape": list(sh), "lo": lo, "hi": hi}


def check_search(case):
    from tools21cm.Friends_of_Friends import FoF_search
    seen = set()
    for k, F in enumerate(fields(case["shape"], case["lo"], case["hi"])):
        for lo, hi, th in ((0.0, 1.0, 0.5), (0.5, 0.7, 0.5), (-2.0, 30.0, 4)):
            A = np.where(F == 1, hi, lo)
            lab, sz = call(FoF_search, A, th)
            seen.add(verify(lab, sz, F == 1, 1, f"FoF_search threshold={th}"))
    return {(tuple(case["shape"]), s) for s in seen}


# larger generic fields (no enumeration of all fields: a fixed family that percolates, touches faces, has many regions)
def cases_large(tier):
    for sh in [(9, 8), (7, 6, 5), (12, 3, 9), (40,)] + ([(16, 16, 16)] if tier == "thorough" else []):
        for s in range(4):
            for q in (0.0, 0.15, 0.35, 0.55, 0.8, 1.0):
                yield {"shape": list(sh), "salt": s, "frac": q}


def check_large(case):
    b = core.t2c().bubble_stats
    from tools21cm.Friends_of_Friends import FoF_search
    A = core.field(case["shape"], case["salt"])
    th = 2.0 if case["frac"] == 0 else float(np.quantile(A, 1 - case["frac"]))
    obs = []
    for c in range(1, A.ndim + 1):
        lab, sz = call(b.fof, A, xth=th, connectivity=c)
        obs.append(verify(lab, sz, A >= th, c, f"fof large {case} connectivity {c}"))
    lab, sz = call(FoF_search, A, th)
    verify(lab, sz, A > th, 1, f"FoF_search large {case}")
    return obs


# ---- size distributions
def ref_hist(x, bins):
    lo, hi = x.min(), x.max()
    if lo == hi:
        lo, hi = lo - 0.5, hi + 0.5
    e = np.linspace(lo, hi, bins + 1)
    c = np.zeros(bins)
    for v in x:
        i = int(np.searchsorted(e, v, side="right")) - 1
        c[min(max(i, 0), bins - 1)] += 1
    return c, e


def cases_dist(tier):
    vals = [1, 2, 3, 8, 27, 1000]
    n = 3 if tier == "quick" else 4
    for k in range(1, n + 1):
        for c in itertools.combinations_with_replacement(vals, k):
            yield {"sizes": list(c)}


def check_dist(case):
    b = core.t2c().bubble_stats
    sz = case["sizes"]
    v = np.array(sz, dtype=float)
    r = (3 * v / 4 / np.pi) ** (1 / 3.)
    out = []
    for bins in (1, 2, 5, 100):
        for res in (1., 0.5, 3.2):
            for nf in (None, 1e-9):
                vs, dv, rs, dr = call(b.dist_from_volumes, sz if bins != 5 else v, resolution=res, bins=bins, null_factor=nf)
                cv, ev = ref_hist(np.log10(v), bins)
                cr, er = ref_hist(np.log10(r), bins)
                near(vs, 10 ** ev * res ** 3, "volumes", f"volume edges sizes={sz} bins={bins} res={res}", rtol=1e-9)
                near(rs, 10 ** er * res, "radii", f"radius edges sizes={sz} bins={bins} res={res}", rtol=1e-9)
                wv = np.append(cv / len(sz), 0.)
                lowv = wv[wv > 0].min() / 1000. if nf is None else nf
                wv[wv == 0] = lowv
                near(dv, wv, "Pv", f"volume distribution sizes={sz} bins={bins}", rtol=1e-9)
                wr = np.append(0., cr / len(sz))
                wr[0] = wr[wr > 0].min() / 1000. if nf is None else nf
                near(dr, wr, "Pr", f"radius distribution sizes={sz} bins={bins}", rtol=1e-9, atol=1e-15)
        # from the list of sizes
        s2, d2, v2 = call(b.get_distribution, v, resolution=2.5, bins=bins, sizes=True)
        c, e = ref_hist(np.log(v), bins)
        near(d2, np.append(c, 0) / len(sz), "dist", f"get_distribution(sizes) {sz} bins={bins}", rtol=1e-9)
        near(v2, np.exp(e) * 2.5, "dist-vols", f"get_distribution(sizes) {sz}", rtol=1e-9)
        for bs, norm in ((10., "box"), (10., "ionized"), (7000., "box")):
            xx, zz, dm = call(b.plot_fof_sizes, sz, bins=bins, boxsize=bs, normalize=norm)
            c, e = ref_hist(np.log10(v), bins)
            yy = c * 10 ** e[:-1]
            w = yy / yy.sum() if norm == "ionized" else yy / bs ** 3
            dmy = w[w > 0].min() / 10.
            w[w == 0] = dmy
            near(xx, 10 ** e, "plot-x", f"plot_fof_sizes {sz}", rtol=1e-9)
            near(zz, np.append(w, dmy), "plot-y", f"plot_fof_sizes {sz} {norm}", rtol=1e-9, atol=0)
            near(dm, dmy, "plot-low", f"plot_fof_sizes {sz} {norm}", rtol=1e-9, atol=0)
        out.append(digest(dv, dr))
    # from a label map
    if sum(sz) <= 4000:
        lab = np.zeros(sum(sz) + 5, dtype=int)
        p = 2
        for i, s in enumerate(sz):
            lab[p:p + s] = i + 1
            p += s
        if sum(sz) > 40:        # regions larger than the largest label its type can hold
            lab = lab.astype("u1")
        s3, d3, v3 = call(b.get_distribution, lab, bins=4)
        eq(s3, v, "label-sizes", f"get_distribution(label map) sizes {sz}")
        c, e = ref_hist(np.log(v), 4)
        near(d3, np.append(c, 0) / len(sz), "dist", f"get_distribution(label map) {sz}", rtol=1e-9)
        near(v3, np.exp(e), "dist-vols", f"get_distribution(label map) {sz}", rtol=1e-9)
    return out


# boxes of everyday size: thousands of regions (counters must not overflow), long axes
def cases_real(tier):
    for sh in [(42, 42, 42), (300, 17), (5, 160, 11), (50, 41, 23)] + ([(80, 80, 80)] if tier == "thorough" else []):
        for k in range(4):
            yield {"shape": list(sh), "k": k}


def check_real(case):
    from scipy import ndimage
    from tools21cm.Friends_of_Friends import FoF_search
    b = core.t2c().bubble_stats
    sh, k = case["shape"], case["k"]
    M = np.indices(sh).sum(0) % 2 == 0 if k == 3 else core.field(sh, k) > (0.8, 0.55, 0.97)[k]
    A = np.where(M, 0.9, 0.1)
    out = []
    for conn in (1, len(sh), 0):
        L, n = ndimage.label(M, ndimage.generate_binary_structure(len(sh), max(conn, 1)))
        lab, sz = call(b.fof, A, xth=0.5, connectivity=conn) if conn else call(FoF_search, A, 0.5)
        lab = np.asarray(lab)
        what = f"{'fof' if conn else 'FoF_search'} {case} connectivity {conn}"
        expect(lab.shape == M.shape and bool(np.all((lab > 0) == M)), "membership", f"{what}: labelled cells differ from the selected cells")
        pairs = np.unique(np.stack([L[M], lab[M]], 1), axis=0)
        expect(len(pairs) == n and len(np.unique(pairs[:, 1])) == n and lab.max() == n, "partition", f"{what}: {len(pairs)} pairs of labels for {n} regions, largest label {lab.max()}")
        w = np.bincount(lab[M].astype(np.int64), minlength=n + 1)[1:]
        eq(np.asarray(sz), w, "sizes", f"{what}: sizes")
        out.append((n, int(w.max())))
        if conn == 1:
            v = w.astype(float)
            s3, d3, v3 = call(b.get_distribution, lab, bins=7)
            eq(s3, v, "label-sizes", f"{what}: get_distribution sizes")
            c, e = ref_hist(np.log(v), 7)
            near(d3, np.append(c, 0) / n, "dist", f"{what}: get_distribution", rtol=1e-9)
            vs, dv, rs, dr = call(b.dist_from_volumes, v, bins=7)
            c, e = ref_hist(np.log10(v), 7)
            near(vs, 10 ** e, "volumes", f"{what}: dist_from_volumes", rtol=1e-9)
            near(dv[:-1][c > 0], (c / n)[c > 0], "Pv", f"{what}: dist_from_volumes", rtol=1e-9)
    return out


SUITES = [
    FnSuite("fof", cases_fof, check_fof, "all binary fields of the listed 1D/2D/3D shapes x all connectivities; level/threshold ties, dtypes, layouts on every 8th"),
    FnSuite("fof_search", cases_search, check_search, "all binary fields of the listed shapes x 3 level sets"),
    FnSuite("large", cases_large, check_large, "generic fields of larger boxes at 6 filling fractions", chunk=2),
    FnSuite("distributions", cases_dist, check_dist, "all multisets of up to 3 (thorough 4) region sizes from 6 values x bins x resolution x normalisation"),
    FnSuite("realistic", cases_real, check_real, "boxes of up to 74000 (thorough 512000) cells with up to 37044 regions, compared with scipy's labelling", chunk=1),
]
