"""Region identification (thresholds, k-means, superpixels)."""
import itertools
import numpy as np
from mc import core
from mc.core import FnSuite, Fail, call, eq, near, expect, digest

TITLE = "region identification and superpixels"
ASSUMPTIONS = ["skimage's triangle/Otsu thresholds and SLIC segmentation are trusted; labels are 0..n-1 as SLIC returns them",
               "k-means is checked on data whose clusters are unambiguous"]


def I():
    from tools21cm import identify_regions
    return identify_regions


def S():
    from tools21cm import superpixels
    return superpixels


VALS = (-1.0, 0.0, 0.5, 2.0)


def cases_fixed(tier):
    for sh in [(4,), (2, 2), (1, 2, 2)]:
        for blk in range(4):
            yield {"shape": list(sh), "blk": blk}


def check_fixed(case):
    seen = set()
    for t in itertools.product(VALS, repeat=3):
        A = np.array((VALS[case["blk"]],) + t).reshape(case["shape"])
        for th in (0, 0.5, -1.0, 3.0, 0.25, -2.):
            for dt in (np.float64, np.float32):
                D = A.astype(dt)
                for up in (True, False):
                    m = call(I().bubbles_from_fixed_threshold, D, threshold=th, upper_lim=up)
                    eq(np.asarray(m).astype(bool), (D <= th) if up else (D >= th), "fixed", f"threshold {th} upper_lim={up} on {D.tolist()}")
        m = call(I().bubbles_from_fixed_threshold, A)
        eq(np.asarray(m).astype(bool), A <= 0, "fixed-default", "default threshold")
        seen.add(tuple((A <= 0).ravel()))
    return seen


def cases_tri(tier):
    for sh in [(6, 7, 5), (4, 4, 8), (9, 3, 5)]:
        for s in range(4 if tier == "quick" else 12):
            for nb in (256, 16):
                yield {"shape": list(sh), "salt": s, "nbins": nb}


def check_tri(case):
    from skimage.filters import threshold_triangle as tt
    A = core.field(case["shape"], case["salt"]) ** (1 + case["salt"]) * 30 - 5
    if case["salt"] % 2:
        A = -A
    nb = case["nbins"]
    t = tt(A, nbins=nb)
    i = np.abs(A - t).argmin()
    A.ravel()[i] = t                    # put a cell exactly on the threshold
    out = []
    for up in (True, False):
        t = tt(A, nbins=nb)
        m = call(I().bubbles_from_triangle3D, A, upper_lim=up, nbins=nb)
        eq(np.asarray(m).astype(bool), (A <= t) if up else (A >= t), "triangle3D", f"{case} upper_lim={up}")
        for ax in (0, 1, 2, -1, -2, -3):
            t2 = np.median([tt(x, nbins=nb) for x in np.moveaxis(A, ax, 0)])
            m = call(I().bubbles_from_triangle2D, A, upper_lim=up, nbins=nb, loc_axis=ax)
            eq(np.asarray(m).astype(bool), (A <= t2) if up else (A >= t2), "triangle2D", f"{case} upper_lim={up} axis={ax}")
            out.append(float(t2))
        m = call(I().bubbles_from_triangle2D, A, upper_lim=up, nbins=nb)
        t2 = np.median([tt(A[:, :, i], nbins=nb) for i in range(A.shape[2])])
        eq(np.asarray(m).astype(bool), (A <= t2) if up else (A >= t2), "triangle2D", f"{case} upper_lim={up} default axis")
    return digest(*out)


# k-means on unambiguous data: all assignments of 2 / 3 levels to few cells, embedded in a box
def cases_km(tier):
    for nl in (1, 2, 3):
        for c in itertools.product(range(nl), repeat=5):
            if len(set(c)) == nl:
                yield {"levels": nl, "assign": list(c)}


def check_km(case):
    nl = case["levels"]
    out = []
    for k, lev in enumerate([(0., 10., 30.), (-20., -3., 0.), (0.01, 0.5, 0.99)]):
        cells = [lev[i] for i in case["assign"]] + [lev[i % nl] for i in range(7)]
        A = np.array(cells).reshape((3, 2, 2))
        if k == 1:
            A = A.astype(np.float32)
        used = np.array([lev[i] for i in range(nl)], dtype=A.dtype)
        for up in (True, False):
            for nc in (3, 2):
                if nl == 3 and nc == 2:
                    continue
                m = np.asarray(call(I().bubbles_from_kmeans, A, upper_lim=up, n_clusters=nc))
                want = np.ones(A.shape) if nl == 1 else (A == (used.min() if up else used.max()))
                eq(m.astype(float), np.asarray(want).astype(float), "kmeans", f"{case} levels {used.tolist()} upper_lim={up} n_clusters={nc}")
                out.append(int(m.sum()))
            if nl == 2:
                m, t = call(I().threshold_kmeans, A, upper_lim=up)
                near(t, used.astype(float).mean(), "kmeans-thres", f"{case} levels {used.tolist()}", rtol=1e-6, atol=1e-9)
        m = np.asarray(call(I().bubbles_from_kmeans, A))
        eq(m.astype(float), np.asarray(np.ones(A.shape) if nl == 1 else A == used.min()).astype(float), "kmeans-default", f"{case}")
    # tight clusters rather than single values
    if nl == 3:
        lev = (0., 10., 30.)
        A = np.array([lev[i] + 1e-3 * j for j, i in enumerate(case["assign"] + [0, 1, 2])]).reshape((2, 2, 2))
        for up in (True, False):
            m = np.asarray(call(I().bubbles_from_kmeans, A, upper_lim=up))
            eq(m.astype(bool), (A < 1) if up else (A > 25), "kmeans", f"clusters {A.ravel().tolist()} upper_lim={up}")
    return (nl, tuple(out[:2]))


# superpixel statistics for every labelling of a few cells
def labelings(n, kmax):
    def rec(p, m):
        if len(p) == n:
            yield p
            return
        for v in range(min(m + 1, kmax - 1) + 1):
            yield from rec(p + [v], max(m, v))
    yield from rec([0], 0)


def cases_sp(tier):
    n = 6 if tier == "quick" else 8
    for k, l in enumerate(labelings(n, 4)):
        yield {"labels": l}
    yield {"labels": [2, 0, 1, 1, 0, 2, 2, 3]}
    yield {"labels": [1, 1, 0, 0, 0, 2]}


def otsu_ok(v):
    return len(np.unique(v)) > 1


def check_sp(case):
    s = S()
    l = case["labels"]
    n = len(l)
    shp = (2, n // 2) if sum(l) % 2 else (1, n // 2, 2)
    L = np.array(l).reshape(shp)
    k = L.max() + 1
    obs = []
    for salt in (0, 1):
        D = core.field(shp, salt) * 20 - 8
        if salt:
            D = np.round(D)
        segs = [D[L == i] for i in range(k)]
        mn = np.array([x.mean() for x in segs])
        sd = np.array([x.std() for x in segs])
        near(call(s.get_superpixel_means, D, labels=L, verbose=False), mn, "sp-means", f"labels {l}", rtol=1e-9, atol=1e-12)
        near(call(s.get_superpixel_sigmas, D, labels=L, verbose=False), sd, "sp-sigmas", f"labels {l}", rtol=1e-9, atol=1e-12)
        eq(call(s.get_superpixel_n_pixels, D, labels=L, verbose=False), [len(x) for x in segs], "sp-npix", f"labels {l}")
        px = call(s.get_superpixel_pixels, D, labels=L, verbose=False)
        expect(len(px) == k and all(sorted(np.asarray(a).tolist()) == sorted(b.tolist()) for a, b in zip(px, segs)), "sp-pixels", f"labels {l}: pixels {px}")
        M = mn[L]
        near(call(s.superpixel_map, D, L, verbose=False), M, "sp-map", f"labels {l}", rtol=1e-9, atol=1e-12)
        near(call(s.superpixel_map, D, L), M, "sp-map", f"labels {l} verbose", rtol=1e-9, atol=1e-12)
        near(call(s.superpixel_map, D, L, mns=mn * 2 + 1, verbose=False), M * 2 + 1, "sp-map", f"labels {l} with given values", rtol=1e-9, atol=1e-12)
        for v in (True, False):
            near(call(s.apply_operator_labelled_data, D, L, operator=np.max, verbose=v), [x.max() for x in segs], "sp-op", f"labels {l}", rtol=1e-12)
        # thresholds on superpixel means
        for th in (None, 0, 0.0, -3.0, 5.5):
            t = D.mean() if th is None else th
            if np.abs(mn - t).min() < 1e-9:
                continue
            m = call(s.binary_stitch, D, L, thres=th)
            eq(np.asarray(m).astype(bool), M < t, "sp-stitch", f"binary_stitch labels {l} thres={th} means {mn.tolist()}")
        if otsu_ok(mn):
            from skimage.filters import threshold_otsu
            t = threshold_otsu(mn)
            if np.abs(mn - t).min() > 1e-9:
                eq(np.asarray(call(s.binary_stitch, D, L, stitch="otsu")).astype(bool), M < t, "sp-stitch", f"binary_stitch otsu labels {l}")
        for bins in (2, 3, 5, 4, 7, 9):
            t = ref_hist_threshold(mn, bins)
            if t is None or np.abs(mn - t).min() < 1e-9 or np.abs(D - t).min() < 1e-9:
                continue
            near(call(s.stitch_superpixels, D, L, bins=bins, binary=False, verbose=False), t, "sp-thres", f"stitching threshold labels {l} bins {bins}", rtol=1e-9)
            eq(np.asarray(call(s.stitch_superpixels, D, L, bins=bins, verbose=False)).astype(bool), M < t, "sp-stitch", f"stitched labels {l} bins {bins}")
            eq(np.asarray(call(s.stitch_superpixels, D, L, bins=bins, on_superpixel_map=False, verbose=False)).astype(bool), D < t, "sp-stitch", f"stitched data labels {l} bins {bins}")
        # SNR table sorted by mean
        if (sd > 0).all():
            o = np.argsort(mn)
            r = call(s.get_superpixel_SNRs, means=mn, sigmas=sd, n_pix=np.array([len(x) for x in segs]))
            near(r[0], (mn / sd)[o], "sp-snr", f"labels {l}", rtol=1e-9)
            near(r[1], mn[o], "sp-snr", f"labels {l}", rtol=1e-9)
            near(r[2], sd[o], "sp-snr", f"labels {l}", rtol=1e-9)
            eq(r[3], np.array([len(x) for x in segs])[o], "sp-snr", f"labels {l}")
            r = call(s.get_superpixel_SNRs, data=D, labels=L, pixels=True)
            near(r[1], mn[o], "sp-snr", f"labels {l} from data", rtol=1e-9)
            expect(all(sorted(np.asarray(a).tolist()) == sorted(segs[i].tolist()) for a, i in zip(r[4], o)), "sp-snr", f"labels {l}: pixels not in SNR order")
            for th in (0, 0.5, 1.0):
                snr = mn / sd
                sel = snr < 0 if th <= 0 else snr < -th
                g = call(s.mean_estimate, D, means=mn, sigmas=sd, n_pix=np.array([len(x) for x in segs]), SNR_thres=th)
                if not sel.any():
                    eq(g, (0, 0), "sp-estimate", f"labels {l}: no significant superpixel")
                elif sum(len(x) for x, c in zip(segs, sel) if c) > 1:
                    nn = np.array([len(x) for x in segs])[sel]
                    a = np.abs(mn[sel])
                    m0 = (a * nn).sum() / nn.sum()
                    s0 = np.sqrt((((nn - 1) * sd[sel] ** 2).sum() + (nn * (a - m0) ** 2).sum()) / (nn.sum() - 1))
                    near(g, (m0, s0), "sp-estimate", f"labels {l} SNR_thres {th}", rtol=1e-9)
        # combining per-segment sample statistics gives the statistics of the whole sample
        if all(len(x) > 1 for x in segs):
            g = call(s.get_combined_mean_std, mn, np.array([x.std(ddof=1) for x in segs]), np.array([len(x) for x in segs]))
            near(g, (D.mean(), D.std(ddof=1)), "sp-combine", f"labels {l}", rtol=1e-9)
        for i in range(k):
            eq(call(s.see_label, L, i), (L == i).astype(float), "sp-see", f"labels {l} label {i}")
        eq(call(s.see_label, L, k + 3), np.zeros(L.shape), "sp-see", "absent label")
        obs.append(digest(mn))
    if len(shp) == 3:
        for t in itertools.islice(labelings(n, 3), 0, None, 7):
            T = np.array(t).reshape(shp)
            for b in (0.25, 0.5, 0.1):
                uu = sum((L == j).sum() for i in np.unique(T) for j in range(k) if ((T == i) & (L == j)).sum() > b * (L == j).sum())
                near(call(s.under_segmentation_error, L, T, b=b, verbose=False), (uu - L.size) / L.size, "sp-use", f"labels {l} truth {t} b={b}", rtol=1e-9, atol=1e-12)
    else:
        from skimage.segmentation import mark_boundaries
        D = core.field(shp, 2)
        bd = mark_boundaries(np.zeros(shp), L)[:, :, 0] == 1
        w = D.copy()
        w[bd] = D.max() * 1.01
        w2 = D.copy()
        w2[0, 0] = D.max() * 1.3
        near(call(s.boundaries, D, L, mark=False, factor=1.3), w2, "sp-bound", f"labels {l} unmarked", rtol=1e-12)
        near(call(s.boundaries, D, L), w, "sp-bound", f"labels {l}", rtol=1e-12)
    return obs


def ref_hist_threshold(mns, bins):
    from skimage.filters import threshold_otsu
    h, e = np.histogram(mns, bins=bins)
    x = np.hstack((0, h)) if h.argmax() == 0 else h
    pk = [i for i in range(1, len(x) - 1) if x[i] > x[i - 1] and x[i] > x[i + 1]]
    if len(pk) == 1 and h.argmax() > 0:
        b = h.argmax()
        m0 = (h[b] - h[0]) / (e[b] - e[0])
        d = [abs((h[i] - h[0]) - m0 * (e[i] - e[0])) for i in range(b)]
        d = np.array(d)
        if len(d) > 1 and np.sort(d)[-1] - np.sort(d)[-2] < 1e-9:
            return None
        i = int(d.argmax())
        return (e[i] + e[i + 1]) / 2
    if len(np.unique(mns)) == 1:
        return None
    return threshold_otsu(mns)


# SLIC based identification end to end
def cases_slic(tier):
    for sh in [(10, 10, 10), (8, 12, 9)]:
        for s in range(3 if tier == "quick" else 8):
            for n in (20, 60, 200):
                for bins in ("knuth", 8):
                    yield {"shape": list(sh), "salt": s, "n": n, "bins": bins}


def check_slic(case):
    sh = case["shape"]
    x = np.indices(sh)
    c = [d * (0.4 + 0.05 * case["salt"]) for d in sh]
    r2 = sum((x[i] - c[i]) ** 2 for i in range(3))
    D = np.where(r2 < (2.5 + case["salt"]) ** 2, 0., 20.) + 4 * core.field(sh, case["salt"])
    D -= D.mean()
    L = call(S().slic_cube, D, n_segments=case["n"], verbose=False)
    L = np.asarray(L)
    expect(L.shape == tuple(sh), "slic-shape", f"{case}: {L.shape}")
    eq(np.unique(L), np.arange(L.max() + 1), "slic-labels", f"{case}: labels are not 0..n-1")
    m = np.asarray(call(I().bubbles_from_slic, D, n_segments=case["n"], bins=case["bins"], verbose=False)).astype(bool)
    mn = np.array([D[L == i].mean() for i in range(L.max() + 1)])
    sel = np.array([m[L == i].mean() for i in range(L.max() + 1)])
    expect(bool(np.all((sel == 0) | (sel == 1))), "slic-super", f"{case}: a superpixel is only partly selected")
    if (sel == 1).any() and (sel == 0).any():
        expect(mn[sel == 1].max() < mn[sel == 0].min(), "slic-thres", f"{case}: selection is not a threshold on the superpixel means")
    eq(m, np.asarray(call(S().stitch_superpixels, D, L, bins=case["bins"], verbose=False)).astype(bool), "slic-compose", f"{case}")
    return (L.max(), int(m.sum()))


def cases_est(tier):
    for z in (5., 6.5, 9., 12.):
        for d in (0., 10., 27., -4.):
            yield {"z": z, "dT": d}


def check_est(case):
    near(call(S().xfrac_mass_estimate, case["dT"], case["z"]), 1 - case["dT"] / (27 * np.sqrt((1 + case["z"]) / 10)), "xf-mass", f"{case}", rtol=1e-9, atol=1e-12)
    m = core.field((3, 4)) > 0.1 * case["z"] / 2
    near(call(S().xfrac_volume_estimate, m), m.sum() / 12., "xf-vol", f"{case}", rtol=1e-12)
    return case["z"]


def cases_snr(tier):
    for n in (1, 2, 3, 4, 5):
        for p in itertools.permutations(range(n)):
            for sizes in ([2, 3, 4, 5, 6], [4, 2, 6, 3, 5]):
                for sh in ("1d", "2d"):
                    yield {"p": list(p), "sizes": sizes[:n], "sh": sh}


def check_snr(case):
    """the SNR table keeps the columns of every superpixel together, sorted by mean, for every order of means"""
    p, sz = case["p"], case["sizes"]
    segs = [10. * (m + 1) - 25 + (m + 1 + .3 * i) * np.where(np.arange(k) % 2, 1, -1) + .01 * np.arange(k) for i, (m, k) in enumerate(zip(p, sz))]
    D, L = np.concatenate(segs), np.concatenate([np.full(k, i) for i, k in enumerate(sz)])
    mix = np.argsort(core.field((len(D),), 3))
    D, L = D[mix], L[mix]
    if case["sh"] == "2d":
        D, L = D[None], L[None]
    mn, sd, nn = [np.array([f(x) for x in segs]) for f in (np.mean, np.std, len)]
    o = np.argsort(mn)
    f = S().get_superpixel_SNRs
    for kw in ({"data": D, "labels": L}, {"means": mn, "sigmas": sd, "n_pix": nn}, {"data": D, "labels": L, "pixels": True}, {"means": mn, "data": D, "labels": L}):
        r = call(f, **kw)
        near(r[0], (mn / sd)[o], "snr-table", f"{case} {sorted(kw)}", rtol=1e-9)
        near(r[1], mn[o], "snr-table", f"{case} {sorted(kw)}", rtol=1e-9)
        near(r[2], sd[o], "snr-table", f"{case} {sorted(kw)}", rtol=1e-9)
        eq(r[3], nn[o], "snr-table", f"{case} {sorted(kw)}")
        if kw.get("pixels"):
            expect(len(r[4]) == len(segs) and all(sorted(np.asarray(a).tolist()) == sorted(segs[i].tolist()) for a, i in zip(r[4], o)), "snr-table", f"{case}: pixels not in SNR order")
    return digest(mn[o])


# many superpixels, cubes of everyday size (vectorised reference)
def cases_real(tier):
    for sh in [(24, 24, 24), (60, 50), (30, 21, 17)] + ([(48, 48, 48)] if tier == "thorough" else []):
        for nl in (40, 300, 1500):
            for s in range(2):
                yield {"shape": list(sh), "nl": nl, "salt": s}


def check_real(case):
    from skimage.filters import threshold_otsu
    s = S()
    sh, nl = case["shape"], case["nl"]
    n = int(np.prod(sh))
    L = (np.arange(n) * nl // n).reshape(sh)
    if case["salt"]:
        L = np.argsort(core.field((nl,), 4))[L]              # labels in no spatial order
    lev = np.where(core.field((nl,), 7) < 0.35, -4., 12.) + core.field((nl,), 8)
    D = lev[L] + 5 * core.field(sh, 2)
    cnt = np.bincount(L.ravel())
    mn = np.bincount(L.ravel(), D.ravel()) / cnt
    sd = np.sqrt(np.bincount(L.ravel(), (D.ravel() - mn[L.ravel()]) ** 2) / cnt)
    near(call(s.get_superpixel_means, D, labels=L, verbose=False), mn, "sp-means", f"{case}", rtol=1e-9, atol=1e-10)
    near(call(s.get_superpixel_sigmas, D, labels=L, verbose=False), sd, "sp-sigmas", f"{case}", rtol=1e-9, atol=1e-10)
    eq(call(s.get_superpixel_n_pixels, D, labels=L, verbose=False), cnt, "sp-npix", f"{case}")
    near(call(s.superpixel_map, D, L, verbose=False), mn[L], "sp-map", f"{case}", rtol=1e-9, atol=1e-10)
    px = call(s.get_superpixel_pixels, D, labels=L, verbose=False)
    o = np.argsort(L.ravel(), kind="stable")
    near(np.concatenate([np.sort(p) for p in px]), np.concatenate([np.sort(p) for p in np.split(D.ravel()[o], np.cumsum(cnt)[:-1])]), "sp-pixels", f"{case}", rtol=1e-12)
    for th in (None, 2.0):
        t = D.mean() if th is None else th
        eq(np.asarray(call(s.binary_stitch, D, L, thres=th)).astype(bool), mn[L] < t, "sp-stitch", f"binary_stitch {case} thres={th}")
    t = threshold_otsu(mn)
    eq(np.asarray(call(s.binary_stitch, D, L, stitch="otsu")).astype(bool), mn[L] < t, "sp-stitch", f"binary_stitch otsu {case}")
    for bins in (10, 100):
        t = ref_hist_threshold(mn, bins)
        if t is None or np.abs(mn - t).min() < 1e-9:
            continue
        near(call(s.stitch_superpixels, D, L, bins=bins, binary=False, verbose=False), t, "sp-thres", f"{case} bins {bins}", rtol=1e-9)
        eq(np.asarray(call(s.stitch_superpixels, D, L, bins=bins, verbose=False)).astype(bool), mn[L] < t, "sp-stitch", f"{case} bins {bins}")
    o = np.argsort(mn)
    r = call(s.get_superpixel_SNRs, data=D, labels=L)
    for a, w in zip(r, (mn / sd, mn, sd, cnt)):
        near(a, w[o], "sp-snr", f"{case}", rtol=1e-8)
    for th in (0.0, 1.0, 2.5):
        sel = mn / sd < 0 if th <= 0 else mn / sd < -th
        if cnt[sel].sum() > 1:
            a, nn = np.abs(mn[sel]), cnt[sel]
            m0 = (a * nn).sum() / nn.sum()
            near(call(s.mean_estimate, D, means=mn, sigmas=sd, n_pix=cnt, SNR_thres=th),
                 (m0, np.sqrt((((nn - 1) * sd[sel] ** 2).sum() + (nn * (a - m0) ** 2).sum()) / (nn.sum() - 1))), "sp-estimate", f"{case} SNR {th}", rtol=1e-8)
    if (cnt > 1).all():
        near(call(s.get_combined_mean_std, mn, sd * np.sqrt(cnt / (cnt - 1.)), cnt), (D.mean(), D.std(ddof=1)), "sp-combine", f"{case}", rtol=1e-9)
    if len(sh) == 3:
        from skimage.filters import threshold_triangle as tt
        for up in (True, False):
            t = tt(D, nbins=256)
            eq(np.asarray(call(I().bubbles_from_triangle3D, D, upper_lim=up)).astype(bool), (D <= t) if up else (D >= t), "triangle3D", f"{case} upper_lim={up}")
            for ax in (0, 1, 2):
                t = np.median([tt(x, nbins=256) for x in np.moveaxis(D, ax, 0)])
                eq(np.asarray(call(I().bubbles_from_triangle2D, D, upper_lim=up, loc_axis=ax)).astype(bool), (D <= t) if up else (D >= t), "triangle2D", f"{case} upper_lim={up} axis {ax}")
        for nc in (3, 2):
            E = np.where(D < 4, D * .01, D) if nc == 2 else np.where(D < 4, -100 + .01 * D, np.where(D > 16, 100 + .01 * D, .01 * D))
            for up in (True, False):
                w = (E < -50) if up else (E > 50)
                m = np.asarray(call(I().bubbles_from_kmeans, E, upper_lim=up, n_clusters=nc)).astype(bool)
                if nc == 3:
                    eq(m, w, "kmeans", f"three tight clusters {case} upper_lim={up}")
                else:
                    expect(bool(m[(D < 4) == up].all()) and not m[(D < 4) != up].any(), "kmeans", f"two clusters {case} upper_lim={up}")
    return digest(mn, cnt)


SUITES = [
    FnSuite("fixed", cases_fixed, check_fixed, "all 4-cell fields over 4 values x 6 thresholds x both senses x dtypes"),
    FnSuite("triangle", cases_tri, check_tri, "3 shapes x salts x nbins x every axis x both senses", chunk=2),
    FnSuite("kmeans", cases_km, check_km, "all assignments of 1-3 levels to 5 cells", chunk=4),
    FnSuite("superpixels", cases_sp, check_sp, "all labellings of 6 (thorough 8) cells with up to 4 labels", chunk=4),
    FnSuite("snr-table", cases_snr, check_snr, "all orders of the means of up to 5 superpixels of different sizes x 2 size orders x 2 shapes"),
    FnSuite("slic", cases_slic, check_slic, "2 boxes x salts x 3 segment counts x 2 binnings", chunk=1),
    FnSuite("estimates", cases_est, check_est, "4 redshifts x 4 temperatures"),
    FnSuite("realistic", cases_real, check_real, "40-1500 superpixels on cubes and images of up to 13824 (thorough 110592) cells, labels in and out of spatial order", chunk=1),
]
