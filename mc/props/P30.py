"""P30: plots, chain statistics and fits describe the data they were given."""
import contextlib
import io
import itertools
import re
import sys
import types

import numpy as np

from mc.core import C, Fail, FnSuite, call, eq, expect, field, must_raise, near, scratch_dir, t2c

TITLE = "Plots, chain statistics and fits show the data they were given"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "figures are drawn with matplotlib's Agg backend; corner and getdist (not installed) are replaced by stand-ins that record what they are asked to draw",
    "quantiles are linear interpolations of the cumulative weights (as implemented); where samples tie only the bracketing values are required",
]


def setup(tier):
    import matplotlib
    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt
    import pylab  # noqa
    import sklearn.metrics  # noqa
    fig = plt.figure()
    fig.add_subplot().plot([0, 1])
    fig.canvas.draw()
    plt.close("all")


@contextlib.contextmanager
def figures():
    import matplotlib.pyplot as plt
    plt.close("all")
    try:
        yield plt
    finally:
        plt.close("all")


# ---------------------------------------------------------------- weighted samples: reference

def order(x):
    return sorted(range(len(x)), key=lambda i: x[i])


def quantile(x, w, q):
    """linear interpolation of the samples over the cumulative normalised weights (distinct samples)"""
    idx = order(x)
    tot = float(sum(w))
    cum, s = [], 0.
    for i in idx:
        s += w[i] / tot
        cum.append(s)
    xs = [x[i] for i in idx]
    if q <= cum[0]:
        return xs[0]
    for k in range(1, len(xs)):
        if q <= cum[k]:
            return xs[k - 1] + (xs[k] - xs[k - 1]) * (q - cum[k - 1]) / (cum[k] - cum[k - 1])
    return xs[-1]


def flat(x, w, q):
    """the cumulative weight stays at q over several samples: the quantile is not unique"""
    idx, tot, s, hit = order(x), float(sum(w)), 0., 0
    for i in idx:
        s += w[i] / tot
        hit += abs(s - q) < 1e-9
    return hit > 1


def cdf(x, w, v):
    idx = order(x)
    tot = float(sum(w))
    cum, s = [], 0.
    for i in idx:
        s += w[i] / tot
        cum.append(s)
    xs = [x[i] for i in idx]
    if v <= xs[0]:
        return cum[0]
    for k in range(1, len(xs)):
        if v <= xs[k]:
            return cum[k - 1] + (cum[k] - cum[k - 1]) * (v - xs[k - 1]) / (xs[k] - xs[k - 1])
    return cum[-1]


def mean(x, w):
    return sum(a * b for a, b in zip(x, w)) / float(sum(w))


def covariance(P, w):
    """unbiased covariance of weighted points"""
    tot = float(sum(w))
    p = [a / tot for a in w]
    f = 1. - sum(a * a for a in p)
    d = len(P[0])
    m = [mean([q[i] for q in P], w) for i in range(d)]
    return np.array([[sum(p[k] * (P[k][i] - m[i]) * (P[k][j] - m[j]) for k in range(len(P))) / f for j in range(d)] for i in range(d)])


VALUES = (-1.5, .25, 2., 7., -3.25)
SECOND = (.5, 10., -2., 3., 1.25)
THIRD = (4., -1., 6., .5, -2.5)


def samples(n, perm, d):
    cols = [[VALUES[i] for i in perm], [SECOND[i] for i in range(n)], [THIRD[n - 1 - i] for i in range(n)]][:d]
    return np.array(cols).T.copy()


def weights(n, tier):
    return itertools.product((1, 2, 5) if n < 4 or tier == "thorough" else (1, 3), repeat=n)


# ---------------------------------------------------------------- printed statistics

def cases_stats(tier):
    for n in range(1, 5 if tier == "quick" else 6):
        for perm in itertools.permutations(range(n)):
            yield dict(n=n, perm=list(perm))


ROW = re.compile(r"^(.*?)\s*\|\s*(.*?)\s*\|\s*(\S+)\s*\|\s*\+(\S+)\s*/\s*-(\S+)\s*$")


def rows(text):
    out = []
    for line in text.splitlines():
        m = ROW.match(line)
        if m:
            out.append((m.group(1).strip(), m.group(2).strip(), float(m.group(3)), float(m.group(4)), float(m.group(5))))
    return out


def printed(f, *a, **k):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        call(f, *a, **k)
    return rows(buf.getvalue())


def check_stats(c):
    t = t2c()
    n, perm = c["n"], c["perm"]
    A, B = samples(n, perm, 2), samples(n, perm[::-1], 2) * 3 + 1
    obs = set()
    for k, w in enumerate(weights(n, "thorough" if n < 5 else "quick")):
        for scale, dt in ((1, int), (1, float), (.125, float)):
            W = (np.array(w) * scale).astype(dt)
            V = W[::-1].copy()
            for wd in ({"one": W, "two": V}, None):
                if wd is None and (k or scale != 1):
                    continue
                names = ["alpha", None if k % 2 else "beta"]
                got = printed(t.print_chain_stats, {"one": A, "two": B}, wd, names)
                want = []
                for nm, S in (("one", A), ("two", B)):
                    ww = [1.] * n if wd is None else wd[nm].tolist()
                    for i in range(2):
                        x = S[:, i].tolist()
                        m = mean(x, ww)
                        want.append((nm, names[i] or "Param %d" % i, m, quantile(x, ww, .84) - m, m - quantile(x, ww, .16)))
                eq([g[:2] for g in got], [g[:2] for g in want], "rows", f"{c} weights {w}: rows")
                near([g[2:] for g in got], [g[2:] for g in want], "statistics", f"{c} weights {w} x{scale}: mean, + and - of every chain and parameter", rtol=0, atol=1.01e-4)
        obs.add((n, tuple(perm), w))
    return obs


# ---------------------------------------------------------------- diagnostics of samples

def cases_sampled(tier):
    for n in range(2, 5 if tier == "quick" else 6):
        for perm in itertools.permutations(range(n)):
            for d in (1, 2, 3):
                yield dict(n=n, perm=list(perm), d=d)


TRUTH = (.3, 2.5, -1.)


def metrics_ok(st, P, w, truth, what):
    d = len(P[0])
    X = np.asarray(P)
    cov = covariance(P, w)
    near(st["means"], [mean(X[:, i], w) for i in range(d)], "mean", what + ": means", rtol=1e-9, atol=1e-12)
    near(st["cov"], cov, "covariance", what + ": covariance", rtol=1e-8, scale=1e-10)
    near(st["sigmas"], np.sqrt(np.diag(cov)), "sigma", what + ": standard deviations", rtol=1e-8)
    expect(len(st["cis"]) == d, "parameters", f"{what}: {len(st['cis'])} parameters, expected {d}")
    tied = any(len(set(X[:, i])) < len(X) for i in range(d))
    if not tied:
        for i in range(d):
            x = X[:, i].tolist()
            for key, q in (("median", .5), ("lo1", .16), ("hi1", .84), ("lo2", .025), ("hi2", .975)):
                if not flat(x, w, q):
                    near(st["cis"][i][key], quantile(x, w, q), "quantile", f"{what}: {key} of parameter {i}", rtol=1e-9, atol=1e-9)
            for v in (-9., -1.5, .1, 2., 3.3, 20.):
                near(st["cis"][i]["cdf_at"](v), cdf(x, w, v), "cdf", f"{what}: distribution function of parameter {i} at {v}", rtol=1e-9, atol=1e-12)
    if truth is not None:
        tv = np.array(truth[:d])
        delta = np.array([mean(X[:, i], w) for i in range(d)]) - tv
        near(st["z_scores"], np.abs(delta) / np.sqrt(np.diag(cov)), "z", what + ": z scores", rtol=1e-7, atol=1e-10)
        near(st["rmse"], np.sqrt((delta**2).mean()), "rmse", what + ": rmse", rtol=1e-8, atol=1e-12)
        if np.linalg.cond(cov) < 1e6:
            near(st["mahalanobis"], np.sqrt(delta @ np.linalg.solve(cov, delta)), "mahalanobis", what + ": Mahalanobis distance", rtol=1e-6, atol=1e-9)
            near(st["entropy"], .5 * (d * np.log(2 * np.pi * np.e) + np.linalg.slogdet(cov)[1]), "entropy", what + ": entropy", rtol=1e-7, atol=1e-7)
        if not tied:
            near(st["pit"], [cdf(X[:, i].tolist(), w, tv[i]) for i in range(d)], "pit", what + ": F(truth)", rtol=1e-9, atol=1e-12)
            for key, lo, hi in (("cover_68", .16, .84), ("cover_95", .025, .975)):
                if any(flat(X[:, i].tolist(), w, q) for i in range(d) for q in (lo, hi)):
                    continue
                eq(st[key], [bool(quantile(X[:, i].tolist(), w, lo) <= tv[i] <= quantile(X[:, i].tolist(), w, hi)) for i in range(d)], "coverage", f"{what}: {key}")
    return tied


def check_sampled(c):
    t = t2c()
    n, perm, d = c["n"], c["perm"], c["d"]
    S = samples(n, perm, d)
    obs = set()
    for truth in (None, TRUTH):
        D = t.SampledDistribution(true_values=None if truth is None else list(truth))
        seen = []
        for k, w in enumerate(weights(n, "quick")):
            W = np.array(w) * (1 if k % 2 else .25)
            label = None if k % 3 else "d%d" % k
            call(D.add_distribution, S, label=label, weights=W)
            seen.append((label or "Distribution %d" % (k + 1), w))
            obs.add((n, tuple(perm), d, w))
            last = list(D.distributions)[-1]
            expect(last == seen[-1][0], "label", f"{c}: distribution {k + 1} added with label {label!r} is called {last!r}")
            metrics_ok(D.distributions[last]["stats"], S.tolist(), w, truth, f"{c} weights {w}")
        call(D.add_distribution, S, label="equal")
        metrics_ok(D.distributions["equal"]["stats"], S.tolist(), [1] * n, truth, f"{c} no weights")
        # what was added first is still described as before
        for nm, w in seen[:3]:
            metrics_ok(D.distributions[nm]["stats"], S.tolist(), w, truth, f"{c} weights {w}, after all others were added")
    return obs


# ---------------------------------------------------------------- diagnostics of grids

def cases_grid(tier):
    for m, d in ((2, 1), (3, 1), (4, 1), (2, 2), (3, 2), (2, 3)):
        vals = (0, 1, 3) if m**d < 8 else ((0, 2) if tier == "quick" else ((0, 1, 3) if m**d < 9 else (0, 1)))
        for first in vals:
            yield dict(m=m, d=d, first=first, vals=list(vals))


def check_grid(c):
    t = t2c()
    m, d = c["m"], c["d"]
    obs = set()
    for coords, truth in ((None, None), ([-1., .5, 1., 4.][:m], TRUTH)):
        x = np.linspace(0, 1, 100) if coords is None else np.array(coords)
        if coords is None and (m, d) != (4, 1):
            continue
        for rest in itertools.product(c["vals"], repeat=m**d - 1):
            g = np.array((c["first"],) + rest, dtype=float).reshape((m,) * d)
            if (g > 0).sum() < 2:
                continue
            if coords is None:
                g = np.repeat(g, 25)
                if rest != tuple(sorted(rest)):
                    continue
            D = t.GriddedProbabilities(**({} if coords is None else dict(coords_1d=x)), true_values=None if truth is None else list(truth))
            call(D.add_distribution, g)
            st = D.distributions["Distribution 1"]["stats"]
            pts = [tuple(x[i] for i in idx) for idx in np.ndindex(*g.shape)]
            what = f"{c} grid {g.ravel()[:9].tolist()}"
            metrics_ok(st, pts, g.ravel().tolist(), truth, what)
            near(st["means"], [sum(x[i] * np.take(g, i, axis=a).sum() for i in range(len(x))) / g.sum() for a in range(d)], "marginal", what + ": means of the marginal distributions", rtol=1e-9, atol=1e-12)
            for a in range(d):
                marg = np.array([np.take(g, i, axis=a).sum() for i in range(len(x))]).cumsum() / g.sum()
                for key, q in (("median", .5), ("lo1", .16), ("hi1", .84), ("lo2", .025), ("hi2", .975)):
                    hi = int(np.searchsorted(marg, q + 1e-12))
                    lo = int(np.searchsorted(marg, q - 1e-12))
                    v = st["cis"][a][key]
                    expect(x[max(lo - 1, 0)] - 1e-9 <= v <= x[min(hi, len(x) - 1)] + 1e-9, "marginal-quantile", lambda: f"{what}: {key} of parameter {a} is {v}, the marginal distribution reaches {q} between {x[max(lo - 1, 0)]} and {x[min(hi, len(x) - 1)]}")
            obs.add((m, d, g.tobytes()))
    return obs


# ---------------------------------------------------------------- forest plots

def cases_forest(tier):
    for dims in [p for k in (1, 2, 3) for p in itertools.product((1, 2, 3), repeat=k)]:
        for truth in (0, 1, 2, 3):
            for labels in (0, 1, 2):
                if tier == "quick" and len(dims) == 3 and (truth in (1, 2) or labels == 1):
                    continue
                yield dict(dims=list(dims), truth=truth, labels=labels)


def check_forest(c):
    from matplotlib.collections import LineCollection
    t = t2c()
    top = max(c["dims"])
    truth = list(TRUTH[:c["truth"]]) if c["truth"] >= top else None
    labels = None if not c["labels"] else ["a", "b", "c"][:c["labels"]]
    with figures() as plt:
        D = t.SampledDistribution(true_values=truth, param_labels=labels)
        for k, d in enumerate(c["dims"]):
            call(D.add_distribution, samples(4, [1, 0, 3, 2], d) + k, label="chain %d" % k, weights=np.array([1., 2., 1. + k, 1.]), color=None if k % 2 else "r")
        fig = call(D.plot_forest)
        if c["truth"] == 3:
            fig.canvas.draw()
        axes = fig.axes
        expect(len(axes) == top, "axes", f"{c}: {len(axes)} panels for {top} parameters")
        eq([x.get_text() for x in axes[0].get_yticklabels()], ["chain %d" % k for k in range(len(c["dims"]))], "names", f"{c}: names of the rows")
        near(axes[0].get_yticks(), np.arange(len(c["dims"])), "names", f"{c}: positions of the names")
        for p, ax in enumerate(axes):
            expect(ax.yaxis_inverted(), "upside-down", f"{c}: the first distribution is not at the top of panel {p}")
            want = (labels or [])[p:p + 1] or [r"\theta_{%d}" % (p + 1)]
            eq(ax.get_xlabel(), f"${want[0]}$", "label", f"{c}: label of panel {p}")
            bars = sorted((round(float(s[0][1]), 9), float(min(s[:, 0])), float(max(s[:, 0]))) for col in ax.collections if isinstance(col, LineCollection) for s in col.get_segments() if len(s) == 2)
            marks, lines = [], []
            for ln in ax.lines:
                x, y = np.atleast_1d(ln.get_xdata(orig=False)), np.atleast_1d(ln.get_ydata(orig=False))
                if len(x) == 1 and ln.get_marker() == "o":
                    marks.append((float(y[0]), float(x[0])))
                elif len(x) == 2 and x[0] == x[1]:
                    lines.append(float(x[0]))
            wb, wm = [], []
            for k, d in enumerate(c["dims"]):
                if p < d:
                    S = (samples(4, [1, 0, 3, 2], d) + k)[:, p].tolist()
                    w = [1., 2., 1. + k, 1.]
                    wb += [(float(k), quantile(S, w, .025), quantile(S, w, .975)), (float(k), quantile(S, w, .16), quantile(S, w, .84))]
                    wm.append((float(k), quantile(S, w, .5)))
            near(np.array(bars).reshape(-1, 3), np.array(sorted(wb)).reshape(-1, 3), "bars", f"{c}: intervals in panel {p} (row, from, to)", rtol=1e-9, atol=1e-9)
            near(np.array(sorted(marks)).reshape(-1, 2), np.array(wm).reshape(-1, 2), "medians", f"{c}: medians in panel {p}", rtol=1e-9, atol=1e-9)
            near(lines, [] if truth is None else [truth[p]], "truth", f"{c}: true value in panel {p}")
    return (tuple(c["dims"]), c["truth"], c["labels"])


# ---------------------------------------------------------------- contour plots (recorded)

def cases_corner(tier):
    for dims in [p for k in (1, 2, 3) for p in itertools.product((1, 2, 3), repeat=k)]:
        for what in ("class-corner", "class-getdist"):
            yield dict(dims=list(dims), what=what)
        if len(set(dims)) == 1:
            for what in ("fn-corner", "fn-getdist"):
                for w in (0, 1):
                    for col in (0, 1):
                        yield dict(dims=list(dims), what=what, w=w, col=col)


class Recorder(types.SimpleNamespace):
    pass


def check_corner(c):
    import matplotlib.pyplot as plt
    t = t2c()
    P = sys.modules["tools21cm.plotting"]
    log, chains, tri, over = [], [], [], []
    dims = c["dims"]

    def draw(points, **k):
        d = np.shape(points)[1]
        fig = k.get("fig") or plt.figure()
        if k.get("fig") is None:
            fig.subplots(d, d, squeeze=False)
        for row in range(d):
            fig.axes[row * d + row].plot([0, row + 1], [0, 1], label="line")
        log.append((np.array(points), k))
        return fig

    def overplot(fig, xs, **k):
        over.append(list(xs))

    stub = types.ModuleType("corner")
    stub.corner, stub.overplot_lines = draw, overplot

    class Samples:
        def __init__(self, **k):
            self.k = k
            chains.append(k)

    class Plotter:
        def triangle_plot(self, what, **k):
            tri.append(([w.k["label"] for w in what], k))

    gd = types.ModuleType("getdist")
    gd.MCSamples = Samples
    gd.plots = types.SimpleNamespace(get_subplot_plotter=lambda *a, **k: Plotter())
    old = P.corner, P.plots, P.MCSamples, sys.modules.get("corner"), sys.modules.get("getdist")
    S = [samples(4, [1, 0, 3, 2], d) + k for k, d in enumerate(dims)]
    W = [np.array([1., 2., 1. + k, 1.]) for k in range(len(dims))]
    names = ["chain %d" % k for k in range(len(dims))]
    cols = ["C3", "C1", "C2"]
    top = max(dims)
    truth = list(TRUTH)[:top]
    lev = [.5, .9]
    with figures():
        try:
            P.corner, P.plots, P.MCSamples = stub, gd.plots, Samples
            sys.modules["corner"], sys.modules["getdist"] = stub, gd
            if c["what"].startswith("class"):
                D = t.SampledDistribution(backend=c["what"][6:], true_values=truth, param_labels=None if len(dims) > 1 else ["a", "b", "c"])
                must_raise(D.plot_corner, kind="empty", what="no distribution was added")
                for k in range(len(dims)):
                    call(D.add_distribution, S[k], label=names[k], weights=W[k], color=cols[k] if k != 1 else None)
                fig = call(D.plot_corner, levels=lev)
                plabels = [r"\theta_{%d}" % (i + 1) for i in range(3)] if len(dims) > 1 else ["a", "b", "c"]
                wcol = lambda k: cols[k]   # C1 is also the fallback of the second distribution
            else:
                wd = {n: w for n, w in zip(names, W)} if c["w"] else None
                cd = {n: x for n, x in zip(names, cols)} if c["col"] else "b"
                pn = ["p$a$", "q", "r"][:top]
                fig = call(t.plot_triangle, {n: s for n, s in zip(names, S)}, weights_dict=wd, backend=c["what"][3:], levels=lev, colors=cd, param_names=pn, truths=truth,
                           param_range=[(-9, 9)] * top, show_stats=False)
                wcol = lambda k: cols[k] if c["col"] else "b"
        finally:
            P.corner, P.plots, P.MCSamples = old[:3]
            for nm, m in (("corner", old[3]), ("getdist", old[4])):
                if m is None:
                    sys.modules.pop(nm, None)
                else:
                    sys.modules[nm] = m
        weighted = c.get("w", 1)
        if c["what"].endswith("corner"):
            expect(len(log) == len(dims), "chains", f"{c}: {len(log)} chains drawn, expected {len(dims)}")
            got = {}
            for pts, k in log:
                hit = [i for i in range(len(dims)) if pts.shape == S[i].shape and np.array_equal(pts, S[i])]
                expect(len(hit) == 1 and hit[0] not in got, "samples", f"{c}: samples {pts.tolist()} drawn")
                got[hit[0]] = k
            for i, k in got.items():
                if weighted:
                    eq(k["weights"], W[i], "weights", f"{c}: weights of chain {i}")
                else:
                    expect(k["weights"] is None, "weights", f"{c}: weights of unweighted chain {i}: {k['weights']}")
                eq(k["color"], wcol(i), "color", f"{c}: colour of chain {i}")
                eq(list(k["levels"]), lev, "levels", f"{c}: levels of chain {i}")
                if c["what"] == "class-corner":
                    eq(list(k["labels"])[:dims[i]], ["$%s$" % l for l in plabels[:dims[i]]], "labels", f"{c}: labels of chain {i}")
            leg = fig.legends[0] if fig.legends else None
            expect(leg is not None, "legend", f"{c}: no legend")
            eq([x.get_text() for x in leg.get_texts()], names, "legend", f"{c}: legend")
            for i, h in enumerate(leg.legend_handles):
                import matplotlib.colors as mc
                eq(mc.to_hex(h.get_color()), mc.to_hex(wcol(i)), "legend-color", f"{c}: colour of {names[i]} in the legend")
            if c["what"] == "class-corner":
                eq(over, [truth], "truth", f"{c}: true values drawn")
                expect(len(fig.axes) == top * top, "panels", f"{c}: {len(fig.axes)} panels")
                for row in range(top):
                    have = sum(1 for ln in fig.axes[row * top + row].lines)
                    eq(have, sum(1 for d in dims if d > row), "panel-lines", f"{c}: chains in diagonal panel {row}")
                expect(plt.get_fignums() == [fig.number], "figures-left", f"{c}: {len(plt.get_fignums())} figures are open")
        else:
            expect(len(chains) == len(dims) and len(tri) == 1, "chains", f"{c}: {len(chains)} chains, {len(tri)} plots")
            for i, k in enumerate(chains):
                eq(k["samples"], S[i], "samples", f"{c}: samples of chain {i}")
                eq(k["label"], names[i], "label", f"{c}: label of chain {i}")
                if weighted:
                    eq(k["weights"], W[i], "weights", f"{c}: weights of chain {i}")
                else:
                    expect(k["weights"] is None, "weights", f"{c}: weights of unweighted chain {i}")
                expect(len(k["names"]) == len(k["labels"]) == dims[i] and len(set(k["names"])) == dims[i], "names", f"{c}: names {k['names']} labels {k['labels']}")
                eq(list(k["labels"]), (plabels[:dims[i]] if c["what"] == "class-getdist" else ["pa", "q", "r"][:top]), "labels", f"{c}: labels of chain {i}")
            eq(tri[0][0], names, "order", f"{c}: chains in the plot")
            k = tri[0][1]
            if c["what"] == "class-getdist" or c["col"]:
                eq(list(k["colors"]), [wcol(i) for i in range(len(dims))], "color", f"{c}: colours")
            eq(list(k["markers"]), truth, "truth", f"{c}: true values")
    return (tuple(dims), c["what"], c.get("w"), c.get("col"))


# ---------------------------------------------------------------- slices and histograms

def objects(n, kind, k):
    """-> (argument of the plot, data shown, type, redshift)"""
    t = t2c()
    a = field((n, n, n), k) + .01
    if kind == "array":
        return a, a, "unknown", None
    if kind == "xfrac":
        x = t.XfracFile()
        x.xi, x.z, x.mesh_x, x.mesh_y, x.mesh_z = a, 8.5154, n, n, n
        return x, a, "xfrac", 8.5154
    if kind == "density":
        d = t.DensityFile()
        d.cgs_density, d.raw_density, d.z, d.mesh_x, d.mesh_y, d.mesh_z = a, a * 7, 7.9, n, n, n
        return d, a, "density", 7.9
    raise KeyError(kind)


def cases_slice(tier):
    for n in (2, 3):
        for kind in ("array", "xfrac", "density"):
            for box in (37, 244, 425):
                for ax in (0, 1, 2):
                    yield dict(n=n, kind=kind, box=box, ax=ax)
    yield dict(n=0)


def check_slice(c):
    t = t2c()
    if c["n"] == 0:
        for ax in (3, -1, 1.5):
            with figures():
                must_raise(t.plot_slice, field((2, 2, 2)), los_axis=ax, kind="axis", what=f"los_axis={ax}")
        return "axes"
    obs = set()
    n, ax = c["n"], c["ax"]
    t.set_sim_constants(c["box"])
    for num in [None] + list(range(-n, n)):
        for log in (None, False, True):
            for kw in ({}, dict(cmap="hot", vmin=.1, vmax=.6), dict(origin="lower", interpolation="nearest")):
                if kw and num not in (None, 1):
                    continue
                with figures() as plt:
                    arg, data, kind, z = objects(n, c["kind"], 3)
                    before = data.copy()
                    k = dict(kw)
                    if num is not None:
                        k["slice_num"] = num
                    if log is not None:
                        k["logscale"] = log
                    call(t.plot_slice, arg, los_axis=ax, **k)
                    eq(data, before, "argument", f"{c} {k}: the data changed")
                    if num in (None, 1) and not kw and c["box"] == 37:
                        plt.gcf().canvas.draw()
                    ims = [im for a in plt.gcf().axes for im in a.images]
                    expect(len(ims) == 1, "images", f"{c} {k}: {len(ims)} images")
                    im = ims[0]
                    want = np.take(data, num or 0, axis=ax)
                    if log:
                        want = np.array([[np.log10(v) for v in r] for r in want])
                    near(np.ma.getdata(im.get_array()), want, "image", f"{c} {k}: image", rtol=1e-12)
                    near(np.array(im.get_extent(), float), np.array([0, t.conv.LB, 0, t.conv.LB], float), "extent", f"{c} {k}: extent")
                    near(float(t.conv.LB), float({37: 37, 244: 244, 425: 425}[c["box"]]) / t.const.h, "box", f"{c}: box in cMpc", rtol=1e-9)
                    if "cmap" in kw:
                        eq(im.get_cmap().name, "hot", "kwargs", f"{c} {k}: colour map")
                        eq(np.array(im.get_clim()), np.array([.1, .6]), "kwargs", f"{c} {k}: colour limits")
                    if "origin" in kw:
                        eq(im.origin, "lower", "kwargs", f"{c} {k}: origin")
                    A = im.axes
                    expect("Mpc" in A.get_xlabel() and "Mpc" in A.get_ylabel(), "units", f"{c} {k}: axis labels {A.get_xlabel()!r}, {A.get_ylabel()!r}")
                    bars = [a for a in plt.gcf().axes if a is not A]
                    expect(len(bars) == 1, "colorbar", f"{c} {k}: {len(bars)} colour bars")
                    lab = bars[0].get_ylabel()
                    if kind in ("xfrac", "density"):
                        expect(("log" in lab) == bool(log), "colorbar-label", f"{c} {k}: colour bar {lab!r}")
                        expect(("x_i" in lab) == (kind == "xfrac") and ("rho" in lab) == (kind == "density"), "colorbar-label", f"{c} {k}: colour bar {lab!r}")
                        expect(("%.2f" % z) in A.get_title(), "title", f"{c} {k}: title {A.get_title()!r} does not give z = {z:.2f}")
                    obs.add((n, c["kind"], ax, num, log, c["box"]))
    return obs


def cases_hist(tier):
    for n in (2, 3):
        for kind in ("array", "xfrac", "density"):
            for k in range(4):
                yield dict(n=n, kind=kind, k=k)


def counts(x, e):
    out = []
    for i in range(len(e) - 1):
        out.append(sum(1 for v in x if e[i] <= v and (v < e[i + 1] or (i == len(e) - 2 and v == e[i + 1]))))
    return out


def check_hist(c):
    from matplotlib.axes import Axes
    t = t2c()
    obs = set()
    real = Axes.hist
    got = []

    def hist(self, *a, **k):
        r = real(self, *a, **k)
        got.append(r)
        return r

    arg, data, kind, z = objects(c["n"], c["kind"], c["k"])
    x = data.ravel().tolist()
    for bins in (None, 1, 2, 7, [0., .3, .5, 1.1], np.array([0., .25, 1.]), np.linspace(0, 1.2, 13)):
        for log in (None, False, True):
            for kw in ({}, dict(histtype="bar", color="r"), dict(density=True), dict(range=(0., .5))):
                if "range" in kw and not isinstance(bins, int):
                    continue
                with figures() as plt:
                    got.clear()
                    k = dict(kw)
                    if bins is not None:
                        k["bins"] = bins
                    if log is not None:
                        k["logscale"] = log
                    try:
                        Axes.hist = hist
                        call(t.plot_hist, arg, **k)
                    finally:
                        Axes.hist = real
                    if c["k"] == 0 and not kw:
                        plt.gcf().canvas.draw()
                    expect(len(got) == 1, "histograms", f"{c} {k}: {len(got)} histograms")
                    h, e, _ = got[0]
                    if bins is None:
                        we = np.linspace(0, 1, 30) if kind == "xfrac" else np.linspace(min(x), max(x), 31)
                    elif isinstance(bins, int):
                        lo, hi = kw.get("range", (min(x), max(x)))
                        we = np.linspace(lo, hi, bins + 1)
                    else:
                        we = np.asarray(bins)
                    near(np.asarray(e, float), we, "edges", f"{c} {k}: edges", rtol=1e-12, atol=1e-15)
                    near_edge = any(abs(v - b) < 1e-12 for v in x for b in we[1:-1])
                    wc = np.array(counts(x, [float(v) for v in e]), float)
                    if "density" in kw:
                        wc = wc / wc.sum() / np.diff(np.asarray(e, float))
                    if not near_edge:
                        near(np.asarray(h, float), wc, "counts", f"{c} {k}: counts", rtol=1e-9)
                    a = plt.gca()
                    eq(a.get_yscale(), "log" if log else "linear", "scale", f"{c} {k}: scale")
                    if kind != "unknown":
                        expect(("x_i" if kind == "xfrac" else "rho") in a.get_xlabel(), "label", f"{c} {k}: label {a.get_xlabel()!r}")
                    obs.add((c["n"], kind, c["k"], str(bins), log, str(kw)))
    return obs


# ---------------------------------------------------------------- fits

FUNCS = {
    "line": (lambda x, p: p[0] + p[1] * x, dict(a=.5, b=.5)),
    "named-back": (lambda x, p: p[1] + p[0] * x, dict(slope=.5, cut=.5)),
    "square": (lambda x, p: p[0] + p[1] * x**2, dict(z=1., a=1.)),
    "one": (lambda x, p: p[0] * x, dict(m=2.)),
    "three": (lambda x, p: p[0] + p[1] * x + p[2] * x * x, dict(c=.1, b=.1, a=.1)),
}


def cases_fit(tier):
    for f in FUNCS:
        for cv in (None, 2, 3) if tier == "quick" else (None, 1, 2, 3, 5):
            for method in ("Nelder-Mead", "BFGS"):
                yield dict(f=f, cv=cv, method=method)


def check_fit(c):
    t = t2c()
    fn, init = FUNCS[c["f"]]
    obs = set()
    x = np.linspace(-1.5, 2., 40)
    vals = list(itertools.product((-2., .5, 3.), repeat=len(init)))
    if len(vals) > 9:
        vals = [v for v in vals if v[0] != v[2]]
    F = t.FitFunction(fn, fit_params=dict(init), cv=c["cv"], method=c["method"])
    for i, p in enumerate(vals):
        if all(abs(v) < 1e-9 for v in p[1:]) and len(p) > 1:
            continue
        y = fn(x, np.array(p))
        near(call(F.residual_func, np.array(p) + 1, x, y), sum((fn(v, np.array(p) + 1) - w)**2 for v, w in zip(x, y)), "residual", f"{c} {p}: sum of squared residuals", rtol=1e-9)
        for G in ((F, t.FitFunction(fn, fit_params=dict(init), cv=c["cv"], method=c["method"])) if i % 2 else (F,)):
            call(G.fit, x, y)
            eq(list(G.fitted_params_), list(init), "names", f"{c}: parameters")
            near([G.fitted_params_[k] for k in init], p, "parameters", f"{c} {p}: fitted parameters ({'used before' if G is F else 'new'})", rtol=0, atol=2e-3)
            near(call(G.predict, x * 2), fn(x * 2, np.array([G.fitted_params_[k] for k in init])), "predict", f"{c} {p}: prediction", rtol=1e-12, atol=1e-12)
            q = y + field(y.shape, 2)
            pred = fn(x, np.array([G.fitted_params_[k] for k in init]))
            near(call(G.score, x, q), 1 - ((q - pred)**2).sum() / ((q - q.mean())**2).sum(), "score", f"{c} {p}: score", rtol=1e-9, atol=1e-12)
            if c["cv"]:
                expect(len(G.cv_scores_) == c["cv"], "folds", f"{c} {p}: {len(G.cv_scores_)} scores")
                near(np.asarray(G.cv_scores_), np.ones(c["cv"]), "cv-score", f"{c} {p}: scores of an exact model", rtol=0, atol=1e-3)
                near([G.fitted_params_std[k] for k in init], [0.] * len(init), "cv-std", f"{c} {p}: scatter of the parameters", rtol=0, atol=2e-3)
        obs.add((c["f"], c["cv"], p))
    if c["cv"] is None:
        y = fn(x, np.array(vals[-1]))
        near(call(F.fit_predict, x, y), y, "fit-predict", f"{c}: fit and predict", rtol=0, atol=2e-2)
    return obs


SUITES = [
    FnSuite("chain-stats", cases_stats, check_stats, "printed mean and 68% interval: 2 chains of 1-4 (5) samples in every order x all weights in {1,2,5} (whole numbers, floats, rescaled) x 2 parameters", timeout=200, chunk=1),
    FnSuite("sampled", cases_sampled, check_sampled, "2-4 (5) samples in every order x 1-3 parameters x all weights in {1,2,5} x with/without truth: mean, covariance, quantiles, distribution function, z, PIT, coverage, RMSE, Mahalanobis, entropy", timeout=200, chunk=1),
    FnSuite("grids", cases_grid, check_grid, "all probability grids with cells in {0,1,3} ({0,2}) on 2-4 points in 1-3 dimensions", timeout=300, chunk=1),
    FnSuite("forest", cases_forest, check_forest, "forest plots of 1-3 distributions of 1-3 parameters each x number of true values x number of labels: every bar, marker, line and name", timeout=100, chunk=6),
    FnSuite("contours", cases_corner, check_corner, "contour plots of 1-3 chains of 1-3 parameters through two (recorded) libraries: samples, weights, colours, labels and true values of every chain", timeout=100, chunk=6),
    FnSuite("slices", cases_slice, check_slice, "plots of every slice along every axis of arrays, ionization and density files, linear and logarithmic, in 3 boxes: image, extent, labels, title, options", timeout=200, chunk=1),
    FnSuite("histograms", cases_hist, check_hist, "histograms of 3 kinds of data x 7 binnings x scale x options: edges, counts, labels", timeout=200, chunk=1),
    FnSuite("fits", cases_fit, check_fit, "5 models x all parameters in {-2,.5,3} x cross-validation x 2 minimisers, new and used fit objects", timeout=200, chunk=1),
]
