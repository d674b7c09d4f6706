"""P28: a result depends on the values of the arguments, not on how they are stored."""
import sys

import numpy as np

from mc import catalog as K
from mc import core
from mc.core import C, Fail, FnSuite, expect, t2c
from mc.props import P27
from mc.props.P27 import norm, same, settings

TITLE = "Results depend on the values of the arguments, not on their representation"
LEVEL = "model_checking"
ASSUMPTIONS = ["the calls are those of the catalogue (mc/catalog.py)",
               "single precision copies hold values that single precision represents exactly and may give results rounded to single precision"]

ARR = ("F", "strided", "negative", "transposed", "readonly", "bigendian", "float32", "view", "offset")
NUM = {"int": ("int64", "int32"), "float": ("int", "int64", "int32", "float64", "float32")}


class Sub(np.ndarray):
    """an array type of the user's own"""


def rep(a, r):
    """the same array in another representation"""
    if r == "F":
        return np.asfortranarray(a.copy())
    if r == "strided":
        b = np.full(tuple(3 * n for n in a.shape), 99, a.dtype) if a.dtype.kind != "b" else np.ones(tuple(3 * n for n in a.shape), bool)
        v = b[tuple(slice(1, None, 3) for _ in a.shape)]
        v[...] = a
        return v
    if r == "negative":
        return a[tuple(slice(None, None, -1) for _ in a.shape)].copy()[tuple(slice(None, None, -1) for _ in a.shape)]
    if r == "transposed":
        return np.ascontiguousarray(a.T).T
    if r == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    if r == "bigendian":
        return a.astype(a.dtype.newbyteorder(">"))
    if r == "float32":
        return a.astype(np.complex64 if a.dtype.kind == "c" else np.float32)
    if r == "view":
        return a.copy().view(Sub)
    if r == "offset":               # not aligned to the size of a word
        b = np.zeros(a.nbytes + 1, np.uint8)[1:]
        v = b.view(a.dtype).reshape(a.shape) if a.ndim else b.view(a.dtype)
        v[...] = a
        return v
    if r == "int":
        return a.astype(np.int64)
    if r == "int32":
        return a.astype(np.int32)
    if r == "list":
        return a.tolist()
    raise ValueError(r)


def num(x, r):
    if r == "int":
        return int(x) if x == int(x) else None
    if r == "int64":
        return np.int64(x) if x == int(x) else None
    if r == "int32":
        return np.int32(x) if x == int(x) and abs(x) < 2e9 else None
    y = {"float64": np.float64, "float32": np.float32}[r](x)
    return y if y == x else None


def is_num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def slots(a, k):
    """paths to arrays and numbers in the arguments"""
    out = []

    def go(x, p, d):
        if isinstance(x, np.ndarray) and not hasattr(x, "unit"):
            out.append((p, "array"))
        elif is_num(x):
            out.append((p, "float" if isinstance(x, float) else "int"))
        elif isinstance(x, (list, tuple)) and d < 2:
            for i, v in enumerate(x):
                go(v, p + (i,), d + 1)
        elif isinstance(x, dict) and d < 2:
            for q, v in x.items():
                go(v, p + (q,), d + 1)
    for i, x in enumerate(a):
        go(x, ("a", i), 0)
    for q, x in k.items():
        go(x, ("k", q), 0)
    return out


def get(o, p):
    for i in p:
        o = o[i]
    return o


def put(o, p, val):
    """a copy of the nested lists, tuples and dicts with one entry replaced"""
    if not p:
        return val
    if isinstance(o, dict):
        return {q: (put(v, p[1:], val) if q == p[0] else v) for q, v in o.items()}
    l = [put(v, p[1:], val) if i == p[0] else v for i, v in enumerate(o)]
    return tuple(l) if isinstance(o, tuple) else l


def quantise(a):
    """values that single precision holds exactly"""
    if a.dtype.kind in "fc":
        return a.astype(np.complex64 if a.dtype.kind == "c" else np.float32).astype(a.dtype)
    return a


def args(name, v, q=True):
    f, a, k = K.E[name].make(K.V(v))
    for p, t in slots(a, k):
        if t == "array" and q:
            o = put({"a": a, "k": k}, p, quantise(get({"a": a, "k": k}, p)))
            a, k = o["a"], o["k"]
    return f, a, k


def run(f, a, k):
    np.random.seed(4711)
    C.calls += 1
    return f(*a, **k)


def cases(tier):
    for n, e in K.E.items():
        for v in range(K.NV):
            yield dict(n=n, v=v, s=0)
            if tier == "thorough":
                yield dict(n=n, v=v, s=1)


def close(a, b, rt):
    old = P27.RTOL
    P27.RTOL = rt
    try:
        return same(a, b)
    finally:
        P27.RTOL = old


def kindless(n):
    """single precision results may be stored in single precision, integer results of integer input as integers"""
    if n[0] == "a":
        x = n[3]
        if x.dtype.kind in "fiub":
            x = x.astype(float)
        elif x.dtype.kind == "c":
            x = x.astype(complex)
        return ("a", n[1], x.dtype.kind, x)
    if n[0] == "l":
        l = [kindless(v) for v in n[1]]
        if l and all(v[0] == "a" and v[1] == () and v[2] == "f" for v in l):        # a list of numbers, whatever their types
            return ("a", (len(l),), "f", np.array([v[3] for v in l]))
        return ("l", l)
    if n[0] == "d":
        return ("d", [(k, kindless(v)) for k, v in n[1]])
    if n[0] == "o":
        return ("o", n[1], kindless(n[2]))
    if n[0] == "q":
        return ("q", n[1], kindless(n[2]))
    return n


def single(n):
    """whether single precision numbers are part of a result"""
    if n[0] == "a":
        return n[3].dtype in (np.float32, np.complex64)
    if n[0] in "lo":
        return any(map(single, n[1])) if n[0] == "l" else single(n[2])
    if n[0] == "d":
        return any(single(v) for _, v in n[1])
    return n[0] == "q" and single(n[2])


# representations that a function documents not to take, or that its thresholds cannot honour
SKIP = {
    ("dictionary-json", None, "float32"): "JSON has no single precision numbers",
    ("lyA_scattering_cross_section", 0, "float32"): "the line is narrower than the single precision frequencies around it",
    ("smooth_lightcone_uv_threshold", "threshold", "float32"): "must be a float",
    ("read_pkdgrav_density_grid", 1, None): "the density is computed in the single precision of the file",
}


def check(c):
    settings(c["s"])
    name, v = c["n"], c["v"]
    f, a, k = args(name, v)
    want = norm(run(f, a, k))
    rt = 1e-6 if single(want) else 1e-9
    want = kindless(want)
    nn = 0
    for p, t in slots(a, k):
        for r in (ARR if t == "array" else NUM[t]):
            if {(name, p[-1], r), (name, None, r), (name, p[-1], None)} & set(SKIP):
                continue
            f, a, k = args(name, v)
            x = get({"a": a, "k": k}, p)
            if t == "array":
                if r in ("float32", "bigendian", "offset") and x.dtype.kind not in "fc":
                    continue
                y = rep(x, r)
                if r != "readonly":
                    assert np.array_equal(y, x), (name, p, r)
            else:
                y = num(x, r)
                if y is None or type(y) is type(x):
                    continue
            o = put({"a": a, "k": k}, p, y)
            snap = core._snap(y)
            what = f"{name} (variant {v}, setting {c['s']}) with argument {'.'.join(map(str, p[1:]))} as {r}"
            try:
                g = run(f, o["a"], o["k"])
            except core.CaseTimeout:
                raise
            except Exception as e:
                import traceback
                raise Fail("representation-raises", f"{what}: {e!r} {traceback.format_exc().strip().splitlines()[-3].strip()}")
            C.compares += 1
            nn += 1
            d = close(kindless(norm(g)), want, 3e-4 if r == "float32" else rt)
            if d:
                raise Fail("representation", f"{what}: {d}")
            m = core._changed(snap) if snap is not None else None
            expect(not m, "argument-changed", lambda: f"{what} was changed")
    return {(name, v, i) for i in range(nn)} or None


# ---------------------------------------------------------------- whole numbers

INT = ("int64", "int32", ">i4")
SKIPI = {("bubbles_from_triangle3D", None, None): "the histogram of integers has one bin per integer (skimage)",
         ("bubbles_from_triangle2D", None, None): "the histogram of integers has one bin per integer (skimage)"}


def whole(x):
    """a version of an array of real numbers that holds integers, without zeros where there were none"""
    if x.dtype.kind != "f" or not x.size or not np.isfinite(x).all() or np.abs(x).max() > 1e4:
        return None
    y = np.round(x if np.ptp(x) > 4 else 8 * x)
    return np.where((x != 0) & (y == 0), 1., y).reshape(x.shape)


def check_int(c):
    settings(c["s"])
    name, v = c["n"], c["v"]
    f, a, k = args(name, v)
    nn = 0
    for p, t in slots(a, k):
        if t != "array":
            continue
        f, a, k = args(name, v, q=False)
        w = whole(get({"a": a, "k": k}, p))
        if w is None:
            continue
        o = put({"a": a, "k": k}, p, w.copy())
        try:
            want = norm(run(f, o["a"], o["k"]))
        except core.CaseTimeout:
            raise
        except Exception:
            continue                                    # not a sensible argument
        rt = 1e-6 if single(want) else 1e-9
        want = kindless(want)
        for r in INT:
            y = w.astype(r)
            if not np.array_equal(y.astype(float), w) or (name, p[-1], r) in SKIPI or (name, None, None) in SKIPI:
                continue
            f, a, k = args(name, v, q=False)
            o = put({"a": a, "k": k}, p, y)
            snap = core._snap(y)
            what = f"{name} (variant {v}, setting {c['s']}) with argument {'.'.join(map(str, p[1:]))} as {r}"
            try:
                g = run(f, o["a"], o["k"])
            except core.CaseTimeout:
                raise
            except Exception as e:
                import traceback
                raise Fail("integers-raise", f"{what}: {e!r} {traceback.format_exc().strip().splitlines()[-3].strip()}")
            C.compares += 1
            nn += 1
            d = close(kindless(norm(g)), want, rt)
            if d:
                raise Fail("integers", f"{what}: {d}")
            m = core._changed(snap) if snap is not None else None
            expect(not m, "argument-changed", lambda: f"{what} was changed")
    return {(name, v, i) for i in range(nn)} or None


def setup(tier):
    K.make_files()
    P27.warm()


SUITES = [
    FnSuite("calls", cases, check, "all calls of the catalogue x 4 variants: every array in 9 representations, every number in 7", timeout=300, chunk=2),
    FnSuite("integers", cases, check_int, "all calls of the catalogue x 4 variants: every real array holding whole numbers, stored as 3 integer types and as float", timeout=300, chunk=2),
]
