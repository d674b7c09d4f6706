"""P27: a result depends on the arguments and the current settings only, whatever happened before or happens in between."""
import contextlib
import os
import pickle
import select
import shutil
import signal
import sys
import time
import types
import warnings

import numpy as np

from mc import catalog as K
from mc import core
from mc.core import C, Fail, FnSuite, expect, t2c

TITLE = "Results depend on arguments and current settings only"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "the calls are those of the catalogue (mc/catalog.py): one to three per public function, four argument variants each, in two cosmological settings",
    "calls that draw from numpy's global generator start from a given state of it",
    "preemption is explored between source lines of the package (first and last execution of every line), not inside numpy or compiled code",
]

SET = [dict(h=.7, om=.27, lam=.73, ob=.044, box=244), dict(h=.6711, om=.3175, lam=.6825, ob=.049, box=114)]
BASE = {}
RTOL = 1e-9


def settings(c):
    t = t2c()
    s = SET[c]
    t.set_hubble_h(s["h"])
    t.set_omega_matter(s["om"])
    t.set_omega_lambda(s["lam"])
    t.set_omega_baryon(s["ob"])
    t.set_sim_constants(s["box"])


# ---------------------------------------------------------------- results as values

def norm(x, d=0):
    if hasattr(x, "unit") and hasattr(x, "to"):
        return ("q", str(x.unit), norm(np.asarray(x.value), d))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("l", [norm(v, d + 1) for v in x.ravel()])
        return ("a", x.shape, x.dtype.kind, np.array(x))
    if isinstance(x, (bool, np.bool_)):
        return ("a", (), "b", np.array(bool(x)))
    if isinstance(x, (int, float, complex, np.number)):
        a = np.asarray(x)
        return ("a", (), a.dtype.kind, a.copy())
    if isinstance(x, dict):
        return ("d", [(repr(k), norm(v, d + 1)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        if len(x) and all(isinstance(v, (int, float, np.number)) for v in x):
            return norm(np.array(x), d)
        return ("l", [norm(v, d + 1) for v in x])
    if x is None or isinstance(x, (str, bytes)):
        return ("s", x)
    if isinstance(x, types.FunctionType) or d > 4:
        return ("s", type(x).__name__)
    if hasattr(x, "__dict__"):
        return ("o", type(x).__name__, norm(vars(x), d + 1))
    return ("s", type(x).__name__)


def same(a, b):
    """-> None or what differs"""
    if a[0] != b[0] or len(a) != len(b):
        return f"{a[0]} instead of {b[0]}"
    t = a[0]
    if t == "a":
        if a[1] != b[1] or a[2] != b[2]:
            return f"shape and kind {a[1:3]} instead of {b[1:3]}"
        x, y = a[3], b[3]
        if x.dtype.kind in "biuSUM":
            return None if np.array_equal(x, y) else f"{core.short(x, 80)} instead of {core.short(y, 80)}"
        rt = RTOL if x.dtype.itemsize > 4 else 2e-6
        f = np.isfinite(y)
        if not np.array_equal(np.isfinite(x), f):
            return f"{core.short(x, 80)} instead of {core.short(y, 80)}"
        if not np.array_equal(np.nan_to_num(x[~f], nan=0., posinf=1., neginf=-1.), np.nan_to_num(y[~f], nan=0., posinf=1., neginf=-1.)):
            return f"{core.short(x, 80)} instead of {core.short(y, 80)}"
        if f.any():
            sc = np.abs(y[f]).max()
            if np.abs(x[f] - y[f]).max() > rt * (sc if sc > 0 else 1e-300) :
                return f"{core.short(x, 80)} instead of {core.short(y, 80)}"
        return None
    if t == "q":
        return f"unit {a[1]} instead of {b[1]}" if a[1] != b[1] else same(a[2], b[2])
    if t == "l":
        if len(a[1]) != len(b[1]):
            return f"{len(a[1])} instead of {len(b[1])} entries"
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            r = same(x, y)
            if r:
                return f"entry {i}: {r}"
        return None
    if t == "d":
        if [k for k, _ in a[1]] != [k for k, _ in b[1]]:
            return f"keys {[k for k, _ in a[1]]} instead of {[k for k, _ in b[1]]}"
        for (k, x), (_, y) in zip(a[1], b[1]):
            r = same(x, y)
            if r:
                return f"key {k}: {r}"
        return None
    if t == "o":
        return same(a[2], b[2]) if a[1] == b[1] else f"{a[1]} instead of {b[1]}"
    return None if a == b else f"{core.short(a)} instead of {core.short(b)}"


def poison(x, d=0):
    """overwrite everything a caller may overwrite in a value it got (or in arguments it passed)"""
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            try:
                if x.dtype.kind in "fc":
                    x[...] = 7.7e77 if x.dtype.itemsize > 4 else 7e7
                elif x.dtype.kind in "iu":
                    x[...] = 113
                elif x.dtype.kind == "b":
                    np.logical_not(x, out=x)
            except Exception:
                pass
    elif isinstance(x, dict) and d < 3:
        for v in list(x.values()):
            poison(v, d + 1)
        x["__poison__"] = 1
    elif isinstance(x, (list, tuple)) and d < 3:
        for v in x:
            poison(v, d + 1)
        if isinstance(x, list):
            x.append("poison")
    elif hasattr(x, "__dict__") and d < 2 and not isinstance(x, (types.FunctionType, type, types.ModuleType)):
        for v in list(vars(x).values()):
            poison(v, d + 1)


class Call:
    """one call of the catalogue, made with fresh arguments"""

    def __init__(self, name, v):
        self.e = K.E[name]
        self.f, self.a, self.k = self.e.make(K.V(v))

    def run(self):
        np.random.seed(20261)
        C.calls += 1
        self.r = self.f(*self.a, **self.k)
        return self.r

    def poison(self):
        poison(self.r)
        poison(self.a)
        poison(self.k)


def compare(name, v, c, r, kind, hist):
    C.compares += 1
    d = same(norm(r), BASE[name, v, c])
    if d:
        raise Fail(kind, f"{name} (variant {v}, setting {c}) {hist}: {d}")


# ---------------------------------------------------------------- processes

def child(fn, limit):
    """fn() in a forked child; its Fail, or its return value"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            c0 = (C.calls, C.compares)
            try:
                out = ("ok", fn())
            except Fail as f:
                out = ("fail", (f.kind, f.msg))
            except core.CaseTimeout:
                out = ("fail", ("no-termination", "a call did not finish"))
            except BaseException:
                import traceback
                out = ("fail", ("call-raises", traceback.format_exc()[-600:]))
            b = pickle.dumps((out, C.calls - c0[0], C.compares - c0[1]))
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    end = time.time() + limit
    try:
        while True:
            if not select.select([r], [], [], max(0, end - time.time()))[0]:
                os.kill(pid, signal.SIGKILL)
                raise Fail("no-termination", f"a history of calls did not finish within {limit} s")
            x = os.read(r, 1 << 20)
            if not x:
                break
            buf += x
    except core.CaseTimeout:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not buf:
        raise Fail("process-died", "the process making the calls died")
    (st, val), n, m = pickle.loads(buf)
    C.calls += n
    C.compares += m
    if st == "fail":
        raise Fail(*val)
    return val


def _base(job):
    name, c = job

    def one(v):
        def go():
            settings(c)
            x = Call(name, v)
            return norm(x.run())
        return go
    out = []
    with contextlib.redirect_stdout(core._Null()), contextlib.redirect_stderr(core._Null()), np.errstate(all="ignore"):
        for v in range(K.NV):
            try:
                out.append(((name, v, c), child(one(v), 120)))
            except Fail as f:
                out.append(((name, v, c), ("s", "FAILED " + f.msg)))
    return out


def _enough(signum, frame):
    """end a call that takes too long, but never a compiler or an import in the middle of its own bookkeeping"""
    f = frame
    while f is not None:
        if f.f_globals.get("__name__", "").split(".")[0] in ("numba", "llvmlite", "importlib", "_frozen_importlib"):
            signal.setitimer(signal.ITIMER_REAL, .2)
            return
        f = f.f_back
    raise core.CaseTimeout()


def warm():
    """compile the numba functions once (their machine code is not state)"""
    import tools21cm.topology
    m = sys.modules["tools21cm.topology"]
    for n in ("count_neighbors", "count_neighbors_once"):
        f = getattr(m, n, None)
        if f is not None and type(f).__module__.startswith("numba"):
            st = np.zeros((3, 3, 3), np.int64)
            try:
                f(np.zeros((3, 3, 3), np.int64), st)
            except Exception:
                pass


def setup(tier):
    import multiprocessing as mp
    K.make_files()
    import skimage.segmentation, sklearn.cluster, astropy.io.fits, pandas, yaml, scipy.optimize  # noqa: imported on demand by the package
    from astropy.cosmology import Planck18
    Planck18.comoving_distance(1.)
    warm()
    with mp.get_context("fork").Pool(8) as p:
        for l in p.imap_unordered(_base, [(n, c) for n in K.E for c in (0, 1)], chunksize=4):
            for k, v in l:
                BASE[k] = v


# ---------------------------------------------------------------- suite: every call works, leaves the world as it was

def world():
    t = t2c()
    w = {"random state": tuple(np.random.get_state()[1]) + np.random.get_state()[2:],
         "numpy error handling": np.geterr(), "numpy print options": {k: v for k, v in np.get_printoptions().items()},
         "working directory": os.getcwd(), "environment": dict(os.environ), "warning filters": list(warnings.filters),
         "standard output": (id(sys.stdout), id(sys.stderr)), "import path": list(sys.path), "recursion limit": sys.getrecursionlimit(),
         "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD)],
         "child processes": [], "files": sorted(os.listdir(".")), "trace": sys.gettrace(), "locale": __import__("locale").setlocale(__import__("locale").LC_ALL)}
    import random
    w["random module"] = random.getstate()
    for m in (t.const, t.conv):
        for k, v in vars(m).items():
            if isinstance(v, (int, float, str, bool, np.number, np.ndarray, list, dict)) and not k.startswith("__"):
                w[f"{m.__name__}.{k}"] = repr(v)
    return w


def cases_world(tier):
    for n in K.E:
        for v in range(K.NV):
            for c in (0, 1):
                yield dict(n=n, v=v, c=c)


def check_world(c):
    name, v, s = c["n"], c["v"], c["c"]
    b = BASE[name, v, s]
    if b[0] == "s" and str(b[1]).startswith("FAILED "):
        raise Fail("call-raises", f"{name}: {b[1]}")

    def go():
        settings(s)
        x = Call(name, v)
        snap = [core._snap(q) for q in list(x.a) + list(x.k.values())]
        w = world()
        if x.e.rng:
            x.run()
        else:
            C.calls += 1
            x.r = x.f(*x.a, **x.k)
        q = world()
        for k in w:
            if x.e.rng and k in ("random state",):
                continue
            expect(w[k] == q.get(k), "side-effect", lambda: f"{name} (variant {v}, setting {s}) changed the {k}: {core.short(w[k], 60)} -> {core.short(q.get(k), 60)}")
        for z in snap:
            m = core._changed(z) if z is not None else None
            expect(not m, "argument-changed", lambda: f"{name} (variant {v}, setting {s}) changed an argument: {m}")
        if not x.e.rng:
            compare(name, v, s, x.r, "other-random-state", "with another random state")
        return None
    child(go, 120)
    return (name, v, s)


# ---------------------------------------------------------------- suite: histories of one function

def debruijn(k, n):
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def cases_same(tier):
    for n, e in K.E.items():
        yield dict(n=n, len=2 if tier == "quick" or e.slow else 3)


def walk(steps):
    """steps: (name, variant, setting). Every result is compared with that of a fresh process; the results and arguments of the call before are still
    intact afterwards, and are then overwritten by their owner before the next call."""
    prev, cur = None, None
    hist = []
    for name, v, c in steps:
        if c != cur:
            settings(c)
            cur = c
        x = Call(name, v)
        r = x.run()
        compare(name, v, c, r, "history", f"after {hist[-3:]}")
        if prev is not None:
            x0, n0 = prev
            d = same(norm(x0.r), n0)
            if d:
                raise Fail("earlier-result-changed", f"{name} (variant {v}) changed the result of the earlier call {hist[-1]}: {d}")
            x0.poison()
        prev = (x, norm(r))
        hist.append((name, v, c))


def check_same(c):
    seq = debruijn(2 * K.NV, c["len"])
    child(lambda: walk([(c["n"], q // 2, q % 2) for q in seq]), 280)
    return c["n"]


# ---------------------------------------------------------------- suite: pairs of functions

def cases_pairs(tier):
    for n in K.E:
        for c in ((0,) if tier == "quick" else (0, 1)):
            for v in ((0,) if tier == "quick" else range(K.NV)):
                yield dict(n=n, v=v, c=c)


def check_pairs(c):
    a = (c["n"], c["v"], c["c"])

    def go():
        steps = []
        names = list(K.E)
        i = names.index(c["n"])
        for j, m in enumerate(names):
            # the walk a m a covers both orders: of two calls with variant 0 one walks over the other
            if j != i and (c["v"] or 2 * ((j - i) % len(names)) <= len(names)):
                steps += [a, (m, 0, c["c"])]
        walk(steps + [a])
    child(go, 580)
    return a


# ---------------------------------------------------------------- lines of the package

def pkg():
    return os.path.join(os.path.realpath(core.REPO), "src", "tools21cm") + os.sep


def marks(name, v):
    """numbers of the first and last execution of every line of the package during the call"""
    P = pkg()
    first, last, n = {}, {}, [0]

    def tr(fr, ev, arg):
        if not os.path.realpath(fr.f_code.co_filename).startswith(P):
            return None

        def loc(f, e, a):
            if e == "line":
                n[0] += 1
                k = (f.f_code.co_filename, f.f_lineno)
                first.setdefault(k, n[0])
                last[k] = n[0]
            return loc
        return loc
    x = Call(name, v)
    sys.settrace(tr)
    try:
        x.run()
    finally:
        sys.settrace(None)
    return sorted(set(first.values()) | set(last.values())), {n: k for d in (first, last) for k, n in d.items()}


@contextlib.contextmanager
def at_line(target, act):
    """act() just before the target-th executed line of the package"""
    P = pkg()
    n = [0]
    known = {}

    def loc(f, e, a):
        if e == "line":
            n[0] += 1
            if n[0] == target:
                sys.settrace(None)
                act()
        return loc

    def tr(fr, ev, arg):
        fn = fr.f_code.co_filename
        k = known.get(fn)
        if k is None:
            k = known[fn] = os.path.realpath(fn).startswith(P)
        return loc if k and n[0] < target else None
    sys.settrace(tr)
    try:
        yield n
    finally:
        sys.settrace(None)


class Stop(BaseException):
    """the user's Ctrl-C"""


def cases_line(tier):
    for n, e in K.E.items():
        yield dict(n=n, v=0)
        if tier == "thorough":
            yield dict(n=n, v=2)
            yield dict(n=n, v=3)


def cases_overlap(tier):
    return [c for c in cases_line(tier) if "pyplot" not in K.E[c["n"]].tags]


def others(name):
    """a few other functions to run: the two neighbours in the catalogue (usually of the same module)"""
    l = [n for n, e in K.E.items() if n == name or "pyplot" not in e.tags]
    i = l.index(name)
    return [l[i - 1], l[(i + 1) % len(l)]]


def everywhere(name, v, visit, limit):
    """visit(point, what) at every marked line -> False when the line was not reached. Lines that only a first call reaches
    (values kept from an earlier call) are visited again, each in a process that has not made the call before."""
    def first():
        settings(0)
        return marks(name, v)
    pts, where = child(first, limit)
    label = {p: f"{os.path.basename(where[p][0])}:{where[p][1]}" for p in pts}

    def go():
        settings(0)
        return [p for p in pts if visit(p, label[p]) is False]
    for p in child(go, limit):
        def one():
            settings(0)
            visit(p, label[p])
        child(one, limit)
    return len(pts)


def check_interrupt(c):
    name, v = c["n"], c["v"]
    steps = [(name, v, 0)] + [(name, w, 0) for w in range(K.NV) if w != v and not K.E[name].slow][:1] + [(m, 0, 0) for m in others(name)[:1] if not K.E[m].slow]

    def visit(p, at):
        w0 = lasting()
        x = Call(name, v)
        there = []

        def stop():
            there.append(1)
            raise Stop()
        try:
            with at_line(p, stop):
                x.run()
        except Stop:
            pass
        except Exception:
            pass                # the code turned the interrupt into another error
        x.r = None
        x.poison()
        w1 = lasting()
        for k in w0:
            expect(w0[k] == w1.get(k), "interrupted-side-effect", lambda: f"{name} interrupted before {at} changed the {k}: {core.short(w0[k], 60)} -> {core.short(w1.get(k), 60)}")
        for n2, w, s in steps:
            y = Call(n2, w)
            try:
                r = y.run()
            except Exception as e:
                raise Fail("interrupted", f"{n2} (variant {w}) after {name} interrupted before {at} raises {e!r}")
            compare(n2, w, s, r, "interrupted", f"after {name} interrupted before {at}")
        return bool(there)
    n = everywhere(name, v, visit, 280)
    return {(name, v, i) for i in range(n)} or None


def check_overlap(c):
    name, v = c["n"], c["v"]
    inner = [(name, w) for w in range(K.NV) if w != v][:1 if K.E[name].slow else 3] + [(m, 0) for m in others(name) if not K.E[m].slow][:1]

    def visiting(n2, w):
        def visit(p, at):
            x = Call(name, v)
            out = []

            def run():
                st = np.random.get_state()
                y = Call(n2, w)
                out.append(y.run())
                compare(n2, w, 0, out[0], "overlap", f"run while {name} (variant {v}) was at {at}")
                poison(out[0])
                np.random.set_state(st)
            with at_line(p, run):
                r = x.run()
            compare(name, v, 0, r, "overlap", f"while {n2} (variant {w}) ran at {at}")
            return bool(out)
        return visit
    n = sum(everywhere(name, v, visiting(n2, w), 580) for n2, w in inner)
    return {(name, v, i) for i in range(n)} or None


# ---------------------------------------------------------------- suite: unusual and failed calls

BAD = [None, "no such thing", np.zeros((0,)), -1, {"a": 1}, np.full((2, 2), np.nan)]
VALUES = {
    "zero": lambda a: a * 0, "one": lambda a: a * 0 + 1, "plus 2": lambda a: a + 2, "negative": lambda a: -a, "times 1000": lambda a: a * 1000, "halved": lambda a: a / 2,
    "with a nan": lambda a: _edge(a, np.nan), "with an infinity": lambda a: _edge(a, np.inf), "one longer": lambda a: np.concatenate([a, a[:1]]), "one shorter": lambda a: a[1:].copy(),
    "another axis": lambda a: a[None].copy(), "without an axis": lambda a: a[0].copy(),
}


def _edge(a, x):
    b = a.astype(complex if a.dtype.kind == "c" else float)
    b.flat[b.size // 2] = x
    return b


def values(v):
    """other values of an argument"""
    if isinstance(v, np.ndarray) and v.ndim and v.size:
        if v.dtype.kind == "b":
            return [("inverted", lambda q: ~q), ("all false", lambda q: q & False), ("all true", lambda q: q | True)]
        return list(VALUES.items())
    if isinstance(v, (bool, np.bool_)):
        return [("inverted", lambda q: not q)]
    if isinstance(v, (int, float)):
        return [("zero", lambda q: type(q)(0)), ("doubled", lambda q: 2 * q), ("negative", lambda q: -q), ("one more", lambda q: q + 1)]
    return []


def params(x):
    """positions and names of the arguments of a call, given or left to their defaults"""
    import inspect
    out = [(i, True, v) for i, v in enumerate(x.a)] + [(k, True, v) for k, v in x.k.items()]
    try:
        ps = list(inspect.signature(x.f).parameters.values())
    except (TypeError, ValueError):
        return out
    for i, p in enumerate(ps):
        if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY) and i >= len(x.a) and p.name not in x.k and p.default is not p.empty:
            out.append((p.name, False, p.default))
    return out


def unusual(name, v):
    """-> (argument, description, function to be applied to its present value)"""
    x = Call(name, v)
    for slot, given, val in params(x):
        if slot in ("n_jobs", "n_process", "njobs", "ncores", "save_uvmap", "filename", "iterations", "n_segments"):
            if not given:
                continue
        if v == 0:
            for bad in BAD:
                yield slot, core.short(bad), (lambda q, bad=bad: bad)
        if slot not in ("n_jobs", "checkpoint", "iterations", "n_segments", "ncells", "verbose"):
            for what, fn in values(val):
                yield slot, what, fn


def lasting():
    """the part of the world that must be the same even after a call that failed"""
    t = t2c()
    w = {"numpy error handling": np.geterr(), "working directory": os.getcwd(), "environment": dict(os.environ), "import path": list(sys.path), "recursion limit": sys.getrecursionlimit()}
    for m in (t.const, t.conv):
        for k, v in vars(m).items():
            if isinstance(v, (int, float, str, bool, np.number, np.ndarray, list, dict)) and not k.startswith("__"):
                w[f"{m.__name__}.{k}"] = repr(v)
    return w


def cases_failed(tier):
    for n, e in K.E.items():
        if "unusual hangs in skimage" not in e.tags and (not e.slow or tier == "thorough"):
            for v in (range(K.NV) if tier == "thorough" else (0,)):
                yield dict(n=n, v=v)


def check_failed(c):
    name, v = c["n"], c["v"]

    def go():
        settings(0)
        rc, states = 0, set()
        after = [(name, 0), (name, 1)] + [(m, 0) for m in others(name)[:1] if not K.E[m].slow]
        w0 = lasting()
        todo = list(unusual(name, v))
        for pos, (slot, what, fn) in enumerate(todo):
            x = Call(name, v)
            x.a, x.k = list(x.a), dict(x.k)
            cur = {q: val for q, _, val in params(x)}[slot]
            try:
                y = fn(cur)
            except Exception:
                continue
            if isinstance(slot, int):
                x.a[slot] = y
            else:
                x.k[slot] = y
            snap = [core._snap(q) for q in list(x.a) + list(x.k.values())]
            label = f"{name} (variant {v}) with {slot}={what}"
            signal.signal(signal.SIGALRM, _enough)
            signal.setitimer(signal.ITIMER_REAL, .5)
            done = "failed"
            try:
                x.run()
                done = "finished"
            except (Exception, core.CaseTimeout):
                pass
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            rc += 1
            states.add((name, v, str(slot), done))
            w = lasting()
            for k in w0:
                expect(w0[k] == w.get(k), "failed-side-effect", lambda: f"{label}, which {done}, changed the {k}: {core.short(w0[k], 60)} -> {core.short(w.get(k), 60)}")
            for z in snap:
                m = core._changed(z) if z is not None else None
                expect(not m, "argument-changed", lambda: f"{label}, which {done}, changed an argument: {m}")
            x.r = None
            if pos + 1 == len(todo) or todo[pos + 1][0] != slot or done == "failed" and rc % 3 == 0:
                for n2, q in after:
                    z = Call(n2, q)
                    try:
                        r = z.run()
                    except Exception as e:
                        raise Fail("after-failed", f"{n2} (variant {q}) after {label} raises {e!r}")
                    compare(n2, q, 0, r, "after-failed", f"after {label}, which {done}")
        return states
    return child(go, 280) or None


# ---------------------------------------------------------------- suite: a file changes between two reads

def cases_file(tier):
    for n, e in K.E.items():
        if "file" in e.tags and n in ("XfracFile", "DensityFile", "VelocityFile", "read_cbin", "get_data_and_type", "read_c2ray_files", "get_mesh_size", "coeval_xfrac", "coeval_dens", "coeval_21cm", "make_lightcone-files", "get_xfrac_redshifts"):
            yield dict(n=n)


def check_file(c):
    """the files of the directory are exchanged between two calls with the same arguments (same names, sizes and times)"""
    name = c["n"]

    def go():
        settings(0)
        src = K._dir()
        with core.scratch_dir() as d:
            tgt = os.path.join(d, "catalog")
            shutil.copytree(src, tgt)
            K._dir = lambda: tgt
            x = Call(name, 0)
            a = norm(x.run())
            # exchange the contents of the first three redshifts cyclically, keeping names, sizes and times
            for sub in ("x", "d", "v", "misc"):
                l = sorted(os.listdir(os.path.join(tgt, sub)))[:3]
                l = [f for f in l if os.path.getsize(os.path.join(tgt, sub, f)) == os.path.getsize(os.path.join(tgt, sub, l[0]))]
                data = [open(os.path.join(tgt, sub, f), "rb").read() for f in l]
                for f, b in zip(l, data[1:] + data[:1]):
                    p = os.path.join(tgt, sub, f)
                    st = os.stat(p)
                    with open(p, "wb") as h:
                        h.write(b)
                    os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
            warmed = norm(Call(name, 0).run())
            fresh = child(lambda: None, 5)          # (nothing: the fresh process is made before any call below)
            return a, warmed, fresh

    def fresh():
        settings(0)
        src = K._dir()
        with core.scratch_dir() as d:
            tgt = os.path.join(d, "catalog")
            shutil.copytree(src, tgt)
            K._dir = lambda: tgt
            for sub in ("x", "d", "v", "misc"):
                l = sorted(os.listdir(os.path.join(tgt, sub)))[:3]
                l = [f for f in l if os.path.getsize(os.path.join(tgt, sub, f)) == os.path.getsize(os.path.join(tgt, sub, l[0]))]
                data = [open(os.path.join(tgt, sub, f), "rb").read() for f in l]
                for f, b in zip(l, data[1:] + data[:1]):
                    with open(os.path.join(tgt, sub, f), "wb") as h:
                        h.write(b)
            return norm(Call(name, 0).run())
    _, warmed, _ = child(go, 60)
    want = child(fresh, 60)
    C.compares += 1

    def strip(n):           # file names differ by the scratch directory
        if n[0] == "d":
            return ("d", [(k, strip(v)) for k, v in n[1] if "filename" not in k])
        if n[0] == "l":
            return ("l", [strip(v) for v in n[1]])
        if n[0] == "o":
            return ("o", n[1], strip(n[2]))
        return n
    d = same(strip(warmed), strip(want))
    if d:
        raise Fail("stale-file", f"{name} after its file was replaced: {d}")
    return name


SUITES = [
    FnSuite("effects", cases_world, check_world, "all calls of the catalogue x 4 variants x 2 settings, each in a process of its own", timeout=300),
    FnSuite("same-function", cases_same, check_same, "all functions of the catalogue: all sequences of 2 (3) calls out of 4 variants x 2 settings", timeout=300, chunk=2),
    FnSuite("pairs", cases_pairs, check_pairs, "all ordered pairs of calls of the catalogue (thorough: x 4 variants x 2 settings)", timeout=600, chunk=1),
    FnSuite("interrupted", cases_line, check_interrupt, "all functions of the catalogue: interrupted before the first and last execution of every line", timeout=300, chunk=1),
    FnSuite("overlapping", cases_overlap, check_overlap, "all functions of the catalogue x 3 other argument variants + another function, run at the first and last execution of every line", timeout=600, chunk=1),
    FnSuite("failed", cases_failed, check_failed, "all functions of the catalogue x (4) variants x all arguments, given or default, x 6 unusable and up to 12 unusual values", timeout=300, chunk=1),
    FnSuite("files", cases_file, check_file, "all readers: contents exchanged between two reads, names, sizes and times kept", timeout=120, chunk=1),
]
