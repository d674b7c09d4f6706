"""Bounded exhaustive explorer.

A property module (mc/props/<id>.py) provides

    TITLE      short text
    ASSUMPTIONS list of strings
    SUITES     list of Suite objects

A Suite enumerates a finite, explicitly bounded space of *cases* (JSON-able
dicts: an input, an operation sequence, a schedule, a crash point ...) and
`check(case)` executes the real tools21cm code on that case and compares every
observable with a small reference model.  It raises Fail on disagreement and
otherwise returns an observation (anything hashable/repr-able) which is used to
count distinct reached states.  Nothing is sampled: every case is executed.
"""
import gc
import hashlib
import importlib
import io
import itertools
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import contextlib
import fnmatch
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

import numpy as np

ROOT = os.environ.get("MC_ROOT", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("MC_REPO", "/repo")
SCRATCH = os.environ.get("MC_SCRATCH", "/tmp")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class Fail(Exception):
    """The property is broken on this case. kind: short stable tag."""

    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind
        self.msg = msg


class CaseTimeout(Exception):
    pass


class Counters:
    calls = 0      # calls of real tools21cm code
    compares = 0   # comparisons with the reference model


C = Counters()


class Suite:
    name = "suite"
    timeout = 60.0

    def cases(self, tier):
        raise NotImplementedError

    def check(self, case):
        raise NotImplementedError


class FnSuite(Suite):
    """Suite from a pair of functions."""

    def __init__(self, name, cases, check, bounds="", timeout=60.0, chunk=None, serial=False):
        self.name = name
        self._cases = cases
        self._check = check
        self.bounds = bounds
        self.timeout = timeout
        self.chunk = chunk
        self.serial = serial

    def cases(self, tier):
        return self._cases(tier)

    def check(self, case):
        return self._check(case)


# ---------------------------------------------------------------- helpers

def _snap(x, depth=0):
    if isinstance(x, np.ndarray):
        return ("a", x, x.copy())
    if depth < 2 and isinstance(x, (list, tuple)):
        return ("l", x, [_snap(v, depth + 1) for v in x], len(x))
    if depth < 2 and isinstance(x, dict):
        return ("d", x, {k: _snap(v, depth + 1) for k, v in x.items()}, len(x))
    return None


def _same_bits(a, b):
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if a.dtype == object:
        return True
    try:
        return np.array_equal(a, b, equal_nan=True)
    except TypeError:
        return np.array_equal(a, b)


def _changed(s):
    if s is None:
        return False
    if s[0] == "a":
        return not _same_bits(s[1], s[2])
    if s[0] == "l":
        return len(s[1]) != s[3] or any(_changed(v) for v in s[2])
    if s[0] == "d":
        return len(s[1]) != s[3] or any(_changed(v) for v in s[2].values())


def call(fn, *a, mutates=False, **k):
    """Call real code, silenced; unless mutates=True the arguments must survive unchanged."""
    snaps = None if mutates else ([_snap(x) for x in a], {n: _snap(x) for n, x in k.items()})
    C.calls += 1
    try:
        out = fn(*a, **k)
    except (Fail, CaseTimeout, KeyboardInterrupt):
        raise
    except Exception as e:  # an exception on a legal input is a violation
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if "tools21cm" in f.filename), "?")
        raise Fail("raises:" + type(e).__name__,
                   f"{getattr(fn, '__name__', fn)} raised {type(e).__name__}: {e} (at {where})")
    if snaps is not None:
        for i, s in enumerate(snaps[0]):
            C.compares += 1
            if _changed(s):
                raise Fail("mutates-input", f"{getattr(fn, '__name__', fn)} modified its argument {i}")
        for n, s in snaps[1].items():
            C.compares += 1
            if _changed(s):
                raise Fail("mutates-input", f"{getattr(fn, '__name__', fn)} modified its argument {n!r}")
    return out


def must_raise(fn, *a, kind="no-error", what="", exc=Exception, **k):
    C.calls += 1
    C.compares += 1
    try:
        r = fn(*a, **k)
    except (Fail, CaseTimeout, KeyboardInterrupt):
        raise
    except exc:
        return True
    except Exception as e:
        raise Fail(kind, f"{getattr(fn, '__name__', fn)} raised {type(e).__name__} {e}, expected {exc}; {what}")
    raise Fail(kind, f"{getattr(fn, '__name__', fn)} accepted an input it must reject ({what}); returned {short(r)}")


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def expect(cond, kind, msg):
    C.compares += 1
    if not cond:
        raise Fail(kind, msg() if callable(msg) else msg)


def eq(got, want, kind, what=""):
    """exact equality (arrays or scalars)"""
    C.compares += 1
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Fail(kind, f"{what}: shape {g.shape}, expected {w.shape}; got {short(g)} expected {short(w)}")
    same = np.array_equal(g, w)
    if not same:
        raise Fail(kind, f"{what}: got {short(g)} expected {short(w)}")


def near(got, want, kind, what="", rtol=1e-6, atol=0.0, scale=None):
    """closeness; scale: atol is relative to max|want| when given True"""
    C.compares += 1
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Fail(kind, f"{what}: shape {g.shape}, expected {w.shape}; got {short(g)} expected {short(w)}")
    if scale:
        m = np.abs(w[np.isfinite(w)]).max() if w.size and np.isfinite(w).any() else 0.0
        atol = max(atol, scale * m)
    try:
        ok = np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
    except TypeError:
        ok = False
    if not ok:
        with np.errstate(all="ignore"):
            try:
                d = float(np.nanmax(np.abs(g - w)))
            except Exception:
                d = "?"
        raise Fail(kind, f"{what}: max diff {d}; got {short(g)} expected {short(w)}")


def digest(*xs):
    h = hashlib.blake2b(digest_size=8)
    for x in xs:
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                h.update(repr(x.tolist()).encode())
            else:
                y = x
                if np.issubdtype(x.dtype, np.floating):
                    y = np.asarray(x, dtype=np.float64)
                    with np.errstate(all="ignore"):
                        y = np.array([float("%.6g" % v) for v in y.ravel()]) if y.size < 2000 else np.round(y, 6)
                h.update(str(x.shape).encode())
                h.update(np.ascontiguousarray(y).tobytes())
        elif isinstance(x, (float, np.floating)):
            h.update(("%.6g" % float(x)).encode())
        else:
            h.update(repr(x).encode())
        h.update(b"|")
    return h.hexdigest()


def field(shape, salt=0, dtype=np.float64, lo=0.0, hi=1.0):
    """fixed generic field (no symmetry, all values distinct): fractional parts of multiples of sqrt(2)"""
    n = int(np.prod(shape))
    i = np.arange(1, n + 1, dtype=np.float64)
    v = np.modf(i * 1.4142135623730951 + (salt + 1) * 0.7320508075688772 * i * i / 7.0 + 0.1 * salt)[0]
    return (lo + (hi - lo) * v).reshape(shape).astype(dtype)


@contextlib.contextmanager
def scratch_dir():
    import shutil
    import tempfile
    d = tempfile.mkdtemp(dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def t2c():
    """import the package under test, with sleeping disabled (time is not part of any property)"""
    import time as _t
    if not getattr(_t, "_mc_patched", False):
        _t._mc_real_sleep = _t.sleep
        _t.sleep = lambda s=0: None
        _t._mc_patched = True
    import tools21cm
    if not os.path.realpath(tools21cm.__file__).startswith(os.path.realpath(REPO) + "/src/"):
        raise RuntimeError(f"wrong tools21cm: {tools21cm.__file__}")
    return tools21cm


# ---------------------------------------------------------------- runner

_SUITES = None
_CASES = None


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)

    def isatty(self):
        return False


_CLOCK = [0.0, 0, 60.0]     # cpu time at the start of the case, extensions given, limit


def _alarm(signum, frame):
    # on a stalled machine the case has hardly run: give it more time before calling it endless
    if time.process_time() - _CLOCK[0] < .5 * _CLOCK[2] * (_CLOCK[1] + 1) and _CLOCK[1] < 2:
        _CLOCK[1] += 1
        signal.setitimer(signal.ITIMER_REAL, min(_CLOCK[2], 60.0))
        return
    raise CaseTimeout()


def run_case(suite, case):
    """-> (status, kind, msg, obs)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    _CLOCK[:] = [time.process_time(), 0, suite.timeout]
    signal.setitimer(signal.ITIMER_REAL, suite.timeout)
    null = _Null()
    np.random.seed(12345)
    random.seed(12345)
    try:
        with contextlib.redirect_stdout(null), contextlib.redirect_stderr(null), np.errstate(all="ignore"):
            obs = suite.check(case)
        return ("ok", None, None, obs)
    except Fail as f:
        return ("fail", f.kind, f.msg, None)
    except CaseTimeout:
        return ("fail", "no-termination", f"case did not finish within {suite.timeout} s", None)
    except MemoryError:
        return ("error", "MemoryError", traceback.format_exc(), None)
    except Exception as e:
        # the outputs could not even be interpreted (wrong type, shape, missing key ...)
        return ("fail", "malformed:" + type(e).__name__, traceback.format_exc()[-700:], None)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _work(lo, hi):
    # silence C-level and library output of workers
    C.calls = C.compares = 0
    seen, fails, errors, trivial = set(), [], [], 0
    t0 = time.time()
    for n in range(lo, hi):
        si, case = _CASES[n]
        st, kind, msg, obs = run_case(_SUITES[si], case)
        if st == "ok":
            if obs is None:
                trivial += 1
            elif isinstance(obs, set):
                for o in obs:
                    seen.add((si, hashlib.blake2b(repr(o).encode(), digest_size=8).digest()))
            else:
                seen.add((si, hashlib.blake2b(repr(obs).encode(), digest_size=8).digest()))
        elif st == "fail":
            fails.append((n, kind, msg))
            if len(fails) >= 40 or kind == "no-termination":
                break
        else:
            errors.append((n, kind, msg))
            if len(errors) >= 5:
                break
    return dict(n=hi - lo, calls=C.calls, compares=C.compares, seen=seen, fails=fails,
                errors=errors, trivial=trivial, wall=time.time() - t0, lo=lo)


def case_key(suite, case):
    return suite.name + ":" + json.dumps(case, sort_keys=True, separators=(",", ":"))


def load_known(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p)).get("findings", []):
            if e["property"] == pid:
                out.append(e)
    return out


def _matches(e, suite, case, kind):
    if e["suite"] != suite.name or e["kind"] != kind:
        return False
    for k, v in e.get("case", {}).items():
        if k not in case:
            return False
        if isinstance(v, dict) and "in" in v:
            if case[k] not in v["in"]:
                return False
        elif case[k] != v:
            return False
    return True


def main(argv):
    global _SUITES, _CASES
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    replay = None
    only = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = rest.pop(0)
        elif a == "--suite":
            only = rest.pop(0)
        else:
            print("unknown argument", a)
            return 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    null = _Null()
    mod = importlib.import_module(f"mc.props.{pid}")
    with contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
        if hasattr(mod, "pre_import"):
            mod.pre_import()
        t2c()
        if hasattr(mod, "setup"):
            mod.setup(tier)
    suites = mod.SUITES if only is None else [s for s in mod.SUITES if s.name == only]
    _SUITES = suites
    if replay:
        r = json.load(open(replay))
        su = next(s for s in mod.SUITES if s.name == r["suite"])
        st, kind, msg, obs = run_case(su, r["case"])
        print(f"replay {r['suite']} {json.dumps(r['case'])}: {st} {kind or ''} {msg or ''}")
        return 1 if st == "fail" else (0 if st == "ok" else 2)

    cases = []
    percase = {}
    for si, s in enumerate(suites):
        n0 = len(cases)
        cases.extend((si, c) for c in s.cases(tier))
        percase[s.name] = len(cases) - n0
    _CASES = cases
    N = len(cases)
    nw = int(os.environ.get("MC_WORKERS", "8"))
    known = load_known(pid)
    # contiguous chunks inside each suite
    chunks, i = [], 0
    for si, s in enumerate(suites):
        n = percase[s.name]
        size = getattr(s, "chunk", None) or max(1, min(200, n // (nw * 6) or 1))
        for lo in range(i, i + n, size):
            chunks.append((lo, min(lo + size, i + n)))
        i += n
    tot = dict(calls=0, compares=0, trivial=0, n=0)
    seen, fails, errors = set(), [], []
    broken = None
    suite_wall = {}
    ctx = mp.get_context("fork")
    sys.stdout.flush()
    devnull = os.open(os.devnull, os.O_WRONLY)

    def init():
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)

    gc.collect()
    gc.freeze()   # explicit gc.collect() calls in the code under test must not rescan the whole runner
    stop = False
    with ProcessPoolExecutor(max_workers=nw, mp_context=ctx, initializer=init) as ex:
        futs = {ex.submit(_work, lo, hi): (lo, hi) for lo, hi in chunks}
        try:
            for f in as_completed(futs):
                if f.cancelled():
                    continue
                r = f.result()
                for k in ("calls", "compares", "trivial", "n"):
                    tot[k] += r[k]
                nm = suites[cases[r["lo"]][0]].name
                suite_wall[nm] = suite_wall.get(nm, 0.0) + r["wall"]
                seen |= r["seen"]
                errors += r["errors"]
                for n, kind, msg in r["fails"]:
                    si, c = cases[n]
                    fails.append((n, kind, msg))
                unknown = sum(1 for n, kind, msg in fails
                              if not any(_matches(e, suites[cases[n][0]], cases[n][1], kind) for e in known))
                hung = sum(1 for n, kind, msg in fails if kind == "no-termination")
                if (unknown >= 60 or hung >= 3 or len(errors) >= 20) and not stop:
                    stop = True
                    for g in futs:
                        g.cancel()
        except BrokenProcessPool as e:
            broken = str(e)
    wall = time.time() - t0
    fails.sort(key=lambda x: x[0])
    hit, bad = {}, []
    for n, kind, msg in fails:
        si, c = cases[n]
        for ke, e in enumerate(known):
            if _matches(e, suites[si], c, kind):
                hit.setdefault(ke, []).append((n, kind, msg))
                break
        else:
            bad.append((n, kind, msg))
    rc = 0
    for ke, e in enumerate(known):
        if ke in hit:
            print(f"KNOWN-FINDING: property={pid} {e['what']} ({len(hit[ke])} cases)")
    if bad:
        rc = 1
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        shown = set()
        for n, kind, msg in bad:
            si, c = cases[n]
            if (si, kind) in shown:
                continue
            shown.add((si, kind))
            p = os.path.join(ROOT, "replays", f"{pid}-{hashlib.md5(case_key(suites[si], c).encode()).hexdigest()[:10]}.json")
            json.dump(dict(property=pid, suite=suites[si].name, case=c, kind=kind, message=msg,
                           how=f"./check {pid} --replay {p}"), open(p, "w"), indent=1)
            print(f"  [{suites[si].name}] {kind}: {msg[:600]}")
            print(f"  case: {json.dumps(c)[:400]}")
            print(f"VIOLATION property={pid} replay={p}")
            if len(shown) >= 8:
                break
    if errors or broken:
        for n, kind, msg in errors[:3]:
            print(f"harness error in {suites[cases[n][0]].name} {json.dumps(cases[n][1])[:300]}:\n{msg}")
        if broken:
            print("worker died:", broken)
        if rc == 0:
            rc = 3
    nstates = {}
    for si, _ in seen:
        nstates[suites[si].name] = nstates.get(suites[si].name, 0) + 1
    samples = []
    for si, s in enumerate(suites):
        idx = [k for k, (a, c) in enumerate(cases) if a == si]
        if idx:
            samples.append({"suite": s.name, "cases": len(idx), "states": nstates.get(s.name, 0), "bounds": s.bounds,
                            "first": cases[idx[0]][1], "last": cases[idx[-1]][1]})
    ev = {
        "property": pid, "tier": tier, "seed": SEED, "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": len(seen), "transitions": tot["calls"],
            "traces_validated_against_impl": tot["n"] - len(fails) - len(errors),
            "evaluations": tot["compares"],
            "rule": "cases are the complete enumeration of the bounded spaces listed in samples; every case runs the real "
                    "code and is compared with the reference model; a state is a distinct (suite, observation) pair, "
                    "a transition is one call of the real implementation, an evaluation is one comparison",
            "exhaustive": not stop and not errors and not broken and tier in ("quick", "thorough"),
            "samples": samples,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(bad),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if only is None:
        json.dump(ev, open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    print(f"{pid} {tier}: cases={N} states={len(seen)} transitions={tot['calls']} evaluations={tot['compares']} "
          f"violations={len(bad)} known={sum(map(len, hit.values()))} errors={len(errors)} wall={wall:.1f}s")
    for s in suites:
        print(f"   {s.name}: cases={percase[s.name]} states={nstates.get(s.name, 0)} cpu={suite_wall.get(s.name, 0):.1f}s")
    return rc


if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    # run under the importable name so that property modules share this module's classes
    from mc import core
    try:
        rc = core.main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
