"""P23: the cache of uv maps survives crashes and is independent of how it was filled; dictionary files round trip."""
import builtins
import io
import itertools
import json
import os
import sys

import numpy as np

from mc.core import C, Fail, FnSuite, call, digest, eq, expect, field, must_raise, near, scratch_dir, t2c
from mc.props import P22

TITLE = "The uv-map cache survives every crash and does not depend on how it was filled"
ASSUMPTIONS = [
    "process crashes (kill at any executed line of the cache code or after any byte written), not power failures: what was written and flushed stays written",
    "redshifts closer than 0.001 share one entry by construction of the keys and are not used",
    "json and yaml are only asked for dictionaries they can represent; hdf5, netcdf, zarr and parquet are not installed here",
    "two processes: the second one runs completely at an arbitrary line of the first one (one preemption)",
]


def NOI():
    t2c()
    import tools21cm.radio_telescope_noise as m
    return m


def RF():
    t2c()
    import tools21cm.read_files as m
    return m


ANT = np.array(P22.ANTS[3]) / 10
ANT_B = np.array(P22.ANTS[4]) / 10
KW = dict(total_int_time=1., int_time=600., boxsize=900., declination=-30.)
ZALL = (7., 7.5, 8.25, 9.125, 10., 11.062)
_truth = {}


def key(z):
    return "%.3f" % z


def truth(z, n=3, ants=None, kw=KW):
    a = ANT if ants is None else ants
    k = (z, n, a.tobytes(), tuple(sorted(kw.items())))
    if k not in _truth:
        _truth[k] = np.asarray(NOI().get_uv_map(n, z, subarray_type=a, verbose=False, **kw)[0])
    return _truth[k]


def check_maps(d, zs, what, only=None, n=3, ants=None):
    """d holds correct maps for zs; every map in d is correct"""
    for z in zs:
        expect(key(z) in d, "map-missing", lambda: f"{what}: no map for z={z}, only {sorted(k for k in d if k[0].isdigit())}")
    for k in d:
        try:
            z = float(k)
        except ValueError:
            continue
        near(np.asarray(d[k]), truth(z, n, ants), "wrong-map", f"{what}: z={k}", rtol=1e-6, atol=1e-9)
        expect(only is None or any(key(o) == k for o in only), "extra-map", f"{what}: unexpected map {k}")


def run(path, zs, jobs=1, cp=2, n=3, ants=None, perm=None, kw=KW):
    P22.Orders.perm = (lambda m: perm if perm is not None and len(perm) == m else range(m))
    with P22.ordered(NOI()):
        return NOI().get_uv_map_lightcone(n, zs, subarray_type=ANT if ants is None else ants, save_uvmap=path, n_jobs=jobs, checkpoint=cp, verbose=False, **kw)


# ---------------------------------------------------------------- result independent of the way

def cases_way(tier):
    for m in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for jobs in (1, 2, 5):
            for cp in (None, 0, 1, 2, 3, 7):
                for form in ("list", "array", "tuple"):
                    yield dict(m=m, jobs=jobs, cp=cp, form=form)


def check_way(c):
    obs = set()
    zs0 = ZALL[:c["m"]]
    orders = list(itertools.permutations(zs0))
    if len(orders) > 6:
        orders = orders[::max(1, len(orders) // 6)]
    for o in orders:
        zs = {"list": list, "array": np.array, "tuple": tuple}[c["form"]](o)
        for perm in (None, tuple(range(c["m"]))[::-1]):
            with scratch_dir() as d:
                for path in (None, os.path.join(d, "uv.pkl"), os.path.join(d, "uv.npz")):
                    C.calls += 1
                    r = run(path, zs, c["jobs"], c["cp"], perm=perm)
                    check_maps(r, zs0, f"{o} {c}", only=zs0)
                    near(r["boxsize"], 900., "cache-params", "boxsize")
                    eq(r["ncells"], 3, "cache-params", "ncells")
                    eq(r["N_ant"], 3, "cache-params", "N_ant")
                    if path:
                        f = RF().read_dictionary_data(path)
                        check_maps(f, zs0, f"file {o} {c}", only=zs0)
                        expect(os.listdir(d).count(os.path.basename(path)) == 1 and not [x for x in os.listdir(d) if "tmp" in x], "left-over", f"{os.listdir(d)}")
                    obs.add(digest(*[np.asarray(r[key(z)]) for z in zs0]))
    return obs


# ---------------------------------------------------------------- histories of runs sharing one file

OPS = {
    "a": dict(zs=(7.,), jobs=1, cp=2),
    "ab": dict(zs=(7., 7.5), jobs=2, cp=1),
    "cba": dict(zs=(8.25, 7.5, 7.), jobs=1, cp=1),
    "cd": dict(zs=(8.25, 9.125), jobs=3, cp=None),
    "dbe": dict(zs=(9.125, 7.5, 10.), jobs=2, cp=2),
    # rejected: other parameters
    "x-n": dict(zs=(7., 8.25), n=4),
    "x-box": dict(zs=(7.,), kw=dict(KW, boxsize=901.)),
    "x-dec": dict(zs=(9.125,), kw=dict(KW, declination=-31.)),
    "x-int": dict(zs=(7.,), kw=dict(KW, int_time=900.)),
    "x-tot": dict(zs=(7.,), kw=dict(KW, total_int_time=2.)),
    "x-ant": dict(zs=(7.,), ants=ANT_B),
    # failures in the middle
    "f1": dict(zs=(7., 7.5, 8.25, 9.125), jobs=1, cp=1, fail=3),
    "f2": dict(zs=(10., 8.25, 7.), jobs=1, cp=2, fail=2),
    "f3": dict(zs=(9.125, 7.5, 8.25, 10., 7.), jobs=2, cp=2, fail=3),
}


class failing:
    """the k-th simulation of a map fails"""

    def __init__(self, k):
        self.k = k
        self.n = 0

    def __enter__(self):
        self.m = NOI()
        self.o = self.m.get_uv_map

        def g(*a, **kw):
            self.n += 1
            if self.n == self.k:
                raise OSError("injected")
            return self.o(*a, **kw)
        self.m.get_uv_map = g
        return self

    def __exit__(self, *e):
        self.m.get_uv_map = self.o


def cases_hist(tier):
    depth = 3 if tier == "quick" else 4
    for ext in ("pkl", "npz"):
        for s in itertools.product(OPS, repeat=2):
            yield dict(ext=ext, ops=list(s))
        if tier == "quick":
            good = [o for o in OPS if not o.startswith("x") or o in ("x-n", "x-ant")]
            for s in itertools.product(good, repeat=3):
                if ext == "pkl" or s[0][0] in "ac":
                    yield dict(ext=ext, ops=list(s))
        else:
            for s in itertools.product(OPS, repeat=3):
                yield dict(ext=ext, ops=list(s))
            if ext == "pkl":
                good = [o for o in OPS if not o.startswith("x")] + ["x-n"]
                for s in itertools.product(good, repeat=4):
                    yield dict(ext=ext, ops=list(s))


def check_hist(c):
    with scratch_dir() as d:
        path = os.path.join(d, "maps." + c["ext"])
        have = None          # redshifts certainly in the file, None = no file
        allz = set()
        for i, o in enumerate(c["ops"]):
            p = OPS[o]
            what = f"step {i + 1} ({o}) of {c['ops']}"
            a = dict(jobs=p.get("jobs", 1), cp=p.get("cp", 2), n=p.get("n", 3), ants=p.get("ants"), kw=p.get("kw", KW))
            C.calls += 1
            if o[0] == "x" and have is not None:
                before = open(path, "rb").read()
                try:
                    run(path, p["zs"], **a)
                except ValueError:
                    pass
                else:
                    raise Fail("mismatch-accepted", f"{what}: maps of another set-up were accepted")
                expect(open(path, "rb").read() == before, "mismatch-changed-file", what)
                continue
            if o[0] == "x":
                continue
            if "fail" in p:
                with failing(p["fail"]) as f:
                    try:
                        r = run(path, p["zs"], **a)
                    except OSError:
                        r = None
                new = [z for z in p["zs"] if z not in allz]
                if r is None:
                    # whatever a completed checkpoint has saved is there
                    done = f.k - 1
                    cp = a["cp"]
                    saved = new[:done // cp * cp]
                    if saved:
                        have = (have or set()) | set(saved)
                    if have is None:
                        expect(not os.path.exists(path), "partial-file", f"{what}: a file without a completed checkpoint")
                else:
                    have = (have or set()) | set(p["zs"])
            else:
                try:
                    r = run(path, p["zs"], **a)
                except Fail:
                    raise
                except Exception as e:
                    raise Fail("raises:" + type(e).__name__, f"{what}: {e}")
                have = (have or set()) | set(p["zs"])
                check_maps(r, have, what)
                near(r["boxsize"], 900., "cache-params", what)
            if have is not None:
                f = RF().read_dictionary_data(path)
                check_maps(f, have, what + " file")
                allz = {z for z in ZALL if key(z) in f}
                if "fail" not in p:
                    expect(allz == have or allz >= have, "cache-lost", what)
                have = set(allz)
        return digest(sorted(have or []), c["ext"])


# ---------------------------------------------------------------- long runs: the state of the file before every single simulation

def cases_long(tier):
    for m in range(1, 14 if tier == "quick" else 36):
        for cp in (1, 2, 3, 4, 5, 16, None):
            for jobs in (1, 3):
                for pre in (0, 3):
                    yield dict(m=m, cp=cp, jobs=jobs, pre=pre)


def check_long(c):
    zs = [7. + .25 * i for i in range(c["m"])]
    old = [20. + i for i in range(c["pre"])]
    log = []
    mod = NOI()
    orig = mod.get_uv_map
    fake = lambda z: np.full((3, 3), z)

    def cached(path):
        if not os.path.exists(path):
            return set()
        f = RF().read_dictionary_data(path)
        return {k for k in f if k[0].isdigit()}

    with scratch_dir() as d:
        path = os.path.join(d, "long.npz")

        def g(ncells, z, *a, **k):
            if armed[0]:
                log.append((float(z), cached(path)))
            return fake(float(z)), 3
        armed = [False]
        mod.get_uv_map = g
        try:
            if old:
                run(path, old)
            armed[0] = True
            C.calls += 1
            r = run(path, zs, c["jobs"], c["cp"])
        finally:
            mod.get_uv_map = orig
        # whenever a simulation starts, at most one checkpoint interval of finished maps is not in the file yet
        done = 0
        for z, have in log:
            expect(all(key(o) in have for o in old), "cache-lost", f"{c}: earlier maps are gone at z={z}")
            if c["cp"]:
                n = sum(key(x) in have for x in zs)
                expect(n >= done // c["cp"] * c["cp"], "checkpoint-missing", f"{c}: {done} maps were finished but only {n} saved")
            done += 1
        expect(done == c["m"] or done == 0, "simulated-twice", f"{c}: {done} simulations")
        expect(cached(path) == {key(x) for x in zs + old}, "cache-lost", f"{c}: the final file")
        for x in zs if log else ():
            eq(np.asarray(r[key(x)]), fake(x), "wrong-map", f"{c} z={x}")
    return digest(c["m"], c["cp"], c["jobs"], c["pre"])


# ---------------------------------------------------------------- stored maps are used, not simulated again

def cases_reuse(tier):
    for ext in ("pkl", "npz"):
        for jobs in (1, 2):
            for stored in itertools.chain.from_iterable(itertools.combinations(ZALL[:4], r) for r in range(1, 5)):
                yield dict(ext=ext, jobs=jobs, stored=list(stored))


def check_reuse(c):
    with scratch_dir() as d:
        path = os.path.join(d, "m." + c["ext"])
        r = run(path, c["stored"])
        f = dict(RF().read_dictionary_data(path))
        for i, z in enumerate(c["stored"]):
            f[key(z)] = np.full((3, 3), 100. + i)
        RF().write_dictionary_data(f, path)
        r = run(path, list(ZALL[:4]), jobs=c["jobs"], cp=1)
        for i, z in enumerate(c["stored"]):
            eq(np.asarray(r[key(z)]), np.full((3, 3), 100. + i), "cache-unused", f"z={z}")
        for z in ZALL[:4]:
            if z not in c["stored"]:
                near(np.asarray(r[key(z)]), truth(z), "wrong-map", f"z={z}", rtol=1e-6)
        # named telescope: spelling of AA*
        return digest(c["stored"])


# ---------------------------------------------------------------- crashes

def _files():
    n, r = NOI(), RF()
    return {os.path.realpath(n.__file__), os.path.realpath(r.__file__)}


class TornFile:
    """file that lets the process die after a given number of bytes has been written"""

    def __init__(self, f, st):
        self.__dict__["f"], self.__dict__["st"] = f, st

    def write(self, b):
        raw = b if isinstance(b, (bytes, bytearray, memoryview)) else b.encode()
        raw = bytes(raw)
        left = self.st["left"]
        self.st["total"] += len(raw)
        if left is not None:
            if len(raw) >= left:
                part = raw[:left]
                self.f.write(part if not isinstance(b, str) else part.decode(errors="ignore"))
                self.f.flush()
                os._exit(77)
            self.st["left"] = left - len(raw)
        return self.f.write(b)

    def __getattr__(self, n):
        return getattr(self.f, n)

    def __setattr__(self, n, v):
        setattr(self.f, n, v)

    def __enter__(self):
        self.f.__enter__()
        return self

    def __exit__(self, *e):
        return self.f.__exit__(*e)

    def __iter__(self):
        return iter(self.f)


class torn:
    def __init__(self, root, left):
        self.root, self.st = root, {"left": left, "total": 0}

    def __enter__(self):
        self.saved = (builtins.open, io.open)
        real = builtins.open

        def op(file, mode="r", *a, **k):
            f = real(file, mode, *a, **k)
            if isinstance(file, (str, os.PathLike)) and os.fspath(file).startswith(self.root) and any(ch in mode for ch in "wax+"):
                return TornFile(f, self.st)
            return f
        builtins.open = io.open = op
        return self.st

    def __exit__(self, *e):
        builtins.open, io.open = self.saved


class lines:
    """count executed lines of the cache code; at line `stop` call `act`"""

    def __init__(self, stop=None, act=None):
        self.stop, self.act, self.n, self.files = stop, act, 0, _files()

    def _local(self, fr, ev, arg):
        if ev == "line":
            self.n += 1
            if self.n == self.stop:
                sys.settrace(None)
                self.act()
                sys.settrace(self._glob)
        return self._local

    def _glob(self, fr, ev, arg):
        fn = fr.f_code.co_filename
        if fn in self.files or os.path.realpath(fn) in self.files:
            return self._local
        return None

    def __enter__(self):
        sys.settrace(self._glob)
        return self

    def __exit__(self, *e):
        sys.settrace(None)


SCEN = {
    # name: (redshifts in the file before, redshifts requested, jobs, checkpoint)
    "fresh": ((), (7., 7.5, 8.25), 1, 1),
    "fresh-par": ((), (7., 7.5, 8.25, 10.), 2, 2),
    "extend": ((7., 7.5), (8.25, 7., 9.125, 10.), 1, 1),
    "extend-par": ((7., 7.5), (8.25, 9.125, 7.5, 10.), 2, 1),
    "nothing-new": ((7., 7.5, 8.25), (7., 8.25), 1, 1),
    "no-checkpoint": ((7.,), (8.25, 9.125), 1, None),
}


def child(fn):
    """run fn in a forked child; -> exit code"""
    pid = os.fork()
    if pid == 0:
        code = 88
        try:
            fn()
            code = 0
        except BaseException:
            code = 88
        finally:
            os._exit(code)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])


def prepare(path, scen):
    pre, zs, jobs, cp = SCEN[scen]
    if pre:
        run(path, list(pre))


def measure(ext):
    """number of lines and bytes of each scenario (same code, same inputs)"""
    out = {}
    for s, (pre, zs, jobs, cp) in SCEN.items():
        with scratch_dir() as d:
            path = os.path.join(d, "m." + ext)
            prepare(path, s)
            with lines() as l:
                run(path, list(zs), jobs, cp)
            nl = l.n
        with scratch_dir() as d:
            path = os.path.join(d, "m." + ext)
            prepare(path, s)
            with torn(d, None) as st:
                run(path, list(zs), jobs, cp)
            out[s] = (nl, st["total"])
    return out


BLOCK = 24


def cases_crash(tier):
    """one case = one block of consecutive crash points; the last block of a scenario runs on to the end of its execution"""
    for ext in ("pkl", "npz"):
        for s in SCEN:
            for kind in ("line", "byte"):
                for b in range(16):
                    yield dict(ext=ext, scen=s, kind=kind, block=b, step=(1 if kind == "line" or tier != "quick" else (7 if ext == "pkl" else 29)))


_meas = {}


def check_crash(c):
    if c["ext"] not in _meas:
        _meas[c["ext"]] = measure(c["ext"])
    nl, nb = _meas[c["ext"]][c["scen"]]
    total = nl if c["kind"] == "line" else nb
    pts = list(range(1, total + 1, c["step"]))
    if c["kind"] == "byte" and total and total not in pts:
        pts.append(total)
    mine = pts[c["block"]::16]
    pre, zs, jobs, cp = SCEN[c["scen"]]
    obs = set()
    for k in mine:
        with scratch_dir() as d:
            path = os.path.join(d, "m." + c["ext"])
            prepare(path, c["scen"])

            def die():
                if c["kind"] == "line":
                    with lines(k, lambda: os._exit(77)):
                        run(path, list(zs), jobs, cp)
                else:
                    with torn(d, k):
                        run(path, list(zs), jobs, cp)
            C.calls += 1
            rc = child(die)
            what = f"killed at {c['kind']} {k} of {total} ({c['scen']}, {c['ext']})"
            expect(rc in (77, 0), "crash-harness", f"{what}: exit code {rc}")
            # the file still is a complete dictionary holding at least what was there before
            got = ()
            if pre:
                expect(os.path.exists(path), "crash-lost-file", what)
            if os.path.exists(path):
                try:
                    f = RF().read_dictionary_data(path)
                    got = sorted(x for x in f if x[0].isdigit())
                except Exception as e:
                    raise Fail("crash-corrupt", f"{what}: the file cannot be read any more: {type(e).__name__} {e}")
                check_maps(f, pre, what, only=set(pre) | set(zs))
            # a second run gives the result of an undisturbed one
            C.calls += 1
            try:
                r = run(path, list(zs), jobs, cp)
            except Exception as e:
                raise Fail("crash-no-recovery", f"{what}: the next run failed: {type(e).__name__} {e}")
            check_maps(r, set(pre) | set(zs), what + ", next run", only=set(pre) | set(zs))
            check_maps(RF().read_dictionary_data(path), set(pre) | set(zs), what + ", file after the next run", only=set(pre) | set(zs))
            obs.add((rc, tuple(got)))
    return obs or None


def cases_progress(tier):
    for s in SCEN:
        for ext in ("pkl", "npz"):
            yield dict(scen=s, ext=ext)


def check_progress(c):
    """along the crash points of a scenario the number of saved maps never decreases and reaches every completed checkpoint"""
    if c["ext"] not in _meas:
        _meas[c["ext"]] = measure(c["ext"])
    nl, nb = _meas[c["ext"]][c["scen"]]
    pre, zs, jobs, cp = SCEN[c["scen"]]
    new = [z for z in zs if z not in pre]
    last, seen = -1, set()
    with scratch_dir() as d:
        path = os.path.join(d, "m." + c["ext"])
        prepare(path, c["scen"])
        sizes = []

        def act():
            pass
        # watch the file while the run proceeds: fork-free, one traced run
        state = {"n": None}

        def look():
            try:
                st = os.stat(path)
                sig = (st.st_ino, st.st_mtime_ns, st.st_size)
            except FileNotFoundError:
                sig = None
            if sig != state["n"]:
                state["n"] = sig
                if sig is not None:
                    f = RF().read_dictionary_data(path)
                    sizes.append(len([x for x in f if x[0].isdigit()]))
        w = lines()
        orig = w._local

        def loc(fr, ev, arg):
            if ev == "line":
                sys.settrace(None)
                try:
                    look()
                finally:
                    sys.settrace(w._glob)
            return loc
        w._local = loc
        try:
            with w:
                run(path, list(zs), jobs, cp)
        except Fail:
            raise
        except Exception as e:
            raise Fail("half-written-visible", f"{c}: a half written file was visible: {type(e).__name__} {e}")
        look()
    expect(sizes == sorted(sizes), "progress", f"{c}: number of maps in the file over time {sizes}")
    if new:
        expect(sizes[-1] == len(set(pre) | set(zs)), "progress", f"{c}: {sizes}")
        if cp:
            want = {len(pre) + min(len(new), (i + 1) * cp) for i in range((len(new) + cp - 1) // cp)}
            expect(want <= set(sizes), "checkpoint-missing", f"{c}: sizes of the file {sizes}, expected all of {sorted(want)}")
    return digest(sizes)


# ---------------------------------------------------------------- two processes sharing the file

def cases_two(tier):
    for s in ("fresh", "extend", "nothing-new") if tier == "quick" else SCEN:
        for ext in ("pkl", "npz"):
            for other in ((7., 10.),) if tier == "quick" else ((7., 10.), (9.125, 11.062)):
                for b in range(8):
                    yield dict(scen=s, ext=ext, other=list(other), block=b)


def check_two(c):
    if c["ext"] not in _meas:
        _meas[c["ext"]] = measure(c["ext"])
    nl, nb = _meas[c["ext"]][c["scen"]]
    pre, zs, jobs, cp = SCEN[c["scen"]]
    obs = set()
    for k in range(1 + c["block"], nl + 1, 8):
        with scratch_dir() as d:
            path = os.path.join(d, "m." + c["ext"])
            prepare(path, c["scen"])
            res = {}

            def other():
                def body():
                    r = run(path, list(c["other"]), 1, 1)
                    check_maps(r, c["other"], "second process")
                res["rc"] = child(body)
            C.calls += 2
            what = f"second process at line {k} of {nl} ({c['scen']}, {c['ext']})"
            try:
                with lines(k, other):
                    r = run(path, list(zs), jobs, cp)
            except Fail:
                raise
            except Exception as e:
                raise Fail("concurrent-crash", f"{what}: {type(e).__name__} {e}")
            expect(res.get("rc", 0) == 0, "concurrent-crash", f"{what}: the second process failed or got wrong maps")
            check_maps(r, zs, what)
            if os.path.exists(path):
                try:
                    f = RF().read_dictionary_data(path)
                except Exception as e:
                    raise Fail("concurrent-corrupt", f"{what}: {type(e).__name__} {e}")
                check_maps(f, pre, what)
                obs.add(tuple(sorted(x for x in f if x[0].isdigit())))
            expect(not [x for x in os.listdir(d) if x != os.path.basename(path)], "left-over", f"{what}: {os.listdir(d)}")
    return obs


# ---------------------------------------------------------------- names of telescopes, default box

def cases_tel(tier):
    for n1 in ("AA0.5",):
        for ext in ("pkl", "npz"):
            yield dict(name=n1, ext=ext)
    yield dict(name="quantity", ext="pkl")
    yield dict(name="quantity", ext="npz")


def check_tel(c):
    import astropy.units as u
    with scratch_dir() as d:
        path = os.path.join(d, "m." + c["ext"])
        sub = (ANT * u.m) if c["name"] == "quantity" else c["name"]
        kw = dict(KW, boxsize=100.)
        r1 = run(path, [7., 8.25], ants=sub, kw=kw)
        r2 = run(path, [8.25, 9.125], jobs=2, cp=1, ants=sub, kw=kw)
        for z in (7., 8.25, 9.125):
            w = NOI().get_uv_map(3, z, subarray_type=sub, verbose=False, **kw)[0]
            near(np.asarray(r2[key(z)]), w, "wrong-map", f"{c} z={z}", rtol=1e-6)
        if c["name"] == "quantity":
            r3 = run(path, [7.], ants=ANT, kw=kw)
            r4 = run(path, [7.], ants=(ANT / 1000.) * u.km if np.array_equal((ANT / 1000. * u.km).to("m").value, ANT) else ANT, kw=kw)
            eq(np.asarray(r3[key(7.)]), np.asarray(r4[key(7.)]), "wrong-map", "units")
            try:
                run(path, [7.], ants=ANT_B, kw=kw)
            except ValueError:
                pass
            else:
                raise Fail("mismatch-accepted", "other antennas")
        else:
            try:
                run(path, [7.], ants="AA1", kw=kw)
            except ValueError:
                pass
            else:
                raise Fail("mismatch-accepted", "other telescope")
        return digest(np.asarray(r2[key(7.)]))


def cases_free(tier):
    for cp in (None, 2):
        yield dict(cp=cp)


def check_free(c):
    """the real joblib"""
    try:
        with scratch_dir() as d:
            path = os.path.join(d, "m.pkl")
            r = call(NOI().get_uv_map_lightcone, 3, list(ZALL[:5]), subarray_type=ANT, save_uvmap=path, n_jobs=2, checkpoint=c["cp"], verbose=False, **KW)
            check_maps(r, ZALL[:5], "real joblib", only=ZALL[:5])
            check_maps(RF().read_dictionary_data(path), ZALL[:5], "real joblib, file", only=ZALL[:5])
            return digest(c["cp"])
    finally:
        from joblib.externals.loky import get_reusable_executor
        get_reusable_executor().shutdown(wait=True)


# ---------------------------------------------------------------- dictionary files

def _dicts():
    arr = {"a": field((2, 3), 1), "b": np.arange(5, dtype=np.int64), "c": np.float32(field((3,), 2)), "z7": np.array([[True, False]])}
    scal = {"n": 3, "x": 0.1, "neg": -1e-300, "name": "AA4", "uni": "µJy ∞", "flag": True}
    nest = {"p": {"q": {"r": [1, 2.5, "s"]}, "e": {}}, "l": [[1, 2], []], "none": None, "empty": ""}
    table = {"k": [0.1, 0.25, 1e-12], "ps": [1., -2., 3.5], "n": [1, 2, 3], "lab": ["x", "y z", "ü"]}
    return {"arr": arr, "scal": scal, "nest": nest, "table": table, "one": {"only": [1.5]}, "mix": {**arr, **scal}, "empty": {}}


ABLE = {
    "pkl": ("arr", "scal", "nest", "table", "one", "mix", "empty"), "pickle": ("arr", "nest", "mix"),
    "json": ("scal", "nest", "table", "one", "empty"), "yaml": ("scal", "nest", "table", "one", "empty"), "yml": ("scal", "nest"),
    "npz": ("arr", "scal", "table", "one", "mix", "empty"), "csv": ("table", "one"), "xlsx": ("table", "one"),
}


def same(a, b, what):
    if isinstance(b, dict):
        expect(isinstance(a, dict) and sorted(a) == sorted(b), "dict-keys", f"{what}: {a!r} expected {b!r}")
        for k in b:
            same(a[k], b[k], f"{what}[{k!r}]")
    elif isinstance(b, np.ndarray):
        eq(a, b, "dict-array", what)
        expect(np.asarray(a).dtype == b.dtype, "dict-dtype", f"{what}: {np.asarray(a).dtype} expected {b.dtype}")
    elif isinstance(b, list):
        expect(len(a) == len(b), "dict-list", f"{what}: {a!r} expected {b!r}")
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, f"{what}[{i}]")
    else:
        expect(type(a) is type(b) and a == b, "dict-value", f"{what}: {a!r} expected {b!r}")


def same_npz(a, b, what):
    expect(sorted(a) == sorted(b), "dict-keys", f"{what}: {sorted(a)} expected {sorted(b)}")
    for k in b:
        w = np.asarray(b[k])
        eq(a[k], w, "dict-array", f"{what}[{k!r}]")
        expect(np.asarray(a[k]).dtype == w.dtype, "dict-dtype", f"{what}[{k!r}]: {np.asarray(a[k]).dtype}")


def cases_dict(tier):
    for f in ABLE:
        for n in ABLE[f]:
            for style in ("ext", "EXT", "arg", "ARG", "arg-noext", "arg-otherext", "dots"):
                for prior in ("none", "long", "same", "garbage"):
                    yield dict(fmt=f, dict=n, style=style, prior=prior)


def check_dict(c):
    w, r = RF().write_dictionary_data, RF().read_dictionary_data
    D = _dicts()[c["dict"]]
    f = c["fmt"]
    st = c["style"]
    if f == "xlsx" and st in ("arg-noext", "arg-otherext", "EXT"):
        return None
    name = {"ext": "data." + f, "EXT": "data." + f.upper(), "arg": "data." + f, "ARG": "data." + f, "arg-noext": "data", "arg-otherext": "data.dat", "dots": "d.z=7.5.v1." + f}[st]
    kw = {} if st in ("ext", "EXT", "dots") else {"format": f.upper() if st == "ARG" else f}
    with scratch_dir() as d:
        p = os.path.join(d, name)
        if c["prior"] == "garbage":
            with open(p, "wb") as fh:
                fh.write(b"\x00garbage" * 500)
        elif c["prior"] == "long" and f not in ("csv", "xlsx"):
            call(w, {"long": list(range(500)), "s": "x" * 3000}, p, **kw)
        elif c["prior"] == "same":
            call(w, D, p, **kw)
        call(w, D, p, **kw)
        expect(os.listdir(d) == [name], "left-over", f"{os.listdir(d)}, expected {[name]}")
        g = call(r, p, **kw)
        (same_npz if f == "npz" else same)(g, D, f"{f} {c['dict']}")
        g2 = call(r, p, **kw)
        (same_npz if f == "npz" else same)(g2, D, f"{f} {c['dict']} second read")
        # nothing is shared between the dictionary written and the one read
        if f in ("pkl", "json") and "a" in g and isinstance(g["a"], np.ndarray):
            g["a"][:] = -1
            same(call(r, p, **kw), D, "read again after a change")
        return digest(f, c["dict"])


def cases_bad(tier):
    for bad in ("unknown", "unserialisable-json", "unserialisable-yaml", "unequal-csv", "unpicklable", "unequal-xlsx", "noext"):
        for prior in (False, True):
            yield dict(bad=bad, prior=prior)


def check_bad(c):
    """a write that fails raises and leaves an existing file as it was"""
    w, r = RF().write_dictionary_data, RF().read_dictionary_data
    name, D = {"unknown": ("a.foo", {"x": 1}), "unserialisable-json": ("a.json", {"x": 1, "y": np.arange(3)}),
               "unserialisable-yaml": ("a.yaml", {"x": 1, "y": object()}), "unequal-csv": ("a.csv", {"x": [1, 2], "y": [1]}),
               "unpicklable": ("a.pkl", {"x": np.arange(100), "y": (lambda: 0)}), "unequal-xlsx": ("a.xlsx", {"x": [1, 2], "y": [1]}), "noext": ("a", {"x": 1})}[c["bad"]]
    with scratch_dir() as d:
        p = os.path.join(d, name)
        if c["prior"]:
            with open(p, "wb") as f:
                f.write(b"precious")
        must_raise(w, D, p, kind="write-accepted", what=c["bad"])
        if c["prior"]:
            expect(os.listdir(d) == [name] and open(p, "rb").read() == b"precious", "failed-write-destroys", f"{c['bad']}: {os.listdir(d)}")
        else:
            expect(os.listdir(d) == [], "failed-write-leaves", f"{c['bad']}: {os.listdir(d)}")
        if c["bad"] in ("unknown", "noext"):
            must_raise(r, p, kind="read-accepted", what=c["bad"])
        return digest(c["bad"], c["prior"])


def cases_distinct(tier):
    for n in (3, 4):
        for b in (0, 1):
            yield dict(n=n, b=b)


def check_distinct(c):
    """the maps used here tell redshifts apart (otherwise a mix-up would go unnoticed)"""
    T = [truth(z, c["n"], ANT_B if c["b"] else ANT) for z in ZALL]
    for i, j in itertools.combinations(range(len(ZALL)), 2):
        expect(np.abs(T[i] - T[j]).max() > 1e-3, "same-map", f"{c}: the maps of z={ZALL[i]} and z={ZALL[j]} are the same")
    return (c["n"], c["b"])


SUITES = [
    FnSuite("distinct", cases_distinct, check_distinct, "maps of the 6 redshifts differ from each other"),
    FnSuite("ways", cases_way, check_way, "1-4 (5) redshifts x orders x 3 numbers of jobs x 6 checkpoint intervals x 3 containers x no file/pkl/npz x task orders", timeout=120),
    FnSuite("histories", cases_hist, check_hist, "all sequences of 2-3 (4) runs out of 14: good ones, other parameters, failures at the k-th map"),
    FnSuite("long-runs", cases_long, check_long, "1..13 (35) redshifts x 7 checkpoint intervals x jobs x earlier maps; the file before every single simulation"),
    FnSuite("reuse", cases_reuse, check_reuse, "all subsets of 4 stored redshifts"),
    FnSuite("crash", cases_crash, check_crash, "6 scenarios x pkl/npz x kill at every executed line of the cache code and after every 7th/29th (thorough: every) byte written", timeout=400),
    FnSuite("progress", cases_progress, check_progress, "the file after every executed line of 6 scenarios x pkl/npz"),
    FnSuite("two-processes", cases_two, check_two, "a second process at every executed line of the first one", timeout=400),
    FnSuite("telescopes", cases_tel, check_tel, "name, positions, positions with unit"),
    FnSuite("free-running", cases_free, check_free, "real joblib", timeout=200, serial=True),
    FnSuite("dictionary", cases_dict, check_dict, "8 formats x 7 dictionaries x 7 ways to name the format x 4 earlier contents"),
    FnSuite("failed-write", cases_bad, check_bad, "7 dictionaries that cannot be written x earlier file"),
]
