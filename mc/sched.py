"""Deviation-bounded stateless exploration of joblib-style parallel sections.

`Explorer.explore(body)` runs `body()` repeatedly.  While it runs, joblib.Parallel is replaced by a
controlled scheduler: every task is a real thread that only advances when the scheduler gives it the
baton; scheduling points are task start/finish and every element access to arrays built on the shared
segment (TracedArray).  A schedule is the list of choices; choice 0 = continue the running task (or the
lowest-numbered runnable one).  Any other choice is one deviation.  All schedules with at most `bound`
deviations are executed; a replayed prefix that diverges is a hard error.
"""
import threading

import numpy as np


class Divergence(RuntimeError):
    pass


class Run:
    """one execution under a given choice prefix"""

    def __init__(self, prefix):
        self.prefix = prefix
        self.choices = []      # chosen option index per point
        self.widths = []       # number of options per point
        self.tasks = None
        self.trace = []

    def choose(self, n):
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence(f"choice {c} of {n} at point {i}")
        else:
            c = 0
        self.choices.append(c)
        self.widths.append(n)
        return c


CUR = None          # current Run
_local = threading.local()


def point():
    """scheduling point inside a task"""
    t = getattr(_local, "task", None)
    if t is not None and CUR is not None:
        t.yield_()


class Task:
    def __init__(self, n, fn, a, k):
        self.n, self.fn, self.a, self.k = n, fn, a, k
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.done = False
        self.err = None
        self.ret = None
        self.th = None
        self.sect = None

    def _main(self):
        self.go.acquire()
        _local.task = self
        try:
            self.ret = self.fn(*self.a, **self.k)
        except BaseException as e:
            self.err = e
        self.done = True
        self.back.release()

    def start(self):
        self.th = threading.Thread(target=self._main, daemon=True)
        self.th.start()

    def resume(self):
        self.go.release()
        self.back.acquire()

    def yield_(self):
        # still running: ask the section whether to keep the baton
        s = self.sect
        others = [t for t in s.tasks if not t.done and t is not self]
        if not others:
            return
        c = CUR.choose(1 + len(others))
        if c == 0:
            return
        s.next = others[c - 1]
        self.back.release()
        self.go.acquire()


class Section:
    """all tasks of one Parallel(...)(tasks) call"""

    def __init__(self, calls):
        self.tasks = [Task(i, *c) for i, c in enumerate(calls)]
        self.next = None

    def run(self):
        for t in self.tasks:
            t.sect = self
            t.start()
        try:
            while True:
                live = [t for t in self.tasks if not t.done]
                if not live:
                    break
                if self.next is not None and not self.next.done:
                    t, self.next = self.next, None
                else:
                    self.next = None
                    t = live[CUR.choose(len(live))] if len(live) > 1 else live[0]
                t.resume()
                if t.err is not None and not isinstance(t.err, Exception):
                    raise t.err
        finally:
            for t in self.tasks:
                if t.done:
                    t.th.join()
        for t in self.tasks:
            if t.err is not None:
                raise t.err
        return [t.ret for t in self.tasks]


class FakeParallel:
    """stand-in for joblib.Parallel under the explorer"""
    seen_calls = 0

    def __init__(self, n_jobs=None, *a, **k):
        self.n_jobs = n_jobs

    def __enter__(self):
        return self

    def __exit__(self, *e):
        return False

    def __call__(self, it):
        calls = [(f, a, k) for f, a, k in it]
        FakeParallel.seen_calls += 1
        if CUR is None:
            return [f(*a, **k) for f, a, k in calls]
        return Section(calls).run()


def fake_delayed(f):
    def d(*a, **k):
        return (f, a, k)
    return d


class TracedArray(np.ndarray):
    def __getitem__(self, i):
        point()
        return np.ndarray.__getitem__(self, i)

    def __setitem__(self, i, v):
        point()
        np.ndarray.__setitem__(self, i, v)


class NpProxy:
    """numpy with traced construction of arrays over a foreign buffer"""

    def __init__(self, np_):
        object.__setattr__(self, "_np", np_)

    def __getattr__(self, n):
        if n == "ndarray":
            return _mk
        if n == "frombuffer":
            return lambda *a, **k: np.frombuffer(*a, **k).view(TracedArray)
        return getattr(self._np, n)


class _MkMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)

    def __call__(cls, shape, dtype=float, buffer=None, **k):
        return np.ndarray.__new__(TracedArray if buffer is not None else np.ndarray, shape, dtype=dtype, buffer=buffer, **k)


class _mk(metaclass=_MkMeta):
    pass


class FakeShm:
    """named shared memory whose life cycle is recorded"""
    segs = {}
    log = []
    n = 0

    def __init__(self, name=None, create=False, size=0, **k):
        if create:
            FakeShm.n += 1
            name = name or f"mc{FakeShm.n}"
            if name in FakeShm.segs:
                raise FileExistsError(name)
            FakeShm.segs[name] = bytearray(size)   # as the OS gives it: zero filled
        elif name not in FakeShm.segs:
            raise FileNotFoundError(name)
        self.name = name
        self.size = len(FakeShm.segs[name])
        self._buf = FakeShm.segs[name]
        self.closed = False
        FakeShm.log.append(("open", name, create))

    @property
    def buf(self):
        if self.closed:
            raise ValueError("segment is closed")
        return self._buf

    def close(self):
        if not self.closed:
            FakeShm.log.append(("close", self.name))
        self.closed = True

    def unlink(self):
        if self.name not in FakeShm.segs:
            raise FileNotFoundError(self.name)
        FakeShm.log.append(("unlink", self.name))
        del FakeShm.segs[self.name]

    @classmethod
    def reset(cls):
        cls.segs = {}
        cls.log = []
        cls.n = 0


def explore(body, bound, check, limit=None, shard=None):
    """execute body() under every schedule with <= bound deviations; check(result, run) after each.
    shard=(k, n): only schedules whose FIRST deviation point index is k modulo n (the default
    schedule belongs to shard 0); together the shards cover everything."""
    global CUR
    runs, stack, points = 0, [[]], 0
    while stack:
        prefix = stack.pop()
        r = Run(prefix)
        CUR = r
        try:
            out = body()
        finally:
            CUR = None
        mine = True
        if shard is not None and not prefix:
            mine = shard[0] == 0
        if len(r.choices) < len(prefix) or r.choices[:len(prefix)] != prefix:
            raise Divergence("prefix not reproduced")
        if mine:
            check(out, r)
            runs += 1
            points += len(r.choices)
        dev = sum(1 for c in prefix if c)
        if dev < bound:
            for i in range(len(prefix), len(r.choices)):
                if shard is not None and not prefix and i % shard[1] != shard[0]:
                    continue
                for alt in range(1, r.widths[i]):
                    stack.append(r.choices[:i] + [alt])
        if limit and runs >= limit:
            raise RuntimeError("schedule limit reached")
    return runs, points
