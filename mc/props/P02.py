"""Parallel CubeMap: the shared-memory joblib backend is schedule independent and leaks nothing."""
import itertools
import numpy as np
from mc import core, sched
from mc.core import FnSuite, Fail, call, eq, expect, digest
from mc.props.P01 import ref_cubemap, decode, ref_chi

TITLE = "parallel CubeMap"
ASSUMPTIONS = [
    "workers communicate only through the shared segment and the return of joblib.Parallel; accesses to 4-byte aligned "
    "elements of the segment are atomic and sequentially consistent",
    "deviation bound as listed per suite; larger grids have the same per-cell code",
]


def VB():
    core.t2c()
    from tools21cm import ViteBetti
    return ViteBetti


class patched:
    """run with joblib.Parallel and shared memory under the explorer's control"""

    def __init__(self, traced=True):
        self.traced = traced

    def __enter__(self):
        import joblib
        from multiprocessing import shared_memory
        vb = VB()
        sched.FakeShm.reset()
        self.saved = [(joblib, "Parallel", joblib.Parallel), (joblib, "delayed", joblib.delayed),
                      (shared_memory, "SharedMemory", shared_memory.SharedMemory)]
        joblib.Parallel, joblib.delayed = sched.FakeParallel, sched.fake_delayed
        shared_memory.SharedMemory = sched.FakeShm
        for n, v in (("Parallel", sched.FakeParallel), ("delayed", sched.fake_delayed), ("SharedMemory", sched.FakeShm)):
            if hasattr(vb, n):
                self.saved.append((vb, n, getattr(vb, n)))
                setattr(vb, n, v)
        if self.traced and hasattr(vb, "np"):
            self.saved.append((vb, "np", vb.np))
            vb.np = sched.NpProxy(np)
        return vb

    def __exit__(self, *e):
        for o, n, v in self.saved:
            setattr(o, n, v)


def leak_check(what):
    expect(not sched.FakeShm.segs, "shm-leak", f"shared memory segments left behind after {what}: {list(sched.FakeShm.segs)}")


# ---- every interleaving of the workers (element-access granularity), deviation bounded
# (shape, field bits, n_jobs, deviation bound, shards)
def cases_inter(tier):
    plan = []
    for bits in range(4):
        for nj in (2, 3):
            plan.append(((2, 1, 1), bits, nj, 2 if nj == 2 else 1))
    for bits in range(8):
        plan.append(((3, 1, 1), bits, 2, 1))
    for bits in range(16):
        plan.append(((2, 2, 1), bits, 2, 1))
        plan.append(((1, 2, 2), bits, 2, 1))
    for bits in (255, 127, 0x1f, 0x33, 0x69, 0xe8):
        plan.append(((2, 2, 2), bits, 2, 1))
        plan.append(((2, 2, 2), bits, 3, 1))
    if tier == "thorough":
        for bits in range(16):
            plan.append(((2, 1, 2), bits, 2, 2))
        for bits in range(4):
            plan.append(((2, 1, 1), bits, 3, 2))
        for bits in range(256):
            plan.append(((2, 2, 2), bits, 4, 1))
    for sh, bits, nj, b in plan:
        nsh = 8 if b >= 2 or int(np.prod(sh)) >= 8 else 2
        for k in range(nsh):
            for mm in ((True, False) if b < 2 else (True,)):
                yield {"shape": list(sh), "bits": bits, "n_jobs": nj, "dev": b, "shard": [k, nsh], "multi": mm}


def check_inter(case):
    A = decode(case["bits"], case["shape"])
    want = ref_cubemap(A)
    if not case["multi"]:
        want = (want > 0).astype(np.int32)
    with patched() as vb:
        A1 = A.copy()

        def body():
            return np.asarray(vb.CubeMap_joblib(A1, multi_marker=case["multi"], n_jobs=case["n_jobs"]))

        def chk(out, run):
            core.C.calls += 1
            core.C.compares += 1
            if out.shape != want.shape or not np.array_equal(out, want):
                raise Fail("schedule", f"schedule {[(i, c) for i, c in enumerate(run.choices) if c]} gives a different cube map: "
                           f"cells {np.argwhere(out != want).tolist()[:5]}")
            expect(np.array_equal(A1, A), "mutates-input", "the input field was modified")
            leak_check("the run")
        try:
            runs, pts = sched.explore(body, case["dev"], chk, shard=tuple(case["shard"]))
        except (Fail, sched.Divergence, core.CaseTimeout):
            raise
        except Exception as e:
            raise Fail("raises:" + type(e).__name__, f"CubeMap_joblib raised {type(e).__name__}: {e}")
    return {(tuple(case["shape"]), case["bits"], case["n_jobs"], case["multi"], case["shard"][0], runs, pts)}


# ---- every partition: all n_jobs, task orders forward / reverse, all fields
def cases_part(tier):
    for sh in [(2, 2, 2), (3, 1, 2), (1, 3, 1), (5, 1, 1), (4, 1, 2)]:
        n = int(np.prod(sh))
        for nj in (1, 2, 3, 4, 5, 7, 11):
            for b in range(0, 1 << n, 64):
                yield {"shape": list(sh), "block": b, "n_jobs": nj}
    for nj in range(1, 12):
        yield {"shape": [7, 2, 3], "block": -1, "n_jobs": nj}


def check_part(case):
    n = int(np.prod(case["shape"]))
    if case["block"] >= 0:
        flds = [decode(b, case["shape"]) for b in range(case["block"], min(case["block"] + 64, 1 << n))]
    else:
        flds = [(core.field(case["shape"], s) > 0.4).astype(np.int32) for s in range(6)]
    seen = set()
    with patched(traced=False) as vb:
        for A in flds:
            want = ref_cubemap(A)
            for rev in (False, True):
                class P(sched.FakeParallel):
                    def __call__(self, it):
                        cs = list(it)
                        r = [None] * len(cs)
                        for i in (reversed(range(len(cs))) if rev else range(len(cs))):
                            f, a, k = cs[i]
                            r[i] = f(*a, **k)
                        return r
                import joblib
                joblib.Parallel = P
                vb.Parallel = P
                got = call(vb.CubeMap_joblib, A, n_jobs=case["n_jobs"])
                eq(got, want, "partition", f"n_jobs={case['n_jobs']} reversed={rev} field={A.ravel().tolist()} shape={case['shape']}")
                leak_check(str(case))
            seen.add(digest(want))
    return seen


# ---- all orders of all tasks per stage (tasks atomic)
def cases_orders(tier):
    for nj in (2, 3, 4):
        for o in range(len(list(itertools.permutations(range(nj))))):
            yield {"n_jobs": nj, "order": o}


def check_orders(case):
    nj = case["n_jobs"]
    perms = list(itertools.permutations(range(nj)))
    first = perms[case["order"]]
    flds = [decode(b, (2, 2, 1)) for b in range(16)] + [(core.field((3, 2, 2), s) > 0.5).astype(np.int32) for s in range(3)]
    with patched(traced=False) as vb:
        import joblib
        for second in (perms if nj < 4 else perms[::3]):
            for A in flds:
                stage = [0]

                class P(sched.FakeParallel):
                    def __call__(self, it):
                        cs = list(it)
                        o = (first, second, first, second)[stage[0] % 4]
                        stage[0] += 1
                        o = [i for i in o if i < len(cs)] + [i for i in range(len(cs)) if i >= nj]
                        r = [None] * len(cs)
                        for i in o:
                            f, a, k = cs[i]
                            r[i] = f(*a, **k)
                        return r
                joblib.Parallel = P
                vb.Parallel = P
                eq(call(vb.CubeMap_joblib, A, n_jobs=nj), ref_cubemap(A), "order", f"orders {first},{second} field {A.ravel().tolist()}")
                leak_check(str(case))
    return (nj, first)


# ---- a worker that dies at any point: the error is reported and the segment released
def cases_fault(tier):
    for nj in (1, 2, 3):
        for k in range(4 * nj):
            for late in (False, True):
                yield {"n_jobs": nj, "task": k, "late": late}


def check_fault(case):
    A = np.ones((2, 2, 2), dtype=np.int32)
    with patched(traced=False) as vb:
        import joblib
        cnt = [0]

        class Boom(Exception):
            pass

        class P(sched.FakeParallel):
            def __call__(self, it):
                r = []
                for f, a, k in it:
                    hit = cnt[0] == case["task"]
                    cnt[0] += 1
                    if hit and not case["late"]:
                        raise Boom()
                    r.append(f(*a, **k))
                    if hit:
                        raise Boom()
                return r
        joblib.Parallel = P
        vb.Parallel = P
        core.C.calls += 1
        try:
            vb.CubeMap_joblib(A, n_jobs=case["n_jobs"])
            failed = False
        except Boom:
            failed = True
        except Exception as e:
            raise Fail("fault", f"worker failure surfaced as {type(e).__name__}: {e}")
        total = cnt[0]
        expect(failed or case["task"] >= total, "fault-swallowed", f"failure of worker task {case['task']} was swallowed")
        leak_check(f"a failing worker ({case})")
    return (case["n_jobs"], case["task"], failed)


# ---- free-running conformance: the real joblib and real shared memory
def cases_free(tier):
    yield {"n_jobs": 2, "salt": 0, "backend": "loky"}
    for nj in (1, 2, 3):
        for s in range(1 if tier == "quick" else 6):
            yield {"n_jobs": nj, "salt": s, "backend": "multiprocessing"}


def check_free(case):
    import time
    fake = time.sleep
    time.sleep = time._mc_real_sleep      # joblib polls with sleep
    try:
        return _check_free(case)
    finally:
        time.sleep = fake
        # an idle loky pool would keep this worker process alive for minutes
        from joblib.externals.loky import reusable_executor as rx
        if rx._executor is not None:
            rx._executor.shutdown(wait=True, kill_workers=True)


def _check_free(case):
    vb = VB()
    t = core.t2c()
    from multiprocessing import shared_memory
    import joblib
    made = []
    real = shared_memory.SharedMemory

    class Rec(real):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            made.append(self.name)
    seen = set()
    for sh in [(2, 2, 2), (3, 2, 4), (1, 5, 2)][:1 if case["backend"] == "loky" else 3]:
        A = (core.field(sh, case["salt"]) > 0.35).astype(np.int32)
        shared_memory.SharedMemory = Rec
        try:
            with joblib.parallel_config(backend=case["backend"]):
                got = call(vb.CubeMap_joblib, A, n_jobs=case["n_jobs"])
        finally:
            shared_memory.SharedMemory = real
        eq(got, ref_cubemap(A), "free-run", f"real joblib, n_jobs={case['n_jobs']}, shape {sh}")
        for n in made:
            try:
                real(name=n).close()
            except FileNotFoundError:
                continue
            raise Fail("shm-leak", f"segment {n} still exists")
        if case["backend"] == "loky":
            continue
        chi = call(t.EulerCharacteristic, A, thres=0.5, neighbors=6, speed_up="numpy", verbose=False, n_jobs=case["n_jobs"])
        expect(chi == ref_chi(A), "euler-njobs", f"EulerCharacteristic(n_jobs={case['n_jobs']}) = {chi}, expected {ref_chi(A)}")
        seen.add((digest(A), chi))
    return seen


SUITES = [
    FnSuite("interleavings", cases_inter, check_inter,
            "all schedules of 2-3 workers at element-access granularity with <=2 deviations (2 cells) / <=1 (up to 8 cells)", chunk=1, timeout=300),
    FnSuite("partitions", cases_part, check_part, "n_jobs in 1,2,3,4,5,7,11 x all fields of 5 shapes x 2 task orders", chunk=1),
    FnSuite("orders", cases_orders, check_orders, "all task permutations per stage pair, 2-4 workers", chunk=1),
    FnSuite("worker_faults", cases_fault, check_fault, "a failure injected before/after every worker task", chunk=4),
    FnSuite("free_running", cases_free, check_free, "unscheduled runs with the real joblib and shared memory", chunk=1, timeout=120),
]
