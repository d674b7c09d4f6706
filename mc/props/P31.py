"""P31: cubes of test cases hold whole bubbles, as many as needed."""
import itertools

import numpy as np

from mc.core import C, Fail, FnSuite, call, eq, expect, field, must_raise, near, t2c

TITLE = "Test cubes consist of whole periodic bubbles and stop at the requested fraction"
LEVEL = "model_checking"
ASSUMPTIONS = [
    "every random choice of a position is replaced by the enumeration of all choices (numpy.random.randint and choice); if the code draws in another way a fixed set of seeds is used",
    "bubbles are at most as wide as the cube",
]


# ---------------------------------------------------------------- reference

def ball_cells(n, c, r):
    m = int(r)
    return frozenset(((c[0] + a) % n, (c[1] + b) % n, (c[2] + d) % n)
                     for a in range(-m, m + 1) for b in range(-m, m + 1) for d in range(-m, m + 1)
                     if a * a + b * b + d * d <= r * r)


_BALLS = {}


def balls(n, r):
    if (n, r) not in _BALLS:
        _BALLS[n, r] = {c: ball_cells(n, c, r) for c in itertools.product(range(n), repeat=3)}
    return _BALLS[n, r]


_OPEN = {}


def reach(n, r):
    """cells within r of each cell without going across the faces"""
    if (n, r) not in _OPEN:
        _OPEN[n, r] = {c: frozenset(d for d in B if sum((a - b)**2 for a, b in zip(c, d)) <= r * r)
                       for B in [balls(n, r)] for c in B}
    return _OPEN[n, r]


def successors(n, r, state, apart, batch, faces=True):
    B = balls(n, r)
    if apart:
        near_cells = B if faces else reach(n, r)
        free = [c for c in B if not (near_cells[c] & state)]
        if not faces and not state:   # scipy measures the distance to the point (-1, 0, 0) if there is nothing to measure to
            free = [c for c in B if (c[0] + 1)**2 + c[1]**2 + c[2]**2 > r * r]
    else:
        free = [c for c in B if c not in state]
    if batch == 1:
        return {state | B[c] for c in free}
    return {state.union(*(B[c] for c in cs)) for cs in itertools.combinations_with_replacement(free, batch)}


def terminal(n, r, start, x, max_iter, apart, batch, faces=True):
    """all cubes the documented procedure can end with (faces=False: if only overlaps inside the cube were avoided, the known finding)"""
    start = frozenset(start)
    vol = 4 * np.pi / 3 * r**3
    room = x * n**3 - len(start)
    if vol * batch >= room:
        return {start}
    layer, out = {start}, set()
    for _ in range(max_iter):
        nxt = set()
        for s in layer:
            succ = successors(n, r, s, apart, batch, faces)
            if not succ:
                out.add(s)
            for q in succ:
                (out if len(q) >= x * n**3 else nxt).add(q)
        layer = nxt
    return out | layer


# ---------------------------------------------------------------- exploring every choice

class Choices:
    """numpy.random.randint/choice answer from a script; depth-first over all answers"""

    def __init__(self):
        self.script, self.pos, self.sizes, self.used = [], 0, [], False

    def pick(self, k):
        self.used = True
        if self.pos == len(self.script):
            self.script.append(0)
            self.sizes.append(k)
        if self.sizes[self.pos] != k:
            raise Fail("replay", f"choice {self.pos} offered {self.sizes[self.pos]} and then {k} alternatives for the same earlier choices")
        v = self.script[self.pos]
        self.pos += 1
        return v

    def advance(self):
        while self.script and self.script[-1] + 1 >= self.sizes[-1]:
            self.script.pop()
            self.sizes.pop()
        self.pos = 0
        if not self.script:
            return False
        self.script[-1] += 1
        return True

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        lo, hi = np.asarray(low), np.asarray(high)
        shape = np.broadcast(lo, hi).shape if size is None else (size if isinstance(size, tuple) else (int(size),))
        lo, hi = np.broadcast_to(lo, shape), np.broadcast_to(hi, shape)
        out = np.empty(shape, dtype=dtype)
        for i in np.ndindex(*shape):
            if hi[i] <= lo[i]:
                raise ValueError("low >= high")
            out[i] = lo[i] + self.pick(int(hi[i] - lo[i]))
        return out if shape else int(out)

    def choice(self, a, size=None, replace=True, p=None, axis=0):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        return a[self.randint(0, len(a), size)]


def explore(run, seeds=6):
    """-> results of run() for all answers"""
    ch = Choices()
    real = np.random.randint, np.random.choice
    first = True
    try:
        while True:
            np.random.randint, np.random.choice = ch.randint, ch.choice
            r = run()
            np.random.randint, np.random.choice = real
            yield r
            if not ch.advance():
                break
            first = False
        if not ch.used:
            for s in range(seeds):
                np.random.seed(s)
                yield run()
    finally:
        np.random.randint, np.random.choice = real
    explore.complete = ch.used


def cells(cube):
    return frozenset(map(tuple, np.argwhere(cube).tolist()))


CONFIGS_Q = [
    # n, r, x, max_iter, apart, batch, start centres, radius of start bubbles
    (3, 1, .3, 9, False, 1, ()), (3, 1, .5, 9, False, 1, ()), (3, 1, .9, 2, False, 1, ()),
    (4, 1, .15, 9, False, 1, ()), (4, 1, .9, 2, False, 1, ()), (4, 1, .3, 1, False, 1, ()),
    (3, 1, .5, 1, False, 2, ()), (4, 1, .9, 1, False, 2, ()),
    (4, 1, .4, 2, False, 1, ((0, 0, 0), (2, 2, 2))), (4, 1, .32, 9, False, 1, ((3, 0, 1), (1, 2, 3))),
    (3, 1, .3, 9, True, 1, ()), (4, 1, .2, 9, True, 1, ()), (4, 1, .9, 2, True, 1, ()), (4, 1, .95, 5, True, 1, ((0, 0, 0), (2, 2, 2))),
    (5, 1, .1, 9, True, 1, ((1, 2, 3),)), (5, 1, .9, 1, True, 1, ()), (5, 2, .9, 3, True, 1, ()), (5, 2, .4, 1, True, 1, ()),
    (5, 2, .4, 1, False, 1, ()), (5, 1, .2, 9, True, 1, ((0, 0, 0), (2, 3, 2))),
]
CONFIGS_T = [
    (4, 1, .4, 9, False, 1, ((0, 0, 0), (2, 2, 2))), (5, 1, .1, 9, True, 1, ()), (4, 1, .9, 3, True, 1, ()), (5, 1, .9, 2, True, 1, ()), (5, 1, .9, 2, False, 1, ()), (5, 2, .5, 9, False, 1, ()), (4, 1, .25, 9, False, 1, ((0, 0, 0),)),
    (3, 1, .8, 3, False, 1, ()), (6, 2, .9, 2, True, 1, ()), (6, 2, .25, 9, False, 1, ((1, 1, 1),)), (4, 1, .5, 1, False, 2, ((1, 2, 3),)),
    (6, 1, .9, 2, True, 1, ((0, 3, 5),)), (7, 3, .6, 2, True, 1, ()), (7, 3, .9, 1, False, 1, ((3, 3, 3),)),
]
NAMES = {False: ("Poisson", "poisson", "uniform-random", "Uniform-Random"), True: ("anticlustered", "anti-clustered", "non-overlapping", "nonoverlapping", "Non-Overlapping")}


def cases_explore(tier):
    for cfg in CONFIGS_Q + (CONFIGS_T if tier == "thorough" else []):
        n, r, x, mi, apart, batch, start = cfg
        for k, name in enumerate(NAMES[apart]):
            if k and (n > 4 or mi > 2) and tier != "thorough":
                continue
            if k and batch == 1 and n**3 > 70 and mi > 1:
                continue
            yield dict(n=n, r=r, x=x, mi=mi, name=name, apart=apart, batch=batch, start=[list(c) for c in start])


def check_explore(c):
    t = t2c()
    n, r = c["n"], c["r"]
    start = set()
    for s in c["start"]:
        start |= ball_cells(n, s, r)
    want = terminal(n, r, start, c["x"], c["mi"], c["apart"], c["batch"])
    given = None
    if start:
        given = np.zeros((n, n, n))
        for s in start:
            given[s] = 1.

    def run():
        kw = dict(r=r, source_distribution=c["name"], max_iter=c["mi"])
        if c["batch"] != 1:
            kw["batch_size"] = c["batch"]
        if given is not None:
            kw["cube"] = given.copy()   # painted in place: a known finding, suite twice
            C.calls += 1
            return t.spherical_bubble_model(n, c["x"], **kw)
        return call(t.spherical_bubble_model, n, c["x"], **kw)

    got = set()
    faces, open_ = True, None
    for out in explore(run):
        a = np.asarray(out)
        expect(a.shape == (n, n, n), "shape", f"{c}: shape {a.shape}")
        C.compares += 1
        if not np.isin(a, (0, 1)).all():
            raise Fail("values", f"{c}: pixels {np.unique(a)}")
        s = cells(a)
        if s not in want and c["apart"] and open_ is None:
            open_ = terminal(n, r, start, c["x"], c["mi"], True, c["batch"], False)
        if s not in want and open_ and s in open_:
            faces = False
        elif s not in want:
            raise Fail("bubbles", f"{c}: {len(s)} ionized pixels of {n**3}, not a cube of whole bubbles{' that do not overlap' if c['apart'] else ''} which ends as soon as the fraction is reached: {sorted(s)[:40]}")
        got.add(s)
    if explore.complete:
        goal = want
        if c["apart"] and got != want:
            open_ = open_ or terminal(n, r, start, c["x"], c["mi"], True, c["batch"], False)
            goal = open_ if got == open_ else want
        expect(got == goal, "unreached", lambda: f"{c}: {len(goal - got)} of the {len(goal)} possible cubes are never made, e.g. {sorted(next(iter(goal - got)))[:40]}")
        expect(faces, "overlap-across-faces", f"{c}: bubbles that overlap across the faces of the cube")
        expect(goal is want, "corner-left-out", lambda: f"{c}: no cubes with a first bubble around the corner: {len(want - got)} of {len(want)} cubes are never made")
    return {(n, r, c["x"], c["mi"], c["name"], tuple(sorted(s))) for s in list(got)[:500]}


# ---------------------------------------------------------------- refused targets, arguments

def cases_refuse(tier):
    for n, r in ((3, 1), (4, 1), (5, 2), (6, 2), (7, 3)):
        for k in range(-2, 3):
            for batch in (1, 2, 3):
                for name in ("Poisson", "non-overlapping"):
                    for start in (0, 1):
                        yield dict(n=n, r=r, k=k, batch=batch, name=name, start=start)
    yield dict(n=0)


def check_refuse(c):
    t = t2c()
    if c["n"] == 0:
        for bad in ("clustered", "", "uniform", "poissonian"):
            must_raise(t.spherical_bubble_model, 4, .5, r=1, source_distribution=bad, kind="accepts-unknown", what=f"source distribution {bad!r}")
        return "unknown"
    n, r = c["n"], c["r"]
    given = None
    s0 = frozenset()
    if c["start"]:
        s0 = ball_cells(n, (0, 1, 2), 1)
        given = np.zeros((n, n, n))
        for s in s0:
            given[s] = 1.
    vol = 4 * np.pi / 3 * r**3 * c["batch"]
    x = (len(s0) + vol * (1 + .02 * c["k"] + .001)) / n**3
    if x > 1:
        return None
    kw = {} if given is None else dict(cube=given)
    C.calls += 1
    out = t.spherical_bubble_model(n, x, r=r, source_distribution=c["name"], batch_size=c["batch"], max_iter=1, **kw)   # given is painted in place: suite twice
    s = cells(out)
    if c["k"] < 0:
        expect(s == s0, "painted", lambda: f"{c}: a bubble is larger than what is missing, but {len(s - s0)} pixels were painted")
    else:
        expect(s > s0 or len(s0) == n**3, "not-painted", lambda: f"{c}: x_ion={x}: nothing was painted")
        expect(s0 <= s, "lost", lambda: f"{c}: pixels of the given cube were lost")
    return (n, r, c["k"], c["batch"], c["name"], len(s0))


# ---------------------------------------------------------------- painting a kernel

KERNELS = [(1, 1, 1), (3, 3, 3), (3, 1, 3), (1, 3, 1), (2, 3, 1), (2, 2, 2)]


def cases_paint(tier):
    for n in ((3, 3, 3), (4, 4, 4), (3, 4, 5)):
        for k in KERNELS:
            yield dict(n=list(n), k=list(k), two=0, empty=1)
            yield dict(n=list(n), k=list(k), two=0)
            if int(np.prod(n)) <= (27 if tier == "quick" else 64):
                yield dict(n=list(n), k=list(k), two=1)


def check_paint(c):
    t = t2c()
    n, k = tuple(c["n"]), tuple(c["k"])
    ker = field(k, 3) + 1
    base = field(n, 5) if not c.get("empty") else np.zeros(n)
    doubled = False
    obs = set()
    pos = list(itertools.product(*[range(-1, m + 1) if not c["two"] else range(m) for m in n]))
    groups = [(p,) for p in pos] + [()] if not c["two"] else list(itertools.product(pos, pos))
    for g in groups:
        cube = base.copy()
        ref = base.copy()
        old = base.copy()    # the known finding: everything that was there is doubled
        for p in g:
            old *= 2
            for o in np.ndindex(*k):
                old[tuple((p[a] + o[a] - k[a] // 2) % n[a] for a in range(3))] += ker[o]
            for o in np.ndindex(*k):
                ref[tuple((p[a] + o[a] - k[a] // 2) % n[a] for a in range(3))] += ker[o]
        P = np.array(g, dtype=int).reshape(-1, 3)
        r = t.paint_kernel(cube, P, ker)
        C.calls += 1
        C.compares += 1
        if np.allclose(cube, ref, rtol=1e-12, atol=1e-12):
            pass
        elif np.allclose(cube, old, rtol=1e-12, atol=1e-12):
            doubled = True
        else:
            raise Fail("kernel", f"{c} positions {g}: max difference {np.abs(cube - ref).max()}")
        eq(P, np.array(g, dtype=int).reshape(-1, 3), "argument", f"{c}: positions")
        obs.add((n, k, g[:1]))
    eq(ker, field(k, 3) + 1, "argument", f"{c}: kernel")
    expect(not doubled, "content-doubled", f"{c}: what was in the cube before is doubled")
    return obs


# ---------------------------------------------------------------- the next call

def cases_twice(tier):
    for dt in ("float64", "float32", "int64", "bool"):
        for a in range(4):
            for b in range(4):
                yield dict(a=a, b=b, dt=dt)


def check_twice(c):
    """a cube made earlier and given to the next call stays as it is; the next cube contains it"""
    t = t2c()
    mk = [lambda cube: t.spherical_bubble_model(6, .3, r=1, source_distribution="Poisson", max_iter=2, cube=cube),
          lambda cube: t.spherical_bubble_model(6, .5, r=1, source_distribution="non-overlapping", max_iter=2, cube=cube),
          lambda cube: t.spherical_bubble_model(6, .9, r=2, source_distribution="Poisson", max_iter=1, cube=cube),
          lambda cube: t.spherical_bubble_model(6, .01, r=2, source_distribution="Poisson", max_iter=1, cube=cube)]
    np.random.seed(5)
    one = mk[c["a"]](None)
    expect(np.isin(one, (0, 1)).all(), "values", f"{c}: {np.unique(one)}")
    arg = one.astype(c["dt"])
    keep = arg.copy()
    C.calls += 2
    painted = refused = shared = False
    try:
        two = mk[c["b"]](arg)
    except TypeError:
        if arg.dtype.kind not in "ib":
            raise
        refused = True   # numpy refuses to paint into integers
        two = keep
    two = np.asarray(two)
    expect(cells(keep) <= cells(two), "lost", f"{c}: bubbles of the given cube are missing")
    expect(np.isin(two, (0, 1)).all(), "values", f"{c}: {np.unique(two)}")
    if not np.array_equal(arg, keep):
        # the known finding: the first bubbles are painted into the cube that was given
        add = arg - 2 * keep.astype(float)
        expect(np.isin(add, (0, 1)).all() and cells(add) in balls(6, 2 if c["b"] == 2 else 1).values(), "argument", f"{c}: the given cube changed into one of {np.unique(arg)}")
        painted = True
    before = two.copy()
    if two.dtype.kind not in "ib":
        snapshot = two.copy()
        mk[c["a"]](snapshot)
        eq(two, before, "result", f"{c}: an earlier result changed")
    if two is arg or np.shares_memory(two, arg):
        shared = True
        eq(two, keep, "returned", f"{c}: the cube returned unpainted")
    expect(not refused, "integers-refused", f"{c}: a cube of type {c['dt']} is refused")
    expect(not painted, "painted-in-place", f"{c}: bubbles painted into the given cube")
    expect(not shared, "returned-itself", f"{c}: nothing to paint, and the result is the given array itself")
    return (c["a"], c["b"], c["dt"])


SUITES = [
    FnSuite("explore", cases_explore, check_explore, "every sequence of random positions: boxes 3^3..5^3 (7^3), radii 1-2 (3), targets .1-.95, 1-9 iterations, batches of 1-2, empty or given cube, all names of the distributions; the set of cubes made equals the reachable set of the model", timeout=800, chunk=1),
    FnSuite("refuse", cases_refuse, check_refuse, "5 boxes/radii x targets just below and above what one batch fills x batches of 1-3 x 2 distributions x empty/given cube; unknown distributions", timeout=60),
    FnSuite("paint", cases_paint, check_paint, "every position (also one outside each face) and every pair of positions in empty and filled boxes up to 3x4x5, 6 kernel shapes", timeout=300, chunk=1),
    FnSuite("twice", cases_twice, check_twice, "a cube given to the next call, 4 x 4 calls, 4 types", timeout=60),
]
