"""Stand-in for numpy's normal draws: whatever route the library takes to numpy.random, a script decides the numbers."""
import contextlib
import sys

import numpy as np


class _Gen:
    """object with the drawing methods of RandomState and Generator"""

    def __init__(self, std):
        self.std = std

    def normal(self, loc=0., scale=1., size=None):
        return loc + scale * self.std(size)

    def standard_normal(self, size=None, *a, **k):
        return self.std(size)

    def randn(self, *s):
        return self.std(s if s else None)

    def seed(self, *a, **k):
        pass

    def __getattr__(self, name):
        return getattr(np.random, name)


def standard_normals(std):
    """std(size) answers every standard normal draw"""
    g = _Gen(std)
    return replaced(g, dict(normal=g.normal, standard_normal=g.standard_normal, randn=g.randn))


class _Int:
    """object with the integer drawing methods of RandomState and Generator"""

    def __init__(self, draw):
        self.randint = self.integers = draw
        self.choice = draw.choice

    def seed(self, *a, **k):
        pass

    def __getattr__(self, name):
        return getattr(np.random, name)


def integer_draws(draw):
    """draw(low, high, size) answers every uniform integer draw, draw.choice(a, size) every choice"""
    g = _Int(draw)
    return replaced(g, dict(randint=g.randint, choice=g.choice))


@contextlib.contextmanager
def replaced(g, new):
    new = dict(new, RandomState=lambda *a, **k: g, default_rng=lambda *a, **k: g)
    old = {k: getattr(np.random, k) for k in new}
    saved = [(np.random, k, v) for k, v in old.items()]
    for n, m in list(sys.modules.items()):
        if n.startswith("tools21cm") and m is not None:
            for a, v in list(vars(m).items()):
                for k in old:
                    if v is old[k]:
                        saved.append((m, a, v))
    for o, a, v in saved:
        k = next(k for k in old if old[k] is v)
        setattr(o, a, new[k])
    try:
        yield g
    finally:
        for o, a, v in saved:
            setattr(o, a, v)
