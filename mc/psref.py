"""Reference Fourier machinery: explicit DFT sums, integer mode numbers, bin membership by comparison."""
import itertools
import numpy as np


def dft(x):
    """explicit DFT along every axis; index i of the result holds mode number i - n//2"""
    y = np.asarray(x, dtype=complex)
    for ax, n in enumerate(y.shape):
        m = np.arange(n) - n // 2
        W = np.exp(-2j * np.pi * np.outer(m, np.arange(n)) / n)
        y = np.moveaxis(np.tensordot(W, y, axes=(1, ax)), 0, ax)
    return y


def power(x, L, y=None):
    a = dft(x)
    b = a if y is None else dft(y)
    return (a * b.conj()).real * np.prod(L) / np.prod(np.shape(x), dtype=float) ** 2


def modes(shape, L):
    """list of wave vectors in array order"""
    ks = [2. * np.pi * (np.arange(n) - n // 2) / l for n, l in zip(shape, L)]
    return np.array(list(itertools.product(*ks)))


def kmag(shape, L):
    v = modes(shape, L)
    return np.sqrt((v ** 2).sum(axis=1))


def edges(kb, shape, L, binning, breakpoint=0.1):
    if np.ndim(kb):
        return np.asarray(kb, dtype=float)
    lo, hi = 2 * np.pi / min(L), kmag(shape, L).max()
    lin = lo + (hi - lo) * np.arange(kb + 1) / kb
    log = lo * (hi / lo) ** (np.arange(kb + 1) / kb)
    lin[0] = log[0] = lo
    lin[-1] = log[-1] = hi
    if binning == "linear":
        return lin
    if binning == "log":
        return log
    return np.array([e for e in lin if e < breakpoint] + [e for e in log if e > breakpoint])


def ambiguous(v, e, rel=1e-9):
    """is any value so close to an interior edge that rounding decides? (values exactly at the outer edges are inside)"""
    v = np.asarray(v)
    return any(np.any(np.abs(v - x) <= rel * max(abs(x), 1e-300)) for x in e[1:-1])


def member(v, e):
    """bin index of every value, -1 outside; bins are closed on the left, the last one on both sides"""
    out = np.full(len(v), -1)
    tol = 1e-12
    for i in range(len(e) - 1):
        lo = v >= e[i] * (1 - tol) if i == 0 and e[i] > 0 else (v >= e[i] - (tol if i == 0 else 0))
        hi = v < e[i + 1] if i < len(e) - 2 else v <= e[i + 1] + tol * abs(e[i + 1])
        out[(out < 0) & lo & hi] = i
    return out


def mean_in(p, idx, n):
    s = np.array([p[idx == i].mean() if np.any(idx == i) else np.nan for i in range(n)])
    c = np.array([np.count_nonzero(idx == i) for i in range(n)], dtype=float)
    return s, c
