"""Explicit-state exploration of operation sequences on the real dfols Model, next to a shadow model.

The implementation is executed for every transition (snapshot / restore of its attributes instead of re-execution);
a share of the sequences is replayed from a freshly constructed object to validate the snapshots."""
import functools

import numpy as np

from . import boot  # noqa: F401
from .harness import h64
from dfols.model import Model

EPS = np.finfo(float).eps


def sumsq(r):
    with np.errstate(all='ignore'):
        return float(np.dot(r, r))


class Shadow(object):
    """What the public operations mean."""
    __slots__ = ('n', 'm', 'cap', 'pts', 'kopt_free', 'saved', 'base', 'h', 'lo', 'hi', 'fit', 'counter')

    def __init__(self, n, m, cap, x0, r0, ns0, lo, hi, h):
        self.n, self.m, self.cap = n, m, cap
        # a point: (absolute x, sum of residuals / samples list, count, evaluation number)
        self.pts = [(tuple(x0), (tuple(r0),) * ns0, 1)]
        self.kopt_free = False       # the incumbent was overwritten by a worse point and has not been recovered since
        self.saved = None            # best saved: (x, r, obj, nsamples, evalnum, fit id)
        self.base = tuple(x0)
        self.lo, self.hi, self.h = lo, hi, h
        self.fit = None              # (jacobian copy, eval nums copy) of the latest successful fit
        self.counter = 1

    def copy(self):
        s = Shadow.__new__(Shadow)
        for a in Shadow.__slots__:
            v = getattr(self, a)
            setattr(s, a, list(v) if isinstance(v, list) else v)
        return s

    def mean(self, k):
        rs = self.pts[k][1]
        with np.errstate(all='ignore'):
            return np.array(rs[0]) if len(rs) == 1 else np.mean(np.array(rs), axis=0)

    def key(self, model):
        return h64(repr((self.pts, self.kopt_free, self.saved and self.saved[:5], self.base)), int(model.kopt),
                   bool(getattr(model, 'factorisation_current', False)), None if self.fit is None else self.fit[0].tobytes())


def hval(h, x, scaling):
    if h is None:
        return 0.0
    x = np.array(x)
    if scaling is not None:
        x = scaling[0] + x * scaling[1]
    return h(x)


def rank(v):
    """Sort key of an objective value: NaN is worse than anything else."""
    return np.inf if np.isnan(v) else float(v)


def snapshot(model):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in model.__dict__.items()}


def restore(model, snap):
    model.__dict__.clear()
    model.__dict__.update({k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in snap.items()})


def close(a, b, rel, scale):
    """Equal non-finite pattern, finite entries within rel*scale."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb):
        # overflow to inf of huge values is a matter of rounding
        big = np.where(fa, np.abs(a), np.where(fb, np.abs(b), np.inf))
        if np.any((fa != fb) & (big < 1e300)):
            return False
    both = fa & fb
    return bool(np.all(np.abs(a[both] - b[both]) <= rel * scale))
