"""Execute one solver run under a controlled environment and record everything observable about it."""
import functools
import io
import logging
import re
import sys

import numpy as np
import scipy.linalg

from . import boot
from .harness import Hang, cpu_limit
import dfols

RE_EVAL = re.compile(r'^Function eval (\d+) at point (\d+) has obj = (\S+) at x')


class Injected(object):
    """Marker answer: raise this exception instance instead of returning."""
    def __init__(self, exc):
        self.exc = exc


class _Log(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, level=logging.INFO)
        self.rec = None

    def emit(self, record):
        r = self.rec
        if r is None:
            return
        msg = record.getMessage()
        m = RE_EVAL.match(msg)
        if m:
            r.log_evals.append((int(m.group(1)), int(m.group(2)), len(r.calls)))
        elif msg.startswith('Soft restart ['):
            r.soft_restarts += 1
        elif msg.startswith('Restarting from finish point'):
            r.hard_restarts += 1


_HANDLER = _Log()
boot.LOGGER.addHandler(_HANDLER)


class Record(object):
    def __init__(self):
        self.calls = []          # (x copy, returned residual copy or None)
        self.log_evals = []      # (eval number, point number, calls made at that time)
        self.ns_calls = []       # (calls made so far, args, answer)
        self.prox_calls = []
        self.h_calls = 0
        self.soft_restarts = 0
        self.hard_restarts = 0
        self.soln = None
        self.exc = None
        self.hang = False
        self.calls_after_exc = 0
        self.inputs_changed = []
        self.arg_problems = []
        self.exc_raised = False
        self.injected = None

    @property
    def restarts(self):
        return self.soft_restarts + self.hard_restarts

    def points(self):
        """Evaluation points as logged: {point number: [call indices]}"""
        pts = {}
        for ev, pt, k in self.log_evals:
            pts.setdefault(pt, []).append(ev - 1)
        return pts


def pbox_(lo, hi, x):
    return np.minimum(np.maximum(x, lo), hi)


def pball_(c, r, x):
    d = x - c
    nd = np.linalg.norm(d)
    return x.copy() if nd <= r else c + (r / nd) * d


def phalf_(a, b, x):
    v = a.dot(x) - b
    return x.copy() if v <= 0 else x - (v / a.dot(a)) * a


def pplane_(a, b, x):
    return x - ((a.dot(x) - b) / a.dot(a)) * a


def psimplex_(c, r, x):
    # {z >= c, sum(z - c) <= r}: by bisection-free sorting (Held, Wolfe, Crowder)
    y = x - c
    z = np.maximum(y, 0.0)
    if np.sum(z) <= r:
        return c + z
    u = np.sort(y)[::-1]
    css = np.cumsum(u) - r
    k = np.nonzero(u - css / np.arange(1, len(u) + 1) > 0)[0][-1]
    return c + np.maximum(y - css[k] / (k + 1.0), 0.0)


def make_projection(desc):
    kind = desc[0]
    if kind == 'plane':
        return functools.partial(pplane_, np.array(desc[1]), desc[2])
    if kind == 'simplex':
        return functools.partial(psimplex_, np.array(desc[1]), desc[2])
    if kind == 'ball':
        return functools.partial(pball_, np.array(desc[1]), desc[2])
    if kind == 'half':
        return functools.partial(phalf_, np.array(desc[1]), desc[2])
    if kind == 'box':
        return functools.partial(pbox_, np.array(desc[1]), np.array(desc[2]))
    raise ValueError(kind)


def set_distance(desc, x):
    return float(np.linalg.norm(make_projection(desc)(np.asarray(x, float)) - x))


def make_reg(reg, rec):
    kind, lam, with_args = reg
    sentinel = ('tag', lam)

    def h_core(x):
        return lam * (np.sum(np.abs(x)) if kind == 'l1' else np.linalg.norm(x))

    def prox_core(x, u):
        if kind == 'l1':
            return np.sign(x) * np.maximum(np.abs(x) - lam * u, 0.0)
        nx = np.linalg.norm(x)
        return x * max(0.0, 1.0 - lam * u / nx) if nx > 0 else x.copy()
    if with_args:
        def h(x, t, s):
            rec.h_calls += 1
            if t != sentinel or s != 'h':
                rec.arg_problems.append('h called with extra arguments %r' % ((t, s),))
            return h_core(x)

        def prox(x, u, t, s, q):
            if t != sentinel or s != 'prox' or q != 3:
                rec.arg_problems.append('prox called with extra arguments %r' % ((t, s, q),))
            return prox_core(x, u)
        return h, prox, h_core, (sentinel, 'h'), (sentinel, 'prox', 3)

    def h0(x):
        rec.h_calls += 1
        return h_core(x)
    return h0, prox_core, h_core, (), ()


def lipschitz(reg, n):
    return reg[1] * (np.sqrt(n) if reg[0] == 'l1' else 1.0)


def reg_value(spec, x):
    if spec.reg is None:
        return 0.0
    kind, lam, _ = spec.reg
    return lam * (np.sum(np.abs(x)) if kind == 'l1' else np.linalg.norm(x))


def make_nsamples(desc, rec):
    kind, k = desc

    def nsamples(delta, rho, it, nruns):
        if kind == 'const':
            a = k
        elif kind == 'vary':
            a = 1 + (len(rec.ns_calls) % 3)
        elif kind == 'menu':
            a = k(rec)
        elif kind == 'nruns':
            a = 1 + min(int(nruns), 2) + (1 if it == 0 else 0)
        else:
            raise ValueError(kind)
        rec.ns_calls.append((len(rec.calls), (float(delta), float(rho), int(it), int(nruns)), a))
        return a
    return nsamples


def solve_kwargs(spec, rec):
    kw = dict(rhobeg=spec.rhobeg, rhoend=spec.rhoend, maxfun=spec.maxfun)
    if spec.xl is not None or spec.xu is not None:
        kw['bounds'] = (spec.xl, spec.xu)
    if spec.npt is not None:
        kw['npt'] = spec.npt
    if spec.projections:
        kw['projections'] = [make_projection(d) for d in spec.projections]
    if spec.scaling:
        kw['scaling_within_bounds'] = True
    if spec.reg is not None:
        h, prox, _, ah, ap = make_reg(spec.reg, rec)
        kw.update(h=h, prox_uh=prox, lh=lipschitz(spec.reg, spec.n), argsh=ah, argsprox=ap)
    if spec.nsamp is not None:
        kw['nsamples'] = make_nsamples(spec.nsamp, rec)
    if spec.has_noise:
        kw['objfun_has_noise'] = True
    if spec.params:
        kw['user_params'] = dict(spec.params)
    return kw


DEFAULT_CPU = 20.0


class SingularAt(object):
    """While active, the triangular solves number k..k+s-1 (0-based) of SciPy report a singular matrix."""
    def __init__(self, k, s=1):
        self.k, self.s, self.count = k, s, 0

    def __enter__(self):
        self.orig = scipy.linalg.solve_triangular

        def solve_triangular(*args, **kw):
            i = self.count
            self.count += 1
            if self.k is not None and self.k <= i < self.k + self.s:
                raise scipy.linalg.LinAlgError('singular matrix: injected')
            return self.orig(*args, **kw)
        scipy.linalg.solve_triangular = solve_triangular
        return self

    def __exit__(self, *a):
        scipy.linalg.solve_triangular = self.orig
        return False


class NoInjection(object):
    count = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def run(spec, answer=None, seed=0, maxfun=None, cpu=DEFAULT_CPU, memo=False, params=None, kwargs=None, singular=None, buffer=None):
    """One solve.  answer(k, x, r) -> residual vector (or Injected) decides what call number k (0-based) returns;
    r is the true residual.  memo=True makes the answers a function of x (the first answer at x is reused)."""
    rec = Record()
    rec.spec = spec
    rec.maxfun = spec.maxfun if maxfun is None else maxfun
    kw = solve_kwargs(spec, rec)
    if maxfun is not None:
        kw['maxfun'] = maxfun
    if params:
        kw.setdefault('user_params', {}).update(params)
    if kwargs:
        kw.update(kwargs)
    cache = {}
    out = []

    def objfun(x):
        if rec.exc_raised:
            rec.calls_after_exc += 1
        xc = np.array(x, dtype=float, copy=True)
        key = xc.tobytes()
        if memo and key in cache:
            r = cache[key]
        else:
            r = spec.fun(xc)
            if answer is not None:
                r = answer(len(rec.calls), xc, r)
            cache[key] = r
        if isinstance(r, Injected):
            rec.calls.append((xc, None))
            rec.exc_raised = True
            rec.injected = r.exc
            raise r.exc
        r = np.array(r, dtype=float, copy=True)
        rec.calls.append((xc, r.copy()))
        if buffer == 'reused':              # one output buffer for all calls
            if not out:
                out.append(r)
            out[0][:] = r
            return out[0]
        if buffer == 'list':
            return [float(v) for v in r]
        if buffer == 'strided':
            return np.repeat(r, 2)[::2]
        if buffer == 'readonly':
            r.flags.writeable = False
        return r
    x0 = spec.x0.copy()
    x0_copy = x0.copy()
    bcopy = tuple(None if b is None else b.copy() for b in kw['bounds']) if 'bounds' in kw else None
    pcopy = dict(kw['user_params']) if 'user_params' in kw else None
    np.random.seed(seed)
    _HANDLER.rec = rec
    old = boot.LOGGER.level
    boot.LOGGER.setLevel(logging.INFO)
    so = sys.stdout
    try:
        with cpu_limit(cpu), (NoInjection() if singular is None else SingularAt(*singular)) as inj:
            rec.soln = dfols.solve(objfun, x0, **kw)
    except Hang:
        rec.hang = True
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not rec.exc_raised:
            raise
        rec.exc = e
    finally:
        boot.LOGGER.setLevel(old)
        _HANDLER.rec = None
        sys.stdout = so
    if not np.array_equal(x0, x0_copy):
        rec.inputs_changed.append('x0')
    if bcopy is not None:
        for b0, b1, nm in zip(bcopy, kw['bounds'], ('lower', 'upper')):
            if b0 is not None and not np.array_equal(b0, b1):
                rec.inputs_changed.append(nm)
    if pcopy is not None and (list(pcopy.items()) != list(kw['user_params'].items())):
        rec.inputs_changed.append('user_params')
    rec.kw = kw
    rec.triangular_solves = inj.count
    return rec
