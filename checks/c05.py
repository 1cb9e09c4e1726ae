"""C05: linear least squares (with bounds) solved to global optimality, on every instance of a finite grid."""
import itertools

import numpy as np

from mc import boot  # noqa: F401
from mc.harness import Check, Hang, Out, cpu_limit, h64
from . import common
import dfols


# ---------------------------------------------------------------------------------------------------------- instances
def orth(k, v):
    """A fixed orthogonal k x k matrix, variant v (0: identity)."""
    if v == 0:
        return np.eye(k)
    a = np.array([[np.cos(1.7 * v * i * (j + 1) + 0.6 * j) + (i == j) for j in range(k)] for i in range(k)])
    return np.linalg.qr(a)[0]


def matrix(n, m, kappa, v):
    k = min(n, m)
    s = 10.0 ** np.linspace(0, -np.log10(kappa), k) if k > 1 else np.array([1.0])
    S = np.zeros((m, n))
    S[:k, :k] = np.diag(s)
    return orth(m, v).dot(S).dot(orth(n, 2 * v).T)


def rhs(A, kind):
    m, n = A.shape
    xs = np.resize([1.0, -2.0, 0.5, 3.0, -0.3], n)
    noise = np.resize([0.3, -0.2, 0.5, 0.1], m)
    if kind == 'consistent':
        return A.dot(xs)
    if kind == 'general':
        return A.dot(xs) + noise
    if kind == 'large':
        return 100.0 * (A.dot(xs) + noise)
    if kind == 'zero':
        return np.zeros(m)
    return 1e-2 * (A.dot(xs) + 5 * noise)          # small


def box(kind, xu, x0):
    """Bounds relative to the unconstrained minimiser xu and the starting point."""
    n = len(xu)
    sgn = np.resize([1.0, -1.0], n)
    if kind == 'none':
        return None, None
    w = np.maximum(1.0, np.abs(xu))
    if kind == 'around':
        return np.minimum(xu, x0) - w, np.maximum(xu, x0) + w
    if kind == 'cut':           # minimiser outside in every second coordinate
        lo, hi = xu - 3 * w, xu + 3 * w
        hi[::2] = xu[::2] - 0.3 * w[::2]
        return lo, hi
    if kind == 'away':
        return xu + w * (0.5 + 0 * sgn), xu + 3.5 * w
    if kind == 'corner':
        return np.where(sgn > 0, xu + 0.2 * w, xu - 4 * w), np.where(sgn > 0, xu + 4 * w, xu - 0.2 * w)
    if kind == 'onmin':          # the unconstrained minimiser is a corner of the box
        return xu.copy(), xu + 2 * w
    if kind == 'lower':
        return xu + 0.1 * w * sgn, np.full(n, 1e20)
    if kind == 'upper':
        return np.full(n, -1e20), xu - 0.2 * w * sgn
    raise ValueError(kind)


def start(kind, xu):
    n = len(xu)
    return {'zero': np.zeros(n), 'near': xu + np.resize([0.3, -0.2], n), 'far': xu + np.resize([20.0, -35.0, 8.0], n), 'at': xu.copy(), 'big': np.resize([1000.0, -300.0], n)}[kind]


# ----------------------------------------------------------------------------------------------------------- oracle
def optimum(A, b, lo, hi):
    """min ||Ax-b||^2 over the box: all 3^n active sets for n <= 5 (exact KKT enumeration), bounded-variable least squares otherwise."""
    m, n = A.shape
    if lo is None:
        x = np.linalg.lstsq(A, b, rcond=None)[0]
        r = A.dot(x) - b
        return float(r.dot(r)), x
    best, bx = np.inf, None
    if n <= 5:
        opts = [[0] + ([-1] if lo[i] > -1e19 else []) + ([1] if hi[i] < 1e19 else []) for i in range(n)]
        for act in itertools.product(*opts):
            fix = [i for i in range(n) if act[i]]
            fr = [i for i in range(n) if not act[i]]
            x = np.zeros(n)
            for i in fix:
                x[i] = lo[i] if act[i] < 0 else hi[i]
            if fr:
                x[fr] = np.linalg.lstsq(A[:, fr], b - A[:, fix].dot(x[fix]) if fix else b, rcond=None)[0]
            if np.any(x < lo - 1e-12 * np.maximum(1, np.abs(x))) or np.any(x > hi + 1e-12 * np.maximum(1, np.abs(x))):
                continue
            x = np.minimum(np.maximum(x, lo), hi)
            r = A.dot(x) - b
            f = float(r.dot(r))
            if f < best:
                best, bx = f, x
    if n > 5:
        from scipy.optimize import lsq_linear
        rr = lsq_linear(A, b, bounds=(np.where(lo < -1e19, -np.inf, lo), np.where(hi > 1e19, np.inf, hi)), method='bvls', tol=1e-14, max_iter=1000)
        r = A.dot(rr.x) - b
        if float(r.dot(r)) < best:
            best, bx = float(r.dot(r)), rr.x
    return best, bx


def instance(case):
    A = matrix(case['n'], case['m'], case['kappa'], case['rot'])
    if case.get('scaleA'):
        A = case['scaleA'] * A
    b = rhs(A, case['rhs'])
    xu = np.linalg.lstsq(A, b, rcond=None)[0]
    x0 = start(case['x0'], xu)
    lo, hi = box(case['box'], xu, x0)
    return A, b, lo, hi, x0


def run(case):
    A, b, lo, hi, x0 = instance(case)
    n, m = case['n'], case['m']
    npt = {'n1': n + 1, '2n1': 2 * n + 1, 'n2': n + 2, 'full': (n + 1) * (n + 2) // 2}[case['npt']]
    kw = {}
    if lo is not None:
        kw['bounds'] = (lo, hi)
        if case['scaling']:
            kw['scaling_within_bounds'] = True
        else:
            gap = np.min(hi - lo)
            rb = 0.1 * max(np.max(np.abs(x0)), 1.0)
            if gap < 2 * rb:
                kw['rhobeg'] = 0.25 * gap
    calls = [0]

    def f(x):
        calls[0] += 1
        return A.dot(x) - b
    try:
        with cpu_limit(120.0):
            s = dfols.solve(f, x0.copy(), npt=npt, **kw)
    except Hang:
        return None, [('hang', 'no result after 120 s of CPU time')]
    except Exception as e:
        return None, [('exception', repr(e))]
    return (s, calls[0]), judge(s, A, b, lo, hi)


def judge(s, A, b, lo, hi):
    if s.flag == s.EXIT_INPUT_ERROR:
        return [('rejected', s.msg)]
    v = []
    fs, xs = optimum(A, b, lo, hi)
    x = np.asarray(s.x, float)
    if lo is not None and (np.any(x < lo) or np.any(x > hi)):
        v.append(('infeasible', 'x = %r outside the bounds' % (x,)))
    r = A.dot(x) - b
    f = float(r.dot(r))
    if abs(f - s.obj) > 1e-9 * (1 + abs(f)):
        v.append(('obj', 'reported objective %r, objective at x %r' % (s.obj, f)))
    if f < fs - 1e-8 * (1 + fs) and not v:
        v.append(('oracle', 'oracle is wrong: f %r below f* %r' % (f, fs)))
    if not s.obj <= fs + 1e-6 * (1 + fs):
        v.append(('optimum', 'objective %.12g, minimum %.12g (excess %.3g, allowed %.3g), flag %d: %s' % (s.obj, fs, s.obj - fs, 1e-6 * (1 + fs), s.flag, s.msg)))
    if s.flag != s.EXIT_SUCCESS:
        v.append(('flag', 'flag %d: %s (objective %.12g, minimum %.12g)' % (s.flag, s.msg, s.obj, fs)))
    return v


def replay(case):
    return run(case)[1]


def grid(T):
    out = []

    def add(ns, ms, kappas, rots, rs, x0s, boxes, scal, npts, **more):
        for n in ns:
            for mk in ms:
                m = {'sq': n, 'over': n + 2, 'tall': 3 * n}[mk]
                for t in itertools.product(kappas, rots, rs, x0s, boxes, scal, npts):
                    kappa, rot, rh, x0, bx, sc, npt = t
                    if sc and bx in ('none', 'lower', 'upper'):
                        continue
                    if min(n, m) == 1 and kappa != kappas[0]:
                        continue
                    if n == 1 and npt in ('n2', 'full'):
                        continue
                    out.append(dict(n=n, m=m, kappa=kappa, rot=rot, rhs=rh, x0=x0, box=bx, scaling=sc, npt=npt, cost=n, **more))
    allbox = ('none', 'around', 'cut', 'away', 'corner', 'onmin', 'lower', 'upper')
    rall, xall = ('consistent', 'general', 'large', 'zero', 'small'), ('zero', 'near', 'far', 'at', 'big')
    if T:
        add((1, 2, 3), ('sq', 'over', 'tall'), (1.0, 30.0, 1e3), (0, 1, 2), rall, xall, allbox, (False, True), ('n1', '2n1', 'full'))
        add((2, 3), ('over',), (1.0, 30.0), (1, 3), rall, xall, allbox, (False, True), ('n1', '2n1', 'n2'), scaleA=1e-2)
        add((2, 3), ('over',), (1.0, 30.0), (1, 3), rall, xall, allbox, (False, True), ('n1', '2n1', 'n2'), scaleA=100.0)
        add((4, 5, 8), ('sq', 'over', 'tall'), (1.0, 1e3), (1, 2), ('general', 'large', 'zero'), ('zero', 'far', 'near'), allbox, (False, True), ('n1', '2n1', 'n2'))
        add((10, 12), ('sq', 'over'), (10.0, 1e3), (1,), ('general', 'large'), ('zero', 'near'), allbox, (False, True), ('n1', 'n2'))
    else:
        add((1,), ('sq', 'over', 'tall'), (1.0,), (0,), rall, xall, allbox, (False, True), ('n1', '2n1'))
        add((2,), ('sq', 'over', 'tall'), (1.0, 30.0, 1e3), (0, 1), ('consistent', 'general', 'large'), ('zero', 'far', 'near'), allbox, (False, True), ('n1', '2n1'))
        add((2,), ('over',), (10.0,), (2,), ('zero', 'small'), ('at', 'big', 'far'), allbox, (False, True), ('n1', 'n2', 'full'))
        add((2, 3), ('over',), (10.0,), (1,), ('general', 'zero'), ('near', 'far'), allbox, (False, True), ('n1',), scaleA=1e-2)
        add((2, 3), ('over',), (10.0,), (1,), ('general', 'zero'), ('near', 'far'), allbox, (False, True), ('n1',), scaleA=100.0)
        add((3,), ('over', 'sq'), (10.0, 1e3), (1,), ('general', 'large', 'zero'), ('zero', 'far', 'at'), allbox, (False, True), ('n1', '2n1', 'full'))
        add((4, 5), ('over', 'sq'), (1.0, 100.0, 1e3), (1,), ('general', 'large'), ('near', 'zero'), allbox, (False, True), ('n1', '2n1', 'n2'))
        add((6, 8), ('over', 'sq'), (100.0,), (1,), ('general',), ('near', 'far'), allbox, (False, True), ('n1',))
        add((10,), ('over',), (10.0,), (1,), ('general',), ('near',), allbox, (False, True), ('n1',))
    return [dict(t) for t in dict.fromkeys(tuple(sorted(c.items())) for c in out)]


def work(chunk):
    o = Out()
    for case in chunk:
        r, v = run(case)
        o.n += 1
        if r is not None:
            s, k = r
            o.transitions += k
            o.states.add(h64(np.asarray(s.x).tobytes(), k))
            o.count('flag_%d' % s.flag)
            A, b, lo, hi, x0 = instance(case)
            if lo is not None and np.any((s.x <= lo + 1e-6) | (s.x >= hi - 1e-6)):
                o.count('active_at_solution')
        for kd, w in v[:1]:
            o.violation(kd, '%s: %s' % (case, w), dict(case))
    o.sample = dict(case=case)
    return o


def main():
    ck = Check('C05', 'exploration',
               'an execution is one whole default-budget solve of a linear least-squares instance of the grid (size x shape x condition x right-hand side x start x box x scaling x npt); '
               'judged counts objective evaluations; distinct (solution, evaluations) counted',
               ['the minimum comes from enumerating all active sets (n <= 5), by bounded-variable least squares for larger n', 'A has full column rank (m >= n) and condition number at most 1000'])
    g = grid(ck.thorough)
    ck.space('grid', work, common.chunks(g, 2), '%d instances' % len(g))
    ck.finish()


if __name__ == '__main__':
    main()
