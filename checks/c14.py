"""C14: initial interpolation set next to bounds; random direction generators."""
import itertools

import numpy as np

from mc import boot, configs  # noqa: F401
from mc.harness import Check, Hang, Out, cpu_limit, h64
from . import common
import dfols
import dfols.controller as ctl
import dfols.util as ut

EPS = np.finfo(float).eps
CONDMAX = 1e4

# ---------------------------------------------------------------------------------------------- initial coordinate set
# placement of x0 relative to one coordinate's interval, in units of rhobeg: ('l', d): lower + d*rhobeg, ('u', d): upper - d*rhobeg
DIST = (-1.0, -1e-9, 0.0, 1e-16, 1e-9, 1e-3, 9.9e-3, 0.01, 1.01e-2, 0.02, 0.3, 0.99, 1.0, 1.2)
PLACE = [(s, d) for s in 'lu' for d in DIST] + [('m', 0.0), ('n', 0.0)] + [(s, d) for s in 'ab' for d in DIST + (5.0,)]       # m: middle, n: no bounds, a: only lower, b: only upper
SHORT = [('a', 0.0), ('l', 0.0), ('l', 1e-3), ('l', 0.02), ('u', 0.0), ('u', 9.9e-3), ('u', 0.3), ('m', 0.0), ('n', 0.0), ('l', -1.0), ('b', 0.0), ('u', 1.2)]
TINY = [('l', 0.0), ('u', 1e-3), ('u', 0.02), ('m', 0.0), ('n', 0.0)]
SETTINGS = [dict(rho=0.1, off=0.0), dict(rho=1e-3, off=0.7), dict(rho=1.0, off=1e3), dict(rho=5.0, off=-20.0), dict(rho=0.1, off=0.3, scaling=True)]
GAPS = (2.0, 2.5, 3.1, 20.0)


def interval(place, gap, rho, base):
    """(lower, upper, x0) of one coordinate; the interval is made so that fl(upper - lower) >= 2*rho."""
    k, d = place
    lo = base
    hi = base + gap * rho
    while hi - lo < 2.0 * rho:
        hi = np.nextafter(hi, np.inf)
    if k == 'l':
        return lo, hi, lo + d * rho
    if k == 'u':
        return lo, hi, hi - d * rho
    if k == 'm':
        return lo, hi, 0.5 * (lo + hi)
    if k == 'n':
        return -1e20, 1e20, base + 0.123 * rho
    if k == 'a':
        return lo, 1e20, lo + d * rho
    return -1e20, hi, hi - d * rho


FUNS = {'flat': lambda x: np.array([3.0, -1.0]), 'down': lambda x: np.array([10.0 - 0.01 * np.sum(np.tanh(x)), 1.0]), 'up': lambda x: np.array([10.0 + 0.01 * np.sum(np.tanh(x)), 1.0]),
        'bowl': lambda x: np.concatenate([[2.0], 0.3 * (x - 0.1)]), 'alt': lambda x: np.array([10.0 + 0.02 * np.sum(np.tanh(x) * np.resize([1.0, -1.0], len(x)))])}


def init_case(n, npt, places, gap, setting, fun):
    return dict(n=n, npt=npt, places=[list(p) for p in places], gap=gap, setting=setting, fun=fun, cost=n)


def build(case):
    st = SETTINGS[case['setting']]
    rho = st['rho']
    t = [interval(tuple(p), case['gap'], rho, st['off'] * (1.0 + 0.37 * i)) for i, p in enumerate(case['places'])]
    lo, hi, x0 = (np.array(z, float) for z in zip(*t))
    if st.get('scaling'):
        # in scaled variables the box is [0,1] and rhobeg counts there: the gap in units of rhobeg is 1/rhobeg
        rho = min(0.5, 1.0 / case['gap'])
    return lo, hi, x0, rho, bool(st.get('scaling'))


def run_init(case):
    lo, hi, x0, rho, scaling = build(case)
    f0 = FUNS[case['fun']]
    calls = []

    def f(x):
        calls.append(np.array(x, float))
        return f0(np.array(x, float))
    n, npt = case['n'], case['npt']
    try:
        with cpu_limit(30.0):
            s = dfols.solve(f, x0.copy(), bounds=(lo.copy(), hi.copy()), npt=npt, rhobeg=rho, rhoend=min(1e-8, rho * 1e-3), maxfun=npt + case.get('more', 0), scaling_within_bounds=scaling)
    except Hang:
        return calls, [('init-hang', 'no result')]
    except Exception as e:
        return calls, [('init-exception', repr(e))]
    v = judge_init(calls[:npt], lo, hi, x0, rho, scaling, npt)
    if v and s.flag == s.EXIT_INPUT_ERROR:
        return calls, [('init-rejected', 'valid input rejected: %s' % s.msg)]
    return calls, v


def judge_init(pts, lo, hi, x0, rho, scaling, npt):
    n = len(x0)
    if len(pts) < npt:
        return [('init-count', 'only %d evaluations, npt = %d' % (len(pts), npt))]
    P = np.array(pts)
    xp = np.minimum(np.maximum(x0, lo), hi)
    if np.any(np.abs(P[0] - xp) > 1e-14 * np.maximum(1.0, np.abs(xp)) + (4 * EPS * (hi - lo) if scaling else 0.0)):
        return [('init-x0', 'first evaluation at %r, projected x0 is %r' % (P[0], xp))]
    if np.any(P < lo) or np.any(P > hi):
        return [('init-bounds', 'point outside the bounds: %r' % (P,))]
    scale = (hi - lo) if scaling else np.ones(n)
    D = (P - P[0]) / scale
    dist = np.linalg.norm(D[1:], axis=1)
    slip = 8 * EPS * np.max(np.abs(P[0]) / scale) + 1e-9 * rho
    if np.any(dist < 0.01 * rho - slip) or np.any(dist > 2.0 * rho + slip):
        return [('init-distance', 'distances from x0 in units of rhobeg: %r' % (dist / rho,))]
    W = np.column_stack([np.ones(npt), D / np.max(dist)])
    c = np.linalg.cond(W)
    if not c < CONDMAX:
        return [('init-poised', 'condition number of the scaled interpolation matrix: %.4g' % c)]
    E = P / scale
    near = np.min(np.linalg.norm(E[:, None, :] - E[None, :, :], axis=2) + np.where(np.eye(npt) > 0, np.inf, 0.0))
    if near < 1e-4 * rho - slip:
        return [('init-poised', 'two of the points are only %.3g rhobeg apart' % (near / rho))]
    return []


def init_tasks(T):
    out = []
    fs = ('flat', 'down', 'up', 'bowl', 'alt')
    for st in range(len(SETTINGS)):
        for gap in GAPS:
            for npt in (2, 3):
                for p in PLACE:
                    for f in fs:
                        out.append((1, npt, (p,), gap, st, f))
    for st in range(len(SETTINGS)) if T else (0, 2, 4):
        for gap in GAPS if T else (2.0, 3.1):
            for npt in (3, 4, 5, 6):
                for ps in itertools.product(PLACE, repeat=2) if T or st == 0 else itertools.product(SHORT, repeat=2):
                    for f in fs if T else (('flat', 'alt') if npt > 3 else ('flat',)) if npt < 6 else ('alt', 'up'):
                        out.append((2, npt, ps, gap, st, f))
    for st in range(len(SETTINGS)) if T else (0, 3):
        for gap in GAPS if T else (2.5,):
            for npt in (4, 5, 6, 7, 8, 9, 10) if T else (4, 7, 10):
                for ps in itertools.product(SHORT, repeat=3):
                    out.append((3, npt, ps, gap, st, 'alt'))
    for ps in itertools.product(TINY, repeat=4):
        for npt in (5, 6, 9, 12, 15):
            out.append((4, npt, ps, 2.5, 0, 'alt'))
    for n in (5, 6, 7, 8):
        for npt in (n + 1, n + 2, 2 * n, 2 * n + 1, 3 * n, (n + 1) * (n + 2) // 2):
            for a, b in itertools.product(SHORT if T else TINY, repeat=2):
                for pat in ([a] * n, [a, b] * n, [a] * (n - 1) + [b], [b] + [a] * (n - 1), [a] * (n // 2) + [b] * n):
                    for st in (0, 1, 4) if T else (n % 3,):
                        out.append((n, npt, tuple(pat[:n]), 2.0 if n % 2 else 4.0, st, 'alt'))
    # anything with a coordinate without (finite) bounds cannot be scaled
    return [t for t in dict.fromkeys(out) if not (SETTINGS[t[4]].get('scaling') and any(p[0] in 'nab' for p in t[2]))]


def work_init(chunk):
    o = Out()
    for t in chunk:
        case = init_case(*t)
        calls, v = run_init(case)
        o.n += 1
        o.transitions += len(calls)
        o.states.add(h64(*[c.tobytes() for c in calls[:case['npt']]]))
        o.count('n=%d' % case['n'])
        if v:
            o.violation(v[0][0], '%s: %s' % (case, v[0][1]), dict(init=case, cost=case['n']))
    o.sample = dict(case=case)
    return o


# ------------------------------------------------------------------------------------------------ direction generators
SIDES = {'F': (-1e20, 1e20), 'L': (0.0, 1e20), 'U': (-1e20, 0.0), 'l': (-0.3, 5.0), 'u': (-7.0, 0.2), 'B': (-0.4, 0.5), 't': (0.0, 0.3), 'T': (-0.6, 0.0), 'n': (-1e-3, 1.0), 'd': (0.0, 1.0), 'D': (-1.5, 0.0), 'm': (-1e-12, 3.0),
         'g': (0.0, 1.7)}
DELTAS = (1.0, 1e-3, 20.0)


class Script(object):
    """Stands in for numpy.random.normal: matrices and vectors from finite alphabets."""
    def __init__(self, mats, vecs):
        self.m, self.v = mats, vecs
        self.i = self.j = 0

    def __call__(self, loc=0.0, scale=1.0, size=None):
        shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size or ())
        if len(shape) == 2:
            a = self.m(shape[0])
            self.i += 1
            return np.array(a[:, :shape[1]], float)
        if len(shape) == 1:
            v = self.v(shape[0], self.j)
            self.j += 1
            return np.array(v, float)
        return 0.5


def matrices(k):
    I = np.eye(k)
    gen = np.array([[np.cos(1.7 * i * (j + 1) + j) for j in range(k)] for i in range(k)])
    out = [I, -I, gen, gen.T[::-1] + 2 * I, I + 1e-6 * gen]
    if k > 1:
        out += [I[::-1], np.ones((k, k)) - 0.5 * I, np.where(np.tri(k) > 0, -1.0, 0.0)]
    return out


def vectors(n):
    if n <= 3:
        return [np.array(v) for v in itertools.product((-1.0, 0.0, 1e-4, 2.0), repeat=n) if any(v)]
    return [np.resize(np.array(p, float), n) for p in ((1,), (-1,), (1, -1), (0, 1), (1, 0, 0, 0, 0, 0, 0, 0), (0, 0, 0, -3), (1e-4, -2, 0.5))]


def gen_instance(sides, delta):
    b = [SIDES[c] for c in sides]
    return np.array([t[0] if t[0] == -1e20 else t[0] * delta for t in b]), np.array([t[1] if t[1] == 1e20 else t[1] * delta for t in b])


def run_gen(case):
    lo, hi = gen_instance(case['sides'], case['delta'])
    n = len(lo)
    vs = vectors(n)
    mats = matrices(n)
    sc = Script(lambda k: matrices(k)[case['mat'] % len(matrices(k))], lambda k, j: vs[(case['vec'] + j * case.get('step', 1)) % len(vs)])
    real = np.random.normal
    np.random.seed(case.get('seed', 0))
    try:
        if not case.get('real'):
            np.random.normal = sc
        with cpu_limit(10.0):
            if case['gen'] == 'plain':
                d = ut.random_directions_within_bounds(case['num'], case['delta'], lo.copy(), hi.copy())
            else:
                d = ut.random_orthog_directions_within_bounds(case['num'], case['delta'], lo.copy(), hi.copy(), with_neg_dirns=case['neg'])
    except Hang:
        return None, [('gen-hang', 'no result')]
    except Exception as e:
        return None, [('gen-exception', repr(e))]
    finally:
        np.random.normal = real
    return d, judge_gen(d, case['num'], case['delta'], lo, hi)


def judge_gen(d, num, delta, lo, hi):
    n = len(lo)
    d = np.asarray(d, float)
    if d.shape != (num, n):
        return [('gen-count', 'asked for %d directions, result has shape %r' % (num, d.shape))]
    if not np.all(np.isfinite(d)):
        return [('gen-nan', 'directions %r' % (d,))]
    if np.any(d < lo) or np.any(d > hi):
        return [('gen-bounds', 'direction outside [%r, %r]: %r' % (lo, hi, d))]
    L = np.linalg.norm(d, axis=1)
    if np.any(L > delta * (1 + 1e-10)):
        return [('gen-length', 'lengths %r, requested %g' % (L / delta, delta))]
    return []


def gen_cases(T):
    out = []
    for n in (1, 2, 3, 4, 5, 8):
        if n <= 2:
            sides = list(itertools.product(SIDES, repeat=n))
        elif n == 3:
            sides = list(itertools.product('FLUBtT' if not T else 'FLUBtTlnD', repeat=3))
        elif n == 4:
            sides = list(itertools.product('FLUt', repeat=4))
        else:
            sides = [tuple(('LU'[(i >> j) & 1] if (i >> (n + j)) & 1 else 'F') for j in range(n)) for i in range(0, 4 ** n, 1 if n == 5 else 97)] + [tuple(np.resize(list(p), n)) for p in ('tT', 'B', 'dDF', 'nl', 'LUB', 'gF')]
        sides = list(dict.fromkeys(sides))
        nums = sorted({1, n, n + 1, 2 * n, 2 * n + 1, 2 * n + 3}) if T or n <= 2 else sorted({1, n, 2 * n, 2 * n + 2})
        for s in sides:
            for delta in DELTAS if T or n <= 2 else DELTAS[:1]:
                for num in nums:
                    nm = len(matrices(n)) if (T or n <= 3) else 3
                    for mat in range(nm):
                        for neg in (True, False):
                            out.append(dict(gen='orthog', sides=''.join(s), delta=delta, num=num, mat=mat, vec=mat, neg=neg))
                # every vector as the first direction
                for vec in range(len(vectors(n))):
                    out.append(dict(gen='plain', sides=''.join(s), delta=delta, num=1, mat=0, vec=vec))
                out.append(dict(gen='plain', sides=''.join(s), delta=delta, num=2 * n + 1, mat=0, vec=0))
                for seed in (0, 1):
                    out.append(dict(gen='plain', sides=''.join(s), delta=delta, num=n + 2, mat=0, vec=0, real=1, seed=seed))
                    out.append(dict(gen='orthog', sides=''.join(s), delta=delta, num=2 * n + 2, mat=0, vec=0, neg=True, real=1, seed=seed))
    return out


def work_gen(chunk):
    o = Out()
    for c in chunk:
        d, v = run_gen(c)
        o.n += 1
        o.transitions += c['num']
        if d is not None:
            o.states.add(h64(np.asarray(d).tobytes()))
        o.count(c['gen'])
        if v:
            o.violation(v[0][0], '%s: %s' % (c, v[0][1]), dict(gen=c, cost=len(c['sides'])))
    o.sample = dict(case=c)
    return o


# ------------------------------------------------------------------------------------------- calls made by whole runs
def live(case):
    v = []
    k = [0]
    done = []

    def wrap(f):
        def w(num_pts, delta, lower, upper, *a, **kw):
            d = f(num_pts, delta, lower, upper, *a, **kw)
            k[0] += 1
            lo, hi = np.array(lower, float), np.array(upper, float)
            v.extend(judge_gen(d, num_pts, delta, lo, hi))
            return d
        return w
    for name in ('random_directions_within_bounds', 'random_orthog_directions_within_bounds'):
        f = getattr(ut, name, None)
        if f is not None and getattr(ctl, name, None) is f:
            done.append((name, f))
            setattr(ctl, name, wrap(f))
    try:
        rec = common.execute(case)
    finally:
        for name, f in done:
            setattr(ctl, name, f)
    return v, k[0], rec


def live_init(case):
    """The first npt evaluations of an ordinary run (default initialisation) obey the same rules."""
    sp = configs.spec_of(case['problem'], case['toggles'])
    v, k, rec = live(case)
    npt = sp.npt or sp.n + 1
    pure = sp.xl is not None and not sp.projections and not sp.params.get('init.random_initial_directions') and 'growing.ndirs_initial' not in sp.params and npt <= (sp.n + 1) * (sp.n + 2) // 2
    if not v and pure and rec.soln is not None:
        pts = []
        for x, _ in rec.calls:
            if not any(np.array_equal(x, y) for y in pts):
                pts.append(np.array(x, float))
        if len(pts) >= npt:
            xu = sp.xu if sp.xu is not None else np.full(sp.n, 1e20)
            rb = sp.rhobeg
            v = judge_init(pts[:npt], sp.xl, xu, sp.x0, rb, sp.scaling, npt)
    return v, k


def work_live(chunk):
    o = Out()
    for c in chunk:
        v, k = live_init(c)
        o.n += 1
        o.transitions += k + 1
        o.states.add(h64(repr(c)))
        if v:
            o.violation(v[0][0], '%s %s: %s' % (c['problem'], c['toggles'], v[0][1]), dict(case=c, cost=50))
    return o


def replay(rep):
    if 'init' in rep:
        return run_init(rep['init'])[1]
    if 'gen' in rep:
        return run_gen(rep['gen'])[1]
    return live_init(rep['case'])[0]


def main():
    ck = Check('C14', 'exploration',
               'an evaluation is one start of the solver (initial set: placement of x0 in every coordinate x npt x box width x radius x scaling x objective) or one generator call (active-set pattern x '
               'number of directions x radius x scripted random numbers); distinct initial sets / direction sets are counted',
               ['distances judged with 1e-9 relative slack; condition number of [1, (y-x0)/max distance]', 'NumPy\'s normal() is replaced by finite alphabets when the generators are called directly (and left alone for two seeds)'])
    T = ck.thorough
    ti = init_tasks(T)
    ck.space('initial sets', work_init, common.chunks(ti, 24), '%d starts: all placements over %s' % (len(ti), DIST))
    tg = gen_cases(T)
    ck.space('generators', work_gen, common.chunks(tg, 200), '%d generator calls' % len(tg))
    cs = []
    for must in [(t,) for t in configs.options_of(['init'])[0] + configs.options_of(['grow'])[0] + ['rst:soft', 'rst:incnpt', 'rst:hincnpt', 'rst:nomove', 'regr:1', 'regr:mom', 'regr:inc']]:
        cs += configs.cases(['lin2', 'lin3', 'rosen', 'under3', 'sin2'] if T else ['lin2', 'rosen', 'under3'], ['bnd', 'npt', 'scal'], 2 if T else 1, 0, must)
    cs += configs.cases(['lin1', 'lin2', 'lin3', 'rosen', 'nl2'], ['bnd', 'npt', 'scal'], 3)
    cs = [dict(problem=p, toggles=list(tg), seed=0) for p, tg in dict.fromkeys(cs)]
    ck.space('calls in solver runs', work_live, common.chunks(cs, 4), 'generator calls and initial sets of %d whole runs' % len(cs))
    ck.finish()


if __name__ == '__main__':
    main()
