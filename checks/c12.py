"""C12: the box trust-region subproblem solver, on every instance of finite alphabets (and on every call made by real runs)."""
import itertools

import numpy as np

from mc import boot, configs  # noqa: F401
from mc.harness import Check, Hang, Out, cpu_limit, h64
from . import common
import dfols.trust_region as tr

EPS = np.finfo(float).eps
FAR = 1e20


# ------------------------------------------------------------------------------------------------------ alphabets
def bounds(code, x, delta):
    """(sl, su) of one coordinate for a placement code."""
    return {'F': (-FAR, FAR), 'L': (x, FAR), 'U': (-FAR, x), 'P': (x, x),
            'l': (x - 0.3 * delta, FAR), 'u': (-FAR, x + 0.6 * delta),
            'B': (x - 0.5 * delta, x + 0.45 * delta), 'n': (x - 1e-3 * delta, x + 2e-3 * delta),
            'N': (-FAR, np.nextafter(x + 1e-12 * abs(x), np.inf)), 'M': (np.nextafter(x - 1e-12 * abs(x), -np.inf), x + delta),
            'T': (x, x + 1e-2 * delta)}[code]


def hessians(n):
    I = np.eye(n)
    v = np.array([(1.0, -0.7, 0.4, 1.3, -0.2, 0.9, 0.1, -1.1)[i] for i in range(n)])
    one = np.ones(n)
    J2 = np.array([[((3 * i + 5 * j) % 7) - 3.0 for j in range(n)] for i in range(2)])
    Jn = np.array([[((2 * i + 3 * j + i * j) % 5) - 2.0 for j in range(n)] for i in range(n)]) + I
    out = [('zero', np.zeros((n, n))), ('identity', I), ('spread', np.diag(10.0 ** np.linspace(0, 4, n) if n > 1 else [7.0])), ('rank1', np.outer(v, v)), ('e1', np.outer(I[0], I[0])),
           ('jj', Jn.T.dot(Jn)), ('negative', -I), ('tiny', 1e-9 * I)]
    if n > 1:
        sgn = np.diag([1.0 if i % 2 == 0 else -1.0 for i in range(n)])
        out += [('jj2', J2.T.dot(J2)), ('saddle', sgn), ('offdiag', np.outer(one, one) - I), ('ones', np.outer(one, one)), ('illcond', np.outer(v, v) + 1e-7 * I), ('indef', np.outer(v, v) - 0.5 * np.outer(one, one))]
    return out


def gradients(n, wide):
    if n == 1:
        return [np.array([a]) for a in (-2.0, -1.0, -1e-4, 0.0, 1e-4, 1.0, 2.0)]
    if n == 2:
        a = (-1.0, -1e-4, 0.0, 0.3, 2.0)
        return [np.array(t) for t in itertools.product(a, repeat=2)]
    if n == 3:
        a = (-1.0, 0.0, 0.4, 1e-3) if wide else (-1.0, 0.0, 0.4)
        return [np.array(t) for t in itertools.product(a, repeat=3)]
    if n == 4:
        return [np.array(t) * np.array([1.0, 0.5, 2.0, 0.1]) for t in itertools.product((-1.0, 1.0) if not wide else (-1.0, 0.0, 1.0), repeat=4)]
    pat = [(-1, 1), (1, 0, -1), (1, 1e-3), (0.5, -2, 1, -1e-2), (0, 0, 1), (-1,), (1,), (3, -1, 0.2, 0.7, -0.4)]
    return [np.resize(np.array(p, float), n) for p in pat]


def placements(n, wide):
    if n <= 2:
        return list(itertools.product('FLUPluBnNMT', repeat=n))
    if n == 3:
        return list(itertools.product('FLUPuBnN' if wide else 'FLUBn', repeat=3))
    if n == 4:
        return list(itertools.product('FLUBn' if wide else 'FLB', repeat=4))
    out = []
    for base in ('F', 'B'):
        for a, b in itertools.product('LUnP', repeat=2):
            for i, j in itertools.combinations(range(n), 2):
                p = [base] * n
                p[i], p[j] = a, b
                out.append(tuple(p))
    out += [tuple('LU'[(i >> j) & 1] for j in range(n)) for i in range(2 ** n)] if wide or n == 5 else [tuple('L' * n), tuple('U' * n), tuple(('LU' * n)[:n])]
    out += [tuple('n' * n), tuple('u' * n), tuple('N' * n)]
    return out


COMBOS = [  # (delta, scale of g, offset of xopt)
    (1.0, 1.0, 0.0), (1e-3, 1.0, 0.7), (1e2, 1e3, 0.7), (1e-6, 1e-3, 0.7), (1.0, 1e-3, 300.0), (1e2, 1e-3, 0.0), (1e-3, 1e3, 300.0), (1e-6, 1e3, 0.0)]
XOFF = np.array([1.0, -0.83, 0.41, 1.7, -2.2, 0.13, 0.9, -0.3])


def instance(n, code, gi, hi, hs, combo, wide):
    delta, gs, off = COMBOS[combo]
    x = off * XOFF[:n]
    b = [bounds(c, x[i], delta) for i, c in enumerate(code)]
    g = gs * gradients(n, wide)[gi]
    H = hs * (gs / delta) * hessians(n)[hi][1]
    return dict(xopt=x, g=g, H=H, sl=np.array([t[0] for t in b]), su=np.array([t[1] for t in b]), delta=delta)


# --------------------------------------------------------------------------------------------------------- oracle
def quad(g, H, d):
    return float(g.dot(d) + 0.5 * d.dot(H).dot(d))


def cauchy(x, g, H, sl, su, delta):
    """Decrease of the steepest-descent step (free variables only), truncated at the first bound or the trust-region boundary."""
    p = -g.copy()
    p[(x <= sl) & (g >= 0)] = 0.0
    p[(x >= su) & (g <= 0)] = 0.0
    nn = float(p.dot(p))
    if nn == 0.0:
        return 0.0
    t = delta / np.sqrt(nn)
    pos, neg = p > 0, p < 0
    if pos.any():
        t = min(t, np.min((su[pos] - x[pos]) / p[pos]))
    if neg.any():
        t = min(t, np.min((sl[neg] - x[neg]) / p[neg]))
    c = float(p.dot(H).dot(p))
    if c > 0:
        t = min(t, nn / c)
    return max(0.0, t * nn - 0.5 * t * t * c)


def judge(q, d, gnew):
    x, g, H, sl, su, delta = q['xopt'], q['g'], q['H'], q['sl'], q['su'], q['delta']
    n = len(x)
    v = []
    d = np.asarray(d, float)
    if d.shape != (n,) or not np.all(np.isfinite(d)):
        return [('step', 'step %r' % (d,))]
    lo, up = sl - x, su - x
    if np.any(d < lo) or np.any(d > up):
        v.append(('box', 'step leaves the box: %r not within [%r, %r]' % (d, lo, up)))
    xs = np.linalg.norm(x)
    nd = float(np.linalg.norm(d))
    if nd > delta * (1 + 1e-8) + 2 * EPS * xs:
        v.append(('radius', '||d|| = %.17g, delta = %.17g' % (nd, delta)))
    hn = np.linalg.norm(H)
    gn = np.linalg.norm(g)
    size = gn * nd + hn * nd * nd
    slip = 1e-12 * size + 4 * EPS * xs * (gn + hn * nd) + 1e-290
    val = quad(g, H, d)
    if not val <= slip:
        v.append(('increase', 'the quadratic model increases by %.3g' % val))
    c = cauchy(x, g, H, sl, su, delta)
    if not -val >= c * (1 - 1e-10) - slip:
        v.append(('cauchy', 'reduction %.12g, truncated steepest descent gives %.12g' % (-val, c)))
    e = np.max(np.abs(np.asarray(gnew, float) - (g + H.dot(d))))
    if not e <= 1e-11 * (gn + hn * nd) + 4 * EPS * hn * xs:
        v.append(('gnew', 'returned gradient differs from g + H d by %.3g' % e))
    return v


def call(q):
    """Runs the routine on copies; inputs must not be changed (the caller goes on using them)."""
    a = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in q.items()}
    with cpu_limit(10.0):
        r = tr.trsbox(a['xopt'], a['g'], a['H'], a['sl'], a['su'], a['delta'])
    return r[0], r[1]


def run(q):
    try:
        d, gnew = call(q)
    except Hang:
        return None, [('hang', 'no result after 10 s of CPU time')]
    except Exception as e:
        return None, [('exception', repr(e))]
    return d, judge(q, d, gnew)


def unpack(rep):
    return {k: (np.array(v, float) if k != 'delta' else float(v)) for k, v in rep.items()}


def replay(case):
    if 'case' in case:
        return live(case['case'])[0]
    return run(unpack(case['instance']))[1]


def space(n, wide, hss, combos):
    np_, ng, nh = placements(n, wide), len(gradients(n, wide)), len(hessians(n))
    return [(n, wide, hi, hs, c, chunk) for hi in range(nh) for hs in (hss if hessians(n)[hi][0] != 'zero' else hss[:1]) for c in combos for chunk in common.chunks(list(range(len(np_))), 4 if n < 3 else 8)]


def work(task):
    n, wide, hi, hs, combo, chunk = task
    o = Out()
    P = placements(n, wide)
    for pi in chunk:
        for gi in range(len(gradients(n, wide))):
            q = instance(n, P[pi], gi, hi, hs, combo, wide)
            d, v = run(q)
            o.n += 1
            o.transitions += 1
            if d is not None:
                o.states.add(h64(d.tobytes(), q['delta'], hi))
                nd = np.linalg.norm(d)
                o.count('zero_step' if nd == 0 else ('on_boundary' if nd > 0.999999 * q['delta'] else 'interior'))
                if np.any((d == q['sl'] - q['xopt']) | (d == q['su'] - q['xopt'])):
                    o.count('bound_active')
            if v:
                o.violation(v[0][0], 'n=%d placement %s H=%s*%g combo %s g=%s: %s' % (n, ''.join(P[pi]), hessians(n)[hi][0], hs, COMBOS[combo], q['g'], v[0][1]),
                            dict(instance={k: (a.tolist() if isinstance(a, np.ndarray) else a) for k, a in q.items()}, cost=n))
    if d is not None:
        o.sample = dict(instance={k: (a.tolist() if isinstance(a, np.ndarray) else a) for k, a in q.items()}, d=d.tolist())
    return o


# ------------------------------------------------------------------------------------------------ calls of real runs
def live(case):
    """Runs a whole solve and judges every call of the routine in it."""
    import dfols.controller as ctl
    import dfols.trust_region as trm
    seen = []
    old = {}
    real = tr.trsbox

    def spy(xopt, g, H, sl, su, delta, *a, **kw):
        q = dict(xopt=np.array(xopt, float), g=np.array(g, float), H=np.array(H, float), sl=np.array(sl, float), su=np.array(su, float), delta=float(delta))
        r = real(xopt, g, H, sl, su, delta, *a, **kw)
        seen.append((q, np.array(r[0], float), np.array(r[1], float)))
        return r
    for mod in (ctl, trm):
        for name in dir(mod):
            if getattr(mod, name) is real:
                old[(mod, name)] = real
                setattr(mod, name, spy)
    try:
        rec = common.execute(case)
    finally:
        for (mod, name), f in old.items():
            setattr(mod, name, f)
    v = []
    for i, (q, d, gnew) in enumerate(seen):
        ok = np.all(np.isfinite(q['g'])) and np.all(np.isfinite(q['H'])) and q['delta'] > 0
        if not ok or np.any(q['xopt'] < q['sl']) or np.any(q['xopt'] > q['su']):
            continue
        w = judge(q, d, gnew)
        if w:
            v.append((w[0][0], 'call %d of the run: %s' % (i, w[0][1])))
            break
    return v, len(seen), rec


def main():
    ck = Check('C12', 'exploration',
               'an evaluation is one call of the routine on an instance (Hessian x scale x radius x gradient x placement of every bound), or one call made inside a whole solver run; '
               'distinct steps are counted',
               ['feasibility is exact: fl(sl-xopt) <= d <= fl(su-xopt)', 'rounding allowances: 2 eps |xopt| on the length, 1e-12 relative on the model value'])
    T = ck.thorough
    plan = [(1, True, (0.1, 1.0, 30.0), range(8)), (2, True, (0.1, 1.0, 30.0) if T else (0.3, 5.0), range(8) if T else (0, 2, 3, 6)), (3, T, (0.1, 1.0, 30.0) if T else (0.3, 5.0), range(8) if T else (0, 6)),
            (4, T, (0.3, 5.0), range(4) if T else (0, 3)), (5, T, (0.3, 5.0) if T else (1.0,), range(8) if T else (0, 3)), (6, T, (0.3, 5.0) if T else (3.0,), range(8) if T else (4,)),
            (7, False, (1.0,), range(4) if T else (2,)), (8, T, (0.3, 5.0) if T else (1.0,), range(4) if T else (3,))]
    for n, wide, hss, combos in plan:
        tasks = space(n, wide, hss, list(combos))
        ck.space('n=%d' % n, work, tasks, 'all %d placements x %d gradients x %d Hessians x scales %s x (radius, gradient scale, offset) %s' % (
            len(placements(n, wide)), len(gradients(n, wide)), len(hessians(n)), list(hss), [COMBOS[c] for c in combos]))

    def judge_run(o, case):
        v, k, rec = live(case)
        o.n += 1
        o.transitions += k
        o.states.add(h64(repr(case)))
        if v:
            o.violation(v[0][0], v[0][1], dict(case=case, cost=50))
    some = list(configs.PROBLEMS) if T else ['lin1', 'lin2', 'lin3', 'rosen', 'under2', 'under3', 'abs2', 'sin2', 'big2']
    cases = [dict(problem=p, toggles=list(tg), seed=0) for p, tg in configs.cases(some, ['npt', 'scal', 'grow', 'regr', 'rst', 'tr', 'base'] if not T else ['npt', 'scal', 'grow', 'regr', 'rst', 'tr', 'base', 'noise', 'slow', 'rho'], 0)]
    for b in configs.options_of(['bnd'])[0] + [None]:
        cases += [dict(problem=p, toggles=list(tg), seed=0) for p, tg in configs.cases(some, ['npt', 'scal', 'grow', 'regr', 'rst', 'tr', 'base'], 2 if T else 1, 0, (b,) if b else ())]

    def work2(chunk):
        o = Out()
        for c in chunk:
            judge_run(o, c)
        return o
    ck.space('calls in solver runs', work2, common.chunks(cases, 4), 'every call made by the runs of all problems x single options')
    ck.finish()


if __name__ == '__main__':
    main()
