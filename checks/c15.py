"""C15: Dykstra's projection: feasibility, closeness, stopping rule; exhaustive over finite families of intersections."""
import itertools

import numpy as np

from mc import boot, runner  # noqa: F401
from mc.harness import Check, Hang, Out, cpu_limit, h64
from . import common
import dfols.util as ut

EPS = np.finfo(float).eps
DEFAULT = (100, 1e-10)


# ------------------------------------------------------------------------------------------------------- set alphabets
def ang(deg, b):
    a = np.radians(deg)
    return ('half', [float(np.cos(a)), float(np.sin(a))], b)


SETS = {
    1: [('box', [-0.2], [0.4]), ('box', [-5.0], [0.1]), ('half', [1.0], 0.1), ('half', [-2.0], 0.5), ('half', [3.0], 1.0), ('ball', [0.5], 0.6), ('ball', [-2.0], 2.05), ('ball', [0.0], 0.3)],
    2: [('ball', [0.5, 0.0], 1.0), ('ball', [0.0, -2.0], 2.2), ('ball', [3.0, 3.0], 4.6), ('ball', [0.0, 0.0], 0.3),
        ang(0, 0.1), ang(40, 0.1), ang(90, 0.5), ang(150, 0.1), ang(205, 0.2), ang(270, 0.1), ang(310, 1.0),
        ('box', [-0.2, -1.0], [0.4, 1.0]), ('box', [-5.0, -5.0], [0.1, 0.1]), ('box', [-0.05, -3.0], [0.05, 3.0])],
    3: [('ball', [0.5, 0.0, 0.2], 1.0), ('ball', [0.0, -2.0, 1.0], 2.4), ('half', [1.0, 1.0, 0.5], 0.1), ('half', [-1.0, 0.2, 1.0], 0.2), ('half', [0.0, -1.0, 0.3], 0.1), ('half', [0.3, 0.4, -2.0], 0.3),
        ('box', [-0.2, -1.0, -0.3], [0.4, 1.0, 2.0]), ('box', [-5.0, -5.0, -5.0], [0.1, 0.1, 0.2])],
}
for _n in (4, 5, 6):
    _a = np.array([np.cos(1.3 * i) for i in range(_n)])
    _b = np.array([np.sin(0.9 * i + 1) for i in range(_n)])
    _c = np.array([(-1.0) ** i * (1 + 0.2 * i) for i in range(_n)])
    SETS[_n] = [('ball', (0.3 * _a).tolist(), 1.0), ('ball', (-0.8 * _b).tolist(), 2.0), ('half', _a.tolist(), 0.2), ('half', _b.tolist(), 0.1), ('half', _c.tolist(), 0.3),
                ('box', [-0.3] * _n, [0.2 + 0.1 * i for i in range(_n)]), ('box', [-4.0] * _n, [0.15] * _n)]


def starts(n):
    d = np.resize([1.0, -0.6, 0.35, 0.8, -0.2, 0.5], n)
    e = np.resize([-0.3, 1.0, 0.7, -0.9, 0.4, 0.1], n)
    return [0.0 * d, 0.01 * d, 2.0 * d, -3.0 * e, 4.0 * e, 100.0 * d, -2000.0 * d + 700.0 * e, np.resize([0.1, 0.0], n), 0.7 * np.ones(n), -1.0 * np.ones(n)]


# intersections which make the iteration slow: every rule is judged, closeness misses are listed as known findings
SHARP = {
    'wedge3deg': ([ang(0, 0.0), ang(177, 0.0)], [2.0, 1.0], (100000, 1e-10)),
    'tangent': ([('ball', [0.0, 1.0], 1.0), ang(90, 0.0)], [3.0, 0.5], (100000, 1e-8)),
    'looseuser': ([ang(0, 0.1), ang(150, 0.1), ('ball', [0.0, -2.0], 2.2)], [3.0, 2.0], (100, 1e-2)),
    'wedge20deg': ([ang(0, 0.0), ang(160, 0.0)], [2.0, 1.0], DEFAULT),
    'needle1deg': ([ang(0, 0.0), ang(179, 0.0)], [2.0, 1.0], (100000, 1e-10)),
    'wedge8deg': ([ang(0, 0.0), ang(172, 0.0)], [2.0, 1.0], (2000, 1e-10)),
    'lens': ([('ball', [-1.0, 0.0], 1.05), ('ball', [1.0, 0.0], 1.05)], [0.0, 3.0], DEFAULT),
    'stall': ([('box', [-1e3, 0.0], [1e3, 1e3]), ('plane', [1.0, 2.0], 1.0)], [-40.0, -3.0], (1000, 1e-10)),
    'stall2': ([('plane', [1.0, 1.0], 0.5), ('box', [0.0, 0.0], [1.0, 1.0])], [-700.0, 300.0], (2000, 1e-10)),
    'stall3': ([('plane', [1.0, 0.1], 0.5), ('box', [0.0, 0.0], [1.0, 1.0])], [-3.0, 50.0], (2000, 1e-10)),
}


def dist(desc, x):
    """Independent distance to one set."""
    x = np.asarray(x, float)
    k = desc[0]
    if k == 'ball':
        return max(0.0, float(np.linalg.norm(x - np.array(desc[1]))) - desc[2])
    a = np.array(desc[1], float)
    if k == 'half':
        return max(0.0, (float(a.dot(x)) - desc[2]) / float(np.linalg.norm(a)))
    if k == 'plane':
        return abs(float(a.dot(x)) - desc[2]) / float(np.linalg.norm(a))
    return float(np.linalg.norm(x - np.minimum(np.maximum(x, a), np.array(desc[2]))))


def project(desc, x):
    k = desc[0]
    a = np.array(desc[1], float)
    if k == 'ball':
        v = x - a
        nv = np.sqrt(v.dot(v))
        return x if nv <= desc[2] else a + (desc[2] / nv) * v
    if k in ('half', 'plane'):
        s = (a.dot(x) - desc[2]) / a.dot(a)
        return x if (k == 'half' and s <= 0) else x - s * a
    return np.minimum(np.maximum(x, a), desc[2])


_REF = {}


def reference(sets, x0, sweeps=200000):
    """Projection onto the intersection, by the textbook algorithm (Boyle & Dykstra) run to machine precision."""
    key = (repr(sets), x0.tobytes())
    if key in _REF:
        return _REF[key]
    sets2 = [(d[0], np.array(d[1], float), np.array(d[2], float) if d[0] == 'box' else d[2]) for d in sets]
    x = x0.copy()
    inc = [np.zeros_like(x) for _ in sets]
    sc = max(1.0, float(np.max(np.abs(x0))))
    ok = False
    for it in range(sweeps):
        ch = 0.0
        for i, d in enumerate(sets2):
            z = x + inc[i]
            y = project(d, z)
            new = z - y
            ch = max(ch, float(np.max(np.abs(new - inc[i]))))
            inc[i] = new
            x = y
        if ch < 1e-14 * sc:
            ok = True
            break
    _REF[key] = (x, ok or it >= 2000)
    return _REF[key]


# --------------------------------------------------------------------------------------------------------------- judging
def run(case):
    sets = [tuple(d) for d in case['sets']]
    x0 = np.array(case['x0'], float)
    mi, tol = case['max_iter'], case['tol']
    p = len(sets)
    counts = [0] * p
    order_bad = []

    def wrap(i, f):
        def g(x):
            counts[i] += 1
            return f(x)
        return g
    if case.get('own'):
        base = []
        for d in sets:
            if d[0] == 'ball':
                base.append(lambda x, c=np.array(d[1], float), r=d[2]: ut.pball(x, c, r))
            elif d[0] == 'box':
                base.append(lambda x, lo=np.array(d[1], float), hi=np.array(d[2], float): ut.pbox(x, lo, hi))
            else:
                base.append(runner.make_projection(d))
    else:
        base = [runner.make_projection(d) for d in sets]
    P = [wrap(i, f) for i, f in enumerate(base)]
    z = x0.copy()
    try:
        with cpu_limit(60.0):
            if case.get('defaults'):
                x = ut.dykstra(P, z)
            else:
                x = ut.dykstra(P, z, max_iter=mi, tol=tol)
    except Hang:
        return None, [('hang', 'no result')]
    except Exception as e:
        return None, [('exception', repr(e))]
    sweeps = max(counts)
    v = []
    x = np.asarray(x, float)
    if x.shape != x0.shape or not np.all(np.isfinite(x)):
        return None, [('result', 'result %r' % (x,))]
    if not np.array_equal(z, x0):
        v.append(('input', 'the starting point was overwritten'))
    if sweeps > mi:
        v.append(('sweeps', '%d sweeps, max_iter = %d' % (sweeps, mi)))
    sc = float(np.max(np.abs(x0))) + max(float(np.max(np.abs(np.array(d[1], float)))) + (d[2] if d[0] == 'ball' else 0.0) for d in sets) + 1.0
    D = [dist(d, x) for d in sets]
    # last set exactly, when it is a box (any number of sweeps >= 1)
    last = sets[-1]
    if last[0] == 'box' and (np.any(x < np.array(last[1])) or np.any(x > np.array(last[2]))):
        v.append(('lastbox', 'result %r outside the last box' % (x,)))
    inside0 = all(dist(d, x0) == 0.0 for d in sets)
    if inside0 and np.max(np.abs(x - x0)) > 64 * EPS * sc:
        v.append(('unchanged', 'starting point in all sets was moved by %.3g' % np.max(np.abs(x - x0))))
    # stopped by its rule?  Fewer sweeps than allowed; at the limit, one more allowed sweep decides
    by_rule = sweeps < mi
    if by_rule:
        lim = np.sqrt(p * tol) + 64 * EPS * sc * p
        if max(D) > lim:
            v.append(('feasible', 'stopped after %d sweeps, %.3g from set %d (allowed sqrt(p*tol) = %.3g)' % (sweeps, max(D), int(np.argmax(D)), np.sqrt(p * tol))))
        ref, good = reference(sets, x0)
        if good and case.get('close', True):
            e = float(np.linalg.norm(x - ref))
            if e > 1e-3 + 1e-12 * sc:
                v.append(('close', 'stopped after %d sweeps, %.4g from the projection %r' % (sweeps, e, ref)))
    return (x, by_rule, sweeps, inside0), v


def replay(case):
    if 'prim' in case:
        return run_prim(case['prim'])
    return run(case['case'])[1]


def work(task):
    o = Out()
    for sets, x0, (mi, tol), more in task:
        case = dict(sets=[list(s) for s in sets], x0=list(map(float, x0)), max_iter=mi, tol=tol)
        case.update(more)
        r, v = run(case)
        o.n += 1
        o.transitions += 1
        if r is not None:
            o.states.add(h64(np.round(r[0], 10).tobytes(), mi, tol))
            o.transitions += r[2]
            o.count('stopped_by_rule' if r[1] else 'sweep_limit')
            if r[3]:
                o.count('started_inside')
        for kd, w in v:
            o.violation(kd, '%s from %s, max_iter=%d tol=%g: %s' % (sets, list(x0), mi, tol, w), dict(case=case, cost=len(sets) * 10 + len(x0)))
    o.sample = dict(case=case)
    return o


# ------------------------------------------------------------------------------------------------ the projector helpers
def run_prim(case):
    x, c = np.array(case['x'], float), np.array(case['c'], float)
    if case['kind'] == 'ball':
        r = case['r']
        y = np.asarray(ut.pball(x.copy(), c.copy(), r), float)
        want = project(('ball', c, r), x)
    else:
        hi = np.array(case['r'], float)
        y = np.asarray(ut.pbox(x.copy(), c.copy(), hi.copy()), float)
        want = np.array([min(max(a, l), h) for a, l, h in zip(x, c, hi)])
        if not np.array_equal(y, want):
            return [('pbox', 'pbox(%s, %s, %s) = %s' % (x, c, hi, y))]
        return []
    sc = np.max(np.abs(x)) + np.max(np.abs(c)) + r
    if np.max(np.abs(y - want)) > 16 * EPS * sc:
        return [('pball', 'pball(%s, %s, %s) = %s, projection is %s' % (x, c, r, y, want))]
    return []


def prim_cases():
    out = []
    for n in (1, 2, 3):
        for x in itertools.product((-3.0, -0.5, 0.0, 0.2, 1.0, 700.0), repeat=n):
            for c in ([0.0] * n, [0.5] * n, [-1.0, 2.0, 0.1][:n]):
                for r in (1e-3, 0.5, 1.0, 40.0):
                    out.append(dict(kind='ball', x=list(x), c=c, r=r))
                for w in ([0.0] * n, [1.0, 0.3, 2.0][:n], [50.0] * n):
                    out.append(dict(kind='box', x=list(x), c=c, r=[a + b for a, b in zip(c, w)]))
    return out


def work_prim(chunk):
    o = Out()
    for c in chunk:
        o.n += 1
        o.transitions += 1
        o.states.add(h64(repr(c)))
        for kd, w in run_prim(c):
            o.violation(kd, w, dict(prim=c, cost=len(c['x'])))
    return o


def main():
    ck = Check('C15', 'exploration',
               'an evaluation is one call of the routine (list of sets x starting point x tolerances); judged counts calls plus sweeps; distinct results are counted',
               ['the true projection is the textbook iteration run to machine precision, independent code', 'stopping by the rule: fewer sweeps than max_iter',
                'families have an interior common point and angles >= 15 degrees; sharper ones are listed one by one (known findings)'])
    T = ck.thorough
    tols = [(100, 1e-10), (1000, 1e-14), (100, 1e-6), (3, 1e-10), (1, 1e-10), (2000, 1e-10), (500, 1e-8)]
    tasks = []
    for n in range(1, 7):
        S = SETS[n]
        lists = [(s,) for s in S] + list(itertools.permutations(S, 2)) + [(s, s) for s in S]
        trip = list(itertools.permutations(S, 3)) if n <= 2 or (T and n == 3) else list(itertools.combinations(S, 3))
        quad = list(itertools.combinations(S, 4)) if (n <= 3 or T) else []
        lists += trip + quad + ([tuple(reversed(q)) for q in trip + quad] if n > 1 else [])
        for sets in lists:
            for i, x0 in enumerate(starts(n)):
                if len(sets) > 2 and not T and i not in (0, 2, 4, 6, 7):
                    continue
                for j, t in enumerate(tols):
                    if j and not T and (len(sets) > 2 and (j != 3 or n > 3) or len(sets) == 2 and j not in (1, 3, 4, 6)):
                        continue
                    tasks.append((sets, x0, t, dict(close=t[1] <= 1e-8)))
                if len(sets) <= 2 and any(s[0] != 'half' for s in sets):
                    tasks.append((sets, x0, DEFAULT, dict(own=1)))
                if len(sets) == 2:
                    tasks.append((sets, x0, DEFAULT, dict(defaults=1)))
    ck.space('intersections', work, common.chunks(tasks, 40), 'all lists of 1-2 sets, all combinations of 3-4 (both orders) from the alphabets of dimension 1..6 x starting points x tolerances: %d calls' % len(tasks))
    ck.space('slow intersections', work, [[(s, x0, t, dict(name=k))] for k, (s, x0, t) in SHARP.items()], 'sharp wedges, tangent sets, stalling examples, loose tolerance')
    pc = prim_cases()
    ck.space('projector helpers', work_prim, common.chunks(pc, 500), 'pball and pbox on %d instances' % len(pc))
    ck.finish()


if __name__ == '__main__':
    main()
