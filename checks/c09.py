"""C09: with projections, every evaluated point is an output of Dykstra's algorithm: within sqrt(p*tol) of every set, in the box exactly."""
import itertools

import numpy as np

from mc import boot, configs, runner  # noqa: F401
from mc.harness import Check
from . import common
import dfols
import dfols.util
import dfols.model
import dfols.solver
import dfols.controller
import dfols.trust_region

EPS = np.finfo(float).eps
MODULES = (dfols.util, dfols.model, dfols.solver, dfols.controller, dfols.trust_region)
ORIG = getattr(dfols.util, 'dykstra', None)
CALLS = {}          # output bytes -> list of (number of sets, box bytes of the last projector, input)
LIVE = [False]


def _spy(P, x0, *a, **kw):
    LIVE[0] = True
    x = ORIG(P, x0, *a, **kw)
    CALLS[np.asarray(x, float).tobytes()] = (len(P), np.array(x0, float))
    return x


if ORIG is not None:
    for _m in MODULES:
        if getattr(_m, 'dykstra', None) is ORIG:
            _m.dykstra = _spy


def ref_dykstra(P, x0, max_iter, tol):
    """Independent Dykstra: returns (x, sum of squared changes of the correction vectors in the last sweep)."""
    x = np.array(x0, float)
    Y = [np.zeros_like(x) for _ in P]
    change = np.inf
    k = 0
    while k < max_iter and change >= tol:
        change = 0.0
        for i, p in enumerate(P):
            z = x - Y[i]
            xn = p(z)
            yn = xn - z
            change += float(np.dot(yn - Y[i], yn - Y[i]))
            Y[i] = yn
            x = xn
        k += 1
    return x, change


def sets_of(sp):
    lo = sp.xl if sp.xl is not None else np.full(sp.n, -1e20)
    hi = sp.xu if sp.xu is not None else np.full(sp.n, 1e20)
    return [tuple(d) for d in sp.projections] + [('box', lo, hi)]


_REFP = {}


def true_projection(sp):
    key = (repr(sp.projections), sp.x0.tobytes(), repr(sp.xl), repr(sp.xu))
    if key not in _REFP:
        _REFP[key] = ref_dykstra([runner.make_projection(d) for d in sets_of(sp)], sp.x0, 20000, 1e-26)
    return _REFP[key]


def judge(rec, o=None):
    sp = rec.spec
    v = []
    if not sp.projections or rec.soln is None and not rec.calls:
        return v
    if rec.soln is not None and rec.soln.flag == -1:
        return v
    sets = sets_of(sp)
    P = [runner.make_projection(d) for d in sets]
    p = len(sets)
    max_iters = sp.params.get('dykstra.max_iters', 100)
    tol = sp.params.get('dykstra.d_tol', 1e-10)
    lo, hi = sets[-1][1], sets[-1][2]
    done = set()
    for k, (x, _) in enumerate(rec.calls):
        key = x.tobytes()
        if key in done:
            continue
        done.add(key)
        if not np.all((lo <= x) & (x <= hi)):
            v.append(('box', 'evaluation %d at %s is outside the bound box' % (k + 1, runner.np.array2string(x, precision=17))))
            break
        converged = None
        if LIVE[0]:
            hit = CALLS.get(key)
            if hit is None:
                near = [h for q, h in CALLS.items() if len(q) == len(key) and np.all(np.abs(np.frombuffer(q) - x) <= 16 * EPS * (1 + np.abs(x)))]
                hit = near[0] if near else None
            if hit is None:
                # a feasible starting point may be used as it is
                if k == 0 and all(runner.set_distance(d, x) <= 1e-12 * (1 + np.max(np.abs(x))) for d in sets) and np.array_equal(x, np.asarray(sp.x0, float)):
                    if o is not None:
                        o.count('x0_as_given')
                else:
                    v.append(('not-an-output', 'evaluation %d at %s is no output of the projection routine' % (k + 1, runner.np.array2string(x, precision=17))))
                    break
                converged = True
            else:
                _, ch = ref_dykstra(P, hit[1], max_iters, tol)
                # the last sweep decides; leave rounding-level ties undecided
                converged = ch < tol * (1 - 1e-6)
        dist = [runner.set_distance(d, x) for d in sets]
        if converged:
            lim = np.sqrt(p * tol) * (1 + 1e-9) + 1e-13 * (1 + np.max(np.abs(x)))
            if o is not None:
                o.count('converged_points')
        elif converged is None:
            lim = 1e-2
        else:
            if o is not None:
                o.count('not_converged_points')
            continue
        if max(dist) > lim:
            i = int(np.argmax(dist))
            v.append(('distance', 'evaluation %d at %s is %.3g from set %d %s (allowed %.3g)' % (k + 1, x, dist[i], i + 1, sets[i][0], lim)))
            break
    if rec.calls and not v:
        xt, ch = true_projection(sp)
        x = rec.calls[0][0]
        r0, c0 = ref_dykstra(P, sp.x0, max_iters, tol)
        # the routine run as configured, started from the point it returned: judge only where its own stopping rule was met
        if ch < 1e-20 and c0 < tol and np.linalg.norm(r0 - xt) < 1e-3:
            if o is not None:
                o.count('x0_compared')
            if np.linalg.norm(x - xt) > 1e-3 + 1e-9 * np.max(np.abs(xt)):
                v.append(('x0', 'first evaluation at %s, the projection of x0=%s is %s' % (x, sp.x0, xt)))
        if all(runner.set_distance(d, sp.x0) == 0.0 for d in sets) and np.linalg.norm(x - sp.x0) > 1e-10 * (1 + np.max(np.abs(sp.x0))):
            v.append(('x0', 'x0=%s is feasible but the first evaluation is at %s' % (sp.x0, x)))
    return v


def judge_clear(rec, o=None):
    v = judge(rec, o)
    CALLS.clear()
    LIVE[0] = False
    return v


def replay(case):
    CALLS.clear()
    return judge(common.execute(dict(case)))


# ------------------------------------------------------------------------------------------------ a grid of feasible sets

def set_alphabet(n, c):
    """Convex sets that all contain a ball of radius 0.02 around c."""
    e = np.eye(n)
    out = []
    one = np.ones(n)
    alt = np.where(np.arange(n) % 2 == 0, 1.0, -1.0)
    for nm, a in (('e1', e[0]), ('one', one), ('alt', alt), ('-e%d' % n, -e[-1]), ('-one', -one), ('sharp', one + 0.05 * e[0])):
        out.append(('half %s' % nm, ('half', a.tolist(), float(a.dot(c) + 0.02 * np.linalg.norm(a)))))
    out.append(('half loose', ('half', one.tolist(), float(one.dot(c) + 0.6))))
    out.append(('ball', ('ball', c.tolist(), 0.5)))
    out.append(('ball off', ('ball', (c + 0.4).tolist(), 0.4 * np.sqrt(n) + 0.05)))
    out.append(('ball small', ('ball', (c + 0.01 * alt).tolist(), 0.06)))
    out.append(('ball huge', ('ball', (c - 50.0).tolist(), 50.0 * np.sqrt(n) + 0.03)))
    out.append(('box', ('box', (c - 0.2).tolist(), (c + 0.3 * (1 + np.arange(n))).tolist())))
    out.append(('slab', ('box', np.where(np.arange(n) == 0, c - 0.03, -1e3).tolist(), np.where(np.arange(n) == 0, c + 0.03, 1e3).tolist())))
    out.append(('simplex', ('simplex', (c - 0.1).tolist(), 0.1 * n + 0.2)))
    return out


def grid(problems, k, x0s, boxes, togs):
    for p in problems:
        sp = configs.spec_of(p, ())
        for off in x0s:
            c = sp.x0 + off
            al = set_alphabet(sp.n, c)
            for r in range(1, k + 1):
                for comb in itertools.combinations(al, r):
                    for b in boxes:
                        over = dict(projections=[list(d) for _, d in comb])
                        if b is not None:
                            over['xl'] = (c - b * (1 + 0.1 / 3)).tolist()
                            over['xu'] = (c + b * (0.5 + 0.7 / 3)).tolist()
                        for tg in togs:
                            yield dict(problem=p, toggles=list(tg), over=over, maxfun=14, cost=r)


def main():
    ck = Check('C09', 'exploration',
               'a case is one complete solver run with projections; distinct and non-trivial if its sequence of evaluation points, exit flag and message differ from all others; '
               'stats.converged_points counts the evaluation points whose projection met its stopping rule and was judged',
               ['the projection routine is observed by wrapping the name "dykstra" in the dfols modules; if it is not there, the distance is judged with a loose tolerance instead',
                'whether the stopping rule was met is recomputed by an independent Dykstra from the recorded input'])
    T = ck.thorough
    J = judge_clear
    probs = ['lin2', 'rosen', 'sq1', 'lin3'] if not T else list(configs.PROBLEMS)
    gs = [g for g in configs.GROUP_NAMES if g not in ('diag', 'ovf', 'scal', 'mf', 'reg', 'pre', 'tol')]
    isproj = lambda t: any(x.startswith('proj:') for x in t)
    hot = ('bnd', 'npt', 'avg', 'rst', 'grow', 'init', 'regr', 'dyk', 'rho', 'base')
    common.sweep(ck, 'options', J, probs, gs, 2, 1, only=lambda p, t: isproj(t) and (T or len(t) < 2 or p == 'lin2' or (p == 'lin3' and all(x.split(':')[0] in ('proj', 'bnd', 'npt', 'rst') for x in t))))
    common.sweep(ck, 'restarts', J, ['lin2', 'rosen'] if not T else probs, ['proj', 'rst', 'rho', 'bnd', 'npt', 'grow', 'regr', 'slow'], 4 if T else 3, 3, only=lambda p, t: isproj(t) and 'rho:mid' in t and any(x.startswith('rst:') for x in t)
                 and (T or 'proj:two' in t or 'proj:infeas2' in t))
    common.sweep(ck, 'regularised', J, ['lin2'], ['reg', 'proj', 'bnd', 'rst'], 3 if T else 2, 2, only=lambda p, t: isproj(t) and any(x.startswith('reg:') for x in t))
    sets = list(grid(['lin2'] if not T else ['lin2', 'lin3', 'sq1', 'nl2'], 2 if not T else 3, (0.0, 0.35, -1.3) if T else (0.0, 0.35), (None, 0.25, 3.0) if T else (None, 0.25),
                     [(), ('rst:soft', 'rho:mid')] if T else [()]))
    if not T:
        sets += list(grid(['lin3'], 2, (0.35,), (None,), [()]))
        sets += list(grid(['sq1'], 2, (0.0, -0.7), (None, 0.25), [()]))
        sets += list(grid(['lin2'], 1, (0.0, 0.35), (None, 0.25), [('dyk:loose',), ('dyk:few',), ('dyk:tight',), ('npt:2n1',), ('reg:l1',), ('init:rand',), ('grow:new1',)]))
    common.overrides(ck, 'set grid', J, common.chunks(sets, 8), 'all combinations of at most %d sets from an alphabet of 14 (half-spaces, balls, boxes, slab, simplex), x0 feasible or not, with and without bounds' % (3 if T else 2))
    tight = []
    for p in ('lin2', 'lin3') if T else ('lin2',):
        for t in [(), ('bnd:active',), ('bnd:nasty',), ('bnd:hair_lo',)]:
            for pr in ('proj:two', 'proj:wedge', 'proj:ball', 'proj:infeas2'):
                tg = tuple(t) + (pr,)
                if not configs.valid(configs.spec_of(p, tg)):
                    continue
                for tol in (1e-2, 1e-4, 1e-7, 1e-10, 1e-13) if T else (1e-3, 1e-6, 1e-12):
                    for it in (1, 2, 5, 30, 100, 1000):
                        tight.append(dict(problem=p, toggles=list(tg), params={'dykstra.d_tol': tol, 'dykstra.max_iters': it}, over={'params': {'dykstra.d_tol': tol, 'dykstra.max_iters': it}}, maxfun=12, cost=2))
    common.overrides(ck, 'dykstra parameters', J, common.chunks(tight, 8), 'projection tolerance x iteration limit x sets x bounds')
    common.faults(ck, 'bad answers', J, [(p, t) for p in ('lin2',) for t in [('proj:two',), ('proj:ball', 'bnd:active'), ('proj:two', 'rst:soft', 'rho:mid')]], ('nan', '1e200'), maxpos=20)
    common.tree(ck, 'answer trees', J, [('lin2', ('proj:two',)), ('lin2', ('proj:wedge', 'bnd:active')), ('sq1', ('proj:ball', 'rst:soft', 'rho:mid'))], 'rank3', 7 if T else 4, maxfun=12)
    common.tree(ck, 'answer deviations', J, [('lin2', ('proj:two', 'rst:soft', 'rho:mid')), ('rosen', ('proj:infeas2', 'npt:2n1')), ('lin2', ('proj:half', 'bnd:nasty', 'rst:hold', 'rho:mid'))], 'dev3', 16 if T else 8, bound=2, maxfun=24)
    ck.finish()


if __name__ == '__main__':
    main()
