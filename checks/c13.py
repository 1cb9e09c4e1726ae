"""C13: geometry steps and convex-constrained step solvers, on every instance of finite alphabets and every call made by real runs."""
import itertools

import numpy as np

from mc import boot, configs, runner  # noqa: F401
from mc.harness import Check, Hang, Out, cpu_limit, h64
from . import c12, common
import dfols.controller as ctl
import dfols.trust_region as tr
from dfols.controller import Controller
from dfols.params import ParameterList

EPS = np.finfo(float).eps


# ------------------------------------------------------------------------------- geometry step for bound constraints
def best_linear(g, a, b, delta):
    """Minimum of g's over a <= s <= b, ||s|| <= delta (a <= 0 <= b): exact solution along the clipped ray clip(-t g)."""
    w = np.abs(g)
    nz = w > 0
    if not nz.any():
        return 0.0
    w = w[nz]
    lim = np.where(g[nz] < 0, b[nz], -a[nz])
    lim = np.maximum(lim, 0.0)
    t = lim / w
    order = np.argsort(t, kind='stable')
    w, lim, t = w[order], lim[order], t[order]
    S = 0.0                                      # squared length of the coordinates at their limit
    G = np.concatenate([np.cumsum((w * w)[::-1])[::-1], [0.0]])
    val = 0.0
    for k in range(len(w)):
        if S + t[k] * t[k] * G[k] >= delta * delta:
            tt = np.sqrt(max(delta * delta - S, 0.0) / G[k])
            return -(val + tt * G[k])
        S += lim[k] ** 2
        val += w[k] * lim[k]
    return -val


def judge_geometry(q, x):
    xb, c, g, lo, hi, delta = q['xbase'], q['c'], q['g'], q['lower'], q['upper'], q['delta']
    x = np.asarray(x, float)
    if x.shape != xb.shape or not np.all(np.isfinite(x)):
        return [('geo-step', 'result %r' % (x,))]
    s = x - xb
    v = []
    xs = np.linalg.norm(xb)
    slack = 1e-12 * np.maximum(1.0, np.abs(xb))
    if np.any(x < lo - slack) or np.any(x > hi + slack):
        v.append(('geo-box', 'point %r outside [%r, %r]' % (x, lo, hi)))
    if np.linalg.norm(s) > delta * (1 + 1e-10) + 4 * EPS * xs + 2e-14 * len(s):
        v.append(('geo-radius', '||s|| = %.17g > Delta = %.17g' % (np.linalg.norm(s), delta)))
    a, b = np.minimum(lo - xb, 0.0), np.maximum(hi - xb, 0.0)
    m1, m2 = best_linear(g, a, b, delta), -best_linear(-g, a, b, delta)
    best = max(abs(c + m1), abs(c + m2), abs(c))
    got = abs(c + float(g.dot(s)))
    gn = np.linalg.norm(g)
    err = 8 * EPS * (abs(c) + gn * (xs + np.linalg.norm(s)))
    if got < best * (1 - 1e-6) - err:
        v.append(('geo-optimal', '|c + g\'s| = %.12g, the maximum is %.12g' % (got, best)))
    if got < abs(c) * (1 - 1e-12) - err:
        v.append(('geo-worse', '|c + g\'s| = %.12g is worse than not moving (%.12g)' % (got, abs(c))))
    return v


GEO_C = (0.0, 1.0, -1.0, 0.3, -1e-2, 25.0, -1e-3)           # in units of |g| Delta, except exactly 1 (a Lagrange function at its own point)
GEO_COMBOS = [(1.0, 1.0, 0.0), (1e-2, 1e2, 0.7), (1e2, 1e-2, 0.7), (1e-4, 1e4, 0.7), (10.0, 1e-5, 300.0), (1e-3, 1.0, 30.0), (1e-4, 1e-2, 0.0), (1.0, 1e5, 0.7)]


def geo_gradients(n, wide):
    if n == 1:
        return [np.array([a]) for a in (-2.0, -1e-3, 0.0, 1e-3, 1.0)]
    if n == 2:
        return [np.array(t) for t in itertools.product((-1.0, -1e-3, 0.0, 0.3, 2.0), repeat=2)]
    if n == 3:
        return [np.array(t) for t in itertools.product((-1.0, 0.0, 0.4, 1e-2) if wide else (-1.0, 0.0, 0.4), repeat=3)]
    if n == 4:
        return [np.array(t) * np.array([1.0, 0.5, 2.0, 0.1]) for t in itertools.product((-1.0, 0.0, 1.0) if wide else (-1.0, 1.0), repeat=4)] + [np.zeros(4)]
    return c12.gradients(n, wide) + [np.zeros(n)]


def geo_instance(n, code, gi, ci, combo, wide):
    delta, gs, off = GEO_COMBOS[combo]
    x = off * c12.XOFF[:n]
    b = [c12.bounds(k, x[i], delta) for i, k in enumerate(code)]
    g = gs * geo_gradients(n, wide)[gi]
    gn = np.linalg.norm(g)
    c = GEO_C[ci] * (gn * delta if gn > 0 and ci > 1 else 1.0)
    return dict(xbase=x, c=c, g=g, lower=np.array([t[0] for t in b]), upper=np.array([t[1] for t in b]), delta=delta)


def run_geometry(q):
    try:
        with cpu_limit(10.0):
            x = tr.trsbox_geometry(q['xbase'].copy(), q['c'], q['g'].copy(), q['lower'].copy(), q['upper'].copy(), q['delta'])
    except Hang:
        return None, [('geo-hang', 'no result after 10 s')]
    except Exception as e:
        return None, [('geo-exception', repr(e))]
    return x, judge_geometry(q, x)


# --------------------------------------------------------------------------------------------- convex-constrained steps
def convex_sets(n, x, delta):
    """Named lists of set descriptions (plain data); every set contains x."""
    u = np.resize([0.6, -0.8, 0.5], n)
    u = u / np.linalg.norm(u)
    w = np.resize([1.0, 0.3, -0.4], n)
    w = w / np.linalg.norm(w)
    big = 50.0 * delta
    bx = lambda lo, hi: ('box', (x + delta * np.resize(lo, n)).tolist(), (x + delta * np.resize(hi, n)).tolist())   # noqa: E731
    half = lambda a, gap: ('half', a.tolist(), float(a.dot(x) + gap * delta))                                       # noqa: E731
    ball = lambda shift, r: ('ball', (x + shift * delta).tolist(), float(r * delta))                                # noqa: E731
    S = {'ball_in': [ball(0.2 * u, 0.7)], 'ball_edge': [ball(0.5 * u, 0.5 + 1e-9)], 'ball_big': [ball(3.0 * w, 5.0)], 'ball_small': [ball(0.01 * w, 0.02)],
         'half_edge': [half(u, 0.0)], 'half_in': [half(w, 0.4)], 'half_far': [half(u, 30.0)],
         'box_corner': [bx([0.0], [0.5])], 'box_in': [bx([-0.3, -2.0], [0.2, 0.7])], 'box_thin': [bx([-1.0, -1e-3], [1.0, 2e-3])], 'box_point': [bx([0.0], [0.0])],
         'ball_half': [ball(0.2 * u, 0.7), half(w, 0.1)], 'wedge': [half(u, 0.0), half(-u + 0.3 * w, 0.0)], 'sharp': [half(u, 0.1), half(-u + 0.02 * w, 0.1)],
         'slab': [half(u, 0.0), half(-u, 1e-2)], 'three': [ball(0.3 * w, 0.6), half(u, 0.2), bx([-0.5, -0.2], [0.3, 0.4])], 'ball_box': [ball(-0.4 * u, 0.9), bx([-0.3], [0.6])],
         'plane': [('plane', u.tolist(), float(u.dot(x)))], 'plane_box': [('plane', w.tolist(), float(w.dot(x))), bx([-0.2], [2.0])], 'huge': [('box', (x - big).tolist(), (x + big).tolist())]}
    if n == 1:
        for k in ('plane', 'plane_box', 'sharp', 'slab', 'wedge'):
            S.pop(k)
    return S


CX_COMBOS = [(1.0, 1.0, 0.0), (1e-2, 1.0, 0.7), (10.0, 1e-2, 0.7), (1e-4, 1e2, 100.0), (1e-3, 1e-3, 0.7)]


def cx_gradients(n):
    if n == 1:
        return [np.array([a]) for a in (-1.0, 0.0, 0.3)]
    if n == 2:
        return [np.array(t) for t in ((1, 0), (0, -1), (-1, 1), (0.6, -0.8), (-0.6, 0.8), (1, 1e-3), (0, 0), (-1, -0.3))]
    return [np.resize(np.array(t, float), n) for t in ((1, 0, 0), (-1, 1, 0.5), (0.6, -0.8, 0.5), (-0.6, 0.8, -0.5), (0, 0, 0), (1, 1e-3, -1))]


def cx_hessians(n):
    return [h for h in c12.hessians(n) if h[0] in ('zero', 'identity', 'rank1', 'jj', 'spread', 'saddle', 'tiny', 'negative', 'jj2')]


def make_h(kind, lam):
    if kind == 'l1':
        return (lambda x: lam * np.sum(np.abs(x)), lambda x, u: np.sign(x) * np.maximum(np.abs(x) - lam * u, 0.0), lambda n: lam * np.sqrt(n))
    if kind == 'l2':
        def prox(x, u):
            nx = np.linalg.norm(x)
            return x * max(0.0, 1.0 - lam * u / nx) if nx > 0 else x.copy()
        return (lambda x: lam * np.linalg.norm(x), prox, lambda n: lam)
    # one-sided: lam*max(x0, 0)
    def prox1(x, u):
        y = np.array(x, float)
        y[0] = y[0] - lam * u if y[0] > lam * u else min(y[0], 0.0)
        return y
    return (lambda x: lam * max(x[0], 0.0), prox1, lambda n: lam)


def cx_instance(n, sets, gi, hi, hs, combo):
    delta, gs, off = CX_COMBOS[combo]
    x = off * c12.XOFF[:n]
    return dict(xopt=x, g=gs * cx_gradients(n)[gi], H=hs * (gs / delta) * cx_hessians(n)[hi][1], sets=convex_sets(n, x, delta)[sets], delta=delta)


def judge_radius(what, d, delta, x, kind='radius'):
    d = np.asarray(d, float)
    if d.shape != np.shape(x) or not np.all(np.isfinite(d)):
        return [(what + '-step', 'step %r' % (d,))]
    nd = np.linalg.norm(d)
    if nd > delta * (1 + 1e-8) + 4 * EPS * np.linalg.norm(x):
        return [(what + '-radius', '||d|| = %.17g > %.17g' % (nd, delta))]
    return []


def run_convex(q):
    """q['routine'] in pgd, geometry, sfista."""
    P = [runner.make_projection(s) for s in q['sets']]
    x, g, H, delta = q['xopt'], q['g'], q.get('H'), q['delta']
    r = q['routine']
    kw = q.get('kw', {})
    try:
        with cpu_limit(60.0):
            if r == 'pgd':
                d = tr.ctrsbox_pgd(x.copy(), g.copy(), H.copy(), P, delta, **kw)[0]
            elif r == 'geometry':
                d = tr.ctrsbox_geometry(x.copy(), q['c'], g.copy(), P, delta, **kw)
            else:
                h, prox, lip = make_h(*q['h'])
                sc = None if q.get('scale') is None else (np.array(q['scale'][0]), np.array(q['scale'][1]))
                d = tr.ctrsbox_sfista(x.copy(), g.copy(), H.copy(), P, delta, h, lip(len(x)), prox, scaling_changes=sc, **kw)[0]
    except Hang:
        return None, [(r + '-hang', 'no result after 60 s')]
    except Exception as e:
        return None, [(r + '-exception', repr(e))]
    return d, judge_radius(r, d, delta, x)


# -------------------------------------------------------------------------------- Controller.trust_region_step, h given
def step_controller(q):
    """A controller whose model has the given Jacobian and residual at its only relevant point."""
    n = len(q['x0'])
    params = ParameterList(n, n + 1, 100)
    for k, val in q.get('params', {}).items():
        params(k, new_value=val)
    h, prox, lip = make_h(*q['h'])
    ah, ap = (), ()
    if q.get('args'):
        h0, p0 = h, prox

        def h(x, a, b):
            assert (a, b) == ('A', 2), (a, b)
            return h0(x)

        def prox(x, u, a):
            assert a == 'B', a
            return p0(x, u)
        ah, ap = ('A', 2), ('B',)
    sc = None if q.get('scale') is None else (np.array(q['scale'][0]), np.array(q['scale'][1]))
    P = [runner.make_projection(s) for s in q['sets']]
    xl, xu = np.array(q['xl'], float), np.array(q['xu'], float)
    if P:
        P.append(lambda x: np.minimum(np.maximum(x, xl), xu))
    x0 = np.array(q['x0'], float)
    J, r = np.array(q['J'], float), np.array(q['r'], float)
    c = Controller(lambda x: r, (), x0, r.copy(), 1, xl, xu, P, n + 1, q['delta'], 1e-8, 1, 1, 100, params, sc, False, h=h, lh=lip(n), argsh=ah, prox_uh=prox, argsprox=ap)
    if q.get('shift'):
        c.model.shift_base(np.array(q['shift'], float))
    c.model.model_jac = J.copy()
    c.model.model_const = r - J.dot(c.model.xopt())
    c.delta = q['delta']
    return c, params, (lambda x: h(x if sc is None else sc[0] + x * sc[1], *ah))


def predicted(hfun, x, d, gopt, H):
    return hfun(x) - (float(gopt.dot(d)) + 0.5 * float(d.dot(H).dot(d)) + hfun(x + d))


def judge_step(d, gopt, H, x, delta, hfun):
    v = judge_radius('regstep', d, delta, x)
    if v:
        return v
    p = predicted(hfun, x, d, gopt, H)
    nd = np.linalg.norm(d)
    tol = 1e-12 * (abs(hfun(x)) + abs(hfun(x + d)) + np.linalg.norm(gopt) * nd + np.linalg.norm(H) * nd * nd)
    if not p >= -tol:
        v.append(('regstep-increase', 'predicted reduction of the regularised step is %.3g' % p))
    return v


def run_step(q):
    c, params, hfun = step_controller(q)
    x = np.array(q['x0'], float)
    try:
        with cpu_limit(60.0):
            d, gopt, H, gnew, crv = c.trust_region_step(params, q['crit'])
    except Hang:
        return None, [('regstep-hang', 'no result after 60 s')]
    except Exception as e:
        return None, [('regstep-exception', repr(e))]
    J, r = np.array(q['J'], float), np.array(q['r'], float)
    v = judge_step(np.asarray(d, float), 2 * J.T.dot(r), 2 * J.T.dot(J), x, q['delta'], hfun)
    return d, v


def step_cases(T):
    out = []
    Js = {2: [np.eye(2), np.array([[1.0, 2.0], [0.5, -1.0], [0.0, 1.0]]), np.array([[1.0, -2.0]]), np.zeros((2, 2)), np.array([[30.0, 0.0], [0.0, 0.1]])],
          1: [np.array([[2.0]]), np.array([[0.0]])],
          3: [np.eye(3), np.array([[1.0, 0.4, -2.0], [0.0, 1.0, 0.3]])]}
    for n in (1, 2, 3):
        for ji, J in enumerate(Js[n]):
            m = J.shape[0]
            for r in (np.resize([1.0, -0.5, 0.3], m), np.resize([-1e-3, 1e-3], m), np.zeros(m)):
                for x0 in (np.zeros(n), np.resize([0.8, -0.5, 0.1], n), np.resize([1e-9, -3.0], n)):
                    for delta in ((1.0, 1e-2, 30.0, 1e-4) if T else (1.0, 1e-3)):
                        for h in ((('l1', 0.5), ('l2', 2.0), ('pos', 10.0), ('l1', 1e-3), ('l2', 1e3)) if T else (('l1', 0.5), ('l2', 20.0))):
                            for box in ('none', 'in', 'edge'):
                                for sets in (('none', 'ball') if T else ('none',)) if box != 'in' else ('none', 'ball'):
                                    for crit in (1e-2, 50.0) if T else (1e-2,):
                                        for extra in ({}, {'args': 1}, {'shift': np.resize([0.3, -0.2], n).tolist()}, {'scale': [np.resize([0.1, -1.0], n).tolist(), np.resize([2.0, 0.5], n).tolist()]}):
                                            if extra and not T and not (box == 'in' and ji < 2):
                                                continue
                                            q = dict(x0=x0.tolist(), J=J.tolist(), r=r.tolist(), delta=delta, h=list(h), crit=crit, sets=[], params={'func_tol.max_iters': 60})
                                            q['xl'] = (np.full(n, -1e20) if box == 'none' else x0 - (0.0 if box == 'edge' else 0.4 * delta)).tolist()
                                            q['xu'] = (np.full(n, 1e20) if box == 'none' else x0 + 0.6 * delta).tolist()
                                            if sets == 'ball':
                                                q['sets'] = [('ball', (x0 + 0.2 * delta).tolist(), 0.2 * delta * np.sqrt(n) + 0.3 * delta)]
                                            q.update(extra)
                                            out.append(q)
    return out


# ------------------------------------------------------------------------------------------------ calls of real runs
def live(case):
    v = []
    calls = dict(geometry=0, convex=0, step=0)

    def finite(*a):
        return all(np.all(np.isfinite(z)) for z in a)

    def wrap_geo(f):
        def w(xbase, c, g, lower, upper, Delta, *a, **kw):
            q = dict(xbase=np.array(xbase, float), c=float(c), g=np.array(g, float), lower=np.array(lower, float), upper=np.array(upper, float), delta=float(Delta))
            x = f(xbase, c, g, lower, upper, Delta, *a, **kw)
            if finite(q['g'], q['c'], q['xbase']) and np.linalg.norm(q['g']) > 1e-8:
                calls['geometry'] += 1
                v.extend(judge_geometry(q, x))
            return x
        return w

    def wrap_pgd(f):
        def w(xopt, g, H, projections, delta, *a, **kw):
            x = np.array(xopt, float)
            r = f(xopt, g, H, projections, delta, *a, **kw)
            calls['convex'] += 1
            v.extend(judge_radius('pgd', r[0], delta, x))
            return r
        return w

    def wrap_sfista(f):
        def w(xopt, g, H, projections, delta, *a, **kw):
            x = np.array(xopt, float)
            r = f(xopt, g, H, projections, delta, *a, **kw)
            calls['convex'] += 1
            v.extend(judge_radius('sfista', r[0], delta, x))
            return r
        return w

    def wrap_cgeo(f):
        def w(xbase, c, g, projections, Delta, *a, **kw):
            x = np.array(xbase, float)
            d = f(xbase, c, g, projections, Delta, *a, **kw)
            calls['convex'] += 1
            if finite(g):
                v.extend(judge_radius('geometry', d, Delta, x))
            return d
        return w
    done = []
    for name, wr in (('trsbox_geometry', wrap_geo), ('ctrsbox_pgd', wrap_pgd), ('ctrsbox_sfista', wrap_sfista), ('ctrsbox_geometry', wrap_cgeo)):
        f = getattr(tr, name, None)
        if f is not None and getattr(ctl, name, None) is f:
            done.append((ctl, name, f))
            setattr(ctl, name, wr(f))
    real = Controller.trust_region_step

    def stepw(self, *a, **kw):
        r = real(self, *a, **kw)
        if self.h is not None:
            calls['step'] += 1
            x = np.array(self.model.xopt(abs_coordinates=True), float)
            d, gopt, H = np.array(r[0], float), np.array(r[1], float), np.array(r[2], float)
            sc = self.scaling_changes
            if finite(gopt, H):
                v.extend(judge_step(d, gopt, H, x, self.delta, lambda z: self.h(z if sc is None else sc[0] + z * sc[1], *self.argsh)))
        return r
    Controller.trust_region_step = stepw
    try:
        common.execute(case)
    finally:
        Controller.trust_region_step = real
        for mod, name, f in done:
            setattr(mod, name, f)
    return v, calls


# --------------------------------------------------------------------------------------------------------------- main
def pack(q):
    return {k: (a.tolist() if isinstance(a, np.ndarray) else a) for k, a in q.items()}


def replay(case):
    if 'case' in case:
        return live(case['case'])[0]
    q = dict(case['instance'])
    if case['part'] == 'step':
        return run_step(q)[1]
    for k in ('xopt', 'g', 'H', 'xbase', 'lower', 'upper'):
        if k in q:
            q[k] = np.array(q[k], float)
    return run_geometry(q)[1] if case['part'] == 'geometry' else run_convex(q)[1]


def work_geo(task):
    n, wide, combo, chunk = task
    o = Out()
    P = c12.placements(n, wide)
    ng = len(geo_gradients(n, wide))
    for pi in chunk:
        for gi in range(ng):
            for ci in range(len(GEO_C)):
                q = geo_instance(n, P[pi], gi, ci, combo, wide)
                x, v = run_geometry(q)
                o.n += 1
                o.transitions += 1
                if x is not None:
                    o.states.add(h64(x.tobytes(), q['c']))
                    nd = np.linalg.norm(x - q['xbase'])
                    o.count('zero_step' if nd == 0 else ('on_ball' if nd > 0.999999 * q['delta'] else 'inside'))
                if v:
                    o.violation(v[0][0], 'n=%d placement %s g=%s c=%g Delta=%g: %s' % (n, ''.join(P[pi]), q['g'], q['c'], q['delta'], v[0][1]), dict(part='geometry', instance=pack(q), cost=n))
    o.sample = dict(instance=pack(q))
    return o


def work_cx(chunk):
    o = Out()
    for n, name, gi, hi, hs, combo, routine, more in chunk:
        q = cx_instance(n, name, gi, hi, hs, combo)
        q['routine'] = routine
        q.update(more)
        if routine == 'geometry':
            q.pop('H')
        d, v = run_convex(q)
        o.n += 1
        o.transitions += 1
        if d is not None:
            o.states.add(h64(np.round(d, 12).tobytes(), routine))
            nd = np.linalg.norm(d)
            o.count(routine + ('_zero' if nd == 0 else ('_on_ball' if nd > 0.999999 * q['delta'] else '_inside')))
        if v:
            o.violation(v[0][0], 'n=%d sets %s %s: %s' % (n, name, q, v[0][1]), dict(part='convex', instance=pack(q), cost=n))
    o.sample = dict(instance=pack(q))
    return o


def work_step(chunk):
    o = Out()
    for q in chunk:
        d, v = run_step(q)
        o.n += 1
        o.transitions += 1
        if d is not None:
            o.states.add(h64(np.round(np.asarray(d, float), 12).tobytes()))
            o.count('zero_step' if not np.any(d) else 'step')
        if v:
            o.violation(v[0][0], '%s: %s' % (q, v[0][1]), dict(part='step', instance=q, cost=len(q['x0'])))
    o.sample = dict(instance=q)
    return o


def work_live(chunk):
    o = Out()
    for c in chunk:
        v, calls = live(c)
        o.n += 1
        o.transitions += sum(calls.values())
        for k, a in calls.items():
            o.count(k, a)
        o.states.add(h64(repr(c)))
        if v:
            o.violation(v[0][0], '%s %s: %s' % (c['problem'], c['toggles'], v[0][1]), dict(case=c, cost=50))
    return o


def main():
    ck = Check('C13', 'exploration',
               'an evaluation is one call of a step routine on an instance of the alphabets, or one call made inside a whole solver run; distinct steps are counted',
               ['box feasibility to 1e-12*max(1,|x|); ball 1e-10 (bounds) / 1e-8 (convex) relative plus 4 eps |x|', 'gradients below 1e-8 in norm are not judged for optimality in runs'])
    T = ck.thorough
    for n, wide, combos in ((1, True, range(8)), (2, True, range(8) if T else (0, 3, 4)), (3, T, range(8) if T else (1, 4)), (4, T, range(4) if T else (0,)), (5, T, (0, 1, 3) if T else (2,)), (6, T, (0, 4) if T else (3,)), (7, False, (0, 3) if T else (1,)), (8, T, (0, 3) if T else (0,))):
        np_ = len(c12.placements(n, wide))
        ck.space('geometry n=%d' % n, work_geo, [(n, wide, c, ch) for c in combos for ch in common.chunks(list(range(np_)), 4 if n < 3 else 8)],
                 'all %d placements x %d gradients x %d constants x (radius, gradient scale, offset) %s' % (np_, len(geo_gradients(n, wide)), len(GEO_C), [GEO_COMBOS[c] for c in combos]))
    tasks = []
    for n in (1, 2, 3) if not T else (1, 2, 3, 5):
        names = list(convex_sets(n, np.zeros(n), 1.0))
        for combo in (range(5) if T else ((0, 3) if n == 2 else (1,))):
            for name in names:
                for gi in range(len(cx_gradients(n))):
                    for hi in range(len(cx_hessians(n))):
                        for hs in (0.3, 10.0) if T else (1.0,):
                            for kw in ({}, dict(d_max_iters=1), dict(d_max_iters=3, d_tol=1e-3)) if T or hi in (1, 3) else ({},):
                                tasks.append((n, name, gi, hi, hs, combo, 'pgd', dict(kw=kw)))
                            if hi in (0, 1, 3) and (T or gi % 2 == 0):
                                for h in (('l1', 0.3), ('l2', 5.0), ('pos', 1.0)) if T else (('l1', 0.3), ('l2', 5.0)):
                                    tasks.append((n, name, gi, hi, hs, combo, 'sfista', dict(h=h, kw=dict(max_iters=40))))
                    for c in (0.0, 1.0, -0.2):
                        for kw in ({}, dict(d_max_iters=1), dict(d_max_iters=3, d_tol=1e-3)):
                            tasks.append((n, name, gi, 0, 1.0, combo, 'geometry', dict(c=c, kw=kw)))
    ck.space('convex steps', work_cx, common.chunks(tasks, 4), 'all set combinations x gradients x Hessians x radii for pgd / S-FISTA / convex geometry (%d instances)' % len(tasks))
    st = step_cases(T)
    ck.space('regularised step', work_step, common.chunks(st, 4), 'Controller.trust_region_step on %d constructed models: Jacobian x residual x centre x radius x regulariser x box x sets x scaling / base shift / extra arguments' % len(st))
    P = ['lin1', 'lin2', 'lin3', 'rosen', 'under2', 'under3', 'abs2', 'sin2', 'big2'] if not T else list(configs.PROBLEMS)
    cs = [dict(problem=p, toggles=list(tg), seed=0) for p, tg in configs.cases(P, ['bnd', 'npt', 'grow', 'regr', 'rst', 'tr', 'base'], 2 if T else 1)]
    for must in configs.options_of(['proj'])[0]:
        cs += [dict(problem=p, toggles=list(tg), seed=0) for p, tg in configs.cases(['lin2', 'rosen', 'under3'] if not T else ['lin2', 'lin3', 'rosen', 'under2', 'under3'], ['bnd', 'regr', 'grow'], 1, 0, (must,))]
    for must in configs.options_of(['reg'])[0]:
        cs += [dict(problem=p, toggles=list(tg), seed=0, maxfun=None if T else 25) for p, tg in configs.cases(['lin2'] if not T else ['lin2', 'rosen', 'under3'], ['bnd', 'proj', 'scal', 'rst'], 1, 0, (must,))]
    ck.space('calls in solver runs', work_live, common.chunks(cs, 2), 'every step-routine call of the runs of %d cases' % len(cs))
    ck.finish()


if __name__ == '__main__':
    main()
