"""C16: fitted models reproduce their data, Lagrange functions are what they should be, base shifts change nothing."""
import itertools

import numpy as np

from mc import boot  # noqa: F401
from mc.harness import Check, Out, h64
from mc.modelops import EPS, restore, snapshot
from . import common
from dfols.model import Model

CMAX = 1e9          # point sets worse conditioned than this (after scaling) are not judged
K = 2e3             # constant in front of eps * cond


def table(m, kind):
    """Residual vectors handed out in order: deterministic, without structure."""
    out = []
    for i in range(40):
        v = np.array([np.cos(3.7 * i + 1.3 * j) + 0.4 * np.sin(1.1 * i * (j + 1)) + 0.2 * ((i * 7 + j * 3) % 5) for j in range(m)])
        out.append(v * {'unit': 1.0, 'large': 1e6, 'small': 1e-7, 'mixed': 10.0 ** (3 * ((i % 3) - 1))}[kind])
    return out


class Config(object):
    def __init__(self, name, n, npt, m, start, spacing=1.0, x0=None, grid=None, values='unit', precondition=True, aniso=None, box=False, proj=False):
        self.name, self.n, self.npt, self.m = name, n, npt, m
        self.start = start                      # grid indices of points 1.. present at the beginning
        self.x0 = np.array(x0 if x0 is not None else [0.3, -1.1, 0.6, 2.0, -0.7, 0.05][:n], float)
        g = grid if grid is not None else ((-1.0, 0.0, 1.0) if n == 2 else (-1.0, -0.4, 0.0, 0.5, 1.0))
        pts = [np.array(p) for p in itertools.product(g, repeat=n) if any(p)] if n < 3 else []
        if n > 3:
            I = np.eye(n)
            pts = [I[i] for i in range(n)] + [-I[i] for i in range(n)] + [I[i] + 0.5 * I[(i + 1) % n] for i in range(n)]
        if n == 3:
            pts = [np.array(p, float) for p in [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (1, 1, 0), (0, 1, 1), (1, 0, 1), (-1, 1, 0.5), (0.3, 0.2, -1)]]
        w = np.ones(n) if aniso is None else np.array(aniso[:n])
        self.steps = [p * spacing * w for p in pts]
        self.values = table(m, values)
        self.precondition = precondition
        self.spacing = spacing
        self.lo = self.x0 - 3 * spacing if box else np.full(n, -1e20)
        self.hi = self.x0 + 1.0 * spacing if box else np.full(n, 1e20)

    def build(self, start=None):
        m = Model(self.npt, self.x0.copy(), self.values[0].copy(), self.lo.copy(), self.hi.copy(), None, 1, precondition=self.precondition, do_logging=False)
        st = {'count': 0, 'off': np.zeros(self.n), 'npt': 1, 'cap': self.npt}
        for j, i in enumerate(self.start if start is None else start):
            self.apply(m, st, ('change', j + 1, i))
        return m, st

    def ops(self, st, kinds):
        npt, cap = st['npt'], st['cap']
        out = []
        if kinds == SLIM:
            ln = len(self.steps)
            out = [('change', k, i) for k in sorted({0, npt // 2, npt - 1}) for i in sorted({0, ln // 3, ln - 1})]
            out += [('change', npt, ln // 2)] if npt < cap else []
            out += [('add', ln // 2)] if cap < self.npt + 1 and npt == cap else []
            out += [('shift', 0), ('shift', 1), ('swap', 0, npt - 1), ('sample', 0), ('factorise',), ('full',)]
            return out
        idx = range(len(self.steps)) if 'wide' in kinds else range(0, len(self.steps), 2)
        if 'change' in kinds:
            out += [('change', k, i) for k in list(range(npt)) + ([npt] if npt < cap else []) for i in idx]
        if 'add' in kinds and cap < self.npt + 2:
            out += [('add', i) for i in list(idx)[::2]]
        if 'swap' in kinds:
            out += [('swap', a, b) for a in range(npt) for b in range(a + 1, npt)]
        if 'shift' in kinds:
            out += [('shift', j) for j in range(3)]
        if 'sample' in kinds:
            out += [('sample', k) for k in range(npt)]
        out += [(k,) for k in ('fit', 'full', 'factorise', 'lagrange') if k in kinds]
        return out

    def apply(self, m, st, op):
        kind = op[0]
        if kind in ('change', 'add', 'sample'):
            st['count'] += 1
        val = self.values[(st['count'] * 3 + 1) % len(self.values)].copy()
        if kind == 'change':
            m.change_point(op[1], self.steps[op[2]] - st['off'], val, st['count'] + 1)
            st['npt'] = max(st['npt'], op[1] + 1)
        elif kind == 'add':
            m.add_new_point(self.steps[op[1]] - st['off'], val, st['count'] + 1)
            st['npt'] += 1
            st['cap'] += 1
        elif kind == 'swap':
            m.swap_points(op[1], op[2])
        elif kind == 'shift':
            sh = [m.xopt().copy(), self.spacing * np.resize([0.37, -0.21, 0.11], self.n), self.spacing * np.resize([30.0, -17.0, 5.0], self.n)][op[1]]
            m.shift_base(sh.copy())
            st['off'] = st['off'] + sh
        elif kind == 'sample':
            m.add_new_sample(op[1], rvec_extra=val)
        elif kind == 'fit':
            m.interpolate_mini_models_svd()
        elif kind == 'full':
            m.interpolate_mini_models_svd(verbose=True, make_full_rank=m.npt() < m.n() + 1)
        elif kind == 'factorise':
            m.factorise_geom_system()
        elif kind == 'lagrange':
            m.lagrange_gradient(0)
        else:
            raise ValueError(kind)

    def allowed(self, m, op):
        # fitting through a (nearly) singular set may legitimately fail: only sets which are judged are fitted
        if op[0] not in ('fit', 'full', 'factorise', 'lagrange'):
            return True
        geo = self.geometry(m)
        return geo is not None and geo[-1] <= CMAX

    # ------------------------------------------------------------------------------------------------ oracle
    def geometry(self, m):
        X = np.array([m.xpt(k) for k in range(m.npt())])
        xo = m.xopt()
        D = X - xo
        dl = np.sqrt(np.max(np.sum(D * D, axis=1)))
        if not dl > 0:
            return None
        W = np.column_stack([np.ones(len(X)), D / dl])
        s = np.linalg.svd(W, compute_uv=False)
        cond = s[0] / s[-1] if s[-1] > 0 else np.inf
        if not self.precondition:
            s2 = np.linalg.svd(np.column_stack([np.ones(len(X)), D]), compute_uv=False)
            cond = max(cond, s2[0] / s2[-1] if s2[-1] > 0 else np.inf)
        return X, xo, D, dl, W, cond

    def verify(self, m, o=None):
        v = []
        geo = self.geometry(m)
        if geo is None or geo[-1] > CMAX:
            if o is not None:
                o.count('ill_conditioned')
            return v
        X, xo, D, dl, W, cond = geo
        npt, n = len(X), m.n()
        snap = snapshot(m)
        F = np.array(m.fval_v[:npt], float)
        fsc = np.max(np.abs(F)) + 1e-300
        eta = K * EPS * cond
        if o is not None:
            o.count('sets_judged')
            o.count('growing' if npt < n + 1 else ('interpolation' if npt == n + 1 else 'regression'))
        # Lagrange functions, with whatever factorisation is cached
        try:
            cs, gs = m.lagrange_gradient()
            v += self.lagrange(cs, gs, D, npt, n, eta, dl, 'all')
            for k in range(npt):
                c, g = m.lagrange_gradient(k)
                if abs(c - cs[k]) > eta or np.max(np.abs(g - gs[:, k])) * dl > eta:
                    v.append(('lagrange-single', 'lagrange_gradient(%d) differs from column %d of lagrange_gradient()' % (k, k)))
            c, g = m.lagrange_gradient(npt - 1, factorise_first=False)
            if abs(c - cs[-1]) > eta or np.max(np.abs(g - gs[:, -1])) * dl > eta:
                v.append(('lagrange-single', 'lagrange_gradient(factorise_first=False) differs'))
        except Exception as e:
            v.append(('exception', 'lagrange_gradient raises %r' % (e,)))
        restore(m, snap)
        if v:
            return v
        # fits
        for kw in (dict(), dict(verbose=True), dict(get_chg_J=True, throw_error_on_nans=True), dict(make_full_rank=True)):
            restore(m, snap)
            full = 'make_full_rank' in kw
            if full and npt >= n + 1:
                continue
            try:
                ok = m.interpolate_mini_models_svd(**kw)[0]
            except Exception as e:
                return [('exception', 'fit raises %r' % (e,))]
            if not ok:
                return [('fit-failed', 'fit with condition number %.3g reports failure' % cond)]
            J = np.array(m.model_jac, float)
            jsc = np.linalg.norm(J, 2)
            if full:
                sv = np.linalg.svd(base_J, compute_uv=False)
                r = min(npt - 1, n, m.m())
                if r < 1 or sv[r - 1] < 1e-4 * max(sv[0], 1e-2):
                    continue          # flooring of tiny singular values is documented to change the model
                if o is not None:
                    o.count('full_rank_judged')
            pred = np.array([m.model_value(X[k], d_based_at_xopt=False, with_const_term=True) for k in range(npt)])
            pred2 = np.array([m.model_value(D[k], d_based_at_xopt=True, with_const_term=True) for k in range(npt)])
            jx = K * EPS * (np.linalg.norm(J, 2) * (np.max(np.abs(X)) + dl))
            tol = eta * (fsc + jsc * dl) + jx
            if np.max(np.abs(pred - pred2)) > tol:
                v.append(('value', 'model values based at xbase and at xopt differ by %.3g' % np.max(np.abs(pred - pred2))))
            res = pred - F
            if npt <= n + 1:
                if np.max(np.abs(res)) > tol:
                    v.append(('interpolation', 'model misses the stored residuals by %.3g (allowed %.3g, condition %.3g, %s)' % (np.max(np.abs(res)), tol, cond, kw)))
            else:
                ne = W.T.dot(res)
                if np.max(np.abs(ne)) > tol * npt:
                    v.append(('regression', 'residual of the fit is not orthogonal to the design columns: %.3g (allowed %.3g, condition %.3g)' % (np.max(np.abs(ne)), tol * npt, cond)))
            if not full and 'verbose' not in kw:
                base_J = J
            elif 'verbose' in kw and np.max(np.abs(J - base_J)) * dl > eta * fsc * 10:
                v.append(('fit-differs', 'the fit depends on verbose'))
            # assembled model
            g, H = m.build_full_model()
            r0 = np.array(m.model_const, float) + J.dot(xo)
            gs_, hs = 2 * J.T.dot(r0), 2 * J.T.dot(J)
            if np.max(np.abs(g - gs_)) > 1e-10 * (jsc * (np.linalg.norm(r0) + jsc * np.max(np.abs(xo)))) + 1e-300 or np.max(np.abs(H - hs)) > 1e-10 * jsc ** 2 + 1e-300:
                v.append(('full-model', 'assembled gradient/Hessian are not 2J\'r(xopt), 2J\'J'))
            if v:
                return v
            # base shifts: values at fixed absolute points, gradient and Hessian
            probes = [X[0], X[-1], xo + 0.3 * dl, np.zeros(n)]
            before = [m.model_value(p, d_based_at_xopt=False, with_const_term=True) for p in probes]
            msnap = snapshot(m)
            for sh in (xo.copy(), 0.7 * dl * np.resize([1.0, -1.0, 0.5], n), -50.0 * dl * np.resize([0.3, 1.0, -0.2], n)):
                restore(m, msnap)
                m.shift_base(sh.copy())
                stol = K * EPS * (fsc + jsc * (np.max(np.abs(X)) + np.max(np.abs(sh)) + dl)) + jx
                after = [m.model_value(p - sh, d_based_at_xopt=False, with_const_term=True) for p in probes]
                d = max(np.max(np.abs(a - b)) for a, b in zip(before, after))
                if d > stol:
                    v.append(('shift-value', 'shifting the base by %s changes model values by %.3g (allowed %.3g)' % (sh, d, stol)))
                g2, H2 = m.build_full_model()
                if np.max(np.abs(g2 - g)) > 4 * jsc * stol * np.sqrt(m.m()) + 1e-300 or np.max(np.abs(H2 - H)) > 1e-10 * jsc ** 2 + 1e-300:
                    v.append(('shift-model', 'shifting the base by %s changes the gradient by %.3g or the Hessian by %.3g' % (sh, np.max(np.abs(g2 - g)), np.max(np.abs(H2 - H)))))
                if np.max(np.abs((m.xbase + m.xpt(m.kopt)) - (msnap['xbase'] + xo))) > 64 * EPS * (np.max(np.abs(msnap['xbase'])) + np.max(np.abs(X)) + np.max(np.abs(sh)) + dl):
                    v.append(('shift-point', 'shifting the base moves the incumbent'))
                # models fitted after the shift agree with the points as well
                c2, gg2 = m.lagrange_gradient()
                D2 = np.array([m.xpt(k) for k in range(npt)]) - m.xopt()
                extra = K * EPS * (np.max(np.abs(X)) + np.max(np.abs(sh)) + dl) / dl * cond
                v += self.lagrange(c2, gg2, D2, npt, n, eta + extra, dl, 'after shift')
                if v:
                    return v
        restore(m, snap)
        return v

    def lagrange(self, cs, gs, D, npt, n, eta, dl, what):
        v = []
        L = np.asarray(cs)[None, :] + D.dot(gs)            # L[j,k] = L_k(y_j)
        if npt <= n + 1:
            e = np.max(np.abs(L - np.eye(npt)))
            if not e <= eta * 10:
                v.append(('lagrange', 'Lagrange functions (%s): max |L_k(y_j) - delta_kj| = %.3g (allowed %.3g)' % (what, e, eta * 10)))
        else:
            e = np.max(np.abs(np.sum(L, axis=1) - 1.0))
            e2 = np.max(np.abs(np.sum(gs, axis=1))) * dl
            P = L.T                                      # hat matrix: idempotent and symmetric for least squares
            e3 = max(np.max(np.abs(L - L.T)), np.max(np.abs(L.dot(L) - L)))
            if not max(e, e2, e3) <= eta * 30 * npt:
                v.append(('lagrange', 'regression Lagrange functions (%s) do not sum to one / do not fit: %.3g %.3g %.3g (allowed %.3g)' % (what, e, e2, e3, eta * 30 * npt)))
        return v


CONFIGS = {}
for _c in [
    Config('n1', 1, 2, 2, [0]),
    Config('n1reg', 1, 4, 1, [0, 2, 3]),
    Config('n2', 2, 3, 3, [4, 1]),
    Config('n2m1', 2, 3, 1, [0, 2]),
    Config('n2grow', 2, 3, 2, []),
    Config('n2grow1', 2, 4, 3, [4]),
    Config('n2reg', 2, 5, 2, [4, 1, 0, 6]),
    Config('n2tiny', 2, 3, 2, [4, 1], spacing=1e-6),
    Config('n2huge', 2, 3, 2, [4, 1], spacing=1e4, values='large'),
    Config('n2aniso', 2, 4, 2, [4, 1, 6], aniso=(1.0, 1e-3)),
    Config('n2nopre', 2, 3, 2, [4, 1], spacing=1e-3, precondition=False),
    Config('n2nopreg', 2, 4, 2, [4, 1, 6], spacing=20.0, precondition=False),
    Config('n2far', 2, 3, 2, [4, 1], spacing=1e-2, x0=(1e5, -3e4)),
    Config('n2box', 2, 3, 2, [4, 1], box=True),
    Config('n2mixed', 2, 4, 3, [4, 1, 6], values='mixed'),
    Config('n2small', 2, 3, 2, [4, 1], values='small'),
    Config('n3', 3, 4, 4, [0, 1, 2]),
    Config('n3grow', 3, 4, 3, [0]),
    Config('n3grow2', 3, 5, 4, [0, 5]),
    Config('n3reg', 3, 7, 3, [0, 1, 2, 3, 4, 5]),
    Config('n3under', 3, 4, 2, [0, 1, 2]),
    Config('n4grow', 4, 5, 6, [0, 2]),
    Config('n4', 4, 5, 5, [0, 1, 2, 3]),
    Config('n4max', 4, 9, 4, range(8), spacing=1e-2),
    Config('n5under', 5, 6, 2, range(5), x0=(10., 20., -30., 1., 0.)),
    Config('n6', 6, 7, 6, range(6)),
    Config('n6reg', 6, 13, 6, range(12), spacing=1e2),
    Config('n6grow', 6, 7, 3, [0, 1, 3]),
    Config('n6reg1', 6, 9, 1, range(8), spacing=1e-2),
]:
    CONFIGS[_c.name] = _c

SLIM = ('slim',)
ALL = ('change', 'wide', 'add', 'swap', 'shift', 'sample', 'fit', 'full', 'factorise', 'lagrange')
MID = ('change', 'add', 'swap', 'shift', 'sample', 'fit', 'full', 'factorise')


def replay(case):
    cfg = CONFIGS[case['config']]
    m, st = cfg.build(case.get('start'))
    v = cfg.verify(m)
    for op in case['ops']:
        if v:
            break
        cfg.apply(m, st, tuple(op))
        v = cfg.verify(m)
    return v


def key(m, st):
    return h64(m.points.tobytes(), m.fval_v.tobytes(), m.xbase.tobytes(), int(m.kopt), bool(getattr(m, 'factorisation_current', False)), np.asarray(m.model_jac).tobytes())


def explore(cfg, start, kinds, depth, first, o):
    m, st = cfg.build(start)
    case0 = dict(config=cfg.name, ops=[])
    if start is not None:
        case0['start'] = list(start)
    if first is None:
        o.transitions += 1
        o.states.add(key(m, st))
        v = cfg.verify(m, o)
        for kd, w in v[:1]:
            o.violation(kd, '%s initial state (%s): %s' % (cfg.name, start, w), dict(case0, cost=0))
        if depth == 0 or v:
            return
    seen = {}
    stack = [((), snapshot(m), dict(st), [first] if first is not None else None)]
    while stack:
        seq, snap, s0, forced = stack.pop()
        for op in (forced if forced is not None else cfg.ops(s0, kinds)):
            restore(m, snap)
            if not cfg.allowed(m, op):
                o.count('fit_of_singular_set_skipped')
                continue
            t = dict(s0)
            o.transitions += 1
            full = seq + (op,)
            try:
                cfg.apply(m, t, op)
                here = snapshot(m)
                v = cfg.verify(m, o)
                restore(m, here)
            except Exception as e:
                v = [('exception', repr(e))]
            if v:
                o.violation(v[0][0], '%s after %s: %s' % (cfg.name, list(full), v[0][1]), dict(case0, ops=[list(q) for q in full], cost=len(full)))
                continue
            k = key(m, t)
            left = depth - len(full)
            if len(full) == 1 or o.transitions % 61 == 0:
                m2, s2 = cfg.build(start)
                for q in full:
                    cfg.apply(m2, s2, q)
                o.traces += 1
                if key(m2, s2) != k:
                    o.violation('replay', '%s after %s: a fresh model ends in another state' % (cfg.name, list(full)), dict(case0, ops=[list(q) for q in full], cost=len(full)))
            if seen.get(k, -1) >= left:
                continue
            seen[k] = left
            o.states.add(k)
            if left > 0:
                stack.append((full, here, t, None))
            elif o.sample is None:
                o.sample = dict(case=dict(case0, ops=[list(q) for q in full]))


def main():
    ck = Check('C16', 'model_checking',
               'a state is the interpolation set (points, values, base, incumbent, cached factorisation, current model) after a sequence of public operations on the real Model; in every state '
               'the Lagrange functions, four kinds of fit and three base shifts are checked; traces_validated counts sequences replayed from a freshly built Model',
               ['tolerances are 2000*eps*cond(W) relative; sets with cond(W) > 1e9 are counted and not judged', 'full-rank completion is judged only where no singular value of the fit is floored'])
    T = ck.thorough
    plan = [('n1', ALL, 3), ('n1reg', MID, 2), ('n2', ALL, 2), ('n2m1', MID, 2), ('n2grow', ALL, 2), ('n2grow1', ALL, 2), ('n2reg', MID, 2), ('n2tiny', MID, 2), ('n2huge', MID, 2), ('n2aniso', MID, 2),
            ('n2nopre', MID, 2), ('n2nopreg', MID, 2), ('n2far', MID, 2), ('n2box', MID, 2), ('n2mixed', MID, 2), ('n2small', MID, 1), ('n3', MID, 2), ('n3grow', MID, 2), ('n3grow2', MID, 2), ('n3reg', MID, 1), ('n3under', MID, 1)]
    plan += [('n2', SLIM, 4), ('n2grow', SLIM, 4), ('n2reg', SLIM, 3), ('n2far', SLIM, 3), ('n2tiny', SLIM, 2), ('n2box', SLIM, 2), ('n3', SLIM, 3), ('n3grow', SLIM, 3), ('n3grow2', SLIM, 3), ('n3reg', SLIM, 2),
             ('n4grow', SLIM, 3), ('n4', SLIM, 2), ('n4max', SLIM, 2), ('n5under', SLIM, 2), ('n6', SLIM, 2), ('n6reg', SLIM, 1), ('n6grow', SLIM, 3), ('n6reg1', SLIM, 1)]
    if T:
        plan = [(c, k, d + 1) for c, k, d in plan]
    tasks = []
    for c, kinds, d in plan:
        cfg = CONFIGS[c]
        m, s = cfg.build()
        tasks += [(c, None, kinds, d, op) for op in cfg.ops(s, kinds)] + [(c, None, kinds, 0, None)]

    def work(task):
        c, start, kinds, d, op = task
        o = Out()
        explore(CONFIGS[c], start, kinds, d, op, o)
        o.n += 1
        return o
    ck.space('operation sequences', work, tasks, 'all operation sequences: %s' % ', '.join('%s depth %d' % (c, d) for c, k, d in plan))

    # every initial point set from the grid, with one operation on top
    sets = []
    for c, size, d in (('n1', 1, 1), ('n1reg', 3, 1), ('n2', 2, 1), ('n2', 1, 0), ('n2reg', 4, 0), ('n2tiny', 2, 0), ('n2huge', 2, 0), ('n2aniso', 3, 0), ('n2nopre', 2, 0), ('n2far', 2, 0), ('n2box', 2, 0), ('n3', 3, 0), ('n3', 2, 0), ('n3grow', 1, 0), ('n3reg', 6, 0)):
        cfg = CONFIGS[c]
        perm = list(itertools.permutations(range(len(cfg.steps)), size)) if size <= 2 or (T and size <= 3) else list(itertools.combinations(range(len(cfg.steps)), size))
        sets += [(c, p, MID, d + (1 if T else 0), None) for p in perm]

    def work2(task):
        o = Out()
        for t in task:
            explore(CONFIGS[t[0]], t[1], t[2], t[3], t[4], o)
        o.n += 1
        return o
    ck.space('point sets', work2, common.chunks(sets, 8), 'every choice (and order, for pairs) of the initial points from the grid')
    ck.total.n = 0
    ck.finish()


if __name__ == '__main__':
    main()
