"""C17: Model bookkeeping under every sequence of public updates, against a shadow model."""
import itertools

import numpy as np

from mc import boot, configs, runner  # noqa: F401
from mc.harness import Check, Out, h64
from mc.modelops import EPS, Shadow, close, hval, rank, restore, snapshot, sumsq
from . import common
import dfols.model
from dfols.model import Model

INF, NAN = float('inf'), float('nan')

# residual alphabets (scaled to m entries below); 'lean' has ties, better and worse values, 'full' adds the bad values
LEAN = [(1.0, 2.0), (0.5, -1.0), (3.0, 0.0)]
FULL = [(1.0, 2.0), (-1.0, 2.0), (0.5, -1.0), (3.0, 0.0), (NAN, 1.0), (INF, 1.0), (1e200, -1e200), (0.0, 0.0)]
BADS = [(1.0, 2.0), (0.5, -1.0), (NAN, 1.0), (INF, -1.0)]


def h_l1(x):
    return 0.3 * float(np.sum(np.abs(x)))


class Config(object):
    def __init__(self, name, n, npt, m, grow, h=None, scaling=None, proj=False, box=True, ns0=1, vals=LEAN, r0=None, xs=None, precondition=True, x0=None):
        self.name, self.n, self.npt, self.m = name, n, npt, m
        self.grow = grow             # points filled in before the exploration starts
        self.h, self.scaling, self.proj, self.ns0, self.precondition = h, scaling, proj, ns0, precondition
        self.vals = [np.resize(np.array(v), m) for v in vals]
        self.svals = self.vals + [np.resize(np.array((0.25, -0.125)), m)]        # offered to the saved slot: the last one beats every point
        self.r0 = np.resize(np.array((2.0, 1.5) if r0 is None else r0), m)
        self.x0 = np.array([1.25, -0.7, 3.1][:n]) if x0 is None else np.array(x0, float)
        self.lo = self.x0 - 1.0 if box else np.full(n, -1e20)
        self.hi = self.x0 + 2.0 if box else np.full(n, 1e20)
        # steps relative to x0 (inside the box)
        self.xs = [np.resize(np.array(v), n) for v in (xs or [(0.5, -0.25), (-0.75, 0.5), (0.3, 0.7)])]

    def build(self):
        x0 = self.x0.copy()
        proj = None
        if self.proj:
            lo, hi = self.lo, self.hi
            proj = [lambda x: np.minimum(np.maximum(x, lo - 1.0), hi + 1.0), lambda x: np.minimum(np.maximum(x, lo), hi)]
        m = Model(self.npt, x0, self.r0.copy(), self.lo.copy(), self.hi.copy(), proj, self.ns0, h=self.h, precondition=self.precondition, do_logging=False, scaling_changes=self.scaling)
        s = Shadow(self.n, self.m, self.npt, self.x0, self.r0, self.ns0, self.lo, self.hi, self.h)
        for j in range(self.grow):
            self.apply(m, s, ('change', j + 1, j % len(self.xs), j % 2, True))
        return m, s

    # -- operations -------------------------------------------------------------------------------------
    def ops(self, s, kinds):
        npt = len(s.pts)
        out = []
        ks = list(range(npt)) + ([npt] if npt < s.cap else [])
        if 'change' in kinds:
            out += [('change', k, i, j, True) for k in ks for i in range(len(self.xs)) for j in range(len(self.vals))]
        if 'change1' in kinds:       # one position, all values
            out += [('change', k, 0, j, True) for k in ks for j in range(len(self.vals))]
        if 'nokopt' in kinds:
            out += [('change', k, 1, j, False) for k in ks for j in range(min(2, len(self.vals)))]
        if 'sample' in kinds:
            out += [('sample', k, j) for k in range(npt) for j in range(len(self.vals))]
        if 'add' in kinds and npt < 6:
            out += [('add', i, j) for i in range(len(self.xs)) for j in range(len(self.vals))]
        if 'add1' in kinds and npt < 6:
            out += [('add', 2, j) for j in range(len(self.vals))]
        if 'swap' in kinds:
            out += [('swap', a, b) for a in range(npt) for b in range(npt) if a <= b]
        if 'shift' in kinds:
            out += [('shift', 0), ('shift', 1)]
        if 'save' in kinds:
            out += [('save', 0, j, True) for j in range(len(self.svals))] + [('save', 1, 0, False), ('save', 1, len(self.vals), False)]
        if 'saveopt' in kinds:
            out += [('saveopt',)]
        if 'fit' in kinds:
            out += [('fit',)]
        return out

    def apply(self, m, s, op):
        """Executes op on the real model and on the shadow."""
        base = np.array(s.base)
        kind = op[0]
        if kind in ('change', 'add', 'sample', 'save'):
            s.counter += 1
        if kind == 'change':
            _, k, i, j, allow = op
            step = self.x0 + self.xs[i] - base
            oldk = int(m.kopt)
            old = float(m.objval[oldk])
            m.change_point(k, step.copy(), self.vals[j].copy(), s.counter, **({} if allow else dict(allow_kopt_update=False)))
            new = (tuple(self.x0 + self.xs[i]), (tuple(self.vals[j]),), s.counter)
            if k == len(s.pts):
                s.pts.append(new)
            else:
                s.pts[k] = new
            if not allow or (k == oldk and rank(sumsq(self.vals[j]) + hval(self.h, new[0], self.scaling)) > rank(old)):
                s.kopt_free = True
        elif kind == 'sample':
            _, k, j = op
            m.add_new_sample(k, rvec_extra=self.vals[j].copy())
            p = s.pts[k]
            s.pts[k] = (p[0], p[1] + (tuple(self.vals[j]),), p[2])
            s.kopt_free = False
        elif kind == 'add':
            _, i, j = op
            m.add_new_point((self.x0 + self.xs[i] - base).copy(), self.vals[j].copy(), s.counter)
            s.pts.append((tuple(self.x0 + self.xs[i]), (tuple(self.vals[j]),), s.counter))
            s.cap += 1
        elif kind == 'swap':
            _, a, b = op
            m.swap_points(a, b)
            s.pts[a], s.pts[b] = s.pts[b], s.pts[a]
        elif kind == 'shift':
            if op[1] == 0:
                sh = np.array(m.xopt(), float).copy()
            else:
                sh = np.resize(np.array([0.125, -0.0625, 0.3]), self.n)
            m.shift_base(sh.copy())
            s.base = tuple(base + sh)
        elif kind == 'save':
            _, i, j, absolute = op
            xa = self.x0 + self.xs[i] * (1.0 if absolute else 20.0)       # the relative form may have to be moved into the box
            m.save_point((xa if absolute else xa - base).copy(), self.svals[j].copy(), 1 + j, s.counter, x_in_abs_coords=absolute)
            if not absolute:
                xa = np.minimum(np.maximum(xa, self.lo), self.hi)
            self._save(s, xa, self.svals[j], 1 + j, s.counter)
        elif kind == 'saveopt':
            k = int(m.kopt)
            m.save_point(m.xopt(abs_coordinates=True), m.ropt(), m.nsamples[k], m.eval_num[k], x_in_abs_coords=True)
            self._save(s, np.array(s.pts[k][0]), np.array(m.fval_v[k], float), len(s.pts[k][1]), s.pts[k][2])
        elif kind == 'fit':
            ok = m.interpolate_mini_models_svd()[0]
            if ok:
                s.fit = (np.array(m.model_jac, copy=True), np.array(m.model_jac_eval_nums, copy=True))
        else:
            raise ValueError(kind)

    def _save(self, s, x, r, ns, ev):
        obj = sumsq(r) + hval(self.h, x, self.scaling)
        cand = [(tuple(x), tuple(r), obj, ns, ev, s.fit)]
        # ties (and anything as bad as NaN) may keep or replace the saved point
        if s.saved is None:
            s.saved = cand
        else:
            best = rank(s.saved[0][2])
            tol = 1e-12 * abs(best) if np.isfinite(best) else 0.0
            if rank(obj) < best - tol:
                s.saved = cand
            elif rank(obj) <= best + tol or (not np.isfinite(best) and not np.isfinite(rank(obj))):
                s.saved = s.saved + cand

    # -- the property -----------------------------------------------------------------------------------
    def judge(self, m, s):
        v = []
        npt = len(s.pts)
        if m.npt() != npt:
            return [('count', 'npt() is %s, %d points were set' % (m.npt(), npt))]
        base = np.array(s.base)
        xsc = 1.0 + np.max(np.abs(base)) + 20.0
        if not close(m.xbase, base, 64 * EPS, xsc):
            v.append(('base', 'xbase %s, expected %s' % (m.xbase, base)))
        if np.max(np.abs(self.lo)) < 1e10 and not (close(m.sl, self.lo - base, 64 * EPS, xsc) and close(m.su, self.hi - base, 64 * EPS, xsc)):
            v.append(('bounds', 'relative bounds %s %s, expected %s %s' % (m.sl, m.su, self.lo - base, self.hi - base)))
        obj = []
        for k in range(npt):
            x, rs, ev = s.pts[k]
            mean = s.mean(k)
            if not close(m.xpt(k, abs_coordinates=True), x, 64 * EPS, xsc) or not close(m.xbase + m.points[k], x, 64 * EPS, xsc):
                v.append(('point', 'point %d is %s, was set to %s' % (k, m.xpt(k, abs_coordinates=True), np.array(x))))
            fin = np.abs(np.array(rs)[np.isfinite(np.array(rs))])
            rsc = (np.max(fin) if fin.size else 1.0) + 1e-300
            if not close(m.fval_v[k], mean, 32 * EPS * len(rs), rsc) or not close(m.rvec(k), mean, 32 * EPS * len(rs), rsc):
                v.append(('mean', 'stored residual %s of point %d, mean of its %d samples is %s' % (m.fval_v[k], k, len(rs), mean)))
            if m.nsamples[k] != len(rs):
                v.append(('samples', 'point %d has sample count %s, expected %d' % (k, m.nsamples[k], len(rs))))
            if m.eval_num[k] != ev:
                v.append(('evalnum', 'point %d carries evaluation number %s, expected %d' % (k, m.eval_num[k], ev)))
            want = sumsq(np.asarray(m.fval_v[k], float)) + hval(self.h, x, self.scaling)
            if not close(m.objval[k], want, 1e-12, abs(want) if np.isfinite(want) else 1.0):
                v.append(('objective', 'stored objective %.17g of point %d, sum(resid^2)+h is %.17g' % (m.objval[k], k, want)))
            obj.append(rank(float(m.objval[k])))
        if v:
            return v
        kopt = int(m.kopt)
        if not 0 <= kopt < npt:
            return [('kopt', 'incumbent index %d of %d points' % (kopt, npt))]
        best = min(obj)
        if obj[kopt] <= best:
            s.kopt_free = False
        elif not s.kopt_free:
            v.append(('kopt', 'incumbent %d has objective %.17g, the smallest is %.17g at %d' % (kopt, obj[kopt], best, int(np.argmin(obj)))))
        if not close(m.xopt(abs_coordinates=True), s.pts[kopt][0], 64 * EPS, xsc) or not np.array_equal(m.ropt(), m.fval_v[kopt], equal_nan=True) \
                or not (m.objopt() == m.objval[kopt] or np.isnan(m.objval[kopt])):
            v.append(('incumbent', 'xopt/ropt/objopt do not describe point %d' % kopt))
        v += self.judge_final(m, s, kopt, obj[kopt], xsc)
        return v

    def judge_final(self, m, s, kopt, fopt, xsc):
        x, r, f, J, ns, ev, jev = m.get_final_results()
        cands = [(s.pts[kopt][0], np.array(m.fval_v[kopt], float), float(m.objval[kopt]), len(s.pts[kopt][1]), s.pts[kopt][2], s.fit)]
        cands += [(np.array(c[0]), np.array(c[1]), c[2], c[3], c[4], c[5]) for c in (s.saved or [])]
        best = min(rank(c[2]) for c in cands)
        tol = 1e-12 * abs(best) if np.isfinite(best) else 0.0
        ok = []
        for c in cands:
            if (rank(c[2]) <= best + tol) or not np.isfinite(best):
                ok.append(c)
        if np.isfinite(best) and not rank(float(f)) <= best + tol:
            return [('final', 'final result has objective %r, incumbent has %r, saved point(s) have %s' % (float(f), fopt, [c[2] for c in cands[1:]]))]
        why = []
        for c in ok:
            rsc = np.max(np.abs(np.nan_to_num(c[1], posinf=0, neginf=0))) + 1e-300
            w = None
            if not close(x, c[0], 64 * EPS, xsc):
                w = 'x'
            elif not close(r, c[1], 1e-13, rsc):
                w = 'residual'
            elif not close(f, c[2], 1e-12, abs(c[2]) if np.isfinite(c[2]) else 1.0):
                w = 'objective'
            elif int(ns) != c[3]:
                w = 'sample count %s (expected %s)' % (ns, c[3])
            elif int(ev) != c[4]:
                w = 'evaluation number %s (expected %s)' % (ev, c[4])
            elif c[5] is None and jev is not None:
                w = 'Jacobian evaluation numbers %s without any fit' % (jev,)
            elif c[5] is not None and (jev is None or not np.array_equal(jev, c[5][1]) or not close(J, c[5][0], 1e-13, 1e-300 + np.max(np.abs(c[5][0])))):
                w = 'Jacobian / its evaluation numbers %s (expected %s)' % (jev, c[5][1])
            if w is None:
                return []
            why.append(w)
        return [('final', 'final result mixes data of different points: wrong %s' % '; '.join(why))]


def xs1(*v):
    return [(a,) for a in v]


SC = (np.array([0.5, -2.0, 0.1]), np.array([4.0, 0.25, 2.0]))


def sc(n):
    return (SC[0][:n], SC[1][:n])


CONFIGS = {}
for _c in [
    Config('n1', 1, 2, 2, 1),
    Config('n1full', 1, 2, 2, 1, vals=FULL),
    Config('n1grow', 1, 2, 2, 0, vals=BADS),
    Config('n1m1', 1, 3, 1, 2, vals=[(1.0,), (-1.0,), (0.5,), (2.0,), (NAN,)]),
    Config('n2', 2, 3, 2, 2),
    Config('n2bad', 2, 3, 2, 2, vals=BADS),
    Config('n2grow0', 2, 3, 2, 0),
    Config('n2grow1', 2, 4, 3, 1),
    Config('n2reg', 2, 4, 2, 3, h=h_l1),
    Config('n2regscale', 2, 3, 2, 2, h=h_l1, scaling=sc(2), x0=(0.4, 0.5)),
    Config('n1regbad', 1, 2, 2, 1, h=h_l1, vals=BADS),
    Config('n2proj', 2, 3, 2, 2, proj=True),
    Config('n2free', 2, 3, 1, 2, box=False, vals=[(1.0,), (0.5,), (3.0,)]),
    Config('n1ns', 1, 2, 2, 1, ns0=3),
    Config('n1r0nan', 1, 2, 2, 0, r0=(NAN, 1.0), vals=BADS),
    Config('n1r0inf', 1, 2, 2, 0, r0=(INF, 1.0), vals=BADS),
    Config('n3', 3, 4, 2, 3, vals=LEAN[:2]),
    Config('n2big', 2, 5, 2, 4, vals=LEAN[:2], x0=(1e6, -3e5)),
]:
    CONFIGS[_c.name] = _c

ALL = ('change', 'nokopt', 'sample', 'add', 'swap', 'shift', 'save', 'saveopt', 'fit')
THIN = ('change1', 'sample', 'add1', 'swap', 'shift', 'save', 'saveopt', 'fit')
TINY = ('change1', 'sample', 'swap', 'shift', 'saveopt')


def replay_seq(cfg, seq):
    m, s = cfg.build()
    v = cfg.judge(m, s)
    if v:
        return v, m, s
    for op in seq:
        cfg.apply(m, s, op)
        v = cfg.judge(m, s)
        if v:
            return v, m, s
    return [], m, s


def explore(cfg, kinds, depth, first, o):
    """Depth-first over all operation sequences starting with `first`, merging equal states."""
    m, s = cfg.build()
    v = cfg.judge(m, s)
    if v:
        o.violation(v[0][0], '%s: initial state: %s' % (cfg.name, v[0][1]), dict(config=cfg.name, ops=[], cost=0))
        return
    seen = {}
    stack = [((), snapshot(m), s, [first] if first is not None else None)]
    while stack:
        seq, snap, sh, forced = stack.pop()
        for op in (forced if forced is not None else cfg.ops(sh, kinds)):
            restore(m, snap)
            t = sh.copy()
            o.transitions += 1
            full = seq + (op,)
            try:
                cfg.apply(m, t, op)
                v = cfg.judge(m, t)
            except Exception as e:
                v = [('exception', '%r' % (e,))]
            if v:
                o.violation(v[0][0], '%s after %s: %s' % (cfg.name, list(full), v[0][1]), dict(config=cfg.name, ops=[list(q) for q in full], cost=len(full)))
                continue
            key = t.key(m)
            left = depth - len(full)
            if len(full) <= 2 or o.transitions % 97 == 0:
                # the same sequence on a fresh object must end in the same state
                v2, m2, s2 = replay_seq(cfg, full)
                o.traces += 1
                if v2 or s2.key(m2) != key:
                    o.violation('replay', '%s after %s: a fresh model behaves differently: %s' % (cfg.name, list(full), v2), dict(config=cfg.name, ops=[list(q) for q in full], cost=len(full)))
                    continue
            if seen.get(key, -1) >= left:
                continue
            seen[key] = left
            o.states.add(key)
            if left > 0:
                stack.append((full, snapshot(m), t, None))
            if o.sample is None and left == 0:
                o.sample = dict(case=dict(config=cfg.name, ops=[list(q) for q in full]))
    o.n += 1


# ------------------------------------------------------------------------------------------------ live models inside runs

def install_live():
    """Watch the live model once per iteration (wrapping its fitting method): every stored point must agree with the recorded evaluations."""
    orig = Model.interpolate_mini_models_svd

    def wrapped(self, *a, **kw):
        rec = runner._HANDLER.rec
        if rec is not None and not getattr(rec, 'live_bad', None):
            judge_live(self, rec)
        return orig(self, *a, **kw)
    if not getattr(orig, '_mc', False):
        wrapped._mc = True
        Model.interpolate_mini_models_svd = wrapped


def judge_live(m, rec):
    sp = rec.spec
    rec.live_seen = getattr(rec, 'live_seen', 0) + 1
    bad = None
    pts = {}
    for ev, pt, k in rec.log_evals:
        pts.setdefault(pt, []).append(ev - 1)
    xsc = 1.0 + max([float(np.max(np.abs(x))) for x, _ in rec.calls[:1]] + [float(np.max(np.abs(m.xbase)))])
    for k in range(m.npt()):
        e = int(m.eval_num[k])
        if e not in pts:
            bad = ('live-evalnum', 'iteration %d: point %d carries evaluation number %d, points 1..%d exist' % (rec.live_seen, k, e, len(pts)))
            break
        idx = pts[e]
        if any(i >= len(rec.calls) or rec.calls[i][1] is None for i in idx):
            continue
        x = rec.calls[idx[0]][0]
        if m.scaling_changes is None:
            xs = m.xpt(k, abs_coordinates=True)
        else:
            xs = m.scaling_changes[0] + m.xpt(k, abs_coordinates=True) * m.scaling_changes[1]
        if not close(xs, x, 256 * EPS, xsc + float(np.max(np.abs(x)))):
            bad = ('live-point', 'iteration %d: stored point %d is %s, evaluation point %d was %s' % (rec.live_seen, k, xs, e, x))
            break
        rs = np.array([rec.calls[i][1] for i in idx])
        ns = int(m.nsamples[k])
        if ns != len(idx):
            bad = ('live-samples', 'iteration %d: stored point %d has sample count %d, evaluation point %d was sampled %d times' % (rec.live_seen, k, ns, e, len(idx)))
            break
        with np.errstate(all='ignore'):
            mean = np.mean(rs, axis=0) if len(idx) > 1 else rs[0]
        fin = np.abs(rs[np.isfinite(rs)])
        sc_ = (np.max(fin) if fin.size else 1.0) + 1e-300
        if not close(m.fval_v[k], mean, 64 * EPS * len(idx), sc_):
            bad = ('live-mean', 'iteration %d: stored residual %s of point %d, evaluation point %d returned %s' % (rec.live_seen, m.fval_v[k], k, e, mean))
            break
        want = sumsq(np.asarray(m.fval_v[k], float)) + runner.reg_value(sp, xs)
        if not close(m.objval[k], want, 1e-10, abs(want) + 1e-300 if np.isfinite(want) else 1.0):
            bad = ('live-objective', 'iteration %d: stored objective %.17g of point %d, sum(resid^2)+h is %.17g' % (rec.live_seen, m.objval[k], k, want))
            break
    if bad:
        rec.live_bad = bad


def judge_run(rec, o=None):
    if o is not None:
        o.count('live_iterations', getattr(rec, 'live_seen', 0))
    return [rec.live_bad] if getattr(rec, 'live_bad', None) else []


def replay(case):
    if 'ops' in case:
        return replay_seq(CONFIGS[case['config']], [tuple(q) for q in case['ops']])[0]
    install_live()
    return judge_run(common.execute(dict(case)))


def main():
    ck = Check('C17', 'model_checking',
               'a state is the model after a sequence of public operations (points, samples, saved point, incumbent, base, factorisation flag), merged when equal; every transition is executed on '
               'the real Model and compared with a shadow model; traces_validated counts the sequences replayed from a freshly built Model',
               ['the saved slot keeps the better of what it holds and what is offered (ties may go either way)', 'a point that was stored inside the box is compared unclipped'])
    T = ck.thorough
    plan = [('n1', ALL, 3), ('n1full', ALL, 2), ('n1grow', ALL, 3), ('n1m1', THIN, 2), ('n2', ALL, 2), ('n2bad', ALL, 2), ('n2grow0', ALL, 3), ('n2grow1', ALL, 2), ('n2reg', ALL, 2), ('n2regscale', ALL, 2),
            ('n1regbad', ALL, 2), ('n2proj', ALL, 2), ('n2free', ALL, 2), ('n1ns', ALL, 2), ('n1r0nan', ALL, 2), ('n1r0inf', ALL, 2), ('n3', ALL, 2), ('n2big', ALL, 2)]
    if T:
        plan = [(c, k, d + 1) for c, k, d in plan] + [(c, TINY, 5) for c in CONFIGS] + [('n1', TINY, 6)]
    else:
        plan += [('n1', TINY, 4), ('n1grow', TINY, 4), ('n2', TINY, 3), ('n2grow1', TINY, 3), ('n2grow0', TINY, 4), ('n1regbad', TINY, 3), ('n2reg', THIN, 2), ('n1r0nan', THIN, 3)]
    tasks = []
    for c, kinds, d in plan:
        cfg = CONFIGS[c]
        m, s = cfg.build()
        tasks += [(c, kinds, d, op) for op in cfg.ops(s, kinds)]

    def work(task):
        c, kinds, d, op = task
        o = Out()
        explore(CONFIGS[c], kinds, d, op, o)
        return o
    ck.space('operation sequences', work, tasks, 'all operation sequences on a Model: %s' % ', '.join('%s depth %d (%s)' % (c, d, 'all operations' if k is ALL else 'reduced alphabet') for c, k, d in plan))

    install_live()
    probs = ['lin2', 'rosen', 'sq1', 'under2'] if not T else list(configs.PROBLEMS)
    gs = [g for g in configs.GROUP_NAMES if g not in ('reg', 'diag', 'ovf', 'pre', 'tol', 'mf', 'noise', 'mu')]
    hot = ('bnd', 'npt', 'avg', 'rst', 'grow', 'regr', 'scal', 'proj', 'init', 'base')
    common.sweep(ck, 'live runs', judge_run, probs, gs, 2, only=lambda p, t: T or len(t) < 2 or (p == 'lin2' and all(x.split(':')[0] in hot for x in t)))
    common.sweep(ck, 'live restarts', judge_run, ['rosen'] if not T else probs, ['avg', 'npt', 'bnd', 'regr', 'grow', 'base', 'slow'], 2 if T else 1, 1, must=('rst:soft', 'rho:mid'))
    common.sweep(ck, 'live regularised', judge_run, ['lin2'], ['reg', 'bnd', 'scal', 'avg', 'npt'], 2, 1, only=lambda p, t: any(x in ('reg:l1', 'reg:l2') for x in t))
    common.nsamples_tree(ck, 'live sampling', judge_run, [('lin2', ()), ('rosen', ('rst:soft', 'rho:mid')), ('lin2', ('grow:one',))], 8 if T else 5, 2)
    ck.total.n = 0
    ck.finish()


if __name__ == '__main__':
    main()
