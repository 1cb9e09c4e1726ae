"""Per-property monitors: each maps a Record to a list of (kind, what) violations.  They look only at what a caller of
dfols.solve can observe: the arguments of the residual function, the returned result, the log and the diagnostic
table."""
import json
import math

import numpy as np

from . import boot  # noqa: F401
from .runner import reg_value, set_distance
import dfols

EPS = np.finfo(float).eps

FLAGS = {0: 'EXIT_SUCCESS', 1: 'EXIT_MAXFUN_WARNING', 2: 'EXIT_SLOW_WARNING', 3: 'EXIT_FALSE_SUCCESS_WARNING',
         5: 'EXIT_TR_INCREASE_WARNING', -1: 'EXIT_INPUT_ERROR', -2: 'EXIT_TR_INCREASE_ERROR', -3: 'EXIT_LINALG_ERROR',
         -4: 'EXIT_EVAL_ERROR'}


def s2(r):
    with np.errstate(all='ignore'):
        return float(np.dot(r, r))


def f2s(x):
    return np.array2string(np.asarray(x), precision=17)


def objective(spec, x, r):
    return s2(r) + reg_value(spec, x)


def xscale(rec):
    """Magnitude of the coordinates involved in base-point arithmetic, per component."""
    s = np.ones(rec.spec.n)
    for x, _ in rec.calls:
        if np.all(np.isfinite(x)):
            s = np.maximum(s, np.abs(x))
    if rec.spec.scaling:
        s = np.maximum(s, np.maximum(np.abs(rec.spec.xl), np.abs(rec.spec.xu)))
    return s


# ------------------------------------------------------------------------------------------------- C01

def c01(rec):
    v = []
    sp = rec.spec
    for k, (x, _) in enumerate(rec.calls):
        v += _in_box(sp, x, 'call %d' % (k + 1), 'eval-outside-bounds')
        if v:
            break
    if rec.soln is not None and rec.soln.x is not None:
        v += _in_box(sp, rec.soln.x, 'soln.x', 'result-outside-bounds')
    return v


def _in_box(sp, x, where, kind):
    if sp.xl is not None and not np.all(sp.xl <= x):
        j = int(np.argmax(~(sp.xl <= x)))
        return [(kind, '%s: x[%d]=%.17g < lower %.17g (by %.3g)' % (where, j, x[j], sp.xl[j], sp.xl[j] - x[j]))]
    if sp.xu is not None and not np.all(x <= sp.xu):
        j = int(np.argmax(~(x <= sp.xu)))
        return [(kind, '%s: x[%d]=%.17g > upper %.17g (by %.3g)' % (where, j, x[j], sp.xu[j], x[j] - sp.xu[j]))]
    return []


# ------------------------------------------------------------------------------------------------- C02

def c02(rec):
    v = []
    n = len(rec.calls)
    if n > rec.maxfun:
        v.append(('too-many-evals', '%d calls with maxfun=%d' % (n, rec.maxfun)))
    nums = [e for e, _, _ in rec.log_evals]
    if nums != list(range(1, len(nums) + 1)):
        v.append(('eval-numbering', 'logged evaluation numbers %s' % nums[:60]))
    if rec.exc is None and not rec.hang and len(nums) != n:
        v.append(('eval-numbering', '%d evaluations logged, %d made' % (len(nums), n)))
    pts = [p for _, p, _ in rec.log_evals]
    ok = (not pts or pts[0] == 1) and all(b in (a, a + 1) for a, b in zip(pts, pts[1:]))
    if not ok:
        v.append(('point-numbering', 'logged point numbers %s' % pts[:60]))
    groups = []
    for k, (e, p, made) in enumerate(rec.log_evals):
        if k >= n:
            break
        if groups and groups[-1][0] == p:
            groups[-1][1].append(k)
        else:
            groups.append((p, [k]))
    for p, ks in groups:
        x0 = rec.calls[ks[0]][0]
        for k in ks[1:]:
            if rec.calls[k][0].tobytes() != x0.tobytes():
                v.append(('point-not-identical', 'point %d: call %d at %s, call %d at %s' % (
                    p, ks[0] + 1, f2s(x0), k + 1, f2s(rec.calls[k][0]))))
    if rec.soln is not None and rec.soln.flag != -1:
        s = rec.soln
        if s.nf != n:
            v.append(('nf-wrong', 'soln.nf=%s, %d calls made' % (s.nf, n)))
        last = pts[-1] if pts else 0
        if s.nx != last:
            v.append(('nx-wrong', 'soln.nx=%s, last point number %d' % (s.nx, last)))
        if rec.spec.nsamp is None and s.nx != s.nf:
            v.append(('nx-wrong', 'no averaging but nx=%s nf=%s' % (s.nx, s.nf)))
    # number of samples per point
    for i, (p, ks) in enumerate(groups):
        want = 1
        if rec.spec.nsamp is not None:
            want = None
            for made, args, a in rec.ns_calls:
                if made <= ks[0]:
                    want = max(a, 1)
            if want is None:
                v.append(('nsamples-not-asked', 'point %d evaluated before nsamples was called' % p))
                continue
        got = len(ks)
        last_group = i == len(groups) - 1
        if got > want or (got < want and not (last_group and (n >= rec.maxfun or rec.exc is not None or rec.hang))):
            v.append(('sample-count', 'point %d got %d samples, nsamples asked for %d (call %d of %d)' % (
                p, got, want, ks[0] + 1, n)))
    return v


# ------------------------------------------------------------------------------------------------- C03

def _x_tol(rec):
    sp = rec.spec
    t = 64 * EPS * xscale(rec)
    return t


def c03(rec):
    s = rec.soln
    if s is None or s.flag == -1:
        return []
    v = []
    sp = rec.spec
    pts = rec.points()
    if s.x is None or s.resid is None:
        return [('no-solution', 'flag %s but x=%s resid=%s' % (s.flag, s.x, s.resid))]
    k = s.xmin_eval_num
    if k is None or int(k) != k or int(k) not in pts:
        v.append(('xmin-eval-num', 'xmin_eval_num=%s, evaluated points are 1..%d' % (k, len(pts))))
        return v
    idx = pts[int(k)]
    x = rec.calls[idx[0]][0]
    if not np.all(np.abs(s.x - x) <= _x_tol(rec)):
        v.append(('x-not-evaluated', 'soln.x=%s but point %d was %s (diff %s)' % (f2s(s.x), k, f2s(x), s.x - x)))
        return v
    rs = np.array([rec.calls[i][1] for i in idx])
    with np.errstate(all='ignore'):
        mean = rs[0] if len(rs) == 1 else np.mean(rs, axis=0)
        scale = np.max(np.abs(rs))
    if np.all(np.isfinite(rs)):
        if not (np.shape(s.resid) == np.shape(mean) and np.all(np.abs(s.resid - mean) <= 32 * EPS * scale)):
            v.append(('resid-not-mean', 'soln.resid=%s, mean of the %d samples at point %d is %s' % (
                f2s(s.resid), len(idx), k, f2s(mean))))
    elif not np.array_equal(np.isfinite(s.resid), np.isfinite(mean)):
        v.append(('resid-not-mean', 'soln.resid=%s, samples give %s' % (f2s(s.resid), f2s(mean))))
    want = s2(s.resid) + reg_value(sp, s.x)
    if not same_obj(s.obj, want, 1e-10):
        v.append(('obj-mismatch', 'soln.obj=%.17g but sum(resid^2)+h(x)=%.17g' % (s.obj, want)))
    return v


def same_obj(a, b, rel):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b or min(a, b) > 1e300
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-300


# ------------------------------------------------------------------------------------------------- C04

def c04(rec):
    s = rec.soln
    if s is None or s.flag == -1 or not rec.calls or rec.spec.nsamp is not None:
        return []
    best, kb = None, None
    for k, (x, r) in enumerate(rec.calls):
        if r is None:
            continue
        o = objective(rec.spec, x, r)
        if math.isfinite(o) and (best is None or o < best):
            best, kb = o, k
    if best is None:
        return []
    rel = 1e-10 + (64 * EPS * float(np.max(xscale(rec))) * 10 if rec.spec.reg is not None else 0.0)
    if not (float(s.obj) <= best + rel * abs(best)):
        return [('best-lost', 'soln.obj=%.17g, evaluation %d of %d had %.17g at %s (flag %s, %s)' % (
            s.obj, kb + 1, len(rec.calls), best, f2s(rec.calls[kb][0]), s.flag, s.msg))]
    return []


# ------------------------------------------------------------------------------------------------- C07

def c07(rec):
    v = []
    if rec.hang:
        return [('hang', 'no termination within the CPU limit; %d evaluations made' % len(rec.calls))]
    if rec.exc is not None:
        return [('raised', '%s: %s' % (type(rec.exc).__name__, rec.exc))]
    return v + wellformed(rec.soln)


def wellformed(s):
    v = []
    if not isinstance(s, dfols.OptimResults):
        return [('not-a-result', repr(s)[:200])]
    if s.flag not in FLAGS:
        v.append(('bad-flag', 'flag=%r' % (s.flag,)))
    if not (isinstance(s.msg, str) and s.msg.strip() and s.msg.split(':', 1)[-1].strip()):
        v.append(('empty-message', 'msg=%r' % (s.msg,)))
    elif s.msg.startswith('Unknown exit flag'):
        v.append(('empty-message', 'msg=%r' % (s.msg,)))
    try:
        t = str(s)
        if not isinstance(t, str) or not t:
            v.append(('print-fails', 'str() gave %r' % (t,)))
    except Exception as e:
        v.append(('print-fails', '%s: %s' % (type(e).__name__, e)))
    return v


# ------------------------------------------------------------------------------------------------- C08

def c08(rec, faulty, raise_on_nan=False):
    """faulty: set of call indices whose residual was replaced by a bad value."""
    if rec.hang:
        return [('hang', 'no termination within the CPU limit; %d evaluations made' % len(rec.calls))]
    if rec.exc is not None:
        if raise_on_nan and isinstance(rec.exc, np.linalg.LinAlgError):
            return []
        return [('raised', '%s: %s' % (type(rec.exc).__name__, rec.exc))]
    v = wellformed(rec.soln)
    v += [(k, w) for k, w in c01(rec)]
    v += [(k, w) for k, w in c02(rec) if k in ('too-many-evals', 'nf-wrong')]
    s = rec.soln
    if s.flag == -1:
        return v
    if s.x is None or not np.all(np.isfinite(s.x)):
        v.append(('x-not-finite', 'soln.x=%s' % (s.x,)))
        return v
    t = _x_tol(rec)
    if not any(np.all(np.abs(s.x - x) <= t) for x, _ in rec.calls):
        v.append(('x-not-evaluated', 'soln.x=%s is not one of the %d evaluated points' % (f2s(s.x), len(rec.calls))))
    if rec.spec.nsamp is None:
        first_bad = min(faulty) if faulty else len(rec.calls)
        fin = [objective(rec.spec, x, r) for x, r in rec.calls[:first_bad]]
        fin = [o for o in fin if math.isfinite(o)]
        if fin:
            best = min(fin)
            if not (float(s.obj) <= best * (1 + 1e-9)):
                v.append(('finite-best-displaced', 'finite best %.17g before the fault at call %d, soln.obj=%.17g' % (
                    best, first_bad + 1, s.obj)))
    else:
        if rec.calls and faulty and min(faulty) > 0:
            pts = rec.points()
            good = [p for p, ks in pts.items() if max(ks) < min(faulty)]
            if good and not math.isfinite(float(s.obj)):
                v.append(('finite-best-displaced', '%d points were finite before the fault, soln.obj=%s' % (
                    len(good), s.obj)))
    return v


# ------------------------------------------------------------------------------------------------- C10

def c10(rec):
    s = rec.soln
    if s is None or s.flag == -1:
        return []
    v = []
    sp = rec.spec
    msg = s.msg
    success = s.flag == 0
    if success and not math.isfinite(float(s.obj)):
        v.append(('success-nonfinite', 'flag %s (%s) with obj=%s' % (s.flag, msg, s.obj)))
    if 'sufficiently small' in msg:
        pts = rec.points()
        ks = pts.get(1, [0])
        rs = [rec.calls[k][1] for k in ks]
        f0 = s2(np.mean(rs, axis=0)) + reg_value(sp, rec.calls[0][0])
        tols = [max(sp.params.get('model.abs_tol', 1e-12), sp.params.get('model.rel_tol', 1e-20) * f0)]
        if not (float(s.obj) <= tols[0] * (1 + 1e-9)):
            v.append(('not-small', '"%s" with obj=%.17g > max(abs_tol, rel_tol*f(x0))=%.17g' % (msg, s.obj, tols[0])))
    if s.flag == 1 and s.nf != rec.maxfun:
        v.append(('maxfun-flag', 'max-evaluations warning with nf=%s, maxfun=%s' % (s.nf, rec.maxfun)))
    if s.flag == 1 and len(rec.calls) != rec.maxfun:
        v.append(('maxfun-flag', 'max-evaluations warning after %d calls, maxfun=%s' % (len(rec.calls), rec.maxfun)))
    if 'unsuccessful restarts' in msg:
        mu = sp.params.get('restarts.max_unsuccessful_restarts', 10)
        if s.nruns < mu:
            v.append(('unsuccessful-restarts', '"%s" with nruns=%s, max_unsuccessful_restarts=%s' % (msg, s.nruns, mu)))
        if not sp.params.get('restarts.use_restarts', sp.has_noise):
            v.append(('unsuccessful-restarts', '"%s" but restarts are disabled' % msg))
    if 'within noise level' in msg and sp.nsamp is None and sp.reg is None and rec.calls and (rec.truth or not rec.hard_restarts):
        # every interpolation point is an evaluated point: at least npt of the recorded objectives are within the noise level of the best
        P = lambda k, d: sp.params.get(k, d)
        fac = P('noise.scale_factor_for_quit', 1.0)
        if P('noise.additive_noise_level', None) is not None:
            lim = float(s.obj) + fac * P('noise.additive_noise_level', None)
        elif P('noise.multiplicative_noise_level', None) is not None:
            lim = float(s.obj) * (1 + fac * P('noise.multiplicative_noise_level', None))
        else:
            lim = math.inf
        near = sum(1 for x, r in rec.calls if s2(r) <= lim * (1 + 1e-9) + 1e-300)
        if near < (sp.npt or sp.n + 1):
            v.append(('not-within-noise', '"%s", but only %d of %d evaluations are within the noise level of soln.obj' % (msg, near, len(rec.calls))))
    lo = hi = 1 + rec.restarts
    if rec.soft_restarts and (s.flag == -3 or (s.flag in (0, 1) and (
            len(rec.calls) >= rec.maxfun or 'sufficiently small' in msg))):
        lo -= 1      # the last restart may have been cut short while being set up: either count is accepted
    if not (lo <= s.nruns <= hi):
        v.append(('nruns', 'nruns=%s but %d restarts were performed (flag %s, %s)' % (s.nruns, rec.restarts, s.flag,
                                                                                      msg)))
    if success and 'rho has reached rhoend' in msg and s.diagnostic_info is not None:
        df = s.diagnostic_info
        if len(df):
            sc = sp.params.get('restarts.rhoend_scale', 1.0)
            k = int(df['nruns'].iloc[-1])
            want = sp.rhoend * sc ** k
            rho = float(df['rho'].iloc[-1])
            if not abs(rho - want) <= 1e-12 * want:
                v.append(('rho-not-rhoend', '"%s" with last recorded rho=%.17g, rhoend=%.17g (run %d)' % (
                    msg, rho, want, k)))
        else:
            v.append(('rho-not-rhoend', '"%s" without any iteration' % msg))
    return v


# ------------------------------------------------------------------------------------------------- C11

def c11(rec, stats=None):
    s = rec.soln
    sp = rec.spec
    if s is None or s.flag == -1 or s.jacobian is None or sp.projections:
        return []
    if s.jacmin_eval_nums is None:
        return []
    nums = [int(k) for k in s.jacmin_eval_nums]
    if any(k == 0 for k in nums) or len(nums) < sp.n + 1:
        return []        # point set not fully initialised when the Jacobian was built
    v = []
    pts = rec.points()
    if any(k not in pts for k in nums):
        return [('jac-eval-nums', 'jacmin_eval_nums=%s, points evaluated 1..%d' % (nums, len(pts)))]
    if len(set(nums)) != len(nums):
        return [('jac-eval-nums', 'jacmin_eval_nums=%s repeats a point' % nums)]
    if np.shape(s.jacobian) != (sp.m, sp.n):
        return [('jac-shape', 'jacobian has shape %s' % (np.shape(s.jacobian),))]
    X = np.array([rec.calls[pts[k][0]][0] for k in nums])
    R = np.array([np.mean([rec.calls[i][1] for i in pts[k]], axis=0) for k in nums])
    if not (np.all(np.isfinite(R)) and np.all(np.isfinite(s.jacobian))):
        return []
    c = np.mean(X, axis=0)
    D = X - c
    if sp.scaling:
        w = sp.xu - sp.xl
    else:
        w = np.ones(sp.n)
    Ds = D / w
    big = np.max(np.abs(Ds))
    if big == 0.0:
        return []
    W = np.hstack([np.ones((len(nums), 1)), Ds / big])
    sv = np.linalg.svd(W, compute_uv=False)
    cond = sv[0] / sv[-1] if sv[-1] > 0 else np.inf
    # rounding of the coordinates themselves (base-point arithmetic), relative to the spread of the points
    xerr = 16 * EPS * np.max(xscale(rec) / w) / big
    unit = cond * (EPS * 100 + xerr * 4)
    if cond * cond * EPS > 1e-2 or unit * cond > 1e-2:
        if stats is not None:
            stats('c11_ill_conditioned')
        return []
    sol = np.linalg.lstsq(W, R, rcond=None)[0]
    J = (sol[1:, :].T / big) / w
    scaleR = np.max(np.abs(R - np.mean(R, axis=0))) + EPS * np.max(np.abs(R)) * 4
    # least-squares sensitivity: cond for the consistent part, cond^2 for the residual part
    res = np.max(np.abs(W.dot(sol) - R))
    tol = (unit * (scaleR + EPS * np.max(np.abs(R))) * (1 + cond * 0.0) + unit * cond * res
           + EPS * 100 * cond * np.max(np.abs(R))) / (big * w)
    if stats is not None:
        stats('c11_judged')
    diff = np.abs(s.jacobian - J)
    if not np.all(diff <= 20 * tol[None, :] + 1e-300):
        v.append(('jac-not-fit', 'soln.jacobian=%s, fit through points %s gives %s (max diff %.3g, tol %.3g, '
                                 'cond %.3g)' % (f2s(s.jacobian), nums, f2s(J), np.max(diff), 20 * np.min(tol), cond)))
    if sp.prob.A is not None and rec.truth:
        d2 = np.abs(s.jacobian - sp.prob.A)
        xe = 64 * EPS * cond * np.max(np.abs(sp.prob.A)) * np.max(xscale(rec)) / (big * w)
        if not np.all(d2 <= 20 * tol[None, :] + xe[None, :]):
            v.append(('jac-not-A', 'linear residuals, soln.jacobian=%s, A=%s (max diff %.3g)' % (
                f2s(s.jacobian), f2s(sp.prob.A), np.max(d2))))
    return v


# ------------------------------------------------------------------------------------------------- C18

COLUMNS = ['fk', 'rho', 'delta', 'interpolation_error', 'interpolation_condition_number',
           'interpolation_change_J_norm', 'interpolation_total_residual', 'poisedness', 'max_distance_xk', 'norm_gk',
           'norm_sk', 'nruns', 'nf', 'nx', 'npt', 'nsamples', 'iter_this_run', 'iters_total', 'iter_type', 'ratio',
           'slow_iter']


def c18(rec, deterministic=True):
    s = rec.soln
    if s is None or s.flag == -1:
        return []
    sp = rec.spec
    df = s.diagnostic_info
    if df is None:
        return [('no-table', 'save_diagnostic_info is on but diagnostic_info is None')]
    v = []
    cols = list(df.columns)
    want = list(COLUMNS)
    if sp.params.get('logging.save_xk'):
        want.append('xk')
    if sp.params.get('logging.save_rk'):
        want.append('rk')
    if sorted(cols) != sorted(want):
        return [('columns', 'columns %s, documented %s' % (sorted(cols), sorted(want)))]
    n = len(df)
    if n == 0:
        return []
    g = {c: df[c].tolist() for c in ('rho', 'delta', 'fk', 'nf', 'nx', 'npt', 'nruns', 'iters_total', 'iter_this_run')}
    rhobeg, rhoend = sp.rhobeg, sp.rhoend
    sc = sp.params.get('restarts.rhoend_scale', 1.0)
    reset = sp.params.get('growing.reset_rho', False)
    npt0 = sp.npt or sp.n + 1
    npt_max = npt0
    if sp.params.get('restarts.increase_npt'):
        npt_max = max(npt0, sp.params.get('restarts.max_npt', npt0))
    t = 1e-12
    for i in range(n):
        rho, delta, run = g['rho'][i], g['delta'][i], g['nruns'][i]
        at = 'row %d (run %s, iter %s): ' % (i, run, g['iter_this_run'][i])
        if not rho > 0:
            v.append(('rho-not-positive', at + 'rho=%r' % rho))
        if not delta >= rho * (1 - t):
            v.append(('delta-below-rho', at + 'delta=%.17g < rho=%.17g' % (delta, rho)))
        if not delta <= 1e10 * (1 + t):
            v.append(('delta-too-big', at + 'delta=%.17g' % delta))
        lo = min(rhoend * sc ** run, rhobeg)
        if not lo * (1 - t) <= rho <= max(rhobeg, 0) * (1 + t):
            v.append(('rho-range', at + 'rho=%.17g outside [rhoend=%.17g, rhobeg=%.17g]' % (rho, lo, rhobeg)))
        if g['iters_total'][i] != i:
            v.append(('iteration-numbers', at + 'iters_total=%s' % g['iters_total'][i]))
        if not 2 <= g['npt'][i] <= npt_max:
            v.append(('npt-range', at + 'npt=%s, allowed 2..%d' % (g['npt'][i], npt_max)))
        if not (0 < g['nf'][i] <= s.nf and 0 < g['nx'][i] <= s.nx and 0 <= run < s.nruns):
            v.append(('counters', at + 'nf=%s nx=%s nruns=%s, final %s %s %s' % (
                g['nf'][i], g['nx'][i], run, s.nf, s.nx, s.nruns)))
        if i:
            same = g['nruns'][i] == g['nruns'][i - 1]
            if g['nf'][i] < g['nf'][i - 1] or g['nx'][i] < g['nx'][i - 1] or g['nruns'][i] < g['nruns'][i - 1]:
                v.append(('counters', at + 'nf/nx/nruns decreased'))
            if same and g['iter_this_run'][i] != g['iter_this_run'][i - 1] + 1:
                v.append(('iteration-numbers', at + 'iter_this_run %s after %s' % (g['iter_this_run'][i],
                                                                                   g['iter_this_run'][i - 1])))
            if not same and g['iter_this_run'][i] != 0:
                v.append(('iteration-numbers', at + 'new run starts at iteration %s' % g['iter_this_run'][i]))
            if not same and g['nruns'][i] != g['nruns'][i - 1] + 1 and not rec.restarts > 1:
                v.append(('iteration-numbers', at + 'run number jumps from %s to %s' % (g['nruns'][i - 1],
                                                                                       g['nruns'][i])))
            if same and rho > g['rho'][i - 1] and not reset:
                v.append(('rho-increased', at + 'rho %.17g after %.17g' % (rho, g['rho'][i - 1])))
            if same and deterministic and sp.nsamp is None and g['fk'][i] > g['fk'][i - 1] * (1 + 1e-12):
                v.append(('fk-increased', at + 'fk=%.17g after %.17g' % (g['fk'][i], g['fk'][i - 1])))
            # from one run to the next as well; a hard restart may evaluate its starting point again (rounded, or with another answer)
            if not same and deterministic and sp.nsamp is None and (sp.params.get('restarts.use_soft_restarts', True) or rec.truth) and \
                    g['fk'][i] > g['fk'][i - 1] * (1 + 1e-7) + 1e-10:
                v.append(('fk-increased', at + 'fk=%.17g after %.17g at the end of the previous run' % (g['fk'][i], g['fk'][i - 1])))
        elif g['iter_this_run'][0] != 0:
            v.append(('iteration-numbers', at + 'first iter_this_run=%s' % g['iter_this_run'][0]))
    return v


# ------------------------------------------------------------------------------------------------- C19 helper

def fingerprint(rec):
    """Everything a caller can see, as bytes-comparable data."""
    s = rec.soln
    out = [('calls', [x.tobytes() for x, _ in rec.calls])]
    if rec.exc is not None:
        out.append(('exc', type(rec.exc).__name__))
    if s is not None:
        def b(a):
            return None if a is None else np.asarray(a).tobytes()
        out += [('x', b(s.x)), ('resid', b(s.resid)), ('obj', b(s.obj)), ('jacobian', b(s.jacobian)), ('nf', s.nf),
                ('nx', s.nx), ('nruns', s.nruns), ('flag', s.flag), ('msg', s.msg),
                ('xmin_eval_num', None if s.xmin_eval_num is None else int(s.xmin_eval_num)),
                ('jacmin_eval_nums', None if s.jacmin_eval_nums is None else [int(k) for k in s.jacmin_eval_nums])]
        if s.diagnostic_info is not None:
            out.append(('diag', s.diagnostic_info.to_json(double_precision=15)))
    return out


def diff_fingerprint(a, b):
    if len(a) != len(b):
        return 'different fields %s / %s' % ([k for k, _ in a], [k for k, _ in b])
    for (ka, va), (kb, vb) in zip(a, b):
        if ka != kb:
            return 'field %s/%s' % (ka, kb)
        if va != vb:
            if ka == 'calls':
                for i, (p, q) in enumerate(zip(va, vb)):
                    if p != q:
                        return 'evaluation %d: %s versus %s' % (i + 1, f2s(np.frombuffer(p)), f2s(np.frombuffer(q)))
                return '%d versus %d evaluations' % (len(va), len(vb))
            return 'field %s differs' % ka
    return None


__all__ = ['json', 'set_distance']
