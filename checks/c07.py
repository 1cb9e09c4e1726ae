"""C07: solve() returns a well-formed result for every documented input; invalid input is reported, not raised."""
import contextlib
import io
import itertools
import json

import numpy as np

from mc import boot, configs, monitors, runner   # noqa: F401
from mc.harness import Check, Hang, Out, cpu_limit, h64
from . import common
import dfols

EXIT_NAMES = ['EXIT_SUCCESS', 'EXIT_MAXFUN_WARNING', 'EXIT_SLOW_WARNING', 'EXIT_FALSE_SUCCESS_WARNING', 'EXIT_TR_INCREASE_WARNING',
              'EXIT_INPUT_ERROR', 'EXIT_TR_INCREASE_ERROR', 'EXIT_LINALG_ERROR', 'EXIT_EVAL_ERROR']

# The documented parameters (docs/advanced.rst): type, lower, upper, None allowed.  Values strictly outside the range or of the
# wrong type must be input errors; values inside must be accepted; end points may be either, but never an exception.
INF = float('inf')
F, I, B = 'float', 'int', 'bool'
PARAMS = {
 'general.rounding_error_constant': (F, 0, INF), 'general.safety_step_thresh': (F, 0, INF), 'general.check_objfun_for_overflow': (B,),
 'init.random_initial_directions': (B,), 'init.run_in_parallel': (B,), 'init.random_directions_make_orthogonal': (B,),
 'interpolation.precondition': (B,), 'interpolation.throw_error_on_nans': (B,),
 'logging.n_to_print_whole_x_vector': (I, 0, INF), 'logging.save_diagnostic_info': (B,), 'logging.save_poisedness': (B,),
 'logging.save_xk': (B,), 'logging.save_rk': (B,),
 'tr_radius.eta1': (F, 0, 1), 'tr_radius.eta2': (F, 0, 1), 'tr_radius.gamma_dec': (F, 0, 1), 'tr_radius.gamma_inc': (F, 1, INF),
 'tr_radius.gamma_inc_overline': (F, 1, INF), 'tr_radius.alpha1': (F, 0, 1), 'tr_radius.alpha2': (F, 0, 1),
 'model.abs_tol': (F, 0, INF), 'model.rel_tol': (F, 0, 1),
 'slow.history_for_slow': (I, 1, INF), 'slow.thresh_for_slow': (F, 0, INF), 'slow.max_slow_iters': (I, 0, INF),
 'noise.quit_on_noise_level': (B,), 'noise.scale_factor_for_quit': (F, 0, INF),
 'noise.multiplicative_noise_level': (F, 0, INF), 'noise.additive_noise_level': (F, 0, INF),
 'regression.num_extra_steps': (I, 0, INF), 'regression.increase_num_extra_steps_with_restart': (I, 0, INF),
 'regression.momentum_extra_steps': (B,),
 'restarts.use_restarts': (B,), 'restarts.max_unsuccessful_restarts': (I, 0, INF), 'restarts.rhoend_scale': (F, 0, INF),
 'restarts.use_soft_restarts': (B,), 'restarts.soft.num_geom_steps': (I, 0, INF), 'restarts.soft.move_xk': (B,),
 'restarts.soft.max_fake_successful_steps': (I, 1, INF), 'restarts.hard.use_old_rk': (B,), 'restarts.increase_npt': (B,),
 'restarts.increase_npt_amt': (I, 0, INF), 'restarts.hard.increase_ndirs_initial_amt': (I, 0, INF), 'restarts.max_npt': (I, 'npt', INF),
 'restarts.auto_detect': (B,), 'restarts.auto_detect.history': (I, 1, INF), 'restarts.auto_detect.min_chgJ_slope': (F, 0, INF),
 'restarts.auto_detect.min_correl': (F, 0, 1),
 'growing.ndirs_initial': (I, 1, 'npt-1'), 'growing.num_new_dirns_each_iter': (I, 0, INF), 'growing.delta_scale_new_dirns': (F, 0, INF),
 'growing.do_geom_steps': (B,), 'growing.reset_delta': (B,), 'growing.reset_rho': (B,), 'growing.gamma_dec': (F, 0, 1),
 'growing.safety.do_safety_step': (B,), 'growing.safety.reduce_delta': (B,), 'growing.safety.full_geom_step': (B,),
 'growing.full_rank.use_full_rank_interp': (B,), 'growing.full_rank.scale_factor': (F, 0, INF), 'growing.full_rank.svd_scale_factor': (F, 0, 1),
 'growing.full_rank.min_sing_val': (F, 0, 1), 'growing.full_rank.svd_max_jac_cond': (F, 1, INF), 'growing.perturb_trust_region_step': (B,),
 'dykstra.d_tol': (F, 0, INF), 'dykstra.max_iters': (I, 1, INF), 'matrix_rank.r_tol': (F, 0, INF),
 'func_tol.criticality_measure': (F, 0, 1), 'func_tol.tr_step': (F, 0, 1), 'func_tol.max_iters': (I, 1, INF), 'sfista.max_iters_scaling': (F, 1, INF),
}
# in-range values which contradict another option's default
MAY_CONTRADICT = {('init.run_in_parallel', True), ('growing.perturb_trust_region_step', True), ('growing.reset_rho', True)}


def values(key, npt):
    """[(value, 'in' | 'edge' | 'out')]; wrong types are 'out'."""
    d = PARAMS[key]
    if d[0] == B:
        return [(True, 'in'), (False, 'in'), (1, 'out'), (0.0, 'out'), ('True', 'out'), ([True], 'out')]
    lo = {'npt': npt}.get(d[1], d[1])
    hi = {'npt-1': npt - 1}.get(d[2], d[2])
    if d[0] == I:
        v = [(lo, 'in'), (lo - 1, 'out'), (-7, 'out'), (1.5, 'out'), (2.0, 'out'), ('a', 'out'), ([1], 'out'), (float('nan'), 'out')]
        v += [(x, 'in') for x in (lo + 1, lo + 2, lo + 9) if x <= hi]
        if hi < INF:
            v += [(hi, 'in'), (hi + 1, 'out'), (hi + 10, 'out')]
        else:
            v += [(1000, 'in')]
        return v
    v = [(float(lo), 'edge'), (lo - 1e-9, 'out'), (lo - 1.0, 'out'), ('a', 'out'), ([0.5], 'out'), (0.5 + 1j, 'out'), (float('nan'), 'out'), (float('-inf'), 'out')]
    if hi < INF:
        v += [(lo + f * (hi - lo), 'in') for f in (1e-6, 0.05, 0.5, 0.93)]
        v += [(float(hi), 'edge'), (hi + 1e-9, 'out'), (hi + 1.0, 'out'), (float('inf'), 'out')]
    else:
        v += [(lo + x, 'in') for x in (1e-12, 1e-4, 0.3, 1.0, 5.0, 1e6, 1e15)]
    return v


CONTEXTS = [('lin2', ()), ('rosen', ('rst:soft', 'rho:mid')), ('lin2', ('rst:hold', 'rho:mid')), ('under2', ('grow:one',)), ('rosen', ('avg:2', 'npt:2n1')),
            ('lin2', ('proj:two',)), ('lin2', ('reg:l1',)), ('lin2', ('noise:flag', 'rho:mid')), ('lin2', ('bnd:active', 'scal:on')),
            ('rosen', ('rst:incnpt', 'rho:mid', 'grow:one')), ('lin2', ('npt:big', 'regr:1')), ('under2', ('rst:hincnpt', 'rho:mid'))]


def judge(rec, o):
    v = monitors.c07(rec)
    if rec.soln is not None:
        v += constants(rec.soln)
    return v


def judge_valid(rec, o):
    """For cases known to be inside the documented domain (configs.valid)."""
    v = judge(rec, o)
    if rec.soln is not None and rec.soln.flag == -1 and configs.valid(rec.spec):
        v.append(('rejected-good-input', rec.soln.msg))
    return v


def constants(s):
    v = []
    vals = []
    for nm in EXIT_NAMES:
        if not hasattr(s, nm):
            v.append(('no-exit-constant', 'the result has no %s' % nm))
        else:
            vals.append(getattr(s, nm))
    if len(set(vals)) != len(vals):
        v.append(('exit-constants', 'documented exit codes are not distinct: %s' % vals))
    if s.flag not in vals:
        v.append(('bad-flag', 'flag %r is not one of the documented codes' % (s.flag,)))
    return v


def expect(rec, o, what):
    """what: 'in' (must not be an input error), 'edge' (any well-formed result), 'out' (must be an input error)."""
    v = judge(rec, o)
    if rec.soln is None:
        return v
    bad = rec.soln.flag == rec.soln.EXIT_INPUT_ERROR if hasattr(rec.soln, 'EXIT_INPUT_ERROR') else rec.soln.flag == -1
    if what == 'out':
        if not bad:
            v.append(('accepted-bad-input', 'flag %s (%s) after %d evaluations' % (rec.soln.flag, rec.soln.msg, len(rec.calls))))
        elif rec.calls or rec.soln.nf != 0:
            v.append(('evaluated-on-bad-input', '%d evaluations, soln.nf=%s' % (len(rec.calls), rec.soln.nf)))
    elif what == 'in' and bad:
        v.append(('rejected-good-input', rec.soln.msg))
    elif bad and rec.calls:
        v.append(('evaluated-on-bad-input', '%d evaluations, soln.nf=%s' % (len(rec.calls), rec.soln.nf)))
    return v


def enc(v):
    return [v.real, v.imag, 'complex'] if isinstance(v, complex) else v


def dec(v):
    return complex(v[0], v[1]) if isinstance(v, (list, tuple)) and len(v) == 3 and v[2] == 'complex' else v


def param_case(case, o):
    p, tg, key, val, what = case['problem'], case['toggles'], case['key'], dec(case['value']), case['expect']
    sp = configs.spec_of(p, tg)
    if key in sp.params:
        del sp.params[key]
    rec = common.execute(dict(case, params={key: val}), spec=sp, cpu=30)
    o.count(what)
    return rec, expect(rec, o, what)


def param_tasks(thorough):
    out = []
    for p, tg in CONTEXTS:
        sp = configs.spec_of(p, tg)
        npt = sp.npt or sp.n + 1
        for key in PARAMS:
            for val, what in values(key, npt):
                if what == 'in' and ((key, val) in MAY_CONTRADICT or not consistent(sp, {key: val})):
                    what = 'edge'
                out.append(dict(problem=p, toggles=list(tg), key=key, value=enc(val), expect=what, maxfun=sp.maxfun, cost=len(tg)))
    return out


def consistent(sp, extra):
    P = dict(sp.params, **extra)
    g = P.get
    if g('growing.safety.full_geom_step') and g('growing.safety.reduce_delta'):
        return False
    if g('growing.perturb_trust_region_step') and g('growing.full_rank.use_full_rank_interp', True):
        return False
    if g('noise.quit_on_noise_level', sp.has_noise) and g('noise.multiplicative_noise_level') is not None and g('noise.additive_noise_level') is not None:
        return False
    if g('init.run_in_parallel') and not g('init.random_initial_directions'):
        return False
    if g('growing.reset_rho') and not g('growing.reset_delta'):
        return False
    return True


# ------------------------------------------------------------------------------------------------ arguments of solve()

def _f(x, *a):
    return np.array([x[0] - 1.0, x[1] + 2.0, x[0] * x[1]])


def _h(x, *a):
    return 0.3 * np.sum(np.abs(x))


def _prox(x, u, *a):
    return np.sign(x) * np.maximum(np.abs(x) - 0.3 * u, 0.0)


def _a(*v):
    return np.array(v, dtype=float)


NAN = float('nan')
# argument group -> list of (label, kwargs, status); status in/out/may
ARGS = {
 'rhobeg': [('0.05', dict(rhobeg=0.05), 'in'), ('1.0', dict(rhobeg=1.0), 'in'), ('int', dict(rhobeg=1), 'in'), ('0', dict(rhobeg=0.0), 'out'), ('-0.1', dict(rhobeg=-0.1), 'out'), ('nan', dict(rhobeg=NAN), 'out'), ('inf', dict(rhobeg=INF), 'out'), ('tiny', dict(rhobeg=1e-2 + 1e-17), 'in'), ('above', dict(rhobeg=np.nextafter(1e-2, 1)), 'in'), ('below', dict(rhobeg=np.nextafter(1e-2, 0)), 'in'), ('np', dict(rhobeg=np.float64(0.05)), 'in')],
 'rhoend': [('1e-6', dict(rhoend=1e-6), 'in'), ('0.07', dict(rhoend=0.07), 'in'), ('0', dict(rhoend=0.0), 'out'), ('-1', dict(rhoend=-1.0), 'out'), ('nan', dict(rhoend=NAN), 'out'), ('2.0', dict(rhoend=2.0), 'in'), ('0.05', dict(rhoend=0.05), 'in'), ('0.1', dict(rhoend=0.1), 'in'), ('1.0', dict(rhoend=1.0), 'in'), ('0.1-', dict(rhoend=np.nextafter(0.1, 0)), 'in'), ('0.1+', dict(rhoend=np.nextafter(0.1, 1)), 'in'), ('inf', dict(rhoend=INF), 'in')],
 'npt': [('4', dict(npt=4), 'in'), ('5', dict(npt=5), 'in'), ('6', dict(npt=6), 'in'), ('9', dict(npt=9), 'in'), ('np.int64', dict(npt=np.int64(4)), 'in'), ('2', dict(npt=2), 'out'), ('0', dict(npt=0), 'out'), ('-3', dict(npt=-3), 'out')],
 'maxfun': [('1', dict(maxfun=1), 'in'), ('2', dict(maxfun=2), 'in'), ('3', dict(maxfun=3), 'in'), ('4', dict(maxfun=4), 'in'), ('0', dict(maxfun=0), 'out'), ('-1', dict(maxfun=-1), 'out')],
 'reg': [('l1', dict(h=_h, lh=0.5, prox_uh=_prox), 'in'), ('no lh', dict(h=_h, prox_uh=_prox), 'out'), ('lh 0', dict(h=_h, lh=0.0, prox_uh=_prox), 'out'), ('lh -1', dict(h=_h, lh=-1.0, prox_uh=_prox), 'out'),
         ('lh nan', dict(h=_h, lh=NAN, prox_uh=_prox), 'out'), ('no prox', dict(h=_h, lh=0.5), 'out'), ('h only', dict(h=_h), 'out'), ('lh inf', dict(h=_h, lh=INF, prox_uh=_prox), 'out'), ('lh int', dict(h=_h, lh=1, prox_uh=_prox), 'in'),
         ('lh np', dict(h=_h, lh=np.float64(0.5), prox_uh=_prox), 'in'), ('no h', dict(lh=0.5, prox_uh=_prox), 'in'), ('no h2', dict(lh=-1.0), 'may'), ('no h3', dict(prox_uh=_prox), 'in')],
 'argsf': [('one', dict(argsf=(1.0,)), 'in'), ('none', dict(argsf=()), 'in')],
 'argsh': [('one', dict(argsh=(1.0,)), 'in'), ('zero', dict(argsh=(0.0,)), 'in')],
 'argsprox': [('one', dict(argsprox=(1.0,)), 'in'), ('two', dict(argsprox=(0.0, 'a')), 'in')],
 'bounds': [('box', dict(bounds=(_a(0, 0), _a(3, 3))), 'in'), ('lower', dict(bounds=(_a(0.25, 0.1), None)), 'in'), ('upper', dict(bounds=(None, _a(0.5, 0.5))), 'in'), ('none', dict(bounds=(None, None)), 'in'),
            ('inf', dict(bounds=(_a(-INF, 0), _a(INF, INF))), 'in'), ('ints', dict(bounds=(np.array([0, 0]), np.array([4, 4]))), 'in'), ('away', dict(bounds=(_a(5, -9), _a(8, -6))), 'in'),
            ('reversed', dict(bounds=(_a(3, 3), _a(0, 0))), 'out'), ('equal', dict(bounds=(_a(0, 1), _a(3, 1))), 'out'), ('shape', dict(bounds=(_a(0), _a(3, 3))), 'out'), ('shape2', dict(bounds=(_a(0, 0), _a(3, 3, 3))), 'out'),
            ('nan', dict(bounds=(_a(0, NAN), _a(3, 3))), 'out'), ('narrow', dict(bounds=(_a(0, 0), _a(3, 0.19))), 'narrow'), ('reversed one', dict(bounds=(_a(0, 3), _a(3, 0))), 'out')],
 'scaling': [('on', dict(scaling_within_bounds=True), 'in')],
 'proj': [('ball', dict(projections=[lambda x: np.asarray(x) * min(1.0, 4.0 / max(np.linalg.norm(x), 1e-300))]), 'in')],
 'noise': [('on', dict(objfun_has_noise=True), 'in')],
 'x0': [('int', dict(x0=np.array([1, 2])), 'in'), ('edge', dict(x0=_a(0.0, 3.0)), 'in'), ('far', dict(x0=_a(40.0, -3.0)), 'in'), ('nan', dict(x0=_a(NAN, 1.0)), 'out'), ('inf', dict(x0=_a(INF, 1.0)), 'may'), ('-inf', dict(x0=_a(0.0, -INF)), 'may'), ('2d', dict(x0=np.array([[0.3, 0.4]])), 'out'), ('2d2', dict(x0=np.array([[0.3], [0.4]])), 'out')],
 'print': [('on', dict(print_progress=True), 'in')],
 'log': [('off', dict(do_logging=False), 'in')],
 'nsamples': [('2', dict(nsamples=lambda d, r, i, k: 2), 'in')],
 'params': [('restarts', {'restarts.use_restarts': True}, 'in'), ('diag', {'logging.save_diagnostic_info': True, 'logging.save_xk': True, 'logging.save_rk': True}, 'in'),
            ('empty', {}, 'in'), ('both safety', {'growing.safety.full_geom_step': True, 'growing.safety.reduce_delta': True}, 'out'),
            ('both rank', {'growing.full_rank.use_full_rank_interp': True, 'growing.perturb_trust_region_step': True}, 'out'),
            ('both noise', {'noise.quit_on_noise_level': True, 'noise.additive_noise_level': 0.1, 'noise.multiplicative_noise_level': 0.1}, 'out'),
            ('rho no delta', {'growing.reset_rho': True}, 'out'), ('bad range', {'tr_radius.gamma_dec': 1.5}, 'out'), ('bad type', {'slow.history_for_slow': 'five'}, 'out'),
            ('two bad', {'tr_radius.eta1': -1.0, 'model.abs_tol': 'x'}, 'out'), ('unknown', {'restarts.use_restart': True}, 'unknown'), ('unknown2', {'': 1}, 'unknown'), ('max_npt small', {'restarts.max_npt': 2}, 'out'),
            ('parallel', {'init.run_in_parallel': True}, 'may'), ('many dirs', {'growing.ndirs_initial': 8}, 'may'), ('one dir', {'growing.ndirs_initial': 1}, 'in')],
}


def arg_case(labels):
    kw = dict(x0=_a(0.3, 0.4), rhoend=1e-2, maxfun=18)
    status = 'in'
    unknown = False
    for g, lab in labels:
        _, d, st = [t for t in ARGS[g] if t[0] == lab][0]
        if g == 'params':
            kw['user_params'] = dict(d)
        else:
            kw.update(d)
        if st == 'unknown':
            unknown = True
        elif st == 'out':
            status = 'out'
        elif st == 'may' and status == 'in':
            status = 'may'
    if status != 'out':
        st2 = consistency(kw)
        status = st2 if status == 'in' or st2 == 'out' else status
    return kw, status, unknown


def consistency(kw):
    """Expected status of a combination of individually valid arguments."""
    x0 = np.asarray(kw['x0'], dtype=float)
    b = kw.get('bounds', (None, None))
    full = b[0] is not None and b[1] is not None
    proj = 'projections' in kw
    scaled = bool(kw.get('scaling_within_bounds') and full and not proj and np.all(np.isfinite(b[0])) and np.all(np.isfinite(b[1])))
    rb = kw.get('rhobeg')
    if rb is None:
        rb = 0.1 if scaled else 0.1 * max(np.max(np.abs(x0)), 1.0)
    if rb <= kw['rhoend']:
        return 'out'
    gap = INF
    if full:
        gap = 1.0 if scaled else float(np.min(np.asarray(b[1], float) - np.asarray(b[0], float)))
    if gap < 2.0 * rb * (1 - 1e-12):
        return 'may' if proj else 'out'
    if proj and full and labels_away(b):
        return 'may'
    up = kw.get('user_params') or {}
    npt = kw.get('npt', 3)
    if up.get('growing.ndirs_initial', 1) > npt - 1:
        return 'out'
    return 'in'


def labels_away(b):
    return float(np.min(np.abs(np.asarray(b[0], float)))) > 4.0


def run_args(labels):
    """-> (violations, behaviour hash, evaluations)"""
    kw, status, unknown = arg_case(labels)
    calls = []
    v = []
    x0 = kw.pop('x0')

    def f(x, *a):
        calls.append(np.array(x))
        return _f(x)
    np.random.seed(0)
    out = io.StringIO()
    s = exc = None
    try:
        with contextlib.redirect_stdout(out), cpu_limit(20):
            s = dfols.solve(f, x0, **kw)
    except Hang:
        return [('hang', 'no termination; %d evaluations' % len(calls))], h64('hang'), len(calls)
    except Exception as e:
        exc = e
    if unknown:
        if exc is None and s is not None and (s.flag != -1):
            v.append(('unknown-parameter-accepted', 'flag %s (%s)' % (s.flag, s.msg)))
        elif exc is not None and not isinstance(exc, ValueError):
            v.append(('raised', 'unknown parameter: %s: %s' % (type(exc).__name__, exc)))
        elif exc is None and status == 'in':
            v.append(('unknown-parameter-accepted', 'no ValueError, flag %s (%s)' % (s.flag, s.msg)))
        if calls:
            v.append(('evaluated-on-bad-input', '%d evaluations' % len(calls)))
    elif exc is not None:
        v.append(('raised', '%s: %s' % (type(exc).__name__, exc)))
    else:
        v += monitors.wellformed(s) + constants(s)
        bad = s.flag == getattr(s, 'EXIT_INPUT_ERROR', -1)
        if status == 'out' and not bad:
            v.append(('accepted-bad-input', 'flag %s (%s) after %d evaluations' % (s.flag, s.msg, len(calls))))
        if status == 'in' and bad:
            v.append(('rejected-good-input', s.msg))
        if bad and (calls or s.nf != 0):
            v.append(('evaluated-on-bad-input', '%d evaluations, soln.nf=%s' % (len(calls), s.nf)))
    return v, h64(b''.join(c.tobytes() for c in calls), None if s is None else (s.flag, s.msg), type(exc).__name__), len(calls)


def work_args(task):
    o = Out()
    for labels in task:
        v, hsh, k = run_args(labels)
        o.n += 1
        o.transitions += k
        o.states.add(hsh)
        o.count(arg_case(labels)[1])
        for kind, what in v:
            o.violation(kind, 'solve(%s): %s' % (', '.join('%s=%s' % t for t in labels), what), dict(args=[list(t) for t in labels], cost=len(labels)))
        if o.sample is None:
            o.sample = dict(arguments=[list(t) for t in labels], evaluations=k)
    return o


def arg_tasks(k):
    gs = list(ARGS)
    out = [()]
    for r in range(1, k + 1):
        for c in itertools.combinations(gs, r):
            for vals in itertools.product(*[[t[0] for t in ARGS[g]] for g in c]):
                out.append(tuple(zip(c, vals)))
    return out


# ---------------------------------------------------------------------------------------- contradictory options, exhaustively
TRI = (None, True, False)
FAMILIES = [('growing.reset_rho', 'growing.reset_delta'), ('growing.safety.full_geom_step', 'growing.safety.reduce_delta'),
            ('growing.full_rank.use_full_rank_interp', 'growing.perturb_trust_region_step'), ('init.run_in_parallel', 'init.random_initial_directions')]
NOISE_LEVELS = (None, 0.0, 0.1)
CONTRA = [('lin2', ()), ('lin2', ('noise:flag',)), ('lin2', ('grow:one',)), ('under3', ('grow:one',)), ('lin3', ('npt:2n1', 'noise:flag', 'avg:2')), ('lin2', ('proj:ball',)), ('lin2', ('reg:l1',)),
          ('lin2', ('rst:hold', 'rho:mid')), ('under3', ('noise:flag', 'grow:one', 'rst:soft'))]


def family_values():
    out = []
    for a, b in FAMILIES:
        out.append([dict((k, v) for k, v in ((a, x), (b, y)) if v is not None) for x in TRI for y in TRI])
    out.append([dict((k, v) for k, v in (('noise.quit_on_noise_level', q), ('noise.additive_noise_level', x), ('noise.multiplicative_noise_level', y)) if v is not None)
                for q in TRI for x in NOISE_LEVELS for y in NOISE_LEVELS])
    return out


def contra_tasks(thorough):
    fv = family_values()
    for p, tg in CONTRA:
        seen = set()
        for i, j in itertools.combinations(range(len(fv)), 2):
            for a in fv[i]:
                for b in fv[j]:
                    d = dict(a, **b)
                    key = json.dumps(d, sort_keys=True)
                    if key not in seen:
                        seen.add(key)
                        yield dict(problem=p, toggles=list(tg), contra=d, maxfun=24, cost=len(d))
        if thorough:
            for t in itertools.product(*fv[:4]):
                d = {}
                for x in t:
                    d.update(x)
                key = json.dumps(d, sort_keys=True)
                if key not in seen:
                    seen.add(key)
                    yield dict(problem=p, toggles=list(tg), contra=d, maxfun=24, cost=len(d))


def contra_case(case, o):
    """Every contradiction the documentation names is an input error, every other combination is accepted."""
    sp = configs.spec_of(case['problem'], case['toggles'])
    P = dict(case['contra'])
    for k in P:
        sp.params.pop(k, None)
    rec = common.execute(dict(case, params=P), spec=sp, cpu=30)
    g = dict(sp.params, **P).get
    full = dict(sp.params, **P)
    use_full = g('growing.full_rank.use_full_rank_interp')
    perturb = g('growing.perturb_trust_region_step')
    what = 'in' if consistent(sp, P) else 'out'
    # the defaults of this pair depend on whether there are fewer residuals than variables, and are not meant to clash
    if (use_full is None) != (perturb is None) and (perturb or use_full):
        what = 'edge' if what == 'in' or not (g('growing.safety.full_geom_step') and g('growing.safety.reduce_delta')) else what
        if what == 'edge':
            rest = {k: v for k, v in full.items() if k not in ('growing.full_rank.use_full_rank_interp', 'growing.perturb_trust_region_step')}
            if not consistent_rest(sp, rest):
                what = 'out'
    if what == 'in' and g('noise.additive_noise_level') is not None and g('noise.multiplicative_noise_level') is not None:
        what = 'edge'            # two levels, but no use for either
    o.count(what)
    return rec, expect(rec, o, what)


def consistent_rest(sp, P):
    class S(object):
        params = P
        has_noise = sp.has_noise
    return consistent(S, {})


def work_contra(task):
    o = Out()
    for case in task:
        rec, v = contra_case(case, o)
        o.n += 1
        o.transitions += len(rec.calls)
        o.states.add(h64(json.dumps(case['contra'], sort_keys=True), common.behaviour(rec)))
        for kind, what in v:
            o.violation(kind, '%s %s with %s: %s' % (case['problem'], ','.join(case['toggles']), case['contra'], what), dict(case))
        if o.sample is None:
            o.sample = dict(case=dict(case), evaluations=len(rec.calls))
    return o


def work_params(task):
    o = Out()
    for case in task:
        rec, v = param_case(case, o)
        o.n += 1
        o.transitions += len(rec.calls)
        o.states.add(h64(case['key'], repr(case['value']), common.behaviour(rec)))
        for kind, what in v:
            o.violation(kind, '%s %s with %s=%r: %s' % (case['problem'], ','.join(case['toggles']), case['key'], case['value'], what), dict(case))
        if o.sample is None:
            o.sample = dict(case=dict(case), evaluations=len(rec.calls))
    return o


def pair_tasks():
    """Pairs of in-range/edge values of different parameters (thorough)."""
    for p, tg in CONTEXTS[:4]:
        sp = configs.spec_of(p, tg)
        npt = sp.npt or sp.n + 1
        vals = {k: [v for v, w in values(k, npt) if w in ('in', 'edge')][:4] for k in PARAMS}
        for a, b in itertools.combinations(PARAMS, 2):
            for va in vals[a]:
                for vb in vals[b]:
                    yield dict(problem=p, toggles=list(tg), over_params={a: va, b: vb}, maxfun=30)


def work_pairs(task):
    o = Out()
    for case in task:
        sp = configs.spec_of(case['problem'], case['toggles'])
        for k in case['over_params']:
            sp.params.pop(k, None)
        rec = common.execute(dict(case, params=case['over_params']), spec=sp, cpu=30)
        common.account(o, rec, judge, case)
    return o


def replay(case):
    o = Out()
    if 'args' in case:
        return run_args([tuple(t) for t in case['args']])[0]
    if 'key' in case:
        return param_case(case, o)[1]
    if 'contra' in case:
        return contra_case(case, o)[1]
    if 'over_params' in case:
        sp = configs.spec_of(case['problem'], case['toggles'])
        for k in case['over_params']:
            sp.params.pop(k, None)
        return judge(common.execute(dict(case, params=case['over_params']), spec=sp, cpu=30), o)
    return judge_valid(common.execute(case), o)


def main():
    ck = Check('C07', 'exploration',
               'a case is one call of solve(); distinct and non-trivial if (evaluation points, exit flag, message, exception) differ from all others '
               'of its space',
               ['end points of a parameter range may be accepted or rejected (the documentation does not say); the result must be well formed either way',
                'an unexpected None value for a parameter means "use the default", as in the code',
                'hangs are detected by a CPU-time limit of 20-30 s per call (typical calls take milliseconds)'])
    T = ck.thorough
    at = arg_tasks(3 if T else 2)
    ck.space('arguments', work_args, common.chunks(at, 24), 'all combinations of at most %d argument deviations from the alphabet ARGS (%d values in %d groups)' % (
        3 if T else 2, sum(len(v) for v in ARGS.values()), len(ARGS)))
    pt = param_tasks(T)
    ck.space('user_params', work_params, common.chunks(pt, 16), 'every documented parameter x its in-range, boundary, out-of-range and wrong-type values x %d contexts' % len(CONTEXTS))
    ct = list(contra_tasks(T))
    ck.space('contradictions', work_contra, common.chunks(ct, 32), 'every value {unset, True, False} of the four pairs of options that can contradict each other and every noise.quit x additive x multiplicative level {unset, 0, 0.1}, '
             'in all products of two such families (thorough: of all four pairs) x %d contexts' % len(CONTRA))
    if T:
        ck.space('user_params pairs', work_pairs, common.chunks(pair_tasks(), 32), 'every pair of in-range values of two parameters x 4 contexts')
    gs = [g for g in configs.GROUP_NAMES if g != 'reg']
    probs = ['lin2', 'under3', 'scalar1', 'sq1', 'lin3'] if not T else list(configs.PROBLEMS)
    common.sweep(ck, 'options', judge_valid, probs, gs, 2, only=lambda p, t: T or p == 'lin2' or len(t) < 2)
    common.sweep(ck, 'regularised', judge_valid, ['lin2', 'sq1'] if not T else ['lin2', 'rosen', 'under2', 'sq1'], gs + ['reg'], 2, 1, only=lambda p, t: any(x == 'reg:l1' or (T and x.startswith('reg:')) for x in t))
    common.tree(ck, 'answer trees n=1', judge_valid, [('sq1', ()), ('lin1', ('rst:soft', 'rho:mid')), ('lin1', ('npt:full',))], 'rank4', 7 if T else 4, maxfun=9)
    ck.extra['parameters'] = len(PARAMS)
    ck.finish()


if __name__ == '__main__':
    main()
