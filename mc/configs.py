"""The finite space of solver configurations: problems x option toggles.

A case is (problem name, tuple of option names).  Options are organised in groups; a case takes at most one option
per group, and the number of options is its deviation cost.  Everything is plain data, so a case is replayable from
its JSON form.
"""
import itertools

import numpy as np

from . import boot  # noqa: F401


# ------------------------------------------------------------------------------------------------ problems

class Problem(object):
    def __init__(self, name, n, m, fun, x0, rhobeg=0.1, rhoend=1e-3, maxfun=40, A=None, b=None, xstar=None):
        self.name, self.n, self.m, self.fun = name, n, m, fun
        self.x0 = np.array(x0, dtype=float)
        self.rhobeg, self.rhoend, self.maxfun = rhobeg, rhoend, maxfun
        self.A = None if A is None else np.array(A, dtype=float)
        self.b = None if b is None else np.array(b, dtype=float)
        self.xstar = np.array(xstar if xstar is not None else x0, dtype=float)


def _linear(name, A, b, x0, **kw):
    A = np.array(A, dtype=float)
    b = np.array(b, dtype=float)
    return Problem(name, A.shape[1], A.shape[0], lambda x: A.dot(x) - b, x0, A=A, b=b,
                   xstar=np.linalg.lstsq(A, b, rcond=None)[0], **kw)


PROBLEMS = {}
for _p in [
    _linear('lin1', [[2.0], [0.5]], [1.0, 2.0], [1.3]),
    _linear('lin2', [[1.0, 0.4], [-0.3, 1.1], [0.5, 0.2]], [1.0, 0.7, -0.4], [0.3, -0.2]),
    _linear('lin3', [[1.0, 0.2, 0.0], [0.1, 1.3, -0.4], [0.0, 0.3, 0.9], [0.4, -0.2, 0.6]], [1.0, -0.5, 0.3, 0.8],
            [0.2, 0.1, -0.3], maxfun=45),
    _linear('fit2', [[1.0, 0.5], [0.2, 1.0]], [0.7, -0.3], [0.1, 0.4]),       # zero residual at the solution
    Problem('rosen', 2, 2, lambda x: np.array([10.0 * (x[1] - x[0] ** 2), 1.0 - x[0]]), [-1.2, 1.0], maxfun=50,
            xstar=[1.0, 1.0]),
    Problem('under2', 2, 1, lambda x: np.array([x[0] ** 2 + 0.5 * x[1] + 0.3]), [0.6, 0.4], xstar=[0.0, -0.6]),
    Problem('under3', 3, 2, lambda x: np.array([x[0] + 0.5 * x[1] ** 2 - 1.0, x[2] - 0.2 * x[0] + 0.4]),
            [0.2, 0.5, 0.1], xstar=[0.8, 0.6, -0.2]),
    Problem('nl2', 2, 3, lambda x: np.array([x[0] - 1.0 + 0.3 * x[1] ** 2, x[1] - 2.0 + 0.4 * np.sin(x[0]),
                                             0.5 * x[0] * x[1]]), [0.5, 0.3], xstar=[0.1, 1.8]),
    Problem('abs2', 2, 2, lambda x: np.array([abs(x[0] - 0.37) + 0.1, abs(x[1] + x[0]) + 0.05]), [1.0, 0.2],
            xstar=[0.37, -0.37]),
    Problem('sin2', 2, 2, lambda x: np.array([np.sin(5.0 * x[0]) + x[1], np.cos(3.0 * x[1]) - x[0]]), [0.3, -0.5],
            xstar=[0.8, 0.7]),
    Problem('sq1', 1, 2, lambda x: np.array([x[0] ** 2 - 1.0, 0.5 * x[0]]), [2.0], rhobeg=0.2, xstar=[0.9]),
    Problem('const2', 2, 2, lambda x: np.array([1.0, -0.5]), [0.2, 0.3]),
    Problem('scalar1', 1, 1, lambda x: np.array([np.cos(x[0]) + 1.5]), [2.5], xstar=[3.14159]),
    Problem('big2', 2, 2, lambda x: np.array([1e-3 * (x[0] - 1e6 - 3.7), 0.5 * (x[1] + 2e5)]),
            [1e6 + 0.3, -2e5 + 1.7], rhobeg=1.0, xstar=[1e6 + 3.7, -2e5]),
]:
    PROBLEMS[_p.name] = _p


# ------------------------------------------------------------------------------------------------ specs

class Spec(object):
    """Everything passed to solve(), still as data that toggles may edit."""
    def __init__(self, prob):
        self.prob = prob
        n = prob.n
        self.n = n
        self.m = prob.m
        self.fun = prob.fun
        self.x0 = prob.x0.copy()
        self.xl = None
        self.xu = None
        self.projections = []       # list of (kind, params) -> see make_projection
        self.scaling = False
        self.npt = None
        self.rhobeg = prob.rhobeg
        self.rhoend = prob.rhoend
        self.maxfun = prob.maxfun
        self.reg = None             # (kind, lambda, with_args)
        self.nsamp = None
        self.has_noise = False
        self.params = {}
        self.random = False         # uses documented random directions


def _setp(s, **kw):
    for k, v in kw.items():
        s.params[k.replace('__', '.')] = v


def _mid(s):
    """A point strictly between x0 and the unconstrained solution (or displaced from it if they agree)."""
    d = s.prob.xstar - s.x0
    d = np.where(np.abs(d) < 1e-3, 0.5, d)
    return s.x0 + 0.5 * d, d


def b_wide(s):
    s.xl = s.x0 - 7.3
    s.xu = s.x0 + 9.1


def b_active(s):
    # the box cuts the solution off in every coordinate; x0 interior
    mid, d = _mid(s)
    g = 2.0 * s.rhobeg
    s.xl = np.where(d > 0, s.x0 - 3.0 * g, np.minimum(mid, s.x0 - 0.4 * g))
    s.xu = np.where(d > 0, np.maximum(mid, s.x0 + 0.7 * g), s.x0 + 2.5 * g)


def b_onlo(s):
    s.xl = s.x0.copy()
    s.xu = s.x0 + 5.0


def b_onhi(s):
    s.xl = s.x0 - 5.0
    s.xu = s.x0.copy()


def b_corner(s):
    s.xl = s.x0 - np.where(np.arange(s.n) % 2 == 0, 0.0, 4.0)
    s.xu = s.x0 + np.where(np.arange(s.n) % 2 == 0, 4.0, 0.0)


def b_infeas_lo(s):
    s.xl = s.x0 + 0.3
    s.xu = s.x0 + 4.1


def b_infeas_hi(s):
    s.xl = s.x0 - 4.1
    s.xu = s.x0 - 0.7


def b_hair_lo(s):
    s.xl = np.nextafter(s.x0, -np.inf)
    s.xu = s.x0 + 3.0


def b_hair_hi(s):
    s.xl = s.x0 - 3.0
    s.xu = s.x0 + 1e-9


def b_hair_delta(s):
    # just inside / outside the "at the boundary" zone of 0.01*delta
    s.xl = s.x0 - 0.0099 * s.rhobeg
    s.xu = s.x0 + 2.2 * s.rhobeg


def b_tight(s):
    c = s.x0
    s.xl = c - s.rhobeg * (1.0 + 1e-12)
    s.xu = c + s.rhobeg * (1.0 + 1e-12)


def b_lower(s):
    mid, d = _mid(s)
    s.xl = np.where(d > 0, s.x0 - 0.15, np.minimum(mid, s.x0))
    s.xu = None


def b_upper(s):
    mid, d = _mid(s)
    s.xl = None
    s.xu = np.where(d > 0, np.maximum(mid, s.x0), s.x0 + 0.15)


def b_nasty(s):
    # bounds with long binary expansions, of mixed magnitudes, active at the solution
    mid, d = _mid(s)
    k = np.arange(1, s.n + 1)
    off = (0.1 + 0.2) * k / 3.0
    s.xl = np.where(d > 0, s.x0 - off - 1.0 / 7.0, np.minimum(mid, s.x0 - 0.4 * s.rhobeg) + 1e-17)
    s.xu = np.where(d > 0, np.maximum(mid, s.x0 + 0.3 * s.rhobeg) * (1.0 + 1e-16), s.x0 + off + 1.0 / 3.0)
    w = s.xu - s.xl
    s.xu = np.where(w < 2.01 * s.rhobeg, s.xl + 2.0 * s.rhobeg + 1.0 / 9.0, s.xu)


def b_thin(s):
    # very different widths in the coordinates
    w = np.array([2.1 * s.rhobeg * (1.0 + 37.3 * (i % 2)) for i in range(s.n)])
    s.xl = s.x0 - 0.3 * w
    s.xu = s.x0 + 0.7 * w


def sc_on(s):
    s.scaling = True
    s.rhobeg = 0.1
    s.rhoend = 1e-3 if s.rhoend == s.prob.rhoend else min(s.rhoend, 0.04)


def x_far(s):
    s.x0 = s.x0 + 1.7


def npt_n2(s):
    s.npt = s.n + 2


def npt_2n1(s):
    s.npt = 2 * s.n + 1


def npt_full(s):
    s.npt = (s.n + 1) * (s.n + 2) // 2


def npt_big(s):
    s.npt = (s.n + 1) * (s.n + 2) // 2 + 2
    s.random = True


def p_ball(s):
    s.projections = [('ball', (s.x0 + 0.2).tolist(), 0.7)]


def p_half(s):
    a = np.ones(s.n)
    s.projections = [('half', a.tolist(), float(a.dot(s.x0) + 0.15))]


def p_two(s):
    a = np.arange(1.0, s.n + 1.0)
    s.projections = [('ball', (s.x0 - 0.1).tolist(), 0.9), ('half', a.tolist(), float(a.dot(s.x0) + 0.2))]


def p_wedge(s):
    a = np.ones(s.n)
    a2 = np.where(np.arange(s.n) == 0, 1.0, -0.5)
    s.projections = [('half', a.tolist(), float(a.dot(s.x0) + 0.05)),
                     ('half', a2.tolist(), float(a2.dot(s.x0) + 0.1))]


def p_infeas(s):
    s.projections = [('ball', (s.x0 + 1.5).tolist(), 0.8)]


def p_infeas2(s):
    a = np.ones(s.n)
    s.projections = [('ball', (s.x0 + 1.0).tolist(), 0.8), ('half', (-a).tolist(), float(-a.dot(s.x0) - 0.9))]


def r_l1(s):
    s.reg = ('l1', 0.3, False)


def r_l1args(s):
    s.reg = ('l1', 0.7, True)


def r_l2(s):
    s.reg = ('l2', 0.4, False)


def ns_const(k):
    def f(s):
        s.nsamp = ('const', k)
    return f


def ns_var(s):
    s.nsamp = ('vary', 0)


def ns_nruns(s):
    s.nsamp = ('nruns', 0)


def ns_zero(s):
    s.nsamp = ('const', 0)


def noise_flag(s):
    s.has_noise = True


def noise_add(s):
    _setp(s, noise__quit_on_noise_level=True, noise__additive_noise_level=1e-3)


def noise_mult(s):
    _setp(s, noise__quit_on_noise_level=True, noise__multiplicative_noise_level=1e-3)


def rst_soft(s):
    _setp(s, restarts__use_restarts=True)


def rst_soft_nomove(s):
    _setp(s, restarts__use_restarts=True, restarts__soft__move_xk=False, restarts__soft__num_geom_steps=1)


def rst_soft_incnpt(s):
    _setp(s, restarts__use_restarts=True, restarts__increase_npt=True, restarts__increase_npt_amt=2,
          restarts__max_npt=(s.npt or s.n + 1) + 3)
    s.random = True


def rst_soft_scale(s):
    _setp(s, restarts__use_restarts=True, restarts__rhoend_scale=0.5)


def rst_soft_scale_up(s):
    _setp(s, restarts__use_restarts=True, restarts__rhoend_scale=1.5)


def rst_hard_old(s):
    _setp(s, restarts__use_restarts=True, restarts__use_soft_restarts=False)


def rst_hard_new(s):
    _setp(s, restarts__use_restarts=True, restarts__use_soft_restarts=False, restarts__hard__use_old_rk=False)


def rst_hard_scale(s):
    _setp(s, restarts__use_restarts=True, restarts__use_soft_restarts=False, restarts__rhoend_scale=0.3)


def rst_hard_incnpt(s):
    _setp(s, restarts__use_restarts=True, restarts__use_soft_restarts=False, restarts__increase_npt=True,
          restarts__max_npt=min((s.npt or s.n + 1) + 2, max((s.n + 1) * (s.n + 2) // 2, s.npt or 0)))


def mu(k):
    def f(s):
        _setp(s, restarts__max_unsuccessful_restarts=k)
    return f


def g_one(s):
    _setp(s, growing__ndirs_initial=1)


def g_perturb(s):
    _setp(s, growing__ndirs_initial=1, growing__full_rank__use_full_rank_interp=False,
          growing__perturb_trust_region_step=True)
    s.random = True


def g_new1(s):
    _setp(s, growing__ndirs_initial=1, growing__num_new_dirns_each_iter=1)
    s.random = True


def g_new3(s):
    _setp(s, growing__ndirs_initial=1, growing__num_new_dirns_each_iter=3)
    s.random = True


def g_geom(s):
    _setp(s, growing__ndirs_initial=1, growing__num_new_dirns_each_iter=1, growing__do_geom_steps=True)
    s.random = True


def g_saferd(s):
    _setp(s, growing__ndirs_initial=1, growing__safety__reduce_delta=True)
    s.random = True


def g_safegeom(s):
    _setp(s, growing__ndirs_initial=1, growing__safety__full_geom_step=True)
    s.random = True


def g_nosafe(s):
    _setp(s, growing__ndirs_initial=1, growing__safety__do_safety_step=False)


def g_resetd(s):
    _setp(s, growing__ndirs_initial=1, growing__reset_delta=True)


def g_resetdr(s):
    _setp(s, growing__ndirs_initial=1, growing__reset_delta=True, growing__reset_rho=True)


def g_plain(s):
    _setp(s, growing__ndirs_initial=1, growing__full_rank__use_full_rank_interp=False)


def rg_1(s):
    _setp(s, regression__num_extra_steps=1)


def rg_mom(s):
    _setp(s, regression__num_extra_steps=2, regression__momentum_extra_steps=True)
    s.random = True


def rg_inc(s):
    _setp(s, regression__increase_num_extra_steps_with_restart=1)


def i_rand(s):
    _setp(s, init__random_initial_directions=True)
    s.random = True


def i_randno(s):
    _setp(s, init__random_initial_directions=True, init__random_directions_make_orthogonal=False)
    s.random = True


def i_par(s):
    _setp(s, init__random_initial_directions=True, init__run_in_parallel=True)
    s.random = True


def sl_fast(s):
    _setp(s, slow__history_for_slow=1, slow__thresh_for_slow=10.0, slow__max_slow_iters=1)


def sl_mid(s):
    _setp(s, slow__history_for_slow=2, slow__thresh_for_slow=1.0, slow__max_slow_iters=2)


def tr_a(s):
    _setp(s, tr_radius__gamma_dec=0.9, tr_radius__alpha1=0.7, tr_radius__alpha2=0.9)


def tr_b(s):
    _setp(s, tr_radius__eta1=0.4, tr_radius__eta2=0.45, tr_radius__gamma_inc=3.0, tr_radius__gamma_inc_overline=1.0)


def tr_c(s):
    _setp(s, tr_radius__gamma_dec=0.05, tr_radius__eta2=0.99)


def bs_never(s):
    _setp(s, general__rounding_error_constant=0.0)


def bs_always(s):
    _setp(s, general__rounding_error_constant=1e20)


def tol_abs(s):
    _setp(s, model__abs_tol=0.05)


def tol_rel(s):
    _setp(s, model__rel_tol=0.3)


def tol_zero(s):
    _setp(s, model__abs_tol=0.0, model__rel_tol=0.0)


def rho_short(s):
    s.rhoend = s.rhobeg * 0.4


def rho_mid(s):
    s.rhoend = s.rhobeg * 0.06


def rho_one(s):
    s.rhoend = s.rhobeg * 0.999


def rho_long(s):
    s.rhoend = s.rhobeg * 1e-7
    s.maxfun = s.maxfun + 30


def pre_off(s):
    _setp(s, interpolation__precondition=False)


def au_3(s):
    _setp(s, restarts__auto_detect__history=3, restarts__auto_detect__min_chgJ_slope=0.0,
          restarts__auto_detect__min_correl=0.0)


def au_off(s):
    _setp(s, restarts__auto_detect=False)


def sf_zero(s):
    _setp(s, general__safety_step_thresh=0.0)


def sf_big(s):
    _setp(s, general__safety_step_thresh=2.0)


def ov_off(s):
    _setp(s, general__check_objfun_for_overflow=False)


def fk_1(s):
    _setp(s, restarts__soft__max_fake_successful_steps=1)


def dg_on(s):
    _setp(s, logging__save_diagnostic_info=True)


def dg_full(s):
    _setp(s, logging__save_diagnostic_info=True, logging__save_xk=True, logging__save_rk=True,
          logging__save_poisedness=False)


def dk_loose(s):
    _setp(s, dykstra__d_tol=1e-5)


def dk_few(s):
    _setp(s, dykstra__max_iters=3)


def dk_tight(s):
    _setp(s, dykstra__d_tol=1e-16, dykstra__max_iters=400)


def mf(expr):
    def f(s):
        npt = s.npt or s.n + 1
        s.maxfun = {'1': 1, '2': 2, 'n': s.n, 'n1': s.n + 1, 'npt': npt, 'npt1': npt + 1, 'npt3': npt + 3,
                    '2npt': 2 * npt}[expr]
    return f


GROUPS = [
    ('bnd', [('wide', b_wide), ('active', b_active), ('onlo', b_onlo), ('onhi', b_onhi), ('corner', b_corner),
             ('infeas_lo', b_infeas_lo), ('infeas_hi', b_infeas_hi), ('hair_lo', b_hair_lo), ('hair_hi', b_hair_hi),
             ('hair_delta', b_hair_delta), ('tight', b_tight), ('lower', b_lower), ('upper', b_upper),
             ('nasty', b_nasty), ('thin', b_thin)]),
    ('npt', [('n2', npt_n2), ('2n1', npt_2n1), ('full', npt_full), ('big', npt_big)]),
    ('proj', [('ball', p_ball), ('half', p_half), ('two', p_two), ('wedge', p_wedge), ('infeas', p_infeas),
              ('infeas2', p_infeas2)]),
    ('reg', [('l1', r_l1), ('l1args', r_l1args), ('l2', r_l2)]),
    ('rho', [('short', rho_short), ('mid', rho_mid), ('one', rho_one), ('long', rho_long)]),
    ('scal', [('on', sc_on)]),
    ('avg', [('2', ns_const(2)), ('3', ns_const(3)), ('vary', ns_var), ('nruns', ns_nruns), ('zero', ns_zero)]),
    ('noise', [('flag', noise_flag), ('add', noise_add), ('mult', noise_mult)]),
    ('rst', [('soft', rst_soft), ('nomove', rst_soft_nomove), ('incnpt', rst_soft_incnpt), ('scale', rst_soft_scale),
             ('scaleup', rst_soft_scale_up), ('hold', rst_hard_old), ('hnew', rst_hard_new),
             ('hscale', rst_hard_scale), ('hincnpt', rst_hard_incnpt)]),
    ('mu', [('0', mu(0)), ('1', mu(1)), ('2', mu(2))]),
    ('grow', [('one', g_one), ('perturb', g_perturb), ('new1', g_new1), ('new3', g_new3), ('geom', g_geom), ('saferd', g_saferd),
              ('safegeom', g_safegeom), ('nosafe', g_nosafe), ('resetd', g_resetd), ('resetdr', g_resetdr),
              ('plain', g_plain)]),
    ('regr', [('1', rg_1), ('mom', rg_mom), ('inc', rg_inc)]),
    ('init', [('rand', i_rand), ('randno', i_randno), ('par', i_par)]),
    ('slow', [('fast', sl_fast), ('mid', sl_mid)]),
    ('tr', [('a', tr_a), ('b', tr_b), ('c', tr_c)]),
    ('base', [('never', bs_never), ('always', bs_always)]),
    ('tol', [('abs', tol_abs), ('rel', tol_rel), ('zero', tol_zero)]),
    ('pre', [('off', pre_off)]),
    ('auto', [('3', au_3), ('off', au_off)]),
    ('safe', [('zero', sf_zero), ('big', sf_big)]),
    ('ovf', [('off', ov_off)]),
    ('fake', [('1', fk_1)]),
    ('diag', [('on', dg_on), ('full', dg_full)]),
    ('dyk', [('loose', dk_loose), ('few', dk_few), ('tight', dk_tight)]),
    ('mf', [('1', mf('1')), ('2', mf('2')), ('n', mf('n')), ('n1', mf('n1')), ('npt', mf('npt')),
            ('npt1', mf('npt1')), ('npt3', mf('npt3')), ('2npt', mf('2npt'))]),
]
GROUP_NAMES = [g for g, _ in GROUPS]
OPTIONS = {}
for _g, _os in GROUPS:
    for _o, _f in _os:
        OPTIONS['%s:%s' % (_g, _o)] = _f
_ORDER = {k: i for i, k in enumerate(OPTIONS)}


def options_of(groups):
    return [['%s:%s' % (g, o) for o, _ in os] for g, os in GROUPS if g in groups]


def subsets(groups, k, kmin=0):
    """All choices of at most k options from distinct groups (kmin..k)."""
    opts = options_of(groups)
    for r in range(kmin, k + 1):
        for gs in itertools.combinations(range(len(opts)), r):
            for c in itertools.product(*[opts[g] for g in gs]):
                yield tuple(c)


def spec_of(prob, toggles):
    s = Spec(PROBLEMS[prob])
    for t in sorted(toggles, key=_ORDER.__getitem__):
        OPTIONS[t](s)
    if 'growing.ndirs_initial' in s.params and s.m < s.n:
        s.random = True              # perturbed trust-region steps (the default when m < n) use random directions
    return s


def valid(s):
    """Is the case inside the documented domain of the solver and of this harness?  (Invalid ones are the business
    of the C07 check, not of the run monitors.)"""
    npt = s.npt or s.n + 1
    if s.rhobeg <= s.rhoend:
        return False
    if s.scaling and (s.xl is None or s.xu is None or s.projections):
        return False
    if s.scaling and s.reg is not None:
        return True
    if s.xl is not None and s.xu is not None and not s.projections and not s.scaling:
        if np.min(s.xu - s.xl) < 2.0 * s.rhobeg:
            return False
    if s.scaling and 1.0 < 2.0 * s.rhobeg:
        return False
    if s.projections and not common_point(s):
        return False
    if s.params.get('growing.ndirs_initial', 1) > npt - 1:
        return False
    if s.params.get('init.run_in_parallel') and not s.params.get('init.random_initial_directions'):
        return False
    return True


_COMMON = {}


def common_point(s):
    """Do the sets (and the box) have a common point with a ball of radius 1e-3 around it?  Decided by plain
    alternating projections (independent of the code under test) onto the sets shrunk by that radius."""
    lo = s.xl if s.xl is not None else np.full(s.n, -1e20)
    hi = s.xu if s.xu is not None else np.full(s.n, 1e20)
    key = (repr(s.projections), s.x0.tobytes(), lo.tobytes(), hi.tobytes())
    if key not in _COMMON:
        x = s.x0.copy()
        e = 1e-3
        ok = False
        for _ in range(3000):
            moved = 0.0
            for d in list(s.projections) + [('box', lo, hi)]:
                if d[0] == 'ball':
                    c, r = np.array(d[1]), d[2] - e
                    v = x - c
                    nv = np.linalg.norm(v)
                    y = x if nv <= r else c + v * (r / nv)
                elif d[0] == 'half':
                    a = np.array(d[1])
                    v = a.dot(x) - (d[2] - e * np.linalg.norm(a))
                    y = x if v <= 0 else x - v / a.dot(a) * a
                else:
                    y = np.minimum(np.maximum(x, lo + e), hi - e)
                moved += float(np.sum((x - y) ** 2))
                x = y
            if moved < 1e-18:
                ok = True
                break
        _COMMON[key] = ok
    return _COMMON[key]


def cases(problems, groups, k, kmin=0, must=()):
    """All valid (problem, toggles) with kmin..k options from `groups`, on top of `must`."""
    out = []
    mg = set(t.split(':')[0] for t in must)
    seen = set()
    for p in problems:
        for tg in subsets([g for g in groups if g not in mg], k, kmin):
            tg = tuple(sorted(set(must) | set(tg), key=_ORDER.__getitem__))
            if (p, tg) in seen:
                continue
            seen.add((p, tg))
            if valid(spec_of(p, tg)):
                out.append((p, tg))
    return out
