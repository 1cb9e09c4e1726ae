"""C03: soln.x was evaluated as point xmin_eval_num, soln.resid is the mean residual there, soln.obj belongs to it."""
from mc import configs, monitors
from mc.harness import Check
from . import common


def judge(rec, o):
    if rec.soln is not None and rec.soln.flag != -1 and rec.soln.xmin_eval_num not in (None, 1):
        o.count('best_is_not_first_point')
    return monitors.c03(rec)


BUDGET_CFG = [
    (), ('avg:2',), ('rst:soft', 'rho:mid'), ('rst:nomove', 'rho:mid'), ('rst:incnpt', 'rho:mid'), ('rst:incnpt', 'rho:mid', 'avg:2'),
    ('rst:hold', 'rho:mid'), ('rst:hnew', 'rho:mid'), ('rst:hold', 'rho:mid', 'avg:2'), ('rst:hincnpt', 'rho:mid'),
    ('npt:2n1',), ('npt:full', 'rst:soft', 'rho:mid'), ('grow:one',), ('grow:new1', 'avg:2'), ('grow:safegeom',), ('regr:1',),
    ('regr:mom', 'npt:2n1'), ('init:par', 'avg:2'), ('init:rand',), ('proj:two',), ('proj:ball', 'rst:soft', 'rho:mid'), ('proj:wedge', 'avg:2'),
    ('bnd:active', 'scal:on'), ('bnd:nasty', 'rst:hold', 'rho:mid'), ('slow:fast', 'rst:soft'), ('tol:rel',),
    ('bnd:infeas_hi', 'rst:soft', 'rho:mid'), ('bnd:active', 'scal:on', 'rst:hold', 'rho:mid'), ('avg:vary', 'rst:soft', 'rho:mid'),
]
TREES = [('sq1', ()), ('lin1', ('rst:soft', 'rho:mid')), ('lin1', ('rst:hold', 'rho:mid')), ('scalar1', ('rst:hnew', 'rho:mid', 'mu:2')),
         ('lin1', ('rst:incnpt', 'rho:mid')), ('sq1', ('npt:full', 'rst:nomove', 'rho:mid'))]
DEVS = [('lin2', ('rst:soft', 'rho:mid')), ('rosen', ('rst:hold', 'rho:mid')), ('under2', ('grow:one',)), ('lin2', ('npt:2n1',)),
        ('fit2', ('proj:ball',)), ('lin2', ('bnd:active', 'scal:on', 'rst:soft', 'rho:mid'))]


def run(ck, judge, T, hot, params=None):
    probs = ['lin2', 'rosen', 'under2', 'sq1'] if not T else list(configs.PROBLEMS)
    bprobs = ('lin2', 'rosen') if not T else probs
    common.budgets(ck, 'every budget', judge, [(p, t) for p in bprobs for t in BUDGET_CFG
                                               if configs.valid(configs.spec_of(p, t))], params=params)
    gs = [g for g in configs.GROUP_NAMES if g not in ('reg', 'diag', 'ovf', 'pre')]
    common.sweep(ck, 'options', judge, probs, gs, 2, params=params,
                 only=lambda p, t: T or p in ('lin2',) or not t or any(x.split(':')[0] in hot for x in t))
    common.sweep(ck, 'regularised', judge, ['lin2'] if not T else ['lin2', 'nl2', 'under2'], gs + ['reg'], 2, 1, params=params,
                 only=lambda p, t: any(x in ('reg:l1', 'reg:l2') or (T and x.startswith('reg:')) for x in t))
    for must in (('rst:soft', 'rho:mid'), ('rst:hold', 'rho:mid')) + ((('rst:hnew', 'rho:mid'), ('rst:nomove', 'rho:mid'),
                                                                      ('rst:incnpt', 'rho:mid')) if T else ()):
        common.sweep(ck, 'on top of %s' % '+'.join(must), judge, ['lin2', 'rosen'] if not T else probs[:8],
                     gs, 2 if T else 1, 1, must=must, params=params)
    common.tree(ck, 'answer trees n=1', judge, TREES, 'rank4', 7 if T else 5, maxfun=11 if T else 9, params=params)
    common.tree(ck, 'answer deviations n=2', judge, DEVS, 'dev', 18 if T else 9, bound=2 if not T else 3, maxfun=30 if T else 22,
                params=params)


def main():
    ck = Check('C03', 'exploration',
               'a case is one complete solver run; distinct and non-trivial if its sequence of evaluation points, exit '
               'flag and message differ from all others and it evaluated at least one point',
               ['x is compared with tolerance 64 ulp of the coordinate magnitudes, resid with 32 ulp, obj with 1e-10 relative'])
    run(ck, judge, ck.thorough, ('rst', 'avg', 'noise', 'proj', 'slow', 'tol', 'grow', 'scal'))
    T = ck.thorough
    common.faults(ck, 'bad answers', judge, [(p, t) for p in ('lin2', 'rosen') for t in [
        (), ('rst:soft', 'rho:mid'), ('rst:hold', 'rho:mid'), ('npt:2n1',), ('grow:one',), ('bnd:active',), ('avg:2',)]],
        ('nan', '+inf', '1e200') if not T else ('nan', '+inf', '-inf', '1e200', 'nan@0', '1e154', '1e120'))
    common.lucky(ck, 'lucky answers', judge, ['lin2', 'under3'] if not T else ['lin2', 'under3', 'rosen', 'sq1', 'nl2'], None, T)
    common.nsamples_tree(ck, 'nsamples answers', judge, [('lin2', ('rst:soft', 'rho:mid')), ('lin2', ()), ('rosen', ('rst:hold', 'rho:mid'))],
                         14 if T else 8, 2, (None, 12))
    common.noisy_last(ck, 'noisy best last', judge, ['lin2'] if not T else ['lin2', 'under3', 'rosen', 'nl2'], None, T)
    common.noisy(ck, 'noisy samples', judge, ['lin2', 'fit2'] if not T else ['lin2', 'fit2', 'sq1', 'rosen', 'under2', 'nl2', 'const2'], None, T)
    common.early(ck, 'bad answers while growing', judge, ['lin2'] if not T else ['lin2', 'under3', 'rosen', 'lin3'], None, T)
    common.singular(ck, 'singular matrices', judge, ['lin2'] if not T else ['lin2', 'under3', 'rosen', 'nl2'], None, T)
    common.handover(ck, judge)
    ck.finish()


if __name__ == '__main__':
    main()
