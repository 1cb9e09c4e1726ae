"""C11: soln.jacobian is the interpolant / regression fit through the recorded residuals at jacmin_eval_nums."""
from mc import configs, monitors
from mc.harness import Check
from . import common


def judge(rec, o):
    return monitors.c11(rec, o.count)


BUDGET_CFG = [(), ('npt:2n1',), ('npt:n2',), ('bnd:active', 'scal:on'), ('rst:soft', 'rho:mid'), ('rst:hold', 'rho:mid'), ('rst:hnew', 'rho:mid'), ('rst:nomove', 'rho:mid', 'npt:2n1'),
              ('avg:2',), ('avg:2', 'rst:soft', 'rho:mid'), ('regr:1', 'npt:2n1'), ('npt:full', 'rst:hold', 'rho:mid'), ('bnd:nasty',), ('pre:off', 'npt:2n1'),
              ('bnd:active', 'scal:on', 'rst:hold', 'rho:mid'), ('init:par',), ('init:rand', 'npt:2n1'), ('init:par', 'avg:2'), ('rst:incnpt', 'rho:mid'), ('rst:hincnpt', 'rho:mid')]


def main():
    ck = Check('C11', 'exploration',
               'a case is one complete solver run; distinct and non-trivial if its sequence of evaluation points, exit flag and message differ from '
               'all others and it evaluated at least one point; stats.c11_judged counts the runs whose Jacobian was compared',
               ['the reference fit is numpy.linalg.lstsq on the recorded points, centred and scaled', 'runs whose named points are so ill conditioned '
                'that rounding dominates are not compared (counted as c11_ill_conditioned)'])
    T = ck.thorough
    probs = ['lin2', 'rosen', 'nl2', 'sq1', 'lin3'] if not T else list(configs.PROBLEMS)
    gs = [g for g in configs.GROUP_NAMES if g not in ('reg', 'diag', 'ovf', 'proj', 'dyk', 'noise')]
    hot = ('npt', 'scal', 'rst', 'bnd', 'regr', 'avg', 'rho')
    common.sweep(ck, 'options', judge, probs, gs, 2, only=lambda p, t: T or p == 'lin2' or len(t) < 2 or all(x.split(':')[0] in hot for x in t))
    common.sweep(ck, 'scaled', judge, probs, ['npt', 'rst', 'rho', 'avg', 'regr', 'mf', 'slow', 'init', 'grow', 'bnd'], 3, 2 if not T else 1, must=('scal:on',),
                 only=lambda p, t: any(x in ('bnd:active', 'bnd:thin', 'bnd:nasty', 'bnd:infeas_lo') for x in t) and
                 (T or (p in ('lin2', 'rosen') and any(x.startswith('npt') or x.startswith('rst') for x in t))))
    common.sweep(ck, 'scaled underdetermined', judge, ['under2', 'under3'], ['npt', 'rst', 'rho', 'avg', 'regr', 'mf', 'slow', 'bnd'], 2, 1, must=('scal:on',),
                 only=lambda p, t: any(x in ('bnd:active', 'bnd:thin', 'bnd:nasty') for x in t))
    common.budgets(ck, 'every budget', judge, [(p, t) for p in (probs if T else ('lin2', 'rosen', 'lin3')) for t in BUDGET_CFG if configs.valid(configs.spec_of(p, t))])
    common.sweep(ck, 'regularised', judge, ['lin2', 'nl2'], list(hot) + ['reg'], 2, 1, only=lambda p, t: any(x in ('reg:l1', 'reg:l2') for x in t))
    common.tree(ck, 'answer trees n=1', judge, [('sq1', ()), ('lin1', ('rst:soft', 'rho:mid')), ('lin1', ('rst:hold', 'rho:mid')), ('lin1', ('npt:full',)),
                                                ('sq1', ('npt:full', 'rst:soft', 'rho:mid')), ('lin1', ('bnd:active', 'scal:on'))], 'rank4', 7 if T else 5, maxfun=9)
    common.tree(ck, 'answer deviations n=2', judge, [('lin2', ()), ('rosen', ('rst:soft', 'rho:mid')), ('nl2', ('npt:2n1',)), ('lin2', ('rst:hold', 'rho:mid', 'npt:n2')),
                                                     ('lin2', ('bnd:thin', 'scal:on')), ('nl2', ('npt:n2', 'rst:soft', 'rho:mid'))], 'dev', 20 if T else 9,
                bound=2 if not T else 3, maxfun=30 if T else 22)
    common.nsamples_tree(ck, 'nsamples answers', judge, [('lin2', ()), ('rosen', ('rst:soft', 'rho:mid'))], 12 if T else 6, 2, (None, 10))
    common.noisy_last(ck, 'noisy best last', judge, ['lin2'] if not T else ['lin2', 'under3', 'rosen', 'nl2'], None, T)
    common.noisy(ck, 'noisy samples', judge, ['lin2', 'rosen'] if not T else ['lin2', 'fit2', 'sq1', 'rosen', 'under2', 'nl2', 'const2'], None, T)
    common.early(ck, 'bad answers while growing', judge, ['lin2'] if not T else ['lin2', 'under3', 'rosen', 'lin3'], None, T)
    common.handover(ck, judge)
    ck.finish()


if __name__ == '__main__':
    main()
