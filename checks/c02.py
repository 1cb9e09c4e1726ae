"""C02: the budget is never exceeded and the counters and sample counts are exact."""
from mc import configs, monitors
from mc.harness import Check
from . import common


def judge(rec, o):
    if rec.spec.nsamp is not None:
        o.count('runs_with_averaging')
    if len(rec.calls) == rec.maxfun:
        o.count('runs_hitting_budget')
    return monitors.c02(rec)


BUDGET_CFG = [
    (), ('avg:2',), ('avg:3',), ('avg:vary',), ('avg:nruns', 'rst:soft', 'rho:mid'), ('avg:zero',), ('npt:2n1',), ('npt:full', 'avg:2'),
    ('rst:soft', 'rho:mid'), ('rst:nomove', 'rho:mid', 'avg:2'), ('rst:incnpt', 'rho:mid'),
    ('rst:incnpt', 'rho:short', 'avg:2'), ('rst:hold', 'rho:mid'), ('rst:hnew', 'rho:mid', 'avg:2'),
    ('rst:hincnpt', 'rho:mid'), ('grow:one',), ('grow:one', 'avg:2'), ('grow:new1', 'avg:2'), ('grow:geom',),
    ('grow:safegeom',), ('regr:1', 'avg:2'), ('regr:mom', 'npt:2n1'), ('init:par',), ('init:par', 'avg:2'),
    ('init:rand', 'avg:3'), ('init:randno',), ('proj:ball',), ('proj:two', 'avg:2'), ('bnd:active', 'scal:on', 'avg:2'),
    ('noise:flag', 'rho:mid'), ('noise:add', 'avg:2'), ('noise:mult', 'avg:2', 'rho:mid'), ('slow:fast', 'rst:soft'),
    ('npt:big', 'avg:2'), ('tol:rel', 'avg:2'), ('bnd:infeas_lo', 'avg:3'),
]
NS_CFG = [('lin2', ()), ('lin2', ('rst:soft', 'rho:mid')), ('lin1', ('rst:hold', 'rho:mid')), ('rosen', ('npt:full',)),
          ('under2', ('grow:one',)), ('lin2', ('init:par',)), ('lin2', ('regr:1', 'npt:2n1')),
          ('fit2', ('proj:ball',)), ('lin2', ('rst:incnpt', 'rho:short'))]


def main():
    ck = Check('C02', 'exploration',
               'a case is one complete solver run; distinct and non-trivial if its sequence of evaluation points, exit '
               'flag and message differ from all others and it evaluated at least one point',
               ['evaluation and point numbers are read from the "Function eval i at point j" log lines; if the log did '
                'not contain them the call count, nf and nx would still be judged'])
    T = ck.thorough
    probs = ['lin2', 'under2', 'sq1', 'rosen'] if not T else [p for p in configs.PROBLEMS]
    common.budgets(ck, 'every budget', judge,
                   [(p, t) for p in (probs if T else ('lin2', 'under2')) for t in BUDGET_CFG
                    if configs.valid(configs.spec_of(p, t))])
    common.nsamples_tree(ck, 'nsamples answers', judge, NS_CFG, 16 if T else 8, 3 if T else 2,
                         (None, 9, 14) if T else (None, 9))
    gs = [g for g in configs.GROUP_NAMES if g not in ('reg', 'diag', 'ovf', 'dyk', 'tr', 'pre', 'safe')]
    hot = ('avg', 'noise', 'rst', 'mf', 'init', 'grow', 'regr', 'proj')
    common.sweep(ck, 'options', judge, probs, gs, 2,
                 only=lambda p, t: T or any(x.split(':')[0] in hot for x in t) or not t)
    for avg in ('avg:2', 'avg:vary') if not T else ('avg:2', 'avg:3', 'avg:vary', 'avg:nruns', 'avg:zero'):
        common.sweep(ck, 'options + %s' % avg, judge, ['lin2'] if not T else ['lin2', 'under2', 'nl2'],
                     [g for g in gs if g not in ('bnd', 'avg')] if not T else gs, 2, 2, must=(avg,),
                     only=lambda p, t: T or sum(x.split(':')[0] in ('rst', 'mf', 'init', 'grow', 'regr', 'noise', 'rho')
                                                for x in t) >= 2)
    common.sweep(ck, 'regularised', judge, ['lin2'], gs + ['reg'], 2, 1,
                 only=lambda p, t: any(x == 'reg:l1' or (T and x.startswith('reg:')) for x in t))
    common.tree(ck, 'answer trees n=1', judge, [
        ('sq1', ('avg:2',)), ('lin1', ('rst:soft', 'rho:mid')), ('lin1', ('rst:hold', 'rho:mid', 'avg:vary'))],
        'rank4', 7 if T else 5, maxfun=9)
    common.early(ck, 'bad answers while growing', judge, ['lin2'] if not T else ['lin2', 'under3', 'rosen', 'lin3'], None, T)
    common.singular(ck, 'singular matrices', judge, ['lin2'] if not T else ['lin2', 'under3', 'rosen', 'nl2'], None, T)
    common.handover(ck, judge)
    ck.finish()


if __name__ == '__main__':
    main()
