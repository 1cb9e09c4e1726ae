"""C18: radius and bookkeeping invariants of every row of the diagnostic table."""
from mc import configs, monitors
from mc.harness import Check
from . import common

DIAG = {'logging.save_diagnostic_info': True, 'logging.save_poisedness': False}


def judge(rec, o):
    s = rec.soln
    if s is not None and s.diagnostic_info is not None:
        o.count('rows_judged', len(s.diagnostic_info))
    return monitors.c18(rec, deterministic=not rec.faulty)


TREES = [('sq1', ()), ('lin1', ('rst:soft', 'rho:mid')), ('lin1', ('rst:hold', 'rho:mid')), ('lin1', ('rst:scale', 'rho:mid')), ('scalar1', ('rst:scaleup', 'rho:mid')),
         ('scalar1', ('tr:a', 'rho:mid')), ('lin1', ('tr:b', 'safe:big')), ('sq1', ('tr:c', 'npt:full')), ('sq1', ('bnd:active', 'rho:long'))]


def main():
    ck = Check('C18', 'exploration',
               'a case is one complete solver run with the diagnostic table on; distinct and non-trivial if its sequence of evaluation points, exit flag and '
               'message differ from all others and it evaluated at least one point; stats.rows_judged counts table rows',
               ['relative tolerance 1e-12 on the radius comparisons (the table stores the exact values)',
                'a rescaled rhoend above rhobeg (rhoend_scale > 1) is capped at rhobeg, as the solver does'])
    T = ck.thorough
    probs = ['lin2', 'rosen', 'under2', 'sq1'] if not T else list(configs.PROBLEMS)
    gs = [g for g in configs.GROUP_NAMES if g not in ('reg', 'diag', 'ovf', 'mf', 'pre')]
    hot = ('rst', 'rho', 'tr', 'safe', 'grow', 'base', 'slow', 'noise', 'mu', 'auto', 'regr')
    common.sweep(ck, 'options', judge, probs, gs, 2, params=DIAG, only=lambda p, t: T or len(t) < 2 or all(x.split(':')[0] in hot for x in t))
    for must in ('rst:soft', 'rst:scale', 'rst:hold', 'rst:hscale') + (('rst:nomove', 'rst:incnpt', 'rst:scaleup', 'rst:hincnpt') if T else ('rst:incnpt',)):
        common.sweep(ck, 'restarts %s' % must, judge, ['lin2', 'rosen'] if not T else probs[:8], ['tr', 'safe', 'grow', 'base', 'slow', 'npt', 'bnd', 'avg', 'proj', 'regr'], 2 if T else 1, 1,
                     must=(must, 'rho:mid'), params=DIAG)
    common.sweep(ck, 'radii', judge, ['lin2', 'rosen', 'sin2'] if not T else probs, ['rho', 'tr', 'safe', 'base'], 4, 2, params=DIAG,
                 only=lambda p, t: T or any(x.startswith('tr:') for x in t))
    common.sweep(ck, 'regularised', judge, ['lin2'], list(hot) + ['reg', 'bnd'], 2, 1, params=DIAG, only=lambda p, t: any(x in ('reg:l1', 'reg:l2') for x in t))
    common.overrides(ck, 'extreme radii', judge, common.chunks([
        dict(problem=p, toggles=list(t), over=dict(rhobeg=rb, rhoend=rb * re), maxfun=60, cost=1)
        for p in ('lin2', 'rosen', 'const2', 'sin2') for t in [(), ('rst:soft',), ('tr:b',), ('grow:one',)]
        for rb in (1e-6, 1e-2, 1.0, 1e3, 1e8, 9e9) for re in (1e-8, 0.01, 0.3, 0.999)], 4), 'rhobeg x rhoend/rhobeg over the grid given', params=DIAG)
    common.faults(ck, 'bad answers', judge, [(p, t) for p in ('lin2', 'rosen') for t in [(), ('rst:soft', 'rho:mid'), ('grow:one',), ('npt:2n1',)]],
                  ('nan', '+inf', '1e200'), params=DIAG)
    common.tree(ck, 'answer trees n=1', judge, TREES, 'rank4', 7 if T else 5, maxfun=14 if T else 12, params=DIAG)
    common.tree(ck, 'answer deviations n=2', judge, [('lin2', ('tr:a',)), ('rosen', ('rst:soft', 'rho:mid')), ('lin2', ('rho:mid', 'rst:scale')), ('under2', ('grow:resetd',))],
                'dev', 20 if T else 8, bound=2 if not T else 3, maxfun=30 if T else 22, params=DIAG)
    common.early(ck, 'bad answers while growing', judge, ['lin2'] if not T else ['lin2', 'under3', 'rosen', 'lin3'], DIAG, T)
    common.singular(ck, 'singular matrices', judge, ['lin2'] if not T else ['lin2', 'under3', 'rosen', 'nl2'], DIAG, T)
    ck.finish()


if __name__ == '__main__':
    main()
