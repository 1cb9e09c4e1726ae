"""C10: exit flags and messages are true statements about the run."""
from mc import configs, monitors
from mc.harness import Check
from . import common

DIAG = {'logging.save_diagnostic_info': True, 'logging.save_poisedness': False}


def judge(rec, o):
    s = rec.soln
    if s is not None:
        for t in ('sufficiently small', 'rho has reached rhoend', 'unsuccessful restarts', 'MAXFUN', 'within noise'):
            if t in s.msg:
                o.count('msg:' + t)
    return monitors.c10(rec)


TREES = [('sq1', ()), ('sq1', ('tol:rel',)), ('sq1', ('tol:abs', 'rst:soft', 'rho:mid')), ('lin1', ('rst:soft', 'rho:mid', 'mu:1')),
         ('lin1', ('rst:hold', 'rho:mid', 'mu:1')), ('lin1', ('rst:hnew', 'rho:short', 'tol:rel')), ('lin1', ('rst:scale', 'rho:mid')),
         ('scalar1', ('rst:hscale', 'rho:mid')), ('lin1', ('npt:full', 'rho:short', 'mu:2', 'rst:soft'))]
BUDGET_CFG = [(), ('rst:soft', 'rho:short', 'mu:1'), ('rst:hold', 'rho:short', 'mu:1'), ('rst:scale', 'rho:mid'), ('rst:hscale', 'rho:mid'),
              ('tol:rel', 'rst:soft'), ('tol:abs', 'avg:2'), ('noise:add', 'rst:soft', 'rho:mid'), ('grow:one', 'rst:soft', 'rho:mid'), ('rst:incnpt', 'rho:mid'),
              ('rst:hincnpt', 'rho:mid', 'avg:2'), ('proj:ball', 'rst:soft', 'rho:mid')]


def main():
    ck = Check('C10', 'exploration',
               'a case is one complete solver run; distinct and non-trivial if its sequence of evaluation points, exit flag and message '
               'differ from all others and it evaluated at least one point',
               ['the number of restarts performed is counted from the log ("Soft restart", "Restarting from finish point"); a last restart that '
                'is cut short while it is being set up may or may not be counted in nruns',
                'f(x0) is the mean over the samples at the first point, as used by the solver'])
    T = ck.thorough
    probs = ['lin2', 'fit2', 'sq1', 'under2'] if not T else list(configs.PROBLEMS)
    gs = [g for g in configs.GROUP_NAMES if g not in ('reg', 'diag', 'ovf', 'pre')]
    hot = ('rst', 'mu', 'rho', 'tol', 'noise', 'mf', 'slow', 'auto', 'avg')
    common.sweep(ck, 'options', judge, probs, gs, 2, params=DIAG,
                 only=lambda p, t: T or not t or all(x.split(':')[0] in hot for x in t) or len(t) == 1)
    rst = ['rst:' + o for o, _ in dict(configs.GROUPS)['rst']]
    for must in rst:
        common.sweep(ck, 'restarts %s' % must, judge, ['lin2', 'fit2'] if not T else probs[:8], [g for g in hot if g != 'rst'] + (['grow', 'npt', 'regr', 'bnd'] if T else []),
                     2, 1, must=(must,), params=DIAG, only=lambda p, t: T or any(x in ('rho:mid', 'rho:short') for x in t))
    common.sweep(ck, 'unsuccessful', judge, ['lin2', 'abs2', 'const2'], ['rho', 'slow', 'tol', 'auto', 'noise', 'npt'] + (['bnd', 'grow', 'avg'] if T else []), 2, 0,
                 must=('rst:hold', 'mu:1'), params=DIAG, extra={'maxfun': 300})
    common.sweep(ck, 'unsuccessful soft', judge, ['lin2', 'abs2', 'const2'], ['rho', 'slow', 'tol', 'auto', 'noise', 'npt'] + (['bnd', 'grow', 'avg'] if T else []), 2, 0,
                 must=('rst:soft', 'mu:1'), params=DIAG, extra={'maxfun': 300})
    for lev in (1e-2, 0.1, 1.0) if not T else (1e-4, 1e-3, 1e-2, 0.03, 0.1, 0.3, 1.0, 10.0):
        for kind in ('additive', 'multiplicative'):
            common.sweep(ck, 'noise %s %g' % (kind, lev), judge, ['lin2', 'rosen', 'nl2', 'sq1'] if not T else probs, ['npt', 'bnd', 'avg', 'rst', 'rho'] + (['grow', 'slow', 'tol', 'base'] if T else []), 2,
                         params=DIAG, extra=dict(params={'noise.quit_on_noise_level': True, 'noise.%s_noise_level' % kind: lev}),
                         only=lambda p, t: T or any(x.startswith('npt') for x in t) or len(t) < 2)
    common.budgets(ck, 'every budget', judge, [(p, t) for p in (probs if T else ('fit2', 'lin2')) for t in BUDGET_CFG
                                               if configs.valid(configs.spec_of(p, t))], params=DIAG)
    common.sweep(ck, 'regularised', judge, ['lin2'], list(hot) + ['reg', 'bnd'], 2, 1, params=DIAG, only=lambda p, t: any(x in ('reg:l1', 'reg:l2') for x in t))
    common.faults(ck, 'bad answers', judge, [(p, t) for p in ('lin2', 'rosen') for t in [(), ('rst:soft', 'rho:mid'), ('rst:hold', 'rho:mid'), ('npt:2n1',), ('grow:one',),
                                                                                    ('slow:fast',), ('base:never',)]],
                  ('nan', '+inf', '1e200') if not T else ('nan', '+inf', '-inf', '1e200', 'nan@0', '1e154', '1e120'), params=DIAG)
    common.lucky(ck, 'lucky answers', judge, ['lin2', 'under3'] if not T else ['lin2', 'under3', 'rosen', 'sq1', 'nl2'], DIAG, T)
    common.tree(ck, 'answer trees n=1', judge, TREES, 'rank5' if T else 'rank4', 6 if T else 5, maxfun=16 if T else 12, params=DIAG)
    common.tree(ck, 'answer deviations n=2', judge, [('lin2', ('tol:abs',)), ('rosen', ('rst:soft', 'rho:mid', 'mu:1')), ('fit2', ('tol:rel', 'rst:hold', 'rho:mid')),
                                                     ('lin2', ('avg:2', 'tol:abs', 'rst:soft', 'rho:mid'))], 'dev', 18 if T else 8, bound=2, maxfun=30 if T else 22, params=DIAG)
    common.noisy_last(ck, 'noisy best last', judge, ['lin2'] if not T else ['lin2', 'under3', 'rosen', 'nl2'], DIAG, T)
    common.noisy(ck, 'noisy samples', judge, ['lin2', 'fit2', 'sq1'] if not T else ['lin2', 'fit2', 'sq1', 'rosen', 'under2', 'nl2', 'const2'], DIAG, T)
    common.early(ck, 'bad answers while growing', judge, ['lin2'] if not T else ['lin2', 'under3', 'rosen', 'lin3'], DIAG, T)
    common.singular(ck, 'singular matrices', judge, ['lin2'] if not T else ['lin2', 'under3', 'rosen', 'nl2'], DIAG, T)
    common.restart_faults(ck, 'bad answers with restarts', judge, ['lin2'] if not T else ['lin2', 'under3', 'rosen', 'nl2'], DIAG, T)
    ck.finish()


if __name__ == '__main__':
    main()
