"""C04: the returned objective is no larger than that of any evaluated point (deterministic objective, no averaging)."""
from mc import configs, monitors
from mc.harness import Check
from . import c03, common


def judge(rec, o):
    if rec.spec.nsamp is None:
        o.count('runs_judged')
        s = rec.soln
        if s is not None and s.flag != -1 and s.nruns > 1:
            o.count('runs_judged_with_restarts')
    return monitors.c04(rec)


def main():
    ck = Check('C04', 'exploration',
               'a case is one complete solver run; distinct and non-trivial if its sequence of evaluation points, exit '
               'flag and message differ from all others and it evaluated at least one point',
               ['objective recomputed by the harness from the recorded residuals; relative tolerance 1e-10'])
    T = ck.thorough
    c03.run(ck, judge, T, ('rst', 'proj', 'slow', 'tol', 'grow', 'regr', 'tr'))
    common.faults(ck, 'bad answers', judge, [(p, t) for p in ('lin2', 'rosen') for t in [
        (), ('rst:soft', 'rho:mid'), ('rst:hold', 'rho:mid'), ('rst:hnew', 'rho:mid'), ('npt:2n1',), ('grow:one',), ('bnd:active',),
        ('proj:ball',), ('regr:1',)]],
        ('nan', '+inf', '1e200') if not T else ('nan', '+inf', '-inf', '1e200', 'nan@0', '1e154', '1e120'))
    common.lucky(ck, 'lucky answers', judge, ['lin2', 'under3'] if not T else ['lin2', 'under3', 'rosen', 'sq1', 'nl2'], None, T)
    common.tree(ck, 'bad answer trees n=1', judge, [
        ('sq1', ()), ('lin1', ('rst:soft', 'rho:mid')), ('lin1', ('rst:hold', 'rho:mid'))], 'badtree', 7 if T else 5, maxfun=9)
    common.early(ck, 'bad answers while growing', judge, ['lin2'] if not T else ['lin2', 'under3', 'rosen', 'lin3'], None, T)
    common.singular(ck, 'singular matrices', judge, ['lin2'] if not T else ['lin2', 'under3', 'rosen', 'nl2'], None, T)
    common.handover(ck, judge)
    ck.finish()


if __name__ == '__main__':
    main()
