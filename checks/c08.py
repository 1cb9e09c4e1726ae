"""C08: bad values and exceptions from the residual function, at every evaluation of every configuration below."""
from mc import configs, monitors
from mc.harness import Check
from . import common

VALUES = ('nan', '+inf', '-inf', '1e200', 'nan@0', '+inf@1', '1e154')
VALUES_T = VALUES + ('-1e200', '-inf@0', '1e120', '1e308', '1e200@0')

CONFIGS = [
    (), ('bnd:active',), ('bnd:nasty', 'npt:2n1'), ('bnd:active', 'scal:on'), ('npt:2n1',), ('npt:full',), ('proj:ball',), ('proj:two',),
    ('rst:soft', 'rho:mid'), ('rst:nomove', 'rho:mid'), ('rst:incnpt', 'rho:mid'), ('rst:hold', 'rho:mid'), ('rst:hnew', 'rho:mid'),
    ('avg:2',), ('avg:3', 'rst:soft', 'rho:mid'), ('grow:one',), ('grow:perturb',), ('grow:new1',), ('grow:geom',), ('grow:plain',), ('grow:saferd',),
    ('grow:safegeom',), ('regr:1', 'npt:2n1'), ('regr:mom',), ('init:rand',), ('init:par',), ('ovf:off',), ('ovf:off', 'rst:soft', 'rho:mid'), ('slow:fast', 'rst:soft'),
    ('pre:off',), ('diag:on',), ('noise:flag', 'rho:mid'), ('noise:add', 'avg:2'), ('base:never',), ('base:always',), ('safe:big',), ('rst:hold', 'rho:mid', 'avg:2'),
]
REG = [('reg:l1',), ('reg:l1', 'bnd:active'), ('reg:l2', 'rst:soft', 'rho:mid')]
SPAN_CFG = [(), ('bnd:active', 'scal:on'), ('rst:soft', 'rho:mid'), ('rst:hold', 'rho:mid'), ('rst:hnew', 'rho:mid'), ('rst:hold', 'rho:mid', 'avg:2'), ('grow:one',),
            ('npt:2n1',), ('proj:ball',), ('init:par',), ('rst:nomove', 'rho:mid')]
EXC_CONFIGS = [(), ('bnd:active', 'scal:on'), ('rst:soft', 'rho:mid'), ('rst:hold', 'rho:mid'), ('avg:2',), ('grow:one',), ('proj:two',),
               ('init:par',), ('regr:1', 'npt:2n1'), ('diag:on',), ('npt:full',)]


def judge(rec, o):
    sp = rec.spec
    o.count('faulty_runs' if rec.faulty else 'no_fault_reached')
    return monitors.c08(rec, rec.faulty, raise_on_nan=bool(sp.params.get('interpolation.throw_error_on_nans')))


def judge_exc(rec, o):
    if rec.injected is None:
        return []
    o.count('exceptions_injected')
    if rec.hang:
        return [('hang', 'no termination after an exception')]
    if rec.exc is None:
        return [('exception-swallowed', '%r raised by the residual function at call %d did not reach the caller (flag %s, %s)' % (
            rec.injected, len(rec.calls), rec.soln.flag, rec.soln.msg))]
    v = []
    if rec.exc is not rec.injected:
        v.append(('exception-changed', '%r raised by the residual function, %r reached the caller' % (rec.injected, rec.exc)))
    if rec.calls_after_exc:
        v.append(('evaluated-after-exception', '%d further evaluations after %r' % (rec.calls_after_exc, rec.injected)))
    return v


def judge_throw(rec, o):
    o.count('faulty_runs' if rec.faulty else 'no_fault_reached')
    return monitors.c08(rec, rec.faulty, raise_on_nan=True)


def main():
    ck = Check('C08', 'fault_enumeration',
               'a case is one complete solver run with one fault plan (kind x evaluation index, all indices of the reference run, or an '
               'answer sequence containing bad values); distinct and non-trivial if its sequence of evaluation points, exit flag and '
               'message differ from all others',
               ['the fault positions are all evaluation indices of the fault-free run of the same configuration (first 60)'])
    T = ck.thorough
    probs = ['lin2', 'rosen'] if not T else ['lin2', 'rosen', 'under2', 'sq1', 'lin3', 'nl2', 'under3', 'big2', 'scalar1', 'const2']
    cs = [(p, t) for p in probs for t in CONFIGS if configs.valid(configs.spec_of(p, t))]
    common.faults(ck, 'bad values', judge, cs, VALUES_T if T else VALUES)
    common.faults(ck, 'regularised', judge, [('lin2', t) for t in REG], ('nan', '+inf', '1e200') if not T else VALUES)
    common.faults(ck, 'several in a row', judge, [c for c in cs if c[0] in ('lin2', 'rosen', 'under2') and (T or c[1] in SPAN_CFG)], ('nan', '+inf') if not T else ('nan', '+inf', '1e200'),
                  spans=(2, 3, 5, 10 ** 6) if not T else (2, 3, 4, 5, 7, 11, 10 ** 6), also_all=False)
    if T:
        common.faults(ck, 'two bad values', judge, [c for c in cs if c[0] in ('lin2', 'rosen', 'under2')], ('nan', '+inf', '1e200'), pairs=True)
    common.faults(ck, 'exceptions', judge_exc, [(p, t) for p in probs[:3] for t in EXC_CONFIGS] + [('lin2', ('reg:l1',))],
                  sorted(common.EXCEPTIONS), also_all=False)
    common.faults(ck, 'opted in to raise', judge_throw, [('lin2', t) for t in [(), ('rst:soft', 'rho:mid'), ('npt:2n1',)]], ('nan', '+inf'),
                  params={'interpolation.throw_error_on_nans': True})
    common.tree(ck, 'bad answer trees n=1', judge, [
        ('sq1', ()), ('lin1', ('rst:soft', 'rho:mid')), ('lin1', ('rst:hold', 'rho:mid')), ('lin1', ('npt:full',)), ('sq1', ('bnd:active',))],
        'badtree', 7 if T else 5, maxfun=11 if T else 9)
    common.tree(ck, 'bad answer deviations', judge, [('lin2', ()), ('rosen', ('rst:soft', 'rho:mid')), ('under2', ('grow:one',)), ('lin2', ('npt:2n1',)),
                                                     ('rosen', ('rst:hold', 'rho:mid'))], 'bad', 24 if T else 10, bound=2, maxfun=30 if T else 22)
    common.early(ck, 'bad answers while growing', judge, ['lin2'] if not T else ['lin2', 'under3', 'rosen', 'lin3'], None, T)
    common.singular(ck, 'singular matrices', judge, ['lin2'] if not T else ['lin2', 'under3', 'rosen', 'nl2'], None, T)
    common.restart_faults(ck, 'bad answers with restarts', judge, ['lin2'] if not T else ['lin2', 'under3', 'rosen', 'nl2'], None, T)
    ck.finish()


if __name__ == '__main__':
    main()
