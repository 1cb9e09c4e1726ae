"""C01: every evaluation point and the returned x satisfy the bounds exactly, on every execution of the spaces below."""
import itertools
import math

import numpy as np

from mc import configs, monitors
from mc.harness import Check
from . import common


def judge(rec, o):
    o.count('points_judged', len(rec.calls))
    if rec.calls and rec.spec.xl is not None and any(np.any(x == rec.spec.xl) for x, _ in rec.calls):
        o.count('runs_touching_lower')
    if rec.calls and rec.spec.xu is not None and any(np.any(x == rec.spec.xu) for x, _ in rec.calls):
        o.count('runs_touching_upper')
    return monitors.c01(rec)


def placements(scale):
    """(lower, upper, x0) for one coordinate, in units where rhobeg = 0.1, on a given magnitude."""
    third = 1.0 / 3.0
    up, dn = lambda v: float(np.nextafter(v, np.inf)), lambda v: float(np.nextafter(v, -np.inf))
    base = [
        (0.1, 0.7, 0.1), (0.1, 0.7, 0.7), (0.1, 0.7, up(0.1)), (0.1, 0.7, dn(0.7)), (0.1, 0.7, 0.1 + 1e-9),
        (0.1, 0.7, 0.7 - 1e-9), (0.1, 0.7, 0.1 + 0.00099), (0.1, 0.7, 0.1 + 0.00101), (0.1, 0.7, 0.4),
        (-third, 0.9, third), (0.1, 0.7, -5.0), (0.1, 0.7, 33.3), (0.1, 0.3 + 1e-15, 0.2), (-1e9 / 7, 0.3, 0.25),
        (0.3, 0.3 + 1e8 / 3, 0.35), (0.1, 0.7, 0.1 + 0.1), (0.1, 0.7, 0.7 - 0.1), (-0.7, -0.1, -0.1),
        (0.1, 0.30000000000000004, 0.1), (0.0, 0.7, 0.0), (-0.7, 0.0, 0.0),
    ]
    return [(scale * a, scale * b, scale * c) for a, b, c in base]


def placement_cases(thorough):
    out = []
    scales = [1.0, 1e-3, 1e5] + ([1e9, 1.0 / 3.0] if thorough else [])
    tog = [(), ('rst:soft', 'rho:mid'), ('npt:2n1',)] + ([('rst:hold', 'rho:mid'), ('grow:one',), ('npt:full',),
                                                         ('init:rand',), ('regr:1',)] if thorough else [])
    for sc in scales:
        pl = placements(sc)
        for a, b in itertools.product(pl, pl[::3] if not thorough else pl):
            for scaled in (False, True):
                for tg in tog:
                    for fun in (('lin2',) if not thorough else ('lin2', 'rosen')):
                        # rhobeg fits the box unscaled (0.1*sc, gap >= 0.2*sc); 0.1 when scaled
                        over = dict(xl=[a[0], b[0]], xu=[a[1], b[1]], x0=[a[2], b[2]],
                                    rhobeg=0.1 if scaled else 0.09999 * sc, rhoend=1e-3 if scaled else 1e-3 * sc,
                                    scaling=scaled)
                        if 'rho:mid' in tg:
                            over['rhoend'] = over['rhobeg'] * 0.1
                        out.append(dict(problem=fun, toggles=list(tg), over=over, maxfun=25, cost=1))
    return out


def one_sided(thorough):
    out = []
    for sc in (1.0, 1e5):
        for off, side, big in itertools.product((0.0, 1e-17, 1e-9, 0.0009, 0.05, -3.0), (0, 1, 2, 3),
                                                (None, 1e20, math.inf)):
            for tg in ((), ('rst:soft', 'rho:mid'), ('npt:full',), ('scal:x',)):
                b = [0.3 * sc, -0.7 * sc]
                x0 = [b[0] + off * sc, b[1] + off * sc] if side in (0, 2) else [b[0] - off * sc, b[1] - off * sc]
                inf = big
                xl = b if side == 0 else ([b[0], -inf if inf else -1e20] if side == 2 else
                                          (None if inf is None else [-inf] * 2))
                xu = b if side == 1 else ([inf if inf else 1e20, b[1] + 9 * sc] if side == 2 else
                                          (None if inf is None else [inf] * 2))
                if side == 3:
                    xl, xu = [-inf if inf else -1e20, b[1] - 4 * sc], [b[0], inf if inf else 1e20]
                scaled = 'scal:x' in tg
                over = dict(xl=xl, xu=xu, x0=x0, rhobeg=0.1 * sc, rhoend=1e-3 * sc, scaling=scaled)
                if scaled and (xl is None or xu is None):
                    continue
                out.append(dict(problem='lin2', toggles=[t for t in tg if t != 'scal:x'], over=over, maxfun=25, cost=1))
    return out


def main():
    ck = Check('C01', 'exploration',
               'a case is one complete solver run; it counts as distinct and non-trivial if its sequence of '
               'evaluation points, exit flag and message differ from all others and it evaluated at least one point',
               ['bound gap >= 2*rhobeg (smaller gaps are input errors, judged by C07)',
                'the evaluation points are those passed to the residual function by the real solver'])
    T = ck.thorough
    gs = [g for g in configs.GROUP_NAMES if g not in ('bnd', 'reg', 'diag', 'mf', 'ovf', 'dyk')]
    hasb = lambda p, t: any(x.startswith('bnd:') for x in t)       # noqa: E731
    common.overrides(ck, 'placements', judge, common.chunks(placement_cases(T)),
                     'every pair of per-coordinate placements of (lower, upper, x0) x magnitudes x scaling x options')
    common.overrides(ck, 'one-sided', judge, common.chunks(one_sided(T)), 'one-sided, absent and infinite bounds')
    bopts = ['bnd:' + o for o, _ in dict(configs.GROUPS)['bnd']]
    probs = ['lin2', 'rosen', 'under2', 'sq1'] if not T else list(configs.PROBLEMS)
    common.sweep(ck, 'bounds x options', judge, probs, gs + ['bnd'], 2, 1, only=hasb)
    for must in bopts if T else ['bnd:active', 'bnd:nasty', 'bnd:corner']:
        pr = ['lin2', 'rosen', 'lin3'] if T else ['lin2']
        common.sweep(ck, 'scaled %s' % must, judge, pr, gs, 2 if T else 1, must=(must, 'scal:on'))
    common.sweep(ck, 'regularised', judge, ['lin2'] if not T else ['lin2', 'nl2', 'lin1'], gs + ['bnd', 'reg'], 3, 2,
                 only=lambda p, t: hasb(p, t) and any(x.startswith('reg:') for x in t) and
                 (T or t[0] in ('bnd:active', 'bnd:nasty', 'bnd:onlo')))
    for must in [t for t in configs.options_of(['grow'])[0] + configs.options_of(['init'])[0] + ['regr:mom', 'rst:incnpt']] if T else ['grow:new3', 'grow:new1', 'grow:geom', 'init:par', 'regr:mom', 'rst:incnpt']:
        common.sweep(ck, 'n=3 %s' % must, judge, ['lin3', 'under3'], ['bnd', 'npt', 'scal', 'rst', 'init', 'grow', 'regr'] if T else ['bnd', 'npt', 'scal'], 2, 1, must=(must,), only=hasb)
    tcs = [('sq1', ('bnd:active',)), ('lin1', ('bnd:nasty', 'rst:soft', 'rho:mid')),
           ('scalar1', ('bnd:corner', 'npt:full')), ('lin1', ('bnd:active', 'scal:on')),
           ('sq1', ('bnd:hair_delta', 'rst:hold', 'rho:mid'))]
    common.tree(ck, 'answer trees n=1', judge, tcs, 'rank4', 7 if T else 5, maxfun=11 if T else 9)
    dcs = [('lin2', ('bnd:active',)), ('rosen', ('bnd:nasty', 'rst:soft', 'rho:mid')), ('under2', ('bnd:onlo', 'grow:one')),
           ('lin2', ('bnd:thin', 'scal:on'))]
    common.tree(ck, 'answer deviations n=2', judge, dcs, 'dev', 20 if T else 9, bound=2 if not T else 3,
                maxfun=30 if T else 22)
    for b in (('bnd:active',), ('bnd:active', 'scal:on')) if not T else [(x,) for x in bopts] + [(x, 'scal:on') for x in bopts]:
        common.early(ck, 'bad answers while growing %s' % '+'.join(b), judge, ['lin2'] if not T else ['lin2', 'under3'], None, T, plus=b)
        common.singular(ck, 'singular matrices %s' % '+'.join(b), judge, ['lin2'] if not T else ['lin2', 'under3'], None, T, plus=b)
    ck.finish()


if __name__ == '__main__':
    main()
