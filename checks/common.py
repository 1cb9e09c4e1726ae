"""Exploration spaces over whole solver runs, shared by the checks that judge runs.

A case is plain data (so that every counterexample is replayable):
  problem, toggles      the configuration (mc/configs.py)
  seed                  state of NumPy's global generator before the run (enumerated, only relevant when an option
                        documented as random is on)
  maxfun                optional budget override
  faults                [[k, kind], ...] evaluation k (0-based; -1: all) returns the bad value `kind`;
                        [k, kind, s]: evaluations k..k+s-1 do
  singular              [k, s]: the triangular solves number k..k+s-1 of the run report a singular matrix
  buffer                how the residual vector is handed over: one reused buffer, a list, a strided view, a read-only array
  menu, choices         name of an answer menu and the answer chosen at each new evaluation point
"""
import numpy as np

from mc import boot, configs, monitors, runner  # noqa: F401
from mc.explore import Chooser, explore
from mc.harness import Out, h64

RANDOM_SEEDS = (0, 1)


# ------------------------------------------------------------------------------------------------ answers

class CustomBase(BaseException):
    pass


EXCEPTIONS = {'ValueError': ValueError, 'LinAlgError': np.linalg.LinAlgError, 'OverflowError': OverflowError,
              'ZeroDivisionError': ZeroDivisionError, 'StopIteration': StopIteration,
              'KeyboardInterrupt': KeyboardInterrupt, 'RuntimeError': RuntimeError, 'AssertionError': AssertionError,
              'CustomBase': CustomBase, 'FloatingPointError': FloatingPointError, 'TypeError': TypeError,
              'IndexError': IndexError, 'KeyError': KeyError, 'AttributeError': AttributeError, 'OSError': OSError,
              'Exception': Exception, 'UnboundLocalError': UnboundLocalError, 'ArithmeticError': ArithmeticError,
              'UserWarning': UserWarning, 'SystemExit': SystemExit, 'MemoryError': MemoryError, 'GeneratorExit': GeneratorExit}


def bad_value(kind, r, k=0):
    r = np.array(r, dtype=float)
    if kind.startswith('mul:'):              # one sample scaled
        return float(kind[4:]) * r
    if kind.startswith('wob:'):              # additive noise, different at every call, zero mean over each pair of calls
        e = float(kind[4:]) * (1.0 + 0.5 * np.cos(1.0 + np.arange(len(r)) + k // 2))
        return r + (e if k % 2 == 0 else -e)
    if kind.startswith('ramp:'):             # much better than the truth, but different at every call
        return float(kind[5:]) * (1.0 + 0.4 * ((k * 3) % 5)) * r
    if kind.startswith('drift:'):            # additive noise growing with the call number
        return r * (1.0 + float(kind[6:]) * k)
    if kind in EXCEPTIONS:
        return runner.Injected(EXCEPTIONS[kind]('injected'))
    v = {'nan': np.nan, '+inf': np.inf, '-inf': -np.inf, '1e200': 1e200, '-1e200': -1e200, '1e154': 1e154,
         '1e120': 1e120, '1e308': 1e308}[kind.split('@')[0]]
    if '@' in kind:
        r[int(kind.split('@')[1]) % len(r)] = v
    else:
        r[:] = v
    return r


# An answer menu maps (true residual, best residual so far, best objective value so far, index) to a residual vector.
MENUS = {
    # complete small alphabets, relative to the best point so far
    'rank4': [lambda r, b: 0.5 * b, lambda r, b: 1.5 * b, lambda r, b: -0.9 * b, lambda r, b: 40.0 * b],
    'rank3': [lambda r, b: 0.5 * b, lambda r, b: 1.5 * b, lambda r, b: -0.97 * b],
    'rank5': [lambda r, b: 0.5 * b, lambda r, b: b, lambda r, b: 1.2 * b, lambda r, b: -0.9 * b,
              lambda r, b: 50.0 * b],
    # deviations from the true function
    'dev': [lambda r, b: r, lambda r, b: 0.3 * b, lambda r, b: b, lambda r, b: 3.0 * b, lambda r, b: -b,
            lambda r, b: 1e-7 * b],
    'dev3': [lambda r, b: r, lambda r, b: 0.5 * b, lambda r, b: 10.0 * b],
    # bad values
    'bad': [lambda r, b: r, lambda r, b: r * np.nan, lambda r, b: np.inf * np.ones_like(r),
            lambda r, b: 1e200 * np.ones_like(r)],
    'badtree': [lambda r, b: 0.6 * b, lambda r, b: 1.4 * b, lambda r, b: r * np.nan,
                lambda r, b: np.inf * np.ones_like(r)],
}


class MenuAnswer(object):
    """Answers are a function of x (first answer at a point is kept), so every execution is a run on some
    deterministic objective function."""
    def __init__(self, menu, chooser):
        self.menu = MENUS[menu]
        self.ch = chooser
        self.best = None
        self.bestf = np.inf
        self.bad = set()

    def __call__(self, k, x, r):
        if self.best is None:
            b = np.where(np.abs(r) < 1e-3, 1.0, r)
        else:
            b = self.best
        c = self.ch.choose(len(self.menu), 'evaluation %d' % (k + 1))
        a = self.menu[c](r, b)
        with np.errstate(all='ignore'):
            f = float(np.dot(a, a))
        if f < self.bestf:
            self.best, self.bestf = np.array(a), f
        if not np.isfinite(f) or f > 1e100:
            self.bad.add(k)
        return a


# ------------------------------------------------------------------------------------------------ executing a case

NS_MENU = (1, 2, 3, 0)


def execute(case, spec=None, chooser=None, nchooser=None, cpu=None, params=None, kwargs=None):
    sp = configs.spec_of(case['problem'], case['toggles']) if spec is None else spec
    over = case.get('over')
    if over:
        for key, val in over.items():
            if key == 'projections':
                sp.projections = [tuple(d) for d in val]
            else:
                setattr(sp, key, np.array(val, dtype=float) if isinstance(val, (list, tuple)) else val)
    sp.params.update(case.get('params', {}))
    if sp.reg is not None and not case.get('exact'):
        sp.params.setdefault('func_tol.max_iters', 30)       # cheap inner solves: accuracy is C06's business
    if 'ns_choices' in case:
        nch = nchooser if nchooser is not None else Chooser(case['ns_choices'], None, case.get('horizon'))
        sp.nsamp = ('menu', lambda rec: NS_MENU[nch.choose(len(NS_MENU), 'nsamples')])
    answer = None
    memo = False
    faulty = set()
    if case.get('menu'):
        ch = chooser if chooser is not None else Chooser(case['choices'], None, case.get('horizon'))
        answer = MenuAnswer(case['menu'], ch)
        memo = True
        faulty = answer.bad
    elif case.get('faults'):
        fl = dict((int(f[0]), f[1]) for f in case['faults'] if len(f) == 2)
        spans = [(int(f[0]), int(f[0]) + int(f[2]), f[1]) for f in case['faults'] if len(f) == 3]

        def answer(k, x, r):
            kind = fl.get(k, fl.get(-1))
            for a, b, kd in spans:
                if a <= k < b:
                    kind = kd
            if kind is None:
                return r
            faulty.add(k)
            return bad_value(kind, r, k)
    kwa = dict(kwargs or {})
    kwa.update(case.get('kwargs', {}))
    rec = runner.run(sp, answer=answer, seed=case.get('seed', 0), maxfun=case.get('maxfun'),
                     cpu=cpu or case.get('cpu', runner.DEFAULT_CPU), memo=memo,
                     params=dict(params or {}, **case.get('params', {})), kwargs=kwa, singular=case.get('singular'), buffer=case.get('buffer'))
    rec.truth = answer is None
    rec.faulty = faulty
    rec.case = case
    return rec


def behaviour(rec):
    s = rec.soln
    return h64(b''.join(x.tobytes() for x, _ in rec.calls), None if s is None else (s.flag, s.msg),
               None if rec.exc is None else type(rec.exc).__name__)


def account(o, rec, judge, case, stats=True):
    o.n += 1
    o.transitions += len(rec.calls)
    o.states.add(behaviour(rec))
    if stats:
        if rec.soln is not None:
            o.count('flag_%s' % rec.soln.flag)
            if rec.restarts:
                o.count('with_restarts')
        else:
            o.count('no_result')
    for kind, what in judge(rec, o):
        o.violation(kind, '%s %s: %s' % (case['problem'], ','.join(case['toggles']), what), dict(case))
    if o.sample is None and rec.calls:
        o.sample = dict(case=dict(case), evaluations=len(rec.calls),
                        outcome=None if rec.soln is None else [rec.soln.flag, rec.soln.msg])


# ------------------------------------------------------------------------------------------------ spaces

def seeds_for(sp):
    return RANDOM_SEEDS if sp.random else (0,)


def handover(check, judge, problems=('lin2',), groups=('avg', 'rst', 'init', 'grow', 'npt', 'regr', 'scal', 'bnd'), k=1):
    """The residual vector handed over in one buffer that the next call overwrites, or as a read-only array, a strided view or a list."""
    for how in ('reused', 'readonly') if not check.thorough else ('reused', 'readonly', 'strided', 'list'):
        sweep(check, 'residuals in a %s %s' % (how, dict(reused='buffer', readonly='array', strided='view').get(how, 'object')), judge, list(problems),
              list(groups), k + (1 if check.thorough else 0), extra=dict(buffer=how))


def sweep(check, name, judge, problems, groups, k, kmin=0, must=(), share=1.0, params=None, only=None, extra=None):
    """Every valid problem x (at most k option toggles)."""
    cs = configs.cases(problems, groups, k, kmin, must)
    if only is not None:
        cs = [c for c in cs if only(*c)]
    # interleave expensive (regularised) cases
    cs.sort(key=lambda c: (not any(t.startswith('reg:') for t in c[1]), len(c[1])))

    def work(task):
        p, tg = task
        o = Out()
        sp = configs.spec_of(p, tg)
        for seed in seeds_for(sp):
            case = dict(problem=p, toggles=list(tg), seed=seed, cost=len(tg))
            if extra:
                case.update(extra)
            rec = execute(case, params=params)
            account(o, rec, judge, case)
        return o
    return check.space(name, work, cs, 'problems %s x all valid choices of %d..%d options from the groups %s%s' % (
        '/'.join(problems), kmin, k, '/'.join(groups), (' on top of %s' % (must,)) if must else ''), share)


def nsamples_tree(check, name, judge, cases_, depth, bound, budgets_=(None,), share=1.0, params=None):
    """Every sequence of answers of the nsamples callback from {1,2,3,0} with at most `bound` answers other than 1 among
    the first `depth` calls, for several budgets."""
    def work(task):
        (p, tg), first, mf = task
        o = Out()

        def one(ch):
            case = dict(problem=p, toggles=list(tg), seed=0, ns_choices=[], horizon=depth)
            if mf is not None:
                case['maxfun'] = mf
            rec = execute(case, nchooser=ch, params=params)
            case['ns_choices'] = list(ch.choices)
            case['cost'] = len(ch.choices)
            return rec, case
        if first == depth:
            ch = Chooser((), None, depth)
            rec, case = one(ch)
            account(o, rec, judge, case)
        else:
            for i, (ch, (rec, case)) in enumerate(explore(one, bound, depth, first=first, last=first + 1)):
                if i:
                    account(o, rec, judge, case)
        return o
    cs = list(cases_)
    return check.space(name, work, [(c, f, b) for c in cs for f in range(depth + 1) for b in budgets_],
                       'all answer sequences of the nsamples callback over {1,2,3,0} with at most %d answers != 1 among '
                       'the first %d calls, budgets %s, configurations %s' % (bound, depth, list(budgets_), ', '.join(
                           '%s[%s]' % (p, ','.join(t)) for p, t in cs)), share)


def overrides(check, name, judge, tasks, describe, share=1.0, params=None):
    """Explicitly enumerated cases (dicts with problem, toggles, over, ...), grouped in lists."""
    def work(task):
        o = Out()
        for case in task:
            rec = execute(case, params=params)
            account(o, rec, judge, case)
        return o
    return check.space(name, work, tasks, describe, share)


def chunks(it, k=16):
    it = list(it)
    return [it[i:i + k] for i in range(0, len(it), k)]


def budgets(check, name, judge, cases_, share=1.0, params=None):
    """For every case: every budget from 1 to the number of evaluations of the unrestricted run (+1)."""
    def work(task):
        p, tg = task
        o = Out()
        sp = configs.spec_of(p, tg)
        for seed in seeds_for(sp)[:1]:
            ref = execute(dict(problem=p, toggles=list(tg), seed=seed), params=params)
            nf = len(ref.calls)
            for mf in range(1, nf + 2):
                case = dict(problem=p, toggles=list(tg), seed=seed, maxfun=mf, cost=mf)
                rec = execute(case, params=params)
                account(o, rec, judge, case)
        return o
    return check.space(name, work, list(cases_), 'every budget maxfun = 1..nf+1 of the reference run of each of %d '
                       'configurations' % len(list(cases_)), share)


def faults(check, name, judge, cases_, kinds, share=1.0, params=None, maxpos=60, also_all=True, pairs=False, spans=()):
    """For every case: a bad answer of every kind at every single evaluation of the reference run (and at all)."""
    def work(task):
        (p, tg), kind = task
        o = Out()
        sp = configs.spec_of(p, tg)
        ref = execute(dict(problem=p, toggles=list(tg), seed=0), params=params)
        nf = min(len(ref.calls), maxpos)
        plans = [[[k, kind]] for k in range(nf)]
        if also_all:
            plans.append([[-1, kind]])
        if pairs:
            plans += [[[k, kind], [k + d, kind]] for d in (1, 2) for k in range(nf - d)]
        plans += [[[k, kind, s]] for s in spans for k in range(nf)]
        for pl in plans:
            case = dict(problem=p, toggles=list(tg), seed=0, faults=pl, cost=len(pl) * 100 + pl[0][0])
            rec = execute(case, params=params)
            account(o, rec, judge, case)
        return o
    cs = list(cases_)
    return check.space(name, work, [(c, k) for c in cs for k in kinds],
                       'each of %d configurations x fault kinds %s x every evaluation index of the reference run%s%s' %
                       (len(cs), '/'.join(kinds), ' and all evaluations' if also_all else '',
                        (' and adjacent pairs' if pairs else '') + (' and runs of %s bad values in a row from every index' % (tuple(spans),)
                                                                    if spans else '')), share)


SINGULAR_CFG = [(), ('rst:soft', 'rho:mid'), ('rst:hold', 'rho:mid'), ('rst:hnew', 'rho:mid'), ('rst:scale', 'rho:mid'), ('rst:hscale', 'rho:mid'), ('rst:soft', 'rho:mid', 'mu:1'),
                ('rst:hold', 'rho:mid', 'mu:1'), ('rst:incnpt', 'rho:mid'), ('rst:nomove', 'rho:mid'), ('grow:one',), ('grow:one', 'rst:soft', 'rho:mid'), ('grow:new1', 'rst:soft', 'rho:mid'),
                ('grow:new3', 'rst:soft', 'rho:mid'), ('grow:saferd', 'rst:soft', 'rho:mid'), ('grow:safegeom', 'rst:soft', 'rho:mid'), ('grow:geom', 'rst:hold', 'rho:mid'), ('grow:perturb', 'rst:soft', 'rho:mid'),
                ('npt:2n1', 'rst:soft', 'rho:mid'), ('regr:1', 'rst:soft', 'rho:mid'), ('regr:mom', 'npt:2n1', 'rst:soft', 'rho:mid'), ('regr:inc', 'rst:soft', 'rho:mid'), ('avg:2', 'rst:soft', 'rho:mid'),
                ('avg:3', 'rst:hnew', 'rho:mid'), ('avg:2', 'grow:one', 'rst:soft', 'rho:mid'), ('bnd:active', 'rst:soft', 'rho:mid'), ('bnd:active', 'scal:on', 'rst:soft', 'rho:mid'), ('safe:big', 'bnd:active', 'rst:soft'),
                ('slow:fast', 'rst:soft'), ('auto:3', 'rst:soft', 'rho:mid'), ('proj:half', 'rst:soft', 'rho:short'), ('proj:ball', 'npt:2n1', 'rst:hold', 'rho:short'), ('reg:l1', 'rst:soft', 'rho:mid')]


def singular(check, name, judge, problems, params=None, thorough=False, share=1.0, cfg=SINGULAR_CFG, plus=()):
    """Every triangular solve of the reference run (alone, and together with all that follow) reports a singular matrix."""
    pg = set(x.split(':')[0] for x in plus)
    cs = [(p, tuple(t) + tuple(plus)) for p in problems for t in cfg if (thorough or not any(x.startswith('reg:') for x in t)) and not pg & set(x.split(':')[0] for x in t) and configs.valid(configs.spec_of(p, tuple(t) + tuple(plus)))]
    spans = (1, 10 ** 6) if not thorough else (1, 2, 3, 5, 10 ** 6)

    def work(task):
        (p, tg), s = task
        o = Out()
        ref = execute(dict(problem=p, toggles=list(tg), seed=0, singular=[None, 0]), params=params)
        for k in range(min(ref.triangular_solves, 400 if thorough else 30)):
            case = dict(problem=p, toggles=list(tg), seed=0, singular=[k, s], cost=(1000 if s > 1 else 0) + k)
            account(o, execute(case, params=params), judge, case)
        return o
    cs.sort(key=lambda c: not any(t.startswith(('reg:', 'proj:')) for t in c[1]))      # expensive ones first
    return check.space(name, work, [(c, s) for c in cs for s in spans], '%d configurations x every triangular solve of the reference run reports a singular matrix (runs of %s failures)' % (
        len(cs), '/'.join('1' if s == 1 else ('all' if s > 1000 else str(s)) for s in spans)), share)


GROWING = ('grow:one', 'grow:new1', 'grow:new3', 'grow:plain', 'grow:geom', 'grow:safegeom', 'grow:saferd', 'grow:perturb')
RESTARTING = ('rst:soft', 'rst:nomove', 'rst:incnpt', 'rst:hold', 'rst:hnew', 'rst:hincnpt')


def early(check, name, judge, problems, params=None, thorough=False, share=1.0, kinds=('nan', '+inf'), reach=6, plus=()):
    """Bad values while the interpolation set is still being built or grown, for every way of growing x every way of restarting."""
    cs = [(p, (g, r) + tuple(plus)) for p in problems for g in GROWING for r in RESTARTING if configs.valid(configs.spec_of(p, (g, r) + tuple(plus)))]
    return plan_space(check, name, judge, cs, kinds, (1, 3, 10 ** 6) if not thorough else (1, 2, 3, 5, 10 ** 6), reach if not thorough else 15, share, params,
                      'every way of growing x every way of restarting')


def restart_faults(check, name, judge, problems, params=None, thorough=False, share=1.0, kinds=('nan',), reach=5):
    """Bad values early in runs with restarts on top of every other option."""
    gs = [g for g in configs.GROUP_NAMES if g not in ('reg', 'diag', 'ovf', 'mf', 'pre', 'dyk', 'rst', 'rho')]
    cs = [c for r in RESTARTING[:5] for c in configs.cases(problems, gs, 1, 1, (r, 'rho:mid'))]
    return plan_space(check, name, judge, cs, kinds if not thorough else ('nan', '+inf', '1e200'), (1, 10 ** 6) if not thorough else (1, 3, 10 ** 6), reach if not thorough else 12, share, params,
                      'every way of restarting x every other option')


def plan_space(check, name, judge, cs, kinds, spans, reach, share, params, what):
    def work(task):
        (p, tg), kind = task
        o = Out()
        for k in range(reach):
            for s in spans:
                case = dict(problem=p, toggles=list(tg), seed=0, faults=[[k, kind, s]], cost=100 * len(tg) + k)
                account(o, execute(case, params=params), judge, case)
        return o
    return check.space(name, work, [(c, k) for c in cs for k in kinds], '%s (%d configurations) x bad values %s x first bad evaluation 1..%d x number of bad values in a row %s' % (
        what, len(cs), '/'.join(kinds), reach, '/'.join('all' if s > 1000 else str(s) for s in spans)), share)


NOISY_CFG = [('avg:2', 'tol:abs'), ('avg:3', 'tol:abs', 'rst:soft', 'rho:mid'), ('avg:2', 'tol:rel', 'rst:hold', 'rho:mid'), ('avg:vary', 'tol:abs', 'npt:2n1'),
             ('avg:2', 'rst:hnew', 'rho:mid', 'tol:abs'), ('avg:3', 'grow:one', 'tol:abs'), ('avg:2', 'init:par', 'tol:abs'), ('avg:2', 'rst:nomove', 'rho:mid'),
             ('avg:3', 'regr:1', 'npt:2n1'), ('avg:vary', 'proj:ball', 'tol:rel', 'rst:soft', 'rho:mid'), ('avg:2', 'bnd:active', 'rst:soft', 'rho:mid'),
             ('avg:2', 'slow:fast', 'rst:soft', 'rho:mid')]
NOISY_ONE = ('mul:0', 'mul:1e-3', 'mul:0.3', 'mul:3', 'mul:-1')
NOISY_ALL = ('wob:1e-4', 'wob:0.02', 'wob:0.3', 'drift:0.01', 'drift:-0.01', 'drift:0.2')


def noisy(check, name, judge, problems, params=None, thorough=False, cfg=NOISY_CFG, share=1.0):
    """Runs with several samples per point in which the samples at one point differ: one sample changed at every single
    evaluation index, or all samples perturbed by a fixed noise sequence."""
    cs = [(p, t) for p in problems for t in cfg if configs.valid(configs.spec_of(p, t))]
    faults(check, name + ': one sample changed', judge, cs, NOISY_ONE, share, params, 80 if thorough else 40, False, pairs=thorough)

    def work(task):
        (p, tg), kind, mf = task
        o = Out()
        case = dict(problem=p, toggles=list(tg), seed=0, faults=[[-1, kind]], maxfun=mf, cost=mf)
        account(o, execute(case, params=params), judge, case)
        return o
    return check.space(name + ': every sample changed', work, [(c, k, mf) for c in cs for k in NOISY_ALL for mf in (range(1, 60) if thorough else (3, 4, 7, 8, 12, 19, 30, 60))],
                       '%d configurations x noise sequences %s x budgets' % (len(cs), '/'.join(NOISY_ALL)), share)


LUCKY_CFG = [(), ('init:rand',), ('init:randno',), ('init:par',), ('init:par', 'npt:2n1'), ('init:rand', 'rst:hold', 'rho:mid'), ('init:par', 'rst:hnew', 'rho:mid'),
             ('regr:1',), ('regr:mom', 'npt:2n1'), ('regr:mom', 'rst:soft', 'rho:mid'), ('regr:inc', 'rst:soft', 'rho:mid'), ('grow:one',), ('grow:new1',), ('grow:new3',), ('grow:geom',),
             ('grow:saferd',), ('grow:safegeom',), ('grow:perturb',), ('grow:plain', 'rst:hold', 'rho:mid'), ('grow:one', 'rst:soft', 'rho:mid'), ('grow:new1', 'rst:hincnpt', 'rho:mid'),
             ('rst:soft', 'rho:mid'), ('rst:nomove', 'rho:mid'), ('rst:incnpt', 'rho:mid'), ('rst:incnpt', 'rho:mid', 'npt:2n1'), ('rst:hold', 'rho:mid'), ('rst:hnew', 'rho:mid'),
             ('rst:hincnpt', 'rho:mid'), ('rst:scale', 'rho:mid'), ('npt:2n1',), ('npt:full', 'rst:soft', 'rho:mid'), ('proj:two',), ('proj:ball', 'npt:2n1'), ('proj:two', 'rst:incnpt', 'rho:mid'),
             ('proj:wedge', 'regr:1'), ('proj:half', 'grow:one'), ('bnd:active', 'npt:2n1'), ('bnd:active', 'scal:on', 'rst:soft', 'rho:mid'), ('slow:fast', 'rst:soft'), ('safe:big', 'bnd:active'),
             ('avg:2',), ('avg:2', 'init:par'), ('avg:2', 'init:rand'), ('avg:3', 'regr:mom', 'npt:2n1'), ('avg:2', 'rst:incnpt', 'rho:mid'), ('avg:2', 'grow:new3'), ('avg:vary', 'rst:hold', 'rho:mid'),
             ('reg:l1',), ('reg:l1', 'init:par'), ('reg:l2', 'rst:soft', 'rho:mid'), ('reg:l1', 'regr:1'), ('reg:l1', 'rst:hold', 'rho:mid'), ('reg:l1', 'avg:2')]
LUCKY = ('mul:1e-9', 'mul:0.3')


def lucky(check, name, judge, problems, params=None, thorough=False, groups=None, share=1.0):
    """A much better answer than the true one (the target value, or a moderate improvement) at every single evaluation of
    configurations that between them reach every piece of code which evaluates the objective.  A one-point improvement is the
    best point of the run, so it has to survive everything that follows."""
    cs = [(p, t) for p in problems for t in LUCKY_CFG if configs.valid(configs.spec_of(p, t)) and (groups is None or any(groups(x) for x in t) or not t)]
    return faults(check, name, judge, cs, LUCKY if not thorough else LUCKY + ('mul:0.7', 'mul:-0.05', 'mul:0'), share, params, 100 if thorough else 45, False, pairs=thorough)


NOISY_LAST_CFG = [('avg:2',), ('avg:3', 'npt:2n1'), ('avg:2', 'init:par'), ('avg:2', 'init:rand'), ('avg:2', 'grow:one'), ('avg:2', 'grow:new3'), ('avg:2', 'grow:safegeom'), ('avg:2', 'regr:1'),
                  ('avg:2', 'regr:mom', 'npt:2n1'), ('avg:2', 'rst:soft', 'rho:mid'), ('avg:3', 'rst:nomove', 'rho:mid'), ('avg:2', 'rst:incnpt', 'rho:mid'), ('avg:3', 'rst:incnpt', 'rho:mid', 'proj:two'),
                  ('avg:2', 'rst:hold', 'rho:mid'), ('avg:2', 'rst:hnew', 'rho:mid'), ('avg:2', 'rst:hincnpt', 'rho:mid'), ('avg:vary', 'rst:soft', 'rho:mid'), ('avg:2', 'proj:two'), ('avg:2', 'proj:ball', 'npt:2n1'),
                  ('avg:2', 'slow:fast', 'rst:soft'), ('avg:2', 'bnd:active', 'scal:on'), ('avg:2', 'reg:l1'), ('avg:2', 'reg:l1', 'rst:incnpt', 'rho:mid'), ('avg:2', 'safe:big', 'bnd:active')]


def noisy_last(check, name, judge, problems, params=None, thorough=False, share=1.0):
    """Very good but unequal samples at every single stretch of evaluations, with every budget that ends the run inside or just
    after it: the point which ends the run is the best one, and its mean differs from each of its samples."""
    cs = [(p, t) for p in problems for t in NOISY_LAST_CFG if configs.valid(configs.spec_of(p, t))]

    def work(task):
        (p, tg), kind = task
        o = Out()
        ref = execute(dict(problem=p, toggles=list(tg), seed=0), params=params)
        for k in range(min(len(ref.calls), 120 if thorough else 60)):
            for extra in (1, 2, 3, None) if thorough else (1, 2, 3):
                case = dict(problem=p, toggles=list(tg), seed=0, faults=[[k, kind, 3]], cost=100 + k)
                if extra is not None:
                    case['maxfun'] = k + extra
                account(o, execute(case, params=params), judge, case)
        return o
    return check.space(name, work, [(c, k) for c in cs for k in (('ramp:0.1', 'ramp:1e-9', 'ramp:-0.4') if thorough else ('ramp:0.1',))],
                       '%d configurations with averaging x every evaluation index k x budgets k+1..k+3: samples k..k+2 are replaced by much smaller, unequal ones' % len(cs), share)


def tree(check, name, judge, cases_, menu, depth, bound=None, maxfun=None, share=1.0, params=None, split=None):
    """All answer sequences: bound=None gives the full answer tree over the first `depth` new points, otherwise at
    most `bound` non-default answers among the first `depth` points."""
    na = len(MENUS[menu])
    tasks = []
    for c in cases_:
        if bound is None:
            sp = split if split is not None else min(3, depth)
            for i in range(na ** sp):
                pre = []
                j = i
                for _ in range(sp):
                    pre.append(j % na)
                    j //= na
                tasks.append((c, tuple(pre)))
        else:
            for first in range(depth + 1):
                tasks.append((c, first))

    def work(task):
        (p, tg), part = task
        o = Out()
        spec = configs.spec_of(p, tg)

        def one(ch):
            case = dict(problem=p, toggles=list(tg), seed=0, menu=menu, horizon=depth)
            if maxfun is not None:
                case['maxfun'] = maxfun
            rec = execute(case, chooser=ch, params=params)
            case['choices'] = list(ch.choices)
            case['cost'] = sum(1 for c in ch.choices if c) * 10 + len(ch.choices)
            return rec, case

        if bound is None:
            # prefix enumeration: explore() from the prefix; a prefix longer than the run is a duplicate of a
            # shorter one, explored from the all-zero continuation only
            from mc.explore import Diverged
            try:
                for ch, (rec, case) in explore(one, None, depth, prefix=part, first=len(part)):
                    account(o, rec, judge, case)
            except Diverged:
                # the run ends before the prefix is consumed: execute it once under the shortest prefix
                ch = Chooser(part, None, depth)
                rec, case = one(ch)
                used = len(ch.choices)
                if all(c == 0 for c in part[used:]):
                    account(o, rec, judge, case)
        elif part == depth:
            ch = Chooser((), None, depth)
            rec, case = one(ch)
            account(o, rec, judge, case)
        else:
            for i, (ch, (rec, case)) in enumerate(explore(one, bound, depth, first=part, last=part + 1)):
                if i == 0:
                    continue      # the undeviated run is the task `part == depth`
                account(o, rec, judge, case)
        return o
    cs = list(cases_)
    d = ('the complete tree of answers %s over the first %d new points' % (menu, depth) if bound is None else
         'all choices of at most %d non-default answers from menu %s among the first %d new points' % (bound, menu,
                                                                                                     depth))
    return check.space(name, work, tasks, '%s, for each of the configurations %s' % (d, ', '.join(
        '%s[%s]' % (p, ','.join(t)) for p, t in cs)), share)
