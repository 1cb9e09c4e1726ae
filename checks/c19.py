"""C19: results depend only on the arguments; the caller's data are never modified."""
import functools
import itertools
import json
import multiprocessing as mp
import os
import subprocess
import sys

import numpy as np

from mc import boot, configs, monitors, runner
from mc.explore import Chooser
from mc.harness import Check, Out, cpu_limit, h64
from . import common
import dfols

DIAG = None
SEEDS = (0, 987654)


# ------------------------------------------------------------------------------------------------ one case, several random states

def compare(a, b, what):
    d = monitors.diff_fingerprint(monitors.fingerprint(a), monitors.fingerprint(b))
    return [] if d is None else [('differs', '%s: %s' % (what, d))]


def changed(rec):
    return [('inputs', 'solve modified the caller\'s %s' % nm) for nm in rec.inputs_changed]


def judge_case(case, o=None):
    """Runs the case under every state of the global generator."""
    ref = None
    v = []
    for seed in SEEDS if not case.get('random') else SEEDS[:1]:
        c = dict(case, seed=seed)
        if case.get('menu'):
            rec = common.execute(c, chooser=Chooser(case['choices'], None, case.get('horizon')))
        else:
            rec = common.execute(c)
        v += changed(rec)
        if o is not None:
            o.n += 1
            o.transitions += len(rec.calls)
            o.states.add(common.behaviour(rec))
        if ref is None:
            ref = rec
        else:
            v += compare(ref, rec, 'global generator seeded with %d and %d' % (SEEDS[0], seed))
    return v, ref


def replay(case):
    if 'history' in case:
        return run_history(case['history'])[0]
    if 'layout' in case:
        return run_layout(case['config'], tuple(case['layout']))[0]
    if 'hull' in case:
        return run_hull(case)[0]
    if 'reuse' in case:
        return run_reuse(case['reuse'])[0]
    if 'hashseed' in case:
        return run_processes(case['hashseed'])[0]
    return judge_case(case)[0]


def cases_space(ck, name, cs, describe):
    def work(chunk):
        o = Out()
        for case in chunk:
            v, ref = judge_case(case, o)
            for kind, what in v:
                o.violation(kind, '%s %s: %s' % (case['problem'], ','.join(case['toggles']), what), dict(case))
            if ref.soln is not None:
                o.count('flag_%s' % ref.soln.flag)
                if ref.restarts:
                    o.count('with_restarts')
            if o.sample is None:
                o.sample = dict(case=dict(case), evaluations=len(ref.calls))
        return o
    ck.space(name, work, common.chunks(cs, 6), describe)


def sweep_cases(problems, groups, k, kmin=0, must=(), only=None):
    out = []
    for p, t in configs.cases(problems, groups, k, kmin, must):
        if only is not None and not only(p, t):
            continue
        c = dict(problem=p, toggles=list(t), cost=len(t))
        if configs.spec_of(p, t).random or any(x.startswith('grow:') for x in t):
            c['random'] = True       # random directions are documented for this option: only "inputs unchanged" is judged
        out.append(c)
    return out


# ------------------------------------------------------------------------------------------------ histories of calls

HISTORY = [('lin2', ()), ('lin2', ('bnd:active',)), ('lin2', ('bnd:active', 'scal:on')), ('rosen', ('rst:soft', 'rho:mid')), ('rosen', ('rst:hold', 'rho:mid')), ('lin2', ('proj:two',)),
           ('lin2', ('bnd:active', 'proj:ball')), ('lin2', ('reg:l1args',)), ('under2', ('grow:one',)), ('nl2', ('npt:2n1',)), ('lin3', ()), ('sq1', ('bnd:hair_lo',)), ('lin2', ('diag:full',)),
           ('lin2', ('avg:2', 'noise:flag')), ('lin2', ('npt:big',)), ('rosen', ('rst:incnpt', 'rho:mid')), ('lin2', ('init:rand',)), ('const2', ('slow:fast', 'rst:soft')), ('lin2', ('bnd:lower',)),
           ('lin2', ('tol:abs', 'mu:1')), ('lin2', ('bnd:upper', 'tr:a')), ('lin2', ('reg:l2', 'bnd:active')), ('lin2', ('dyk:few', 'proj:wedge')), ('lin2', ('mf:2',)), ('lin2', ('pre:off', 'base:always'))]
BAD = 'input error'


def one_call(i):
    """(fingerprint, inputs changed) of call number i of the menu; the last entry of the menu is an invalid call."""
    if i == len(HISTORY):
        try:
            s = dfols.solve(lambda x: np.array(x), np.array([0.1, 0.2]), maxfun=-1, user_params={'tr_radius.gamma_dec': 0.3})
            return [('flag', s.flag)], []
        except ValueError:
            return [('exc', 'ValueError')], []
    p, t = HISTORY[i]
    rec = common.execute(dict(problem=p, toggles=list(t), seed=7, maxfun=25))
    return monitors.fingerprint(rec), changed(rec)


def _fresh(i):
    return one_call(i)[0]


BASE = None


def baselines():
    global BASE
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        BASE = pool.map(_fresh, range(len(HISTORY) + 1), chunksize=1)


def run_history(h):
    if BASE is None:
        baselines()
    v = []
    fps = []
    for pos, i in enumerate(h):
        fp, ch = one_call(i)
        fps.append(fp)
        v += ch
        d = monitors.diff_fingerprint(BASE[i], fp)
        if d is not None:
            v.append(('history', 'call %d of the history %s is not what the same call gives in a fresh process: %s' % (pos + 1, [HISTORY[j] if j < len(HISTORY) else BAD for j in h], d)))
    return v, h64(repr(h)), sum(len(f[0][1]) for f in fps if f[0][0] == 'calls')


# ------------------------------------------------------------------------------------------------ argument objects

def layouts():
    """How the same values can be handed over."""
    def plain(a):
        return np.array(a, dtype=float), None

    def readonly(a):
        b = np.array(a, dtype=float)
        b.flags.writeable = False
        return b, b

    def strided(a):
        big = np.full(2 * len(a) + 1, 77.25)
        big[1::2] = a
        return big[1::2], big

    def reversed_(a):
        big = np.array(a[::-1], dtype=float)
        return big[::-1], big

    def column(a):
        big = np.full((len(a), 3), -5.5, order='C')
        big[:, 1] = a
        return big[:, 1], big

    def f32(a):
        b = np.array(a, dtype=np.float32)
        return b, b

    def ints(a):
        if all(float(v).is_integer() for v in a):
            b = np.array(a, dtype=int)
            return b, b
        return None, None
    return dict(plain=plain, readonly=readonly, strided=strided, reversed=reversed_, column=column, f32=f32, int=ints)


LAYOUTS = layouts()
# values exactly representable in single precision (and integers where possible)
CONFIGS = {
    'free': dict(x0=[1.0, -2.0]),
    'box': dict(x0=[1.0, 0.0], lo=[0.0, -3.0], hi=[4.0, 2.0]),
    'scaled': dict(x0=[1.0, 0.0], lo=[0.0, -3.0], hi=[4.0, 2.0], scaled=True),
    'infeasible': dict(x0=[9.0, -8.0], lo=[0.0, -3.0], hi=[4.0, 2.0]),
    'onbound': dict(x0=[0.0, 2.0], lo=[0.0, -3.0], hi=[4.0, 2.0]),
    'onesided': dict(x0=[1.0, 0.0], lo=[0.5, -3.0]),
    'projected': dict(x0=[1.0, 0.0], proj=True),
    'projbox': dict(x0=[1.0, 0.0], lo=[0.0, -3.0], hi=[4.0, 2.0], proj=True),
    'reg': dict(x0=[1.0, 0.0], reg=True),
    'hard': dict(x0=[1.0, 0.0], lo=[0.0, -3.0], hi=[4.0, 2.0], params={'restarts.use_restarts': True, 'restarts.use_soft_restarts': False, 'restarts.max_unsuccessful_restarts': 2}),
    'diag': dict(x0=[1.0, 0.0], params={'logging.save_diagnostic_info': True, 'logging.save_xk': True}),
    'mids': dict(x0=[0.5, 0.25], lo=[0.25, -3.5], hi=[4.0, 2.0]),
}
A2 = np.array([[1.0, 0.4], [-0.3, 1.1], [0.5, 0.2]])


def _fun(calls, x, shift):
    calls.append(np.array(x).tobytes())
    return A2.dot(x) - np.array([1.0, 0.7, -0.4]) * shift + 0.1 * x[0] ** 2


def build(cfg, lay):
    c = CONFIGS[cfg]
    kw = {}
    watch = []

    def put(vals, how, nm):
        a, owner = LAYOUTS[how](vals)
        if a is None:
            a, owner = LAYOUTS['plain'](vals)
        owner = a if owner is None else owner
        watch.append((nm, owner, owner.copy()))
        return a
    x0 = put(c['x0'], lay[0], 'x0')
    if 'lo' in c:
        kw['bounds'] = (put(c['lo'], lay[1], 'lower bound'), put(c['hi'], lay[2], 'upper bound') if 'hi' in c else None)
    if c.get('scaled'):
        kw['scaling_within_bounds'] = True
    if c.get('proj'):
        kw['projections'] = [functools.partial(runner.pball_, np.array([1.5, 0.25]), 1.25)]
    if c.get('reg'):
        kw.update(h=lambda x: 0.3 * np.sum(np.abs(x)), prox_uh=lambda x, u: np.sign(x) * np.maximum(np.abs(x) - 0.3 * u, 0.0), lh=0.3 * np.sqrt(2))
        kw['user_params'] = {'func_tol.max_iters': 30}
    if 'params' in c:
        kw['user_params'] = dict(c['params'])
    kw.update(maxfun=25, rhoend=1e-4 if c.get('scaled') else 1e-3, argsf=(1.0,))
    return x0, kw, watch


def call(x0, kw, watch, v, label):
    calls = []
    pcopy = dict(kw['user_params']) if 'user_params' in kw else None
    plist = list(kw['projections']) if 'projections' in kw else None
    rec = runner.Record()
    kw = dict(kw)
    args = kw.pop("argsf")
    try:
        with cpu_limit(20):
            rec.soln = dfols.solve(lambda x, s: _fun(calls, x, s), x0, argsf=args, **kw)
    except Exception as e:
        rec.exc = e
        v.append(('layout_exception', '%s raises %r' % (label, e)))
    for nm, owner, copy in watch:
        if not np.array_equal(owner, copy) or owner.dtype != copy.dtype:
            v.append(('inputs', '%s: solve modified the caller\'s %s' % (label, nm)))
            owner.flags.writeable and owner.__setitem__(Ellipsis, copy)
    if pcopy is not None and (list(kw['user_params'].items()) != list(pcopy.items())):
        v.append(('inputs', '%s: solve modified the caller\'s user_params' % label))
    if plist is not None and (len(plist) != len(kw['projections']) or any(a is not b for a, b in zip(plist, kw['projections']))):
        v.append(('inputs', '%s: solve modified the caller\'s list of projections' % label))
    rec.calls = [(np.frombuffer(c), None) for c in calls]
    return rec


def run_layout(cfg, lay):
    v = []
    np.random.seed(3)
    ref = call(*build(cfg, ('plain',) * 3), v, '%s plain' % cfg)
    np.random.seed(4)
    rec = call(*build(cfg, lay), v, '%s %s' % (cfg, lay))
    v += compare(ref, rec, '%s: arguments handed over as %s instead of plain arrays' % (cfg, lay))
    return v, h64(cfg, lay), len(rec.calls)


def run_reuse(cfg):
    """The very same argument objects used for three successive calls."""
    v = []
    x0, kw, watch = build(cfg, ('plain',) * 3)
    recs = []
    for k in range(3):
        np.random.seed(11 + k)
        recs.append(call(x0, kw, watch, v, '%s call %d' % (cfg, k + 1)))
    for k in (1, 2):
        v += compare(recs[0], recs[k], '%s: calls 1 and %d with the same argument objects' % (cfg, k + 1))
    return v, h64('reuse', cfg), sum(len(r.calls) for r in recs)


# ------------------------------------------------------------------------------------------------ degenerate feasible sets

def hull_projection(V):
    """Exact Euclidean projector onto the convex hull of the rows of V (few points): best over all faces."""
    V = np.array(V, dtype=float)
    faces = [f for r in range(1, min(len(V), V.shape[1] + 1) + 1) for f in itertools.combinations(range(len(V)), r)]

    def proj(x):
        best, bd = None, np.inf
        for f in faces:
            P = V[list(f)]
            if len(f) == 1:
                y = P[0].copy()
            else:
                B = (P[1:] - P[0]).T
                c, _, rk, _ = np.linalg.lstsq(B, x - P[0], rcond=None)
                if rk < B.shape[1] or np.min(c) < -1e-15 or np.sum(c) > 1 + 1e-15:
                    continue
                y = x.copy() if B.shape[1] == len(x) else P[0] + B.dot(c)
            d = np.linalg.norm(x - y)
            if d < bd * (1 - 1e-14) - 1e-300:
                best, bd = y, d
        return best
    return proj


def hulls(T):
    """Simplices with a vertex at the starting point 0, and the other vertices from a grid."""
    g2 = [(-0.3, 0.0), (0.3, 0.3), (0.3, 0.0), (0.0, 0.3), (0.0, -0.3), (-0.3, 0.3), (0.3, -0.3), (-0.3, -0.3)]
    for a, b in itertools.combinations(g2, 2):
        if abs(a[0] * b[1] - a[1] * b[0]) > 1e-3:
            yield [(0.0, 0.0), a, b]
    g3 = [v for v in itertools.product((-0.3, 0.0, 0.3), repeat=3) if any(v)]
    if not T:
        g3 = [v for v in g3 if sum(1 for c in v if c) != 1]
    k = 0
    for a, b, c in itertools.combinations(g3, 3):
        if abs(np.linalg.det(np.array([a, b, c]))) > 1e-3:
            k += 1
            if T or k % 8 == 0:
                yield [(0.0, 0.0, 0.0), a, b, c]


def run_hull(case):
    V = case['hull']
    n = len(V[0])
    v = []
    recs = []
    for seed in SEEDS[:2]:
        rec = runner.Record()
        np.random.seed(seed)
        calls = []

        def f(x):
            calls.append(np.array(x))
            return np.append(x - np.linspace(-0.2, 0.4, n), x[0] * x[-1])
        try:
            with cpu_limit(20):
                rec.soln = dfols.solve(f, np.zeros(n), projections=[hull_projection(V)], maxfun=n + 2, rhobeg=case['rhobeg'], rhoend=1e-3)
        except Exception as e:
            rec.exc = e
        rec.calls = [(c, None) for c in calls]
        recs.append(rec)
    v += compare(recs[0], recs[1], 'feasible set conv%s, rhobeg=%g, global generator seeded with %d and %d' % (V, case['rhobeg'], SEEDS[0], SEEDS[1]))
    return v, common.behaviour(recs[0]), sum(len(r.calls) for r in recs)


# ------------------------------------------------------------------------------------------------ separate processes

CHILD = """
import json, sys
sys.path.insert(0, %r)
from checks import c19
print('FP', json.dumps([repr(c19.one_call(i)[0]) for i in range(len(c19.HISTORY) + 1)]))
"""


def run_processes(hs):
    if BASE is None:
        baselines()
    env = dict(os.environ, PYTHONHASHSEED=str(hs), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '-B', '-c', CHILD % boot.VERIF], capture_output=True, text=True, env=env, timeout=300)
    lines = [ln for ln in r.stdout.splitlines() if ln.startswith('FP ')]
    if not lines:
        raise RuntimeError('child process failed: ' + r.stderr[-500:])
    v = []
    for i, fp in enumerate(json.loads(lines[0][3:])):
        if fp != repr(BASE[i]):
            v.append(('process', 'call %s gives another result in a process with hash seed %s' % (HISTORY[i] if i < len(HISTORY) else BAD, hs)))
    return v, h64('hs', hs), sum(len(b[0][1]) for b in BASE if b[0][0] == 'calls')


def simple_space(ck, name, tasks, fn, mk, describe, per=4):
    def work(chunk):
        o = Out()
        for t in chunk:
            v, h, ev = fn(t)
            o.n += 1
            o.transitions += ev
            o.states.add(h)
            for kind, what in v:
                o.violation(kind, what, mk(t))
            if o.sample is None:
                o.sample = dict(case=mk(t), evaluations=ev)
        return o
    ck.space(name, work, common.chunks(tasks, per), describe)


def main():
    ck = Check('C19', 'exploration',
               'a case is one set of arguments executed under several states of the global generator (or histories of calls / argument layouts) and compared bit for bit; '
               'distinct by evaluation sequence and outcome',
               ['options for which the documentation promises random directions (random initialisation, growing phases, npt > (n+1)(n+2)/2, regression momentum, '
                'increasing npt at restarts) are exempt from the comparison, not from the caller-data part'])
    T = ck.thorough
    baselines()
    gs = [g for g in configs.GROUP_NAMES if g not in ('mf',)]
    probs = ['lin2', 'rosen', 'under2', 'sq1'] if not T else list(configs.PROBLEMS)
    hot = ('bnd', 'proj', 'rst', 'grow', 'npt', 'scal', 'avg', 'rho', 'slow')
    cases_space(ck, 'options', sweep_cases(probs, [g for g in gs if g != 'reg'], 2, only=lambda p, t: T or len(t) < 2 or (p in ('lin2', 'rosen') and all(x.split(':')[0] in hot for x in t))),
                'problems %s x at most 2 options, each under %d states of the global generator' % ('/'.join(probs), len(SEEDS)))
    for must in ('rst:soft', 'rst:hold', 'rst:nomove'):
        cases_space(ck, 'restarts %s' % must, sweep_cases(['rosen', 'under2'] if not T else probs, ['npt', 'bnd', 'grow', 'avg', 'proj', 'slow', 'auto', 'regr', 'noise'], 2 if T else 1, 1, must=(must, 'rho:mid')),
                    'restart mode x options')
    cases_space(ck, 'regularised', sweep_cases(['lin2'], list(hot) + ['reg'], 2, 1, only=lambda p, t: any(x.startswith('reg:') for x in t)), 'regularised problem x options')
    cases_space(ck, 'faults', [dict(problem=p, toggles=list(t), faults=[[k, kind]], cost=k) for p in ('lin2', 'rosen') for t in [(), ('rst:soft', 'rho:mid'), ('grow:one',), ('npt:2n1',), ('proj:two',)]
                               for k in range(0, 16 if not T else 40) for kind in ('nan', '+inf')], 'a non-finite value at each of the first evaluations')
    trees = [dict(problem=p, toggles=list(t), menu='rank3', choices=list(c), horizon=6, maxfun=14, cost=6) for p, t in [('lin1', ()), ('lin1', ('rst:soft', 'rho:mid')), ('lin2', ('rst:hold', 'rho:mid')),
             ('lin2', ('proj:two',)), ('lin2', ('npt:2n1',))] for c in itertools.product(range(3), repeat=6 if T else 4)]
    cases_space(ck, 'answer trees', trees, 'all sequences of relative answers over the first evaluations')
    simple_space(ck, 'histories', [list(h) for r in ((2, 3) if T else (2,)) for h in itertools.product(range(len(HISTORY) + 1), repeat=r)], run_history, lambda t: dict(history=list(t), cost=len(t)),
                 'all sequences of %s calls from a menu of %d, each call compared with the same call in a fresh process' % ('2 and 3' if T else '2', len(HISTORY) + 1), 8)
    lays = list(itertools.product(LAYOUTS, repeat=3)) if T else [t for t in itertools.product(LAYOUTS, repeat=3) if sum(1 for x in t if x != 'plain') <= 2]
    tasks = []
    for c in CONFIGS:
        for lay in lays:
            if 'lo' not in CONFIGS[c] and (lay[1] != 'plain' or lay[2] != 'plain'):
                continue
            if 'hi' not in CONFIGS[c] and lay[2] != 'plain':
                continue
            tasks.append((c, lay))
    simple_space(ck, 'layouts', tasks, lambda t: run_layout(*t), lambda t: dict(config=t[0], layout=list(t[1]), cost=1), 'the same values of x0 and bounds as read-only / strided / reversed / column / single / integer arrays', 8)
    simple_space(ck, 'reuse', list(CONFIGS), run_reuse, lambda t: dict(reuse=t, cost=1), 'three successive calls with the same argument objects', 1)
    simple_space(ck, 'degenerate sets', [dict(hull=[list(q) for q in V], rhobeg=rb, cost=len(V)) for V in hulls(T) for rb in (1.0, 0.1)], run_hull, lambda t: dict(t),
                 'simplices in 2 and 3 dimensions with x0 at a vertex', 16)
    simple_space(ck, 'processes', [0, 1, 'random'] if not T else [0, 1, 2, 3, 4, 'random'], run_processes, lambda t: dict(hashseed=t, cost=1), 'fresh processes with different string hash seeds', 1)
    ck.finish()


if __name__ == '__main__':
    main()
