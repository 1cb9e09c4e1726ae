"""C20: results survive a JSON round trip and always print."""
import itertools
import json

import numpy as np
import pandas as pd

from mc import boot, configs, monitors  # noqa: F401
from mc.harness import Check, Out, h64
from . import common
from dfols.solver import OptimResults
import dfols.controller as C

FULL = {'logging.save_diagnostic_info': True, 'logging.save_xk': True, 'logging.save_rk': True, 'logging.save_poisedness': True}
FIELDS = ('x', 'resid', 'obj', 'jacobian', 'nf', 'nx', 'nruns', 'flag', 'msg', 'xmin_eval_num', 'jacmin_eval_nums')


def isnan(v):
    return v is None or (isinstance(v, (float, np.floating)) and np.isnan(v))


def same_value(a, b):
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    if isinstance(a, (np.ndarray, list)) or isinstance(b, (np.ndarray, list)):
        return same_array(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return a == b and np.signbit(float(a)) == np.signbit(float(b))


def same_array(a, b):
    return a.shape == b.shape and np.array_equal(np.isnan(a), np.isnan(b)) and np.array_equal(a[~np.isnan(a)], b[~np.isnan(b)]) and \
        np.array_equal(np.signbit(a[~np.isnan(a)]), np.signbit(b[~np.isnan(b)]))


def same_field(name, a, b):
    if name in ('x', 'resid', 'jacobian', 'jacmin_eval_nums'):
        if a is None or b is None:
            return a is None and b is None
        if not isinstance(b, np.ndarray):
            return False
        if name == 'jacmin_eval_nums' and b.dtype.kind not in 'iu':
            return False
        return same_array(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
    if name == 'msg':
        return isinstance(b, str) and a == b
    return same_value(a, b)


def same_table(a, b):
    if a is None or b is None:
        return None if a is None and b is None else 'table present in only one of them'
    if list(a.columns) != list(b.columns):
        return 'columns %s versus %s' % (list(a.columns), list(b.columns))
    if list(a.index) != list(b.index):
        return 'row labels %s versus %s' % (list(a.index)[:5], list(b.index)[:5])
    for col in a.columns:
        for i, (u, w) in enumerate(zip(a[col].tolist(), b[col].tolist())):
            if not same_value(u, w):
                return 'column %s row %d: %r versus %r' % (col, i, u, w)
    return None


def roundtrip(s):
    v = []
    try:
        text = str(s)
    except Exception as e:
        return [('print', 'str() of the result raises %r' % (e,))]
    if not isinstance(text, str) or not text.strip():
        v.append(('print', 'str() of the result gives %r' % (text,)))
    before = json.dumps({f: repr(getattr(s, f)) for f in FIELDS})
    for mode, kw in (('default', {}), ('replace_nan=True', dict(replace_nan=True)), ('replace_nan=False', dict(replace_nan=False))):
        strict = mode != 'replace_nan=False'
        try:
            d = s.to_dict(**kw)
        except Exception as e:
            v.append(('to_dict', 'to_dict(%s) raises %r' % (mode, e)))
            continue
        try:
            text_json = json.dumps(d, allow_nan=not strict)
        except Exception as e:
            v.append(('json', 'to_dict(%s) is not %sJSON-serialisable: %r' % (mode, 'strictly ' if strict else '', e)))
            continue
        try:
            t = OptimResults.from_dict(json.loads(text_json))
        except Exception as e:
            v.append(('from_dict', 'from_dict after to_dict(%s) raises %r' % (mode, e)))
            continue
        for f in FIELDS:
            if not same_field(f, getattr(s, f), getattr(t, f)):
                v.append(('field', '%s: field %s was %r, reloaded as %r' % (mode, f, getattr(s, f), getattr(t, f))))
        bad = same_table(s.diagnostic_info, t.diagnostic_info)
        if bad:
            v.append(('table', '%s: diagnostic table: %s' % (mode, bad)))
        try:
            text2 = str(t)
        except Exception as e:
            v.append(('print', '%s: str() of the reloaded result raises %r' % (mode, e)))
            continue
        if text2 != text:
            v.append(('str', '%s: str() differs after the round trip:\n%s\n%s' % (mode, text, text2)))
        # a second trip from the reloaded object
        try:
            json.dumps(t.to_dict(**kw), allow_nan=not strict)
        except Exception as e:
            v.append(('again', '%s: to_dict of the reloaded result raises %r' % (mode, e)))
    if json.dumps({f: repr(getattr(s, f)) for f in FIELDS}) != before or str(s) != text:
        v.append(('changed', 'the original result was changed by to_dict / from_dict'))
    return v


def judge(rec, o=None):
    s = rec.soln
    if s is None or s.flag == -1:
        return []
    if o is not None:
        o.count('round_trips')
        if s.jacobian is None:
            o.count('no_jacobian')
        if s.diagnostic_info is not None:
            o.count('with_table')
        if not np.isfinite(s.obj):
            o.count('nonfinite_obj')
    return roundtrip(s)


# ------------------------------------------------------------------------------------------------ synthetic results

NAN, INF = float('nan'), float('inf')


def A(*v):
    return np.array(v, dtype=float)


def _tables():
    """Real diagnostic tables of several shapes, plus the same with special entries."""
    out = {'none': None}
    for nm, tg, kw, par in (('plain', (), {}, {'logging.save_diagnostic_info': True, 'logging.save_poisedness': False}), ('full', (), {}, FULL), ('restarts', ('rst:soft', 'rho:mid'), {}, FULL),
                            ('short', (), {'maxfun': 4}, FULL), ('x0', (), {'maxfun': 1}, FULL), ('init', (), {'maxfun': 2}, FULL)):
        rec = common.execute(dict(problem='lin2', toggles=list(tg)), params=par, kwargs=kw)
        out[nm] = None if rec.soln is None else rec.soln.diagnostic_info
    t = out['full']
    if t is not None:
        for nm, cell in (('nan', NAN), ('inf', INF), ('-inf', -INF), ('None', None), ('tiny', 5e-324), ('long', 0.1 + 0.2)):
            u = t.copy()
            u['fk'] = [cell if i % 2 else x for i, x in enumerate(u['fk'])]
            u['norm_gk'] = [cell for _ in range(len(u))]
            u['ratio'] = pd.Series([cell] * len(u), dtype=object)
            u['xk'] = [np.array([1.0 if cell is None else cell, 2.0]) for _ in range(len(u))]
            u['rk'] = [np.array([3.0, NAN if cell is None else cell, -0.0]) for _ in range(len(u))]
            out['cells ' + nm] = u
        out['one row'] = t.iloc[:1].copy()
        out['twelve'] = pd.concat([t] * (1 + 12 // max(1, len(t))), ignore_index=True)
        out['no rows'] = t.iloc[:0].copy()
    return out


def alphabets():
    long_ = np.linspace(-1, 1, 120)
    jacs = [('none', None), ('1x1', A(2.5).reshape(1, 1)), ('2x2', np.array([[1.0, -0.0], [1e-17, 1e300]])), ('nan', np.array([[NAN, 1.0], [2.0, NAN]])), ('allnan', np.full((2, 2), NAN)),
            ('inf', np.array([[INF, 1.0], [-INF, 0.1]])), ('199', np.linspace(0, 1, 199).reshape(199, 1)), ('200', np.linspace(0, 1, 200).reshape(100, 2)), ('1xn', np.array([[0.1, 0.2, 0.3]])), ('wide', np.linspace(0, 1, 60).reshape(3, 20))]
    return [
        ('x', [('2', A(0.1, -7.25)), ('1', A(1e-300)), ('negzero', A(-0.0, 0.0)), ('nan', A(NAN, 1.0)), ('inf', A(INF, -INF)), ('long', long_), ('thirds', A(1 / 3.0, 2 / 3.0)), ('tiny', A(5e-324, 1.7976931348623157e308))]),
        ('resid', [('2', A(0.5, 0.25)), ('1', A(-3.0)), ('nan', A(NAN, 0.0)), ('allnan', A(NAN, NAN)), ('inf', A(INF, -INF)), ('99', long_[:99]), ('100', np.linspace(0, 1, 100)), ('101', np.linspace(0, 1, 101)), ('big', A(1e308, 1e-308)), ('third', A(1 / 3.0))]),
        ('obj', [('1.25', 1.25), ('0', 0.0), ('nan', NAN), ('inf', INF), ('-inf', -INF), ('np', np.float64(0.1)), ('npnan', np.float64(NAN)), ('tiny', 5e-324), ('max', 1.7976931348623157e308), ('third', 1 / 3.0), ('neg', -2.5), ('f32', np.float32(0.1)), ('int', 3)]),
        ('jacobian', jacs),
        ('nf', [('9', 9), ('1', 1), ('np', np.int64(12)), ('1234567', 1234567), ('float', 8.0)]),
        ('nx', [('7', 7), ('1', 1), ('np', np.int64(5)), ('10000000', 10000000)]),
        ('nruns', [('1', 1), ('2', 2), ('np', np.int64(3)), ('100', 100)]),
        ('flag', [(str(f), f) for f in sorted(set(getattr(C, k) for k in dir(C) if k.startswith('EXIT_')) - {-1}) if isinstance(f, int) and -10 < f < 10]),
        ('msg', [('plain', 'Success: rho has reached rhoend'), ('one', 'x'), ('quotes', 'a "b" \'c\' \\ / \n\t end'), ('unicode', u'\u03c1 \u2264 \u0394 \U0001f600'), ('nanword', 'NaN'), ('nullword', 'null'), ('infword', 'Infinity')]),
        ('xmin_eval_num', [('3', 3), ('1', 1), ('np', np.int64(7)), ('0', 0), ('2000000', 2000000)]),
        ('jacmin_eval_nums', [('3', np.array([1, 2, 3])), ('none', None), ('one', np.array([5])), ('99', np.arange(1, 100)), ('100', np.arange(1, 101)), ('120', np.arange(120)), ('i32', np.array([4, 5], dtype=np.int32)), ('big', np.array([2 ** 40, -1]))]),
        ('diagnostic_info', sorted(_tables().items(), key=lambda t: t[0] != 'none')),
    ]


ALPHA = None


def synthetic(choice):
    """choice: {field: label} for the fields off their first value."""
    global ALPHA
    if ALPHA is None:
        ALPHA = alphabets()
    vals = {}
    for f, opts in ALPHA:
        lab = choice.get(f, opts[0][0])
        vals[f] = dict(opts)[lab]
        if isinstance(vals[f], np.ndarray):
            vals[f] = vals[f].copy()
    s = OptimResults(vals['x'], vals['resid'], vals['obj'], vals['jacobian'], vals['nf'], vals['nx'], vals['nruns'], vals['flag'], vals['msg'], vals['xmin_eval_num'], vals['jacmin_eval_nums'])
    s.diagnostic_info = vals['diagnostic_info']
    return s


def replay(case):
    if 'choice' in case:
        return roundtrip(synthetic(case['choice']))
    return judge(common.execute(dict(case), params=FULL if case.get('table') else None))


def main():
    ck = Check('C20', 'exploration',
               'a case is one result object (returned by a complete run of an enumerated configuration, or built from a combination of field values) put through to_dict/json/from_dict/str in '
               'all three NaN modes; distinct by evaluation sequence and outcome, or by combination of field values', ['None and NaN count as the same entry (as the property says)'])
    global ALPHA
    ALPHA = alphabets()
    T = ck.thorough
    tab = dict(table=True)
    probs = ['lin2', 'rosen', 'sq1', 'under2'] if not T else list(configs.PROBLEMS)
    gs = [g for g in configs.GROUP_NAMES if g not in ('reg', 'diag')]
    hot = ('npt', 'rst', 'rho', 'mf', 'grow', 'avg', 'proj')
    common.sweep(ck, 'options with table', judge, probs, gs, 2, params=FULL, extra=tab, only=lambda p, t: len(t) < 2 or T or (p == 'lin2' and all(x.split(':')[0] in hot for x in t)))
    common.sweep(ck, 'options', judge, probs, gs, 2, only=lambda p, t: len(t) < 2 or T or (p in ('rosen', 'sq1') and all(x.split(':')[0] in hot for x in t)))
    common.sweep(ck, 'regularised', judge, ['lin2'], ['reg', 'bnd', 'rst', 'mf'], 2, 1, params=FULL, extra=tab, only=lambda p, t: any(x in ('reg:l1', 'reg:l2') for x in t))
    kinds = ('nan', '+inf', '-inf', '1e200', 'nan@0', '+inf@1', '1e154', '1e308')
    for nm, par, ex in (('bad answers with table', FULL, True), ('bad answers', None, False)):
        tasks = [dict(problem=p, toggles=list(t), faults=[[k, kind]], cost=k, **(tab if ex else {})) for p in (('lin2', 'rosen') if not T else probs) for t in [(), ('rst:soft', 'rho:mid'), ('rst:hold', 'rho:mid'), ('grow:one',), ('npt:2n1',), ('avg:2',)]
                 if configs.valid(configs.spec_of(p, t)) for k in [-1] + list(range(0, 9 if not T else 30)) for kind in kinds]
        common.overrides(ck, nm, judge, common.chunks(tasks, 12), 'every kind of bad value (%s) at each of the first evaluations and at all' % '/'.join(kinds), params=par)
    tasks = [dict(problem=p, toggles=list(t), maxfun=mf, cost=mf, **tab) for p, t in [('lin2', ()), ('rosen', ('rst:soft', 'rho:mid')), ('rosen', ('rst:hold', 'rho:mid')), ('lin2', ('avg:2',)), ('lin3', ('npt:2n1',)), ('under2', ('grow:one',)),
             ('lin2', ('proj:two',)), ('lin2', ('init:rand',)), ('lin2', ('bnd:active', 'scal:on')), ('fit2', ()), ('fit2', ('tol:zero', 'rho:long'))] for mf in range(1, 26 if not T else 60)]
    common.overrides(ck, 'every budget', judge, common.chunks(tasks, 12), 'every budget from 1', params=FULL)
    common.tree(ck, 'trees of bad answers', judge, [('lin1', ()), ('sq1', ('rst:soft', 'rho:mid')), ('lin1', ('rst:hold', 'rho:mid'))], 'badtree', 6 if T else 4, maxfun=10)

    fields = [(f, [lab for lab, _ in opts]) for f, opts in ALPHA]
    combos = [{}]
    for r in (1, 2, 3) if T else (1, 2):
        for fs in itertools.combinations(fields, r):
            for labs in itertools.product(*[labels[1:] for _, labels in fs]):
                combos.append(dict(zip([f for f, _ in fs], labs)))

    def work(chunk):
        o = Out()
        for ch in chunk:
            o.n += 1
            o.transitions += 3
            o.states.add(h64(sorted(ch.items())))
            for kind, what in roundtrip(synthetic(ch)):
                o.violation(kind, '%s: %s' % (ch, what), dict(choice=ch, cost=len(ch)))
            if o.sample is None:
                o.sample = dict(case=dict(choice=ch))
        return o
    ck.space('field combinations', work, common.chunks(combos, 32), 'all combinations of at most %d fields off their default value, from the alphabets %s' % (3 if T else 2, {f: labels for f, labels in fields}))
    ck.finish()


if __name__ == '__main__':
    main()
