"""C06: regularised linear least squares solved to (1e-3 relative) global optimality, on every instance of a finite grid."""
import itertools

import numpy as np

from mc import boot  # noqa: F401
from mc.harness import Check, Hang, Out, cpu_limit, h64
from . import common
from .c05 import matrix, rhs, start
import dfols


# --------------------------------------------------------------------------------------------------- regularisers
class Reg(object):
    """h, prox and Lipschitz constant; with the extra-argument conventions, the functions insist on their arguments."""

    def __init__(self, kind, lam, n, conv):
        self.kind, self.lam, self.n, self.conv = kind, lam, n, conv
        self.centre = np.resize([0.5, -1.0], n)
        self.w = np.resize([1.0, 3.0, 0.5], n)
        self.bad = None
        self.nh = self.np = 0
        self.tok = object()
        ah = {'none': (), 'h': (lam,), 'prox': (), 'both': (lam,), 'two': (lam, self.tok)}[conv]
        ap = {'none': (), 'h': (), 'prox': (lam,), 'both': (lam,), 'two': (self.tok, lam)}[conv]
        self.argsh, self.argsprox = ah, ap

    def lip(self):
        return self.lam * {'l1': np.sqrt(self.n), 'l2': 1.0, 'wl1': float(np.linalg.norm(self.w)), 'sl1': np.sqrt(self.n)}[self.kind]

    def value(self, x):
        if self.kind == 'l1':
            return self.lam * float(np.sum(np.abs(x)))
        if self.kind == 'wl1':
            return self.lam * float(np.sum(self.w * np.abs(x)))
        if self.kind == 'sl1':
            return self.lam * float(np.sum(np.abs(x - self.centre)))
        return self.lam * float(np.linalg.norm(x))

    def proxval(self, x, u):
        if self.kind in ('l1', 'wl1', 'sl1'):
            c = self.centre if self.kind == 'sl1' else 0.0
            t = u * self.lam * (self.w if self.kind == 'wl1' else 1.0)
            z = x - c
            return c + np.sign(z) * np.maximum(np.abs(z) - t, 0.0)
        nx = float(np.linalg.norm(x))
        return x * max(0.0, 1 - u * self.lam / nx) if nx > 0 else np.zeros_like(x)

    def h(self, x, *a):
        self.nh += 1
        if not self.same(a, self.argsh):
            self.bad = 'h called with extra arguments %r instead of %r' % (a, self.argsh)
        return self.value(np.asarray(x, float))

    def prox(self, x, u, *a):
        self.np += 1
        if not self.same(a, self.argsprox):
            self.bad = 'prox_uh called with extra arguments %r instead of %r' % (a, self.argsprox)
        return self.proxval(np.asarray(x, float), u)

    @staticmethod
    def same(a, b):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def objective(A, b, reg, x):
    r = A.dot(x) - b
    return float(r.dot(r)) + reg.value(x)


# --------------------------------------------------------------------------------------------------------- oracle
def optimum(A, b, reg, lo, hi, x0):
    """Minimum of ||Ax-b||^2 + h over the box, and a certified lower bound on it."""
    n = A.shape[1]
    if reg.kind == 'l2':
        return opt_l2(A, b, reg, lo, hi)
    # separable piecewise-linear h: every coordinate is at a bound, at the kink, or free with a fixed sign -> exact KKT enumeration
    w = reg.lam * (reg.w if reg.kind == 'wl1' else np.ones(n))
    c = reg.centre if reg.kind == 'sl1' else np.zeros(n)
    G, q = 2 * A.T.dot(A), 2 * A.T.dot(b)
    L = np.full(n, -np.inf) if lo is None else lo
    U = np.full(n, np.inf) if hi is None else hi
    best, bx = np.inf, None
    opts = []
    for i in range(n):
        o = [('free', 1), ('free', -1)]
        if L[i] <= c[i] <= U[i]:
            o.append(('fix', c[i]))
        if np.isfinite(L[i]) and L[i] > -1e19:
            o.append(('fix', L[i]))
        if np.isfinite(U[i]) and U[i] < 1e19:
            o.append(('fix', U[i]))
        opts.append(o)
    for act in itertools.product(*opts):
        fr = [i for i in range(n) if act[i][0] == 'free']
        x = np.array([a[1] if a[0] == 'fix' else 0.0 for a in act])
        if fr:
            rhs_ = q[fr] - np.array([w[i] * act[i][1] for i in fr]) - G[np.ix_(fr, [i for i in range(n) if i not in fr])].dot(x[[i for i in range(n) if i not in fr]])
            x[fr] = np.linalg.solve(G[np.ix_(fr, fr)], rhs_)
        x = np.minimum(np.maximum(x, L), U)
        f = objective(A, b, reg, x)
        if f < best:
            best, bx = f, x
    return best, bx


def opt_l2(A, b, reg, lo, hi):
    """L2 norm: for fixed mu = lam/(2||x||) a box-constrained ridge problem; ||x(mu)|| is non-increasing in mu, so bisect."""
    n = A.shape[1]
    L = np.full(n, -1e20) if lo is None else lo
    U = np.full(n, 1e20) if hi is None else hi

    def ridge(mu):
        M = np.vstack([A, np.sqrt(mu) * np.eye(n)])
        from .c05 import optimum as boxls
        return boxls(M, np.concatenate([b, np.zeros(n)]), L, U)[1]
    cands = [np.minimum(np.maximum(np.zeros(n), L), U)]
    a, z = 1e-12, 1e12
    # phi(mu) = 2*mu*||x(mu)|| - lam is zero at the optimum
    for _ in range(200):
        mu = np.sqrt(a * z)
        x = ridge(mu)
        if 2 * mu * np.linalg.norm(x) < reg.lam:
            a = mu
        else:
            z = mu
        if z / a < 1 + 1e-14:
            break
        cands.append(x)
    fs = [objective(A, b, reg, x) for x in cands]
    i = int(np.argmin(fs))
    return fs[i], cands[i]


def certify(A, b, reg, lo, hi, x, f):
    """Duality-free optimality test: the proximal-gradient step over the box from x moves (almost) nowhere.  Returns the
    decrease found by many independent prox-gradient iterations from x (0 for a true minimiser)."""
    n = A.shape[1]
    G = 2 * A.T.dot(A)
    t = 1.0 / np.linalg.norm(G, 2)
    y = x.copy()
    best = f
    for _ in range(200):
        v = y - t * (G.dot(y) - 2 * A.T.dot(b))
        y = proxbox(reg, v, t, lo, hi)
        best = min(best, objective(A, b, reg, y))
    return f - best


def proxbox(reg, v, t, lo, hi):
    if lo is None:
        return reg.proxval(v, t)
    if reg.kind != 'l2':
        return np.minimum(np.maximum(reg.proxval(v, t), lo), hi)     # separable: exact
    # argmin t*lam*||x|| + 0.5||x-v||^2 over the box: x = clip(v/(1+s)) with s*||x|| = t*lam, monotone in s
    clip = lambda s: np.minimum(np.maximum(v / (1 + s), lo), hi)
    a, z = 0.0, 1e14
    for _ in range(200):
        s = 0.5 * (a + z) if a > 0 or z < 1e-3 else np.sqrt(max(a, 1e-16) * z)
        x = clip(s)
        if s * np.linalg.norm(x) < t * reg.lam:
            a = s
        else:
            z = s
    return clip(z)


# ------------------------------------------------------------------------------------------------------------ running
def box(kind, xs, x0, xu):
    n = len(xs)
    w = np.maximum(1.0, np.abs(xs))
    sgn = np.resize([1.0, -1.0], n)
    if kind == 'none':
        return None, None
    if kind == 'around':
        return np.minimum(xs, x0) - w, np.maximum(xs, x0) + w
    if kind == 'cut':
        lo, hi = xs - 3 * w, xs + 3 * w
        hi[::2] = xs[::2] - 0.3 * w[::2]
        return lo, hi
    if kind == 'away':
        return xs + 0.5 * w, xs + 3.5 * w
    if kind == 'corner':
        return np.where(sgn > 0, xs + 0.2 * w, xs - 4 * w), np.where(sgn > 0, xs + 4 * w, xs - 0.2 * w)
    if kind == 'origin':            # kink of the norms on the boundary
        return np.zeros(n), 4 * w
    if kind == 'nokink':             # kink outside
        return np.full(n, 0.3), 0.3 + 3 * w
    if kind == 'aniso':              # very different widths: internal scaling changes the shape of the regulariser
        wid = np.resize([1.0, 40.0, 7.0], n) * w
        return np.minimum(xs, x0) - 0.6 * wid, np.maximum(xs, x0) + 0.6 * wid
    if kind == 'anisocut':
        wid = np.resize([30.0, 2.0, 10.0], n) * w
        return xs - sgn * 0.1 * w - (sgn < 0) * wid, xs - sgn * 0.1 * w + (sgn > 0) * wid
    if kind == 'lower':
        return xs + 0.1 * w * sgn, np.full(n, 1e20)
    raise ValueError(kind)


def instance(case):
    n = case['n']
    A = matrix(n, case['m'], case['kappa'], case['rot'])
    b = rhs(A, case['rhs'])
    reg = Reg(case['reg'], case['lam'], n, case['conv'])
    b = b * (1.0 + case.get('perturb', 0.0))
    xu = np.linalg.lstsq(A, b, rcond=None)[0]
    x0 = start(case['x0'], xu)
    lo, hi = box(case['box'], optimum(A, b, reg, None, None, x0)[1], x0, xu)
    return A, b, reg, lo, hi, x0


def run(case):
    A, b, reg, lo, hi, x0 = instance(case)
    n = case['n']
    kw = dict(h=reg.h, lh=reg.lip(), prox_uh=reg.prox, argsh=reg.argsh, argsprox=reg.argsprox)
    opt = OPTIONS[case['option']] if case.get('option') else {}
    npt = opt.get('npt', case.get('npt'))
    if npt == '2n1':
        kw['npt'] = 2 * n + 1
    elif npt == 'full':
        kw['npt'] = (n + 1) * (n + 2) // 2
    if 'nsamples' in opt:
        kw['nsamples'] = lambda *a: opt['nsamples']
    if 'maxfun' in opt:
        kw['maxfun'] = opt['maxfun']
    if 'params' in opt:
        p = dict(opt['params'])
        if p.get('growing.ndirs_initial', 0) > n:
            p['growing.ndirs_initial'] = n
        kw['user_params'] = p
    np.random.seed(0)
    if case.get('argsonly'):
        kw['maxfun'] = 16
        kw['user_params'] = dict(kw.get('user_params', {}), **{'func_tol.max_iters': 10})
        if case['argsonly'] == 'proj':
            kw['projections'] = [lambda z: x0 + (z - x0) * min(1.0, 3.0 / max(np.linalg.norm(z - x0), 1e-300))]
    if lo is not None:
        kw['bounds'] = (lo, hi)
        if case['scaling']:
            kw['scaling_within_bounds'] = True
        else:
            gap = np.min(hi - lo)
            rb = 0.1 * max(np.max(np.abs(x0)), 1.0)
            if gap < 2 * rb:
                kw['rhobeg'] = 0.25 * gap
    calls = [0]

    def f(x):
        calls[0] += 1
        return A.dot(x) - b
    try:
        with cpu_limit(case.get('cpu', 120.0)):
            s = dfols.solve(f, x0.copy(), **kw)
    except Hang:
        return None, [('hang', 'no result after 120 s of CPU time')]
    except Exception as e:
        return None, [('exception', repr(e))]
    return (s, calls[0], reg), judge(case, s, A, b, reg, lo, hi, x0)


def judge(case, s, A, b, reg, lo, hi, x0):
    if reg.bad:
        return [('args', reg.bad)]
    if case.get('argsonly'):
        return []
    if s.flag == s.EXIT_INPUT_ERROR:
        return [('rejected', s.msg)]
    v = []
    fs, xs = optimum(A, b, reg, lo, hi, x0)
    x = np.asarray(s.x, float)
    if lo is not None and (np.any(x < lo) or np.any(x > hi)):
        v.append(('infeasible', 'x = %r outside the bounds' % (x,)))
    f = objective(A, b, reg, x)
    if abs(f - s.obj) > 1e-9 * (1 + abs(f)):
        v.append(('obj', 'reported objective %r, objective at x %r' % (s.obj, f)))
    if f < fs - 1e-6 * (1 + fs) and not v:
        v.append(('oracle', 'oracle is wrong: F %r below F* %r' % (f, fs)))
    if not s.obj <= fs + 1e-3 * (1 + fs):
        v.append(('optimum', 'objective %.9g, minimum %.9g (excess %.3g, allowed %.3g), flag %d: %s, x %s, minimiser %s' % (s.obj, fs, s.obj - fs, 1e-3 * (1 + fs), s.flag, s.msg, x, xs)))
    if s.flag != s.EXIT_SUCCESS and not case.get('option'):
        v.append(('flag', 'flag %d: %s (objective %.9g, minimum %.9g)' % (s.flag, s.msg, s.obj, fs)))
    return v


def replay(case):
    return run(case)[1]


OPTIONS = {
    'avg': dict(nsamples=2), 'soft': dict(params={'restarts.use_restarts': True}, maxfun=80), 'softinc': dict(params={'restarts.use_restarts': True, 'restarts.increase_npt': True, 'restarts.max_npt': 6}, maxfun=80),
    'hard': dict(params={'restarts.use_restarts': True, 'restarts.use_soft_restarts': False}, maxfun=80),
    'hardnew': dict(params={'restarts.use_restarts': True, 'restarts.use_soft_restarts': False, 'restarts.hard.use_old_rk': False}, maxfun=80),
    'softavg': dict(params={'restarts.use_restarts': True}, maxfun=100, nsamples=2),
    'grow': dict(params={'growing.ndirs_initial': 1}), 'growperturb': dict(params={'growing.ndirs_initial': 1, 'growing.full_rank.use_full_rank_interp': False, 'growing.perturb_trust_region_step': True}),
    'regr': dict(npt='2n1', params={'regression.num_extra_steps': 1}), 'regmom': dict(npt='2n1', params={'regression.num_extra_steps': 1, 'regression.momentum_extra_steps': True}),
    'rand': dict(params={'init.random_initial_directions': True}), 'par': dict(params={'init.random_initial_directions': True, 'init.run_in_parallel': True}),
    'nopre': dict(params={'interpolation.precondition': False}), 'diag': dict(params={'logging.save_diagnostic_info': True, 'logging.save_poisedness': False}),
    'shift': dict(params={'general.rounding_error_constant': 1e10}), 'relax': dict(params={'general.rounding_error_constant': 1.0, 'tr_radius.alpha1': 0.3}),
    'noise': dict(params={'noise.quit_on_noise_level': True, 'noise.additive_noise_level': 1e-8}), 'full': dict(npt='full'),
    'target': dict(params={'model.abs_tol': 1e-3}),
}


def grid(T):
    out = []

    def add(nm, kappas, rots, rs, regs, lams, convs, x0s, boxes, scal, npts=('n1',), options=(None,)):
        for (n, m), kappa, rot, rh, rg, lam, conv, x0, bx, sc, npt, op in itertools.product(nm, kappas, rots, rs, regs, lams, convs, x0s, boxes, scal, npts, options):
            if sc and bx in ('none', 'lower', 'aniso', 'anisocut'):
                continue
            if n == 1 and (kappa != kappas[0] or rot != rots[0]):
                continue
            c = dict(n=n, m=m, kappa=kappa, rot=rot, rhs=rh, reg=rg, lam=lam, conv=conv, x0=x0, box=bx, scaling=sc, npt=npt)
            if op:
                c['option'] = op
            out.append(c)
    bx = ('none', 'around', 'cut', 'away', 'corner', 'origin', 'nokink', 'lower', 'aniso', 'anisocut')
    four = ('l1', 'l2', 'wl1', 'sl1')
    if T:
        add(((1, 2), (2, 2), (2, 4), (3, 4)), (3.0, 10.0), (1,), ('general', 'large', 'small'), ('l1', 'l2'), (1e-3, 1e-2, 0.1, 1.0, 10.0, 100.0), ('both',), ('zero', 'far'), bx, (False, True))
        add(((2, 3),), (3.0,), (0, 2), ('general', 'zero'), four, (1e-2, 1.0, 30.0), ('none', 'h', 'prox', 'both', 'two'), ('near', 'at', 'big'), ('none', 'cut', 'corner', 'aniso'), (False, True))
        add(((2, 3), (4, 6)), (10.0,), (1,), ('general',), ('l1', 'l2', 'wl1'), (1e-2, 1.0), ('both',), ('zero', 'near'), bx, (False, True), ('n1', '2n1'))
        add(((1, 2), (2, 3), (3, 3)), (3.0,), (1,), ('general',), four, (0.1, 3.0), ('both',), ('near', 'far'), ('none', 'around', 'cut', 'nokink'), (False, True), ('n1',), tuple(sorted(OPTIONS)))
    else:
        add(((2, 3),), (3.0,), (1,), ('general',), ('l1', 'l2'), (1e-2, 1.0, 30.0), ('both',), ('zero', 'far'), bx[:8], (False, True))
        add(((2, 3),), (3.0,), (1,), ('general',), ('wl1', 'sl1'), (1.0,), ('none', 'h', 'prox', 'two'), ('near',), ('none', 'cut'), (False, True))
        add(((1, 2), (3, 4)), (3.0,), (1,), ('general',), ('l1', 'l2'), (0.1, 10.0), ('both',), ('near',), ('none', 'corner', 'aniso'), (False, True))
        add(((2, 2),), (3.0,), (1,), ('general',), ('sl1',), (0.5,), ('two',), ('near',), ('none', 'cut'), (False, True), ('n1',), tuple(sorted(OPTIONS)))
    return [dict(t) for t in dict.fromkeys(tuple(sorted(c.items(), key=lambda t: t[0])) for c in out)]


def args_grid(T):
    for op, conv, bx, how, rg in itertools.product((None,) + tuple(sorted(OPTIONS)), ('none', 'h', 'prox', 'two', 'both') if T else ('two', 'prox'), ('none', 'cut'), ('plain', 'scaled', 'proj'), ('l1', 'l2') if T else ('sl1',)):
        if how == 'scaled' and bx == 'none':
            continue
        c = dict(n=2, m=3, kappa=3.0, rot=1, rhs='general', reg=rg, lam=0.3, conv=conv, x0='near', box=bx, scaling=how == 'scaled', npt='n1', argsonly=how, cost=1)
        if op:
            c['option'] = op
        yield c


def work(chunk):
    o = Out()
    for case in chunk:
        r, v = run(case)
        o.n += 1
        if r is not None:
            s, k, reg = r
            o.transitions += k
            o.states.add(h64(np.asarray(s.x).tobytes(), k))
            o.count('flag_%d' % s.flag)
            o.count('h calls', reg.nh)
            o.count('prox calls', reg.np)
            A, b, _, lo, hi, x0 = instance(case)
            if lo is not None and np.any((s.x <= lo + 1e-6) | (s.x >= hi - 1e-6)):
                o.count('active bounds at solution')
            if np.any(np.abs(s.x - (reg.centre if reg.kind == 'sl1' else 0.0)) < 1e-7):
                o.count('kink at solution')
        for kd, w in v[:1]:
            o.violation(kd, '%s: %s' % (case, w), dict(case))
    o.sample = dict(case=case)
    return o


def main():
    ck = Check('C06', 'exploration',
               'an execution is one whole solve of a regularised linear least-squares instance of the grid (size x shape x right-hand side x regulariser x weight x start x box x scaling x '
               'argument convention, and options); judged counts objective evaluations; distinct (solution, evaluations) counted',
               ['the minimum comes from enumerating all active sets / signs (weighted L1), or from a bisection over box-constrained ridge problems solved by active-set enumeration (L2)',
                'well-conditioned is taken as condition number of A at most 10'])
    g = grid(ck.thorough)
    plain = [c for c in g if 'option' not in c]
    opts = [c for c in g if 'option' in c]
    ck.space('grid', work, common.chunks(plain, 1), '%d instances at default options' % len(plain))
    ck.space('options', work, common.chunks(opts, 1), '%d instances with one option group changed (exit flag not judged)' % len(opts))
    ag = list(args_grid(ck.thorough))
    ck.space('extra arguments', work, common.chunks(ag, 1), '%d short runs over options x bounds / scaling / projections x argument conventions: every call of h and prox_uh gets exactly its extra arguments' % len(ag))
    ck.finish()


if __name__ == '__main__':
    main()
