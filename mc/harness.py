"""Running a check: work distribution, deadlines, evidence, known findings, replay files."""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from . import boot

EVIDENCE = os.path.join(boot.VERIF, 'evidence')
REPLAYS = os.path.join(boot.VERIF, 'replays')
KNOWN = os.path.join(boot.VERIF, 'known_findings.json')


class Hang(BaseException):
    """An execution used far more CPU time than any terminating execution of this harness."""


def _on_prof(signum, frame):
    raise Hang()


signal.signal(signal.SIGPROF, _on_prof)


class cpu_limit(object):
    """CPU-time limit (not wall-clock, so a loaded machine cannot trip it)."""
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        signal.setitimer(signal.ITIMER_PROF, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        return False


class Out(object):
    """What one unit of work returns."""
    def __init__(self):
        self.n = 0                 # executions / cases
        self.transitions = 0       # evaluations / operations judged
        self.states = set()        # hashes of distinct observed behaviours / states
        self.nontrivial = 0
        self.traces = 0            # complete operation sequences replayed on a freshly built object
        self.viol = []             # dicts: kind, what, replay(dict)
        self.stats = {}            # counters
        self.sample = None
        self.capped = False

    def count(self, key, k=1):
        self.stats[key] = self.stats.get(key, 0) + k

    def violation(self, kind, what, replay):
        if len(self.viol) < 25:
            self.viol.append({'kind': kind, 'what': what, 'replay': replay})
        self.count('violating')


def h64(*parts):
    m = hashlib.blake2b(digest_size=8)
    for p in parts:
        m.update(p if isinstance(p, bytes) else repr(p).encode())
        m.update(b'|')
    return m.digest()


_WORK = None


def _call(i):
    fn, tasks, t_end = _WORK
    if time.time() > t_end:
        return i, None, None
    try:
        return i, fn(tasks[i]), None
    except BaseException:
        return i, None, traceback.format_exc()


class Check(object):
    def __init__(self, prop, level, rule, assumptions=()):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        for a in sys.argv[1:]:
            if a in ('quick', 'thorough'):
                self.tier = a
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.total = Out()
        self.spaces = {}
        self.samples = []
        self.extra = {}
        self.errors = []
        self.deadline = float(os.environ.get('MC_DEADLINE', '1e9' if self.thorough else '600'))
        if self.thorough:
            self.deadline = float(os.environ.get('MC_DEADLINE', '14000'))
        self.violated = False
        self.known = load_known(prop)
        self.workers = int(os.environ.get('MC_WORKERS', str(min(8, os.cpu_count() or 8))))

    # -- exploration -------------------------------------------------------------------------------------
    def space(self, name, fn, tasks, describe, share=1.0):
        """Run fn(task) -> Out for every task, in parallel, and add it to the totals under `name`."""
        global _WORK
        tasks = list(tasks)
        stride = int(os.environ.get('MC_STRIDE', '1'))      # development aid: every k-th task only (reported as not exhaustive)
        all_tasks, tasks = len(tasks), tasks[::stride]
        t0 = time.time()
        only = os.environ.get('MC_ONLY')         # development aid: run the spaces with this text in their names only
        if only and only not in name:
            return Out()
        if self.violated and not os.environ.get('MC_ALL'):
            self.spaces[name] = dict(describe=describe, tasks=len(tasks), tasks_done=0, executions=0, evaluations=0, distinct=0,
                                     exhaustive=False, stats={'skipped_after_violation': 1}, seconds=0.0)
            return Out()
        t_end = min(self.t0 + self.deadline, t0 + share * self.deadline)
        _WORK = (fn, tasks, t_end)
        o = Out()
        done = 0
        skipped = 0
        order = list(range(len(tasks)))
        if os.environ.get('MC_SERIAL'):
            results = map(_call, order)
            pool = None
        else:
            pool = mp.get_context('fork').Pool(self.workers)
            results = pool.imap_unordered(_call, order, chunksize=max(1, min(64, len(tasks) // (self.workers * 12))))
        enough = False
        try:
            for i, r, err in results:
                if err is not None:
                    self.errors.append('space %s task %r:\n%s' % (name, tasks[i], err))
                    if len(self.errors) > 5:
                        enough = True
                        break
                    continue
                if r is None:
                    skipped += 1
                    continue
                done += 1
                o.n += r.n
                o.transitions += r.transitions
                o.states |= r.states
                o.nontrivial += r.nontrivial
                o.traces += r.traces
                o.capped = o.capped or r.capped
                for k, v in r.stats.items():
                    o.stats[k] = o.stats.get(k, 0) + v
                o.viol.extend(r.viol)
                if r.sample is not None and len([s for s in self.samples if s.get('space') == name]) < 2:
                    self.samples.append(dict(space=name, **r.sample))
                new = sum(1 for v in o.viol if match_known(self.known, v) is None) if r.viol else 0
                self.violated = self.violated or new > 0
                if new > 100 or len(o.viol) > 2000 or (new and stride > 1):
                    enough = True   # plenty of counterexamples: stop early
                    break
        finally:
            if pool is not None:
                pool.terminate()
                pool.join()
        self.spaces[name] = dict(describe=describe, tasks=all_tasks, tasks_done=done, executions=o.n,
                                 evaluations=o.transitions, distinct=len(o.states),
                                 exhaustive=bool(stride == 1 and not skipped and not o.capped and not enough and not self.errors),
                                 stats=dict(sorted(o.stats.items())), seconds=round(time.time() - t0, 1))
        self.total.n += o.n
        self.total.transitions += o.transitions
        self.total.nontrivial += o.nontrivial
        self.total.traces += o.traces
        self.total.states |= set((name, s) for s in o.states)
        self.total.viol.extend(o.viol)
        for k, v in o.stats.items():
            self.total.stats[k] = self.total.stats.get(k, 0) + v
        if os.environ.get('MC_VERBOSE'):
            print('  space %-22s %s' % (name, {k: v for k, v in self.spaces[name].items() if k != 'describe'}))
        return o

    # -- reporting ---------------------------------------------------------------------------------------
    def finish(self):
        known = load_known(self.prop)
        new, hit = [], {}
        for v in self.total.viol:
            k = match_known(known, v)
            if k is None:
                new.append(v)
            else:
                hit.setdefault(k['id'], (k, v))
        for kid, (k, v) in sorted(hit.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        exh = all(s['exhaustive'] for s in self.spaces.values())
        if self.level == 'model_checking':
            cov = dict(states=len(self.total.states), transitions=self.total.transitions,
                       traces_validated_against_impl=self.total.traces, rule=self.rule, samples=self.samples[:12],
                       exhaustive=exh, spaces=self.spaces)
        else:
            cov = dict(evaluations=self.total.n, distinct_nontrivial=len(self.total.states), rule=self.rule,
                       samples=self.samples[:12], exhaustive=exh, spaces=self.spaces)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=boot.SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(EVIDENCE, exist_ok=True)
        tmp = os.path.join(EVIDENCE, '.%s.%d.tmp' % (self.prop, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=_jsonable)
        os.replace(tmp, os.path.join(EVIDENCE, '%s.json' % self.prop))
        print('%s %s: executions=%d judged=%d distinct=%d exhaustive=%s violations=%d wall=%.1fs' % (
            self.prop, self.tier, self.total.n, self.total.transitions, len(self.total.states), exh, len(new),
            time.time() - self.t0))
        for s, d in self.spaces.items():
            print('  %-24s tasks=%d/%d executions=%d judged=%d distinct=%d exhaustive=%s %.1fs %s' % (
                s, d['tasks_done'], d['tasks'], d['executions'], d['evaluations'], d['distinct'], d['exhaustive'],
                d['seconds'], d['stats']))
        if new:
            new.sort(key=lambda v: (v['replay'].get('cost', 0), len(json.dumps(v['replay'], default=_jsonable))))
            seen = set()
            for v in new:
                if v['kind'] in seen:
                    continue
                seen.add(v['kind'])
                path = write_replay(self.prop, v)
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('    %s: %s' % (v['kind'], v['what'][:400]))
                if len(seen) >= 5:
                    break
            sys.stdout.flush()
            sys.exit(1)
        if self.errors:
            print('CHECK ERROR (%d)' % len(self.errors))
            print('\n'.join(self.errors[:3]))
            sys.stdout.flush()
            sys.exit(3)
        sys.stdout.flush()
        sys.exit(0)


def _jsonable(o):
    import numpy as np
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, (set, frozenset)):
        return sorted(map(str, o))
    return str(o)


def write_replay(prop, v):
    os.makedirs(REPLAYS, exist_ok=True)
    body = json.dumps(dict(property=prop, kind=v['kind'], what=v['what'], replay=v['replay']), indent=1,
                      default=_jsonable, sort_keys=True)
    name = '%s-%s-%s.json' % (prop, v['kind'], hashlib.sha1(body.encode()).hexdigest()[:10])
    path = os.path.join(REPLAYS, name)
    with open(path, 'w') as f:
        f.write(body + '\n')
    return path


def load_known(prop):
    try:
        with open(KNOWN) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data['findings'] if k['property'] == prop and k['status'] == 'known']


def match_known(known, v):
    """A finding lists the violation kind and the identifying fields of the case; all must be equal."""
    rep = json.loads(json.dumps(v['replay'], default=_jsonable))
    for k in known:
        if v['kind'] not in k['kinds']:
            continue
        for m in k['match']:
            if all(_get(rep, key) == val for key, val in m.items()):
                return k
    return None


def _get(d, dotted):
    for p in dotted.split('.'):
        if not isinstance(d, dict) or p not in d:
            return None
        d = d[p]
    return d
