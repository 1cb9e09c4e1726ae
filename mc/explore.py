"""Choice-sequence explorer.

One execution is a function of the sequence of answers given to `Chooser.choose`.  `explore` enumerates,
depth first and without repetition, every answer sequence whose total deviation cost is within the bound
(answer 0 is the default and costs nothing; any other answer costs 1).  bound=None explores the full tree.
Replaying a prefix must meet the same menus again: a mismatch is a hard error (uncontrolled nondeterminism).
"""


class Diverged(Exception):
    """The execution did not follow a recorded prefix: some nondeterminism is not under control."""


class Chooser(object):
    def __init__(self, prefix=(), menus=None, horizon=None):
        self.prefix = list(prefix)
        self.expect = menus
        self.horizon = horizon      # number of choice points that may deviate; later ones take the default
        self.choices = []
        self.menus = []

    def choose(self, nalts, label=''):
        i = len(self.choices)
        if self.horizon is not None and i >= self.horizon:
            return 0
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= nalts:
                raise Diverged('choice %d of %d at point %d (%s)' % (c, nalts, i, label))
            if self.expect is not None and i < len(self.expect) and self.expect[i] != nalts:
                raise Diverged('menu size %d, expected %d, at point %d (%s)' % (nalts, self.expect[i], i, label))
        else:
            c = 0
        self.choices.append(c)
        self.menus.append(nalts)
        return c


def explore(run, bound=None, horizon=None, prefix=(), first=0, last=None, stop=None):
    """run(chooser) executes once.  Yields (chooser, result) for every execution in the bounded space that
    starts with `prefix`.  `first`/`last` restrict the position of the first deviation after the prefix (used
    to split the work); stop() -> True aborts the enumeration (the caller must then report it as capped)."""
    stack = [(list(prefix), None, True)]
    while stack:
        pre, menus, is_root = stack.pop()
        if stop is not None and stop():
            return
        ch = Chooser(pre, menus, horizon)
        res = run(ch)
        if len(ch.choices) < len(pre):
            raise Diverged('execution ended after %d choice points, prefix has %d' % (len(ch.choices), len(pre)))
        yield ch, res
        cost = sum(1 for c in pre if c)
        if bound is not None and cost >= bound:
            continue
        lo = len(pre)
        hi = len(ch.choices)
        if is_root:
            lo = max(lo, first)
            if last is not None:
                hi = min(hi, last)
        for i in range(hi - 1, lo - 1, -1):
            for alt in range(ch.menus[i] - 1, 0, -1):
                stack.append((ch.choices[:i] + [alt], ch.menus[:i + 1], False))
