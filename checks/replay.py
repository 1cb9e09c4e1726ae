"""Re-execute one recorded counterexample and print what the monitor says about it."""
import importlib
import json
import sys

from mc.harness import Out
from . import common


def main():
    for path in sys.argv[1:]:
        with open(path) as f:
            d = json.load(f)
        mod = importlib.import_module('checks.%s' % d['property'].lower())
        print('property %s, kind %s\n  recorded: %s' % (d['property'], d['kind'], d['what']))
        if hasattr(mod, 'replay'):   # checks with their own case format
            got = mod.replay(d['replay'])
        else:
            o = Out()
            case = d['replay']
            rec = common.execute(case, params=getattr(mod, 'DIAG', None))
            got = []
            for nm in ('judge', 'judge_exc'):
                if hasattr(mod, nm):
                    got += getattr(mod, nm)(rec, o)
            if rec.soln is not None:
                print('  outcome: flag %s, %s, %d evaluations' % (rec.soln.flag, rec.soln.msg, len(rec.calls)))
            else:
                print('  outcome: %r' % (rec.exc,))
        for k, w in got:
            print('  NOW %s: %s' % (k, w))
        if not got:
            print('  NOW: no violation')
        bad = bool(got)
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
