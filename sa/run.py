"""python3 sa/run.py <property id> [quick|thorough]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
import core            # noqa: E402
from registry import CHECKS    # noqa: E402


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print('usage: run.py ID; known: %s' % ' '.join(sorted(CHECKS)))
        return 2
    core.big_stack()
    pid = sys.argv[1]
    c = CHECKS[pid]
    mod = importlib.import_module(c['module'])
    fn = mod.make(c['spec']) if 'spec' in c else getattr(mod, c.get('fn', 'rule'))
    return core.run(pid, fn, 'other', c['floor'], c['rules'],
                    c['technique'])


if __name__ == '__main__':
    sys.exit(main())
