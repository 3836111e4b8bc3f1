"""Check runner: obligations, verdicts, evidence, known findings."""
import json
import os
import sys
import time

sys.setrecursionlimit(30000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from loader import Program          # noqa: E402
from engine import Engine           # noqa: E402


class Broken(Exception):
    """The analysis lost an anchor it cannot do without."""


class Report:
    """Collects obligations of one property.

    ok      the rule holds at this construct
    bad     the construct violates the rule (file:line, rule, instance)
    skip    the construct could not be decided (counted, never silently dropped)
    """

    def __init__(self, pid):
        self.pid = pid
        self.oks, self.bads, self.skips = [], [], []
        self.notes = {}
        self.assumptions = []

    def ok(self, rule, key, detail=''):
        self.oks.append((rule, key, detail))

    def bad(self, rule, key, where, msg):
        self.bads.append((rule, key, where, msg))

    def skip(self, rule, key, why):
        self.skips.append((rule, key, why))

    def check(self, cond, rule, key, where, msg, detail=''):
        """cond True -> ok, False -> bad, None -> undecided."""
        if cond is None:
            self.skip(rule, key, msg)
        elif cond:
            self.ok(rule, key, detail)
        else:
            self.bad(rule, key, where, msg)
        return cond

    def count(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n


def known_findings(pid):
    """Lines 'finding: property=<id> key=<rule>|<key> <text>' of known_findings.txt."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.rstrip('\n')
            if not line.startswith('finding: property=%s ' % pid):
                continue
            rest = line.split(' key=', 1)[1]
            key, _, text = rest.partition(' :: ')
            out[key.strip()] = text.strip()
    return out


def run(pid, fn, level, floor, rules_text, technique):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    rep = Report(pid)
    try:
        prog = Program()
        fn(prog, rep, tier)
    except (Broken, SyntaxError) as ex:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, ex))
        return 2
    except Exception as ex:         # never report a defect of the analysis as a violation
        import traceback
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s %r' % (pid, ex))
        return 2
    kf = known_findings(pid)
    viol, known = [], []
    for rule, key, where, msg in rep.bads:
        k = rule + '|' + key
        (known if k in kf else viol).append((rule, key, where, msg))
    nob = len(rep.oks) + len(rep.bads)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'explanation': rules_text + ' Decided by: ' + technique,
            'modules_parsed': len(prog.modules), 'functions_parsed': len(prog.funcs),
            'classes_parsed': len(prog.classes),
            'obligations': nob + len(rep.skips), 'obligations_discharged': len(rep.oks),
            'obligations_violated': len(rep.bads), 'obligations_undecided': len(rep.skips),
            'rule_instances': _hist(rep),
            'undecided': [list(map(str, s)) for s in rep.skips][:60],
            'samples': ['%s: %s %s' % (r, k, d) for r, k, d in rep.oks[:40]],
            'source_digest': prog.digest.hexdigest(),
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': rep.assumptions,
        'violations': [{'rule': r, 'construct': k, 'where': w, 'message': m}
                       for r, k, w, m in viol],
    }
    for k, v in rep.notes.items():
        ev['coverage'].setdefault(k, v)
    if known:
        ev['coverage']['known_findings'] = ['%s|%s' % (r, k) for r, k, _, _ in known]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    for r, k, w, m in known:
        print('KNOWN-FINDING: property=%s %s|%s at %s: %s' % (pid, r, k, w, m))
    if viol:
        rp = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as fh:
            for r, k, w, m in viol:
                fh.write('%s [%s] %s: %s\n' % (w, r, k, m))
        for r, k, w, m in viol:
            print('  %s [%s] %s: %s' % (w, r, k, m))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if nob < floor:
        print('ANALYSIS-BROKEN property=%s only %d obligations decided (floor %d); undecided: %s'
              % (pid, nob, floor, rep.skips[:5]))
        return 2
    print('%s: %d obligations hold, %d undecided (%s), %.1fs' % (
        pid, len(rep.oks), len(rep.skips), ', '.join('%s=%d' % x for x in
                                                    sorted(_hist(rep).items())),
        time.time() - t0))
    return 0


def _hist(rep):
    h = {}
    for o in rep.oks + rep.bads:
        h[o[0]] = h.get(o[0], 0) + 1
    return h


DEADLINE = 700      # seconds for all work of one check
START = time.time()


def big_stack():
    """Deep terms recurse deeply: run with a large stack (re-executes once)."""
    if os.environ.get('SA_STACK'):
        return
    import resource
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    want = 2 ** 30 if hard == resource.RLIM_INFINITY else min(2 ** 30, hard)
    os.environ['SA_STACK'] = '1'
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
        os.execv(sys.executable, [sys.executable] + sys.argv)
    except (OSError, ValueError):
        pass


def pmap(fn, items, jobs=8, lost=None, deadline=None):
    """Fork-parallel map; an item whose worker dies or runs out of time yields lost(item)."""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    items = list(items)
    ctx = mp.get_context('fork')
    res = [None] * len(items)
    done = [False] * len(items)
    todo = list(range(len(items)))[::-1]
    live = {}
    end = START + (deadline or DEADLINE)

    def serve(conn):
        while True:
            i = conn.recv()
            if i is None:
                os._exit(0)
            conn.send(fn(items[i]))

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=serve, args=(b,), daemon=True)
        p.start()
        b.close()
        return p, a

    def give(p, a):
        if todo:
            i = todo.pop()
            try:
                a.send(i)
            except OSError:
                todo.append(i)
                return
            live[a] = (p, i)
        else:
            try:
                a.send(None)
            except OSError:
                pass
    for _ in range(min(jobs, len(items))):
        give(*spawn())
    while live:
        left = end - time.time()
        ready = wait(list(live), timeout=max(0, left)) if left > 0 else []
        if not ready:
            for p, i in live.values():
                p.kill()
            break
        for a in ready:
            p, i = live.pop(a)
            try:
                res[i] = a.recv()
                done[i] = True
            except (EOFError, OSError):
                p.join()
                a.close()
                if todo:
                    give(*spawn())
                continue
            give(p, a)
    for i, d in enumerate(done):
        if not d:
            res[i] = lost(items[i]) if lost else None
    return res
