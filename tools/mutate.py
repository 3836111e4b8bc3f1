"""Development aid: mutate the functions a reference file covers and see which mutants are flagged.

python3 tools/mutate.py SPEC.py [filter] [-v]   (never used by a registered check)
"""
import ast
import copy
import os
import signal
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
sys.setrecursionlimit(30000)
import core
import refs
from loader import Program


def mutants(fn):
    """(description, mutated function node)"""
    nodes = list(ast.walk(fn))
    for i, n in enumerate(nodes):
        def fresh(i=i):
            f = copy.deepcopy(fn)
            return f, list(ast.walk(f))[i]
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.BinOp):
            swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
                    ast.Mod: ast.FloorDiv, ast.FloorDiv: ast.Mod, ast.Pow: ast.Mult,
                    ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.MatMult: ast.Add}
            t = swap.get(type(n.op))
            if t and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)
                          and isinstance(n.left.value, str)):
                f, m = fresh()
                m.op = t()
                yield '%d op %s' % (ln, ast.unparse(m)), f
            if isinstance(n.op, (ast.Sub, ast.Div, ast.MatMult, ast.Pow)):
                f, m = fresh()
                m.left, m.right = m.right, m.left
                yield '%d swapargs %s' % (ln, ast.unparse(m)), f
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            swap = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
                    ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
                    ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            f, m = fresh()
            m.ops = [swap[type(n.ops[0])]()]
            yield '%d cmp %s' % (ln, ast.unparse(m)), f
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str):
            if isinstance(n.value, bool):
                f, m = fresh()
                m.value = not n.value
                yield '%d const %s' % (ln, m.value), f
            elif isinstance(n.value, (int, float)):
                f, m = fresh()
                m.value = n.value + 1
                yield '%d const %s->%s' % (ln, n.value, m.value), f
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 40 and \
                n.value and ' ' not in n.value:
            f, m = fresh()
            m.value = n.value[:-1] + ('q' if n.value[-1] != 'q' else 'w')
            yield '%d str %r' % (ln, m.value), f
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            f, m = fresh()
            p = [x for x in ast.walk(f) for c in ast.iter_child_nodes(x) if c is m]
            for x in p:
                for k, v in ast.iter_fields(x):
                    if v is m:
                        setattr(x, k, m.operand)
                    elif isinstance(v, list) and m in v:
                        v[v.index(m)] = m.operand
            yield '%d dropunary %s' % (ln, ast.unparse(m)), f
        elif isinstance(n, ast.If):
            f, m = fresh()
            m.test = ast.UnaryOp(ast.Not(), m.test)
            yield '%d negif %s' % (ln, ast.unparse(n.test)), f
        elif isinstance(n, ast.BoolOp):
            f, m = fresh()
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            yield '%d boolop %s' % (ln, ast.unparse(m)), f
            for k in range(len(n.values)):
                f, m = fresh()
                del m.values[k]
                if len(m.values) == 1:
                    m.op = ast.And()
                yield '%d droplit %s' % (ln, ast.unparse(m)), f
        elif isinstance(n, ast.Slice):
            for at in ('lower', 'upper'):
                if getattr(n, at) is not None:
                    f, m = fresh()
                    setattr(m, at, None)
                    yield '%d slice %s' % (ln, ast.unparse(n)), f
        elif isinstance(n, ast.Call) and len(n.args) >= 2:
            f, m = fresh()
            m.args[0], m.args[1] = m.args[1], m.args[0]
            yield '%d callswap %s' % (ln, ast.unparse(m)[:60]), f
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr in ('mean', 'sum', 'max', 'min', 'h', 'x', 's', 'sdg', 'std', 'sqrt'):
            alt = {'mean': 'sum', 'sum': 'mean', 'max': 'min', 'min': 'max', 'h': 'x', 'x': 'h',
                   's': 'sdg', 'sdg': 's', 'std': 'var', 'sqrt': 'exp'}
            f, m = fresh()
            m.func.attr = alt[n.func.attr]
            yield '%d callname %s' % (ln, ast.unparse(m)[:60]), f
        for field in ('body', 'orelse'):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for k, st in enumerate(b):
                    if isinstance(st, (ast.Expr, ast.AugAssign)) and not (
                            isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)) or \
                            isinstance(st, (ast.If, ast.For, ast.Raise)) or (
                            isinstance(st, ast.Assign) and
                            not isinstance(st.targets[0], ast.Name)):
                        f, m = fresh()
                        bb = getattr(m, field)
                        if len(bb) == 1:
                            bb[0] = ast.Pass()
                        else:
                            del bb[k]
                        yield '%d del %s' % (getattr(st, 'lineno', 0),
                                             ast.unparse(st).split('\n')[0][:60]), f


def late(*_):
    raise TimeoutError


def main():
    core.big_stack()
    signal.signal(signal.SIGALRM, late)
    spec = sys.argv[1]
    flt = [a for a in sys.argv[2:] if not a.startswith('-')]
    verbose = '-v' in sys.argv
    prog = Program()
    names = refs.attr_names(prog)
    m, specs = refs.load_specs(prog, spec)
    jobs = []
    byfunc = {}
    for t, f, o in specs:
        if flt and flt[0] not in t:
            continue
        code, cls = refs.find_target(prog, t, o)
        if code is None:
            print('MISSING', t)
            continue
        byfunc.setdefault(code.qual, []).append((t, o))
    for q, lst in byfunc.items():
        code = prog.funcs.get(q)
        if code is None:
            continue
        for desc, node in mutants(code.node):
            jobs.append((q, desc, node))

    def work(job):
        q, desc, node = job
        signal.alarm(90)
        code = prog.funcs[q]
        try:
            src = open(code.module.path, encoding='utf-8').read()
            tree = ast.parse(src)
            for parent in ast.walk(tree):
                for fld, v in ast.iter_fields(parent):
                    if isinstance(v, list):
                        for i, x in enumerate(v):
                            if isinstance(x, ast.FunctionDef) and x.lineno == code.node.lineno and \
                                    x.name == code.name:
                                v[i] = node
            text = ast.unparse(ast.fix_missing_locations(tree))
            p2 = Program(overlay={code.module.rel: text})
            rep = core.Report('X')
            nm = refs.attr_names(p2)
            _, sp = refs.load_specs(p2, spec)
            res = []
            want = {t for t, o in byfunc[q]}
            for t, f, o in sp:
                if t in want:
                    res += refs.compare_one(p2, nm, t, f, o)
            vs = [r[2] for r in res]
            return q, desc, 'CAUGHT' if False in vs else ('UNDEC' if None in vs else 'EQUAL'), \
                [r[4][:200] for r in res if r[2] is not True][:1]
        except Exception as ex:
            return q, desc, 'ERROR', repr(ex)
    tot = {}
    for q, desc, v, info in core.pmap(work, jobs, deadline=20000,
                                     lost=lambda j: (j[0], j[1], 'LOST', [])):
        tot.setdefault(q, {}).setdefault(v, []).append((desc, info))
    s = {}
    for q, d in tot.items():
        print('%-60s' % '.'.join(q.split('.')[-2:]), {k: len(v) for k, v in d.items()})
        for k, v in d.items():
            s[k] = s.get(k, 0) + len(v)
            if k != 'CAUGHT' and verbose:
                for x in v:
                    print('      ', k, x[0], '|', x[1] if x[1] and k != 'EQUAL' else '')
    print(s)


if __name__ == '__main__':
    main()
