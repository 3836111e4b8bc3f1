"""Development aid: behaviour-preserving rewrites of the functions a reference file covers; none may
be flagged.   python3 tools/refactor.py SPEC.py [filter] [-v] [-cN random
combinations per function instead of single rewrites] [-sSEED]   (never used by a check)
"""
import ast
import copy
import os
import random
import signal
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sa'))
sys.setrecursionlimit(30000)
import core
import refs
from loader import Program
from edits import loads, stores, locals_of, dump, Liveness


def N(s, mode='eval'):
    t = ast.parse(s, mode=mode)
    return t.body if mode == 'eval' else t.body[0]


def blocks(fn):
    for n in ast.walk(fn):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def replace(fn, old, new):
    for p in ast.walk(fn):
        for k, v in ast.iter_fields(p):
            if v is old:
                setattr(p, k, new)
                return True
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if x is old:
                        v[i] = new
                        return True
    return False


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    sw = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
          ast.In: ast.NotIn, ast.NotIn: ast.In}
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in sw:
        return ast.Compare(t.left, [sw[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


def jumps(stmts):
    return any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom,
                              ast.Nonlocal, ast.Global))
               for s in stmts for x in ast.walk(s))


def rewrites(fn, cls):
    """(description, function, extra helper functions)"""
    nodes = list(ast.walk(fn))
    local = locals_of(fn)
    params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]

    tmpname = 'tmp_value'
    while tmpname in local:
        tmpname += '2'

    def fresh(i):
        f = copy.deepcopy(fn)
        return f, list(ast.walk(f))[i]
    # rename locals
    names = [n for n in local if n not in params and not any(
        isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn for x in nodes)]
    if names:
        f = copy.deepcopy(fn)
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in names:
                x.id = x.id + '_v'
            elif isinstance(x, ast.ExceptHandler) and x.name in names:
                x.name += '_v'
            elif isinstance(x, ast.arg) and x.arg in names:
                x.arg += '_v'
        yield 'rename all locals', f, []
    for i, n in enumerate(nodes):
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.If):
            f, m = fresh(i)
            if m.orelse and not (len(m.orelse) == 1 and isinstance(m.orelse[0], ast.If)):
                m.test, m.body, m.orelse = neg(m.test), m.orelse, m.body
                yield '%d invert if' % ln, f, []
            f, m = fresh(i)
            if len(m.orelse) == 1 and isinstance(m.orelse[0], ast.If):
                m.orelse[0] = ast.If(m.orelse[0].test, m.orelse[0].body, m.orelse[0].orelse)
            if isinstance(m.test, ast.BoolOp) and isinstance(m.test.op, ast.And) and \
                    not m.orelse:
                inner = ast.If(ast.BoolOp(ast.And(), m.test.values[1:])
                               if len(m.test.values) > 2 else m.test.values[1], m.body, [])
                m.test, m.body = m.test.values[0], [inner]
                yield '%d split and' % ln, f, []
            f, m = fresh(i)
            if not m.orelse and len(m.body) == 1 and isinstance(m.body[0], ast.If) and \
                    not m.body[0].orelse:
                m.test = ast.BoolOp(ast.And(), [m.test, m.body[0].test])
                m.body = m.body[0].body
                yield '%d merge ifs' % ln, f, []
            f, m = fresh(i)
            if len(m.body) == 1 and len(m.orelse) == 1 and isinstance(m.body[0], ast.Assign) \
                    and isinstance(m.orelse[0], ast.Assign) and \
                    dump(m.body[0].targets) == dump(m.orelse[0].targets):
                replace(f, m, ast.Assign(m.body[0].targets, ast.IfExp(
                    m.test, m.body[0].value, m.orelse[0].value)))
                yield '%d if to ternary' % ln, f, []
            f, m = fresh(i)
            if len(m.body) == 1 and isinstance(m.body[0], ast.Assign) and not m.orelse and \
                    isinstance(m.body[0].targets[0], ast.Name) and \
                    m.body[0].targets[0].id in params:
                t = m.body[0].targets[0].id
                replace(f, m, ast.Assign(m.body[0].targets, ast.IfExp(
                    m.test, m.body[0].value, ast.Name(t, ast.Load()))))
                yield '%d default to ternary' % ln, f, []
            f, m = fresh(i)
            t = ast.Name('cond_tmp', ast.Load())
            c = ast.Assign([ast.Name('cond_tmp', ast.Store())], m.test)
            m.test = t
            for b in blocks(f):
                if m in b:
                    b.insert(b.index(m), c)
                    yield '%d test to temp' % ln, f, []
                    break
        if isinstance(n, ast.IfExp):
            f, m = fresh(i)
            m.test, m.body, m.orelse = neg(m.test), m.orelse, m.body
            yield '%d invert ternary' % ln, f, []
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult,)) and not any(
                isinstance(z, (ast.List, ast.Constant)) and not isinstance(
                    getattr(z, 'value', 0), (int, float)) for z in (n.left, n.right)):
            f, m = fresh(i)
            m.left, m.right = m.right, m.left
            yield '%d commute *' % ln, f, []
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE,
                  ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
            if type(n.ops[0]) in sw:
                f, m = fresh(i)
                m.left, m.comparators, m.ops = m.comparators[0], [m.left], \
                    [sw[type(n.ops[0])]()]
                yield '%d flip compare' % ln, f, []
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and \
                isinstance(n.op, (ast.Add, ast.Mult, ast.Sub)):
            f, m = fresh(i)
            replace(f, m, ast.Assign([m.target], ast.BinOp(ast.Name(m.target.id, ast.Load()),
                                                          m.op, m.value)))
            yield '%d expand augassign' % ln, f, []
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'range' and \
                len(n.args) == 1:
            f, m = fresh(i)
            m.args = [ast.Constant(0), m.args[0]]
            yield '%d range(0, n)' % ln, f, []
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and \
                isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and \
                isinstance(n.target, ast.Tuple) and len(n.iter.args) == 1 and \
                isinstance(n.iter.args[0], (ast.Name, ast.Attribute)) and \
                isinstance(n.target.elts[0], ast.Name):
            f, m = fresh(i)
            it, (ix, el) = m.iter.args[0], m.target.elts
            m.body.insert(0, ast.Assign([el], ast.Subscript(copy.deepcopy(it), ast.Name(
                ix.id, ast.Load()), ast.Load())))
            m.target = ix
            m.iter = ast.Call(N('range'), [ast.Call(N('len'), [it], [])], [])
            yield '%d enumerate to range' % ln, f, []
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and \
                isinstance(n.iter, (ast.Name, ast.Attribute)):
            f, m = fresh(i)
            m.iter = ast.Call(N('enumerate'), [m.iter], [])
            m.target = ast.Tuple([ast.Name('_pos', ast.Store()), m.target], ast.Store())
            yield '%d add enumerate' % ln, f, []
            f, m = fresh(i)
            m.iter = ast.Call(N('list'), [m.iter], [])
            yield '%d list() iter' % ln, f, []
        if isinstance(n, ast.For) and len(n.body) == 1 and isinstance(n.body[0], ast.If) and \
                not n.body[0].orelse:
            f, m = fresh(i)
            g = m.body[0]
            m.body = [ast.If(neg(g.test), [ast.Continue()], [])] + g.body
            yield '%d guard to continue' % ln, f, []
        if isinstance(n, ast.ListComp) and len(n.generators) == 1:
            for b in blocks(fn):
                for k, st in enumerate(b):
                    if isinstance(st, ast.Assign) and st.value is n and \
                            len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and \
                            st.targets[0].id not in loads(n):
                        f, m = fresh(i)
                        j = nodes.index(st)
                        s2 = list(ast.walk(f))[j]
                        g = m.generators[0]
                        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(
                            st.targets[0].id, ast.Load()), 'append', ast.Load()), [m.elt], []))]
                        for c in reversed(g.ifs):
                            body = [ast.If(c, body, [])]
                        loop = ast.For(g.target, g.iter, body, [], None)
                        for bb in blocks(f):
                            if s2 in bb:
                                q = bb.index(s2)
                                bb[q:q + 1] = [ast.Assign(s2.targets, ast.List([], ast.Load())),
                                               loop]
                                yield '%d comprehension to loop' % ln, f, []
                                break
        # expression to temp: the value of a call argument or of an assignment
        if isinstance(n, ast.stmt) and not isinstance(n, (ast.FunctionDef, ast.If, ast.For,
                                                          ast.While, ast.With, ast.Try)):
            subs = [x for x in ast.walk(n) if isinstance(x, (ast.BinOp, ast.Call, ast.Subscript))
                    and isinstance(getattr(x, 'ctx', ast.Load()), ast.Load)]
            inner = {id(y) for x in ast.walk(n) if isinstance(
                x, (ast.ListComp, ast.DictComp, ast.GeneratorExp, ast.SetComp, ast.Lambda,
                    ast.IfExp, ast.BoolOp)) for y in ast.walk(x) if y is not x}
            subs = [x for x in subs if id(x) not in inner and x is not getattr(n, 'value', None)]
            if subs:
                x = subs[0]
                j = nodes.index(x)
                f, m = fresh(i)
                x2 = list(ast.walk(f))[j]
                calls_before = [y for y in subs if isinstance(y, ast.Call)]
                if len(calls_before) <= 1 and replace(m, x2, ast.Name(tmpname, ast.Load())):
                    for b in blocks(f):
                        if m in b:
                            b.insert(b.index(m), ast.Assign(
                                [ast.Name(tmpname, ast.Store())], x2))
                            yield '%d value to temp: %s' % (ln, ast.unparse(x)[:40]), f, []
                            break
    # --- second batch: loop and expression rewrites
    for i, n in enumerate(nodes):
        ln = getattr(n, 'lineno', 0)
        # for over range -> while
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and not n.orelse and \
                isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and \
                n.iter.func.id == 'range' and len(n.iter.args) in (1, 2) and \
                not any(isinstance(x, (ast.Continue, ast.Break)) for y in n.body
                        for x in ast.walk(y)) and n.target.id not in set().union(
                            *[stores(y) for y in n.body]):
            f, m = fresh(i)
            lo, hi = (ast.Constant(0), m.iter.args[0]) if len(m.iter.args) == 1 else m.iter.args
            v = m.target.id
            w = ast.While(ast.Compare(ast.Name('_ix', ast.Load()), [ast.Lt()], [hi]),
                          [ast.Assign([ast.Name(v, ast.Store())], ast.Name('_ix', ast.Load()))] +
                          m.body + [ast.AugAssign(ast.Name('_ix', ast.Store()), ast.Add(),
                                                  ast.Constant(1))], [])
            for b in blocks(f):
                if m in b:
                    q = b.index(m)
                    b[q:q + 1] = [ast.Assign([ast.Name('_ix', ast.Store())], lo), w]
                    yield '%d for to while' % ln, f, []
                    break
        # element loop -> index loop
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and not n.orelse and \
                isinstance(n.iter, ast.Name) and any(
                    w in n.iter.id for w in ('list', 'circs', 'lengths', 'labels')):
            f, m = fresh(i)
            it = m.iter
            m.body.insert(0, ast.Assign([m.target], ast.Subscript(
                copy.deepcopy(it), ast.Name('_ix', ast.Load()), ast.Load())))
            m.target = ast.Name('_ix', ast.Store())
            m.iter = ast.Call(N('range'), [ast.Call(N('len'), [it], [])], [])
            yield '%d element loop to index loop' % ln, f, []
        # x = []; for ..: x.append(e)  -> x = [e for ..]
        if isinstance(n, ast.For) and len(n.body) == 1 and not n.orelse:
            inner, conds = n.body[0], []
            while isinstance(inner, ast.If) and len(inner.body) == 1 and not inner.orelse:
                conds.append(inner.test)
                inner = inner.body[0]
            for b in blocks(fn):
                if n in b and b.index(n) > 0:
                    pv = b[b.index(n) - 1]
                    if isinstance(pv, ast.Assign) and len(pv.targets) == 1 and isinstance(
                            pv.targets[0], ast.Name):
                        nm = pv.targets[0].id
                        comp = None
                        g = ast.comprehension(copy.deepcopy(n.target), copy.deepcopy(n.iter),
                                              copy.deepcopy(conds), 0)
                        if isinstance(inner, ast.Expr) and isinstance(inner.value, ast.Call) and \
                                dump(inner.value.func) == dump(N(nm + '.append')) and \
                                isinstance(pv.value, ast.List) and not pv.value.elts:
                            comp = ast.ListComp(copy.deepcopy(inner.value.args[0]), [g])
                        elif isinstance(inner, ast.Assign) and isinstance(
                                inner.targets[0], ast.Subscript) and dump(
                                    inner.targets[0].value) == dump(N(nm)) and isinstance(
                                        pv.value, ast.Dict) and not pv.value.keys:
                            comp = ast.DictComp(copy.deepcopy(inner.targets[0].slice),
                                                copy.deepcopy(inner.value), [g])
                        elif isinstance(inner, ast.AugAssign) and isinstance(
                                inner.op, ast.Add) and isinstance(inner.target, ast.Name) and \
                                inner.target.id == nm and isinstance(pv.value, ast.Constant) and \
                                pv.value.value in (0, 0.0):
                            comp = ast.Call(N('sum'), [ast.GeneratorExp(
                                copy.deepcopy(inner.value), [g])], [])
                        if comp is not None and nm not in loads(comp):
                            f, m = fresh(i)
                            for bb in blocks(f):
                                if m in bb:
                                    q = bb.index(m)
                                    bb[q - 1:q + 1] = [ast.Assign(
                                        [ast.Name(nm, ast.Store())], comp)]
                                    yield '%d loop to comprehension' % ln, f, []
                                    break
        # a, b = x, y -> two statements
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Tuple) and isinstance(
                n.value, ast.Tuple) and len(n.value.elts) == len(n.targets[0].elts) and not (
                    stores(n) & loads(n)):
            f, m = fresh(i)
            for bb in blocks(f):
                if m in bb:
                    q = bb.index(m)
                    bb[q:q + 1] = [ast.Assign([t], v) for t, v in zip(m.targets[0].elts,
                                                                     m.value.elts)]
                    yield '%d split tuple assign' % ln, f, []
                    break
        # x = a if c else b -> if statement; return likewise
        if isinstance(n, (ast.Assign, ast.Return)) and isinstance(n.value, ast.IfExp):
            f, m = fresh(i)
            t = m.value
            mkst = (lambda v: ast.Assign(copy.deepcopy(m.targets), v)) if isinstance(
                m, ast.Assign) else ast.Return
            replace(f, m, ast.If(t.test, [mkst(t.body)], [mkst(t.orelse)]))
            yield '%d ternary to if' % ln, f, []
        # if a and b -> nested if
        if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp) and isinstance(
                n.test.op, ast.And) and not n.orelse:
            f, m = fresh(i)
            vs = m.test.values
            m.body = [ast.If(vs[-1], m.body, [])]
            m.test = vs[0] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[:-1])
            yield '%d split and' % ln, f, []
        if isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(
                n.body[0], ast.If) and not n.body[0].orelse:
            f, m = fresh(i)
            g = m.body[0]
            m.test, m.body = ast.BoolOp(ast.And(), [m.test, g.test]), g.body
            yield '%d join nested if' % ln, f, []
        # if c: return/raise; rest -> else branch
        if isinstance(n, ast.If) and not n.orelse and isinstance(
                n.body[-1], (ast.Return, ast.Raise, ast.Continue)):
            f, m = fresh(i)
            for bb in blocks(f):
                if m in bb and bb[-1] is not m:
                    q = bb.index(m)
                    m.orelse = bb[q + 1:]
                    del bb[q + 1:]
                    yield '%d guard to else' % ln, f, []
                    break
        if isinstance(n, ast.If) and n.orelse and isinstance(
                n.body[-1], (ast.Return, ast.Raise, ast.Continue)):
            f, m = fresh(i)
            for bb in blocks(f):
                if m in bb:
                    q = bb.index(m)
                    bb[q + 1:q + 1] = m.orelse
                    m.orelse = []
                    yield '%d else to guard' % ln, f, []
                    break
        # 'a%db' % x -> format / f-string
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(
                n.left, ast.Constant) and isinstance(n.left.value, str) and \
                '{' not in n.left.value and n.left.value.count('%') == (
                    n.left.value.count('%d') + n.left.value.count('%s')):
            f, m = fresh(i)
            a = m.right.elts if isinstance(m.right, ast.Tuple) else [m.right]
            replace(f, m, ast.Call(ast.Attribute(ast.Constant(m.left.value.replace(
                '%d', '{}').replace('%s', '{}')), 'format', ast.Load()), a, []))
            yield '%d percent to format' % ln, f, []
            f, m = fresh(i)
            a = m.right.elts if isinstance(m.right, ast.Tuple) else [m.right]
            import re
            parts = re.split('%[ds]', m.left.value)
            if len(parts) == len(a) + 1:
                vals = []
                for k, pt in enumerate(parts):
                    if pt:
                        vals.append(ast.Constant(pt))
                    if k < len(a):
                        vals.append(ast.FormattedValue(a[k], -1, None))
                replace(f, m, ast.JoinedStr(vals))
                yield '%d percent to f-string' % ln, f, []
        # expression -> module level helper
        if isinstance(n, (ast.Assign, ast.Return)) and isinstance(
                n.value, (ast.BinOp, ast.Call, ast.ListComp, ast.DictComp, ast.IfExp)) and \
                not any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(n.value)):
            f, m = fresh(i)
            bound = {x.id for z in ast.walk(m.value) if isinstance(z, ast.comprehension)
                     for x in ast.walk(z.target) if isinstance(x, ast.Name)}
            ins = sorted(x for x in loads(m.value) if x in local and x not in bound)
            if not any(isinstance(x, ast.Lambda) for x in ast.walk(m.value)):
                helper = N('def _value_in_%s(): pass' % fn.name.strip('_'), 'exec')
                helper.args.args = [ast.arg(x + '_in') for x in ins]
                val = copy.deepcopy(m.value)
                for x in ast.walk(val):
                    if isinstance(x, ast.Name) and x.id in ins:
                        x.id += '_in'
                helper.body = [ast.Return(val)]
                m.value = ast.Call(N(helper.name), [ast.Name(x, ast.Load()) for x in ins], [])
                yield '%d value helper' % ln, f, [(helper, False)]
        # keyword arguments reordered
        if isinstance(n, ast.Call) and len(n.keywords) > 1 and all(k.arg for k in n.keywords):
            f, m = fresh(i)
            m.keywords = m.keywords[::-1]
            yield '%d reorder keywords' % ln, f, []
        # for k in d: .. d[k] -> for k, v in d.items()
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(
                n.iter, (ast.Name, ast.Attribute)):
            pat = ast.unparse(n.iter) + '[' + n.target.id + ']'
            hits = [x for y in n.body for x in ast.walk(y) if isinstance(x, ast.Subscript) and
                    isinstance(x.ctx, ast.Load) and ast.unparse(x) == pat]
            st = [x for y in n.body for x in ast.walk(y) if isinstance(x, ast.Subscript) and
                  not isinstance(x.ctx, ast.Load) and ast.unparse(x).startswith(pat)]
            if hits and not st:
                f, m = fresh(i)
                for y in m.body:
                    for x in list(ast.walk(y)):
                        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and \
                                ast.unparse(x) == pat:
                            replace(m, x, ast.Name('_item', ast.Load()))
                m.target = ast.Tuple([m.target, ast.Name('_item', ast.Store())], ast.Store())
                m.iter = ast.Call(ast.Attribute(m.iter, 'items', ast.Load()), [], [])
                yield '%d items()' % ln, f, []
    # inline single-use temporaries that are used in the very next statement
    for bi, b in enumerate(list(blocks(fn))):
        for k in range(len(b) - 1):
            st, nx = b[k], b[k + 1]
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(
                    st.targets[0], ast.Name) and not isinstance(
                    nx, (ast.For, ast.While, ast.If, ast.With, ast.Try, ast.FunctionDef)):
                nm = st.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == nm]
                un = [x for x in ast.walk(nx) if isinstance(x, ast.Name) and x.id == nm and
                      isinstance(x.ctx, ast.Load)]
                deferred = {id(y) for x in ast.walk(nx) if isinstance(
                    x, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Lambda))
                    for y in ast.walk(x)}
                if len(uses) == 2 and len(un) == 1 and id(un[0]) not in deferred:
                    f = copy.deepcopy(fn)
                    bb = list(blocks(f))[bi]
                    u = [x for x in ast.walk(bb[k + 1]) if isinstance(x, ast.Name) and
                         x.id == nm][0]
                    replace(bb[k + 1], u, bb[k].value)
                    del bb[k]
                    yield '%d inline %s' % (st.lineno, nm), f, []
            # swap independent adjacent assignments
            if isinstance(st, ast.Assign) and isinstance(nx, ast.Assign) and \
                    all(isinstance(t, ast.Name) for t in st.targets + nx.targets) and \
                    not (stores(st) & (loads(nx) | stores(nx))) and \
                    not (stores(nx) & loads(st)) and not any(
                        isinstance(y, ast.Call) for y in ast.walk(nx)):
                f = copy.deepcopy(fn)
                bb = list(blocks(f))[bi]
                bb[k], bb[k + 1] = bb[k + 1], bb[k]
                yield '%d swap independent' % st.lineno, f, []
    # helper extraction: runs of 1..3 statements
    lv = Liveness(fn)
    for bi, b in enumerate(list(blocks(fn))):
        for k in range(len(b)):
            for w in (1, 3):
                run = b[k:k + w]
                if len(run) < w or jumps(run) or any(isinstance(
                        s, (ast.FunctionDef, ast.Raise, ast.Import, ast.ImportFrom))
                        for s in run) or (len(run) == 1 and not isinstance(
                            run[0], (ast.For, ast.If, ast.With)) and k % 3):
                    continue
                if isinstance(run[0], ast.Expr) and isinstance(run[0].value, ast.Constant):
                    continue
                st = set().union(*[stores(s) for s in run])
                comp = {x.id for s in run for z in ast.walk(s) if isinstance(
                    z, ast.comprehension) for x in ast.walk(z.target) if isinstance(x, ast.Name)}
                live = lv.after.get(id(run[-1]), set(local))
                outs = sorted((st - comp) & live)
                before = lv.before.get(id(run[0]), set(local)) | {'self'}
                ins = sorted((set().union(*[loads(s) for s in run]) | set(outs)) &
                             set(local) & before)
                ins = [x for x in ins if x in set(local)]
                if any(o not in before and o not in {
                        t.id for s in run if isinstance(s, ast.Assign) for t in s.targets
                        if isinstance(t, ast.Name)} for o in outs):
                    continue
                if any(isinstance(x, ast.Name) and x.id == 'super' for s in run
                       for x in ast.walk(s)):
                    continue
                f = copy.deepcopy(fn)
                bb = list(blocks(f))[bi]
                body = bb[k:k + w]
                a = [x for x in ins if x != 'self']
                meth = cls and 'self' in params and 'self' in ins
                ret = ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()) \
                    if len(outs) > 1 else ast.Name(outs[0], ast.Load()) if outs else None
                helper = N('def _part_of_%s(): pass' % fn.name.strip('_'), 'exec')
                helper.args.args = [ast.arg(x) for x in (['self'] if meth else []) + a]
                helper.body = [copy.deepcopy(s) for s in body] + \
                    ([ast.Return(ret)] if ret else [])
                call = ast.Call(ast.Attribute(ast.Name('self', ast.Load()), helper.name,
                                              ast.Load()) if meth else
                                ast.Name(helper.name, ast.Load()),
                                [ast.Name(x, ast.Load()) for x in a], [])
                if outs:
                    tg = copy.deepcopy(ret)
                    for x in ast.walk(tg):
                        if hasattr(x, 'ctx'):
                            x.ctx = ast.Store()
                    new = ast.Assign([tg], call)
                else:
                    new = ast.Expr(call)
                bb[k:k + w] = [new]
                yield '%d extract %d stmts' % (b[k].lineno, w), f, [(helper, meth)]


def late(*_):
    raise TimeoutError


def main():
    core.big_stack()
    signal.signal(signal.SIGALRM, late)
    spec = sys.argv[1]
    flt = [a for a in sys.argv[2:] if not a.startswith('-')]
    verbose = '-v' in sys.argv
    combos = int(([a[2:] for a in sys.argv if a.startswith('-c')] or ['0'])[0])
    seed = ([a[2:] for a in sys.argv if a.startswith('-s')] or [''])[0]
    prog = Program()
    m, specs = refs.load_specs(prog, spec)
    jobs, byfunc = [], {}
    for t, f, o in specs:
        if flt and flt[0] not in t:
            continue
        code, cls = refs.find_target(prog, t, o)
        if code is None or code.qual not in prog.funcs:
            continue
        byfunc.setdefault(code.qual, []).append(t)
    for q in byfunc:
        code = prog.funcs[q]
        if not combos:
            for desc, node, extra in rewrites(code.node, code.cls):
                jobs.append((q, desc, node, extra))
        for k in range(combos):
            rnd = random.Random('%s %d %s' % (q, k, seed))
            node, extra, desc = code.node, [], []
            for _ in range(rnd.randint(2, 5)):
                cand = [c for c in rewrites(node, code.cls)
                        if 'index loop' not in c[0] and 'percent to' not in c[0] and
                        not {h.name for h, _ in c[2]} & {h.name for h, _ in extra}]
                if not cand:
                    break
                d, f, e = rnd.choice(cand)
                desc.append(d)
                extra = extra + e
                node = ast.parse(ast.unparse(ast.fix_missing_locations(f))).body[0]
            jobs.append((q, '%d: ' % k + ' + '.join(desc), node, extra))

    def work(job):
        q, desc, node, extra = job
        signal.alarm(90)
        code = prog.funcs[q]
        try:
            src = open(code.module.path, encoding='utf-8').read()
            tree = ast.parse(src)
            for parent in ast.walk(tree):
                for fld, v in ast.iter_fields(parent):
                    if isinstance(v, list):
                        for i, x in enumerate(v):
                            if isinstance(x, ast.FunctionDef) and x.lineno == code.node.lineno \
                                    and x.name == code.name:
                                v[i] = node
                                for h, meth in extra:
                                    if meth:
                                        v.insert(i, h)
                                break
            for h, meth in extra:
                if not meth:
                    tree.body.append(h)
            text = ast.unparse(ast.fix_missing_locations(tree))
            compile(text, 'x', 'exec')
            p2 = Program(overlay={code.module.rel: text})
            nm = refs.attr_names(p2)
            _, sp = refs.load_specs(p2, spec)
            res = []
            for t, f, o in sp:
                if t in byfunc[q]:
                    res += refs.compare_one(p2, nm, t, f, o)
            vs = [r[2] for r in res]
            if False in vs and verbose:
                print('\n'.join(ast.unparse(h) for h, _ in extra) + '\n' + ast.unparse(node),
                      file=sys.stderr)
            return q, desc, 'ALARM' if False in vs else ('undec' if None in vs else 'equal'), \
                [r[4][:300] for r in res if r[2] is not True][:1]
        except Exception as ex:
            return q, desc, 'ERROR', repr(ex)
    s = {}
    tot = {}
    for q, desc, v, info in core.pmap(work, jobs, deadline=20000,
                                     lost=lambda j: (j[0], j[1], 'LOST', [])):
        tot.setdefault(q, {}).setdefault(v, []).append((desc, info))
    for q, d in tot.items():
        print('%-60s' % '.'.join(q.split('.')[-2:]), {k: len(v) for k, v in d.items()})
        for k, v in d.items():
            s[k] = s.get(k, 0) + len(v)
            if k in ('ALARM', 'ERROR') or verbose and k != 'equal':
                for x in v:
                    print('      ', k, x[0], '|', x[1])
    print(s)


if __name__ == '__main__':
    main()
