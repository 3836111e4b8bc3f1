"""Localised comparison of a function with the text the checks have accepted (sa/base).

Used only for a function whose value graph, as a whole, could neither be matched with its reference
definition nor refuted. The two syntax trees are aligned; everything outside the differing regions
is the same program text, so inside a region every variable in scope is an unknown common input:
each region becomes a pair of small functions of those inputs and the value-graph comparison is
asked about them. Regions that compute the same are dropped. When exactly one region is left it is
a violation if the comparison refutes it, or if it is one of the changes in MATERIAL (a dropped or
newly guarded effect, another operator, constant, variable, operand order, ...) - changes which
do not leave the value alone. Anything else (rewritten structure, several interacting regions,
moved statements) stays undecided.
"""
import ast
import builtins
import copy
import os
from loader import Program, FuncInfo

HERE = os.path.dirname(os.path.abspath(__file__))
BUILTINS = set(dir(builtins))
_BASE = []


def base_program():
    if not _BASE:
        _BASE.append(Program(root=os.path.join(HERE, 'base')))
    return _BASE[0]


def dump(n):
    if isinstance(n, list):
        return '[' + ','.join(dump(x) for x in n) + ']'
    return ast.dump(n) if isinstance(n, ast.AST) else repr(n)


# ------------------------------------------------------------------------------ cleaning
class Clean(ast.NodeTransformer):
    def block(self, body):
        out = []
        for s in body:
            s = self.visit(s)
            if s is None or isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Constant, ast.Name)):
                continue
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and dump(s.value) == \
                    dump(s.targets[0]).replace('Store()', 'Load()'):
                continue
            out.append(s)
        return out

    def generic_visit(self, n):
        for k, v in list(ast.iter_fields(n)):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                b = self.block(v)
                if not b and k == 'body':
                    b = [ast.Pass()]
                setattr(n, k, b)
            elif isinstance(v, list):
                setattr(n, k, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(n, k, self.visit(v))
        return n

    def visit_FunctionDef(self, n):
        n = self.generic_visit(n)
        n.returns = None
        n.type_comment = None
        if n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            n.body = n.body[1:] or [ast.Pass()]
        return n

    def visit_arg(self, n):
        n.annotation = None
        n.type_comment = None
        return n

    def visit_AnnAssign(self, n):
        n = self.generic_visit(n)
        if n.value is None:
            return None
        return ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n)

    def visit_Constant(self, n):
        n.kind = None
        return n


def loads(n):
    """Names read in n from the scope n is in (comprehension variables and arguments are not)."""
    if isinstance(n, ast.Name):
        return {n.id} if isinstance(n.ctx, ast.Load) else set()
    own = set()
    if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        for g in n.generators:
            own |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        first = loads(n.generators[0].iter)
    elif isinstance(n, ast.Lambda):
        own = {x.arg for x in ast.walk(n.args) if isinstance(x, ast.arg)}
        first = loads(n.args)
    else:
        first = set()
    out = set()
    for c in ast.iter_child_nodes(n):
        out |= loads(c)
    return (out - own) | first


def stores(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and not
            isinstance(x.ctx, ast.Load)}


def pure(n):
    return not any(isinstance(x, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr))
                   for x in ast.walk(n))


class DropDead(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                n.targets[0].id in self.names and pure(n.value):
            return None
        return n


def clean(node, other=None):
    n = Clean().visit(copy.deepcopy(node))
    n.decorator_list = [d for d in n.decorator_list]
    dead = stores(n) - loads(n)
    if other is not None:
        dead -= stores(other)
        if dead:
            n = DropDead(dead).visit(n)
    return n


def locals_of(n):
    out = []
    a = n.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        out.append(x.arg)
    for x in ast.walk(n):
        if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load) and x.id not in out:
            out.append(x.id)
        elif isinstance(x, ast.FunctionDef) and x is not n and x.name not in out:
            out.append(x.name)
        elif isinstance(x, ast.ExceptHandler) and x.name and x.name not in out:
            out.append(x.name)
        elif isinstance(x, ast.arg) and x.arg not in out:
            out.append(x.arg)
    return out


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        if n.id in self.m:
            n.id = self.m[n.id]
        return n

    def visit_arg(self, n):
        if n.arg in self.m:
            n.arg = self.m[n.arg]
        return n

    def visit_ExceptHandler(self, n):
        if n.name in self.m:
            n.name = self.m[n.name]
        return self.generic_visit(n)

    def visit_FunctionDef(self, n):
        if n.name in self.m:
            n.name = self.m[n.name]
        return self.generic_visit(n)


# --------------------------------------------------------------------------- changed functions
def signature(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs], \
        [x is not None for x in (a.vararg, a.kwarg)]


def changed(prog):
    """{qual: (base function, current FuncInfo)} of functions in both with a different body, and
    True when some code outside these functions differs as well (other than new functions)."""
    if getattr(prog, '_changed', None) is not None:
        return prog._changed
    base = base_program()
    out, odd = {}, []
    for q, bf in base.funcs.items():
        cf = prog.funcs.get(q)
        if cf is None:
            odd.append(q)
            continue
        if dump(cf.node) == dump(bf.node):
            continue
        b = clean(bf.node)
        c = clean(cf.node, b)
        if dump(b) != dump(c):
            out[q] = (b, c, cf, bf)

    def outer(m):
        t = copy.deepcopy(m.tree)

        def strip(body):
            r = []
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.Import, ast.ImportFrom, ast.Pass)) or \
                        isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                if isinstance(s, ast.ClassDef):
                    s.body = strip(s.body)
                elif isinstance(s, ast.Try):
                    s.body, s.handlers = strip(s.body), []
                r.append(s)
            return r
        return dump(strip(t.body))
    for name, m in base.modules.items():
        cm = prog.modules.get(name)
        if cm is not None and outer(cm) != outer(m):
            odd.append(name)
    prog._changed = (out, odd)
    return prog._changed


# ------------------------------------------------------------------------------- alignment
class Region:
    """a -> b: statement lists; pairs: minimal differing expressions; ctx: enclosing tests."""
    def __init__(self, a, b, pairs, ctx, chain):
        self.a, self.b, self.pairs, self.ctx, self.chain = a, b, pairs, ctx, chain
        self.wa = a[0] if a else None

    def line(self):
        for s in list(self.b) + list(self.a):
            return getattr(s, 'lineno', 0)
        return 0

    def text(self):
        if len(self.pairs) >= 1:
            x, y, _ = self.pairs[0]
            return '`%s` became `%s`' % (show(x), show(y))
        if not self.b:
            return '`%s` was removed' % show(self.a[0])
        if not self.a:
            return '`%s` was added' % show(self.b[0])
        return '`%s` became `%s`' % (show(self.a[0]), show(self.b[0]))


def show(n):
    try:
        return ' '.join(ast.unparse(n).split())[:110]
    except Exception:
        return type(n).__name__


def lcs(x, y):
    n, m = len(x), len(y)
    t = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n - 1, -1, -1):
        for j in range(m - 1, -1, -1):
            t[i][j] = t[i + 1][j + 1] + 1 if x[i] == y[j] else max(t[i + 1][j], t[i][j + 1])
    i = j = 0
    out = []
    while i < n and j < m:
        if x[i] == y[j]:
            out.append((i, j))
            i += 1
            j += 1
        elif t[i + 1][j] >= t[i][j + 1]:
            i += 1
        else:
            j += 1
    return out


def bag(s):
    out = {}
    for x in ast.walk(s):
        k = type(x).__name__ + ':' + str(getattr(x, 'id', getattr(x, 'attr', getattr(
            x, 'value', '') if isinstance(x, ast.Constant) else '')))
        out[k] = out.get(k, 0) + 1
    return out


def similar(a, b):
    if type(a) is not type(b):
        return 0.0
    x, y = bag(a), bag(b)
    c = sum(min(v, y.get(k, 0)) for k, v in x.items())
    return 2.0 * c / (sum(x.values()) + sum(y.values()))


def diff_block(A, B, ctx, chain, out):
    A = [s for s in A if not isinstance(s, ast.Pass)]
    B = [s for s in B if not isinstance(s, ast.Pass)]
    m = lcs([dump(s) for s in A], [dump(s) for s in B]) + [(len(A), len(B))]
    i = j = 0
    for i2, j2 in m:
        if i2 > i or j2 > j:
            gap(A, i, i2, B, j, j2, ctx, chain, out)
        i, j = i2 + 1, j2 + 1


def gap(A, i, i2, B, j, j2, ctx, chain, out):
    ga, gb = A[i:i2], B[j:j2]
    ctx2 = ctx + guards(A[:i])
    if len(ga) == len(gb) and all(similar(x, y) > 0.5 for x, y in zip(ga, gb)):
        for k, (x, y) in enumerate(zip(ga, gb)):
            diff_stmt(x, y, ctx2, chain + [(A, i + k, i + k + 1, B, j + k, j + k + 1)], out)
        return
    out.append(Region(ga, gb, [], ctx2, chain + [(A, i, i2, B, j, j2)]))


def guards(before):
    """Tests known false because the statements before left otherwise."""
    out = []
    for k, s in enumerate(before):
        if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(
                s.body[-1], (ast.Raise, ast.Return, ast.Continue, ast.Break)):
            later = set()
            for t in before[k + 1:]:
                later |= stores(t)
            if not (loads(s.test) & later) and pure_enough(s.test):
                out.append(ast.UnaryOp(ast.Not(), s.test))
    return out


def pure_enough(t):
    return sum(1 for _ in ast.walk(t)) < 40


def diff_stmt(x, y, ctx, chain, out):
    if dump(x) == dump(y):
        return
    blocks = [f for f, v in ast.iter_fields(x) if isinstance(v, list) and
              (v and isinstance(v[0], ast.stmt) or f in ('body', 'orelse', 'finalbody'))]
    if not blocks and not isinstance(x, ast.Try):
        out.append(Region([x], [y], diff_expr(x, y, None), ctx, chain))
        return
    if isinstance(x, ast.FunctionDef):
        if dump(x.args) != dump(y.args) or x.name != y.name:
            out.append(Region([x], [y], [], ctx, chain))
            return
        diff_block(x.body, y.body, [], chain, out)
        return
    n0 = len(out)
    header = []
    for f, v in ast.iter_fields(x):
        w = getattr(y, f)
        if f in blocks or f == 'handlers':
            continue
        if isinstance(v, ast.AST):
            header += diff_expr(v, w, x)
        elif isinstance(v, list):
            if len(v) != len(w):
                out.append(Region([x], [y], [], ctx, chain))
                return
            for p, q in zip(v, w):
                header += diff_expr(p, q, x)
    for f in blocks:
        c2 = list(ctx)
        if isinstance(x, ast.If) and dump(x.test) == dump(y.test) and pure_enough(x.test):
            c2 = c2 + [x.test if f == 'body' else ast.UnaryOp(ast.Not(), x.test)]
        elif isinstance(x, (ast.For, ast.While)):
            st = stores(x)
            c2 = [t for t in c2 if not loads(t) & st]
        diff_block(getattr(x, f), getattr(y, f), c2, chain, out)
    if isinstance(x, ast.Try):
        if len(x.handlers) != len(y.handlers):
            del out[n0:]
            out.append(Region([x], [y], [], ctx, chain))
            return
        for p, q in zip(x.handlers, y.handlers):
            if dump(p.type) != dump(q.type) or p.name != q.name:
                out.append(Region([x], [y], [], ctx, chain))
            diff_block(p.body, q.body, [], chain, out)
    if header:
        # with a different header the variables of the body are no longer common inputs
        if len(out) > n0:
            header = []
        del out[n0:]
        out.append(Region([x], [y], header, ctx, chain))


def diff_expr(x, y, parent):
    """Minimal differing pairs (x, y, parent of x)."""
    if dump(x) == dump(y):
        return []
    if type(x) is not type(y) or not isinstance(x, ast.AST):
        return [(x, y, parent)]
    if isinstance(x, (ast.Name, ast.Constant)):
        return [(x, y, parent)]
    dx, dy = dump(x), dump(y)
    if isinstance(x, ast.expr):
        for c in ast.walk(y):
            if c is not y and isinstance(c, ast.expr) and dump(c) == dx:
                return [(x, y, parent)]
        for c in ast.walk(x):
            if c is not x and isinstance(c, ast.expr) and dump(c) == dy:
                return [(x, y, parent)]
    out, sides = [], []
    for f, v in ast.iter_fields(x):
        w = getattr(y, f, None)
        if isinstance(v, list) or isinstance(w, list):
            if not isinstance(v, list) or not isinstance(w, list) or len(v) != len(w):
                return [(x, y, parent)]
            for p, q in zip(v, w):
                if dump(p) != dump(q):
                    sides.append((p, q))
                    out += diff_expr(p, q, x) if isinstance(p, ast.AST) else [(x, y, parent)]
        elif isinstance(v, (ast.operator, ast.cmpop, ast.boolop, ast.unaryop)):
            if dump(v) != dump(w):
                sides.append((v, w))
                out.append((x, y, parent))
        elif isinstance(v, ast.AST) or isinstance(w, ast.AST):
            if dump(v) != dump(w):
                sides.append((v, w))
                if v is None or w is None:
                    return [(x, y, parent)]
                out += diff_expr(v, w, x)
        elif v != w:
            return [(x, y, parent)]
    if len(sides) == 2 and dump(sides[0][0]) == dump(sides[1][1]) and \
            dump(sides[0][1]) == dump(sides[1][0]):
        return [(x, y, parent)]
    return out


def regions(b, c):
    """Regions of difference of two cleaned functions."""
    if signature(b) != signature(c):
        return None
    lb, lc = locals_of(b), locals_of(c)
    for x, y in ((b.args.vararg, c.args.vararg), (b.args.kwarg, c.args.kwarg)):
        if x is not None and x.arg != y.arg and x.arg not in lc:
            c = Rename({y.arg: x.arg}).visit(copy.deepcopy(c))
            lc = locals_of(c)
    only_b = [n for n in lb if n not in lc]
    only_c = [n for n in lc if n not in lb]
    cands = [c]
    if only_b and len(only_b) == len(only_c):
        cands.append(Rename(dict(zip(only_c, only_b))).visit(copy.deepcopy(c)))
    best = None
    for cc in cands:
        out = []
        if dump(b.args) != dump(cc.args):
            for x, y in zip(b.args.defaults + b.args.kw_defaults,
                            cc.args.defaults + cc.args.kw_defaults):
                if dump(x) != dump(y):
                    out.append(Region([b], [cc], [], [], []))
        if dump(b.decorator_list) != dump(cc.decorator_list):
            out.append(Region([b], [cc], [], [], []))
        diff_block(b.body, cc.body, [], [], out)
        size = sum(sum(1 for _ in ast.walk(s)) for r in out for s in r.a + r.b)
        if best is None or size < best[0]:
            best = (size, out, cc)
    return best[1], best[2]


# ------------------------------------------------------------------------ value comparison
class Exits(ast.NodeTransformer):
    """Turn the ways out of a region into returned values."""
    def __init__(self, result, tail):
        self.result, self.depth, self.tail = result, 0, tail

    def out(self, tag, v):
        return ast.Return(ast.Tuple([ast.Constant(tag), v], ast.Load()))

    def visit_Return(self, n):
        if self.tail == 'func' and (n.value is None or isinstance(n.value, ast.Constant) and
                                    n.value.value is None):
            return self.out('next', copy.deepcopy(self.result))
        return self.out('return', n.value or ast.Constant(None))

    def loop(self, n):
        self.depth += 1
        n = self.generic_visit(n)
        self.depth -= 1
        return n

    visit_For = visit_While = loop

    def visit_Break(self, n):
        return n if self.depth else self.out('break', copy.deepcopy(self.result))

    def visit_Continue(self, n):
        return n if self.depth else self.out('next' if self.tail == 'loop' else 'continue',
                                             copy.deepcopy(self.result))

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n


def parent(fn, s):
    for p in ast.walk(fn):
        for f, v in ast.iter_fields(p):
            if isinstance(v, list) and any(x is s for x in v):
                return p, f
    return None, None


class Liveness:
    """Names live before and after every statement of a function (structured backward analysis)."""
    def __init__(self, fn, closures=True):
        self.before, self.after = {}, {}
        inner = set()
        for x in ast.walk(fn) if closures else ():
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn:
                inner |= loads(x)
        self.block(fn.body, set(inner), set(), set(), inner)

    def block(self, body, out, brk, cont, always):
        for s in reversed(body):
            self.after[id(s)] = self.after.get(id(s), set()) | out
            out = self.stmt(s, out, brk, cont, always) | always
            self.before[id(s)] = self.before.get(id(s), set()) | out
        return out

    def stmt(self, s, out, brk, cont, al):
        if isinstance(s, (ast.Return, ast.Raise)):
            return loads(s)
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, ast.If):
            return loads(s.test) | self.block(s.body, out, brk, cont, al) | \
                self.block(s.orelse, out, brk, cont, al)
        if isinstance(s, (ast.For, ast.While)):
            els = self.block(s.orelse, out, brk, cont, al)
            head = set(els)
            for _ in range(3):
                hd = head | els
                if isinstance(s, ast.While):
                    hd |= loads(s.test)
                inn = self.block(s.body, hd, out, hd, al)
                if isinstance(s, ast.For):
                    inn = inn - {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name) and
                                 isinstance(n.ctx, ast.Store)}
                head = hd | inn
            if isinstance(s, ast.For):
                head = head | loads(s.iter) | loads(s.target)
            return head
        if isinstance(s, ast.With):
            inn = self.block(s.body, out, brk, cont, al)
            for i in s.items:
                inn = inn | loads(i)
            return inn
        if isinstance(s, ast.Try):
            f = self.block(s.finalbody, out, brk, cont, al)
            r = self.block(s.body, self.block(s.orelse, f, brk, cont, al), brk, cont, al)
            for h in s.handlers:
                r = r | self.block(h.body, f, brk, cont, al)
            return r | loads(s)
        if isinstance(s, ast.FunctionDef):
            return (out - {s.name}) | loads(s)
        kill = set()
        if isinstance(s, ast.Assign):
            for t in s.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        kill.add(n.id)
        extra = {s.target.id} if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) \
            else set()
        return (out - kill) | loads(s) | extra


class Compare:
    def __init__(self, prog, names, opts, cf, b, c):
        self.prog, self.names, self.opts, self.cf = prog, names, opts, cf
        self.lb, self.lc = locals_of(b), locals_of(c)
        self.locals = self.lb + [n for n in self.lc if n not in self.lb]
        self.lvb, self.lvc = Liveness(b), Liveness(c)
        self.nb, self.nc = b, c

    def live_after(self, r, closures=True):
        """Names read after the region before they are assigned again, on either side."""
        out = set()
        A, i, i2, B, j, j2 = r.chain[-1]
        lvb, lvc = (self.lvb, self.lvc) if closures else (Liveness(self.nb, False),
                                                          Liveness(self.nc, False))
        for lv, block, p, q in ((lvb, A, i, i2), (lvc, B, j, j2)):
            if q > p:
                out |= lv.after.get(id(block[q - 1]), set(self.locals))
            elif p > 0:
                out |= lv.after.get(id(block[p - 1]), set(self.locals))
            elif p < len(block):
                out |= lv.before.get(id(block[p]), set(self.locals))
            else:
                out |= set(self.locals)
        return out

    def tail(self, r):
        """'loop' / 'func' when nothing of the loop body / function follows the region."""
        out = set()
        for (fn, block, q, reg) in ((self.nb, r.chain[-1][0], r.chain[-1][2], r.a),
                                    (self.nc, r.chain[-1][3], r.chain[-1][5], r.b)):
            if q != len(block):
                return None
            if not block:
                return None
            s = block[-1]
            while True:
                p, f = parent(fn, s)
                if p is fn:
                    out.add('func')
                    break
                if isinstance(p, (ast.For, ast.While)) and f == 'body':
                    out.add('loop')
                    break
                if not isinstance(p, (ast.If, ast.With)):
                    return None
                pp, ff = parent(fn, p)
                if pp is None or getattr(pp, ff)[-1] is not p:
                    return None
                s = p
        return out.pop() if len(out) == 1 else None

    def free(self, nodes):
        m = self.cf.module
        out = []
        for n in nodes:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and x.id not in out and (
                        x.id in self.locals or
                        self.prog.resolve_name(m, x.id) is None and x.id not in BUILTINS):
                    out.append(x.id)
        return out

    def func(self, body, params, tag):
        me = self.cf.node.args.args
        ps = list(params)
        if self.cf.cls is not None and not self.cf.is_static and me:
            first = me[0].arg
            ps = [first] + [p for p in ps if p != first]
        node = ast.FunctionDef(
            name='region', args=ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in ps],
                                              vararg=None, kwonlyargs=[], kw_defaults=[],
                                              kwarg=None, defaults=[]),
            body=body or [ast.Pass()], decorator_list=[
                d for d in self.cf.node.decorator_list
                if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod')],
            returns=None, type_comment=None, type_params=[])
        node = copy.deepcopy(node)
        for x in ast.walk(node):
            if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, 'lineno'):
                x.lineno = x.end_lineno = self.cf.node.lineno
                x.col_offset = x.end_col_offset = 0
        return FuncInfo(self.cf.qual + '.<%s region>' % tag, ast.fix_missing_locations(node),
                        self.cf.module, self.cf.cls)

    def wrap(self, body, ctx):
        for t in reversed(ctx):
            body = [ast.If(test=t, body=body, orelse=[])]
        return body

    def run(self, fa, fb):
        from refs import compare_funcs
        from engine import Engine
        eng = Engine(self.prog, no_inline=self.opts.get('no_inline', ()),
                     opaque_modules=self.opts.get('opaque',
                                                  ('randomized_benchmarking.dihedral',)),
                     external=self.opts.get('external', ()))
        try:
            res = compare_funcs(self.prog, self.names, eng, fb, fa, self.cf.cls,
                                {'region': True}, 'region')
        except (RecursionError, TimeoutError):
            raise
        except Exception:
            return None, ''
        vs = [r[2] for r in res]
        if not vs or None in vs and False not in vs:
            return None, ''
        if False in vs:
            return False, [r[4] for r in res if r[2] is False][0]
        return True, ''

    def expr(self, x, y, ctx):
        if not (isinstance(x, ast.expr) and isinstance(y, ast.expr)):
            return None, ''
        for n in (x, y):
            if not isinstance(getattr(n, 'ctx', ast.Load()), ast.Load) or any(
                    isinstance(z, (ast.Yield, ast.YieldFrom, ast.Starred)) for z in ast.walk(n)):
                return None, ''
        ctx = [t for t in ctx]
        ps = self.free([x, y] + ctx)
        fa = self.func(self.wrap([ast.Return(x)], ctx), ps, 'accepted')
        fb = self.func(self.wrap([ast.Return(y)], ctx), ps, 'current')
        v, msg = self.run(fa, fb)
        if v is False and self.implied_size([ast.Expr(x)], [ast.Expr(y)]):
            return None, ''
        return v, msg

    def stmts(self, r):
        a, b, ctx = r.a, r.b, r.ctx
        for s in a + b:
            if any(isinstance(z, (ast.Yield, ast.YieldFrom)) for z in ast.walk(s)) or \
                    isinstance(s, ast.FunctionDef) and s.name == self.cf.name:
                return None, ''
        st = []
        live = self.live_after(r)
        for s in a + b:
            comp = {id(x) for z in ast.walk(s) if isinstance(z, ast.comprehension)
                    for x in ast.walk(z.target)}
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load) and \
                        id(x) not in comp and x.id not in st and x.id in self.lb and \
                        x.id in self.lc and x.id in live:
                    st.append(x.id)
        res = ast.Tuple([ast.Name(n, ast.Load()) for n in st], ast.Load())
        ps = self.free(a + b + ctx)

        def build(body, tag):
            body = [Exits(res, self.tail(r)).visit(copy.deepcopy(s)) for s in body]
            body = self.wrap(body, ctx) + [
                ast.Return(ast.Tuple([ast.Constant('next'), copy.deepcopy(res)], ast.Load()))]
            return self.func(body, ps, tag)
        v, msg = self.run(build(a, 'accepted'), build(b, 'current'))
        if v is False and any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn
                              for fn in (self.nb, self.nc) for x in ast.walk(fn)):
            # names that only a local function reads may not be read any more
            strict = self.live_after(r, False)
            if not set(st) <= strict:
                res = ast.Tuple([ast.Name(n, ast.Load()) for n in st if n in strict], ast.Load())
                v, msg = self.run(build(a, 'accepted'), build(b, 'current'))
                if v is not False:
                    return None, ''
        if v is False and (self.unset_before(r, ps) or self.one_sided(r, ps) or
                           self.implied_size(a, b)):
            return None, ''         # an input without a value yet, or known to one side only
        return v, msg

    def implied_size(self, a, b):
        """One side reads the size of something (dim = len(mat)) that the other does not: sizes
        follow from the data, so the two may well agree."""
        la = {n for s in a for n in loads(s)} if a else set()
        lb = {n for s in b for n in loads(s)} if b else set()
        if not a or not b:
            return False
        return any(self.sizelike(n) for n in la ^ lb if n in self.locals)

    def sizelike(self, name, seen=()):
        if name in seen:
            return False
        found = False
        for fn in (self.nb, self.nc):
            for x in ast.walk(fn):
                if isinstance(x, ast.Assign) and any(
                        isinstance(t, (ast.Tuple, ast.List)) and any(
                            isinstance(e, ast.Name) and e.id == name for e in ast.walk(t))
                        for t in x.targets):
                    if not (isinstance(x.value, ast.Attribute) and x.value.attr == 'shape'):
                        return False
                    found = True
                elif isinstance(x, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == name for t in x.targets):
                    if not self.size_expr(x.value, seen + (name,)):
                        return False
                    found = True
                elif isinstance(x, ast.Name) and x.id == name and \
                        not isinstance(x.ctx, ast.Load) and not found and \
                        not any(isinstance(y, ast.Assign) and any(z is x for z in ast.walk(y))
                                for y in ast.walk(fn)):
                    return False
        return found

    def size_expr(self, e, seen):
        if isinstance(e, ast.Call):
            f = last_name(e.func)
            if f == 'len':
                return True
            return f in ('int', 'log2', 'sqrt', 'log', 'max', 'min', 'round') and e.args and \
                any(self.size_expr(x, seen) for x in e.args)
        if isinstance(e, ast.Subscript):
            return isinstance(e.value, ast.Attribute) and e.value.attr == 'shape'
        if isinstance(e, ast.Attribute):
            return e.attr in ('size', 'num_qubits', 'ndim')
        if isinstance(e, ast.BinOp):
            return self.size_expr(e.left, seen) or self.size_expr(e.right, seen)
        return isinstance(e, ast.Name) and e.id in self.locals and self.sizelike(e.id, seen)

    def one_sided(self, r, ps):
        """Inputs of the region that are variables of one of the two functions only."""
        A, i, i2, B, j, j2 = r.chain[-1]
        for lv, mine, other, block, p, q in ((self.lvb, self.lb, self.lc, A, i, i2),
                                             (self.lvc, self.lc, self.lb, B, j, j2)):
            if p < q:
                used = {n for s in block[p:q] for n in loads(s)} - \
                    {n for s in block[p:q] for n in stores(s)}
                if any(n in used and n in ps and n in mine and n not in other
                       for n in lv.before.get(id(block[p]), ())):
                    return True
        return False

    def unset_before(self, r, ps):
        """Inputs of the region that nothing before it assigns."""
        out = set()
        A, i, i2, B, j, j2 = r.chain[-1]
        for fn, lv, block, p in ((self.nb, self.lvb, A, i), (self.nc, self.lvc, B, j)):
            if p >= len(block):
                continue
            args = {x.arg for x in ast.walk(fn.args) if isinstance(x, ast.arg)}
            live = {n for n in lv.before.get(id(block[p]), ()) if n in ps and n in self.locals and
                    n not in args}
            if not live:
                continue
            have = set()

            def scan(body):
                for s in body:
                    if s is block[p]:
                        return True
                    inside = any(x is block[p] for x in ast.walk(s))
                    if inside and not isinstance(s, (ast.For, ast.While)):
                        for k in ('body', 'orelse', 'finalbody', 'handlers'):
                            for x in getattr(s, k, []):
                                if any(z is block[p] for z in ast.walk(x)):
                                    return scan(getattr(s, k) if not isinstance(
                                        x, ast.ExceptHandler) else x.body)
                    have.update(stores(s))
                    have.update(x.name for x in ast.walk(s) if isinstance(x, ast.FunctionDef))
                    if inside:
                        return True
                return False
            if not scan(fn.body):
                continue
            out |= live - have
        return out


# -------------------------------------------------------------------------- material changes
IDENT = {'list', 'tuple', 'copy', 'deepcopy', 'array', 'asarray', 'float', 'int', 'str', 'dict',
         'set', 'iter', 'enumerate', 'bool', 'range', 'len', 'frozenset', 'asanyarray', 'complex',
         'atleast_1d', 'squeeze', 'ravel', 'flatten', 'Operator', 'DensityMatrix', 'Choi'}
CHANGING = {'reversed', 'sorted', 'abs', 'round', 'min', 'max', 'sum', 'set', 'real', 'imag',
            'conj', 'conjugate', 'transpose', 'flip', 'clip', 'floor', 'ceil', 'sqrt', 'square',
            'exp', 'log', 'sort', 'unique', 'mean', 'inverse', 'adjoint', 'fliplr', 'flipud',
            'roll', 'cumsum', 'diag', 'absolute', 'negative', 'mod', 'power', 'isclose', 'fix',
            'upper', 'lower', 'strip', 'lstrip', 'rstrip', 'reverse_bits', 'reverse_ops'}
QUIET = ('warn', 'print', 'debug', 'info', 'warning', 'error', 'log', 'format_exc', 'draw',
         'show', 'tick_params', 'set_title', 'set_xlabel', 'set_ylabel', 'legend', 'grid')
EFFECTS = {'append', 'extend', 'insert', 'update', 'pop', 'remove', 'clear', 'reverse', 'sort',
           'add', 'setdefault', 'compose', 'barrier', 'measure', 'x', 'y', 'z', 'h', 's', 'sdg',
           't', 'tdg', 'cx', 'cz', 'u1', 'u2', 'u3', 'rx', 'ry', 'rz', 'swap', 'reset', 'delay',
           'ry', 'crx', 'cu1', 'add_edge', 'add_node', 'discard', 'popitem', 'fill', 'shuffle',
           'add_edges_from', 'add_register', 'id', 'i'}


def last_name(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''


def none_test(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return none_test(t.operand)
    if isinstance(t, ast.BoolOp):
        return all(none_test(x) for x in t.values)
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        if isinstance(t.ops[0], (ast.Is, ast.IsNot)):
            return True
        c = t.comparators[0]
        if isinstance(t.left, ast.Call) and last_name(t.left.func) in ('len', 'type') or \
                isinstance(c, ast.Call) and last_name(c.func) in ('len', 'type'):
            return True
        return False
    if isinstance(t, ast.Call) and last_name(t.func) in ('isinstance', 'hasattr', 'callable',
                                                         'issubclass', 'len', 'any', 'bool'):
        return True
    return isinstance(t, (ast.Name, ast.Attribute)) and False


def neutral_guard(t, body):
    """A guard that only skips work with nothing to do, or looks at the kind of value."""
    if none_test(t):
        return True
    x = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else t
    if all(isinstance(s, (ast.For, ast.Return, ast.Raise, ast.Continue)) for s in body):
        names = loads(x)
        if all(isinstance(s, ast.For) and names <= loads(s.iter) for s in body):
            return True
        if isinstance(x, (ast.Name, ast.Attribute)) and x is not t:
            return True
    return all(isinstance(s, ast.Raise) for s in body)


def quiet_stmt(s):
    if isinstance(s, (ast.Raise, ast.Assert, ast.Pass, ast.Import, ast.ImportFrom, ast.Global,
                      ast.Nonlocal)):
        return True
    if isinstance(s, ast.Expr):
        v = s.value
        return not isinstance(v, ast.Call) or last_name(v.func) in QUIET
    if isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
        body = list(s.body) + list(getattr(s, 'orelse', []))
        return all(quiet_stmt(x) for x in body)
    return False


def base_names(t):
    """Root names written by an assignment target, and whether it writes inside the value."""
    if isinstance(t, (ast.Tuple, ast.List)):
        return [z for x in t.elts for z in base_names(x)]
    inner = False
    while isinstance(t, (ast.Subscript, ast.Attribute, ast.Starred)):
        inner = True
        t = t.value
    return [(t.id if isinstance(t, ast.Name) else None, inner)]


class Material:
    def __init__(self, b, c):
        self.b, self.c = b, c
        self.lb, self.lc = set(locals_of(b)), set(locals_of(c))

    def region(self, r):
        pairs = r.pairs
        if pairs:
            if len({(dump(x), dump(y)) for x, y, _ in pairs}) > 1:
                return None
            if r.a and quiet_stmt(r.a[0]) and not isinstance(
                    r.a[0], (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                return None
            x, y, p = pairs[0]
            return self.pair(x, y, p)
        return self.stmts(r.a, r.b)

    # statements
    def effect(self, s, known):
        """The statement changes something the accepted text knows."""
        if quiet_stmt(s):
            return False
        if isinstance(s, ast.Assign):
            for t in s.targets:
                for n, inner in base_names(t):
                    if inner and (n in known or n is None):
                        return True
                    if n in known and not self.identity(s.value, n):
                        return True
            return False
        if isinstance(s, ast.AugAssign):
            return any(n in known for n, _ in base_names(s.target))
        if isinstance(s, ast.Delete):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            f = s.value.func
            if isinstance(f, ast.Attribute):
                root = base_names(f.value)[0][0]
                return f.attr in EFFECTS and root in known
            return False
        if isinstance(s, ast.If):
            if neutral_guard(s.test, s.body) and not s.orelse:
                return False
            return any(self.effect(x, known) or isinstance(x, (ast.Return, ast.Break,
                                                               ast.Continue))
                       for x in s.body + s.orelse)
        if isinstance(s, (ast.For, ast.While)):
            return any(self.effect(x, known) for x in s.body)
        return False

    def identity(self, v, n):
        """v is another spelling of the value of n (a copy, a conversion)."""
        while True:
            if isinstance(v, ast.Name):
                return v.id == n
            if isinstance(v, ast.Call):
                if isinstance(v.func, ast.Attribute) and v.func.attr == 'copy' and not v.args:
                    v = v.func.value
                elif last_name(v.func) in IDENT and v.args:
                    v = v.args[0]
                else:
                    return False
            elif isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Slice) and not any(
                    (v.slice.lower, v.slice.upper, v.slice.step)):
                v = v.value
            elif isinstance(v, ast.IfExp):
                return self.identity(v.body, n) and self.identity(v.orelse, n)
            else:
                return False

    def stmts(self, a, b):
        if a and isinstance(a[0], ast.FunctionDef) or b and isinstance(b[0], ast.FunctionDef):
            return None
        if not b:
            eff = [s for s in a if self.effect(s, self.lb & self.lc | {None}) or
                   isinstance(s, (ast.Break, ast.Continue, ast.Return))]
            if eff and not any(isinstance(s, ast.Return) for s in a):
                return 'dropped: `%s`' % show(eff[0])
            return None
        if not a:
            for s in b:
                if self.effect(s, self.lb & self.lc):
                    return 'added: `%s`' % show(s)
                if isinstance(s, (ast.Break, ast.Continue)):
                    return 'added: `%s`' % show(s)
            return None
        # newly guarded / no longer guarded
        da, db = dump(a), dump(b)
        if len(b) == 1 and isinstance(b[0], ast.If) and dump(b[0].body) == da and \
                not b[0].orelse and not neutral_guard(b[0].test, a) and \
                not all(quiet_stmt(s) for s in a):
            return 'now only when `%s`: `%s`' % (show(b[0].test), show(a[0]))
        if len(a) == 1 and isinstance(a[0], ast.If) and dump(a[0].body) == db and \
                not a[0].orelse and not neutral_guard(a[0].test, b) and \
                not all(quiet_stmt(s) for s in b):
            return 'no longer only when `%s`: `%s`' % (show(a[0].test), show(b[0]))
        # moved into or out of the preceding loop / branch is left undecided
        return None

    # expressions
    def pair(self, x, y, p):
        if isinstance(x, ast.Constant) and isinstance(y, ast.Constant):
            u, v = x.value, y.value
            if u is Ellipsis or v is Ellipsis or u is None or v is None:
                return None
            if isinstance(u, str) != isinstance(v, str):
                return None
            if u != v:
                return 'constant %r instead of %r' % (v, u)
            return None
        if isinstance(x, ast.Name) and isinstance(y, ast.Name):
            if x.id in self.lb and y.id in self.lb and x.id in self.lc and y.id in self.lc and \
                    not self.alias(x.id, y.id):
                return '`%s` instead of `%s`' % (y.id, x.id)
            return None
        if isinstance(x, ast.Name) and x.id in self.lc and isinstance(y, ast.Constant) and \
                isinstance(y.value, (int, float)):
            return 'constant %r instead of `%s`' % (y.value, x.id)
        if type(x) is type(y):
            r = self.same(x, y)
            if r:
                return r
        r = self.wrapped(x, y)
        if r:
            return 'now ' + r
        r = self.wrapped(y, x)
        if r:
            return 'no longer ' + r
        return None

    def alias(self, p, q):
        for s in ast.walk(self.c):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name) and s.targets[0].id in (p, q):
                o = q if s.targets[0].id == p else p
                if self.identity(s.value, o):
                    return True
        return False

    def same(self, x, y):
        if isinstance(x, (ast.BinOp, ast.AugAssign)):
            kids = ('left', 'right') if isinstance(x, ast.BinOp) else ('target', 'value')
            eq = all(dump(getattr(x, k)) == dump(getattr(y, k)) for k in kids)
            if eq and type(x.op) is not type(y.op):
                return 'operator %s instead of %s' % (type(y.op).__name__, type(x.op).__name__)
            if isinstance(x, ast.BinOp) and dump(x.left) == dump(y.right) and \
                    dump(x.right) == dump(y.left) and type(x.op) is type(y.op) and \
                    isinstance(x.op, (ast.Sub, ast.Div, ast.MatMult, ast.Pow, ast.Mod,
                                      ast.FloorDiv)):
                return 'operands swapped in `%s`' % show(y)
        elif isinstance(x, ast.BoolOp):
            if dump(x.values) == dump(y.values) and type(x.op) is not type(y.op):
                return '`%s` instead of `%s`' % (show(y), show(x))
            if type(x.op) is type(y.op):
                u, v = [dump(t) for t in x.values], [dump(t) for t in y.values]
                if len(u) != len(v) and (set(u) < set(v) or set(v) < set(u)):
                    odd = [t for t in x.values + y.values
                           if (dump(t) in u) != (dump(t) in v)]
                    if not all(none_test(t) for t in odd):
                        return '`%s` instead of `%s`' % (show(y), show(x))
        elif isinstance(x, ast.Compare) and len(x.ops) == len(y.ops) == 1:
            if dump(x.left) == dump(y.left) and dump(x.comparators) == dump(y.comparators):
                p, q = type(x.ops[0]), type(y.ops[0])
                if {p, q} not in ({ast.Is, ast.Eq}, {ast.IsNot, ast.NotEq}):
                    return '`%s` instead of `%s`' % (show(y), show(x))
        elif isinstance(x, ast.Call):
            if dump(x.func) == dump(y.func):
                if not x.keywords and not y.keywords and len(x.args) == len(y.args) and \
                        sorted(map(dump, x.args)) == sorted(map(dump, y.args)) and \
                        last_name(x.func) not in ('isclose', 'max', 'min', 'add', 'multiply',
                                                  'gcd', 'hypot', 'allclose', 'array_equal'):
                    return 'arguments swapped in `%s`' % show(y)
                if dump(x.args) == dump(y.args):
                    kx = {k.arg: k.value for k in x.keywords}
                    ky = {k.arg: k.value for k in y.keywords}
                    lost = [k for k in kx if k and k not in ky]
                    new = [k for k in ky if k and k not in kx]
                    if lost and not new and all(dump(kx[k]) == dump(ky[k]) for k in ky) and \
                            any(loads(kx[k]) for k in lost) and None not in ky:
                        return '`%s` no longer passed to `%s`' % (lost[0], show(y.func))
                    if new == ['reverse'] and not lost:
                        return 'now reversed: `%s`' % show(y)
                if not y.keywords and not x.keywords and len(y.args) < len(x.args) and \
                        dump(y.args) == dump(x.args[:len(y.args)]) and \
                        any(loads(t) for t in x.args[len(y.args):]) and \
                        isinstance(x.func, (ast.Name, ast.Attribute)) and \
                        last_name(x.func) not in ('get', 'range', 'zip', 'print'):
                    return '`%s` no longer passed to `%s`' % (show(x.args[-1]), show(y.func))
        elif isinstance(x, ast.Attribute):
            if dump(x.value) == dump(y.value) and x.attr.lstrip('_') != y.attr.lstrip('_') and \
                    x.attr in EFFECTS and y.attr in EFFECTS and \
                    {x.attr, y.attr} != {'id', 'i'}:
                return '`.%s` instead of `.%s`' % (y.attr, x.attr)
        elif isinstance(x, ast.Slice):
            return 'slice `%s` instead of `%s`' % (show(y), show(x))
        elif isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp,
                            ast.comprehension)):
            gx = x.generators if hasattr(x, 'generators') else [x]
            gy = y.generators if hasattr(y, 'generators') else [y]
            if len(gx) == len(gy):
                fx, fy = [dump(g.ifs) for g in gx], [dump(g.ifs) for g in gy]
                if fx != fy and all((dump(p.iter), dump(p.target)) == (dump(q.iter),
                                                                       dump(q.target))
                                    for p, q in zip(gx, gy)):
                    odd = [g for p, q in zip(gx, gy) for g in p.ifs + q.ifs
                           if dump(p.ifs) != dump(q.ifs)]
                    if (not any(p.ifs for p in gx) or not any(q.ifs for q in gy)) and \
                            not all(none_test(t) for t in odd):
                        return 'filter `%s` added or dropped' % show(odd[0])
        elif isinstance(x, ast.IfExp):
            if dump(x.test) == dump(y.test) and dump(x.body) == dump(y.orelse) and \
                    dump(x.orelse) == dump(y.body):
                return 'branches swapped in `%s`' % show(y)
        return None

    def wrapped(self, x, y):
        """y is x inside something that changes its value."""
        dx = dump(x)

        def has(n):
            return isinstance(n, ast.AST) and dump(n) == dx
        if isinstance(y, ast.BinOp):
            o = y.right if has(y.left) else y.left if has(y.right) else None
            if o is not None:
                if isinstance(o, ast.Constant) and (o.value in (0, 1, 1.0, '') or
                                                    not isinstance(o.value, (int, float))):
                    zero = isinstance(y.op, (ast.Add, ast.Sub))
                    if not isinstance(o.value, (int, float)) or bool(o.value) != zero:
                        return None
                if isinstance(o, (ast.List, ast.Tuple)) and not o.elts:
                    return None
                return 'combined with `%s`: `%s`' % (show(o), show(y))
        elif isinstance(y, ast.UnaryOp) and has(y.operand) and \
                isinstance(y.op, (ast.USub, ast.Not, ast.Invert)):
            return 'negated: `%s`' % show(y)
        elif isinstance(y, ast.IfExp):
            o = y.orelse if has(y.body) else y.body if has(y.orelse) else None
            if o is not None and not none_test(y.test):
                return 'replaced by `%s` in some cases: `%s`' % (show(o), show(y))
        elif isinstance(y, ast.BoolOp):
            o = [v for v in y.values if not has(v)]
            if len(o) == len(y.values) - 1 and not all(none_test(t) for t in o):
                return 'combined with `%s`: `%s`' % (show(o[0]), show(y))
        elif isinstance(y, ast.Subscript) and has(y.value):
            s = y.slice
            if isinstance(s, ast.Slice) and not (s.lower or s.upper or s.step):
                return None
            return 'only part of it: `%s`' % show(y)
        elif isinstance(y, ast.Call):
            f = last_name(y.func)
            if len(y.args) >= 1 and has(y.args[0]) and f in CHANGING:
                return 'changed by `%s`' % f
            if isinstance(y.func, ast.Attribute) and has(y.func.value) and f in CHANGING:
                return 'changed by `.%s()`' % f
            if len(y.args) == 2 and f in ('min', 'max', 'maximum', 'minimum') and \
                    any(has(v) for v in y.args):
                return 'limited: `%s`' % show(y)
        elif isinstance(y, ast.Attribute) and has(y.value) and y.attr in ('T', 'real', 'imag'):
            return 'changed by `.%s`' % y.attr
        return None


# ------------------------------------------------------------------------------------ driver
def judge(prog, names, target, opts, analyzed):
    """(True/False/None, where, message) for the changes in the functions a target reaches."""
    ch, odd = changed(prog)
    rel = {q: v for q, v in ch.items() if q in analyzed}
    if not rel or odd:
        return None, '', 'code outside functions differs' if odd else ''
    left, merged = [], []
    for q, (b, c, cf, bf) in rel.items():
        rs = regions(b, c)
        if rs is None:
            return None, '', 'signature of %s differs' % q
        rs, cc = rs
        cmp_ = Compare(prog, names, opts, cf, b, cc)
        mat = Material(b, cc)
        mine = []
        for r in rs:
            v, msg = verdict(cmp_, mat, r)
            if v is not True:
                mine.append((v, msg, r, cf))
        if len(mine) > 1:
            v, msg, r = span(cmp_, [m[2] for m in mine])
            if v is True:
                mine = []
            elif v is False:
                mine = [(False, msg, r, cf)]
        left += mine
    if not left:
        return True, '', ''
    if len(left) == 1 and left[0][0] is False:
        v, msg, r, cf = left[0]
        return False, '%s:%d' % (cf.module.rel, r.line()), '%s: %s' % (
            '.'.join(cf.qual.split('.')[-2:]), msg)
    return None, '', '%d regions differ' % len(left)


def verdict(cmp_, mat, r):
    if any(isinstance(s, ast.FunctionDef) for s in r.a + r.b) and not r.chain:
        return None, ''
    if r.pairs and not (isinstance(r.a[0], ast.Expr) and r.pairs[0][0] is r.a[0].value):
        seen = {}
        for x, y, _ in r.pairs:
            seen.setdefault((dump(x), dump(y)), (x, y))
        vs = [(cmp_.expr(x, y, r.ctx), x, y) for x, y in seen.values()]
        left = [v for v in vs if v[0][0] is not True]
        if not left:
            return True, ''
        if len(left) == 1 and left[0][0][0] is False:
            return False, '`%s` became `%s`: %s' % (show(left[0][1]), show(left[0][2]),
                                                    left[0][0][1])
    v, msg = cmp_.stmts(r)
    if v is False:
        return False, '%s: %s' % (r.text(), msg)
    if v is True:
        return True, ''
    m = mat.region(r)
    if m:
        return False, '%s (%s)' % (m, r.text())
    return None, ''


def span(cmp_, rs):
    """The smallest statement range of one block that covers all regions, compared as a whole."""
    best = None
    if any(not r.chain for r in rs):
        return None, '', rs[0]
    for level in rs[0].chain:
        A, B = level[0], level[3]
        ranges = []
        for r in rs:
            hit = [c for c in r.chain if [id(s) for s in c[0]] == [id(s) for s in A]]
            if not hit:
                break
            ranges.append(hit[0])
        else:
            best = (A, min(c[1] for c in ranges), max(c[2] for c in ranges),
                    B, min(c[4] for c in ranges), max(c[5] for c in ranges))
    if best is None:
        return None, '', rs[0]
    A, i, i2, B, j, j2 = best
    r = Region(A[i:i2], B[j:j2], [], [], [best])
    v, msg = cmp_.stmts(r)
    return v, '%s: %s' % (rs[0].text(), msg), r
