"""Interprocedural value-graph builder (gated dataflow, no execution of /repo code).

Every function body is traversed once per calling context; assignments become
value-graph terms, branches become gated joins, loops become indexed segments
(`for` nodes) and repository callees are inlined.  The traversal records an
event log (calls, raises, mutations, attribute writes) with path conditions.
"""
import ast
import itertools
import math
from terms import N, mk, C, g, TRUE, FALSE, NONE, UNK, is_const, children, walk, contains, subst
from loader import Program, FuncInfo, ClassInfo, dotted

UNDEF = mk('undef')
MAXDEPTH = 14
UNROLL = 24

LIST_MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update',
            'setdefault', 'popitem', 'add', 'discard', 'difference_update', 'intersection_update',
            'symmetric_difference_update', 'appendleft', 'popleft', 'fill', 'resize', 'put',
            'itemset', 'partition', 'setflags', 'byteswap', '__setitem__', '__delitem__'}

SCALAR_FUNCS = {'len', 'int', 'float', 'bool', 'abs', 'isinstance', 'hasattr', 'callable', 'id',
                'hash', 'ord', 'chr', 'type', 'round', 'issubclass', 'complex', 'repr', 'hex',
                'bin', 'str', 'divmod', 'pow', 'all', 'any'}

EXC_BUILTINS = {n for n in dir(__builtins__ if not isinstance(__builtins__, dict) else object)}
import builtins as _b
BUILTINS = set(dir(_b))
EXC_BUILTINS = {n for n in BUILTINS if isinstance(getattr(_b, n), type)
                and issubclass(getattr(_b, n), BaseException)}


# ---------------------------------------------------------------- boolean simplification
def NOT(c):
    if c.op == 'const':
        return C(not c.a[0])
    if c.op == 'not':
        return c.a[0]
    if c.op == 'cmp':
        inv = {'==': '!=', '!=': '==', '<': '>=', '<=': '>', 'in': 'not in', 'not in': 'in',
               'is': 'is not', 'is not': 'is'}
        o = c.a[0]
        if o in inv:
            return CMP(inv[o], c.a[1], c.a[2])
    if c.op == 'and':
        return OR(*[NOT(x) for x in c.a[0]])
    if c.op == 'or':
        return AND(*[NOT(x) for x in c.a[0]])
    if c.op == 'all':
        return mk('exists', c.a[0], NOT(c.a[1]))
    if c.op == 'exists':
        return mk('all', c.a[0], NOT(c.a[1]))
    return mk('not', c)


def CMP(o, a, b):
    if o == '>':
        o, a, b = '<', b, a
    elif o == '>=':
        o, a, b = '<=', b, a
    if a.op == 'const' and b.op == 'const':
        try:
            x, y = a.a[0], b.a[0]
            r = {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y,
                 '<=': lambda: x <= y, 'in': lambda: x in y, 'not in': lambda: x not in y,
                 'is': lambda: x is y or (x == y and type(x) is type(y)),
                 'is not': lambda: not (x is y or (x == y and type(x) is type(y)))}[o]()
            return C(bool(r))
        except Exception:
            pass
    if o in ('==', '<=') and a is b and a.op != 'unk':
        return TRUE
    if o in ('!=', '<') and a is b and a.op != 'unk':
        return FALSE
    if o in ('==', '!=', 'is', 'is not'):
        # known-distinct kinds
        for x, y in ((a, b), (b, a)):
            if x.op == 'const' and x.a[0] is None and notnone(y):
                return C(o in ('!=', 'is not'))
            if x.op == 'const' and x.a[0] is None and y.op == 'call' and y.a[0].op == 'g' and \
                    y.a[0].a[0] in ('copy.deepcopy', 'copy.copy') and len(y.a[1]) == 1:
                return CMP(o, y.a[1][0], x)
        if a.op == 'const' and b.op != 'const':
            a, b = b, a
        elif b.op != 'const' and repr_key(b) < repr_key(a):
            a, b = b, a
    if o in ('is', 'is not', '==', '!=') and is_const(b, None) and a.op == 'if':
        c = a.a[0]
        x, y = CMP(o, a.a[1], b), CMP(o, a.a[2], b)
        x = TRUE if x is c else FALSE if x is NOT(c) else x
        y = FALSE if y is c else TRUE if y is NOT(c) else y
        if x.op == 'const' or y.op == 'const':
            return OR(AND(c, x), AND(NOT(c), y))
    if o in ('in', 'not in'):
        items = const_items(b)
        if items is not None and a.op == 'const':
            try:
                r = a in items
                return C(r == (o == 'in'))
            except Exception:
                pass
        if items is not None and 0 < len(items) <= 8 and b.op != 'const':
            parts = [CMP('==', a, x) for x in items]
            return OR(*parts) if o == 'in' else AND(*[NOT(p) for p in parts])
    return mk('cmp', o, a, b)


_keys = {}


def repr_key(n):
    k = _keys.get(id(n))
    if k is None:
        k = (n.op, str(n)[:200])
        _keys[id(n)] = k
    return k


def notnone(y):
    if y.op in ('seq', 'fmt', 'loop', 'iv', 'obj', 'class', 'func', 'closure', 'bound', 'tuple'):
        return True
    if y.op == 'bin' or y.op == 'cmp':
        return True
    if y.op == 'const':
        return y.a[0] is not None
    if y.op == 'call' and y.a[0].op == 'g':
        q = y.a[0].a[0]
        return (q in ('len', 'range', 'list', 'dict', 'set', 'int', 'float', 'str', 'sorted',
                      'tuple')
                or q.startswith('numpy.')) and q != 'numpy.random.seed'
    if y.op == 'g':
        return False
    return False


def const_items(b):
    """Items of a fully known list/tuple/set/dict-keys/const-str-free container, else None."""
    if b.op == 'seq':
        out = []
        for s in b.a[0]:
            if s.op == 'item':
                out.append(s.a[0])
            elif s.op == 'kv':
                out.append(s.a[0])
            else:
                return None
        if all(x.op in ('const', 'seq', 'fmt') for x in out) and \
                all(x.op == 'const' for x in out):
            return out
        return out if all(x.op == 'const' for x in out) else None
    return None


def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out.extend(x.a[0])
        else:
            out.append(x)
    r = []
    for x in out:
        if x not in r:
            r.append(x)
    return r


def AND(*xs):
    xs = [x for x in _flat('and', xs) if not is_const(x, True)]
    if any(x.op == 'const' and not x.a[0] for x in xs):
        return FALSE
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    s = set(map(id, xs))
    for x in xs:
        if id(NOT(x)) in s:
            return FALSE
    return mk('and', tuple(xs))


def OR(*xs):
    xs = [x for x in _flat('or', xs) if not (x.op == 'const' and not x.a[0])]
    if any(x.op == 'const' and x.a[0] for x in xs):
        return TRUE
    if not xs:
        return FALSE
    if len(xs) == 1:
        return xs[0]
    s = set(map(id, xs))
    for x in xs:
        if id(NOT(x)) in s:
            return TRUE
    return mk('or', tuple(xs))


def truth(v):
    """Boolean condition of a value used in a test."""
    if v.op == 'const':
        try:
            return C(bool(v.a[0]))
        except Exception:
            return mk('truthy', v)
    if v.op in ('cmp', 'not', 'and', 'or', 'exists', 'all', 'exc', 'truthy'):
        return v
    if v.op == 'if':
        a, b = truth(v.a[1]), truth(v.a[2])
        return OR(AND(v.a[0], a), AND(NOT(v.a[0]), b))
    if v.op == 'seq':
        if not v.a[0]:
            return FALSE
        if any(s.op in ('item', 'kv') for s in v.a[0]):
            return TRUE
        return CMP('!=', length(v), C(0))
    if v.op in ('closure', 'func', 'class', 'bound', 'obj'):
        return TRUE
    if v.op == 'call' and v.a[0].op == 'g':
        q = v.a[0].a[0]
        if q == 'bool' and len(v.a[1]) == 1:
            return truth(v.a[1][0])
        if q == 'len' and len(v.a[1]) == 1:
            return CMP('!=', v, C(0))
        if q in ('isinstance', 'hasattr', 'callable', 'any', 'all', 'numpy.allclose',
                 'issubclass', 'numpy.any', 'numpy.all'):
            return v
    return mk('truthy', v)


def IF(c, a, b):
    if c.op == 'const':
        return a if c.a[0] else b
    if a is b:
        return a
    if c.op == 'not':
        c, a, b = c.a[0], b, a
    if c.op == 'cmp' and c.a[0] in ('!=', 'is not', 'not in'):
        c, a, b = NOT(c), b, a
    if a.op == 'if' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'if' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if c.op == 'cmp' and c.a[0] in ('==', 'is') and a.op == 'const' and (
            (c.a[1] is b and c.a[2] is a) or (c.a[2] is b and c.a[1] is a)):
        return b
    if a.op == 'seq' and a.a[1] == 'ops' and b.op != 'seq' and a.a[0] and a.a[0][0] is mk('base', b):
        b = mk('seq', (mk('base', b),), 'ops')
    elif b.op == 'seq' and b.a[1] == 'ops' and a.op != 'seq' and b.a[0] and \
            b.a[0][0] is mk('base', a):
        a = mk('seq', (mk('base', a),), 'ops')
    if a.op == 'seq' and b.op == 'seq' and a.a[1] == b.a[1]:
        x, y = a.a[0], b.a[0]
        k = 0
        while k < len(x) and k < len(y) and x[k] is y[k]:
            k += 1
        if k or not x or not y or a.a[1] in ('list', 'ops', 'dict', 'set'):
            return mk('seq', x[:k] + (mk('ifseg', c, x[k:], y[k:]),), a.a[1])
    # "x if x is not None else d" family kept as is
    return mk('if', c, a, b)


def length(v):
    if v.op == 'const':
        try:
            return C(len(v.a[0]))
        except Exception:
            pass
    if v.op == 'seq' and v.a[1] in ('list', 'tuple', 'gen'):
        n, rest = 0, []
        for s in v.a[0]:
            if s.op == 'item':
                n += 1
            elif s.op == 'for' and is_const(s.a[1], True) and all(x.op == 'item' for x in s.a[2]):
                L = s.a[0]
                if L.a[1] is not None and is_const(L.a[1], 0) and is_const(L.a[3], 1):
                    t = L.a[2]
                    if len(s.a[2]) > 1:
                        t = BIN('*', t, C(len(s.a[2])))
                    rest.append(t)
                else:
                    break
            elif s.op == 'splice':
                rest.append(length(s.a[0]))
            else:
                break
        else:
            r = None
            for t in rest:
                r = t if r is None else BIN('+', r, t)
            if r is None:
                return C(n)
            return BIN('+', r, C(n)) if n else r
    if v.op == 'seq' and v.a[1] == 'dict' and all(s.op == 'kv' and s.a[0].op == 'const'
                                                  for s in v.a[0]):
        return C(len({s.a[0] for s in v.a[0]}))
    if v.op == 'seq' and v.a[0] and v.a[0][0].op == 'base' and \
            all(s.op == 'do' and s.a[0] == '__setitem__' for s in v.a[0][1:]):
        b = v.a[0][0].a[0]
        if b.op == 'call' and b.a[0].op == 'g' and b.a[0].a[0].startswith('numpy.'):
            return length(b)
    if v.op == 'call' and v.a[0].op == 'g' and v.a[0].a[0] in ('numpy.zeros', 'numpy.ones',
                                                              'numpy.empty') and v.a[1]:
        n = v.a[1][0]
        if n.op == 'seq' and n.a[0] and n.a[0][0].op == 'item':
            return n.a[0][0].a[0]
        if n.op == 'const':
            return n
    if v.op == 'call' and v.a[0].op == 'g':
        q = v.a[0].a[0]
        if q in ('sorted', 'numpy.array', 'numpy.asarray', 'list', 'tuple', 'reversed',
                 'copy.copy', 'copy.deepcopy') and len(v.a[1]) >= 1:
            return length(v.a[1][0])
        if q == 'range':
            a = v.a[1]
            if len(a) == 1:
                return a[0]
            if len(a) == 2:
                return BIN('-', a[1], a[0])
    return mk('call', g('len'), (v,), ())


def BIN(o, a, b):
    if a.op == 'const' and b.op == 'const':
        x, y = a.a[0], b.a[0]
        try:
            if o == '%' and isinstance(x, (str, bytes)):
                return fmt_percent(a, [b])
            r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y,
                 '//': lambda: x // y, '%': lambda: x % y, '**': lambda: x ** y,
                 '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                 '<<': lambda: x << y, '>>': lambda: x >> y}[o]()
            if not isinstance(r, (str, bytes, tuple)) or len(r) < 4000:
                return C(r)
        except Exception:
            pass
    if o == '+':
        sa, sb = strish(a), strish(b)
        if (sa and sb) or (sa and a.op != 'unk' and b.op not in ('seq',)) or \
                (sb and a.op not in ('seq',)):
            if sa or sb:
                return FMT(parts_of(a) + parts_of(b))
        if a.op == 'seq' and b.op == 'seq' and a.a[1] == b.a[1] and a.a[1] in ('list', 'tuple'):
            return mk('seq', a.a[0] + b.a[0], a.a[1])
        if a.op == 'seq' and a.a[1] in ('list', 'tuple'):
            return mk('seq', a.a[0] + (mk('splice', b),), a.a[1])
        if b.op == 'seq' and b.a[1] in ('list', 'tuple'):
            return mk('seq', (mk('splice', a),) + b.a[0], b.a[1])
        if is_const(b, 0) or is_const(b, 0.0):
            return a
        if is_const(a, 0) or is_const(a, 0.0):
            return b
    if o == '%' and (a.op == 'const' and isinstance(a.a[0], str)):
        if b.op == 'seq' and b.a[1] == 'tuple' and all(s.op == 'item' for s in b.a[0]):
            return fmt_percent(a, [s.a[0] for s in b.a[0]])
        return fmt_percent(a, [b])
    if o == '*' and a.op == 'seq' and b.op == 'const' and isinstance(b.a[0], int) \
            and 0 <= b.a[0] <= 16:
        return mk('seq', a.a[0] * b.a[0], a.a[1])
    return mk('bin', o, a, b)


def strish(x):
    return x.op == 'fmt' or (x.op == 'const' and isinstance(x.a[0], str))


def parts_of(x):
    if x.op == 'fmt':
        return x.a[0]
    if x.op == 'const' and isinstance(x.a[0], str):
        return (x,)
    return (mk('str', x, ''),)


def FMT(parts):
    out = []
    for p in parts:
        if p.op == 'str' and p.a[0].op == 'const' and p.a[1] in ('', 's', 'd'):
            p = C(str(p.a[0].a[0]))
        elif p.op == 'str' and p.a[0].op == 'fmt' and p.a[1] in ('', 's'):
            for q in p.a[0].a[0]:
                out = _addp(out, q)
            continue
        out = _addp(out, p)
    if not out:
        return C('')
    if len(out) == 1 and out[0].op == 'const':
        return out[0]
    return mk('fmt', tuple(out))


def _addp(out, p):
    if p.op == 'const' and p.a[0] == '':
        return out
    if out and p.op == 'const' and out[-1].op == 'const':
        return out[:-1] + [C(out[-1].a[0] + p.a[0])]
    return out + [p]


def fmt_percent(f, args):
    import re
    s = f.a[0]
    out, pos, k = [], 0, 0
    for m in re.finditer(r'%(\((\w+)\))?([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z%])', s):
        out.append(C(s[pos:m.start()]))
        pos = m.end()
        if m.group(4) == '%':
            out.append(C('%'))
            continue
        if m.group(2) or k >= len(args):
            return mk('bin', '%', f, args[0] if len(args) == 1 else
                      mk('seq', tuple(mk('item', x) for x in args), 'tuple'))
        spec = m.group(3) + m.group(4)
        if args[k].op == 'const':
            try:
                out.append(C(('%' + spec) % args[k].a[0]))
                k += 1
                continue
            except Exception:
                pass
        if spec in ('s', 'd', 'i', 'r'):
            spec = ''
        out.append(mk('str', args[k], spec))
        k += 1
    out.append(C(s[pos:]))
    return FMT(out)


def fmt_format(s, args, kws):
    import string
    out, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                out.append(C(lit))
            if field is None:
                continue
            if field == '':
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kws:
                v = kws[field]
            else:
                return None
            if v.op == 'const' and conv is None:
                out.append(C(format(v.a[0], spec or '')))
                continue
            out.append(mk('str', v, '' if spec in ('d', 's') else (spec or '')))
    except Exception:
        return None
    return FMT(out)


# ------------------------------------------------------------------------------- state
class Heap(dict):
    """Locations and their contents; `draws` counts the identical random draws made so far."""
    __slots__ = ('draws',)

    def __init__(self, h=()):
        dict.__init__(self, h)
        self.draws = getattr(h, 'draws', None) or {}


DRAWS = {'randint', 'integers', 'rand', 'randn', 'random', 'choice', 'uniform', 'normal',
         'permutation', 'random_sample', 'multinomial', 'binomial', 'standard_normal', 'bytes',
         'random_integers', 'tomaxint', 'poisson', 'exponential'}


# collections that every iteration of a loop adds to: what they hold when an iteration starts
GROWING = set()

# a generator made again from the same seed repeats the draws of the first one
SEEDED = {'numpy.random.RandomState', 'numpy.random.default_rng', 'random.Random'}


def built(c):
    """Is the content an object made by calling a class (a circuit, say), perhaps added to?"""
    while c.op == 'bin' and c.a[0] == '+':
        c = c.a[1]
    return c.op == 'call' and c.a[0].op == 'g' and c.a[0].a[0].rsplit('.', 1)[-1][:1].isupper()


def random_name(q):
    """External functions that return another random value on every call."""
    last = q.rsplit('.', 1)[-1]
    return q.startswith(('numpy.random.', 'random.')) and last in DRAWS or \
        q.startswith('qiskit.') and last.startswith('random_')


class State:
    __slots__ = ('env', 'heap', 'attrs', 'pc')

    def __init__(self, env, heap, attrs, pc):
        if type(heap) is not Heap:
            heap = Heap(heap)
        self.env, self.heap, self.attrs, self.pc = env, heap, attrs, pc

    def copy(self):
        return State(dict(self.env), Heap(self.heap), dict(self.attrs), self.pc)

    def add(self, c):
        if not is_const(c, True):
            self.pc = self.pc + (c,)
        return self


class Event:
    __slots__ = ('kind', 'node', 'func', 'pc', 'loops', 'stack', 'd', 'trys', 'state')

    def __init__(self, kind, node, fr, pc, loops, d, trys):
        self.kind, self.node, self.pc, self.loops, self.d, self.trys = kind, node, pc, loops, d, trys
        self.func = fr.func
        self.stack = fr.stack
        self.state = None

    def where(self):
        return '%s:%d' % (self.func.module.rel, getattr(self.node, 'lineno', 0))

    def __repr__(self):
        return '<%s %s %s pc=%s>' % (self.kind, self.where(), self.d, self.pc)


class Frame:
    def __init__(self, func, module, cls, depth, stack, closure_env=None):
        self.func, self.module, self.cls = func, module, cls
        self.depth, self.stack = depth, stack
        self.closure_env = closure_env or {}
        self.returns = []
        self.loopctx = []      # list of dict(breaks=[], continues=[])
        self.globals_decl = set()
        self.selfv = None
        self.yields = None


class Summary:
    """Result of analysing one entry point."""

    def __init__(self, eng, func, ret, state, events):
        self.eng, self.func, self.ret, self.state, self.events = eng, func, ret, state, events

    def frozen(self):
        return self.eng.freeze(self.ret, self.state) if self.ret is not None else None

    def calls(self, pred):
        return [e for e in self.events if e.kind == 'call' and pred(e)]


STRUCT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'popitem', 'add',
          'discard', 'setdefault', 'sort', 'reverse'}


def at(node, where):
    for x in ast.walk(node):
        if isinstance(x, ast.expr):
            ast.copy_location(x, where)
    return node


def counted(s):
    """(counter, bound) of a while loop that only counts a local up to a fixed bound."""
    t, last = s.test, s.body[-1]
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and len(s.body) > 1):
        return None
    lo, hi, op = t.left, t.comparators[0], type(t.ops[0])
    if op in (ast.Gt, ast.GtE):
        lo, hi, op = hi, lo, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op]
    if op not in (ast.Lt, ast.LtE) or not isinstance(lo, ast.Name):
        return None
    v = lo.id
    if isinstance(last, ast.AugAssign):
        ok = isinstance(last.target, ast.Name) and last.target.id == v and \
            isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and \
            last.value.value == 1
    else:
        ok = isinstance(last, ast.Assign) and ast.unparse(last) in (
            '%s = %s + 1' % (v, v), '%s = 1 + %s' % (v, v))
    if not ok:
        return None
    names = {n.id for n in ast.walk(hi) if isinstance(n, ast.Name)}
    for n in ast.walk(hi):
        if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and
                                            n.func.id in ('len', 'max', 'min', 'int')):
            return None
    for b in s.body[:-1]:
        for n in ast.walk(b):
            if isinstance(n, (ast.Continue, ast.Break, ast.Yield)):
                return None
            if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and \
                    (n.id in names or n.id == v):
                return None
            if isinstance(n, (ast.Attribute, ast.Subscript)) and \
                    not isinstance(n.ctx, ast.Load):
                r = n
                while isinstance(r, (ast.Attribute, ast.Subscript)):
                    r = r.value
                if isinstance(r, ast.Name) and r.id in names:
                    return None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr in STRUCT and names & {
                        x.id for x in ast.walk(n.func.value) if isinstance(x, ast.Name)}:
                return None
    if op is ast.LtE:
        hi = ast.BinOp(hi, ast.Add(), ast.Constant(1))
    return v, at(hi, s)


def uncopied(it, body):
    """The iterable behind list(x) or tuple(x) when x is not restructured while iterating."""
    while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and not it.keywords and \
            it.func.id in ('list', 'tuple', 'iter') and len(it.args) == 1 and \
            isinstance(it.args[0], (ast.Name, ast.Attribute)):
        d = ast.dump(it.args[0])
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                        n.func.attr in STRUCT and ast.dump(n.func.value) == d:
                    return it
                if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) and \
                        ast.dump(n.value) == d:
                    return it
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                    for t in getattr(n, 'targets', None) or [n.target]:
                        if ast.unparse(t) == ast.unparse(it.args[0]):
                            return it
        it = it.args[0]
    return it


def dict_like(c):
    """Is this value known to be a dict?"""
    if c.op == 'seq':
        return c.a[1] == 'dict'
    if c.op == 'until':
        return dict_like(c.a[2])
    if c.op == 'if':
        return dict_like(c.a[1]) and dict_like(c.a[2])
    return False


class Engine:
    def __init__(self, prog, inline=True, maxdepth=MAXDEPTH, no_inline=(), opaque_classes=(),
                 opaque_modules=('randomized_benchmarking.dihedral',), external=()):
        self.external = set(external)   # classes whose instances are only called, never opened
        self.prog = prog
        self.opaque_modules = tuple(opaque_modules)
        self.inline = inline
        self.maxdepth = maxdepth
        self.no_inline = set(no_inline)
        self.opaque_classes = set(opaque_classes)
        self.uid = itertools.count(1)
        self.closures = {}
        self.frozen_closures = {}
        self.mu_def = {}
        self.mu_closed = {}
        self.objmu = set()
        self.uid0 = 0
        self.lossy = []          # changes of parts of values that were not tracked
        self._set_on_self = {}
        self.while_cond = {}     # loop uid -> condition of a while loop
        self.events = []
        self.suppress = 0
        self.gcache = {}
        self.loop_stack = []
        self.try_stack = []
        self.loop_breaks = {}
        self.loop_nodes = {}
        self.steps = 0
        self.max_steps = 400000
        self.incomplete = []
        self.analyzed = set()
        self.obj_cls = {}      # ref -> ClassInfo
        self.alias_hook = None

    # -------------------------------------------------------------- public
    def analyze(self, func, args=None, self_cls=None, self_attrs=None, init_args=None, pc=(),
                defaults=False):
        """Analyse func; args maps param name -> value (default: symbolic params).

        defaults=True binds missing parameters that have default values to them."""
        self.events = []
        self.steps = 0
        self.uid0 = next(self.uid)
        self.lossy = []
        args = dict(args or {})
        st = State({}, {}, {}, tuple(pc))
        fr = Frame(func, func.module, func.cls, 0, (func.qual,))
        names = func.params
        bound = {}
        if func.cls is not None and not func.is_static and names:
            first = names[0]
            if first not in args:
                cls = self_cls or func.cls
                if func.is_classmethod:
                    bound[first] = mk('class', cls.qual)
                else:
                    bound[first] = self.new_obj(cls, st, mk('param', first))
            names = names[1:] if first in bound else names
        for nme in names:
            if nme in args:
                bound[nme] = args[nme]
        a = func.node.args
        dflt = self.default_map(func)
        for nme in names:
            if nme in bound:
                continue
            if defaults and nme in dflt:
                bound[nme] = self.ev(dflt[nme], State({}, {}, {}, ()), fr)
            else:
                bound[nme] = mk('param', nme)
        if a.vararg:
            bound[a.vararg.arg] = args.get(a.vararg.arg, mk('param', '*args'))
        if a.kwarg:
            bound[a.kwarg.arg] = args.get(a.kwarg.arg, mk('param', '**kwargs'))
        st.env.update(bound)
        ret, st2 = self.run_body(func.node, st, fr)
        return Summary(self, func, ret, st2, self.events)

    def new_obj(self, cls, st, origin):
        r = mk('ref', 'o%d' % (next(self.uid) - self.uid0))
        st.heap[r] = mk('obj', cls.qual, origin)
        self.obj_cls[r] = cls
        return r

    def default_map(self, func):
        a = func.node.args
        pos = a.posonlyargs + a.args
        d = {}
        for p, v in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            d[p.arg] = v
        for p, v in zip(a.kwonlyargs, a.kw_defaults):
            if v is not None:
                d[p.arg] = v
        return d

    # -------------------------------------------------------------- bodies
    def run_body(self, node, st, fr):
        """Run a function body; returns (value, merged exit state or None)."""
        self.analyzed.add(fr.func.qual)
        pre_pc = st.pc
        is_gen = (not isinstance(node, ast.Lambda)) and _is_generator(node)
        if is_gen:
            fr.yields = mk('ref', 'y%d' % (next(self.uid) - self.uid0))
            st.heap[fr.yields] = mk('seq', (), 'list')
        if isinstance(node, ast.Lambda):
            v = self.ev(node.body, st, fr)
            return v, st
        end = self.block(node.body, st, fr)
        rets = list(fr.returns)
        if end is not None:
            rets.append((end, fr.yields if is_gen else NONE))
        elif is_gen and rets:
            rets = [(s, fr.yields) for s, v in rets]
        if not rets:
            return None, None
        return self.merge_returns(rets, len(pre_pc))

    def merge_returns(self, rets, npc):
        st, v = rets[-1]
        if len(rets) == 1:
            return v, st
        acc_s, acc_v = st, v
        for s, val in reversed(rets[:-1]):
            c = AND(*s.pc[npc:])
            common = []
            for x, y in zip(s.pc[npc:], acc_s.pc[npc:]):
                if x is y:
                    common.append(x)
                else:
                    break
            c2 = AND(*s.pc[npc + len(common):])
            j = self.join(c2, s, acc_s, s.pc[:npc] + tuple(common))
            acc_v = IF(c2, val, acc_v)
            # keep facts that hold on both
            extra = [x for x in s.pc[npc + len(common):] if x in acc_s.pc[npc + len(common):]]
            j.pc = j.pc + tuple(extra)
            acc_s = j
        return acc_v, acc_s

    def join(self, c, a, b, pc):
        st = State({}, {}, {}, pc)
        da, db = a.heap.draws, b.heap.draws
        st.heap.draws = da if da is db else {k: max(da.get(k, 0), db.get(k, 0))
                                             for k in list(da) + list(db)}
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            x, y = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            st.env[k] = x if x is y else IF(c, x, y)
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            x, y = a.heap.get(k), b.heap.get(k)
            if x is y:
                st.heap[k] = x
                continue
            if x is None and k.op in ('param', 'attr', 'sub') and y.op == 'seq':
                x = mk('orig', k)
            elif y is None and k.op in ('param', 'attr', 'sub') and x.op == 'seq':
                y = mk('orig', k)
            if x is None:
                st.heap[k] = y
            elif y is None:
                st.heap[k] = x
            else:
                st.heap[k] = IF(c, x, y)
        for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
            x, y = a.attrs.get(k), b.attrs.get(k)
            if x is y:
                st.attrs[k] = x
            else:
                if x is None:
                    x = mk('attr', k[0], k[1])
                if y is None:
                    y = mk('attr', k[0], k[1])
                st.attrs[k] = IF(c, x, y)
        return st

    def block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st, fr)
        return st

    def emit(self, kind, node, st, fr, **d):
        if self.suppress:
            return None
        if self.alias_hook is not None and kind in ('mutate', 'setattr', 'augassign', 'return'):
            d['roots'] = self.alias_hook(d['target'] if 'target' in d else d['value'], st)
            if kind == 'setattr':
                d['vroots'] = self.alias_hook(d['value'], st)
        e = Event(kind, node, fr, st.pc, tuple(self.loop_stack), d, tuple(self.try_stack))
        self.events.append(e)
        return e

    # -------------------------------------------------------------- statements
    def stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            if 'steps' not in self.incomplete:
                self.incomplete.append('steps')
            return None
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            return st
        return m(s, st, fr)

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        if isinstance(s.value, ast.Call):
            v = self.call(s.value, st, fr, stmt=True)
        else:
            v = self.ev(s.value, st, fr)
        if st.pc and st.pc[-1] is FALSE:
            return None
        fv = v
        if fv is not None and fv.op == 'ref':
            fv = st.heap.get(fv, fv)
        self.emit('exprstmt', s, st, fr, value=fv)
        return None if v is None else st

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        if v is None:
            return None
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            v = self.ev(s.value, st, fr)
            if v is None:
                return None
            self.assign(s.target, v, st, fr)
        return st

    def s_AugAssign(self, s, st, fr):
        op = OPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st, fr)
        elif isinstance(s.target, ast.Attribute):
            base = self.ev(s.target.value, st, fr)
            cur = self.getattr(base, s.target.attr, st, fr, s.target)
        else:
            base = self.ev_path(s.target.value, st, fr)
            idx = self.ev(s.target.slice, st, fr)
            cur = self.getitem(base, idx, st, fr, s.target)
        rhs = self.ev(s.value, st, fr)
        if cur is None or rhs is None:
            return None
        content = self.deref(cur, st)
        if op == '+' and content.op == 'seq' and content.a[1] == 'list':
            # in-place list extension
            self.mutate(cur, 'extend', (rhs,), (), st, fr, s)
            return st
        fresh_scalar = content.op in ('const', 'bin', 'fmt', 'cmp', 'mu', 'sum', 'iv')
        if not fresh_scalar and content.op == 'seq' and content.a[1] == 'ops':
            self.mutate(cur, 'aug' + op, (rhs,), (), st, fr, s)
            return st
        if not fresh_scalar:
            self.emit('augassign', s, st, fr, target=cur, op=op, rhs=self.freeze(rhs, st),
                      tnode=s.target)
        v = BIN(op, self.freeze(cur, st), self.freeze(rhs, st))
        if cur.op == 'ref' and v.op in ('bin',) and \
                (isinstance(s.target, ast.Name) or built(content)):
            # in-place numpy/circuit update keeps identity
            st.heap[cur] = v
            return st
        if isinstance(s.target, ast.Name):
            st.env[s.target.id] = v
        elif isinstance(s.target, ast.Attribute):
            self.setattr(base, s.target.attr, v, st, fr, s)
        else:
            self.setitem(base, idx, v, st, fr, s)
        return st

    def s_Return(self, s, st, fr):
        v = NONE if s.value is None else self.ev(s.value, st, fr)
        if v is None:
            return None
        self.emit('return', s, st, fr, value=v)
        fr.returns.append((st, v))
        return None

    def s_Raise(self, s, st, fr):
        exc = self.ev(s.exc, st, fr) if s.exc is not None else mk('reraise')
        self.emit('raise', s, st, fr, exc=self.freeze(exc, st) if exc is not None else UNK)
        return None

    def s_Pass(self, s, st, fr):
        return st

    def s_Assert(self, s, st, fr):
        c = truth(self.fz(s.test, st, fr))
        self.emit('assert', s, st, fr, cond=c)
        return st.add(c)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)
                i = self.ev(t.slice, st, fr)
                self.mutate(b, '__delitem__', (i,), (), st, fr, s)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st, fr)
                self.emit('mutate', s, st, fr, target=b, how='delattr', args=())
        return st

    def s_Global(self, s, st, fr):
        fr.globals_decl.update(s.names)
        return st

    s_Nonlocal = s_Pass

    def s_Import(self, s, st, fr):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            st.env[nm] = g(a.name if a.asname else a.name.split('.')[0])
            self.emit('import', s, st, fr, name=a.name)
        return st

    def s_ImportFrom(self, s, st, fr):
        src = self.prog._abs(fr.module, s)
        for a in s.names:
            st.env[a.asname or a.name] = self.global_value(self.prog.canon(src + '.' + a.name))
            self.emit('import', s, st, fr, name=src + '.' + a.name)
        return st

    def s_FunctionDef(self, s, st, fr):
        cid = next(self.uid)
        fi = FuncInfo(fr.func.qual + '.' + s.name, s, fr.module, None, fr.func)
        v = mk('closure', cid)
        self.closures[cid] = (fi, dict(fr.closure_env, **st.env), fr)
        self.closures[cid][1][s.name] = v
        st.env[s.name] = v
        return st

    def s_ClassDef(self, s, st, fr):
        st.env[s.name] = UNK
        return st

    def s_If(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if c is None:
            return None
        if c.op == 'const':
            return self.block(s.body if c.a[0] else s.orelse, st, fr)
        pre_pc = st.pc
        a = st.copy().add(c)
        self.refine(c, a)
        b = st.copy().add(NOT(c))
        self.refine(NOT(c), b)
        na, nb = len(a.pc), len(b.pc)
        a = self.block(s.body, a, fr)
        b = self.block(s.orelse, b, fr) if s.orelse else b
        if a is None and b is None:
            return None
        if a is None:
            return b
        if b is None:
            return a
        # what each branch has ruled out on its way still holds afterwards
        ea, eb = a.pc[na:], b.pc[nb:]
        j = self.join(c, a, b, pre_pc)
        if j is not None:
            if ea:
                j.add(OR(NOT(c), AND(*ea)))
            if eb:
                j.add(OR(c, AND(*eb)))
        return j

    def refine(self, c, st):
        """Equality with a constant refines plain variables holding that value."""
        cs = c.a[0] if c.op == 'and' else (c,)
        for x in cs:
            if x.op == 'cmp' and x.a[0] in ('==', 'is') and x.a[2].op == 'const' \
                    and (x.a[2].a[0] is None or isinstance(x.a[2].a[0], (str, bool))) \
                    and x.a[1].op not in ('const', 'call', 'iv'):
                for k, v in list(st.env.items()):
                    if v is x.a[1]:
                        st.env[k] = x.a[2]

    def s_Try(self, s, st, fr):
        tid = next(self.uid)
        types = []
        for h in s.handlers:
            if h.type is None:
                types.append('*')
            elif isinstance(h.type, ast.Tuple):
                types.extend(ast.unparse(x) for x in h.type.elts)
            else:
                types.append(ast.unparse(h.type))
        pre = st.copy()
        self.try_stack.append((tid, tuple(types)))
        nret = len(fr.returns)
        body = self.block(s.body, st.copy(), fr)
        self.try_stack.pop()
        if body is not None and s.orelse:
            body = self.block(s.orelse, body, fr)
        out = body
        for h in s.handlers:
            hs = pre.copy()
            c = mk('exc', tid, ast.unparse(h.type) if h.type else '*')
            hs.add(c)
            if h.name:
                hs.env[h.name] = mk('excval', tid)
            self.emit('handler', h, hs, fr, type=ast.unparse(h.type) if h.type else '*')
            hs = self.block(h.body, hs, fr)
            if hs is None:
                continue
            out = hs if out is None else self.join(c, hs, out, pre.pc)
        if s.finalbody:
            if out is None:
                self.block(s.finalbody, pre.copy(), fr)
                return None
            out = self.block(s.finalbody, out, fr)
        return out

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v if v is not None else UNK, st, fr)
        return self.block(s.body, st, fr)

    def s_Break(self, s, st, fr):
        if fr.loopctx:
            fr.loopctx[-1]['breaks'].append(st)
        self.emit('break', s, st, fr)
        return None

    def s_Continue(self, s, st, fr):
        if fr.loopctx:
            fr.loopctx[-1]['continues'].append(st)
        return None

    def s_For(self, s, st, fr):
        it = self.ev(uncopied(s.iter, s.body), st, fr)
        if it is None:
            return None
        def bind(state, val):
            self.assign(s.target, val, state, fr)
        return self.iterate(it, bind, s.body, s.orelse, s, st, fr)

    def iterate(self, it, bind, body, orelse, node, st, fr):
        items = self.known_items(it, st)
        if items is not None and len(items) <= UNROLL:
            ctx = {'breaks': [], 'continues': []}
            pre = st
            cur = st
            for v in items:
                if cur is None:
                    break
                base = len(cur.pc)
                pc0 = cur.pc
                bind(cur, v)
                fr.loopctx.append(ctx)
                ctx['continues'] = []
                nxt = self.block(body, cur, fr)
                fr.loopctx.pop()
                for cs in ctx['continues']:
                    if nxt is None:
                        nxt = cs
                    else:
                        nxt = self.join(AND(*cs.pc[base:]), cs, nxt, pc0)
                cur = nxt
            if orelse and cur is not None:
                cur = self.block(orelse, cur, fr)
            for bs in ctx['breaks']:
                if cur is None:
                    cur = bs
                else:
                    k = 0
                    while k < len(bs.pc) and k < len(cur.pc) and bs.pc[k] is cur.pc[k]:
                        k += 1
                    cur = self.join(AND(*bs.pc[k:]), bs, cur, bs.pc[:k])
            return cur
        L, val = self.loop_of(it, st)
        if isinstance(node, (ast.For, ast.While)):
            self.loop_nodes[L.a[0]] = node

        def setup(state):
            bind(state, val)
            return state
        return self.sym_loop(L, setup, body, orelse, node, st, fr)

    def s_While(self, s, st, fr):
        k = counted(s)
        if k is not None and k[0] in st.env:
            v, hi = k
            lo = ast.Name(v, ast.Load())
            for x in (lo, hi):
                ast.copy_location(x, s)
            it = self.ev(at(ast.Call(ast.Name('range', ast.Load()), [lo, hi], []), s), st, fr)
            end = self.ev(at(ast.Call(ast.Name('max', ast.Load()), [lo, hi], []), s), st, fr)
            if it is not None and end is not None:
                def bind(state, val):
                    state.env[v] = val
                out = self.iterate(it, bind, s.body[:-1], s.orelse, s, st, fr)
                if out is not None:
                    out.env[v] = end
                return out
        # a while loop: the condition is re-evaluated in the generalised state
        L = mk('loop', next(self.uid), NONE, NONE, NONE)
        self.loop_nodes[L.a[0]] = s

        def setup(state):
            c = self.cond(s.test, state, fr)
            if c is None:
                return None
            if is_const(c, False):
                return None
            self.while_cond[L.a[0]] = self.freeze(c, state)
            return state.add(c)
        return self.sym_loop(L, setup, s.body, s.orelse, s, st, fr)

    def sym_loop(self, L, setup, body, orelse, node, st, fr):
        names = _assigned(body)
        pre = st.copy()

        hname = {}
        for n, v in st.env.items():
            if v.op == 'ref' and v not in hname:
                hname[v] = mk('hk', n)

        def hmu(r):
            if r not in hname:
                hname[r] = mk('hk', '#%s' % (r.a[0],)) if r.op == 'ref' else r
            return mk('mu', L, hname[r])

        def one(mus, heapmu, attrmu):
            s1 = st.copy()
            for n in mus:
                if n in s1.env:
                    s1.env[n] = mk('mu', L, n) if n not in induct else \
                        BIN('+', st.env[n], BIN('*', induct[n], mk('iv', L)))
            for r in heapmu:
                c = s1.heap[r]
                if r in elems:
                    s1.heap[r] = mk('seq', tuple(
                        with_value(x, emu(r, i)) if i in elems[r] else x
                        for i, x in enumerate(c.a[0])), c.a[1])
                elif c.op == 'seq':
                    s1.heap[r] = mk('seq', (hmu(r),), c.a[1])
                    if self.holds_objects(c):
                        self.objmu.add(hmu(r))
                elif r in opsmu:
                    s1.heap[r] = mk('seq', (hmu(r),), 'ops')
                elif c.op == 'obj':
                    pass
                else:
                    s1.heap[r] = hmu(r)
            for k in attrmu:
                s1.attrs[k] = attr_mu(L, k)
            base = len(s1.pc)
            s1 = setup(s1)
            if s1 is None:
                return None, [], []
            ctx = {'breaks': [], 'continues': []}
            fr.loopctx.append(ctx)
            nret = len(fr.returns)
            self.loop_stack.append(L)
            end = self.block(body, s1, fr)
            self.loop_stack.pop()
            fr.loopctx.pop()
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            facts = end.pc[base:] if end is not None and not ctx['continues'] else ()
            for x in ctx['continues']:
                end = x if end is None else self.join(AND(*x.pc[base:]), x, end, end.pc[:base])
            brk[:] = [end, None, FALSE]
            for x in ctx['breaks']:
                c = AND(*x.pc[base:])
                brk[1] = x if brk[1] is None else self.join(c, x, brk[1], x.pc[:base])
                brk[2] = OR(brk[2], c)
                end = x if end is None else self.join(c, x, end, end.pc[:base])
            if ctx['breaks']:
                facts = ()
            self.loop_breaks[L.a[0]] = [AND(*b.pc[base:]) for b in ctx['breaks']]
            return end, rets, facts

        brk = [None, None, FALSE]
        elems = {}

        def emu(r, i):
            return mk('mu', L, mk('hk', '#%s.%d' % (r.a[0], i)))

        def matches(r, c1):
            """Positions of items that change while the shape of the container does not."""
            c0 = st.heap[r]
            if r.op != 'ref' or c0.op != 'seq' or c1 is None or c1.op != 'seq' or \
                    c0.a[1] != c1.a[1] or c0.a[1] not in ('list', 'dict') or \
                    len(c0.a[0]) != len(c1.a[0]):
                return None
            pos = []
            for i, (x, y) in enumerate(zip(c0.a[0], c1.a[0])):
                if x is y:
                    continue
                if x.op != y.op or x.op not in ('item', 'kv') or x.a[:-1] != y.a[:-1] or \
                        'ref' in (x.a[-1].op, y.a[-1].op):
                    return None
                pos.append(i)
            return pos
        induct = {}
        saved_returns = list(fr.returns)
        opsmu = set()
        mus = [n for n in names if n in st.env]
        self.suppress += 1
        if any(st.env[n].op == 'ref' for n in mus):
            # a name re-bound to the same object every iteration is not loop-variant
            keep = [n for n in mus if st.env[n].op != 'ref']
            end, rets, _ = one(keep, [], [])
            fr.returns[:] = saved_returns
            if end is not None:
                mus = [n for n in mus if n in keep or end.env.get(n) is not st.env[n]]
        end, rets, _ = one(mus, [], [])
        if end is not None:
            # never changed by an iteration
            mus = [n for n in mus if end.env.get(n) is not mk('mu', L, n)]
        heapmu, attrmu = [], []
        if end is not None and is_const(L.a[1], 0) and is_const(L.a[3], 1) and brk[1] is None:
            # counters: a constant is added in every iteration
            for n in mus:
                v, i0 = end.env.get(n), st.env[n]
                if v is not None and v.op == 'bin' and v.a[0] in '+-' and \
                        v.a[1] is mk('mu', L, n) and is_const(v.a[2]) and \
                        isinstance(v.a[2].a[0], int) and is_const(i0) and isinstance(i0.a[0], int):
                    induct[n] = v.a[2] if v.a[0] == '+' else C(-v.a[2].a[0])
        if end is not None:
            heapmu = [r for r in st.heap if end.heap.get(r) is not st.heap[r]]
            attrmu = [k for k in end.attrs if end.attrs.get(k) is not st.attrs.get(k)
                      and (k in st.attrs or True)]
        for rs, _v in rets:
            heapmu += [r for r in st.heap if rs.heap.get(r) is not st.heap[r] and r not in heapmu]
        self.suppress -= 1
        fr.returns[:] = saved_returns
        attrmu2 = [k for k in attrmu if self.outer_base(k[0], st)]
        for r in list(end.heap) if end is not None else ():
            if r.op in ('param', 'attr', 'sub') and r not in st.heap and not r.refs and \
                    end.heap[r].op == 'seq' and \
                    not contains(r, lambda x: x.op in ('iv', 'mu', 'key') and
                                 (x.op != 'iv' or x.a[0] is L)):
                # first changed inside the loop
                st.heap[r] = mk('seq', (mk('base', mk('orig', r)),), 'ops')
                pre.heap[r] = st.heap[r]
                heapmu.append(r)
        for r in heapmu:
            c0 = st.heap[r]
            if c0.op not in ('seq', 'obj') and end is not None:
                c1 = end.heap.get(r)
                if c1 is not None and ops_of(c1, c0):
                    opsmu.add(r)
                    st.heap[r] = mk('seq', (mk('base', c0),), 'ops')
                    pre.heap[r] = st.heap[r]
        if end is not None and brk[1] is None and not rets:
            for r in heapmu:
                pos = matches(r, end.heap.get(r))
                if pos:
                    elems[r] = pos
        if elems:
            self.suppress += 1
            end2, _, _ = one(mus, heapmu, attrmu2)
            self.suppress -= 1
            fr.returns[:] = saved_returns
            for r in list(elems):
                pos = matches(r, end2.heap.get(r)) if end2 is not None else None
                if pos is None or not set(pos) <= set(elems[r]):
                    del elems[r]
        end, rets, facts = one(mus, heapmu, attrmu2)
        out = pre.copy()
        if end is None and not rets and not any(True for _ in ()):
            # body always raises (or loop dead)
            pass
        self.define_mu(L, st, end, mus, heapmu, attrmu2, hmu, elems, emu)
        if brk[1] is None:
            if end is not None:
                self.loop_exit(L, st, end, out, hmu, elems=elems, emu=emu)
                for n, c in induct.items():
                    out.env[n] = BIN('+', st.env[n], BIN('*', c, L.a[2]))
        else:
            ex = mk('exists', L, brk[2])
            nrm = pre.copy().add(NOT(ex))
            if isinstance(node, ast.While) and isinstance(node.test, ast.Constant) and \
                    node.test.value:
                nrm = None
            elif brk[0] is not None:
                self.loop_exit(L, st, brk[0], nrm, hmu)
            if nrm is not None and orelse:
                nrm = self.block(orelse, nrm, fr)
            orelse = ()
            out = pre.copy().add(ex)
            self.loop_exit(L, st, end, out, hmu, brk[1], brk[2])
            if nrm is not None:
                out = self.join(ex, out, nrm, pre.pc)
        for c in facts:
            if c.op not in ('mu',):
                out.pc = out.pc + (mk('all', L, c),)
        base = len(st.pc)
        for rs, v in rets:
            cond = AND(*rs.pc[base:])
            ex = mk('exists', L, cond)
            r2 = State(rs.env, rs.heap, rs.attrs, pre.pc + (ex,))
            vv = v if v.op in ('const', 'ref') else mk('first', L, cond, v)
            fr.returns.append((r2, vv))
            out.pc = out.pc + (NOT(ex),)
        if orelse:
            return self.block(orelse, out, fr)
        return out

    def define_mu(self, L, st, end, mus, heapmu, attrmu, hmu, elems, emu):
        """Recurrence (initial value, value after one iteration) of every loop-carried value."""
        if end is None:
            return
        def put(k, a, b):
            if a is not None and b is not None:
                self.mu_def[k] = (self.freeze(a, st), self.freeze(b, end))
                step = self.mu_def[k][1]
                if step.op == 'seq' and len(step.a[0]) > 1 and step.a[0][0] is k:
                    GROWING.add(k)
        for n in mus:
            put(mk('mu', L, n), st.env.get(n), end.env.get(n))
            self.close_mu(L, mk('mu', L, n))
        for r in heapmu:
            if r in elems:
                for i in elems[r]:
                    put(emu(r, i), st.heap[r].a[0][i].a[-1], end.heap[r].a[0][i].a[-1])
            elif st.heap[r].op != 'obj':
                put(hmu(r), st.heap[r], end.heap.get(r))
        for k in attrmu:
            put(attr_mu(L, k), st.attrs.get(k, mk('attr', k[0], k[1])),
                end.attrs.get(k))

    def close_mu(self, L, m):
        """A variable that each iteration sets from the iteration alone holds, in the next one,
        that value for the counter before; in the first one its value before the loop."""
        if m not in self.mu_def or L.op != 'loop' or len(L.a) < 4 or not is_const(L.a[3], 1) or \
                L.a[1].op != 'const' or L.a[0] in self.while_cond:
            return
        init, step = self.mu_def[m]
        if step.op == 'const' or contains(step, lambda x: x.op in (
                'ref', 'prev', 'unk', 'undef', 'seq') or x.op == 'mu' and x.a[0] is L or
                x.op == 'loop' and x is not L or
                x.op == 'call' and any(k.startswith('#') for k, _ in x.a[2])) or \
                contains(init, lambda x: x.op in ('ref', 'unk', 'undef')):
            return
        iv = mk('iv', L)
        if not contains(step, lambda x: x is iv):
            return
        before = BIN('-', iv, C(1))
        self.mu_closed.setdefault(L, {})[m] = IF(
            CMP('==', iv, L.a[1]), init, subst(step, lambda x: before if x is iv else None))

    def loop_exit(self, L, st, end, out, hmu, bst=None, bcond=None, elems=(), emu=None):
        """State after the loop (by exhaustion, or by the break state bst under bcond)."""
        closed = self.mu_closed.get(L) if bst is None else None
        def mine(v):
            return contains(v, lambda x: x.op == 'mu' and x.a[0] is L)

        def res(init, mu, v, b):
            if closed and mu not in closed and v.op != 'ref':
                v = subst(v, lambda x: closed.get(x) if x.op == 'mu' else None)
            if bst is None:
                return self.loop_result(L, init, mu, v) if v is not init else init
            if b is mu and v is mu or b is init and v is init:
                return init
            if b.op in ('const', 'ref'):
                return b
            if not mine(b):
                return mk('first', L, bcond, b)
            return mk('until', L, bcond, self.loop_result(L, init, mu, v))

        for n, v in end.env.items():
            b = bst.env.get(n, UNDEF) if bst is not None else v
            if n not in st.env:
                if bst is not None:
                    out.env[n] = b if b.op in ('ref', 'const') else mk('first', L, bcond, b)
                else:
                    out.env[n] = mk('last', L, v) if v.op != 'ref' else v
            elif v is not st.env[n]:
                init = st.env[n]
                if v.op == 'ref' and v not in st.heap:
                    # an object made in this iteration, from the previous one
                    w = self.freeze(v, end)
                    if contains(w, lambda x: x is mk('mu', L, n)):
                        if b is v:
                            b = w
                        v = w
                if init.op == 'ref' and v.op not in ('ref', 'mu', 'const'):
                    init = self.freeze(init, st)
                out.env[n] = res(init, mk('mu', L, n), v, b)
        for r, c in end.heap.items():
            b = bst.heap.get(r, c) if bst is not None else c
            if r not in st.heap:
                out.heap[r] = b
            elif r in elems:
                out.heap[r] = mk('seq', tuple(
                    with_value(x, res(x.a[-1], emu(r, i), c.a[0][i].a[-1], None))
                    if i in elems[r] else x
                    for i, x in enumerate(st.heap[r].a[0])), c.a[1])
            elif c is not st.heap[r]:
                out.heap[r] = res(st.heap[r], hmu(r), c, b)
        for k, v in end.attrs.items():
            if v is not st.attrs.get(k):
                mu = attr_mu(L, k)
                init = st.attrs.get(k)
                if init is None:
                    init = mk('attr', k[0], k[1])
                b = bst.attrs.get(k, init) if bst is not None else v
                out.attrs[k] = res(init, mu, v, b)

    def outer_base(self, b, st):
        return b.op != 'ref' or b in st.heap

    def loop_result(self, L, init, mu, end):
        if end is mu:
            return init
        if init.op == 'seq' and end.op == 'seq' and end.a[0] and end.a[0][0] is mu:
            segs = end.a[0][1:]
            if not segs:
                return init
            if not any(contains(s, lambda x: x is mu) for s in segs):
                return mk('seq', init.a[0] + (mk('for', L, TRUE, segs),), init.a[1])
            return mk('seq', init.a[0] + (mk('forx', L, segs, mu),), init.a[1])
        if end.op == 'bin' and end.a[0] in '+*' and end.a[1] is mu and \
                not contains(end.a[2], lambda x: x is mu):
            if end.a[0] == '+':
                return BIN('+', init, mk('sum', L, end.a[2]))
            return BIN('*', init, mk('prod', L, end.a[2]))
        if end.op == 'bin' and end.a[0] == '+' and end.a[2] is mu and \
                not contains(end.a[1], lambda x: x is mu) and init.op == 'const' \
                and not isinstance(init.a[0], str):
            return BIN('+', init, mk('sum', L, end.a[1]))
        if end.op == 'if' and not contains(end.a[0], lambda x: x is mu):
            c, a, b = end.a
            za = self.acc_of(a, mu)
            zb = self.acc_of(b, mu)
            if za is not None and zb is not None:
                return BIN('+', init, mk('sum', L, IF(c, za, zb)))
        if not contains(end, lambda x: x is mu):
            return mk('loopout', L, init, end)
        rest = self.added_to(end, mu)
        if rest is not None and (rest.op != 'fmt' or
                                 init.op == 'const' and isinstance(init.a[0], str)):
            return BIN('+', init, mk('sum', L, rest))
        if init is TRUE or init is FALSE:
            # ok = ok and c / ok = ok or c, c a truth value
            c = None
            if end.op == 'if' and end.a[0].op == 'truthy' and end.a[0].a[0] is mu:
                if init is TRUE and end.a[2] is mu:
                    c = end.a[1]
                elif init is FALSE and end.a[1] is mu:
                    c = end.a[2]
            elif end.op == 'bin' and end.a[0] == ('&' if init is TRUE else '|') and \
                    end.a[1] is mu:
                c = end.a[2]
            if c is not None and not contains(c, lambda x: x is mu) and \
                    c.op in ('cmp', 'not', 'and', 'or', 'exists', 'all', 'truthy'):
                return mk('all' if init is TRUE else 'exists', L, c)
        sets, value = self.set_once(end, mu)
        if value is not None:
            return IF(mk('exists', L, sets), value, init)
        return mk('loopout', L, init, subst(end, lambda x: mk('prev', L, init) if x is mu else None))

    def set_once(self, end, mu):
        """A flag that some iterations set to one constant and the others keep:
        (condition to set it, the constant)."""
        if end is mu:
            return FALSE, None
        if end.op == 'const':
            return TRUE, end
        if end.op != 'if' or contains(end.a[0], lambda x: x is mu):
            return None, None
        (sa, va), (sb, vb) = self.set_once(end.a[1], mu), self.set_once(end.a[2], mu)
        if sa is None or sb is None or va is not None and vb is not None and va is not vb:
            return None, None
        c, value = end.a[0], va if va is not None else vb
        if sa is FALSE:
            return AND(NOT(c), sb), value
        if sb is FALSE:
            return AND(c, sa), value
        return OR(AND(c, sa), AND(NOT(c), sb)), value

    def acc_of(self, v, mu):
        if v is mu:
            return C(0)
        if v.op == 'bin' and v.a[0] == '+' and v.a[1] is mu and \
                not contains(v.a[2], lambda x: x is mu):
            return v.a[2]
        if v.op == 'if' and not contains(v.a[0], lambda x: x is mu):
            a, b = self.acc_of(v.a[1], mu), self.acc_of(v.a[2], mu)
            if a is not None and b is not None:
                return IF(v.a[0], a, b)
        return None

    def added_to(self, v, mu):
        """rest when v = mu + rest, the accumulator leftmost in a chain of additions."""
        if v.op == 'bin' and v.a[0] == '+' and not contains(v.a[2], lambda x: x is mu):
            if v.a[1] is mu:
                return v.a[2]
            r = self.added_to(v.a[1], mu)
            return None if r is None else BIN('+', r, v.a[2])
        if v.op == 'fmt' and v.a[0][0].op == 'str' and v.a[0][0].a[1] == '' and not any(
                contains(x, lambda y: y is mu) for x in v.a[0][1:]):
            x = v.a[0][0].a[0]
            if x is mu:
                return FMT(list(v.a[0][1:]))
            r = self.added_to(x, mu)
            return None if r is None else FMT([mk('str', r, '')] + list(v.a[0][1:]))
        return None

    # -------------------------------------------------------------- iteration helpers
    def known_items(self, it, st):
        c = self.deref(it, st)
        if c.op == 'seq' and c.a[1] in ('list', 'tuple', 'gen', 'set'):
            if all(s.op == 'item' for s in c.a[0]):
                return [s.a[0] for s in c.a[0]]
            return None
        if c.op == 'seq' and c.a[1] == 'dict':
            if all(s.op == 'kv' and s.a[0].op == 'const' for s in c.a[0]):
                out = []
                for s in c.a[0]:
                    if s.a[0] not in out:
                        out.append(s.a[0])
                return out
            return None
        if c.op == 'const' and isinstance(c.a[0], (str, tuple)):
            return [C(x) for x in c.a[0]]
        if c.op == 'call' and c.a[0].op == 'g':
            q = c.a[0].a[0]
            if q == 'range' and all(x.op == 'const' and isinstance(x.a[0], int) for x in c.a[1]):
                r = range(*[x.a[0] for x in c.a[1]])
                return [C(x) for x in r] if len(r) <= UNROLL else None
            if q == 'enumerate' and c.a[1]:
                sub = self.known_items(c.a[1][0], st)
                if sub is None:
                    return None
                start = c.a[1][1] if len(c.a[1]) > 1 else dict(c.a[2]).get('start', C(0))
                return [TUP(BIN('+', start, C(i)) if not is_const(start, 0) else C(i), v)
                        for i, v in enumerate(sub)]
            if q == 'zip' and c.a[1]:
                subs = [self.known_items(x, st) for x in c.a[1]]
                if any(x is None for x in subs):
                    return None
                return [TUP(*t) for t in zip(*subs)]
            if q == 'reversed' and c.a[1]:
                sub = self.known_items(c.a[1][0], st)
                return None if sub is None else sub[::-1]
            if q == 'sorted' and len(c.a[1]) == 1 and not c.a[2]:
                sub = self.known_items(c.a[1][0], st)
                if sub is not None and all(x.op == 'const' for x in sub):
                    try:
                        return [C(x) for x in sorted(y.a[0] for y in sub)]
                    except TypeError:
                        return None
                return None
            if q == 'itertools.product':
                subs = [self.known_items(x, st) for x in c.a[1]]
                if any(x is None for x in subs) or c.a[2]:
                    return None
                r = [TUP(*t) for t in itertools.product(*subs)]
                return r if len(r) <= UNROLL else None
        if c.op == 'call' and c.a[0].op == 'attr' and c.a[0].a[1] in ('items', 'keys', 'values') \
                and not c.a[1]:
            d = c.a[0].a[0]
            d = self.deref(d, st)
            if d.op == 'seq' and d.a[1] == 'dict' and all(
                    s.op == 'kv' and s.a[0].op == 'const' for s in d.a[0]):
                dd = {}
                for s in d.a[0]:
                    dd[s.a[0]] = s.a[1]
                m = c.a[0].a[1]
                return [TUP(k, v) if m == 'items' else (k if m == 'keys' else v)
                        for k, v in dd.items()]
        return None

    def loop_of(self, it, st):
        """(loop node, element value) for symbolic iteration."""
        uid = next(self.uid)

        def build(x, L):
            c = self.deref(x, st)
            if c.op == 'call' and c.a[0].op == 'g':
                q, a = c.a[0].a[0], c.a[1]
                if q == 'range':
                    return mk('iv', L)
                if q == 'enumerate':
                    start = a[1] if len(a) > 1 else dict(c.a[2]).get('start', C(0))
                    i = mk('iv', L)
                    if not is_const(start, 0):
                        i = BIN('+', i, start)
                    return TUP(i, build(a[0], L))
                if q == 'zip':
                    return TUP(*[build(y, L) for y in a])
                if q in ('list', 'tuple', 'iter') and len(a) == 1:
                    return build(a[0], L)
                if q == 'reversed' and len(a) == 1:
                    return mk('revat', self.freeze(a[0], st), mk('iv', L))
                if q == 'itertools.product' and not c.a[2]:
                    return TUP(*[mk('at', self.freeze(y, st), mk('iv', mk('loop', '%s.%d' % (uid, i),
                                 C(0), length(self.freeze(y, st)), C(1)))) for i, y in enumerate(a)])
            if c.op == 'call' and c.a[0].op == 'attr' and c.a[0].a[1] in ('items', 'keys', 'values') \
                    and not c.a[1]:
                d = c.a[0].a[0]
                k = self.freeze(d, st)
                # what iterating a container of unknown type yields is written the same way
                # whether its keys are asked for explicitly or not
                k = mk('key' if dict_like(k) else 'sub', k, mk('iv', L))
                m = c.a[0].a[1]
                if m == 'keys':
                    return k
                v = self.getitem(d, k, st, None, None)
                return v if m == 'values' else TUP(k, v)
            if dict_like(c):
                return mk('key', self.freeze(x, st), mk('iv', L))
            return self.getitem(x, mk('iv', L), st, None, None)

        def dom(x):
            c = self.deref(x, st)
            if c.op == 'call' and c.a[0].op == 'g':
                q, a = c.a[0].a[0], c.a[1]
                if q == 'range':
                    a = tuple(self.freeze(y, st) for y in a)
                    if len(a) == 1:
                        return C(0), a[0], C(1)
                    if len(a) == 2:
                        return a[0], a[1], C(1)
                    if len(a) == 3:
                        return a
                if q in ('enumerate', 'list', 'tuple', 'iter', 'reversed') and a:
                    return dom(a[0])
                if q == 'zip' and a:
                    return dom(a[0])
            if c.op == 'call' and c.a[0].op == 'attr' and c.a[0].a[1] in ('items', 'keys', 'values') \
                    and not c.a[1]:
                return C(0), length(self.freeze(c.a[0].a[0], st)), C(1)
            return C(0), length(self.freeze(x, st)), C(1)
        s, e, p = dom(it)
        L = mk('loop', uid, s, e, p)
        return L, build(it, L)

    # -------------------------------------------------------------- assignment / heap
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_decl:
                self.emit('setglobal', t, st, fr, name=t.id, value=v)
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            c = self.deref(v, st)
            items = None
            if c.op == 'seq' and all(s.op == 'item' for s in c.a[0]) and \
                    len(c.a[0]) == len(t.elts) and not any(isinstance(e, ast.Starred)
                                                           for e in t.elts):
                items = [s.a[0] for s in c.a[0]]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, mk('unpackrest', self.freeze(v, st), i), st, fr)
                else:
                    self.assign(e, items[i] if items else self.getitem(v, C(i), st, fr, t), st, fr)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fr)
            if b is not None:
                self.setattr(b, t.attr, v, st, fr, t)
        elif isinstance(t, ast.Subscript):
            b = self.ev_path(t.value, st, fr)
            i = self.ev(t.slice, st, fr)
            if b is not None and i is not None:
                self.setitem(b, i, v, st, fr, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def setattr(self, b, name, v, st, fr, node):
        cls = self.class_of(b, st)
        self.emit('setattr', node, st, fr, target=b, name=name, value=v)
        if cls is not None:
            s = cls.find_setter(name)
            if s is not None and fr is not None and self.can_inline(s, fr):
                self.inline_call(s, [b, v], {}, st, fr, node)
                return
        if b.op == 'if':
            for c, x in ((b.a[0], b.a[1]), (NOT(b.a[0]), b.a[2])):
                old = st.attrs.get((x, name), mk('attr', x, name))
                st.attrs[(x, name)] = IF(c, v, old)
            return
        if b.op in ('bin', 'call') and b not in st.heap and cls is None:
            b = self.materialize(b, st)
        n = 0
        while b in st.heap and st.heap[b].op == 'ref' and n < 20:
            b = st.heap[b]
            n += 1
        st.attrs[(b, name)] = v
        if b.op == 'sub' and b not in st.heap and cls is None and self.elem_effect(
                b, '__setattr__', (C(name), v), (), st):
            return
        if b.op == 'ref' and cls is None:
            c = self.deref(b, st)
            if c.op in ('call', 'mu', 'loopout', 'orig') or (c.op == 'seq' and c.a[1] == 'ops'):
                st.heap[b] = self.mutated(c, '__setattr__', (C(name), v), (), st)

    def setitem(self, b, i, v, st, fr, node):
        self.mutate(b, '__setitem__', (i, v), (), st, fr, node)

    def deref(self, v, st, _seen=None):
        seen = _seen or ()
        while v in st.heap and v not in seen:
            seen = seen + (v,)
            v = st.heap[v]
        if v.op == 'g':
            c = self.global_content(v)
            if c is not None:
                return c
        if v.op == 'if' and (v.refs or v.a[1] in st.heap or v.a[2] in st.heap) and len(seen) < 40:
            return IF(v.a[0], self.deref(v.a[1], st, seen), self.deref(v.a[2], st, seen))
        return v

    def freeze(self, v, st, _memo=None):
        if v is None:
            return UNK
        memo = _memo if _memo is not None else {}
        heap = st.heap

        def go(x, depth=0):
            if isinstance(x, tuple):
                return tuple(go(y, depth) for y in x)
            if not isinstance(x, N) or x.op == 'orig':
                return x
            k = id(x)
            if k in memo:
                r = memo[k]
                return x if r is None else r
            if x in heap and depth < 60:
                memo[k] = None
                r = go(heap[x], depth + 1)
                memo[k] = r
                return r
            if not x.refs:
                memo[k] = x
                return x
            if x.op == 'closure':
                memo[k] = x
                memo[k] = self.freeze_closure(x, lambda y: go(y, depth + 1))
                return memo[k]
            na = tuple(go(y, depth) for y in x.a)
            r = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
            memo[k] = r
            return r
        return go(v)

    def freeze_closure(self, x, go):
        """A function value together with the present contents of what it captures."""
        fi, env, fr = self.closures[x.a[0]]
        used = {n.id for n in ast.walk(fi.node) if isinstance(n, ast.Name)}
        new = {n: go(v) if isinstance(v, N) and v.refs and v is not x else v
               for n, v in env.items() if n in used}
        key = (fi.node, tuple(sorted(new.items(), key=lambda kv: kv[0])))
        cid = self.frozen_closures.get(key)
        if cid is None:
            cid = self.frozen_closures[key] = next(self.uid)
            self.closures[cid] = (fi, new, fr)
        return mk('closure', cid, True)

    def new_ref(self, content, st):
        r = mk('ref', next(self.uid) - self.uid0)
        st.heap[r] = content
        return r

    def materialize(self, t, st):
        """A value computed by an expression becomes an object of its own when it is changed."""
        r = mk('ref', next(self.uid) - self.uid0)
        st.heap[r] = mk('orig', t)
        st.heap[t] = r
        for n, v in list(st.env.items()):
            if v is t:
                st.env[n] = r
        for k, c in list(st.heap.items()):
            if c.op == 'seq' and any(x.op == 'item' and x.a[0] is t for x in c.a[0]):
                st.heap[k] = mk('seq', tuple(mk('item', r) if x.op == 'item' and x.a[0] is t else x
                                             for x in c.a[0]), c.a[1])
        return r

    def elem_effect(self, target, how, args, kws, st):
        """An element of a container changes: an effect on the container."""
        path, root = (), target
        while root.op == 'sub' and root not in st.heap:
            path, root = (root.a[1],) + path, root.a[0]
        if any(x.op == 'slice' for x in path):
            return False
        if root.op == 'call' and root not in st.heap and root.a[0].op == 'func':
            root = self.materialize(root, st)
        n = 0
        while root in st.heap and st.heap[root].op == 'ref' and n < 20:
            root = st.heap[root]
            n += 1
        if root.op in ('ref', 'attr', 'param'):
            cont = self.deref(root, st)
            if cont is root and root.op != 'ref':
                cont = mk('seq', (mk('base', mk('orig', root)),), 'ops')
            if cont.op in ('call', 'bin', 'orig'):
                cont = mk('seq', (mk('base', cont),), 'ops')
            if cont.op == 'seq':
                n = 0
                while root in st.heap and st.heap[root] in st.heap and n < 20:
                    root = st.heap[root]
                    n += 1
                st.heap[root] = mk('seq', cont.a[0] + (
                    mk('elemdo', path, how, args, kws),), cont.a[1])
                return True
        return False

    def mutate(self, target, how, args, kws, st, fr, node):
        """Apply an in-place effect to a value."""
        if fr is not None:
            self.emit('mutate', node, st, fr, target=target, how=how, args=args, kws=kws,
                      content=self.deref(target, st))
        if target.op == 'if':
            for c, x in ((target.a[0], target.a[1]), (NOT(target.a[0]), target.a[2])):
                old = self.deref(x, st)
                if old is x:
                    old = mk('orig', x)
                new = self.mutated(old, how, args, kws, st)
                if x.op in ('ref', 'param', 'attr', 'sub') or x in st.heap:
                    st.heap[x] = IF(c, new, old)
            return
        if target.op == 'sub' and target not in st.heap and \
                self.elem_effect(target, how, args, kws, st):
            return
        if target.op == 'sub' and target not in st.heap:
            root = target
            while root.op == 'sub' and root not in st.heap:
                root = root.a[0]
            if root not in st.heap and (
                    root.op in ('seq', 'mu', 'prev', 'loopout', 'if') or
                    root.op in ('call', 'bin') and any(
                        v is not None and v.op == 'ref' and self.deref(v, st) is root
                        for v in st.env.values())):
                # a part of a computed value changes: the whole is not tracked through it
                self.lossy.append('%s of %s' % (how, str(target)[:80]))
        if target.op in ('bin', 'call') and target not in st.heap:
            target = self.materialize(target, st)
        content = self.deref(target, st)
        if content is target and target.op != 'ref':
            content = mk('orig', target)
        new = self.mutated(content, how, args, kws, st)
        loc = target
        # follow ref chain to the last location
        n = 0
        while loc in st.heap and st.heap[loc] in st.heap and n < 20:
            loc = st.heap[loc]
            n += 1
        st.heap[loc] = new

    def mutated(self, c, how, args, kws, st):
        kind = c.a[1] if c.op == 'seq' else None
        if kind in ('list', 'gen'):
            if how == 'append' and len(args) == 1:
                return mk('seq', c.a[0] + (mk('item', args[0]),), 'list')
            if how in ('extend', 'aug+') and len(args) == 1:
                x = self.deref(args[0], st)
                if x.op == 'seq' and x.a[1] in ('list', 'tuple', 'gen'):
                    return mk('seq', c.a[0] + x.a[0], 'list')
                its = self.known_items(args[0], st)
                if its is not None:
                    return mk('seq', c.a[0] + tuple(mk('item', y) for y in its), 'list')
                return mk('seq', c.a[0] + (mk('splice', self.freeze(args[0], st)),), 'list')
            if how == 'insert' and len(args) == 2 and is_const(args[0], 0):
                return mk('seq', (mk('item', args[1]),) + c.a[0], 'list')
            if how == '__setitem__' and args[0].op == 'const' and isinstance(args[0].a[0], int):
                i = args[0].a[0]
                if -len(c.a[0]) <= i < len(c.a[0]) and \
                        all(s.op == 'item' for s in (c.a[0][:i + 1] if i >= 0 else c.a[0][i:])):
                    l = list(c.a[0])
                    l[i] = mk('item', args[1])
                    return mk('seq', tuple(l), 'list')
            if how == 'clear':
                return mk('seq', (), 'list')
            if how == 'pop' and c.a[0] and c.a[0][-1].op == 'item' and (
                    not args or is_const(args[0], -1)):
                return mk('seq', c.a[0][:-1], 'list')
        if kind == 'set':
            if how == 'add':
                return mk('seq', c.a[0] + (mk('item', args[0]),), 'set')
        if kind == 'dict':
            if how == '__setitem__':
                k = self.freeze(args[0], st)
                segs = c.a[0]
                if k.op == 'const' and all(s.op == 'kv' and s.a[0].op == 'const' for s in segs):
                    l, hit = [], False
                    for s in segs:
                        if s.a[0] is k:
                            l.append(mk('kv', k, args[1]))
                            hit = True
                        else:
                            l.append(s)
                    if not hit:
                        l.append(mk('kv', k, args[1]))
                    return mk('seq', tuple(l), 'dict')
                return mk('seq', segs + (mk('kv', k, args[1]),), 'dict')
            if how == 'update' and len(args) == 1:
                x = self.deref(args[0], st)
                if x.op == 'seq' and x.a[1] == 'dict':
                    return mk('seq', c.a[0] + x.a[0], 'dict')
                return mk('seq', c.a[0] + (mk('splice', self.freeze(args[0], st)),), 'dict')
            if how == 'clear':
                return mk('seq', (), 'dict')
            if how == 'setdefault' and len(args) >= 1:
                v = args[1] if len(args) > 1 else NONE
                k = self.freeze(args[0], st)
                return mk('seq', c.a[0] + (mk('kvdef', k, v),), 'dict')
        if kind == 'ops':
            return mk('seq', c.a[0] + (mk('do', how, args, kws),), 'ops')
        return mk('seq', (mk('base', c), mk('do', how, args, kws)), 'ops')

    # -------------------------------------------------------------- reads
    def class_of(self, v, st):
        if v in self.obj_cls:
            return self.obj_cls[v]
        c = st.heap.get(v, v)
        if c.op == 'obj':
            return self.prog.classes.get(c.a[0])
        if c.op == 'mu' or c.op == 'if':
            return None
        return None

    def getattr(self, b, name, st, fr, node):
        if b is None:
            return None
        if (b, name) in st.attrs:
            return st.attrs[(b, name)]
        if b.op == 'g':
            q = self.prog.canon(b.a[0] + '.' + name)
            if (b, name) in st.attrs:
                return st.attrs[(b, name)]
            if b.a[0].startswith('qiskit.ignis') and b.a[0] not in self.prog.modules and \
                    self.global_content(b) is not None:
                return mk('attr', b, name)
            return self.global_value(q)
        if b.op == 'class':
            ci = self.prog.classes[b.a[0]]
            m = ci.find(name)
            if m is not None:
                if m.is_classmethod:
                    return mk('bound', m.qual, b)
                return mk('func', m.qual)
            at = ci.find_attr(name)
            if at is not None:
                return self.class_attr(at[0], name, at[1], st)
            return mk('attr', b, name)
        if b.op == 'super':
            ci = self.prog.classes[b.a[0]]
            rc = self.class_of(b.a[1], st) or ci
            m = rc.find_after(ci, name)
            if m is not None:
                if m.is_property:
                    return self.inline_call(m, [b.a[1]], {}, st, fr, node)
                return mk('bound', m.qual, b.a[1])
            return mk('attr', b, name)
        cls = self.class_of(b, st)
        if cls is not None:
            m = cls.find(name)
            if m is not None:
                if m.is_property:
                    if self.can_inline(m, fr):
                        v = self.inline_call(m, [b], {}, st, fr, node)
                        return v
                    return mk('attr', self.freeze_id(b, st), name)
                if m.is_static:
                    return mk('func', m.qual)
                if m.is_classmethod:
                    return mk('bound', m.qual, mk('class', cls.qual))
                return mk('bound', m.qual, b)
            at = cls.find_attr(name)
            if at is not None and not (self.is_given(b, st) and self.set_on_self(cls, name)):
                return self.class_attr(at[0], name, at[1], st)
            t = mk('attr', self.freeze_id(b, st), name)
            ac = self.attr_class(cls, name)
            if ac is not None and t not in st.heap and not self.is_opaque(ac.module):
                self.obj_cls[t] = ac
                st.heap[t] = mk('obj', ac.qual, t)
            return t
        if b.op == 'if':
            x = self.getattr(b.a[1], name, st, fr, node)
            y = self.getattr(b.a[2], name, st, fr, node)
            if x is None or y is None:
                return x or y
            return IF(b.a[0], x, y)
        if b.op == 'const' and isinstance(b.a[0], complex) and name in ('real', 'imag'):
            return C(getattr(b.a[0], name))
        return mk('attr', self.freeze_id(b, st), name)

    def attr_class(self, cls, name):
        """Repository class of self.<name> when every assignment constructs that class."""
        key = ('attrcls', cls.qual, name)
        if key in self.gcache:
            return self.gcache[key]
        found, ok = set(), True
        for c in cls.mro():
            for m in list(c.methods.values()) + list(c.setters.values()):
                if not m.params:
                    continue
                sn = m.params[0]
                for n in ast.walk(m.node):
                    if not isinstance(n, (ast.Assign, ast.AnnAssign)):
                        continue
                    tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in tg:
                        if isinstance(t, ast.Attribute) and t.attr == name and \
                                isinstance(t.value, ast.Name) and t.value.id == sn:
                            v = n.value
                            if isinstance(v, ast.Constant) and v.value is None:
                                continue
                            q = None
                            if isinstance(v, ast.Call):
                                d = dotted(v.func)
                                q = self.prog.resolve_dotted(m.module, d) if d else None
                            if q in self.prog.classes:
                                found.add(q)
                            else:
                                ok = False
        r = self.prog.classes[found.pop()] if ok and len(found) == 1 else None
        self.gcache[key] = r
        return r

    def freeze_id(self, b, st):
        """Stable symbolic identity for an object used as a path base."""
        if b.op == 'ref':
            c = st.heap.get(b, b)
            if c.op == 'obj':
                return c.a[1]      # origin
            return self.freeze(b, st)
        return self.freeze(b, st)

    @staticmethod
    def is_given(b, st):
        c = st.heap.get(b)
        return c is None or c.op == 'obj' and c.a[1].op != 'inst'

    def set_on_self(self, cls, name):
        """Some method of the class or of a subclass assigns this attribute on the instance."""
        k = (cls.qual, name)
        if k not in self._set_on_self:
            self._set_on_self[k] = any(
                isinstance(n, ast.Attribute) and n.attr == name and not
                isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and
                n.value.id == 'self'
                for c in self.prog.classes.values() if c in cls.mro() or cls in c.mro()
                for n in ast.walk(c.node))
        return self._set_on_self[k]

    def class_attr(self, ci, name, node, st):
        key = mk('classattr', ci.qual, name)
        if key in st.heap:
            return key
        if key not in self.gcache:
            fr = Frame(FuncInfo(ci.qual + '.<class>', ast.parse('def f(): pass').body[0],
                                ci.module), ci.module, ci, 0, ())
            s = State({}, {}, {}, ())
            self.suppress += 1
            try:
                v = self.ev(node, s, fr)
                self.gcache[key] = self.freeze(v, s)
            finally:
                self.suppress -= 1
        c = self.gcache[key]
        if c.op in ('const', 'func', 'class', 'g', 'fmt'):
            if c.op == 'const' and self.set_on_class(ci, name):
                me = mk('class', ci.qual)
                return st.attrs.get((me, name), mk('attr', me, name))
            return c
        st.heap[key] = c
        return key

    def set_on_class(self, cls, name):
        """Some code assigns this attribute on the class itself."""
        k = ('cls', cls.qual, name)
        if k not in self._set_on_self:
            names = {c.name for c in self.prog.classes.values() if c in cls.mro() or cls in c.mro()}
            self._set_on_self[k] = any(
                isinstance(n, ast.Attribute) and n.attr == name and not
                isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and
                (n.value.id == 'cls' or n.value.id in names)
                for m in self.prog.modules.values() for n in ast.walk(m.tree))
        return self._set_on_self[k]

    def getitem(self, b, i, st, fr, node):
        c = self.deref(b, st)
        fi = self.freeze(i, st) if i.refs else i
        if c.op == 'if':
            x = self.getitem(c.a[1], i, st, fr, node)
            y = self.getitem(c.a[2], i, st, fr, node)
            return IF(c.a[0], x, y)
        if c.op == 'const' and fi.op == 'const':
            try:
                return C(c.a[0][fi.a[0]])
            except Exception:
                return mk('sub', c, fi)
        if c.op == 'seq':
            segs, kind = c.a[0], c.a[1]
            if kind in ('list', 'tuple', 'gen'):
                if fi.op == 'const' and isinstance(fi.a[0], int) and not isinstance(fi.a[0], bool):
                    k = fi.a[0]
                    if k >= 0 and len(segs) > k and all(s.op == 'item' for s in segs[:k + 1]):
                        return segs[k].a[0]
                    if k < 0 and len(segs) >= -k and all(s.op == 'item' for s in segs[k:]):
                        return segs[k].a[0]
                if fi.op == 'slice' and all(s.op == 'item' for s in segs) and \
                        all(x.op == 'const' for x in fi.a):
                    return self.new_ref(mk('seq', segs[slice(*[x.a[0] for x in fi.a])], kind), st)
                if len(segs) == 1 and segs[0].op == 'for' and is_const(segs[0].a[1], True) and \
                        len(segs[0].a[2]) == 1 and segs[0].a[2][0].op == 'item' \
                        and fi.op not in ('slice', 'const'):
                    L = segs[0].a[0]
                    if L.a[1].op == 'const' and is_const(L.a[1], 0) and is_const(L.a[3], 1):
                        iv = mk('iv', L)
                        e = segs[0].a[2][0].a[0]
                        if not e.refs:
                            return subst(e, lambda x: fi if x is iv else None)
                if b.op == 'ref' and fi.op != 'slice' and self.holds_objects(c):
                    # element of a concrete container: keep a path so that mutation is visible
                    return mk('sub', b, fi)
                if fi.op == 'iv' and b.op == 'ref':
                    return mk('sub', c, fi)
            elif kind == 'dict':
                if fi.op == 'key' and fi.a[0] is c:
                    pass
                for s in reversed(segs):
                    if s.op == 'kv':
                        if s.a[0] is fi:
                            return s.a[1]
                        if s.a[0].op == 'const' and fi.op == 'const':
                            continue
                    break
                else:
                    return mk('sub', c if not c.refs else self.freeze(c, st), fi)
                if len(segs) == 1 and segs[0].op == 'for' and len(segs[0].a[2]) == 1 and \
                        segs[0].a[2][0].op == 'kv':
                    pass
                if self.holds_objects(c):
                    return mk('sub', b, fi)
            elif kind == 'ops':
                if is_const(fi, -1) and segs[-1].op == 'do' and segs[-1].a[0] == 'append' and \
                        len(segs[-1].a[1]) == 1 and not segs[-1].a[2] and \
                        segs[-1].a[1][0].op in ('call', 'const', 'param', 'fmt', 'bin'):
                    return segs[-1].a[1][0]
                for s in reversed(segs):
                    if s.op == 'do' and s.a[0] == '__setitem__':
                        k = self.freeze(s.a[1][0], st)
                        if k is fi:
                            return s.a[1][1]
                        if k.op == 'const' and fi.op == 'const':
                            continue
                    elif s.op == 'ifseg' and segs[0].op == 'base' and \
                            len(segs) < 12:
                        k = segs.index(s)
                        x, y = [self.getitem(mk('seq', segs[:k] + z, 'ops'), fi, st, fr, node)
                                for z in s.a[1:]]
                        return IF(s.a[0], x, y)
                    elif s.op == 'base':
                        if b.op == 'ref' and s.a[0].op == 'call' and s.a[0].a[0].op == 'g' and \
                                s.a[0].a[0].a[0].startswith('collections.'):
                            return mk('sub', b, fi)
                        return self.getitem(s.a[0], fi, st, fr, node)
                    break
                if b.op != 'ref' and (segs[0].op != 'mu' or not 2 <= len(segs) <= 6 or any(
                        x.op != 'do' or x.a[0] != '__setitem__' for x in segs[1:])):
                    return mk('sub', b, fi)
                return mk('sub', self.freeze(b, st), fi)
            return mk('sub', self.freeze(c, st), fi)
        if c.op == 'sub' and fi.op == 'const' and c.a[1].op == 'slice':
            pass
        base = b if (b.op in ('param', 'attr', 'sub') or b in st.heap and b.op != 'ref') else \
            (self.freeze(b, st) if b.refs else b)
        if b.op == 'ref':
            base = self.freeze(b, st)
        loc = mk('sub', base, fi)
        return loc

    def holds_objects(self, c):
        return c.refs or c.op == 'seq' and any(x in self.objmu for x in c.a[0])

    # -------------------------------------------------------------- globals
    def global_value(self, q):
        if q in self.prog.funcs:
            return mk('func', q)
        if q in self.prog.classes:
            return mk('class', q)
        v = g(q)
        c = self.global_content(v)
        if c is not None and c.op == 'const':
            return c
        return v

    def global_content(self, v):
        q = v.a[0]
        if q in self.gcache:
            return self.gcache[q]
        self.gcache[q] = None
        if not q.startswith('qiskit.ignis'):
            if q in ('numpy.pi', 'math.pi'):
                self.gcache[q] = None
            return None
        mod, _, nm = q.rpartition('.')
        m = self.prog.modules.get(mod)
        if m is None or nm not in m.globals:
            return None
        asg = [x for x in m.global_assigns if x[0] == nm]
        if len(asg) != 1:
            return None
        fr = Frame(FuncInfo(mod + '.<module>', ast.parse('def f(): pass').body[0], m), m, None, 0, ())
        s = State({}, {}, {}, ())
        self.suppress += 1
        try:
            val = self.ev(asg[0][1], s, fr)
            self.gcache[q] = self.freeze(val, s) if val is not None else None
        finally:
            self.suppress -= 1
        return self.gcache[q]

    # -------------------------------------------------------------- expressions
    def fz(self, e, st, fr):
        v = self.ev(e, st, fr)
        if v is None:
            return UNK
        return self.freeze(v, st)

    def cond(self, e, st, fr):
        v = self.ev(e, st, fr)
        if v is None:
            return None
        c = truth(self.freeze(v, st))
        return self.under(c, st)

    def under(self, c, st):
        if c.op == 'const':
            return c
        facts = set()
        for p in st.pc:
            facts.add(p)
            if p.op == 'and':
                facts.update(p.a[0])
        if c in facts:
            return TRUE
        if NOT(c) in facts:
            return FALSE
        if c.op == 'and':
            return AND(*[self.under(x, st) for x in c.a[0]])
        if c.op == 'or':
            return OR(*[self.under(x, st) for x in c.a[0]])
        if c.op == 'cmp' and c.a[0] in ('==', '!=') and c.a[2].op == 'const':
            for f in facts:
                if f.op == 'cmp' and f.a[0] == '==' and f.a[1] is c.a[1] and f.a[2].op == 'const' \
                        and f.a[2] is not c.a[2]:
                    return C(c.a[0] == '!=')
        return c

    def ev(self, e, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            if 'steps' not in self.incomplete:
                self.incomplete.append('steps')
            return None
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return UNK
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return C(e.value)

    def e_Name(self, e, st, fr):
        n = e.id
        if n in st.env:
            return st.env[n]
        if n in fr.closure_env:
            return fr.closure_env[n]
        r = self.prog.resolve_name(fr.module, n)
        if r is not None:
            return self.global_value(r)
        if n in BUILTINS:
            return g(n)
        if n == '__name__':
            return C(fr.module.name)
        return mk('name', n)

    def e_Attribute(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        if b is None:
            return None
        return self.getattr(b, e.attr, st, fr, e)

    def ev_path(self, e, st, fr):
        """Evaluate the base of an in-place effect, keeping the access path of an element."""
        if not isinstance(e, ast.Subscript):
            return self.ev(e, st, fr)
        b = self.ev_path(e.value, st, fr)
        if b is None:
            return None
        i = self.ev(e.slice, st, fr)
        if i is None:
            return None
        self.emit('getitem', e, st, fr, target=b, index=i)
        v = self.getitem(b, i, st, fr, e)
        root = b
        while root.op == 'sub' and root not in st.heap:
            root = root.a[0]
        if v is not None and v.op == 'sub' and v not in st.heap and \
                root.op in ('ref', 'attr', 'param') and i.op != 'slice':
            return mk('sub', b, self.freeze(i, st))
        return v

    def e_Subscript(self, e, st, fr):
        if isinstance(e.value, ast.Attribute) and e.value.attr == 'edges' and \
                not isinstance(e.slice, ast.Slice):
            # the attribute dictionary of an edge: graph[u][v]
            u, v = e.slice.elts if isinstance(e.slice, ast.Tuple) and len(e.slice.elts) == 2 else (
                ast.Subscript(e.slice, ast.Constant(0), ast.Load()),
                ast.Subscript(e.slice, ast.Constant(1), ast.Load()))
            e = ast.Subscript(ast.Subscript(e.value.value, u, ast.Load()), v, e.ctx)
            ast.copy_location(e, u)
            ast.fix_missing_locations(e)
        b = self.ev(e.value, st, fr)
        if b is None:
            return None
        i = self.ev(e.slice, st, fr)
        if i is None:
            return None
        self.emit('getitem', e, st, fr, target=b, index=i)
        return self.getitem(b, i, st, fr, e)

    def e_Slice(self, e, st, fr):
        def f(x):
            return NONE if x is None else self.fz(x, st, fr)
        return mk('slice', f(e.lower), f(e.upper), f(e.step))

    def e_Index(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def _seq(self, e, st, fr, kind):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                if v is None:
                    return None
                c = self.deref(v, st)
                its = self.known_items(v, st)
                if its is not None:
                    segs.extend(mk('item', y) for y in its)
                elif c.op == 'seq' and c.a[1] in ('list', 'tuple', 'gen'):
                    segs.extend(c.a[0])
                else:
                    segs.append(mk('splice', self.freeze(v, st)))
            else:
                v = self.ev(x, st, fr)
                if v is None:
                    return None
                segs.append(mk('item', v))
        return mk('seq', tuple(segs), kind)

    def e_List(self, e, st, fr):
        c = self._seq(e, st, fr, 'list')
        return None if c is None else self.new_ref(c, st)

    def e_Tuple(self, e, st, fr):
        return self._seq(e, st, fr, 'tuple')

    def e_Set(self, e, st, fr):
        c = self._seq(e, st, fr, 'set')
        return None if c is None else self.new_ref(c, st)

    def e_Dict(self, e, st, fr):
        segs = []
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st, fr)
            if vv is None:
                return None
            if k is None:
                c = self.deref(vv, st)
                if c.op == 'seq' and c.a[1] == 'dict':
                    segs.extend(c.a[0])
                else:
                    segs.append(mk('splice', self.freeze(vv, st)))
            else:
                segs.append(mk('kv', self.fz(k, st, fr), vv))
        return self.new_ref(mk('seq', tuple(segs), 'dict'), st)

    def e_BinOp(self, e, st, fr):
        a, b = self.ev(e.left, st, fr), self.ev(e.right, st, fr)
        if a is None or b is None:
            return None
        ca = self.deref(a, st)
        o = OPS[type(e.op)]
        cls = self.class_of(a, st)
        if cls is not None:
            meth = {'+': '__add__', '-': '__sub__', '*': '__mul__', '@': '__matmul__',
                    '**': '__pow__'}.get(o)
            m = cls.find(meth) if meth else None
            if m is not None and self.can_inline(m, fr):
                return self.inline_call(m, [a, b], {}, st, fr, e)
        if o == '+' and ca.op == 'seq' and ca.a[1] in ('list', 'tuple'):
            cb = self.deref(b, st)
            if cb.op == 'seq' and cb.a[1] == ca.a[1]:
                c = mk('seq', ca.a[0] + cb.a[0], ca.a[1])
            else:
                c = mk('seq', ca.a[0] + (mk('splice', self.freeze(b, st)),), ca.a[1])
            return self.new_ref(c, st) if ca.a[1] == 'list' else c
        if ca.op == 'seq' and ca.a[1] == 'ops' and o == '+':
            # joining to a copy: the same contents as joining in place, in a new object
            return self.new_ref(mk('seq', ca.a[0] + (mk('do', 'aug+', (self.freeze(b, st),), ()),),
                                   'ops'), st)
        if o == '%':
            cb = self.deref(b, st)
            fa = self.freeze(a, st)
            if fa.op == 'const' and isinstance(fa.a[0], str):
                return BIN('%', fa, self.freeze(cb, st))
            return BIN('%', fa, self.freeze(b, st))
        if o == '*' and any(c is not None and any('BaseOperator' in str(x) for x in c.ext_bases())
                            for c in (cls, self.class_of(b, st))):
            # products of group elements do not commute
            return mk('call', mk('g', 'group.product'),
                      (self.freeze(a, st), self.freeze(b, st)), ())
        v = BIN(o, self.freeze(a, st), self.freeze(b, st))
        if v.op == 'seq' and v.a[1] == 'list':
            return self.new_ref(v, st)
        if v.op == 'bin' and o == '*' and any(x.op == 'seq' and x.a[1] == 'list' for x in v.a[1:]):
            return self.new_ref(v, st)
        return v

    def e_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if v is None:
            return None
        v = self.freeze(v, st)
        if isinstance(e.op, ast.Not):
            return NOT(self.under(truth(v), st))
        if v.op == 'const':
            try:
                return C(-v.a[0] if isinstance(e.op, ast.USub) else
                         (~v.a[0] if isinstance(e.op, ast.Invert) else +v.a[0]))
            except Exception:
                pass
        if isinstance(e.op, ast.USub):
            return mk('neg', v)
        if isinstance(e.op, ast.Invert):
            return mk('inv', v)
        return v

    def e_BoolOp(self, e, st, fr):
        vals = []
        s = st
        conds = []
        for i, x in enumerate(e.values):
            if i == 0:
                v = self.ev(x, st, fr)
            else:
                # short circuit: evaluated under the previous conditions
                sv = st.pc
                for c in conds:
                    st.pc = st.pc + ((c,) if isinstance(e.op, ast.And) else (NOT(c),))
                v = self.ev(x, st, fr)
                st.pc = sv
            if v is None:
                return None
            vals.append(v)
            c = self.under(truth(self.freeze(v, st)), st)
            if c.op == 'const':
                if isinstance(e.op, ast.And) and not c.a[0]:
                    break
                if isinstance(e.op, ast.Or) and c.a[0]:
                    break
            conds.append(c)
        fv = [self.freeze(v, st) for v in vals]
        boolish = all(v.op in ('cmp', 'not', 'and', 'or', 'exists', 'all') or
                      (v.op == 'const' and isinstance(v.a[0], bool)) or
                      (v.op == 'call' and v.a[0].op == 'g' and v.a[0].a[0] in
                       ('isinstance', 'hasattr', 'callable', 'any', 'all', 'bool')) for v in fv)
        cs = [self.under(truth(v), st) for v in fv]
        if boolish or all(c.op == 'const' for c in cs[:-1]):
            if not boolish:
                for v, c in zip(vals, cs):
                    if c.op == 'const' and bool(c.a[0]) == isinstance(e.op, ast.Or):
                        return v
                return vals[-1]
            return AND(*cs) if isinstance(e.op, ast.And) else OR(*cs)
        # value form: a or b  == a if a else b
        acc = vals[-1]
        for v, c in zip(reversed(vals[:-1]), reversed(cs[:-1])):
            acc = IF(c, acc, v) if isinstance(e.op, ast.And) else IF(c, v, acc)
        return acc

    def e_Compare(self, e, st, fr):
        left = self.fz(e.left, st, fr)
        out = []
        for o, r in zip(e.ops, e.comparators):
            right = self.fz(r, st, fr)
            out.append(self.under(CMP(CMPS[type(o)], left, right), st))
            left = right
        return AND(*out)

    def e_IfExp(self, e, st, fr):
        c = self.cond(e.test, st, fr)
        if c is None:
            return None
        if c.op == 'const':
            return self.ev(e.body if c.a[0] else e.orelse, st, fr)
        pc = st.pc
        a = st.copy().add(c)
        b = st.copy().add(NOT(c))
        na, nb = len(a.pc), len(b.pc)
        va = self.ev(e.body, a, fr)
        vb = self.ev(e.orelse, b, fr)
        if va is None or vb is None:
            # that side raises: only the other one goes on
            o = b if va is None else a
            st.env, st.heap, st.attrs, st.pc = o.env, o.heap, o.attrs, o.pc
            return vb if va is None else va
        ea, eb = a.pc[na:], b.pc[nb:]
        j = self.join(c, a, b, pc)
        st.env, st.heap, st.attrs = j.env, j.heap, j.attrs
        if ea:
            st.add(OR(NOT(c), AND(*ea)))
        if eb:
            st.add(OR(c, AND(*eb)))
        return IF(c, va, vb)

    def e_Lambda(self, e, st, fr):
        cid = next(self.uid)
        fi = FuncInfo(fr.func.qual + '.<lambda>', e, fr.module, None, fr.func)
        self.closures[cid] = (fi, dict(fr.closure_env, **st.env), fr)
        return mk('closure', cid)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(C(x.value))
            else:
                spec = ''
                if x.format_spec is not None:
                    sp = self.e_JoinedStr(x.format_spec, st, fr)
                    spec = sp.a[0] if sp.op == 'const' else '?'
                if spec in ('d', 's'):
                    spec = ''
                parts.append(mk('str', self.fz(x.value, st, fr), spec))
        return FMT(parts)

    def e_FormattedValue(self, e, st, fr):
        return FMT([mk('str', self.fz(e.value, st, fr), '')])

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        if v is not None:
            self.assign(e.target, v, st, fr)
        return v

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else NONE
        if fr.yields is not None and v is not None:
            st.heap[fr.yields] = self.mutated(st.heap[fr.yields], 'append', (v,), (), st)
        return NONE

    def e_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        if fr.yields is not None and v is not None:
            st.heap[fr.yields] = self.mutated(st.heap[fr.yields], 'extend', (v,), (), st)
        return NONE

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    # comprehensions -> list building loops
    def _comp(self, e, st, fr, kind, leaf):
        acc = self.new_ref(mk('seq', (), kind), st)
        names = set()
        for gen in e.generators:
            names |= _target_names(gen.target)
        saved = {n: st.env.get(n) for n in names}

        def go(i, state):
            if i == len(e.generators):
                return leaf(acc, state)
            gen = e.generators[i]
            it = self.ev(uncopied(gen.iter, ()), state, fr)
            if it is None:
                return None

            def body(s2):
                pc0 = s2.pc
                conds = []
                for t in gen.ifs:
                    c = self.cond(t, s2, fr)
                    if c is None:
                        return None
                    if is_const(c, False):
                        s2.pc = pc0
                        return s2
                    conds.append(c)
                    s2.add(c)
                c = AND(*conds)
                if is_const(c, True):
                    return go(i + 1, s2)
                other = s2.copy()
                r = go(i + 1, s2)
                if r is None:
                    return None
                return self.join(c, r, other, pc0)
            fake = _Fake(body)

            def bind(s2, v):
                self.assign(gen.target, v, s2, fr)
            return self.iterate(it, bind, [fake], [], e, state, fr)
        out = go(0, st)
        if out is None:
            return None
        st.env, st.heap, st.attrs = out.env, out.heap, out.attrs
        for n, v in saved.items():
            if v is None:
                st.env.pop(n, None)
            else:
                st.env[n] = v
        return acc

    def s__Fake(self, s, st, fr):
        return s.f(st)

    def e_ListComp(self, e, st, fr, kind='list'):
        def leaf(acc, s):
            v = self.ev(e.elt, s, fr)
            if v is None:
                return None
            c = s.heap[acc]
            s.heap[acc] = mk('seq', c.a[0] + (mk('item', v),), kind) if c.op == 'seq' else \
                mk('seq', (mk('base', c), mk('item', v)), kind)
            return s
        return self._comp(e, st, fr, kind, leaf)

    def e_GeneratorExp(self, e, st, fr):
        return self.e_ListComp(e, st, fr, 'list')

    def e_SetComp(self, e, st, fr):
        return self.e_ListComp(e, st, fr, 'set')

    def e_DictComp(self, e, st, fr):
        def leaf(acc, s):
            k = self.fz(e.key, s, fr)
            v = self.ev(e.value, s, fr)
            if v is None:
                return None
            c = s.heap[acc]
            s.heap[acc] = mk('seq', c.a[0] + (mk('kv', k, v),), 'dict')
            return s
        return self._comp(e, st, fr, 'dict', leaf)

    # -------------------------------------------------------------- calls
    def is_opaque(self, module):
        return any(module.name.endswith(x) for x in self.opaque_modules)

    def can_inline(self, f, fr):
        if not self.inline or fr is None:
            return False
        if f.qual in self.no_inline or f.name in self.no_inline or \
                '.'.join(f.qual.split('.')[-2:]) in self.no_inline:
            return False
        if self.is_opaque(f.module) and not (fr.func.module is f.module and fr.depth < 2):
            return False
        if fr.depth >= self.maxdepth:
            if 'depth:' + f.qual not in self.incomplete:
                self.incomplete.append('depth:' + f.qual)
            return False
        if f.qual in fr.stack:
            return False
        return True

    def mutated_params(self, f):
        """Positions of the parameters a function changes in place (from its own summary)."""
        cache = self.prog.__dict__.setdefault('mutated_params', {})
        if f.qual not in cache:
            cache[f.qual] = ()
            try:
                s = Engine(self.prog, maxdepth=4).analyze(f)
            except RecursionError:
                return ()
            if s.state is not None:
                cache[f.qual] = tuple(
                    i for i, n in enumerate(f.params)
                    if s.state.heap.get(mk('param', n), NONE).op == 'seq')
        return cache[f.qual]

    def e_Call(self, e, st, fr):
        return self.call(e, st, fr)

    def call(self, e, st, fr, stmt=False):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.env:
            if fr.cls is not None and fr.func.params:
                sv = st.env.get(fr.func.params[0], UNK)
                if len(e.args) == 2:
                    cq = self.ev(e.args[0], st, fr)
                    if cq is not None and cq.op == 'class':
                        return mk('super', cq.a[0], sv)
                return mk('super', fr.cls.qual, sv)
            return UNK
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'get_edge_data' and \
                len(e.args) == 2 and not e.keywords and \
                not any(isinstance(a, ast.Starred) for a in e.args):
            # the attribute dictionary of an edge: graph[u][v]
            return self.ev(ast.copy_location(ast.Subscript(ast.copy_location(ast.Subscript(
                e.func.value, e.args[0], ast.Load()), e), e.args[1], ast.Load()), e), st, fr)
        if isinstance(e.func, ast.Attribute):
            recv = self.ev_path(e.func.value, st, fr) if stmt else \
                self.ev(e.func.value, st, fr)
            if recv is None:
                return None
            fv = None
            meth = e.func.attr
        else:
            recv, meth = None, None
            fv = self.ev(e.func, st, fr)
            if fv is None:
                return None
        args, kws = [], []
        star = False
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                if v is None:
                    return None
                its = self.known_items(v, st)
                if its is not None:
                    args.extend(its)
                else:
                    star = True
                    args.append(mk('star', self.freeze(v, st)))
            else:
                v = self.ev(a, st, fr)
                if v is None:
                    return None
                args.append(v)
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if v is None:
                return None
            if k.arg is None:
                c = self.deref(v, st)
                if c.op == 'seq' and c.a[1] == 'dict' and all(
                        s.op == 'kv' and s.a[0].op == 'const' for s in c.a[0]):
                    kws.extend((s.a[0].a[0], s.a[1]) for s in c.a[0])
                else:
                    kws.append(('**', v))
            else:
                kws.append((k.arg, v))
        if len(kws) > 1 and not (fv is not None and fv.op == 'g' and fv.a[0] == 'dict'):
            kws.sort(key=lambda kv: kv[0])
        if recv is not None:
            return self.call_method(recv, meth, args, kws, e, st, fr, stmt)
        return self.call_value(fv, args, kws, e, st, fr, stmt)

    def call_method(self, recv, meth, args, kws, e, st, fr, stmt=False):
        if recv.op == 'if' and (recv.refs or recv.a[1].op in ('g', 'class', 'func')):
            c = recv.a[0]
            pc = st.pc
            a, b = st.copy().add(c), st.copy().add(NOT(c))
            va = self.call_method(recv.a[1], meth, list(args), list(kws), e, a, fr, stmt)
            vb = self.call_method(recv.a[2], meth, list(args), list(kws), e, b, fr, stmt)
            if va is None and vb is None:
                return None
            if va is None:
                st.env, st.heap, st.attrs, st.pc = b.env, b.heap, b.attrs, b.pc
                return vb
            if vb is None:
                st.env, st.heap, st.attrs, st.pc = a.env, a.heap, a.attrs, a.pc
                return va
            j = self.join(c, a, b, pc)
            st.env, st.heap, st.attrs = j.env, j.heap, j.attrs
            return IF(c, va, vb)
        # stored callable attribute or resolved method
        if recv.op in ('g', 'class', 'super') or self.class_of(recv, st) is not None or \
                (recv, meth) in st.attrs:
            if recv.op == 'super' and meth == '__init__':
                ci = self.prog.classes[recv.a[0]]
                rc = self.class_of(recv.a[1], st) or ci
                if rc.find_after(ci, '__init__') is None:
                    self.emit('call', e, st, fr, fn=mk('attr', recv, meth), args=tuple(args),
                              kws=tuple(kws), recv=recv, stmt=stmt, result=NONE)
                    return NONE
            is_gcontent = recv.op == 'g' and self.global_content(recv) is not None
            if not is_gcontent:
                fv = self.getattr(recv, meth, st, fr, e)
                if fv is None:
                    return None
                if not (fv.op == 'attr'):
                    return self.call_value(fv, args, kws, e, st, fr, stmt)
        return self.ext_method(recv, meth, args, kws, e, st, fr, stmt)

    def draw(self, val, st):
        """The k-th draw with the same arguments is another value than the first one."""
        tags = tuple(('#in', mk('iv', L)) for L in self.loop_stack if isinstance(L, N))
        if tags:
            val = mk('call', val.a[0], val.a[1], val.a[2] + tags)
        k = st.heap.draws.get(val, 0)
        st.heap.draws = dict(st.heap.draws)
        st.heap.draws[val] = k + 1
        return val if k == 0 else mk('call', val.a[0], val.a[1], val.a[2] + (('#draw', C(k)),))

    def draws_from(self, f, seen=None):
        """Does the function (or one that it calls by name) draw random numbers?"""
        got = self.prog.__dict__.setdefault('_draws', {})
        if f.qual in got:
            return got[f.qual]
        seen = set() if seen is None else seen
        if f.qual in seen:
            return False
        seen.add(f.qual)
        r = False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in DRAWS:
                    r = True
                    break
                g = None
                if isinstance(n.func, ast.Name):
                    q = self.prog.resolve_name(f.module, n.func.id)
                    g = self.prog.funcs.get(q)
                    if q and random_name(q):
                        r = True
                        break
                elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                        n.func.value.id in ('self', 'cls') and f.cls is not None:
                    g = f.cls.find(n.func.attr)
                if g is not None and self.draws_from(g, seen):
                    r = True
                    break
        got[f.qual] = r
        return r

    def ext_method(self, recv, meth, args, kws, e, st, fr, stmt):
        c = self.deref(recv, st)
        fargs = tuple(self.freeze(a, st) for a in args)
        fkws = tuple((k, self.freeze(v, st)) for k, v in kws)
        r = self.fold_method(c, meth, args, fargs, fkws, st, recv)
        if r is not None:
            self.emit('call', e, st, fr, fn=mk('attr', self.freeze_id(recv, st), meth),
                      args=fargs, kws=fkws, recv=recv, stmt=stmt, result=r, rawargs=tuple(args))
            return r
        fc = self.freeze(c, st)
        fn = mk('attr', fc, meth)
        val = mk('call', fn, fargs, fkws)
        if meth in DRAWS:
            val = self.draw(val, st)
        self.emit('call', e, st, fr, fn=fn, args=fargs, kws=fkws, recv=recv, stmt=stmt, result=val,
                  rawargs=tuple(args))
        mut = meth in LIST_MUT or (stmt and meth not in ('info', 'debug', 'warning', 'error'))
        if mut and not (meth == 'update' and False):
            self.mutate(recv, meth, tuple(args), tuple(kws), st, fr, e)
            return self.new_ref(val, st) if not stmt else NONE
        if meth in ('split', 'strip', 'format', 'join', 'replace', 'lower', 'upper', 'startswith',
                    'endswith', 'count', 'index', 'find', 'item', 'bit_length'):
            return val
        return self.new_ref(val, st)

    def fold_method(self, c, meth, args, fargs, fkws, st, recv):
        if c.op == 'const' and isinstance(c.a[0], str):
            if meth == 'format':
                return fmt_format(c.a[0], fargs, dict(fkws))
            if all(a.op == 'const' for a in fargs) and not fkws and hasattr(str, meth) and \
                    meth != 'join':
                try:
                    r = getattr(c.a[0], meth)(*[a.a[0] for a in fargs])
                    if isinstance(r, list):
                        return self.new_ref(mk('seq', tuple(mk('item', C(x)) for x in r), 'list'), st)
                    return C(r)
                except Exception:
                    return None
            if meth == 'join' and len(fargs) == 1:
                its = self.known_items(args[0], st)
                if its is not None:
                    parts = []
                    for k, x in enumerate(its):
                        if k:
                            parts.append(c)
                        parts.extend(parts_of(self.freeze(x, st)))
                    return FMT(parts)
        if c.op == 'seq' and c.a[1] == 'dict':
            if meth == 'get' and args:
                v = self.getitem(recv, args[0], st, None, None)
                if v.op != 'sub':
                    return v
                if all(s.op == 'kv' and s.a[0].op == 'const' for s in c.a[0]) and \
                        fargs[0].op == 'const':
                    return args[1] if len(args) > 1 else NONE
            if meth == 'copy' and not args:
                return self.new_ref(c, st)
        if c.op == 'seq' and c.a[1] in ('list', 'tuple'):
            if meth == 'copy' and not args:
                return self.new_ref(c, st)
            if meth == 'index' and len(args) == 1:
                its = const_items(c)
                if its is not None and fargs[0].op == 'const' and fargs[0] in its:
                    return C(its.index(fargs[0]))
            if meth == 'count' and len(args) == 1:
                its = const_items(c)
                if its is not None and fargs[0].op == 'const':
                    return C(its.count(fargs[0]))
        return None

    def call_value(self, fv, args, kws, e, st, fr, stmt=False):
        if fv.op == 'if':
            c = fv.a[0]
            pc = st.pc
            a, b = st.copy().add(c), st.copy().add(NOT(c))
            va = self.call_value(fv.a[1], list(args), list(kws), e, a, fr, stmt)
            vb = self.call_value(fv.a[2], list(args), list(kws), e, b, fr, stmt)
            if va is None and vb is None:
                return None
            if va is None or vb is None:
                k = b if va is None else a
                st.env, st.heap, st.attrs, st.pc = k.env, k.heap, k.attrs, k.pc
                return vb if va is None else va
            j = self.join(c, a, b, pc)
            st.env, st.heap, st.attrs = j.env, j.heap, j.attrs
            return IF(c, va, vb)
        fargs = None
        if fv.op in ('func', 'bound'):
            f = self.prog.funcs[fv.a[0]]
            a = ([fv.a[1]] if fv.op == 'bound' else []) + list(args)
            fz = tuple(self.freeze(x, st) for x in a)
            fk = tuple((k, self.freeze(v, st)) for k, v in kws)
            ev = self.emit('call', e, st, fr, fn=mk('func', fv.a[0]), args=fz, kws=fk, recv=None,
                           stmt=stmt, result=None, rawargs=tuple(a))
            if self.can_inline(f, fr) and not any(k == '**' for k, _ in kws) and \
                    not any(x.op == 'star' for x in args):
                v = self.inline_call(f, a, dict(kws), st, fr, e)
                if ev is not None:
                    ev.d['result'] = v
                return v
            val = mk('call', mk('func', fv.a[0]), fz, fk)
            if self.draws_from(f):
                val = self.draw(val, st)
            if ev is not None:
                ev.d['result'] = val
            # recursion: the callee may mutate its receiver; approximated by the outer pass
            for k in self.mutated_params(f):
                if k < len(a):
                    self.mutate(a[k], 'call:' + f.name, fz, fk, st, None, e)
            return self.new_ref(val, st)
        if fv.op == 'class':
            ci = self.prog.classes[fv.a[0]]
            fz = tuple(self.freeze(x, st) for x in args)
            fk = tuple((k, self.freeze(v, st)) for k, v in kws)
            origin = mk('new', ci.qual, fz, fk)
            if ci.is_subclass('Exception') or any(b in EXC_BUILTINS or b.endswith('Error')
                                                  for b in ci.ext_bases() if isinstance(b, str)):
                self.emit('call', e, st, fr, fn=fv, args=fz, kws=fk, recv=None, stmt=stmt,
                          result=origin, rawargs=tuple(args))
                return origin
            ev = self.emit('call', e, st, fr, fn=fv, args=fz, kws=fk, recv=None, stmt=stmt,
                           result=origin, rawargs=tuple(args))
            if ci.name in self.external or \
                    self.is_opaque(ci.module) and fr.func.module is not ci.module:
                return self.new_ref(mk('call', fv, fz, fk), st)
            r = self.new_obj(ci, st, mk('inst', ci.qual, next(self.uid), fz, fk))
            if ci.name in self.opaque_classes or ci.qual in self.opaque_classes:
                return r
            init = ci.find('__init__')
            if init is not None and self.can_inline(init, fr) and \
                    not any(k == '**' for k, _ in kws) and not any(x.op == 'star' for x in args):
                self.inline_call(init, [r] + list(args), dict(kws), st, fr, e)
            return r
        if fv.op == 'closure':
            fi, cenv, cfr = self.closures[fv.a[0]]
            if self.can_inline_closure(fi, fr):
                nf = Frame(fi, fi.module, cfr.cls, fr.depth + 1, fr.stack + (fi.qual,), cenv)
                s2 = State(dict(cenv), st.heap, st.attrs, st.pc)
                b = self.bind(fi, args, dict(kws), s2, nf)
                if b is not None:
                    self.emit('call', e, st, fr, fn=fv,
                              args=tuple(self.freeze(x, st) for x in args), kws=(), recv=None,
                              stmt=stmt, result=None, rawargs=tuple(args))
                    s2.env.update(b)
                    s2 = State(s2.env, Heap(st.heap), dict(st.attrs), st.pc)
                    v, out = self.run_body(fi.node, s2, nf)
                    if out is None:
                        st.pc = st.pc + (FALSE,)
                        return None
                    st.heap, st.attrs, st.pc = out.heap, out.attrs, out.pc
                    return v
        if fv.op == 'partial':
            return self.call_value(fv.a[0], list(fv.a[1]) + list(args), list(fv.a[2]) + list(kws),
                                   e, st, fr, stmt)
        # external
        fargs = tuple(self.freeze(x, st) for x in args)
        fkws = tuple((k, self.freeze(v, st)) for k, v in kws)
        if fv.op == 'g':
            r = self.builtin(fv.a[0], args, kws, fargs, fkws, e, st, fr, stmt)
            if r is not None:
                self.emit('call', e, st, fr, fn=fv, args=fargs, kws=fkws, recv=None, stmt=stmt,
                          result=r, rawargs=tuple(args))
                return r
        val = mk('call', self.freeze(fv, st), fargs, fkws)
        if fv.op == 'g' and (random_name(fv.a[0]) or fv.a[0] in SEEDED and
                             (fargs or fkws) and not (fargs and is_const(fargs[0], None))):
            val = self.draw(val, st)
        self.emit('call', e, st, fr, fn=self.freeze(fv, st), args=fargs, kws=fkws, recv=None,
                  stmt=stmt, result=val, rawargs=tuple(args))
        if fv.op == 'g':
            q = fv.a[0]
            if q in SCALAR_FUNCS:
                return val
            if q in ('numpy.fill_diagonal', 'random.shuffle', 'numpy.random.shuffle',
                     'numpy.put', 'numpy.copyto', 'setattr') and args:
                self.mutate(args[0], q, tuple(args[1:]), tuple(kws), st, fr, e)
        return self.new_ref(val, st)

    def can_inline_closure(self, fi, fr):
        return self.inline and fr.depth < self.maxdepth and fr.stack.count(fi.qual) < 1

    def bind(self, f, args, kws, st, fr):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        if any(isinstance(x, N) and x.op == 'star' for x in args):
            return None
        n = min(len(pos), len(args))
        for p, v in zip(pos, args):
            out[p] = v
        rest = args[n:]
        if a.vararg:
            out[a.vararg.arg] = mk('seq', tuple(mk('item', v) for v in rest), 'tuple')
        elif rest:
            return None
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = []
        for k, v in kws.items():
            if k in pos or k in kwonly:
                out[k] = v
            else:
                extra.append((k, v))
        if a.kwarg:
            out[a.kwarg.arg] = self.new_ref(
                mk('seq', tuple(mk('kv', C(k), v) for k, v in extra), 'dict'), st)
        elif extra:
            return None
        d = self.default_map(f)
        for p in pos + kwonly:
            if p not in out:
                if p in d:
                    key = mk('default', f.qual, p)
                    v = self.ev(d[p], st, fr)
                    if v is not None and v.op == 'ref':
                        # default values are shared between calls
                        if key not in st.heap:
                            st.heap[key] = st.heap[v]
                        v = key
                    out[p] = v if v is not None else UNK
                else:
                    return None
        return out

    def inline_call(self, f, args, kws, st, fr, node):
        """Inline a repository function; mutates st; returns value or None when it never returns."""
        if not self.can_inline(f, fr):
            return self.new_ref(mk('call', mk('func', f.qual),
                                   tuple(self.freeze_id(x, st) for x in args),
                                   tuple((k, self.freeze(v, st)) for k, v in kws.items())), st)
        nf = Frame(f, f.module, f.cls, fr.depth + 1, fr.stack + (f.qual,))
        s2 = State({}, Heap(st.heap), dict(st.attrs), st.pc)
        b = self.bind(f, args, kws, s2, nf)
        if b is None:
            return self.new_ref(mk('call', mk('func', f.qual),
                                   tuple(self.freeze_id(x, st) for x in args),
                                   tuple((k, self.freeze(v, st)) for k, v in kws.items())), st)
        s2.env.update(b)
        if f.is_abstract and _trivial(f.node):
            return self.new_ref(mk('call', mk('func', f.qual),
                                   tuple(self.freeze_id(x, st) for x in args), ()), st)
        v, out = self.run_body(f.node, s2, nf)
        if out is None:
            st.pc = st.pc + (FALSE,)
            return None
        old = len(st.pc)
        st.heap, st.attrs, st.pc = out.heap, out.attrs, out.pc
        for c in st.pc[old:]:
            self.refine(c, st)
        return v

    # -------------------------------------------------------------- builtins
    def builtin(self, q, args, kws, fargs, fkws, e, st, fr, stmt):
        n = len(args)
        if q == 'len' and n == 1:
            return length(fargs[0])
        if q in ('list', 'tuple', 'set', 'frozenset'):
            kind = {'frozenset': 'set'}.get(q, q)
            if n == 0:
                return self.new_ref(mk('seq', (), kind), st)
            its = self.known_items(args[0], st)
            c = self.deref(args[0], st)
            if its is not None and (kind != 'set' or len(set(its)) == len(its)):
                s = mk('seq', tuple(mk('item', x) for x in its), kind)
            elif c.op == 'seq' and (c.a[1] in ('list', 'tuple', 'gen') or c.a[1] == kind):
                s = mk('seq', c.a[0], kind)
            elif q in ('list', 'tuple') and self.iterable_call(c):
                L, v = self.loop_of(args[0], st)
                s = mk('seq', (mk('for', L, TRUE, (mk('item', v),)),), kind)
            else:
                s = mk('seq', (mk('splice', fargs[0]),), kind)
            return s if kind == 'tuple' else self.new_ref(s, st)
        if q == 'dict':
            segs = []
            if n == 1:
                c = self.deref(args[0], st)
                its = self.known_items(args[0], st)
                if c.op == 'seq' and c.a[1] == 'dict':
                    segs.extend(c.a[0])
                elif its is not None and all(self.pair(x, st) for x in its):
                    for x in its:
                        p = self.pair(x, st)
                        segs.append(mk('kv', self.freeze(p[0], st), p[1]))
                elif self.iterable_call(c):
                    L, v = self.loop_of(args[0], st)
                    p = self.pair(v, st)
                    if p:
                        segs.append(mk('for', L, TRUE, (mk('kv', p[0], p[1]),)))
                    else:
                        segs.append(mk('splice', fargs[0]))
                else:
                    segs.append(mk('splice', fargs[0]))
            for k, v in kws:
                segs.append(mk('kv', C(k), v) if k != '**' else mk('splice', self.freeze(v, st)))
            return self.new_ref(mk('seq', tuple(segs), 'dict'), st)
        if q == 'str' and n == 1:
            return FMT([mk('str', fargs[0], '')])
        if q in ('int', 'float', 'bool', 'abs', 'round', 'complex') and n >= 1 and \
                all(a.op == 'const' for a in fargs):
            try:
                return C(getattr(_b, q)(*[a.a[0] for a in fargs]))
            except Exception:
                return None
        if q in ('max', 'min') and n == 1:
            its = self.known_items(args[0], st)
            if its and all(x.op == 'const' for x in its):
                try:
                    return C(getattr(_b, q)(x.a[0] for x in its))
                except Exception:
                    return None
        if q == 'sum' and n >= 1:
            c = self.deref(args[0], st)
            if c.op == 'seq' and c.a[1] in ('list', 'tuple', 'gen') and \
                    any(x.op == 'for' for x in c.a[0]):
                t = self.total(c.a[0], st)
                if t is not None:
                    return BIN('+', fargs[1] if n > 1 else C(0), t)
            its = self.known_items(args[0], st)
            if its is not None and n == 1:
                r = C(0)
                for x in its:
                    r = BIN('+', r, self.freeze(x, st))
                return r
        if q == 'isinstance' and n == 2:
            return self.isinst(args[0], args[1], fargs, st)
        if q == 'hasattr' and n == 2:
            c = self.deref(args[0], st)
            if c.op == 'mu' or (c.op == 'seq' and c.a[1] == 'ops'):
                return mk('call', g('hasattr'), (g('<object>'), fargs[1]), ())
            return None
        if q == 'getattr' and n >= 2 and fargs[1].op == 'const':
            if n == 2 or self.class_of(args[0], st) is not None:
                return self.getattr(args[0], fargs[1].a[0], st, fr, e)
            return None
        if q == 'setattr' and n == 3 and fargs[1].op == 'const':
            self.setattr(args[0], fargs[1].a[0], args[2], st, fr, e)
            return NONE
        if q in ('any', 'all') and n == 1:
            c = self.deref(args[0], st)
            if c.op == 'seq' and len(c.a[0]) == 1 and c.a[0][0].op == 'for' and \
                    len(c.a[0][0].a[2]) == 1:
                f = c.a[0][0]
                s0 = f.a[2][0]
                if s0.op == 'item':
                    t = truth(self.freeze(s0.a[0], st))
                    return mk('exists' if q == 'any' else 'all', f.a[0], t)
                if s0.op == 'ifseg' and len(s0.a[1]) == 1 and not s0.a[2]:
                    t = truth(self.freeze(s0.a[1][0].a[0], st))
                    if q == 'any':
                        return mk('exists', f.a[0], AND(s0.a[0], t))
                    return mk('all', f.a[0], OR(NOT(s0.a[0]), t))
            its = self.known_items(args[0], st)
            if its is not None:
                ts = [truth(self.freeze(x, st)) for x in its]
                return OR(*ts) if q == 'any' else AND(*ts)
            return None
        if q == 'map' and n == 2:
            L, v = self.loop_of(args[1], st)
            its = self.known_items(args[1], st)
            if its is not None:
                out = [self.call_value(args[0], [x], [], e, st, fr) for x in its]
                if any(x is None for x in out):
                    return None
                return self.new_ref(mk('seq', tuple(mk('item', x) for x in out), 'list'), st)
            self.loop_stack.append(L)
            r = self.call_value(args[0], [v], [], e, st, fr)
            self.loop_stack.pop()
            if r is None:
                return None
            return self.new_ref(mk('seq', (mk('for', L, TRUE, (mk('item', r),)),), 'list'), st)
        if q in ('functools.partial',) and n >= 1:
            return mk('partial', args[0], tuple(args[1:]), tuple(kws))
        if q.endswith('parallel_map') and n >= 2:
            L, v = self.loop_of(args[1], st)
            kw = dict(kws)
            targs = kw.get('task_args', args[2] if n > 2 else None)
            extra = []
            if targs is not None:
                its = self.known_items(targs, st)
                if its is None:
                    return None
                extra = its
            tk = kw.get('task_kwargs', args[3] if n > 3 else None)
            ekw = []
            if tk is not None:
                c = self.deref(tk, st)
                if c.op == 'seq' and c.a[1] == 'dict':
                    ekw = [(s.a[0].a[0], s.a[1]) for s in c.a[0] if s.op == 'kv']
            self.loop_stack.append(L)
            r = self.call_value(args[0], [v] + list(extra), ekw, e, st, fr)
            self.loop_stack.pop()
            if r is None:
                return None
            return self.new_ref(mk('seq', (mk('for', L, TRUE, (mk('item', r),)),), 'list'), st)
        if q in ('collections.defaultdict', 'collections.Counter'):
            return self.new_ref(mk('seq', (mk('base', mk('call', g(q), fargs, fkws)),), 'ops'), st)
        if q in ('copy.copy',) and n == 1:
            c = self.deref(args[0], st)
            if c.op == 'seq' and c.a[1] in ('list', 'dict', 'set', 'ops'):
                return self.new_ref(c, st)
            if c.op == 'obj':
                return self.copy_obj(args[0], c, st, deep=False)
        if q in ('copy.deepcopy',) and n == 1:
            c = self.deref(args[0], st)
            if c.op == 'obj':
                return self.copy_obj(args[0], c, st, deep=True)
            if c.op == 'seq':
                fz = self.freeze(c, st)
                return self.new_ref(subst_copy(fz), st)
        if q in ('enumerate', 'zip', 'range', 'reversed', 'iter', 'itertools.product') or \
                q == 'sorted':
            if q == 'range':
                return mk('call', g(q), fargs, fkws)
            return mk('call', g(q), tuple(args), tuple(kws))
        if q in ('numpy.array', 'numpy.asarray') and n == 1 and not kws and fargs[0].op == 'const':
            return fargs[0]
        if q == 'pow' and n == 2:
            return BIN('**', fargs[0], fargs[1])
        if q in ('numpy.power', 'math.pow') and n == 2:
            return BIN('**', fargs[0], fargs[1])
        if q in ('numpy.add', 'numpy.subtract', 'numpy.multiply', 'numpy.divide', 'numpy.matmul',
                 'operator.add', 'operator.sub', 'operator.mul', 'numpy.mod') and n == 2:
            o = {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'matmul': '@',
                 'sub': '-', 'mul': '*', 'mod': '%'}[q.split('.')[1]]
            return self.new_ref(BIN(o, fargs[0], fargs[1]), st)
        if q == 'print':
            return NONE
        return None

    def copy_obj(self, v, c, st, deep):
        ci = self.prog.classes[c.a[0]]
        r = self.new_obj(ci, st, mk('copyof', c.a[1], deep))
        for (b, nme), val in list(st.attrs.items()):
            if b is v:
                st.attrs[(r, nme)] = self.new_ref(mk('call', g('copy.deepcopy'),
                                                     (self.freeze(val, st),), ()), st) \
                    if deep and val.op not in ('const',) else val
        return r

    def pair(self, x, st):
        c = self.deref(x, st)
        if c.op == 'seq' and len(c.a[0]) == 2 and all(s.op == 'item' for s in c.a[0]):
            return c.a[0][0].a[0], c.a[0][1].a[0]
        return None

    def iterable_call(self, c):
        if c.op == 'call' and c.a[0].op == 'g' and c.a[0].a[0] in ('range', 'enumerate', 'zip'):
            return True
        return c.op == 'call' and c.a[0].op == 'attr' and \
            c.a[0].a[1] in ('keys', 'items', 'values') and not c.a[1]

    def total(self, segs, st):
        """Sum of the elements of a sequence."""
        r = C(0)
        for x in segs:
            if x.op == 'item':
                v = self.freeze(x.a[0], st)
            elif x.op == 'ifseg':
                p, q = self.total(x.a[1], st), self.total(x.a[2], st)
                v = IF(x.a[0], p, q) if p is not None and q is not None else None
            elif x.op == 'for' and is_const(x.a[1], True):
                v = self.total(x.a[2], st)
                v = mk('sum', x.a[0], v) if v is not None else None
            else:
                v = None
            if v is None:
                return None
            r = v if is_const(r, 0) else BIN('+', r, v)
        return r

    def isinst(self, v, t, fargs, st):
        c = self.deref(v, st)
        ft = fargs[1]
        tys = [s.a[0] for s in ft.a[0]] if ft.op == 'seq' else [ft]
        names = []
        for x in tys:
            if x.op == 'g':
                names.append(x.a[0])
            elif x.op == 'class':
                names.append(x.a[0])
            else:
                return mk('call', g('isinstance'), (fargs[0], ft), ())
        res = None
        if c.op == 'seq' and c.a[1] in ('list', 'tuple', 'dict', 'set'):
            res = c.a[1] in names or (c.a[1] in ('list', 'tuple') and
                                      any(n.endswith('Sequence') for n in names))
            if any(n.split('.')[-1] in ('Iterable', 'Mapping', 'Sized', 'Container') for n in names):
                res = None
        elif c.op == 'const':
            ty = type(c.a[0])
            mro = {k.__name__ for k in ty.__mro__}
            known = {'int', 'float', 'str', 'bool', 'complex', 'list', 'dict', 'tuple', 'set',
                     'NoneType', 'bytes', 'object'}
            if any(n in mro for n in names):
                res = True
            elif all(n in known or n.startswith('qiskit') or n == 'numpy.ndarray' for n in names):
                res = False
        elif c.op == 'fmt':
            res = 'str' in names
        elif c.op == 'obj':
            ci = self.prog.classes.get(c.a[0])
            if ci is not None:
                q = {k.qual for k in ci.mro()} | set(map(str, ci.ext_bases()))
                if any(n in q for n in names):
                    res = True
                elif all(n in self.prog.classes or n in ('list', 'dict', 'str', 'int', 'float',
                                                         'tuple', 'numpy.ndarray') for n in names):
                    res = False
        if res is not None:
            return C(res)
        if len(names) > 1:
            return OR(*[mk('call', g('isinstance'), (fargs[0], x), ()) for x in tys])
        return mk('call', g('isinstance'), (fargs[0], ft), ())

    # call a closure/func value from a rule
    def apply(self, fv, args, kws=None, st=None, fr=None):
        st = st or State({}, {}, {}, ())
        if fr is None:
            f0 = FuncInfo('<rule>', ast.parse('def f(): pass').body[0],
                          next(iter(self.prog.modules.values())))
            fr = Frame(f0, f0.module, None, 0, ())
        v = self.call_value(fv, list(args), list((kws or {}).items()), ast.parse('f()').body[0].value,
                            st, fr)
        return self.freeze(v, st) if v is not None else None


def with_value(seg, v):
    return mk(seg.op, *(seg.a[:-1] + (v,)))


def attr_mu(L, k):
    """Loop-carried value of attribute k[1] of object k[0]."""
    b = mk('hk', '#%s' % (k[0].a[0],)) if k[0].op == 'ref' else k[0]
    return mk('mu', L, mk('attrkey', b, k[1]))


def ops_of(c1, c0):
    """c1 is c0 followed by in-place operations (possibly under conditions)."""
    if c1 is c0:
        return True
    if c1.op == 'seq' and c1.a[1] == 'ops' and c1.a[0] and c1.a[0][0] is mk('base', c0):
        return True
    if c1.op == 'if':
        return ops_of(c1.a[1], c0) and ops_of(c1.a[2], c0)
    return False


def subst_copy(n):
    return n


def rebuild(op, a):
    """Re-simplify after freezing."""
    if op == 'bin':
        return BIN(*a)
    if op == 'cmp':
        return CMP(*a)
    if op == 'if':
        return IF(*a)
    if op == 'fmt':
        return FMT(a[0])
    return mk(op, *a)


def TUP(*xs):
    return mk('seq', tuple(mk('item', x) for x in xs), 'tuple')


class _Fake(ast.stmt):
    _fields = ()

    def __init__(self, f):
        super().__init__()
        self.f = f
        self.lineno = 0
        self.col_offset = 0


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
       ast.Pow: '**', ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
       ast.LShift: '<<', ast.RShift: '>>'}
CMPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
        ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


def _target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def _assigned(body):
    out = []
    for b in body:
        if isinstance(b, _Fake):
            continue
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if n.id not in out:
                    out.append(n.id)
    return out


def _is_generator(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        st.extend(ast.iter_child_nodes(n))
    return False


def _trivial(node):
    for s in node.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Pass):
            continue
        return False
    return True
