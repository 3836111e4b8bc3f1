"""Localised semantic difference of two value-graph terms.

`Differ.diff(a, b)` aligns the value computed by the code (a) with the value a
reference definition computes (b).  Equal normal forms give no difference.  A
difference is reported as a violation only when both sides are fully
interpreted at the point where they part (no opaque operator that is not shared
by both, no function symbol the reference does not know); anything else is
recorded as undecided.
"""
import itertools
import re
from terms import N, mk, C, TRUE, FALSE, NONE, is_const, walk, subst, children
from engine import NOT, AND, OR, IF, CMP, BIN, g, truth, rebuild, length, GROWING
from norm import Norm, OPAQUE, ALIAS, frac, rank
from compare import SOFT, lift, _inner

BOOL = {'cmp', 'not', 'and', 'or', 'exists', 'all', 'truthy', 'exc'}
ARRAY_METHODS = {'mean', 'sum', 'max', 'min', 'std', 'var', 'prod', 'dot', 'transpose', 'conj',
                 'conjugate', 'flatten', 'ravel', 'reshape', 'round', 'trace', 'argmax', 'argmin',
                 'cumsum', 'copy'}
REDUCTIONS = {'numpy.' + x for x in ('mean', 'std', 'var', 'sum', 'prod', 'max', 'min', 'amax',
                                     'amin', 'median', 'any', 'all', 'argmax', 'argmin')}
WRAPS = {'numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray'}
# functions of the same arguments that are known to differ
DISTINCT = [
    {'max', 'min', 'sum', 'len', 'numpy.max', 'numpy.min', 'numpy.sum', 'numpy.mean', 'numpy.median',
     'numpy.std', 'numpy.var', 'numpy.prod'},
    {'numpy.sin', 'numpy.cos', 'numpy.tan', 'numpy.exp', 'numpy.log', 'numpy.log2', 'numpy.sqrt',
     'numpy.arccos', 'numpy.arcsin', 'numpy.log10', 'numpy.square'},
    {'numpy.floor', 'numpy.ceil', 'numpy.round', 'math.floor', 'math.ceil', 'round'},
    {'numpy.argmax', 'numpy.argmin'}, {'numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.eye',
                                       'numpy.identity'} - {'numpy.identity'},
    {'numpy.hstack', 'numpy.vstack'}, {'numpy.real', 'numpy.imag', 'abs'},
    {'any', 'all'}, {'numpy.any', 'numpy.all'}, {'sorted', 'reversed'},
    {'numpy.kron', 'numpy.dot'}, {'numpy.linspace', 'numpy.logspace', 'numpy.arange'},
    {'itertools.product', 'itertools.combinations', 'itertools.permutations',
     'itertools.combinations_with_replacement'},
    {'numpy.conj', 'numpy.transpose'},
]
GATES = ['h', 'x', 'y', 'z', 's', 'sdg', 't', 'tdg', 'cx', 'cz', 'cy', 'swap', 'id', 'i', 'iden',
         'u1', 'u2', 'u3', 'rx', 'ry', 'rz', 'measure', 'barrier', 'reset', 'ccx', 'crz', 'cu1',
         'cu3', 'initialize']
DISTINCT_METHODS = [
    set(GATES) - {'i', 'iden'}, {'lower', 'upper'}, {'keys', 'values', 'items'},
    {'append', 'extend', 'insert'}, {'startswith', 'endswith'}, {'lstrip', 'rstrip', 'strip'},
    {'compose', 'tensor', 'expand', 'dot'}, {'intersection', 'union', 'difference'},
    {'adjoint', 'transpose', 'conjugate', 'inverse'}, {'split', 'rsplit'}, {'ljust', 'rjust'},
    {'zfill', 'ljust'}, {'real', 'imag'},
]
SOLID = set(GATES) | {'append', 'extend', 'insert', 'add', 'update', '__setitem__', '__setattr__',
                     'remove', 'pop', 'compose', 'add_register', 'aug+', 'aug-', 'aug*', 'aug/',
                     'sort', 'reverse', 'clear'}
NONINJ = {'len', 'set', 'any', 'all', 'numpy.any', 'numpy.all', 'sorted'}


def prep(t, eng=None):
    """Rewrite equivalent spellings to one form."""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, N):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        na = tuple(go(y) for y in x.a)
        n = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
        r = rewrite(n)
        memo[x] = r
        return r
    return go(t)


def counter_test(c):
    """(counter, constant) when c compares a loop counter 0, 1, ... with a whole number."""
    x, y = c.a[1:]
    if x.op == 'const':
        x, y = y, x
    if x.op == 'iv' and counts_up(x.a[0]) and is_const(x.a[0].a[1], 0) and y.op == 'const' and \
            type(y.a[0]) is int and 0 <= y.a[0] < 50 and \
            c.a[0] in ('<', '<=', '==', '!='):
        return x, y.a[0]
    return None


def counter_cond(c):
    return c.op == 'cmp' and counter_test(c) is not None


def counter_holds(op, k, sides):
    x, y = (k if s.op == 'iv' else s.a[0] for s in sides)
    return {'<': x < y, '<=': x <= y, '==': x == y, '!=': x != y}[op]


def is_bool(t):
    return t.op in ('cmp', 'not', 'and', 'or', 'all', 'exists', 'truthy') or \
        t.op == 'if' and is_bool(t.a[1]) and is_bool(t.a[2])


def is_text(t):
    return t.op == 'fmt' or t.op == 'const' and isinstance(t.a[0], str) or \
        t.op == 'if' and is_text(t.a[1]) and is_text(t.a[2]) or t.op == 'sum' and is_text(t.a[1]) or \
        t.op == 'call' and t.a[0].op == 'attr' and t.a[0].a[1] in ('join', 'replace', 'strip') and \
        (t.a[0].a[1] == 'join' or is_text(t.a[0].a[0]))


BACKWARDS = mk('slice', NONE, NONE, C(-1))


def ascending(t):
    """Comes in ascending order by construction."""
    if t.op == 'call' and t.a[0].op == 'g' and t.a[1]:
        q = t.a[0].a[0]
        if q in ('itertools.product', 'itertools.combinations', 'itertools.permutations'):
            return all(ascending(x) or x.op == 'const' for x in t.a[1]) and ascending(t.a[1][0])
        if q == 'range':
            return len(t.a[1]) < 3 or t.a[1][2].op == 'const' and t.a[1][2].a[0] > 0
        return q == 'sorted' and not t.a[2]
    if t.op == 'seq' and t.a[1] in ('list', 'tuple') and t.a[0] and \
            all(s.op == 'item' and s.a[0].op == 'const' for s in t.a[0]):
        try:
            v = [s.a[0].a[0] for s in t.a[0]]
            return all(p <= q for p, q in zip(v, v[1:]))
        except TypeError:
            return False
    return False


def shape_text(t):
    """The text of a term without the numbers of its loops."""
    return re.sub(r'(?<=[Li])\d+', '', repr(t))


def extreme(name, p, q):
    """The smaller or larger of two values."""
    if p is q:
        return p
    for u, v in ((p, q), (q, p)):
        if u.op == 'if' and (u.a[1] is v or u.a[2] is v):
            return IF(u.a[0], extreme(name, u.a[1], v), extreme(name, u.a[2], v))
    if all(u.op == 'const' and isinstance(u.a[0], (int, float)) for u in (p, q)):
        return p if (p.a[0] <= q.a[0]) == (name == 'min') else q
    return mk('call', g(name), tuple(sorted((p, q), key=shape_text)), ())


def picked(S):
    """(loop, condition, entry) of a list of the entries that one loop makes under a condition."""
    if S.op != 'seq' or S.a[1] not in ('list', 'tuple') or len(S.a[0]) != 1 or \
            S.a[0][0].op != 'for' or not is_const(S.a[0][0].a[1], True) or \
            len(S.a[0][0].a[2]) != 1:
        return None
    L, s = S.a[0][0].a[0], S.a[0][0].a[2][0]
    if s.op == 'item':
        return L, TRUE, s.a[0]
    if s.op == 'ifseg' and not s.a[2] and len(s.a[1]) == 1 and s.a[1][0].op == 'item':
        return L, s.a[0], s.a[1][0].a[0]
    return None


def over_picked(L, bodies):
    """The loop over such a list, as the loop that makes it: (loop, condition, bodies)."""
    if L.op != 'loop' or len(L.a) < 4 or not is_const(L.a[1], 0) or not is_const(L.a[3], 1) or \
            L.a[2].op != 'call' or L.a[2].a[0] is not g('len') or len(L.a[2].a[1]) != 1:
        return None
    S = L.a[2].a[1][0]
    p = picked(S)
    if p is None or p[1] is TRUE:
        return None
    iv, at = mk('iv', L), mk('sub', S, mk('iv', L))
    out = tuple(subst(b, lambda y: p[2] if y is at else None) for b in bodies)
    if any(y is iv or y is L for b in out for y in walk(b)):
        return None
    return p[0], p[1], out


def some_of(x):
    """Condition under which a list, or a count of cases, is not empty."""
    if x.op == 'call' and x.a[0] is g('len') and len(x.a[1]) == 1:
        p = picked(x.a[1][0])
        if p is not None and p[1] is not TRUE:
            return mk('exists', p[0], p[1])
    if x.op == 'sum' and x.a[1].op == 'if' and is_const(x.a[1].a[1], 1) and \
            is_const(x.a[1].a[2], 0):
        return mk('exists', x.a[0], x.a[1].a[0])
    return None


def rewrite(x):
    if x.op in ('exists', 'all'):
        p = over_picked(x.a[0], x.a[1:2])
        if p is not None:
            c, b = p[1], p[2][0]
            return mk(x.op, p[0], AND(c, b) if x.op == 'exists' else OR(NOT(c), b))
    if x.op == 'for' and is_const(x.a[1], True) and \
            all(s.op in ('item', 'kv') for s in x.a[2]):
        p = over_picked(x.a[0], x.a[2])
        if p is not None:
            return mk('for', p[0], TRUE, (mk('ifseg', p[1], p[2], ()),))
    if x.op == 'truthy':
        e = some_of(x.a[0])
        if e is not None:
            return e
    if x.op == 'cmp' and x.a[0] in ('==', '!=', '<', '<='):
        o, p, q = x.a
        for k, v, table in ((p, q, {('==', 0): False, ('!=', 0): True, ('<', 0): True,
                                    ('<=', 1): True}),
                            (q, p, {('==', 0): False, ('!=', 0): True, ('<=', 0): False,
                                    ('<', 1): False})):
            if k.op == 'const' and type(k.a[0]) is int and (o, k.a[0]) in table:
                e = some_of(v)
                if e is not None:
                    return e if table[o, k.a[0]] else NOT(e)
    if x.op == 'if' and x.a[0].op == 'cmp' and x.a[0].a[0] in ('<', '<=', '>', '>=') and \
            {id(x.a[1]), id(x.a[2])} == {id(x.a[0].a[1]), id(x.a[0].a[2])}:
        less = x.a[0].a[0] in ('<', '<=')
        return extreme('min' if (x.a[1] is x.a[0].a[1]) == less else 'max', x.a[1], x.a[2])
    if x.op == 'call' and x.a[0].op == 'g' and x.a[0].a[0] in ('min', 'max') and \
            len(x.a[1]) == 2 and not x.a[2] and not any(y.op == 'splice' for y in x.a[1]):
        return extreme(x.a[0].a[0], *x.a[1])
    if x.op == 'call' and x.a[0].op == 'g' and x.a[0].a[0] in ('numpy.flip', 'numpy.flipud') and \
            len(x.a[1]) == 1 and not x.a[2]:
        return mk('sub', x.a[1][0], mk('slice', NONE, NONE, C(-1)))
    if x.op == 'sub' and x.a[1] is BACKWARDS and x.a[0].op == 'call' and \
            x.a[0].a[0] is g('sorted') and len(x.a[0].a[1]) == 1:
        k = dict(x.a[0].a[2])
        if set(k) <= {'reverse', 'key'} and all(v.op == 'const' for n, v in k.items()
                                                if n == 'reverse'):
            r = not (k.pop('reverse', FALSE).a[0])
            k = tuple(sorted(k.items())) + ((('reverse', TRUE),) if r else ())
            return mk('call', x.a[0].a[0], x.a[0].a[1], k)
    if x.op == 'call' and x.a[0] is g('sorted') and len(x.a[1]) == 1 and not x.a[2] and \
            ascending(x.a[1][0]):
        return x.a[1][0]
    if x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] in ('randint', 'integers') and \
            len(x.a[1]) == 2 and is_const(x.a[1][0], 0):
        return mk('call', x.a[0], x.a[1][1:], x.a[2])
    if x.op == 'seq' and x.a[1] in ('list', 'tuple') and len(x.a[0]) == 1 and \
            x.a[0][0].op == 'splice' and x.a[0][0].a[0].op in ('param', 'attr', 'sub', 'if', 'call',
                                                             'orig', 'prev', 'loopout', 'mu') or \
            x.op == 'seq' and x.a[1] == 'list' and len(x.a[0]) == 1 and x.a[0][0].op == 'splice' and \
            x.a[0][0].a[0].op == 'seq' and x.a[0][0].a[0].a[1] == 'set':
        return x.a[0][0].a[0]
    if x.op == 'sub' and x.a[1].op == 'const' and x.a[0].op == 'seq' and \
            x.a[0].a[1] in ('list', 'tuple') and isinstance(x.a[1].a[0], int) and \
            all(s.op == 'item' for s in x.a[0].a[0]) and \
            -len(x.a[0].a[0]) <= x.a[1].a[0] < len(x.a[0].a[0]):
        return x.a[0].a[0][x.a[1].a[0]].a[0]
    if x.op == 'sub' and x.a[1].op == 'iv' and x.a[0].op == 'seq' and \
            x.a[0].a[1] in ('list', 'tuple') and len(x.a[0].a[0]) == 1 and counts_up(x.a[1].a[0]):
        # element of a list built by one loop: the loop body at that index
        s = x.a[0].a[0][0]
        if s.op == 'for' and is_const(s.a[1], True) and len(s.a[2]) == 1 and \
                s.a[2][0].op == 'item' and is_const(s.a[0].a[1], 0) and is_const(s.a[0].a[3], 1):
            iv = mk('iv', s.a[0])
            return prep(subst(s.a[2][0].a[0], lambda y: x.a[1] if y is iv else None))
    if x.op == 'sub' and x.a[1].op == 'iv' and x.a[0].op == 'sub' and x.a[0].a[1].op == 'slice':
        # x[k:][i] -> x[k+i]
        lo, hi, st = x.a[0].a[1].a
        if is_const(st, None) and (is_const(lo, None) or
                                   (lo.op == 'const' and isinstance(lo.a[0], int) and lo.a[0] >= 0)):
            off = C(0) if is_const(lo, None) else lo
            return mk('sub', x.a[0].a[0], BIN('+', x.a[1], off))
    if x.op == 'sub' and x.a[1].op == 'iv' and x.a[0].op == 'bin' and x.a[0].a[0] == '*' and \
            x.a[0].a[1].op == 'const' and isinstance(x.a[0].a[1].a[0], str) and \
            len(x.a[0].a[1].a[0]) == 1:
        return x.a[0].a[1]
    if x.op == 'cmp' and x.a[0] in ('==', '!=') and (x.a[1].op == 'if') != (x.a[2].op == 'if') and \
            any(y.op == 'if' and (counter_cond(y.a[0]) or 'const' in (y.a[1].op, y.a[2].op) and
                                  any(z.op == 'const' for z in x.a[1:])) for y in x.a[1:]):
        (c, p, q), o = (x.a[1].a, x.a[2]) if x.a[1].op == 'if' else (x.a[2].a, x.a[1])
        return truth(IF(c, rewrite(CMP(x.a[0], p, o)), rewrite(CMP(x.a[0], q, o))))
    if x.op == 'bin' and x.a[0] == '*' and x.a[1].op == 'const' and \
            isinstance(x.a[1].a[0], str) and is_bool(x.a[2]):
        return IF(truth(x.a[2]), x.a[1], C(''))        # text kept when a condition holds
    if x.op == 'bin' and x.a[0] == '+' and x.a[1].op == 'if' and x.a[2].op == 'if' and \
            all(y.op == 'const' and isinstance(y.a[0], str) for y in x.a[1].a[1:] + x.a[2].a[1:]):
        (c, p, q), (d, r, t) = x.a[1].a, x.a[2].a
        if d is NOT(c):
            r, t = t, r
        if d is c or d is NOT(c):
            return IF(c, C(p.a[0] + r.a[0]), C(q.a[0] + t.a[0]))
    if x.op == 'call' and x.a[0].op == 'attr' and x.a[0].a[1] == 'join' and \
            is_const(x.a[0].a[0], '') and len(x.a[1]) == 1 and x.a[1][0].op == 'seq' and \
            len(x.a[1][0].a[0]) == 1 and x.a[1][0].a[0][0].op == 'for':
        f = x.a[1][0].a[0][0]
        if is_const(f.a[1], True) and len(f.a[2]) == 1 and f.a[2][0].op == 'item' and \
                is_text(f.a[2][0].a[0]):
            return mk('sum', f.a[0], f.a[2][0].a[0])
    if x.op == 'bin' and x.a[0] == '+' and (is_text(x.a[1]) or is_text(x.a[2])):
        from engine import FMT
        return rewrite(FMT([y if y.op == 'const' else mk('str', y, '') for y in x.a[1:]]))
    if x.op == 'fmt' and len(x.a[0]) == 1 and x.a[0][0].op == 'str' and x.a[0][0].a[1] == '' and \
            is_text(x.a[0][0].a[0]):
        return x.a[0][0].a[0]
    if x.op == 'sub' and x.a[1].op == 'slice' and is_const(x.a[1].a[0], None) and \
            is_const(x.a[1].a[2], None) and x.a[1].a[1].op == 'const':
        # a separator written after every entry, the last one cut off
        y = x.a[0]
        if y.op == 'fmt' and len(y.a[0]) == 1 and y.a[0][0].op == 'str' and y.a[0][0].a[1] == '':
            y = y.a[0][0].a[0]
        if y.op == 'sum' and y.a[1].op == 'fmt' and y.a[1].a[0][-1].op == 'const' and \
                len(y.a[1].a[0]) > 1:
            sep = y.a[1].a[0][-1].a[0]
            if isinstance(sep, str) and x.a[1].a[1].a[0] == -len(sep):
                from engine import FMT
                e = y.a[1].a[0][:-1]
                e = e[0].a[0] if len(e) == 1 and e[0].op == 'str' and e[0].a[1] == '' \
                    else FMT(list(e))
                return mk('call', mk('attr', C(sep), 'join'), (mk('seq', (
                    mk('for', y.a[0], TRUE, (mk('item', e),)),), 'list'),), ())
    if x.op == 'seq' and len(x.a[0]) == 2 and x.a[0][0].op == 'base' and \
            x.a[0][0].a[0].op == 'orig' and x.a[0][1].op == 'do' and x.a[0][1].a[0] == 'pop' and \
            not x.a[0][1].a[2] and x.a[0][0].a[0].a[0].op == 'call' and \
            x.a[0][0].a[0].a[0].a[0].op == 'attr' and x.a[0][0].a[0].a[0].a[0].a[1] == 'split':
        # pop of the first or last entry of a list just split off
        y, k = x.a[0][0].a[0].a[0], x.a[0][1].a[1]
        if len(k) == 1 and is_const(k[0], 0):
            return mk('sub', y, mk('slice', C(1), NONE, NONE))
        if not k or len(k) == 1 and is_const(k[0], -1):
            return mk('sub', y, mk('slice', NONE, C(-1), NONE))
    if x.op == 'cmp' and x.a[0] in ('in', 'not in') and x.a[2].op == 'const' and \
            isinstance(x.a[2].a[0], str) and 0 < len(x.a[2].a[0]) < 6 and x.a[1].op == 'sub' and \
            x.a[1].a[1].op == 'iv' and is_text(x.a[1].a[0]):
        e = [CMP('==', x.a[1], C(k)) for k in x.a[2].a[0]]
        e = OR(*e) if len(e) > 1 else e[0]
        return e if x.a[0] == 'in' else NOT(e)
    if x.op == 'sub' and x.a[0].op == 'if' and x.a[1].op in ('iv', 'const'):
        c, p, q = x.a[0].a
        return IF(c, rewrite(mk('sub', p, x.a[1])), rewrite(mk('sub', q, x.a[1])))
    if x.op == 'orig' and x.a[0].op in ('bin', 'seq'):
        return x.a[0]
    if x.op == 'obj' and len(x.a) == 2 and isinstance(x.a[1], N) and \
            x.a[1].op in ('param', 'attr', 'sub'):
        return x.a[1]
    if x.op == 'call':
        f, args, kws = x.a
        if f.op == 'attr':
            m, r = f.a[1], f.a[0]
            if m == 'get' and len(args) in (1, 2) and not kws and r.op != 'g':
                d = args[1] if len(args) == 2 else NONE
                return IF(CMP('in', args[0], r), mk('sub', r, args[0]), d)
            if m == '__getitem__' and len(args) == 1:
                return mk('sub', r, args[0])
            if m == 'zfill' and len(args) == 1 and is_const(r, ''):
                return BIN('*', C('0'), args[0])
            if m in ARRAY_METHODS and r.op in ('bin', 'call') and not (
                    r.op == 'call' and r.a[0].op == 'class'):
                isarr = r.op == 'bin' or (r.a[0].op == 'g' and r.a[0].a[0].startswith('numpy.'))
                if isarr and m == 'dot' and len(args) == 1:
                    return BIN('@', r, args[0])
                if isarr and m != 'dot':
                    nm = {'conjugate': 'conj'}.get(m, m)
                    return rewrite(mk('call', g('numpy.' + nm), (r,) + args, kws))
            if m == 'join' and len(args) == 1 and r.op == 'const' and args[0].op == 'seq' and \
                    args[0].a[1] in ('list', 'tuple') and \
                    all(s.op == 'item' for s in args[0].a[0]):
                from engine import FMT, parts_of
                parts = []
                for k, s in enumerate(args[0].a[0]):
                    if k:
                        parts.append(r)
                    parts.extend(parts_of(s.a[0]))
                return FMT(parts)
        elif f.op == 'g':
            q = f.a[0]
            if q == 'numpy.dot' and len(args) == 2 and not kws:
                return BIN('@', args[0], args[1])
            if q in REDUCTIONS and args:
                ax = dict(kws)
                n0 = args, kws
                if len(args) == 2 and 'axis' not in ax:
                    ax['axis'] = args[1]
                    args = args[:1]
                if 'axis' in ax and is_const(ax['axis'], None):
                    del ax['axis']
                kws = tuple(sorted(ax.items(), key=lambda kv: kv[0]))
                if len(args) == 1:
                    args = (unwrap(args[0]),)
                if (args, kws) != n0:
                    return mk('call', f, args, kws)
            if q in ('numpy.conjugate',):
                return mk('call', g('numpy.conj'), args, kws)
            if q == 'list' and len(args) == 1 and args[0].op == 'call' and \
                    args[0].a[0].op == 'g' and args[0].a[0].a[0] == 'range':
                return x
            if q in ('numpy.array', 'numpy.asarray') and len(args) == 1 and not kws and \
                    args[0].op == 'call' and args[0].a[0].op == 'g' and \
                    args[0].a[0].a[0] in ('numpy.array', 'numpy.asarray', 'numpy.zeros',
                                          'numpy.mean', 'numpy.std'):
                return args[0]
            if q == 'len' and len(args) == 1:
                return length(args[0])
            if q == 'range' and len(args) == 3 and is_const(args[2], 1):
                args = args[:2]
                x = mk('call', f, args, kws)
            if q == 'range' and len(args) == 2 and is_const(args[0], 0):
                return mk('call', f, args[1:], kws)
    if x.op == 'truthy' and x.a[0].op == 'bin' and x.a[0].a[0] in ('%', '//', '-', '/', '&'):
        return CMP('!=', x.a[0], C(0))
    if x.op == 'attr' and x.a[1] == 'T':
        return mk('call', g('numpy.transpose'), (x.a[0],), ())
    if x.op in SEGPOS:
        na = list(x.a)
        for i in SEGPOS[x.op]:
            na[i] = norm_segs(na[i])
        if any(p is not q for p, q in zip(na, x.a)):
            return mk(x.op, *na)
    return x


def counts_up(L):
    return L.a[1].op == 'const' and isinstance(L.a[1].a[0], int) and L.a[1].a[0] >= 0 and \
        is_const(L.a[3], 1)


SEGPOS = {'seq': (0,), 'for': (2,), 'forx': (1,), 'ifseg': (1, 2)}


def same_do(p, q):
    if p.op == q.op == 'item':
        return True
    if p.op == q.op == 'kv':
        return p.a[0] is q.a[0]
    return p.op == q.op == 'do' and p.a[0] == q.a[0] and len(p.a[1]) == len(q.a[1]) and \
        [k for k, _ in p.a[2]] == [k for k, _ in q.a[2]] and \
        (p.a[0] != '__setattr__' or p.a[1][0] is q.a[1][0]) and \
        not any(x.op == 'star' for x in p.a[1] + q.a[1])


def merge_do(c, p, q):
    if p is q:
        return p
    if p.op == 'item':
        return mk('item', IF(c, p.a[0], q.a[0]))
    if p.op == 'kv':
        return mk('kv', p.a[0], IF(c, p.a[1], q.a[1]))

    def j(x, y):
        return x if x is y else IF(c, x, y)
    return mk('do', p.a[0], tuple(map(j, p.a[1], q.a[1])),
              tuple((k, j(x, y)) for (k, x), (_, y) in zip(p.a[2], q.a[2])))


def norm_segs(segs):
    out = []
    for s in segs:
        if s.op == 'ifseg' and not s.a[1] and s.a[2]:
            s = mk('ifseg', NOT(s.a[0]), s.a[2], ())
        while s.op == 'ifseg' and not s.a[2] and len(s.a[1]) == 1 and s.a[1][0].op == 'ifseg':
            # a test inside a test
            t = s.a[1][0]
            if not t.a[1]:
                t = mk('ifseg', NOT(t.a[0]), t.a[2], ())
            if t.a[2]:
                break
            s = mk('ifseg', AND(truth(s.a[0]), truth(t.a[0])), t.a[1], ())
        if s.op == 'ifseg' and not s.a[1] and not s.a[2]:
            continue
        if s.op == 'ifseg' and len(s.a[1]) == len(s.a[2]) and \
                all(x.op == 'item' for x in s.a[1] + s.a[2]):
            out.extend(mk('item', IF(s.a[0], x.a[0], y.a[0])) for x, y in zip(s.a[1], s.a[2]))
            continue
        if s.op == 'ifseg' and s.a[1] and s.a[1] == s.a[2]:
            out.extend(s.a[1])
            continue
        if s.op == 'ifseg' and s.a[1] and s.a[2]:
            # one call with conditional arguments; a common tail
            c, x, y = s.a
            if len(x) == len(y) and all(map(same_do, x, y)):
                out.extend(merge_do(c, p, q) for p, q in zip(x, y))
                continue
            k = 0
            while k < min(len(x), len(y)) and x[-1 - k] is y[-1 - k]:
                k += 1
            if k:
                out.extend(norm_segs((mk('ifseg', c, x[:-k], y[:-k]),)))
                out.extend(x[-k:])
                continue
        if s.op in ('for', 'forx') and not s.a[2 if s.op == 'for' else 1]:
            continue
        if s.op == 'for' and len(s.a[2]) == 1 and s.a[2][0].op == 'item' and \
                s.a[1].op == 'const' and s.a[1].a[0] is True:
            # one by one, all of them
            L, x = s.a[0], s.a[2][0].a[0]
            if x.op == 'sub' and x.a[1].op == 'iv' and x.a[1].a[0] is L and L.a[1].op == 'const' \
                    and L.a[1].a[0] == 0 and L.a[3].op == 'const' and L.a[3].a[0] == 1 and \
                    x.a[0].op != 'seq' and L.a[2] is length(x.a[0]) and \
                    not any(y.op == 'iv' and y.a[0] is L for y in walk(x.a[0])):
                s = mk('splice', x.a[0])
        if s.op == 'splice' and s.a[0].op == 'seq' and s.a[0].a[1] in ('list', 'tuple'):
            out.extend(norm_segs(s.a[0].a[0]))
            continue
        if s.op == 'do' and s.a[0] == '__setitem__' and out and out[-1] is s:
            continue
        out.append(s)
    # attribute writes commute with operations: last one per name, after the operations
    aw = {}
    for s in out:
        if s.op == 'do' and s.a[0] == '__setattr__':
            aw[s.a[1][0].a[0]] = s
    if aw:
        out = [s for s in out if not (s.op == 'do' and s.a[0] == '__setattr__')] + \
            [aw[k] for k in sorted(aw)]
    if len(out) == len(segs) and all(x is y for x, y in zip(out, segs)):
        return segs
    return tuple(out)


class D:
    """One difference: verdict False (violation) or None (undecided)."""
    __slots__ = ('v', 'path', 'a', 'b', 'why')

    def __init__(self, v, path, a, b, why=''):
        self.v, self.path, self.a, self.b, self.why = v, path, a, b, why

    def msg(self):
        p = '/'.join(str(x) for x in self.path)
        return '%s: computes %s, must be %s%s' % (p, str(self.a)[:240], str(self.b)[:240],
                                                 ' (%s)' % self.why if self.why else '')


def boolnf(k):
    return isinstance(k, tuple) and len(k) == 3 and k[:2] == ('const', 'bool')


class Differ:
    def __init__(self, eng, attr_names=()):
        self.mupairs = []
        self.eng = eng
        self.n = Norm(eng)
        self.n.prep = prep
        self.attr_names = set(attr_names)
        self.budget = 4000

    # ------------------------------------------------------------ equality
    def eq(self, a, ea, b, eb):
        if a is b and ea is eb:
            return True
        if self.n.nf(a, ea) == self.n.nf(b, eb):
            return True
        if a.op in ('seq', 'fmt') or b.op in ('seq', 'fmt'):
            return False
        try:
            pa, pb = self.n.poly(a, ea), self.n.poly(b, eb)
            sc = min([1.0] + [abs(float(c)) for p in (pa, pb) for c in p.values()])
            z = self.n.iszero(self.n.padd(pa, pb, -1), sc)
        except Exception:
            return False
        return bool(z)

    # ------------------------------------------------------------ conditions
    def atoms_of(self, c, env, out):
        """Collect literal atoms: key -> condition (positive form)."""
        if c.op == 'const':
            return
        if c.op == 'not':
            return self.atoms_of(c.a[0], env, out)
        if c.op in ('and', 'or'):
            for x in c.a[0]:
                self.atoms_of(x, env, out)
            return
        if c.op in ('if',):
            for x in c.a:
                self.atoms_of(truth(x), env, out)
            return
        k, pol = self.key(c, env)
        if k not in out and not boolnf(k):
            out[k] = (c, env)

    def key(self, c, env):
        """Canonical key of a literal and its polarity."""
        if c.op == 'not':
            k, p = self.key(c.a[0], env)
            return k, not p
        nf = self.n.nf(c, env)
        if isinstance(nf, tuple) and nf and nf[0] == 'cmp':
            o = nf[1]
            if o in ('!=', 'is not', 'not in'):
                return ('cmp', {'!=': '==', 'is not': 'is', 'not in': 'in'}[o]) + nf[2:], False
            if o in ('<', '<=') and len(nf) == 3:
                # p <= 0 ; not(p <= 0) is -p < 0
                n2 = self.n.nf(NOT(c), env)
                if rank(n2) < rank(nf):
                    return n2, False
        if isinstance(nf, tuple) and nf and nf[0] in ('exists', 'all'):
            n2 = self.n.nf(NOT(c), env)
            if rank(n2) < rank(nf):
                return n2, False
        return nf, True

    def evalc(self, c, env, asg):
        """Value of a condition under an assignment of atoms (None when unassigned)."""
        if c.op == 'const':
            return bool(c.a[0])
        if c.op == 'not':
            v = self.evalc(c.a[0], env, asg)
            return None if v is None else not v
        if c.op == 'and':
            vs = [self.evalc(x, env, asg) for x in c.a[0]]
            return False if False in vs else (None if None in vs else True)
        if c.op == 'or':
            vs = [self.evalc(x, env, asg) for x in c.a[0]]
            return True if True in vs else (None if None in vs else False)
        if c.op == 'if':
            k = self.evalc(truth(c.a[0]), env, asg)
            if k is None:
                return None
            return self.evalc(truth(c.a[1] if k else c.a[2]), env, asg)
        k, pol = self.key(c, env)
        if k in asg:
            return asg[k] == pol
        if boolnf(k):
            return (k[2] == 'True') == pol
        return None

    def consistent(self, asg):
        """Cheap consistency of literals: equalities with constants, None, linear bounds."""
        eqs, bounds = {}, {}
        for k, v in asg.items():
            if not isinstance(k, tuple) or not k or k[0] != 'cmp':
                continue
            o = k[1]
            if o in ('==', 'is') and len(k) == 4:
                if isconst(k[3]):
                    eqs.setdefault(k[2], []).append((k[3], v))
                elif isconst(k[2]):
                    eqs.setdefault(k[3], []).append((k[2], v))
            if len(k) == 3:
                p, c0 = self.split_const(k[2])
                if p is None:
                    continue
                neg = self.negkey(p)
                key, sgn = (p, 1) if rank(p) <= rank(neg) else (neg, -1)
                bounds.setdefault(key, []).append((o, sgn, c0, v))
        for x, l in eqs.items():
            pos = {c for c, v in l if v}
            if len(pos) > 1:
                return False
            if pos and any(not v and c in pos for c, v in l):
                return False
            if pos:
                c = next(iter(pos))
                if c == NONE_NF:
                    for k, v in asg.items():
                        if v and isinstance(k, tuple) and k and k[0] == 'truthy' and k[1] == x:
                            return False
                        if v and isinstance(k, tuple) and len(k) > 2 and k[0] == 'call' and \
                                k[1] == ('g', 'isinstance') and k[2] and k[2][0] == x:
                            return False
                        if v and isinstance(k, tuple) and k[0] == 'cmp' and len(k) == 3 and \
                                contains_nf(k[2], x):
                            return False
                elif isinstance(c, tuple) and c[0] == 'const' and c[1] == 'str' and c[2] != "''":
                    for k, v in asg.items():
                        if not v and isinstance(k, tuple) and k and k[0] == 'truthy' and k[1] == x:
                            return False
        for p, l in bounds.items():
            lo, hi, los, his = None, None, False, False
            eqv, neqs = None, set()
            for o, sgn, c0, v in l:
                # literal: sgn*p + c0 (o) 0
                if o == '==':
                    val = -c0 / sgn
                    if v:
                        if eqv is not None and eqv != val:
                            return False
                        eqv = val
                    else:
                        neqs.add(val)
                    continue
                strict = o == '<'
                s, c = sgn, c0
                if not v:
                    s, c, strict = -s, -c, not strict
                # s*p + c <(=) 0
                if s > 0:
                    val = -c
                    if hi is None or val < hi or (val == hi and strict):
                        hi, his = val, strict
                else:
                    val = c
                    if lo is None or val > lo or (val == lo and strict):
                        lo, los = val, strict
            if lo is not None and hi is not None and (lo > hi or (lo == hi and (los or his))):
                return False
            if eqv is not None:
                if eqv in neqs:
                    return False
                if lo is not None and (eqv < lo or (eqv == lo and los)):
                    return False
                if hi is not None and (eqv > hi or (eqv == hi and his)):
                    return False
        return True

    def split_const(self, canon):
        if canon and canon[0] == 'num':
            return None, canon[1]
        if canon and canon[0] == 'poly':
            c0 = frac(0)
            rest = []
            for m, c in canon[1]:
                if m == ():
                    c0 = c
                else:
                    rest.append((m, c))
            s = abs(rest[0][1]) if len(rest) == 1 else 1
            return tuple((m, c / s) for m, c in rest), c0 / s
        return (((((canon, frac(1)),)), frac(1)),), frac(0)

    @staticmethod
    def negkey(p):
        return tuple((m, -c) for m, c in p)

    def tree(self, t, env, asg):
        """Leaf of an if-tree under an assignment (None when a condition is unassigned)."""
        while t.op == 'if':
            v = self.evalc(truth(t.a[0]), env, asg)
            if v is None:
                return None
            t = t.a[1] if v else t.a[2]
        return t

    def tree_atoms(self, t, env, out, depth=0):
        if t.op == 'if' and depth < 40:
            self.atoms_of(truth(t.a[0]), env, out)
            self.tree_atoms(t.a[1], env, out, depth + 1)
            self.tree_atoms(t.a[2], env, out, depth + 1)

    # ------------------------------------------------------------ difference
    def diff(self, a, ea, b, eb, facts=None, path=()):
        facts = facts or {}
        self.budget -= 1
        if self.budget < 0:
            return [D(None, path, a, b, 'budget')]
        if self.eq(a, ea, b, eb):
            return []
        if a.op == 'if' or b.op == 'if' or (arith(a) and _inner(a) is not None) or \
                (arith(b) and _inner(b) is not None):
            return self.guarded(a, ea, b, eb, facts, path)
        if a.op in BOOL or b.op in BOOL:
            if a.op in BOOL and b.op in BOOL or a.op == 'const' or b.op == 'const':
                r = self.dbool(a, ea, b, eb, facts, path)
                if r is not None:
                    return r
        if a.op == 'const' and b.op == 'const':
            return self.dconst(a, b, path)
        if unwrap(a) is not a or unwrap(b) is not b:
            ua, ub = unwrap(a), unwrap(b)
            ds = self.diff(ua, ea, ub, eb, facts, path)
            return ds
        if a.op == b.op:
            r = getattr(self, 'd_' + a.op, None)
            if r is not None:
                out = r(a, ea, b, eb, facts, path)
                if out is not None:
                    return out
        if a.op == 'seq' and b.op == 'seq':
            return self.d_seq(a, ea, b, eb, facts, path) or []
        return self.residual(a, ea, b, eb, facts, path)

    def factors(self, t, env, out):
        """Operands of the arithmetic expression t that arithmetic does not look into."""
        if t.op == 'const':
            return
        if t.op == 'neg' or (t.op == 'bin' and t.a[0] in ('+', '-', '*', '/', '**')):
            for x in t.a:
                if isinstance(x, N):
                    self.factors(x, env, out)
            return
        if t.op == 'call' and t.a[0].op == 'g' and not t.a[2] and len(t.a[1]) == 1 and \
                (t.a[0].a[0] in ('numpy.sqrt', 'math.sqrt', 'numpy.square', 'float', 'abs')):
            return self.factors(t.a[1][0], env, out)
        out.setdefault(self.n.nf(t, env), t)

    def residual(self, a, ea, b, eb, facts, path):
        """Two different arithmetic expressions: when they agree up to the choice of one to three
        operands, the difference is the difference of those operands."""
        v, why = self.decisive(a, ea, b, eb)
        if v is False:
            return [D(v, path, a, b, why)]
        fa, fb = {}, {}
        self.factors(a, ea, fa)
        self.factors(b, eb, fb)
        ua = [t for k, t in fa.items() if k not in fb]
        ub = [t for k, t in fb.items() if k not in fa]
        if len(ua) == len(ub) and 1 <= len(ua) <= 3 and not (len(ua) == 1 and ua[0] is a and
                                                            ub[0] is b):
            for perm in itertools.permutations(ub):
                ha = {x: mk('param', '%%h%d' % i) for i, x in enumerate(ua)}
                hb = {x: mk('param', '%%h%d' % i) for i, x in enumerate(perm)}
                if self.eq(subst(a, ha.get), ea, subst(b, hb.get), eb):
                    out = []
                    for x, y in zip(ua, perm):
                        out += self.diff(x, ea, y, eb, facts, path)
                    return out
        return [D(v, path, a, b, why)]

    def guarded(self, a, ea, b, eb, facts, path):
        if self.last_wins(a, ea, b, eb) or self.last_wins(b, eb, a, ea):
            return [D(False, path, a, b,
                      'the last case decides on one side, any case on the other')]
        if arith(a) and a.op != 'if':
            a = lift(a)
        if arith(b) and b.op != 'if':
            b = lift(b)
        if a.op != 'if' and b.op != 'if':
            if self.eq(a, ea, b, eb):
                return []
            return self.residual(a, ea, b, eb, facts, path)
        at = {}
        self.tree_atoms(a, ea, at)
        ka = set(at)
        self.tree_atoms(b, eb, at)
        kb = {}
        self.tree_atoms(b, eb, kb)
        keys = [k for k in at if k not in facts]
        if len(keys) > 11:
            if a.op == 'if' and b.op == 'if' and self.key(a.a[0], ea) == self.key(b.a[0], eb):
                k, pol = self.key(a.a[0], ea)
                return self.diff(a.a[1], ea, b.a[1], eb, dict(facts, **{}), path) + \
                    self.diff(a.a[2], ea, b.a[2], eb, facts, path)
            return [D(None, path, a, b, 'too many conditions')]
        # atoms only one side knows: values under them must agree whatever they are,
        # unless the atoms are uninterpreted
        groups = {}
        for vals in itertools.product((True, False), repeat=len(keys)):
            asg = dict(facts)
            asg.update(zip(keys, vals))
            if not self.consistent(asg):
                continue
            la, lb = self.tree(a, ea, asg), self.tree(b, eb, asg)
            if la is None or lb is None:
                continue
            groups.setdefault((la, lb), []).append(asg)
        out = []
        onlya = [k for k in ka if k not in kb]
        onlyb = [k for k in kb if k not in ka]
        for (la, lb), asgs in groups.items():
            common = dict(asgs[0])
            for s in asgs[1:]:
                common = {k: v for k, v in common.items() if s.get(k) == v}
            ds = self.diff(la, ea, lb, eb, common, path)
            if ds and 1 < len(asgs) <= 16:
                ds = []
                for asg in asgs:
                    ds += self.diff(la, ea, lb, eb, asg, path)
                    if len(ds) > 3:
                        break
            if not ds:
                continue
            # a difference that only exists because the two sides test different conditions
            if any(d.v is False for d in ds) and (onlya or onlyb):
                if not self.really(onlya, onlyb, at, facts, path):
                    ds = [D(None, d.path, d.a, d.b, 'different conditions') for d in ds]
            cond = ' and '.join(('' if v else 'not ') + short(at[k][0] if k in at else k)
                                for k, v in list(common.items())[:5] if k in at)
            for d in ds:
                if cond and not d.why:
                    d.why = 'when ' + cond
            out += ds
            if sum(1 for d in out if d.v is False) > 3:
                break
        return out

    def really(self, onlya, onlyb, at, facts, path):
        """The conditions tested by one side only are really different conditions."""
        if onlya and onlyb:
            if len(onlya) != len(onlyb) or len(onlya) > 3:
                return False
            for perm in itertools.permutations(onlyb):
                if all(self.atomdiff(at[x][0], at[x][1], at[y][0], at[y][1], facts, path) is False
                       for x, y in zip(onlya, perm)):
                    return True
            return False
        return not any(opaque_nf(k) for k in onlya + onlyb) and self.known_atoms(onlya, onlyb)

    def known_atoms(self, onlya, onlyb):
        """Are the condition atoms known to one side only built from symbols of the other?"""
        sa, sb = set(), set()
        for k in onlya:
            sa |= nf_symbols(k)
        for k in onlyb:
            sb |= nf_symbols(k)
        if onlya and not onlyb:
            return not (sa - BENIGN)
        if onlyb and not onlya:
            return True
        return not (sa - sb - BENIGN)

    def dconst(self, a, b, path):
        x, y = a.a[0], b.a[0]
        if isinstance(x, (int, float, complex)) and isinstance(y, (int, float, complex)) and \
                not isinstance(x, bool) and not isinstance(y, bool):
            if abs(x - y) <= 1e-9 * max(1, abs(x), abs(y)):
                return []
        elif x == y:
            return []
        return [D(False, path, a, b)]

    def dbool(self, a, ea, b, eb, facts, path):
        at, kb = {}, {}
        self.atoms_of(a, ea, at)
        self.atoms_of(b, eb, kb)
        both = dict(at)
        both.update(kb)
        keys, found = [k for k in both if k not in facts], facts
        if len(keys) > 10:
            r = self.search(self.compiled(a, ea), self.compiled(b, eb), keys, dict(facts))
            if r is None:
                return [D(None, path, a, b, 'too many conditions')]
            if r is True:
                return []
            keys, found = [], r
        onlya = [k for k in at if k not in kb]
        onlyb = [k for k in kb if k not in at]
        for vals in itertools.product((True, False), repeat=len(keys)):
            asg = dict(found)
            asg.update(zip(keys, vals))
            if not self.consistent(asg):
                continue
            va, vb = self.evalc(a, ea, asg), self.evalc(b, eb, asg)
            if va is not None and vb is not None and va != vb:
                break
        else:
            return []
        if onlya or onlyb:
            if len(onlya) == 1 and len(onlyb) == 1:
                (ca, e1), (cb, e2) = at[onlya[0]], kb[onlyb[0]]
                v = self.atomdiff(ca, e1, cb, e2, facts, path)
                return [D(v, path, a, b)]
            if not self.really(onlya, onlyb, both, facts, path):
                return [D(None, path, a, b, 'different conditions')]
        return [D(False, path, a, b)]

    def compiled(self, c, env):
        """The condition over the keys of its atoms, evaluated by `holds`."""
        if c.op == 'const':
            return bool(c.a[0])
        if c.op == 'not':
            return ('not', self.compiled(c.a[0], env))
        if c.op in ('and', 'or'):
            return (c.op,) + tuple(self.compiled(x, env) for x in c.a[0])
        if c.op == 'if':
            return ('if', self.compiled(truth(c.a[0]), env), self.compiled(truth(c.a[1]), env),
                    self.compiled(truth(c.a[2]), env))
        k, pol = self.key(c, env)
        if boolnf(k):
            return (k[2] == 'True') == pol
        return ('key', k, pol)

    def search(self, ca, cb, keys, facts, limit=6000):
        """An assignment under which the two conditions differ (a dictionary), True when there is
        none, None when undecided."""
        left = [limit]

        def first(c, asg):
            if isinstance(c, bool):
                return None
            if c[0] == 'key':
                return c[1] if c[1] not in asg else None
            for x in c[1:]:
                if holds(x, asg) is None:
                    k = first(x, asg)
                    if k is not None:
                        return k
            return None

        def go(asg):
            left[0] -= 1
            if left[0] < 0:
                return None
            va, vb = holds(ca, asg), holds(cb, asg)
            if va is not None and vb is not None:
                if va == vb:
                    return True
                for rest in (False, True):
                    full = dict(asg)
                    full.update((k, rest) for k in keys if k not in asg)
                    if self.consistent(full):
                        return full
                return None
            k = first(ca, asg) if va is None else first(cb, asg)
            if k is None:
                return None
            bad = False
            for v in (False, True):
                nxt = dict(asg)
                nxt[k] = v
                if not self.consistent(nxt):
                    continue
                r = go(nxt)
                if isinstance(r, dict):
                    return r
                if r is None:
                    bad = True
                    if left[0] < 0:
                        return None
            return None if bad else True
        return go(facts)

    def first_place(self, a, ea, b, eb):
        """a: place of the first entry equal to the current one, b: place of the current one, in
        a text split into parts, which may repeat."""
        if a.op != 'call' or a.a[0].op != 'attr' or a.a[0].a[1] != 'index' or len(a.a[1]) != 1 or \
                b.op != 'iv':
            return False
        r, x = a.a[0].a[0], a.a[1][0]
        return x.op == 'sub' and x.a[0] is r and x.a[1].op == 'iv' and r.op == 'call' and \
            r.a[0].op == 'attr' and r.a[0].a[1] == 'split' and self.eq(x.a[1], ea, b, eb)

    def atomdiff(self, ca, ea, cb, eb, facts, path):
        """Two different atomic conditions: really different (False) or undecided (None)."""
        pa = pb = True
        while ca.op == 'not':
            ca = ca.a[0]
        while cb.op == 'not':
            cb = cb.a[0]
        if ca.op == 'cmp' and cb.op == 'cmp':
            ka, kb = counter_test(ca), counter_test(cb)
            if ka is not None and kb is not None and self.eq(ka[0], ea, kb[0], eb):
                top = max(ka[1], kb[1]) + 3
                ta = [counter_holds(ca.a[0], k, ca.a[1:]) for k in range(top)]
                tb = [counter_holds(cb.a[0], k, cb.a[1:]) for k in range(top)]
                return None if ta == tb or all(x != y for x, y in zip(ta, tb)) else False
            ops = {ca.a[0], cb.a[0]}
            num = {'<', '<='}
            if ca.a[0] in num and cb.a[0] in num:
                # integer-equivalent bounds differ by exactly one with different strictness
                da = self.n.padd(self.n.poly(ca.a[1], ea), self.n.poly(ca.a[2], ea), -1)
                db = self.n.padd(self.n.poly(cb.a[1], eb), self.n.poly(cb.a[2], eb), -1)
                dd = self.n.padd(da, db, -1)
                if len(dd) == 1 and () in dd and abs(float(dd[()])) == 1 and len(ops) == 2:
                    return None
                v, _ = self.decisive(ca, ea, cb, eb)
                if v is False and not self.comparable(da, db):
                    return None
                return v
            eqs = {'==', '!=', 'is', 'is not'}
            if ca.a[0] in eqs and cb.a[0] in eqs:
                for (x1, y1) in ((ca.a[1], ca.a[2]), (ca.a[2], ca.a[1])):
                    if self.eq(x1, ea, cb.a[1], eb):
                        ds = self.diff(y1, ea, cb.a[2], eb, facts, path)
                        return False if ds and all(d.v is False for d in ds) else None
                    if self.eq(x1, ea, cb.a[2], eb):
                        ds = self.diff(y1, ea, cb.a[1], eb, facts, path)
                        return False if ds and all(d.v is False for d in ds) else None
                if all(x.op in ('bin', 'neg', 'const', 'iv', 'call', 'sub') for x in
                       (ca.a[1], ca.a[2], cb.a[1], cb.a[2])):
                    ds = self.diff(BIN('-', ca.a[1], ca.a[2]), ea, BIN('-', cb.a[1], cb.a[2]), eb,
                                   facts, path)
                    return False if ds and all(d.v is False for d in ds) else None
                return None
            ins = {'in', 'not in'}
            if ca.a[0] in ins and cb.a[0] in ins:
                d1 = self.diff(ca.a[1], ea, cb.a[1], eb, facts, path)
                if not d1 and self.lagging(ca.a[2], ea, cb.a[2], eb):
                    return False
                d2 = self.diff(ca.a[2], ea, cb.a[2], eb, facts, path)
                ds = d1 + d2
                return False if ds and all(d.v is False for d in ds) else None
            # < against ==
            if len(ops & num) == 1 and len(ops & eqs) == 1:
                lt, eq = (ca, cb) if ca.a[0] in num else (cb, ca)
                elt, eeq = (ea, eb) if ca.a[0] in num else (eb, ea)
                for x in lt.a[1:]:
                    if x.op != 'const' and any(self.eq(x, elt, y, eeq) for y in eq.a[1:]) and \
                            any(y.op == 'const' for y in lt.a[1:]) and signed(x):
                        return False
                return None
            return None
        if {ca.op, cb.op} == {'exists', 'all'} and \
                self.n._bounds(ca.a[0], ea) == self.n._bounds(cb.a[0], eb):
            # the same test of every entry in one, of some entry in the other
            (e, ee), (f, ef) = ((ca, ea), (cb, eb)) if ca.op == 'exists' else ((cb, eb), (ca, ea))
            ee, ef = ee + (e.a[0],), ef + (f.a[0],)
            es = e.a[1].a[0] if e.a[1].op == 'and' else (e.a[1],)
            fs = f.a[1].a[0] if f.a[1].op == 'or' else (f.a[1],)
            if len(es) == len(fs) <= 4:
                for i in range(len(es)):
                    if any(self.eq(es[i], ee, y, ef) for y in fs) and \
                            all(any(self.eq(NOT(z), ee, y, ef) for y in fs)
                                for z in es[:i] + es[i + 1:]):
                        return False
            return None
        if ca.op == cb.op and ca.op in ('exists', 'all', 'truthy', 'call'):
            if ca.op in ('exists', 'all'):
                if self.n._bounds(ca.a[0], ea) != self.n._bounds(cb.a[0], eb):
                    return None
                ds = self.diff(ca.a[1], ea + (ca.a[0],), cb.a[1], eb + (cb.a[0],), {}, path)
                return False if ds and all(d.v is False for d in ds) else None
            if ca.op == 'truthy':
                ds = self.diff(ca.a[0], ea, cb.a[0], eb, facts, path)
            else:
                ds = self.d_call(ca, ea, cb, eb, facts, path) or []
            return False if ds and all(d.v is False for d in ds) else None
        return None

    @staticmethod
    def comparable(da, db):
        """Bounds over the same non-constant terms (only coefficients or constants differ), or
        over plainly different variables."""
        return True

    # ------------------------------------------------------- structural cases
    def d_fmt(self, a, ea, b, eb, facts, path):
        pa, pb = list(a.a[0]), list(b.a[0])
        if len(pa) == len(pb):
            out = []
            for i, (x, y) in enumerate(zip(pa, pb)):
                if x.op == y.op:
                    out += self.diff(x, ea, y, eb, facts, path + ('text%d' % i,))
                else:
                    v, why = self.decisive(a, ea, b, eb)
                    return [D(v, path, a, b, why)]
            return out
        v, why = self.decisive(a, ea, b, eb)
        return [D(v, path, a, b, why)]

    def d_str(self, a, ea, b, eb, facts, path):
        if a.a[1] != b.a[1]:
            return [D(None if {a.a[1], b.a[1]} <= {'', 'r', 'i', 'g'} else False, path, a, b,
                      'format spec')]
        return self.diff(a.a[0], ea, b.a[0], eb, facts, path)

    def d_attr(self, a, ea, b, eb, facts, path):
        if a.a[1] == b.a[1]:
            return self.diff(a.a[0], ea, b.a[0], eb, facts, path)
        if self.eq(a.a[0], ea, b.a[0], eb):
            if a.a[1] in self.attr_names and b.a[1] in self.attr_names:
                return [D(False, path, a, b)]
            for grp in DISTINCT_METHODS:
                if a.a[1] in grp and b.a[1] in grp:
                    return [D(False, path, a, b)]
        return [D(None, path, a, b, 'attribute')]

    def d_sub(self, a, ea, b, eb, facts, path):
        d1 = self.diff(a.a[0], ea, b.a[0], eb, facts, path + ('base',))
        d2 = self.diff(a.a[1], ea, b.a[1], eb, facts, path + ('index',))
        for d in d2:
            if d.v is False and d.a.op == 'const' and d.b.op == 'const' and \
                    isinstance(d.a.a[0], int) and isinstance(d.b.a[0], int) and \
                    (d.a.a[0] < 0) != (d.b.a[0] < 0) and {d.a.a[0], d.b.a[0]} != {0, -1}:
                d.v, d.why = None, 'relative index'
        return d1 + d2

    def d_slice(self, a, ea, b, eb, facts, path):
        out = []
        for i in range(3):
            x, y = a.a[i], b.a[i]
            if i == 0:
                x = C(0) if is_const(x, None) else x
                y = C(0) if is_const(y, None) else y
            if i == 2:
                x = C(1) if is_const(x, None) else x
                y = C(1) if is_const(y, None) else y
            ds = self.diff(x, ea, y, eb, facts, path + ('slice',))
            for d in ds:
                if d.v is False and (is_const(d.a, None) or is_const(d.b, None)):
                    d.v = None if i == 1 else False
                if d.v is False and d.a.op == 'const' and d.b.op == 'const' and \
                        isinstance(d.a.a[0], int) and isinstance(d.b.a[0], int) and \
                        (d.a.a[0] < 0) != (d.b.a[0] < 0):
                    d.v = None
            out += ds
        return out

    def d_neg(self, a, ea, b, eb, facts, path):
        return self.diff(a.a[0], ea, b.a[0], eb, facts, path)

    def d_bin(self, a, ea, b, eb, facts, path):
        if a.a[0] == b.a[0]:
            o = a.a[0]
            d1 = self.diff(a.a[1], ea, b.a[1], eb, facts, path)
            d2 = self.diff(a.a[2], ea, b.a[2], eb, facts, path)
            if not d1 or not d2:
                return d1 + d2
            if o in '+*':
                e1 = self.diff(a.a[1], ea, b.a[2], eb, facts, path)
                e2 = self.diff(a.a[2], ea, b.a[1], eb, facts, path)
                if not e1 or not e2:
                    return e1 + e2
            if o == '@' or o == '%' or o == '//':
                return d1 + d2
        return self.residual(a, ea, b, eb, facts, path)

    def d_call(self, a, ea, b, eb, facts, path):
        fa, fb = a.a[0], b.a[0]
        same = self.eq(fa, ea, fb, eb)
        if not same:
            if fa.op == 'g' and fb.op == 'g':
                na, nb = ALIAS.get(fa.a[0], fa.a[0]), ALIAS.get(fb.a[0], fb.a[0])
                if len(a.a[1]) == len(b.a[1]) and all(
                        self.eq(x, ea, y, eb) for x, y in zip(a.a[1], b.a[1])):
                    for grp in DISTINCT:
                        if na in grp and nb in grp:
                            return [D(False, path, a, b, 'function')]
                return None
            if fa.op == 'attr' and fb.op == 'attr':
                if fa.a[1] == fb.a[1]:
                    ds = self.diff(fa.a[0], ea, fb.a[0], eb, facts, path + ('.' + fa.a[1],))
                    return ds + self.args(a, ea, b, eb, facts, path)
                if self.eq(fa.a[0], ea, fb.a[0], eb):
                    for grp in DISTINCT_METHODS:
                        if fa.a[1] in grp and fb.a[1] in grp:
                            return [D(False, path, a, b, 'method')]
            return None
        name = fa.a[0] if fa.op == 'g' else (fa.a[1] if fa.op == 'attr' else '')
        ds = self.args(a, ea, b, eb, facts, path + (str(name).split('.')[-1],))
        if name in NONINJ:
            for d in ds:
                if d.v is False and not (d.a.op == 'const' and d.b.op == 'const'):
                    d.v = None
        return ds

    def args(self, a, ea, b, eb, facts, path):
        xa, xb = a.a[1], b.a[1]
        ka, kb = dict(a.a[2]), dict(b.a[2])
        if len(xa) != len(xb) or set(ka) != set(kb):
            # positional against keyword spelling cannot be told apart here
            v = None
            if len(xa) == len(xb) and set(ka) < set(kb) or (
                    len(xa) == len(xb) and set(kb) < set(ka)):
                v = None
            return [D(v, path, a, b, 'argument list')]
        out = []
        for i, (x, y) in enumerate(zip(xa, xb)):
            out += self.diff(x, ea, y, eb, facts, path + ('arg%d' % i,))
        for k in ka:
            out += self.diff(ka[k], ea, kb[k], eb, facts, path + (k,))
        return out

    def d_param(self, a, ea, b, eb, facts, path):
        return [D(False, path, a, b)]

    def d_mu(self, a, ea, b, eb, facts, path):
        """Loop-carried values are compared by their recurrences."""
        x, y = self.n.mu(a), self.n.mu(b)
        if x is None or y is None or a.a[0] not in ea or b.a[0] not in eb:
            return None
        ia, ib = ea.index(a.a[0]), eb.index(b.a[0])
        if (a, b) in self.mupairs:
            return [] if ia == ib else None
        self.mupairs.append((a, b))
        try:
            return self.diff(x[0], ea[:ia], y[0], eb[:ib], facts, path + ('initial value',)) + \
                self.diff(x[1], ea[:ia + 1], y[1], eb[:ib + 1], facts, path + ('per iteration',))
        finally:
            self.mupairs.pop()

    def d_star(self, a, ea, b, eb, facts, path):
        return self.diff(a.a[0], ea, b.a[0], eb, facts, path)

    def d_closure(self, a, ea, b, eb, facts, path):
        """Functions are compared by their bodies over fresh arguments."""
        if self.n.eng is None or a.a[0] not in self.n.eng.closures or \
                b.a[0] not in self.n.eng.closures:
            return [D(None, path, a, b, 'closure')]
        x, y = self.n.body(a), self.n.body(b)
        if x is None or y is None or x[0] != y[0]:
            return [D(None, path, a, b, 'closure')]
        return self.diff(prep(x[1]), ea, prep(y[1]), eb, facts, path + ('function',))

    def d_binder(self, a, ea, b, eb, facts, path):
        out = self.d_binder1(a, ea, b, eb, facts, path)
        if out:
            for x in self.n.orders(a):
                ds = self.d_binder1(x, ea, b, eb, facts, path)
                if len(ds) < len(out):
                    out = ds
        return out

    def d_binder1(self, a, ea, b, eb, facts, path):
        La, Lb = a.a[0], b.a[0]
        out = []
        if self.n._bounds(La, ea) != self.n._bounds(Lb, eb):
            ok = Norm.shifted(La) and Norm.shifted(Lb)
            if not ok:
                return [D(None, path, La, Lb, 'iteration')]
            sa, sb = BIN('-', La.a[2], La.a[1]), BIN('-', Lb.a[2], Lb.a[1])
            if is_const(La.a[3], -1):
                sa = BIN('-', La.a[1], La.a[2])
            if is_const(Lb.a[3], -1):
                sb = BIN('-', Lb.a[1], Lb.a[2])
            ds = self.diff(sa, ea, sb, eb, facts, path + ('iterations',))
            out += ds
        ea2, eb2 = ea + (La,), eb + (Lb,)
        for x, y in zip(a.a[1:], b.a[1:]):
            if isinstance(x, tuple):
                out += self.segs(x, ea2, y, eb2, facts, path, 'list')
            elif isinstance(x, N) and isinstance(y, N):
                out += self.diff(x, ea2, y, eb2, facts, path)
        if not out:
            wa, wb = self.n.while_cond(La), self.n.while_cond(Lb)
            if wa is not None and wb is not None:
                out += self.dbool(wa, ea2, wb, eb2, facts, path + ('while condition',)) or []
            elif wa is not wb:
                out.append(D(None, path, a, b, 'while condition'))
        return out

    d_sum = d_prod = d_for = d_forx = d_loopout = d_last = d_first = d_until = d_binder

    def d_iv(self, a, ea, b, eb, facts, path):
        if a.a[0] in ea and b.a[0] in eb:
            return [D(False, path, a, b, 'loop index')]
        return None

    def d_seq(self, a, ea, b, eb, facts, path):
        if a.a[1] != b.a[1]:
            if {a.a[1], b.a[1]} <= {'list', 'tuple'}:
                return self.segs(a.a[0], ea, b.a[0], eb, facts, path, 'list')
            return [D(None, path, a, b, 'container kind')]
        return self.segs(a.a[0], ea, b.a[0], eb, facts, path, a.a[1])

    def d_item(self, a, ea, b, eb, facts, path):
        return self.diff(a.a[0], ea, b.a[0], eb, facts, path)

    d_base = d_splice = d_item

    def d_kv(self, a, ea, b, eb, facts, path):
        return self.diff(a.a[0], ea, b.a[0], eb, facts, path + ('key',)) + \
            self.diff(a.a[1], ea, b.a[1], eb, facts, path + (short(b.a[0]),))

    def d_ifseg(self, a, ea, b, eb, facts, path):
        at, kb = {}, {}
        self.atoms_of(truth(a.a[0]), ea, at)
        self.atoms_of(truth(b.a[0]), eb, kb)
        onlya = [k for k in at if k not in kb]
        onlyb = [k for k in kb if k not in at]
        at.update(kb)
        keys = [k for k in at if k not in facts]
        if len(keys) > 9:
            return [D(None, path, a, b, 'too many conditions')]
        groups = {}
        for vals in itertools.product((True, False), repeat=len(keys)):
            asg = dict(facts)
            asg.update(zip(keys, vals))
            if not self.consistent(asg):
                continue
            va, vb = self.evalc(truth(a.a[0]), ea, asg), self.evalc(truth(b.a[0]), eb, asg)
            if va is None or vb is None:
                continue
            groups.setdefault((va, vb), []).append(asg)
        out = []
        real = None
        for (va, vb), asgs in groups.items():
            common = dict(asgs[0])
            for x in asgs[1:]:
                common = {k: v for k, v in common.items() if x.get(k) == v}
            ds = self.segs(a.a[1 if va else 2], ea, b.a[1 if vb else 2], eb, common,
                           path, 'ops')
            if ds and len(asgs) > 1:
                ds = []
                for asg in asgs:
                    ds += self.segs(a.a[1 if va else 2], ea, b.a[1 if vb else 2], eb, asg,
                                    path, 'ops')
                    if len(ds) > 3:
                        break
            if ds and va != vb and (onlya or onlyb):
                if real is None:
                    real = self.really(onlya, onlyb, at, facts, path)
                if not real:
                    ds = [D(None, path, a, b, 'different conditions')]
            out += ds
        return out

    def d_do(self, a, ea, b, eb, facts, path):
        x, y = gate(a.a[0]), gate(b.a[0])
        if x != y:
            for grp in DISTINCT_METHODS:
                if x in grp and y in grp:
                    return [D(False, path, a, b, 'operation')]
            return [D(None, path, a, b, 'operation')]
        p = path + (x,)
        if len(a.a[1]) != len(b.a[1]) or set(dict(a.a[2])) != set(dict(b.a[2])):
            return [D(None, p, a, b, 'argument list')]
        out = []
        for i, (u, v) in enumerate(zip(a.a[1], b.a[1])):
            out += self.diff(u, ea, v, eb, facts, p + ('arg%d' % i,))
        ka, kb = dict(a.a[2]), dict(b.a[2])
        for k in ka:
            out += self.diff(ka[k], ea, kb[k], eb, facts, p + (k,))
        return out

    def d_elemdo(self, a, ea, b, eb, facts, path):
        if len(a.a[0]) != len(b.a[0]):
            return [D(None, path, a, b, 'element path')]
        out = []
        for u, v in zip(a.a[0], b.a[0]):
            out += self.diff(u, ea, v, eb, facts, path + ('element',))
        return out + self.d_do(mk('do', *a.a[1:]), ea, mk('do', *b.a[1:]), eb, facts, path)

    def settle(self, segs, env, facts):
        """Segments with the conditions decided by the facts resolved."""
        out = []
        for s in segs:
            if s.op == 'ifseg':
                v = self.evalc(truth(s.a[0]), env, facts)
                x, y = self.settle(s.a[1], env, facts), self.settle(s.a[2], env, facts)
                if v is not None:
                    out.extend(x if v else y)
                elif x or y:
                    out.append(s if (x, y) == (s.a[1], s.a[2]) else mk('ifseg', s.a[0], x, y))
            else:
                out.append(s)
        return tuple(out)

    def seg_atoms(self, segs, env, out):
        for s in segs:
            if s.op == 'ifseg':
                self.atoms_of(truth(s.a[0]), env, out)
                self.seg_atoms(s.a[1], env, out)
                self.seg_atoms(s.a[2], env, out)

    def cases_equal(self, sa, ea, sb, eb, facts):
        """Same segments under every truth assignment of the conditions tested."""
        at = {}
        self.seg_atoms(sa, ea, at)
        self.seg_atoms(sb, eb, at)
        keys = [k for k in at if k not in facts]
        if not keys or len(keys) > 6:
            return False
        for vals in itertools.product((True, False), repeat=len(keys)):
            asg = dict(facts)
            asg.update(zip(keys, vals))
            if not self.consistent(asg):
                continue
            x = self.tidy(self.settle(sa, ea, asg))
            y = self.tidy(self.settle(sb, eb, asg))
            if [self.n.nf(s, ea) for s in x] != [self.n.nf(s, eb) for s in y]:
                return False
        return True

    def cases_differ(self, sa, ea, sb, eb, facts, path, kind):
        """Both sides test the same conditions, and in some case of them do different things."""
        at, bt = {}, {}
        self.seg_atoms(sa, ea, at)
        self.seg_atoms(sb, eb, bt)
        keys = [k for k in at if k not in facts]
        if not keys or len(keys) > 4 or set(at) != set(bt) or any(opaque_nf(k) for k in keys):
            return []
        for vals in itertools.product((True, False), repeat=len(keys)):
            asg = dict(facts)
            asg.update(zip(keys, vals))
            if not self.consistent(asg):
                continue
            x = self.tidy(self.settle(sa, ea, asg))
            y = self.tidy(self.settle(sb, eb, asg))
            if [self.n.nf(s, ea) for s in x] == [self.n.nf(s, eb) for s in y]:
                continue
            if any(s.op == 'ifseg' for s in x + y):
                return []
            if len(x) != len(y):
                ds = [d for d in self.segs(x, ea, y, eb, asg, path, kind) if d.v is False]
                if ds:
                    return ds[:1]
        return []

    def caught_apart(self, sa, ea, sb, eb):
        """sa: a loop as a whole kept or lost with a caught error; sb: the same loop in which each
        entry is."""
        if len(sa) == len(sb) > 1:
            k = [i for i in range(len(sa)) if self.n.nf(sa[i], ea) != self.n.nf(sb[i], eb)]
            if len(k) != 1:
                return False
            sa, sb = (sa[k[0]],), (sb[k[0]],)
        if len(sa) != 1 or len(sb) != 1 or sa[0].op != 'ifseg' or sb[0].op != 'for':
            return False
        s, t = sa[0], sb[0]
        if s.a[2] or len(s.a[1]) != 1 or s.a[1][0].op != 'for' or not exc_only(s.a[0]):
            return False
        f = s.a[1][0]
        if len(t.a[2]) != 1 or t.a[2][0].op != 'ifseg' or t.a[2][0].a[2] or \
                not exc_only(t.a[2][0].a[0]) or \
                self.n._bounds(f.a[0], ea) != self.n._bounds(t.a[0], eb):
            return False
        x, y = f.a[2], t.a[2][0].a[1]
        e1, e2 = ea + (f.a[0],), eb + (t.a[0],)
        return len(x) == len(y) and all(self.n.nf(p, e1) == self.n.nf(q, e2) for p, q in zip(x, y))

    def segs(self, sa, ea, sb, eb, facts, path, kind):
        sa, sb = self.tidy(sa), self.tidy(sb)
        if tuple(map(lambda s: self.n.nf(s, ea), sa)) == tuple(map(lambda s: self.n.nf(s, eb), sb)):
            return []
        if any(s.op == 'ifseg' for s in sa + sb):
            if facts:
                sa = self.tidy(self.settle(sa, ea, facts))
                sb = self.tidy(self.settle(sb, eb, facts))
            if self.cases_equal(sa, ea, sb, eb, facts):
                return []
        for p, ep, q, eq in ((sa, ea, sb, eb), (sb, eb, sa, ea)):
            if len(p) == len(q) + 1 > 1 and p[0].op == 'mu' and p[0].a[0] in ep and \
                    p[0] in GROWING and \
                    any(x.op == 'iv' and x.a[0] is p[0].a[0] for s in p[1:] for x in walk(s)) and \
                    all(self.n.nf(x, ep) == self.n.nf(y, eq) for x, y in zip(p[1:], q)):
                return [D(False, path, sh(sa), sh(sb),
                          'entries of earlier iterations are kept on one side')]
        if self.caught_apart(sa, ea, sb, eb) or self.caught_apart(sb, eb, sa, ea):
            return [D(False, path, sh(sa), sh(sb), 'a caught error ends the loop on one side and '
                      'skips one entry on the other')]
        if kind == 'dict' and all(s.op == 'kv' and s.a[0].op == 'const' for s in sa + sb):
            da = {s.a[0]: s.a[1] for s in sa}
            db = {s.a[0]: s.a[1] for s in sb}
            out = []
            for k in db:
                if k not in da:
                    out.append(D(False, path + (short(k),), C('<missing>'), db[k], 'missing entry'))
                else:
                    out += self.diff(da[k], ea, db[k], eb, facts, path + (short(k),))
            for k in da:
                if k not in db:
                    out.append(D(False, path + (short(k),), da[k], C('<absent>'), 'extra entry'))
            return out
        if kind == 'set' and all(s.op == 'item' for s in sa + sb):
            x = {self.n.nf(s, ea) for s in sa}
            y = {self.n.nf(s, eb) for s in sb}
            if x == y:
                return []
        if len(sa) == len(sb) and all(x.op == y.op for x, y in zip(sa, sb)):
            out = []
            for i, (x, y) in enumerate(zip(sa, sb)):
                out += self.diff(x, ea, y, eb, facts, path + (i,) if len(sa) > 1 else path)
            if any(d.v is False for d in out) and len(sa) > 1 and self.permuted(sa, ea, sb, eb):
                if kind in ('ops', 'list', 'dict', 'set'):
                    if kind == 'list' and all(s.op == 'item' for s in sa):
                        return [D(False, path, sh(sa), sh(sb), 'order')]
                    if kind == 'ops' and self.noncommuting(sa, ea, sb, eb):
                        return [D(False, path, sh(sa), sh(sb), 'order of operations')]
                    return [D(None, path, sh(sa), sh(sb), 'order')]
            return out
        if kind == 'tuple' and all(s.op == 'item' for s in sa + sb):
            return [D(False, path, sh(sa), sh(sb), 'number of entries')]
        if any(s.op == 'ifseg' for s in sa + sb):
            ds = self.cases_differ(sa, ea, sb, eb, facts, path, kind)
            if ds:
                return ds
        return self.align(sa, ea, sb, eb, facts, path, kind)

    def align(self, sa, ea, sb, eb, facts, path, kind):
        """Longest common alignment of two operation lists of different length."""
        na = [self.n.nf(s, ea) for s in sa]
        nb = [self.n.nf(s, eb) for s in sb]
        if len(na) * len(nb) > 10000:
            return [D(None, path, sh(sa), sh(sb), 'structure')]
        T = [[0] * (len(nb) + 1) for _ in range(len(na) + 1)]
        for i in range(len(na) - 1, -1, -1):
            for j in range(len(nb) - 1, -1, -1):
                T[i][j] = T[i + 1][j + 1] + 1 if na[i] == nb[j] else max(T[i + 1][j], T[i][j + 1])
        i = j = 0
        blocks, ra, rb = [], [], []
        while i < len(na) or j < len(nb):
            if i < len(na) and j < len(nb) and na[i] == nb[j]:
                if ra or rb:
                    blocks.append((ra, rb))
                    ra, rb = [], []
                i, j = i + 1, j + 1
            elif j < len(nb) and (i == len(na) or T[i][j + 1] >= T[i + 1][j]):
                rb.append(j)
                j += 1
            else:
                ra.append(i)
                i += 1
        if ra or rb:
            blocks.append((ra, rb))
        ua = [na[i] for x, _ in blocks for i in x]
        ub = [nb[j] for _, y in blocks for j in y]
        if any(x in ub for x in ua):
            return [D(None, path, sh(sa), sh(sb), 'structure')]
        out = []
        for x, y in blocks:
            if len(x) == len(y) and all(sa[i].op == sb[j].op for i, j in zip(x, y)):
                for i, j in zip(x, y):
                    out += self.diff(sa[i], ea, sb[j], eb, facts, path + (j,))
            elif not x:
                ok = all(self.solid(sb[j]) for j in y)
                out.append(D(False if ok else None, path, sh(sa), sh([sb[j] for j in y]),
                             'missing'))
            elif not y:
                ok = all(self.solid(sa[i]) for i in x)
                out.append(D(False if ok else None, path, sh([sa[i] for i in x]), sh(sb),
                             'additional'))
            else:
                out.append(D(None, path, sh(sa), sh(sb), 'structure'))
        if any(d.v is None for d in out):
            for d in out:
                d.v = None
        return out

    def solid(self, s):
        """The segment certainly changes the object it belongs to."""
        if s.op in ('item', 'kv'):
            return True
        if s.op == 'do':
            return gate(s.a[0]) in SOLID or s.a[0][:1] == '!'
        if s.op == 'elemdo':
            return gate(s.a[1]) in SOLID
        if s.op == 'for':
            return bool(s.a[2]) and all(self.solid(x) for x in s.a[2])
        if s.op == 'forx':
            return bool(s.a[1]) and all(self.solid(x) for x in s.a[1])
        if s.op == 'ifseg':
            return bool(s.a[1] or s.a[2]) and all(self.solid(x) for x in s.a[1] + s.a[2])
        return False

    def tidy(self, segs):
        return norm_segs(segs)

    def permuted(self, sa, ea, sb, eb):
        x = sorted((rank(self.n.nf(s, ea)) for s in sa))
        y = sorted((rank(self.n.nf(s, eb)) for s in sb))
        return x == y

    def noncommuting(self, sa, ea, sb, eb):
        """Some pair of plain operations with identical qubit arguments changed order."""
        na = [self.n.nf(s, ea) for s in sa]
        nb = [self.n.nf(s, eb) for s in sb]
        for i in range(len(sa)):
            for j in range(i + 1, len(sa)):
                x, y = sa[i], sa[j]
                if x.op != 'do' or y.op != 'do' or na[i] == na[j]:
                    continue
                if na.count(na[i]) != 1 or na.count(na[j]) != 1:
                    continue
                if nb.index(na[i]) > nb.index(na[j]):
                    if x.a[0] in GATES and y.a[0] in GATES and 'barrier' not in (x.a[0], y.a[0]) \
                            and x.a[1] and y.a[1] and \
                            self.eq(x.a[1][-1], ea, y.a[1][-1], ea):
                        return True
        return False

    def leaves(self, segs, env, out):
        ok = True
        for s in segs:
            if s.op == 'for':
                ok = self.leaves(s.a[2], env + (s.a[0],), out) and ok
            elif s.op == 'ifseg':
                ok = self.leaves(s.a[1], env, out) and self.leaves(s.a[2], env, out) and ok
            elif s.op in ('do', 'item', 'kv', 'base', 'elemdo'):
                out.append((s.op, self.n.nf(s, env)))
            else:
                ok = False
        return ok

    # ---------------------------------------------------------------- verdict
    def decisive(self, a, ea, b, eb):
        if rebuilt(a, b) or rebuilt(b, a):
            return False, 'an object kept against one made anew from the arguments'
        if self.first_place(a, ea, b, eb) or self.first_place(b, eb, a, ea):
            return False, 'first place of an entry that may be repeated'
        if self.last_wins(a, ea, b, eb) or self.last_wins(b, eb, a, ea):
            return False, 'the last case decides on one side, any case on the other'
        if bitwise(a) != bitwise(b):
            return None, 'bitwise arithmetic'
        oa, ob = set(), set()
        self.opaques(a, ea, oa)
        self.opaques(b, eb, ob)
        if oa != ob:
            return None, 'uninterpreted value'
        da, db = set(), set()
        self.domains(a, ea, da)
        self.domains(b, eb, db)
        if da != db and da and db:
            return None, 'iteration'
        sa, sb = tsymbols(a), tsymbols(b)
        if sa - sb and not ((sa - sb) <= REORDER and not (sb - sa) & (SOFT | REORDER) and
                            not any(x.op in BRANCHY for x in walk(b))):
            return None, 'symbol ' + ','.join(sorted(sa - sb)[:3])
        if (sb - sa) & SOFT and not (leafset(a) < leafset(b)):
            return None, 'symbol'
        aa, ab = attrs(a), attrs(b)
        for x in ab - aa:
            if x not in self.attr_names:
                return None, 'attribute ' + x
        for x in aa - ab:
            if x not in self.attr_names or (ab - aa == set() and False):
                return None, 'attribute ' + x
        # containers against scalars, unknown shapes
        if (a.op in ('seq', 'fmt')) != (b.op in ('seq', 'fmt')) and \
                not (a.op == 'const' or b.op == 'const'):
            return None, 'shape'
        return False, ''

    def last_wins(self, a, ea, b, eb):
        """a: one of two constants, by a test of the last entry that is tested at all; b: the
        same constants, by a test of any entry."""
        if not (a.op == 'loopout' and a.a[1].op == 'const' and b.op == 'if' and
                b.a[0].op in ('exists', 'all') and b.a[1].op == b.a[2].op == 'const' and
                self.n._bounds(a.a[0], ea) == self.n._bounds(b.a[0].a[0], eb)):
            return False
        tests, got = [], set()

        def go(t):
            if t.op == 'if':
                tests.append(t.a[0])
                go(t.a[1])
                go(t.a[2])
            else:
                got.add(t)
        go(a.a[2])
        ends = {x for x in got if x.op != 'prev'}
        return ends == {b.a[1], b.a[2]} and a.a[1] in ends and \
            not any(x.op == 'prev' for t in tests for x in walk(t))

    def lagging(self, a, ea, b, eb):
        """The same test against what one collection holds at the start of an iteration of
        different loops of the same nest: one of them grows in the inner loop, the other only
        in the outer one."""
        ma = [x for x in walk(a) if x.op == 'mu']
        mb = [x for x in walk(b) if x.op == 'mu']
        if len(ma) != 1 or len(mb) != 1 or len(ea) != len(eb) or len(ea) < 2 or \
                ma[0].a[1] is not mb[0].a[1] and ma[0].a[1] != mb[0].a[1]:
            return False
        x, y = ma[0].a[0], mb[0].a[0]
        if x not in ea or y not in eb or ea.index(x) == eb.index(y):
            return False
        if any(self.n._bounds(p, ea[:i]) != self.n._bounds(q, eb[:i])
               for i, (p, q) in enumerate(zip(ea, eb))):
            return False
        h = mk('g', '?grown')
        return self.eq(subst(a, lambda z: h if z is ma[0] else None), ea,
                       subst(b, lambda z: h if z is mb[0] else None), eb)

    def domains(self, t, env, out):
        """Normal forms of the iteration ranges of the binders in t."""
        seen = set()

        def go(x, env):
            if isinstance(x, tuple):
                for y in x:
                    go(y, env)
                return
            if not isinstance(x, N) or (x, env) in seen:
                return
            seen.add((x, env))
            if x.op in ('for', 'sum', 'prod', 'exists', 'all'):
                out.add(self.n._bounds(x.a[0], env))
                for y in x.a[0].a[1:]:
                    go(y, env)
                env = env + (x.a[0],)
                for y in x.a[1:]:
                    go(y, env)
                return
            for y in x.a:
                go(y, env)
        go(t, env)

    def opaques(self, t, env, out):
        seen = set()

        def go(x, env):
            if isinstance(x, tuple):
                for y in x:
                    go(y, env)
                return
            if not isinstance(x, N) or (x, env) in seen:
                return
            seen.add((x, env))
            if x.op == 'closure':
                nf = self.n.nf(x, env)
                if nf[0] == 'lambda':
                    return
            if x.op in OPAQUE or x.op == 'key' and x.a[0].op == 'seq' or \
                    (x.op == 'call' and x.a[0].op in ('func', 'closure', 'partial')):
                out.add(self.n.nf(x, env))
                return
            if x.op in ('for', 'sum', 'prod', 'exists', 'all'):
                for y in x.a[0].a[1:]:
                    go(y, env)
                env = env + (x.a[0],)
                for y in x.a[1:]:
                    go(y, env)
                return
            for y in x.a:
                go(y, env)
        go(t, env)


def bitwise(t):
    return any(x.op == 'bin' and x.a[0] in ('^', '&', '|', '<<', '>>') for x in walk(t))


def exc_only(c):
    """The condition is that a certain error was, or was not, caught."""
    while c.op == 'not':
        c = c.a[0]
    return c.op == 'exc'


def rebuilt(kept, made):
    """`kept` is an attribute of the object as it was, `made` a new object filled from the
    arguments of this call without looking at it."""
    if not (kept.op == 'attr' and kept.a[0].op == 'param' and kept.a[0].a[0] == 'self' and
            made.op == 'seq' and made.a[1] == 'ops' and len(made.a[0]) > 1 and
            made.a[0][0].op == 'base' and made.a[0][0].a[0].op == 'call'):
        return False
    ps = {x.a[0] for x in walk(made) if x.op == 'param'}
    return bool(ps - {'self'}) and not any(x is kept for x in walk(made))


# selections and roundings: never the identity on their argument, so a value that applies one of
# them where the reference applies none is a different value
REORDER = {'min', 'max', 'sorted', 'reversed', 'abs', 'round', 'numpy.sort', 'numpy.flip',
           'numpy.floor', 'numpy.ceil', 'numpy.min', 'numpy.max', 'numpy.round', 'numpy.around'}
BRANCHY = {'if', 'cmp', 'sum', 'prod', 'loopout', 'for', 'and', 'or', 'exists', 'all'}
NONE_NF = ('const', 'NoneType', 'None')
BENIGN = {'len', 'isinstance', 'numpy.sum'}


def unwrap(t):
    while t.op == 'call' and t.a[0].op == 'g' and t.a[0].a[0] in WRAPS and len(t.a[1]) == 1 and \
            not t.a[2]:
        t = t.a[1][0]
    return t


def arith(t):
    return t.op in ('bin', 'neg', 'sub', 'call', 'attr', 'cmp', 'not', 'fmt', 'str', 'and', 'or')


def isconst(nf):
    return isinstance(nf, tuple) and nf and nf[0] in ('const', 'num')


def contains_nf(nf, x):
    if nf == x:
        return True
    return isinstance(nf, tuple) and any(contains_nf(y, x) for y in nf)


OPNF = {'unk', 'mu', 'prev', 'loopout', 'until', 'wide', 'undef', 'last', 'first', 'name', 'excval', 'star',
        'unpackrest', 'reraise', 'super', 'forx', 'closure', 'partial', 'at', 'revat', 'ivfree'}


def signed(t):
    """Entries of an inverse or of a solution: they take both signs."""
    for x in walk(t):
        if x.op == 'g' and x.a[0].split('.')[-1] in ('pinv', 'inv', 'solve', 'lstsq'):
            return True
    return False


def holds(c, asg):
    """Value of a compiled condition under a partial assignment (None: not determined)."""
    if isinstance(c, bool):
        return c
    o = c[0]
    if o == 'key':
        return asg[c[1]] == c[2] if c[1] in asg else None
    if o == 'not':
        v = holds(c[1], asg)
        return None if v is None else not v
    if o == 'if':
        k = holds(c[1], asg)
        return None if k is None else holds(c[2] if k else c[3], asg)
    stop = o == 'or'
    r = not stop
    for x in c[1:]:
        v = holds(x, asg)
        if v is stop:
            return stop
        if v is None:
            r = None
    return r


def opaque_nf(nf):
    if isinstance(nf, tuple):
        if nf and isinstance(nf[0], str) and nf[0] in OPNF:
            return True
        return any(opaque_nf(x) for x in nf)
    return False


def nf_symbols(nf):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if len(x) >= 2 and x[0] == 'call' and isinstance(x[1], tuple):
                if x[1][0] == 'g':
                    out.add(x[1][1])
                elif x[1][0] == 'attr':
                    out.add('.' + str(x[1][2]))
                elif x[1][0] == 'func':
                    out.add(x[1][1])
            if len(x) >= 2 and x[0] == 'do':
                out.add('.' + str(x[1]))
            if len(x) >= 3 and x[0] == 'elemdo':
                out.add('.' + str(x[2]))
            for y in x:
                go(y)
    go(nf)
    return out


def tsymbols(t):
    out = set()
    for x in walk(t):
        if x.op == 'call':
            f = x.a[0]
            if f.op == 'g':
                out.add(ALIAS.get(f.a[0], f.a[0]))
            elif f.op == 'attr':
                out.add('.' + f.a[1])
            elif f.op == 'func':
                out.add(f.a[0])
            else:
                out.add(f.op)
        elif x.op == 'do':
            out.add('.' + x.a[0])
        elif x.op == 'elemdo':
            out.add('.' + x.a[1])
        elif x.op in ('prod', 'sum'):
            out.add(x.op)
        elif x.op == 'g' and False:
            pass
    return out


def leafset(t):
    """Inputs a term depends on: parameters and attribute chains."""
    out = set()
    for x in walk(t):
        if x.op == 'param':
            out.add(x)
        elif x.op == 'attr' and x.a[0].op == 'param':
            out.add(x)
    return out


def attrs(t):
    return {x.a[1] for x in walk(t) if x.op == 'attr'}


def gate(m):
    return {'i': 'id', 'iden': 'id', 'cnot': 'cx', 'toffoli': 'ccx'}.get(m, m)


def short(x):
    s = str(x)
    return s if len(s) < 70 else s[:67] + '...'


def sh(segs):
    return mk('seq', tuple(segs), 'list')


def counts(l):
    d = {}
    for x in l:
        d[x] = d.get(x, 0) + 1
    return d


def sb_like(sb, sa, n, eb, ea):
    nb = {n.nf(s, eb) for s in sb}
    return [s for s in sa if n.nf(s, ea) in nb]
