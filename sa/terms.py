"""Hash-consed value-graph terms."""

_TABLE = {}


class N:
    __slots__ = ('op', 'a', 'refs', 'depth', '__weakref__')

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op,) + tuple((type(x).__name__, x) if not isinstance(x, (N, tuple)) else x for x in a)
    try:
        n = _TABLE.get(key)
    except TypeError:
        key = (op,) + tuple(repr(x) for x in a)
        n = _TABLE.get(key)
    if n is None:
        d = 1 + max([_dep(x) for x in a] or [0])
        if d > WIDEN and op not in ('ref', 'loop', 'iv'):
            n = mk('wide', len(_TABLE))
            _TABLE[key] = n
            return n
        n = N()
        n.op, n.a, n.depth = op, a, d
        n.refs = op == 'ref' or (op == 'closure' and len(a) == 1) or any(_has(x) for x in a)
        _TABLE[key] = n
    return n


WIDEN = 160      # value-graph depth bound; deeper values become opaque ('wide')


def _dep(x):
    if isinstance(x, N):
        return x.depth
    if isinstance(x, tuple):
        return max([_dep(y) for y in x] or [0])
    return 0


def _has(x):
    if isinstance(x, N):
        return x.refs
    if isinstance(x, tuple):
        return any(_has(y) for y in x)
    return False


def C(v):
    return mk('const', v)


TRUE, FALSE, NONE = C(True), C(False), C(None)
UNK = mk('unk')


def is_const(n, v=Ellipsis):
    if not isinstance(n, N) or n.op != 'const':
        return False
    return v is Ellipsis or (type(n.a[0]) is type(v) and n.a[0] == v)


def ext_name(name):
    """qiskit re-exports its names at several places: keep what follows the modules."""
    if name.startswith('qiskit.') and not name.startswith('qiskit.ignis'):
        parts = name.split('.')
        if len(parts) > 2:
            up = [i for i, x in enumerate(parts) if x[:1].isupper()]
            return '.'.join(['qiskit'] + parts[up[0] if up else -1:])
    return name


def g(name):
    return mk('g', ext_name(name))


def children(n):
    out = []

    def go(x):
        if isinstance(x, N):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
    for x in n.a:
        go(x)
    return out


def walk(n, seen=None):
    """All distinct sub-terms (DAG walk)."""
    seen = set() if seen is None else seen
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, N) or id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        st.extend(children(x))


def contains(n, pred):
    return any(pred(x) for x in walk(n))


def subst(n, f, memo=None):
    """Bottom-up rewriting: f(node) -> node or None (no change); top-down check first."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, N):
            return x
        if id(x) in memo:
            return memo[id(x)]
        r = f(x)
        if r is None:
            na = tuple(go(y) for y in x.a)
            r = x if all(p is q for p, q in zip(na, x.a)) else mk(x.op, *na)
        memo[id(x)] = r
        return r
    return go(n)


def show(n, depth=14):
    if isinstance(n, tuple):
        return '(' + ', '.join(show(x, depth) for x in n) + ')'
    if not isinstance(n, N):
        return repr(n)
    if depth <= 0:
        return '…'
    d = depth - 1
    o, a = n.op, n.a
    if o == 'const':
        return repr(a[0])
    if o == 'param':
        return '$' + a[0]
    if o == 'g':
        return a[0]
    if o == 'attr':
        return show(a[0], d) + '.' + a[1]
    if o == 'sub':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if o == 'call':
        return '%s(%s)' % (show(a[0], d), ', '.join([show(x, d) for x in a[1]] +
                                                    ['%s=%s' % (k, show(v, d)) for k, v in a[2]]))
    if o == 'bin':
        return '(%s %s %s)' % (show(a[1], d), a[0], show(a[2], d))
    if o == 'cmp':
        return '(%s %s %s)' % (show(a[1], d), a[0], show(a[2], d))
    if o == 'if':
        return '(%s ? %s : %s)' % tuple(show(x, d) for x in a)
    if o == 'loop':
        return 'L%s<%s>' % (a[0], ', '.join(show(x, d) for x in a[1:]))
    if o == 'iv':
        return 'i%s' % (a[0].a[0],)
    if o == 'ref':
        return '&%s' % a[0]
    if o == 'item':
        return show(a[0], d)
    if o == 'seq':
        return '[' + ', '.join(show(x, d) for x in a[0]) + ']'
    if o == 'for':
        return 'for %s if %s: %s' % (show(a[0], d), show(a[1], d), show(a[2], d))
    if o == 'fmt':
        return 'fmt' + show(a[0], d)
    return '%s(%s)' % (o, ', '.join(show(x, d) for x in a))
