"""Information-flow fallback: what a value can depend on.

Terms are gated (conditions are part of the value), so the inputs a value can
depend on are the access paths that occur in it.  A value that must depend on
an input and in which that input does not occur at all, while everything in it
is interpreted, is wrong whatever its form.
"""
from terms import N, children, is_const
from norm import OPAQUE

BLIND = {'unk', 'wide', 'name', 'unbound', 'opaque'}


def path_of(t):
    steps = []
    while True:
        if t.op == 'attr':
            steps.append('.' + t.a[1])
            t = t.a[0]
        elif t.op == 'sub' and t.a[1].op == 'const' and isinstance(t.a[1].a[0], str):
            steps.append(repr(t.a[1].a[0]))
            t = t.a[0]
        elif t.op == 'obj' and len(t.a) > 1 and isinstance(t.a[1], N):
            t = t.a[1]
        elif t.op == 'orig' and len(t.a) == 1:
            t = t.a[0]
        elif t.op == 'param':
            return (t.a[0],) + tuple(reversed(steps))
        else:
            return None


def deps(t, eng, bounds=True, mu=None):
    """(paths, blind): access paths occurring in t; blind when something is not interpreted."""
    out, blind = set(), False
    seen = set()
    st = [(t, True)]
    while st:
        x, full = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op in BLIND:
            blind = True
        if x.op in ('param', 'attr', 'sub', 'obj', 'orig'):
            p = path_of(x)
            if p is not None:
                out.add(p)
                continue
        if x.op == 'loop' and not bounds:
            for y in x.a[1:]:
                if isinstance(y, N) and not (y.op == 'call' and is_len(y)):
                    st.append((y, True))
            continue
        if x.op == 'mu':
            d = mu(x)
            if d is None:
                blind = True
            else:
                st.extend((y, True) for y in d)
        if x.op == 'closure':
            blind = True
        if x.op == 'loop' and x.a[0] in eng.while_cond:
            st.append((eng.while_cond[x.a[0]], True))
        st.extend((y, True) for y in children(x))
    return out, blind


def is_len(x):
    return x.a[0].op == 'g' and x.a[0].a[0] == 'len'


def pairs(a, b, path=()):
    """Parts of two returned structures that are observable separately."""
    yield path, a, b
    if a.op == b.op == 'seq' and a.a[1] == b.a[1] and len(a.a[0]) == len(b.a[0]):
        for i, (x, y) in enumerate(zip(a.a[0], b.a[0])):
            if x.op == y.op == 'item' and all(s.op == 'item' for s in a.a[0]) and \
                    all(s.op == 'item' for s in b.a[0]):
                yield from pairs(x.a[0], y.a[0], path + (i,))
            elif x.op == y.op == 'kv' and x.a[0] is y.a[0] and x.a[0].op == 'const':
                yield from pairs(x.a[1], y.a[1], path + (x.a[0].a[0],))


def missing(eng, a, b, pcs=(), mu=None):
    """(part, input path) on which b depends and a cannot, or None."""
    extra = set()
    for c in pcs:
        if c.op == 'cmp' and c.a[0] in ('==', 'is') and not any(y.op == 'const' for y in c.a[1:]):
            extra |= deps(c, eng, True, mu)[0]
    for part, x, y in pairs(a, b):
        if part == () and x.op == 'seq' and y.op == 'seq' and False:
            continue
        da, blind = deps(x, eng, True, mu)
        if blind:
            continue
        db, _ = deps(y, eng, False, mu)
        da |= extra
        for p in sorted(db):
            if not any(q == p[:len(q)] or p == q[:len(p)] for q in da):
                return part, p
    return None
