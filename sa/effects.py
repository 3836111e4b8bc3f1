"""Alias roots of value-graph terms: which caller-owned objects can a value denote?"""
from terms import N, walk

# external calls that return (a view of / an alias into) their argument
ALIAS_FUNCS = {'numpy.asarray', 'numpy.asanyarray', 'numpy.atleast_1d', 'numpy.atleast_2d',
               'numpy.ravel', 'numpy.reshape', 'numpy.transpose', 'numpy.squeeze', 'numpy.real',
               'numpy.imag', 'numpy.broadcast_to', 'numpy.swapaxes', 'numpy.moveaxis',
               'numpy.expand_dims', 'numpy.asfarray', 'numpy.require', 'iter', 'next',
               'numpy.diagonal', 'numpy.diag_view', 'numpy.flip', 'typing.cast', 'vars',
               'numpy.ascontiguousarray', 'getattr', 'enumerate', 'zip', 'reversed', 'max', 'min'}
ALIAS_METHODS = {'get', 'values', 'items', 'setdefault', 'reshape', 'ravel', 'view', 'squeeze',
                 'transpose', 'swapaxes', 'pop', 'diagonal', '__getitem__', '__iter__', 'real',
                 'popitem', 'get_unitary_ref'}
SHALLOW_FUNCS = {'copy.copy', 'list', 'dict', 'tuple', 'set', 'sorted', 'frozenset',
                 'collections.OrderedDict', 'filter', 'reversed', 'collections.deque',
                 'itertools.chain', 'collections.defaultdict'}
SHALLOW_METHODS = {'union', 'difference'}


class Alias:
    def __init__(self, state_heap=None):
        self.memo = {}
        self.imemo = {}

    def alias(self, t, heap, depth=0):
        """Parameters (root terms) whose object graph may contain the object denoted by t."""
        if t is None or depth > 80:
            return frozenset()
        k = t
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = frozenset()
        r = self._alias(t, heap, depth + 1)
        self.memo[k] = r
        return r

    def _alias(self, t, heap, d):
        op = t.op
        if op == 'param':
            return frozenset([t])
        if op == 'attr':
            if t.a[0].op == 'param' and t.a[0].a[0] in ('self', 'cls'):
                return frozenset([t])
            return self.inner(t.a[0], heap, d)
        if op == 'sub':
            if t.a[1].op == 'slice':
                # list slices are copies; writes through array slices are seen as writes
                # to the base itself (x[a:b] = v, x[a:b] += v)
                return frozenset()
            return self.inner(t.a[0], heap, d)
        if op in ('orig', 'base'):
            return self.alias(t.a[0], heap, d)
        if op == 'if':
            return self.alias(t.a[1], heap, d) | self.alias(t.a[2], heap, d)
        if op in ('first', 'until'):
            return self.alias(t.a[2], heap, d)
        if op in ('last',):
            return self.alias(t.a[1], heap, d)
        if op == 'loopout':
            return self.alias(t.a[1], heap, d) | self.alias(t.a[2], heap, d)
        if op == 'ref':
            c = heap.get(t)
            return frozenset() if c is None else self.alias(c, heap, d)
        if op == 'seq':
            if t.a[1] == 'ops' and t.a[0] and t.a[0][0].op == 'base':
                return self.alias(t.a[0][0].a[0], heap, d)
            return frozenset()
        if op == 'unpackrest':
            return frozenset()
        if op == 'revat':
            return self.inner(t.a[0], heap, d)
        if op == 'call':
            f, args = t.a[0], t.a[1]
            if f.op == 'g' and f.a[0] in ALIAS_FUNCS and args:
                r = frozenset()
                for x in args:
                    r |= self.alias(x, heap, d)
                return r
            if f.op == 'g' and f.a[0] in ('numpy.array',) and args and \
                    any(k == 'copy' and v.op == 'const' and v.a[0] is False for k, v in t.a[2]):
                return self.alias(args[0], heap, d)
            if f.op == 'attr' and f.a[1] in ALIAS_METHODS:
                if f.a[1] in ('reshape', 'ravel', 'view', 'squeeze', 'transpose', 'swapaxes'):
                    return self.alias(f.a[0], heap, d)
                return self.inner(f.a[0], heap, d) | (
                    self.alias(args[1], heap, d) if len(args) > 1 else frozenset())
            if f.op == 'attr' and f.a[1] == 'astype' and any(
                    k == 'copy' and v.op == 'const' and v.a[0] is False for k, v in t.a[2]):
                return self.alias(f.a[0], heap, d)
        return frozenset()

    def inner(self, t, heap, d=0):
        """Parameters whose interior objects may be stored inside the object denoted by t."""
        if t is None or d > 80:
            return frozenset()
        if t in self.imemo:
            return self.imemo[t]
        self.imemo[t] = frozenset()
        r = self._inner(t, heap, d + 1)
        self.imemo[t] = r
        return r

    def _inner(self, t, heap, d):
        r = self.alias(t, heap, d)
        op = t.op
        if op == 'ref':
            c = heap.get(t)
            if c is not None:
                r = r | self.inner(c, heap, d)
        elif op == 'seq':
            for s in t.a[0]:
                r = r | self.segs(s, heap, d)
        elif op == 'if':
            r = r | self.inner(t.a[1], heap, d) | self.inner(t.a[2], heap, d)
        elif op in ('orig', 'base', 'last', 'sub', 'attr'):
            r = r | self.inner(t.a[0] if op != 'last' else t.a[1], heap, d)
        elif op == 'loopout':
            r = r | self.inner(t.a[1], heap, d) | self.inner(t.a[2], heap, d)
        elif op in ('first', 'until'):
            r = r | self.inner(t.a[2], heap, d)
        elif op == 'call':
            f, args = t.a[0], t.a[1]
            if f.op == 'g' and (f.a[0] in SHALLOW_FUNCS or f.a[0] in ALIAS_FUNCS):
                for x in args:
                    r = r | self.inner(x, heap, d)
            elif f.op == 'attr' and (f.a[1] in SHALLOW_METHODS or f.a[1] in ALIAS_METHODS):
                r = r | self.inner(f.a[0], heap, d)
        return r

    def segs(self, s, heap, d):
        r = frozenset()
        if s.op == 'item':
            return self.alias(s.a[0], heap, d) | self.inner(s.a[0], heap, d)
        if s.op == 'kv':
            return self.alias(s.a[1], heap, d) | self.inner(s.a[1], heap, d)
        if s.op in ('splice', 'base'):
            return self.inner(s.a[0], heap, d)
        if s.op in ('for', 'forx'):
            for x in (s.a[2] if s.op == 'for' else s.a[1]):
                r |= self.segs(x, heap, d)
            return r
        if s.op == 'ifseg':
            for x in s.a[1] + s.a[2]:
                r |= self.segs(x, heap, d)
            return r
        if s.op == 'elemdo':
            for x in s.a[2]:
                if hasattr(x, 'op'):
                    r |= self.alias(x, heap, d) | self.inner(x, heap, d)
            return r
        if s.op == 'do' and s.a[0] in ('append', 'extend', 'insert', 'add', 'update', '__setitem__',
                                       'setdefault', 'appendleft'):
            for x in s.a[1]:
                r |= self.alias(x, heap, d) | self.inner(x, heap, d)
        return r
