"""Guarded comparison of value-graph terms against specification terms."""
import ast
from terms import N, mk, C, TRUE, FALSE, is_const, subst
from engine import Engine, NOT, AND, OR, IF, CMP, truth
from norm import Norm, opaque_in, symbols

SOFT = {'numpy.sum', 'numpy.prod', 'sum', 'prod', 'numpy.mean', 'numpy.max', 'numpy.min', 'max',
        'min', 'len', 'numpy.dot', '.dot', 'numpy.multiply', 'numpy.array', 'numpy.asarray',
        '.get', 'range', 'list', 'numpy.arange', 'int', 'float', 'numpy.average', '.zfill', '.rjust', '.ljust',
        '.join'}


def literals(c, pol=True):
    """Alternatives (list of literal lists) for condition c."""
    if c.op == 'const':
        return [[]] if bool(c.a[0]) == pol else []
    if c.op == 'not':
        return literals(c.a[0], not pol)
    if (c.op == 'and' and pol) or (c.op == 'or' and not pol):
        alts = [[]]
        for x in c.a[0]:
            nx = literals(x, pol)
            alts = [a + b for a in alts for b in nx]
            if len(alts) > 64:
                return [[(c, pol)]]
        return alts
    if (c.op == 'or' and pol) or (c.op == 'and' and not pol):
        out = []
        for x in c.a[0]:
            out += literals(x, pol)
        return out if len(out) <= 64 else [[(c, pol)]]
    if not pol:
        n = NOT(c)
        if n.op != 'not':
            return [[(n, True)]]
    return [[(c, pol)]]


def split(t, limit=256):
    """Guarded leaves [(literals, leaf)] of a conditional term (top-level ifs)."""
    if t.op != 'if':
        return [([], t)]
    out = []
    for pol, sub in ((True, t.a[1]), (False, t.a[2])):
        for lits in literals(t.a[0], pol):
            for l2, leaf in split(sub, limit):
                out.append((lits + l2, leaf))
                if len(out) > limit:
                    return out
    return out


def lift(t, limit=64):
    """Move inner conditionals of an arithmetic term to the top."""
    for _ in range(12):
        c = _inner(t)
        if c is None:
            return t
        cond, hit = c.a[0], c

        def pick(k):
            return subst(t, lambda n: (n.a[k] if n.op == 'if' and n.a[0] is cond else
                                       n if n.op == 'loop' else None))
        a, b = lift(pick(1), limit), lift(pick(2), limit)
        return IF(cond, a, b)
    return t


def _inner(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, N) or id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == 'if':
            return x
        if x.op in ('for', 'forx', 'sum', 'prod', 'exists', 'all', 'loop', 'closure'):
            continue
        for y in x.a:
            if isinstance(y, N):
                st.append(y)
            elif isinstance(y, tuple):
                st.extend(_tup(y))
    return None


def _tup(y):
    out = []
    for z in y:
        if isinstance(z, N):
            out.append(z)
        elif isinstance(z, tuple):
            out.extend(_tup(z))
    return out


class Comparer:
    def __init__(self):
        self.n = Norm()

    def lit(self, l):
        c, pol = l
        if pol:
            return self.n.nf(c)
        return ('not', self.n.nf(c))

    def contradict(self, A, B):
        fa = [(self.lit(l), l) for l in A]
        fb = [(self.lit(l), l) for l in B]
        for x, lx in fa:
            for y, ly in fb:
                if x == ('not', y) or y == ('not', x):
                    return True
                if self._neg(lx) == y or self._neg(ly) == x:
                    return True
                if self._eqconst(lx, ly):
                    return True
        return False

    def _neg(self, l):
        c, pol = l
        return self.n.nf(NOT(c)) if pol else self.n.nf(c)

    def _eqconst(self, lx, ly):
        (c1, p1), (c2, p2) = lx, ly
        if p1 and p2 and c1.op == 'cmp' and c2.op == 'cmp' and c1.a[0] in ('==', 'is') and \
                c2.a[0] in ('==', 'is') and c1.a[1] is c2.a[1] and c1.a[2].op == 'const' and \
                c2.a[2].op == 'const' and c1.a[2] is not c2.a[2]:
            return True
        return False

    def simplify(self, t, lits):
        """Substitute facts x == const of the path into the leaf."""
        m = {}
        for c, pol in lits:
            if pol and c.op == 'cmp' and c.a[0] == '==' and c.a[2].op == 'const' and \
                    c.a[1].op in ('param', 'attr', 'call', 'sub'):
                m[id(c.a[1])] = c.a[2]
        if not m:
            return t
        return subst(t, lambda n: m.get(id(n)))

    def compare(self, code, spec, pc=(), alts=()):
        """[(verdict, message)]: verdict True/False/None per compatible leaf pair."""
        out = []
        cl = split(lift(code))
        base = [(c, True) for c in pc]
        for sl, sleaf in split(lift(spec)):
            hit = False
            for ll, cleaf in cl:
                if self.contradict(ll + base, sl) or self.contradict(ll, ll) or \
                        self.contradict(ll, base):
                    continue
                hit = True
                facts = ll + sl + base
                a, b = self.simplify(cleaf, facts), self.simplify(sleaf, facts)
                v = self.leaf(a, b)
                if v is not True:
                    for alt in alts:
                        for al, aleaf in split(lift(alt)):
                            if not self.contradict(ll, al) and not self.contradict(sl, al) and \
                                    self.leaf(a, self.simplify(aleaf, facts)) is True:
                                v = True
                out.append((v, '%s  vs expected  %s%s' % (
                    str(a)[:300], str(b)[:300],
                    '' if not facts else '  when ' + ' and '.join(
                        ('' if p else 'not ') + str(c)[:80] for c, p in facts[:6]))))
        return out

    def leaf(self, a, b):
        if a is b:
            return True
        if a.op == 'seq' and b.op == 'seq' and a.a[1] == b.a[1] and a.a[1] in ('list', 'tuple') and \
                all(s.op == 'item' for s in a.a[0] + b.a[0]):
            if len(a.a[0]) != len(b.a[0]):
                return False
            vs = [self.leaf2(x.a[0], y.a[0]) for x, y in zip(a.a[0], b.a[0])]
            return False if False in vs else (None if None in vs else True)
        if a.op == 'seq' and b.op == 'seq' and a.a[1] == b.a[1] == 'dict' and \
                all(s.op == 'kv' for s in a.a[0] + b.a[0]):
            da = {s.a[0]: s.a[1] for s in a.a[0]}
            db = {s.a[0]: s.a[1] for s in b.a[0]}
            vs = []
            for k in db:
                vs.append(self.leaf2(da[k], db[k]) if k in da else
                          (False if all(x.op == 'const' for x in da) else None))
            return False if False in vs else (None if None in vs else True)
        r = self.n.same(a, b)
        if r is True:
            return True
        return self.decisive(a, b)

    def leaf2(self, a, b):
        a, b = lift(a), lift(b)
        if a.op != 'if' and b.op != 'if':
            return self.leaf(a, b)
        vs = [v for v, _ in self.compare(a, b)]
        return False if False in vs else (None if None in vs else True)

    def decisive(self, a, b):
        """Unequal normal forms: a real difference, or undecided?"""
        if opaque_in(a) or opaque_in(b):
            return None
        sa, sb = symbols(a), symbols(b)
        if sa - sb:
            return None
        if (sb - sa) & SOFT:
            return None
        return False


def spec_terms(prog, text, name='__spec__'):
    m = prog.add_text(name, text)
    return m


def analyse_spec(prog, mod, fname, **kw):
    eng = Engine(prog)
    return eng.analyze(mod.functions[fname], **kw)
