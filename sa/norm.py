"""Normal forms of value-graph terms.

Arithmetic becomes a Laurent polynomial over atoms (sums of monomials with
rational exponents); everything else becomes a canonical nested tuple in which
loop variables are renamed by binding order.  Two terms with equal normal
forms denote the same value; `same` additionally decides equality of rational
functions by clearing denominators.
"""
from fractions import Fraction as Fr
import itertools
import math
from terms import N, mk, C, g, TRUE, FALSE, NONE, is_const, walk, contains

OPAQUE = {'unk', 'mu', 'prev', 'loopout', 'until', 'wide', 'undef', 'last', 'first', 'exc', 'name',
          'excval', 'star', 'unpackrest', 'reraise', 'super', 'forx', 'closure', 'partial',
          'splice', 'at', 'revat'}
SQRT = {'numpy.sqrt', 'math.sqrt'}
POW = {'numpy.power', 'math.pow', 'pow'}
IDENT = {'float', 'numpy.float64', 'numpy.real_if_close'}
ARR = {'numpy.array', 'numpy.asarray', 'list', 'tuple'}
ALIAS = {'math.exp': 'numpy.exp', 'math.log': 'numpy.log', 'math.pi': 'numpy.pi',
         'numpy.absolute': 'abs', 'numpy.abs': 'abs', 'math.fabs': 'abs', 'numpy.product':
         'numpy.prod', 'math.log2': 'numpy.log2', 'math.cos': 'numpy.cos', 'math.sin': 'numpy.sin',
         'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min', 'numpy.median': 'numpy.median',
         'numpy.int': 'int', 'numpy.float': 'float', 'numpy.bool': 'bool', 'numpy.object': 'object',
         'numpy.complex': 'complex', 'numpy.str': 'str', 'numpy.row_stack': 'numpy.vstack',
         'numpy.float_': 'numpy.float64', 'numpy.double': 'numpy.float64'}


class T(tuple):
    """Interned canonical form: constant-time hash and equality, ordered by creation."""
    def __hash__(self):
        return self.h

    def __eq__(self, o):
        if self is o:
            return True
        return False if type(o) is T else tuple.__eq__(self, o)

    def __ne__(self, o):
        return not self == o


_FORMS = {}


def intern(x):
    if type(x) is T or not isinstance(x, tuple):
        return x
    x = tuple([intern(y) for y in x])
    k = tuple([(y if isinstance(y, (T, str)) else (type(y).__name__, y)) for y in x])
    r = _FORMS.get(k)
    if r is None:
        r = T(x)
        r.h = tuple.__hash__(r)
        r.n = len(_FORMS)
        _FORMS[k] = r
    return r


def rank(x):
    """A total order on canonical forms (any order will do, both sides share it)."""
    if not isinstance(x, tuple):
        return (0, repr(x))
    return (1, intern(x).n)


class Norm:
    def __init__(self, eng=None):
        self.eng = eng
        self.memo = {}
        self.bodies = {}
        self.prep = lambda t: t
        self.mustack = []
        self.mus = {}
        self.pre = (0, {})
        self.keep = []
        self.atoms = {}        # canonical -> index
        self.alist = []

    # ---------------------------------------------------------------- atoms
    def atom(self, canon):
        canon = intern(canon)
        i = self.atoms.get(canon)
        if i is None:
            i = self.atoms[canon] = len(self.alist)
            self.alist.append(canon)
        return i

    # ------------------------------------------------------------ polynomials
    # poly: dict { tuple(sorted((atomidx, Fr exponent))) : float|Fr coefficient }
    def pconst(self, c):
        return {} if c == 0 else {(): c}

    def patom(self, canon, e=Fr(1)):
        return {((self.atom(canon), e),): Fr(1)}

    def padd(self, a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v == 0 or (isinstance(v, float) and abs(v) < 1e-300):
                r.pop(m, None)
            else:
                r[m] = v
        return r

    def mmul(self, m1, m2):
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, Fr(0)) + e
        return d

    def pmul(self, a, b):
        if len(a) * len(b) > 4000:
            return None
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                d = self.mmul(m1, m2)
                # polynomial atoms whose exponent became a positive integer are expanded
                exp = []
                mono = []
                for k, e in d.items():
                    if e == 0:
                        continue
                    can = self.alist[k]
                    if can[0] == 'P' and e.denominator == 1 and e > 0:
                        exp.append((can, int(e)))
                    else:
                        mono.append((k, e))
                p = {tuple(sorted(mono)): c1 * c2}
                for can, e in exp:
                    q = self.unP(can)
                    for _ in range(e):
                        p = self.pmul(p, q)
                        if p is None:
                            return None
                r = self.padd(r, p)
        return r

    def unP(self, can):
        return {m: c for m, c in can[1]}

    def ppow(self, a, e):
        """a ** e for a rational constant e; None when not representable."""
        if e == 0:
            return self.pconst(Fr(1))
        if not a:
            return {} if e > 0 else None
        if e.denominator == 1 and 0 < e <= 8:
            r = self.pconst(Fr(1))
            for _ in range(int(e)):
                r = self.pmul(r, a)
                if r is None:
                    return None
            return r
        if len(a) == 1:
            (m, c), = a.items()
            cc = self.cpow(c, e)
            if cc is None:
                return None
            return {tuple((k, x * e) for k, x in m): cc}
        # monic polynomial atom
        mons = sorted(a.items(), key=lambda kv: kv[0])
        lead = mons[-1][1]
        if lead < 0 and e.denominator != 1:
            lead = -lead
        cc = self.cpow(lead, e)
        if cc is None:
            return None
        can = ('P', tuple((m, frac(c / lead)) for m, c in mons))
        return {((self.atom(can), e),): cc}

    @staticmethod
    def cpow(c, e):
        try:
            if e.denominator == 1:
                return frac(c) ** int(e)
            if c < 0:
                return None
            v = float(c) ** float(e)
            return frac(v)
        except Exception:
            return None

    def canonp(self, p):
        """Hashable canonical form of a polynomial."""
        if not p:
            return ('num', Fr(0))
        if len(p) == 1 and () in p:
            return ('num', frac(p[()]))
        if len(p) == 1:
            (m, c), = p.items()
            if frac(c) == 1 and len(m) == 1 and m[0][1] == 1:
                return self.alist[m[0][0]]
        return ('poly', tuple(sorted(((tuple((self.alist[k], e) for k, e in m), frac(c))
                                      for m, c in p.items()), key=rank)))

    # ------------------------------------------------------------------ terms
    def poly(self, t, env):
        o, a = t.op, t.a
        if o == 'const':
            v = a[0]
            if isinstance(v, bool):
                return self.pconst(Fr(int(v)))
            if isinstance(v, (int, float)) and not (isinstance(v, float) and
                                                    (math.isnan(v) or math.isinf(v))):
                return self.pconst(frac(v))
            return self.patom(('const', type(v).__name__, repr(v)))
        if o == 'neg':
            return self.padd({}, self.poly(a[0], env), -1)
        if o == 'bin' and a[0] in '+-':
            x, y = self.poly(a[1], env), self.poly(a[2], env)
            return self.padd(x, y, 1 if a[0] == '+' else -1)
        if o == 'bin' and a[0] == '*':
            x, y = self.poly(a[1], env), self.poly(a[2], env)
            r = self.pmul(x, y)
            if r is not None:
                return r
        if o == 'bin' and a[0] == '/':
            x, y = self.poly(a[1], env), self.ppow(self.poly(a[2], env), Fr(-1))
            if y is not None:
                r = self.pmul(x, y)
                if r is not None:
                    return r
        if o == 'bin' and a[0] == '**':
            r = self._pow(a[1], a[2], env)
            if r is not None:
                return r
        if o == 'call' and a[0].op == 'g':
            q = a[0].a[0]
            if q in SQRT and len(a[1]) == 1:
                r = self.ppow(self.poly(a[1][0], env), Fr(1, 2))
                if r is not None:
                    return r
            if q in POW and len(a[1]) == 2:
                r = self._pow(a[1][0], a[1][1], env)
                if r is not None:
                    return r
            if q in ('numpy.multiply', 'operator.mul') and len(a[1]) == 2:
                r = self.pmul(self.poly(a[1][0], env), self.poly(a[1][1], env))
                if r is not None:
                    return r
            if q in ('numpy.square',) and len(a[1]) == 1:
                p = self.poly(a[1][0], env)
                r = self.pmul(p, p)
                if r is not None:
                    return r
            if q in IDENT and len(a[1]) == 1:
                return self.poly(a[1][0], env)
        if o == 'iv' and self.shifted(a[0]) and a[0] in env:
            d = len(env) - 1 - env[::-1].index(a[0])
            s, p = a[0].a[1], a[0].a[3]
            r = self.patom(('iv', d))
            if is_const(p, -1):
                r = self.padd({}, r, -1)
            return self.padd(self.poly(s, env[:d]), r)
        if o == 'sum':
            b = t.a[1]
            if b.op == 'const' and is_const(b, 0):
                return {}
            return self.patom(self._binder('sum', t, env))
        return self.patom(self.canon(t, env))

    def _pow(self, b, e, env):
        pb, pe = self.poly(b, env), self.poly(e, env)
        if not pe:
            return self.pconst(Fr(1))
        if len(pe) == 1 and () in pe:
            ex = frac(pe[()])
            if ex.denominator <= 12:
                r = self.ppow(pb, ex)
                if r is not None:
                    return r
        return self.patom(('pow', self.canonp(pb), self.canonp(pe)))

    def nf(self, t, env=()):
        """Canonical hashable form."""
        if isinstance(t, tuple):
            return tuple(self.nf(x, env) for x in t)
        if not isinstance(t, N):
            return t
        k = (t, env) if not self.mustack else (t, env, tuple(self.mustack))
        r = self.memo.get(k)
        if r is None:
            r = intern(self.canonp(self.poly(t, env)))
            self.memo[k] = r
        return r

    def orders(self, t):
        """The same nest of loops with the loops in every other order, when the order of the
        iterations cannot matter: sums, products, and writes to places of their own."""
        loops, x = [], t
        if t.op in ('sum', 'prod'):
            while x.op == t.op and len(x.a) == 2:
                loops.append(x.a[0])
                x = x.a[1]
            inner = None
        elif t.op == 'for':
            while True:
                loops.append(x.a[0])
                inner = x
                if not (is_const(x.a[1], True) and len(x.a[2]) == 1 and x.a[2][0].op == 'for'):
                    break
                x = x.a[2][0]
            if len(loops) > 1 and not self.own_places(inner.a[2], loops):
                return
        else:
            return
        if not 2 <= len(loops) <= 4 or any(self.while_cond(L) is not None for L in loops):
            return
        body = x if inner is None else mk('both', inner.a[1], inner.a[2])
        if contains(body, lambda y: y.op in ('mu', 'prev') and y.a[0] in loops) or \
                contains(body, lambda y: y.op == 'ref'):
            return
        need = [[M for M in loops if M is not L and contains(L, lambda y: y is M)] for L in loops]
        for p in itertools.permutations(range(len(loops))):
            if list(p) == sorted(p) or any(M in need[i] and p.index(j) > p.index(i)
                                           for i in p for j, M in enumerate(loops)):
                continue
            if inner is None:
                r = x
                for i in reversed(p):
                    r = mk(t.op, loops[i], r)
            else:
                r = mk('for', loops[p[-1]], inner.a[1], inner.a[2])
                for i in reversed(p[:-1]):
                    r = mk('for', loops[i], TRUE, (r,))
            yield r

    @staticmethod
    def own_places(segs, loops):
        """Every iteration of the loops writes one place, which no other iteration writes."""
        places = []

        def go(ss):
            for s in ss:
                if s.op == 'ifseg':
                    if not (go(s.a[1]) and go(s.a[2])):
                        return False
                elif s.op == 'kv':
                    places.append((s.a[0],))
                elif s.op == 'do' and s.a[0] == '__setitem__':
                    places.append((s.a[1][0],))
                elif s.op == 'elemdo' and s.a[1] == '__setitem__':
                    places.append(tuple(s.a[0]) + (s.a[2][0],))
                else:
                    return False
            return True
        if not go(segs) or not places or len(set(places)) != 1:
            return False
        parts = []
        for x in places[0]:
            if x.op == 'seq':
                if not all(y.op == 'item' for y in x.a[0]):
                    return False
                parts += [y.a[0] for y in x.a[0]]
            else:
                parts.append(x)
        return all(any(y.op == 'iv' and y.a[0] is L for y in parts) for L in loops)

    def _binder(self, name, t, env):
        r = self._binder1(name, t, env)
        if t.op in ('sum', 'prod', 'for'):
            for u in self.orders(t):
                x = self._binder1(name, u, env)
                if rank(x) < rank(r):
                    r = x
        return r

    def _binder1(self, name, t, env):
        L = t.a[0]
        env2 = env + (L,)
        w = self.while_cond(L)
        return (name, self._bounds(L, env)) + tuple(self.nf(x, env2) for x in t.a[1:]) + \
            (('while', self.nf(w, env2)),) * (w is not None)

    def while_cond(self, L):
        if self.eng is None:
            return None
        w = self.eng.while_cond.get(L.a[0])
        if w is None or is_const(w, True):
            return None
        return self.prep(w)

    def _bounds(self, L, env):
        s, e, p = L.a[1:]
        if self.shifted(L):
            # normalise to 0 .. n-1 with unit stride; iv becomes start + stride * iv
            cnt = self.padd(self.poly(e, env), self.poly(s, env), -1)
            if is_const(p, 1):
                return (('num', Fr(0)), self.canonp(cnt), ('num', Fr(1)))
            if is_const(p, -1):
                return (('num', Fr(0)), self.canonp(self.padd({}, cnt, -1)), ('num', Fr(1)))
        return tuple(self.nf(x, env) if isinstance(x, N) else x for x in L.a[1:])

    @staticmethod
    def shifted(L):
        return all(isinstance(x, N) and not is_const(x, None) for x in L.a[1:]) and \
            (is_const(L.a[3], 1) or is_const(L.a[3], -1))

    def canon(self, t, env):
        o, a = t.op, t.a
        if o == 'const':
            return ('const', type(a[0]).__name__, repr(a[0]))
        if o == 'g':
            return ('g', ALIAS.get(a[0], a[0]))
        if o == 'iv':
            L = a[0]
            for d in range(len(env) - 1, -1, -1):
                if env[d] is L:
                    return ('iv', d)
            return ('ivfree', self._bounds(L, env))
        if o == 'loop':
            return ('loop',) + self._bounds(t, env)
        if o in ('for', 'forx', 'exists', 'all', 'sum', 'prod'):
            return self._binder(o, t, env)
        if o in ('loopout', 'last', 'first', 'prev', 'until'):
            return self._binder(o, t, env)
        if o == 'mu':
            L = a[0]
            d = [i for i in range(len(env)) if env[i] is L]
            k = a[1]
            where = d[-1] if d else self._bounds(L, env)
            df = self.mu(t)
            if df is not None and d:
                if t in self.mustack:
                    return ('mu', where, self.mustack.index(t) - len(self.mustack))
                if len(self.mustack) < 5:
                    i0 = self.nf(df[0], env[:d[-1]])
                    self.mustack.append(t)
                    r = self.nf(df[1], env[:d[-1] + 1])
                    self.mustack.pop()
                    return ('mu', where, i0, r)
            return ('mu', where, k if not isinstance(k, N) else self.nf(k, env))
        if o == 'attrkey':
            return ('attrkey', self.nf(a[0], env) if a[0].op != 'ref' else 'obj', a[1])
        if o == 'inst':
            return ('inst', a[0]) + tuple(self.nf(x, env) for x in a[2:])
        if o == 'exc':
            return ('exc', a[1])
        if o == 'excval':
            return ('excval',)
        if o == 'closure' and self.eng is not None and a[0] in self.eng.closures:
            return self.closure(t, env)
        if o == 'cmp':
            return self.cmp(t, env)
        if o == 'truthy' and ((a[0].op == 'bin' and a[0].a[0] in ('%', '//', '-', '/', '&')) or
                              (a[0].op == 'call' and a[0].a[0].op == 'g' and
                               a[0].a[0].a[0] == 'len')):
            return self.cmp(mk('cmp', '!=', a[0], C(0)), env)
        if o in ('and', 'or'):
            return (o, tuple(sorted((self.nf(x, env) for x in a[0]), key=rank)))
        if o == 'call' and a[0].op == 'g':
            q = ALIAS.get(a[0].a[0], a[0].a[0])
            return ('call', ('g', q), tuple(self.nf(x, env) for x in a[1]),
                    tuple(sorted((k, self.nf(v, env)) for k, v in a[2])))
        if o == 'call':
            return ('call', self.nf(a[0], env), tuple(self.nf(x, env) for x in a[1]),
                    tuple(sorted((k, self.nf(v, env)) for k, v in a[2])))
        if o == 'sub':
            b = a[0]
            while b.op == 'call' and b.a[0].op == 'g' and b.a[0].a[0] in ARR and \
                    len(b.a[1]) == 1 and a[1].op != 'seq':
                b = b.a[1][0]
            # elementwise arithmetic with an array: (c * arr)[i]
            return ('sub', self.nf(b, env), self.nf(a[1], env))
        return (o,) + tuple(self.nf(x, env) for x in a)

    def mu(self, t):
        """Recurrence of a loop-carried value, or None."""
        if self.eng is None:
            return None
        if t not in self.mus:
            from diff import prep
            df = self.eng.mu_def
            if t not in df:
                if self.pre[0] != len(df):
                    self.pre = (len(df), {prep(k): k for k in df})
                if t not in self.pre[1]:
                    return None
            a, b = df[t] if t in df else df[self.pre[1][t]]
            self.mus[t] = (prep(a), prep(b))
        return self.mus[t]

    def body(self, t):
        """(number of arguments, value) of a closure applied to fresh parameters, or None."""
        if t in self.bodies:
            return self.bodies[t]
        self.bodies[t] = None
        fi, cenv, cfr = self.eng.closures[t.a[0]]
        ps = fi.params
        ar = fi.node.args
        nd = len(ar.defaults)
        args = [mk('param', '%%%d' % i) for i in range(len(ps) - nd)]
        eng = self.eng
        ev, st = eng.events, eng.steps
        eng.suppress += 1
        try:
            v = eng.apply(t, args)
        except RecursionError:
            v = None
        finally:
            eng.suppress -= 1
            eng.events, eng.steps = ev, st
        if v is not None:
            from diff import prep
            self.bodies[t] = (len(args), prep(v))
        return self.bodies[t]

    def closure(self, t, env):
        b = self.body(t)
        if b is None:
            return ('closure', t.a[0])
        return ('lambda', b[0], self.nf(b[1], env))

    def cmp(self, t, env):
        o, x, y = t.a
        if o in ('<', '<=', '==', '!=') and numeric(x) and numeric(y):
            d = self.padd(self.poly(x, env), self.poly(y, env), -1)
            if not d:
                return ('const', 'bool', 'True' if o in ('<=', '==') else 'False')
            if d:
                items = sorted(d.items(), key=lambda kv: kv[0])
                integer = all(self._intmono(m) and frac(c).denominator == 1 for m, c in items)
                lead = [c for m, c in items if m != ()]
                if lead:
                    s = abs(frac(lead[-1]))
                    if o in ('==', '!='):
                        s = frac(lead[-1])
                    if o == '<' and integer:
                        d = self.padd(d, self.pconst(Fr(1)))
                        o = '<='
                    d = {m: frac(c / s) for m, c in d.items()}
                    # a length is never negative
                    if o == '<=' and integer and len(lead) == 1 and len(items[-1][0]) == 1:
                        m, c = [(m, c) for m, c in d.items() if m != ()][0]
                        k = d.get((), 0)
                        if c == 1 and k == 0:
                            return ('cmp', '==', self.canonp({m: Fr(1)}))
                        if c == -1 and k == 1:
                            return ('cmp', '!=', self.canonp({m: Fr(1)}))
                return ('cmp', o, self.canonp(d))
        a, b = self.nf(x, env), self.nf(y, env)
        if o in ('==', '!=', 'is', 'is not') and rank(b) < rank(a) and y.op != 'const':
            a, b = b, a
        if o in ('is', 'is not') and y.op == 'const' and not is_const(y, None):
            o = {'is': '==', 'is not': '!='}[o]
        if is_const(y, None):
            o = {'==': 'is', '!=': 'is not'}.get(o, o)
        return ('cmp', o, a, b)

    def _intmono(self, m):
        for k, e in m:
            c = self.alist[k]
            if not (c[0] == 'call' and c[1] == ('g', 'len')):
                return False
        return True

    # ---------------------------------------------------------------- equality
    def iszero(self, p, scale=1.0):
        for _ in range(12):
            if not p:
                return True
            # find a polynomial atom with a negative exponent
            best = None
            for m in p:
                for k, e in m:
                    if self.alist[k][0] == 'P' and e < 0:
                        best = k if best is None else best
            if best is None:
                return all(abs(float(c)) < 1e-9 * scale for c in p.values())
            e = min((x for m in p for k, x in m if k == best), default=Fr(0))
            q = {((best, -e),): Fr(1)}
            p2 = {}
            for m, c in p.items():
                t = self.pmul({m: c}, q)
                if t is None:
                    return None
                p2 = self.padd(p2, t)
            p = p2
        return None

    def same(self, a, b, env=()):
        """True / False / None(undecided)."""
        if a is b:
            return True
        if self.nf(a, env) == self.nf(b, env):
            return True
        r = self.iszero(self.padd(self.poly(a, env), self.poly(b, env), -1))
        if r:
            return True
        return r


def frac(v):
    if isinstance(v, Fr):
        if v.denominator > 10 ** 9:
            return Fr(float(v)).limit_denominator(10 ** 7)
        return v
    if isinstance(v, int):
        return Fr(v)
    f = Fr(v).limit_denominator(10 ** 7)
    if v and abs(float(f) - v) > 1e-9 * abs(v):
        return Fr(v)
    return f


def numeric(x):
    if x.op == 'const':
        return isinstance(x.a[0], (int, float)) and not isinstance(x.a[0], bool)
    return x.op not in ('seq', 'fmt', 'str', 'class', 'func')


def opaque_in(t):
    """First opaque operator in the term (None when fully interpreted)."""
    for x in walk(t):
        if x.op in OPAQUE:
            return x.op
        if x.op == 'call' and x.a[0].op in ('func', 'closure', 'partial'):
            return 'call'
    return None


def symbols(t):
    """External function symbols of a term."""
    out = set()
    for x in walk(t):
        if x.op == 'call':
            f = x.a[0]
            if f.op == 'g':
                out.add(ALIAS.get(f.a[0], f.a[0]))
            elif f.op == 'attr':
                out.add('.' + f.a[1])
            else:
                out.add(f.op)
        elif x.op == 'prod':
            out.add('prod')
        elif x.op == 'sum':
            out.add('sum')
    return out
