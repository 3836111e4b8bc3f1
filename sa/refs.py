"""Comparison of repository functions with reference definitions.

A reference definition is a small function in sa/specs/*.py (text, analysed by
the same value-graph builder, never executed) marked

    @of('Class.method' or 'module.function', key=value ...)

Options: given={'param': const} fixes arguments on both sides; attrs=(...)
limits which attributes of self are compared (default: all written by the
reference); ret=False skips the return value; raises=False skips the raise
conditions; cls='Name' analyses an inherited method on that class;
no_inline=(...) keeps calls symbolic; only=(...) compares these dictionary keys
or tuple positions of the returned value.
"""
import ast
import itertools
import os
import signal
from terms import N, mk, C, TRUE, FALSE, NONE, is_const, walk, contains, subst
from engine import Engine, NOT, AND, OR, State
from loader import FuncInfo
from diff import D, Differ, prep, short
from deps import missing
import edits

HERE = os.path.dirname(os.path.abspath(__file__))
SELF = mk('param', 'self')
LIMIT = 60      # seconds per reference definition


def attr_names(prog):
    out = set()
    for m in prog.modules.values():
        if m.rel.startswith('<'):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Load)):
                out.add(n.attr)
            elif isinstance(n, ast.FunctionDef):
                out.add(n.name)
    return out


def load_specs(prog, fname):
    with open(os.path.join(HERE, 'specs', fname), encoding='utf-8') as fh:
        text = fh.read()
    m = prog.add_text('spec_' + fname[:-3], text)
    out = []
    consts = {}
    for s in m.tree.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            try:
                consts[s.targets[0].id] = ast.literal_eval(s.value)
            except ValueError:
                pass

    def option(n):
        return consts[n.id] if isinstance(n, ast.Name) else ast.literal_eval(n)
    for f in m.functions.values():
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'of':
                target = ast.literal_eval(d.args[0])
                opts = {k.arg: option(k.value) for k in d.keywords}
                out.append((target, f, opts))
    return m, out


def find_target(prog, target, opts):
    """(FuncInfo, self class) of the code side, or (None, reason)."""
    if 'cls' in opts:
        c = prog.cls(opts['cls'])
        if c is None:
            return None, 'class %s not found' % opts['cls']
        f = c.find(target.split('.')[-1])
        return (f, c) if f is not None else (None, '%s not found' % target)
    f = prog.func(target)
    if f is not None and not f.module.rel.startswith('<'):
        return f, f.cls
    hits = [x for q, x in prog.funcs.items() if q.endswith('.' + target)
            and not x.module.rel.startswith('<')]
    if len(hits) == 1:
        return hits[0], hits[0].cls
    if '.' in target:
        cn, mn = target.rsplit('.', 1)
        c = prog.cls(cn.split('.')[-1])
        if c is not None:
            m = c.find(mn)
            if opts.get('setter'):
                m = c.find_setter(mn)
            if m is not None:
                return m, c
    if '.' in target:
        mn, gn = target.rsplit('.', 1)
        mods = [m for m in prog.modules.values() if not m.rel.startswith('<') and
                (m.name == mn or m.name.endswith('.' + mn))]
        for m in mods:
            asg = [x for x in m.global_assigns if x[0] == gn]
            if len(asg) == 1:
                node = ast.parse('def value(): return 0').body[0]
                node.body[0].value = asg[0][1]
                ast.copy_location(node, asg[0][2])
                ast.copy_location(node.body[0], asg[0][2])
                return FuncInfo(m.name + '.<value of %s>' % gn, node, m), None
    return None, '%s not found' % target


def rooted(loc, roots=('param', 'g')):
    """A location reached from a parameter (not inside a value built here)."""
    while loc.op in ('attr', 'sub', 'orig', 'obj', 'call'):
        loc = loc.a[1] if loc.op == 'obj' else loc.a[0]
    return loc.op in roots


def below(loc, leaves):
    while loc.op in ('attr', 'sub'):
        loc = loc.a[0]
        if any(loc is x for x in leaves):
            return loc
    return None


class Side:
    def __init__(self, eng, func, cls, opts, spec):
        self.eng, self.func = eng, func
        if spec and func.params and func.params[0] in ('self', 'cls'):
            func.cls = cls
        args = {k: C(v) for k, v in opts.get('given', {}).items()}
        if (spec or func.name == '__new__') and func.cls is not None and func.params and \
                func.params[0] == 'cls':
            args['cls'] = mk('class', cls.qual)
        s = eng.analyze(func, args=args, self_cls=cls)
        self.s = s
        self.incomplete = list(eng.incomplete)
        self.lossy = list(eng.lossy)
        self.events = s.events
        self.ret = prep(eng.freeze(s.ret, s.state)) if s.ret is not None else None
        self.attrs = {}
        self.locs = {}
        self.pc = ()
        if s.state is not None:
            self.pc = tuple(prep(c) for c in s.state.pc)
            me = [r for r, c in s.state.heap.items() if c.op == 'obj' and c.a[1] is SELF or
                  c.op == 'seq' and c.a[0] and c.a[0][0].op == 'base' and
                  c.a[0][0].a[0].op == 'obj' and c.a[0][0].a[0].a[1] is SELF]
            for (b, name), v in s.state.attrs.items():
                if b in me or b is SELF:
                    self.attrs[name] = prep(eng.freeze(v, s.state))
                else:
                    o = eng.freeze_id(b, s.state)
                    o = o.a[1] if o.op == 'obj' else o
                    if o.op == 'class' or o.op in ('param', 'attr', 'sub') and rooted(o):
                        self.locs[mk('attr', prep(o), name)] = prep(eng.freeze(v, s.state))
            for loc, c in s.state.heap.items():
                if loc.op == 'attr' and loc.a[0] is SELF and c.op != 'obj' and \
                        loc.a[1] not in self.attrs:
                    self.attrs[loc.a[1]] = prep(eng.freeze(loc, s.state))
                elif (loc.op in ('param', 'attr', 'sub') and rooted(loc) or
                      loc.op == 'call' and rooted(loc, ('param',))) and c.op != 'obj' and \
                        not (loc.op == 'attr' and loc.a[0] is SELF):
                    self.locs[loc] = prep(eng.freeze(loc, s.state))
        self.trace = self.tracing(opts.get('trace')) \
            if opts.get('trace') or opts.get('region') else None
        self.made = {}
        if s.ret is not None and s.state is not None:
            self.made_attrs(s.ret, '', s.state, 0)
        self.deep, self.leaves = {}, []
        if s.ret is not None and s.state is not None:
            self.reached(s)
        self.raises = []
        for e in s.events:
            if e.kind == 'raise' and not e.trys:
                self.raises.append((self.raise_cond(e), e))

        self.calls = {}
        for e in s.events:
            if e.kind == 'call' and e.d['fn'].op == 'func' and not e.trys and \
                    e.d['result'] is not None and e.d['result'].op == 'call' and \
                    e.d['result'].a[0] is e.d['fn']:
                self.calls.setdefault(e.d['fn'].a[0], []).append(
                    (self.raise_cond(e), e, [prep(x) for x in e.d['args']] +
                     [prep(x) for _, x in sorted(e.d['kws'])]))

    def tracing(self, names):
        """The calls of these (external) functions and methods, in order, each under its
        condition; a method called through its class is the method of its first argument."""
        out = []
        for e in self.events:
            if e.kind != 'call' or e.d['fn'].op not in ('attr', 'g', 'bound'):
                continue
            name = e.d['fn'].a[1] if e.d['fn'].op == 'attr' else \
                str(e.d['fn'].a[-1]).split('.')[-1]
            if names is None and not (e.d['fn'].op == 'g' and e.d['stmt'] and not e.trys):
                continue
            if names is not None and name not in names:
                continue
            args = [prep(x) for x in e.d['args']]
            if e.d['fn'].op == 'g' and args and (args[0] is SELF or args[0].op == 'obj' and
                                                 args[0].a[1] is SELF):
                args = args[1:]
            seg = mk('do', '!' + name, tuple(args), tuple((k, prep(x)) for k, x in sorted(e.d['kws'])))
            for L in reversed([prep(L) for L in e.loops]):
                seg = mk('forx', L, (seg,), NONE)
            c = AND(*[prep(x) for x in e.pc])
            out.append(seg if is_const(c, True) else mk('ifseg', c, (seg,), ()))
        return mk('seq', tuple(out), 'ops')

    def made_attrs(self, v, path, st, depth):
        """Attributes of the new instance the function returns."""
        c = st.heap.get(v)
        if c is None or c.op != 'obj' or c.a[1].op != 'inst' or depth > 2:
            return
        for (b, name), x in list(st.attrs.items()):
            if b is not v:
                continue
            y = st.heap.get(x) if isinstance(x, N) else None
            if y is not None and y.op == 'obj':
                self.made_attrs(x, path + '.' + name, st, depth + 1)
            elif isinstance(x, N):
                self.made[path + '.' + name] = prep(self.eng.freeze(x, st))

    def reached(self, s):
        """Places written inside the returned value: below the attributes of a new instance, or
        below the result of a call the function returns."""
        c = s.state.heap.get(s.ret)
        new = c.a[1] if c is not None and c.op == 'obj' and c.a[1].op == 'inst' else None

        def split(t):
            if t.op == 'if':
                split(t.a[1])
                split(t.a[2])
            elif t.op in ('call', 'bin'):
                self.leaves.append(t)
        split(self.ret)

        def note(loc, v):
            path, t = '', loc
            while t.op == 'attr':
                path = '.' + t.a[1] + path
                t = t.a[0]
            if new is not None and t is new and path.count('.') > (v.op != 'seq'):
                self.deep[path] = prep(self.eng.freeze(v, s.state))
            elif path and any(prep(t) is x for x in self.leaves):
                self.locs[prep(loc)] = prep(self.eng.freeze(v, s.state))
        for (b, name), v in list(s.state.attrs.items()):
            if b.op in ('attr', 'call', 'bin'):
                note(mk('attr', self.eng.freeze_id(b, s.state), name), v)
        for loc, v in list(s.state.heap.items()):
            if loc.op == 'attr' and v.op == 'seq':
                note(loc, v)

    def locals_used(self):
        """Names of loop-carried locals in the terms of this side, in order of appearance."""
        out = []
        for t in self.terms():
            for x in walk(t):
                n = None
                if x.op == 'hk':
                    n = x.a[0]
                elif x.op == 'mu' and isinstance(x.a[1], str):
                    n = x.a[1]
                if isinstance(n, str) and n not in out:
                    out.append(n)
        return out

    def terms(self):
        out = [self.ret] if self.ret is not None else []
        for k in sorted(self.attrs):
            out.append(self.attrs[k])
        for k in sorted(self.made):
            out.append(self.made[k])
        for k in sorted(self.deep):
            out.append(self.deep[k])
        if self.trace is not None:
            out.append(self.trace)
        for k, v in self.locs.items():
            out += [k, v]
        for q in sorted(self.calls):
            for c, _, args in self.calls[q]:
                out += [c] + args
        return out + [c for c, _ in self.raises]

    def rename(self, other):
        """Local names are immaterial: rename the loop-carried locals only this side has to those
        only the other side has, in order of appearance."""
        mine, theirs = self.locals_used(), other.locals_used()
        m = [x for x in mine if x not in theirs]
        t = [x for x in theirs if x not in mine]
        if not m or len(m) != len(t):
            return
        r = dict(zip(m, t))

        def f(x):
            if x.op == 'hk' and x.a[0] in r:
                return mk('hk', r[x.a[0]])
            return None

        def go(x):
            if x is None:
                return None
            y = subst(x, f)
            def f2(z):
                if z.op == 'mu' and isinstance(z.a[1], str) and z.a[1] in r:
                    return mk('mu', subst(z.a[0], f2), r[z.a[1]])
                return None
            return subst(y, f2)
        self.ret = go(self.ret)
        self.attrs = {k: go(v) for k, v in self.attrs.items()}
        self.made = {k: go(v) for k, v in self.made.items()}
        self.deep = {k: go(v) for k, v in self.deep.items()}
        self.leaves = [go(x) for x in self.leaves]
        self.trace = go(self.trace)
        self.locs = {go(k): go(v) for k, v in self.locs.items()}
        self.raises = [(go(c), e) for c, e in self.raises]
        self.calls = {q: [(go(c), e, [go(x) for x in args]) for c, e, args in v]
                      for q, v in self.calls.items()}
        self.pc = tuple(go(c) for c in self.pc)

    def raise_cond(self, e):
        outer, inner = [], []
        loops = [prep(L) for L in e.loops]
        for c in e.pc:
            c = prep(c)
            if any(contains(c, lambda x, L=L: x is L) for L in loops):
                inner.append(c)
            else:
                outer.append(c)
        r = AND(*inner)
        for L in reversed(loops):
            if not is_const(r, True):
                r = mk('exists', L, r)
        return AND(*(outer + [r]))


def defaults(code, spec):
    """(parameter, default in the code, default in the reference) for constant defaults."""
    def table(f):
        ar = f.node.args
        pos = ar.posonlyargs + ar.args
        out = {}
        for p, d in zip(pos[len(pos) - len(ar.defaults):], ar.defaults):
            out[p.arg] = d
        for p, d in zip(ar.kwonlyargs, ar.kw_defaults):
            if d is not None:
                out[p.arg] = d
        r = {}
        for k, v in out.items():
            try:
                r[k] = ast.literal_eval(v)
            except ValueError:
                pass
        return r
    x, y = table(code), table(spec)
    return [(k, x[k], y[k]) for k in y if k in x]


def facts_of(d, sides):
    facts = {}

    def add(c):
        if c.op == 'and':
            for x in c.a[0]:
                add(x)
            return
        if c.op in ('or', 'const'):
            return
        k, pol = d.key(c, ())
        facts.setdefault(k, pol)
    for s in sides:
        for c in s.pc:
            add(c)
    return facts


def compare_one(prog, names, target, spec, opts):
    """[(kind, key, verdict, where, message)]"""
    code, cls = find_target(prog, target, opts)
    if code is None:
        return [('ref', target, None, '', cls)]
    eng = Engine(prog, no_inline=opts.get('no_inline', ()),
                 opaque_modules=opts.get('opaque', ('randomized_benchmarking.dihedral',)),
                     external=opts.get('external', ()))
    label = opts.get('key', target)
    focus = opts.get('focus')
    if opts.get('given'):
        label += '(' + ','.join('%s=%r' % x for x in sorted(opts['given'].items())) + ')'
    try:
        out = compare_funcs(prog, names, eng, code, spec, cls, opts, label)
    except TimeoutError:
        out = [('ref', label, None, code.where(), 'time limit')]
    if any(r[2] is None for r in out) and not any(r[2] is False for r in out):
        opts = {k: v for k, v in opts.items() if k != 'focus'}
        signal.alarm(LIMIT)
        try:
            v, where, msg = edits.judge(prog, names, target, opts, eng.analyzed | {code.qual})
        except (TimeoutError, RecursionError):
            v = None
        if focus and v is False:
            v = None
        if v is not None:
            i = [k for k, r in enumerate(out) if r[2] is None][0]
            for k, r in enumerate(out):
                if r[2] is None and (v is True or k == i):
                    out[k] = (r[0], r[1], v, where, msg)
    return out


FRESH = ('split', 'rsplit', 'splitlines', 'copy', 'tolist', 'keys', 'values', 'items', 'format')


def shared_by_class(f, name):
    """The constructor leaves the attribute to a list or dictionary of the class itself."""
    if f.name != '__init__' or f.cls is None:
        return False
    v = f.cls.attrs.get(name)
    return isinstance(v, (ast.List, ast.Dict, ast.Set)) or isinstance(v, ast.Call) and \
        isinstance(v.func, ast.Name) and v.func.id in ('list', 'dict', 'set')


def compare_funcs(prog, names, eng, code, spec, cls, opts, label):
    out = []
    try:
        a = Side(eng, code, cls, opts, False)
        b = Side(eng, spec, cls, opts, not opts.get('region'))
    except RecursionError:
        return [('ref', label, None, code.where(), 'recursion limit')]
    if a.incomplete:
        return [('ref', label, None, code.where(), 'analysis budget: %s' % a.incomplete[:2])]
    d = Differ(eng, names)
    facts = facts_of(d, (a, b))
    lossy = [x for x in a.lossy + b.lossy]
    if os.environ.get('LOSSY') and lossy:
        print('LOSSY', label, a.lossy, b.lossy)

    def other_path(loc):
        """The code changes loc (or what it is part of) through a location the other side leaves
        alone: what loc holds afterwards is not known."""
        mine = {d.n.nf(k, ()) for k in b.locs}
        for k in a.locs:
            if k is not loc and d.n.nf(k, ()) not in mine and (
                    contains(k, lambda x: x is loc) or contains(loc, lambda x: x is k)):
                return str(k)[:80]
        return None

    def put(kind, key, ds, pair=None, loc=None):
        if ds and loc is not None:
            o = other_path(loc)
            if o is not None:
                out.append((kind, label + key, None, code.where(), 'changed through ' + o))
                return
        if ds and pair is not None and not lossy and not any(x.v is False for x in ds):
            m = missing(eng, pair[0], pair[1], a.pc + b.pc, d.n.mu)
            if m is not None:
                out.append((kind, label + key, False, code.where(),
                            '%s: does not depend on %s, must be %s' % (
                                '/'.join(map(str, m[0])), ''.join(m[1]), str(pair[1])[:240])))
                return
        if not ds:
            out.append((kind, label + key, True, code.where(), ''))
            return
        bad = [x for x in ds if x.v is False]
        if bad and lossy and kind != 'default':
            out.append((kind, label + key, None, code.where(), 'untracked: ' + lossy[0]))
        elif bad:
            out.append((kind, label + key, False, code.where(), bad[0].msg()))
        else:
            out.append((kind, label + key, None, code.where(), ds[0].msg()))

    if opts.get('focus') == 'raises':
        ra, rb = OR(*[c for c, _ in a.raises]), OR(*[c for c, _ in b.raises])
        put('raises', ':raises', d.dbool(ra, (), rb, (), {}, ('raise condition',)) or [])
        return out
    for n, x, y in defaults(code, spec):
        out.append(('default', label + ':' + n, x == y, code.where(),
                    'default of %s is %r, must be %r' % (n, x, y)))
    if opts.get('ret', True):
        if a.ret is None and b.ret is None:
            pass
        elif a.ret is None or b.ret is None:
            out.append(('value', label, None, code.where(), 'one side never returns'))
        else:
            ra, rb = a.ret, b.ret
            put('value', ':return', d.diff(ra, (), rb, (), facts, ()), (ra, rb))
        for n, vb in b.made.items():
            va = a.made.get(n)
            d.budget = 4000
            if va is not None:
                put('value', ':return' + n, d.diff(va, (), vb, (), facts, ()), (va, vb))
            elif n.split('.')[-1] in names and a.made:
                put('value', ':return' + n, [D(False, (), C('<not set>'), vb)])
        for n, vb in b.deep.items():
            va = a.deep.get(n)
            d.budget = 4000
            top = '.'.join(n.split('.')[:2])
            if va is not None:
                put('value', ':return' + n, d.diff(va, (), vb, (), facts, ()), (va, vb))
            elif a.made and not any((x + '.').startswith(top + '.')
                                    for x in list(a.made) + list(a.deep)):
                put('value', ':return' + n, [D(False, (), C('<not set>'), vb)])
            else:
                put('value', ':return' + n, [D(None, (), C('<set differently>'), vb)])
    want = opts.get('attrs', tuple(b.attrs))
    if opts.get('region'):
        want = tuple(b.attrs) + tuple(n for n in a.attrs if n not in b.attrs)
    for n in want:
        va, vb = a.attrs.get(n), b.attrs.get(n)
        if vb is None:
            vb = mk('attr', SELF, n)
        if va is None:
            va = mk('attr', SELF, n)
            if n not in names:
                out.append(('state', label + ':self.' + n, None, code.where(),
                            'attribute no longer exists'))
                continue
        d.budget = 4000
        if va is mk('attr', SELF, n) and shared_by_class(code, n) and vb.op == 'seq' and \
                not opts.get('region'):
            put('state', ':self.' + n, [D(False, (), va, vb, 'one object for the whole class')])
            continue
        put('state', ':self.' + n, d.diff(va, (), vb, (), facts, ()), (va, vb),
            mk('attr', SELF, n))
    if opts.get('effects', True):
        la = {d.n.nf(k, ()): v for k, v in a.locs.items()}
        if opts.get('region'):
            have = {d.n.nf(k, ()) for k in b.locs}
            for k, v in a.locs.items():
                if d.n.nf(k, ()) not in have:
                    b.locs[k] = mk('orig', k) if v.op == 'seq' else k
        for k, vb in b.locs.items():
            va = la.get(d.n.nf(k, ()), k)
            d.budget = 4000
            if va is k and below(k, b.leaves) and \
                    d.n.nf(below(k, b.leaves), ()) not in [d.n.nf(x, ()) for x in a.leaves]:
                put('effect', ':' + short(k), [D(None, (), va, vb, 'another value is returned')])
                continue
            if va is k and k.op == 'call' and k.a[0].op == 'attr' and k.a[0].a[1] in FRESH:
                continue        # a new object every time: nobody else sees it change
            put('effect', ':' + short(k), d.diff(va, (), vb, (), facts, ()), (va, vb), k)
    if b.trace is not None:
        d.budget = 4000
        ds = d.diff(a.trace, (), b.trace, (), {}, ())
        for x in ds:
            if opts.get('region'):
                x.v = None
        put('calls', ':calls', ds)
    for q, want in b.calls.items():
        if not any(e.d['stmt'] for _, e, _ in want):
            continue
        have = a.calls.get(q, [])
        ca, cb = OR(*[c for c, _, _ in have]), OR(*[c for c, _, _ in want])
        d.budget = 4000
        ds = d.dbool(ca, (), cb, (), {}, ('condition of the call',)) or []
        if not ds and len(have) == len(want) <= 4:
            best = None
            for perm in itertools.permutations(have):
                dd = []
                for (cx, ex, ax), (cy, ey, ay) in zip(perm, want):
                    if len(ax) != len(ay):
                        dd.append(D(None, (), C(len(ax)), C(len(ay)), 'number of arguments'))
                        continue
                    if len(want) > 1:
                        dd += d.dbool(cx, (), cy, (), {}, ('condition of the call',)) or []
                    for i, (x, y) in enumerate(zip(ax, ay)):
                        dd += d.diff(x, tuple(map(prep, ex.loops)), y,
                                     tuple(map(prep, ey.loops)), facts,
                                     ('argument %d' % i,))
                if best is None or len(dd) < len(best):
                    best = dd
                if not best:
                    break
            ds += best or []
        elif not ds and len(have) < len(want) and not any(e.loops for _, e, _ in have + want):
            for _, ey, ay in want:
                if all(any(v.v is False for x, y in zip(ax, ay)
                           for v in d.diff(x, (), y, (), facts, ())) for _, _, ax in have):
                    ds.append(D(False, ('calls',), C('<no such call>'), ay[0], 'missing call'))
        elif not ds and len(have) != len(want):
            ds.append(D(None, ('calls',), C(len(have)), C(len(want)), 'number of calls'))
        other = [x for x in a.calls if x not in b.calls]
        if ds and other and not have:
            ds = []
            out.append(('calls', label + ':' + q.split('.')[-1], None, code.where(),
                        'not called directly; calls %s' % other[0]))
            continue
        put('calls', ':' + q.split('.')[-1], ds)
    if opts.get('raises', True) and (b.raises or a.raises):
        ra, rb = OR(*[c for c, _ in a.raises]), OR(*[c for c, _ in b.raises])
        d.budget = 4000
        put('raises', ':raises', d.dbool(ra, (), rb, (), {}, ('raise condition',)) or [])
    return out


def run(prog, rep, fname, select=None, focus=None):
    from core import pmap
    names = attr_names(prog)
    m, specs = load_specs(prog, fname)
    if select:
        specs = [s for s in specs if select(s[0])]
    if focus:
        specs = [(t, f, dict(o, focus=focus)) for t, f, o in specs if o.get(focus, True)]

    def work(x):
        target, f, opts = x
        def late(*_):
            raise TimeoutError
        old = signal.signal(signal.SIGALRM, late)
        signal.alarm(LIMIT)
        try:
            return compare_one(prog, names, target, f, opts)
        except RecursionError:
            return [('ref', target, None, '', 'recursion limit')]
        except TimeoutError:
            return [('ref', target, None, '', 'time limit')]
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
    for res in pmap(work, specs, lost=lambda x: [('value', x[0], None, '', 'not analysed')]):
        for kind, key, v, where, msg in res:
            rep.check(v, kind, key, where, msg)
    rep.count('reference_definitions', len(specs))
