"""C05: optional dependencies stay optional.

Import analysis plus a flow-sensitive, interprocedural fact analysis of the availability flags:
every use of a name bound by a guarded import must be reached only where the flag is known to hold.
"""
import ast
import os
import sys
import refs

DIST = {'scikit-learn': 'sklearn', 'qiskit-terra': 'qiskit', 'setuptools': 'setuptools'}
DEFAULT_REQ = {'numpy', 'qiskit', 'networkx', 'scipy', 'setuptools', 'sklearn'}
# parts of the qiskit namespace that other distributions provide
QISKIT_EXTRA = {'qiskit.providers.aer', 'qiskit.aqua', 'qiskit.chemistry', 'qiskit.Aer',
                'qiskit.providers.ibmq', 'qiskit.IBMQ', 'qiskit.test', 'qiskit.ml',
                'qiskit.finance', 'qiskit.optimization'}


def required(prog):
    try:
        tree = ast.parse(open(os.path.join(prog.root, 'setup.py')).read())
    except (OSError, SyntaxError):
        return set(DEFAULT_REQ)
    lists = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.List, ast.Tuple)):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    lists[t.id] = n.value
    for n in ast.walk(tree):
        if isinstance(n, ast.keyword) and n.arg == 'install_requires':
            v = lists.get(n.value.id) if isinstance(n.value, ast.Name) else n.value
            if isinstance(v, (ast.List, ast.Tuple)):
                out = set()
                for e in v.elts:
                    if isinstance(e, ast.Constant):
                        d = e.value
                        for c in '<>=!~;[ ':
                            d = d.split(c)[0]
                        out.add(DIST.get(d, d.replace('-', '_')))
                return out or set(DEFAULT_REQ)
    return set(DEFAULT_REQ)


class Mod:
    """What one module knows about availability."""

    def __init__(self, m):
        self.m = m
        self.need = {}          # name -> (flag module, flag, value) that must hold where it is used
        self.flags = {}         # name -> (module, name) of a flag
        self.negated = set()    # flags that are names bound to None when missing
        self.future = False


class Check:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.req = required(prog)
        self.std = set(sys.stdlib_module_names) | {'__future__'}
        self.mods = {}
        self.sum = {}           # function node -> facts at normal exit
        self.stack = set()
        self.callsites = {}     # function name -> list of fact sets
        self.pending = []       # uses in private functions

    def optional(self, name):
        root = name.split('.')[0]
        if root == 'qiskit':
            return any(name == x or name.startswith(x + '.') for x in QISKIT_EXTRA)
        return root not in self.std and root not in self.req

    # ------------------------------------------------ imports
    @staticmethod
    def catches(h):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return any(ast.unparse(t).split('.')[-1] in ('ImportError', 'Exception', 'BaseException')
                   for t in ts)

    def wanted(self, m, n):
        """(imported dotted module, bound name) pairs of an import statement that are optional."""
        out = []
        if isinstance(n, ast.Import):
            for a in n.names:
                if self.optional(a.name):
                    out.append((a.name, (a.asname or a.name).split('.')[0]))
        elif n.level == 0 and n.module:
            for a in n.names:
                full = n.module + '.' + a.name
                if self.optional(n.module) or self.optional(full):
                    out.append((full, a.asname or a.name))
        return out

    def scan(self, m):
        md = Mod(m)
        self.mods[m.name] = md
        md.future = any(isinstance(s, ast.ImportFrom) and s.module == '__future__' and
                        any(a.name == 'annotations' for a in s.names) for s in m.tree.body)
        guarded = set()

        def consts(body):
            out = {}
            for s in body:
                for n in ast.walk(s):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and \
                            n.value.value in (True, False, None):
                        for t in n.targets:
                            if isinstance(t, ast.Name):
                                out[t.id] = n.value.value
            return out
        before = {}
        for s in m.tree.body:
            if isinstance(s, ast.Try):
                caught = [h for h in s.handlers if self.catches(h)]
                got, good = [], True
                for n in ast.walk(ast.Module(s.body, [])):
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        w = self.wanted(m, n)
                        if w:
                            guarded.add(id(n))
                            got += w
                            if not caught:
                                good = False
                if got:
                    key = '%s:%s' % (m.rel, ','.join(sorted({g[0] for g in got})))
                    if good and not any(isinstance(x, ast.Raise) for h in caught
                                        for x in ast.walk(h)):
                        self.rep.ok('guarded-import', key)
                    else:
                        self.rep.bad('guarded-import', key, '%s:%d' % (m.rel, s.lineno),
                                     'importing %s fails when the optional package is missing'
                                     % m.name)
                    yes = consts(s.body + s.orelse)
                    no = {}
                    back = set()
                    for h in caught:
                        no.update(consts(h.body))
                        for n in ast.walk(h):
                            if isinstance(n, (ast.Import, ast.ImportFrom)):
                                for a in n.names:
                                    back.add((a.asname or a.name).split('.')[0])
                            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                                back.add(n.name)
                            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                back.add(n.id)
                    flag = None
                    for k, v in yes.items():
                        if v is True and (no.get(k, before.get(k)) in (False, None)) and \
                                (k in no or k in before):
                            flag = k
                    names = [g[1] for g in got]
                    fid = (got[0][0].split('.')[0] if not got[0][0].startswith('qiskit.')
                           else got[0][0].rsplit('.', 1)[0], flag or '?' + names[0])
                    if len({g[0].split('.')[0] for g in got}) > 1:
                        fid = (m.name, flag)
                    elif flag:
                        fid = (fid[0], 'its availability')
                    for nm in names:
                        if no.get(nm, 0) is None:
                            md.flags[nm] = fid
                            md.need[nm] = fid + (True,)
                        elif nm in back:
                            pass                            # replaced by something else
                        else:
                            md.need[nm] = fid + (True,)
                    if flag:
                        md.flags[flag] = fid
                        for nm in back - set(names) - set(no):
                            md.need[nm] = fid + (False,)
            else:
                before.update(consts([s]))
        for n in self.toplevel(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)) and id(n) not in guarded:
                for full, nm in self.wanted(m, n):
                    self.rep.bad('guarded-import', '%s:%s' % (m.rel, full),
                                 '%s:%d' % (m.rel, n.lineno),
                                 '%s is imported unconditionally by %s but is not a requirement '
                                 'of the package' % (full, m.name))

    @staticmethod
    def toplevel(tree):
        todo = list(tree.body)
        while todo:
            s = todo.pop(0)
            yield s
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            if isinstance(s, ast.If) and 'TYPE_CHECKING' in ast.unparse(s.test):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                todo += getattr(s, f, [])
            for h in getattr(s, 'handlers', []):
                todo += h.body

    def link(self):
        for _ in range(3):
            for md in self.mods.values():
                for nm, tgt in md.m.imports.items():
                    if '.' not in tgt:
                        continue
                    mod, leaf = tgt.rsplit('.', 1)
                    o = self.mods.get(mod)
                    if o is not None:
                        if leaf in o.flags:
                            md.flags.setdefault(nm, o.flags[leaf])
                        if leaf in o.need:
                            md.need.setdefault(nm, o.need[leaf])

    # ------------------------------------------------ facts
    def lits(self, e, env):
        """(facts when e is true, facts when e is false)"""
        md, alias, depth = env['md'], env['alias'], env['depth']
        if isinstance(e, ast.Name):
            if e.id in alias:
                return alias[e.id]
            if e.id in env['locals']:
                return set(), set()
            if e.id in md.flags:
                f = md.flags[e.id]
                return {f + (True,)}, {f + (False,)}
        elif isinstance(e, ast.Constant):
            return (set(), None) if e.value else (None, set())
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.lits(e.operand, env)
            return f, t
        elif isinstance(e, ast.BoolOp):
            both = [self.lits(v, env) for v in e.values]
            if isinstance(e.op, ast.Or):
                both = [(f, t) for t, f in both]
            t = set()
            for a, _ in both:
                t = None if t is None or a is None else t | a
            f = None
            for _, b in both:
                if b is not None:
                    f = b if f is None else f & b
            return (t, f) if isinstance(e.op, ast.And) else (f, t)
        elif isinstance(e, ast.Compare) and len(e.ops) == 1:
            c = e.comparators[0]
            if isinstance(c, ast.Constant) and c.value in (None, True, False):
                t, f = self.lits(e.left, env)
                pos = isinstance(e.ops[0], (ast.Is, ast.Eq)) == (c.value is True)
                return (t, f) if pos else (f, t)
        elif isinstance(e, ast.Call) and depth < 3:
            g = self.callee(e, env)
            if g is not None and not e.args and not e.keywords:
                body = [s for s in g[1].body if not (isinstance(s, ast.Expr) and
                                                     isinstance(s.value, ast.Constant))]
                if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value:
                    return self.lits(body[0].value, self.env(g[0], g[1], g[2], depth + 1))
            if isinstance(e.func, ast.Name) and e.func.id == 'bool' and len(e.args) == 1:
                return self.lits(e.args[0], env)
        elif isinstance(e, ast.NamedExpr):
            return self.lits(e.value, env)
        return set(), set()

    def callee(self, e, env):
        """(module info, function node, class) a call inside the package runs."""
        fn, m, c = e.func, env['md'].m, env['cls']
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and c is not None and \
                fn.value.id in ('self', 'cls', c.name):
            f = c.find(fn.attr)
        elif isinstance(fn, (ast.Name, ast.Attribute)):
            from loader import dotted
            d = dotted(fn)
            if d is None or d.split('.')[0] in env['locals']:
                return None
            f = self.prog.funcs.get(self.prog.resolve_dotted(m, d))
        else:
            f = None
        if f is None or f.module.name not in self.mods:
            return None
        return self.mods[f.module.name], f.node, f.cls

    def env(self, md, fn, cls, depth=0, outer=None):
        loc = set(outer['locals']) if outer else set()
        if fn is not None:
            glob = {x for n in ast.walk(fn) if isinstance(n, ast.Global) for x in n.names}
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    loc.add(n.id)
                elif isinstance(n, ast.arg):
                    loc.add(n.arg)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    loc |= {(a.asname or a.name).split('.')[0] for a in n.names}
            loc -= glob
        return dict(md=md, cls=cls, locals=loc, alias=dict(outer['alias']) if outer else {},
                    depth=depth, fn=fn, q='', private=False)

    def summary(self, md, fn, cls):
        """Facts at every normal exit of a function (None when it never returns)."""
        k = id(fn)
        if k in self.sum:
            return self.sum[k]
        if k in self.stack:
            return set()
        self.stack.add(k)
        env = self.env(md, fn, cls)
        env['quiet'] = True
        env['exits'] = []
        end = self.block(fn.body, set(), env)
        ex = [x for x in env['exits'] + [end] if x is not None]
        out = set.intersection(*ex) if ex else None
        self.stack.discard(k)
        self.sum[k] = out
        return out

    # ------------------------------------------------ walking
    def use(self, n, facts, env):
        md = env['md']
        if env.get('quiet'):
            return
        if n.id in env['locals'] or n.id not in md.need:
            return
        mod, flag, val = md.need[n.id]
        key = '%s:%s:%s' % (md.m.rel, env['q'], n.id)
        where = '%s:%d' % (md.m.rel, n.lineno)
        if (mod, flag, val) in facts:
            self.rep.ok('guarded-use', key)
        elif n.id in md.flags and md.flags[n.id] == (mod, flag) and env.get('testing'):
            pass
        else:
            self.pending.append((key, where, n.id, (mod, flag, val), env))

    def expr(self, e, facts, env):
        """Visits an expression; returns the facts known after it."""
        if e is None or facts is None:
            return facts
        if isinstance(e, ast.BoolOp):
            cur = facts
            for v in e.values:
                self.expr(v, cur, env)
                t, f = self.lits(v, env)
                add = t if isinstance(e.op, ast.And) else f
                cur = cur | (add or set())
            return facts
        if isinstance(e, ast.IfExp):
            self.expr(e.test, facts, env)
            t, f = self.lits(e.test, env)
            self.expr(e.body, facts | (t or set()), env)
            self.expr(e.orelse, facts | (f or set()), env)
            return facts
        if isinstance(e, ast.Compare) and any(isinstance(c, ast.Constant) and c.value is None
                                              for c in e.comparators) and \
                isinstance(e.left, ast.Name) and e.left.id in env['md'].flags:
            return facts
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in env['md'].flags:
                self.use(e, facts, env)
            elif isinstance(e.ctx, ast.Load) and e.id in env['md'].need and not env.get('testing'):
                self.use(e, facts, env)
            return facts
        if isinstance(e, ast.Lambda):
            self.expr(e.body, facts, env)
            return facts
        if isinstance(e, ast.Call):
            for c in ast.iter_child_nodes(e):
                facts = self.expr(c, facts, env) if isinstance(c, ast.expr) else facts
                if isinstance(c, ast.keyword):
                    facts = self.expr(c.value, facts, env)
            nm = e.func.attr if isinstance(e.func, ast.Attribute) else \
                e.func.id if isinstance(e.func, ast.Name) else None
            if nm is not None and facts is not None and not env.get('quiet'):
                self.callsites.setdefault(nm, []).append((set(facts), env))
            g = self.callee(e, env)
            if g is not None and facts is not None:
                s = self.summary(g[0], g[1], g[2])
                if s is None:
                    return facts
                return facts | s
            return facts
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            cur = set(facts)
            for g in e.generators:
                self.expr(g.iter, cur, env)
                for c in g.ifs:
                    self.expr(c, cur, env)
                    cur |= self.lits(c, env)[0] or set()
            for p in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(p, cur, env)
            return facts
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                facts = self.expr(c, facts, env)
            elif isinstance(c, ast.keyword):
                facts = self.expr(c.value, facts, env)
        return facts

    def test(self, e, facts, env):
        env['testing'] = env.get('testing', 0) + 1
        try:
            return self.expr(e, facts, env)
        finally:
            env['testing'] -= 1

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a & b

    def block(self, body, facts, env):
        for s in body:
            if facts is None:
                return None
            facts = self.stmt(s, facts, env)
        return facts

    def stmt(self, s, facts, env):
        if isinstance(s, ast.If):
            facts = self.test(s.test, facts, env)
            t, f = self.lits(s.test, env)
            clash = [{x[:2] + (not x[2],) for x in (k or set())} & facts for k in (t, f)]
            a = self.block(s.body, facts | t, env) if t is not None and not clash[0] else None
            b = self.block(s.orelse, facts | f, env) if f is not None and not clash[1] else None
            return self.join(a, b)
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                facts = self.expr(s.iter, facts, env)
                inner = facts
            else:
                facts = self.test(s.test, facts, env)
                inner = facts | (self.lits(s.test, env)[0] or set())
            self.block(s.body, set(inner), env)
            e = self.block(s.orelse, set(facts), env) if s.orelse else facts
            return facts if e is None else e
        if isinstance(s, ast.Try):
            caught = [h for h in s.handlers if self.catches(h) or any(
                x in ast.unparse(h.type) for x in ('NameError', 'AttributeError'))]
            if caught and self.tries(s.body, env):
                # try: use the name; except NameError: ...
                sub = dict(env, quiet=True)
                a = self.block(s.body, set(facts), sub)
            else:
                a = self.block(s.body, set(facts), env)
            a = self.block(s.orelse, a, env) if a is not None else None
            for h in s.handlers:
                a = self.join(a, self.block(h.body, set(facts), env))
            if s.finalbody:
                f = self.block(s.finalbody, set(facts), env)
                return None if f is None or a is None else a | f
            return a
        if isinstance(s, ast.With):
            for i in s.items:
                facts = self.expr(i.context_expr, facts, env)
            return self.block(s.body, facts, env)
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                facts = self.expr(c, facts, env)
            if isinstance(s, ast.Return) and 'exits' in env:
                env['exits'].append(facts)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            return None
        if isinstance(s, ast.Assert):
            facts = self.test(s.test, facts, env)
            t, _ = self.lits(s.test, env)
            return facts | (t or set())
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.define(s, facts, env)
            return facts
        if isinstance(s, ast.ClassDef):
            self.klass(s, facts, env)
            return facts
        if isinstance(s, ast.Assign):
            facts = self.expr(s.value, facts, env) if not self.flagged(s.value, env) else facts
            for t in s.targets:
                if isinstance(t, ast.Name):
                    env['alias'].pop(t.id, None)
                    p = self.lits(s.value, env)
                    if t.id in env['locals'] and (p[0] or p[1]):
                        env['alias'][t.id] = p
                else:
                    facts = self.expr(t, facts, env)
            return facts
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                facts = self.expr(c, facts, env)
        return facts

    def flagged(self, v, env):
        p = self.lits(v, env)
        return bool(p[0] or p[1])

    def tries(self, body, env):
        return any(isinstance(n, ast.Name) and n.id in env['md'].need and n.id not in env['locals']
                   for s in body for n in ast.walk(s))

    def outside(self, fn, facts, env):
        """What a def evaluates when it runs: decorators, defaults and annotations."""
        for d in fn.decorator_list:
            self.expr(d, facts, env)
        a = fn.args
        for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
            self.expr(d, facts, env)
        if not env['md'].future:
            for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
                if x is not None and x.annotation is not None:
                    self.expr(x.annotation, facts, env)
            if fn.returns is not None:
                self.expr(fn.returns, facts, env)

    def decorated(self, fn, env):
        """A decorator of the package that tests a flag before calling the function."""
        out = set()
        for d in fn.decorator_list:
            c = d if isinstance(d, ast.Call) else ast.Call(d, [], [])
            g = self.callee(c, env)
            if g is None:
                continue
            for n in ast.walk(g[1]):
                if isinstance(n, ast.Name) and n.id in g[0].flags:
                    out.add(g[0].flags[n.id] + (True,))
        return out

    def define(self, fn, facts, env):
        self.outside(fn, facts, env)
        sub = self.env(env['md'], fn, env['cls'], 0, env)
        if env.get('quiet'):
            return
        sub['q'] = (env['q'] + '.' if env['q'] else '') + fn.name
        sub['private'] = env['private'] or (fn.name.startswith('_') and not
                                            fn.name.startswith('__'))
        sub['name'] = fn.name
        self.block(fn.body, facts | self.decorated(fn, env), sub)

    def klass(self, c, facts, env):
        for b in c.bases + c.decorator_list + [k.value for k in c.keywords]:
            self.expr(b, facts, env)
        k = self.prog.classes.get(env['md'].m.name + '.' + c.name)
        sub = dict(env, cls=k, q=(env['q'] + '.' if env['q'] else '') + c.name)
        self.block(c.body, set(facts), sub)

    def run(self):
        mods = [m for m in self.prog.modules.values() if not m.rel.startswith('<')]
        for m in mods:
            self.scan(m)
        self.link()
        for m in mods:
            md = self.mods[m.name]
            env = self.env(md, None, None)
            self.block(m.tree.body, set(), env)
        # uses in private helpers: fine when every call inside the package is made under the flag
        state = {}

        def held(name, fact, seen):
            cs = self.callsites.get(name)
            if not cs:
                return None
            res = True
            for facts, env in cs:
                if fact in facts:
                    continue
                if env['private'] and env.get('name') not in seen and env.get('name'):
                    r = held(env['name'], fact, seen | {env['name']})
                    if r is True:
                        continue
                    if r is None:
                        res = None if res else res
                        continue
                return False
            return res
        done = set()
        for key, where, nm, fact, env in self.pending:
            if (key, where) in done:
                continue
            done.add((key, where))
            r = held(env['name'], fact, {env['name']}) if env['private'] and env.get('name') \
                else False
            if r is True:
                self.rep.ok('guarded-use', key)
            elif r is None:
                self.rep.skip('guarded-use', key, 'private and never called')
            else:
                self.rep.bad('guarded-use', key, where,
                             '`%s` of an optional package is used where it may be missing: no '
                             'path check that %s is there' % (nm, fact[0]))
        self.negatives(mods)

    # ------------------------------------------------ what happens without the package
    def negatives(self, mods):
        """`if not FLAG: ...` of a plotting or convex-fit function must end in ImportError."""
        for m in mods:
            md = self.mods[m.name]
            for n in ast.walk(m.tree):
                if not isinstance(n, ast.If):
                    continue
                env = self.env(md, None, None)
                t, f = self.lits(n.test, env)
                for lit, body, pos in ((t, n.body, 0), (f, n.orelse, 1)):
                    for x in lit or ():
                        if x[2] or x[0] not in ('matplotlib', 'cvxpy'):
                            continue
                        if not body:
                            continue
                        key = '%s:%s' % (m.rel, ast.unparse(n.test)[:50])
                        cut = [i for i, x in enumerate(body)
                               if isinstance(x, (ast.Return, ast.Raise))]
                        body = body[:cut[0] + 1] if cut else body
                        last = body[-1]
                        if isinstance(last, ast.Raise):
                            e = last.exc.func if isinstance(last.exc, ast.Call) else last.exc
                            nm = ast.unparse(e) if e is not None else ''
                            bad = nm in ('NameError', 'NotImplementedError', 'KeyError',
                                         'AttributeError', 'TypeError', 'IndexError')
                            if bad:
                                self.rep.bad('missing-reported', key, '%s:%d' % (m.rel, last.lineno),
                                             'a missing optional package is reported as %s' % nm)
                            else:
                                self.rep.ok('missing-reported', key)
                        elif all(isinstance(s, (ast.Pass, ast.Return)) and not
                                 (isinstance(s, ast.Return) and s.value is not None and not
                                  isinstance(s.value, ast.Constant)) or
                                 isinstance(s, ast.Expr) for s in body) and pos == 0:
                            self.rep.bad('missing-reported', key, '%s:%d' % (m.rel, last.lineno),
                                         'a missing optional package is not reported')


def rule(prog, rep, tier):
    Check(prog, rep).run()
    refs.run(prog, rep, 'c05.py')
    refs.run(prog, rep, 'c21.py', lambda t: t in ('TomographyFitter.fit',
                                                  'ProcessTomographyFitter.fit'))
