"""C18: the package is consistent with itself on every path.

Scope, attribute, call-signature, import, abstract-method, format-string and definite-return
analyses over the syntax trees of all modules; nothing is executed.
"""
import ast
import builtins
import logging
import string
import symtable
from loader import ClassInfo, dotted

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__',
                                 '__spec__', '__loader__', '__builtins__', '__class__'}
OBJECT = set(dir(object)) | {'__dict__', '__module__', '__annotations__', '__qualname__'}
PLAIN_BASES = {'object', 'ABC', 'abc.ABC'}
EXC_ATTRS = set(dir(Exception))
# instance attributes of the external base classes the package derives from
OUTSIDE = {
    'BaseOperator': '''_op_shape _qargs _input_dim _output_dim _multiply compose copy dim dot expand
                       input_dims num_qubits output_dims power qargs reshape tensor
                       __and__ __matmul__ __mul__ __neg__ __pow__ __rmul__ __truediv__ __xor__
                       __call__ __array_priority__ conjugate transpose adjoint'''.split(),
    'Logger': dir(logging.Logger) + list(vars(logging.getLogger('x'))),
}
OUTSIDE['getLoggerClass'] = OUTSIDE['Logger']
NOT_EXC = {'NotImplemented', 'None', 'True', 'False'}


def own(mods):
    return [m for m in mods.values() if not m.rel.startswith('<')]


def nested(node):
    """Nodes of a function body without those of nested scopes."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(x))


def all_functions(m):
    """(class node or None, function node, qualified name) of every function of a module."""
    def go(body, cls, pre):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield cls, s, pre + s.name
                yield from go(s.body, cls, pre + s.name + '.')
            elif isinstance(s, ast.ClassDef):
                yield from go(s.body, s, pre + s.name + '.')
            else:
                for b in ('body', 'orelse', 'finalbody'):
                    yield from go(getattr(s, b, []), cls, pre)
                for h in getattr(s, 'handlers', []):
                    yield from go(h.body, cls, pre)
    yield from go(m.tree.body, None, '')


# ------------------------------------------------------------------ names
def names(prog, rep):
    for m in own(prog.modules):
        src = ast.unparse(m.tree)
        bound = set(m.functions) | set(m.classes) | set(m.imports) | set(m.globals)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                bound |= set(n.names)
        for s in ast.walk(m.tree):
            pass
        table = symtable.symtable(src, m.rel, 'exec')
        bound |= {s.get_name() for s in table.get_symbols() if s.is_assigned() or s.is_imported()}
        star = set()
        unknown = False
        for s in m.star:
            mm = prog.modules.get(s)
            if mm is None:
                unknown = True
            else:
                star |= set(mm.functions) | set(mm.classes) | set(mm.imports) | set(mm.globals)
        lines = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                lines.setdefault(n.id, []).append(n.lineno)

        def go(t):
            for s in t.get_symbols():
                nm = s.get_name()
                if not s.is_referenced():
                    continue
                if t.get_type() == 'module' or s.is_global():
                    ok = nm in bound or nm in star or nm in BUILTINS
                    if ok:
                        rep.ok('name-bound', '%s:%s' % (m.rel, nm))
                    elif unknown:
                        rep.skip('name-bound', '%s:%s' % (m.rel, nm), 'star import')
                    else:
                        rep.bad('name-bound', '%s:%s:%s' % (m.rel, t.get_name(), nm),
                                '%s:%s' % (m.rel, lines.get(nm, [0])[0]),
                                'name `%s` is used in %s but bound nowhere' % (nm, t.get_name()))
            for c in t.get_children():
                go(c)
        go(table)


# ------------------------------------------------------------------ definite assignment
class Flow:
    """Which locals may or must be assigned at each read.

    A variable read where no assignment can have happened is an error; one that is assigned on
    some paths only is decided by the conditions of the branches (see `split`)."""

    def __init__(self, fn, report):
        self.report = report
        self.locals = set()
        nl = set()
        for n in nested(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                nl |= set(n.names)
        for n in self.scope(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.locals.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    self.locals.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
                self.locals.add(n.name)
        self.locals -= nl
        a = fn.args
        self.params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for v in (a.vararg, a.kwarg):
            if v:
                self.params.add(v.arg)
        self.locals -= self.params
        self.block(fn.body, set())

    @staticmethod
    def scope(fn):
        """Nodes of the function scope; comprehension targets are scopes of their own."""
        todo = list(fn.body)
        while todo:
            x = todo.pop()
            yield x
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            todo.extend(ast.iter_child_nodes(x))

    def reads(self, node, may):
        if node is None:
            return
        hidden = []

        def go(n, bound):
            if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                b = set(bound)
                for gen in n.generators:
                    go(gen.iter, b)
                    b |= {x.id for x in ast.walk(gen.target) if isinstance(x, ast.Name)}
                    for c in gen.ifs:
                        go(c, b)
                if isinstance(n, ast.DictComp):
                    go(n.key, b)
                    go(n.value, b)
                else:
                    go(n.elt, b)
                return
            if isinstance(n, ast.NamedExpr):
                go(n.value, bound)
                may.add(n.target.id)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.locals \
                    and n.id not in bound and n.id not in may:
                self.report(n)
            for c in ast.iter_child_nodes(n):
                go(c, bound)
        go(node, set())
        return hidden

    def bind(self, t, may):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                may.add(n.id)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.reads(n, may)

    def block(self, body, may):
        """Returns the possibly assigned names after the block, None when it never completes."""
        for s in body:
            may = self.stmt(s, may)
            if may is None:
                return None
        return may

    def stmt(self, s, may):
        if isinstance(s, ast.Assign):
            self.reads(s.value, may)
            for t in s.targets:
                self.bind(t, may)
        elif isinstance(s, ast.AugAssign):
            self.reads(s.value, may)
            if isinstance(s.target, ast.Name):
                if s.target.id in self.locals and s.target.id not in may:
                    self.report(s.target)
                may.add(s.target.id)
            else:
                self.reads(s.target, may)
        elif isinstance(s, ast.AnnAssign):
            self.reads(s.value, may)
            if s.value is not None:
                self.bind(s.target, may)
        elif isinstance(s, ast.If):
            self.reads(s.test, may)
            a = self.block(s.body, set(may))
            b = self.block(s.orelse, set(may))
            return self.join(a, b)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.reads(s.iter, may)
            inner = set(may)
            self.bind(s.target, inner)
            # a later iteration sees what an earlier one assigned
            for n in ast.walk(ast.Module(s.body, [])):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    pass
            first = set(inner)
            out = self.block(s.body, first)
            res = set(may) | inner | (out or set()) | self.stored(s.body)
            e = self.block(s.orelse, set(res))
            return res if e is None else res | e
        elif isinstance(s, ast.While):
            self.reads(s.test, may)
            self.block(s.body, set(may))
            res = set(may) | self.stored(s.body)
            e = self.block(s.orelse, set(res))
            if isinstance(s.test, ast.Constant) and s.test.value and not any(
                    isinstance(n, ast.Break) for n in ast.walk(s)):
                return None
            return res if e is None else res | e
        elif isinstance(s, ast.Try):
            a = self.block(s.body, set(may))
            mid = set(may) | self.stored(s.body)
            outs = []
            if a is not None:
                outs.append(self.block(s.orelse, set(a)))
            for h in s.handlers:
                b = set(mid)
                if h.name:
                    b.add(h.name)
                outs.append(self.block(h.body, b))
            r = None
            for o in outs:
                r = self.join(r, o)
            if s.finalbody:
                f = self.block(s.finalbody, set(mid) | (r or set()))
                if f is None:
                    return None
                return None if r is None else r | f
            return r
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.reads(i.context_expr, may)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, may)
            return self.block(s.body, may)
        elif isinstance(s, ast.Return):
            self.reads(s.value, may)
            return None
        elif isinstance(s, ast.Raise):
            self.reads(s.exc, may)
            self.reads(s.cause, may)
            return None
        elif isinstance(s, (ast.Break, ast.Continue)):
            return None
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            may.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                may.add((a.asname or a.name).split('.')[0])
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    if t.id in self.locals and t.id not in may:
                        self.report(t)
                    may.discard(t.id)
                else:
                    self.reads(t, may)
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.reads(c, may)
        return may

    @staticmethod
    def stored(body):
        out = set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    out |= {(a.asname or a.name).split('.')[0] for a in n.names}
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
        return out

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b


def unbound(prog, rep):
    for m in own(prog.modules):
        for cls, f, q in all_functions(m):
            hits = []
            Flow(f, hits.append)
            for n in hits:
                rep.bad('local-bound', '%s:%s:%s' % (m.rel, q, n.id),
                        '%s:%d' % (m.rel, n.lineno),
                        'local `%s` of %s is read where it cannot have been assigned' % (n.id, q))
            if not hits:
                rep.ok('local-bound', '%s:%s' % (m.rel, q))


# ------------------------------------------------------------------ attributes
def class_names(prog, c):
    """Attributes an instance of c may have, or None when a base is not known."""
    out = set(OBJECT)
    for k in c.mro():
        for b in k.bases:
            if isinstance(b, ClassInfo):
                continue
            if b.split('.')[-1] in ('ABC', 'object'):
                continue
            if b.split('.')[-1] in ('Exception', 'QiskitError', 'ValueError'):
                out |= EXC_ATTRS
                continue
            o = b.replace('()', '').split('.')[-1]
            if o in OUTSIDE:
                out |= set(OUTSIDE[o])
                continue
            return None
        if k.node.keywords:
            for kw in k.node.keywords:
                if kw.arg == 'metaclass' and ast.unparse(kw.value).split('.')[-1] != 'ABCMeta':
                    return None
    fam = [k for k in prog.classes.values() if k in c.mro() or c in k.mro()]
    for k in fam:
        out |= set(k.methods) | set(k.setters) | set(k.attrs)
        for s in k.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                out.add(s.target.id)
            elif isinstance(s, (ast.ClassDef, ast.FunctionDef)):
                out.add(s.name)
        for n in ast.walk(k.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id == 'setattr':
                if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
                else:
                    return None
            elif isinstance(n, ast.Attribute) and n.attr in ('__dict__', '__slots__'):
                return None
            elif isinstance(n, ast.FunctionDef) and n.name in ('__getattr__', '__getattribute__'):
                return None
    return out


def foreign_stores(prog):
    """Attribute names assigned on something other than self, anywhere."""
    out = set()
    for m in own(prog.modules):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (
                    isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls')):
                out.add(n.attr)
    return out


def attributes(prog, rep):
    foreign = foreign_stores(prog)
    asked = {n.args[1].value for m in own(prog.modules) for n in ast.walk(m.tree)
             if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
             n.func.id in ('hasattr', 'setattr', 'delattr') and len(n.args) > 1 and
             isinstance(n.args[1], ast.Constant)}
    for c in prog.classes.values():
        if c.module.rel.startswith('<'):
            continue
        have = class_names(prog, c)
        if have is None:
            rep.skip('attribute-defined', c.qual, 'a base class is outside the package')
            continue
        for f in list(c.methods.values()) + list(c.setters.values()):
            if f.is_static or not f.params:
                continue
            me = f.params[0]
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and \
                        isinstance(n.value, ast.Name) and n.value.id == me:
                    key = '%s.%s:%s' % (c.name, f.name, n.attr)
                    if n.attr in have or n.attr in foreign or n.attr in asked:
                        rep.ok('attribute-defined', key)
                    else:
                        rep.bad('attribute-defined', key, f.where(n),
                                '%s.%s reads self.%s, which no class of its hierarchy defines'
                                % (c.name, f.name, n.attr))
                elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Call) and \
                        isinstance(n.value.func, ast.Name) and n.value.func.id == 'super':
                    up = [k for k in c.mro() if k is not c]
                    if c.ext_bases() and n.attr not in OBJECT and \
                            not any(n.attr in k.methods for k in up):
                        if any(b.split('.')[-1] not in ('ABC', 'object') for b in c.ext_bases()):
                            continue
                    if n.attr in OBJECT or any(n.attr in k.methods or n.attr in k.attrs
                                               for k in up):
                        rep.ok('super-defined', '%s.%s:%s' % (c.name, f.name, n.attr))
                    else:
                        rep.bad('super-defined', '%s.%s:%s' % (c.name, f.name, n.attr),
                                f.where(n), 'no base class of %s defines %s' % (c.name, n.attr))


# ------------------------------------------------------------------ calls
def signature(fn, drop):
    a = fn.args
    pos = [x.arg for x in a.posonlyargs + a.args][drop:]
    posonly = len(a.posonlyargs)
    nd = len(a.defaults)
    need = pos[:len(pos) - nd] if nd <= len(pos) else []
    kwonly = [x.arg for x in a.kwonlyargs]
    needkw = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return pos, need, kwonly, needkw, a.vararg is not None, a.kwarg is not None, posonly


def arity(call, fn, drop):
    """None when the call fits, otherwise the reason it cannot."""
    pos, need, kwonly, needkw, var, kw, _ = signature(fn, drop)
    star = any(isinstance(a, ast.Starred) for a in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    given = [a for a in call.args if not isinstance(a, ast.Starred)]
    kws = [k.arg for k in call.keywords if k.arg is not None]
    if not star and not var and len(given) > len(pos):
        return 'takes %d positional arguments, %d given' % (len(pos), len(given))
    if not kw:
        for k in kws:
            if k not in pos and k not in kwonly:
                return 'has no parameter `%s`' % k
    if not star:
        for k in kws:
            if k in pos and pos.index(k) < len(given):
                return 'gets parameter `%s` twice' % k
        if not dstar:
            for i, p in enumerate(need):
                if i >= len(given) and p not in kws:
                    return 'misses required argument `%s`' % p
    if not dstar:
        for p in needkw:
            if p not in kws:
                return 'misses required argument `%s`' % p
    return None


PLAIN_DECOS = ('staticmethod', 'classmethod', 'property', 'abstractmethod', 'abc.abstractmethod')


def plain(f):
    return all(d in PLAIN_DECOS or d.split('(')[0].split('.')[-1] in ('jit', 'njit', 'jit_fallback')
               for d in f.decorators)


def calls(prog, rep):
    for m in own(prog.modules):
        for cls, fnode, q in all_functions(m):
            c = prog.classes.get(m.name + '.' + cls.name) if cls is not None else None
            shadow = {n.id for n in ast.walk(fnode) if isinstance(n, ast.Name) and
                      isinstance(n.ctx, ast.Store)} | \
                     {a.arg for a in ast.walk(fnode) if isinstance(a, ast.arg)}
            local = {n.name: n for n in ast.walk(fnode) if isinstance(n, ast.FunctionDef) and
                     n is not fnode}
            for n in nested(fnode):
                if isinstance(n, ast.Call):
                    one_call(prog, rep, m, c, fnode, q, n, shadow, local)
        for n in module_level(m.tree):
            if isinstance(n, ast.Call):
                one_call(prog, rep, m, None, None, '<module>', n, set(), {})


def module_level(tree):
    todo = [s for s in tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef))]
    for s in tree.body:
        if isinstance(s, ast.ClassDef):
            todo += [x for x in s.body if not isinstance(x, (ast.FunctionDef, ast.ClassDef))]
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(x))


def one_call(prog, rep, m, c, fnode, q, n, shadow, local):
    target, drop = None, 0
    fn = n.func
    me = None
    if c is not None and fnode is not None and fnode.args.args:
        f = c.methods.get(fnode.name)
        me = fnode.args.args[0].arg
        if f is not None and f.is_static:
            me = None
    where = '%s:%d' % (m.rel, n.lineno)
    key = '%s:%s:%s' % (m.rel, q, ast.unparse(fn)[:60])
    cands = None
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and me is not None and \
            fn.value.id == me:
        # any class of the family may provide the method
        fam = [k for k in prog.classes.values() if c in k.mro()]
        cands = []
        for k in fam:
            f = k.find(fn.attr)
            if f is not None and f not in cands:
                cands.append(f)
        if any(not plain(f) or f.is_property for f in cands):
            return
        inst = 'cls' if c.methods.get(fnode.name) is not None and \
            c.methods[fnode.name].is_classmethod else 'self'
        if inst == 'cls' and any(not f.is_static and not f.is_classmethod for f in cands):
            return
    elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and \
            isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and c is not None:
        f = None
        for k in c.mro():
            if k is not c and fn.attr in k.methods:
                f = k.methods[fn.attr]
                break
        if f is None or not plain(f):
            return
        cands = [f]
    else:
        d = dotted(fn)
        if d is None:
            return
        root = d.split('.')[0]
        if root in local and '.' not in d:
            why = arity(n, local[root], 0)
            if local[root].decorator_list:
                return
            report_call(rep, key, where, local[root].name, why)
            return
        if root in shadow:
            return
        r = prog.resolve_dotted(m, d)
        if r in prog.funcs and not prog.funcs[r].is_setter:
            f = prog.funcs[r]
            if not plain(f) or f.is_property:
                return
            if f.cls is not None and not f.is_static and not f.is_classmethod:
                why = arity(n, f.node, 0)          # Class.method(obj, ...)
                report_call(rep, key, where, f.qual, why)
                return
            cands = [f]
        elif r in prog.classes:
            k = prog.classes[r]
            if k.node.decorator_list or any(x.find('__new__') for x in [k]):
                return
            miss = abstract_left(prog, k)
            if miss:
                rep.bad('abstract', key, where, '%s is abstract (%s not implemented)'
                        % (k.name, ', '.join(sorted(miss))))
            f = k.find('__init__')
            if f is None:
                if any(not isinstance(b, ClassInfo) and b.split('.')[-1] not in ('ABC', 'object')
                       for x in k.mro() for b in x.bases):
                    return
                if n.args or n.keywords:
                    report_call(rep, key, where, k.name, 'takes no arguments')
                return
            report_call(rep, key, where, k.name, arity(n, f.node, 1))
            return
        else:
            return
    if not cands:
        return
    whys = [arity(n, f.node, 1 if f.cls is not None and not f.is_static else 0) for f in cands
            if not f.is_abstract or len(cands) == 1]
    whys = whys if whys else [None]
    # a method overridden in the family must fit every implementation it may reach; the ones of
    # subclasses only are left undecided
    if all(w is not None for w in whys):
        report_call(rep, key, where, cands[0].qual, whys[0])
    elif any(w is not None for w in whys):
        f0 = c.find(fn.attr) if isinstance(fn.value, ast.Name) else cands[0]
        w0 = arity(n, f0.node, 0 if f0.is_static else 1) if f0 is not None else None
        if w0 is not None and not f0.is_abstract:
            report_call(rep, key, where, f0.qual, w0)
        else:
            rep.skip('call-signature', key, 'fits some overrides only: %s' % [w for w in whys if w][0])
    else:
        report_call(rep, key, where, cands[0].qual, None)


def report_call(rep, key, where, name, why):
    if why is None:
        rep.ok('call-signature', key)
    else:
        rep.bad('call-signature', key, where, 'call of %s: it %s' % (name, why))


def abstract_left(prog, c):
    left = {}
    for k in reversed(c.mro()):
        for n, f in k.methods.items():
            if f.is_abstract:
                left[n] = k
            else:
                left.pop(n, None)
        for n in list(k.attrs) + list(k.setters):
            if n in k.attrs:
                left.pop(n, None)
    if not any('ABC' in str(b) for k in c.mro() for b in k.bases if not isinstance(b, ClassInfo)) \
            and not any('ABCMeta' in ast.unparse(kw.value) for k in c.mro()
                        for kw in k.node.keywords):
        return {}
    return left


def abstract(prog, rep):
    """A class nothing derives from, with abstract methods left, can never be used."""
    for c in prog.classes.values():
        if c.module.rel.startswith('<'):
            continue
        if any(c in k.mro() for k in prog.classes.values() if k is not c):
            continue
        left = abstract_left(prog, c)
        own_abs = [n for n, k in left.items() if k is c]
        if left and not own_abs:
            rep.bad('abstract', c.qual, '%s:%d' % (c.module.rel, c.node.lineno),
                    '%s leaves %s abstract' % (c.name, ', '.join(sorted(left))))
        else:
            rep.ok('abstract', c.qual)


# ------------------------------------------------------------------ imports
def imports(prog, rep):
    for m in own(prog.modules):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                src = prog._abs(m, n)
                if not (src == 'qiskit.ignis' or src.startswith('qiskit.ignis.')):
                    continue
                mm = prog.modules.get(src)
                where = '%s:%d' % (m.rel, n.lineno)
                if mm is None:
                    rep.bad('import', '%s:%s' % (m.rel, src), where,
                            'imports from %s, which does not exist' % src)
                    continue
                have = set(mm.functions) | set(mm.classes) | set(mm.imports) | set(mm.globals)
                for s in mm.star:
                    k = prog.modules.get(s)
                    if k is not None:
                        have |= set(k.functions) | set(k.classes) | set(k.imports) | set(k.globals)
                for a in n.names:
                    if a.name == '*' or a.name in have or src + '.' + a.name in prog.modules or \
                            a.name.startswith('__'):
                        rep.ok('import', '%s:%s.%s' % (m.rel, src, a.name))
                    else:
                        rep.bad('import', '%s:%s.%s' % (m.rel, src, a.name), where,
                                '%s does not define %s' % (src, a.name))
        al = m.globals.get('__all__')
        if isinstance(al, (ast.List, ast.Tuple)):
            have = set(m.functions) | set(m.classes) | set(m.imports) | set(m.globals)
            for e in al.elts:
                if isinstance(e, ast.Constant):
                    if e.value in have or m.star or m.name + '.' + e.value in prog.modules:
                        rep.ok('import', '%s:__all__.%s' % (m.rel, e.value))
                    else:
                        rep.bad('import', '%s:__all__.%s' % (m.rel, e.value), m.rel,
                                '__all__ names %s, which is not defined' % e.value)


# ------------------------------------------------------------------ format strings
def percent_fields(s):
    """Number of values a %-format consumes (None: mapping or not decidable)."""
    n, i = 0, 0
    while i < len(s):
        if s[i] != '%':
            i += 1
            continue
        i += 1
        if i >= len(s):
            return None
        if s[i] == '%':
            i += 1
            continue
        if s[i] == '(':
            return None
        while i < len(s) and s[i] in '#0- +':
            i += 1
        while i < len(s) and (s[i].isdigit() or s[i] in '.*'):
            n += s[i] == '*'
            i += 1
        if i >= len(s) or s[i] not in 'diouxXeEfFgGcrsa':
            return None
        n += 1
        i += 1
    return n


def formats(prog, rep):
    for m in own(prog.modules):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and \
                    isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                k = percent_fields(n.left.value)
                where = '%s:%d' % (m.rel, n.lineno)
                key = '%s:%s' % (m.rel, n.left.value[:40])
                if k is None:
                    continue
                if isinstance(n.right, ast.Tuple):
                    if any(isinstance(e, ast.Starred) for e in n.right.elts):
                        continue
                    got = len(n.right.elts)
                elif isinstance(n.right, (ast.Constant, ast.JoinedStr, ast.List)):
                    got = 1
                else:
                    if k == 0 or k > 1 and isinstance(n.right, (ast.BinOp, ast.Attribute)):
                        got = 1 if isinstance(n.right, ast.Constant) else None
                    else:
                        got = None
                if got is None:
                    continue
                rep.check(got == k, 'format', key, where,
                          'format needs %d values, %d given' % (k, got))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                    n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and \
                    isinstance(n.func.value.value, str):
                if any(isinstance(a, ast.Starred) for a in n.args) or \
                        any(k.arg is None for k in n.keywords):
                    continue
                where = '%s:%d' % (m.rel, n.lineno)
                key = '%s:%s' % (m.rel, n.func.value.value[:40])
                try:
                    fields = []
                    for _, name, spec, _ in string.Formatter().parse(n.func.value.value):
                        if name is not None:
                            fields.append(name)
                            for _, nm, _, _ in string.Formatter().parse(spec or ''):
                                if nm is not None:
                                    fields.append(nm)
                except ValueError as ex:
                    rep.bad('format', key, where, 'malformed format string: %s' % ex)
                    continue
                auto, bad = 0, None
                for name in fields:
                    base = name.split('.')[0].split('[')[0]
                    if base == '':
                        base = auto
                        auto += 1
                    if str(base).isdigit():
                        if int(base) >= len(n.args):
                            bad = 'format needs argument %s, %d given' % (base, len(n.args))
                    elif base not in [k.arg for k in n.keywords]:
                        bad = 'format needs `%s`' % base
                rep.check(bad is None, 'format', key, where, bad or '')


# ------------------------------------------------------------------ raise / return / recursion
def completes(body):
    """Control may reach the end of the block."""
    for s in body:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.If):
            if not completes(s.body) and s.orelse and not completes(s.orelse):
                return False
        elif isinstance(s, (ast.With,)):
            if not completes(s.body):
                return False
        elif isinstance(s, ast.Try):
            if s.finalbody and not completes(s.finalbody):
                return False
            if not (completes(s.body) and completes(s.orelse)) and \
                    all(not completes(h.body) for h in s.handlers) and s.handlers:
                return False
        elif isinstance(s, ast.While):
            if isinstance(s.test, ast.Constant) and s.test.value and not any(
                    isinstance(n, ast.Break) for n in ast.walk(s)):
                return False
    return True


def returns(prog, rep):
    for m in own(prog.modules):
        for cls, f, q in all_functions(m):
            decos = [ast.unparse(d) for d in f.decorator_list]
            if any('abstract' in d for d in decos):
                continue
            vals = [n for n in nested(f) if isinstance(n, ast.Return)]
            gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in nested(f))
            if gen:
                continue
            some = [r for r in vals if r.value is not None and not (
                isinstance(r.value, ast.Constant) and r.value.value is None)]
            none = [r for r in vals if r not in some]
            end = completes(f.body)
            body = [s for s in f.body if not (isinstance(s, ast.Expr) and
                                              isinstance(s.value, ast.Constant))]
            stub = all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)
            key = '%s:%s' % (m.rel, q)
            if 'property' in decos and not stub:
                rep.check(bool(some) and not (end and not none), 'returns-value', key,
                          '%s:%d' % (m.rel, f.lineno),
                          'property %s can end without a value' % q)
            elif some and end and not any(isinstance(r.value, ast.Constant) or r.value is None
                                          for r in none):
                # a private search helper may mean None by falling off its end
                if f.name.startswith('_') and not f.name.startswith('__') or '.' in q and \
                        any(p.startswith('_') for p in q.split('.')[:-1]):
                    rep.skip('returns-value', key, 'private, falls off its end on some paths')
                else:
                    rep.bad('returns-value', key, '%s:%d' % (m.rel, f.lineno),
                            '%s returns a value on some paths and falls off its end on others' % q)
            elif some:
                rep.ok('returns-value', key)
            # unconditional self-recursion
            if cls is not None and 'property' in decos and f.args.args:
                me = f.args.args[0].arg
                for r in some:
                    if isinstance(r.value, ast.Attribute) and isinstance(r.value.value, ast.Name) \
                            and r.value.value.id == me and r.value.attr == f.name:
                        rep.bad('recursion', key, '%s:%d' % (m.rel, r.lineno),
                                'property %s returns itself' % q)
            if any(d.endswith('.setter') for d in decos) and len(f.args.args) > 1:
                me = f.args.args[0].arg
                for n in nested(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                            isinstance(n.value, ast.Name) and n.value.id == me and \
                            n.attr == f.name:
                        rep.bad('recursion', key, '%s:%d' % (m.rel, n.lineno),
                                'setter of %s sets itself' % q)


def raises(prog, rep):
    for m in own(prog.modules):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Raise) and n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                key = '%s:%d' % (m.rel, 0)
                where = '%s:%d' % (m.rel, n.lineno)
                key = '%s:%s' % (m.rel, ast.unparse(n.exc)[:60])
                if isinstance(n.exc, (ast.Constant, ast.Tuple, ast.List, ast.JoinedStr, ast.BinOp)):
                    rep.bad('raise', key, where, 'raises something that is not an exception')
                elif isinstance(e, ast.Name):
                    b = getattr(builtins, e.id, None)
                    r = prog.resolve_name(m, e.id)
                    if e.id in NOT_EXC or (b is not None and r is None and not (
                            isinstance(b, type) and issubclass(b, BaseException))):
                        rep.bad('raise', key, where, '%s is not an exception' % e.id)
                    elif r in prog.funcs:
                        rep.bad('raise', key, where, '%s is a function' % e.id)
                    else:
                        rep.ok('raise', key)
                else:
                    rep.ok('raise', key)


# ------------------------------------------------------------------ instances of known classes
def made_class(prog, m, shadow, v):
    """The package class a constructor call makes."""
    if isinstance(v, ast.Call):
        d = dotted(v.func)
        if d is not None and d.split('.')[0] not in shadow:
            r = prog.resolve_dotted(m, d)
            return prog.classes.get(r)
    return None


def bindings(fnode):
    """name -> list of bound expressions (None: bound in a way that is not an expression)."""
    out = {}
    for a in ast.walk(fnode):
        if isinstance(a, ast.arg):
            out.setdefault(a.arg, []).append(None)
    plain_ = set()
    for n in ast.walk(fnode):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    out.setdefault(t.id, []).append(n.value)
                    plain_.add(id(t))
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fnode:
            out.setdefault(n.name, []).append(None)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                out.setdefault(x, []).append(None)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.setdefault(n.name, []).append(None)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.setdefault((a.asname or a.name).split('.')[0], []).append(None)
    for n in ast.walk(fnode):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                id(n) not in plain_:
            out.setdefault(n.id, []).append(None)
    return out


def instances(prog, rep):
    foreign = foreign_stores(prog)
    held = {}                       # (class, attribute) -> class of what it holds
    for c in prog.classes.values():
        if c.module.rel.startswith('<'):
            continue
        for k in c.mro():
            for f in list(k.methods.values()) + list(k.setters.values()):
                if f.is_static or not f.params:
                    continue
                me = f.params[0]
                sh = set(bindings(f.node))
                for n in ast.walk(f.node):
                    tg, v = [], None
                    if isinstance(n, ast.Assign):
                        tg, v = n.targets, n.value
                    for t in tg:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) \
                                    and x.value.id == me:
                                r = made_class(prog, k.module, sh, v) if x is t else None
                                held.setdefault((c, x.attr), set()).add(r)
                    if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.withitem)):
                        for x in ast.walk(n):
                            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and \
                                    isinstance(x.value, ast.Name) and x.value.id == me and \
                                    not isinstance(n, ast.For):
                                held.setdefault((c, x.attr), set()).add(None)

    def known(k):
        if k is None or k.node.decorator_list:
            return None
        new = k.find('__new__')
        if new is not None and '__new__(cls' not in ast.unparse(new.node):
            return None
        return class_names(prog, k)

    def look(c, f, q, m, sites):
        for n, k, have in sites:
            key = '%s:%s:%s.%s' % (m.rel, q, k.name, n.attr)
            where = '%s:%d' % (m.rel, n.lineno)
            if n.attr in have or n.attr in foreign:
                rep.ok('instance-attribute', key)
            else:
                rep.bad('instance-attribute', key, where,
                        '%s uses .%s of a %s, which has none' % (q, n.attr, k.name))

    for m in own(prog.modules):
        for cls, fnode, q in all_functions(m):
            c = prog.classes.get(m.name + '.' + cls.name) if cls is not None else None
            b = bindings(fnode)
            kinds = {}
            for nm, vs in b.items():
                ks = {made_class(prog, m, set(b), v) for v in vs}
                if len(ks) == 1:
                    kinds[nm] = ks.pop()
            me = fnode.args.args[0].arg if c is not None and fnode.args.args else None
            sites = []
            for n in nested(fnode):
                if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load):
                    continue
                k = None
                if isinstance(n.value, ast.Name) and n.value.id != me:
                    k = kinds.get(n.value.id)
                elif isinstance(n.value, ast.Call):
                    k = made_class(prog, m, set(b), n.value)
                elif isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) \
                        and n.value.value.id == me and n.value.attr not in foreign:
                    ks = held.get((c, n.value.attr), set())
                    if len(ks) == 1:
                        k = next(iter(ks))
                have = known(k)
                if have is not None:
                    sites.append((n, k, have))
            look(c, fnode, q, m, sites)


# ------------------------------------------------------------------ unpacked results
def lengths(fnode):
    """Lengths of the tuples a function returns; None in it for anything else."""
    out = set()
    for n in nested(fnode):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return {None}
        if isinstance(n, ast.Return):
            v = n.value
            if isinstance(v, (ast.Tuple, ast.List)) and not any(
                    isinstance(e, ast.Starred) for e in v.elts):
                out.add(len(v.elts))
            else:
                out.add(None)
    return out


def unpacked(prog, rep):
    uses = {}
    for m in own(prog.modules):
        for cls, fnode, q in all_functions(m):
            c = prog.classes.get(m.name + '.' + cls.name) if cls is not None else None
            b = bindings(fnode)
            me = fnode.args.args[0].arg if c is not None and fnode.args.args else None
            for n in nested(fnode):
                if not (isinstance(n, ast.Assign) and isinstance(n.value, ast.Call)):
                    continue
                fn = n.value.func
                f = None
                if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and me and \
                        fn.value.id == me:
                    fs = {k.find(fn.attr) for k in prog.classes.values() if c in k.mro()}
                    f = fs.pop() if len(fs) == 1 else None
                else:
                    d = dotted(fn)
                    if d is not None and d.split('.')[0] not in b:
                        f = prog.funcs.get(prog.resolve_dotted(m, d))
                if f is None or not plain(f) or f.is_property:
                    continue
                for t in n.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and not any(
                            isinstance(e, ast.Starred) for e in t.elts):
                        uses.setdefault(f, []).append((len(t.elts), m, q, n.lineno))
    for f, us in uses.items():
        ls = lengths(f.node)
        if None in ls or not ls:
            rep.skip('unpack', f.qual, 'the returned tuple is not written out')
            continue
        for k, m, q, line in us:
            key = '%s:%s:%s' % (m.rel, q, f.name)
            if ls == {k}:
                rep.ok('unpack', key)
            elif k not in ls or f.name.startswith('_') and \
                    all(u[0] == k for u in us):
                rep.bad('unpack', key, '%s:%d' % (m.rel, line),
                        '%s unpacks %d values from %s, which returns %s' % (
                            q, k, f.qual, ' or '.join(str(x) for x in sorted(ls - {k}))))
            else:
                rep.skip('unpack', key, 'returns tuples of several lengths')


def rule(prog, rep, tier):
    for r in (names, unbound, attributes, calls, abstract, imports, formats, returns, raises,
              instances, unpacked):
        r(prog, rep)
