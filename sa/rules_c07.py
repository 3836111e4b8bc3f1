"""C07: calls and objects are independent of each other (no hidden shared mutable state).

Storage that outlives a call and is not reached through its arguments is found by name resolution:
parameter defaults, names and attributes of class bodies, module-level names, and the settings of
libraries. Every in-place write, re-binding or escape of such storage is judged.
"""
import ast
from loader import dotted
from rules_c18 import all_functions, own

MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'setdefault', 'pop', 'popitem', 'remove',
            'discard', 'clear', 'sort', 'reverse', '__setitem__', '__delitem__', 'fill', 'put',
            'resize', 'appendleft', 'extendleft', 'popleft', 'rotate', 'difference_update',
            'intersection_update', 'symmetric_difference_update', '__iadd__', 'itemset', 'setflags'}
FRESH = {'list', 'dict', 'set', 'bytearray', 'collections.OrderedDict', 'collections.defaultdict',
         'collections.deque', 'collections.Counter', 'numpy.zeros', 'numpy.ones', 'numpy.eye',
         'numpy.array', 'numpy.empty', 'numpy.full', 'numpy.arange', 'numpy.identity',
         'numpy.linspace', 'numpy.diag', 'copy.copy', 'copy.deepcopy'}
EXTERNAL_MUTABLE = {'QuantumCircuit', 'QuantumRegister', 'ClassicalRegister', 'Schedule', 'Result',
                    'PCA', 'StandardScaler', 'InstructionScheduleMap'}
# settings shared by the whole process
SETTINGS = {'numpy.seterr', 'numpy.seterrcall', 'numpy.set_printoptions', 'numpy.setbufsize',
            'numpy.random.seed', 'numpy.random.set_state', 'random.seed', 'random.setstate',
            'warnings.simplefilter', 'warnings.filterwarnings', 'warnings.resetwarnings',
            'os.chdir', 'os.putenv', 'os.unsetenv', 'os.umask', 'os.environ.update',
            'os.environ.setdefault', 'os.environ.pop', 'sys.setrecursionlimit',
            'sys.path.append', 'sys.path.insert', 'logging.disable', 'logging.basicConfig',
            'logging.setLoggerClass', 'locale.setlocale', 'gc.disable', 'time.tzset',
            'matplotlib.use', 'matplotlib.rc', 'matplotlib.pyplot.rc', 'matplotlib.style.use',
            'matplotlib.pyplot.style.use', 'matplotlib.rcParams.update',
            'matplotlib.pyplot.rcParams.update', 'decimal.getcontext'}
ROOTS = {'os.environ', 'sys.path', 'sys.modules', 'matplotlib.rcParams',
         'matplotlib.pyplot.rcParams'}
# process-wide by design: the one logging configuration of the package
BY_DESIGN = {'IgnisLogging', 'IgnisLogger'}
CACHES = {'functools.lru_cache', 'functools.cache', 'lru_cache', 'cache'}


def is_mutable(prog, m, v, local=()):
    """True / False / None (unknown): evaluating v makes an object that can be changed in place."""
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(v, (ast.Constant, ast.JoinedStr, ast.Lambda, ast.Compare)):
        return False
    if isinstance(v, ast.Tuple):
        r = [is_mutable(prog, m, x, local) for x in v.elts]
        return True if True in r else (None if None in r else False)
    if isinstance(v, ast.UnaryOp):
        return False if isinstance(v.operand, ast.Constant) else None
    if isinstance(v, ast.BinOp):
        r = [is_mutable(prog, m, x, local) for x in (v.left, v.right)]
        return True if True in r else (False if r == [False, False] else None)
    if isinstance(v, ast.IfExp):
        r = [is_mutable(prog, m, x, local) for x in (v.body, v.orelse)]
        return True if True in r else (False if r == [False, False] else None)
    if isinstance(v, ast.Call):
        d = target(prog, m, v.func)
        if d in FRESH:
            return True
        if d in ('tuple', 'frozenset', 'str', 'int', 'float', 'bool', 'complex', 'len', 'range',
                 're.compile', 'round', 'abs', 'sum', 'numpy.sqrt', 'numpy.exp'):
            return False
        c = prog.classes.get(d)
        if c is not None:
            return bool(mutators(c))
        if d.split('.')[-1] in EXTERNAL_MUTABLE:
            return True
        f = prog.funcs.get(d)
        if f is not None and f.qual not in local:
            r = [returned(f.node, x.value) for x in ast.walk(f.node)
                 if isinstance(x, ast.Return) and x.value is not None]
            r = [is_mutable(prog, f.module, x, tuple(local) + (f.qual,)) for x in r]
            return True if True in r else (False if r and set(r) == {False} else None)
    return None


def returned(fnode, v):
    """The expression a returned name was assigned, if it was assigned once."""
    for _ in range(4):
        if not isinstance(v, ast.Name):
            return v
        defs = [x.value for x in ast.walk(fnode) if isinstance(x, ast.Assign) and
                any(isinstance(t, ast.Name) and t.id == v.id for t in x.targets)]
        if len(defs) != 1 or sum(isinstance(x, ast.Name) and x.id == v.id and
                                 isinstance(x.ctx, ast.Store) for x in ast.walk(fnode)) != 1:
            return v
        v = defs[0]
    return v


def mutators(c):
    """Public methods of a package class that change their own object after construction."""
    out = []
    for k in c.mro():
        for f in list(k.methods.values()) + list(k.setters.values()):
            if f.name.startswith('_') and f.name not in ('__setitem__', '__iadd__'):
                continue
            for n in ast.walk(f.node):
                b = written(n)
                if b is not None and base(b)[0] == 'self' and base(b)[1]:
                    out.append(f.name)
                    break
    return out


def target(prog, m, node):
    d = dotted(node)
    if not d:
        return ''
    try:
        return prog.resolve_dotted(m, d) or d
    except Exception:
        return d


def written(n):
    """The expression whose object a node changes in place (None: none)."""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
        return n.func.value
    if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
        return n.value
    if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
        return n.target
    return None


def base(n):
    """(root name, path of attributes / '[]') of an access path."""
    path = []
    while True:
        if isinstance(n, ast.Attribute):
            path.append(n.attr)
            n = n.value
        elif isinstance(n, ast.Subscript):
            path.append('[]')
            n = n.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                'get', 'setdefault', 'values', 'items', '__getitem__', 'reshape', 'ravel', 'view'):
            path.append('[]')
            n = n.func.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'type' and \
                len(n.args) == 1:
            path.append('__class__')
            n = n.args[0]
        else:
            break
    return (n.id if isinstance(n, ast.Name) else None), path[::-1]


def scope(fnode):
    """Names bound in a function (parameters and assignments), and those declared global."""
    bound, glob = set(), set()
    a = fnode.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
        if x is not None:
            bound.add(x.arg)

    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                bound.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, ast.Global):
                glob.update(c.names)
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                bound.add(c.id)
            if isinstance(c, ast.alias):
                bound.add((c.asname or c.name).split('.')[0])
            if isinstance(c, ast.ExceptHandler) and c.name:
                bound.add(c.name)
            go(c)
    go(fnode)
    return bound - glob, glob


def aliases(fnode, bound):
    """local name -> expression it is always bound to (one plain assignment, nothing else)."""
    seen = {}
    for n in ast.walk(fnode):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        seen.setdefault(x.id, []).append(n.value if t is x else None)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            seen.setdefault(n.id, [])
    stores = {}
    for n in ast.walk(fnode):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            stores[n.id] = stores.get(n.id, 0) + 1
    params = {x.arg for x in fnode.args.posonlyargs + fnode.args.args + fnode.args.kwonlyargs}
    return {k: v[0] for k, v in seen.items()
            if len(v) == 1 and v[0] is not None and stores.get(k) == 1 and k not in params}


def expand(n, al, depth=0):
    """Replace the root of an access path by what the local stands for."""
    if depth > 5:
        return n
    r = n
    while isinstance(r, (ast.Attribute, ast.Subscript)):
        r = r.value
    if isinstance(r, ast.Name) and r.id in al and isinstance(al[r.id],
                                                             (ast.Name, ast.Attribute,
                                                              ast.Subscript)):
        root, path = base(n)
        b0, p0 = base(al[r.id])
        if b0 is None:
            return n
        out = al[r.id]
        for p in path:
            out = ast.Subscript(out, ast.Constant(0), ast.Load()) if p == '[]' else \
                ast.Attribute(out, p, ast.Load())
        return expand(out, al, depth + 1)
    return n


class Fn:
    def __init__(self, prog, m, cls, node, q):
        self.prog, self.m, self.cls, self.node, self.q = prog, m, cls, node, q
        self.bound, self.glob = scope(node)
        self.al = aliases(node, self.bound)
        self.al = {k: v for k, v in self.al.items()}

    def where(self, n):
        return '%s:%d' % (self.m.rel, n.lineno)

    def place(self, n):
        """('global', module, name, path) / ('class', ClassInfo, attr, path) /
        ('self', attr, path) / ('param', name, path) / None"""
        n = expand(n, self.al)
        root, path = base(n)
        if root is None:
            return None
        if root in ('self', 'cls') and self.cls is not None and root in self.bound:
            c = self.prog.classes.get(self.m.name + '.' + self.cls.name)
            if root == 'cls' and path:
                return ('class', c, path[0], path[1:])
            if root == 'cls':
                return ('class', c, '', [])
            if path and path[0] == '__class__':
                return ('class', c, path[1] if len(path) > 1 else '', path[2:])
            if path:
                return ('self', c, path[0], path[1:])
            return None
        if root in self.bound:
            return ('param', root, path)
        full = target(self.prog, self.m, ast.Name(root, ast.Load()))
        c = self.prog.classes.get(full)
        if c is not None:
            return ('class', c, path[0] if path else '', path[1:])
        d, rest = full, list(path)
        while rest and rest[0] != '[]' and d in self.prog.modules:
            d = d + '.' + rest.pop(0)
        c = self.prog.classes.get(d)
        if c is not None:
            return ('class', c, rest[0] if rest else '', rest[1:])
        f = self.prog.funcs.get(d)
        if f is not None and rest:
            return ('global', d, rest)
        mod, _, name = d.rpartition('.')
        mm = self.prog.modules.get(mod)
        if mm is not None and name in mm.globals:
            return ('global', d, rest)
        if self.m.name + '.' + root in (d, full) or root in self.m.globals:
            return ('global', self.m.name + '.' + root, path)
        if d and not d.startswith('qiskit.ignis') and '.' in d + '.'.join(rest):
            return ('library', d, rest)
        return None


def enclosing_tests(fnode, node, pol=False):
    """The if tests around a node in a function (with the branch it is in)."""
    out = []

    def go(n, tests):
        if n is node:
            out.extend(tests)
            return True
        if isinstance(n, ast.If):
            if go(n.test, tests):
                return True
            for x in n.body:
                if go(x, tests + [(n.test, True)]):
                    return True
            for x in n.orelse:
                if go(x, tests + [(n.test, False)]):
                    return True
            return False
        for c in ast.iter_child_nodes(n):
            if go(c, tests):
                return True
        return False
    go(fnode, [])
    return out if pol else [t for t, _ in out]


LOSSY = {'len', 'sum', 'max', 'min', 'bool', 'type', 'any', 'all', 'id'}


def exact(n):
    """Nodes of an expression outside functions that forget most of their argument."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in LOSSY:
            continue
        yield x
        st.extend(ast.iter_child_nodes(x))


def names_all(n, fnode, seen=None, nodes_of=ast.walk):
    """Names an expression may depend on, through every assignment of its locals."""
    seen = seen if seen is not None else set()
    for x in nodes_of(n):
        if isinstance(x, ast.Name) and x.id not in seen:
            seen.add(x.id)
            for s in ast.walk(fnode):
                if isinstance(s, ast.Assign) and any(
                        isinstance(y, ast.Name) and y.id == x.id and isinstance(y.ctx, ast.Store)
                        for t in s.targets for y in ast.walk(t)):
                    names_all(s.value, fnode, seen, nodes_of)
                elif isinstance(s, ast.For) and any(
                        isinstance(y, ast.Name) and y.id == x.id for y in ast.walk(s.target)):
                    names_all(s.iter, fnode, seen, nodes_of)
    return seen


def self_all(n, fnode):
    """Attributes of self an expression may depend on, through every assignment of its locals."""
    out = set()
    todo = [n]
    for nm in names_all(n, fnode):
        for s in ast.walk(fnode):
            if isinstance(s, ast.Assign) and any(
                    isinstance(y, ast.Name) and y.id == nm and isinstance(y.ctx, ast.Store)
                    for t in s.targets for y in ast.walk(t)):
                todo.append(s.value)
            elif isinstance(s, ast.For) and any(isinstance(y, ast.Name) and y.id == nm
                                                for y in ast.walk(s.target)):
                todo.append(s.iter)
    for x in todo:
        for y in ast.walk(x):
            if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and \
                    y.value.id == 'self':
                out.add(y.attr)
    return out


def absent(t, name):
    """The test says that the store has no value yet."""
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
        return any(absent(x, name) for x in t.values)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        x = t.operand
        if ast.unparse(x) == name:
            return True
        return isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], ast.In) and \
            ast.unparse(x.comparators[0]) in (name, name + '.keys()')
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        if isinstance(t.ops[0], ast.NotIn):
            return ast.unparse(t.comparators[0]) in (name, name + '.keys()')
        if isinstance(t.ops[0], (ast.Is, ast.Eq)) and isinstance(t.comparators[0], ast.Constant) \
                and t.comparators[0].value is None:
            return ast.unparse(t.left) == name or ast.unparse(t.left).startswith(name + '.get(')
    return False


def names_in(n, al, depth=0):
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Name):
            out.add(x.id)
            if x.id in al and depth < 5:
                out |= names_in(al[x.id], al, depth + 1)
    return out


def memo(fn, node, store):
    """Is this write the filling of a memo table? (None: no; '' : a faithful one; text: not)"""
    tests = [t for t, pol in enclosing_tests(fn.node, node, True) if pol]
    name = ast.unparse(store)
    key = node.slice if isinstance(node, ast.Subscript) else None
    if not any(absent(t, name) for t in tests):
        return None
    val = None
    for s in ast.walk(fn.node):
        if isinstance(s, ast.Assign) and any(t is node for t in s.targets):
            val = s.value
    if val is None:
        return None
    params = {x.arg for x in fn.node.args.posonlyargs + fn.node.args.args +
              fn.node.args.kwonlyargs} - {'cls', 'self'}
    need = names_in(val, fn.al) & params
    have = (names_all(key, fn.node) & params) if key is not None else set()
    if need - have:
        return 'the value kept depends on %s, which the key does not contain' % \
            ', '.join(sorted(need - have))
    root = base(store)[0]
    if root not in ('self', 'cls') and 'self' in fn_params(fn) and \
            self_all(val, fn.node) - (self_all(key, fn.node) if key is not None else set()):
        return 'the value kept depends on the object, which the key does not contain'
    if key is not None:
        whole = names_all(key, fn.node, nodes_of=exact) & params
        part = (have - whole) & names_all(val, fn.node, nodes_of=exact)
        if part:
            return 'the key keeps only a summary of %s' % ', '.join(sorted(part))
    return ''


def rule(prog, rep, tier):
    funcs = []
    for m in own(prog.modules):
        for cls, node, q in all_functions(m):
            funcs.append(Fn(prog, m, cls, node, q))
    rep.count('functions', len(funcs))
    defaults(prog, rep, funcs)
    class_level(prog, rep, funcs)
    module_level(prog, rep, funcs)
    settings(prog, rep, funcs)
    caches(prog, rep, funcs)
    repeated(prog, rep, funcs)
    late(prog, rep, funcs)
    kept(prog, rep, funcs)
    one_object(prog, rep, funcs)
    rep.assumptions += ['objects made by other libraries at import time are not tracked, except the '
                        'listed process-wide settings']


def nodes(fn):
    """Nodes of a function, its lambdas included, its inner functions and classes excluded."""
    st = list(fn.node.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def defaults(prog, rep, funcs):
    for fn in funcs:
        a = fn.node.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
            [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in pairs:
            key = '%s(%s)' % (fn.q, p.arg)
            mut = is_mutable(prog, fn.m, d)
            if isinstance(d, (ast.Name, ast.Attribute)):
                pl = fn.place(d) if not (isinstance(d, ast.Name) and d.id in fn.bound) else None
                mut = None
                if pl and pl[0] == 'global' and not pl[2]:
                    mod, _, nm = pl[1].rpartition('.')
                    mm = prog.modules.get(mod)
                    mut = is_mutable(prog, mm, mm.globals[nm]) if mm and nm in mm.globals else None
            if not mut:
                rep.ok('default-immutable', key, '')
                continue
            bad = None
            rebound = any(isinstance(n, ast.Name) and n.id == p.arg and
                          isinstance(n.ctx, ast.Store) for n in nodes(fn))
            for n in nodes(fn):
                w = written(n)
                if w is not None:
                    root, path = base(expand(w, fn.al))
                    if root == p.arg and not (isinstance(n, ast.AugAssign) and
                                              not isinstance(d, (ast.List, ast.Set, ast.Dict))):
                        bad = (n, 'is changed in place')
                        break
                if isinstance(n, ast.Return) and n.value is not None and not rebound and \
                        root_is(n.value, p.arg, fn.al):
                    bad = (n, 'is returned')
                    break
                if isinstance(n, ast.Assign) and not rebound and root_is(n.value, p.arg, fn.al) and \
                        any(isinstance(t, ast.Attribute) for t in n.targets):
                    bad = (n, 'is kept by the object')
                    break
            if bad and not isinstance(d, (ast.Name, ast.Attribute)):
                rep.bad('default-shared', key, fn.where(bad[0]),
                        'the default %s of %s is one object for all calls and %s'
                        % (ast.unparse(d), p.arg, bad[1]))
            elif bad and bad[1] == 'is changed in place':
                rep.bad('default-shared', key, fn.where(bad[0]),
                        'the default %s of %s is one object for all calls and is changed in place'
                        % (ast.unparse(d), p.arg))
            else:
                rep.ok('default-read-only', key, '')


def root_is(v, name, al):
    v = expand(v, al)
    if isinstance(v, ast.IfExp):
        return root_is(v.body, name, al) or root_is(v.orelse, name, al)
    if isinstance(v, ast.BoolOp):
        return any(root_is(x, name, al) for x in v.values)
    return isinstance(v, ast.Name) and v.id == name


def assigned_on_instance(c, attr):
    """Some __init__ / __new__ of the hierarchy binds the attribute on the instance."""
    seen = set()

    def binds(f):
        if f is None or f in seen:
            return False
        seen.add(f)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and \
                    n.value.id == 'self':
                if isinstance(n.ctx, ast.Store):
                    if n.attr == attr or c.find_setter(n.attr) and binds(c.find_setter(n.attr)):
                        return True
                elif binds(c.find(n.attr)):
                    return True
        return False
    return any(binds(k.methods.get('__init__')) for k in c.mro())


def class_value(c, attr):
    for k in c.mro():
        if attr in k.attrs:
            return k, k.attrs[attr]
    return None, None


def class_level(prog, rep, funcs):
    writes = {}
    for fn in funcs:
        for n in nodes(fn):
            w = written(n)
            if w is None:
                continue
            pl = fn.place(w)
            if pl is None:
                continue
            if isinstance(n, ast.Attribute) and pl[0] == 'class' and pl[1] is not None and \
                    not pl[2]:
                # Class.attr = value
                writes.setdefault((pl[1].qual, n.attr), []).append((fn, n, 'rebound on the class'))
            elif pl[0] == 'class' and pl[1] is not None and pl[2]:
                writes.setdefault((pl[1].qual, pl[2]), []).append((fn, n, 'changed in place'))
            elif pl[0] == 'self' and pl[1] is not None:
                k, v = class_value(pl[1], pl[2])
                if v is None or is_mutable(prog, k.module, v) is False:
                    continue
                if any(assigned_on_instance(x, pl[2]) for x in family(prog, pl[1])):
                    continue
                if is_mutable(prog, k.module, v):
                    writes.setdefault((k.qual, pl[2]), []).append(
                        (fn, n, 'changed in place through self'))
    for c in sorted(prog.classes.values(), key=lambda x: x.qual):
        if c.module.rel.startswith('<'):
            continue
        names = set(c.attrs) | {a for (q, a) in writes if q == c.qual}
        for a in sorted(names):
            w = writes.get((c.qual, a), [])
            key = c.name + '.' + a
            if c.name in BY_DESIGN or not w:
                rep.ok('class-state', key, 'never written' if not w else 'process-wide by design')
                continue
            for fn, n, how in w:
                if how == 'rebound on the class':
                    k = memo(fn, n, n)
                    if k == '':
                        continue
                    # values that follow a memoised flag: set beside it under the same test
                    tests = enclosing_tests(fn.node, n)
                    if tests and all(not (names_in(t, fn.al) & (fn_params(fn) - {'cls', 'self'}))
                                     for t in tests) and depends_on_nothing(fn, n) and \
                            any('None' in ast.unparse(t) for t in tests):
                        continue
                if not read_somewhere(funcs, a):
                    continue
                rep.bad('class-state', key, fn.where(n),
                        '%s.%s is shared by all objects and is %s in %s' % (
                            c.name, a, how, fn.q))
                break
            else:
                rep.ok('class-state', key, 'filled once, independently of any argument')


def family(prog, c):
    return [x for x in prog.classes.values() if c in x.mro() or x in c.mro()]


def fn_params(fn):
    a = fn.node.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}


def depends_on_nothing(fn, node):
    for s in ast.walk(fn.node):
        if isinstance(s, ast.Assign) and any(t is node for t in s.targets):
            return not (names_in(s.value, fn.al) & (fn_params(fn) - {'cls'}))
    return False


def read_somewhere(funcs, attr):
    for fn in funcs:
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Load):
                return True
    return False


def module_level(prog, rep, funcs):
    state = {}
    for m in own(prog.modules):
        for name, v in m.globals.items():
            state[m.name + '.' + name] = (m, v)
    hits = {}
    for fn in funcs:
        for n in nodes(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                    n.id in fn.glob:
                hits.setdefault(fn.m.name + '.' + n.id, []).append((fn, n, 're-bound'))
                continue
            w = written(n)
            if w is None:
                continue
            if isinstance(n, ast.AugAssign) and n.target.id not in fn.glob:
                if not (n.target.id in fn.al and isinstance(fn.al[n.target.id], ast.Name)):
                    continue
            pl = fn.place(w)
            if pl is not None and pl[0] == 'global':
                hits.setdefault(pl[1], []).append((fn, n, 'changed in place'))
    reads = {}
    for fn in funcs:
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                reads.setdefault(n.id, set()).add(id(n))
    for q in sorted(set(state) | set(hits)):
        name = q.split('.')[-1]
        bad = None
        for fn, n, how in hits.get(q, []):
            if isinstance(n, ast.Call) and q in state and is_logger(state[q][1]):
                continue
            store = n.value if isinstance(n, ast.Subscript) else n
            k = memo(fn, n, store) if isinstance(n, (ast.Subscript, ast.Name)) else None
            if k == '':
                kept = kept_value(fn, n)
                if kept is None or is_mutable(prog, fn.m, kept) is not True:
                    continue
                k = 'the object kept is handed out again and again'
            # storage that is written but never read changes nothing
            used = [x for x in reads.get(name, ())]
            own_reads = {id(x) for y in [n] + [z for _, z, _ in hits[q]] for x in ast.walk(y)}
            if q in state and not (set(used) - own_reads):
                continue
            bad = (fn, n, how, k or '')
            break
        if bad:
            fn, n, how, why = bad
            rep.bad('module-state', q.replace('qiskit.ignis.', ''), fn.where(n),
                    'module-level %s is %s in %s%s' % (name, how, fn.q, ': ' + why if why else ''))
        elif q in state:
            rep.ok('module-state', q.replace('qiskit.ignis.', ''), '')
    # objects of module level handed out
    for fn in funcs:
        if fn.node.name.startswith('_') and not fn.node.name.startswith('__'):
            continue
        for n in nodes(fn):
            if not isinstance(n, ast.Return) or n.value is None or \
                    not isinstance(n.value, (ast.Name, ast.Attribute)):
                continue
            v = expand(n.value, fn.al)
            pl = fn.place(v) if isinstance(v, (ast.Name, ast.Attribute)) else None
            if pl is None or pl[0] != 'global' or pl[2] or pl[1] not in state:
                continue
            m, val = state[pl[1]]
            mut = is_mutable(prog, m, val)
            if not mut and isinstance(val, ast.Constant) and val.value is None:
                made = [x for x in hits.get(pl[1], []) if x[2] == 're-bound']
                mut = any(kept_value(f2, n2) is not None and
                          is_mutable(prog, f2.m, kept_value(f2, n2)) for f2, n2, _ in made)
            if mut:
                rep.bad('shared-object-returned', fn.q, fn.where(n),
                        '%s returns the one module-level object %s, which its callers can change'
                        % (fn.q, pl[1].split('.')[-1]))
            else:
                rep.ok('shared-object-returned', fn.q, 'immutable')


def kept_value(fn, node):
    for s in ast.walk(fn.node):
        if isinstance(s, ast.Assign) and any(t is node for t in s.targets):
            v = s.value
            return fn.al.get(v.id, v) if isinstance(v, ast.Name) else v
    return None


def is_logger(v):
    return isinstance(v, ast.Call) and 'getLogger' in ast.unparse(v.func)


def settings(prog, rep, funcs):
    for fn in funcs:
        bad = None
        if fn.cls is not None and fn.cls.name in BY_DESIGN:
            continue
        # inside "with np.errstate / warnings.catch_warnings" the setting is restored
        safe = set()
        for n in nodes(fn):
            if isinstance(n, ast.With) and any('catch_warnings' in ast.unparse(i.context_expr)
                                               for i in n.items):
                safe |= {id(x) for x in ast.walk(n)}
        for n in nodes(fn):
            if id(n) in safe:
                continue
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                if d and d.split('.')[0] not in fn.bound | {'self', 'cls'}:
                    t = target(prog, fn.m, n.func)
                    if t in SETTINGS:
                        bad = (n, t)
                        break
            w = written(n)
            if w is not None:
                pl = fn.place(w)
                if pl and pl[0] == 'library':
                    full = pl[1] + ''.join('.' + x for x in pl[2] if x != '[]')
                    if any(full == r or full.startswith(r + '.') for r in ROOTS):
                        bad = (n, full)
                        break
                    if isinstance(n, ast.Attribute) and not pl[2]:
                        bad = (n, full + '.' + n.attr)
                        break
        if bad and restored(fn, bad[0]):
            rep.skip('library-settings', fn.q, 'changed and set back')
        elif bad:
            rep.bad('library-settings', fn.q, fn.where(bad[0]),
                    '%s changes %s for the whole process' % (fn.q, bad[1]))
        else:
            rep.ok('library-settings', fn.q, '')


def restored(fn, node):
    return any(isinstance(n, ast.Try) and n.finalbody for n in nodes(fn))


def caches(prog, rep, funcs):
    for fn in funcs:
        deco = [d for d in fn.node.decorator_list
                if target(prog, fn.m, d.func if isinstance(d, ast.Call) else d) in CACHES]
        if not deco:
            rep.ok('not-memoised', fn.q, '')
            continue
        mut = None
        for n in nodes(fn):
            if isinstance(n, ast.Return) and n.value is not None:
                v = fn.al.get(n.value.id, n.value) if isinstance(n.value, ast.Name) else n.value
                if is_mutable(prog, fn.m, v):
                    mut = n
                elif isinstance(n.value, ast.Name):
                    for s in nodes(fn):
                        if isinstance(s, ast.Assign) and any(
                                isinstance(t, ast.Name) and t.id == n.value.id for t in s.targets) \
                                and is_mutable(prog, fn.m, s.value):
                            mut = n
        stale = None
        if fn.cls is not None and fn.node.args.args and fn.node.args.args[0].arg == 'self':
            c = prog.classes.get(fn.m.name + '.' + fn.cls.name)
            read = {n.attr for n in nodes(fn) if isinstance(n, ast.Attribute) and
                    isinstance(n.value, ast.Name) and n.value.id == 'self'}
            for k in family(prog, c) if c else []:
                for f in list(k.methods.values()) + list(k.setters.values()):
                    if f.name == '__init__':
                        continue
                    for n in ast.walk(f.node):
                        w = written(n)
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                                base(n)[0] == 'self' and n.attr in read and \
                                isinstance(n.value, ast.Name):
                            stale = (f, n)
                        elif w is not None and base(w)[0] == 'self' and base(w)[1] and \
                                base(w)[1][0] in read:
                            stale = (f, n)
        draws = [n for n in nodes(fn) if isinstance(n, ast.Call) and
                 ('random' in ast.unparse(n.func) or 'rng' in ast.unparse(n.func))]
        if mut is not None:
            rep.bad('memoised', fn.q, fn.where(mut),
                    '%s is memoised and hands the same changeable object to every caller' % fn.q)
        elif stale:
            rep.bad('memoised', fn.q, fn.where(fn.node),
                    '%s is memoised but reads self.%s, which %s changes later' % (
                        fn.q, stale[1].attr if isinstance(stale[1], ast.Attribute) else '',
                        stale[0].name))
        elif draws:
            rep.bad('memoised', fn.q, fn.where(draws[0]),
                    '%s is memoised but draws random values' % fn.q)
        else:
            rep.skip('memoised', fn.q, 'memoised')


def repeated(prog, rep, funcs):
    """n references to one changeable object ([[]] * n, dict.fromkeys(k, [])), then changed."""
    for fn in funcs:
        made = {}
        for n in nodes(fn):
            if not isinstance(n, ast.Assign) or len(n.targets) != 1:
                continue
            v = n.value
            one = None
            if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult):
                for x in (v.left, v.right):
                    if isinstance(x, ast.List) and len(x.elts) == 1:
                        one = x.elts[0]
            elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                    v.func.attr == 'fromkeys' and len(v.args) == 2:
                one = v.args[1]
            if one is None or is_mutable(prog, fn.m, one) is not True:
                continue
            made[ast.unparse(n.targets[0])] = (n, one)
        for t, (n, one) in made.items():
            bad = None
            for x in nodes(fn):
                w = written(x)
                if w is None or isinstance(x, ast.AugAssign):
                    continue
                txt = ast.unparse(expand(w, fn.al))
                if txt.startswith(t + '['):
                    bad = x
                if isinstance(w, ast.Name):
                    for lp in nodes(fn):
                        if isinstance(lp, ast.For) and isinstance(lp.target, ast.Name) and \
                                lp.target.id == w.id and ast.unparse(lp.iter) in (
                                    t, t + '.values()'):
                            bad = x
            for x in nodes(fn):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Subscript) and \
                        ast.unparse(expand(x.target, fn.al)).startswith(t + '[') and \
                        (isinstance(x.target.value, ast.Subscript) or
                         isinstance(one, (ast.List, ast.Set, ast.Dict)) and
                         isinstance(x.op, (ast.Add, ast.BitOr))):
                    bad = x
            if bad is not None:
                rep.bad('entries-shared', '%s:%s' % (fn.q, t), fn.where(bad),
                        'all entries of %s are the one object %s, and it is changed through one '
                        'of them' % (t, ast.unparse(one)))
            else:
                rep.ok('entries-shared', '%s:%s' % (fn.q, t), 'entries only replaced or read')


def late(prog, rep, funcs):
    """Functions made in a loop that read the loop variable when they are called."""
    for fn in funcs:
        for lp in nodes(fn):
            if not isinstance(lp, (ast.For, ast.ListComp, ast.DictComp)):
                continue
            if isinstance(lp, ast.For):
                tgt = {x.id for x in ast.walk(lp.target) if isinstance(x, ast.Name)}
                body = lp.body
                tgt |= {x.id for s in body for x in ast.walk(s)
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            else:
                tgt = {x.id for g in lp.generators for x in ast.walk(g.target)
                       if isinstance(x, ast.Name)}
                body = [lp.elt] if isinstance(lp, ast.ListComp) else [lp.value]
            for s in body:
                for lam in stored_functions(s, not isinstance(lp, ast.For)):
                    ps = {a.arg for a in lam.args.args + lam.args.kwonlyargs + lam.args.posonlyargs}
                    inner = lam.body if isinstance(lam.body, list) else [lam.body]
                    free = {x.id for b in inner for x in ast.walk(b)
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} - ps
                    hit = sorted(free & tgt)
                    key = '%s:%d' % (fn.q, lam.lineno - fn.node.lineno)
                    if hit:
                        rep.bad('late-binding', key, fn.where(lam),
                                'every function kept by the loop reads the last %s' % hit[0])
                    else:
                        rep.ok('late-binding', key, '')


def stored_functions(s, direct):
    """Lambdas in a statement that are put in a container or attribute rather than called."""
    out = []
    if direct and isinstance(s, ast.Lambda):
        return [s]
    for n in ast.walk(s):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr in ('append', 'add', 'insert', 'setdefault'):
            out += [x for x in n.args if isinstance(x, ast.Lambda)]
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Lambda) and \
                any(isinstance(t, (ast.Subscript, ast.Attribute)) for t in n.targets):
            out.append(n.value)
    return out


def self_attrs(n, al, depth=0):
    out = set()
    for x in ast.walk(n):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self':
            out.add(x.attr)
        if isinstance(x, ast.Name) and x.id in al and depth < 5:
            out |= self_attrs(al[x.id], al, depth + 1)
    return out


def reaches(fn, prog, c, names_, seen=None):
    """Attributes a method of the class reads, through the methods of self it calls."""
    seen = seen if seen is not None else set()
    out = set()
    for a in names_:
        k = c.find(a)
        if k is None:
            out.add(a)
        elif a not in seen:
            seen.add(a)
            sub = {x.attr for x in ast.walk(k.node) if isinstance(x, ast.Attribute) and
                   isinstance(x.value, ast.Name) and x.value.id == 'self'}
            out |= reaches(fn, prog, c, sub, seen)
    return out


def stores_of(f):
    """Attributes of self a method binds or changes in place."""
    out = set()
    for n in ast.walk(f.node):
        w = written(n)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                isinstance(n.value, ast.Name) and n.value.id == 'self':
            out.add(n.attr)
        elif w is not None:
            r, p = base(w)
            if r == 'self' and p:
                out.add(p[0])
    return out


def closure_stores(c, f, seen=None):
    seen = seen if seen is not None else set()
    seen.add(f.name)
    out = stores_of(f)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                isinstance(n.func.value, ast.Name) and n.func.value.id == 'self' and \
                n.func.attr not in seen:
            k = c.find(n.func.attr)
            if k is not None:
                out |= closure_stores(c, k, seen)
    return out


def kept(prog, rep, funcs):
    """Values an object computes once and keeps: the key holds every argument they depend on, and
    whatever changes what they were computed from drops them."""
    for fn in funcs:
        if fn.cls is None or not fn.node.args.args or fn.node.args.args[0].arg != 'self':
            continue
        c = prog.classes.get(fn.m.name + '.' + fn.cls.name)
        if c is None or fn.node.name == '__init__':
            continue
        for n in nodes(fn):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                store = n.value
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                store = n
            else:
                continue
            r, p = base(store)
            if r != 'self' or len(p) != 1:
                continue
            why = memo(fn, n, store)
            if why is None:
                continue
            key = '%s:%s' % (fn.q, p[0])
            if why:
                rep.bad('memo-key', key, fn.where(n), 'self.%s: %s' % (p[0], why))
                continue
            v = kept_value(fn, n)
            read = reaches(fn, prog, c, self_attrs(v, fn.al)) - {p[0]}
            bad = None
            for k in family(prog, c):
                for f in list(k.methods.values()) + list(k.setters.values()):
                    if f.name == '__init__' or f.node is fn.node:
                        continue
                    w = stores_of(f) & read
                    if w and p[0] not in closure_stores(k, f) and not (
                            w <= memoised(prog, funcs, k)):
                        bad = (f, sorted(w - memoised(prog, funcs, k))[0])
            if bad:
                rep.bad('memo-stale', key, fn.where(n),
                        'self.%s is computed once from self.%s, which %s changes without dropping '
                        'it' % (p[0], bad[1], bad[0].name))
            else:
                rep.ok('memo', key, '')


def memoised(prog, funcs, c):
    """Attributes of a class that are themselves filled on first use."""
    out = set()
    for fn in funcs:
        if fn.cls is None:
            continue
        k = prog.classes.get(fn.m.name + '.' + fn.cls.name)
        if k is None or k not in c.mro():
            continue
        for n in nodes(fn):
            if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                store = n.value if isinstance(n, ast.Subscript) else n
                r, p = base(store)
                if r == 'self' and len(p) == 1 and memo(fn, n, store) == '':
                    out.add(p[0])
    return out


def one_object(prog, rep, funcs):
    """A loop that collects one and the same changeable object under several entries."""
    for fn in funcs:
        defs = {}
        for n in nodes(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        defs.setdefault(t.id, []).append(n.value)
        for lp in nodes(fn):
            if not isinstance(lp, (ast.For, ast.While)):
                continue
            bound = {x.id for y in ast.walk(lp) if isinstance(y, (ast.Assign, ast.For, ast.With,
                                                                  ast.comprehension, ast.AnnAssign))
                     for x in ast.walk(y) if isinstance(x, ast.Name) and
                     isinstance(x.ctx, ast.Store)}
            for s in lp.body:
                for n in ast.walk(s):
                    v = None
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                            n.func.attr == 'append' and len(n.args) == 1:
                        v, into = n.args[0], base(n.func.value)[0]
                    elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript):
                        v, into = n.value, base(n.targets[0])[0]
                    if not isinstance(v, ast.Name) or v.id in bound or not defs.get(v.id) or \
                            v.id in fn_params(fn) or into in bound or into == v.id:
                        continue
                    if isinstance(n, ast.Call) and len(n.args) == 1 and leaves_loop(lp, n):
                        continue
                    mut = [is_mutable(prog, fn.m, d) for d in defs[v.id]]
                    key = '%s:%s' % (fn.q, v.id)
                    if all(x is True for x in mut) and collection(prog, fn, into, defs):
                        rep.bad('entries-shared', key, fn.where(n),
                                'every pass of the loop stores the one object %s' % v.id)
                    else:
                        rep.ok('entries-shared', key, '')


def leaves_loop(lp, n):
    return any(isinstance(x, (ast.Break, ast.Return)) for s in lp.body for x in ast.walk(s))


def collection(prog, fn, name, defs):
    """The name is a list or dictionary (not a circuit a gate is appended to)."""
    if name == 'self':
        return True
    d = defs.get(name, [])
    return bool(d) and all(isinstance(x, (ast.List, ast.Dict, ast.ListComp, ast.DictComp)) or
                           isinstance(x, ast.Call) and dotted(x.func) in ('list', 'dict')
                           for x in d)
