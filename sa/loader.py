"""Source loader and name resolution for qiskit.ignis (no code of /repo is imported or run)."""
import ast
import os
import hashlib

REPO = os.environ.get('IGNIS_REPO', '/repo')
PKG = 'qiskit.ignis'


class FuncInfo:
    def __init__(self, qual, node, module, cls=None, outer=None):
        self.qual, self.node, self.module, self.cls, self.outer = qual, node, module, cls, outer
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        self.decorators = []
        for d in getattr(node, 'decorator_list', []):
            self.decorators.append(ast.unparse(d))

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def is_property(self):
        return 'property' in self.decorators or any(d.endswith('abstractproperty')
                                                    for d in self.decorators)

    @property
    def is_setter(self):
        return any(d.endswith('.setter') for d in self.decorators)

    @property
    def is_abstract(self):
        return any('abstractmethod' in d or 'abstractproperty' in d for d in self.decorators)

    def doc(self):
        try:
            return ast.get_docstring(self.node) or ''
        except TypeError:
            return ''

    def where(self, node=None):
        n = node if node is not None else self.node
        return '%s:%d' % (self.module.rel, getattr(n, 'lineno', 0))

    def __repr__(self):
        return '<Func %s>' % self.qual


class ClassInfo:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.name = node.name
        self.methods = {}     # name -> FuncInfo (getter for properties)
        self.setters = {}
        self.attrs = {}       # class-level name -> ast value
        self.bases = []       # resolved: ClassInfo or dotted str
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(qual + '.' + st.name, st, module, self)
                if f.is_setter:
                    self.setters[st.name] = f
                else:
                    self.methods[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                self.attrs[st.target.id] = st.value

    def mro(self):
        out, seen = [], set()

        def go(c):
            if isinstance(c, ClassInfo) and c.qual not in seen:
                seen.add(c.qual)
                out.append(c)
                for b in c.bases:
                    go(b)
        go(self)
        return out

    def ext_bases(self):
        r = []
        for c in self.mro():
            for b in c.bases:
                if not isinstance(b, ClassInfo):
                    r.append(b)
        return r

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_after(self, cls, name):
        m = self.mro()
        i = m.index(cls) if cls in m else -1
        for c in m[i + 1:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_subclass(self, qual):
        return any(c.qual == qual or c.name == qual for c in self.mro()) or qual in self.ext_bases()

    def __repr__(self):
        return '<Class %s>' % self.qual


class Module:
    def __init__(self, name, path, tree, rel, is_pkg):
        self.name, self.path, self.tree, self.rel, self.is_pkg = name, path, tree, rel, is_pkg
        self.imports = {}    # local name -> dotted target
        self.star = []       # star-import modules
        self.functions = {}
        self.classes = {}
        self.globals = {}    # name -> last assigned ast value (module level)
        self.global_assigns = []  # (name, value, node)


class Program:
    def __init__(self, root=None, overlay=None):
        self.root = root or REPO
        self.overlay = overlay or {}
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.digest = hashlib.sha256()
        self._load()

    def _load(self):
        base = os.path.join(self.root, 'qiskit', 'ignis')
        if not os.path.isdir(base):
            raise SystemExit('analysis broken: %s missing' % base)
        for dp, dn, fn in os.walk(base):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == '__init__'
                if is_pkg:
                    parts = parts[:-1]
                if rel in self.overlay:
                    src = self.overlay[rel]
                else:
                    with open(p, encoding='utf-8') as fh:
                        src = fh.read()
                self.digest.update(rel.encode() + b'\0' + src.encode() + b'\0')
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as ex:
                    raise SystemExit('analysis broken: cannot parse %s: %s' % (p, ex))
                m = Module('.'.join(parts), p, tree, rel, is_pkg)
                self.modules[m.name] = m
        for m in self.modules.values():
            self._scan(m)
        for c in list(self.classes.values()):
            for b in c.node.bases:
                d = dotted(b)
                if d is None:
                    c.bases.append(ast.unparse(b))
                    continue
                r = self.resolve_dotted(c.module, d)
                c.bases.append(self.classes.get(r, r) if isinstance(r, str) else r)
            c.bases = [self.classes.get(b, b) if isinstance(b, str) else b for b in c.bases]

    def _abs(self, m, node):
        if node.level == 0:
            return node.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        if node.level > 1:
            parts = parts[:-(node.level - 1)]
        if node.module:
            parts = parts + node.module.split('.')
        return '.'.join(parts)

    def _scan(self, m):
        def stmts(body):
            for st in body:
                yield st
                if isinstance(st, ast.Try):
                    yield from stmts(st.body)
                    for h in st.handlers:
                        yield from stmts(h.body)
                    yield from stmts(st.orelse)
                    yield from stmts(st.finalbody)
                elif isinstance(st, (ast.If,)):
                    yield from stmts(st.body)
                    yield from stmts(st.orelse)
                elif isinstance(st, ast.With):
                    yield from stmts(st.body)
        for st in stmts(m.tree.body):
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(st, ast.ImportFrom):
                src = self._abs(m, st)
                for a in st.names:
                    if a.name == '*':
                        m.star.append(src)
                    else:
                        m.imports[a.asname or a.name] = src + '.' + a.name
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(m.name + '.' + st.name, st, m)
                m.functions[st.name] = f
                self.funcs[f.qual] = f
            elif isinstance(st, ast.ClassDef):
                c = ClassInfo(m.name + '.' + st.name, st, m)
                m.classes[st.name] = c
                self.classes[c.qual] = c
                for f in list(c.methods.values()) + list(c.setters.values()):
                    self.funcs[f.qual + ('.setter' if f.is_setter else '')] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.globals[t.id] = st.value
                        m.global_assigns.append((t.id, st.value, st))
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value:
                m.globals[st.target.id] = st.value
                m.global_assigns.append((st.target.id, st.value, st))

    def add_text(self, name, src):
        """Add a specification module given as text (analysed like repository source)."""
        m = Module(name, '<%s>' % name, ast.parse(src), '<%s>' % name, False)
        self.modules[name] = m
        self._scan(m)
        return m

    def resolve_name(self, m, name, _seen=None):
        """Resolve a module-level name to a canonical dotted name, or None."""
        seen = _seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        if name in m.functions:
            return m.functions[name].qual
        if name in m.classes:
            return m.classes[name].qual
        if name in m.imports:
            return self.canon(m.imports[name], seen)
        if name in m.globals:
            return m.name + '.' + name
        for s in m.star:
            mm = self.modules.get(s)
            if mm:
                r = self.resolve_name(mm, name, seen)
                if r:
                    return r
        return None

    def canon(self, dotted_name, seen=None):
        """Canonicalise a dotted path following repo re-exports."""
        if dotted_name in self.modules or dotted_name in self.funcs or dotted_name in self.classes:
            # a package attribute may shadow a module name; functions win below
            pass
        if dotted_name in self.funcs or dotted_name in self.classes:
            return dotted_name
        parts = dotted_name.split('.')
        for i in range(len(parts) - 1, 0, -1):
            pre = '.'.join(parts[:i])
            if pre in self.modules:
                m = self.modules[pre]
                r = self.resolve_name(m, parts[i], seen)
                if r is None:
                    return dotted_name
                rest = parts[i + 1:]
                return '.'.join([r] + rest) if rest else r
        return dotted_name

    def resolve_dotted(self, m, d):
        parts = d.split('.')
        r = self.resolve_name(m, parts[0])
        if r is None:
            return d
        if len(parts) > 1:
            return self.canon('.'.join([r] + parts[1:]))
        return r

    def func(self, qual):
        """Look up by suffix of the qualified name (must be unique)."""
        if qual in self.funcs:
            return self.funcs[qual]
        hits = [f for q, f in self.funcs.items() if q.endswith('.' + qual)]
        if len(hits) == 1:
            return hits[0]
        return None

    def cls(self, name):
        if name in self.classes:
            return self.classes[name]
        hits = [c for q, c in self.classes.items() if q.endswith('.' + name)]
        if len(hits) == 1:
            return hits[0]
        return None


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return None if b is None else b + '.' + node.attr
    return None
