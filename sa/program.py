"""Index of the whole program for the syntax-tree analyses: modules, classes, functions, name
resolution across imports, a call graph by name and simple types.  Nothing is imported or run."""

import ast
import builtins
import os

REPO = os.environ.get('SA_REPO', '/repo')
SKIP_DIRS = {'test', 'tests', 'benchmarks', 'validation_cases', '__pycache__', 'docs', 'node_modules'}
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__class__', '__spec__'}


class Ext:
    """something defined outside the repository"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Ext(%s)' % self.path


class Var:
    """a module or class level variable"""

    def __init__(self, module, node, owner=None):
        self.module, self.node, self.owner = module, node, owner


class Func:
    def __init__(self, module, node, cls=None, parent=None):
        self.module, self.node, self.cls, self.parent = module, node, cls, parent
        self.name = node.name
        self.nested = {}
        self._types = None
        self._locals = None
        self.decorators = [ast.unparse(d) for d in node.decorator_list]

    @property
    def qual(self):
        p = self.parent.qual + '.<locals>.' if self.parent else self.module.name.replace('aviary.', '', 1) + '.'
        return p + (self.cls.name + '.' if self.cls and not self.parent else '') + self.name

    @property
    def static(self):
        return any(d.split('.')[-1] == 'staticmethod' for d in self.decorators)

    @property
    def is_property(self):
        return any(d.split('.')[-1] in ('property', 'cached_property', 'setter') for d in self.decorators)

    def params(self):
        """(positional names, number required, keyword-only names, required keyword-only, *args?, **kw?)"""
        a = self.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        req = len(pos) - len(a.defaults)
        kwo = [x.arg for x in a.kwonlyargs]
        kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        return pos, req, kwo, kwreq, a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None

    def all_params(self):
        pos, _, kwo, _, va, kw = self.params()
        return pos + kwo + [x for x in (va, kw) if x]

    def locals(self):
        if self._locals is None:
            self._locals = local_names(self.node)
        return self._locals

    def __repr__(self):
        return 'Func(%s)' % self.qual


class Class:
    def __init__(self, module, node, outer=None):
        self.module, self.node, self.outer = module, node, outer
        self.name = node.name
        self.methods, self.vars, self.inner = {}, {}, {}
        self.attrs = set()  # self.x assigned in a method
        self.attr_values = {}  # self.x = <expr> : [(func, expr)]
        self._bases = None
        self.subclasses = []
        self.method_list = []

    @property
    def qual(self):
        return self.module.name.replace('aviary.', '', 1) + '.' + ((self.outer.name + '.') if self.outer else '') + self.name

    def bases(self):
        if self._bases is None:
            self._bases = [self.module.prog.resolve_expr(self.module, b) for b in self.node.bases]
        return self._bases

    def mro(self):
        out, seen = [], set()

        def go(c):
            if c in seen:
                return
            seen.add(c)
            out.append(c)
            for b in c.bases():
                if isinstance(b, Class):
                    go(b)

        go(self)
        return out

    def open_base(self):
        """external bases of the class (anything but object), through its ancestors"""
        out = []
        for c in self.mro():
            for b in c.bases():
                if not isinstance(b, Class) and not (isinstance(b, Ext) and b.path in ('object', 'builtins.object')):
                    out.append(b.path if isinstance(b, Ext) else '?')
            if c.node.keywords:
                out.append('metaclass')
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
            if name in c.inner:
                return c.inner[name]
            if name in c.vars:
                return c.vars[name]
        return None

    def all_subclasses(self):
        out, todo = [], list(self.subclasses)
        while todo:
            c = todo.pop()
            if c not in out:
                out.append(c)
                todo += c.subclasses
        return out

    def __repr__(self):
        return 'Class(%s)' % self.qual


class Module:
    def __init__(self, prog, name, path, tree, is_pkg):
        self.prog, self.name, self.path, self.tree, self.is_pkg = prog, name, path, tree, is_pkg
        self.names = {}
        self.funcs, self.classes = [], []
        self.star = []
        self.external = False

    @property
    def rel(self):
        return os.path.relpath(self.path, self.prog.root)

    def __repr__(self):
        return 'Module(%s)' % self.name


def target_names(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from target_names(e)
    elif isinstance(t, ast.Starred):
        yield from target_names(t.value)


def scope_walk(node, into_comprehensions=True):
    """nodes of one scope: does not enter nested functions, classes or lambdas (but yields them)"""
    todo = list(node.body) if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Module)) else [node.body]
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo[:0] = n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d]
            continue
        if isinstance(n, ast.ClassDef):
            todo[:0] = n.decorator_list + n.bases + [k.value for k in n.keywords]
            continue
        if isinstance(n, ast.Lambda):
            todo[:0] = n.args.defaults + [d for d in n.args.kw_defaults if d]
            continue
        todo[:0] = list(ast.iter_child_nodes(n))


def bound_names(nodes):
    """names bound by statements among nodes"""
    out = set()
    for n in nodes:
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchAs) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            out.add(n.name)
    return out


def local_names(fn):
    nodes = list(scope_walk(fn))
    b = bound_names(nodes)
    for n in nodes:
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            b -= set(n.names)
    a = fn.args
    b |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    b |= {x.arg for x in (a.vararg, a.kwarg) if x}
    return b


def site_packages():
    import glob

    for d in sorted(glob.glob('/opt/venv/lib/python3*/site-packages')):
        return d
    return None


class Program:
    def __init__(self, repo=None, tests=False, pkg='aviary', external=()):
        self.root = repo or REPO
        self.pkg = pkg
        self.external, self.ext_modules = tuple(external), {}
        self.site = site_packages()
        self.modules = {}
        self.errors = []
        base = os.path.join(self.root, pkg)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in SKIP_DIRS)
            for f in sorted(fn):
                if not f.endswith('.py') or f.startswith('test_') or f.startswith('conftest'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, '.')
                is_pkg = rel.endswith('.__init__')
                name = rel[: -len('.__init__')] if is_pkg else rel
                try:
                    tree = ast.parse(open(p, encoding='utf-8').read(), p)
                except SyntaxError as e:
                    self.errors.append('%s: %s' % (rel, e))
                    continue
                self.modules[name] = Module(self, name, p, tree, is_pkg)
        for m in list(self.modules.values()):
            self._index(m)
        for m in self.modules.values():
            for c in m.classes:
                for b in c.bases():
                    if isinstance(b, Class):
                        b.subclasses.append(c)
        self.functions = [f for m in self.modules.values() for f in m.funcs]
        self.classes = [c for m in self.modules.values() for c in m.classes]
        self.by_method = {}
        for c in self.classes:
            for n, f in c.methods.items():
                self.by_method.setdefault(n, []).append(f)
        self.unit_fns = {}

    # ---------------------------------------------------------------- index
    def _index(self, m):
        self._block(m, m.tree.body, m.names)

    def _block(self, m, body, names, cls=None):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._func(m, n, cls, None)
                if cls is not None:
                    if not any(d.endswith('.setter') for d in f.decorators):
                        cls.methods[n.name] = f
                    cls.method_list.append(f)
                else:
                    names[n.name] = f
            elif isinstance(n, ast.ClassDef):
                c = self._class(m, n, cls)
                if cls is not None:
                    cls.inner[n.name] = c
                else:
                    names[n.name] = c
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self._import(m, n, names if cls is None else cls.vars)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While, ast.Match)):
                for f in ('body', 'orelse', 'finalbody'):
                    self._block(m, getattr(n, f, []), names, cls)
                for h in getattr(n, 'handlers', []):
                    self._block(m, h.body, names, cls)
                for h in getattr(n, 'cases', []):
                    self._block(m, h.body, names, cls)
                for t in ([n.target] if isinstance(n, ast.For) else [i.optional_vars for i in n.items if i.optional_vars] if isinstance(n, ast.With) else []):
                    for x in target_names(t):
                        (names if cls is None else cls.vars).setdefault(x, Var(m, n))
            elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    for x in target_names(t):
                        (names if cls is None else cls.vars)[x] = Var(m, n, cls)
            elif isinstance(n, ast.Delete):
                pass
        if cls is None:
            for n in body:
                for w in ast.walk(n) if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else []:
                    if isinstance(w, ast.NamedExpr):
                        names.setdefault(w.target.id, Var(m, n))

    def _class(self, m, n, outer):
        c = Class(m, n, outer)
        m.classes.append(c)
        self._block(m, n.body, None, c)
        return c

    def _func(self, m, n, cls, parent):
        f = Func(m, n, cls, parent)
        m.funcs.append(f)
        selfname = n.args.args[0].arg if cls and n.args.args and not f.static else (parent_self(parent) if parent else None)
        f.selfname = selfname
        for x in scope_walk(n):
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f.nested[x.name] = self._func(m, x, cls, f)
            elif isinstance(x, ast.ClassDef):
                f.nested[x.name] = self._class(m, x, None)
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == selfname and cls:
                cls.attrs.add(x.attr)
            elif isinstance(x, ast.Global):
                for g in x.names:
                    m.names.setdefault(g, Var(m, x))
            if isinstance(x, ast.Assign) and cls:
                for t in x.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == selfname:
                        cls.attr_values.setdefault(t.attr, []).append((f, x.value))
        return f

    def _import(self, m, n, names):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    names[a.asname] = self.modules.get(a.name) or self.load_ext(a.name) or Ext(a.name)
                else:
                    top = a.name.split('.')[0]
                    names[top] = self.modules.get(top) or self.load_ext(top) or Ext(top)
        else:
            mod = self.abs_module(m, n)
            for a in n.names:
                if a.name == '*':
                    m.star.append(mod)
                    continue
                names[a.asname or a.name] = ImportRef(mod, a.name)

    def abs_module(self, m, n):
        if not n.level:
            return n.module or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (n.level - 1)]
        return '.'.join(parts + ([n.module] if n.module else []))

    # ------------------------------------------------------------ resolution
    def load_ext(self, mod):
        """module of an analysed installed package, parsed on demand"""
        if mod.split('.')[0] not in self.external or not self.site:
            return None
        if mod not in self.ext_modules:
            self.ext_modules[mod] = None
            base = os.path.join(self.site, *mod.split('.'))
            for path, pk in ((os.path.join(base, '__init__.pyi'), True), (base + '.pyi', False), (base + '.py', False), (os.path.join(base, '__init__.py'), True)):
                if os.path.exists(path):
                    try:
                        tree = ast.parse(open(path, encoding='utf-8').read(), path)
                    except (SyntaxError, UnicodeDecodeError):
                        break
                    m = self.ext_modules[mod] = Module(self, mod, path, tree, pk)
                    m.external = True
                    self._index(m)
                    break
        return self.ext_modules[mod]

    def load_all(self):
        """every attribute and module member name of the program and of the analysed packages"""
        for pkg in self.external:
            base = os.path.join(self.site or '', pkg)
            for dp, dn, fn in os.walk(base):
                dn[:] = sorted(d for d in dn if d not in ('test', 'tests', 'test_suite', 'docs', 'doc', 'examples', '__pycache__', 'benchmarks'))
                for f in fn:
                    if f.endswith('.py') or f.endswith('.pyi'):
                        rel = os.path.relpath(os.path.join(dp, f), self.site).rsplit('.', 1)[0].replace(os.sep, '.')
                        self.load_ext(rel[: -len('.__init__')] if rel.endswith('.__init__') else rel)
        out = set()
        for m in list(self.modules.values()) + [m for m in self.ext_modules.values() if m]:
            out |= set(m.names) | set(m.name.split('.'))
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'hasattr', 'getattr') and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
            for c in m.classes:
                out |= set(c.methods) | set(c.vars) | set(c.inner) | c.attrs
        return out

    def member(self, mod, name, seen=()):
        """entity called `name` in module `mod` (dotted name); None if the module is known and lacks it"""
        if mod not in self.modules:
            if mod.split('.')[0] == 'aviary' and not self.exists(mod):
                return None
            m = self.load_ext(mod)
            if m is None:
                return Ext(mod + '.' + name)
        else:
            m = self.modules[mod]
        if (mod, name) in seen:
            return Ext('?')
        e = m.names.get(name)
        if isinstance(e, ImportRef):
            return self.member(e.mod, e.name, seen + ((mod, name),))
        if e is not None:
            return e
        sub = self.modules.get(mod + '.' + name)
        if sub is not None:
            return sub
        if self.exists(mod + '.' + name):
            return Ext(mod + '.' + name)
        if m.external:
            sub = self.load_ext(mod + '.' + name)
            if sub is not None:
                return sub
            if '__getattr__' in m.names or name.startswith('__'):
                return Ext(mod + '.' + name)
        for s in m.star:
            if s not in self.modules and self.load_ext(s) is None:
                return Ext('?')
            r = self.member(s, name, seen + ((mod, name),))
            if r is not None:
                return r
        return None

    def exists(self, dotted):
        p = os.path.join(self.root, *dotted.split('.'))
        return os.path.isdir(p) or os.path.exists(p + '.py')

    def lookup(self, m, name):
        return self.member(m.name, name)

    def resolve_expr(self, m, e, fn=None):
        """entity a Name / dotted expression stands for; None when unknown"""
        if isinstance(e, ast.Name):
            f = fn
            while f is not None:
                if e.id in f.nested:
                    return f.nested[e.id]
                if e.id in f.locals():
                    return self.local_import(f, e.id)
                f = f.parent
            r = self.lookup(m, e.id)
            if r is None and e.id in BUILTINS:
                return Ext('builtins.' + e.id)
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, fn)
            if isinstance(b, Module):
                return self.member(b.name, e.attr)
            if isinstance(b, Class):
                return b.find(e.attr)
            if isinstance(b, Ext):
                return Ext(b.path + '.' + e.attr)
        return None

    def local_import(self, f, name):
        """a name imported inside a function"""
        if not hasattr(f, '_imports'):
            f._imports = {}
            for x in scope_walk(f.node):
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    self._import(f.module, x, f._imports)
        e = f._imports.get(name)
        if isinstance(e, ImportRef):
            return self.member(e.mod, e.name)
        return e

    # ----------------------------------------------------------- simple types
    def type_of(self, fn, e, depth=0):
        """the project class an expression is an instance of, if evident"""
        if depth > 4:
            return None
        if isinstance(e, ast.Call):
            t = self.resolve_expr(fn.module, e.func, fn)
            if isinstance(t, Class):
                return t
            return None
        if isinstance(e, ast.Name):
            if e.id == fn.selfname and fn.cls:
                return fn.cls
            if e.id in fn.locals():
                vals = self.local_values(fn).get(e.id)
                if vals and e.id not in fn.all_params():
                    ts = {self.type_of(fn, v, depth + 1) if v is not None else None for v in vals}
                    return ts.pop() if len(ts) == 1 else None
                return None
            f = fn.parent
            return self.type_of(f, e, depth + 1) if f is not None else None
        if isinstance(e, ast.Attribute):
            o = self.type_of(fn, e.value, depth + 1)
            if o is not None:
                vals = [v for c in o.mro() for v in c.attr_values.get(e.attr, [])]
                if vals and not any(c.attr_values.get(e.attr) for c in o.all_subclasses()):
                    ts = {self.type_of(f, v, depth + 1) for f, v in vals}
                    return ts.pop() if len(ts) == 1 else None
        return None

    def local_values(self, fn):
        if fn._types is None:
            d = {}
            for x in scope_walk(fn.node):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            d.setdefault(t.id, []).append(x.value)
                        else:
                            for n in target_names(t):
                                d.setdefault(n, []).append(None)
                elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                    d.setdefault(x.target.id, []).append(x.value)
                elif isinstance(x, ast.NamedExpr):
                    d.setdefault(x.target.id, []).append(x.value)
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    d.setdefault(x.target.id, []).append(None)
                elif isinstance(x, (ast.For, ast.AsyncFor)):
                    for n in target_names(x.target):
                        d.setdefault(n, []).append(None)
                elif isinstance(x, ast.With):
                    for i in x.items:
                        if isinstance(i.optional_vars, ast.Name):
                            d.setdefault(i.optional_vars.id, []).append(i.context_expr)
                        elif i.optional_vars is not None:
                            for n in target_names(i.optional_vars):
                                d.setdefault(n, []).append(None)
                elif isinstance(x, ast.comprehension):
                    for n in target_names(x.target):
                        d.setdefault(n, []).append(None)
            fn._types = d
        return fn._types

    def callees(self, fn, call, virtual=True):
        """project functions a call may reach ([] unknown or external); constructors give __init__"""
        f = call.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and fn.cls:
                out = []
                for c in fn.cls.mro()[1:]:
                    if f.attr in c.methods:
                        return [c.methods[f.attr]]
                return out
            o = self.type_of(fn, f.value)
            if o is not None:
                m = o.find(f.attr)
                out = [m] if isinstance(m, Func) else []
                if virtual and isinstance(f.value, ast.Name) and f.value.id == fn.selfname:
                    out += [c.methods[f.attr] for c in o.all_subclasses() if f.attr in c.methods]
                return out
        t = self.resolve_expr(fn.module, f, fn)
        if isinstance(t, Func):
            return [t]
        if isinstance(t, Class):
            i = t.find('__init__')
            return [i] if isinstance(i, Func) else []
        return []


class ImportRef:
    def __init__(self, mod, name):
        self.mod, self.name = mod, name


def parent_self(f):
    return getattr(f, 'selfname', None) if f else None


def parents(tree):
    d = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            d[c] = n
    return d
