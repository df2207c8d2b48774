"""C09: whatever the code refers to exists, and every call fits what it calls.

Name resolution over all scopes of all modules, member lookup in modules, classes and evident
instances, argument binding of every call that resolves, for project code and the installed
packages it builds on (parsed, not imported)."""

import ast
import re

from ..assigned import Flow
from ..program import BUILTINS, Class, Ext, Func, Module, Program, Var, scope_walk

EXTERNAL = ('openmdao', 'dymos', 'numpy')
FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
PLAIN = {'object', 'builtins.object', 'abc.ABC', 'enum.Enum', 'enum.IntEnum', 'builtins.Exception', 'builtins.ValueError', 'typing.Generic'}
ENUM = {'enum.Enum', 'enum.IntEnum'}
OBJECT = set(dir(object)) | {'__dict__', '__name__', '__module__', '__annotations__', '__qualname__', '__mro__', '__bases__', '__subclasses__'}
ENUMATTR = {'name', 'value', '_value_', '_name_', '__members__', '_member_map_', '_missing_', '_value2member_map_', '_member_names_'}
EXCATTR = {'args', 'with_traceback', '__cause__', '__context__', '__traceback__', 'add_note'}


STDLIB = ('os', 'os.path', 'sys', 're', 'json', 'math', 'copy', 'warnings', 'pathlib', 'shutil', 'csv', 'itertools', 'functools', 'collections', 'time', 'datetime',
          'enum', 'argparse', 'inspect', 'importlib', 'importlib.util', 'importlib.resources', 'importlib.machinery', 'subprocess', 'tempfile', 'textwrap', 'abc', 'typing',
          'getpass', 'platform', 'string', 'operator', 'io', 'contextlib', 'logging', 'zipfile', 'traceback', 'types', 'dataclasses', 'numbers', 'random', 'errno', 'unittest', 'unittest.mock', 'pprint', 'codecs', 'http', 'builtins')
STDROOTS = {x.split('.')[0] for x in STDLIB}


class Scope:
    def __init__(self, kind, names, outer):
        self.kind, self.names, self.outer = kind, names, outer

    def has(self, name, first=True):
        s, first = self, True
        while s is not None:
            if name in s.names and (s.kind != 'class' or first):
                return True
            if s.kind != 'comp':
                first = False
            s = s.outer
        return False


def own_nodes(body):
    """nodes of one scope; does not enter functions, classes, lambdas or comprehensions (but yields them)"""
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo += n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d]
            todo += [a.annotation for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs if a.annotation]
        elif isinstance(n, ast.ClassDef):
            todo += n.decorator_list + n.bases + [k.value for k in n.keywords]
        elif isinstance(n, ast.Lambda):
            todo += n.args.defaults + [d for d in n.args.kw_defaults if d]
        elif isinstance(n, COMP):
            todo.append(n.generators[0].iter)
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    todo.append(w.target)
        else:
            todo += list(ast.iter_child_nodes(n))


def binds(nodes):
    out, glob = set(), set()
    for n in nodes:
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
    return out - glob


def arg_names(a):
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}


class Checker:
    def __init__(self):
        self.prog = Program(external=EXTERNAL)
        self.found = []
        self.count = dict(names=0, members=0, imports=0, calls=0, overrides=0, options=0, attributes=0, variables=0)
        self.stored = set()  # attributes stored on anything anywhere
        for m in self.prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.stored.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    self.stored.add(n.args[1].value)

    def report(self, m, node, where, what):
        self.found.append({'key': '%s|%s' % (where, what), 'msg': '%s:%d in %s: %s' % (m.rel, node.lineno, where.split('.')[-1], what)})

    # ------------------------------------------------------------------ names
    def names(self, m):
        nodes = list(own_nodes(m.tree.body))
        top = Scope('module', binds(nodes) | set(m.names), None)
        star = [x for x in m.star]
        unknown_star = any(s not in self.prog.modules and self.prog.load_ext(s) is None for s in star)

        def known(sc, name):
            if sc.has(name) or name in BUILTINS:
                return True
            if star and (unknown_star or self.prog.member(m.name, name) is not None):
                return True
            return False

        def scope(sc, nodes, where):
            for n in nodes:
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    self.count['names'] += 1
                    if not known(sc, n.id) and not guarded_name(n, m):
                        self.report(m, n, where, 'name %s is not defined' % n.id)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    sub = list(own_nodes(n.body))
                    s = Scope('function', binds(sub) | arg_names(n.args) | ({'__class__', 'super'}), sc)
                    scope(s, sub, where + '.' + n.name)
                elif isinstance(n, ast.ClassDef):
                    sub = list(own_nodes(n.body))
                    scope(Scope('class', binds(sub) | {'__qualname__', '__module__'}, sc), sub, where + '.' + n.name)
                elif isinstance(n, ast.Lambda):
                    sub = list(own_nodes([n.body]))
                    scope(Scope('function', binds(sub) | arg_names(n.args), sc), sub, where)
                elif isinstance(n, COMP):
                    t = set()
                    for g in n.generators:
                        t |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                    parts = [g.iter for g in n.generators[1:]] + [c for g in n.generators for c in g.ifs]
                    parts += [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
                    sub = list(own_nodes(parts))
                    scope(Scope('comp', t, sc), sub, where)

        def guarded_name(n, m):
            return False

        scope(top, nodes, m.name.replace('aviary.', '', 1))

    # ---------------------------------------------------------------- imports
    def imports(self, m):
        par = None
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                mod = self.prog.abs_module(m, n)
                root = mod.split('.')[0]
                if root != self.prog.pkg and root not in self.prog.external:
                    continue
                par = par or parent_map(m.tree)
                if in_try(n, par):
                    continue
                self.count['imports'] += 1
                if root == self.prog.pkg and mod not in self.prog.modules and not self.prog.exists(mod):
                    self.report(m, n, m.name.replace('aviary.', '', 1), 'module %s does not exist' % mod)
                    continue
                for a in n.names:
                    if a.name != '*' and self.prog.member(mod, a.name) is None:
                        self.report(m, n, m.name.replace('aviary.', '', 1), '%s has no member %s' % (mod, a.name))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split('.')[0] == self.prog.pkg:
                        self.count['imports'] += 1
                        if a.name not in self.prog.modules and not self.prog.exists(a.name):
                            self.report(m, n, m.name.replace('aviary.', '', 1), 'module %s does not exist' % a.name)

    # ---------------------------------------------------------------- members
    def closed(self, c):
        """is everything the class inherits known?"""
        for k in c.mro():
            for b in k.bases():
                if not isinstance(b, Class) and not (isinstance(b, Ext) and b.path in PLAIN):
                    return False
            if '__getattr__' in k.methods or '__getattribute__' in k.methods or '__slots__' in k.vars:
                return False
            if k.node.decorator_list and not all('dataclass' in ast.unparse(d) or 'total_ordering' in ast.unparse(d) for d in k.node.decorator_list):
                return False
        return True

    def has_attr(self, c, name, instance):
        if name in OBJECT or c.find(name) is not None:
            return True
        ext = {b.path for k in c.mro() for b in k.bases() if isinstance(b, Ext)}
        if ext & ENUM and name in ENUMATTR:
            return True
        if any('Exception' in e or 'Error' in e for e in ext) and name in EXCATTR:
            return True
        if instance:
            for k in c.mro():
                if name in k.attrs:
                    return True
            for k in c.mro():
                for f in k.method_list:
                    if uses_setattr(f):
                        return True
        return False

    def members(self, m):
        """attribute access on modules and classes"""
        prog = self.prog

        def walk(n, fn, where):
            for x in own_nodes(n.body if isinstance(n.body, list) else [n.body]):
                visit(x, fn, where)

        def visit(x, fn, where):
            if isinstance(x, ast.Attribute):
                self.attribute(m, x, fn, where)
            elif isinstance(x, COMP):
                for y in ast.walk(x):
                    if isinstance(y, ast.Attribute):
                        self.attribute(m, y, fn, where)

        walk(m.tree, None, m.name.replace('aviary.', '', 1))
        for c in m.classes:
            walk(c.node, None, c.qual)
        for f in m.funcs:
            walk(f.node, f, f.qual)

    def attribute(self, m, x, fn, where):
        if isinstance(x.ctx, ast.Store):
            return
        prog = self.prog
        b = prog.resolve_expr(m, x.value, fn)
        if isinstance(b, Module):
            self.count['members'] += 1
            if prog.member(b.name, x.attr) is None and not (x.attr.startswith('__')) and not imported_later(prog, b, x.attr):
                self.report(m, x, where, '%s has no member %s' % (ast.unparse(x.value), x.attr))
        elif isinstance(b, Class):
            self.count['members'] += 1
            if self.closed(b) and not self.has_attr(b, x.attr, False) and x.attr not in self.stored:
                self.report(m, x, where, '%s has no member %s' % (ast.unparse(x.value), x.attr))
        elif b is None and fn is not None:
            o = prog.type_of(fn, x.value)
            if o is None or not self.closed(o):
                return
            self.count['attributes'] += 1
            if self.has_attr(o, x.attr, True):
                return
            if isinstance(x.value, ast.Name) and x.value.id == fn.selfname:
                if any(self.has_attr(s, x.attr, True) or not self.closed(s) for s in o.all_subclasses()):
                    return
                if fn.static:
                    return
            if x.attr in self.stored and not (isinstance(x.value, ast.Name) and x.value.id == fn.selfname and not self.stored_elsewhere(x.attr, o)):
                return
            if hasattr_guard(fn, x.attr):
                return
            self.report(m, x, where, '%s (a %s) has no attribute %s' % (ast.unparse(x.value), o.name, x.attr))

    def stored_elsewhere(self, attr, o):
        """is the attribute ever stored through something else than the self of an unrelated class?"""
        if not hasattr(self, '_foreign'):
            self._foreign = set()
            for f in self.prog.functions:
                for n in scope_walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == f.selfname):
                        self._foreign.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr':
                        if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                            self._foreign.add(n.args[1].value)
        return attr in self._foreign

    # ------------------------------------------------------------------ calls
    def calls(self, m):
        prog = self.prog

        def site(f, where, nodes):
            for x in nodes:
                if isinstance(x, ast.Call):
                    self.call(m, x, f, where)
                elif isinstance(x, COMP + (ast.Lambda,)):
                    for y in ast.walk(x):
                        if isinstance(y, ast.Call):
                            self.call(m, y, f, where)

        for f in m.funcs:
            site(f, f.qual, own_nodes(f.node.body))
        none = type('F', (), dict(module=m, cls=None, parent=None, nested={}, selfname=None, locals=lambda s: set(), all_params=lambda s: [], node=m.tree, _types=None, static=False))()
        site(none, m.name.replace('aviary.', '', 1), own_nodes(m.tree.body))

    def call(self, m, c, f, where):
        prog = self.prog
        for g, bound in self.targets(c, f):
            self.count['calls'] += 1
            why = misfit(c, g, bound)
            if why:
                self.report(m, c, where, 'call of %s %s' % (g.qual.split('aviary.')[-1] if not g.module.external else '%s.%s' % (g.cls.name if g.cls else '', g.name), why))

    def targets(self, c, f):
        prog = self.prog
        fun = c.func
        if isinstance(fun, ast.Attribute) and isinstance(fun.value, ast.Call) and isinstance(fun.value.func, ast.Name) and fun.value.func.id == 'super':
            if f.cls and f.cls in f.module.classes:
                for k in f.cls.mro()[1:]:
                    if fun.attr in k.methods:
                        return [(k.methods[fun.attr], True)]
            return []
        t = prog.resolve_expr(f.module, fun, f)
        if isinstance(t, Func):
            if t.module.path.endswith('.pyi') or wrapped(t):
                return []
            if isinstance(fun, ast.Attribute) and isinstance(prog.resolve_expr(f.module, fun.value, f), Class):
                return [(t, t.cls is not None and any(d.split('.')[-1] == 'classmethod' for d in t.decorators))]
            return [(t, False)]
        if isinstance(t, Class):
            if t.module.path.endswith('.pyi'):
                return []
            if any(isinstance(b, Ext) and b.path in ENUM for k in t.mro() for b in k.bases()) or t.node.keywords and not t.module.external:
                return []
            i = t.find('__init__')
            if '__new__' in [n for k in t.mro() for n in k.methods] or not self.closed(t):
                if not isinstance(i, Func):
                    return []
            if isinstance(i, Func) and not wrapped(i):
                return [(i, True)]
            return []
        if isinstance(fun, ast.Attribute):
            o = prog.type_of(f, fun.value)
            if o is not None and not o.module.path.endswith('.pyi'):
                out = []
                g = o.find(fun.attr)
                if isinstance(g, Func) and not wrapped(g):
                    out.append((g, not g.static))
                if isinstance(fun.value, ast.Name) and fun.value.id == f.selfname:
                    if not all(a not in ('cls',) for a in [fun.value.id]):
                        return []
                    for s in o.all_subclasses():
                        h = s.methods.get(fun.attr)
                        if isinstance(h, Func) and not wrapped(h):
                            out.append((h, not h.static))
                return out
        return []

    # -------------------------------------------------------------- overrides
    def interface_calls(self):
        """calls through a base class: every override must take the arguments of every call by name"""
        prog = self.prog
        ext = set()
        roots = {}
        for c in prog.classes:
            for n, f in c.methods.items():
                roots.setdefault(n, []).append(f)
        for n, fs in roots.items():
            if n.startswith('__') or len(fs) < 2:
                continue
            tops = {self.top(f.cls, n) for f in fs}
            if len(tops) != 1:
                continue
            top = tops.pop()
            if top.module.external or self.external_method(n):
                continue
            if any(isinstance(g, Func) and g.name == n and g.cls is None for m in prog.modules.values() for g in m.funcs):
                continue
            for f in prog.functions:
                for x in scope_walk(f.node):
                    if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == n):
                        continue
                    if self.targets(x, f):
                        continue
                    if isinstance(x.func.value, ast.Call) and isinstance(x.func.value.func, ast.Name) and x.func.value.func.id == 'super':
                        continue
                    if isinstance(prog.resolve_expr(f.module, x.func.value, f), (Ext, Module, Class)):
                        continue
                    if prog.type_of(f, x.func.value) is not None:
                        continue
                    for g in fs:
                        if wrapped(g):
                            continue
                        self.count['overrides'] += 1
                        why = misfit(x, g, not g.static)
                        if why:
                            self.report(f.module, x, f.qual, 'call of %s, which may be %s, %s' % (n, g.qual, why))

    def top(self, c, name):
        t = c
        for k in c.mro():
            if name in k.methods:
                t = k
        return t

    def external_method(self, n):
        if not hasattr(self, '_extm'):
            self._extm = set()
            for t in (str, list, dict, set, tuple, int, float, bytes):
                self._extm |= set(dir(t))
            for m in list(self.prog.ext_modules.values()):
                if m:
                    for c in m.classes:
                        self._extm |= set(c.methods)
        return n in self._extm

    # -------------------------------------------------------------- variables
    def variables(self):
        """full variable names written as strings exist in the hierarchy"""
        prog = self.prog
        names, defs = set(), set()
        hier = prog.modules.get(prog.pkg + '.variable_info.variables')
        if hier is None:
            return
        for c in prog.classes:
            for n in c.node.body:
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                    names.add(n.value.value)
                    defs.add(id(n.value))
        heads = {n.split(':')[0] + ':' + n.split(':')[1] for n in names if n.count(':') > 1} | {n.split(':')[0] + ':' + n.split(':')[1] for n in names if n.count(':') == 1}
        pat = re.compile(r'(aircraft|mission|dynamic|settings)(:[a-z0-9_]+)+$')
        for m in prog.modules.values():
            if m is hier:
                continue
            doc = {id(d) for d in docstrings(m.tree)}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in doc and id(n) not in defs and pat.match(n.value):
                    self.count['variables'] += 1
                    if n.value not in names and n.value not in heads and not any(x.startswith(n.value + ':') for x in names):
                        self.report(m, n, m.name.replace('aviary.', '', 1), 'variable %s is not in the hierarchy' % n.value)

    # ---------------------------------------------------------------- options
    def options(self):
        """component options read are declared by the class or one of its bases"""
        prog = self.prog
        for c in prog.classes:
            if not any(k.module.external and k.name == 'System' for k in c.mro()):
                continue
            decl, open_ = set(), False
            for k in c.mro():
                if k.module.path.endswith('.pyi'):
                    open_ = True
                for f in k.method_list:
                    d, o = declared(prog, f)
                    decl |= d
                    open_ |= o
                for b in k.bases():
                    if not isinstance(b, Class) and not (isinstance(b, Ext) and b.path in PLAIN):
                        open_ = True
            if open_:
                continue
            subs = c.all_subclasses()
            for f in c.method_list:
                for x in scope_walk(f.node):
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and x.value.attr == 'options' and isinstance(x.value.value, ast.Name) and x.value.value.id == f.selfname:
                        k = key_of(prog, f, x.slice)
                        if k is None:
                            continue
                        self.count['options'] += 1
                        if k in decl or self.dead(f):
                            continue
                        if subs and all(k in self.decl_of(s) for s in subs):
                            continue
                        self.report(f.module, x, f.qual, 'option %s is not declared' % ast.unparse(x.slice))

    def dead(self, f):
        """a private method that nothing refers to"""
        if not f.name.startswith('_') or f.name.startswith('__'):
            return False
        if not hasattr(self, '_used'):
            self._used = {}
            for m in self.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, (ast.Attribute, ast.Name)) and isinstance(n.ctx, ast.Load):
                        k = n.attr if isinstance(n, ast.Attribute) else n.id
                        self._used[k] = self._used.get(k, 0) + 1
        return f.name not in self._used

    def constructors(self):
        """keywords given to the constructor of a component are options it declares"""
        prog = self.prog
        for f in prog.functions:
            for x in ast.walk(f.node):
                if not isinstance(x, ast.Call) or not x.keywords:
                    continue
                c = prog.resolve_expr(f.module, x.func, f)
                if not isinstance(c, Class) or c.module.external or not any(k.module.external and k.name == 'System' for k in c.mro()):
                    continue
                i = c.find('__init__')
                if not isinstance(i, Func) or not i.module.external:
                    continue
                decl, taken = self.decl_of(c), set()
                for k in c.mro():
                    g = k.methods.get('__init__')
                    if isinstance(g, Func):
                        taken |= set(g.all_params())
                for k in x.keywords:
                    if k.arg:
                        self.count['options'] += 1
                        if k.arg not in decl and k.arg not in taken:
                            self.report(f.module, x, f.qual, 'call of %s passes %s, which it does not declare' % (c.name, k.arg))

    def universe(self):
        """every attribute name that some object can have"""
        prog = self.prog
        names = set(self.stored) | OBJECT | ENUMATTR | EXCATTR | prog.load_all()
        for t in (str, list, dict, set, tuple, int, float, complex, bytes, range, slice, type, frozenset, BaseException, property, memoryview, type(lambda: 0), type((i for i in ())), type(ast), type(re.compile('')), type(re.match('', '')), type(''.join)):
            names |= set(dir(t))
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute):
                    continue
                # command line arguments and named subsystems become attributes
                if n.func.attr in ('add_argument', 'add_subparsers'):
                    names |= {a.value.lstrip('-').replace('-', '_') for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)}
                    names |= {k.value.value for k in n.keywords if k.arg == 'dest' and isinstance(k.value, ast.Constant)}
                elif n.func.attr == 'add_subsystem' or n.func.attr.startswith(('add_phase', 'add_subproblem')):
                    names |= {a.value for a in list(n.args[:1]) + [k.value for k in n.keywords if k.arg == 'name'] if isinstance(a, ast.Constant)}
                elif n.func.attr == 'namedtuple' or isinstance(n.func, ast.Name):
                    names |= {y.value for y in ast.walk(n) if isinstance(y, ast.Constant) and isinstance(y.value, str)}
        names |= {'bcast', 'Bcast', 'allreduce', 'allgather', 'gather', 'barrier', 'rank', 'size', 'Split', 'Get_rank', 'Get_size'}
        f = (lambda: 0)
        names |= set(dir(f.__code__)) | {'f_back', 'f_code', 'f_globals', 'f_locals', 'tb_frame', 'tb_lineno', 'tb_next'}
        import importlib
        for mod in STDLIB:
            try:
                o = importlib.import_module(mod)
            except ImportError:
                continue
            for v in list(vars(o).values()) + [o]:
                if isinstance(v, type) or v is o:
                    names |= set(dir(v))
        return names

    def unknown_members(self):
        """attribute names that no class of the program or of its libraries has"""
        prog = self.prog
        names = self.universe()
        for m in prog.modules.values():
            roots = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Import):
                    roots |= {a.name.split('.')[0] for a in n.names}
                elif isinstance(n, ast.ImportFrom):
                    roots.add(prog.abs_module(m, n).split('.')[0])
            if roots - {prog.pkg} - set(EXTERNAL) - STDROOTS:
                continue
            for f in m.funcs:
                for x in own_nodes(f.node.body):
                    for y in ast.walk(x) if isinstance(x, COMP + (ast.Lambda,)) else [x]:
                        if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Load):
                            self.count['attributes'] += 1
                            if y.attr not in names and not hasattr_guard(f, y.attr) and not getattr(f.cls, '_open', False):
                                self.report(m, y, f.qual, 'nothing has an attribute %s' % y.attr)

    def decl_of(self, c):
        out = set()
        for k in c.mro():
            for f in k.method_list:
                d, o = declared(self.prog, f)
                out |= d
                if o:
                    out |= Everything()
        return out

    def run(self):
        for m in self.prog.modules.values():
            self.names(m)
            self.imports(m)
            self.members(m)
            self.calls(m)
        self.interface_calls()
        self.variables()
        self.options()
        self.constructors()
        self.unknown_members()
        self.stdlib()
        return self

    # ----------------------------------------------------------------- stdlib
    def stdlib(self):
        import importlib
        import inspect

        prog = self.prog
        for m in prog.modules.values():
            fns = {id(x): f for f in m.funcs for x in ast.walk(f.node)}  # innermost wins: nested functions come later
            for x in ast.walk(m.tree):
                if not isinstance(x, (ast.Attribute, ast.Call)) or isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                    continue
                f = fns.get(id(x))
                r = prog.resolve_expr(m, x.func if isinstance(x, ast.Call) else x, f)
                if not isinstance(r, Ext):
                    continue
                parts = r.path.split('.')
                if parts[0] == 'builtins' or parts[0] not in STDROOTS:
                    continue
                o, ok = None, True
                for i in range(len(parts)):
                    if o is None:
                        try:
                            o = importlib.import_module(parts[0])
                        except ImportError:
                            break
                        continue
                    if not hasattr(o, parts[i]):
                        try:
                            o = importlib.import_module('.'.join(parts[: i + 1]))
                            continue
                        except Exception:
                            pass
                        ok = i < len(parts) - 1 and not inspect.ismodule(o) and not inspect.isclass(o)
                        break
                    o = getattr(o, parts[i])
                where = f.qual if f else m.name.replace('aviary.', '', 1)
                if isinstance(x, ast.Attribute):
                    self.count['members'] += 1
                    if not ok:
                        self.report(m, x, where, '%s does not exist' % r.path)
                elif ok and callable(o) and not inspect.isclass(o):
                    try:
                        sig = inspect.signature(o)
                    except (TypeError, ValueError):
                        continue
                    if any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
                        continue
                    self.count['calls'] += 1
                    try:
                        sig.bind(*[0] * len(x.args), **{k.arg: 0 for k in x.keywords})
                    except TypeError as e:
                        self.report(m, x, where, 'call of %s: %s' % (r.path, e))


class Everything(set):
    def __contains__(self, x):
        return True

    def __ror__(self, o):
        return self


def docstrings(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            yield n.value


def key_of(prog, f, e):
    """identity of an option key: a string, or a variable of the hierarchy"""
    if isinstance(e, ast.Constant):
        return e.value if isinstance(e.value, str) else None
    if isinstance(e, ast.Attribute):
        t = prog.resolve_expr(f.module, e, f)
        if isinstance(t, Var) and isinstance(t.node, ast.Assign) and isinstance(t.node.value, ast.Constant):
            return t.node.value.value
    return None


_decl = {}


def declared(prog, f):
    """(option keys a method declares, does it declare others?)"""
    if f not in _decl:
        out, open_ = set(), False
        for x in scope_walk(f.node):
            if not isinstance(x, ast.Call):
                continue
            if isinstance(x.func, ast.Attribute) and x.func.attr == 'declare' and 'option' in ast.unparse(x.func.value).lower():
                a = x.args[0] if x.args else next((k.value for k in x.keywords if k.arg == 'name'), None)
                k = key_of(prog, f, a) if a is not None else None
                if k is None:
                    open_ = True
                else:
                    out.add(k)
            elif f.module.external:
                continue
            elif isinstance(x.func, ast.Name) and x.func.id not in ('super', 'print', 'len', 'isinstance', 'range', 'list', 'dict'):
                # helpers that are given the component
                selfs = [a for a in x.args if isinstance(a, ast.Name) and a.id == f.selfname]
                if selfs:
                    k = key_of(prog, f, x.args[1]) if len(x.args) > 1 else None
                    if k is not None:
                        out.add(k)
                    elif 'option' in x.func.id:
                        open_ = True
                    else:
                        t = prog.resolve_expr(f.module, x.func, f)
                        if not isinstance(t, Func):
                            open_ = True
                        elif any(isinstance(y, ast.Attribute) and y.attr == 'declare' for y in ast.walk(t.node)):
                            open_ = True
        _decl[f] = (out, open_)
    return _decl[f]


def uses_setattr(f):
    if not hasattr(f, '_setattr'):
        f._setattr = False
        if f.selfname:
            for n in scope_walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == f.selfname and not (len(n.args) > 1 and isinstance(n.args[1], ast.Constant)):
                    f._setattr = True
                elif isinstance(n, ast.Attribute) and n.attr == '__dict__' and isinstance(n.value, ast.Name) and n.value.id == f.selfname:
                    f._setattr = True
    return f._setattr


def hasattr_guard(fn, attr):
    for n in scope_walk(fn.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr') and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value == attr:
            return True
        if isinstance(n, ast.Try) and any(h.type is None or 'AttributeError' in ast.unparse(h.type) or ast.unparse(h.type) == 'Exception' for h in n.handlers):
            if any(isinstance(y, ast.Attribute) and y.attr == attr for s in n.body for y in ast.walk(s)):
                return True
    return False


def imported_later(prog, mod, attr):
    """a submodule that some import statement of the program loads"""
    if not mod.is_pkg:
        return False
    return prog.load_ext(mod.name + '.' + attr) is not None if mod.external else False


def wrapped(g):
    """is the function replaced by a decorator that may change its parameters?"""
    ok = {'staticmethod', 'classmethod', 'property', 'abstractmethod', 'override', 'cached_property', 'overload'}
    return any(d.split('(')[0].split('.')[-1] not in ok for d in g.decorators) or any(d.split('.')[-1] in ('property', 'cached_property') for d in g.decorators) or 'overload' in g.decorators


def misfit(c, g, bound):
    """why the arguments of the call do not bind to the parameters, or None"""
    pos, req, kwo, kwreq, va, kw = g.params()
    posonly = {x.arg for x in g.node.args.posonlyargs}
    if bound:
        if pos:
            pos, req = pos[1:], max(req - 1, 0)
        elif not va:
            return 'which takes no self'
    star = any(isinstance(a, ast.Starred) for a in c.args)
    dstar = any(k.arg is None for k in c.keywords)
    n = len([a for a in c.args if not isinstance(a, ast.Starred)])
    if n > len(pos) and not va:
        return 'passes %d positional arguments, it takes %d' % (n, len(pos))
    given = set(pos[:n])
    for k in c.keywords:
        if k.arg is None:
            continue
        if k.arg in posonly and not kw or (k.arg not in pos and k.arg not in kwo and not kw):
            return 'passes %s, which it does not take' % k.arg
        if k.arg in given and k.arg not in posonly and not star:
            return 'passes %s twice' % k.arg
        given.add(k.arg)
    if not star and not dstar:
        miss = [p for p in pos[:req] if p not in given] + [p for p in kwreq if p not in given]
        if miss:
            return 'does not pass %s' % ', '.join(miss)
    return None


def parent_map(tree):
    d = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            d[c] = n
    return d


def in_try(n, par):
    while n in par:
        p = par[n]
        if isinstance(p, ast.Try) and n in p.body:
            return True
        if isinstance(p, ast.ExceptHandler) and (p.type is None or 'Error' in ast.unparse(p.type)):
            return True
        if isinstance(p, ast.If) and 'TYPE_CHECKING' in ast.unparse(p.test):
            return True
        n = p
    return False


FLOOR = {'names': 30000, 'members': 10000, 'imports': 500, 'calls': 3000, 'overrides': 300, 'options': 400, 'attributes': 15000, 'local_reads': 12000}


def check(tier, seed):
    ck = Checker().run()
    seen, out = set(), []
    for f in ck.found:
        if f['key'] not in seen:
            seen.add(f['key'])
            out.append(f)
    ck.count['local_reads'] = 0
    for f in ck.prog.functions:
        fl = Flow(ck.prog, f).run()
        ck.count['local_reads'] += fl.reads
        for x, why in fl.out:
            k = '%s|unassigned|%s' % (f.qual, x.id)
            if k not in seen:
                seen.add(k)
                out.append({'key': k, 'msg': '%s:%d reads %s, which %s' % (f.module.rel, x.lineno, x.id, why)})
    cov = dict(ck.count)
    cov['modules'] = len(ck.prog.modules)
    cov['explanation'] = (
        'Counts of what was looked up in the whole program (shipped modules and the OpenMDAO and dymos sources they build on). '
        'Rules: a name is bound in some enclosing scope and a local is assigned on every path to its use; an imported module or name exists; a member of a module, class or instance exists; '
        'an attribute is one that some class has; the arguments of a call bind to the parameters of what it calls; an override accepts what its '
        'interface is called with; a variable-name string that is looked up is defined; an option that is read is declared; '
        'a constructor keyword is one the class takes.')
    low = ['%s=%s<%d' % (k, cov.get(k, 0), v) for k, v in FLOOR.items() if cov.get(k, 0) < v]
    return {'findings': out, 'coverage': cov, 'error': 'fewer obligations than expected: %s' % ', '.join(low) if low else None,
            'assumptions': ['objects of unknown class have the attributes of some class in sight', 'installed OpenMDAO and dymos are the versions the program runs with']}
