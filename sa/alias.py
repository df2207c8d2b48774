"""Which shared or user-owned objects a program changes: a compositional alias and effect analysis of the syntax trees.

Every value is a set of tags (root, n, k): the value is what n steps of indexing or attribute access into root reach,
inside k layers of fresh container.  Roots are the parameters of the function (summaries, instantiated at calls), fields
of classes, module-level objects, default argument objects, class-level objects and objects the user passes to the
public interface.  A mutation of a tag with k = 0 changes the root; the summaries are iterated to a fixpoint over the
whole program and the fields are resolved at the end."""

import ast
import re

from .program import Class, Ext, Func, Module, Var, scope_walk, target_names

MAXN, MAXK, MAXSITES = 3, 3, 8
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'update', 'setdefault', 'add', 'discard', 'sort', 'reverse', 'popitem', 'fill', 'resize', 'put', 'itemset', 'intersection_update', 'difference_update'}
INSERT = {'append': 0, 'add': 0, 'insert': 1, 'setdefault': 1}
SHALLOW = {'dict', 'list', 'set', 'tuple', 'sorted', 'frozenset', 'OrderedDict'}
THROUGH = {'iter', 'reversed', 'next', 'filter', 'asarray', 'atleast_1d', 'atleast_2d', 'ravel', 'reshape', 'squeeze', 'transpose'}
GENERIC = MUTATORS | {'get', 'items', 'keys', 'values', 'copy', 'index', 'count', 'split', 'join', 'format', 'strip', 'replace', 'lower', 'upper', 'startswith', 'endswith', 'read', 'write', 'close', 'open', 'sum', 'min', 'max', 'mean', 'setup', 'configure', 'initialize', 'compute', 'declare', 'run', 'add_argument'}
IMMUTABLE_CALLS = {'namedtuple', 'tuple', 'frozenset', 'str', 'int', 'float', 'Path', 'TypeVar', 'Enum', 'convert_units', 'get_path', 'len', 'max', 'min', 'sum', 'InterpND'}


def load(t):
    r, n, k = t
    return (r, n, k - 1) if k else (r, n + 1, 0)


def loads(ts):
    """what indexing reaches; deeper than MAXN steps are leaves of the data the program deals with"""
    return {load(t) for t in ts if t[2] or t[1] < MAXN}


def wrap(t):
    r, n, k = t
    return (r, n, min(k + 1, MAXK))


def shallow(t):
    r, n, k = t
    return t if k else (r, n + 1, 1)


def subst(t, arg):
    """t is a tag rooted at a parameter, arg a tag of the argument"""
    for _ in range(t[1]):
        arg = load(arg)
    if arg[1] > MAXN:
        return None
    for _ in range(t[2]):
        arg = wrap(arg)
    return arg


def mutable_expr(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        f = e.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
        return name not in IMMUTABLE_CALLS
    return False


def depth_of(e):
    """how deep the containers of a display of constants go; None if unknown"""
    if isinstance(e, ast.Constant) or isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant):
        return 0
    if isinstance(e, ast.Dict) and e.keys:
        ds = [depth_of(v) for v in e.values]
    elif isinstance(e, (ast.List, ast.Set, ast.Tuple)) and e.elts:
        ds = [depth_of(v) for v in e.elts]
    else:
        return None
    return None if None in ds else 1 + max(ds)


class Sum:
    def __init__(self):
        self.ret, self.muts, self.stores = set(), {}, set()
        self.parts = None  # what each element of a returned tuple is, False if not always a tuple of that length

    def size(self):
        return len(self.ret), sum(len(v) for v in self.muts.values()), len(self.stores), [len(x) for x in self.parts] if self.parts else self.parts


class Alias:
    def __init__(self, prog, user, supplied=()):
        """user: function -> names of parameters whose objects belong to the user; supplied: methods that a user's
        class implements, whose results belong to it"""
        self.prog, self.user, self.supplied = prog, user, set(supplied)
        self.sum = {f: Sum() for f in prog.functions}
        self.fields = {}  # (class qual, attr) -> tags
        self.families = {}
        for c in prog.classes:
            for a in c.attrs if not self.container(c) else ():
                self.families.setdefault(a, set()).add(self.family(c, a))
        # the only attribute of a container class: the container itself
        self.inside = {(c, next(iter(c.attrs))) for c in prog.classes if c.attrs and len(c.attrs) == 1 and self.container(c)}
        self.inside_names = {a for _, a in self.inside} - {a for c in prog.classes for a in c.attrs if (c, a) not in self.inside}
        self.callers = {}
        self.viol = {}
        self.calls = self.stores = 0

    def container(self, c):
        """a mapping of the program: its contents belong to the instance, not to the class"""
        return any(c.find(n) is not None for n in ('__getitem__', '__setitem__', '__contains__', '__iter__')) or any('Mapping' in str(b) or 'Dict' in str(b) for b in c.open_base())

    def system(self, c):
        """a component or group: its options are those of the library it comes from"""
        return any('openmdao' in b or 'dymos' in b for b in c.open_base()) and not any('options' in k.attrs for k in c.mro())

    def family(self, c, attr):
        top = None
        for k in c.mro():
            if attr in k.attrs:
                top = k
        return (top or c).qual

    def solve(self):
        work = list(self.prog.functions)
        inq = set(work)
        rounds = 0
        while work:
            f = work.pop(0)
            inq.discard(f)
            rounds += 1
            if rounds > 40 * len(self.prog.functions):
                raise RuntimeError('no fixpoint')
            before = self.sum[f].size()
            Walk(self, f).run()
            if self.sum[f].size() != before:
                for g in self.callers.get(f, ()):
                    if g not in inq:
                        inq.add(g)
                        work.append(g)
        for s in self.sum.values():
            for key, t in s.stores:
                if t[0][0] != 'p':
                    self.fields.setdefault(key, set()).add(t)
        # fields that hold other fields
        changed = True
        while changed:
            changed = False
            for key, ts in list(self.fields.items()):
                for t in list(ts):
                    if t[0][0] == 'f':
                        for a in list(self.fields.get(t[0][1:], ())):
                            x = subst(t, a)
                            if x and x not in ts and len(ts) < 400:
                                ts.add(x)
                                changed = True
        out = {}
        for f, s in self.sum.items():
            for t, sites in s.muts.items():
                for r in self.concrete(t):
                    if r[2] == 0 and not self.constant(r):
                        for site in sites.items():
                            out.setdefault((r[0], site), (r, site, f))
        return out

    def constant(self, r):
        """so deep inside a table of constants that only numbers and strings are left"""
        if r[0][0] != 'g':
            return False
        m = self.prog.modules.get(r[0][1])
        v = m.names.get(r[0][2]) if m is not None else None
        n = getattr(v, 'node', None)
        d = depth_of(n.value) if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None else None
        return d is not None and r[1] >= d

    def concrete(self, t):
        if t[0][0] == 'f':
            return [x for x in (subst(t, a) for a in self.fields.get(t[0][1:], ()) if a[0][0] not in ('f', 'p')) if x]
        return [t] if t[0][0] != 'p' else []


class Walk:
    def __init__(self, an, fn):
        self.an, self.fn, self.prog = an, fn, an.prog
        self.s = an.sum[fn]
        self.params = fn.all_params()
        self.all = {}
        self.parts = {}

    # ------------------------------------------------------------ set up
    def run(self):
        fn = self.fn
        env = {}
        a = fn.node.args
        pos = a.posonlyargs + a.args
        dfl = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):], a.defaults))
        dfl.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for i, p in enumerate(self.params):
            ts = {(('p', fn.qual, i), 0, 0)}
            d = dfl.get(p)
            if d is not None and mutable_expr(d):
                ts.add((('d', fn.qual, p), 0, 0))
            elif isinstance(d, (ast.Name, ast.Attribute)):
                ts |= self.global_tags(d)
            if p in self.an.user.get(fn, ()):
                ts.add((('u', fn.qual, p), 0, 0))
            env[p] = ts
        if fn.parent is not None:
            self.outer = getattr(fn.parent, '_alias_env', {})
        else:
            self.outer = {}
        self.block(fn.node.body, env)
        fn._alias_env = {**self.outer, **self.all}

    def glob(self, v, name):
        """tags of a module-level variable"""
        n = v.node
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and mutable_expr(n.value):
            return {(('g', v.module.name, name), 0, 0)}
        return set()

    def global_tags(self, e):
        r = self.prog.resolve_expr(self.fn.module, e, self.fn)
        if isinstance(r, Var) and r.owner is None:
            name = e.id if isinstance(e, ast.Name) else e.attr
            for k, v in r.module.names.items():
                if v is r:
                    name = k
                    break
            return self.glob(r, name)
        if isinstance(r, Var) and r.owner is not None and isinstance(e, ast.Attribute):
            n = r.node
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and mutable_expr(n.value):
                return {(('c', r.owner.qual, e.attr), 0, 0)}
        return set()

    # ------------------------------------------------------------ effects
    def mutate(self, tags, node, what=''):
        for t in tags:
            if t[2] == 0:
                self.note(t, self.fn.qual, what or ast.unparse(node)[:90])

    def note(self, t, fn, what):
        sites = self.s.muts.setdefault(t, {})
        if fn not in sites and len(sites) < MAXSITES:
            sites[fn] = what

    def supplier(self, recv):
        """a subsystem or an engine of the user, by its name"""
        n = recv.id if isinstance(recv, ast.Name) else recv.attr if isinstance(recv, ast.Attribute) else ''
        return n != self.fn.selfname and re.search('subsystem|engine', n) is not None

    def absorb(self, callee, tags_of, node):
        s = self.an.sum[callee]
        self.an.callers.setdefault(callee, set()).add(self.fn)
        own = callee.qual

        def given(tags):
            out = set()
            for t in tags:
                if t[0][0] == 'p' and t[0][1] == own:
                    out |= {x for x in (subst(t, a) for a in tags_of.get(t[0][2], ())) if x}
                else:
                    out.add(t)
            return out

        ret = given(s.ret)
        if isinstance(node, ast.Call):
            old = self.parts.get(node)
            new = [given(x) for x in s.parts] if s.parts else False
            if s.parts is not None:
                self.parts[node] = False if old is False or not new or old and len(old) != len(new) else [a | b for a, b in zip(old, new)] if old else new
        mapping = callee.cls is not None and self.fn.cls is not callee.cls and self.an.container(callee.cls)
        for t, sites in list(s.muts.items()):
            if t[0][0] == 'p' and t[0][1] == own:
                for a in tags_of.get(t[0][2], ()):
                    x = subst(t, a)
                    if x and x[2] == 0:
                        if mapping:
                            self.note(x, self.fn.qual, ast.unparse(node)[:90])
                            continue
                        for site in list(sites.items()):
                            self.note(x, *site)
        for key, t in list(s.stores):
            if t[0][0] == 'p' and t[0][1] == own:
                for a in tags_of.get(t[0][2], ()):
                    x = subst(t, a)
                    if x:
                        self.s.stores.add((key, x))
        return ret

    # ------------------------------------------------------------ statements
    def join(self, a, b):
        out = dict(a)
        for k, v in b.items():
            out[k] = out[k] | v if k in out else v
        return out

    def block(self, body, env):
        for st in body:
            env = self.stmt(st, env)
            if env is None:
                return None
        return env

    def bind(self, t, tags, env):
        if isinstance(t, ast.Name):
            env[t.id] = set(tags)
            self.all[t.id] = self.all.get(t.id, set()) | set(tags)
            if t.id not in self.fn.locals() and any(isinstance(x, ast.Global) and t.id in x.names for x in scope_walk(self.fn.node)):
                self.mutate({(('g', self.fn.module.name, t.id), 0, 0)}, t, 'global %s = …' % t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.bind(e, loads(tags), env)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, {wrap(load(x)) for x in tags}, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.an.stores += 1
            if t.attr in self.an.inside_names:
                if isinstance(t.value, ast.Name) and t.value.id == self.fn.selfname and self.fn.name == '__init__':
                    return
                self.mutate({x for x in o if x[0][0] == 'p'}, t)
                self.put(t.value, tags, env)
                return
            if not (isinstance(t.value, ast.Name) and t.value.id == self.fn.selfname):
                self.mutate({x for x in o if x[0][0] != 'f'}, t)
                r = self.prog.resolve_expr(self.fn.module, t.value, self.fn)
                if isinstance(r, Class):
                    self.mutate({(('c', r.qual, t.attr), 0, 0)}, t)
            else:
                self.mutate({x for x in o if x[0][0] == 'p'}, t)
            for c in self.owners(t):
                for x in tags:
                    self.s.stores.add(((c, t.attr), x))
            d = ast.unparse(t)
            env[d] = set(tags)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice, env)
            o = self.ev(t.value, env)
            self.an.stores += 1
            self.mutate(o, t)
            self.put(t.value, {wrap(x) for x in tags}, env)

    def put(self, e, tags, env):
        """the container e now also holds tags"""
        if not tags:
            return
        if isinstance(e, ast.Attribute) and e.attr in self.an.inside_names:
            e = e.value
        if isinstance(e, ast.Name):
            env[e.id] = env.get(e.id, set()) | tags
            self.all[e.id] = self.all.get(e.id, set()) | tags
        elif isinstance(e, ast.Attribute):
            for c in self.owners(e):
                for x in tags:
                    self.s.stores.add(((c, e.attr), x))
            d = ast.unparse(e)
            if d in env:
                env[d] = env[d] | tags
        elif isinstance(e, ast.Subscript):
            self.put(e.value, {wrap(x) for x in tags}, env)

    def owners(self, t):
        """classes whose field an attribute may be"""
        ty = self.prog.type_of(self.fn, t.value)
        if ty is not None:
            return [self.an.family(ty, t.attr)] if not self.an.container(ty) else []
        fam = self.an.families.get(t.attr, ())  # of classes that are no containers
        return sorted(fam) if len(fam) == 1 else []

    def stmt(self, st, env):
        if isinstance(st, ast.Assign):
            v = self.ev(st.value, env)
            for t in st.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) and len(t.elts) == len(st.value.elts):
                    for a, b in zip(t.elts, st.value.elts):
                        self.bind(a, self.ev(b, env), env)
                elif isinstance(t, (ast.Tuple, ast.List)) and self.parts.get(st.value) and len(self.parts[st.value]) == len(t.elts):
                    for a, b in zip(t.elts, self.parts[st.value]):
                        self.bind(a, b, env)
                else:
                    self.bind(t, v, env)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.ev(st.value, env), env)
        elif isinstance(st, ast.AugAssign):
            v = self.ev(st.value, env)
            t = st.target
            if isinstance(t, ast.Name):
                if isinstance(st.value, (ast.List, ast.Set, ast.Dict, ast.ListComp)):
                    self.mutate(self.ev(t, env), st)
                self.put(t, {shallow(x) for x in v}, env)
                if any(isinstance(x, ast.Global) and t.id in x.names for x in scope_walk(self.fn.node)):
                    self.mutate({(('g', self.fn.module.name, t.id), 0, 0)}, st)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                self.mutate({x for x in o if x[0][0] != 'f'}, st)
                if isinstance(t.value, ast.Name) and t.value.id == self.fn.selfname:  # not idempotent, unlike an assignment
                    self.mutate({x for x in loads(o) if x[0][0] == 'p'}, st)
                if isinstance(st.value, (ast.List, ast.Set, ast.Dict, ast.ListComp)):
                    self.mutate(self.ev(t, env), st)
            elif isinstance(t, ast.Subscript):
                self.mutate(self.ev(t.value, env), st)
        elif isinstance(st, ast.Expr):
            self.ev(st.value, env)
        elif isinstance(st, ast.Return):
            if st.value is not None:
                if isinstance(st.value, ast.Tuple) and self.s.parts is not False and (self.s.parts is None or len(self.s.parts) == len(st.value.elts)):
                    vs = [self.ev(x, env) for x in st.value.elts]
                    self.s.parts = [a | b for a, b in zip(self.s.parts, vs)] if self.s.parts else vs
                else:
                    self.s.parts = False
                self.s.ret |= self.ev(st.value, env)
            return None
        elif isinstance(st, (ast.Raise, ast.Continue, ast.Break)):
            if isinstance(st, ast.Raise) and st.exc is not None:
                self.ev(st.exc, env)
            return None if isinstance(st, ast.Raise) else env
        elif isinstance(st, ast.If):
            self.ev(st.test, env)
            a = self.block(st.body, dict(env))
            b = self.block(st.orelse, dict(env))
            if a is None or b is None:
                return a if b is None else b
            return self.join(a, b)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.ev(st.iter, env)
            for _ in range(2):
                e = dict(env)
                self.bind_iter(st.target, st.iter, it, e)
                e = self.block(st.body, e)
                if e is not None:
                    env = self.join(env, e)
            return self.block(st.orelse, env)
        elif isinstance(st, ast.While):
            for _ in range(2):
                self.ev(st.test, env)
                e = self.block(st.body, dict(env))
                if e is not None:
                    env = self.join(env, e)
            return self.block(st.orelse, env)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env)
            return self.block(st.body, env)
        elif isinstance(st, ast.Try):
            a = self.block(st.body, dict(env))
            mid = self.join(env, a) if a is not None else env
            outs = []
            if a is not None:
                a = self.block(st.orelse, a)
            if a is not None:
                outs.append(a)
            for h in st.handlers:
                e = self.block(h.body, dict(mid))
                if e is not None:
                    outs.append(e)
            if not outs:
                self.block(st.finalbody, dict(mid))
                return None
            env = outs[0]
            for o in outs[1:]:
                env = self.join(env, o)
            return self.block(st.finalbody, env)
        elif isinstance(st, ast.Match):
            v = self.ev(st.subject, env)
            outs = []
            for c in st.cases:
                e = dict(env)
                for x in ast.walk(c.pattern):
                    for n in (getattr(x, 'name', None), getattr(x, 'rest', None)):
                        if n:
                            e[n] = loads(v) | v
                e = self.block(c.body, e)
                if e is not None:
                    outs.append(e)
            for o in outs:
                env = self.join(env, o)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    o = self.ev(t.value, env)
                    if isinstance(t, ast.Subscript):
                        self.mutate(o, st)
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            g = self.fn.nested.get(st.name)
            env[st.name] = set()
            if isinstance(g, Func):
                g._seen_env = True
                self.nested(g, env)
        return env

    def nested(self, g, env):
        """effects of a nested function on what it sees of the outer ones count as effects of this one"""
        self.fn._alias_env = {**self.outer, **self.all, **env}
        s = self.an.sum[g]
        self.an.callers.setdefault(g, set()).add(self.fn)
        Walk(self.an, g).run()
        for t, sites in list(s.muts.items()):
            if not (t[0][0] == 'p' and t[0][1] == g.qual):
                for site in list(sites.items()):
                    self.note(t, *site)

    def bind_iter(self, target, iter_, it, env):
        """loop variables: enumerate, zip and items give pairs of which the second (or each) is an element"""
        f = iter_.func if isinstance(iter_, ast.Call) else None
        if f is not None and isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(f, ast.Name) and f.id == 'enumerate' and len(target.elts) == 2 and iter_.args:
                self.bind(target.elts[0], set(), env)
                self.bind(target.elts[1], loads(self.ev(iter_.args[0], env)), env)
                return
            if isinstance(f, ast.Name) and f.id == 'zip' and len(iter_.args) == len(target.elts):
                for t, a in zip(target.elts, iter_.args):
                    self.bind(t, loads(self.ev(a, env)), env)
                return
            if isinstance(f, ast.Attribute) and f.attr == 'items' and len(target.elts) == 2:
                self.bind(target.elts[0], set(), env)
                self.bind(target.elts[1], loads(self.ev(f.value, env)), env)
                return
        if isinstance(f, ast.Attribute) and f.attr == 'keys' or isinstance(f, ast.Name) and f.id == 'range':
            self.bind(target, set(), env)
            return
        if f is None and isinstance(target, (ast.Tuple, ast.List)) and len(target.elts) == 2 and isinstance(target.elts[1], (ast.Tuple, ast.List)):
            # (key, (value, units)) of a collection of named values
            self.bind(target.elts[0], set(), env)
            self.bind(target.elts[1], loads(it), env)
            return
        self.bind(target, loads(it), env)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is not None:
            return m(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return set()

    def ev_Constant(self, e, env):
        return set()

    def ev_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        if e.id in self.fn.locals():
            return self.global_tags(e) if self.fn.module and self.prog.local_import(self.fn, e.id) is not None else set()
        if e.id in self.outer:
            return self.outer[e.id]
        return self.global_tags(e)

    def ev_Attribute(self, e, env):
        d = ast.unparse(e)
        if d in env:
            return env[d]
        r = self.prog.resolve_expr(self.fn.module, e, self.fn)
        if isinstance(r, Var):
            return self.global_tags(e)
        o = self.ev(e.value, env)
        if e.attr in self.an.inside_names:
            return o
        out = loads(o)
        if e.attr == 'options' and isinstance(e.value, ast.Name) and e.value.id == self.fn.selfname and self.fn.cls is not None and self.an.system(self.fn.cls):
            return {(('o', self.fn.cls.qual, 'options'), 0, 0)}
        ty = self.prog.type_of(self.fn, e.value)
        if ty is not None:
            m = ty.find(e.attr)
            if isinstance(m, Func):
                return out | (self.absorb(m, {0: o}, e) if m.is_property else set())
            if isinstance(m, Var) and not any(e.attr in k.attrs for k in ty.mro()) and isinstance(m.node, (ast.Assign, ast.AnnAssign)) and m.node.value is not None and mutable_expr(m.node.value):
                out.add((('c', m.owner.qual if m.owner else ty.qual, e.attr), 0, 0))
        for c in self.owners(e):
            out.add((('f', c, e.attr), 0, 0))
        return out

    def ev_Subscript(self, e, env):
        self.ev(e.slice, env)
        o = self.ev(e.value, env)
        return {shallow(x) for x in o} | loads(o) if isinstance(e.slice, ast.Slice) else loads(o)

    def display(self, elts, env):
        out = set()
        for x in elts:
            if x is None:
                continue
            if isinstance(x, ast.Starred):
                out |= {shallow(t) for t in self.ev(x.value, env)}
            else:
                out |= {wrap(t) for t in self.ev(x, env)}
        return out

    def ev_List(self, e, env):
        return self.display(e.elts, env)

    ev_Tuple = ev_Set = ev_List

    def ev_Dict(self, e, env):
        out = set()
        for k, v in zip(e.keys, e.values):
            if k is None:
                out |= {shallow(t) for t in self.ev(v, env)}
            else:
                self.ev(k, env)
                out |= {wrap(t) for t in self.ev(v, env)}
        return out

    def comp(self, e, env, elts):
        env = dict(env)
        for g in e.generators:
            self.bind_iter(g.target, g.iter, self.ev(g.iter, env), env)
            for c in g.ifs:
                self.ev(c, env)
        out = set()
        for x in elts:
            out |= {wrap(t) for t in self.ev(x, env)}
        return out

    def ev_ListComp(self, e, env):
        return self.comp(e, env, [e.elt])

    ev_SetComp = ev_GeneratorExp = ev_ListComp

    def ev_DictComp(self, e, env):
        return self.comp(e, env, [e.value])

    def ev_IfExp(self, e, env):
        self.ev(e.test, env)
        return self.ev(e.body, env) | self.ev(e.orelse, env)

    def ev_BoolOp(self, e, env):
        out = set()
        for v in e.values:
            out |= self.ev(v, env)
        return out

    def ev_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        return {shallow(x) for x in a | b} if isinstance(e.op, (ast.Add, ast.BitOr)) else set()

    def ev_Compare(self, e, env):
        self.ev(e.left, env)
        for c in e.comparators:
            self.ev(c, env)
        return set()

    def ev_UnaryOp(self, e, env):
        self.ev(e.operand, env)
        return set()

    def ev_JoinedStr(self, e, env):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, env)
        return set()

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.bind(e.target, v, env)
        return v

    def ev_Starred(self, e, env):
        return self.ev(e.value, env)

    def ev_Await(self, e, env):
        return self.ev(e.value, env)

    def ev_Yield(self, e, env):
        if e.value is not None:
            self.s.ret |= {wrap(x) for x in self.ev(e.value, env)}
        return set()

    def ev_YieldFrom(self, e, env):
        self.s.ret |= self.ev(e.value, env)
        return set()

    def ev_Lambda(self, e, env):
        env = dict(env)
        for a in e.args.args:
            env[a.arg] = set()
        self.ev(e.body, env)
        return set()

    # ------------------------------------------------------------ calls
    def arguments(self, callee, call, env, recv):
        """parameter number -> tags"""
        pos, _, kwo, _, va, kw = callee.params()
        names = callee.all_params()
        num = {n: i for i, n in enumerate(names)}
        out = {}

        def give(i, ts):
            out[i] = out.get(i, set()) | ts

        k = 0
        if recv is not None and pos:
            give(0, recv)
            k = 1
        for a in call.args:
            v = self.ev(a, env)
            if isinstance(a, ast.Starred):
                for j in range(k, len(pos)):
                    give(j, loads(v))
                continue
            if k < len(pos):
                give(k, v)
            elif va:
                give(num[va], {wrap(x) for x in v})
            k += 1
        for w in call.keywords:
            v = self.ev(w.value, env)
            if w.arg is None:
                for j, n in enumerate(names):
                    if j not in out and n not in (va,):
                        give(j, v if n == kw else loads(v))
            elif w.arg in num:
                give(num[w.arg], v)
            elif kw:
                give(num[kw], {wrap(x) for x in v})
        return out

    def by_convention(self, recv, ms):
        """collections of named values and the models that offer the same methods: told apart by the name of the object"""
        inner = [m for m in ms if m.cls is not None and self.an.container(m.cls)]
        if not inner or len(inner) == len(ms):
            return ms
        name = recv.attr if isinstance(recv, ast.Attribute) else recv.id if isinstance(recv, ast.Name) else ''
        if any(w in name.lower() for w in ('engine', 'prob', 'model', 'builder', 'self')):
            return [m for m in ms if m not in inner]
        return inner

    def ev_Call(self, e, env):
        self.an.calls += 1
        f = e.func
        args = None
        if isinstance(f, ast.Attribute) and f.attr == 'deepcopy' or isinstance(f, ast.Name) and f.id == 'deepcopy':
            for a in e.args:
                self.ev(a, env)
            return set()
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
        # a function or class of the program
        t = self.prog.resolve_expr(self.fn.module, f, self.fn) if isinstance(f, (ast.Name, ast.Attribute)) else None
        if isinstance(f, ast.Name) and f.id in env and not isinstance(t, (Func, Class)):
            t = None
        if isinstance(t, Func):
            recv = None
            if t.cls is not None and not t.static and t.parent is None and isinstance(f, ast.Attribute):
                recv = set() if any('classmethod' in d for d in t.decorators) else None
            return self.absorb(t, self.arguments(t, e, env, recv), e)
        if isinstance(t, Class):
            i = t.find('__init__')
            if isinstance(i, Func):
                self.absorb(i, self.arguments(i, e, env, set()), e)
            if not isinstance(i, Func) or t.open_base():
                for w in e.keywords:
                    for x in self.ev(w.value, env):
                        self.s.stores.add(((self.an.family(t, 'options'), 'options'), wrap(x)))
            else:
                return set()
            for a in e.args:
                self.ev(a, env)
            return set()
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                out = set()
                me = env.get(self.fn.selfname, set()) if self.fn.selfname else set()
                for c in self.prog.callees(self.fn, e):
                    out |= self.absorb(c, self.arguments(c, e, env, me), e)
                for a in e.args:
                    self.ev(a, env)
                return out
            o = self.ev(f.value, env)
            ty = self.prog.type_of(self.fn, f.value)
            cands = []
            theirs = {(('x', 'a subsystem builder', name), 0, 0)} if name in self.an.supplied and ty is None and self.supplier(f.value) else set()
            if ty is not None:
                cands = self.prog.callees(self.fn, e)
            elif name not in GENERIC and not isinstance(t, Ext):
                ms = [m for m in self.prog.by_method.get(name, ()) if isinstance(m, Func)]
                if len(ms) > 1:  # a method that forwards to a part of the object does not mean itself
                    ms = [m for m in ms if m is not self.fn]
                cands = self.by_convention(f.value, ms) if len(ms) <= 12 else []
            if cands:
                out = set(theirs)
                for c in cands:
                    out |= self.absorb(c, self.arguments(c, e, env, None if c.static else o), e)
                return out
            vals = [self.ev(a, env) for a in e.args]
            for w in e.keywords:
                vals.append(self.ev(w.value, env))
            if isinstance(t, Ext):
                if name in THROUGH or t.path in ('copy.copy',):
                    v = set().union(*vals) if vals else set()
                    return {shallow(x) for x in v} if name == 'copy' else v
                return set()
            if name in MUTATORS:
                self.mutate(o, e)
                if name in INSERT and len(e.args) > INSERT[name]:
                    self.put(f.value, {wrap(x) for x in vals[INSERT[name]]}, env)
                elif name in ('update', 'extend'):
                    for v in vals:
                        self.put(f.value, {shallow(x) for x in v}, env)
                if name in ('pop', 'setdefault', 'popitem'):
                    return loads(o) | (vals[1] if len(vals) > 1 else set())
                return set()
            if name == 'copy':
                return {shallow(x) for x in o}
            if name == 'get':
                return loads(o) | (vals[1] if len(vals) > 1 else set())
            if name in ('items',):
                return {wrap(wrap(load(x))) for x in o}
            if name == 'values':
                return {wrap(load(x)) for x in o}
            if name in THROUGH:
                return o
            return theirs
        vals = [self.ev(a, env) for a in e.args]
        for w in e.keywords:
            vals.append(self.ev(w.value, env))
        if isinstance(f, ast.Name):
            if name in SHALLOW:
                out = {shallow(x) for x in (vals[0] if vals else ())}
                for v in vals[1:]:
                    out |= {wrap(x) for x in v}
                return out
            if name in THROUGH and vals:
                v = vals[-1] if name == 'filter' else vals[0]
                return loads(v) if name == 'next' else v
            if name in ('enumerate', 'zip'):
                return {wrap(wrap(load(x))) for v in vals for x in v}
            if name == 'getattr' and len(e.args) >= 2:
                return loads(vals[0]) | (vals[2] if len(vals) > 2 else set())
            if name == 'setattr' and len(e.args) == 3:
                self.mutate({x for x in vals[0] if x[0][0] != 'f'}, e)
            if name == 'vars' and vals:
                return vals[0]
        elif not isinstance(f, ast.Name):
            self.ev(f, env)
        return set()
