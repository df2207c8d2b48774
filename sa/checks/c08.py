"""C08: the verbosity setting changes what is printed, nothing else.

Non-interference by information flow: verbosity is a source, its explicit and implicit flows may reach
prints, warnings and output settings, but no state of the program, no exception, no control over an
effect.  Interprocedural: parameters and results that carry the level are followed."""

import ast
import re

from ..program import Class, Func, Program, scope_walk, target_names

PRINTKEY = re.compile(r'print|summ|warn|disp|debug|out_stream|verbos|iout|show|quiet|recorder|format|log', re.I)
# methods that change their receiver
MUTATORS = re.compile(
    r'^(append|extend|insert|remove|pop|popitem|clear|update|setdefault|sort|reverse|add|discard|'
    r'add_(?!recorder)\w+|set_\w+|set|declare\w*|promotes|connect|configure|setup|setup_\w+|run_\w+|run|link_\w+|delete|write_to_\w+|load_\w+|fill|put)$'
)
# project functions whose only purpose is output
OUTPUT = {'set_warning_format'}


def names_verbosity(s):
    return 'verbos' in s.lower()


class Flow:
    """one function under the current assumptions about parameters and callees"""

    def __init__(self, an, fn):
        self.an, self.fn = an, fn
        self.tainted = set(an.params.get(fn, ()))
        self.fresh = self.fresh_locals()
        self.returns = False
        self.out = []
        self.seen = set()

    def fresh_locals(self):
        """local names only ever bound to new containers, strings or numbers"""
        ps = set(self.fn.all_params())
        vals = self.an.prog.local_values(self.fn)
        out = set()
        for n, vs in vals.items():
            if n in ps:
                continue
            ok = True
            for v in vs:
                if v is None:
                    continue
                if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.Tuple, ast.Constant, ast.JoinedStr, ast.ListComp, ast.DictComp, ast.SetComp, ast.BinOp, ast.Compare, ast.BoolOp, ast.UnaryOp)):
                    continue
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'dict', 'set', 'tuple', 'str', 'sorted', 'open'):
                    continue
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'StringIO':
                    continue
                ok = False
            if ok:
                out.add(n)
        return out

    # ------------------------------------------------------------ expressions
    def taint(self, e):
        """does the value of the expression depend on the level?"""
        if e is None or isinstance(e, (ast.Constant, ast.Lambda)):
            return False
        if isinstance(e, ast.Name):
            if e.id in self.tainted:
                return True
            return names_verbosity(e.id) and e.id != 'Verbosity' and not isinstance(self.an.prog.resolve_expr(self.fn.module, e, self.fn), (Class, Func))
        if isinstance(e, ast.Attribute):
            if e.attr == 'VERBOSITY':
                return False
            if names_verbosity(e.attr) and not isinstance(self.an.prog.resolve_expr(self.fn.module, e, self.fn), (Class, Func)):
                return True
            if isinstance(e.value, ast.Name) and e.value.id == 'Verbosity':
                return False
            return self.taint(e.value)
        if isinstance(e, ast.Compare):
            if all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops) and all(isinstance(c, ast.Constant) and c.value is None for c in e.comparators):
                return False
            if all(isinstance(o, (ast.In, ast.NotIn)) for o in e.ops):
                return any(self.taint(c) for c in e.comparators) or self.taint(e.left)
        if isinstance(e, ast.Subscript):
            if self.key_is_level(e.slice):
                return True
            return self.taint(e.value) or self.taint(e.slice)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id in ('isinstance', 'hasattr', 'type'):
                return False
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('get_val', 'get_item', 'get', 'pop', 'getattr') and e.args and self.key_is_level(e.args[0]):
                return True
            cs = self.an.prog.callees(self.fn, e)
            if cs:
                for c in cs:
                    if c in self.an.returns:
                        return True
                return False
            if isinstance(self.an.prog.resolve_expr(self.fn.module, e.func, self.fn), Class):
                t = self.an.prog.resolve_expr(self.fn.module, e.func, self.fn)
                return names_verbosity(t.name) and any(self.taint(a) for a in e.args)
            if isinstance(e.func, ast.Attribute) and self.taint(e.func.value):
                return True
            if isinstance(e.func, ast.Name) and e.func.id not in ('int', 'bool', 'float', 'str', 'max', 'min', 'any', 'all', 'len', 'getattr', 'abs'):
                return False
            return any(self.taint(a.value if isinstance(a, ast.Starred) else a) for a in e.args)
        return any(self.taint(c) for c in ast.iter_child_nodes(e) if isinstance(c, (ast.expr, ast.comprehension, ast.keyword))) if not isinstance(e, ast.comprehension) else any(
            self.taint(c) for c in [e.iter] + e.ifs
        )

    def key_is_level(self, k):
        return (isinstance(k, ast.Attribute) and k.attr == 'VERBOSITY') or (isinstance(k, ast.Constant) and isinstance(k.value, str) and names_verbosity(k.value))

    # -------------------------------------------------------------- statements
    def run(self):
        self.block(self.fn.node.body, None)
        seen, out = set(), []
        for x in self.out:
            if (x[0], x[2]) not in seen:
                seen.add((x[0], x[2]))
                out.append(x)
        self.out = out
        self.conditions = len(self.seen)
        return self

    def block(self, body, ctl):
        """returns the condition that controls what follows, if this block may leave early under it"""
        for s in body:
            r = self.stmt(s, ctl)
            ctl = ctl or r
        return ctl if body else None

    def leave(self, s, ctl):
        return ctl

    def stmt(self, s, ctl):
        """returns a condition node when the rest runs only under it"""
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            return None
        if isinstance(s, ast.If):
            self.calls(s.test, ctl)
            t = self.taint(s.test)
            if t:
                self.seen.add(s)
            c = ctl or (s.test if t else None)
            mark = len(self.out)
            before = set(self.tainted)
            a = self.block(s.body, c)
            mid = len(self.out)
            after, self.tainted = self.tainted, before
            b = self.block(s.orelse, c)
            self.tainted |= after
            if t and not ctl and s.orelse:
                one, two = {x[2] for x in self.out[mark:mid]}, {x[2] for x in self.out[mid:]}
                if one == two:
                    del self.out[mark:]
            if t:
                ea, eb = ends(s.body), ends(s.orelse)
                if (ea or eb) and not (ea and eb and ea == eb):
                    return s.test
                return None
            # a clean condition: what follows depends on the level if a branch left under it
            return (a if a is not ctl else None) or (b if b is not ctl else None)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            e = s.iter if not isinstance(s, ast.While) else s.test
            self.calls(e, ctl)
            t = self.taint(e)
            if t:
                self.seen.add(s)
            c = ctl or (e if t else None)
            if not isinstance(s, ast.While):
                if t or ctl:
                    self.tainted |= set(target_names(s.target))
                else:
                    self.tainted -= set(target_names(s.target))
            before = set(self.tainted)
            r = self.block(s.body, c)
            # a second pass: values carried around, and an iteration left under the level controls the next
            self.tainted |= before
            self.block(s.body, r if r is not None else c)
            self.tainted |= before
            self.block(s.orelse, c)
            return r if r is not c and has_return(s) else None
        if isinstance(s, ast.Try):
            r = self.block(s.body, ctl)
            r = r if r is not ctl else None
            for h in s.handlers:
                before = set(self.tainted)
                self.block(h.body, ctl)
                self.tainted |= before
            self.block(s.orelse, ctl or r)
            self.block(s.finalbody, ctl)
            return r
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.calls(i.context_expr, ctl)
            r = self.block(s.body, ctl)
            return r if r is not ctl else None
        if isinstance(s, ast.Match):
            t = self.taint(s.subject)
            rs = [self.block(c.body, ctl or (s.subject if t else None)) for c in s.cases]
            return s.subject if t and any(ends(c.body) for c in s.cases) else next((r for r in rs if r is not None and r is not ctl), None)
        if isinstance(s, ast.Raise):
            if ctl is not None:
                self.viol(s, ctl, 'raises %s' % (ast.unparse(s.exc).split('(')[0] if s.exc else 'again'))
            return None
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.calls(s.value, ctl)
            if (ctl is not None and s.value is not None and not (isinstance(s.value, ast.Constant) and s.value.value is None)) or self.taint(s.value):
                self.returns = True
            return ctl
        if isinstance(s, (ast.Break, ast.Continue)):
            return ctl
        if isinstance(s, ast.Delete):
            if ctl is not None:
                for t in s.targets:
                    if not isinstance(t, ast.Name) and not self.is_fresh(t):
                        self.viol(s, ctl, 'deletes %s' % ast.unparse(t))
            return None
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            if s.value is None:
                return None
            self.calls(s.value, ctl)
            t = self.taint(s.value) or (isinstance(s, ast.AugAssign) and self.taint(s.target))
            if not t and ctl is None:
                for x in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    self.tainted -= set(target_names(x))
            for x in s.targets if isinstance(s, ast.Assign) else [s.target]:
                self.store(s, x, ctl, t)
            return None
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.calls(e, ctl)
        return None

    def is_fresh(self, t):
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            t = t.value
        return isinstance(t, ast.Name) and t.id in self.fresh

    def store(self, s, x, ctl, t):
        if isinstance(x, (ast.Tuple, ast.List)):
            for e in x.elts:
                self.store(s, e, ctl, t)
            return
        if isinstance(x, ast.Starred):
            x = x.value
        if not t and ctl is None:
            return
        if isinstance(x, ast.Name):
            self.tainted.add(x.id)
            return
        if self.is_fresh(x):
            while isinstance(x, (ast.Subscript, ast.Attribute)):
                x = x.value
            self.tainted.add(x.id)
            return
        key = x.attr if isinstance(x, ast.Attribute) else ast.unparse(x.slice)
        base = ast.unparse(x.value)
        if PRINTKEY.search(key) or base.split('.')[0] == 'warnings' or PRINTKEY.search(base.split('.')[-1]):
            return
        self.viol(s, ctl if ctl is not None else s.value, 'sets %s' % ast.unparse(x))

    def calls(self, e, ctl):
        for c in ast.walk(e):
            if isinstance(c, ast.Call):
                self.call(c, ctl)

    def call(self, c, ctl):
        prog = self.an.prog
        cs = prog.callees(self.fn, c)
        cls = prog.resolve_expr(self.fn.module, c.func, self.fn)
        name = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else ''
        keyed = c.args and self.key_is_level(c.args[0])
        for f in cs if not keyed else ():
            pos = f.params()[0]
            off = 1 if f.cls and not f.static and not f.parent else 0
            for i, a in enumerate(c.args):
                if not isinstance(a, ast.Starred) and self.taint(a) and i + off < len(pos):
                    self.an.param(f, pos[i + off])
            for k in c.keywords:
                if k.arg and self.taint(k.value):
                    self.an.param(f, k.arg)
            if ctl is not None and f in self.an.effects and f.name not in OUTPUT and not names_verbosity(f.name):
                self.viol(c, ctl, 'calls %s, which %s' % (f.name, self.an.effects[f]))
        if cs or isinstance(cls, (Class, Func)):
            return
        if isinstance(c.func, ast.Attribute) and MUTATORS.match(name):
            recv = c.func.value
            tainted = any(self.taint(a) for a in c.args) or any(self.taint(k.value) for k in c.keywords if not (k.arg and PRINTKEY.search(k.arg)))
            if ctl is None and not tainted:
                return
            if isinstance(recv, ast.Name) and recv.id in self.fresh:
                self.tainted.add(recv.id)
                return
            if isinstance(recv, ast.Name) and isinstance(prog.resolve_expr(self.fn.module, recv, self.fn), object) and getattr(prog.resolve_expr(self.fn.module, recv, self.fn), 'path', '').split('.')[0] in ('warnings', 'np', 'numpy', 'logging'):
                return
            if c.args and (self.key_is_level(c.args[0]) or PRINTKEY.search(ast.unparse(c.args[0]))):
                return
            if PRINTKEY.search(ast.unparse(recv)):
                return
            args = [ast.unparse(a) for a in c.args] + ['%s=%s' % (k.arg, ast.unparse(k.value)) for k in c.keywords if not (k.arg and PRINTKEY.search(k.arg))]
            self.viol(c, ctl if ctl is not None else c, 'calls %s(%s)' % (ast.unparse(c.func), ', '.join(args)))

    def viol(self, node, ctl, what):
        self.out.append((node, ctl, what))


def ends(body):
    """kind of early exit of a block"""
    for s in body:
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return type(s).__name__ + (ast.unparse(s) if isinstance(s, ast.Return) else '')
        if isinstance(s, ast.If) and (ends(s.body) or ends(s.orelse)):
            return 'branch'
        if isinstance(s, (ast.With, ast.Try)) and ends(s.body):
            return ends(s.body)
    return None


def has_return(s):
    return any(isinstance(x, ast.Return) for x in ast.walk(s))


class Analysis:
    def __init__(self):
        self.prog = Program()
        self.params, self.returns, self.effects = {}, set(), {}
        self.changed = False

    def param(self, f, p):
        if p not in self.params.setdefault(f, set()) and p in f.all_params():
            if not names_verbosity(p):
                self.params[f].add(p)
                self.changed = True

    def find_effects(self):
        """functions that change state or raise, with the reason"""
        prog = self.prog
        calls = {}
        for f in prog.functions:
            fl = Flow(self, f)
            why = None
            for x in scope_walk(f.node):
                if isinstance(x, ast.Raise):
                    why = 'raises'
                elif isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)) and not fl.is_fresh(x):
                    key = x.attr if isinstance(x, ast.Attribute) else ast.unparse(x.slice)
                    if not PRINTKEY.search(key) and not PRINTKEY.search(ast.unparse(x.value).split('.')[-1]) and ast.unparse(x.value).split('.')[0] != 'warnings':
                        why = 'sets %s' % ast.unparse(x)
                elif isinstance(x, ast.Call):
                    cs = prog.callees(f, x)
                    for g in cs:
                        calls.setdefault(g, set()).add(f)
                    if not cs and isinstance(x.func, ast.Attribute) and MUTATORS.match(x.func.attr) and not fl.is_fresh(x.func.value) and not isinstance(x.func.value, ast.Constant):
                        r = prog.resolve_expr(f.module, x.func.value, f)
                        if getattr(r, 'path', '').split('.')[0] not in ('warnings', 'numpy', 'logging') and not PRINTKEY.search(ast.unparse(x.func.value)):
                            why = 'calls %s' % ast.unparse(x.func)
                if why:
                    break
            if why:
                self.effects[f] = why
        todo = list(self.effects)
        while todo:
            g = todo.pop()
            for f in calls.get(g, ()):
                if f not in self.effects:
                    self.effects[f] = 'calls %s' % g.name
                    todo.append(f)

    def run(self):
        self.find_effects()
        n = 0
        while True:
            self.changed = False
            res = {}
            for f in self.prog.functions:
                fl = Flow(self, f).run()
                res[f] = fl
                if fl.returns and f not in self.returns:
                    self.returns.add(f)
                    self.changed = True
            n += 1
            if not self.changed or n > 12:
                return res


FLOOR = 60


def check(tier, seed):
    an = Analysis()
    res = an.run()
    out = []
    cond = sum(fl.conditions for fl in res.values())
    for f, fl in res.items():
        for node, ctl, what in fl.out:
            out.append({
                'key': '%s|%s' % (f.qual, what),
                'msg': '%s:%d %s, depending on the verbosity (%s)' % (f.module.rel, node.lineno, what, ast.unparse(ctl)[:100]),
            })
    cov = {
        'modules': len(an.prog.modules), 'functions': len(an.prog.functions), 'conditions_on_the_level': cond,
        'functions_that_read_the_level': sum(1 for fl in res.values() if fl.conditions),
        'functions_returning_the_level': sorted(f.qual for f in an.returns)[:20],
        'explanation': 'Information flow from the verbosity setting through locals, parameters, results and branch conditions of every function. '
        'Rule: it reaches only prints, warnings, report files and output settings - no other state, no exception, no early exit before an effect.',
    }
    return {'findings': out, 'coverage': cov, 'error': None if cond >= FLOOR else 'only %d conditions on the verbosity found (floor %d)' % (cond, FLOOR),
            'assumptions': ['calls that cannot be resolved change state only when named like a mutator']}
