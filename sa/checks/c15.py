"""C15: a problem that is detected is reported.

Over every statement of the shipped modules: errors and warnings built but not raised or issued,
raised things that are no exceptions, messages with unfilled placeholders, guards that cannot
distinguish (truth value compared with a number, a condition that is a constant or a function
object), statements behind an unconditional exit, handlers that swallow what the program itself
raises, exits in a finally clause and warning filters that outlive their block."""

import ast
import builtins
import json
import os
import re

from ..program import Class, Ext, Func, Module, Program, Var, scope_walk

TABLE = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'data', 'reports.json')
EXC = {k: v for k, v in vars(builtins).items() if isinstance(v, type) and issubclass(v, BaseException)}
EXITS = (ast.Return, ast.Raise, ast.Continue, ast.Break)
FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
BOOLEAN = {'any', 'all', 'isinstance', 'issubclass', 'hasattr', 'callable', 'np.any', 'np.all', 'numpy.any', 'numpy.all', 'np.isnan', 'np.isfinite', 'np.isinf',
           'np.isclose', 'np.allclose', 'np.array_equal', 'bool'}
REPORT = re.compile(r'(warn|print|log|error|exit|fail|abort|showerror|showwarning|showinfo|raise|report|message)', re.I)
ARGS = {'ArgumentError': 2, 'CalledProcessError': 2, 'TimeoutExpired': 2, 'JSONDecodeError': 3, 'UnicodeDecodeError': 5, 'UnicodeEncodeError': 5}
QUERY = {'delete', 'append', 'extend', 'iter', 'len', 'float', 'int', 'index', 'remove', 'pop', 'get_val', 'get_item', 'get', 'update', 'add', 'close'}
LOOKUP = {'KeyError', 'AttributeError', 'IndexError', 'StopIteration', 'ImportError', 'ModuleNotFoundError', 'FileNotFoundError', 'TclError', 'NotImplementedError'}
FLOOR = {'raises': 190, 'messages': 380, 'handlers': 130, 'conditions': 2800, 'documented': 18, 'known_reports': 280}


def dotted(e):
    try:
        return ast.unparse(e)
    except Exception:
        return ''


class Checker:
    def __init__(self):
        self.prog = Program(external=('openmdao', 'dymos'))
        self.found = []
        self.count = {k: 0 for k in ('raises', 'messages', 'handlers', 'conditions', 'statements', 'modules', 'swallow_paths', 'documented', 'known_reports')}
        self.raised = {}

    def report(self, m, node, fn, rule, what, msg):
        self.found.append({'key': '%s|%s|%s' % (fn.qual if fn else m.rel, rule, what), 'msg': '%s:%d %s' % (m.rel, node.lineno, msg)})

    # ------------------------------------------------------- exception classes
    def exc_class(self, m, e, fn):
        """the name of the exception class (or builtin) an expression names, else None; '?' external"""
        if isinstance(e, ast.Name) and e.id in EXC and not (fn and e.id in fn.locals()):
            return e.id
        r = self.prog.resolve_expr(m, e, fn)
        if isinstance(r, Ext):
            n = r.path.split('.')[-1]
            if n in EXC and r.path.startswith('builtins.'):
                return n
            return n if n.endswith(('Error', 'Exception', 'Warning')) else None
        if isinstance(r, Class):
            for k in r.mro():
                for b in k.bases():
                    if isinstance(b, Ext) and (b.path.split('.')[-1] in EXC or b.path.split('.')[-1].endswith(('Error', 'Exception', 'Warning'))):
                        return r.name
            return None
        return None

    def ancestors(self, m, e, fn):
        """names of the exception classes an exception of class e is an instance of"""
        if isinstance(e, ast.Name) and e.id in EXC:
            return {c.__name__ for c in EXC[e.id].__mro__}
        r = self.prog.resolve_expr(m, e, fn)
        out = {'Exception', 'BaseException'}
        if isinstance(r, Class):
            for k in r.mro():
                out.add(k.name)
                for b in k.bases():
                    if isinstance(b, Ext):
                        n = b.path.split('.')[-1]
                        out |= {c.__name__ for c in EXC[n].__mro__} if n in EXC else {n}
        elif isinstance(r, Ext):
            n = r.path.split('.')[-1]
            out |= {c.__name__ for c in EXC[n].__mro__} if n in EXC else {n}
        return out

    # ------------------------------------------------------------ what raises
    def raises_of(self, fn):
        """(class names, description) raised explicitly by a function or what it calls, outside its own handlers"""
        if fn in self.raised:
            return self.raised[fn]
        self.raised[fn] = []
        out = self.escaping(fn.module, fn, fn.node.body)
        self.raised[fn] = out
        return out

    def escaping(self, m, fn, body, depth=0):
        out = {}

        def add(items):
            for names, d in items:
                out.setdefault(d, (names, d))

        def go(n):
            if isinstance(n, FN + (ast.ClassDef,)):
                return
            if isinstance(n, ast.Try):
                inner = self.escaping(m, fn, n.body, depth)
                caught = set()
                for h in n.handlers:
                    caught |= self.handled(m, fn, h)
                add([(names, d) for names, d in inner if not (caught & names)])
                for s in n.orelse + n.finalbody:
                    go(s)
                for h in n.handlers:
                    for s in h.body:
                        go(s)
                return
            if isinstance(n, ast.Raise) and n.exc is not None:
                c = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                if self.exc_class(m, c, fn):
                    add([(frozenset(self.ancestors(m, c, fn)), '%s in %s' % (dotted(c), fn.qual if fn else m.name))])
            if isinstance(n, ast.Call) and fn is not None:
                for g in self.prog.callees(fn, n):
                    if not g.module.external:
                        add(self.raises_of(g))
            for c in ast.iter_child_nodes(n):
                go(c)

        for s in body:
            go(s)
        return list(out.values())

    def handled(self, m, fn, h):
        if h.type is None:
            return {'BaseException'}
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return {dotted(t).split('.')[-1] for t in ts}

    # ----------------------------------------------------------------- silent
    def silent(self, h):
        for s in h.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Raise):
                    return False
                if isinstance(n, ast.Name) and h.name and n.id == h.name:
                    return False
                if isinstance(n, ast.Call) and REPORT.search(dotted(n.func)):
                    return False
        return True

    # ------------------------------------------------------------------- rules
    def run(self):
        for m in self.prog.modules.values():
            if m.external:
                continue
            self.count['modules'] += 1
            self.scope(m, None, m.tree.body)
            for fn in self.prog.functions:
                if fn.module is m:
                    self.scope(m, fn, fn.node.body)
                    self.documented(m, fn)
        return self

    def documented(self, m, fn):
        """errors that the documentation of a function promises"""
        d = ast.get_docstring(fn.node)
        if not d or 'Raises\n' not in d:
            return
        sec = re.split(r'\n\s*\n(?=\w[^\n]*\n-+)', d[d.index('Raises\n'):])[0].split('\n')[2:]
        got = None
        for x in (y.strip() for y in sec if y and not y.startswith(' ')):
            if x not in EXC or x in LOOKUP:
                continue
            self.count['documented'] += 1
            if got is None:
                got = {n for names, _ in self.raises_of(fn) for n in names}
                got |= {dotted(v) for v in fn.node.args.defaults + fn.node.args.kw_defaults if v is not None}
            if x not in got:
                self.report(m, fn.node, fn, 'documented', x, 'the documented %s is never raised' % x)

    # -------------------------------------------------- the errors known to be reported
    def words(self, fn, e, depth=0):
        """the words of a message, as far as they are literal"""
        out = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                out |= {w for w in re.findall(r'[a-z]{3,}', n.value.lower())}
            elif isinstance(n, ast.Call) and depth < 2 and fn is not None:
                for g in self.prog.callees(fn, n):
                    if not g.module.external:
                        for x in scope_walk(g.node):
                            if isinstance(x, ast.Return) and x.value is not None:
                                out |= self.words(g, x.value, depth + 1)
            elif isinstance(n, ast.Name) and depth < 3 and fn is not None and n.id in fn.locals():
                for x in ast.walk(fn.node):
                    if isinstance(x, (ast.Assign, ast.AugAssign)) and any(isinstance(t, ast.Name) and t.id == n.id for t in (x.targets if isinstance(x, ast.Assign) else [x.target])) \
                            and isinstance(x.value, (ast.JoinedStr, ast.Constant, ast.BinOp)):
                        out |= self.words(fn, x.value, depth + 1)
            elif isinstance(n, ast.Name) and fn is not None and isinstance(self.prog.lookup(fn.module, n.id), Var):
                v = getattr(self.prog.lookup(fn.module, n.id), 'node', None)
                v = getattr(v, 'value', v)
                if isinstance(v, (ast.JoinedStr, ast.Constant, ast.BinOp)) and depth < 3:
                    out |= self.words(fn, v, depth + 1)
        return out

    def own_reports(self, fn):
        """(kind, words) of the errors raised and warnings issued in the body of a function"""
        out = []
        dropped = {id(n.value) for n in scope_walk(fn.node) if isinstance(n, ast.Expr)}
        for n in scope_walk(fn.node):
            if isinstance(n, ast.Raise) and n.exc is not None and not isinstance(n.exc, ast.Call):
                k = self.exc_class(fn.module, n.exc, fn)
                if k:
                    out.append((k, frozenset(), n))
            elif isinstance(n, ast.Call) and id(n) not in dropped and self.exc_class(fn.module, n.func, fn):
                out.append((self.exc_class(fn.module, n.func, fn), frozenset(self.words(fn, n)), n))
            elif isinstance(n, ast.Call) and dotted(n.func).split('.')[-1] in ('warn', 'issue_warning', 'warn_deprecation') and n.args:
                out.append(('warning', frozenset(self.words(fn, n.args[0])), n))
        return out

    def closure(self, fn, seen=None):
        seen = set() if seen is None else seen
        if fn in seen or fn.module.external:
            return []
        seen.add(fn)
        if not hasattr(fn, '_own'):
            fn._own = self.own_reports(fn)
        out = list(fn._own)
        for g in fn.nested.values():
            out += self.closure(g, seen)
        for n in scope_walk(fn.node):
            if isinstance(n, ast.Call):
                for g in self.prog.callees(fn, n):
                    out += self.closure(g, seen)
        return out

    def alike(self, kind, words, k, w):
        if kind != k and not (kind in EXC and k in EXC and (issubclass(EXC[k], EXC[kind]) or issubclass(EXC[kind], EXC[k]))):
            return False
        return not words or bool(w) and len(words & w) >= 0.5 * min(len(words), len(w)) and len(words & w) >= 0.3 * max(len(words), len(w))

    def inventory(self, table):
        """every error and warning of the table is still reported by the function, or by what took it over"""
        by = {f.qual: f for f in self.prog.functions if not f.module.external}
        for f in by.values():
            if not hasattr(f, '_own'):
                f._own = self.own_reports(f)
        new = [f for q, f in by.items() if q not in table['functions']]
        newr = [r for f in new for r in f._own]
        for q, kind, words in table['reports']:
            self.count['known_reports'] += 1
            words = frozenset(words)
            f = by.get(q)
            where = self.closure(f) if f is not None else []
            if any(self.alike(kind, words, k, w) for k, w, _ in where) or any(self.alike(kind, words, k, w) for k, w, _ in newr):
                continue
            if f is None and any(self.alike(kind, words, k, w) for g in by.values() for k, w, _ in g._own):
                continue
            m = f.module if f is not None else None
            self.found.append({'key': '%s|unreported|%s|%s' % (q, kind, ' '.join(sorted(words))[:80]),
                               'msg': '%s:%d %s no longer reports: %s (%s)' % (m.rel if m else '?', f.node.lineno if f else 0, q, kind, ' '.join(sorted(words))[:80])})

    def scope(self, m, fn, body):
        self.block(m, fn, body)

    def block(self, m, fn, body):
        for i, s in enumerate(body):
            self.count['statements'] += 1
            if isinstance(s, EXITS) and i + 1 < len(body):
                rest = [x for x in body[i + 1:] if not (isinstance(x, ast.Expr) and isinstance(x.value, (ast.Constant, ast.Yield))) and not isinstance(x, ast.Pass)]
                rep = [x for x in rest for n in ast.walk(x) if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and REPORT.search(dotted(n.func))]
                if rep:
                    self.report(m, rep[0], fn, 'unreachable', dotted(rep[0])[:60], 'report is never reached: it follows %s' % dotted(s).split('\n')[0][:60])
            self.statement(m, fn, s)
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    self.block(m, None if isinstance(s, ast.ClassDef) else fn, b)
            for h in getattr(s, 'handlers', []):
                self.block(m, fn, h.body)
            for c in getattr(s, 'cases', []):
                self.block(m, fn, c.body)

    def own(self, s):
        """expressions of the statement itself"""
        todo = [c for c in ast.iter_child_nodes(s) if not isinstance(c, (ast.stmt, ast.ExceptHandler, ast.match_case))]
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, ast.Lambda):
                continue
            todo += [c for c in ast.iter_child_nodes(n) if not isinstance(c, ast.stmt)]

    def statement(self, m, fn, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, (ast.Call, ast.Name, ast.Attribute)):
            f = s.value.func if isinstance(s.value, ast.Call) else s.value
            c = self.exc_class(m, f, fn)
            if c:
                self.report(m, s, fn, 'dropped', dotted(s)[:80], '%s is created but neither raised nor issued' % c)
        if isinstance(s, ast.Assign) and fn is not None and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Call, ast.JoinedStr, ast.Constant)):
            name = s.targets[0].id
            v = s.value
            isx = isinstance(v, ast.Call) and self.exc_class(m, v.func, fn)
            text = isinstance(v, ast.JoinedStr) or isinstance(v, ast.Constant) and isinstance(v.value, str) and ' ' in v.value
            if (isx or text) and not any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) for n in ast.walk(fn.node)) \
                    and not any(isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names for n in ast.walk(fn.node)):
                self.report(m, s, fn, 'dropped', name, 'the %s %s is put together but never used' % ('error' if isx else 'message', name))
        if isinstance(s, ast.Raise):
            self.raise_(m, fn, s)
        if isinstance(s, ast.Assert) and isinstance(s.test, ast.Tuple) and s.test.elts:
            self.report(m, s, fn, 'guard', dotted(s)[:80], 'assertion of a tuple always holds')
        for n in self.own(s):
            if isinstance(n, ast.Call) and (dotted(n.func).split('.')[-1] in ('warn', 'issue_warning', 'warn_deprecation', 'print', 'exit') or self.exc_class(m, n.func, fn)):
                self.message(m, fn, n)
            if isinstance(n, ast.Call):
                self.filters(m, fn, n, s)
            if isinstance(n, ast.Compare):
                self.compare(m, fn, n)
            if isinstance(n, ast.IfExp):
                self.condition(m, fn, n.test)
        if isinstance(s, (ast.If, ast.While)):
            self.condition(m, fn, s.test, isinstance(s, ast.While))
        if isinstance(s, ast.If):
            self.chain(m, fn, s)
            if isinstance(s.test, ast.Constant) and not s.test.value:
                for n in (x for b in s.body for x in ast.walk(b)):
                    if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and dotted(n.func).split('.')[-1] == 'warn':
                        self.report(m, n, fn, 'unreachable', dotted(n)[:60], 'report is never reached: its condition is always false')
        if isinstance(s, ast.Try):
            self.try_(m, fn, s)
        if isinstance(s, ast.With):
            for i in s.items:
                if isinstance(i.context_expr, ast.Call) and dotted(i.context_expr.func).split('.')[-1] == 'suppress':
                    self.swallow(m, fn, s, i.context_expr.args, s.body, i.context_expr)

    def raise_(self, m, fn, s):
        self.count['raises'] += 1
        e = s.exc
        if e is None:
            return
        if isinstance(e, (ast.Constant, ast.JoinedStr, ast.Tuple, ast.List, ast.Dict, ast.BinOp, ast.Compare, ast.BoolOp)):
            self.report(m, s, fn, 'raise', dotted(s)[:80], 'what is raised is not an exception')
            return
        c = e.func if isinstance(e, ast.Call) else e
        r = self.prog.resolve_expr(m, c, fn)
        need = ARGS.get(dotted(c).split('.')[-1], 0)
        if isinstance(e, ast.Call) and len(e.args) + len(e.keywords) < need and not any(isinstance(a, ast.Starred) for a in e.args):
            self.report(m, s, fn, 'raise', dotted(s)[:80], '%s cannot be made from %d arguments' % (dotted(c), len(e.args) + len(e.keywords)))
        if isinstance(r, Func) and not isinstance(e, ast.Call) or isinstance(r, Module):
            self.report(m, s, fn, 'raise', dotted(s)[:80], 'what is raised is not an exception')
        elif isinstance(r, Class) and not self.exc_class(m, c, fn) and not r.open_base():
            self.report(m, s, fn, 'raise', dotted(s)[:80], 'what is raised is not an exception')
        elif isinstance(r, Ext) and r.path.startswith('builtins.') and r.path.split('.')[-1] not in EXC:
            self.report(m, s, fn, 'raise', dotted(s)[:80], 'what is raised is not an exception')
        elif isinstance(r, Ext) and r.path.split('.')[-1] in ('NotImplemented',):
            self.report(m, s, fn, 'raise', dotted(s)[:80], 'what is raised is not an exception')

    def names_in_scope(self, m, fn):
        out = set(m.names)
        f = fn
        while f is not None:
            out |= set(f.locals()) | set(f.all_params())
            f = f.parent
        return out

    def message(self, m, fn, call):
        self.count['messages'] += 1
        scope = None

        def texts(e, formatted):
            if isinstance(e, ast.Constant):
                if isinstance(e.value, str) and not formatted:
                    yield e, e.value
            elif isinstance(e, ast.JoinedStr):
                for v in e.values:
                    if isinstance(v, ast.Constant):
                        yield v, v.value
            elif isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
                yield from texts(e.left, formatted)
                yield from texts(e.right, formatted)
            elif isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
                return
            elif isinstance(e, ast.IfExp):
                yield from texts(e.body, formatted)
                yield from texts(e.orelse, formatted)

        args = call.args + [k.value for k in call.keywords if k.arg in ('msg', 'message')]
        for a in args:
            for node, t in texts(a, False):
                for g in re.findall(r'\{([A-Za-z_][\w.]*)(?:[\[(!:][^{}]*)?\}', t):
                    scope = scope or self.names_in_scope(m, fn)
                    if g.split('.')[0] in scope:
                        self.report(m, node, fn, 'placeholder', g, 'the message leaves the placeholder {%s} unfilled: %s' % (g, t[:60]))
        if call.args and isinstance(call.args[0], ast.Constant) and isinstance(call.args[0].value, str) and len(call.args) > 1 and self.exc_class(m, call.func, fn):
            if re.search(r'%[sdrf]', call.args[0].value):
                self.report(m, call, fn, 'placeholder', call.args[0].value[:40], 'the message is not formatted with its arguments')

    def filters(self, m, fn, call, s):
        n = dotted(call.func)
        if n in ('warnings.filterwarnings', 'warnings.simplefilter', 'filterwarnings', 'simplefilter') and call.args and isinstance(call.args[0], ast.Constant) \
                and call.args[0].value == 'ignore':
            whole = len(call.args) == 1 and not any(k.arg in ('message', 'module', 'category') for k in call.keywords)
            if whole and not self.inside(m, s, ('catch_warnings',)):
                self.report(m, s, fn, 'filter', dotted(call)[:60], 'all warnings are switched off from here on')

    def inside(self, m, node, names):
        if not hasattr(m, '_par'):
            m._par = {c: n for n in ast.walk(m.tree) for c in ast.iter_child_nodes(n)}
        n = m._par.get(node)
        while n is not None:
            if isinstance(n, ast.With) and any(isinstance(i.context_expr, ast.Call) and dotted(i.context_expr.func).split('.')[-1] in names for i in n.items):
                return True
            if isinstance(n, ast.If) and re.search('verbosity', dotted(n.test), re.I):
                return True
            n = m._par.get(n)
        return False

    def boolean(self, m, fn, e):
        if isinstance(e, ast.Compare) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not isinstance(e, ast.Compare) or len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn))
        return isinstance(e, ast.Call) and dotted(e.func) in BOOLEAN

    def compare(self, m, fn, n):
        ops = [n.left] + n.comparators
        for a, o, b in zip(ops, n.ops, ops[1:]):
            for x, y in ((a, b), (b, a)):
                if self.boolean(m, fn, x) and isinstance(y, (ast.Constant, ast.UnaryOp)) and isinstance(getattr(y, 'value', getattr(getattr(y, 'operand', None), 'value', None)), (int, float)) \
                        and not isinstance(getattr(y, 'value', None), bool):
                    self.report(m, n, fn, 'guard', dotted(n)[:80], 'a truth value is compared with a number')
                if isinstance(o, (ast.Eq, ast.NotEq, ast.Lt, ast.Gt, ast.LtE, ast.GtE)) and dotted(y) in ('np.nan', 'numpy.nan', 'math.nan', "float('nan')"):
                    self.report(m, n, fn, 'guard', dotted(n)[:80], 'a comparison with nan never holds')
            if isinstance(o, (ast.Is, ast.IsNot)) and any(isinstance(x, ast.Constant) and isinstance(x.value, (str, int, float, bytes)) and not isinstance(x.value, bool) or isinstance(x, (ast.List, ast.Tuple, ast.Dict)) for x in (a, b)):
                self.report(m, n, fn, 'guard', dotted(n)[:80], 'identity with a literal')
            if isinstance(o, (ast.Lt,)) and isinstance(a, ast.Call) and dotted(a.func) == 'len' and isinstance(b, ast.Constant) and b.value == 0:
                self.report(m, n, fn, 'guard', dotted(n)[:80], 'a length is never negative')
            if isinstance(o, (ast.Eq, ast.NotEq, ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Is, ast.IsNot)) and dotted(a) == dotted(b) and not any(isinstance(w, ast.Call) for w in ast.walk(a)):
                self.report(m, n, fn, 'guard', dotted(n)[:80], 'something is compared with itself')

    def condition(self, m, fn, test, loop=False):
        self.count['conditions'] += 1
        todo = [test]
        while todo:
            t = todo.pop()
            if isinstance(t, ast.BoolOp):
                todo += t.values
                d = [dotted(v) for v in t.values]
                neg = [dotted(v.operand) for v in t.values if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not)]
                if any(x in d for x in neg):
                    self.report(m, t, fn, 'guard', dotted(t)[:80], 'condition combines something with its opposite')
                self.ranges(m, fn, t)
            elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                todo.append(t.operand)
            elif isinstance(t, ast.Constant):
                if not (loop and t is test) and not isinstance(t.value, bool) or isinstance(t.value, bool) and t is not test:
                    self.report(m, t, fn, 'guard', dotted(test)[:80], 'part of the condition is a constant')
            elif isinstance(t, (ast.JoinedStr, ast.Lambda)) or isinstance(t, ast.Tuple) and t.elts:
                self.report(m, t, fn, 'guard', dotted(test)[:80], 'part of the condition always holds')
            elif isinstance(t, (ast.Name, ast.Attribute)):
                r = self.prog.resolve_expr(m, t, fn)
                if isinstance(r, (Class, Func, Module)) and not (isinstance(r, Func) and r.is_property):
                    self.report(m, t, fn, 'guard', dotted(test)[:80], '%s is a %s, which always counts as true' % (dotted(t), type(r).__name__.lower()))
                elif fn is not None and isinstance(t, ast.Attribute):
                    o = self.prog.type_of(fn, t.value)
                    g = o.find(t.attr) if o is not None else None
                    if isinstance(g, Func) and not g.is_property and not any(t.attr in c.attrs for c in o.mro()):
                        self.report(m, t, fn, 'guard', dotted(test)[:80], '%s is a method, which always counts as true' % dotted(t))

    def ranges(self, m, fn, t):
        """x < a and x > b with a <= b ; x != a or x != b"""
        facts = {}
        for v in t.values:
            if not (isinstance(v, ast.Compare) and len(v.ops) == 1):
                continue
            a, o, b = v.left, v.ops[0], v.comparators[0]
            if isinstance(a, ast.Constant):
                a, b = b, a
                o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(o), type(o))()
            k = b.value if isinstance(b, ast.Constant) else (-b.operand.value if isinstance(b, ast.UnaryOp) and isinstance(b.op, ast.USub) and isinstance(b.operand, ast.Constant) else None)
            if k is None and not (isinstance(o, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) and isinstance(b, ast.Attribute)):
                continue
            key = ('n', k) if isinstance(k, (int, float)) and not isinstance(k, bool) else ('o', dotted(b))
            facts.setdefault(dotted(a), []).append((type(o), key))
        for x, fs in facts.items():
            if len(fs) < 2:
                continue
            if isinstance(t.op, ast.Or):
                ne = [k for o, k in fs if o in (ast.NotEq, ast.IsNot)]
                if len(set(ne)) > 1:
                    self.report(m, t, fn, 'guard', dotted(t)[:80], 'condition always holds: %s differs from one of several values' % x)
                self.interval(m, fn, t, x, [({ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt}.get(o), k) for o, k in fs if k[0] == 'n'], 'always')
            else:
                eq = [k for o, k in fs if o in (ast.Eq, ast.Is)]
                if len(set(eq)) > 1:
                    self.report(m, t, fn, 'guard', dotted(t)[:80], 'condition never holds: %s equals several values' % x)
                self.interval(m, fn, t, x, [(o, k) for o, k in fs if k[0] == 'n'], 'never')

    def interval(self, m, fn, t, x, fs, when):
        lo = [(k[1], o is ast.GtE) for o, k in fs if o in (ast.Gt, ast.GtE)]
        hi = [(k[1], o is ast.LtE) for o, k in fs if o in (ast.Lt, ast.LtE)]
        if lo and hi:
            a, ai = max(lo, key=lambda p: (p[0], not p[1]))
            b, bi = min(hi, key=lambda p: (p[0], p[1]))
            if a > b or a == b and not (ai and bi):
                self.report(m, t, fn, 'guard', dotted(t)[:80], 'condition %s holds for any %s' % (when, x))

    def chain(self, m, fn, s):
        """if / elif with the same condition twice"""
        seen, n = [dotted(s.test)], s
        if getattr(s, '_inchain', False):
            return
        while len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            n = n.orelse[0]
            n._inchain = True
            d = dotted(n.test)
            if d in seen and not any(isinstance(w, (ast.Call, ast.NamedExpr)) for w in ast.walk(n.test)):
                self.report(m, n, fn, 'guard', d[:80], 'the branch is never taken: an earlier branch has the same condition')
            seen.append(d)

    def try_(self, m, fn, s):
        for x in s.finalbody:
            for n in ast.walk(x):
                if isinstance(n, FN):
                    continue
                if isinstance(n, ast.Return):
                    self.report(m, n, fn, 'finally', dotted(n)[:60], 'leaving the finally clause discards the error in flight')
        earlier = set()
        for h in s.handlers:
            self.count['handlers'] += 1
            ts = [] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                if isinstance(t, (ast.BoolOp, ast.Constant)):
                    self.report(m, h, fn, 'handler', dotted(t), 'the handler names no exception class')
                elif self.ancestors(m, t, fn) & earlier and self.exc_class(m, t, fn):
                    self.report(m, h, fn, 'handler', dotted(t), 'never reached: an earlier handler takes these exceptions')
            earlier |= self.handled(m, fn, h)
            if self.silent(h):
                self.swallow(m, fn, s, ts, s.body, h)

    def updates(self, call, body):
        """the call stores back what a lookup of the same object in the same block has found"""
        if not isinstance(call.func, ast.Attribute):
            return False
        o = dotted(call.func.value)
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get_val', 'get_item', 'get') and dotted(n.func.value) == o
                   for b in body for n in ast.walk(b))

    def swallow(self, m, fn, s, types, body, h):
        caught = {dotted(t).split('.')[-1] for t in types} or {'BaseException'}
        lookups = caught <= LOOKUP
        if caught & {'BaseException', 'Exception'}:
            for n in (x for b in body for x in ast.walk(b)):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, (ast.Attribute, ast.Name)):
                    name = dotted(n.value.func).split('.')[-1]
                    if name in QUERY or name[:1].isupper() or self.updates(n.value, body):
                        continue
                    self.report(m, h, fn, 'swallowed', dotted(n)[:80], 'any failure of %s is caught and not reported' % dotted(n)[:60])
        for names, d in self.escaping(m, fn, body):
            self.count['swallow_paths'] += 1
            if lookups or not (caught & names):
                continue
            self.report(m, h, fn, 'swallowed', d, 'the error %s is caught and not reported' % d)


def check(tier, seed):
    ck = Checker().run()
    table = json.load(open(TABLE))
    ck.inventory(table)
    seen, out = set(), []
    for f in ck.found:
        if f['key'] not in seen:
            seen.add(f['key'])
            out.append(f)
    cov = dict(ck.count)
    cov['explanation'] = (
        'Counts of what was examined in all shipped modules. Rules: an error or warning that is built is raised or issued; what is raised is an exception; messages have their '
        'placeholders filled; a guard can be both true and false (no truth value compared with a number, no function object or constant as condition, no empty range, no repeated branch); '
        'no report stands behind an unconditional exit; no handler quietly takes an error that the program itself raises on a path from the guarded statements (call graph); '
        'no return in a finally clause; an error promised by the documentation is raised somewhere below; no lasting filter that hides all warnings.')
    low = ['%s=%s<%d' % (k, cov.get(k, 0), v) for k, v in FLOOR.items() if cov.get(k, 0) < v]
    return {'findings': out, 'coverage': cov, 'error': 'fewer obligations than expected: %s' % ', '.join(low) if low else None,
            'assumptions': ['a handler that prints, warns, logs, re-raises or uses the exception reports it', 'lookups may answer a missing entry by a default (KeyError and the like)']}
