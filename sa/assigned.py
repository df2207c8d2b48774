"""Definite assignment: reads of a local variable that some path reaches without assigning it.

Paths: both branches of every condition, every exception handler; loops are taken at least once.
Conditions are correlated by the names they mention: a read under a test that shares a name with
the condition of the assignment is left alone, and so is a read after an assignment in every branch
of an exhaustive chain over an enumeration."""

import ast

from .program import Class, Ext, scope_walk, target_names

COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def names_in(e):
    return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)} | {ast.unparse(x) for x in ast.walk(e) if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Load)}


class Dead(Exception):
    pass


class State:
    """assigned: definitely assigned names; partial: name -> list of name sets of the conditions that decided"""

    def __init__(self, assigned, partial, dead=False):
        self.assigned, self.partial, self.dead = assigned, partial, dead

    def copy(self):
        return State(set(self.assigned), {k: list(v) for k, v in self.partial.items()}, self.dead)


def flags_set(*bodies):
    """names given a constant in these statements: they may record which branch was taken"""
    out = set()
    for b in bodies:
        for st in b:
            for x in ast.walk(st):
                if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant):
                    out |= {n for t in x.targets for n in target_names(t)}
    return out


class Flow:
    def __init__(self, prog, fn):
        self.prog, self.fn = prog, fn
        self.locals = set(fn.locals()) - set(fn.all_params())
        for n in scope_walk(fn.node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.locals -= set(n.names)
        # comprehension variables live in their own scope
        self.comp = set()
        for n in scope_walk(fn.node):
            if isinstance(n, COMP):
                for g in n.generators:
                    self.comp |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        self.out = []
        # conditions kept in a local are the same as the expression they stand for
        self.alias = {}
        for n, vs in prog.local_values(fn).items():
            if len(vs) == 1 and vs[0] is not None:
                self.alias[n] = names_in(vs[0])
        self.tests = []
        self.loops = []
        self.reads = 0

    def run(self):
        st = State(set(self.fn.all_params()), {})
        self.block(self.fn.node.body, st)
        return self

    # ----------------------------------------------------------------------
    def bind(self, st, name):
        st.assigned.add(name)
        st.partial.pop(name, None)

    def bind_target(self, st, t):
        for n in target_names(t):
            self.bind(st, n)

    def merge(self, parts, cond):
        live = [p for p in parts if not p.dead]
        if not live:
            p = parts[0].copy()
            p.dead = True
            return p
        a = set.intersection(*[p.assigned for p in live])
        partial = {}
        for p in live:
            for k, v in p.partial.items():
                partial.setdefault(k, []).extend(x for x in v if x not in partial.get(k, []))
        for n in set().union(*[p.assigned for p in live]) - a:
            c = frozenset(cond | {'for'}) if self.loops else frozenset(cond)
            partial.setdefault(n, []).append(c)
        for n in a:
            partial.pop(n, None)
        return State(a, partial)

    def cond(self, e):
        out = names_in(e)
        for n in list(out):
            out |= self.alias.get(n, set())
        return out

    def read(self, e, st):
        if e is None or st.dead:
            return
        for x in self.expr_nodes(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in self.locals:
                self.reads += 1
                if x.id in st.assigned or x.id in self.comp:
                    continue
                conds = st.partial.get(x.id)
                if conds is None:
                    self.out.append((x, 'is never assigned before'))
                    self.bind(st, x.id)
                    continue
                under = set().union(*self.tests) if self.tests else set()
                if any(c & under or '?' in c or 'for' in c for c in conds):
                    continue
                if len(conds) > 1 and frozenset.intersection(*conds):
                    # several tests of one thing, which may cover every case
                    continue
                self.out.append((x, 'is not assigned when the conditions on %s fail' % ', '.join(sorted(n for n in min(conds, key=len) if n.isidentifier())[:3])))
                self.bind(st, x.id)

    def expr_nodes(self, e):
        todo = [e]
        while todo:
            n = todo.pop(0)
            yield n
            if isinstance(n, ast.Lambda) or isinstance(n, COMP):
                if isinstance(n, COMP):
                    todo.append(n.generators[0].iter)
                    if not isinstance(n, ast.GeneratorExp):
                        todo += [n.elt] if not isinstance(n, ast.DictComp) else [n.key, n.value]
                continue
            if isinstance(n, (ast.BoolOp, ast.IfExp)):
                first = n.values[0] if isinstance(n, ast.BoolOp) else n.test
                todo.append(first)
                continue
            todo += list(ast.iter_child_nodes(n))

    def walrus(self, e, st):
        for x in ast.walk(e):
            if isinstance(x, ast.NamedExpr):
                self.bind(st, x.target.id)

    def block(self, body, st):
        for s in body:
            if st.dead:
                return st
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.bind(st, s.name)
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                self.bind(st, (a.asname or a.name).split('.')[0])
            return st
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.read(c, st)
            st.dead = True
            return st
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1][isinstance(s, ast.Break)].append(st.copy())
            st.dead = True
            return st
        if isinstance(s, ast.If):
            return self.branch(s, st)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.read(s.iter, st)
            self.walrus(s.iter, st)
            return self.loop(s, st, s.target)
        if isinstance(s, ast.While):
            self.read(s.test, st)
            self.walrus(s.test, st)
            return self.loop(s, st, None)
        if isinstance(s, ast.Try):
            return self.try_(s, st)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.read(i.context_expr, st)
                if i.optional_vars is not None:
                    self.bind_target(st, i.optional_vars)
            return self.block(s.body, st)
        if isinstance(s, ast.Match):
            self.read(s.subject, st)
            parts = []
            total = False
            for c in s.cases:
                b = st.copy()
                for p in ast.walk(c.pattern):
                    if isinstance(p, (ast.MatchAs, ast.MatchStar)) and p.name:
                        self.bind(b, p.name)
                parts.append(self.block(c.body, b))
                total = total or isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None
            if not total:
                parts.append(st.copy())
            return self.merge(parts, names_in(s.subject))
        if isinstance(s, ast.Assign):
            self.read(s.value, st)
            self.walrus(s.value, st)
            for t in s.targets:
                self.subtargets(t, st)
                self.bind_target(st, t)
            return st
        if isinstance(s, ast.AugAssign):
            self.read(s.value, st)
            if isinstance(s.target, ast.Name):
                self.read(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            else:
                self.subtargets(s.target, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.read(s.value, st)
                self.bind_target(st, s.target)
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.assigned.discard(t.id)
                    st.partial.setdefault(t.id, []).append(frozenset([t.id]))
            return st
        if isinstance(s, ast.Assert):
            self.read(s.test, st)
            if isinstance(s.test, ast.Constant) and not s.test.value:
                st.dead = True
            return st
        if isinstance(s, ast.Expr):
            self.read(s.value, st)
            self.walrus(s.value, st)
            v = s.value
            if isinstance(v, ast.Call) and ast.unparse(v.func) in ('sys.exit', 'exit', 'quit', 'os._exit'):
                st.dead = True
            return st
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.read(e, st)
        return st

    def subtargets(self, t, st):
        for x in ast.walk(t):
            if isinstance(x, (ast.Subscript, ast.Attribute)):
                for c in ast.iter_child_nodes(x):
                    if isinstance(c, ast.expr):
                        self.read(c, st)

    def branch(self, s, st):
        self.read(s.test, st)
        self.walrus(s.test, st)
        cond = self.cond(s.test) | flags_set(s.body, s.orelse)
        v = constant(s.test)
        self.tests.append(cond)
        a = self.block(s.body, st.copy()) if v is not False else None
        if v is True:
            self.tests.pop()
            return a
        self.tests.pop()
        self.tests.append(cond)
        b = st.copy()
        if s.orelse:
            b = self.block(s.orelse, b)
        elif exhaustive(self.prog, self.fn, s):
            b.dead = True
        self.tests.pop()
        if a is None:
            return b
        # the condition of a whole chain
        return self.merge([a, b], cond if flag(s.test) else cond | {'?'})

    def loop(self, s, st, target):
        cond = self.cond(s.iter if target is not None else s.test)
        self.loops.append(([], []))
        b = st.copy()
        if target is not None:
            self.bind_target(b, target)
        # an earlier pass may have assigned what this one reads
        for n in {x.id for y in s.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - b.assigned:
            b.partial.setdefault(n, []).append(frozenset(['for']))
        self.tests.append(cond)
        b = self.block(s.body, b)
        cont, brk = self.loops.pop()
        self.tests.pop()
        ends = [x for x in [b] + cont if not x.dead]
        forever = target is None and constant(s.test) is True
        after = self.merge(ends, cond) if ends else State(set(b.assigned), dict(b.partial), True)
        if not ends and not brk and not forever:
            # every iteration leaves: the loop may not run at all
            after = st.copy()
        if forever:
            after.dead = True
        if s.orelse and not after.dead:
            after = self.block(s.orelse, after)
        parts = [after] + brk
        return self.merge(parts, cond | {'for'})

    def try_(self, s, st):
        start = st.copy()
        b = self.block(s.body, st.copy())
        assigned_in = {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if s.orelse and not b.dead:
            b = self.block(s.orelse, b)
        parts = [b]
        for h in s.handlers:
            e = start.copy()
            for n in assigned_in - e.assigned:
                e.partial.setdefault(n, []).append(frozenset(['try']))
            if h.name:
                self.bind(e, h.name)
            e = self.block(h.body, e)
            if h.name and not e.dead:
                e.assigned.discard(h.name)
            parts.append(e)
        r = self.merge(parts, {'try'} | flags_set(s.body, s.orelse, *[h.body for h in s.handlers]))
        if s.finalbody:
            f = self.block(s.finalbody, r if not r.dead else start.copy())
            f.dead = r.dead or f.dead
            r = f
        return r


def flag(e):
    """a test of one truth value: a name, an option, a type, a missing value"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return flag(e.operand)
    if isinstance(e, ast.Compare):
        return len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) and isinstance(e.comparators[0], ast.Constant)
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id in ('isinstance', 'hasattr', 'callable')
    return isinstance(e, (ast.Name, ast.Attribute, ast.Subscript))


def constant(e):
    if isinstance(e, ast.Constant):
        return bool(e.value)
    return None


def exhaustive(prog, fn, s):
    """is this the last `if` of a chain that tests one expression against every member of an enumeration?"""
    chain = getattr(s, '_chain', None)
    if chain is None:
        chain = [s]
        x = s
        # collect upwards: the chain is stored on the elif when the parent is visited
    tests = [c.test for c in chain_of(fn, s)]
    subj, members, enum = None, set(), None
    for t in tests:
        for d in t.values if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or) else [t]:
            if not isinstance(d, ast.Compare) or len(d.ops) != 1:
                return False
            u = ast.unparse(d.left)
            if subj is not None and u != subj:
                return False
            subj = u
            if isinstance(d.ops[0], (ast.Is, ast.Eq)):
                ms = [d.comparators[0]]
            elif isinstance(d.ops[0], ast.In) and isinstance(d.comparators[0], (ast.Tuple, ast.List, ast.Set)):
                ms = d.comparators[0].elts
            else:
                return False
            for m in ms:
                if isinstance(m, ast.Attribute):
                    c = prog.resolve_expr(fn.module, m.value, fn)
                    if isinstance(c, Class):
                        if enum is not None and enum is not c:
                            return False
                        enum = c
                        members.add(m.attr)
                        continue
                elif isinstance(m, ast.Name):
                    # module level alias:  FLOPS = LegacyCode.FLOPS
                    v = prog.resolve_expr(fn.module, m, fn)
                    node = getattr(v, 'node', None)
                    if isinstance(node, ast.Assign) and isinstance(node.value, ast.Attribute):
                        c = prog.resolve_expr(v.module, node.value.value)
                        if isinstance(c, Class):
                            if enum is not None and enum is not c:
                                return False
                            enum = c
                            members.add(node.value.attr)
                            continue
                return False
    if enum is None:
        return False
    if not any(isinstance(b, Ext) and b.path.startswith('enum.') for k in enum.mro() for b in k.bases()):
        return False
    return set(enum.vars) <= members


def chain_of(fn, s):
    if not hasattr(fn, '_chains'):
        fn._chains = {}
        for n in scope_walk(fn.node):
            if isinstance(n, ast.If):
                base = fn._chains.get(n, [])
                fn._chains[n] = base + [n]
                if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
                    fn._chains[n.orelse[0]] = base + [n]
    return fn._chains.get(s, [s])
