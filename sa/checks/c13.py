"""C13: using the library changes neither the user's data nor the library's own.

An alias and effect analysis (sa/alias.py) over every function of the program: what each function may change among the
objects that outlive a call - module-level objects, default argument objects, objects of classes and cached results -
and among the containers a user passes to the public interface (aviary.api).  A function that is reached only while
modules are imported builds those tables; a few parameters are documented to be completed in place."""

import ast
import re

from .. import alias as A
from ..program import Class, Func, Program, Var

FLOOR = {'functions': 2000, 'shared': 150, 'entries': 60}
CONTAINER = re.compile(r'\b(dict|dictionary|list|AviaryValues|NamedVal?ues|ndarray|array|set|sequence|iterable|tuple)\b', re.I)
# parameters documented to be completed in place (the container itself, not what it holds)
IN_PLACE = {
    ('add_meta_data', 'meta_data'): 'adds to the given metadata',
    ('update_meta_data', 'meta_data'): 'updates the given metadata',
    ('add_aviary_input', 'meta_data'): '',
    ('preprocess_options', 'aviary_options'): 'completes the given options',
    ('preprocess_crewpayload', 'aviary_options'): 'completes the given options',
    ('preprocess_fuel_capacities', 'aviary_options'): 'completes the given options',
    ('preprocess_propulsion', 'aviary_options'): 'completes the given options',
    ('preprocess_inputs', 'aviary_inputs'): 'returns the completed inputs',
    ('update_GASP_options', 'aircraft_values'): 'completes the given values',
    ('update_dependent_options', 'aircraft_values'): 'completes the given values',
    ('override_aviary_vars', 'aviary_inputs'): 'completes the given values',
}


def containers(f):
    """the parameters of f that are documented or annotated to be containers"""
    doc = ast.get_docstring(f.node) or ''
    if f.cls is not None and f.name == '__init__':
        doc += '\n' + (ast.get_docstring(f.cls.node) or '')
    a = f.node.args
    kw = {x.arg for x in (a.vararg, a.kwarg) if x}
    out = set()
    for x in f.all_params():
        if x in kw:
            continue
        m = re.search(r'^\s*%s\s*:\s*(.*)$' % re.escape(x), doc, re.M)
        n = [y for y in a.args + a.kwonlyargs if y.arg == x]
        ann = ast.unparse(n[0].annotation) if n and n[0].annotation is not None else ''
        if (m and CONTAINER.search(m.group(1))) or CONTAINER.search(ann):
            out.add(x)
    return out


def entries(prog):
    user = {}
    for n in prog.modules['aviary.api'].names:
        r = prog.member('aviary.api', n)
        fs = []
        if isinstance(r, Func):
            fs = [r]
        elif isinstance(r, Class):
            fs = [m for m in r.methods.values() if isinstance(m, Func) and (not m.name.startswith('_') or m.name == '__init__')]
        for f in fs:
            c = containers(f)
            if c:
                user[f] = c
    return user


def supplied(prog):
    """what the methods of a subsystem builder return belongs to the builder: it may return one object every time"""
    return {n for c in prog.classes if c.name == 'SubsystemBuilder' for n, m in c.methods.items()
            if isinstance(m, Func) and not n.startswith('_') and not m.static and (n.startswith('get_') or n in ('mission_inputs', 'mission_outputs'))}


def pure_builders(prog, an):
    """building from a subsystem or phase builder changes neither the builder nor what it is given, so that building
    again gives the same; running a derived mission does not change the sized problem (its results are attributes)"""
    todo = []
    for c in prog.classes:
        if c.name in ('SubsystemBuilder', 'PhaseBuilder'):
            names = {m for m, f in c.methods.items() if isinstance(f, Func) and not m.startswith('_') and not f.static} - {'from_phase_info'}
            for k in [c] + c.all_subclasses():
                todo += [(m, c.name) for n, m in k.methods.items() if n in names and isinstance(m, Func)]
        if c.name == 'AviaryProblem':
            todo += [(m, 'AviaryProblem') for n, m in c.methods.items() if n in ('run_off_design_mission', 'run_payload_range', 'save_results') and isinstance(m, Func)]
    out = []
    for f, base in dict.fromkeys(todo):
        names = f.all_params()
        kw = {x.arg for x in (f.node.args.vararg, f.node.args.kwarg) if x}
        for t, sites in an.sum[f].muts.items():
            if t[0][:2] != ('p', f.qual) or t[0][2] >= len(names):
                continue
            x = names[t[0][2]]
            if x in kw or x == f.selfname and t[1] == 0 or base == 'PhaseBuilder' and x == 'phase' or t[1] == 0 and (f.name, x) in IN_PLACE:
                continue
            for where, what in sites.items():
                own = 'the object itself' if x == f.selfname else 'its argument %s' % x
                out.append({'key': 'b:%s.%s:%s' % (f.qual, x, where), 'msg': '%s changes %s: %s: %s' % (f.qual, own, where, what)})
    return out, len(todo)


def copies(prog, an):
    """a copy of a container shares nothing with it that either could change: a deep copy nothing at all"""
    out, n = [], 0
    for c in prog.classes:
        for name in ('copy', 'deepcopy', '__copy__', '__deepcopy__'):
            f = c.methods.get(name)
            if not isinstance(f, Func) or f.static or not an.container(c):
                continue
            n += 1
            for t in an.sum[f].ret:
                if t[0] == ('p', f.qual, 0) and (t[1] == t[2] == 0 or 'deep' in name):
                    out.append({'key': 'k:%s' % f.qual, 'msg': '%s returns an object that shares its contents with the original' % f.qual})
                    break
    return out, n


def import_time(prog, an):
    """functions that are called while modules are imported and from no function"""
    called = set()
    for m in prog.modules.values():
        todo = list(m.tree.body)
        while todo:
            st = todo.pop()
            for d in getattr(st, 'decorator_list', ()):
                called |= {x.attr if isinstance(x, ast.Attribute) else x.id for x in ast.walk(d) if isinstance(x, (ast.Name, ast.Attribute))}
            if isinstance(st, ast.ClassDef):
                todo += st.body
            elif isinstance(st, ast.If) and '__main__' in ast.unparse(st.test):
                continue
            elif not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for n in ast.walk(st):
                    if isinstance(n, ast.Call):
                        g = n.func
                        called.add(g.attr if isinstance(g, ast.Attribute) else getattr(g, 'id', ''))

    def within(g, f):
        while g is not None and g is not f:
            g = g.parent
        return g is f

    called -= {'setup', 'configure', 'initialize'}  # run by the library, later
    early, grew = set(), True
    while grew:
        grew = False
        for f in prog.functions:
            by = {g for g in an.callers.get(f, ()) if not within(g, f)}
            if f not in early and (by or f.name in called) and by <= early:
                early.add(f)
                grew = True
    return {f.qual for f in early}


def shared(prog):
    """how many objects outlive the calls: module-level, class-level, default arguments"""
    n = [0, 0, 0]
    for m in prog.modules.values():
        for st in m.tree.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None and A.mutable_expr(st.value):
                n[0] += 1
    for c in prog.classes:
        for st in c.node.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None and A.mutable_expr(st.value):
                n[1] += 1
    for f in prog.functions:
        n[2] += sum(A.mutable_expr(d) for d in f.node.args.defaults + [d for d in f.node.args.kw_defaults if d is not None])
    return n


WHAT = {'g': 'the module-level %s of %s', 'd': 'the default value of parameter %s of %s, shared by all calls', 'c': 'the attribute %s of class %s, shared by all instances', 'u': 'the %s passed to %s, which belongs to the caller', 'k': 'the cached result %s of %s', 'x': 'the result of %s of %s', 'o': 'what was given in the %s of %s'}


def check(tier, seed):
    prog = Program()
    user = entries(prog)
    an = A.Alias(prog, user, supplied(prog))
    out = an.solve()
    early = import_time(prog, an)
    finds, seen, setup = [], set(), []
    for (root, site), (tag, where, f) in sorted(out.items(), key=lambda x: str(x[0])):
        kind, owner, name = root
        if kind != 'u' and where[0] in early:
            setup.append('%s in %s' % (name, where[0]))
            continue
        if kind == 'o' and tag[1] == 0:  # its own dictionary of options
            continue
        if kind == 'u' and tag[1] == 0 and (owner.split('.')[-1], name) in IN_PLACE:
            continue
        key = '%s:%s.%s:%s' % (kind, owner, name, where[0])
        if key in seen:
            continue
        seen.add(key)
        via = '' if f.qual == where[0] else ', reached from %s' % f.qual
        deep = '' if tag[1] == 0 else ' (%d level%s inside it)' % (tag[1], 's' * (tag[1] > 1))
        finds.append({'key': key, 'msg': '%s%s is changed by %s: %s%s' % (WHAT[kind] % (name, owner), deep, where[0], where[1], via)})
    contract, nc = pure_builders(prog, an)
    dup, nk = copies(prog, an)
    for x in contract + dup:
        if x['key'] not in seen:
            seen.add(x['key'])
            finds.append(x)
    n = shared(prog)
    cov = {
        'explanation': 'Compositional alias and effect analysis of all functions of the program to a fixpoint; every store, in-place method and del is an obligation, decided by the objects it may reach.',
        'functions': len(prog.functions), 'calls': an.calls, 'stores': an.stores,
        'module_level_objects': n[0], 'class_level_objects': n[1], 'mutable_defaults': n[2],
        'builder_methods_that_change_nothing': nc, 'copy_methods': nk, 'entry_points': len(user), 'user_containers': sum(len(c) for c in user.values()),
        'tables_built_while_importing': sorted(set(setup)),
        'completed_in_place_by_contract': sorted('%s(%s)' % k for k in IN_PLACE if IN_PLACE[k]),
    }
    err = None
    if len(prog.functions) < FLOOR['functions'] or sum(n) < FLOOR['shared'] or len(user) < FLOOR['entries']:
        err = 'too little found: %r' % cov
    return {'findings': finds, 'coverage': cov, 'error': err,
            'assumptions': ['objects of libraries outside the program are not followed', 'containers nested deeper than %d levels are leaves' % A.MAXN,
                            'methods on objects of unknown class are resolved by method name and naming convention']}
