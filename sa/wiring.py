"""Enumerate the models the groups of Aviary build, and check how they are wired."""

import copy
import json
import multiprocessing as mp
import os
import random
import re
import signal
import time
import traceback

import numpy as np

from . import components as C
from . import groups as G
from . import omodel as O
from . import sweep as S
from . import terms as T
from . import units as U
from .interp import AbstractRaise, BoundMethod, ClassObj, FuncObj, Opaque, Unsupported
from .omodel import IMPL
from .terms import Term

CHOOSE = ('code_origin_to_prioritize',)  # options the user has to choose
ENG = [dict(), dict(n_eng=2), dict(max_values=False, hybrid=True), dict(n_eng=2, max_values=False), dict(n_eng=2, hybrid=True)]


def specs_of(cls, decl):
    if cls.name == 'BaseODE':
        out = []
        for code, methods in (
            ('FLOPS', [{}, {'method': 'computed'}]),
            ('GASP', [{}, {'method': 'cruise'}, {'method': 'cruise', 'output_alpha': True}, {'method': 'low_speed'}]),
        ):
            out += [dict(code=code, aero=m, synth=True) for m in methods]
        return out
    if cls.name == 'CorePreMission':
        return [dict(pre=p, first=f) for p in (('FLOPS', 'FLOPS'), ('GASP', 'GASP'), ('FLOPS', 'GASP'), ('GASP', 'FLOPS')) for f in ('aero', 'mass')[: 1 + (p[0] != p[1])]]
    if 'subsystems' in decl:
        if 'energy_state' in cls.module.name:
            if 'friction_key' in decl or 'Takeoff' in cls.name or 'Landing' in cls.name or 'Flare' in cls.name:
                return [dict(code='FLOPS', aero={'method': 'low_speed'}), dict(code='FLOPS', aero={'method': 'low_speed'}, n_eng=2)]
            return [dict(code='FLOPS', **e) for e in ENG]
        return [dict(code='GASP', **e) for e in ENG] + [dict(code='GASP', aero={'method': 'low_speed'})]
    if 'engine_models' in decl:
        return ENG + [dict(n_eng=2, uneven=True)]
    if 'propeller_model' in decl:
        return [dict(), dict(rpm=True), dict(gearbox=False), dict(rpm=True, gearbox=False)]
    if 'mission_info' in decl:
        return [dict(mission='main'), dict(mission='reserve')]
    return [dict()]


PHASES = {
    'main': {'climb': {'user_options': {}}, 'cruise': {'user_options': {}}, 'descent': {'user_options': {}}},
    'reserve': {'climb': {'user_options': {}}, 'cruise': {'user_options': {'reserve': False}}, 'hold': {'user_options': {'reserve': True}}},
}


def dims(ip, tree, root_decl, world):
    """options whose value can change the structure"""
    out = {}
    for n, d in tree.decl.items():
        if not d.get('aviary') and n not in root_decl:
            continue
        try:
            vs = O.domain(n, d, world, 'conc')
        except (Unsupported, AbstractRaise):
            continue
        if n in CHOOSE:
            vs = [v for v in vs if v is not None]
        if len(vs) > 1 and not any(isinstance(v, (Term, Opaque)) for v in vs):
            out[n] = vs[:8]
    return out


def show(v):
    if isinstance(v, np.ndarray):
        return str(v.tolist())
    return str(getattr(v, 'name', v))


def explore(ip, cls, opts):
    """yield (what, tree) for the models of one group class"""
    world = dict(S.WORLDS[0])
    world['ip'] = ip
    ip.world = world
    doms0 = C.option_domains(ip, cls, world, 'conc')
    for k in CHOOSE:
        if k in doms0:
            doms0[k] = [v for v in doms0[k] if v is not None]
    root = {k: v[0] for k, v in doms0.items() if v and not isinstance(v[0], Opaque)}
    rng = random.Random(opts['seed'])
    for spec in specs_of(cls, doms0):
        world['n_eng'] = spec.get('n_eng', 1) if any(k in doms0 for k in ('subsystems', 'engine_models', 'propeller_model')) else 2
        T.reset()
        T.DECIDER = None
        tried = set()
        space = {}
        todo = [{}]
        n = 0
        while todo and n < opts['cap']:
            delta = todo.pop(0)
            key = tuple(sorted((k, show(v)) for k, v in delta.items()))
            if key in tried:
                continue
            tried.add(key)
            n += 1
            what = ', '.join(['%s=%s' % (k, v) for k, v in spec.items()] + ['%s=%s' % (k.split(':')[-1], show(v)) for k, v in delta.items()])
            cfg = {**root, **{k: v for k, v in delta.items() if k in doms0}}
            if 'mission' in spec:
                cfg['mission_info'] = copy.deepcopy(PHASES[spec['mission']])
            T.reset()
            try:
                t = G.make(ip, cls, cfg, {k: v for k, v in delta.items() if k not in doms0}, spec=spec)
            except (Unsupported, AbstractRaise) as e:
                yield what, str(e), delta
                t = None
            if t is None:
                continue
            yield what, t, delta
            new = [x for x in dims(ip, t, doms0, world).items() if x[0] not in space]
            for name, vs in new:
                space[name] = vs
                base = t.given.get(name)
                for v in vs:
                    if show(v) != show(base):
                        # in the context in which the option appears
                        todo.append({**delta, name: v})
            if not todo and space:
                for _ in range(opts['rand']):
                    todo.append({k: rng.choice(vs) for k, vs in space.items()})
                if n >= opts['cap'] - opts['rand']:
                    pass


# ------------------------------------------------------------------ rules


def trivial(v):
    if isinstance(v, (Term, Opaque, G.AV)) or isinstance(v, np.ndarray) and v.dtype == object:
        return False  # computed from the options of the model
    try:
        a = np.asarray(v, dtype=float)
    except (TypeError, ValueError):
        return True
    return bool(np.all((a == 0) | (a == 1)))


def common(a, b):
    pa, pb = a.split('.')[:-1], b.split('.')[:-1]
    k = 0
    while k < min(len(pa), len(pb)) and pa[k] == pb[k]:
        k += 1
    return ''.join(x + '.' for x in pa[:k])


def used(ip, leaf, name):
    """does any output of the component depend on the input (syntactically)"""
    if leaf.cls is None:
        return True
    r = C.Run()
    r.cls, r.comp, r.inst, r.cfg = leaf.cls, leaf.comp, leaf.obj, {}
    try:
        O.finish_setup(ip, leaf.obj)
        C.eval_compute(ip, r)
        if r.cerror:
            return True
    except (Unsupported, AbstractRaise, AttributeError):
        return True
    mine = {id(t) for t in np.ravel(r.ins[name]) if isinstance(t, Term)}
    seen = set()
    stack = [t for a in r.outs.values() for t in np.ravel(a) if isinstance(t, Term)]
    while stack:
        t = stack.pop()
        if id(t) in seen:
            continue
        seen.add(id(t))
        if id(t) in mine:
            return True
        stack += [x for x in t.args if isinstance(x, Term)]
    return False


CONST = {
    ('TanhRampComp', 'initial_val'): 'set from the arguments of add_ramp',
    ('TanhRampComp', 'final_val'): 'set from the arguments of add_ramp',
}


# masses of parts that only some aircraft have: computed as zero for the others
ABSENT = ('aircraft:strut:mass', 'aircraft:wing:fold_mass')


def named(ip):
    """last two components of the variable paths that strings of the program spell out (what is linked by its path)"""
    if not hasattr(ip, 'paths_named'):
        ip.paths_named = set()
        for d, _, fs in os.walk(os.path.join(ip.repo, 'aviary')):
            if '/test' in d:
                continue
            for f in fs:
                if not f.endswith('.py') or f.startswith('test_'):
                    continue
                with open(os.path.join(d, f), encoding='utf-8') as h:
                    s = h.read()
                ip.paths_named.update(re.findall(r"\b([A-Za-z_]\w*\.[A-Za-z_]\w*)['\"]", s))
    return ip.paths_named


def contradiction(tree):
    """an angle of attack that the ground fixes cannot also be solved for"""
    g = tree.given
    return bool(g.get('ground_roll')) and getattr(g.get('alpha_mode'), 'name', 'DEFAULT') != 'DEFAULT'


def judge(ip, tree, memo, table=None):
    """-> list of (rule, key, text)"""
    out = []
    over = [x for g in tree.groups.values() for x in (g.o.attrs.get('code_origin_overrides') or []) if isinstance(x, str)]
    for rule, w, text, *k in tree.problems:
        if rule == 'gap':
            continue
        if rule == 'two-outputs' and contradiction(tree):
            continue
        if tree.top.open and rule in ('promotes-nothing', 'connect-unknown'):
            continue
        me = w[0] if isinstance(w, tuple) else str(w)
        if rule == 'two-outputs' and any(text.split(' ')[0] in x for x in over):
            continue
        out.append((rule, k[0] if k else '%s %s' % (me, text), '%s: %s' % (me, text)))
    # data flow
    feeds = {}
    for (i, x), (j, y, idx) in tree.src.items():
        feeds.setdefault(j, set()).add(i)
    vis = {l[0] for n, ls in tree.top.outs.items() if '.' not in n for l in ls}
    live = set(vis)
    rev = {}
    for j, ii in feeds.items():
        for i in ii:
            rev.setdefault(i, set()).add(j)
    stack = list(vis)
    while stack:
        i = stack.pop()
        for j in rev.get(i, ()):
            if j not in live:
                live.add(j)
                stack.append(j)
    outs = {}
    for k, l in enumerate(tree.leaves):
        for n in l.comp.outputs:
            outs.setdefault(n, []).append(k)
    for n, ls in tree.top.ins.items():
        if '.' not in n:
            continue
        for i, x in ls:
            l = tree.leaves[i]
            if l.open or i not in live:
                continue
            v = l.comp.inputs[x]
            if l.cls is None:
                if l.obj.kind in ('MuxComp',) or x.startswith(('rhs:', 'mult:')):
                    base = x.rsplit('_', 1)[0]
                    if x.startswith(('rhs:', 'mult:')) or base not in outs or not any(eng_of(tree.leaves[k].path, l.path, x) for k in outs[base]):
                        continue
                if l.obj.kind == 'BalanceComp' and x in l.obj.given:
                    continue
                if x in l.obj.given and not trivial(l.obj.given[x]):
                    continue
            elif (l.cls.name, x.split(':')[-1]) in CONST:
                continue
            if x in ABSENT and not any(tree.given.get('aircraft:wing:' + h) for h in ('has_fold', 'has_strut')):
                continue
            cn = l.cls.name if l.cls else l.path.split('.')[-1]
            if l.cls is not None:
                k = (l.cls.name, x, cfg_key(l))
                if k not in memo:
                    memo[k] = used(ip, l, x)
                if not memo[k]:
                    continue
            if '%s.%s' % (l.path.split('.')[-1], x) in named(ip):
                continue
            w = l.where
            out.append(('hidden', '%s %s.%s' % (w[0], cn, x), '%s: input %s of subsystem %s is neither promoted to the model nor connected, so it stays at its default' % (w[0], x, l.path)))
    fed = set(tree.src)
    for n, ls in tree.top.outs.items():
        if '.' not in n:
            continue
        y = ls[0][1]
        l = tree.leaves[ls[0][0]]
        if l.cls is None and l.obj.kind in ('EQConstraintComp', 'KSComp', 'BalanceComp'):
            continue  # a residual
        if cl(l) == 'FlightConditions':
            continue  # the same speed in another form
        if any(tree.src.get(k, (None,))[0] == ls[0][0] and tree.src[k][1] == y for k in fed):
            continue
        cons = [k for k in tree.top.ins.get(y, ()) if k not in fed and k[0] != ls[0][0]]
        if cons:
            lj, li = tree.leaves[ls[0][0]], tree.leaves[cons[0][0]]
            out.append(('bypassed', '%s from %s' % (y, cl(lj)), '%s: %s computes %s, which is not promoted to the model, while %s reads %s from outside' % (lj.where[0], lj.path, y, li.path, y)))
    for (i, x), (j, y, idx) in tree.src.items():
        li, lj = tree.leaves[i], tree.leaves[j]
        vi, vj = li.comp.inputs[x], lj.comp.outputs[y]
        a, b = vi.units, vj.units
        ua, ub = a in (None, 'unitless'), b in (None, 'unitless')
        if not (ua and ub):
            try:
                ok = not (ua or ub) and U.compatible(a, b)
            except Exception:
                ok = True
            if not ok:
                out.append(('units', '%s %s <- %s' % (li.where[0], cl(li) + '.' + x, cl(lj) + '.' + y), '%s: input %s.%s (%s) is fed by %s.%s (%s)' % (li.where[0], li.path, x, a, lj.path, y, b)))
        if j > i:
            c = common(li.path, lj.path)
            me = tree.groups[c].me if c in tree.groups else c
            if any(within(c, p) for p in tree.iter_):
                continue
            if c in tree.auto:
                a, b = kid(li.path, c), kid(lj.path, c)
                if ':' not in x and b in reach(tree, c, a):
                    out.append(('order', '%s %s' % (me, x), '%s: %s and %s, which computes its input %s, need each other and no solver iterates over them' % (me, li.path, lj.path, x)))
                continue
            out.append(('order', '%s %s' % (me, x), '%s: %s runs before %s, which computes its input %s, and no solver iterates over them' % (me, li.path, lj.path, x)))
    out += unsolved(tree)
    out += slots(tree)
    out += crossed(tree, table)
    for n, ls in tree.top.ins.items():
        us = {}
        for i, x in ls:
            u = tree.leaves[i].comp.inputs[x].units
            us.setdefault('unitless' if u in (None, 'unitless') else u, (i, x))
        ul = list(us)
        for a in ul[1:]:
            try:
                ok = U.compatible(ul[0], a) and (ul[0] == 'unitless') == (a == 'unitless')
            except Exception:
                ok = True
            if not ok:
                out.append(('units', 'promoted %s' % n, 'the inputs promoted as %s have the units %s (%s) and %s (%s)' % (n, ul[0], tree.leaves[us[ul[0]][0]].path, a, tree.leaves[us[a][0]].path)))
    return out


def within(path, group):
    return path.startswith(group)


def kid(path, group):
    return path[len(group) :].split('.')[0]


def reach(tree, c, a):
    """the subsystems of group c that subsystem a feeds, through others"""
    memo = tree.__dict__.setdefault('reach_', {})
    if c not in memo:
        g = {}
        for (i, x), (j, y, idx) in tree.src.items():
            pi, pj = tree.leaves[i].path, tree.leaves[j].path
            if within(pi, c) and within(pj, c):
                p, q = kid(pj, c), kid(pi, c)
                if p != q:
                    g.setdefault(p, set()).add(q)
        memo[c] = g
    g = memo[c]
    seen, todo = set(), [a]
    while todo:
        for q in g.get(todo.pop(), ()):
            if q not in seen:
                seen.add(q)
                todo.append(q)
    return seen


def unsolved(tree):
    """an implicit output is found by the solver of a group around it or of its own"""
    out = []
    if not tree.iter_ and not any(isinstance(c, ClassObj) and c.name == 'BaseODE' for c in tree.root.cls.mro):
        return out  # a part of a model: the solver is in the group that holds it
    for l in tree.leaves:
        if l.cls is None:
            if l.obj.kind != 'BalanceComp':
                continue
        elif not any(b in IMPL for b in l.cls.external_bases()) or isinstance(l.cls.lookup('solve_nonlinear')[0], FuncObj):
            continue
        if any(within(l.path, p) for p in tree.iter_):
            continue
        if l.cls is not None and isinstance(l.obj.attrs.get('nonlinear_solver'), (G.Solver, Opaque)):
            continue
        for y in l.comp.outputs:
            out.append(('unsolved', '%s %s' % (l.where[0], y), '%s: no solver solves for %s, the output of the implicit component %s' % (l.where[0], y, l.path)))
    return out


def number(idx):
    """the position an index picks along its last axis, if it is one"""
    if isinstance(idx, (tuple, list)):
        idx = idx[-1] if idx else None
    if isinstance(idx, np.ndarray) and idx.size == 1:
        idx = idx.item()
    return int(idx) if isinstance(idx, (int, np.integer)) and not isinstance(idx, bool) else None


def slots(tree):
    """the k-th of several subsystems that share a vector reads and writes its k-th entries"""
    out = []
    sib = {}
    for leaf, recs in tree.index.items():
        for path, n, x, idx, me in recs:
            k = number(idx)
            if n is not None and k is not None and k >= 0:
                sib.setdefault((path, me), {}).setdefault(n, {})[x] = k
    for (path, me), subs in sib.items():
        order = [n for n in (G.ginfo(tree.groups[path].o).children if path in tree.groups else ()) if n in subs]
        for pos, n in enumerate(order):
            for x, k in subs[n].items():
                shared = [m for m in order if x in subs[m]]
                if len(shared) == len(order) > 1 and k != pos:
                    out.append(('index', '%s %s' % (me, x), '%s: subsystem %s, number %d of those that share the vector %s, reads its entry %d' % (me, n, pos, x, k)))
    for i, l in enumerate(tree.leaves):
        if l.cls is not None or l.obj.kind != 'MuxComp':
            continue
        for x in l.comp.inputs:
            base, _, k = x.rpartition('_')
            if not base or not k.isdigit():
                continue
            k = int(k)
            for path, n, s, idx, me in tree.index.get((i, x), ()):
                j = number(idx)
                if j is not None and j >= 0 and j != k:
                    out.append(('index', '%s %s' % (me, base), '%s: entry %d of the vector %s collected by %s is taken from entry %d' % (me, k, base, l.path, j)))
            src = tree.src.get((i, x))
            if src:
                par = l.path.rsplit('.', 1)[0] + '.' if '.' in l.path else ''
                rest = tree.leaves[src[0]].path[len(par):].split('.')[0]
                if rest.startswith('engine_') and rest[7:].isdigit() and int(rest[7:]) != k:
                    out.append(('index', '%s %s' % (tree.leaves[i].where[0], base), '%s: entry %d of the vector %s is taken from the subsystem %s' % (tree.leaves[i].where[0], k, base, rest)))
                if src[1] != base and base in tree.leaves[src[0]].comp.outputs:
                    out.append(('crossed', '%s %s' % (tree.leaves[i].where[0], base), '%s: %s collects %s as %s' % (tree.leaves[i].where[0], l.path, src[1], base)))
    return out


WORD = re.compile('[^a-z0-9]+')


def words(n):
    return frozenset(w for w in WORD.split(n.lower()) if w)


def near(a, b):
    x, y = words(a), words(b)
    return len(x & y) / (len(x | y) or 1)


def ends_of(tree):
    """(in/out, leaf) -> variable -> the name it is known by at the other end"""
    ends = {}
    for (i, x), (j, y, idx) in tree.src.items():
        p = tree.prom.get((j, y), y)
        ends.setdefault(('in', i), {})[x] = y if '.' in p else p
    for n, ls in tree.top.ins.items():
        for i, x in ls:
            ends.setdefault(('in', i), {})[x] = n.split('.')[-1]
    for n, ls in tree.top.outs.items():
        for i, x in ls:
            ends.setdefault(('out', i), {})[x] = n.split('.')[-1]
    return ends


def part(tree, i):
    l = tree.leaves[i]
    return l.cls.name if l.cls else '%s|%s' % (l.where[0].rsplit('.', 1)[-1], '.'.join(l.path.split('.')[-2:]))


def crossed(tree, table):
    """two links between the same parts that would both fit better the other way round, by the names at both ends"""
    out = []
    ends = ends_of(tree)
    rec = (table or {}).get('@links') or {}
    for (io, i), d in ends.items():
        l = tree.leaves[i]
        v = l.comp.inputs if io == 'in' else l.comp.outputs
        k = rec.get(io + ' ' + part(tree, i))
        if not k:
            continue
        for x, n in d.items():
            if x not in k or n in k[x]:
                continue
            for z in d:
                if z != x and n in k.get(z, ()) and same(v[x].units, v[z].units):
                    out.append(('crossed', '%s %s %s' % (l.where[0], cl(l) + '.' + x, n), '%s: %s of subsystem %s is linked with %s, which belongs to %s' % (l.where[0], x, l.path, n, z)))
    for (io, i), d in ends.items():
        l = tree.leaves[i]
        v = l.comp.inputs if io == 'in' else l.comp.outputs
        items = [(x, n) for x, n in d.items() if x != n]
        for a in range(len(items)):
            for b in range(a):
                (x1, n1), (x2, n2) = items[a], items[b]
                if n1 == n2 or not same(v[x1].units, v[x2].units):
                    continue
                if near(x1, n2) > max(0.3, near(x1, n1)) and near(x2, n1) > max(0.3, near(x2, n2)):
                    out.append(('crossed', '%s %s %s' % (l.where[0], *sorted((cl(l) + '.' + x1, x2))), '%s: %s and %s of subsystem %s are linked with %s and %s' % (l.where[0], x1, x2, l.path, n1, n2)))
    return out


def same(a, b):
    try:
        return U.compatible(a or 'unitless', b or 'unitless')
    except Exception:
        return False


def eng_of(src, mux, x):
    """is the component part of the engine whose slot of the mux this is"""
    k = x.rsplit('_', 1)[1]
    par = mux.rsplit('.', 1)[0] + '.' if '.' in mux else ''
    return src.startswith(par + 'engine_' + k)


def cl(l):
    return l.cls.name if l.cls else l.path.split('.')[-1]


def cfg_key(l):
    o = l.obj.attrs.get('options')
    return tuple(sorted((k, show(v)) for k, v in o.vals.items() if not isinstance(v, (Opaque, G.AV)))) if isinstance(o, O.Options) else ()


def faces(t):
    """what a model takes from outside, what it offers, and what it computes for itself"""
    return (sorted(n for n in t.top.ins if '.' not in n), sorted(n for n in t.top.outs if '.' not in n), sorted({n for k in t.src for n in (k[1], t.prom.get(k, '.')) if '.' not in n}))


def load_table():
    """the recorded interfaces, expanded"""
    raw = json.load(open(os.path.join(os.path.dirname(__file__), '..', 'data', 'interface.json')))
    text = raw['names']
    out = {}
    for name, models in raw['groups'].items():
        base = None
        out[name] = {}
        for what, f in models.items():
            if base is None:
                base = f
            elif f == 0:
                f = base
            else:
                f = [sorted((set(a) | set(add)) - set(rem)) for a, (add, rem) in zip(base, f)]
            out[name][what] = [[text[k] for k in x] for x in f]
    out['@links'] = {k: {x: {text[n] for n in ns} for x, ns in d.items()} for k, d in raw['links'].items()}
    return out


def changed(ip, t, name, what, table):
    """compare with the recorded interface of the same model"""
    rec = ((table or {}).get(name) or {}).get(what)
    if rec is None or t.top.open:
        return []
    known = set(ip.core_meta())
    ins, outs, fed = faces(t)
    short = name.rsplit('.', 1)[1]
    out = []
    if not t.problems:
        for n in set(rec[1]) - set(outs):
            if n in known:
                out.append(('lost', '%s %s' % (short, n), '%s: the computed %s is no longer available outside' % (name, n)))
        for n in set(ins) - set(rec[0]):
            if n in rec[2] or n not in known:
                ls = t.top.ins[n]
                out.append(('unfed', '%s %s' % (short, n), '%s: input %s of subsystem %s was computed inside and now comes from outside' % (name, n, t.leaves[ls[0][0]].path)))
    return out


def one(ip, cls, opts):
    st = {'class': cls.module.name.replace('aviary.', '', 1) + '.' + cls.name, 'viol': {}, 'models': 0, 'leaves': 0, 'links': 0, 'inputs': 0, 'errs': {}, 'gaps': {}, 'open': 0, 'iface': {}}
    memo = {}
    for what, t, delta in explore(ip, cls, opts):
        if isinstance(t, str):
            st['errs'].setdefault(t[:160], what)
            continue
        st['models'] += 1
        st['leaves'] += len(t.leaves)
        st['links'] += len(t.src)
        st['inputs'] += sum(len(l.comp.inputs) for l in t.leaves)
        st['open'] += bool(t.top.open)
        for p in t.problems:
            if p[0] == 'gap':
                st['gaps'].setdefault(p[2][:160], what)
        st['iface'][what] = faces(t)
        if 'table' not in opts:
            for (io, i), d in ends_of(t).items():
                for x, n in d.items():
                    st.setdefault('ends', {}).setdefault(io + ' ' + part(t, i), {}).setdefault(x, set()).add(n)
        for rule, key, text in judge(ip, t, memo, opts.get('table')) + changed(ip, t, st['class'], what, opts.get('table')):
            st['viol'].setdefault(rule + ': ' + key, (rule, text, what))
    return st


def _work(a):
    name, opts = a
    ip, _ = S.get_ip()
    if not getattr(ip, 'groups_on', False):
        G.install(ip)
        ip.groups_on = True
        ip.group_list = {c.module.name + '.' + c.name: c for c in G.group_classes(ip)}
    signal.signal(signal.SIGALRM, S._alarm)
    signal.alarm(opts.get('limit', 400))
    t0 = time.time()
    try:
        r = one(ip, ip.group_list[name], opts)
    except (Exception, S.Timeout) as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        r = {'class': name, 'viol': {}, 'models': 0, 'leaves': 0, 'links': 0, 'inputs': 0, 'errs': {'crash %r %s:%d' % (e, tb.filename[-20:], tb.lineno): ''}, 'gaps': {}, 'open': 0, 'iface': {}}
    signal.alarm(0)
    r['time'] = time.time() - t0
    return r


def sweep(opts, only=None, procs=8):
    ip, _ = S.get_ip()
    if not getattr(ip, 'groups_on', False):
        G.install(ip)
        ip.groups_on = True
        ip.group_list = {c.module.name + '.' + c.name: c for c in G.group_classes(ip)}
    names = [n for n in ip.group_list if not only or any(o in n for o in only)]
    args = [(n, opts) for n in names]
    if procs == 1:
        return [_work(a) for a in args]
    with mp.Pool(procs) as p:
        return sorted(p.imap_unordered(_work, args, chunksize=1), key=lambda r: r['class'])
