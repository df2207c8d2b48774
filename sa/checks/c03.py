"""C03: a component's outputs and derivatives are functions of its inputs and options alone.

In the value graph of one evaluation, whatever survives from an earlier one is an atom of its own:
the previous value of an output ('prev'), the previous value of a Jacobian entry ('prevJ') and the
state kept on the component between calls ('mem').  None of them may reach a result."""

import numpy as np

from .. import components as C
from .. import fingerprint as F
from .. import omodel as O
from .. import sweep as S
from .. import terms as T
from ..interp import FuncObj
from ..terms import Term
from .c01 import raised


def is_atom(t, *tags):
    return isinstance(t, Term) and t.op == 'atom' and t.args[0][0] in tags


def value_atoms(t, tags):
    """atoms reached through values, not only through predicates"""
    seen, out, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, Term) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'atom':
            if x.args[0][0] in tags:
                out.add(x)
            continue
        if x.op in F.BOOLOPS:
            continue
        stack.extend(T.children(x))
    return out


def leaves(v):
    if isinstance(v, Term):
        return [v]
    if isinstance(v, np.ndarray) and v.dtype == object:
        return [x for x in v.ravel() if isinstance(x, Term)]
    return []


def snapshot(o):
    return {k: (v, v.copy() if isinstance(v, np.ndarray) else v) for k, v in o.attrs.items()}


def same(a, b):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and all(x is y or (not isinstance(x, Term) and not isinstance(y, Term) and x == y) for x, y in zip(a.ravel(), b.ravel()))
    return a is b


def changed(o, snap):
    return sorted(k for k in o.attrs if k not in snap or not same(o.attrs[k], snap[k][1]))


def to_memory(o, names, snap):
    """replace what a call left on the component by unknowns -> names replaced"""
    n = []
    for k in names:
        v = o.attrs[k]
        if isinstance(v, np.ndarray) and v.size:
            old = snap[k][1] if k in snap else None
            if not isinstance(old, np.ndarray) or old.shape != v.shape:
                old = None
            a = np.empty(v.shape, dtype=object)
            for q, i in enumerate(np.ndindex(*v.shape)):
                keep = old is not None and (old[i] is v[i] or (not isinstance(v[i], Term) and not isinstance(old[i], Term) and old[i] == v[i]))
                a[i] = v[i] if keep else T.atom('mem', k, q)
            o.attrs[k] = a
            n.append(k)
        elif isinstance(v, Term) or (isinstance(v, (int, float)) and not isinstance(v, bool)):
            o.attrs[k] = T.atom('mem', k, 0)
            n.append(k)
    return n


def mutated(ins, tag='in'):
    out = []
    for n, a in ins.items():
        for k, t in enumerate(a.ravel()):
            if not (is_atom(t, tag) and t.args[0][1] == n and t.args[0][2] == k):
                out.append((n, k, t))
                break
    return out


BLOCK = 200


def live_dependence(c, items, stop, seed):
    """items: (label, term, atoms) -> labels of those whose value moves with one of the atoms in a feasible lane"""
    roots = [t for _, t, _ in items] + [t for t in stop if isinstance(t, Term)]
    lanes = F.Lanes(roots, scale1(c), n_val=1, n_pts=4000, seed=seed, classes=('nat',), free=True, opt_block=BLOCK)
    vals = lanes.run(roots)
    ok = ~raised(stop, vals, lanes.L)
    bad = []
    for lab, t, atoms in items:
        v, g = vals[t.id]
        for a in atoms:
            d = np.asarray((g or {}).get(a.id, np.zeros(lanes.L)))
            live = ok & np.isfinite(d)
            m = live & (np.abs(d) > 1e-9)
            # for the same options, it is left alone at some inputs and written at others
            m2, l2 = m.reshape(-1, BLOCK), live.reshape(-1, BLOCK)
            if ((m2.sum(1) > 0) & (m2.sum(1) < l2.sum(1))).any():
                bad.append((lab, a))
                break
    return bad


def scale1(c):
    f = S.scale_fn(c)
    return lambda key: 1.0 if key[0] in ('prev', 'prevJ', 'mem') else f(key)


def memo_key(t):
    """names of the inputs some equality compares with remembered state"""
    out = set()
    for x in T.topo([t]):
        if x.op == 'cmp' and x.args[0] == 'eq':
            ats = [b for b, _ in x.args[1] if isinstance(b, Term) and b.op == 'atom']
            if any(b.args[0][0] == 'mem' for b in ats):
                out |= {b.args[0][1] for b in ats if b.args[0][0] == 'in'}
    return out


def examine(ip, r, seed):
    c, o = r.comp, r.inst
    bad = []
    stop = [e[3] for e in list(r.compute_events) + list(r.partials_events) if e[0] == 'cond-raise']
    items = []
    n = 0
    for name, a in r.outs.items():
        for i, t in enumerate(a.ravel()):
            n += 1
            if not isinstance(t, Term) or is_atom(t, 'prev'):
                continue
            ats = value_atoms(t, ('prev',))
            if ats:
                items.append((('output', name), t, ats))
    for k, a in (r.J.d.items() if r.J else ()):
        e = c.partials.get(k)
        if e is None or e['method'] != 'exact':
            continue
        for i, t in enumerate(np.ravel(a)):
            n += 1
            if not isinstance(t, Term) or is_atom(t, 'prevJ'):
                continue
            ats = value_atoms(t, ('prevJ',))
            if ats:
                items.append((('partial', '%s wrt %s' % k), t, ats))
    if items:
        for (kind, name), a in live_dependence(c, items, stop, seed):
            bad.append((kind, name, 'on some path it keeps the value of the previous evaluation (%s)' % str(a.args[0][1])))
    return bad, n


def memory(ip, r, snap0):
    """second evaluation with everything the first left on the component unknown"""
    o = r.inst
    ch = changed(o, snap0)
    names = to_memory(o, ch, snap0)
    if not names:
        return [], 0
    bad = []
    r2 = C.Run()
    r2.cls, r2.cfg, r2.comp, r2.inst, r2.options = r.cls, r.cfg, r.comp, o, r.options
    C.eval_compute(ip, r2)
    if not r2.cerror:
        for name, a in r2.outs.items():
            for t in a.ravel():
                ats = value_atoms(t, ('mem',))
                if ats and not set(r.comp.inputs) <= memo_key(t):
                    bad.append(('output', name, 'depends on self.%s as an earlier evaluation left it' % sorted(ats, key=str)[0].args[0][1]))
                    break
    # OpenMDAO linearises at the point it computed last: what this compute stored may be used
    C.eval_partials(ip, r2)
    if not r2.perror and r2.J:
        for k, a in r2.J.d.items():
            for t in np.ravel(a):
                ats = value_atoms(t, ('mem',))
                if ats:
                    bad.append(('partial', '%s wrt %s' % k, 'depends on self.%s as an earlier evaluation left it' % sorted(ats, key=str)[0].args[0][1]))
                    break
    return bad, len(names)


def one(ip, cls, opts):
    if not any(isinstance(cls.lookup(n)[0], FuncObj) for n in ('compute', 'apply_nonlinear')):
        return {'status': 'no compute', 'viol': []}
    pl = S.plan(ip, cls, opts)
    partials = True
    if isinstance(pl, str):
        pl = S.plan(ip, cls, opts, partials=False)
        partials = False
    if isinstance(pl, str):
        return {'status': pl, 'viol': []}
    st = {'status': 'ok', 'viol': [], 'runs': 0, 'values': 0, 'state': 0, 'partials': partials, 'errs': []}
    seen = set()
    for cfg, part, r in S.iter_runs(ip, cls, opts, pl, partials, hook=before):
        if r.err:
            st['errs'].append(r.err)
            continue
        st['runs'] += 1
        if not hasattr(r, 'J'):
            r.J, r.partials_events = None, []
        bad, n = examine(ip, r, opts['seed'])
        st['values'] += n
        for name, k, t in mutated(r.ins) + (mutated(r.pins) if getattr(r, 'pins', None) else []):
            bad.append(('input', name, 'is overwritten in place'))
        b2, k = memory(ip, r, r.snap) if part is None else ([], 0)
        st['state'] += k
        for b in bad + b2:
            if b[:2] not in seen:
                seen.add(b[:2])
                st['viol'].append({'kind': b[0], 'name': b[1], 'why': b[2], 'cfg': S.cfg_str(cfg, pl.doms)})
    return st


def before(r):
    r.snap = snapshot(r.inst)


FLOOR = 200


def check(tier, seed):
    opts = {'quick': {'cap': 16, 'parts': 10}, 'thorough': {'cap': 120, 'cap_part': 24, 'parts': 96, 'class_timeout': 600}}[tier]
    rs = S.sweep(one, dict(opts, seed=seed))
    cov = {'component_classes': len(rs), 'analysed': 0, 'configurations': 0, 'result_values': 0, 'attributes_kept_between_calls': 0, 'gaps': []}
    out = []
    for r in rs:
        if r['status'] == 'ok' and r['runs']:
            cov['analysed'] += 1
            cov['configurations'] += r['runs']
            cov['result_values'] += r['values']
            cov['attributes_kept_between_calls'] += r['state']
        elif r['status'] != 'no compute':
            cov['gaps'].append('%s: %s' % (r['class'], r['status']))
        for b in r['viol']:
            out.append({'key': '%s|%s|%s' % (r['class'].replace('aviary.', '', 1), b['kind'], b['name']), 'class': r['class'],
                        'msg': '%s %s %s%s' % (b['kind'], b['name'], b['why'], ' (options %s)' % b['cfg'] if b['cfg'] else '')})
    cov['explanation'] = (
        'Built the value graph of one evaluation of every component class per option configuration, with previous output values, previous Jacobian entries and '
        'attributes kept on the component as atoms of their own.  Rule: no such atom reaches an output or a declared derivative in a feasible lane; no input array is overwritten.'
    )
    return {
        'findings': out,
        'coverage': cov,
        'error': None if cov['analysed'] >= FLOOR else 'only %d component classes could be analysed (floor %d)' % (cov['analysed'], FLOOR),
        'assumptions': ['numpy/OpenMDAO calls behave as modelled in sa/models.py and sa/omodel.py', 'state kept in objects other than attributes of the component itself is not followed'],
    }
