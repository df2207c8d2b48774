"""C10: every component computes all it declares, from what it declares.

Over the value graph of every component class and option configuration: evaluating it reads and writes
only variables, partial derivatives and options that its setup declared, reads no name before it is
assigned on a feasible path, and gives every declared output a value."""

import ast

import numpy as np

from .. import components as C
from .. import fingerprint as F
from .. import omodel as O
from .. import sweep as S
from .. import terms as T
from ..terms import Term
from .c03 import raised, scale1

# failures of the code itself; the rest are effects of sampled sizes and counts
OWN = ('KeyError', 'UnboundLocalError', 'NameError', 'AttributeError', 'TypeError')


def int_limits(nodes):
    """integer options compared for equality: the values they are compared with are the valid ones"""
    out = {}
    for t in nodes:
        if t.op == 'cmp' and t.args[0] == 'eq' and len(t.args[1]) == 1:
            b, c = t.args[1][0]
            if isinstance(b, Term) and F.isintopt(b):
                out.setdefault(b, set()).add(t.args[2] / c)
    return out


def feasible(guard, stop, c, seed):
    """can the condition hold, at values for which nothing is raised on purpose?"""
    if guard is True or not isinstance(guard, Term):
        if not guard or not stop:
            return bool(guard)
        if any(t is True for t in stop):
            return False
        guard = T.not_(T.or_(*stop))
        stop = []
        if not isinstance(guard, Term):
            return bool(guard)
    if guard.op == 'const':
        return bool(guard.args[0])
    roots = [guard] + [t for t in stop if isinstance(t, Term)]
    lanes = F.Lanes(roots, scale1(c), n_val=1, n_pts=4000, seed=seed, classes=('nat',), free=True)
    vals = lanes.run(roots, deriv=False)
    ok = ~raised(stop, vals, lanes.L)
    v = vals[guard.id]
    v = np.asarray(v[0] if isinstance(v, tuple) else v)
    hit = ok & (np.real(v) > 0.5)
    for b, th in int_limits(lanes.nodes).items():
        w = np.real(np.asarray(vals[b.id][0]))
        hit &= (w >= min(th | {0})) & (w <= max(th))
    return bool(hit.any())


def exc_of(e):
    """(kind, text) of an exception the code runs into, None when it raises it on purpose"""
    if e is None or isinstance(e.node, ast.Raise):
        return None
    kind = getattr(e.exc, 'name', None) or str(e.exc).split('(')[0]
    return kind, str(e.exc)


def is_prev(t, tags=('prev',)):
    return isinstance(t, Term) and t.op == 'atom' and t.args[0][0] in tags


def zero(t):
    return is_prev(t, ('prevJ',)) or (not isinstance(t, Term) and t == 0) or (isinstance(t, Term) and t.op == 'const' and t.args[0] == 0)


def constant_output(r, name):
    """no derivative of the output is declared and computed that could be anything but zero"""
    for (of, wrt), e in r.comp.partials.items():
        if of != name or e.get('dependent', True) is False:
            continue
        if e['method'] != 'exact':
            return False
        v = (r.J.d.get((of, wrt)) if r.J else None)
        if v is None:
            v = e.get('val')
            if v is not None and np.any(np.asarray(v, dtype=object) != 0):
                return False
        elif not all(zero(t) for t in np.ravel(v)):
            return False
    return True


def one(ip, cls, opts):
    st = {'status': 'ok', 'viol': [], 'runs': 0, 'outputs': 0, 'inputs': 0, 'declared': 0, 'guards': 0}
    partials = True
    pl = S.plan(ip, cls, opts)
    if isinstance(pl, str):
        pl = S.plan(ip, cls, opts, partials=False)
        partials = False
    if isinstance(pl, str):
        return dict(st, status=pl)
    seen = set()

    def add(kind, name, why, cfg):
        if (kind, name) not in seen:
            seen.add((kind, name))
            st['viol'].append({'kind': kind, 'name': name, 'why': why, 'cfg': S.cfg_str(cfg, pl.doms)})

    has_set, unset, decl = set(), {}, set()
    for cfg, part, r in S.iter_runs(ip, cls, opts, pl, partials):
        if r.err and r.err.startswith('raises'):
            x = exc_of(r.exc)
            if x is not None and x[0] in OWN:
                add('fails', '%s %s' % (r.phase, x[1][:80]), 'is run into', cfg)
            continue
        if getattr(r, 'comp', None) is None:
            continue
        st['runs'] += 1
        events = []
        for a in ('setup_events', 'compute_events', 'partials_events'):
            events += getattr(r, a, None) or []
        stop = [e[3] for e in events if e[0] == 'cond-raise']
        for ev in events:
            if ev[0] == 'cond-raise' and not ev[5] and ev[4] is not None:
                kind = str(ev[4]).split('(')[0]
                if kind in OWN:
                    st['guards'] += 1
                    if feasible(ev[3], [t for t in stop if t is not ev[3]], r.comp, opts['seed']):
                        add('fails', '%s %s' % (ev[2].split('.')[-1], str(ev[4])[:80]), 'is run into on a branch', cfg)
            elif ev[0] in ('unbound', 'maybe-unbound'):
                st['guards'] += 1
                if feasible(ev[4] if len(ev) > 4 else True, stop, r.comp, opts['seed']):
                    add('unassigned', '%s in %s' % (ev[1], ev[3].split('.')[-1]), 'is read where no branch has assigned it', cfg)
        if r.err or getattr(r, 'impl', False) or not hasattr(r, 'outs'):
            continue
        st['inputs'] += len(r.comp.inputs)
        alive = None
        for n, a in r.outs.items():
            st['outputs'] += 1
            if any(is_prev(t) for t in a.ravel()):
                if alive is None:
                    alive = feasible(True, stop, r.comp, opts['seed'])
                if not alive:
                    continue
            decl.add(n)
            flat = list(a.ravel())
            left = [i for i, t in enumerate(flat) if is_prev(t)]
            if len(left) < len(flat) or not flat:
                has_set.add(n)
            if left and not constant_output(r, n):
                unset.setdefault(n, (len(left), len(flat), cfg))
    st['declared'] = len(decl)
    for n in sorted(decl - has_set):
        add('output', n, 'is declared and never given a value', {})
    for n, (k, m, cfg) in sorted(unset.items()):
        add('output', n, 'is given no value (%d of %d entries), though derivatives of it are declared' % (k, m), cfg)
    return st


FLOOR = 200


def check(tier, seed):
    opts = {'quick': {'cap': 16, 'parts': 10}, 'thorough': {'cap': 120, 'cap_part': 24, 'parts': 96, 'class_timeout': 600}}[tier]
    rs = S.sweep(one, dict(opts, seed=seed))
    cov = {'component_classes': len(rs), 'analysed': 0, 'configurations': 0, 'declared_outputs': 0, 'output_evaluations': 0, 'conditional_failures_judged': 0, 'gaps': []}
    out = []
    for r in rs:
        if r['status'] == 'ok' and r['runs']:
            cov['analysed'] += 1
            cov['configurations'] += r['runs']
            cov['declared_outputs'] += r['declared']
            cov['output_evaluations'] += r['outputs']
            cov['conditional_failures_judged'] += r['guards']
        elif r['status'] != 'no compute':
            cov['gaps'].append('%s: %s' % (r['class'], r['status']))
        for b in r['viol']:
            out.append({'key': '%s|%s|%s' % (r['class'].replace('aviary.', '', 1), b['kind'], b['name']), 'class': r['class'],
                        'msg': '%s %s %s%s' % (b['kind'], b['name'], b['why'], ' (options %s)' % b['cfg'] if b['cfg'] else '')})
    cov['explanation'] = (
        'Interpreted setup, compute and compute_partials of every component class per option configuration against the variables, partial derivatives and options that its own setup declared. '
        'Rules: no access to anything undeclared, no read of a name that no taken branch assigned (the uncovered condition must be feasible), every declared output gets a value.'
    )
    return {
        'findings': out,
        'coverage': cov,
        'error': None if cov['analysed'] >= FLOOR else 'only %d component classes could be analysed (floor %d)' % (cov['analysed'], FLOOR),
        'assumptions': ['numpy/OpenMDAO calls behave as modelled in sa/models.py and sa/omodel.py', 'integer options compared with constants take one of these values'],
    }
