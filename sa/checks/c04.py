"""C04: what a component computes for a node of a trajectory depends on that node alone.

The value graph of the outputs is built once per node position: the inputs at the node under study
carry the same atoms each time, the inputs at every other node carry atoms of their own.  All graphs
of one output entry must then be one value: no other node's atom may reach it, and neither the
position of the node nor the number of nodes may matter."""

import numpy as np

from .. import components as C
from .. import fingerprint as F
from .. import partition as P
from .. import sweep as S
from .. import terms as T
from ..interp import FuncObj
from ..terms import Term
from .c01 import raised

SIZES = (3, 5)
# (number of nodes, position)
POINTS = ((3, 0), (3, 1), (3, 2), (1, 0), (4, 2))


def axes(ip, cls, cfg_of, cfgs):
    """names -> node axis, by declaring the component for two node counts"""
    shp = []
    for n in SIZES:
        r = C.run_config(ip, cls, cfg_of(n, cfgs), cfg_of.world)
        if r.error:
            return None
        shp.append(({k: v.shape for k, v in r.comp.inputs.items()}, {k: v.shape for k, v in r.comp.outputs.items()}))
    out = []
    for a, b in zip(*shp):
        d = {}
        for k in a:
            if k not in b or len(a[k]) != len(b[k]):
                d[k] = None
                continue
            ax = [i for i, (x, y) in enumerate(zip(a[k], b[k])) if x != y]
            if not ax:
                continue
            d[k] = ax[0] if len(ax) == 1 and (a[k][ax[0]], b[k][ax[0]]) == SIZES else None
        out.append(d)
    return out


def evaluate(ip, cls, cfg, world, iax, point):
    nn, pos = point

    def rename(tag, n, idx, shape):
        ax = iax.get(n)
        if ax is None:
            return (tag, n, int(np.ravel_multi_index(idx, shape)))
        rest = tuple(x for q, x in enumerate(idx) if q != ax)
        rshape = tuple(x for q, x in enumerate(shape) if q != ax)
        k = int(np.ravel_multi_index(rest, rshape)) if rest else 0
        if idx[ax] == pos:
            return (tag, n, k)
        return (tag, n, 10000 + 1000 * (nn * 10 + pos) + 10 * k + idx[ax])

    C.RENAME = rename
    try:
        r = C.run_config(ip, cls, cfg, world)
        if r.error:
            return r
        if T.DECIDER is not None:
            T.DECIDER.at.scale = S.scale_fn(r.comp)
        C.eval_compute(ip, r)
        r.error = r.cerror
        return r
    finally:
        C.RENAME = None


NPTS = 1500


def at(shape, ax, pos):
    """flat indices of the entries of one node, in the order of the remaining axes"""
    return [idx for idx in np.ndindex(*shape) if idx[ax] == pos]


def one(ip, cls, opts):
    if not any(isinstance(cls.lookup(n)[0], FuncObj) for n in ('compute', 'apply_nonlinear')):
        return {'status': 'no compute', 'viol': []}
    try:
        o = C.declare(ip, cls)
    except Exception as e:
        return {'status': 'not declared: %s' % e, 'viol': []}
    decl = getattr(o.attrs.get('options'), 'decl', {})
    nodes = [k for k in decl if k in ('num_nodes', 'nn', 'vec_size')]
    if not nodes:
        return {'status': 'no nodes', 'viol': []}
    pl = S.plan(ip, cls, opts, partials=False)
    if isinstance(pl, str):
        return {'status': pl, 'viol': []}
    st = {'status': 'ok', 'viol': [], 'runs': 0, 'outputs': 0, 'identical': 0, 'sampled': 0, 'errs': [], 'mode': pl.part}
    if pl.part:
        pl.cfgs = pl.cfgs[:4]
    seen = set()
    for cfg in pl.cfgs:
        T.reset()

        def cfg_of(n, cfg):
            return {**cfg, **{k: n for k in nodes}}

        cfg_of.world = pl.world
        ax = axes(ip, cls, cfg_of, cfg)
        if ax is None:
            st['errs'].append('declaration')
            continue
        iax, oax = ax
        every = {**iax, **oax}
        learnt = {}
        for part in range(opts.get('parts', 8) if pl.part else 1):
            T.reset()
            rs = []
            if pl.part:
                T.DECIDER = P.Decider(opts['seed'], part, learnt)
            try:
                for p in POINTS:
                    try:
                        r = evaluate(ip, cls, cfg_of(p[0], cfg), pl.world, every, p)
                    except Exception as e:
                        st['errs'].append('%d nodes: %s' % (p[0], e))
                        continue
                    if r.error:
                        st['errs'].append('%d nodes: %s' % (p[0], r.error))
                        continue
                    rs.append((p, r))
            finally:
                dec, T.DECIDER = T.DECIDER, None
            if not rs or rs[0][0] != POINTS[0]:
                continue
            st['runs'] += 1
            r0 = rs[0][1]
            check = []
            for n, a in oax.items():
                if a is None or n not in r0.outs:
                    continue
                ref = r0.outs[n]
                i0 = at(ref.shape, a, 0)
                st['outputs'] += 1
                for p, r in rs[1:]:
                    v = r.outs[n]
                    for q, (i, j) in enumerate(zip(i0, at(v.shape, a, p[1]))):
                        x, y = ref[i], v[j]
                        if x is y or (not isinstance(x, Term) and not isinstance(y, Term) and x == y):
                            st['identical'] += 1
                        else:
                            check.append((n, q, p, x, y))
            st['sampled'] += len(check)
            stop = [e[3] for _, r in rs for e in r.compute_events if e[0] == 'cond-raise']
            for n, p, a, b, frac in differing(r0.comp, check, stop, opts['seed'], dec):
                if n not in seen:
                    seen.add(n)
                    st['viol'].append({'of': n, 'p': p, 'a': a, 'b': b, 'frac': frac, 'cfg': S.cfg_str(cfg, pl.doms)})
    return st


def differing(comp, check, stop, seed, dec):
    """the entries whose value is not the one at the reference node"""
    if not check:
        return
    if dec is not None:
        if dec.blind:
            return
        dec.at.scale = S.scale_fn(comp)
        for n, q, p, x, y in check:
            a, b = dec.real(x), dec.real(y)
            if a is not None and b is not None and abs(a - b) > 1e-6 * max(abs(a), abs(b)) + 1e-12:
                yield n, p, a, b, 1.0
        return
    roots = [t for k in check for t in k[3:] if isinstance(t, Term)] + [t for t in stop if isinstance(t, Term)]
    lanes = F.Lanes(roots, S.scale_fn(comp), n_val=1, n_pts=NPTS, seed=seed, classes=('nat',), free=True)
    vals = lanes.run(roots, deriv=False)
    live = ~raised(stop, vals, lanes.L)
    for n, q, p, x, y in check:
        xv = vals[x.id][0] if isinstance(x, Term) else np.full(lanes.L, complex(x))
        yv = vals[y.id][0] if isinstance(y, Term) else np.full(lanes.L, complex(y))
        with np.errstate(all='ignore'):
            ok = live & np.isfinite(xv) & np.isfinite(yv) & (np.abs(xv.imag) <= 1e-9 * np.abs(xv)) & (np.abs(yv.imag) <= 1e-9 * np.abs(yv))
            bad = ok & (np.abs(xv - yv) > 1e-6 * np.maximum(np.abs(xv), np.abs(yv)) + 1e-12)
        if bad.sum() >= 2:
            k = int(np.argmax(bad))
            yield n, p, xv[k].real, yv[k].real, float(bad.sum() / max(1, ok.sum()))


# cumulative by purpose: distance and time since the first node
ORDERED = {'aviary.subsystems.aerodynamics.gasp_based.common.TimeRamp': 'needs the times in ascending order, which node samples do not respect'}
CUMULATIVE = {
    'aviary.mission.two_dof.ode.breguet_cruise_eom.ElectricRangeComp',
    'aviary.mission.two_dof.ode.breguet_cruise_eom.RangeComp',
    'aviary.mission.two_dof.ode.simple_cruise_eom.DistanceComp',
}
FLOOR = 50


def check(tier, seed):
    opts = {'quick': {'cap': 16, 'parts': 12}, 'thorough': {'cap': 160, 'parts': 64, 'class_timeout': 600}}[tier]
    rs = S.sweep(one, dict(opts, seed=seed))
    cov = {'component_classes': len(rs), 'with_nodes': 0, 'evaluations': 0, 'node_outputs': 0, 'entries_identical_graphs': 0, 'entries_compared_by_value_number': 0, 'gaps': []}
    out = []
    for r in rs:
        if r['status'] == 'ok':
            if r['runs']:
                cov['with_nodes'] += 1
            for k, n in (('evaluations', 'runs'), ('node_outputs', 'outputs'), ('entries_identical_graphs', 'identical'), ('entries_compared_by_value_number', 'sampled')):
                cov[k] += r[n]
            if r['errs']:
                cov['gaps'].append('%s: %s' % (r['class'], r['errs'][0]))
        elif r['status'] not in ('no compute', 'no nodes'):
            cov['gaps'].append('%s: %s' % (r['class'], r['status']))
        if r['class'] in CUMULATIVE or r['class'] in ORDERED:
            continue
        for b in r['viol']:
            out.append({'key': '%s|%s' % (r['class'].replace('aviary.', '', 1), b['of']), 'class': r['class'],
                        'msg': 'output %s at node %d of %d is %.6g where the same inputs give %.6g at node 0 of 3 with other values at the other nodes%s'
                        % (b['of'], b['p'][1], b['p'][0], b['b'], b['a'], ' (options %s)' % b['cfg'] if b['cfg'] else '')})
    cov['cumulative_by_purpose'] = sorted(CUMULATIVE)
    cov['exempt'] = ORDERED
    cov['explanation'] = (
        'Built the value graphs of the outputs of every component class that is instantiated per trajectory node, once per node position and node count, with the inputs at the node under study '
        'carrying the same atoms and all others atoms of their own.  Rule: all graphs of one output entry have one value number in every feasible lane.'
    )
    return {'findings': out, 'coverage': cov, 'error': None if cov['with_nodes'] >= FLOOR else 'only %d component classes could be analysed (floor %d)' % (cov['with_nodes'], FLOOR),
            'assumptions': ['as C01', 'components listed under cumulative_by_purpose are exempt']}
