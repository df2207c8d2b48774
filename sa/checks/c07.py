"""C07: the order in which engine models are listed does not matter.

The value graphs of a component are built for the engine models in one order and in another, the
inputs and options of one model carrying the same atoms both times.  Totals must have the same value
number, results per model must be exchanged."""

import numpy as np

from .. import components as C
from .. import fingerprint as F
from .. import omodel as O
from .. import partition as P
from .. import sweep as S
from .. import terms as T
from ..interp import FuncObj
from ..terms import Term
from .c01 import raised
from .c04 import NPTS, at

PERM = {2: (1, 0), 3: (2, 0, 1)}
BLOCKS = {'aircraft:engine:wing_locations': ('aircraft:engine:num_wing_engines', 'aircraft:engine:num_engines')}
NN = 2


def raw(v):
    """value of an option without its units"""
    return v[0] if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], str) else v


def permuted(cfg, n, names):
    p = PERM[n]
    out = {}
    for k, v in cfg.items():
        a = raw(v)
        if k in names and isinstance(a, (list, np.ndarray)) and len(a) == n:
            b = [a[i] for i in p] if isinstance(a, list) else a[list(p)]
            out[k] = (b,) + tuple(v[1:]) if a is not v else b
        else:
            out[k] = v
    return out


def blocks(cfg, opt, n):
    """lengths of the blocks of a vector that lists the engines of one model after the other"""
    v = raw(next((cfg[o] for o in opt if o in cfg), None))
    if not isinstance(v, (list, np.ndarray)) or len(v) != n:
        return None
    try:
        return [int(x) // 2 for x in v]
    except (TypeError, ValueError):
        return None


def axes(ip, cls, opts, pl, cfg_name, part):
    """engine axis of every variable, by declaring the component for two and for three models"""
    shp = []
    for n in (2, 3):
        w = dict(pl.world, n_eng=n, nn=NN, ip=ip)
        doms = C.option_domains(ip, cls, w, pl.mode)
        cfg = {}
        for k, v in cfg_name.items():
            vs = list(doms[k].vals if isinstance(doms[k], O.Domain) else doms[k])
            cfg[k] = vs[min(v, len(vs) - 1)]
        O.fix_totals(cfg)
        tot, parts = 'aircraft:propulsion:total_num_wing_engines', 'aircraft:engine:num_wing_engines'
        if tot in cfg and parts not in cfg and isinstance(raw(cfg.get('aircraft:engine:num_engines')), np.ndarray):
            cfg[tot] = int(sum(raw(cfg['aircraft:engine:num_engines'])))
        r = C.run_config(ip, cls, cfg, w)
        if r.error:
            return None, None, None
        shp.append(({k: v.shape for k, v in r.comp.inputs.items()}, {k: v.shape for k, v in r.comp.outputs.items()}, cfg, w))
    out = []
    for a, b in zip(shp[0][:2], shp[1][:2]):
        d = {}
        for k in a:
            if k not in b or len(a[k]) != len(b[k]):
                d[k] = None
                continue
            ax = [i for i, (x, y) in enumerate(zip(a[k], b[k])) if x != y]
            if ax:
                d[k] = ax[0] if len(ax) == 1 and (a[k][ax[0]], b[k][ax[0]]) == (2, 3) else None
        out.append(d)
    return out, shp[1][2], shp[1][3]


def evaluate(ip, cls, cfg, world, iax, perm, n):
    blk = {}
    if perm is not None:
        for name, opt in BLOCKS.items():
            b = blocks(cfg, opt, n)
            if b is not None:
                # cfg is already permuted: block j holds what was block perm[j]
                orig = [0] * n
                for j, q in enumerate(perm):
                    orig[q] = b[j]
                starts = np.concatenate([[0], np.cumsum(orig)])
                blk[name] = [int(starts[q]) + e for j, q in enumerate(perm) for e in range(b[j])]

    def rename(tag, name, idx, shape):
        flat = int(np.ravel_multi_index(idx, shape))
        if perm is None:
            return (tag, name, flat)
        if name in blk and len(shape) == 1 and shape[0] == len(blk[name]):
            return (tag, name, blk[name][flat])
        ax = iax.get(name)
        if ax is None:
            return (tag, name, flat)
        i = list(idx)
        i[ax] = perm[i[ax]]
        return (tag, name, int(np.ravel_multi_index(tuple(i), shape)))

    C.RENAME = rename
    try:
        r = C.run_config(ip, cls, cfg, world)
        if r.error:
            return r
        if T.DECIDER is not None:
            T.DECIDER.at.scale = S.scale_fn(r.comp)
        C.eval_compute(ip, r)
        r.error = r.cerror
        return r
    finally:
        C.RENAME = None


def one(ip, cls, opts):
    if not any(isinstance(cls.lookup(n)[0], FuncObj) for n in ('compute', 'apply_nonlinear')):
        return {'status': 'no compute', 'viol': []}
    T.reset()
    T.DECIDER = None
    world = dict(S.WORLDS[0], ip=ip)
    try:
        o = C.declare(ip, cls)
    except Exception as e:
        return {'status': 'not declared: %s' % e, 'viol': []}
    decl = getattr(o.attrs.get('options'), 'decl', {})
    if not any('engine' in k or k == 'engine_models' for k in decl):
        return {'status': 'not applicable', 'viol': []}
    pl = S.plan(ip, cls, opts, partials=False)
    if isinstance(pl, str):
        return {'status': pl, 'viol': []}
    st = {'status': 'ok', 'viol': [], 'runs': 0, 'outputs': 0, 'identical': 0, 'sampled': 0, 'errs': [], 'mode': pl.part}
    seen = set()
    for cfg in pl.cfgs[: opts['cap']]:
        T.reset()
        idx = {}
        for k, v in cfg.items():
            vs = list(pl.doms[k].vals if isinstance(pl.doms[k], O.Domain) else pl.doms[k])
            idx[k] = next((i for i, x in enumerate(vs) if x is v or str(x) == str(v)), 0)
        try:
            ax, c3, w3 = axes(ip, cls, opts, pl, idx, pl.part)
        except Exception as e:
            st['errs'].append('axes: %r' % e)
            continue
        if ax is None:
            st['errs'].append('declaration')
            continue
        iax, oax = ax
        every = {**iax, **oax}
        odd = [k for k, a in every.items() if a is None and k not in BLOCKS]
        n = 3
        p = PERM[n]
        names = {k for k in c3 if 'engine' in k or 'propulsion' in k or 'nacelle' in k}
        learnt = {}
        for part in range(opts.get('parts', 8) if pl.part else 1):
            T.reset()
            if pl.part:
                T.DECIDER = P.Decider(opts['seed'], part, learnt)
            try:
                r1 = evaluate(ip, cls, c3, w3, every, None, n)
                r2 = None if r1.error else evaluate(ip, cls, permuted(c3, n, names), w3, every, p, n)
            except Exception as e:
                st['errs'].append(repr(e)[:200])
                continue
            finally:
                dec, T.DECIDER = T.DECIDER, None
            if r1.error or r2.error:
                st['errs'].append(r1.error or r2.error)
                continue
            st['runs'] += 1
            check = []
            for name, a1 in r1.outs.items():
                if name in odd:
                    continue
                a2 = r2.outs[name]
                ax = oax.get(name)
                st['outputs'] += 1
                for i in np.ndindex(*a2.shape):
                    j = list(i)
                    if ax is not None:
                        j[ax] = p[j[ax]]
                    x, y = a1[tuple(j)], a2[i]
                    if x is y or (not isinstance(x, Term) and not isinstance(y, Term) and x == y):
                        st['identical'] += 1
                    else:
                        check.append((name, i, x, y))
            st['sampled'] += len(check)
            stop = [e[3] for r in (r1, r2) for e in r.compute_events if e[0] == 'cond-raise']
            for name, i, a, b, frac in differing(r1.comp, check, stop, opts['seed'], dec):
                if name not in seen:
                    seen.add(name)
                    st['viol'].append({'of': name, 'i': i, 'a': a, 'b': b, 'frac': frac, 'cfg': S.cfg_str(c3, {k: pl.doms[k] for k in c3})})
    return st


def differing(comp, check, stop, seed, dec):
    if not check:
        return
    if dec is not None:
        if dec.blind:
            return
        dec.at.scale = S.scale_fn(comp)
        for n, i, x, y in check:
            a, b = dec.real(x), dec.real(y)
            if a is not None and b is not None and abs(a - b) > 1e-6 * max(abs(a), abs(b)) + 1e-12:
                yield n, i, a, b, 1.0
        return
    roots = [t for k in check for t in k[2:] if isinstance(t, Term)] + [t for t in stop if isinstance(t, Term)]
    lanes = F.Lanes(roots, S.scale_fn(comp), n_val=1, n_pts=NPTS, seed=seed, classes=('nat',), free=True)
    vals = lanes.run(roots, deriv=False)
    live = ~raised(stop, vals, lanes.L)
    for n, i, x, y in check:
        xv = vals[x.id][0] if isinstance(x, Term) else np.full(lanes.L, complex(x))
        yv = vals[y.id][0] if isinstance(y, Term) else np.full(lanes.L, complex(y))
        with np.errstate(all='ignore'):
            ok = live & np.isfinite(xv) & np.isfinite(yv) & (np.abs(xv.imag) <= 1e-9 * np.abs(xv)) & (np.abs(yv.imag) <= 1e-9 * np.abs(yv))
            bad = ok & (np.abs(xv - yv) > 1e-6 * np.maximum(np.abs(xv), np.abs(yv)) + 1e-12)
        if bad.sum() >= 2:
            k = int(np.argmax(bad))
            yield n, i, xv[k].real, yv[k].real, float(bad.sum() / max(1, ok.sum()))


PER_MODEL = {
    'aviary.subsystems.propulsion.propeller.hamilton_standard.HamiltonStandard': 'instantiated inside one engine model, sees the options of that model only',
    'aviary.subsystems.propulsion.throttle_allocation.ThrottleAllocator': 'the allocations of all models but the last are the inputs, the last takes the rest',
}
FLOOR = 35


def check(tier, seed):
    opts = {'quick': {'cap': 16, 'parts': 12}, 'thorough': {'cap': 160, 'parts': 64, 'class_timeout': 600}}[tier]
    rs = S.sweep(one, dict(opts, seed=seed))
    cov = {'component_classes': len(rs), 'with_engine_models': 0, 'evaluations': 0, 'outputs': 0, 'entries_identical_graphs': 0, 'entries_compared_by_value_number': 0, 'gaps': []}
    out = []
    for r in rs:
        if r['status'] == 'ok':
            if r['runs']:
                cov['with_engine_models'] += 1
            for k, n in (('evaluations', 'runs'), ('outputs', 'outputs'), ('entries_identical_graphs', 'identical'), ('entries_compared_by_value_number', 'sampled')):
                cov[k] += r[n]
            if r['errs']:
                cov['gaps'].append('%s: %s' % (r['class'], r['errs'][0]))
        elif r['status'] not in ('no compute', 'not applicable'):
            cov['gaps'].append('%s: %s' % (r['class'], r['status']))
        if r['class'] in PER_MODEL:
            continue
        for b in r['viol']:
            out.append({'key': '%s|%s' % (r['class'].replace('aviary.', '', 1), b['of']), 'class': r['class'],
                        'msg': 'output %s%s is %.6g with the engine models in one order and %.6g in another (options %s)'
                        % (b['of'], list(b['i']), b['a'], b['b'], b['cfg'])})
    cov['exempt'] = PER_MODEL
    cov['explanation'] = (
        'Built the value graphs of the outputs of every component class with engine options, for three engine models in two orders; inputs and options of one model carry the same atoms both times. '
        'Rule: totals have one value number, results per model are exchanged with the models.'
    )
    return {'findings': out, 'coverage': cov, 'error': None if cov['with_engine_models'] >= FLOOR else 'only %d component classes could be analysed (floor %d)' % (cov['with_engine_models'], FLOOR),
            'assumptions': ['as C01', 'components listed under exempt are per model by design']}
