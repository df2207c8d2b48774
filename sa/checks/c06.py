"""C06: a mass scaler scales the mass it is named for.

Euler's relation decides it on the value graph: an output is proportional to a scaler s for all values
exactly if  sum_j s_j * d out / d s_j  has the value number of out itself."""

import numpy as np

from .. import components as C
from .. import fingerprint as F
from .. import sweep as S
from .. import terms as T
from ..interp import FuncObj
from ..terms import Term
from .c01 import raised

NPTS = 600
# scalers with another documented meaning
OTHER = {
    'EngineMass': 'FLOPS: exponent (or slope) of the thrust ratio',
    'FurnishingMass': 'GASP: pounds per passenger (documented in the metadata)',
    'BWBFurnishingMass': 'GASP: pounds per passenger (documented in the metadata)',
}


def scaled_by(of, s):
    """is s the scaler of the output, by name: X -> X_scaler, also for totals and base masses"""
    if not s.endswith('_scaler'):
        return False
    q = s[: -len('_scaler')]
    if q == of:
        return True
    if of.count(':') != 2 or q.count(':') != 2:
        return False
    a, b = of.split(':'), q.split(':')
    if b[2] + '_base' == a[2] and a[1] == b[1]:
        return True
    return a[2] == 'total_' + b[2] and (a[1] == b[1] or a[1] == 'propulsion')


def zero_prev(c):
    f = S.scale_fn(c)
    return lambda key: 0.0 if key[0] in ('prev', 'prevJ') else f(key)


def one(ip, cls, opts):
    if not isinstance(cls.lookup('compute')[0], FuncObj):
        return {'status': 'no compute', 'viol': []}
    pl = S.plan(ip, cls, opts, partials=False)
    if isinstance(pl, str):
        return {'status': pl, 'viol': []}
    st = {'status': 'ok', 'viol': [], 'runs': 0, 'pairs': [], 'errs': [], 'mode': pl.part}
    seen = set()
    for cfg, part, r in S.iter_runs(ip, cls, opts, pl, partials=False):
        if r.err:
            st['errs'].append(r.err)
            continue
        pairs = [(of, s) for of in r.outs for s in r.ins if scaled_by(of, s)]
        if not pairs:
            if not st['runs']:
                return {'status': 'not applicable', 'viol': []}
            continue
        st['runs'] += 1
        roots = [t for a in r.outs.values() for t in a.ravel() if isinstance(t, Term)]
        stop = [e[3] for e in r.compute_events if e[0] == 'cond-raise']
        roots += [t for t in stop if isinstance(t, Term)] + [t for _, s in pairs for t in r.ins[s].ravel()]
        lanes = F.Lanes(roots, zero_prev(r.comp), n_val=1, n_pts=NPTS, seed=opts['seed'], classes=('nat',), free=True)
        vals = lanes.run(roots)
        live = ~raised(stop, vals, lanes.L)
        for of, s in pairs:
            if [of, s] not in st['pairs']:
                st['pairs'].append([of, s])
            if (of, s) in seen:
                continue
            for i, t in enumerate(r.outs[of].ravel()):
                v, g = vals[t.id] if isinstance(t, Term) else (np.full(lanes.L, complex(t)), {})
                e = np.zeros(lanes.L, complex)
                for w in r.ins[s].ravel():
                    d = (g or {}).get(w.id)
                    if d is not None:
                        e = e + np.asarray(d) * vals[w.id][0]
                with np.errstate(all='ignore'):
                    ok = live & np.isfinite(v) & np.isfinite(e) & (np.abs(v.imag) <= 1e-9 * np.abs(v))
                    bad = ok & (np.abs(e - v) > 1e-6 * np.maximum(np.abs(e), np.abs(v)) + 1e-12)
                if bad.sum() >= 2:
                    k = int(np.argmax(bad))
                    seen.add((of, s))
                    st['viol'].append({'of': of, 'wrt': s, 'v': v[k].real, 'e': e[k].real, 'i': i, 'cfg': S.cfg_str(cfg, pl.doms)})
                    break
    return st


FLOOR = 50


def check(tier, seed):
    opts = {'quick': {'cap': 24, 'parts': 10}, 'thorough': {'cap': 200, 'cap_part': 24, 'parts': 64, 'class_timeout': 600}}[tier]
    rs = S.sweep(one, dict(opts, seed=seed))
    cov = {'component_classes': len(rs), 'configurations': 0, 'scaled_masses': 0, 'pairs': [], 'other_meaning': OTHER, 'gaps': []}
    out = []
    for r in rs:
        name = r['class'].split('.')[-1]
        if r['status'] == 'ok':
            cov['configurations'] += r['runs']
            if name not in OTHER:
                cov['scaled_masses'] += len(r['pairs'])
                cov['pairs'] += ['%s: %s by %s' % (name, *p) for p in r['pairs']]
        elif r['status'] not in ('no compute', 'not applicable'):
            cov['gaps'].append('%s: %s' % (r['class'], r['status']))
        if name in OTHER:
            continue
        for b in r['viol']:
            out.append({'key': '%s|%s|%s' % (r['class'].replace('aviary.', '', 1), b['of'], b['wrt']), 'class': r['class'],
                        'msg': '%s[%d] is not proportional to %s: it is %.6g, of which %.6g scales%s' % (b['of'], b['i'], b['wrt'], b['v'], b['e'], ' (options %s)' % b['cfg'] if b['cfg'] else '')})
    cov['explanation'] = (
        'Built the value graph of every component that outputs a mass and takes the scaler named after it, per option configuration, and differentiated it.  '
        'Rule (Euler): the sum of scaler times derivative has the value number of the output in every feasible lane, on every branch.'
    )
    return {'findings': out, 'coverage': cov, 'error': None if cov['scaled_masses'] >= FLOOR else 'only %d scaled masses found (floor %d)' % (cov['scaled_masses'], FLOOR),
            'assumptions': ['as C01', 'the scaler of a mass is recognised by its name; the components under other_meaning are exempt']}
