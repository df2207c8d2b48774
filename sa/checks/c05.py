"""C05: what OpenMDAO differentiates by complex step survives a complex step.

The value graph keeps the operations that drop the imaginary part: abs, real, float(), math.*, storing
in an array the code made real.  For every (output, input) declared with the complex step method, the
derivative through the graph must not change when those operations are taken to be constants."""

import numpy as np

from .. import components as C
from .. import fingerprint as F
from .. import sweep as S
from .. import terms as T
from ..interp import FuncObj
from ..terms import Term
from .c01 import raised

BLOCK = {'abs': 'abs()', 're': '.real', 'float': 'float()', 'nocs': 'an operation or array that is real-valued', 'sign': 'sign()', 'arctan2': 'arctan2()'}


class Blocked(F.Lanes):
    def node(self, t, vals, deriv):
        r = super().node(t, vals, deriv)
        if t.op == 'tag' and t.args[0] in BLOCK and deriv:
            return (r[0], {})
        return r


def hook(r):
    r.inst.attrs['under_complex_step'] = True
    T.REALS = {}


NPTS = 600


def one(ip, cls, opts):
    if not isinstance(cls.lookup('compute')[0], FuncObj):
        return {'status': 'no compute', 'viol': []}
    T.REALS = None
    # does any configuration declare a complex step?
    if not any("'cs'" in src or '"cs"' in src for src in sources(cls)):
        return {'status': 'no complex step', 'viol': []}
    pl = S.plan(ip, cls, opts, partials=False)
    if isinstance(pl, str):
        return {'status': pl, 'viol': []}
    st = {'status': 'ok', 'viol': [], 'runs': 0, 'pairs': 0, 'errs': [], 'lossy': 0, 'mode': pl.part}
    seen = set()
    try:
        for cfg, part, r in S.iter_runs(ip, cls, opts, pl, partials=False, hook=hook):
            T.REALS = None
            if r.err:
                st['errs'].append(r.err)
                continue
            st['runs'] += 1
            cs = {k for k, e in r.comp.partials.items() if e['method'] == 'cs' and k[0] in r.outs and k[1] in r.ins}
            st['pairs'] += len(cs)
            roots = [t for n in {k[0] for k in cs} for t in r.outs[n].ravel() if isinstance(t, Term)]
            lossy = [t for t in T.topo(roots) if t.op == 'tag' and t.args[0] in BLOCK]
            st['lossy'] += len(lossy)
            if not lossy:
                continue
            stop = [e[3] for e in r.compute_events if e[0] == 'cond-raise']
            roots += [t for t in stop if isinstance(t, Term)]
            kw = dict(n_val=1, n_pts=NPTS, seed=opts['seed'], classes=('nat',), free=True)
            L0, L1 = F.Lanes(roots, S.scale_fn(r.comp), **kw), Blocked(roots, S.scale_fn(r.comp), **kw)
            v0, v1 = L0.run(roots), L1.run(roots)
            live = ~raised(stop, v0, L0.L)
            for of, wrt in sorted(cs):
                if (of, wrt) in seen:
                    continue
                for o in r.outs[of].ravel():
                    if not isinstance(o, Term) or v0[o.id][1] is None:
                        continue
                    for w in r.ins[wrt].ravel():
                        z = np.zeros(L0.L, complex)
                        a = np.asarray(v0[o.id][1].get(w.id, z))
                        b = np.asarray(v1[o.id][1].get(w.id, z))
                        with np.errstate(all='ignore'):
                            m = live & np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) > 1e-7 * np.maximum(np.abs(a), np.abs(b))) & (np.abs(v0[o.id][0].imag) <= 1e-9 * np.abs(v0[o.id][0]))
                        if m.sum() >= 2:
                            seen.add((of, wrt))
                            k = int(np.argmax(m))
                            what = sorted({BLOCK[t.args[0]] for t in T.topo([o]) if t.op == 'tag' and t.args[0] in BLOCK})
                            st['viol'].append({'of': of, 'wrt': wrt, 'a': a[k].real, 'b': b[k].real, 'what': what, 'cfg': S.cfg_str(cfg, pl.doms), 'p': what, 'frac': float(m.mean())})
                            break
                    if (of, wrt) in seen:
                        break
    finally:
        T.REALS = None
    return st


def sources(cls):
    out = []
    for k in cls.mro:
        m = getattr(k, 'module', None)
        if m is not None:
            out.append(open(m.path, encoding='utf-8').read())
    return out



def check(tier, seed):
    opts = {'quick': {'cap': 16, 'parts': 10}, 'thorough': {'cap': 160, 'cap_part': 24, 'parts': 64, 'class_timeout': 600}}[tier]
    rs = S.sweep(one, dict(opts, seed=seed))
    cov = {'component_classes': len(rs), 'with_complex_step': 0, 'configurations': 0, 'complex_step_pairs': 0, 'operations_that_drop_the_imaginary_part': 0, 'gaps': []}
    out = []
    for r in rs:
        if r['status'] == 'ok':
            cov['with_complex_step'] += bool(r['pairs'])
            cov['configurations'] += r['runs']
            cov['complex_step_pairs'] += r['pairs']
            cov['operations_that_drop_the_imaginary_part'] += r['lossy']
            if r['errs'] and not r['runs']:
                cov['gaps'].append('%s: %s' % (r['class'], r['errs'][0]))
        elif not r['status'].startswith('no '):
            cov['gaps'].append('%s: %s' % (r['class'], r['status']))
        for b in r['viol']:
            out.append({'key': '%s|%s|%s' % (r['class'].replace('aviary.', '', 1), b['of'], b['wrt']), 'class': r['class'],
                        'msg': 'd %s / d %s is declared by complex step, but its derivative %.6g passes through %s, which drops the imaginary part (what remains: %.6g)%s'
                        % (b['of'], b['wrt'], b['a'], ' or '.join(b['what']), b['b'], ' (options %s)' % b['cfg'] if b['cfg'] else '')})
    cov['explanation'] = (
        'Interpreted every component class that declares a complex step into its value graph, keeping the operations that drop an imaginary part (abs, .real, float(), math functions, norms, '
        'stores into arrays the code created real) as nodes.  Rule: for every (output, input) declared with the complex step method the derivative of the graph does not change when those nodes are held constant.'
    )
    return {'findings': out, 'coverage': cov, 'error': None if cov['with_complex_step'] >= 10 else 'only %d classes with complex step could be analysed' % cov['with_complex_step'],
            'assumptions': ['as C01']}
