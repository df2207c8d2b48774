"""C01/C02: the declared partial derivatives are the derivatives of the outputs, on every branch."""

import numpy as np

from .. import components as C
from .. import fingerprint as F
from .. import omodel as O
from .. import sweep as S
from .. import terms as T
from ..interp import FuncObj
from ..terms import Term

RTOL = 2e-5


def subjac(c, key, e, arr):
    """J entry as dict (row, col) -> term"""
    of, wrt = key
    d = {}
    if e['rows'] is not None:
        for i, (r, cc) in enumerate(zip(e['rows'], e['cols'])):
            k = (int(r), int(cc))
            d[k] = T.add(d[k], arr[i]) if k in d else arr[i]
    else:
        for i in np.ndindex(*arr.shape):
            d[i] = arr[i]
    return d


def raised(stop, vals, L):
    m = np.zeros(L, bool)
    for t in stop:
        if t is True:
            m[:] = True
        elif isinstance(t, Term):
            m |= vals[t.id][0]
    return m


def differs(tv, jv, ov, wv):
    with np.errstate(all='ignore'):
        d = np.abs(tv - jv)
        s = np.maximum(np.abs(tv), np.abs(jv))
        ok = np.isfinite(d) & np.isfinite(s) & (s < 1e250) & np.isfinite(ov)
        # negligible against the size of the output itself: cancellation noise
        noise = np.abs(ov) / np.maximum(wv, 1e-300) * 1e-10
        return ok, ok & (d > RTOL * s) & ((d > noise) | ~np.isfinite(noise)) & (d > 1e-14)


def gatekeys(*ts):
    g, b = set(), set()
    for t in T.topo([t for t in ts if isinstance(t, Term)]):
        if t.op == 'cmp':
            g.add(t.args[1])
        elif t.op == 'batom':
            b.add(t.args[0])
    return g, b


def aligned(o, je):
    """are the predicates of the declared partial predicates of the output, too?

    If not, the two sides may be spelling one condition in two ways, and an arbitrary truth
    assignment would tear them apart: 'gate' asks for a feasible lane, 'bool' for all assignments"""
    g, b = gatekeys(o)
    gj, bj = gatekeys(je)
    if bj - b:
        return 'bool'
    if gj - g:
        return 'gate'
    return 'same'


N_FREE = 6000


def feasible(c, cands, stop, seed):
    """keep the candidates that differ in some lane whose predicates follow from its own values"""
    roots = [t for k in cands for t in (k['_o'], k['_w'], k['_je']) if isinstance(t, Term)] + [t for t in stop if isinstance(t, Term)]
    lanes = F.Lanes(roots, S.scale_fn(c), n_val=1, n_pts=N_FREE, seed=seed, classes=('nat',), free=True)
    lanes.steer()
    vals = lanes.run(roots)
    live = ~raised(stop, vals, lanes.L)
    atoms = [t for t in lanes.nodes if t.op == 'atom']
    out = []
    for k in cands:
        o, w, je = k['_o'], k['_w'], k['_je']
        ov, og = vals[o.id] if isinstance(o, Term) else (np.ones(lanes.L), {})
        tv = np.asarray((og or {}).get(w.id, np.zeros(lanes.L, complex)))
        jv = vals[je.id][0].astype(complex) if isinstance(je, Term) else np.full(lanes.L, complex(je))
        ok, mism = differs(tv, jv, ov, np.abs(vals[w.id][0]))
        # inputs are real here: an imaginary part is a domain error (NaN in the code)
        m = mism & ok & live & (np.abs(ov.imag) <= 1e-9 * np.abs(ov))
        if m.sum() < 2:
            continue
        q = int(np.argmax(m))
        k['witness'] = {t.args[0]: float(lanes.atom_value(t)[q].real) for t in atoms}
        out.append(k)
    return out


N_SOFT = 900


def transitions(c, entries, stop, seed):
    """compare in feasible lanes placed in the transitions of saturating exponentials (smoothed steps)"""
    roots = [t for k in entries for t in (k['_o'], k['_w'], k['_je']) if isinstance(t, Term)] + [t for t in stop if isinstance(t, Term)]
    if not any(t.op == 'exp' for t in T.topo(roots)):
        return []
    lanes = F.Lanes(roots, S.scale_fn(c), n_val=1, n_pts=N_SOFT, seed=seed, classes=('nat',), free=True)
    sets = [s for k, s in lanes.steer(max_targets=12) if k[0] == 'exp']
    if not sets:
        return []
    vals = lanes.run(roots)
    live = ~raised(stop, vals, lanes.L)
    out = []
    for k in entries:
        o, w, je = k['_o'], k['_w'], k['_je']
        if not isinstance(o, Term):
            continue
        ov, og = vals[o.id]
        tv = np.asarray((og or {}).get(w.id, np.zeros(lanes.L, complex)))
        jv = vals[je.id][0].astype(complex) if isinstance(je, Term) else np.full(lanes.L, complex(je))
        ok, mism = differs(tv, jv, ov, np.abs(vals[w.id][0]))
        m = mism & ok & live & (np.abs(ov.imag) <= 1e-9 * np.abs(ov)) & (np.abs(tv - jv) > 1e-3 * np.maximum(np.abs(tv), np.abs(jv)))
        for s in sets:
            if m[s].sum() >= 3:
                q = int(s[np.argmax(m[s])])
                k['witness'] = {t.args[0]: float(lanes.atom_value(t)[q].real) for t in lanes.nodes if t.op == 'atom'}
                k.update({'class': 'soft', 'true': tv[q], 'J': jv[q], 'val': 0, 'frac': 0.5})
                out.append(k)
                break
    return out


def compare(r, seed, n_val, max_report=6):
    """-> list of mismatches, stats"""
    c = r.comp
    outs = {n: a.ravel() for n, a in r.outs.items()}
    wrts = {}
    for n, a in r.ins.items():
        wrts[n] = a.ravel()
    if r.impl:
        for n, a in r.states.items():
            wrts[n] = a.ravel()
    roots = []
    for a in outs.values():
        roots += [t for t in a if isinstance(t, Term)]
    jd = {}
    for k, e in c.partials.items():
        if e['method'] != 'exact' or k[0] not in outs or k[1] not in wrts:
            continue
        arr = r.J.d.get(k)
        if e.get('dependent') is False:
            jd[k] = {}
            continue
        d = subjac(c, k, e, arr)
        jd[k] = d
        roots += [t for t in d.values() if isinstance(t, Term)]
    approx = {k for k, e in c.partials.items() if e['method'] != 'exact'}
    stop = [e[3] for e in list(r.compute_events) + list(r.partials_events) if e[0] == 'cond-raise']
    roots += [t for t in stop if isinstance(t, Term)]
    gates = [t for t in T.topo(roots) if t.op in ('cmp', 'batom')]
    nv = n_val if gates else 1
    lanes = F.Lanes(roots, S.scale_fn(c), n_val=nv, n_pts=3, seed=seed)
    vals = lanes.run(roots)
    stats = {'pairs': 0, 'entries': 0, 'gates': len(gates), 'lanes': lanes.L, 'nan': 0, 'opq': 0}
    stats['nodes'] = len(lanes.nodes)
    opq = any(t.op == 'opq' for t in lanes.nodes)
    npt = len(lanes.pts)
    live = ~raised(stop, vals, lanes.L)
    bad = []
    clean = []
    for of, oa in outs.items():
        for wrt, wa in wrts.items():
            ap = None
            if (of, wrt) in approx:
                e = c.partials[of, wrt]
                if e['rows'] is None:
                    continue
                ap = set(zip(e['rows'].tolist(), e['cols'].tolist()))
            J = jd.get((of, wrt), {})
            stats['pairs'] += 1
            for i, o in enumerate(oa):
                og = vals[o.id][1] if isinstance(o, Term) and vals[o.id][1] else {}
                if isinstance(o, Term) and vals[o.id][1] is None:
                    og = {}
                ov = vals[o.id][0] if isinstance(o, Term) else 1.0
                for j, w in enumerate(wa):
                    if ap is not None and (i, j) in ap:
                        continue
                    g = og.get(w.id)
                    je = J.get((i, j), 0)
                    if g is None and (not isinstance(je, Term)) and je == 0:
                        continue
                    stats['entries'] += 1
                    tv = np.zeros(lanes.L, complex) if g is None else np.asarray(g, complex)
                    jv = vals[je.id][0].astype(complex) if isinstance(je, Term) else np.full(lanes.L, complex(je))
                    with np.errstate(all='ignore'):
                        d = np.abs(tv - jv)
                        s = np.maximum(np.abs(tv), np.abs(jv))
                        wv = np.abs(vals[w.id][0]) if w.id in vals else 1.0
                        ok, mism = differs(tv, jv, ov, wv)
                        ok &= live
                        mism &= ok
                    if g is not None or isinstance(je, Term):
                        clean.append({'of': of, 'wrt': wrt, 'i': i, 'j': j, 'declared': ap is None and (i, j) in J, '_o': o, '_w': w, '_je': je})
                    if not ok.any():
                        stats['nan'] += 1
                        continue
                    if not mism.any():
                        continue
                    M = mism.reshape(nv, npt)
                    K = ok.reshape(nv, npt)
                    for ci, cl in enumerate(lanes.classes):
                        if cl == 'cplx':
                            continue
                        sl = slice(ci * lanes.n_pts, (ci + 1) * lanes.n_pts)
                        full = (K[:, sl].sum(1) >= 2) & (M[:, sl].sum(1) == K[:, sl].sum(1))
                        if full.any():
                            al = aligned(o, je)
                            if al == 'bool' and not full.all():
                                break
                            v = int(np.argmax(full))
                            p = ci * lanes.n_pts + int(np.argmax(M[v, sl]))
                            bad.append({'of': of, 'wrt': wrt, 'i': i, 'j': j, 'class': cl, 'true': tv[v * npt + p], 'J': jv[v * npt + p],
                                        'declared': ap is None and (i, j) in J, 'val': v, 'frac': float(full.mean()), '_o': o, '_w': w, '_je': je})
                            break
    if bad and gates:
        bad = feasible(c, bad, stop, seed)
    seen = {(b['of'], b['wrt']) for b in bad}
    bad += transitions(c, [k for k in clean if (k['of'], k['wrt']) not in seen], stop, seed)
    for b in bad:
        del b['_o'], b['_w'], b['_je']
    return bad, stats, lanes, vals


def one(ip, cls, opts):
    S.O.Jac.strict = False
    if not any(isinstance(cls.lookup(n)[0], FuncObj) for n in ('compute', 'apply_nonlinear')):
        return {'status': 'no compute', 'viol': []}
    if any(isinstance(cls.lookup(n)[0], FuncObj) for n in ('compute_jacvec_product', 'apply_linear')):
        return {'status': 'matrix-free', 'viol': []}
    if S.all_approx(ip, cls, opts):
        return {'status': 'approximated', 'viol': []}
    pl = S.plan(ip, cls, opts)
    if isinstance(pl, str):
        return {'status': pl, 'viol': []}
    seen = {}
    nodecl = True
    st = {'status': 'ok', 'viol': [], 'runs': 0, 'pairs': 0, 'entries': 0, 'gates': 0, 'nan': 0, 'raised': 0, 'unsupported': 0, 'full': pl.full, 'mode': '%s%d' % (pl.mode, pl.part), 'errs': [], 'parts': 0}
    for cfg, part, r in S.iter_runs(ip, cls, opts, pl):
        if r.err:
            st['raised' if r.err.startswith('raises') else 'unsupported'] += 1
            st['errs'].append(r.err)
            continue
        bad, s, lanes, vals = compare(r, opts['seed'], opts['n_val'])
        st['runs'] += 1
        nodecl &= not r.comp.partials
        for k in ('pairs', 'entries', 'gates', 'nan'):
            st[k] = max(st[k], s[k]) if k == 'gates' else st[k] + s[k]
        for b in bad:
            k = (b['of'], b['wrt'], b['declared'])
            if k not in seen:
                b['cfg'] = S.cfg_str(cfg, pl.doms)
                b['part'] = part
                if part is not None:
                    b['witness'] = r.sample
                e = r.comp.partials.get(k[:2])
                b['where'] = str(e['where']) if e else None
                seen[k] = b
                st['viol'].append(b)
    st['nodecl'] = nodecl
    return st


OPTS = {'quick': {'cap': 24, 'n_val': 48}, 'thorough': {'cap': 200, 'cap_part': 24, 'n_val': 160, 'parts': 96, 'class_timeout': 600}}
FLOOR = 200


def collect(tier, seed):
    rs = S.sweep(one, dict(OPTS[tier], seed=seed))
    cov = {'component_classes': len(rs), 'analysed': 0, 'approximated_only': 0, 'without_answer': 0, 'configurations': 0, 'output_input_pairs': 0, 'jacobian_entries_compared': 0, 'entries_without_information': 0, 'max_predicates_in_one_graph': 0}
    out, gaps = [], []
    for r in rs:
        if r['status'] == 'ok' and r['runs']:
            cov['analysed'] += 1
            cov['configurations'] += r['runs']
            cov['output_input_pairs'] += r['pairs']
            cov['jacobian_entries_compared'] += r['entries']
            cov['entries_without_information'] += r['nan']
            cov['max_predicates_in_one_graph'] = max(cov['max_predicates_in_one_graph'], r['gates'])
            if r['unsupported']:
                gaps.append('%s: %d configurations not interpreted (%s)' % (r['class'], r['unsupported'], r['errs'][:1]))
        elif r['status'] in ('approximated', 'matrix-free', 'no compute'):
            cov['approximated_only'] += 1
        else:
            cov['without_answer'] += 1
            gaps.append('%s: %s' % (r['class'], r['status'] if r['status'] != 'ok' else r['errs'][:1]))
        for b in r['viol']:
            out.append((r, b))
    cov['gaps'] = gaps
    err = None if cov['analysed'] >= FLOOR else 'only %d component classes could be analysed (floor %d)' % (cov['analysed'], FLOOR)
    return rs, out, cov, err


def describe(r, b):
    w = b.get('witness')
    s = 'd %s[%d] / d %s[%d] is %.6g in the value graph of compute, %.6g in the declared partial' % (b['of'], b['i'], b['wrt'], b['j'], b['true'].real, b['J'].real)
    if b['cfg']:
        s += ' (options %s)' % b['cfg']
    if b['frac'] < 1 and w:
        s += ' at ' + ', '.join('%s=%.5g' % (k[1] + ('[%d]' % k[2] if len(k) > 2 and k[2] else ''), v) for k, v in sorted(w.items(), key=str)[:8] if k[0] in ('in', 'opt'))
    return s


def finding(r, b):
    return {'key': '%s|%s|%s' % (r['class'].replace('aviary.', '', 1), b['of'], b['wrt']), 'msg': describe(r, b), 'declared_at': b['where'], 'class': r['class']}


def check(tier, seed):
    rs, out, cov, err = collect(tier, seed)
    cov['explanation'] = (
        'Interpreted setup/compute/compute_partials of every component class abstractly into gated value graphs, per option configuration; '
        'differentiated the graph of each output and compared it with the graph of each declared exact partial by random interpretation of the '
        'graphs (global value numbering), per truth assignment of the predicates.  Rule: a declared entry whose value number differs from the derivative of the output is reported.'
    )
    return {
        'findings': [finding(r, b) for r, b in out if b['declared']],
        'coverage': cov,
        'error': err,
        'assumptions': ['numpy/OpenMDAO calls behave as modelled in sa/models.py and sa/omodel.py', 'two different value graphs get equal value numbers with negligible probability', 'options come from the enumerated or symbolic domains; one array size (3 nodes, 2 engine types) stands for all'],
    }
