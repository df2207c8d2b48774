"""C17: a total counts each of its parts once.

The value graphs of the components of every model are differentiated and composed along the wiring of the model; each
total of masses, areas, forces, powers, flows or lengths is compared with the recorded list of its parts."""

from .. import totals as T

FLOOR = {'groups': 40, 'models': 900, 'links': 20000, 'rows': 9000}


def check(tier, seed):
    quick = tier == 'quick'
    table = T.load_table()
    rs = T.sweep({'cap': 60 if quick else 200, 'rand': 0 if quick else 30, 'seed': 1, 'table': table, 'limit': 240 if quick else 700})
    n = {k: sum(r[k] for r in rs) for k in ('links', 'rows', 'compared')}
    n['models'] = sum(r['n'] for r in rs)
    n['groups'] = sum(1 for r in rs if r['links'])
    out, seen = [], {}
    for r in rs:
        for (q, text), (what, where) in r['found'].items():
            seen.setdefault((q, text), []).append((r['class'], what, where))
    first = {}
    for (q, text), at in sorted(seen.items()):
        first.setdefault(q, []).append((text, at))
    for q, es in first.items():
        c, what, where = min(es[0][1], key=lambda x: len(x[0]))
        more = '; also: ' + '; '.join(t for t, _ in es[1:4]) if len(es) > 1 else ''
        out.append({'key': 'total:' + q, 'msg': '%s, computed by %s of %s, %s (model: %s)%s' % (q, where or '?', c, es[0][0], what or 'base', more)})
    cov = {
        'groups_analysed': n['groups'], 'models_built': n['models'], 'models_compared': n['compared'], 'links_of_sums': n['links'], 'parts_compared': n['rows'],
        'totals': len({q for r in rs for q in r['totals']}),
        'groups': {r['class']: {'models': r['n'], 'links': r['links'], 'totals': len(r['totals'])} for r in rs if r['links']},
        'not_analysed': {r['class']: sorted(r['errs'])[:2] for r in rs if not r['n']},
        'gaps': {r['class']: sorted(r['gaps'])[:4] for r in rs if r['gaps']},
        'explanation': 'For every group class and every option that changes its structure, the value graph of each component is differentiated with respect to the inputs of the '
        'same dimension (scalers at one); entries that are constant over all lanes are links of sums and are multiplied along the resolved wiring. '
        'Every total is then compared, part by part, with its recorded composition; no part may be counted more than once (except once per engine).',
    }
    low = ['%s=%s<%d' % (k, n.get(k, 0), v) for k, v in FLOOR.items() if n.get(k, 0) < v]
    return {
        'findings': out, 'coverage': cov, 'error': 'fewer obligations than expected: %s' % ', '.join(low) if low else None,
        'assumptions': ['the composition of each total recorded in data/totals.json is the intended one (reviewed by hand)',
                        'user scaling factors are one and margins zero, which is their neutral value'],
    }
