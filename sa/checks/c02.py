"""C02: every dependence of an output on an input is declared, in every configuration and entry of the sparsity pattern."""

from . import c01


def check(tier, seed):
    rs, out, cov, err = c01.collect(tier, seed)
    cov['explanation'] = (
        'Interpreted every component class abstractly into gated value graphs, per option configuration; an input atom with a derivative that is not '
        'identically zero in the graph of an output must be declared (exact or approximated) for it, and every nonzero (row, col) must lie in the declared sparsity pattern.'
    )
    f = []
    for r, b in out:
        if b['declared']:
            continue
        if r.get('nodecl') and '.utils.' in r['class']:
            continue  # run-only utility: never differentiated
        x = c01.finding(r, b)
        x['msg'] = 'output %s[%d] depends on input %s[%d] (derivative %.6g) but no partial is declared there%s' % (b['of'], b['i'], b['wrt'], b['j'], b['true'].real, ' (options %s)' % b['cfg'] if b['cfg'] else '')
        f.append(x)
    cov['exempt'] = [r['class'] for r in rs if r.get('nodecl') and '.utils.' in r['class']]
    return {'findings': f, 'coverage': cov, 'error': err, 'assumptions': ['as C01']}
