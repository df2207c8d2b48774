"""C16: subsystems are wired so that every quantity reaches the places that use it.

The construction of each group (setup and configure, with the builders' groups inside) is interpreted abstractly for
every option that changes its structure; the resulting promotion and connection structure is resolved as OpenMDAO does,
and a set of rules decides on it."""

from .. import wiring as W

TEXT = {
    'two-outputs': 'two outputs under one name',
    'promotes-nothing': 'a promotion that matches nothing',
    'promoted-twice': 'a variable promoted under two names',
    'connect-unknown': 'a connection to or from a variable that does not exist',
    'connected-twice': 'an input with two sources',
    'duplicate-subsystem': 'two subsystems with one name',
    'promotes-unknown-subsystem': 'a promotion from a subsystem that does not exist',
    'same-system': 'a connection from a subsystem to itself',
    'hidden': 'an input of a component that nothing in the model and nobody outside can set',
    'bypassed': 'a computed quantity that does not reach a component of the model reading it',
    'crossed': 'links that fit better the other way round, by the names at both ends',
    'index': 'an entry of a vector that goes to the wrong one of the subsystems sharing it',
    'lost': 'a quantity the recorded interface of the group offers and that is not offered any more',
    'unfed': 'an input the recorded interface of the group computes inside and that now comes from outside',
    'units': 'a link between quantities of different dimension',
    'unsolved': 'an implicit output that no solver solves for',
    'order': 'a component that runs before the one that computes its input, without a solver over both',
}
FLOOR = {'groups': 55, 'models': 300, 'links': 4000}


def check(tier, seed):
    quick = tier == 'quick'
    table = W.load_table()
    rs = W.sweep({'cap': 24 if quick else 400, 'rand': 8 if quick else 150, 'seed': seed, 'table': table, 'limit': 200 if quick else 700})
    seen, out = set(), []
    n = {k: sum(r[k] for r in rs) for k in ('models', 'leaves', 'links', 'inputs', 'open')}
    n['groups'] = sum(1 for r in rs if r['models'])
    for r in rs:
        for k, (rule, text, what) in r['viol'].items():
            if k not in seen:
                seen.add(k)
                out.append({'key': k, 'msg': '%s (%s)%s' % (text, TEXT.get(rule, rule), ' with ' + what if what else '')})
    cov = {
        'groups_analysed': n['groups'], 'models_built': n['models'], 'components_placed': n['leaves'], 'inputs_resolved': n['inputs'], 'links_resolved': n['links'],
        'models_with_parts_unknown': n['open'],
        'groups': {r['class']: {'models': r['models'], 'links': r['links']} for r in rs if r['models']},
        'not_analysed': {r['class']: sorted(r['errs'])[:2] for r in rs if not r['models']},
        'gaps': {r['class']: sorted(r['gaps'])[:3] for r in rs if r['gaps']},
        'interfaces_compared': sum(1 for r in rs for w in r['iface'] if w in table.get(r['class'], ())),
        'rules': TEXT,
        'explanation': 'For every group class the construction code is interpreted abstractly (base options, every structural option one at a time in the context in which it appears, '
        'and random combinations); promotions, connections and execution order are resolved, and every input, output and link is checked with the rules listed.',
    }
    low = ['%s=%s<%d' % (k, n.get(k, 0), v) for k, v in FLOOR.items() if n.get(k, 0) < v]
    return {
        'findings': out, 'coverage': cov, 'error': 'fewer obligations than expected: %s' % ', '.join(low) if low else None,
        'assumptions': ['the engine models and subsystem groups inside a flight model are those the shipped builders return, or a stand-in engine with the documented interface',
                        'the model is judged with all its outputs computed, i.e. without values the user puts in place of computed ones',
                        'angle of attack is not both fixed by the ground and solved for'],
    }
