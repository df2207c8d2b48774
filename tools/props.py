"""Maintenance: writes properties.jsonl and MANIFEST.json from the table below (run by hand; no check reads this)."""
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CFG, INP, HIST, PROG = 'configurations', 'inputs', 'histories', 'programs'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, thorough=thorough))


VG = 'abstract interpretation of the source: gated value graphs + global value numbering by random interpretation'
VGNOTE = (
    "Static: /repo is parsed, never imported or run. Each component's setup/compute/partials code is abstractly "
    'interpreted per option configuration into a gated (if-converted) value graph; %s '
    'Fingerprints compare abstract values over a sampled partition of the graph (random interpretation, one-sided: '
    'no false alarms up to rounding, may miss). Trusts the numpy/OpenMDAO models in sa/. Classes or configurations the interpreter '
    'cannot model are counted in the evidence and stay quiet.'
)

prop('C01', 'Declared derivatives equal the derivatives of the computed outputs',
     'For every calculation component that supplies analytic derivatives, in every configuration of its options and at every input '
     'where the output is differentiable, each supplied derivative equals the true derivative of the output the component computes. '
     'This holds on every branch of the calculation (alternative formulas, clipped ranges, several engine models, smoothed forms), '
     'including branches no example aircraft takes.',
     [INP, CFG], 'all inputs and all option configurations of all components with hand-written derivatives',
     'Unit tests call check_partials at one or two points of one or two configurations of a component; most branches '
     '(engine counts, smooth modes, body tanks, unusual fineness, clipped ranges) are never differentiated.',
     ['aviary/subsystems', 'aviary/mission', 'aviary/utils'],
     [('compute / compute_partials / linearize pairs', 'aviary/subsystems/mass/flops_based/, gasp_based/, aerodynamics/, geometry/, propulsion/'),
      ('declare_partials with rows/cols/val', 'every ExplicitComponent.setup_partials')],
     VG + '; forward-mode differentiation of the graph compared with the graph of the declared Jacobian',
     VGNOTE % 'the graph of compute is differentiated symbolically and compared, entry by entry and per branch cell, with the graph of the declared partials.')

prop('C02', 'Every dependence of an output on an input is declared',
     'For every calculation component that declares its derivatives, whenever changing an input can change an output, a derivative of that '
     'output with respect to that input (and for that pair of array positions) is declared. No configuration makes an output silently depend '
     'on an input the optimizer is told it does not depend on.',
     [INP, CFG], 'all inputs, all option configurations, all array positions',
     'A missing declaration is only visible in a test that perturbs exactly that input in exactly that configuration; totals are checked in a handful of problems.',
     ['aviary/subsystems', 'aviary/mission', 'aviary/utils'],
     [('declare_partials sparsity patterns', 'every setup_partials / setup'), ('compute', 'every ExplicitComponent')],
     VG + '; dependence read off the differentiated graph, compared with the declared sparsity',
     VGNOTE % 'an input with a nonzero graph derivative that no declared Jacobian entry covers is reported.')

prop('C03', 'A calculation depends only on its current inputs and options',
     'The outputs and derivatives a calculation component returns are a function of its current inputs and options alone: results left over from '
     'earlier evaluations, from previous outputs or from values kept on the component never show through, and evaluating a component never '
     'alters its inputs.',
     [HIST, INP], 'all sequences of evaluations of a component',
     'Tests evaluate a component once (or at neighbouring points); staleness needs a second evaluation in another branch after the first.',
     ['aviary/subsystems', 'aviary/mission', 'aviary/utils'],
     [('outputs[...] / partials[...] assignments on every path', 'every compute / compute_partials'), ('attributes kept on self', 'components that store intermediate values')],
     'abstract interpretation: definite-assignment and taint of stale outputs, Jacobian entries, attributes through gated value graphs',
     VGNOTE % 'previous outputs, previous Jacobian entries and attributes left by the previous evaluation are tainted symbols; a result cell they reach is reported.')

NA = [
 ('R01', 'The optimized mission satisfies the equations of motion', 'A converged problem satisfies the collocation defects and boundary constraints of the chosen equations of motion within tolerance.',
  'convergence of a nonlinear program is a run-time numerical fact; no static argument in reach bounds the solver iterates'),
 ('R02', 'Sized aircraft reproduce the legacy reference codes', 'For the shipped validation aircraft, sized masses, areas and fuel agree with the FLOPS and GASP reference outputs within the documented tolerance.',
  'agreement with recorded reference numbers is a numerical comparison on particular data, decided by running'),
 ('R03', 'Off-design and reloaded missions agree with the sizing run', 'Running the design mission off-design from a saved sizing result reproduces the sizing fuel burn and range.',
  'equality of two optimisation outcomes; only execution can decide it'),
 ('R04', 'Engine decks are interpolated within their tabulated range', 'Between tabulated points the engine model reproduces the deck to interpolation accuracy and is monotone where the deck is.',
  'depends on table data read at run time and on interpolation error'),
]
exec(open(os.path.join(H, 'tools', 'props_more.py')).read()) if os.path.exists(os.path.join(H, 'tools', 'props_more.py')) else None

lines = []
for p in sorted(P, key=lambda p: p['id']):
    assert len(p['title']) <= 80, p['title']
    lines.append(json.dumps(dict(
        id=p['id'], title=p['title'], statement=p['statement'],
        quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
        anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))))
for i, t, s, r in NA:
    lines.append(json.dumps(dict(id=i, title=t, statement=s, quantifier=dict(over=[INP, CFG], text='all problems a user can set up'),
                                 why_tests_cant='Each bench test samples one aircraft and one mission.',
                                 anchors=dict(files=['aviary/core', 'aviary/mission', 'aviary/validation_cases'],
                                              mechanism=[dict(name='AviaryProblem run and validation benches', where='aviary/core/aviary_problem.py')]))))
open(os.path.join(H, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
man = dict(
    version=1,
    setup_cmd='python3-vt -c "import numpy"',
    checks=[dict(property=p['id'], quick_cmd='VERIF_TIER=quick python3-vt check.py ' + p['id'],
                 thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + p['id'],
                 technique=p['technique'], level='other', level_note=p['note']) for p in sorted(P, key=lambda p: p['id']) if p['technique']],
    not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if not p['technique']] + [dict(property=i, reason=r) for i, t, s, r in NA],
    notes='All checks are static: they parse /repo/aviary (SA_REPO overrides the location) and never import or execute it. No hooks in /repo.')
json.dump(man, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(lines), 'properties', len(man['checks']), 'claimed')
