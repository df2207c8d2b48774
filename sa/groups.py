"""Abstract model of OpenMDAO groups: the tree that setup() builds, and which variable feeds which.

A group class is interpreted under one option configuration; its subsystems are instantiated and set
up recursively; promotions and connections are resolved as OpenMDAO resolves them."""

import ast
import fnmatch
import json
import os
import re

import numpy as np

from . import components as C
from . import interp as I
from . import models as M
from . import omodel as O
from . import terms as T
from . import units as U
from .interp import AbstractRaise, BoundMethod, ClassObj, FuncObj, InstObj, Opaque, PyFunc, Unsupported

SOLVERS_ITER = ('NewtonSolver', 'NonlinearBlockGS', 'NonlinearBlockJac', 'BroydenSolver')


class ExtComp:
    """a component of OpenMDAO itself"""

    def __init__(self, kind):
        self.kind = kind
        self.comp = O.Comp()
        self.attrs = {}
        self.given = {}
        self.open = False  # may have variables that are not known
        self.exprs = []  # (outputs, right-hand side) of an ExecComp, (output, {input: factor}) of an AddSubtractComp

    def add(self, name, kind, units=None, val=1.0, shape=None):
        tgt = self.comp.inputs if kind == 'input' else self.comp.outputs
        shape = M.norm_shape(shape) if shape is not None and not isinstance(shape, Opaque) else np.shape(O._numval(val)) or (1,)
        tgt[name] = O.Var(name, shape, units if not isinstance(units, Opaque) else None, O._numval(val), kind, {})

    def sa_getattr(self, ip, name):
        f = getattr(self, 'm_' + name, None)
        if f is not None:
            return PyFunc(f)
        if name in ('list_inputs', 'list_outputs'):
            g = listing(name[5:])
            return PyFunc(lambda *a, **k: g(ip, self, list(a), k))
        if name in self.attrs:
            return self.attrs[name]
        if name == 'options':
            self.attrs[name] = o = O.Options(self)
            return o
        return Opaque('%s.%s' % (self.kind, name))

    def sa_setattr(self, ip, name, v):
        self.attrs[name] = v

    # ExecComp
    def m_add_expr(self, expr, **kw):
        self.exec_(expr, kw)

    def exec_(self, exprs, kw):
        meta = {k: v for k, v in kw.items() if isinstance(v, dict)}
        common = {k: v for k, v in kw.items() if not isinstance(v, dict)}
        for e in [exprs] if isinstance(exprs, str) else exprs:
            if not isinstance(e, str):
                self.open = True
                continue
            outs, _, rhs = e.partition('=')
            try:
                tree = ast.parse(rhs.strip(), mode='eval')
            except SyntaxError:
                self.open = True
                continue
            calls = {id(n.func) for n in ast.walk(tree) if isinstance(n, ast.Call)}
            out = [o.strip() for o in outs.split(',')]
            self.exprs.append((out, tree.body))
            for n in ast.walk(tree):
                if isinstance(n, ast.Name) and id(n) not in calls and n.id not in ('pi', 'e', 'inf') and n.id not in self.comp.outputs and n.id not in out:
                    self.one(n.id, 'input', meta, common)
            for o in out:
                self.one(o, 'output', meta, common)

    def one(self, n, kind, meta, common):
        d = {**{k: v for k, v in common.items() if k in ('units', 'shape')}, **meta.get(n, {})}
        self.add(n, kind, d.get('units'), d.get('val', d.get('value', 1.0)), d.get('shape'))
        if kind == 'input' and ('val' in d or 'value' in d):
            self.given[n] = d.get('val', d.get('value'))

    # IndepVarComp, MetaModels, Mux
    def m_add_output(self, name, val=1.0, *a, **kw):
        self.add(name, 'output', kw.get('units'), val, kw.get('shape'))
        if self.kind.startswith('MetaModel') and isinstance(self.attrs.get('given'), dict) and self.attrs['given'].get('training_data_gradients'):
            self.add(name + '_train', 'input', kw.get('units'), kw.get('training_data', 1.0))

    def m_add_input(self, name, val=1.0, *a, **kw):
        self.add(name, 'input', kw.get('units'), val, kw.get('shape'))

    def m_add_discrete_output(self, name, *a, **kw):
        self.add(name, 'output')

    def m_add_balance(self, name, eq_units=None, lhs_name=None, rhs_name=None, rhs_val=None, use_mult=False, mult_name=None, normalize=True, val=None, **kw):
        self.add(name, 'output', kw.get('units'), val if val is not None else 1.0, kw.get('shape'))
        shape = self.comp.outputs[name].shape
        self.add(lhs_name or 'lhs:' + name, 'input', eq_units, 1.0, shape)
        self.add(rhs_name or 'rhs:' + name, 'input', eq_units, 0.0 if rhs_val is None else rhs_val, shape)
        if rhs_val is not None:
            self.given[rhs_name or 'rhs:' + name] = rhs_val
        self.comp.outputs[name].rhs_default = True
        if use_mult:
            self.add(mult_name or 'mult:' + name, 'input', None, 1.0, shape)

    def m_add_eq_output(self, name, eq_units=None, lhs_name=None, rhs_name=None, rhs_val=0.0, use_mult=False, mult_name=None, normalize=True, add_constraint=False, **kw):
        self.add(name, 'output', None, 1.0, kw.get('shape'))
        self.add(lhs_name or 'lhs:' + name, 'input', eq_units)
        self.add(rhs_name or 'rhs:' + name, 'input', eq_units, rhs_val)
        if use_mult:
            self.add(mult_name or 'mult:' + name, 'input')

    def m_add_equation(self, output_name, input_names, vec_size=1, length=1, val=1.0, units=None, **kw):
        f = kw.get('scaling_factors')
        self.exprs.append(([output_name], dict(zip(input_names, f if isinstance(f, (list, tuple)) else [1.0] * len(input_names)))))
        self.add(output_name, 'output', units, val, (vec_size,) if length == 1 else (vec_size, length))
        for n in input_names:
            self.add(n, 'input', units, val, (vec_size,) if length == 1 else (vec_size, length))

    def m_add_var(self, name, val=1.0, shape=None, units=None, desc='', axis=0, **kw):
        n = self.attrs.get('given', {}).get('vec_size', 2)
        many, one = ('input', 'output') if self.kind == 'MuxComp' else ('output', 'input')
        for i in range(n if isinstance(n, int) else 2):
            self.add('%s_%d' % (name, i), many, units, val, shape)
        self.add(name, one, units)

    def m_declare_partials(self, *a, **k):
        return None

    def m_add_constraint(self, *a, **k):
        return None


def ext_new(kind):
    def new(ip, a, k):
        c = ExtComp(kind)
        c.attrs['given'] = dict(k)
        if kind == 'ExecComp':
            kw = {x: v for x, v in k.items() if x not in ('has_diag_partials', 'shape_by_conn', 'do_coloring')}
            if a:
                c.exec_(a[0], kw)
        elif kind in ('IndepVarComp',) and (a or 'name' in k):
            c.m_add_output(*a, **k)
        elif kind == 'BalanceComp' and (a or 'name' in k):
            c.m_add_balance(*a, **k)
        elif kind == 'EQConstraintComp' and (a or 'name' in k):
            c.m_add_eq_output(*a, **k)
        elif kind == 'AddSubtractComp' and a:
            c.m_add_equation(*a, **k)
        elif kind == 'KSComp':
            w = k.get('width', 1)
            c.add('g', 'input', k.get('units'), 1.0, (w,) if isinstance(w, int) else None)
            c.add('KS', 'output', k.get('units'))
        elif kind == 'Opaque':
            c.open = True
        return c

    return new


KINDS = ('ExecComp', 'IndepVarComp', 'BalanceComp', 'EQConstraintComp', 'MetaModelStructuredComp', 'MetaModelSemiStructuredComp', 'MuxComp', 'DemuxComp', 'KSComp',
         'AddSubtractComp', 'SplineComp')


class Solver:
    def __init__(self, kind):
        self.kind = kind
        self.attrs = {}

    def sa_getattr(self, ip, name):
        if name == 'options':
            return self.attrs.setdefault('options', {})
        return self.attrs.get(name, Opaque('solver.' + name))

    def sa_setattr(self, ip, name, v):
        self.attrs[name] = v


class GInfo:
    def __init__(self):
        self.children = {}  # name -> object
        self.proms = {}  # name -> {'any': [...], 'inputs': [...], 'outputs': [...]}
        self.conns = []
        self.defaults = []
        self.where = {}
        self.problems = []


def ginfo(o):
    g = getattr(o, 'ginfo', None)
    if g is None:
        g = o.ginfo = GInfo()
    return g


def listed(ip, x):
    if x is None:
        return []
    if isinstance(x, str):
        return [x]
    if isinstance(x, tuple) and len(x) == 2 and all(isinstance(e, str) for e in x):
        return [x]
    out = []
    if isinstance(x, Opaque):
        return [Opaque('promotes')]
    for e in ip.iter(x) if hasattr(ip, 'iter') else list(x):
        out.append(e)
    return out


def add_subsystem(ip, o, a, k):
    d = dict(zip(['name', 'subsys', 'promotes', 'promotes_inputs', 'promotes_outputs', 'min_procs', 'max_procs', 'proc_weight', 'proc_group'], a))
    d.update(k)
    g = ginfo(o)
    n = d['name']
    if isinstance(n, Opaque) or not isinstance(n, str):
        raise Unsupported('subsystem name')
    if n in g.children:
        g.problems.append(('duplicate-subsystem', n, ip.where()))
    s = d.get('subsys')
    g.children[n] = s
    g.where[n] = ip.where()
    g.proms[n] = {'any': listed(ip, d.get('promotes')), 'inputs': listed(ip, d.get('promotes_inputs')), 'outputs': listed(ip, d.get('promotes_outputs'))}
    if isinstance(s, (InstObj, ExtComp, PlainGroup)):
        s.attrs['name'] = n
        s.attrs['pathname'] = n
    o.attrs[n] = s
    return s


def promotes(ip, o, a, k):
    d = dict(zip(['subsys_name', 'any', 'inputs', 'outputs', 'src_indices', 'flat_src_indices', 'src_shape'], a))
    d.update(k)
    g = ginfo(o)
    n = d['subsys_name']
    if n not in g.proms:
        g.problems.append(('promotes-unknown-subsystem', n, ip.where()))
        return None
    for x in ('any', 'inputs', 'outputs'):
        g.proms[n][x] += listed(ip, d.get(x))
    if d.get('src_indices') is not None:
        for e in [e if isinstance(e, str) else e[0] for x in ('any', 'inputs') for e in listed(ip, d.get(x))]:
            g.proms[n].setdefault('indexed', {})[e] = d['src_indices']
    return None


def connect(ip, o, a, k):
    d = dict(zip(['src_name', 'tgt_name', 'src_indices', 'flat_src_indices'], a))
    d.update(k)
    g = ginfo(o)
    ts = d['tgt_name']
    for t in [ts] if isinstance(ts, str) else listed(ip, ts):
        g.conns.append((d['src_name'], t, d.get('src_indices'), ip.where()))
    return None


def set_input_defaults(ip, o, a, k):
    d = dict(zip(['name', 'val', 'units', 'src_shape'], a))
    d.update(k)
    ginfo(o).defaults.append((d['name'], d.get('units'), ip.where()))


def _init_group(ip, o, a, k):
    O._init_comp(ip, o, a, k)
    o.attrs.pop('under_complex_step', None)
    o.attrs['nonlinear_solver'] = None
    o.attrs['linear_solver'] = None
    o.attrs['_problem_meta'] = Opaque('pm')
    ginfo(o)


def set_order(ip, o, a, k):
    g = ginfo(o)
    names = list(a[0])
    if set(names) == set(g.children):
        g.children = {n: g.children[n] for n in names}


_gm = {
    '__init__': _init_group, 'add_subsystem': add_subsystem, 'promotes': promotes, 'connect': connect, 'set_input_defaults': set_input_defaults,
    'set_order': set_order, 'initialize': O._noop, 'setup': O._noop, 'configure': O._noop, 'add_constraint': O._noop, 'add_design_var': O._noop, 'add_objective': O._noop,
    'add_recorder': O._noop, 'approx_totals': O._noop, 'set_check_partial_options': O._noop,
    'list_inputs': lambda *a: listing('inputs')(*a), 'list_outputs': lambda *a: listing('outputs')(*a), '_get_subsystem': lambda *a: get_subsystem(*a),
}
GROUPS = O.GROUPS + ('openmdao.api.ParallelGroup',)


def install(ip):
    for b in GROUPS:
        M.BASE[b] = dict(_gm)
    ip.ext_base_methods = M.BASE
    ip.ext_attrs = set(json.load(open(os.path.join(os.path.dirname(__file__), '..', 'data', 'om_attrs.json'))))
    for b in M.BASE:
        if b not in GROUPS:
            M.BASE[b] = {**M.BASE[b], 'list_inputs': listing('inputs'), 'list_outputs': listing('outputs')}
    for b in ('openmdao.api.Group', 'openmdao.api.ParallelGroup', 'openmdao.core.group.Group'):
        ip.externals[b] = lambda ip, a, k: PlainGroup()
    for kind in KINDS:
        ip.externals['openmdao.api.' + kind] = ext_new(kind)
    for s in SOLVERS_ITER + ('DirectSolver', 'LinearBlockGS', 'NonlinearRunOnce', 'LinearRunOnce', 'BoundsEnforceLS', 'ArmijoGoldsteinLS', 'PETScKrylov', 'LinearBlockJac', 'ScipyKrylov'):
        ip.externals['openmdao.api.' + s] = (lambda kk: lambda ip, a, k: Solver(kk))(s)


def is_group(cls):
    return isinstance(cls, ClassObj) and any(b in GROUPS for b in cls.external_bases())


def group_classes(ip):
    out = []
    for mn in C.module_names(ip.repo):
        path = ip.find_module(mn)
        if not path:
            continue
        src = open(path, encoding='utf-8').read()
        if 'Group' not in src and 'ODE' not in src:
            continue
        m = ip.module(mn)
        for name, v in list(m.env.items()):
            if isinstance(v, ClassObj) and v.module is m and is_group(v):
                out.append(v)
    return out


# ------------------------------------------------------------------ building


class AV:
    """the aircraft's AviaryValues: options have the values of the configuration, inputs their defaults"""

    def __init__(self, given):
        self.given = given

    def value(self, ip, name):
        if isinstance(name, Opaque) or not isinstance(name, str):
            raise Unsupported('opaque key')
        if name in self.given:
            return self.given[name], None
        md = ip.core_meta().get(name)
        if md is None:
            raise AbstractRaise(I.ExcObj('KeyError', [name]))
        if md['option']:
            vs = O.domain(name, {'meta': md, 'units': md['units'], 'default': md['default_value'], 'aviary': True}, ip.world, 'conc')
            v = self.given[name] = vs[0] if vs else md['default_value']
            return v, md['units']
        return md['default_value'], md['units']

    def get_val(self, ip, name, units='unitless'):
        v = self.value(ip, name)[0]
        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], str):
            v = v[0]
        return v

    def sa_getattr(self, ip, name):
        if name == 'get_val':
            return PyFunc(lambda n, units='unitless': self.get_val(ip, n))
        if name == 'get_item':
            return PyFunc(lambda n, default=(None, None): (self.get_val(ip, n), self.value(ip, n)[1]))
        if name in ('set_val', 'update', 'delete'):
            return PyFunc(lambda *a, **k: None)
        if name in ('deepcopy', 'copy'):
            return PyFunc(lambda *a, **k: self)
        raise AbstractRaise(I.ExcObj('AttributeError', [name]))

    def sa_contains(self, ip, name):
        md = ip.core_meta().get(name)
        return name in self.given or md is not None and bool(md['option'])


def Engine(ip, name='engine', max_values=True, hybrid=False, shaft=False, rpm=False, extra=None):
    """a turbofan deck: its mission part is the performance table"""
    cls = ip.get_global('aviary.subsystems.propulsion.engine_model', 'EngineModel')
    e = InstObj(cls)

    def const(v):
        return PyFunc(lambda *a, **k: v() if callable(v) else v)

    def pre(*a, **k):
        if extra is not None:
            c = ExtComp('EnginePre')
            E = ip.getattr(ip.get_global('aviary.variable_info.variables', 'Aircraft'), 'Engine')
            c.add(ip.getattr(E, 'REFERENCE_SLS_THRUST'), 'input', 'lbf', 1.0, (1,))
            c.add(ip.getattr(E, 'SCALED_SLS_THRUST'), 'output', 'lbf', 1.0, (1,))
            if extra:
                c.add(ip.getattr(E, 'MASS'), 'output', 'lbm', 1.0, (1,))
            return c
        return ip.instantiate(ip.get_global('aviary.subsystems.propulsion.engine_sizing', 'SizeEngine'), [], {})

    e.attrs.update({
        'name': name, 'compute_max_values': max_values, 'use_hybrid_throttle': hybrid, 'use_thrust': True, 'meta_data': ip.core_meta(),
        'build_mission': PyFunc(lambda num_nodes=None, **k: engine_mission(ip, num_nodes, max_values, hybrid, shaft, rpm)), 'build_pre_mission': PyFunc(pre),
        'needs_mission_solver': const(True),
    })
    for n in ('get_parameters', 'get_states', 'get_controls', 'get_constraints', 'get_initial_guesses', 'get_design_vars', 'get_pre_mission_bus_variables'):
        e.attrs[n] = const(dict)
    for n in ('get_linked_variables', 'get_mass_names', 'get_timeseries', 'get_outputs'):
        e.attrs[n] = const(list)
    return e


def engine_mission(ip, nn, max_values, hybrid, shaft=False, rpm=False):
    v = ip.get_global('aviary.variable_info.variables', 'Dynamic')
    c = ExtComp('Engine')
    P = 'vehicle:propulsion:'

    def name(path):
        cur = v
        for x in path.split('.'):
            cur = ip.getattr(cur, x)
        return cur

    for p, u in (('Atmosphere.MACH', 'unitless'), ('Mission.ALTITUDE', 'ft'), ('Vehicle.Propulsion.THROTTLE', 'unitless')):
        c.add(name(p), 'input', u, 1.0, (nn,))
    if hybrid:
        c.add(name('Vehicle.Propulsion.HYBRID_THROTTLE'), 'input', 'unitless', 1.0, (nn,))
    outs = [('THRUST', 'lbf'), ('FUEL_MASS_FLOW_RATE_NEGATIVE', 'lbm/h'), ('ELECTRIC_POWER_IN', 'kW'), ('NOX_RATE', 'lbm/h'), ('TEMPERATURE_T4', 'degR')]
    if max_values:
        outs.append(('THRUST_MAX', 'lbf'))
    if shaft:
        outs = [('SHAFT_POWER_MAX' if x == 'THRUST_MAX' else x, 'hp' if x == 'THRUST_MAX' else u) for x, u in outs] + [('SHAFT_POWER', 'hp')]
    if rpm:
        outs.append(('RPM', 'rpm'))
    for p, u in outs:
        c.add(name('Vehicle.Propulsion.' + p), 'output', u, 1.0, (nn,))
    return c


def supply(ip, cls, o, given, spec):
    """values of the options of an analysis group that hold objects"""
    opts = o.attrs['options']
    for n in opts.decl:
        if n in ('aviary_options', 'aviary_inputs'):
            opts.vals[n] = AV(given)
        elif n == 'subsystems':
            opts.vals[n] = builders(ip, spec)
        elif n == 'subsystem_options':
            opts.vals[n] = {'aerodynamics': dict(spec['aero'])} if spec.get('aero') else {}
        elif n == 'mission_info' and not isinstance(given.get(n), dict):
            opts.vals[n] = {}
        elif n == 'engine_models':
            opts.vals[n] = engines(ip, spec)
        elif n == 'shaft_power_model':
            opts.vals[n] = Engine(ip, 'shaft', shaft=True, rpm=spec.get('rpm', False))
        elif n == 'propeller_model':
            opts.vals[n] = ip.instantiate(ip.get_global('aviary.subsystems.propulsion.propeller.propeller_builder', 'PropellerBuilder'), [], {})
        elif n == 'gearbox_model':
            opts.vals[n] = ip.instantiate(ip.get_global('aviary.subsystems.propulsion.gearbox.gearbox_builder', 'GearboxBuilder'), [], {}) if spec.get('gearbox', True) else None
        elif n == 'process_overrides':
            opts.vals[n] = False
        elif n == 'friction_key':
            v = ip.get_global('aviary.variable_info.variables', 'Mission')
            opts.vals[n] = ip.getattr(ip.getattr(v, 'Takeoff'), spec.get('friction', 'ROLLING_FRICTION_COEFFICIENT'))


def engines(ip, spec):
    return [Engine(ip, 'engine_%d' % i, spec.get('max_values', True), spec.get('hybrid', False), extra=i == 0 if spec.get('uneven') else None) for i in range(spec.get('n_eng', 1))]


def builders(ip, spec):
    if 'pre' in spec:
        L = ip.get_global('aviary.variable_info.enums', 'LegacyCode')
        m, a = (ip.getattr(L, c) for c in spec['pre'])
        g = m if m is a else (ip.getattr(L, 'FLOPS'), ip.getattr(L, 'GASP'))

        def b(mod, cls, **k):
            return ip.instantiate(ip.get_global('aviary.subsystems.' + mod, cls), [], k)

        return [
            b('propulsion.propulsion_builder', 'CorePropulsionBuilder', engine_models=engines(ip, spec)),
            b('geometry.geometry_builder', 'CoreGeometryBuilder', code_origin=g, code_origin_to_prioritize=a if spec.get('first', 'aero') == 'aero' else m),
            b('energy.energy_builder', 'CoreEnergyBuilder'),
            b('mass.mass_builder', 'CoreMassBuilder', code_origin=m),
            b('aerodynamics.aerodynamics_builder', 'CoreAerodynamicsBuilder', code_origin=a),
            b('performance.performance_builder', 'CorePerformanceBuilder'),
        ]
    code = ip.getattr(ip.get_global('aviary.variable_info.enums', 'LegacyCode'), spec.get('code', 'FLOPS'))
    aero = ip.get_global('aviary.subsystems.aerodynamics.aerodynamics_builder', 'CoreAerodynamicsBuilder')
    prop = ip.get_global('aviary.subsystems.propulsion.propulsion_builder', 'CorePropulsionBuilder')
    return [ip.instantiate(aero, [], {'code_origin': code}), ip.instantiate(prop, [], {'engine_models': engines(ip, spec)})]


def cname(l):
    return l.cls.name if l.cls else l.path.split('.')[-1]


class Leaf:
    def __init__(self, path, obj, comp, cls, open_, where):
        self.path, self.obj, self.comp, self.cls, self.open, self.where = path, obj, comp, cls, open_, where


class Level:
    """a system seen from its parent: names of its variables -> leaf variables"""

    def __init__(self):
        self.ins, self.outs = {}, {}
        self.open = False


class Tree:
    def __init__(self):
        self.leaves = []
        self.problems = []  # (rule, where, text)
        self.src = {}  # (leaf index, input name) -> (leaf index, output name, indexed)
        self.top = None
        self.decl = {}  # options declared anywhere: name -> decl
        self.read = {}
        self.iter_ = []  # paths of groups with an iterating solver
        self.hidden = []
        self.order = []
        self.links = {}
        self.auto = []
        self.groups = {}
        self.prom = {}
        self.index = {}  # (leaf index, input name) -> [(group path, subsystem, name, indices, group)]
        self.alias = {}  # (leaf index, variable) -> promotions on the way up


def set_options(ip, o, given):
    """aviary options have one value all over the model"""
    opts = o.attrs.get('options')
    if isinstance(opts, O.Options):
        for n, d in opts.decl.items():
            if d.get('aviary'):
                if n not in given:
                    vs = O.domain(n, d, ip.world, 'conc')
                    given[n] = vs[0] if vs else d.get('default')
                opts.vals[n] = given[n]
    return opts


def ancestors(ip, o):
    return o.cls.module.name.replace('aviary.', '', 1) + '.' + o.cls.name


class Node:
    """a group under construction"""

    def __init__(self, o, path, me):
        self.o, self.path, self.me = o, path, me
        self.kids = {}
        self.open = False


def build(ip, o, given, tree, path=''):
    """set up a group instance and everything below it, then configure from the bottom up"""
    opts = set_options(ip, o, given)
    if isinstance(opts, O.Options):
        for n, d in opts.decl.items():
            tree.decl.setdefault(n, d)
    m = o.cls.lookup('setup')[0] if isinstance(o, InstObj) else None
    if isinstance(m, FuncObj):
        ip.call(BoundMethod(m, o), [], {})
    if isinstance(opts, O.Options):
        for n in opts.reads:
            tree.read.setdefault(n, set()).add(ancestors(ip, o))
    g = ginfo(o)
    me = ancestors(ip, o)
    node = o.gnode = Node(o, path, me)
    for n, s in list(g.children.items()):
        p = path + n
        w = g.where.get(n)
        if is_group_obj(s):
            node.kids[n] = build(ip, s, given, tree, p + '.')
        elif isinstance(s, InstObj) and O.is_comp(s.cls):
            set_options(ip, s, given)
            so = s.attrs['options']
            for x, d in so.decl.items():
                tree.decl.setdefault(x, d)
            for meth in ('setup', 'setup_partials'):
                mm = s.cls.lookup(meth)[0]
                if isinstance(mm, FuncObj):
                    try:
                        ip.call(BoundMethod(mm, s), [], {})
                    except Unsupported as e:
                        if meth == 'setup':
                            s.open = True
                            tree.problems.append(('gap', w, '%s.setup: %s' % (s.cls.name, e)))
            node.kids[n] = leaf(tree, Leaf(p, s, O.comp_of(s), s.cls, getattr(s, 'open', False), (me, w)))
        elif isinstance(s, ExtComp):
            node.kids[n] = leaf(tree, Leaf(p, s, s.comp, None, s.open, (me, w)))
        else:
            node.kids[n] = None
            if not (isinstance(s, InstObj) and any(b.split('.')[-1] in KINDS for b in s.cls.external_bases())):
                tree.problems.append(('gap', w, 'unknown subsystem %s: %r' % (n, s)))
        if isinstance(s, (InstObj, ExtComp)):
            s.up = (node, n)
    m = o.cls.lookup('configure')[0] if isinstance(o, InstObj) else None
    if isinstance(m, FuncObj):
        try:
            ip.call(BoundMethod(m, o), [], {})
        except (Unsupported, AbstractRaise) as e:
            tree.problems.append(('gap', me, 'configure: %s' % e))
            node.open = True
    return node


def is_group_obj(s):
    return isinstance(s, InstObj) and is_group(s.cls) or isinstance(s, PlainGroup)


class PlainGroup:
    """om.Group()"""

    class cls:
        name = 'Group'

        class module:
            name = 'aviary.openmdao'

    def __init__(self):
        self.attrs = {'nonlinear_solver': None, 'linear_solver': None, 'options': {}}

    def sa_getattr(self, ip, name):
        if name in _gm:
            f = _gm[name]
            return PyFunc(lambda *a, **k: f(ip, self, list(a), k))
        if name in self.attrs:
            return self.attrs[name]
        raise AbstractRaise(I.ExcObj('AttributeError', [name]))

    def sa_setattr(self, ip, name, v):
        self.attrs[name] = v


def inside(leaf, group):
    return leaf[len(group) :].split('.')[0]


def finalize(ip, node, tree):
    """-> Level of the group"""
    g = ginfo(node.o)
    levels = {}
    for n, k in node.kids.items():
        if isinstance(k, Node):
            levels[n] = finalize(ip, k, tree)
        elif k is None or node.open:
            levels[n] = k if k is None else leaf_level(tree, k)
            if k is None:
                levels[n] = Level()
            levels[n].open = True
        else:
            levels[n] = leaf_level(tree, k)
    for rule, x, w in g.problems:
        tree.problems.append((rule, (node.me, w), str(x)))
    nl = node.o.attrs.get('nonlinear_solver')
    if isinstance(nl, Solver) and nl.kind in SOLVERS_ITER or isinstance(nl, Opaque):
        tree.iter_.append(node.path)
    oo = node.o.attrs.get('options')
    if (oo.vals if isinstance(oo, O.Options) else oo or {}).get('auto_order'):
        tree.auto.append(node.path)
    tree.groups[node.path] = node
    return resolve(ip, node.o, g, levels, tree, node.path, node.me)


def leaf(tree, l):
    l.index = len(tree.leaves)
    tree.leaves.append(l)
    return l


def listing(which):
    def f(ip, o, a, k):
        up = getattr(o, 'up', None)
        sub = getattr(o, 'gnode', None)
        tree = ip.gtree
        trial = Tree()
        trial.leaves = tree.leaves
        if sub is not None:
            lv = finalize(ip, sub, trial)
            pre = sub.path
            if sub.open or lv.open:
                raise Unsupported('variables of an unknown system')
        elif up is not None:
            l = up[0].kids[up[1]]
            lv = leaf_level(trial, l)
            pre = l.path + '.'
            if l.open:
                raise Unsupported('variables of an unknown system')
        else:
            raise Unsupported('list_%s before setup' % which)
        out = {}
        names = {}
        for prom, ls in (lv.ins if which == 'inputs' else lv.outs).items():
            for x in ls:
                names[x] = prom
        # inputs fed inside are listed too, by their promoted name inside the system
        if which == 'inputs' and sub is not None:
            for (i, n), src in trial.src.items():
                names.setdefault((i, n), trial.prom.get((i, n), n))
        for (i, n), prom in sorted(names.items()):
            l = tree.leaves[i]
            v = (l.comp.inputs if which == 'inputs' else l.comp.outputs)[n]
            out[(l.path + '.' + n)[len(pre):]] = {'prom_name': prom, 'units': v.units, 'shape': v.shape, 'val': v.val, 'tags': set(), 'desc': ''}
        if k.get('return_format') == 'dict':
            return out
        return list(out.items())

    return f


def get_subsystem(ip, o, a, k):
    cur = o
    for part in a[0].split('.'):
        g = getattr(cur, 'ginfo', None)
        cur = g.children.get(part) if g else None
        if cur is None:
            return None
    return cur


def leaf_level(tree, leaf):
    i = leaf.index
    lv = Level()
    lv.ins = {n: [(i, n)] for n in leaf.comp.inputs}
    lv.outs = {n: [(i, n)] for n in leaf.comp.outputs}
    lv.open = leaf.open
    return lv


def resolve(ip, o, g, levels, tree, path, me):
    top = Level()
    for n, lv in levels.items():
        top.open |= lv.open
        spec = g.proms[n]
        mapping = {}  # ('in'|'out', name) -> alias
        for kind in ('any', 'inputs', 'outputs'):
            for e in spec[kind]:
                if isinstance(e, Opaque):
                    top.open = True
                    lv.open = True
                    continue
                pat, alias = (e, None) if isinstance(e, str) else (e[0], e[1]) if isinstance(e, (tuple, list)) and len(e) >= 2 else (None, None)
                if not isinstance(pat, str):
                    top.open = True
                    continue
                wild = any(c in pat for c in '*?[')
                hit = False
                for io, names in (('in', lv.ins), ('out', lv.outs)):
                    if kind == 'inputs' and io == 'out' or kind == 'outputs' and io == 'in':
                        continue
                    cand = [x for x in names if (fnmatch.fnmatchcase(x, pat) if wild else x == pat)]
                    for x in cand:
                        hit = True
                        if wild:
                            mapping.setdefault((io, x), (x, True))
                        else:
                            old = mapping.get((io, x))
                            if old and not old[1] and old[0] != (alias or x):
                                tree.problems.append(('promoted-twice', (me, g.where.get(n)), '%s of %s as %s and %s' % (x, n, old[0], alias or x)))
                            mapping[(io, x)] = (alias or x, False)
                if not hit and not lv.open and pat != '*':
                    tree.problems.append(('promotes-nothing', (me, g.where.get(n)), "%s %r of %s matches no variable" % ('promotes' if kind == 'any' else 'promotes_' + kind, pat, n)))
        for io, names, tgt in (('in', lv.ins, top.ins), ('out', lv.outs, top.outs)):
            for x, leaves in names.items():
                al = mapping.get((io, x))
                name = al[0] if al else n + '.' + x
                ix = spec.get('indexed', {})
                for l in leaves:
                    tree.prom[l] = name
                    if al:
                        tree.alias.setdefault(l, []).append((path, n, x, name))
                    if io == 'in' and x in ix:
                        tree.index.setdefault(l, []).append((path, n, x, ix[x], me))
                tgt.setdefault(name, []).extend(leaves)
    for name, ls in top.outs.items():
        if len(ls) > 1:
            tree.problems.append(('two-outputs', (me, None), '%s is computed by %s' % (name, ' and '.join(sorted(tree.leaves[i].path + '.' + x for i, x in ls))), '%s from %s' % (name, ' and '.join(sorted(cname(tree.leaves[i]) for i, x in ls)))))
    connected = set()
    for s, t, idx, w in g.conns:
        if not isinstance(s, str) or not isinstance(t, str):
            top.open = True
            continue
        so = top.outs.get(s)
        ti = top.ins.get(t)
        if so is None and not top.open:
            if s not in top.ins:
                tree.problems.append(('connect-unknown', (me, w), 'the source %s of a connection does not exist' % s))
        if ti is None and not top.open:
            tree.problems.append(('connect-unknown', (me, w), 'the target %s of a connection does not exist' % t))
        if ti:
            connected.add(t)
            if so and any(inside(tree.leaves[a[0]].path, path) == inside(tree.leaves[b[0]].path, path) for a in so for b in ti):
                tree.problems.append(('same-system', (me, w), 'the subsystem of %s computes it' % t))
            if so:
                for leaf in ti:
                    if leaf in tree.src:
                        tree.problems.append(('connected-twice', (me, w), t))
                    tree.src[leaf] = so[0] + (idx,)
                    if idx is not None:
                        tree.index.setdefault(leaf, []).append((path, None, s, idx, me))
            else:
                for leaf in ti:
                    tree.links[leaf] = s
    indexed = {k: v for n in g.proms for k, v in g.proms[n].get('indexed', {}).items()}
    for name, ls in list(top.ins.items()):
        if name in top.outs:
            for leaf in ls:
                if leaf not in tree.src:
                    tree.src[leaf] = top.outs[name][0] + (indexed.get(name),)
    # what stays visible above: inputs that are fed already are not
    lv = Level()
    lv.open = top.open
    for name, ls in top.ins.items():
        rest = [x for x in ls if x not in tree.src and x not in tree.links]
        if rest and name not in top.outs:
            lv.ins[name] = rest
    lv.outs = dict(top.outs)
    return lv


def make(ip, cls, cfg, given, kwargs=None, spec=None):
    """instantiate and build a root group"""
    ip.events = []
    ip.hier_uses = []
    ip.steps = 0
    o = ip.instantiate(cls, [], dict(kwargs or {}))
    opts = o.attrs['options']
    for k, v in cfg.items():
        opts.vals[k] = v
    t = Tree()
    t.root = o
    t.given = {**given, **cfg}
    supply(ip, cls, o, t.given, spec or {})
    if (spec or {}).get('synth'):
        sp = ip.getattr(ip.get_global('aviary.variable_info.enums', 'SpeedType'), 'MACH')
        ip.call(ip.getattr(o, 'add_atmosphere'), [], {'input_speed_type': sp})
        ip.call(ip.getattr(o, 'add_subsystems'), [], {})
    ip.gtree = t
    t.top = finalize(ip, build(ip, o, t.given, t), t)
    return t
