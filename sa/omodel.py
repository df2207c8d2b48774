"""Abstract model of OpenMDAO components: options, inputs, outputs, declared partials."""

import ast
import fnmatch
import hashlib
import itertools
import os
import random

import numpy as np

from . import interp as I
from . import models as M
from . import terms as T
from . import units as U
from .terms import Term
from .interp import AbstractRaise, ClassObj, EnumClass, EnumMember, ExcObj, External, FuncObj, BoundMethod, InstObj, Opaque, PyFunc, PyMethod, Unsupported, to_obj, objarray, is_arr, is_num, concrete, opq_term, _UF

EXPL = ('openmdao.api.ExplicitComponent', 'openmdao.core.explicitcomponent.ExplicitComponent')
IMPL = ('openmdao.api.ImplicitComponent', 'openmdao.core.implicitcomponent.ImplicitComponent')
GROUPS = ('openmdao.api.Group', 'openmdao.core.group.Group')


class Options:
    """om.OptionsDictionary"""

    def __init__(self, owner, given=None):
        self.owner = owner
        self.decl = {}
        self.vals = {}
        self.given = given or {}
        self.reads = set()

    def declare(self, ip, a, k):
        names = ['name', 'default', 'values', 'types', 'desc', 'upper', 'lower', 'check_valid', 'allow_none', 'recordable', 'set_function', 'deprecation']
        d = dict(zip(names, a))
        d.update(k)
        name = d['name']
        self.decl[name] = d
        if 'default' in d:
            self.vals[name] = d['default']
        if name in self.given:
            self.vals[name] = self.given[name]

    def sa_getitem(self, ip, k):
        k = ip.key(k)
        self.reads.add(k)
        if k not in self.vals:
            if k in self.decl:
                return Opaque('option %s has no value' % k)
            ip.events.append(('undeclared-option', k, ip.where()))
            raise AbstractRaise(ExcObj('KeyError', ['option %s not declared' % k]))
        return self.vals[k]

    def sa_setitem(self, ip, k, v):
        self.vals[ip.key(k)] = v
        if k not in self.decl:
            self.decl[k] = {'name': k}

    def sa_contains(self, ip, k):
        return ip.key(k) in self.decl

    def sa_iter(self, ip):
        return list(self.decl)

    def sa_getattr(self, ip, name):
        if name == 'declare':
            return PyFunc(lambda *a, **k: self.declare(ip, a, k))
        if name == 'update':
            return PyFunc(lambda d: [self.sa_setitem(ip, k, v) for k, v in d.items()] and None)
        if name == 'items':
            return PyFunc(lambda: [(k, self.vals.get(k)) for k in self.decl])
        if name == 'keys':
            return PyFunc(lambda: list(self.decl))
        return Opaque('options.' + name)


class Var:
    def __init__(self, name, shape, units, val, kind, kw):
        self.name, self.shape, self.units, self.val, self.kind, self.kw = name, shape, units, val, kind, kw
        self.size = int(np.prod(shape)) if shape else 1


class Comp:
    """what setup() declared"""

    def __init__(self):
        self.inputs = {}
        self.outputs = {}
        self.independent = set()
        self.partials = {}  # (of, wrt) -> dict(rows, cols, val, method, dependent)
        self.decl_order = []
        self.mappings = []
        self.name = 'comp'
        self.dup = []


DEFAULT_N = 3


def comp_of(o):
    c = getattr(o, 'comp', None)
    if c is None:
        c = o.comp = Comp()
    return c


def _numval(v):
    if isinstance(v, Term):
        return 1.0
    if is_arr(v):
        c = concrete(v)
        return c if c is not None else np.ones(v.shape)
    if isinstance(v, (list, tuple)):
        try:
            return np.array(v, dtype=float)
        except Exception:
            return 1.0
    if isinstance(v, (int, float, np.number)) and not isinstance(v, bool):
        return float(v)
    return 1.0


def add_var(ip, o, a, k, kind):
    names = ['name', 'val', 'shape', 'units', 'desc'] if kind == 'input' else ['name', 'val', 'shape', 'units', 'res_units', 'desc']
    d = dict(zip(names, a))
    d.update(k)
    c = comp_of(o)
    name = d['name']
    if isinstance(name, Opaque):
        raise Unsupported('opaque var name')
    shape = d.get('shape')
    val = d.get('val', 1.0)
    if isinstance(val, Opaque) or isinstance(shape, Opaque):
        raise Unsupported('opaque shape/val of %s' % name)
    nv = _numval(val)
    if d.get('shape_by_conn') or d.get('copy_shape') or d.get('compute_shape'):
        if d.get('shape_by_conn') is True or d.get('copy_shape') or d.get('compute_shape'):
            cs = d.get('copy_shape')
            if isinstance(cs, str) and cs in c.inputs:
                shape = c.inputs[cs].shape
            elif shape is None:
                shape = (ip.conn_shape(name),) if np.ndim(nv) < 2 else np.shape(nv)
    if shape is None:
        shape = np.shape(nv) or (1,)
    shape = M.norm_shape(shape)
    v = Var(name, shape, d.get('units'), nv, kind, d)
    tgt = c.inputs if kind == 'input' else c.outputs
    if name in c.inputs or name in c.outputs:
        c.dup.append(name)
        raise AbstractRaise(ExcObj('ValueError', ['duplicate variable %s' % name]))
    v.where = ip.where()
    tgt[name] = v
    return {}


def names_of(ip, x, pool):
    """expand of/wrt"""
    out = []
    xs = [x] if isinstance(x, str) else ip.iterate(x)
    for e in xs:
        if isinstance(e, Opaque):
            raise Unsupported('opaque partial name')
        if e in pool:
            out.append(e)
            continue
        m = [p for p in pool if fnmatch.fnmatchcase(p, e)]
        if not m:
            raise AbstractRaise(ExcObj('ValueError', ['no match for declare_partials pattern %s' % e]))
        out.extend(m)
    return out


def declare_partials(ip, o, a, k):
    names = ['of', 'wrt', 'dependent', 'rows', 'cols', 'val', 'method', 'step', 'form', 'step_calc', 'minimum_step']
    d = dict(zip(names, a))
    d.update(k)
    c = comp_of(o)
    wrtpool = dict(c.inputs)
    if is_impl(o.cls):
        wrtpool.update(c.outputs)
    ofs = names_of(ip, d['of'], c.outputs)
    wrts = names_of(ip, d['wrt'], wrtpool)
    for of in ofs:
        for wrt in wrts:
            if not d.get('dependent', True):
                # OpenMDAO drops the entry: the pair is back to "no dependence declared"
                c.partials.pop((of, wrt), None)
                c.independent.add((of, wrt))
                continue
            e = c.partials.setdefault((of, wrt), {'method': 'exact', 'rows': None, 'cols': None, 'val': None, 'dependent': True})
            e['where'] = ip.where()
            if d.get('method') is not None:
                e['method'] = d['method']
            if d.get('rows') is not None:
                r, cc = [concrete(objarray(x) if isinstance(x, (list, tuple, range)) else x) for x in (_rng(d['rows']), _rng(d['cols']))]
                if r is None or cc is None:
                    raise Unsupported('symbolic rows/cols')
                r, cc = np.asarray(r).astype(int).ravel(), np.asarray(cc).astype(int).ravel()
                e['rows'], e['cols'] = r, cc
                if len(r) != len(cc):
                    raise AbstractRaise(ExcObj('ValueError', ['rows and cols have different length']))
                if len(r) and (r.max() >= c.outputs[of].size or cc.max() >= wrtpool[wrt].size or r.min() < 0 or cc.min() < 0):
                    raise AbstractRaise(ExcObj('ValueError', ['rows/cols out of range for %s wrt %s' % (of, wrt)]))
            if d.get('val') is not None:
                e['val'] = d['val']
    return None


def declare_coloring(ip, o, a, k):
    d = dict(zip(['wrt', 'method', 'form', 'step'], a))
    d.update(k)
    comp_of(o).coloring = d.get('method', 'fd')


def finish_setup(ip, o):
    """a coloring without any declared partial declares all of them with its method"""
    c = comp_of(o)
    if getattr(c, 'coloring', None) and not c.partials:
        for of in c.outputs:
            for wrt in c.inputs:
                c.partials[of, wrt] = {'method': c.coloring, 'rows': None, 'cols': None, 'val': None, 'dependent': True, 'where': None}


def _rng(x):
    if isinstance(x, range):
        return list(x)
    return x


def is_impl(cls):
    return any(b in IMPL for b in cls.external_bases())


def is_comp(cls):
    return any(b in EXPL or b in IMPL for b in cls.external_bases())


def _noop(ip, o, a, k):
    return None


def _init_comp(ip, o, a, k):
    o.attrs['options'] = opts = Options(o, dict(k))
    o.attrs.setdefault('name', 'comp')
    o.attrs.setdefault('pathname', 'comp')
    o.attrs.setdefault('under_complex_step', False)
    o.attrs.setdefault('under_approx', False)
    o.attrs.setdefault('under_finite_difference', False)
    o.attrs.setdefault('comm', Opaque('comm'))
    o.attrs['_problem_meta'] = Opaque('pm')
    m, c = o.cls.lookup('initialize')
    if isinstance(m, FuncObj):
        ip.call(BoundMethod(m, o), [], {})
    for key, v in k.items():
        opts.vals[key] = v


_compm = {
    '__init__': _init_comp,
    'add_input': lambda ip, o, a, k: add_var(ip, o, a, k, 'input'),
    'add_output': lambda ip, o, a, k: add_var(ip, o, a, k, 'output'),
    'add_discrete_input': lambda ip, o, a, k: comp_of(o).__dict__.setdefault('discrete_inputs', {}).__setitem__(a[0], a[1] if len(a) > 1 else k.get('val')),
    'add_discrete_output': lambda ip, o, a, k: comp_of(o).__dict__.setdefault('discrete_outputs', {}).__setitem__(a[0], a[1] if len(a) > 1 else k.get('val')),
    'declare_partials': declare_partials,
    'declare_coloring': declare_coloring,
    'set_check_partial_options': _noop,
    'initialize': _noop,
    'setup': _noop,
    'setup_partials': _noop,
    '_get_compute_primal_invals': _noop,
    'nonlinear_solver': _noop,
}
for b in EXPL + IMPL:
    M.BASE[b] = dict(_compm)


# ------------------------------------------------------------------ vectors


class InVec:
    def __init__(self, data, kind='inputs'):
        self.d = data  # name -> array
        self.kind = kind
        self.writes = []
        self.reads = set()

    def sa_getitem(self, ip, k):
        k = ip.key(k)
        if k not in self.d:
            raise AbstractRaise(ExcObj('KeyError', ['%s has no variable %s' % (self.kind, k)]))
        self.reads.add(k)
        return self.d[k]

    def sa_setitem(self, ip, k, v):
        k = ip.key(k)
        if self.kind == 'inputs':
            self.writes.append(k)
        if k not in self.d:
            raise AbstractRaise(ExcObj('KeyError', ['%s has no variable %s' % (self.kind, k)]))
        if self.kind == 'partials':
            pass
        setfull(ip, self.d[k], v, k)

    def sa_contains(self, ip, k):
        return ip.key(k) in self.d

    def sa_iter(self, ip):
        return list(self.d)

    def sa_len(self):
        return len(self.d)

    def sa_getattr(self, ip, name):
        if name == 'values':
            return PyFunc(lambda: list(self.d.values()))
        if name == 'items':
            return PyFunc(lambda: list(self.d.items()))
        if name == 'keys':
            return PyFunc(lambda: list(self.d.keys()))
        if name == 'get_val':
            return PyFunc(lambda n, *a, **k: self.sa_getitem(ip, n))
        return Opaque('vec.' + name)

    def sa_call(self, ip, a, k):
        return Opaque('vec()')


def setfull(ip, arr, v, what):
    """outputs[name] = v : broadcast into arr in place"""
    if isinstance(v, I.Choice):
        v = ip.read(v)
    if isinstance(v, Opaque):
        v = opq_term(v.why)
    if isinstance(v, I.MaskedSel):
        raise Unsupported('masked value stored in %s' % what)
    if isinstance(v, (list, tuple)):
        v = objarray(v)
    if v is None or isinstance(v, (str, dict)):
        raise AbstractRaise(ExcObj('TypeError', ['bad value for %s' % what]))
    if isinstance(v, InstObj):
        v = opq_term('inst')
    if is_arr(v):
        v = to_obj(v)
        try:
            b = np.broadcast_to(v, arr.shape)
        except ValueError:
            if v.size == arr.size:
                b = v.reshape(arr.shape)
            else:
                raise AbstractRaise(ExcObj('ValueError', ['shape %s does not fit %s of shape %s' % (v.shape, what, arr.shape)]))
    else:
        b = np.empty(arr.shape, dtype=object)
        b.fill(v.item() if isinstance(v, np.generic) else v)
    g = ip.full_guard()
    for i in np.ndindex(*arr.shape):
        e = b[i]
        if not is_num(e):
            e = opq_term('nonnumeric')
        arr[i] = e if g is True else T.ite(g, e, arr[i])


class Jac(InVec):
    strict = True  # an entry that was not declared ends the evaluation

    def __init__(self, comp):
        self.comp = comp
        super().__init__({}, 'partials')
        self.undeclared = []
        self.set = set()

    def ensure(self, ip, k):
        if not (isinstance(k, tuple) and len(k) == 2):
            raise AbstractRaise(ExcObj('KeyError', ['bad partials key %r' % (k,)]))
        if k in self.d:
            return self.d[k]
        c = self.comp
        of, wrt = k
        if of not in c.outputs or (wrt not in c.inputs and wrt not in c.outputs):
            raise AbstractRaise(ExcObj('KeyError', ['partials key %r names no output/input pair' % (k,)]))
        e = c.partials.get(k)
        if e is None:
            self.undeclared.append(k)
            if not Jac.strict:
                self.d[k] = init_subjac(c, k, {'rows': None, 'val': None})
                return self.d[k]
            raise AbstractRaise(ExcObj('KeyError', ['partial %r not declared' % (k,)]))
        self.d[k] = init_subjac(c, k, e)
        return self.d[k]

    def sa_getitem(self, ip, k):
        return self.ensure(ip, ip.key(k))

    def sa_setitem(self, ip, k, v):
        k = ip.key(k)
        arr = self.ensure(ip, k)
        self.set.add(k)
        e = self.comp.partials.get(k)
        if e is None:
            return
        if is_arr(v) and e['rows'] is not None:
            v = v.ravel()
            if v.size not in (1, arr.size):
                raise AbstractRaise(ExcObj('ValueError', ['partial %r: %d values for %d nonzeros' % (k, v.size, arr.size)]))
        elif is_arr(v) and v.size == arr.size:
            v = v.reshape(arr.shape)
        setfull(ip, arr, v, str(k))

    def sa_contains(self, ip, k):
        return ip.key(k) in self.comp.partials


def init_subjac(c, k, e):
    of, wrt = k
    win = c.inputs.get(wrt) or c.outputs.get(wrt)
    n = len(e['rows']) if e['rows'] is not None else (c.outputs[of].size, win.size)
    arr = np.empty(n, dtype=object)
    v = e['val']
    if v is not None:
        if isinstance(v, (list, tuple)):
            v = objarray(v)
        if isinstance(v, Opaque):
            v = opq_term('val')
        if is_arr(v):
            v = to_obj(v)
            if e['rows'] is not None:
                v = v.ravel()
                if v.size == 1:
                    v = v[0]
                elif v.size != arr.size:
                    raise AbstractRaise(ExcObj('ValueError', ['val size for partial %r' % (k,)]))
            elif v.size == arr.size:
                v = v.reshape(arr.shape)
            elif v.size == 1:
                v = v.ravel()[0]
            else:
                raise AbstractRaise(ExcObj('ValueError', ['val size for partial %r' % (k,)]))
        if is_arr(v):
            arr[...] = v
        else:
            arr.fill(v)
    else:
        for i in np.ndindex(*arr.shape):
            arr[i] = T.atom('prevJ', of, wrt, i)
    return arr


# ------------------------------------------------------------------ configurations


def conn_shape(self, name):
    if 'engine' in name:
        return self.world['n_eng']
    return DEFAULT_N


I.Interp.conn_shape = conn_shape
I.Interp.world = {'n_eng': 2, 'nn': 3}

HELPERS = 'aviary.variable_info.functions'


def hook(ip, f, args, kwargs):
    """intrinsics for the Aviary declaration helpers (their metadata lookup is constant)"""
    if f.module.name != HELPERS or f.name not in ('add_aviary_input', 'add_aviary_output', 'add_aviary_option'):
        return NotImplemented
    params = [p.arg for p in f.node.args.args]
    d = dict(zip(params, args))
    d.update(kwargs)
    comp = d.pop('comp')
    meta = d.get('meta_data')
    if not isinstance(meta, dict):
        meta = ip.core_meta()
    name = d.get('varname', d.get('name'))
    if isinstance(name, Opaque):
        raise Unsupported('opaque hierarchy name')
    if name not in meta:
        raise AbstractRaise(ExcObj('KeyError', [name]))
    md = meta[name]
    units = d.get('units') or md['units']
    if f.name == 'add_aviary_option':
        val = d.get('val', md['default_value'])
        od = {'name': name, 'default': val if units in (None, 'unitless') else (val, units), 'aviary': True, 'units': units, 'meta': md}
        comp.attrs['options'].declare(ip, [], od)
        return None
    ip.hier_uses.append((ip.where(), name, d.get('units'), md['units'], f.name))
    if not U.compatible(units, md['units']):
        raise AbstractRaise(ExcObj('ValueError', ['units %s invalid for %s' % (units, name)]))
    val = md['default_value']
    shape = d.get('shape')
    if isinstance(val, (list, tuple)):
        val = objarray([x if is_num(x) else 0.0 for x in val]) if val else 0.0
    if val is None or isinstance(val, (str, EnumMember, bool)):
        val = 0.0
    if units != md['units'] and units not in (None, 'unitless') and md['units'] not in (None, 'unitless'):
        fac, off = U.factor(md['units'], units)
        cv = concrete(val)
        if cv is not None:
            val = (np.asarray(cv, dtype=float) + off) * fac
            if np.ndim(val) == 0:
                val = float(val)
    if shape is not None:
        shape = M.norm_shape(shape)
        if is_arr(val) and np.shape(val) != shape:
            try:
                val = np.array(np.broadcast_to(val, shape))
            except ValueError:
                val = 1.0
    kw = {k: v for k, v in d.items() if k in ('shape_by_conn', 'copy_shape', 'compute_shape', 'primal_name', 'tags')}
    if f.name == 'add_aviary_input':
        add_var(ip, comp, [name], dict(val=val, shape=shape, units=units, aviary=True, **kw), 'input')
    else:
        add_var(ip, comp, [name], dict(val=val, shape=shape, units=units, aviary=True, **kw), 'output')
    return None


def core_meta(self):
    return self.get_global('aviary.variable_info.variable_meta_data', 'CoreMetaData')


I.Interp.core_meta = core_meta
I.Interp.hier_uses = []


class Domain:
    """values an option is enumerated over; the first is the base value"""

    def __init__(self, name, vals, symbolic=False):
        self.name, self.vals, self.symbolic = name, vals, symbolic


def enum_of(types):
    ts = types if isinstance(types, (tuple, list)) else [types]
    for t in ts:
        if isinstance(t, EnumClass):
            return t
    return None


def tname(t):
    if isinstance(t, External):
        return t.name.split('.')[-1]
    if isinstance(t, ClassObj):
        return t.name
    return str(t)


TOTALS = {
    'aircraft:propulsion:total_num_engines': 'aircraft:engine:num_engines',
    'aircraft:propulsion:total_num_wing_engines': 'aircraft:engine:num_wing_engines',
    'aircraft:propulsion:total_num_fuselage_engines': 'aircraft:engine:num_fuselage_engines',
}


def fix_totals(cfg):
    for t, p in TOTALS.items():
        if t in cfg and p in cfg and isinstance(cfg[t], (int, np.integer)) and is_arr(cfg[p]):
            c = concrete(cfg[p])
            if c is not None:
                cfg[t] = int(c.sum())
    return cfg


# options whose declared default does not describe an aircraft
SHAPES = {
    'aircraft:wing:input_station_distribution': [np.array([0.0, 0.3, 0.7, 1.0]), np.array([0.0, 1.0])],
    'aircraft:wing:load_distribution_control': [2.0, 1.5, 1.0, 3.0, 2.5],
    'aircraft:wing:num_integration_stations': [8],
}


def domain(name, d, world, mode):
    """enumeration domain of a declared option"""
    if name in SHAPES and d.get('meta') is not None:
        u = d['units']
        return [v if u in (None, 'unitless') else (v, u) for v in SHAPES[name]]
    md = d.get('meta')
    nn = world['nn']
    if name == 'engine_variables':
        # dict of engine deck columns; every member of the enum, in its default units
        u = world['ip'].get_global('aviary.subsystems.propulsion.utils', 'default_units')
        if isinstance(u, dict) and u:
            # EngineDeck folds these columns into net thrust and shaft power before it builds the components
            folded = ('TAILPIPE_THRUST', 'GROSS_THRUST', 'RAM_DRAG', 'SHAFT_POWER_CORRECTED')
            return [{k: v for k, v in u.items() if getattr(k, 'name', None) not in folded}]
    if name in ('num_nodes', 'nn', 'vec_size'):
        return [nn]
    if md is None:
        default = d.get('default')
        vals = d.get('values')
        if vals is not None and not isinstance(vals, Opaque):
            vs = list(vals)
            if 'default' in d and default in vs:
                vs.remove(default)
                vs.insert(0, default)
            return vs
        types = d.get('types')
        e = enum_of(types)
        if e is not None:
            vs = list(e.members)
            if isinstance(default, EnumMember):
                vs.remove(default)
                vs.insert(0, default)
            return vs
        tn = tname(types) if types is not None and not isinstance(types, (tuple, list)) else None
        if isinstance(default, bool) or tn == 'bool':
            b = default if isinstance(default, bool) else False
            return [b, not b]
        if isinstance(default, float) or tn == 'float':
            return [T.atom('opt', name, 0)]
        if isinstance(default, int) or tn == 'int':
            if name.startswith('num_') or name.startswith('N_') or name.startswith('n_'):
                return [default if default and default > 1 else 3]
            return [T.atom('opt', name, 0)] if mode == 'sym' else [default if default is not None else 2]
        if tn == 'str' and default is None:
            return ['str']
        if 'default' in d:
            return [default]
        return [Opaque('option ' + name)]
    default = d['default']
    units = d['units']
    e = enum_of(md['types'])
    multi = md['multivalue']
    n = world['n_eng'] if ('engine' in name or 'total_num' in name) else DEFAULT_N

    def wrap(v):
        return v if units in (None, 'unitless') else (v, units)

    if e is not None:
        vs = list(e.members)
        dv = md['default_value']
        if isinstance(dv, (list, tuple)) and dv:
            dv = dv[0]
        if isinstance(dv, EnumMember):
            vs.remove(dv)
            vs.insert(0, dv)
        if name.endswith('verbosity'):
            return [vs[0]]
        if multi and 'engine' in name:
            return [[v] * n for v in vs]
        return vs
    ts = md['types'] if isinstance(md['types'], (tuple, list)) else [md['types']]
    tns = [tname(t) for t in ts]
    if 'bool' in tns:
        dv = bool(md['default_value']) if isinstance(md['default_value'], bool) else False
        if multi:
            return [objarray([dv] * n), objarray([not dv] * n)]
        return [dv, not dv]
    if 'str' in tns or 'Path' in tns:
        return [d['default']]

    def num(i=None):
        key = ('opt', name, 0 if i is None else i)
        return T.atom(*key)

    isint = 'int' in tns and 'float' not in tns
    if isint and mode == 'sym' and name in TOTALS:
        # the preprocessor makes the totals the sums of the counts per engine type
        tot = 0
        for i in range(world['n_eng']):
            tot = T.add(tot, T.tag('intopt', T.atom('opt', TOTALS[name], i)))
        return [tot]
    if multi:
        if isint and mode != 'sym':
            return [wrap(np.array([2, 4, 2, 2][:n])), wrap(np.array([1, 2, 4, 2][:n])), wrap(np.array([0, 2, 2, 2][:n])), wrap(np.array([3, 4, 6, 2][:n]))]
        if isint:
            return [wrap(objarray([T.tag('intopt', num(i)) for i in range(n)]))]
        return [wrap(objarray([num(i) for i in range(n)]))]
    if isint:
        if mode == 'sym':
            return [wrap(T.tag('intopt', num()))]
        dv = md['default_value'] if isinstance(md['default_value'], int) else 2
        vs = [dv] + [v for v in (2, 0, 1, 3, 4, 6) if v != dv]
        return [wrap(v) for v in vs]
    dv = md['default_value']
    if dv is None and 'default' in d and d['default'] is None and False:
        return [None]
    if isinstance(dv, (list, tuple, np.ndarray)) and len(np.shape(dv)) == 1 and 'list' in tns:
        return [wrap(dv)]
    return [wrap(num())]


def configs(doms, cap, seed):
    """list of dicts: full product if small, else base + one-at-a-time + random sample"""
    names = list(doms)
    tot = 1
    for n in names:
        tot *= len(doms[n])
    if tot <= cap:
        return uniq([fix_totals(dict(zip(names, v))) for v in itertools.product(*[doms[n] for n in names])]), True
    out = []
    base = {n: doms[n][0] for n in names}
    out.append(base)
    for n in names:
        for v in doms[n][1:]:
            out.append({**base, n: v})
    rng = random.Random(seed)
    while len(out) < cap:
        out.append({n: rng.choice(doms[n]) for n in names})
    return uniq([fix_totals(c) for c in out]), False


def uniq(cfgs):
    seen, out = set(), []
    for c in cfgs:
        k = repr(sorted((n, str(v)) for n, v in c.items()))
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out
