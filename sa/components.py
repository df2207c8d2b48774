"""Enumerate component classes of /repo/aviary, interpret setup/compute/compute_partials."""

import ast
import os
import sys
import time

import numpy as np

from . import interp as I
from . import models as M
from . import omodel as O
from . import terms as T
from .interp import AbstractRaise, BoundMethod, ClassObj, FuncObj, Interp, Opaque, Unsupported, objarray
from .terms import Term

SKIP_DIRS = {'test', 'tests', '__pycache__', 'validation_cases', 'docs', 'examples', 'models'}


def module_names(repo, include_models=False):
    out = []
    root = os.path.join(repo, 'aviary')
    for dp, dn, fn in os.walk(root):
        dn[:] = sorted(d for d in dn if d not in (SKIP_DIRS - ({'models'} if include_models else set())))
        for f in sorted(fn):
            if f.endswith('.py') and not f.startswith('test_'):
                rel = os.path.relpath(os.path.join(dp, f), repo)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[: -len('.__init__')]
                out.append(rel)
    return out


METH = ('compute', 'compute_partials', 'apply_nonlinear', 'linearize')


def component_classes(ip):
    out = []
    for mn in module_names(ip.repo):
        path = ip.find_module(mn)
        if not path:
            continue
        src = open(path, encoding='utf-8').read()
        if 'def compute' not in src and 'def apply_nonlinear' not in src and 'Component' not in src:
            continue
        m = ip.module(mn)
        for name, v in list(m.env.items()):
            v = v if not isinstance(v, I.LazyImport) else None
            if isinstance(v, ClassObj) and v.module is m and O.is_comp(v):
                if any(v.lookup(x)[1] is not None for x in ('compute', 'apply_nonlinear')):
                    out.append(v)
    return out


class Run:
    pass


def declare(ip, cls):
    """option domains: interpret __init__/initialize with defaults"""
    ip.steps = 0
    o = ip.instantiate(cls, [], {})
    return o


def option_domains(ip, cls, world, mode):
    o = declare(ip, cls)
    opts = o.attrs.get('options')
    if not isinstance(opts, O.Options):
        return {}
    return {n: O.domain(n, d, world, mode) for n, d in opts.decl.items()}


def run_config(ip, cls, cfg, world, partials=True):
    """-> Run with comp, out arrays, J, or raises Unsupported / AbstractRaise"""
    ip.world = world
    ip.events = []
    ip.hier_uses = []
    ip.steps = 0
    r = Run()
    r.phase = 'init'
    r.cls = cls
    r.cfg = cfg
    try:
        o = ip.instantiate(cls, [], {})
        opts = o.attrs['options']
        for k, v in cfg.items():
            opts.vals[k] = v
        r.phase = 'setup'
        m = cls.lookup('setup')[0]
        if isinstance(m, FuncObj):
            ip.call(BoundMethod(m, o), [], {})
        r.phase = 'setup_partials'
        m = cls.lookup('setup_partials')[0]
        if isinstance(m, FuncObj):
            ip.call(BoundMethod(m, o), [], {})
        O.finish_setup(ip, o)
    except AbstractRaise as e:
        r.error = 'raises: %s' % e
        r.exc = e
        return r
    except Unsupported as e:
        r.error = 'unsupported: %s' % e
        return r
    r.comp = c = O.comp_of(o)
    r.inst = o
    r.options = opts
    r.error = None
    r.setup_events = ip.events
    ip.events = []
    return r


RENAME = None  # (tag, name, index, shape) -> atom key; used to identify entries of different evaluations


def in_atoms(vars_, tag='in'):
    d = {}
    for n, v in vars_.items():
        a = np.empty(v.shape, dtype=object)
        for k, i in enumerate(np.ndindex(*v.shape)):
            a[i] = T.atom(*RENAME(tag, n, i, v.shape)) if RENAME and tag in ('in', 'prev') else T.atom(tag, n, k)
        if v.shape == ():
            a = a.reshape(1)
        d[n] = a
    return d


def eval_compute(ip, r):
    """value graph of the outputs (residuals for implicit components)"""
    cls, c, o = r.cls, r.comp, r.inst
    r.impl = O.is_impl(cls)
    r.ins = in_atoms(c.inputs)
    inputs = O.InVec(r.ins, 'inputs')
    r.phase = 'compute'
    r.cerror = None
    attrs0 = dict(o.attrs)
    try:
        if r.impl:
            r.states = in_atoms(c.outputs, 'in')
            outputs = O.InVec(r.states, 'outputs')
            res = in_atoms(c.outputs, 'prev')
            resid = O.InVec(res, 'residuals')
            ip.call(BoundMethod(cls.lookup('apply_nonlinear')[0], o), [inputs, outputs, resid], {})
            r.outs = res
        else:
            outs = in_atoms(c.outputs, 'prev')
            outputs = O.InVec(outs, 'outputs')
            m = cls.lookup('compute')[0]
            args = [inputs, outputs]
            if len(m.node.args.args) > 3:
                args += [dict(getattr(c, 'discrete_inputs', {})), dict(getattr(c, 'discrete_outputs', {}))]
            ip.call(BoundMethod(m, o), args, {})
            r.outs = outs
        r.invec = inputs
    except AbstractRaise as e:
        r.cerror = 'raises: %s' % e
        r.exc = e
    except Unsupported as e:
        r.cerror = 'unsupported: %s' % e
    r.compute_events = ip.events
    r.attrs_changed = {k for k in o.attrs if k not in attrs0 or o.attrs[k] is not attrs0[k]}
    ip.events = []
    return r


def eval_partials(ip, r):
    cls, c, o = r.cls, r.comp, r.inst
    name = 'linearize' if r.impl else 'compute_partials'
    m = cls.lookup(name)[0]
    r.J = None
    r.perror = None
    r.phase = name
    J = O.Jac(c)
    r.has_partials = isinstance(m, FuncObj)
    r.pins = in_atoms(c.inputs)
    inputs = O.InVec(r.pins, 'inputs')
    try:
        if r.has_partials:
            args = [inputs]
            if r.impl:
                args.append(O.InVec(in_atoms(c.outputs, 'in'), 'outputs'))
            args.append(J)
            if len(m.node.args.args) > 1 + len(args):
                args += [dict(getattr(c, 'discrete_inputs', {}))]
            ip.call(BoundMethod(m, o), args, {})
        for k, e in c.partials.items():
            if k not in J.d:
                J.d[k] = O.init_subjac(c, k, e)
        r.J = J
    except AbstractRaise as e:
        r.perror = 'raises: %s' % e
        r.exc = e
    except Unsupported as e:
        r.perror = 'unsupported: %s' % e
    r.partials_events = ip.events
    ip.events = []
    return r
