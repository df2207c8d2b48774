"""Sweep all component classes x configurations, building the value graph of each once."""

import multiprocessing as mp
import os
import sys
import time
import traceback
import signal

import numpy as np

sys.setrecursionlimit(20000)

from . import components as C
from . import interp as I
from . import omodel as O
from . import partition as P
from . import terms as T
from .interp import AbstractRaise, Interp, Unsupported

_ip = None
_classes = None


def get_ip():
    global _ip, _classes
    if _ip is None:
        _ip = Interp()
        _ip.hook_call = O.hook
        _classes = C.component_classes(_ip)
    return _ip, _classes


WORLDS = ({'n_eng': 2, 'nn': 3}, {'n_eng': 1, 'nn': 3})


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


MODES = (('sym', 0), ('conc', 0), ('sym', 1), ('conc', 1))


def scale_fn(c, st=None):
    def scale(key):
        k = key[0]
        if k == 'in' or k == 'prev':
            v = c.inputs.get(key[1]) or c.outputs.get(key[1])
            if v is None:
                return 1.0
            a = np.ravel(np.asarray(v.val, dtype=float))
            x = a[key[2]] if key[2] < a.size else (a[0] if a.size else 1.0)
            x = float(x)
            return x if x and np.isfinite(x) else 1.0
        if k == 'prevJ':
            return 0.0
        return 1.0

    return scale


def full_run(ip, cls, cfg, world, partials=True, hook=None):
    r = C.run_config(ip, cls, cfg, world)
    r.cerror = r.perror = None
    if T.DECIDER is not None and getattr(r, 'comp', None) is not None:
        T.DECIDER.at.scale = scale_fn(r.comp)
    if r.error:
        r.err = r.error
        return r
    if hook:
        hook(r)
    C.eval_compute(ip, r)
    if not r.cerror and partials:
        C.eval_partials(ip, r)
    r.err = r.cerror or r.perror
    return r


def all_approx(ip, cls, opts):
    """every (output, input) pair is approximated by OpenMDAO in every configuration"""
    world = WORLDS[0]
    T.reset()
    T.DECIDER = None
    world['ip'] = ip
    try:
        doms = C.option_domains(ip, cls, world, 'conc')
    except (Unsupported, AbstractRaise):
        return False
    n = 0
    for cfg in O.configs(doms, 12, opts['seed'])[0]:
        r = C.run_config(ip, cls, cfg, world)
        if r.error:
            continue
        c = r.comp
        if O.is_impl(cls):
            return False
        for of in c.outputs:
            for wrt in c.inputs:
                e = c.partials.get((of, wrt))
                if e is None or e['method'] == 'exact' or e['rows'] is not None:
                    return False
                n += 1
    return n > 0


def plan(ip, cls, opts, partials=True):
    """choose the cheapest abstraction in which the class can be analysed

    sym/conc: integer options symbolic or enumerated; part 0: gated value graph, 1: trace partitioning"""
    err = 'none'
    only_raises = None
    for mode, part in MODES:
        for world in WORLDS:
            T.reset()
            T.DECIDER = None
            world['ip'] = ip
            try:
                doms = C.option_domains(ip, cls, world, mode)
            except (Unsupported, AbstractRaise) as e:
                err = str(e)
                continue
            cfgs, full = O.configs(doms, opts['cap'] if not part else opts.get('cap_part', 6), opts['seed'])
            try:
                nbad = nraise = 0
                for cfg in cfgs[:3]:
                    if part:
                        T.DECIDER = P.Decider(opts['seed'], 0)
                    r = full_run(ip, cls, cfg, world, partials)
                    if r.err and not r.err.startswith('raises'):
                        err = r.err
                        nbad += 1
                    nraise += bool(r.err)
                if nbad == 0:
                    pl = Plan(mode, part, world, doms, cfgs, full)
                    if nraise < len(cfgs[:3]):
                        return pl
                    only_raises = only_raises or pl
            finally:
                T.DECIDER = None
    return only_raises or err


class Plan:
    def __init__(self, mode, part, world, doms, cfgs, full):
        self.mode, self.part, self.world, self.doms, self.cfgs, self.full = mode, part, world, doms, cfgs, full


def iter_runs(ip, cls, opts, pl, partials=True, hook=None):
    """yield (cfg, partition, Run); T.DECIDER is only set while the class is interpreted"""
    n = opts.get('parts', 32)
    learnt = {}
    for cfg in pl.cfgs:
        if not pl.part:
            T.reset()
            yield cfg, None, full_run(ip, cls, cfg, pl.world, partials, hook)
            continue
        for p in range(n):
            T.reset()
            T.DECIDER = d = P.Decider(opts['seed'], p, learnt)
            try:
                r = full_run(ip, cls, cfg, pl.world, partials, hook)
            finally:
                T.DECIDER = None
            r.decisions = d.n
            r.sample = {t.args[0]: float(v[0][0].real) for t in list(T._table.values()) if t.op == 'atom' for v in [d.at.vals.get(t.id)] if v}
            yield cfg, p, r
            if d.n == 0:
                break


def cfg_str(cfg, doms):
    out = []
    for k, v in cfg.items():
        if len(doms[k].vals if isinstance(doms[k], O.Domain) else doms[k]) > 1:
            out.append('%s=%s' % (k, v))
    return ', '.join(out)


def _work(arg):
    name, fn, opts = arg
    ip, classes = get_ip()
    cls = next(c for c in classes if c.module.name + '.' + c.name == name)
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(opts.get('class_timeout', 200))
    try:
        r = fn(ip, cls, opts)
    except Timeout:
        r = {'class': name, 'status': 'timeout', 'viol': []}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        r = {'class': name, 'status': 'crash: %r at %s:%s' % (e, os.path.basename(tb.filename), tb.lineno), 'viol': [], 'tb': traceback.format_exc()}
    finally:
        signal.alarm(0)
    r['class'] = name
    r['t'] = time.time() - t
    return r


def sweep(fn, opts, only=None, procs=8):
    ip, classes = get_ip()
    names = [c.module.name + '.' + c.name for c in classes]
    if only:
        names = [n for n in names if any(o in n for o in only)]
    args = [(n, fn, opts) for n in names]
    if procs == 1:
        return [_work(a) for a in args]
    with mp.Pool(procs) as p:
        return sorted(p.imap_unordered(_work, args, chunksize=1), key=lambda r: r['class'])
