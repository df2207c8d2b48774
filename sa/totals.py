"""C17: totals as sums over a model.

For every group, the value graph of each component is differentiated; an entry that is constant over all lanes is a link
of a sum.  Links are multiplied along the wiring of the group, which gives, for each total (of masses, areas, forces,
powers, flows, lengths, ...), how often each part under it is counted: once, minus once, or once per engine."""

import ast
import hashlib
import json
import os
import re
import signal
import time
import traceback
import multiprocessing as mp

import numpy as np

from . import components as C
from . import fingerprint as F
from . import groups as G
from . import omodel as O
from . import sweep as S
from . import units as U
from . import wiring as W
from .interp import AbstractRaise, FuncObj, Unsupported
from .terms import Term

def family(v):
    """(dimensions, factor to base units) of a quantity that can be summed, or None"""
    try:
        u = U.parse(v.units)
    except U.UnitError:
        return None
    if u.o:
        return None
    return tuple(sorted(u.d.items())), u.f


def counts(ip, comp_opts, n):
    """the number of engines of each model, where the vector has one entry per model"""
    v = comp_opts.get('aircraft:engine:num_engines')
    return [int(x) for x in np.ravel(v)] if v is not None and not isinstance(v, Term) else []


def options(o):
    opts = o.attrs.get('options')
    return opts.vals if isinstance(opts, O.Options) else {}


def local(ip, cls, comp, obj, seed=1):
    """{(out, i): ({(in, j): factor or None}, pure)} of the mass outputs of a component, with its scalers at one"""
    r = C.Run()
    r.cls, r.comp, r.inst, r.cfg = cls, comp, obj, {}
    plain = C.in_atoms

    def atoms(vars_, tag='in'):
        d = plain(vars_, tag)
        if tag == 'in':
            for n in d:
                if n.endswith('margin_scaler'):
                    d[n] = np.zeros(d[n].shape)
                elif n.endswith('_scaler'):
                    d[n] = np.ones(d[n].shape)
        return d

    C.in_atoms = atoms
    try:
        O.finish_setup(ip, obj)
        C.eval_compute(ip, r)
    finally:
        C.in_atoms = plain
    if r.cerror:
        return r.cerror
    fo = {n: family(comp.outputs[n]) for n in r.outs if n in comp.outputs}
    fi = {n: family(comp.inputs[n]) for n in r.ins if n in comp.inputs}
    outs = [n for n, f in fo.items() if f]
    roots = [t for n in outs for t in np.ravel(r.outs[n]) if isinstance(t, Term)]
    if not roots:
        return {}
    ins = {n: r.ins[n] for n, f in fi.items() if f}
    roots += [t for a in ins.values() for t in a.ravel() if isinstance(t, Term)]
    stop = [e[3] for e in r.compute_events if e[0] == 'cond-raise']
    roots += [t for t in stop if isinstance(t, Term)]
    lanes = F.Lanes(roots, S.scale_fn(comp), n_val=24, n_pts=8, seed=seed, classes=('nat',))
    vals = lanes.run(roots)
    out = {}
    for o in outs:
        for i, t in enumerate(np.ravel(r.outs[o])):
            if not isinstance(t, Term):
                continue
            v, g = vals[t.id]
            rest = np.asarray(v).real * np.ones(lanes.L)
            fin = np.isfinite(rest)
            e, pure = {}, True
            for n, a in ins.items():
                if fi[n][0] != fo[o][0]:
                    continue
                for j, w in enumerate(a.ravel()):
                    d = (g or {}).get(w.id) if isinstance(w, Term) else None
                    if d is None:
                        continue
                    d = np.asarray(d).real * np.ones(lanes.L)
                    ok = fin & np.isfinite(d)
                    if not ok.any() or np.all(np.abs(d[ok]) < 1e-14):
                        continue
                    c = None
                    if np.ptp(d[ok]) <= 1e-9 * np.max(np.abs(d[ok])):
                        c = float(d[ok][0])
                        rest = rest - c * np.asarray(vals[w.id][0]).real
                    else:
                        pure = False
                    e[n, j] = None if c is None else c * fo[o][1] / fi[n][1]
            if e:
                scale = np.max(np.abs(np.asarray(v).real[fin]), initial=1.0) if np.ndim(v) else 1.0
                pure = pure and bool(np.all(np.abs(rest[fin]) <= 1e-7 * scale))
                out[o, i] = (e, pure)
    for o in outs:  # a total of other outputs of the same component
        tt = [t for t in np.ravel(r.outs[o]) if isinstance(t, Term)]
        if 'total' not in o or len(tt) != 1 or np.size(r.outs[o]) != 1 or (o, 0) in out and out[o, 0][1]:
            continue
        parts = [((p, j), t) for p in outs if p != o and fo[p][0] == fo[o][0] for j, t in enumerate(np.ravel(r.outs[p])) if isinstance(t, Term)]
        if not parts:
            continue
        cols = [np.asarray(vals[t.id][0]).real * np.ones(lanes.L) * fo[p[0]][1] for p, t in parts]
        y = np.asarray(vals[tt[0].id][0]).real * np.ones(lanes.L) * fo[o][1]
        ok = np.isfinite(y) & np.all([np.isfinite(c) for c in cols], axis=0)
        for part in by_family(parts):
            ks = [k for k, (p, t) in enumerate(parts) if p in part]
            A = np.array([cols[k][ok] for k in ks]).T
            if A.shape[0] < 3 * A.shape[1] or not np.any(A):
                continue
            c, _, rank, _ = np.linalg.lstsq(A, y[ok], rcond=None)
            if rank == len(ks) and np.all(np.abs(A @ c - y[ok]) <= 1e-9 * np.max(np.abs(y[ok]))) and np.all(c > 1e-9):
                out[o, 0] = ({('=' + parts[k][0][0], parts[k][0][1]): float(round(v, 9)) for k, v in zip(ks, c)}, True)
                break
    return out


def linear(t):
    """(constant or None, {name: factor or None}) of the expression of an ExecComp"""
    if isinstance(t, ast.Constant) and isinstance(t.value, (int, float)):
        return float(t.value), {}
    if isinstance(t, ast.Name):
        return 0.0, ({} if t.id in ('pi', 'e', 'inf') else {t.id: 1.0})
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, (ast.USub, ast.UAdd)):
        s = -1.0 if isinstance(t.op, ast.USub) else 1.0
        c, d = linear(t.operand)
        return None if c is None else s * c, {n: None if x is None else s * x for n, x in d.items()}
    if isinstance(t, ast.BinOp):
        (a, d), (b, e) = linear(t.left), linear(t.right)
        if isinstance(t.op, (ast.Add, ast.Sub)):
            s = -1.0 if isinstance(t.op, ast.Sub) else 1.0
            out = dict(d)
            for n, x in e.items():
                out[n] = None if x is None or out.get(n, 0.0) is None else out.get(n, 0.0) + s * x
            return None if a is None or b is None else a + s * b, out
        if isinstance(t.op, ast.Mult) and (not d or not e) and None not in (a, b):
            k, d = (a, e) if not d else (b, d)
            return a * b, {n: None if x is None else k * x for n, x in d.items()}
        if isinstance(t.op, ast.Div) and not e and b:
            return None if a is None else a / b, {n: None if x is None else x / b for n, x in d.items()}
    return None, {n.id: None for n in ast.walk(t) if isinstance(n, ast.Name)}


def local_exec(obj):
    """local() of an ExecComp or AddSubtractComp, as far as it is elementwise and linear"""
    c = obj.comp
    out = {}
    for names, rhs in obj.exprs:
        if len(names) != 1 or names[0] not in c.outputs:
            continue
        o = names[0]
        const, d = (0.0, dict(rhs)) if isinstance(rhs, dict) else linear(rhs)
        fo = family(c.outputs[o])
        if fo is None or any(isinstance(x, Term) or x is not None and not isinstance(x, (int, float)) for x in d.values()):
            continue
        size = int(np.prod(c.outputs[o].shape or (1,)))
        for i in range(size):
            e, pure = {}, const is not None and abs(const) < 1e-12
            for n, x in d.items():
                v = c.inputs.get(n)
                fi = family(v) if v is not None else None
                if n in obj.given or fi is None or fi[0] != fo[0] or int(np.prod(v.shape or (1,))) not in (1, size):
                    pure = pure and (n in obj.given or bool(v is not None and x == 0))
                    if n in obj.given and v is not None and fi and fi[0] == fo[0] and x is not None:
                        e[n, 0] = float(x) * fo[1] / fi[1]
                    continue
                if x is None:
                    pure = False
                if x != 0:
                    e[n, i if int(np.prod(v.shape or (1,))) == size else 0] = None if x is None else float(x) * fo[1] / fi[1]
            if e:
                out[o, i] = (e, pure)
    return out


def by_family(parts):
    """which outputs to try: all, then each vector alone"""
    all_ = [p for p, _ in parts]
    names = list(dict.fromkeys(n for n, _ in all_))
    if len(names) > 1:
        yield all_
    for n in names:
        yield [p for p in all_ if p[0] == n]


def kind(c, cnt, i, last):
    """1, -1, n or -n (once per engine of the model, where the vector has an entry per engine model), else other"""
    if c is None:
        return None
    for s, x in (('1', 1.0), ('-1', -1.0)):
        if abs(c - x) < 1e-9:
            return s
    if cnt and i is not None and tuple(last) == (len(cnt),):
        m = cnt[i % len(cnt)]
        if m > 1 and abs(abs(c) - m) < 1e-9:
            return 'n' if c > 0 else '-n'
    return 'other'


def name_of(tree, names, k):
    return names.get(k) or '%s.%s' % (tree.leaves[k[0]].path, k[1])


def sums(ip, tree, memo, seed=1):
    """{total: {mass: how often}}, sums without a remainder, mass quantities of the model"""
    names = {}
    for lst in (tree.top.ins, tree.top.outs):
        for n, vs in lst.items():
            for v in vs if isinstance(vs, list) else [vs]:
                names[tuple(v[:2])] = n
    for k, n in tree.prom.items():
        names.setdefault(k, n)
    edges, cnts, have, gaps, where, made, last, free = {}, {}, set(), [], {}, set(), {}, set()
    for i, l in enumerate(tree.leaves):
        ext = l.cls is None
        if ext and not getattr(l.obj, 'exprs', None):
            continue
        if not ext and not isinstance((l.cls.lookup('compute') or [None])[0], FuncObj):
            continue
        if ext:
            K = local_exec(l.obj)
        else:
            cfg = tuple(sorted((k, W.show(v)) for k, v in options(l.obj).items() if not callable(v)))
            key = (l.cls.module.name, l.cls.name, cfg, tuple((n, v.shape, v.units) for n, v in l.comp.inputs.items()))
            if key not in memo:
                try:
                    memo[key] = local(ip, l.cls, l.comp, l.obj, seed)
                except (Unsupported, AbstractRaise, AttributeError, KeyError, TypeError, ValueError) as e:
                    memo[key] = 'cannot be evaluated: %s' % e
            K = memo[key]
        for n, v in l.comp.outputs.items():
            made.add(name_of(tree, names, (i, n)))
        for n, v in l.comp.inputs.items():
            s = tree.src.get((i, n))
            have.add(name_of(tree, names, (s[0], s[1]) if s else (i, n)))
            if not s:
                free.add(name_of(tree, names, (i, n)))
        if isinstance(K, str):
            gaps.append('%s: %s' % (l.path, K[:120]))
            continue
        cnt = [] if ext else counts(ip, options(l.obj), 0)
        for (o, oi), (e, pure) in K.items():
            to = (name_of(tree, names, (i, o)), oi)
            where[to[0]] = l.path
            es = edges.setdefault(to, [])
            for (n, ni), c in e.items():
                if n.startswith('='):  # another output of the component
                    n = n[1:]
                    fr = name_of(tree, names, (i, n))
                    last[fr] = l.comp.outputs[n].shape[-1:]
                    es.append((fr, ni, c, kind(c, cnt, ni, last[fr])))
                    continue
                s = tree.src.get((i, n))
                if s and s[2] is not None and np.size(s[2]):  # an index into a vector
                    idx = {str(x[3]) for x in tree.index.get((i, n), ())}
                    ni = int(next(iter(idx))) if len(idx) == 1 and next(iter(idx)).lstrip('-').isdigit() else None
                fr = name_of(tree, names, (s[0], s[1]) if s else (i, n))
                last[fr] = l.comp.inputs[n].shape[-1:]
                es.append((fr, ni, c, kind(c, cnt, ni, last[fr])))
            cnts[to] = (pure, any(k in ('1', '-1', 'n', '-n') for _, _, _, k in es))
    made -= have - made
    loops = circular(edges)
    exact = {q for q, (p, sm) in cnts.items() if p and sm and q[0] not in loops}
    per = tree.given.get('aircraft:engine:num_engines')
    cnt = [int(x) for x in np.ravel(per)] if per is not None else []

    def walk(q, path):
        """[((mass, index), factor)] under q, through the totals below it"""
        out = []
        for fr, ni, c, k in edges.get(q, ()):
            p = (fr, ni)
            if k not in ('1', '-1', 'n', '-n'):
                out.append((p, None))
                continue
            deeper = ni is not None and p not in path and fr not in loops and len(path) < 14
            if not (deeper and p in exact):
                out.append((p, c))
            if deeper:
                out += [(a, None if x is None else c * x) for a, x in walk(p, path | {p})]
        return out

    rows = {}
    for q, (pure, issum) in cnts.items():
        if not issum or '.' in q[0]:
            continue
        acc = {}
        for p, c in walk(q, {q}):
            if '.' in p[0] and p[0] not in free or p[0] == q[0]:
                continue
            a = acc.setdefault(p, [0.0])
            if c is not None:
                a[0] += c
        d = rows.setdefault(q[0], {})
        many = {}
        for (fr, ni), (c,) in acc.items():
            if c:
                k = kind(c, cnt, ni, last.get(fr, ()))
                k = '%g' % c if k == 'other' else k
                many.setdefault(fr, {}).setdefault(k, 0)
                many[fr][k] += 1
        for fr, ks in many.items():
            d.setdefault(fr, set()).add(' and '.join(k if m == 1 else '%s [%d]' % (k, m) for k, m in sorted(ks.items())))
    flat = {q: {s: '/'.join(sorted(k)) for s, k in d.items()} for q, d in rows.items() if d}
    pure = sorted({q[0] for q, (p, s) in cnts.items() if s and q[0] in flat} - {q[0] for q, (p, s) in cnts.items() if s and not p})
    return flat, pure, where, gaps, {x for x in have | made if '.' not in x or x in free}


def circular(edges):
    """quantities whose value depends on itself through links"""
    g = {}
    for q, es in edges.items():
        g.setdefault(q[0], set()).update(fr for fr, _, _, k in es if fr != q[0])
    out = set()
    for q in g:
        seen, todo = set(), list(g[q])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += g.get(x, ())
        if q in seen:
            out.add(q)
    return out


def load_table():
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'totals.json')) as f:
        return json.load(f)


def compare(flat, pure, have, cls, what, tab):
    """[(total, problem, part)] against the table of one class"""
    out, rows = [], 0
    if what not in tab['configs']:
        return out, rows
    at = tab['configs'].index(what)
    for q, e in tab['totals'].items():
        k = e['at'][at]
        if k < 0 or q not in flat and q not in have:
            continue  # the model has no such quantity (any more)
        want, p = e['rows'][k]
        d = flat.get(q, {})
        rows += len(want)
        for s, c in want.items():
            if s not in have:
                continue
            if s not in d:
                out.append((q, 'no longer counts %s' % s, s))
            elif d[s] != c:
                out.append((q, 'counts %s %s instead of %s' % (s, words(d[s]), words(c)), s))
        for s, c in d.items():
            if s not in want and s in tab['names']:
                out.append((q, 'counts %s %s, which is no part of it' % (s, words(c)), s))
        if p and d and q not in pure and not [1 for x in out if x[0] == q]:
            out.append((q, 'is no longer the sum of its parts only', ''))
    return out, rows


WORDS = {'1': 'once', '-1': 'as a deduction', 'n': 'once per engine', '-n': 'as a deduction once per engine'}


def words(c):
    out = []
    for alt in c.split('/'):
        x = []
        for k in alt.split(' and '):
            k, _, m = k.partition(' [')
            x.append(WORDS.get(k, '%s times' % k) + (' (%s entries)' % m[:-1] if m else ''))
        out.append(' and '.join(x))
    return ' or '.join(out)


def double(flat):
    """parts that a sum counts more than once"""
    out = []
    for q, d in flat.items():
        for s, c in d.items():
            for x in re.split(' and |/', c):
                x = x.split(' [')[0]
                if x in WORDS:
                    continue
                if abs(float(x)) > 1 and abs(float(x) - round(float(x))) < 1e-9:
                    out.append((q, 'counts %s %s' % (s, words(x)), s))
    return out


def one(ip, cls, opts):
    name = cls.module.name.replace('aviary.', '', 1) + '.' + cls.name
    tab = (opts.get('table') or {}).get(name)
    st = {'class': name, 'models': {}, 'gaps': set(), 'errs': {}, 'links': 0, 'rows': 0, 'found': {}, 'compared': 0, 'n': 0, 'totals': set()}
    memo = {}
    for what, t, delta in W.explore(ip, cls, opts):
        what += ''.join(' +' + k for k in sorted(delta))
        what = what if len(what) < 150 else what[:40] + ' .. ' + hashlib.sha1(what.encode()).hexdigest()[:10]
        if isinstance(t, str):
            st['errs'].setdefault(t[:120], what)
            continue
        st['n'] += 1
        flat, pure, where, gaps, have = sums(ip, t, memo)
        st['gaps'] |= set(gaps)
        if opts.get('again'):  # keep what other lanes confirm
            for seed in opts['again']:
                f2, p2 = sums(ip, t, opts['memos'].setdefault((name, seed), {}), seed)[:2]
                flat = {q: d for q, d in flat.items() if f2.get(q) == d}
                pure = [q for q in pure if q in p2]
        if opts.get('keep'):
            st['models'][what] = (flat, pure, sorted(have))
        st['links'] += sum(len(d) for d in flat.values())
        st['totals'] |= set(flat)
        bad = double(flat)
        if tab:
            b, rows = compare(flat, pure, have, name, what, tab)
            bad += b
            st['rows'] += rows
            st['compared'] += bool(rows)
        for seed in (2, 3):
            if bad:  # only what other lanes confirm
                f2, p2, _, _, h2 = sums(ip, t, {}, seed)
                b2 = double(f2) + (compare(f2, p2, h2, name, what, tab)[0] if tab else [])
                bad = [x for x in bad if x in b2]
        for q, text, s in bad:
            e = st['found'].setdefault((q, text), [what, where.get(q, '')])
    return st


def _work(a):
    name, opts = a
    ip, _ = S.get_ip()
    signal.signal(signal.SIGALRM, S._alarm)
    signal.alarm(opts.get('limit', 400))
    t0 = time.time()
    try:
        r = one(ip, ip.group_list[name], opts)
    except (Exception, S.Timeout) as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        r = {'class': name, 'models': {}, 'gaps': set(), 'errs': {'crash %r %s:%d' % (e, tb.filename[-20:], tb.lineno): ''}, 'links': 0, 'rows': 0, 'found': {}, 'compared': 0, 'n': 0, 'totals': set()}
    signal.alarm(0)
    r['time'] = time.time() - t0
    return r


def sweep(opts, only=None, procs=8):
    ip, _ = S.get_ip()
    if not getattr(ip, 'groups_on', False):
        G.install(ip)
        ip.groups_on = True
        ip.group_list = {c.module.name + '.' + c.name: c for c in G.group_classes(ip)}
    names = [n for n in ip.group_list if not only or any(o in n for o in only)]
    args = [(n, opts) for n in names]
    if procs == 1:
        return [_work(a) for a in args]
    with mp.Pool(procs) as p:
        return sorted(p.imap_unordered(_work, args, chunksize=1), key=lambda r: r['class'])
