"""Value-number fingerprints of value-graph nodes and of their derivatives.

Lane = (gate valuation, algebraic assignment).  Gate predicates are *not* evaluated from the
assignment: they get an abstract truth value from a predicate-abstraction cell (an assignment of the
linear bases they compare, consistent with the order of all thresholds), so every branch is covered
whatever the numeric region it guards.
"""

import hashlib
import math
import random

import numpy as np

from .terms import Term, topo, children, BOOLOPS

NUM = (int, float, complex, np.number, np.bool_)


def hrand(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'little'))


def isintopt(t):
    return t.op == 'tag' and t.args[0] == 'intopt' and isinstance(t.args[1], Term)


class Lanes:
    """a set of lanes for a set of roots"""

    def __init__(self, roots, scale_of, n_val=48, n_pts=3, seed=1, classes=('nat', 'unit', 'big'), free=None, opt_block=1):
        self.nodes = topo(roots)
        self.free = free
        self.opt_block = opt_block  # options stay the same within a block of free lanes
        self.scale_of = scale_of
        rng = random.Random(seed)
        groups = {}
        for t in self.nodes:
            if t.op == 'cmp':
                groups.setdefault(t.args[1], set()).add(t.args[2])
        self.groups = groups
        n_b = sum(1 for t in self.nodes if t.op == 'batom')
        if not groups and not n_b:
            n_val = 1
        # collect bases
        single = {}
        scales = {}
        for g, thr in groups.items():
            if len(g) == 1:
                single.setdefault(g[0][0], set()).update(thr)
        for g, thr in groups.items():
            for b, c in g:
                s = scales.setdefault(b, set())
                for th in thr:
                    if th and c:
                        s.add(abs(th / c))
                for b2, c2 in g:
                    if b2 is not b and b2 in single:
                        for th in single[b2]:
                            if th:
                                s.add(abs(th * c2 / c))
        self.n_val = n_val
        self.thresholds = single
        vals = {}
        for b in scales:
            out = []
            th = sorted(single.get(b, ()))
            sc = sorted(scales[b]) or [1.0]
            for v in range(n_val):
                if th and (rng.random() < 0.9 or len(sc) == 0):
                    k = (v + rng.randrange(len(th) + 1)) % (len(th) + 1)
                    if k == 0:
                        x = th[0] - (abs(th[0]) + 1) * rng.uniform(0.1, 1.0)
                    elif k == len(th):
                        x = th[-1] + (abs(th[-1]) + 1) * rng.uniform(0.1, 1.0)
                    else:
                        x = th[k - 1] + (th[k] - th[k - 1]) * rng.uniform(0.1, 0.9)
                else:
                    x = rng.choice(sc + [1.0]) * rng.uniform(-2, 2)
                out.append(x)
            if isintopt(b):
                # a count: integral values around the thresholds
                lo = 1 if 'num_engines' in str(b.args[1].args[0][1]) else 0
                out = [max(lo, round(x)) if rng.random() < 0.8 else rng.randrange(lo, 7) for x in out]
            vals[b] = np.array(out, dtype=float)
        self.intv = {b: v for b, v in vals.items() if isintopt(b)}
        self.cells = {}
        for g in groups:
            e = 0
            for b, c in g:
                e = e + c * vals[b]
            self.cells[g] = e
        pts = []
        for c in classes:
            for k in range(n_pts):
                pts.append((c, k))
        self.pts = pts
        self.n_pts = n_pts
        self.classes = classes
        self.L = n_val * len(pts)
        self.seed = seed
        # lane index = v * len(pts) + p
        self.vidx = np.repeat(np.arange(n_val), len(pts))
        self.pidx = np.tile(np.arange(len(pts)), n_val)
        self.brng = {}
        self.over = {}

    def steer(self, iters=4, max_targets=24):
        """move the second half of the free lanes to where rarely entered regions begin:

        the transitions of saturating exponentials and the thresholds of one-sided predicates.
        Still plain assignments of the inputs: only where they lie changes.  -> lanes per target"""
        exps = [t.args[0] for t in self.nodes if t.op == 'exp' and isinstance(t.args[0], Term)]
        gates = [t for t in self.nodes if t.op == 'cmp' and t.args[0] != 'eq' and not all(isintopt(b) for b, c in t.args[1])]
        cand = [('exp', [(a, 1.0)], 0.0) for a in exps] + [('cmp', list(t.args[1]), float(t.args[2])) for t in gates]
        if not cand:
            return []
        roots = [b for _, g, _ in cand for b, _ in g]
        vals = self.run(roots)
        half = self.L // 2

        def value(g, vals):
            e = 0
            for b, c in g:
                e = e + c * vals[b.id][0].real
            return np.asarray(e) + np.zeros(self.L)

        keep = []
        for kind, g, thr in cand:
            with np.errstate(all='ignore'):
                e = value(g, vals)
            fin = np.isfinite(e)
            if fin.sum() < 8:
                continue
            if kind == 'exp':
                if (np.abs(e[fin]) > 30).mean() > 0.5:
                    keep.append((kind, g, thr, 2.5))
            else:
                f = (e[fin] < thr).mean()
                if min(f, 1 - f) < 0.02:
                    keep.append((kind, g, thr, 0.05 * (abs(thr) + float(np.median(np.abs(e[fin] - thr))))))
        if not keep:
            return []
        rng = np.random.default_rng(hrand('steer', self.seed).getrandbits(60))
        keep = [keep[i] for i in rng.permutation(len(keep))[:max_targets]]
        sets = [s for s in np.array_split(np.arange(half, self.L), len(keep))]
        aim = [thr + sp * rng.uniform(-1, 1, len(s)) for (_, _, thr, sp), s in zip(keep, sets)]
        atoms = {t.id: t for t in self.nodes if t.op == 'atom' and t.args[0][0] in ('in', 'opt')}
        pick = {}
        for it in range(iters):
            if it:
                vals = self.run(roots)
            cur = {}
            for n, (kind, g, thr, sp) in enumerate(keep):
                ls = sets[n]
                with np.errstate(all='ignore'):
                    e = value(g, vals)[ls]
                    gr = {}
                    for b, c in g:
                        for k, d in (vals[b.id][1] or {}).items():
                            if k in atoms:
                                gr[k] = gr.get(k, 0) + c * (np.asarray(d).real + np.zeros(self.L))[ls]
                    ks = sorted(gr)
                    if not ks:
                        continue
                    if n not in pick:
                        pick[n] = rng.integers(0, len(ks), len(ls))
                    for q, k in enumerate(ks):
                        m = (pick[n] == q) & np.isfinite(gr[k]) & (gr[k] != 0) & np.isfinite(e)
                        if not m.any():
                            continue
                        t = atoms[k]
                        x = cur.get(t)
                        if x is None:
                            x = cur[t] = self.atom_value(t).real.copy()
                        step = np.where(m, (e - aim[n]) / np.where(m, gr[k], 1), 0)
                        y = x[ls] - step
                        big = 1e3 * max(abs(self.scale_of(t.args[0])), 1.0)
                        x[ls] = np.where(m & np.isfinite(y) & (np.abs(y) < big), y, x[ls])
            for t, x in cur.items():
                m = self.over[t][0].copy() if t in self.over else np.zeros(self.L, bool)
                for s in sets:
                    m[s] = True
                self.over[t] = (m, x.astype(complex))
        return [(k, s) for k, s in zip(keep, sets)]

    def atom_value(self, t):
        key = t.args[0]
        if self.free is not None:
            x = self.free_value(t)
            if t in self.over:
                x = x.copy()
                m, y = self.over[t]
                x[m] = y[m]
            return self.blocked(x) if key[0] == 'opt' else x
        sc = self.scale_of(key)
        if sc == 0:
            return np.zeros(self.L, dtype=complex)
        out = np.empty(len(self.pts), dtype=complex)
        for i, (c, k) in enumerate(self.pts):
            r = hrand('pt', self.seed, key, c, k)
            u = r.uniform(0.6, 1.4)
            w = r.uniform(-0.3, 0.3)
            if c == 'nat':
                out[i] = sc * u
            elif c == 'unit':
                out[i] = u
            elif c == 'big':
                out[i] = sc * 10.0 ** r.uniform(0.4, 1.6)
            else:
                out[i] = complex(u, w)
        return out[self.pidx]

    def blocked(self, x):
        b = self.opt_block
        return x if b == 1 else x[(np.arange(len(x)) // b) * b]

    def int_value(self, t):
        v = self.intv.get(t)
        key = t.args[1].args[0]
        if self.free is not None or v is None:
            n = self.L if self.free is not None else self.n_val
            rng = np.random.default_rng(hrand('int', self.seed, key).getrandbits(60))
            lo = 1 if 'num_engines' in str(key[1]) else 0
            x = np.maximum(lo, rng.choice([0, 1, 2, 2, 3, 4, 6], n))
            if self.free is not None:
                th = sorted(self.thresholds.get(t, ()))
                if th:
                    pts = np.array([min(lo, th[0] - 1)] + th + [th[-1] + max(4, th[-1])])
                    k = rng.integers(0, len(pts) - 1, n)
                    y = np.rint(pts[k] + (pts[k + 1] - pts[k]) * rng.uniform(0, 1, n))
                    y = np.where(rng.random(n) < 0.2, np.rint(pts[k]), y)
                    x = np.where(rng.random(n) < 0.7, np.maximum(lo, y), x)
                return self.blocked(x.astype(complex))
            v = x
        return v[self.vidx].astype(complex)

    def free_value(self, t):
        """values of an atom in feasible lanes: mostly nominal, sometimes far away or around a threshold"""
        key = t.args[0]
        sc = self.scale_of(key)
        n = self.L
        if sc == 0:
            return np.zeros(n, dtype=complex)
        rng = np.random.default_rng(hrand('free', self.seed, key).getrandbits(60))
        mode = rng.random(n) * np.where(np.arange(n) % 4 == 0, 0.3, 1.0)
        x = sc * rng.uniform(0.6, 1.4, n)
        x = np.where(mode < 0.3, abs(sc) * 10.0 ** rng.uniform(-3, 3, n), x)
        x = np.where(mode < 0.2, 10.0 ** rng.uniform(-3, 4, n), x)
        x = np.where(mode < 0.1, sc * rng.uniform(-2, 2, n), x)
        x = np.where(mode < 0.05, rng.uniform(0, 1, n), x)
        th = sorted(self.thresholds.get(t, ()))
        if th:
            span = max(abs(th[0]), abs(th[-1]), 1e-3)
            pts = np.array([th[0] - span] + th + [th[-1] + span])
            k = rng.integers(0, len(pts) - 1, n)
            y = pts[k] + (pts[k + 1] - pts[k]) * rng.uniform(0.02, 0.98, n)
            x = np.where(rng.random(n) < 0.6, y, x)
        return x.astype(complex)

    def cond_value(self, t, vals):
        if t.op == 'cmp':
            op, g, thr = t.args
            if self.free is not None:
                # feasible lanes: the predicate gets the value its own operands have in the lane
                e = 0
                for b, c in g:
                    e = e + c * vals[b.id][0].real
                if op == 'eq':
                    return e == thr if all(isintopt(b) for b, c in g) else np.zeros(self.L, bool)
                return e < thr if op == 'lt' else e <= thr
            e = self.cells[g]
            if op == 'lt':
                r = e < thr
            elif op == 'le':
                r = e <= thr
            elif all(isintopt(b) for b, c in g):
                r = e == thr
            else:
                r = np.zeros(len(e), bool)
            return r[self.vidx]
        if t.op == 'batom':
            r = hrand('b', self.seed, t.args[0])
            return np.array([r.random() < 0.5 for _ in range(self.n_val)])[self.vidx]
        if t.op == 'not':
            return ~vals[t.args[0].id][0]
        xs = [vals[a.id][0] for a in t.args]
        r = xs[0]
        for x in xs[1:]:
            r = (r & x) if t.op == 'and' else (r | x)
        return r

    def run(self, roots, deriv=True, keep=None):
        """-> dict id -> (value[L], {atom_id: grad[L]})"""
        L = self.L
        nodes = topo(roots)
        uses = {}
        for t in nodes:
            for c in children(t):
                uses[c.id] = uses.get(c.id, 0) + 1
        rootids = {r.id for r in roots if isinstance(r, Term)}
        vals = {}
        with np.errstate(all='ignore'):
            for t in nodes:
                if t.op in BOOLOPS:
                    vals[t.id] = (self.cond_value(t, vals), None)
                else:
                    vals[t.id] = self.node(t, vals, deriv)
                for c in children(t):
                    uses[c.id] -= 1
                    if uses[c.id] == 0 and c.id not in rootids:
                        vals.pop(c.id, None)
        return vals

    def node(self, t, vals, deriv):
        op = t.op
        L = self.L

        def V(a):
            if isinstance(a, Term):
                v = vals[a.id]
                if v[1] is None:
                    return v[0].astype(complex), {}
                return v
            if isinstance(a, NUM):
                return complex(a), {}
            return np.nan, {}

        if op == 'atom':
            v = self.atom_value(t)
            return v, ({t.id: np.ones(L, dtype=complex)} if deriv else {})
        if op in ('add', 'sub'):
            a, da = V(t.args[0])
            b, db = V(t.args[1])
            s = 1 if op == 'add' else -1
            d = dict(da)
            for k, g in db.items():
                d[k] = d[k] + s * g if k in d else s * g
            v = a + s * b
            return self._full(v), d
        if op == 'neg':
            a, da = V(t.args[0])
            return -a, {k: -g for k, g in da.items()}
        if op == 'mul':
            a, da = V(t.args[0])
            b, db = V(t.args[1])
            d = {k: g * b for k, g in da.items()}
            for k, g in db.items():
                d[k] = d[k] + g * a if k in d else g * a
            return self._full(a * b), d
        if op == 'div':
            a, da = V(t.args[0])
            b, db = V(t.args[1])
            q = a / np.asarray(b)
            d = {k: g / b for k, g in da.items()}
            for k, g in db.items():
                e = -g * q / b
                d[k] = d[k] + e if k in d else e
            return self._full(q), d
        if op == 'pow':
            a, da = V(t.args[0])
            b, db = V(t.args[1])
            a_ = np.asarray(a, dtype=complex)
            v = a_**b
            v = self.domain(np.where(np.abs(v) < 1e60, v, np.nan))
            d = {}
            if da:
                f = b * a_ ** (b - 1)
                for k, g in da.items():
                    d[k] = g * f
            if db:
                f = v * np.log(a_)
                for k, g in db.items():
                    e = g * f
                    d[k] = d[k] + e if k in d else e
            return self._full(v), d
        if op == 'ite':
            c = vals[t.args[0].id][0]
            a, da = V(t.args[1])
            b, db = V(t.args[2])
            v = np.where(c, a, b)
            d = {}
            for k in set(da) | set(db):
                d[k] = np.where(c, da.get(k, 0), db.get(k, 0))
            return self._full(v), d
        if op == 'tag':
            if t.args[0] == 'intopt' and isinstance(t.args[1], Term):
                return self.int_value(t), {}
            return V(t.args[1]) if isinstance(t.args[1], Term) else (self._full(t.args[1]), {})
        if op == 'uf':
            return self.uf(t, V, deriv)
        if op in ('floor', 'ceil', 'int', 'round', 'floordiv', 'mod'):
            r = hrand('step', self.seed, op)
            xs = [V(a) for a in t.args]
            p = r.uniform(0.5, 1.5)
            v = 0
            for x, _ in xs:
                v = v * 1.37 + np.cos(np.asarray(x) * p) + 1.7
            return self._full(v), {}
        a, da = V(t.args[0])
        a = np.asarray(a, dtype=complex)
        if op == 'sin':
            v, f = np.sin(a), np.cos(a)
        elif op == 'cos':
            v, f = np.cos(a), -np.sin(a)
        elif op == 'tan':
            v = np.tan(a)
            f = 1 + v * v
        elif op == 'exp':
            v = np.exp(a)
            f = v
        elif op == 'log':
            v, f = np.log(a), 1 / a
        elif op == 'log10':
            v, f = np.log10(a), 1 / (a * math.log(10))
        elif op == 'log2':
            v, f = np.log2(a), 1 / (a * math.log(2))
        elif op == 'log1p':
            v, f = np.log(1 + a), 1 / (1 + a)
        elif op == 'expm1':
            v = np.exp(a) - 1
            f = v + 1
        elif op == 'sqrt':
            v = np.sqrt(a)
            f = 0.5 / v
        elif op == 'cbrt':
            v = a ** (1 / 3)
            f = v / (3 * a)
        elif op == 'arcsin':
            v, f = np.arcsin(a), 1 / np.sqrt(1 - a * a)
        elif op == 'arccos':
            v, f = np.arccos(a), -1 / np.sqrt(1 - a * a)
        elif op == 'arctan':
            v, f = np.arctan(a), 1 / (1 + a * a)
        elif op == 'sinh':
            v, f = np.sinh(a), np.cosh(a)
        elif op == 'cosh':
            v, f = np.cosh(a), np.sinh(a)
        elif op == 'tanh':
            v = np.tanh(a)
            f = 1 - v * v
        elif op == 'arctanh':
            v, f = np.arctanh(a), 1 / (1 - a * a)
        elif op == 'arcsinh':
            v, f = np.arcsinh(a), 1 / np.sqrt(1 + a * a)
        elif op == 'arccosh':
            v, f = np.arccosh(a), 1 / (np.sqrt(a - 1) * np.sqrt(a + 1))
        elif op == 'opq':
            v, f = np.full(self.L, np.nan, complex), np.nan
        else:
            raise NotImplementedError(op)
        if op in ('exp', 'sinh', 'cosh', 'expm1'):
            v = np.where(np.abs(v) < 1e60, v, np.nan)  # saturated: no information
        elif op in ('sqrt', 'log', 'log10', 'log2', 'log1p', 'arcsin', 'arccos', 'arctanh', 'arccosh', 'cbrt'):
            v = self.domain(v)
        return self._full(v), {k: g * f for k, g in da.items()}

    def domain(self, v):
        """a real argument outside the real domain of the operation is NaN, as it is in the code"""
        if 'cplx' in self.classes:
            return v
        v = np.asarray(v, dtype=complex)
        return np.where(np.abs(v.imag) <= 1e-9 * np.abs(v), v, np.nan)

    def uf(self, t, V, deriv):
        """random analytic interpretation of an uninterpreted function and its derivatives.

        name = (base, (i, j, ...)): partial derivative of base with respect to args i, j, ...
        """
        name = t.args[0]
        base, ders = name
        xs = [V(a) for a in t.args[1:]]
        r = hrand('uf', base)
        K = 3
        v = 0
        fs = [0] * len(xs)
        for k in range(K):
            w = r.uniform(0.5, 1.5)
            ph = r.uniform(0, 6)
            vs = [hrand('ufv', base, k, j).uniform(0.3, 1.7) for j in range(len(xs))]
            arg = ph
            for vj, (x, _) in zip(vs, xs):
                arg = arg + vj * np.asarray(x)
            c = w
            for d in ders:
                c = c * vs[d]
            n = len(ders)
            v = v + c * np.sin(arg + n * math.pi / 2)
            if deriv:
                e = c * np.sin(arg + (n + 1) * math.pi / 2)
                for j in range(len(xs)):
                    fs[j] = fs[j] + vs[j] * e
        v = v + (1.9 if not ders else 0)
        d = {}
        if deriv:
            for f, (x, dx) in zip(fs, xs):
                for k, g in dx.items():
                    e = g * f
                    d[k] = d[k] + e if k in d else e
        return self._full(v), d

    def _full(self, v):
        v = np.asarray(v, dtype=complex)
        if v.shape == ():
            return np.full(self.L, complex(v))
        return v
