"""Trace partitioning (Mauborgne and Rival, ESOP 2005): one abstract execution per partition.

A partition fixes the truth of every predicate and the value of every data-dependent integer the
abstract execution meets: those that hold in the cell around a sample assignment of the inputs, so the
decisions of one partition are always jointly satisfiable.  What is decided about a partition is an
identity between value graphs, not a value at the sample.  Later partitions of a class place the
sample around the thresholds the earlier ones met.
"""

import math

import numpy as np

from . import fingerprint as F
from . import terms as T
from .terms import Term


class FP:
    """value numbers of terms at one fixed random complex point, memoised"""

    def __init__(self, seed):
        self.lanes = F.Lanes([], lambda k: 1.0, n_val=1, n_pts=1, seed=seed, classes=('cplx',))
        self.vals = {}

    def __call__(self, t):
        if not isinstance(t, Term):
            return complex(t)
        v = self.vals.get(t.id)
        if v is None:
            with np.errstate(all='ignore'):
                for n in T.topo([t], self.vals):
                    if n.op in T.BOOLOPS:
                        r = F.hrand('fpb', n.id)
                        self.vals[n.id] = (np.array([r.random() < 0.5]), None)
                    else:
                        self.vals[n.id] = self.lanes.node(n, self.vals, False)
            v = self.vals[t.id]
        return complex(v[0][0])

    def key(self, t):
        v = self(t)
        if not (math.isfinite(v.real) and math.isfinite(v.imag)):
            return ('id', t.id)
        return ('%.8e' % v.real, '%.8e' % v.imag)


class Sample(FP):
    """values of terms at the sample assignment of a partition"""

    def __init__(self, seed, part, learnt):
        super().__init__(seed)
        self.seed, self.part, self.learnt = seed, part, learnt
        self.scale = lambda key: 1.0
        self.lanes.atom_value = self.atom
        self.lanes.int_value = lambda t: np.array([complex(F.hrand('pint', seed, part, t.args[1].args[0]).choice([1, 2, 2, 3, 4, 6]))])

    def atom(self, t):
        key = t.args[0]
        r = F.hrand('sample', self.seed, self.part, key)
        sc = self.scale(key)
        if sc == 0:
            return np.zeros(1, complex)
        x = sc * r.uniform(0.6, 1.4)
        # one variable is treated alike at all its indices, most of the time
        v = F.hrand('samplev', self.seed, self.part, key[:2])
        m = v.random() if self.part else 1.0
        if m < 0.12:
            x = abs(sc) * 10.0 ** v.uniform(-2, 2) * r.uniform(0.8, 1.2)
        elif m < 0.2:
            x = 10.0 ** v.uniform(-3, 4) * r.uniform(0.8, 1.2)
        elif m < 0.24:
            x = sc * r.uniform(-2, 2)
        th = sorted(self.learnt.get(key, ()))
        if th and F.hrand('sampleth', self.seed, self.part, key).random() < 0.6:
            span = max(abs(th[0]), abs(th[-1]), 1e-3)
            pts = [th[0] - span] + th + [th[-1] + span]
            k = r.randrange(len(pts) - 1)
            x = pts[k] + (pts[k + 1] - pts[k]) * r.uniform(0.02, 0.98)
        return np.array([complex(x)])


class Decider:
    def __init__(self, seed, part, learnt=None):
        self.seed, self.part = seed, part
        self.learnt = {} if learnt is None else learnt
        self.fp = FP(7)
        self.at = Sample(seed, part, self.learnt)
        self.n = 0
        self.ints = {}
        self.truth = {}
        self.blind = 0

    def rand(self, key):
        return F.hrand('part', self.seed, self.part, key)

    def real(self, t):
        """value of a term at the sample, None where it has none"""
        v = self.at(t)
        if not math.isfinite(v.real) or abs(v.imag) > 1e-9 * max(1e-300, abs(v.real)):
            return None
        return v.real

    def cmp(self, op, d, c):
        """truth of  sum(d) + c  op  0"""
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        items = sorted((self.fp.key(t), k) for t, k in d.items())
        lead = items[0][1]
        key = (tuple((k, '%.8g' % (x / lead)) for k, x in items), '%.8g' % (-c / lead))
        if key in self.truth:
            below = self.truth[key]
        else:
            self.n += 1
            if len(d) == 1:
                (t, k), = d.items()
                if t.op == 'atom':
                    self.learnt.setdefault(t.args[0], set()).add(-c / k)
            s = c
            for t, k in d.items():
                v = self.real(t)
                s = None if s is None or v is None else s + k * v
            if s is None:
                self.blind += 1
                below = self.rand(key).random() < 0.5
            else:
                below = s / lead < 0
            self.truth[key] = below
        if lead < 0:
            op = T._FLIP[op]
        return below if op in ('lt', 'le') else not below

    def bool(self, key):
        self.n += 1
        self.blind += 1
        return self.rand(('b', key)).random() < 0.5

    def int(self, t, hi=None):
        k = ('i', self.fp.key(t), hi)
        if k not in self.ints:
            self.n += 1
            v = self.real(t)
            if v is None or abs(v) > 1e6:
                self.blind += 1
                r = self.rand(k)
                v = r.randrange(hi) if hi else r.choice([1, 2, 2, 3, 3, 4, 5])
            self.ints[k] = int(v) if hi is None else min(max(int(v), 0), hi - 1)
        return self.ints[k]

    def search(self, key, v, tab, side):
        k = ('s', self.fp.key(key), tab.size, side)
        if k not in self.ints:
            self.n += 1
            x = self.real(v)
            ts = [self.real(t) for t in tab.ravel()]
            if x is None or any(t is None for t in ts):
                self.blind += 1
                self.ints[k] = self.rand(k).randrange(tab.size + 1)
            else:
                if isinstance(v, Term) and v.op == 'atom' and all(not isinstance(t, Term) for t in tab.ravel()):
                    self.learnt.setdefault(v.args[0], set()).update(float(t) for t in tab.ravel())
                self.ints[k] = int(np.searchsorted(np.array(ts), x, side=side))
        return self.ints[k]
