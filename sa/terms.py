"""Hash-consed value graph (gated SSA terms), canonical predicates and value-number fingerprints.

A Term is a node of the value graph that the abstract interpreter builds from the source of a
component.  Two expressions with the same canonical form are the same node (global value
numbering).  Semantic equality of two nodes modulo the algebra of the reals is decided with
random-interpretation fingerprints (Gulwani and Necula, POPL 2003): every atom of the graph gets a
generic random value, every gate predicate an abstract truth value that is consistent with the
order of the thresholds it is compared with, and two nodes are only called different when their
fingerprints differ for all assignments of a class.  Derivatives are forward-mode derivatives of the
graph itself.
"""

import itertools
import math
import cmath
import numpy as np

_table = {}
_count = itertools.count()


REALS = None  # id -> array the code created without a complex dtype, while that is being tracked


class Term:
    __slots__ = ('op', 'args', 'id', '_hash')
    __array_priority__ = 1000

    def __init__(self, op, args, id):
        self.op = op
        self.args = args
        self.id = id

    def __repr__(self):
        return show(self, 4)

    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __bool__(self):
        raise TypeError('symbolic truth value')

    # arithmetic, so numpy object arrays work elementwise
    def __add__(self, o):
        return add(self, o) if _num(o) else NotImplemented

    def __radd__(self, o):
        return add(o, self) if _num(o) else NotImplemented

    def __sub__(self, o):
        return sub(self, o) if _num(o) else NotImplemented

    def __rsub__(self, o):
        return sub(o, self) if _num(o) else NotImplemented

    def __mul__(self, o):
        return mul(self, o) if _num(o) else NotImplemented

    def __rmul__(self, o):
        return mul(o, self) if _num(o) else NotImplemented

    def __truediv__(self, o):
        return div(self, o) if _num(o) else NotImplemented

    def __rtruediv__(self, o):
        return div(o, self) if _num(o) else NotImplemented

    def __pow__(self, o):
        return pow_(self, o) if _num(o) else NotImplemented

    def __rpow__(self, o):
        return pow_(o, self) if _num(o) else NotImplemented

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return func('abs', self)

    def __floordiv__(self, o):
        return mk('floordiv', (self, o)) if _num(o) else NotImplemented

    def __rfloordiv__(self, o):
        return mk('floordiv', (o, self)) if _num(o) else NotImplemented

    def __mod__(self, o):
        return mk('mod', (self, o)) if _num(o) else NotImplemented

    def __rmod__(self, o):
        return mk('mod', (o, self)) if _num(o) else NotImplemented

    @property
    def isbool(self):
        return self.op in BOOLOPS


# set while one partition of a trace-partitioned analysis runs
DECIDER = None

BOOLOPS = {'cmp', 'and', 'or', 'not', 'batom'}


def _num(o):
    return isinstance(o, (Term, int, float, complex, np.number, np.bool_))


def isconst(x):
    return not isinstance(x, Term)


def reset():
    _table.clear()


def mk(op, args):
    key = (op,) + tuple(('t', a.id) if isinstance(a, Term) else ('c', type(a).__name__ if isinstance(a, str) else 'n', a) for a in args)
    t = _table.get(key)
    if t is None:
        t = Term(op, args, next(_count))
        _table[key] = t
    return t


def atom(*key):
    """Free variable; key is a tuple of hashables, e.g. ('in', name, index)."""
    return mk('atom', (key,)) if False else _mkatom('atom', key)


def batom(*key):
    if DECIDER is not None:
        return DECIDER.bool(key)
    return _mkatom('batom', key)


def _mkatom(op, key):
    k = (op, key)
    t = _table.get(k)
    if t is None:
        t = Term(op, (key,), next(_count))
        _table[k] = t
    return t


def _py(x):
    if isinstance(x, np.generic):
        return x.item()
    return x


def _bool2num(x):
    if isinstance(x, Term) and x.op in BOOLOPS:
        return ite(x, 1.0, 0.0)
    if isinstance(x, bool):
        return int(x)
    return x


def add(a, b):
    a, b = _bool2num(_py(a)), _bool2num(_py(b))
    if isconst(a) and isconst(b):
        return a + b
    if isconst(a) and a == 0:
        return b
    if isconst(b) and b == 0:
        return a
    if not isconst(a) and not isconst(b) and a.id > b.id:
        a, b = b, a
    elif isconst(a):
        a, b = b, a
    return mk('add', (a, b))


def neg(a):
    a = _bool2num(_py(a))
    if isconst(a):
        return -a
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', (a,))


def sub(a, b):
    a, b = _bool2num(_py(a)), _bool2num(_py(b))
    if isconst(a) and isconst(b):
        return a - b
    if isconst(b) and b == 0:
        return a
    if isconst(a) and a == 0:
        return neg(b)
    if a is b:
        return 0.0
    return mk('sub', (a, b))


def mul(a, b):
    a, b = _bool2num(_py(a)), _bool2num(_py(b))
    if isconst(a) and isconst(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if isconst(x):
            if x == 0:
                return 0.0
            if x == 1:
                return y
            if x == -1:
                return neg(y)
    if not isconst(a) and not isconst(b) and a.id > b.id:
        a, b = b, a
    elif isconst(b):
        a, b = b, a
    return mk('mul', (a, b))


def div(a, b):
    a, b = _bool2num(_py(a)), _bool2num(_py(b))
    if isconst(a) and isconst(b):
        if b == 0:
            return float('nan') if a == 0 else math.inf
        return a / b
    if isconst(b) and b == 1:
        return a
    if isconst(a) and a == 0:
        return 0.0
    return mk('div', (a, b))


def pow_(a, b):
    a, b = _bool2num(_py(a)), _bool2num(_py(b))
    if isconst(a) and isconst(b):
        try:
            return a**b
        except ZeroDivisionError:
            return math.inf
        except OverflowError:
            return math.inf
    if isconst(b):
        if b == 0:
            return 1.0
        if b == 1:
            return a
    return mk('pow', (a, b))


_C = {
    'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'exp': np.exp, 'log': np.log, 'log10': np.log10,
    'sqrt': np.sqrt, 'arcsin': np.arcsin, 'arccos': np.arccos, 'arctan': np.arctan,
    'sinh': np.sinh, 'cosh': np.cosh, 'tanh': np.tanh, 'abs': np.abs, 'floor': np.floor,
    'ceil': np.ceil, 'sign': np.sign, 'int': np.trunc, 'round': np.round, 'log2': np.log2,
    'log1p': np.log1p, 'expm1': np.expm1, 'arctanh': np.arctanh, 'arcsinh': np.arcsinh,
    'arccosh': np.arccosh, 'cbrt': np.cbrt,
}


def func(name, a):
    a = _bool2num(_py(a))
    if isconst(a):
        with np.errstate(all='ignore'):
            r = _C[name](a)
        return _py(r)
    if name == 'abs':
        c = cmp_('ge', a, 0.0)
        return mk('tag', ('abs', ite(c, a, neg(a))))
    if name == 'sign':
        return mk('tag', ('sign', ite(cmp_('gt', a, 0.0), 1.0, -1.0)))
    return mk(name, (a,))


def tag(name, a):
    if isconst(a):
        return a
    return mk('tag', (name, a))


# ---------------------------------------------------------------- booleans


def _r(x):
    return float('%.10g' % x)


_lin = {}


def linear(t):
    """t as (dict term -> coeff, const)."""
    if isconst(t):
        return {}, t
    op = t.op
    if op == 'add' or op == 'sub':
        d1, c1 = linear(t.args[0])
        d2, c2 = linear(t.args[1])
        s = 1 if op == 'add' else -1
        d = dict(d1)
        for k, v in d2.items():
            d[k] = d.get(k, 0) + s * v
        return {k: v for k, v in d.items() if v != 0}, c1 + s * c2
    if op == 'neg':
        d, c = linear(t.args[0])
        return {k: -v for k, v in d.items()}, -c
    if op == 'mul' and isconst(t.args[0]):
        d, c = linear(t.args[1])
        return {k: v * t.args[0] for k, v in d.items()}, c * t.args[0]
    if op == 'div' and isconst(t.args[1]):
        d, c = linear(t.args[0])
        return {k: v / t.args[1] for k, v in d.items()}, c / t.args[1]
    if op == 'tag' and t.args[0] in ('re', 'float'):
        return linear(t.args[1])
    return {t: 1.0}, 0.0


_NEG = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}
_FLIP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}


def cmp_(op, a, b):
    """canonical comparison -> bool or Term ('cmp', op in lt/le/eq, group key, threshold)."""
    a, b = _bool2num(_py(a)), _bool2num(_py(b))
    if isconst(a) and isconst(b):
        if isinstance(a, complex):
            a = a.real
        if isinstance(b, complex):
            b = b.real
        return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'eq': a == b, 'ne': a != b}[op]
    d, c = linear(sub(a, b))
    if isinstance(c, complex):
        c = c.real
    if not d:
        z = 0.0
        return {'lt': c < z, 'le': c <= z, 'gt': c > z, 'ge': c >= z, 'eq': c == z, 'ne': c != z}[op]
    if DECIDER is not None:
        return DECIDER.cmp(op, d, c)
    items = sorted(d.items(), key=lambda kv: kv[0].id)
    lead = items[0][1]
    grp = tuple((k, _r(v / lead)) for k, v in items)
    thr = _r(-c / lead)
    if lead < 0:
        op = _FLIP[op]
    # reduce to lt / le / eq, possibly negated
    negate = False
    if op in ('gt', 'ge', 'ne'):
        op = _NEG[op]
        negate = True
    key = ('cmp', op, tuple((k.id, v) for k, v in grp), thr)
    t = _table.get(key)
    if t is None:
        t = Term('cmp', (op, grp, thr), next(_count))
        _table[key] = t
    return not_(t) if negate else t


def tobool(x):
    """truth of a scalar value as bool or boolean Term."""
    if isinstance(x, Term):
        if x.op in BOOLOPS:
            return x
        return cmp_('ne', x, 0.0)
    return bool(x)


def not_(a):
    a = tobool(a)
    if a is True or a is False:
        return not a
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,))


def and_(*xs):
    out = []
    for x in xs:
        x = tobool(x)
        if x is False:
            return False
        if x is True:
            continue
        if x.op == 'and':
            out.extend(x.args)
        else:
            out.append(x)
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    changed = True
    while changed:
        changed = False
        s = set(seen)
        for i, x in enumerate(seen):
            if not_(x) in s:
                return False
            if x.op == 'not' and x.args[0].op == 'and':
                inner = x.args[0].args
                if any(not_(y) in s for y in inner):
                    seen.pop(i)
                    changed = True
                    break
                rest = [y for y in inner if y not in s]
                if len(rest) < len(inner):
                    if not rest:
                        return False
                    seen.pop(i)
                    y = not_(and_(*rest))
                    for z in (y.args if y.op == 'and' else (y,)):
                        if z not in seen:
                            seen.append(z)
                    changed = True
                    break
    if not seen:
        return True
    if len(seen) == 1:
        return seen[0]
    return mk('and', tuple(sorted(seen, key=lambda t: t.id)))


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def ite(c, a, b):
    c = tobool(c)
    if c is True:
        return a
    if c is False:
        return b
    a, b = _py(a), _py(b)
    if isinstance(a, Term) and a.op in BOOLOPS or isinstance(b, Term) and b.op in BOOLOPS or (isinstance(a, bool) and isinstance(b, bool)):
        if isinstance(a, (bool, Term)) and isinstance(b, (bool, Term)) and (isinstance(a, bool) or a.op in BOOLOPS) and (isinstance(b, bool) or b.op in BOOLOPS):
            return or_(and_(c, a), and_(not_(c), b))
        a, b = _bool2num(a), _bool2num(b)
    if a is b:
        return a
    if isconst(a) and isconst(b) and a == b and type(a) == type(b):
        return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if isinstance(a, Term) and a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, Term) and b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('ite', (c, a, b))


# ---------------------------------------------------------------- traversal


def children(t):
    if t.op == 'atom' or t.op == 'batom':
        return ()
    if t.op == 'cmp':
        return tuple(k for k, _ in t.args[1])
    if t.op == 'tag':
        return (t.args[1],) if isinstance(t.args[1], Term) else ()
    if t.op == 'uf':
        return tuple(a for a in t.args[1:] if isinstance(a, Term))
    return tuple(a for a in t.args if isinstance(a, Term))


def topo(roots, known=()):
    """postorder of all reachable nodes (iterative), not entering nodes whose id is known."""
    seen = set(known)
    out = []
    stack = [(r, False) for r in reversed(roots) if isinstance(r, Term)]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for c in children(t):
            if c.id not in seen:
                stack.append((c, False))
    return out


def show(t, depth=6):
    if not isinstance(t, Term):
        if isinstance(t, float):
            return '%.6g' % t
        return repr(t)
    if t.op in ('atom', 'batom'):
        k = t.args[0]
        return '.'.join(str(x) for x in k[1:]) if k[0] in ('in', 'opt') else ':'.join(str(x) for x in k)
    if depth <= 0:
        return '...'
    d = depth - 1
    if t.op == 'cmp':
        s = ' + '.join((show(k, d) if v == 1 else '%g*%s' % (v, show(k, d))) for k, v in t.args[1])
        return '(%s %s %.6g)' % (s, {'lt': '<', 'le': '<=', 'eq': '=='}[t.args[0]], t.args[2])
    if t.op == 'tag':
        return '%s(%s)' % (t.args[0], show(t.args[1], d))
    if t.op == 'uf':
        return '%s(%s)' % (t.args[0], ', '.join(show(a, d) for a in t.args[1:]))
    sym = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'pow': '**', 'floordiv': '//', 'mod': '%'}.get(t.op)
    if sym:
        return '(%s %s %s)' % (show(t.args[0], d), sym, show(t.args[1], d))
    return '%s(%s)' % (t.op, ', '.join(show(a, d) for a in t.args))
