"""Unit expressions: dimension vector, factor and offset (unit library shipped with OpenMDAO)."""

import ast
import math
import os

LIB = os.path.join(os.path.dirname(__file__), '..', 'data', 'unit_library.ini')
_units = {}
_prefix = {}
_base = set()


class UnitError(Exception):
    pass


class U:
    __slots__ = ('f', 'd', 'o')

    def __init__(self, f, d, o=0.0):
        self.f, self.d, self.o = f, {k: v for k, v in d.items() if v}, o

    def __mul__(self, b):
        if not isinstance(b, U):
            return U(self.f * b, self.d)
        d = dict(self.d)
        for k, v in b.d.items():
            d[k] = d.get(k, 0) + v
        return U(self.f * b.f, d)

    __rmul__ = __mul__

    def __pow__(self, n):
        return U(self.f**n, {k: v * n for k, v in self.d.items()})

    def __truediv__(self, b):
        if not isinstance(b, U):
            return U(self.f / b, self.d)
        return self * b**-1

    def __rtruediv__(self, a):
        return U(a, {}) * self**-1

    def same_dim(self, b):
        return self.d == b.d


_defs = {}


def _load():
    sec = None
    for line in open(LIB):
        line = line.split('#')[0].strip()
        if not line:
            continue
        if line.startswith('['):
            sec = line[1:-1]
            continue
        k, v = line.split(':', 1)
        k = k.strip()
        parts = [p.strip() for p in v.split(',')]
        if sec == 'prefixes':
            _prefix[k] = float(eval(parts[0], {}))
        elif sec == 'base_units':
            _units[parts[0]] = U(1.0, {parts[0]: 1} if parts[0] != 'unitless' else {})
        else:
            _defs[k] = parts


def _get(name):
    if not _units:
        _load()
    if name in _units:
        return _units[name]
    if name in _defs:
        p = _defs[name]
        try:
            fac = float(p[0])
            if len(p) >= 3:
                b = _get(p[1])
                u = U(fac * b.f, b.d, float(p[2]))
                _units[name] = u
                return u
        except ValueError:
            pass
        u = parse(p[0])
        _units[name] = u
        return u
    for n in (2, 1):
        if len(name) > n and name[:n] in _prefix:
            try:
                return _get(name[n:]) * _prefix[name[:n]]
            except UnitError:
                pass
    raise UnitError(name)


_cache = {}


def parse(s):
    if s is None or s == 'unitless':
        return U(1.0, {})
    if s in _cache:
        return _cache[s]
    try:
        t = ast.parse(s.replace('^', '**'), mode='eval').body
    except SyntaxError:
        raise UnitError(s)

    def ev(n):
        if isinstance(n, ast.BinOp):
            a, b = ev(n.left), ev(n.right)
            if isinstance(n.op, ast.Mult):
                return a * b
            if isinstance(n.op, ast.Div):
                return a / b
            if isinstance(n.op, ast.Pow):
                return a**b
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -ev(n.operand)
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id == 'pi':
                return math.pi
            return _get(n.id)
        raise UnitError(s)

    r = ev(t)
    if not isinstance(r, U):
        r = U(float(r), {})
    _cache[s] = r
    return r


def compatible(a, b):
    if a in (None, 'unitless') or b in (None, 'unitless'):
        return a in (None, 'unitless') and b in (None, 'unitless') or not parse(a if b in (None, 'unitless') else b).d
    return parse(a).same_dim(parse(b))


def factor(a, b):
    """(factor, offset) such that y = (x + offset) * factor converts a -> b"""
    ua, ub = parse(a), parse(b)
    if not ua.same_dim(ub):
        raise UnitError('%s -> %s' % (a, b))
    fac = ua.f / ub.f
    return fac, ua.o - ub.o / fac
