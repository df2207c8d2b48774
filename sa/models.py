"""Models of builtins, numpy, math and the parts of OpenMDAO that components use."""

import fnmatch
import functools
import math

import numpy as np

from . import interp as I
from . import terms as T
from . import units as U
from .terms import Term
from .interp import (
    AbstractRaise, ClassObj, EnumClass, EnumMember, ExcObj, External, FuncObj, BoundMethod, IndexMask,
    InstObj, MaskedSel, Opaque, PyFunc, PyMethod, Unsupported, _UF, all_const, concrete, ew, is_arr,
    is_num, narrow_bool, objarray, to_obj, opq_term, Choice,
)

EXT = {}
EXTATTR = {}
BASE = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f

    return d


def npf(*names):
    return ext(*['numpy.' + n for n in names])


def A(x):
    """numeric argument as object array or scalar"""
    if isinstance(x, Opaque):
        raise OpaqueArg(x)
    if isinstance(x, (list, tuple)):
        return objarray(x)
    if isinstance(x, (str, dict, type(None))):
        raise Unsupported('numeric arg %s' % type(x).__name__)
    return x


class OpaqueArg(Exception):
    def __init__(self, o):
        self.o = o


def arg(args, kwargs, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kwargs.get(name, default)


def cint(x):
    if isinstance(x, Term) and T.DECIDER is not None:
        return T.DECIDER.int(x)
    if isinstance(x, (Term, Opaque)):
        raise Unsupported('symbolic int')
    if isinstance(x, np.ndarray):
        c = concrete(x)
        if c is None:
            if T.DECIDER is not None and x.size == 1:
                return T.DECIDER.int(x.ravel()[0])
            raise Unsupported('symbolic int')
        return c
    return x


def norm_shape(s):
    if isinstance(s, Opaque):
        raise Unsupported('opaque shape')
    if isinstance(s, (tuple, list)):
        return tuple(int(cint(x)) for x in s)
    if isinstance(s, np.ndarray):
        return tuple(int(x) for x in cint(s))
    s = cint(s)
    if isinstance(s, float):
        raise AbstractRaise(ExcObj('TypeError', ['float shape']))
    return (int(s),)


def is_int_dtype(d):
    if d is None:
        return False
    if isinstance(d, External):
        return 'int' in d.name
    if isinstance(d, str):
        return d.startswith('int') or d in ('i', 'i4', 'i8')
    return d is int or getattr(d, 'f', None) is int


def is_bool_dtype(d):
    return isinstance(d, External) and d.name in ('builtins.bool', 'numpy.bool_', 'numpy.bool') or d is bool


def real_array(a, dtype=None):
    """remember that the code made this array real-valued"""
    if T.REALS is not None and is_arr(a) and a.dtype == object and (dtype is None or dtype is float or (isinstance(dtype, External) and 'float' in dtype.name)):
        T.REALS[id(a)] = a
    return a


def is_real_array(a):
    while is_arr(a):
        if id(a) in T.REALS:
            return True
        a = a.base
    return False


def nocs(v):
    """a value a complex step does not survive"""
    if isinstance(v, Term):
        return T.tag('nocs', v)
    if is_arr(v) and v.dtype == object:
        return np.frompyfunc(nocs, 1, 1)(v)
    return v


def _nocs_if(v):
    return nocs(v) if T.REALS is not None else v


def filled(shape, v, dtype=None):
    shape = norm_shape(shape)
    if is_int_dtype(dtype) and not isinstance(v, Term):
        return np.full(shape, v, dtype=int)
    if is_bool_dtype(dtype) and not isinstance(v, Term):
        return np.full(shape, bool(v), dtype=bool)
    out = np.empty(shape, dtype=object)
    out.fill(v)
    return out


def wrap(f):
    """call a real numpy function on concrete/object arrays, mapping failures to abstract raises"""

    def g(*a, **k):
        try:
            r = f(*a, **k)
        except (ValueError, IndexError) as e:
            raise AbstractRaise(ExcObj(type(e).__name__, [str(e)]))
        except TypeError as e:
            raise Unsupported('numpy %s: %s' % (getattr(f, '__name__', '?'), e))
        return fix(r)

    return g


def fix(r):
    if isinstance(r, np.generic):
        return r.item()
    if isinstance(r, np.ndarray):
        if r.dtype.kind in 'fc':
            return to_obj(r)
        return r
    if isinstance(r, tuple):
        return tuple(fix(x) for x in r)
    if isinstance(r, list):
        return [fix(x) for x in r]
    return r


def dt(interp, a, k, i=None):
    return k.get('dtype')


# ------------------------------------------------------------------ numpy: creation


@npf('zeros', 'empty')
def _zeros(ip, a, k):
    return real_array(filled(arg(a, k, 0, 'shape'), 0.0 if not is_int_dtype(arg(a, k, 1, 'dtype')) else 0, arg(a, k, 1, 'dtype')), arg(a, k, 1, 'dtype'))


@npf('ones')
def _ones(ip, a, k):
    return real_array(filled(arg(a, k, 0, 'shape'), 1.0 if not is_int_dtype(arg(a, k, 1, 'dtype')) else 1, arg(a, k, 1, 'dtype')), arg(a, k, 1, 'dtype'))


@npf('full')
def _full(ip, a, k):
    v = arg(a, k, 1, 'fill_value')
    s = norm_shape(arg(a, k, 0, 'shape'))
    if isinstance(v, Opaque):
        return v
    if is_arr(v) or isinstance(v, (list, tuple)):
        return np.array(np.broadcast_to(objarray(v), s))
    r = filled(s, v, arg(a, k, 2, 'dtype'))
    return r if isinstance(v, Term) else real_array(r, arg(a, k, 2, 'dtype'))


@npf('zeros_like', 'empty_like')
def _zl(ip, a, k):
    x = A(a[0])
    if is_arr(x) and x.dtype.kind == 'i' and 'dtype' not in k:
        return np.zeros(x.shape, int)
    return filled(np.shape(x), 0.0, k.get('dtype')) if np.shape(x) != () else np.array(0.0, dtype=object).reshape(())


@npf('ones_like')
def _ol(ip, a, k):
    x = A(a[0])
    return filled(np.shape(x), 1.0, k.get('dtype'))


@npf('full_like')
def _fl(ip, a, k):
    x = A(a[0])
    return _full(ip, [np.shape(x), a[1]], {})


@npf('array', 'asarray', 'ascontiguousarray', 'asanyarray')
def _array(ip, a, k):
    x = a[0]
    d = arg(a, k, 1, 'dtype')
    if isinstance(x, (MaskedSel, IndexMask)):
        return x
    if isinstance(x, Opaque):
        return x
    if isinstance(x, (dict, type(None))) or type(x).__name__ in ('dict_keys', 'dict_values'):
        x = ip.iterate(x) if x is not None else [None]
    if isinstance(x, (set, range)) or (isinstance(x, InstObj)):
        x = ip.iterate(x)
    if is_arr(x) and x.dtype != object:
        return np.array(x, dtype=None)
    o = objarray(x)
    o = np.array(o, dtype=object, copy=True) if o.shape else o
    if any(isinstance(e, (Opaque, Choice)) for e in o.ravel()):
        for i in np.ndindex(*o.shape):
            if isinstance(o[i], (Opaque, Choice)):
                o[i] = opq_term('array element')
    if is_int_dtype(d) or (d is None and o.size and all(isinstance(e, (int, np.integer)) and not isinstance(e, bool) for e in o.ravel())):
        c = concrete(o)
        if c is not None and c.dtype.kind in 'if':
            return c.astype(int)
    if o.size and all(isinstance(e, (bool, np.bool_)) for e in o.ravel()):
        return o.astype(bool)
    if T.REALS is not None and o.shape and not any(isinstance(e, Term) for e in o.ravel()):
        real_array(o, d)
    elif T.REALS is not None and d is not None and (d is float or (isinstance(d, External) and 'float' in d.name)):
        o = nocs(o)
    return o


@npf('arange')
def _arange(ip, a, k):
    a = [cint(x) for x in a]
    r = np.arange(*a, **({} if not is_int_dtype(k.get('dtype')) else {'dtype': int}))
    return fix(r)


@npf('linspace')
def _linspace(ip, a, k):
    lo, hi = A(a[0]), A(a[1])
    n = int(cint(arg(a, k, 2, 'num', 50)))
    if isinstance(lo, Term) or isinstance(hi, Term):
        d = T.sub(hi, lo)
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = T.add(lo, T.mul(d, i / (n - 1) if n > 1 else 0.0))
        return out
    return fix(np.linspace(lo, hi, n, endpoint=k.get('endpoint', True)))


@npf('eye', 'identity')
def _eye(ip, a, k):
    d = k.get('dtype')
    r = np.eye(*[int(cint(x)) for x in a])
    return r.astype(int) if is_int_dtype(d) else to_obj(r)


@npf('tri')
def _tri(ip, a, k):
    return to_obj(np.tri(*[int(cint(x)) for x in a], **{q: cint(v) for q, v in k.items() if q == 'k'}))


@npf('tril_indices', 'triu_indices', 'diag_indices')
def _tri_ix(ip, a, k):
    raise Unsupported('name lost')


for _n in ('tril_indices', 'triu_indices', 'diag_indices', 'indices', 'ndindex', 'unravel_index', 'ravel_multi_index', 'mgrid'):
    EXT['numpy.' + _n] = (lambda _n: lambda ip, a, k: fix(getattr(np, _n)(*[cint(x) for x in a], **{q: cint(v) for q, v in k.items()})))(_n)


# ------------------------------------------------------------------ numpy: shape


def shapef(name, nargs=1, f=None):
    fn = f or getattr(np, name)

    def h(ip, a, k):
        b = []
        for i, x in enumerate(a):
            if i < nargs:
                x = A(x)
                if isinstance(x, MaskedSel):
                    raise Unsupported('masked %s' % name)
                b.append(x if is_arr(x) else objarray(x))
            else:
                b.append(_plain(x))
        r = wrap(fn)(*b, **{q: _plain(v) for q, v in k.items() if not (q == 'dtype' and name == 'prod')})
        if name == 'prod' and 'dtype' in k and is_int_dtype(k['dtype']) and not is_arr(r) and not isinstance(r, T.Term) and r == int(r):
            return int(r)
        return r

    EXT['numpy.' + name] = h


def _plain(x):
    if isinstance(x, Opaque):
        raise Unsupported('opaque arg')
    if isinstance(x, np.ndarray):
        c = concrete(x)
        return x if c is None else c
    if isinstance(x, tuple):
        return tuple(_plain(e) for e in x)
    if isinstance(x, list):
        return [_plain(e) for e in x]
    return x


for _n in ('reshape', 'transpose', 'ravel', 'squeeze', 'expand_dims', 'flip', 'fliplr', 'flipud', 'roll', 'swapaxes',
           'tile', 'repeat', 'broadcast_to', 'diag', 'diagonal', 'atleast_1d', 'atleast_2d', 'copy', 'delete',
           'cumsum', 'cumprod', 'diff', 'prod', 'tril', 'triu', 'trace', 'take', 'rollaxis', 'moveaxis', 'split', 'array_split'):
    shapef(_n)
for _n in ('outer', 'append', 'kron', 'cross', 'inner'):
    shapef(_n, 2)
shapef('insert', 3)


@npf('append')
def _append(ip, a, k):
    x, y = A(a[0]), A(a[1])
    x, y = objarray(x), objarray(y)
    ax = arg(a, k, 2, 'axis')
    r = wrap(np.append)(x, y, axis=ax)
    c = concrete(r)
    if c is not None and c.dtype.kind == 'i' and c.size and all(isinstance(e, int) for e in r.ravel()):
        return c
    return r


@npf('outer')
def _outer(ip, a, k):
    x, y = objarray(A(a[0])).ravel(), objarray(A(a[1])).ravel()
    return _UF['mul'](x[:, None], y[None, :])


@npf('sum', 'nansum')
def _sum(ip, a, k):
    x = A(a[0])
    if isinstance(x, MaskedSel):
        raise Unsupported('masked sum')
    if is_num(x):
        return x
    if isinstance(x, I.InstObj):
        return Opaque('sum')
    x = x if is_arr(x) else objarray(x)
    if x.dtype == object:
        ax = arg(a, k, 1, 'axis')
        if x.size == 0 and ax is None:
            return 0.0
        return _reduce('add', x, ax, k.get('keepdims', False))
    return wrap(np.sum)(x, **{q: _plain(v) for q, v in k.items() if q in ('axis', 'keepdims')}, **({'axis': a[1]} if len(a) > 1 else {}))


def _reduce(op, x, axis=None, keepdims=False):
    f = _UF[op]
    if axis is None:
        r = functools.reduce(lambda p, q: f(p, q), list(x.ravel()))
        return r
    if isinstance(axis, (tuple, list)):
        for ax in sorted([ax % x.ndim for ax in axis], reverse=True):
            x = _reduce(op, x, ax)
        return x
    axis = int(cint(axis)) % x.ndim
    xs = np.moveaxis(x, axis, 0)
    r = xs[0]
    for e in xs[1:]:
        r = f(r, e)
    r = np.asarray(r, dtype=object) if not is_arr(r) and x.ndim > 1 else r
    if keepdims:
        r = np.expand_dims(np.asarray(r, dtype=object), axis)
    return r


@npf('mean', 'average')
def _mean(ip, a, k):
    if k.get('weights') is not None:
        return Opaque('average')
    x = A(a[0])
    if is_num(x):
        return x
    x = objarray(x)
    ax = arg(a, k, 1, 'axis')
    n = x.size if ax is None else x.shape[ax]
    return ew('div', _reduce('add', x, ax), n)


@npf('max', 'amax', 'min', 'amin', 'nanmax', 'nanmin')
def _mx(ip, a, k):
    raise Unsupported('replaced')


def _minmax(name):
    def h(ip, a, k):
        x = A(a[0])
        if is_num(x):
            return x
        if isinstance(x, MaskedSel):
            raise Unsupported('masked max')
        c = concrete(x)
        ax = arg(a, k, 1, 'axis')
        if c is not None:
            if c.size == 0:
                raise AbstractRaise(ExcObj('ValueError', ['zero-size array']))
            return fix(getattr(np, name)(c, axis=ax))
        return _reduce(name, objarray(x), ax, k.get('keepdims', False))

    return h


for _n in ('max', 'amax', 'nanmax'):
    EXT['numpy.' + _n] = _minmax('max')
for _n in ('min', 'amin', 'nanmin'):
    EXT['numpy.' + _n] = _minmax('min')


@npf('argmax', 'argmin', 'argsort', 'sort', 'searchsorted', 'unique', 'digitize', 'lexsort', 'argwhere', 'flatnonzero', 'intersect1d', 'union1d', 'setdiff1d', 'isin', 'in1d', 'array_equal', 'histogram', 'count_nonzero', 'median', 'std', 'var')
def _none(ip, a, k):
    raise Unsupported('replaced')


def _searchsorted(ip, a, k):
    """table lookup of data: the bin is a data-dependent integer, one per partition"""
    if T.DECIDER is None:
        return None
    tab, x = objarray(a[0]), a[1]
    if isinstance(x, (list, tuple)):
        x = objarray(x)
    if concrete(x) is not None and concrete(tab) is not None:
        return None
    xs = to_obj(x)
    side = k.get('side', a[2] if len(a) > 2 else 'left')

    def one(v):
        if not isinstance(v, Term):
            v = T.tag('const', v) if isinstance(v, Term) else v
            if concrete(tab) is not None:
                return int(np.searchsorted(concrete(tab), v))
        key = T.mk('uf', (('searchsorted', ()), v) + tuple(tab.ravel()[:2]))
        return T.DECIDER.search(key, v, tab, side)

    return np.frompyfunc(one, 1, 1)(xs) if is_arr(xs) else one(xs)


def _conc_only(name):
    def h(ip, a, k):
        if name == 'searchsorted':
            r = _searchsorted(ip, a, k)
            if r is not None:
                return r
        b = []
        for x in a:
            if is_arr(x) or isinstance(x, (list, tuple)):
                c = concrete(objarray(x))
                if c is None:
                    raise Unsupported('numpy.%s on data' % name)
                b.append(c)
            elif isinstance(x, (Term, Opaque)):
                raise Unsupported('numpy.%s on data' % name)
            else:
                b.append(x)
        return wrap(getattr(np, name))(*b, **{q: _plain(v) for q, v in k.items()})

    return h


for _n in ('argmax', 'argmin', 'argsort', 'sort', 'searchsorted', 'unique', 'digitize', 'lexsort', 'argwhere', 'flatnonzero', 'intersect1d', 'union1d', 'setdiff1d', 'isin', 'array_equal', 'histogram', 'count_nonzero', 'median', 'std', 'var', 'meshgrid', 'ix_', 'logspace', 'geomspace', 'gcd', 'lcm', 'polyfit', 'fix'):
    if hasattr(np, _n):
        EXT['numpy.' + _n] = _conc_only(_n)
EXT['numpy.linalg.inv'] = lambda ip, a, k: fix(np.linalg.inv(_plain(a[0]))) if concrete(a[0]) is not None else (_ for _ in ()).throw(Unsupported('inv'))


def _sort(ip, a, k):
    """a sorting network for short vectors of data"""
    x = A(a[0])
    if not is_arr(x) or x.ndim != 1 or concrete(x) is not None or x.size > 8 or k:
        return _conc_only('sort')(ip, a, k)
    v = list(x)
    for p in range(len(v)):
        for i in range(p % 2, len(v) - 1, 2):
            c = T.cmp_('le', v[i], v[i + 1])
            v[i], v[i + 1] = T.ite(c, v[i], v[i + 1]), T.ite(c, v[i + 1], v[i])
    return objarray(v)


EXT['numpy.sort'] = _sort


@npf('concatenate', 'hstack', 'vstack', 'stack', 'column_stack', 'dstack')
def _cat0(ip, a, k):
    raise Unsupported('replaced')


def _cat(name):
    def h(ip, a, k):
        xs = ip.iterate(a[0])
        if any(isinstance(x, Opaque) for x in xs):
            return Opaque('cat')
        allint = all(is_arr(x) and x.dtype != object for x in xs)
        ys = [x if allint else objarray(x) for x in xs]
        return wrap(getattr(np, name))(ys, **{q: v for q, v in k.items() if q == 'axis'}, **({'axis': a[1]} if len(a) > 1 else {}))

    return h


for _n in ('concatenate', 'hstack', 'vstack', 'stack', 'column_stack', 'dstack'):
    EXT['numpy.' + _n] = _cat(_n)


@npf('fill_diagonal')
def _fd(ip, a, k):
    x, v = a[0], a[1]
    n = min(x.shape)
    i = np.arange(n)
    if is_arr(v) and v.size > 1:
        v = objarray(v).ravel()[:n]
    ip.arr_set(x, (i, i), v, ip.full_guard())


@npf('dot', 'matmul', 'vdot')
def _dot(ip, a, k):
    x, y = A(a[0]), A(a[1])
    if is_num(x) or is_num(y):
        return ew('mul', x, y)
    r = ip.dot(x, y)
    return r


@npf('einsum')
def _einsum(ip, a, k):
    spec = a[0].replace(' ', '')
    ops = [objarray(A(x)) for x in a[1:]]
    if '->' not in spec:
        l = ''.join(sorted(c for c in set(spec.replace(',', '')) if spec.replace(',', '').count(c) == 1))
        spec = spec + '->' + l
    ins, out = spec.split('->')
    ins = ins.split(',')
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise AbstractRaise(ExcObj('ValueError', ['einsum']))
        for c, n in zip(s, o.shape):
            if dims.setdefault(c, n) != n:
                raise AbstractRaise(ExcObj('ValueError', ['einsum']))
    summed = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for ix in np.ndindex(*res.shape):
        env = dict(zip(out, ix))
        tot = 0.0
        for sx in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, sx))
            p = 1.0
            for s, o in zip(ins, ops):
                p = T.mul(p, o[tuple(env[c] for c in s)])
            tot = T.add(tot, p)
        res[ix] = tot
    return res if res.shape else res[()]


# ------------------------------------------------------------------ numpy: elementwise


def emap(name):
    uf = np.frompyfunc(lambda x: T.func(name, x), 1, 1)

    def h(ip, a, k):
        x = A(a[0])
        if isinstance(x, MaskedSel):
            return MaskedSel(x.mask, uf(to_obj(x.vals)))
        r = uf(to_obj(x))
        if k.get('where') is not None:
            raise Unsupported('where=')
        return r

    return h


for _n, _f in (('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('exp', 'exp'), ('log', 'log'), ('log10', 'log10'), ('log2', 'log2'),
               ('sqrt', 'sqrt'), ('arcsin', 'arcsin'), ('arccos', 'arccos'), ('arctan', 'arctan'), ('sinh', 'sinh'),
               ('cosh', 'cosh'), ('tanh', 'tanh'), ('abs', 'abs'), ('absolute', 'abs'), ('fabs', 'abs'), ('floor', 'floor'),
               ('ceil', 'ceil'), ('sign', 'sign'), ('trunc', 'int'), ('log1p', 'log1p'), ('expm1', 'expm1'), ('cbrt', 'cbrt'),
               ('arctanh', 'arctanh'), ('arcsinh', 'arcsinh'), ('arccosh', 'arccosh'), ('asin', 'arcsin'), ('acos', 'arccos'),
               ('atan', 'arctan'), ('round', 'round'), ('rint', 'round'), ('around', 'round')):
    EXT['numpy.' + _n] = emap(_f)
    EXT['math.' + _n] = (lambda h: lambda ip, a, k: h(ip, [nocs(x) for x in a] if T.REALS is not None else a, k))(emap(_f))
EXT['math.log'] = lambda ip, a, k: emap('log')(ip, a, k) if len(a) == 1 else ew('div', emap('log')(ip, a[:1], k), emap('log')(ip, a[1:], k))
EXT['math.floor'] = lambda ip, a, k: math.floor(a[0]) if not isinstance(a[0], (Term, Opaque)) else emap('floor')(ip, a, k)
EXT['math.ceil'] = lambda ip, a, k: math.ceil(a[0]) if not isinstance(a[0], (Term, Opaque)) else emap('ceil')(ip, a, k)
EXT['math.isclose'] = lambda ip, a, k: math.isclose(*a, **k)
EXT['math.pow'] = lambda ip, a, k: ew('pow', a[0], a[1])
EXT['math.isnan'] = lambda ip, a, k: False if isinstance(a[0], Term) else math.isnan(a[0])
EXT['numpy.isnan'] = lambda ip, a, k: np.zeros(np.shape(A(a[0])), bool) if not is_num(a[0]) else (False if isinstance(a[0], Term) else bool(np.isnan(a[0])))
EXT['numpy.isinf'] = EXT['numpy.isnan']
EXT['numpy.isfinite'] = lambda ip, a, k: np.ones(np.shape(A(a[0])), bool)
EXT['numpy.isreal'] = lambda ip, a, k: np.ones(np.shape(A(a[0])), bool) if is_arr(a[0]) else True
EXT['numpy.iscomplexobj'] = lambda ip, a, k: _complexobj(a[0])


def _complexobj(x):
    """under a complex step (tracked by T.REALS) whatever depends on an input is complex"""
    if T.REALS is None:
        return False
    return any(isinstance(t, Term) and not (t.op == 'tag' and t.args[0] in ('nocs', 're', 'float')) for t in (x.ravel() if is_arr(x) else [x]))


EXT['numpy.iscomplex'] = lambda ip, a, k: False
EXT['numpy.isrealobj'] = lambda ip, a, k: not _complexobj(a[0])
EXT['numpy.seterr'] = lambda ip, a, k: None
EXT['numpy.errstate'] = lambda ip, a, k: None
EXT['numpy.printoptions'] = lambda ip, a, k: None
EXT['numpy.set_printoptions'] = lambda ip, a, k: None
EXT['numpy.real_if_close'] = lambda ip, a, k: a[0]
EXT['numpy.nan_to_num'] = lambda ip, a, k: a[0]


def tagmap(name):
    uf = np.frompyfunc(lambda x: T.tag(name, x) if isinstance(x, Term) else (x.real if isinstance(x, complex) else x), 1, 1)

    def h(ip, a, k):
        x = A(a[0])
        if isinstance(x, MaskedSel):
            return MaskedSel(x.mask, uf(to_obj(x.vals)))
        if is_arr(x) and x.dtype != object:
            return x
        return uf(x)

    return h


EXT['numpy.real'] = tagmap('re')
EXT['numpy.imag'] = lambda ip, a, k: ew('mul', A(a[0]), 0.0)


def bin_(op):
    def h(ip, a, k):
        x, y = A(a[0]), A(a[1])
        if k.get('where') is not None or k.get('out') is not None:
            raise Unsupported('ufunc out/where')
        if all_const(x) and all_const(y) and not isinstance(x, MaskedSel) and not isinstance(y, MaskedSel):
            pass
        return ew(op, x, y)

    return h


for _n, _f in (('add', 'add'), ('subtract', 'sub'), ('multiply', 'mul'), ('divide', 'div'), ('true_divide', 'div'), ('power', 'pow'),
               ('float_power', 'pow'), ('maximum', 'max'), ('minimum', 'min'), ('fmax', 'max'), ('fmin', 'min'), ('greater', 'gt'),
               ('less', 'lt'), ('greater_equal', 'ge'), ('less_equal', 'le'), ('equal', 'eq'), ('not_equal', 'ne'),
               ('logical_and', 'and'), ('logical_or', 'or'), ('bitwise_and', 'and'), ('bitwise_or', 'or'), ('mod', 'mod'), ('remainder', 'mod'), ('floor_divide', 'floordiv')):
    EXT['numpy.' + _n] = bin_(_f)
EXT['numpy.logical_not'] = lambda ip, a, k: ew('not', A(a[0]))
EXT['numpy.invert'] = EXT['numpy.logical_not']
EXT['numpy.negative'] = lambda ip, a, k: ew('neg', A(a[0]))
EXT['numpy.square'] = lambda ip, a, k: ew('mul', A(a[0]), A(a[0]))
EXT['numpy.reciprocal'] = lambda ip, a, k: ew('div', 1.0, A(a[0]))
EXT['numpy.hypot'] = lambda ip, a, k: _nocs_if(emap('sqrt')(ip, [ew('add', ew('mul', a[0], a[0]), ew('mul', a[1], a[1]))], {}))
EXT['numpy.radians'] = lambda ip, a, k: ew('mul', A(a[0]), math.pi / 180)
EXT['numpy.deg2rad'] = EXT['numpy.radians']
EXT['math.radians'] = EXT['numpy.radians']
EXT['numpy.degrees'] = lambda ip, a, k: ew('mul', A(a[0]), 180 / math.pi)
EXT['numpy.rad2deg'] = EXT['numpy.degrees']
EXT['math.degrees'] = EXT['numpy.degrees']


def _atan2(x, y):
    if not isinstance(x, Term) and not isinstance(y, Term):
        return float(np.arctan2(x, y))
    return T.mk('arctan', (T.div(x, y),)) if isinstance(T.div(x, y), Term) else math.atan(T.div(x, y))


EXT['numpy.arctan2'] = lambda ip, a, k: tagmap('arctan2')(ip, [np.frompyfunc(_atan2, 2, 1)(to_obj(A(a[0])), to_obj(A(a[1])))], {})
EXT['openmdao.utils.cs_safe.arctan2'] = lambda ip, a, k: np.frompyfunc(_atan2, 2, 1)(to_obj(A(a[0])), to_obj(A(a[1])))
EXT['openmdao.utils.cs_safe.abs'] = lambda ip, a, k: _csabs(A(a[0]))
EXT['openmdao.utils.cs_safe.norm'] = lambda ip, a, k: emap('sqrt')(ip, [_sum(ip, [ew('mul', a[0], a[0])], {'axis': k.get('axis')})], {})
EXT['numpy.linalg.norm'] = lambda ip, a, k: _nocs_if(EXT['openmdao.utils.cs_safe.norm'](ip, a, k))


def _csabs(x):
    f = np.frompyfunc(lambda v: abs(v) if not isinstance(v, Term) else T.ite(T.cmp_('ge', v, 0.0), v, T.neg(v)), 1, 1)
    if isinstance(x, MaskedSel):
        return MaskedSel(x.mask, f(to_obj(x.vals)))
    return f(to_obj(x))


@npf('clip')
def _clip(ip, a, k):
    x = A(a[0])
    lo = arg(a, k, 1, 'a_min')
    hi = arg(a, k, 2, 'a_max')
    if lo is not None:
        x = ew('max', x, A(lo))
    if hi is not None:
        x = ew('min', x, A(hi))
    return x


@npf('where')
def _where(ip, a, k):
    c = a[0]
    if isinstance(c, Opaque):
        return c
    if isinstance(c, (list, tuple)):
        c = objarray(c)
    if len(a) == 1:
        if isinstance(c, MaskedSel):
            raise Unsupported('where of masked')
        cc = concrete(c)
        if cc is not None:
            return np.where(cc)
        return (IndexMask(c),) if np.ndim(c) == 1 else _raise(Unsupported('where nd'))
    x, y = A(a[1]), A(a[2])
    cc = concrete(c) if not isinstance(c, MaskedSel) else None
    c = to_obj(c)
    for z in (x, y):
        if isinstance(z, (str, EnumMember)):
            raise Unsupported('where strings')
    return ew('ite', c, x, y)


EXT['numpy.nonzero'] = lambda ip, a, k: _where(ip, a, k)


def _raise(e):
    raise e


@npf('select')
def _select(ip, a, k):
    conds = [A(c) for c in a[0]]
    vals = [A(c) for c in a[1]]
    r = arg(a, k, 2, 'default', 0.0)
    for c, v in reversed(list(zip(conds, vals))):
        r = ew('ite', to_obj(c), v, r)
    return r


@npf('piecewise')
def _piecewise(ip, a, k):
    x = A(a[0])
    conds = a[1] if isinstance(a[1], list) else [a[1]]
    fs = a[2]
    r = 0.0 if len(fs) == len(conds) else _pw(ip, fs[-1], x)
    # later conditions win
    for c, f in zip(conds, fs):
        r = ew('ite', to_obj(c), _pw(ip, f, x), r)
    if is_arr(x) and not is_arr(r):
        r = filled(x.shape, r)
    return r


def _pw(ip, f, x):
    if is_num(f) or is_arr(f):
        return f
    return ip.call(f, [x], {})


@npf('any')
def _any(ip, a, k):
    x = A(a[0])
    if isinstance(x, MaskedSel):
        raise Unsupported('masked any')
    if k.get('axis') is not None:
        return wrap(np.any)(concrete(x), axis=k['axis'])
    return T.or_(*[T.tobool(v) for v in objarray(x).ravel()])


@npf('all')
def _all(ip, a, k):
    x = A(a[0])
    if k.get('axis') is not None:
        return wrap(np.all)(concrete(x), axis=k['axis'])
    return T.and_(*[T.tobool(v) for v in objarray(x).ravel()])


EXT['numpy.allclose'] = lambda ip, a, k: bool(np.allclose(concrete(objarray(a[0])), concrete(objarray(a[1])))) if concrete(objarray(a[0])) is not None and concrete(objarray(a[1])) is not None else _raise(Unsupported('allclose'))
EXT['numpy.isclose'] = lambda ip, a, k: _isclose(ip, a, k)


def _isclose(ip, a, k):
    x, y = A(a[0]), A(a[1])
    cx, cy = concrete(x), concrete(y)
    if cx is not None and cy is not None:
        r = np.isclose(cx, cy)
        return bool(r) if np.ndim(r) == 0 else r
    return ew('eq', x, y)


EXT['numpy.array_equal'] = lambda ip, a, k: bool(np.array_equal(concrete(objarray(a[0])), concrete(objarray(a[1])))) if concrete(objarray(a[0])) is not None and concrete(objarray(a[1])) is not None else _raise(Unsupported('array_equal'))


def _shape(ip, a, k):
    x = A(a[0])
    return tuple(np.shape(x))


EXT['numpy.shape'] = _shape
EXT['numpy.size'] = lambda ip, a, k: int(np.size(A(a[0]))) if len(a) == 1 else np.shape(A(a[0]))[a[1]]
EXT['numpy.ndim'] = lambda ip, a, k: np.ndim(A(a[0]))
EXT['numpy.isscalar'] = lambda ip, a, k: is_num(a[0]) or isinstance(a[0], str)
EXT['numpy.iterable'] = lambda ip, a, k: isinstance(a[0], (list, tuple, dict, str)) or (is_arr(a[0]) and a[0].ndim > 0)
EXT['numpy.issubdtype'] = lambda ip, a, k: Opaque('issubdtype')
for _n in ('float64', 'float32', 'double'):
    EXT['numpy.' + _n] = lambda ip, a, k: _float(ip, a, k)
for _n in ('int32', 'int64', 'int_'):
    EXT['numpy.' + _n] = lambda ip, a, k: _int(ip, a, k)


def trapz(ip, a, k):
    y = objarray(A(a[0]))
    x = arg(a, k, 1, 'x')
    if y.ndim != 1:
        raise Unsupported('trapz nd')
    if x is None:
        d = [k.get('dx', 1.0)] * (len(y) - 1)
    else:
        x = objarray(A(x))
        d = [T.sub(x[i + 1], x[i]) for i in range(len(x) - 1)]
    tot = 0.0
    for i in range(len(y) - 1):
        tot = T.add(tot, T.mul(0.5, T.mul(d[i], T.add(y[i], y[i + 1]))))
    return tot


EXT['numpy.trapz'] = trapz
EXT['numpy.trapezoid'] = trapz


@npf('interp')
def _interp(ip, a, k):
    x, xp, fp = A(a[0]), A(a[1]), A(a[2])
    cx, cp, cf = concrete(x), concrete(objarray(xp)), concrete(objarray(fp))
    if cx is not None and cp is not None and cf is not None:
        return fix(np.interp(cx, cp, cf))
    if cp is not None and cf is not None:
        name = ('interp', tuple(cp), tuple(cf))
        f = np.frompyfunc(lambda v: T.mk('uf', ((repr(name), ()), v)) if isinstance(v, Term) else float(np.interp(v, cp, cf)), 1, 1)
        return f(to_obj(x))
    xs = list(objarray(xp).ravel()) + list(objarray(fp).ravel())
    f = np.frompyfunc(lambda v: T.mk('uf', (('np.interp', ()), v, *xs)), 1, 1)
    return f(to_obj(x))


EXT['numpy.vectorize'] = lambda ip, a, k: PyFunc(lambda *xs: np.frompyfunc(lambda *v: ip.call(a[0], list(v), {}), len(xs), 1)(*[to_obj(A(x)) for x in xs]))
EXT['numpy.polyval'] = lambda ip, a, k: functools.reduce(lambda acc, c: ew('add', ew('mul', acc, a[1]), c), list(objarray(a[0])), 0.0)
EXT['numpy.apply_along_axis'] = lambda ip, a, k: Opaque('apply_along_axis')
EXT['numpy.testing.assert_almost_equal'] = lambda ip, a, k: None

EXTATTR.update({
    'numpy.pi': math.pi, 'numpy.e': math.e, 'numpy.inf': math.inf, 'numpy.nan': math.nan, 'numpy.newaxis': None,
    'math.pi': math.pi, 'math.e': math.e, 'math.inf': math.inf, 'math.nan': math.nan, 'numpy.Inf': math.inf,
    'scipy.constants.g': 9.80665, 'scipy.constants.degree': math.pi / 180, 'scipy.constants.pi': math.pi,
})


# ------------------------------------------------------------------ array attributes / methods


def arr_attr(ip, o, name):
    if isinstance(o, MaskedSel):
        if name in ('real',):
            return o
        raise Unsupported('masked.%s' % name)
    isarr = is_arr(o)
    if name == 'T':
        return o.T if isarr else o
    if name == 'shape':
        return tuple(np.shape(o))
    if name == 'size':
        return int(np.size(o))
    if name == 'ndim':
        return int(np.ndim(o))
    if name == 'real':
        return tagmap('re')(ip, [o], {})
    if name == 'imag':
        return ew('mul', o, 0.0)
    if name == 'dtype':
        if isarr and o.dtype.kind == 'i':
            return External('numpy.int64')
        if isarr and o.dtype.kind == 'b':
            return External('builtins.bool')
        return DType()
    if name == 'flat':
        return o.ravel()
    if name == 'name' or name == 'value':
        raise AbstractRaise(ExcObj('AttributeError', ['number has no attribute %s' % name]))
    if name in ARRM:
        return PyMethod(ARRM[name], o)
    if hasattr(np.ndarray, name) or (not isarr and hasattr(float, name)):
        raise Unsupported('array.%s' % name)
    raise AbstractRaise(ExcObj('AttributeError', ['array has no attribute %s' % name]))


class DType:
    """dtype of float data (float or complex under complex step)"""

    def sa_getattr(self, ip, name):
        if name == 'kind':
            return 'f'
        if name == 'type':
            return External('numpy.float64')
        return Opaque('dtype.' + name)

    def __eq__(self, o):
        return isinstance(o, DType)

    def __hash__(self):
        return 7


ARRM = {}
for _n in ('reshape',):
    ARRM[_n] = lambda ip, o, a, k: wrap(np.reshape)(o, _plain(tuple(a) if len(a) > 1 else a[0]) if a else k['shape'], **({'order': k['order']} if 'order' in k else {}))
for _n in ('ravel', 'flatten'):
    ARRM[_n] = lambda ip, o, a, k, _n=_n: (np.ravel(o) if _n == 'ravel' else np.array(np.ravel(o))) if not a and not k else wrap(np.ravel)(o, order=(a[0] if a else k['order']))
for _n in ('transpose', 'squeeze', 'repeat', 'cumsum', 'prod', 'take', 'diagonal', 'swapaxes', 'cumprod', 'trace'):
    ARRM[_n] = lambda ip, o, a, k, _n=_n: wrap(getattr(np.ndarray, _n))(o, *[_plain(x) for x in a], **{x: v for x, v in k.items() if x != 'dtype'})
for _n in ('sum', 'mean', 'max', 'min', 'any', 'all', 'dot', 'argmax', 'argmin', 'argsort', 'clip', 'round', 'searchsorted', 'std'):
    ARRM[_n] = lambda ip, o, a, k, _n=_n: EXT['numpy.' + _n](ip, [o] + list(a), k)
ARRM['copy'] = lambda ip, o, a, k: np.array(o) if is_arr(o) else o
ARRM['tolist'] = lambda ip, o, a, k: o.tolist()
ARRM['conjugate'] = lambda ip, o, a, k: o
ARRM['conj'] = ARRM['conjugate']


def _astype(ip, o, a, k):
    d = a[0] if a else k['dtype']
    if is_int_dtype(d):
        c = concrete(o)
        if c is not None:
            return c.astype(int)
        return np.frompyfunc(lambda v: T.func('int', v), 1, 1)(o)
    if isinstance(d, External) and 'bool' in d.name:
        c = concrete(o)
        if c is not None:
            return c.astype(bool)
    if isinstance(d, External) and ('float' in d.name) or d is float:
        return tagmap('float')(ip, [np.array(to_obj(o))], {})
    return np.array(to_obj(o))


ARRM['astype'] = _astype


def _item(ip, o, a, k):
    if a:
        return ip.getitem(o, a[0] if len(a) == 1 else tuple(a))
    if is_arr(o):
        if o.size != 1:
            raise AbstractRaise(ExcObj('ValueError', ['can only convert an array of size 1']))
        v = o.ravel()[0]
        return v.item() if isinstance(v, np.generic) else v
    return o


ARRM['item'] = _item


def _fill(ip, o, a, k):
    ip.arr_set(o, slice(None), a[0], ip.full_guard())


ARRM['fill'] = _fill
ARRM['nonzero'] = lambda ip, o, a, k: _where(ip, [o], {})
ARRM['is_integer'] = lambda ip, o, a, k: float(o).is_integer() if not isinstance(o, Term) else _raise(Unsupported('is_integer'))

# ------------------------------------------------------------------ builtins


def _float(ip, a, k):
    if not a:
        return 0.0
    x = a[0]
    if isinstance(x, Opaque):
        return x
    if is_arr(x):
        if x.size != 1:
            raise AbstractRaise(ExcObj('TypeError', ['only size-1 arrays can be converted']))
        x = x.ravel()[0]
    if isinstance(x, Term):
        return T.tag('float', x)
    try:
        return float(x)
    except (ValueError, TypeError) as e:
        raise AbstractRaise(ExcObj(type(e).__name__, [str(e)]))


def _int(ip, a, k):
    if not a:
        return 0
    x = a[0]
    if isinstance(x, Opaque):
        return x
    if is_arr(x):
        if x.size != 1:
            raise AbstractRaise(ExcObj('TypeError', ['only size-1 arrays can be converted']))
        x = x.ravel()[0]
    if isinstance(x, Term):
        if x.op == 'tag' and x.args[0] == 'intopt':
            return x
        return T.func('int', x)
    if isinstance(x, EnumMember):
        x = x.value
    try:
        return int(*([x] + list(a[1:])))
    except (ValueError, TypeError, OverflowError) as e:
        raise AbstractRaise(ExcObj(type(e).__name__, [str(e)]))


def _minmax_b(op):
    def f(*a, **k):
        ip = CUR[0]
        xs = ip.iterate(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if 'default' in k:
                return k['default']
            raise AbstractRaise(ExcObj('ValueError', ['empty sequence']))
        if any(isinstance(x, Opaque) for x in xs):
            return Opaque('min/max')
        if k.get('key') is not None:
            return (min if op == 'min' else max)(xs, key=lambda x: ip.call(k['key'], [x], {}))
        r = xs[0]
        if not all(is_num(x) or is_arr(x) for x in xs):
            return (min if op == 'min' else max)(xs)
        for x in xs[1:]:
            # python max keeps the first maximal element
            if is_arr(x) and x.size == 1:
                x = x.ravel()[0]
            if is_arr(r) and r.size == 1:
                r = r.ravel()[0]
            if is_arr(x) or is_arr(r):
                raise AbstractRaise(ExcObj('ValueError', ['truth value of an array']))
            c = T.cmp_('lt' if op == 'min' else 'gt', x, r)
            r = T.ite(c, x, r)
        return r

    return f


CUR = [None]


def _len(x):
    if isinstance(x, Opaque):
        return Opaque('len')
    if isinstance(x, (MaskedSel, IndexMask)):
        raise Unsupported('len of masked')
    if isinstance(x, InstObj):
        m, _ = x.cls.lookup('__len__')
        if m is not None:
            return CUR[0].call(BoundMethod(m, x), [], {})
        if '__dict_items__' in x.attrs:
            return len(x.attrs['__dict_items__'])
    if isinstance(x, EnumClass):
        return len(x.members)
    if isinstance(x, (list, tuple, dict, str, set, frozenset, range)) or type(x).__name__.startswith('dict_'):
        return len(x)
    if is_arr(x):
        if x.ndim == 0:
            raise AbstractRaise(ExcObj('TypeError', ['len() of unsized object']))
        return len(x)
    if hasattr(x, 'sa_len'):
        return x.sa_len()
    raise AbstractRaise(ExcObj('TypeError', ['object of type %s has no len()' % type(x).__name__]))


def _isinstance(x, c):
    ip = CUR[0]
    if isinstance(c, (tuple, list)):
        rs = [_isinstance(x, e) for e in c]
        if any(r is True for r in rs):
            return True
        for r in rs:
            if isinstance(r, Opaque):
                return r
        return False
    if isinstance(x, Opaque):
        return Opaque('isinstance ' + x.why)
    if isinstance(c, ClassObj):
        if isinstance(x, InstObj):
            return any(m is c for m in x.cls.mro)
        if isinstance(x, EnumMember):
            return any(m is c for m in x.cls.mro)
        return False
    name = c.name if isinstance(c, External) else (getattr(c, '__name__', None) if isinstance(c, type) else None)
    if name is None:
        return Opaque('isinstance')
    short = name.split('.')[-1]
    if isinstance(x, Term):
        return short in ('float', 'float64', 'Number', 'floating', 'object', 'Real') if not x.isbool else short in ('bool', 'bool_')
    if isinstance(x, InstObj):
        eb = x.cls.external_bases()
        if name in eb or name == 'builtins.object':
            return True
        if any(b.split('.')[-1] == short for b in eb):
            return True
        # component bases imply System / Component
        return short in ('System',) and any('Component' in b or b.endswith('Group') for b in eb)
    if isinstance(x, EnumMember):
        return short in ('Enum',) or (x.is_int and short in ('int', 'IntEnum', 'Integral', 'Number')) or (x.is_str and short == 'str')
    if isinstance(x, bool):
        return short in ('bool', 'int', 'bool_', 'object', 'Number')
    if isinstance(x, int):
        return short in ('int', 'Number', 'Integral', 'object', 'integer', 'Real')
    if isinstance(x, float):
        return short in ('float', 'Number', 'Real', 'object', 'floating', 'float64')
    if isinstance(x, np.ndarray):
        return short in ('ndarray', 'Iterable', 'object', 'Collection')
    if isinstance(x, str):
        return short in ('str', 'Iterable', 'Sequence', 'object', 'Hashable')
    if isinstance(x, (list, tuple)):
        return short in (type(x).__name__, 'Iterable', 'Sequence', 'object', 'Collection')
    if isinstance(x, dict):
        return short in ('dict', 'Mapping', 'Iterable', 'object', 'MutableMapping')
    if isinstance(x, (set, frozenset)):
        return short in (type(x).__name__, 'Iterable', 'object')
    if x is None:
        return short == 'NoneType'
    if isinstance(x, (ClassObj, External)):
        return short in ('type', 'object', 'ABCMeta', 'EnumMeta')
    if isinstance(x, (FuncObj, BoundMethod)):
        return short in ('Callable', 'FunctionType')
    return Opaque('isinstance')


def _issubclass(x, c):
    if isinstance(c, (tuple, list)):
        return any(_issubclass(x, e) is True for e in c)
    if isinstance(x, ClassObj):
        return any(m is c for m in x.mro)
    if isinstance(x, External) and isinstance(c, External):
        return x is c
    return False


def _type(x, *a):
    if isinstance(x, InstObj):
        return x.cls
    if isinstance(x, EnumMember):
        return x.cls
    if isinstance(x, Term):
        return External('builtins.float')
    if isinstance(x, np.ndarray):
        return External('numpy.ndarray')
    if isinstance(x, Opaque):
        return x
    if isinstance(x, ClassObj):
        return External('builtins.type')
    return External('builtins.' + type(x).__name__)


def _getattr(o, n, *d):
    try:
        r = CUR[0].getattr(o, n)
        return r
    except AbstractRaise:
        if d:
            return d[0]
        raise


def _hasattr(o, n):
    if isinstance(o, Opaque):
        return Opaque('hasattr')
    try:
        r = CUR[0].getattr(o, n)
        if isinstance(r, Opaque) and not r.why.startswith('external'):
            return Opaque('hasattr') if isinstance(o, (InstObj,)) else r
        return True
    except (AbstractRaise, Unsupported):
        return False


def _sum_b(xs, start=0):
    ip = CUR[0]
    if isinstance(xs, Opaque):
        return xs
    r = start
    for x in ip.iterate(xs):
        r = ip.binop(I._BIN[__import__('ast').Add], r, x)
    return r


def _sorted(xs, key=None, reverse=False):
    ip = CUR[0]
    xs = ip.iterate(xs)
    if any(isinstance(x, (Term, Opaque)) for x in xs):
        raise Unsupported('sorted data')
    try:
        return sorted(xs, key=(lambda x: ip.call(key, [x], {})) if key is not None else None, reverse=reverse)
    except TypeError:
        raise Unsupported('sorted')


def _abs(x):
    if isinstance(x, Opaque):
        return x
    return EXT['numpy.abs'](CUR[0], [x], {}) if isinstance(x, (Term, MaskedSel)) or is_arr(x) else abs(x)


def _round(x, n=None):
    if isinstance(x, (Term,)) or is_arr(x):
        return emap('round')(CUR[0], [x], {})
    if isinstance(x, Opaque):
        return x
    return round(x, n) if n is not None else round(x)


def _print(*a, **k):
    CUR[0].events.append(('print', CUR[0].cur_node, CUR[0].where()))


def _str(*a):
    if not a:
        return ''
    if isinstance(a[0], Opaque):
        return a[0]
    if isinstance(a[0], InstObj):
        return Opaque('str')
    return str(a[0])


def _dict(*a, **k):
    ip = CUR[0]
    d = {}
    for x in a:
        if isinstance(x, dict):
            d.update(x)
        else:
            for e in ip.iterate(x):
                kk, vv = ip.iterate(e)
                d[ip.key(kk)] = vv
    d.update(k)
    return d


def _map(f, *its):
    ip = CUR[0]
    return [ip.call(f, list(x), {}) for x in zip(*[ip.iterate(i) for i in its])]


def _filter(f, it):
    ip = CUR[0]
    out = []
    for x in ip.iterate(it):
        t = ip.truth(x if f is None else ip.call(f, [x], {}))
        if t is True:
            out.append(x)
        elif t is not False:
            raise Unsupported('filter on data')
    return out


def _range(*a):
    for x in a:
        if isinstance(x, (Term, Opaque)):
            raise Unsupported('range over data')
    b = []
    for x in a:
        if is_arr(x):
            x = x.item()
        if isinstance(x, float):
            raise AbstractRaise(ExcObj('TypeError', ['float in range']))
        b.append(int(x))
    return range(*b)


def _next(it, *d):
    ip = CUR[0]
    xs = ip.iterate(it)
    if xs:
        return xs[0]
    if d:
        return d[0]
    raise AbstractRaise(ExcObj('StopIteration', []))


def _bool(x=False):
    return CUR[0].truth(x)


def _anyb(x):
    ip = CUR[0]
    return T.or_(*[ip.truth(v) for v in ip.iterate(x)])


def _allb(x):
    ip = CUR[0]
    return T.and_(*[ip.truth(v) for v in ip.iterate(x)])


def _setattr_b(o, n, v):
    CUR[0].setattr(o, n, v)


BUILT = {
    'len': _len, 'range': _range, 'isinstance': _isinstance, 'issubclass': _issubclass, 'type': _type, 'getattr': _getattr,
    'hasattr': _hasattr, 'setattr': _setattr_b, 'sum': _sum_b, 'sorted': _sorted, 'abs': _abs, 'round': _round, 'print': _print, 'str': _str,
    'repr': _str, 'dict': _dict, 'map': _map, 'filter': _filter, 'next': _next, 'bool': _bool, 'any': _anyb, 'all': _allb,
    'min': _minmax_b('min'), 'max': _minmax_b('max'),
    'float': lambda *a: _float(CUR[0], a, {}), 'int': lambda *a: _int(CUR[0], a, {}),
    'complex': lambda *a: a[0] if a else 0j,
    'list': lambda *a: list(CUR[0].iterate(a[0])) if a and not isinstance(a[0], Opaque) else (a[0] if a else []),
    'tuple': lambda *a: tuple(CUR[0].iterate(a[0])) if a and not isinstance(a[0], Opaque) else (a[0] if a else ()),
    'set': lambda *a: set(CUR[0].key(x) for x in CUR[0].iterate(a[0])) if a else set(),
    'frozenset': lambda *a: frozenset(CUR[0].key(x) for x in CUR[0].iterate(a[0])) if a else frozenset(),
    'enumerate': lambda x, start=0: [(i + start, v) for i, v in enumerate(CUR[0].iterate(x))],
    'zip': lambda *a, **k: [tuple(x) for x in zip(*[CUR[0].iterate(i) for i in a])],
    'reversed': lambda x: list(reversed(CUR[0].iterate(x))),
    'iter': lambda x: x, 'callable': lambda x: isinstance(x, (FuncObj, BoundMethod, ClassObj, PyFunc, PyMethod)),
    'id': lambda x: id(x), 'hash': lambda x: hash(x), 'divmod': lambda a, b: (a // b, a % b), 'pow': lambda a, b: ew('pow', a, b),
    'object': lambda *a: Opaque('object()'), 'open': lambda *a, **k: Opaque('open'), 'input': lambda *a: Opaque('input'),
    'vars': lambda o=None: o.attrs if isinstance(o, InstObj) else Opaque('vars'), 'dir': lambda *a: Opaque('dir'), 'chr': chr, 'ord': ord,
    'slice': slice, 'format': lambda *a: str(a[0]), 'bytes': lambda *a: Opaque('bytes'), 'super': lambda *a: Opaque('super'), 'exit': lambda *a: Opaque('exit'),
}

TYPES = {'int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'frozenset', 'complex', 'type', 'object', 'bytes'}


def install(ip):
    CUR[0] = ip
    ip.builtins = {}
    for n, f in BUILT.items():
        if n in TYPES:
            ip.builtins[n] = External('builtins.' + n)

            def h(ip_, a, k, f=f):
                return f(*a, **k)

            EXT['builtins.' + n] = h
        else:
            ip.builtins[n] = PyFunc(f)
    ip.builtins.update({'True': True, 'False': False, 'None': None, 'Ellipsis': Ellipsis, '__name__': 'aviary', '__file__': '', 'property': External('builtins.property'), 'staticmethod': External('builtins.staticmethod'), 'classmethod': External('builtins.classmethod'), 'NotImplemented': External('builtins.NotImplemented')})
    ip.externals = _Guarded(EXT)
    ip.ext_attr = EXTATTR
    ip.ext_base_methods = BASE


class _Guarded(dict):
    """externals: opaque arguments give opaque results"""

    def get(self, name, default=None):
        f = dict.get(self, name)
        if f is None:
            return default

        def h(ip, a, k):
            try:
                a = [ip.read(x) if isinstance(x, Choice) else x for x in a]
                return f(ip, a, k)
            except OpaqueArg as e:
                return e.o

        return h


EXT['warnings.warn'] = lambda ip, a, k: ip.events.append(('warn', ip.cur_node, ip.where()))
EXT['openmdao.utils.om_warnings.issue_warning'] = EXT['warnings.warn']
EXT['openmdao.api.issue_warning'] = EXT['warnings.warn']
EXT['warnings.simplefilter'] = lambda ip, a, k: None
EXT['warnings.filterwarnings'] = lambda ip, a, k: None
EXT['warnings.catch_warnings'] = lambda ip, a, k: None
EXT['copy.deepcopy'] = lambda ip, a, k: _deepcopy(a[0])
EXT['copy.copy'] = lambda ip, a, k: _copy(a[0])
EXT['enum.auto'] = lambda ip, a, k: Opaque('auto')
EXT['itertools.product'] = lambda ip, a, k: list(__import__('itertools').product(*[ip.iterate(x) for x in a], **k))
EXT['itertools.chain'] = lambda ip, a, k: [y for x in a for y in ip.iterate(x)]
EXT['functools.partial'] = lambda ip, a, k: PyFunc(lambda *b, **kk: ip.call(a[0], list(a[1:]) + list(b), {**k, **kk}))
EXT['collections.OrderedDict'] = lambda ip, a, k: _dict(*a, **k)
EXT['collections.defaultdict'] = lambda ip, a, k: Opaque('defaultdict')
EXT['pathlib.Path'] = lambda ip, a, k: Opaque('Path')


def _copy(x):
    if isinstance(x, (dict, list, set)):
        return type(x)(x)
    if is_arr(x):
        return np.array(x)
    if isinstance(x, InstObj):
        y = InstObj(x.cls)
        y.attrs = dict(x.attrs)
        return y
    return x


def _deepcopy(x, memo=None):
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    if isinstance(x, dict):
        r = memo[id(x)] = {}
        for k, v in x.items():
            r[k] = _deepcopy(v, memo)
        return r
    if isinstance(x, list):
        r = memo[id(x)] = []
        r.extend(_deepcopy(v, memo) for v in x)
        return r
    if isinstance(x, tuple):
        return tuple(_deepcopy(v, memo) for v in x)
    if isinstance(x, set):
        return set(x)
    if is_arr(x):
        return np.array(x)
    if isinstance(x, InstObj):
        y = memo[id(x)] = InstObj(x.cls)
        for k, v in x.attrs.items():
            y.attrs[k] = _deepcopy(v, memo)
        return y
    return x


# ------------------------------------------------------------------ namedtuple, interpolation tables, KS


class NTClass:
    """class returned by collections.namedtuple; attributes may be set on the class itself"""

    def __init__(self, name, fields):
        self.name, self.fields, self.attrs = name, fields, {}

    def sa_getattr(self, ip, name):
        if name in self.attrs:
            return self.attrs[name]
        if name == '__name__':
            return self.name
        if name == '_fields':
            return tuple(self.fields)
        raise AbstractRaise(ExcObj('AttributeError', ['%s has no attribute %s' % (self.name, name)]))

    def sa_setattr(self, ip, name, v):
        self.attrs[name] = v

    def sa_call(self, ip, a, k):
        return NTObj(self, dict(zip(self.fields, a), **k))


class NTObj:
    def __init__(self, cls, vals):
        self.cls, self.vals = cls, vals

    def sa_getattr(self, ip, name):
        if name in self.vals:
            return self.vals[name]
        return self.cls.sa_getattr(ip, name)

    def sa_iter(self, ip):
        return [self.vals[f] for f in self.cls.fields if f in self.vals]

    def sa_getitem(self, ip, k):
        return self.sa_iter(ip)[k]

    def sa_len(self):
        return len(self.vals)


def _namedtuple(ip, a, k):
    f = a[1] if len(a) > 1 else k['field_names']
    if isinstance(f, str):
        f = f.replace(',', ' ').split()
    if isinstance(f, Opaque):
        return Opaque('namedtuple')
    return NTClass(a[0], list(f))


EXT['collections.namedtuple'] = _namedtuple


def _digest(x):
    import hashlib

    return hashlib.sha256(np.ascontiguousarray(x, dtype=float).tobytes()).hexdigest()[:16]


class InterpTable:
    """openmdao InterpND: an unknown smooth function of the coordinates, one per table"""

    def __init__(self, ip, k):
        self.k = k
        pts = k.get('points')
        if isinstance(pts, Opaque) or isinstance(k.get('values'), Opaque):
            raise Unsupported('opaque table')
        self.axes = [objarray(p) for p in pts] if isinstance(pts, (tuple, list)) and len(pts) and (is_arr(pts[0]) or isinstance(pts[0], (list, tuple))) else [objarray(pts)]
        self.nd = len(self.axes)
        self.method = k.get('method', 'slinear')
        v = k.get('values')
        self.values = objarray(v) if v is not None else None
        self.x_interp = objarray(k['x_interp']) if k.get('x_interp') is not None else None

    def ident(self):
        vals = [concrete(x) for x in self.axes + ([self.values] if self.values is not None else [])]
        if any(v is None for v in vals):
            return None
        return 'table:%s:%s' % (self.method, ':'.join(_digest(v) for v in vals))

    def sa_getattr(self, ip, name):
        if name in ('interpolate', 'evaluate_spline'):
            return PyFunc(lambda *a, **k: getattr(self, name)(ip, a, k))
        return Opaque('InterpND.' + name)

    def weights(self, x):
        """(w_i, dw_i/dx) of interpolation methods that are linear in the table values"""
        ax = self.axes[0]
        key = 'w:%s:' % self.method
        ca = concrete(ax)
        extra = () if ca is not None else tuple(ax.ravel())
        key += _digest(ca) if ca is not None else 'sym'
        cx = x if not isinstance(x, Term) else None
        if ca is not None and cx is not None and self.method == 'slinear':
            return [(float(np.interp(cx, ca.astype(float), np.eye(len(ca))[i])), 0.0) for i in range(len(ca))]
        return [(T.mk('uf', (('%s:%d' % (key, i), ()), x) + extra), T.mk('uf', (('%s:%d' % (key, i), (0,)), x) + extra)) for i in range(ax.size)]

    def interpolate(self, ip, a, k):
        x = a[0] if a else k['x']
        der = arg(a, k, 1, 'compute_derivative', False)
        if isinstance(x, (list, tuple)):
            x = np.atleast_2d(to_obj(objarray(x)))
        x = to_obj(x)
        if not is_arr(x):
            x = np.array([[x]], dtype=object)
        elif x.ndim < 2:
            x = np.atleast_2d(x) if self.nd > 1 else np.atleast_2d(x).T
        n, d = x.shape
        if d != self.nd:
            raise Unsupported('table rank')
        val = np.empty(n, dtype=object)
        dv = np.empty((n, d), dtype=object)
        ident = self.ident()
        for i in range(n):
            row = [v for v in x[i]]
            if ident is not None:
                if any(isinstance(v, Opaque) for v in row):
                    raise Unsupported('opaque coordinate')
                val[i] = T.mk('uf', ((ident, ()),) + tuple(row))
                for j in range(d):
                    dv[i, j] = T.mk('uf', ((ident, (j,)),) + tuple(row))
            else:
                if self.nd != 1 or self.method not in ('slinear', 'lagrange2', 'lagrange3', 'cubic'):
                    raise Unsupported('table with computed values')
                s, ds = 0.0, 0.0
                for (w, dw), v in zip(self.weights(row[0]), self.values.ravel()):
                    s = T.add(s, T.mul(w, v))
                    ds = T.add(ds, T.mul(dw, v))
                val[i], dv[i, 0] = s, ds
        return (val, dv) if der else val

    def evaluate_spline(self, ip, a, k):
        v = objarray(a[0] if a else k['values'])
        if arg(a, k, 1, 'compute_derivative', False):
            raise Unsupported('spline derivative')
        v = to_obj(v)
        v2 = v[None, :] if v.ndim == 1 else v
        out = np.empty((v2.shape[0], self.x_interp.size), dtype=object)
        for q, xk in enumerate(self.x_interp.ravel()):
            ws = self.weights(xk)
            for r in range(v2.shape[0]):
                s = 0.0
                for (w, _), vv in zip(ws, v2[r]):
                    s = T.add(s, T.mul(w, vv))
                out[r, q] = s
        return out.ravel() if out.shape[0] == 1 else out


def _interpnd(ip, a, k):
    k = dict(zip(['method', 'points', 'values', 'x_interp', 'extrapolate', 'num_cp'], a), **k)
    return InterpTable(ip, k)


EXT['openmdao.components.interp_util.interp.InterpND'] = _interpnd
EXT['openmdao.api.InterpND'] = _interpnd


def _ks(ip, a, k):
    g = np.atleast_2d(to_obj(A(a[0] if a else k['g'])))
    rho = arg(a, k, 1, 'rho', 50.0)
    val = np.empty((g.shape[0], 1), dtype=object)
    dg = np.empty(g.shape, dtype=object)
    dr = np.empty((g.shape[0], 1), dtype=object)
    n = g.shape[1]
    for i in range(g.shape[0]):
        if n == 1:
            val[i, 0], dg[i, 0], dr[i, 0] = g[i, 0], 1.0, 0.0
        else:
            args = tuple(g[i]) + (rho,)
            val[i, 0] = T.mk('uf', (('KS%d' % n, ()),) + args)
            for j in range(n):
                dg[i, j] = T.mk('uf', (('KS%d' % n, (j,)),) + args)
            dr[i, 0] = T.mk('uf', (('KS%d' % n, (n,)),) + args)
    return val, dg, dr


EXT['openmdao.components.ks_comp.KSfunction.compute'] = lambda ip, a, k: _ks(ip, a, k)[0]
EXT['openmdao.components.ks_comp.KSfunction.derivatives'] = lambda ip, a, k: _ks(ip, a, k)[1:]


def _convert_units(ip, a, k):
    d = dict(zip(['val', 'old_units', 'new_units'], a))
    d.update(k)
    new = d.get('new_units')
    if new is None or d.get('old_units') is None:
        return d['val']
    if not (isinstance(new, str) and isinstance(d['old_units'], str)):
        return Opaque('convert_units')
    try:
        fac, off = U.factor(d['old_units'], new)
    except Exception:
        raise AbstractRaise(ExcObj('TypeError', ['units']))
    v = d['val']
    if isinstance(v, (list, tuple)):
        v = objarray(v)
    if off:
        v = ip.binop(I._BIN[I.ast.Add], v, off)
    return v if fac == 1 else ip.binop(I._BIN[I.ast.Mult], v, fac)


for _n in ('openmdao.utils.units.convert_units', 'openmdao.api.convert_units'):
    EXT[_n] = _convert_units
EXT['openmdao.utils.units.unit_conversion'] = lambda ip, a, k: tuple(U.factor(a[0], a[1])) if isinstance(a[0], str) and isinstance(a[1], str) else Opaque('unit_conversion')
