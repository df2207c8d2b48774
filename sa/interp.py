"""Abstract interpreter over the syntax trees of /repo (the repository is never imported).

Domain: Python constants are propagated; floating-point data are value-graph terms (sa.terms); a
conditional on data is if-converted: both branches are interpreted once, under complementary guards,
and every store becomes a gated (phi) term.  No path is enumerated and no solver is called.
"""

import ast
import math
import os
import operator

import numpy as np

from . import terms as T
from .terms import Term

REPO = os.environ.get('SA_REPO', '/repo')


class Unsupported(Exception):
    pass


class AbstractRaise(Exception):
    """the analysed code raises for certain"""

    def __init__(self, exc, node=None):
        self.exc = exc
        self.node = node
        super().__init__(str(exc))


class Opaque:
    def __init__(self, why=''):
        self.why = why

    def __repr__(self):
        return 'Opaque(%s)' % self.why


class External:
    _cache = {}

    def __new__(cls, name):
        o = cls._cache.get(name)
        if o is None:
            o = object.__new__(cls)
            o.name = name
            cls._cache[name] = o
        return o

    def __repr__(self):
        return 'External(%s)' % self.name


class LazyImport:
    def __init__(self, mod, name):
        self.mod = mod
        self.name = name


class ModuleObj:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.env = {}
        self.loaded = False


class FuncObj:
    def __init__(self, node, module, closure, cls=None, defaults=(), kwdefaults=()):
        self.node = node
        self.module = module
        self.closure = closure
        self.cls = cls
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = getattr(node, 'name', '<lambda>')
        self.is_gen = None

    def __repr__(self):
        return 'Func(%s.%s)' % (self.module.name, self.name)


class BoundMethod:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class PropertyObj:
    def __init__(self, fget):
        self.fget = fget
        self.fset = None


class StaticObj:
    def __init__(self, f):
        self.f = f


class ClassMethodObj:
    def __init__(self, f):
        self.f = f


class ClassObj:
    def __init__(self, name, bases, ns, module, node):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self._mro = None

    @property
    def mro(self):
        if self._mro is None:
            seqs = []
            for b in self.bases:
                if isinstance(b, ClassObj):
                    seqs.append(list(b.mro))
                else:
                    seqs.append([b])
            seqs.append(list(self.bases))
            out = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(any(c is x for x in s2[1:]) for s2 in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                for s in seqs:
                    if s[0] is c:
                        s.pop(0)
            self._mro = out
        return self._mro

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, ClassObj) and name in c.ns:
                return c.ns[name], c
        return None, None

    def external_bases(self):
        return [c.name for c in self.mro if isinstance(c, External)]

    def __repr__(self):
        return 'Class(%s.%s)' % (self.module.name, self.name)


class InstObj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return 'Inst(%s)' % self.cls.name


class SuperObj:
    def __init__(self, cls, inst):
        self.cls = cls
        self.inst = inst


class EnumClass(ClassObj):
    pass


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls = cls
        self.name = name
        self.value = value

    def __repr__(self):
        return '%s.%s' % (self.cls.name, self.name)

    def __hash__(self):
        return hash(('enum', self.cls.name, self.name))

    def __eq__(self, o):
        if isinstance(o, EnumMember):
            return self.cls is o.cls and self.name == o.name
        if self.is_int and isinstance(o, (int, float)):
            return self.value == o
        return False

    @property
    def is_int(self):
        return any(isinstance(b, External) and b.name.endswith(('IntEnum', 'IntFlag')) for b in self.cls.mro)

    @property
    def is_str(self):
        return any(isinstance(b, External) and (b.name.endswith('StrEnum') or b.name == 'builtins.str') for b in self.cls.mro)


class MaskedSel:
    """values selected by a symbolic mask (full-size values kept)"""

    def __init__(self, mask, vals):
        self.mask = mask
        self.vals = vals


class IndexMask:
    def __init__(self, mask):
        self.mask = mask


class Choice:
    """gated non-numeric value: [(guard term, value)], later entries win"""

    def __init__(self, alts):
        self.alts = alts


class Undef:
    pass


UNDEF = Undef()


class ExcObj:
    def __init__(self, name, args):
        self.name = name
        self.args = args

    def __str__(self):
        return '%s(%s)' % (self.name, ', '.join(str(a)[:200] for a in self.args))


def is_num(x):
    return isinstance(x, (int, float, complex, np.number, np.bool_, Term)) and not isinstance(x, str)


def is_arr(x):
    return isinstance(x, np.ndarray)


def to_obj(a):
    if isinstance(a, np.ndarray) and a.dtype != object:
        b = np.empty(a.shape, dtype=object)
        if a.size:
            b.ravel()[:] = a.ravel().tolist()
            b = np.array(a.tolist(), dtype=object).reshape(a.shape) if a.shape else b
        return b
    return a


def all_const(a):
    if isinstance(a, np.ndarray):
        if a.dtype != object:
            return True
        return not any(isinstance(x, Term) for x in a.ravel())
    return not isinstance(a, Term)


def concrete(a):
    """numeric numpy array/scalar if every element is constant, else None"""
    if isinstance(a, np.ndarray):
        if a.dtype != object:
            return a
        if all_const(a):
            try:
                if a.size and all(isinstance(x, (bool, np.bool_)) for x in a.ravel()):
                    return a.astype(bool)
                return np.array(a.tolist()).reshape(a.shape) if a.size else a.astype(float)
            except Exception:
                return None
        return None
    if isinstance(a, Term):
        return None
    return a


def objarray(x):
    """numpy object array from nested lists/arrays/terms"""
    if isinstance(x, np.ndarray):
        return to_obj(x)

    def shape(v):
        if isinstance(v, np.ndarray):
            return v.shape
        if isinstance(v, (list, tuple)):
            if not v:
                return (0,)
            s = [shape(e) for e in v]
            if any(q != s[0] for q in s):
                raise Unsupported('ragged array')
            return (len(v),) + s[0]
        return ()

    s = shape(x)
    out = np.empty(s, dtype=object)

    def fill(v, ix):
        if isinstance(v, np.ndarray):
            for i in np.ndindex(*v.shape):
                e = v[i]
                out[ix + i] = e.item() if isinstance(e, np.generic) else e
        elif isinstance(v, (list, tuple)):
            for k, e in enumerate(v):
                fill(e, ix + (k,))
        else:
            out[ix] = v.item() if isinstance(v, np.generic) else v

    fill(x, ())
    return out


_UF = {
    'add': np.frompyfunc(T.add, 2, 1),
    'sub': np.frompyfunc(T.sub, 2, 1),
    'mul': np.frompyfunc(T.mul, 2, 1),
    'div': np.frompyfunc(T.div, 2, 1),
    'pow': np.frompyfunc(T.pow_, 2, 1),
    'and': np.frompyfunc(lambda a, b: T.and_(a, b), 2, 1),
    'or': np.frompyfunc(lambda a, b: T.or_(a, b), 2, 1),
    'not': np.frompyfunc(lambda a: T.not_(a), 1, 1),
    'neg': np.frompyfunc(T.neg, 1, 1),
    'ite': np.frompyfunc(T.ite, 3, 1),
    'min': np.frompyfunc(lambda a, b: T.ite(T.cmp_('le', a, b), a, b), 2, 1),
    'max': np.frompyfunc(lambda a, b: T.ite(T.cmp_('ge', a, b), a, b), 2, 1),
    'floordiv': np.frompyfunc(lambda a, b: a // b, 2, 1),
    'mod': np.frompyfunc(lambda a, b: a % b, 2, 1),
}
for _o in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    _UF[_o] = np.frompyfunc(lambda a, b, _o=_o: T.cmp_(_o, a, b), 2, 1)

_BIN = {
    ast.Add: ('add', operator.add),
    ast.Sub: ('sub', operator.sub),
    ast.Mult: ('mul', operator.mul),
    ast.Div: ('div', operator.truediv),
    ast.Pow: ('pow', operator.pow),
    ast.BitAnd: ('and', operator.and_),
    ast.BitOr: ('or', operator.or_),
    ast.FloorDiv: ('floordiv', operator.floordiv),
    ast.Mod: ('mod', operator.mod),
    ast.MatMult: ('matmul', operator.matmul),
    ast.LShift: ('lsh', operator.lshift),
    ast.RShift: ('rsh', operator.rshift),
    ast.BitXor: ('xor', operator.xor),
}
_CMP = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.Eq: 'eq', ast.NotEq: 'ne'}
_PYCMP = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge, 'eq': operator.eq, 'ne': operator.ne}


def narrow_bool(r):
    if isinstance(r, np.ndarray) and r.dtype == object and r.size and all(isinstance(x, (bool, np.bool_)) for x in r.ravel()):
        return r.astype(bool)
    return r


def ew(op, *xs):
    """elementwise op on numeric values / arrays / masked selections"""
    for x in xs:
        if isinstance(x, Opaque):
            return x
    ms = [x for x in xs if isinstance(x, MaskedSel)]
    if ms:
        m = ms[0].mask
        for x in ms[1:]:
            if not same_mask(x.mask, m):
                raise Unsupported('different masks')
        for x in xs:
            if is_arr(x) and x.size > 1:
                raise Unsupported('mask/array mix')
        return MaskedSel(m, ew(op, *[x.vals if isinstance(x, MaskedSel) else x for x in xs]))
    xs = [to_obj(x) for x in xs]
    try:
        r = _UF[op](*xs)
    except ValueError as e:
        raise AbstractRaise(ExcObj('ValueError', [str(e)]))
    return narrow_bool(r)


def same_mask(a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    return a.shape == b.shape and all(x is y or (not isinstance(x, Term) and not isinstance(y, Term) and x == y) for x, y in zip(a.ravel(), b.ravel()))


def deep_opaque(x):
    return isinstance(x, Opaque)


_opq = [0]


def opq_term(why='', deps=()):
    _opq[0] += 1
    return T.mk('opq', ('%s#%d' % (why, _opq[0]),))


class Frame:
    def __init__(self, func, module, env, parent, interp):
        self.func = func
        self.module = module
        self.env = env
        self.closure = parent
        self.lits = []  # guard literals relative to function entry
        self.kills = [[]]  # lists of killed guards: [function level, loop levels...]
        self.loops = []
        self.returns = []
        self.yields = None
        self.dead = False
        self.globals_decl = set()
        self.base = interp.guard_lits() if interp.frames else []


class LoopCtl(Exception):
    pass


class Interp:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.frames = []
        self.externals = {}  # dotted name -> callable(interp, args, kwargs)
        self.ext_attr = {}  # dotted name -> value
        self.ext_base_methods = {}  # external base class name -> {method: callable(interp, self, args, kwargs)}
        self.events = []
        self.inline_depth = 0
        self.steps = 0
        self.max_steps = 3_000_000
        self.hook_call = None
        self.cur_node = None
        from . import models

        models.install(self)

    # ------------------------------------------------------------ modules
    def find_module(self, name):
        parts = name.split('.')
        if parts[0] != 'aviary':
            return None
        p = os.path.join(self.repo, *parts)
        if os.path.isfile(p + '.py'):
            return p + '.py'
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        if os.path.isdir(p):
            return ''
        return None

    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path = self.find_module(name)
        if path is None:
            return None
        m = ModuleObj(name, path)
        m.env['__name__'] = name
        m.env['__file__'] = path
        self.modules[name] = m
        if path:
            with open(path, encoding='utf-8') as f:
                tree = ast.parse(f.read())
            m.tree = tree
            saved = self.frames
            self.frames = []
            fr = Frame(None, m, m.env, None, self)
            self.frames = [fr]
            try:
                for st in tree.body:
                    try:
                        self.exec(st)
                    except (Unsupported, AbstractRaise, RecursionError) as e:
                        for nm in bound_names(st):
                            if nm not in m.env:
                                m.env[nm] = Opaque('module %s: %s' % (name, e))
            finally:
                self.frames = saved
        m.loaded = True
        return m

    def get_global(self, modname, name):
        m = self.module(modname)
        if m is None:
            return None
        return self.resolve(m.env.get(name))

    def resolve(self, v):
        n = 0
        while isinstance(v, LazyImport):
            n += 1
            if n > 50:
                raise Unsupported('import cycle')
            v = self._resolve1(v)
        return v

    def _resolve1(self, v):
        if v.name is None:
            m = self.module(v.mod)
            return m if m is not None else External(v.mod)
        m = self.module(v.mod)
        if m is None:
            full = v.mod + '.' + v.name
            if full in self.ext_attr:
                return self.ext_attr[full]
            return External(full)
        if v.name in m.env:
            return m.env[v.name]
        sub = self.module(v.mod + '.' + v.name)
        if sub is not None:
            return sub
        # star imports recorded
        for s in m.env.get('__stars__', []):
            sm = self.module(s)
            if sm is not None and v.name in sm.env:
                return sm.env[v.name]
        return Opaque('no %s in %s' % (v.name, v.mod))

    # ------------------------------------------------------------ guards
    @property
    def fr(self):
        return self.frames[-1]

    def guard_lits(self):
        if not self.frames:
            return []
        f = self.frames[-1]
        return f.base + f.lits + [T.not_(k) for ks in f.kills for k in ks]

    def local_guard(self):
        f = self.fr
        return T.and_(*(f.lits + [T.not_(k) for ks in f.kills for k in ks])) if (f.lits or any(f.kills)) else True

    def full_guard(self):
        ls = self.guard_lits()
        return T.and_(*ls) if ls else True

    def implied(self, g):
        """does the current guard syntactically imply g?"""
        if g is True:
            return True
        if g is False:
            return False
        ls = set()
        for l in self.guard_lits():
            if isinstance(l, Term):
                ls.add(l)
                if l.op == 'and':
                    ls.update(l.args)
        if g in ls:
            return True
        if g.op == 'and':
            return all(a in ls for a in g.args)
        # not(and(...)) : implied if some negated literal is present
        if g.op == 'not' and g.args[0].op == 'and':
            return any(T.not_(a) in ls for a in g.args[0].args)
        return False

    def refuted(self, g):
        return self.implied(T.not_(g)) if isinstance(g, Term) else g is False

    # ------------------------------------------------------------ merge
    def merge(self, g, new, old, depth=0):
        """value that is `new` under g and `old` otherwise"""
        if g is True or new is old:
            return new
        if g is False:
            return old
        if old is UNDEF:
            return Choice([(g, new)])
        if isinstance(new, Choice) or isinstance(old, Choice):
            alts = list(old.alts) if isinstance(old, Choice) else [(True, old)]
            if isinstance(new, Choice):
                alts += [(T.and_(g, h), v) for h, v in new.alts]
            else:
                alts.append((g, new))
            # try numeric collapse
            return self.collapse(Choice(alts))
        if isinstance(new, Opaque):
            return new
        if isinstance(old, Opaque):
            return Choice([(True, old), (g, new)])
        nn, on = is_num(new), is_num(old)
        if nn and on:
            return T.ite(g, new, old)
        if (nn or is_arr(new)) and (on or is_arr(old)):
            if is_arr(new) and is_arr(old) and new.shape != old.shape:
                return Choice([(True, old), (g, new)])
            if is_arr(new) != is_arr(old):
                return Choice([(True, old), (g, new)])
            return _UF['ite'](g, to_obj(new), to_obj(old))
        if isinstance(new, (tuple, list)) and type(new) == type(old) and len(new) == len(old) and depth < 4:
            return type(new)(self.merge(g, a, b, depth + 1) for a, b in zip(new, old))
        if isinstance(new, (str, bool, type(None), EnumMember, int, float)) and type(new) == type(old) and new == old:
            return new
        return Choice([(True, old), (g, new)])

    def collapse(self, ch):
        """collapse a fully-covering Choice of numerics into an ite chain"""
        alts = ch.alts
        # drop alternatives shadowed by later unconditional ones
        for i in range(len(alts) - 1, -1, -1):
            if alts[i][0] is True:
                alts = alts[i:]
                break
        ch = Choice(alts)
        # covering pair g / not g
        if alts and alts[0][0] is not True:
            conds = [a[0] for a in alts]
            if T.or_(*conds) is True:
                alts = [(True, alts[0][1])] + alts[1:]
                ch = Choice(alts)
        if alts and alts[0][0] is True:
            v = alts[0][1]
            ok = True
            for g, w in alts[1:]:
                m = self._simple_merge(g, w, v)
                if m is None:
                    ok = False
                    break
                v = m
            if ok:
                return v
        return ch

    def _simple_merge(self, g, new, old):
        if is_num(new) and is_num(old):
            return T.ite(g, new, old)
        if is_arr(new) and is_arr(old) and new.shape == old.shape:
            return _UF['ite'](g, to_obj(new), to_obj(old))
        # a scalar on one path and an array on the other: the scalar broadcasts wherever it is used
        if is_arr(new) and is_num(old):
            return _UF['ite'](g, to_obj(new), to_obj(np.full(new.shape, old, dtype=object)))
        if is_num(new) and is_arr(old):
            return _UF['ite'](g, to_obj(np.full(old.shape, new, dtype=object)), to_obj(old))
        if isinstance(new, (str, bool, type(None), EnumMember)) and type(new) == type(old) and new == old:
            return new
        if new is old:
            return new
        return None

    def read(self, v, name='?', node=None):
        if isinstance(v, LazyImport):
            return self.resolve(v)
        if isinstance(v, Choice):
            best = None
            live = []
            for g, w in v.alts:
                if g is True or not self.refuted(g):
                    if g is not True and self.implied(g):
                        g = True
                    if g is True:
                        live = []
                    live.append((g, w))
            if not live:
                self.events.append(('unbound', name, node, self.where(), self.full_guard()))
                return Opaque('unbound %s' % name)
            if live[0][0] is True:
                if len(live) == 1:
                    return live[0][1]
                c = self.collapse(Choice(live))
                if not isinstance(c, Choice):
                    return c
                return Opaque('choice %s' % name)
            c = self.collapse(Choice(list(live)))
            if not isinstance(c, Choice):
                return c
            self.events.append(('maybe-unbound', name, node, self.where(), T.and_(self.full_guard(), T.not_(T.or_(*[g for g, w in live])))))
            v0 = live[0][1]
            for g, w in live[1:]:
                m = self._simple_merge(g, w, v0)
                if m is None:
                    return Opaque('choice %s' % name)
                v0 = m
            return v0
        return v

    def where(self):
        f = self.fr
        fn = f.func.name if f.func else '<module>'
        cls = f.func.cls.name + '.' if f.func is not None and f.func.cls is not None else ''
        return '%s:%s%s' % (f.module.name, cls, fn)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.fr.dead:
                return
            self.exec(s)

    def exec(self, s):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported('step limit')
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('stmt ' + type(s).__name__)
        self.cur_node = s
        m(s)

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def x_Pass(self, s):
        pass

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def x_AugAssign(self, s):
        op = _BIN[type(s.op)]
        cur = self.eval(load(s.target))
        v = self.eval(s.value)
        if is_arr(cur) and not isinstance(v, (Opaque, MaskedSel)) and op[0] in ('add', 'sub', 'mul', 'div', 'pow'):
            r = self.binop(op, cur, v)
            if is_arr(r) and cur.dtype == object and r.shape == cur.shape:
                if isinstance(s.target, ast.Name):
                    g = self.full_guard()
                    if g is True:
                        cur[...] = to_obj(r)
                    else:
                        cur[...] = _UF['ite'](g, to_obj(r), cur)
                    self.note_mutation(cur, s)
                    return
                self.assign(s.target, r)
                return
            self.assign(s.target, r)
            return
        if isinstance(cur, list) and op[0] == 'add':
            if self.full_guard() is not True:
                raise Unsupported('guarded list +=')
            cur.extend(self.iterate(v))
            return
        r = self.binop(op, cur, v)
        self.assign(s.target, r)

    def note_mutation(self, obj, node):
        pass

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                k = self.eval(t.slice)
                if isinstance(o, (dict, list)):
                    try:
                        del o[k]
                    except (KeyError, IndexError) as e:
                        raise AbstractRaise(ExcObj(type(e).__name__, [str(e)]))

    def x_Global(self, s):
        self.fr.globals_decl.update(s.names)

    x_Nonlocal = x_Global

    def x_Import(self, s):
        for a in s.names:
            if a.asname:
                self.fr.env[a.asname] = LazyImport(a.name, None)
            else:
                top = a.name.split('.')[0]
                self.fr.env[top] = LazyImport(top, None)

    def x_ImportFrom(self, s):
        mod = s.module or ''
        if s.level:
            parts = self.fr.module.name.split('.')
            is_pkg = (self.fr.module.path or '').endswith('__init__.py')
            parts = parts[: len(parts) - s.level + (1 if is_pkg else 0)]
            mod = '.'.join(parts + ([mod] if mod else []))
        for a in s.names:
            if a.name == '*':
                self.fr.env.setdefault('__stars__', []).append(mod)
                continue
            self.fr.env[a.asname or a.name] = LazyImport(mod, a.name)

    def x_FunctionDef(self, s):
        f = self.make_func(s)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v)
        self.bind(s.name, v)

    def decorate(self, d, v):
        if isinstance(d, ast.Name):
            if d.id == 'property':
                return PropertyObj(v)
            if d.id == 'staticmethod':
                return StaticObj(v)
            if d.id == 'classmethod':
                return ClassMethodObj(v)
            if d.id in ('abstractmethod', 'unique', 'dataclass'):
                return v
        if isinstance(d, ast.Attribute) and d.attr == 'setter':
            p = self.fr.env.get(d.value.id)
            if isinstance(p, PropertyObj):
                p.fset = v
                return p
        if isinstance(d, ast.Attribute) and d.attr in ('wraps', 'abstractmethod', 'unique'):
            return v
        dv = self.eval(d)
        if isinstance(dv, FuncObj):
            return self.call(dv, [v], {})
        return v

    def make_func(self, s):
        a = s.args
        defaults = [self.eval(d) for d in a.defaults]
        kwd = {k.arg: self.eval(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        closure = self.fr if self.fr.func is not None else None
        return FuncObj(s, self.fr.module, closure, None, defaults, kwd)

    def x_ClassDef(self, s):
        bases = []
        for b in s.bases:
            try:
                v = self.eval(b)
            except Unsupported:
                v = Opaque('base')
            if isinstance(v, (ClassObj, External)):
                bases.append(v)
            else:
                bases.append(External('unknown.' + ast.unparse(b)))
        is_enum = any(isinstance(b, EnumClass) or (isinstance(b, External) and b.name.split('.')[0] == 'enum') for b in bases)
        ns = {}
        cls = (EnumClass if is_enum else ClassObj)(s.name, bases, ns, self.fr.module, s)
        fr = Frame(self.fr.func, self.fr.module, ns, None, self)
        fr.is_class = True
        outer_env = self.fr
        fr.class_outer = outer_env
        self.frames.append(fr)
        cnt = [0]
        try:
            for st in s.body:
                try:
                    if is_enum and isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and ast.unparse(st.value.func).split('.')[-1] == 'auto':
                        cnt[0] += 1
                        ns[st.targets[0].id] = cnt[0]
                        continue
                    self.exec(st)
                    if is_enum and isinstance(st, ast.Assign) and isinstance(ns.get(getattr(st.targets[0], 'id', None)), int):
                        cnt[0] = ns[st.targets[0].id]
                except (Unsupported, AbstractRaise) as e:
                    for nm in bound_names(st):
                        ns.setdefault(nm, Opaque('class body: %s' % e))
        finally:
            self.frames.pop()
        for k, v in list(ns.items()):
            for f in (v, getattr(v, 'fget', None), getattr(v, 'fset', None), getattr(v, 'f', None)):
                if isinstance(f, FuncObj) and f.cls is None:
                    f.cls = cls
        if is_enum:
            cls.members = []
            for st in s.body:
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name) and not t.id.startswith('_'):
                            v = ns[t.id]
                            m = next((x for x in cls.members if type(x.value) == type(v) and x.value == v), None)
                            if m is None:
                                m = EnumMember(cls, t.id, v)
                                cls.members.append(m)
                            ns[t.id] = m
        self.bind(s.name, cls)

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        self.fr.returns.append((self.local_guard(), v))
        self._kill(0)

    def _kill(self, level):
        """end control at the current point for kill list `level`"""
        f = self.fr
        f.kills[level].append(self.local_guard())
        self._check_dead()

    def _check_dead(self):
        f = self.fr
        f.dead = self.local_guard() is False

    def x_Raise(self, s):
        f = self.fr
        if self.local_guard() is True:
            exc = None
            if s.exc is not None:
                try:
                    exc = self.eval(s.exc)
                except Unsupported:
                    exc = Opaque('exc')
            raise AbstractRaise(exc if exc is not None else ExcObj('reraise', []), s)
        # conditional raise: the remaining code runs under the negation
        self.events.append(('cond-raise', s, self.where(), self.full_guard(), None, True))
        self._kill(0)

    def x_Assert(self, s):
        pass

    def x_Break(self, s):
        self._kill(self.fr.loops[-1][0])

    def x_Continue(self, s):
        self._kill(self.fr.loops[-1][1])

    def _guarded(self, c, body):
        f = self.fr
        f.lits.append(c)
        self._check_dead()
        try:
            if not f.dead:
                self.exec_block(body)
        except AbstractRaise as e:
            self.events.append(('cond-raise', e.node, self.where(), self.full_guard(), e.exc, isinstance(e.node, ast.Raise)))
            f.kills[0].append(self.local_guard())
        finally:
            self._check_dead()
            d = f.dead
            f.lits.pop()
        return d

    def x_If(self, s):
        try:
            c = self.truth(self.eval(s.test))
        except Unsupported as e:
            c = None
            # a condition on an opaque value: interpret both branches under a fresh predicate
            if self.strict_opaque_cond:
                raise
            c = T.batom('cond', self.fr.module.name, s.lineno)
        if c is True:
            return self.exec_block(s.body)
        if c is False:
            return self.exec_block(s.orelse)
        if self.implied(c):
            return self.exec_block(s.body)
        if self.refuted(c):
            return self.exec_block(s.orelse)
        f = self.fr
        before = [len(k) for k in f.kills]
        d1 = self._guarded(c, s.body)
        d2 = self._guarded(T.not_(c), s.orelse)
        self._check_dead()
        if d1 and d2 and not f.dead:
            lvl = 0 if all(len(k) == n for k, n in zip(f.kills[1:], before[1:])) else len(f.kills) - 1
            g = T.and_(*f.lits) if f.lits else True
            f.kills[lvl] = f.kills[lvl][: before[lvl]] + [g] if lvl == 0 else f.kills[lvl] + [g]
            self._check_dead()

    strict_opaque_cond = True

    def x_For(self, s):
        it = self.eval(s.iter)
        items = self.iterate(it)
        self._loop(s, iter(items))

    def _loop(self, s, items):
        f = self.fr
        f.kills.append([])  # break level
        blevel = len(f.kills) - 1
        try:
            for x in items:
                f.kills.append([])
                f.loops.append((blevel, len(f.kills) - 1))
                try:
                    self.assign(s.target, x) if items is not None and isinstance(s, ast.For) else None
                    self.exec_block(s.body)
                finally:
                    f.loops.pop()
                    f.kills.pop()
                self._check_dead()
                if f.dead:
                    break
            if not f.dead and s.orelse:
                self.exec_block(s.orelse)
        finally:
            f.kills.pop()
            self._check_dead()

    def x_While(self, s):
        blevel = len(self.fr.kills)

        def gen():
            n = 0
            while True:
                c = self.truth(self.eval(s.test))
                if c is False:
                    return
                if c is not True:
                    raise Unsupported('while on data')
                n += 1
                if n > 2000 or any(self.fr.kills[blevel:]):
                    raise Unsupported('while bound')
                yield None

        self._loop(s, gen())

    def x_With(self, s):
        for it in s.items:
            v = self.eval(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.exec_block(s.body)

    def x_Try(self, s):
        try:
            self.exec_block(s.body)
        except AbstractRaise as e:
            name = exc_name(e.exc)
            for h in s.handlers:
                if h.type is None or self.exc_match(name, h.type):
                    if h.name:
                        self.fr.env[h.name] = e.exc
                    self.exec_block(h.body)
                    break
            else:
                self.exec_block(s.finalbody)
                raise
        else:
            self.exec_block(s.orelse)
        self.exec_block(s.finalbody)

    def exc_match(self, name, t):
        names = [ast.unparse(x).split('.')[-1] for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
        return name in names or 'Exception' in names or 'BaseException' in names or (name in ('KeyError', 'IndexError') and 'LookupError' in names)

    # ------------------------------------------------------------ assignment
    def bind(self, name, v):
        f = self.fr
        env = f.env
        if name in f.globals_decl:
            env = f.module.env
            f2 = f.closure
            while f2 is not None:
                if name in f2.env:
                    env = f2.env
                    break
                f2 = f2.closure
        # paths that returned or raised never read a local again, so only the enclosing branches
        # and the suspended paths of the enclosing loops gate the assignment
        if env is f.env:
            ls = f.lits + [T.not_(k) for ks in f.kills[1:] for k in ks]
            g = T.and_(*ls) if ls else True
        else:
            g = self.local_guard() if (f.lits or any(f.kills)) else True
        if g is True:
            env[name] = v
        else:
            env[name] = self.merge(g, v, env.get(name, UNDEF))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Opaque):
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, v)
                return
            items = list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n = len(items) - (len(t.elts) - 1)
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, items[i : i + n])
                for e, x in zip(t.elts[i + 1 :], items[i + n :]):
                    self.assign(e, x)
                return
            if len(items) != len(t.elts):
                raise AbstractRaise(ExcObj('ValueError', ['unpack %d/%d' % (len(items), len(t.elts))]))
            for e, x in zip(t.elts, items):
                self.assign(e, x)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value)
            k = self.eval(t.slice)
            self.setitem(o, k, v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported('target')

    def setattr(self, o, name, v):
        if isinstance(o, InstObj):
            p, _ = o.cls.lookup(name)
            if isinstance(p, PropertyObj) and p.fset is not None:
                self.call(BoundMethod(p.fset, o), [v], {})
                return
            g = self.full_guard()
            o.attrs[name] = v if g is True else self.merge(g, v, o.attrs.get(name, UNDEF))
            self.events.append(('setattr', o, name, self.where()))
        elif isinstance(o, ClassObj):
            o.ns[name] = v
        elif isinstance(o, ModuleObj):
            o.env[name] = v
        elif isinstance(o, (Opaque, External, FuncObj)):
            pass
        elif is_arr(o) and name == 'shape':
            o.shape = v
        elif hasattr(o, 'sa_setattr'):
            o.sa_setattr(self, name, v)
        else:
            raise Unsupported('setattr on %s' % type(o).__name__)

    def setitem(self, o, k, v, node=None):
        if isinstance(o, Opaque):
            return
        if hasattr(o, 'sa_setitem'):
            return o.sa_setitem(self, k, v)
        g = self.full_guard()
        if isinstance(o, dict):
            k = self.key(k)
            o[k] = v if g is True else self.merge(g, v, o.get(k, UNDEF))
            return
        if isinstance(o, list):
            try:
                if isinstance(k, np.generic):
                    k = k.item()
                if isinstance(k, slice):
                    o[k] = list(self.iterate(v))
                else:
                    o[k] = v if g is True else self.merge(g, v, o[k])
            except (IndexError, TypeError) as e:
                raise AbstractRaise(ExcObj(type(e).__name__, [str(e)]))
            return
        if is_arr(o):
            self.arr_set(o, k, v, g)
            return
        if isinstance(o, InstObj):
            m, c = o.cls.lookup('__setitem__')
            if m is not None:
                self.call(BoundMethod(m, o), [k, v], {})
                return
            if 'builtins.dict' in o.cls.external_bases() or any(n.endswith('OrderedDict') for n in o.cls.external_bases()):
                o.attrs.setdefault('__dict_items__', {})[self.key(k)] = v
                return
        raise Unsupported('setitem on %s' % type(o).__name__)

    def index(self, k):
        """normalise an array index; symbolic masks stay object arrays"""
        if isinstance(k, tuple):
            return tuple(self.index(x) for x in k)
        if isinstance(k, list):
            k = objarray(k) if k else np.zeros(0, int)
        if is_arr(k) and k.dtype == object:
            c = concrete(k)
            if c is not None:
                if c.dtype.kind == 'f':
                    if np.all(c == np.floor(c)):
                        c = c.astype(int)
                return c
            return k
        if isinstance(k, np.generic):
            return k.item()
        if isinstance(k, slice):
            return slice(*[self._sl(x) for x in (k.start, k.stop, k.step)])
        if isinstance(k, Term):
            if T.DECIDER is not None:
                return T.DECIDER.int(k)
            raise Unsupported('symbolic index')
        if isinstance(k, Opaque):
            raise Unsupported('opaque index ' + k.why)
        return k

    def _sl(self, x):
        if isinstance(x, Term) and T.DECIDER is not None:
            return T.DECIDER.int(x)
        if isinstance(x, (Term, Opaque)):
            raise Unsupported('symbolic slice')
        if isinstance(x, np.ndarray):
            x = x.item()
        if isinstance(x, np.generic):
            x = x.item()
        return x

    def arr_set(self, o, k, v, g):
        k = self.index(k)
        if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], IndexMask):
            k = k[0]
        if isinstance(v, Choice):
            v = self.read(v)
        if isinstance(v, Opaque):
            v = opq_term(v.why)
        if T.REALS is not None and not isinstance(v, MaskedSel):
            from . import models

            if models.is_real_array(o):
                v = models.nocs(v)
        if isinstance(k, IndexMask) or (is_arr(k) and k.dtype == object):
            m = k.mask if isinstance(k, IndexMask) else k
            if o.dtype != object:
                raise Unsupported('masked store in numeric array')
            if isinstance(v, MaskedSel):
                if not same_mask(v.mask, m):
                    raise Unsupported('masked store, other mask')
                v = v.vals
            elif is_arr(v) and v.size > 1:
                raise Unsupported('masked store of array')
            elif is_arr(v):
                v = v.ravel()[0]
            if isinstance(v, (list, tuple)):
                raise Unsupported('masked store of list')
            mm = m if g is True else _UF['and'](g, m)
            if m.ndim < o.ndim:
                mm = np.asarray(mm, dtype=object).reshape(m.shape + (1,) * (o.ndim - m.ndim))
            o[...] = _UF['ite'](mm, to_obj(v) if is_arr(v) else v, o)
            return
        if isinstance(v, MaskedSel):
            raise Unsupported('masked value stored elsewhere')
        if isinstance(v, (list, tuple)):
            v = objarray(v)
        if is_arr(v):
            v = to_obj(v) if o.dtype == object else v
        if o.dtype != object:
            c = concrete(v)
            if c is None or g is not True:
                raise Unsupported('symbolic store in numeric array')
            try:
                o[k] = c
            except (IndexError, ValueError) as e:
                raise AbstractRaise(ExcObj(type(e).__name__, [str(e)]))
            return
        if isinstance(v, np.generic):
            v = v.item()
        if not (is_arr(v) or is_num(v) or isinstance(v, (str, bool, type(None), EnumMember))):
            v = opq_term('store of %s' % type(v).__name__)
        try:
            if g is True:
                cur = o[k]
                if is_arr(v) and not is_arr(cur):
                    if v.size != 1:
                        raise AbstractRaise(ExcObj('ValueError', ['setting an array element with a sequence']))
                    v = v.ravel()[0]
                o[k] = v
            else:
                cur = o[k]
                if is_arr(v) and not is_arr(cur):
                    v = v.ravel()[0]
                o[k] = _UF['ite'](g, v, cur)
        except (IndexError, ValueError) as e:
            raise AbstractRaise(ExcObj(type(e).__name__, [str(e)]))

    def key(self, k):
        if isinstance(k, np.generic):
            k = k.item()
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, (Term, Opaque)):
            raise Unsupported('symbolic key')
        try:
            hash(k)
        except TypeError:
            raise Unsupported('unhashable key')
        return k

    # ------------------------------------------------------------ expressions
    def eval(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expr ' + type(n).__name__)
        return m(n)

    def e_Constant(self, n):
        return n.value

    def e_Name(self, n):
        f = self.fr
        name = n.id
        fr = f
        env = f.env
        if name in env:
            v = env[name]
            if type(v) in (LazyImport, Choice):
                if type(v) is LazyImport:
                    v = env[name] = self.resolve(v)
                    return v
                return self.read(v, name, n)
            if self.fr.lits and isinstance(v, (Term, np.ndarray)):
                return self.guard_simplify(v)
            return v
        c = getattr(f, 'class_outer', None)
        if c is None:
            c = f.closure
        while c is not None:
            if name in c.env:
                return self.read(c.env[name], name, n)
            c = getattr(c, 'class_outer', None) or c.closure
        menv = f.module.env
        if name in menv:
            v = menv[name]
            if isinstance(v, LazyImport):
                v = menv[name] = self.resolve(v)
            return self.read(v, name, n)
        for s in menv.get('__stars__', []):
            sm = self.module(s)
            if sm is not None and name in sm.env:
                return self.resolve(sm.env[name])
            if sm is None:
                return External(s + '.' + name)
        b = self.builtins.get(name)
        if b is not None:
            return b
        if name in BUILTIN_EXC:
            return External('builtins.' + name)
        if f.func is not None and name in assigned_names(f.func.node):
            self.events.append(('unbound', name, n, self.where()))
            raise AbstractRaise(ExcObj('UnboundLocalError', [name]), n)
        if name in ('str', 'int'):
            pass
        raise Unsupported('name ' + name)

    def guard_simplify(self, v):
        if isinstance(v, Term):
            k = 0
            while v.op == 'ite' and k < 20:
                k += 1
                c = v.args[0]
                if self.implied(c):
                    v = v.args[1]
                elif self.refuted(c):
                    v = v.args[2]
                else:
                    break
                if not isinstance(v, Term):
                    break
            return v
        return v

    def e_Tuple(self, n):
        return tuple(self.elts(n.elts))

    def e_List(self, n):
        return list(self.elts(n.elts))

    def e_Set(self, n):
        return set(self.key(x) for x in self.elts(n.elts))

    def elts(self, es):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value)))
            else:
                out.append(self.eval(e))
        return out

    def e_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v)
                if isinstance(o, dict):
                    d.update(o)
                else:
                    raise Unsupported('** of non-dict')
            else:
                d[self.key(self.eval(k))] = self.eval(v)
        return d

    def e_BinOp(self, n):
        return self.binop(_BIN[type(n.op)], self.eval(n.left), self.eval(n.right))

    def binop(self, op, a, b):
        name, py = op
        if isinstance(a, Opaque):
            return a
        if isinstance(b, Opaque):
            return b
        if isinstance(a, InstObj) or isinstance(b, InstObj):
            return Opaque('operator on instance')
        if isinstance(a, (ClassObj, External)) or isinstance(b, (ClassObj, External)):
            if name == 'or':
                return Opaque('type union')
        if isinstance(a, EnumMember) and a.is_int:
            a = a.value
        if isinstance(b, EnumMember) and b.is_int:
            b = b.value
        ea = is_num(a) or is_arr(a) or isinstance(a, MaskedSel)
        eb = is_num(b) or is_arr(b) or isinstance(b, MaskedSel)
        if (is_arr(a) and isinstance(b, (list, tuple))) or (is_num(a) and isinstance(a, Term) and isinstance(b, (list,))):
            b = objarray(b)
            eb = True
        if is_arr(b) and isinstance(a, (list, tuple)):
            a = objarray(a)
            ea = True
        if ea and eb:
            sym = any(isinstance(x, (Term, MaskedSel)) or (is_arr(x) and x.dtype == object) for x in (a, b))
            if name == 'matmul':
                return self.dot(a, b)
            if sym:
                if name in _UF:
                    return ew(name, a, b)
                raise Unsupported('op ' + name)
            try:
                with np.errstate(all='ignore'):
                    r = py(a, b)
            except ZeroDivisionError:
                raise AbstractRaise(ExcObj('ZeroDivisionError', []))
            except OverflowError:
                return math.inf
            except ValueError as e:
                raise AbstractRaise(ExcObj('ValueError', [str(e)]))
            if is_arr(r) and r.dtype.kind in 'fc':
                r = to_obj(r)
            if isinstance(r, np.generic):
                r = r.item()
            return r
        if isinstance(a, (Term,)) or isinstance(b, Term):
            if name == 'mod' and isinstance(a, str):
                return a
            raise Unsupported('binop %s on %s/%s' % (name, type(a).__name__, type(b).__name__))
        try:
            return py(a, b)
        except TypeError as e:
            if isinstance(a, (list, str, tuple, dict, type(None), int, float)) and isinstance(b, (list, str, tuple, dict, type(None), int, float)):
                raise AbstractRaise(ExcObj('TypeError', [str(e)]))
            raise Unsupported('binop %s on %s/%s' % (name, type(a).__name__, type(b).__name__))
        except Exception as e:
            raise AbstractRaise(ExcObj(type(e).__name__, [str(e)]))

    def dot(self, a, b):
        a, b = objarray(a), objarray(b)
        try:
            return np.dot(a, b)
        except ValueError as e:
            raise AbstractRaise(ExcObj('ValueError', [str(e)]))

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            return T.not_(self.truth(v))
        if isinstance(v, Opaque):
            return v
        if isinstance(n.op, ast.USub):
            if isinstance(v, (Term, MaskedSel)) or (is_arr(v) and v.dtype == object):
                return ew('neg', v)
            if isinstance(v, InstObj):
                return Opaque('neg')
            return -v
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if is_arr(v) and v.dtype == bool:
                return ~v
            if isinstance(v, Term) or is_arr(v):
                return ew('not', v)
            return ~v
        raise Unsupported('unary')

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        acc = []
        last = None
        pushed = 0
        f = self.fr
        try:
            for i, e in enumerate(n.values):
                v = self.eval(e)
                t = self.truth(v)
                last = v
                if t is True:
                    if not isand and not acc:
                        return v
                    if not isand:
                        return T.or_(*acc, True)
                elif t is False:
                    if isand and not acc:
                        return v
                    if isand:
                        return False
                else:
                    acc.append(t)
                    f.lits.append(t if isand else T.not_(t))
                    pushed += 1
            if not acc:
                return last
            return T.and_(*acc) if isand else T.or_(*acc)
        finally:
            for _ in range(pushed):
                f.lits.pop()

    def e_Compare(self, n):
        left = self.eval(n.left)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r)
            v = self.compare(op, left, right)
            out.append(v)
            left = right
        if len(out) == 1:
            return out[0]
        return T.and_(*[self.truth(v) for v in out])

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported('is on opaque %s' % (a if isinstance(a, Opaque) else b).why)
            if a is None or b is None or isinstance(a, (bool,)) or isinstance(b, bool):
                r = (a is b) or (isinstance(a, bool) and isinstance(b, bool) and a == b)
            else:
                r = a is b or (isinstance(a, EnumMember) and a == b) or (isinstance(a, (str, int)) and type(a) == type(b) and a == b)
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else T.not_(r)
        name = _CMP[type(op)]
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('compare opaque %s' % (a if isinstance(a, Opaque) else b).why)
        if isinstance(a, EnumMember) and a.is_int and not isinstance(b, EnumMember):
            a = a.value
        if isinstance(b, EnumMember) and b.is_int and not isinstance(a, EnumMember):
            b = b.value
        if isinstance(a, EnumMember) and isinstance(b, EnumMember) and a.is_int and name not in ('eq', 'ne'):
            a, b = a.value, b.value
        sa = isinstance(a, (Term, MaskedSel)) or is_arr(a)
        sb = isinstance(b, (Term, MaskedSel)) or is_arr(b)
        if sa or sb:
            if isinstance(a, (list, tuple)):
                a = objarray(a)
            if isinstance(b, (list, tuple)):
                b = objarray(b)
            na = is_num(a) or is_arr(a) or isinstance(a, MaskedSel)
            nb = is_num(b) or is_arr(b) or isinstance(b, MaskedSel)
            if na and nb:
                ca, cb = concrete(a) if not isinstance(a, MaskedSel) else None, concrete(b) if not isinstance(b, MaskedSel) else None
                if ca is not None and cb is not None:
                    try:
                        return _PYCMP[name](ca, cb)
                    except TypeError:
                        pass
                    except ValueError as e:
                        raise AbstractRaise(ExcObj('ValueError', [str(e)]))
                try:
                    return ew(name, a, b)
                except (TypeError, AttributeError):
                    # object arrays of strings / enums
                    f = _PYCMP[name]
                    return narrow_bool(np.frompyfunc(lambda x, y: f(x, y), 2, 1)(a, b))
            if is_arr(a) or is_arr(b):
                f = _PYCMP[name]
                return narrow_bool(np.frompyfunc(lambda x, y: f(x, y), 2, 1)(a, b))
            return name == 'ne'
        try:
            return bool(_PYCMP[name](a, b))
        except TypeError as e:
            raise AbstractRaise(ExcObj('TypeError', [str(e)]))

    def contains(self, c, x):
        if isinstance(c, Opaque) or isinstance(x, Opaque):
            raise Unsupported('in opaque')
        if hasattr(c, 'sa_contains'):
            return c.sa_contains(self, x)
        if isinstance(c, (dict, set, frozenset)) or type(c).__name__ in ('dict_keys', 'dict_values'):
            return self.key(x) in c
        if isinstance(c, str):
            return isinstance(x, str) and x in c
        if isinstance(c, (list, tuple, range)):
            for e in c:
                if isinstance(e, Opaque):
                    raise Unsupported('in opaque list')
            if isinstance(x, Term):
                raise Unsupported('symbolic in')
            return any(type(e) == type(x) and e == x or (is_num(e) and is_num(x) and not isinstance(e, Term) and e == x) or e is x for e in c)
        if isinstance(c, EnumClass):
            return x in c.members
        if isinstance(c, InstObj):
            m, _ = c.cls.lookup('__contains__')
            if m is not None:
                return self.truth(self.call(BoundMethod(m, c), [x], {}))
            return any(self.truth(self.compare(ast.Eq(), e, x)) is True for e in self.iterate(c))
        if is_arr(c):
            cc = concrete(c)
            if cc is not None and not isinstance(x, Term):
                return bool(x in cc)
        raise Unsupported('in %s' % type(c).__name__)

    def truth(self, v):
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        if isinstance(v, Opaque):
            raise Unsupported('truth of ' + v.why)
        if isinstance(v, Term):
            return T.tobool(v)
        if is_arr(v):
            if v.size == 1:
                return self.truth(v.ravel()[0])
            if v.size == 0:
                return False
            raise AbstractRaise(ExcObj('ValueError', ['truth value of an array is ambiguous']))
        if isinstance(v, EnumMember):
            return bool(v.value) if v.is_int else True
        if isinstance(v, InstObj):
            m, _ = v.cls.lookup('__len__')
            if m is not None:
                return self.truth(self.call(BoundMethod(m, v), [], {}))
            m, _ = v.cls.lookup('__bool__')
            if m is not None:
                return self.truth(self.call(BoundMethod(m, v), [], {}))
            return True
        if isinstance(v, (ClassObj, FuncObj, External, ModuleObj, BoundMethod)):
            return True
        if isinstance(v, MaskedSel):
            raise Unsupported('truth of masked')
        if hasattr(v, 'sa_truth'):
            return v.sa_truth(self)
        try:
            return bool(v)
        except Exception:
            raise Unsupported('truth of %s' % type(v).__name__)

    def e_IfExp(self, n):
        c = self.truth(self.eval(n.test))
        if c is True:
            return self.eval(n.body)
        if c is False:
            return self.eval(n.orelse)
        f = self.fr
        f.lits.append(c)
        try:
            a = self.eval(n.body)
        finally:
            f.lits.pop()
        f.lits.append(T.not_(c))
        try:
            b = self.eval(n.orelse)
        finally:
            f.lits.pop()
        r = self.merge(c, a, b)
        if isinstance(r, Choice):
            return self.read(r)
        return r

    def e_Attribute(self, n):
        return self.getattr(self.eval(n.value), n.attr, n)

    def e_Subscript(self, n):
        o = self.eval(n.value)
        k = self.eval(n.slice)
        if isinstance(o, External) and o.name.endswith('.slicer'):
            return k
        return self.getitem(o, k)

    def e_Slice(self, n):
        return slice(*[self.eval(x) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def e_JoinedStr(self, n):
        out = ''
        for v in n.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                x = self.eval(v.value)
                if isinstance(x, Opaque):
                    return Opaque('fstring ' + x.why)
                spec = ''
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec)
                if isinstance(x, (str, int, float)) and not isinstance(x, bool):
                    try:
                        out += format(x, spec if isinstance(spec, str) else '')
                    except ValueError:
                        out += str(x)
                elif getattr(self, 'groups_on', False) and (isinstance(x, Term) or isinstance(x, np.ndarray) and x.dtype == object):
                    out += '1.5'  # some number
                else:
                    out += str(x)
        return out

    def e_Lambda(self, n):
        a = n.args
        defaults = [self.eval(d) for d in a.defaults]
        return FuncObj(n, self.fr.module, self.fr, None, defaults, {})

    def e_Starred(self, n):
        raise Unsupported('starred')

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v)
        return v

    def e_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else None
        if self.fr.yields is None:
            self.fr.yields = []
        if self.local_guard() is not True:
            raise Unsupported('guarded yield')
        self.fr.yields.append(v)
        return None

    def e_YieldFrom(self, n):
        for v in self.iterate(self.eval(n.value)):
            if self.fr.yields is None:
                self.fr.yields = []
            self.fr.yields.append(v)
        return None

    def comp(self, gens, elt):
        out = []
        f = self.fr
        saved = {}
        for g in gens:
            for nm in bound_target(g.target):
                saved[nm] = f.env.get(nm, UNDEF)

        def rec(i):
            if i == len(gens):
                out.append(elt())
                return
            for x in self.iterate(self.eval(gens[i].iter)):
                self.assign(gens[i].target, x)
                ok = True
                for c in gens[i].ifs:
                    t = self.truth(self.eval(c))
                    if t is False:
                        ok = False
                        break
                    if t is not True:
                        raise Unsupported('comprehension filter on data')
                if ok:
                    rec(i + 1)

        try:
            rec(0)
        finally:
            for nm, v in saved.items():
                if v is UNDEF:
                    f.env.pop(nm, None)
                else:
                    f.env[nm] = v
        return out

    def e_ListComp(self, n):
        return self.comp(n.generators, lambda: self.eval(n.elt))

    def e_GeneratorExp(self, n):
        return self.comp(n.generators, lambda: self.eval(n.elt))

    def e_SetComp(self, n):
        return set(self.key(x) for x in self.comp(n.generators, lambda: self.eval(n.elt)))

    def e_DictComp(self, n):
        return dict(self.comp(n.generators, lambda: (self.key(self.eval(n.key)), self.eval(n.value))))

    # ------------------------------------------------------------ access
    def iterate(self, v):
        if isinstance(v, Choice):
            v = self.read(v)
        if isinstance(v, Opaque):
            raise Unsupported('iterate ' + v.why)
        if isinstance(v, (list, tuple, range, str)):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if is_arr(v):
            if v.ndim == 0:
                raise AbstractRaise(ExcObj('TypeError', ['iteration over a 0-d array']))
            return [x.item() if isinstance(x, np.generic) else x for x in v]
        if isinstance(v, EnumClass):
            return list(v.members)
        if hasattr(v, 'sa_iter'):
            return v.sa_iter(self)
        if isinstance(v, InstObj):
            m, _ = v.cls.lookup('__iter__')
            if m is not None:
                return self.iterate(self.call(BoundMethod(m, v), [], {}))
            if '__dict_items__' in v.attrs:
                return list(v.attrs['__dict_items__'])
            raise Unsupported('iterate instance %s' % v.cls.name)
        if type(v).__name__ in ('dict_keys', 'dict_values', 'dict_items', 'zip', 'enumerate', 'map', 'filter', 'list_iterator', 'reversed', 'generator'):
            return list(v)
        if isinstance(v, Term):
            raise AbstractRaise(ExcObj('TypeError', ['iteration over a scalar']))
        if v is None and getattr(self, 'ext_attrs', None):
            raise AbstractRaise(ExcObj('TypeError', ['iteration over None']))
        raise Unsupported('iterate %s' % type(v).__name__)

    def getitem(self, o, k):
        if isinstance(o, Choice):
            o = self.read(o)
        if isinstance(o, Opaque):
            return o
        if hasattr(o, 'sa_getitem'):
            return o.sa_getitem(self, k)
        if isinstance(o, dict):
            kk = self.key(k)
            if kk not in o:
                raise AbstractRaise(ExcObj('KeyError', [kk]))
            return self.read(o[kk], str(kk))
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(k, np.generic):
                k = k.item()
            if isinstance(k, np.ndarray) and k.size == 1:
                k = k.item()
            if isinstance(k, (Term, Opaque)):
                raise Unsupported('symbolic list index')
            if isinstance(k, slice):
                k = self.index(k)
            try:
                return self.read(o[k])
            except (IndexError, TypeError) as e:
                raise AbstractRaise(ExcObj(type(e).__name__, [str(e)]))
        if is_arr(o):
            k = self.index(k)
            if isinstance(k, tuple) and len(k) == 1 and isinstance(k[0], IndexMask):
                k = k[0]
            if isinstance(k, IndexMask):
                return MaskedSel(k.mask, np.broadcast_to(to_obj(o), k.mask.shape))
            if is_arr(k) and k.dtype == object:
                if k.shape != o.shape:
                    raise Unsupported('mask shape')
                return MaskedSel(k, to_obj(o))
            if isinstance(k, tuple) and any(is_arr(x) and x.dtype == object or isinstance(x, IndexMask) for x in k):
                raise Unsupported('masked multi index')
            try:
                r = o[k]
            except IndexError as e:
                raise AbstractRaise(ExcObj('IndexError', [str(e)]))
            if isinstance(r, np.generic):
                r = r.item()
            return r
        if isinstance(o, MaskedSel):
            raise Unsupported('index masked')
        if isinstance(o, Term):
            if k is Ellipsis or k == ():
                return o
            raise AbstractRaise(ExcObj('TypeError', ['scalar is not subscriptable']))
        if isinstance(o, (int, float, type(None))):
            raise AbstractRaise(ExcObj('TypeError', ['%s is not subscriptable' % type(o).__name__]))
        if isinstance(o, EnumClass):
            for m in o.members:
                if m.name == k:
                    return m
            raise AbstractRaise(ExcObj('KeyError', [k]))
        if isinstance(o, InstObj):
            m, c = o.cls.lookup('__getitem__')
            if m is not None:
                return self.call(BoundMethod(m, o), [k], {})
            if '__dict_items__' in o.attrs:
                d = o.attrs['__dict_items__']
                if self.key(k) not in d:
                    raise AbstractRaise(ExcObj('KeyError', [k]))
                return d[self.key(k)]
            h = self.ext_method(o, '__getitem__')
            if h is not None:
                return h(self, o, [k], {})
        if isinstance(o, External):
            return Opaque('%s[...]' % o.name)
        if isinstance(o, IndexMask):
            raise Unsupported('index of index mask')
        raise Unsupported('getitem on %s' % type(o).__name__)

    def ext_method(self, o, name):
        for b in o.cls.external_bases():
            d = self.ext_base_methods.get(b)
            if d and name in d:
                return d[name]
        return None

    def getattr(self, o, name, node=None):
        if isinstance(o, Choice):
            o = self.read(o)
        if isinstance(o, Opaque):
            return Opaque(o.why)
        if isinstance(o, LazyImport):
            o = self.resolve(o)
        if isinstance(o, External):
            full = o.name + '.' + name
            if full in self.ext_attr:
                return self.ext_attr[full]
            return External(full)
        if isinstance(o, ModuleObj):
            if name in o.env:
                return self.resolve(o.env[name])
            sub = self.module(o.name + '.' + name)
            if sub is not None:
                return sub
            for s in o.env.get('__stars__', []):
                sm = self.module(s)
                if sm is not None and name in sm.env:
                    return self.resolve(sm.env[name])
            if name == '__file__':
                return o.path
            return Opaque('%s.%s' % (o.name, name))
        if isinstance(o, InstObj):
            if name in o.attrs:
                return self.read(o.attrs[name], name, node)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return o.attrs
            v, c = o.cls.lookup(name)
            if c is not None:
                if isinstance(v, PropertyObj):
                    return self.call(BoundMethod(v.fget, o), [], {})
                if isinstance(v, StaticObj):
                    return v.f
                if isinstance(v, ClassMethodObj):
                    return BoundMethod(v.f, o.cls)
                if isinstance(v, FuncObj):
                    return BoundMethod(v, o)
                return self.resolve(v)
            h = self.ext_method(o, name)
            if h is not None:
                return PyMethod(h, o)
            if name in ('__getitem__',):
                raise Unsupported(name)
            if '__dict_items__' in o.attrs and hasattr(dict, name):
                return getattr(o.attrs['__dict_items__'], name)
            if o.cls.external_bases() and any(b not in ('builtins.object', 'abc.ABC') for b in o.cls.external_bases()):
                known = getattr(self, 'ext_attrs', None)
                if known is None or name in known or any(b.split('.')[-1] not in ('Group', 'ParallelGroup', 'object', 'ABC', 'ExplicitComponent', 'ImplicitComponent') for b in o.cls.external_bases()):
                    return Opaque('%s.%s' % (o.cls.name, name))
            raise AbstractRaise(ExcObj('AttributeError', ["'%s' object has no attribute '%s'" % (o.cls.name, name)]), node)
        if isinstance(o, SuperObj):
            mro = o.inst.cls.mro if isinstance(o.inst, InstObj) else o.inst.mro
            i = next((k for k, c in enumerate(mro) if c is o.cls), -1)
            for c in mro[i + 1 :]:
                if isinstance(c, ClassObj) and name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, FuncObj):
                        return BoundMethod(v, o.inst)
                    if isinstance(v, PropertyObj):
                        return self.call(BoundMethod(v.fget, o.inst), [], {})
                    if isinstance(v, StaticObj):
                        return v.f
                    return v
                if isinstance(c, External):
                    d = self.ext_base_methods.get(c.name)
                    if d and name in d:
                        return PyMethod(d[name], o.inst)
            if name in ('__init__', '__init_subclass__', 'initialize', 'setup', 'configure'):
                return PyFunc(lambda *a, **k: None)
            return Opaque('super.%s' % name)
        if isinstance(o, EnumClass):
            v, c = o.lookup(name)
            if c is not None:
                if isinstance(v, FuncObj) or isinstance(v, ClassMethodObj):
                    return BoundMethod(v.f, o) if isinstance(v, ClassMethodObj) else v
                return v
            if name == '__members__':
                return {m.name: m for m in o.members}
            if name == '__name__':
                return o.name
            raise AbstractRaise(ExcObj('AttributeError', ['enum %s has no %s' % (o.name, name)]), node)
        if isinstance(o, EnumMember):
            if name == 'value' or name == '_value_':
                return o.value
            if name == 'name':
                return o.name
            v, c = o.cls.lookup(name)
            if c is not None:
                if isinstance(v, FuncObj):
                    return BoundMethod(v, o)
                if isinstance(v, PropertyObj):
                    return self.call(BoundMethod(v.fget, o), [], {})
                return v
            if name == '__class__':
                return o.cls
            raise AbstractRaise(ExcObj('AttributeError', ['%r has no %s' % (o, name)]), node)
        if isinstance(o, ClassObj):
            v, c = o.lookup(name)
            if c is not None:
                if isinstance(v, StaticObj):
                    return v.f
                if isinstance(v, ClassMethodObj):
                    return BoundMethod(v.f, o)
                return self.resolve(v)
            if name == '__name__' or name == '__qualname__':
                return o.name
            if name == '__module__':
                return o.module.name
            if name == '__mro__':
                return tuple(o.mro)
            if name == '__dict__':
                return o.ns
            if name == '__init__':
                return PyFunc(lambda *a, **k: None)
            if name == '__doc__':
                return ast.get_docstring(o.node)
            if any(not b.startswith('builtins.') and not b.startswith('abc.') for b in o.external_bases()):
                for b in o.external_bases():
                    d = self.ext_base_methods.get(b)
                    if d and name in d:
                        h = d[name]
                        return PyFunc(lambda self_, *a, **k: h(self, self_, list(a), k))
                return Opaque('%s.%s' % (o.name, name))
            raise AbstractRaise(ExcObj('AttributeError', ['class %s has no %s' % (o.name, name)]), node)
        if isinstance(o, FuncObj):
            if name == '__name__':
                return o.name
            return Opaque('func.' + name)
        if isinstance(o, ExcObj):
            return Opaque('exc.' + name)
        if hasattr(o, 'sa_getattr'):
            return o.sa_getattr(self, name)
        if is_num(o) or is_arr(o) or isinstance(o, MaskedSel):
            return self.arr_attr(o, name)
        if isinstance(o, (str, list, dict, tuple, set, frozenset, range, int, float, complex, bytes, type(None), slice)):
            if not hasattr(o, name):
                raise AbstractRaise(ExcObj('AttributeError', ["'%s' object has no attribute '%s'" % (type(o).__name__, name)]), node)
            return PyMethod(self.native_method(name), o)
        raise Unsupported('getattr %s on %s' % (name, type(o).__name__))

    MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'add', 'discard', 'sort', 'reverse', 'popitem'}

    def native_method(self, name):
        def call(interp, o, args, kwargs):
            if name in interp.MUTATORS and not isinstance(o, (str, tuple)):
                g = interp.local_guard()
                if g is not True and interp.full_guard() is not True:
                    raise Unsupported('guarded %s.%s' % (type(o).__name__, name))
            if isinstance(o, dict) and name in ('get', 'setdefault', 'pop') and args:
                args = [interp.key(args[0])] + list(args[1:])
            if isinstance(o, list) and name == 'extend':
                o.extend(interp.iterate(args[0]))
                return None
            if isinstance(o, dict) and name == 'update':
                for a in args:
                    if isinstance(a, dict):
                        o.update(a)
                    else:
                        o.update([tuple(interp.iterate(x)) for x in interp.iterate(a)])
                o.update(kwargs)
                return None
            if isinstance(o, set) and name in ('update', 'union', 'difference', 'intersection', 'issubset', 'difference_update', 'add'):
                if name == 'add':
                    args = [interp.key(args[0])]
                else:
                    args = [set(interp.key(x) for x in interp.iterate(a)) for a in args]
            if isinstance(o, list) and name == 'sort' and kwargs.get('key') is not None:
                f = kwargs['key']
                kwargs = dict(kwargs, key=lambda x: interp.call(f, [x], {}))
            if isinstance(o, str):
                if any(isinstance(a, Opaque) for a in args):
                    return Opaque('str')
                if name == 'join':
                    args = [[x if isinstance(x, str) else str(x) for x in interp.iterate(args[0])]]
                if name == 'format':
                    args = [str(a) if not isinstance(a, (str, int, float)) else a for a in args]
                    try:
                        return o.format(*args, **kwargs)
                    except Exception:
                        return o
            if isinstance(o, list) and name in ('index', 'remove', 'count') and args and isinstance(args[0], (Term, Opaque)):
                raise Unsupported('list.%s symbolic' % name)
            try:
                return interp.read(getattr(o, name)(*args, **kwargs))
            except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
                raise AbstractRaise(ExcObj(type(e).__name__, [str(e)]))

        return call

    def arr_attr(self, o, name):
        from . import models

        return models.arr_attr(self, o, name)

    # ------------------------------------------------------------ calls
    def e_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in self.fr.env:
            return self.make_super(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('locals', 'globals'):
            return self.fr.env if n.func.id == 'locals' else self.fr.module.env
        f = self.eval(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value)))
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                if isinstance(d, dict):
                    kwargs.update(d)
                elif isinstance(d, InstObj) and '__dict_items__' in d.attrs:
                    kwargs.update(d.attrs['__dict_items__'])
                else:
                    raise Unsupported('** call')
            else:
                kwargs[k.arg] = self.eval(k.value)
        return self.call(f, args, kwargs, n)

    def make_super(self, n):
        f = self.fr
        while f is not None and (f.func is None or f.func.cls is None):
            f = f.closure
        if f is None:
            raise Unsupported('super')
        a = f.func.node.args
        first = (a.posonlyargs + a.args)[0].arg
        return SuperObj(f.func.cls, f.env[first])

    def call(self, f, args, kwargs, node=None):
        if isinstance(f, Choice):
            f = self.read(f)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, FuncObj):
            return self.call_func(f, args, kwargs, node)
        if isinstance(f, PyFunc):
            return f.f(*args, **kwargs)
        if isinstance(f, PyMethod):
            return f.f(self, f.o, list(args), kwargs)
        if isinstance(f, EnumClass):
            if not args:
                return Opaque('enum call')
            v = args[0]
            if isinstance(v, EnumMember):
                return v
            if isinstance(v, (Opaque, Term)):
                return Opaque('enum of symbolic')
            for m in f.members:
                if type(m.value) == type(v) and m.value == v or (is_num(v) and is_num(m.value) and v == m.value):
                    return m
            mm, _ = f.lookup('_missing_')
            raise AbstractRaise(ExcObj('ValueError', ['%r is not a valid %s' % (v, f.name)]), node)
        if isinstance(f, ClassObj):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, External):
            return self.call_external(f, args, kwargs, node)
        if isinstance(f, Opaque):
            return Opaque('call ' + f.why)
        if isinstance(f, InstObj):
            m, _ = f.cls.lookup('__call__')
            if m is not None:
                return self.call(BoundMethod(m, f), args, kwargs, node)
            return Opaque('call instance')
        if hasattr(f, 'sa_call'):
            return f.sa_call(self, args, kwargs)
        if callable(f) and isinstance(f, type):
            return self.builtins[f.__name__].f(*args, **kwargs)
        raise Unsupported('call %s' % type(f).__name__)

    def call_external(self, f, args, kwargs, node=None):
        h = self.externals.get(f.name)
        if h is not None:
            return h(self, args, kwargs)
        last = f.name.split('.')[-1]
        if last.endswith(('Error', 'Exception', 'Warning')) or f.name.startswith('builtins.'):
            return ExcObj(last, args)
        self.events.append(('unknown-external', f.name, self.where()))
        return Opaque('external ' + f.name)

    def instantiate(self, cls, args, kwargs, node=None):
        o = InstObj(cls)
        eb = cls.external_bases()
        if 'builtins.dict' in eb or any(b.endswith('OrderedDict') or b.endswith('UserDict') for b in eb):
            o.attrs['__dict_items__'] = {}
        for b in eb:
            h = self.externals.get(b + '.__new__')
            if h is not None:
                h(self, [o] + list(args), kwargs)
        init, c = cls.lookup('__init__')
        if isinstance(init, FuncObj):
            self.call_func(init, [o] + list(args), kwargs, node)
        else:
            if any('dataclass' in ast.unparse(d) for d in cls.node.decorator_list):
                flds = [st for st in cls.node.body if isinstance(st, ast.AnnAssign)]
                vals = list(args)
                for i, st in enumerate(flds):
                    if i < len(vals):
                        o.attrs[st.target.id] = vals[i]
                    elif st.target.id in kwargs:
                        o.attrs[st.target.id] = kwargs[st.target.id]
            for b in eb:
                h = self.ext_base_methods.get(b, {}).get('__init__')
                if h is not None:
                    h(self, o, list(args), kwargs)
                    break
        return o

    def call_func(self, f, args, kwargs, node=None):
        if self.hook_call is not None:
            r = self.hook_call(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        if len(self.frames) > 150:
            raise Unsupported('call depth')
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if len(args) > len(params) and not a.vararg:
            raise AbstractRaise(ExcObj('TypeError', ['%s() takes %d positional arguments but %d were given' % (f.name, len(params), len(args))]), node)
        for p, v in zip(params, args):
            env[p] = v
        if a.vararg:
            env[a.vararg.arg] = tuple(args[len(params) :])
        kw = dict(kwargs)
        for p in params + [p.arg for p in a.kwonlyargs]:
            if p in kw:
                if p in env:
                    raise AbstractRaise(ExcObj('TypeError', ['multiple values for %s' % p]), node)
                env[p] = kw.pop(p)
        if a.kwarg:
            env[a.kwarg.arg] = kw
        elif kw:
            raise AbstractRaise(ExcObj('TypeError', ['%s() got an unexpected keyword argument %s' % (f.name, sorted(kw))]), node)
        nd = len(f.defaults)
        for p, d in zip(params[len(params) - nd :], f.defaults):
            if p not in env:
                env[p] = d
        for p in a.kwonlyargs:
            if p.arg not in env:
                if p.arg in f.kwdefaults:
                    env[p.arg] = f.kwdefaults[p.arg]
        for p in params + [p.arg for p in a.kwonlyargs]:
            if p not in env:
                raise AbstractRaise(ExcObj('TypeError', ['%s() missing argument %s' % (f.name, p)]), node)
        fr = Frame(f, f.module, env, f.closure, self)
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body)
            if f.is_gen is None:
                f.is_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_walk(f.node))
            self.exec_block(f.node.body)
            if f.is_gen:
                return fr.yields or []
            return self.merge_returns(fr)
        finally:
            self.frames.pop()

    def merge_returns(self, fr):
        if not fr.returns:
            return None
        rets = fr.returns
        # control that falls off the end returns None
        fell = not fr.dead
        if rets[-1][0] is True:
            v = rets[-1][1]
            rest = rets[:-1]
        elif fell:
            conds = T.or_(*[g for g, _ in rets])
            if conds is True:
                v = rets[-1][1]
                rest = rets[:-1]
            else:
                v = None
                rest = rets
        else:
            v = rets[-1][1]
            rest = rets[:-1]
        # earlier returns take precedence
        self.frames.append(fr)
        try:
            for g, w in reversed(rest):
                v = self.merge(g, w, v)
        finally:
            self.frames.pop()
        return v


class PyFunc:
    def __init__(self, f):
        self.f = f


class PyMethod:
    def __init__(self, f, o):
        self.f = f
        self.o = o


BUILTIN_EXC = {n for n in dir(__builtins__ if not isinstance(__builtins__, dict) else __import__('builtins')) if n.endswith(('Error', 'Exception', 'Warning'))} | {'StopIteration', 'KeyboardInterrupt', 'SystemExit', 'NotImplemented'}
import builtins as _b

BUILTIN_EXC |= {n for n in dir(_b) if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)}


def exc_name(e):
    if isinstance(e, ExcObj):
        return e.name
    if isinstance(e, External):
        return e.name.split('.')[-1]
    if isinstance(e, InstObj):
        return e.cls.name
    if isinstance(e, ClassObj):
        return e.name
    return 'Exception'


def load(t):
    import copy

    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def bound_target(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


def bound_names(st):
    out = []
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return [st.name]
    for n in ast.walk(st):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.append(n.id)
    return out


def own_walk(fn):
    """walk a function body without nested functions/classes"""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


_an = {}


def assigned_names(fn):
    r = _an.get(id(fn))
    if r is None:
        r = {n.id for n in own_walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        _an[id(fn)] = r
    return r
