"""Symbolic heap: objects of unbounded number, dictionaries, lists and sets of unbounded size.

An object is an integer reference (0 is None) into field functions; a field update is a functional
update at one reference, so aliasing is decided by the solver.  Every structure reports a version of
itself through m_state, so that loops find out by themselves which structures they modify.
"""
from __future__ import annotations
import z3
from .values import *
from .core import PathEnd
from .interp import SIter, BUILTINS
from .sqlm import _Hold

I, B = z3.IntSort(), z3.BoolSort()


def pats(*ts):
    """the terms that can serve as quantifier patterns"""
    return [t for t in ts if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0]


def sort_of(kind):
    return {'int': I, 'bool': B}.get(kind, V if isinstance(kind, str) and kind.startswith('val') else I)


def wrap(i, kind, t):
    """term -> engine value"""
    if kind == 'int':
        return i.mkint(t)
    if kind == 'bool':
        return i.mkbool(t)
    if isinstance(kind, str) and kind.startswith('val'):
        return SVal(t, {'bytes': bytes, 'str': str}.get(kind[4:], object))
    if kind[0] == 'ref':                 # ('ref', heap[, nullable])
        if len(kind) > 2 and kind[2]:
            if not i.ctx.holds(t != 0) and i.ctx.branch(t == 0, 'null'):
                return None
        return HRef(kind[1], t)
    if kind[0] == 'opt':                 # ('opt', kind, none-term)
        if i.ctx.branch(t == kind[2], 'none'):
            return None
        return wrap(i, kind[1], t)
    raise Unsupported('kind %r' % (kind,))


def unwrap(i, kind, v):
    if kind == 'int':
        t = i.as_int(v)
        if t is None:
            raise Unsupported('%s where an int is stored' % type(v).__name__)
        return t
    if kind == 'bool':
        t = i.truth_term(v)
        return t if z3.is_expr(t) else z3.BoolVal(t)
    if isinstance(kind, str) and kind.startswith('val'):
        return i.as_v(v)
    if kind[0] == 'ref':
        if v is None:
            return z3.IntVal(0)
        if isinstance(v, HRef) and v.heap is kind[1]:
            return v.t
        raise Unsupported('%s where a reference is stored' % type(v).__name__)
    if kind[0] == 'opt':
        return kind[2] if v is None else unwrap(i, kind[1], v)
    raise Unsupported('kind %r' % (kind,))


class Heap(Model):
    """All objects of one class."""

    def __init__(self, i, cls, fields, name):
        self._i, self._cls, self._kinds, self._label = i, cls, dict(fields), name
        self._fn = {}
        for k, kd in fields.items():
            self._fn[k] = self._fresh(k, kd)
        al = z3.Function(fresh_name(name + '_alloc'), I, B)
        self._alloc = lambda r: al(r)
        i.ctx.roots['heap_' + name] = self
        i.contracts[cls.__module__ + '.' + cls.__qualname__] = self._new
        self._consts = {}

    def _fresh(self, k, kd):
        f = z3.Function(fresh_name('%s_%s' % (self._label, k)), I, sort_of(kd))
        return lambda r: f(r)

    def alloc(self, r):
        return self._alloc(r)

    def fld(self, k, r):
        return self._fn[k](r)

    def fn(self, k):
        return self._fn[k]

    def store(self, k, r, t):
        old = self._fn[k]
        self._fn[k] = lambda x, old=old, r=r, t=t: z3.If(x == r, t, old(x))

    def havoc_all(self):
        for k in self._kinds:
            self._fn[k] = self._fresh(k, self._kinds[k])

    def snap(self):
        return dict(self._fn), self._alloc

    def new_ref(self):
        i = self._i
        r = i.ctx.int(self._label + '_new', lo=1).t
        al = self._alloc
        i.ctx.assume(z3.Not(al(r)))
        self._alloc = lambda x: z3.Or(x == r, al(x))
        return HRef(self, r)

    def _new(self, i, args, kw):
        o = self.new_ref()
        fn = i.find_method(self._cls, '__init__')
        if isinstance(fn, IFunc):
            i.call(Bound(fn, o), args, kw)
            return o
        if hasattr(self._cls, '__dataclass_fields__') or hasattr(self._cls, '__attrs_attrs__'):
            tmp = SObj(self._cls, {})
            i.init_fields(tmp, self._cls, args, kw)
            for k, v in tmp.f.items():
                o.m_rawsetattr(i, k, v)
            return o
        raise Unsupported('instantiate %s' % self._cls.__name__)

    def m_state(self):
        d = {k: _Hold(f) for k, f in self._fn.items()}
        d['$alloc'] = _Hold(self._alloc)
        return d

    def m_havoc(self, i, k):
        if k == '$alloc':
            al0 = self._alloc
            al = z3.Function(fresh_name(self._label + '_alloc'), I, B)
            r = z3.Int('r!al')
            i.ctx.axiom(z3.ForAll([r], z3.Implies(al0(r), al(r)), patterns=[al(r)]))
            self._alloc = lambda x: al(x)
            return
        self._fn[k] = self._fresh(k, self._kinds[k])


class HRef(Model):
    def __init__(self, heap, t):
        self.heap, self.t = heap, t
        self.m_type = heap._cls

    def m_same(self, o):
        return isinstance(o, HRef) and o.heap is self.heap and o.t.eq(self.t)

    def m_eq(self, i, o):
        if isinstance(o, HRef):
            if o.heap is not self.heap:
                return False
            return i.mkbool(self.t == o.t)
        return False

    def m_is(self, i, o):
        return self.m_eq(i, o)

    def m_bool(self):
        return True

    def m_getattr(self, i, name):
        h = self.heap
        if name in h._kinds:
            return wrap(i, h._kinds[name], h.fld(name, self.t))
        if name == '__class__':
            return h._cls
        fn = i.find_method(h._cls, name)
        if isinstance(fn, IFunc):
            return Bound(fn, self)
        if isinstance(fn, property):
            f = i.ifunc(fn.fget)
            return i.call(Bound(f, self), [], {})
        for k in h._cls.__mro__:
            if name in k.__dict__ and not callable(k.__dict__[name]) and not hasattr(k.__dict__[name], '__get__'):
                return i.wrap(k.__dict__[name])
        return NotImplemented

    def m_setattr(self, i, name, v):
        fn = i.find_method(self.heap._cls, '__setattr__')
        if isinstance(fn, IFunc):
            i.call(Bound(fn, self), [name, v], {})
            return None
        return self.m_rawsetattr(i, name, v)

    def m_rawsetattr(self, i, name, v):
        h = self.heap
        if name not in h._kinds:
            raise Unsupported('attribute %s.%s' % (h._label, name))
        h.store(name, self.t, unwrap(i, h._kinds[name], v))
        return None

    def m_state(self):
        return {}


class HMap(Model):
    """dict: key kind -> value kind"""
    m_type = dict

    def __init__(self, i, name, kk, vk, empty=False):
        self._i, self._label, self._kk, self._vk = i, name, kk, vk
        if empty:
            self._dom = lambda k: z3.BoolVal(False)
        else:
            f = z3.Function(fresh_name(name + '_dom'), sort_of(kk), B)
            self._dom = lambda k: f(k)
        g = z3.Function(fresh_name(name + '_val'), sort_of(kk), sort_of(vk))
        self._val = lambda k: g(k)
        self._n = z3.IntVal(0) if empty else i.ctx.int(name + '_len', lo=0).t
        self._touched = []
        i.ctx.roots['map_' + name] = self

    def dom(self, k):
        return self._dom(k)

    def val(self, k):
        return self._val(k)

    def snap(self):
        return self._dom, self._val, self._n

    def key(self, i, k):
        return unwrap(i, self._kk, k)

    def touch(self, k):
        # a present key means the dictionary is not empty
        self._i.ctx.assume(z3.Implies(self._dom(k), self._n >= 1))
        h = getattr(self, '_touch_hook', None)
        if h is not None:
            h(k)

    def m_getitem(self, i, k):
        t = self.key(i, k)
        self.touch(t)
        if not i.ctx.branch(self._dom(t), 'key'):
            i.raise_(KeyError, k)
        return wrap(i, self._vk, self._val(t))

    def m_contains(self, i, k):
        t = self.key(i, k)
        self.touch(t)
        return i.mkbool(self._dom(t))

    def m_setitem(self, i, k, v):
        t = self.key(i, k)
        self.touch(t)
        self._n = z3.simplify(z3.If(self._dom(t), self._n, self._n + 1))
        d, f, x = self._dom, self._val, unwrap(i, self._vk, v)
        self._dom = lambda y: z3.Or(y == t, d(y))
        self._val = lambda y: z3.If(y == t, x, f(y))

    def _remove(self, t):
        d = self._dom
        self._dom = lambda y: z3.And(y != t, d(y))
        self._n = z3.simplify(self._n - 1)

    def m_delitem(self, i, k):
        t = self.key(i, k)
        self.touch(t)
        if not i.ctx.branch(self._dom(t), 'key'):
            i.raise_(KeyError, k)
        self._remove(t)

    def get(self, k, default=None):
        t = self.key(self._i, k)
        self.touch(t)
        if not self._i.ctx.branch(self._dom(t), 'key'):
            return default
        return wrap(self._i, self._vk, self._val(t))

    def pop(self, k, *d):
        i = self._i
        t = self.key(i, k)
        self.touch(t)
        if not i.ctx.branch(self._dom(t), 'key'):
            if d:
                return d[0]
            i.raise_(KeyError, k)
        v = wrap(i, self._vk, self._val(t))
        self._remove(t)
        return v

    def clear(self):
        self._dom = lambda k: z3.BoolVal(False)
        self._n = z3.IntVal(0)

    # iteration over a snapshot of the keys: position j holds key _iter_key(j), each key once
    def _iter(self, kind):
        i = self._i
        ks = sort_of(self._kk)
        key = z3.Function(fresh_name(self._label + '_key'), I, ks)
        idx = z3.Function(fresh_name(self._label + '_idx'), ks, I)
        dom, val, n = self._dom, self._val, self._n
        k = z3.Const('k!it', ks)
        j = z3.Int('j!it')
        i.ctx.axiom(z3.ForAll([k], z3.Implies(dom(k), z3.And(idx(k) >= 0, idx(k) < n, key(idx(k)) == k)),
                              patterns=pats(dom(k)) + [idx(k)]))
        i.ctx.axiom(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(dom(key(j)), idx(key(j)) == j)), patterns=[key(j)]))
        self._iter_key, self._iter_idx = (lambda t: key(t)), (lambda t: idx(t))

        def elem(kk):
            t = key(kk.t)
            i.ctx.assume(z3.And(dom(t), idx(t) == kk.t))
            self.touch(t)
            a = wrap(i, self._kk, t) if kind != 'values' else None
            b = wrap(i, self._vk, val(t)) if kind != 'keys' else None
            return a if kind == 'keys' else b if kind == 'values' else (a, b)
        self._last_iter = SIter(n, elem)
        return self._last_iter

    def m_iter(self, i):
        return self._iter('keys')

    def m_iterobj(self, i):
        return HMapIter(self, 'keys')

    def keys(self):
        return HMapIter(self, 'keys')

    def values(self):
        return HMapIter(self, 'values')

    def items(self):
        return HMapIter(self, 'items')

    def empty(self):
        """axiom linking len() and membership"""
        k = z3.Const('k!e', sort_of(self._kk))
        return z3.And(z3.Implies(self._n == 0, z3.ForAll([k], z3.Not(self._dom(k)))), self._n >= 0)

    def m_len(self):
        i = self._i
        i.ctx.axiom(self.empty())
        # the converse: no key -> length 0, stated with a witness
        w = z3.Const(fresh_name('witness'), sort_of(self._kk))
        i.ctx.assume(z3.Implies(self._n > 0, self._dom(w)))
        h = getattr(self, '_touch_hook', None)
        if h is not None:
            h(w)
        return i.mkint(self._n)

    def m_bool(self):
        n = self.m_len()
        return self._i.mkbool(self._i.as_int(n) > 0)

    def m_state(self):
        return {'dom': _Hold(self._dom), 'val': _Hold(self._val), 'n': SInt(self._n)}

    def m_havoc(self, i, k):
        if k == 'dom':
            f = z3.Function(fresh_name(self._label + '_dom'), sort_of(self._kk), B)
            self._dom = lambda x: f(x)
        elif k == 'val':
            g = z3.Function(fresh_name(self._label + '_val'), sort_of(self._kk), sort_of(self._vk))
            self._val = lambda x: g(x)
        else:
            self._n = i.ctx.int(self._label + '_len', lo=0).t


class HList(Model):
    """list of symbolic length"""
    m_type = list

    def __init__(self, i, name, kind, n=None):
        self._i, self._label, self._kind = i, name, kind
        g = z3.Function(fresh_name(name + '_at'), I, sort_of(kind))
        self._at = lambda k: g(k)
        self._n = n if n is not None else i.ctx.int(name + '_len', lo=0).t
        i.ctx.roots['list_' + name] = self

    def at(self, k):
        return self._at(k)

    def idx(self, i, k):
        t = i.as_int(k)
        if t is None:
            raise Unsupported('list index')
        if i.truth(i.mkbool(z3.Or(t >= self._n, t < -self._n)), 'idx'):
            i.raise_(IndexError, 'list index out of range')
        return z3.simplify(z3.If(t < 0, t + self._n, t))

    def m_getitem(self, i, k):
        t = self.idx(i, k)
        h = getattr(self, '_touch_hook', None)
        if h is not None:
            h(t)
        return wrap(i, self._kind, self._at(t))

    def m_setitem(self, i, k, v):
        t = self.idx(i, k)
        f, x = self._at, unwrap(i, self._kind, v)
        self._at = lambda y: z3.If(y == t, x, f(y))

    def append(self, v):
        i = self._i
        f, n, x = self._at, self._n, unwrap(i, self._kind, v)
        self._at = lambda y: z3.If(y == n, x, f(y))
        self._n = z3.simplify(n + 1)

    def m_len(self):
        return self._i.mkint(self._n)

    def m_iter(self, i):
        at, n = self._at, self._n
        h = getattr(self, '_touch_hook', None)

        def elem(k):
            if h is not None:
                h(k.t)
            return wrap(i, self._kind, at(k.t))
        return SIter(n, elem)

    def m_state(self):
        return {'at': _Hold(self._at), 'n': SInt(self._n)}

    def m_havoc(self, i, k):
        if k == 'at':
            g = z3.Function(fresh_name(self._label + '_at'), I, sort_of(self._kind))
            self._at = lambda x: g(x)
        else:
            self._n = i.ctx.int(self._label + '_len', lo=0).t


class HSet(Model):
    m_type = set

    def __init__(self, i, name, kind, empty=False):
        self._i, self._label, self._kind = i, name, kind
        if empty:
            self._has = lambda k: z3.BoolVal(False)
        else:
            f = z3.Function(fresh_name(name + '_has'), sort_of(kind), B)
            self._has = lambda k: f(k)
        i.ctx.roots['set_' + name] = self

    def has(self, k):
        return self._has(k)

    def key(self, k):
        return unwrap(self._i, self._kind, k)

    def m_contains(self, i, k):
        return i.mkbool(self._has(self.key(k)))

    def add(self, k):
        t, f = self.key(k), self._has
        self._has = lambda x: z3.Or(x == t, f(x))

    def discard(self, k):
        t, f = self.key(k), self._has
        self._has = lambda x: z3.And(x != t, f(x))

    def remove(self, k):
        t = self.key(k)
        if not self._i.ctx.branch(self._has(t), 'setmember'):
            self._i.raise_(KeyError, k)
        self.discard(k)

    def m_state(self):
        return {'has': _Hold(self._has)}

    def m_havoc(self, i, k):
        f = z3.Function(fresh_name(self._label + '_has'), sort_of(self._kind), B)
        self._has = lambda x: f(x)


class HMapIter(Model):
    """keys()/values()/items() of an HMap"""
    m_type = list

    def __init__(self, mp, kind):
        self.mp, self.kind = mp, kind

    def m_iter(self, i):
        return self.mp._iter(self.kind)

    def m_iterobj(self, i):
        return self

    def m_len(self):
        return self.mp.m_len()

    def m_contains(self, i, k):
        if self.kind != 'keys':
            raise Unsupported('in values()')
        return self.mp.m_contains(i, k)

    def m_state(self):
        return {}
