"""Unbounded sets and maps (keys: strings or integers; map values: integers) for functions that build and
change them in loops.  Iteration goes over a snapshot: position j -> key(j), key k -> idx(k)."""
from __future__ import annotations
import z3
from .values import *
from .interp import SIter

I, B = z3.IntSort(), z3.BoolSort()
_D = z3.Datatype('CKey')
_D.declare('S', ('s', V))
_D.declare('N', ('n', I))
K = _D.create()
SetSort, MapSort = B, I
lt_str = z3.Function('str_lt', V, V, B)
_n = [0]


class Fn:
    """A set or map as a function symbol K -> Bool/Int; changes make a new symbol with a defining axiom."""
    def __init__(self, decl):
        self.f = decl

    def __getitem__(self, x):
        return self.f(x)

    def eq(self, o):
        return self.f.eq(o.f)

    def m_same(self, o):
        return isinstance(o, Fn) and self.f.eq(o.f)


def fresh(name, sort, dom=None):
    """fresh function symbol, or constant if sort is a sort of keys"""
    _n[0] += 1
    if sort.eq(K):
        return z3.Const('%s!c%d' % (name, _n[0]), K)
    return Fn(z3.Function('%s!c%d' % (name, _n[0]), dom if dom is not None else K, sort))


def const(ctx, v, sort, dom=None):
    r = fresh('const', sort, dom)
    x = z3.Const('cx', dom if dom is not None else K)
    ctx.axiom(z3.ForAll([x], r[x] == v, patterns=[r[x]]))
    return r


def store(ctx, f, t, v):
    r = Fn(z3.Function('%s!u%d' % (f.f.name().split('!')[0], _n[0]), f.f.domain(0), f.f.range()))
    _n[0] += 1
    x = z3.Const('sx', f.f.domain(0))
    for pat in (r[x], f[x]):
        ctx.axiom(z3.ForAll([x], r[x] == z3.If(x == t, v, f[x]), patterns=[pat]))
    ctx.assume(r[t] == v)
    return r


Arr = lambda f: f


class KeyVal(Model):
    """A key that may be a string or an integer."""
    def __init__(self, t):
        self._t = t

    def m_state(self):
        return {}


def to_key(i, v):
    if isinstance(v, KeyVal):
        return v._t
    n = i.as_int(v)
    if n is not None:
        return K.N(n)
    return K.S(i.as_v(v))


def of_key(i, t, strs):
    """engine value of a key term; `strs`: all keys of this collection are strings"""
    if strs:
        i.ctx.assume(K.is_S(t))
        return SVal(K.s(t), str)
    return KeyVal(t)


class Enum:
    """Snapshot of a collection in iteration order."""
    def __init__(self, i, pres, ordered=False):
        c = i.ctx
        c.ghost['nenum'] = c.ghost.get('nenum', 0) + 1
        self.pres = pres
        self.n = c.int('n_items', lo=0).t
        self.key = c.func('item', I, K)
        self.idx = c.func('pos', K, I)
        j, x, y = z3.Int('enum_j'), z3.Const('enum_x', K), z3.Const('enum_y', K)
        key, idx = self.key, self.idx
        c.axiom(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.n), z3.And(pres[key(j)], idx(key(j)) == j)),
                          patterns=[key(j)]))
        c.axiom(z3.ForAll([x], z3.Implies(pres[x], z3.And(idx(x) >= 0, idx(x) < self.n, key(idx(x)) == x)),
                          patterns=[idx(x)]))
        if ordered:
            c.axiom(z3.ForAll([x, y], z3.Implies(z3.And(pres[x], pres[y]),
                                                 (idx(x) < idx(y)) == lt_str(K.s(x), K.s(y))),
                              patterns=[z3.MultiPattern(idx(x), idx(y))]))
        c.ghost.setdefault('enums', []).append(self)

    def member(self, i, x):
        """makes the position of x known"""
        i.ctx.assume(z3.Implies(self.pres[x], z3.And(self.idx(x) >= 0, self.idx(x) < self.n,
                                                               self.key(self.idx(x)) == x)))

    def at(self, i, j):
        i.ctx.assume(z3.Implies(z3.And(j >= 0, j < self.n), z3.And(self.pres[self.key(j)],
                                                                  self.idx(self.key(j)) == j)))
        return self.key(j)


class SColl(Model):
    def __init__(self, i, pres, strs):
        self._i, self.pres, self._strs = i, pres, strs

    def m_contains(self, i, v):
        return i.mkbool(self.pres[to_key(i, v)])

    def m_bool(self):
        return z3.Not(self.empty())

    def empty(self):
        x = z3.Const('ex', K)
        return z3.Not(z3.Exists([x], self.pres[x]))

    def m_iter(self, i):
        e = Enum(i, self.pres)
        it = SIter(e.n, lambda k: of_key(i, e.at(i, k.t), self._strs))
        it.enum = e
        return it

    def m_eq(self, i, o):
        return self is o


class SSet(SColl):
    m_type = set

    def m_state(self):
        return {'pres': Arr(self.pres)}

    def m_havoc(self, i, k):
        self.pres = fresh('set', SetSort)

    def m_binop(self, i, op, o, swapped):
        if isinstance(o, (set, frozenset)):
            o = as_set(i, o)
        elif isinstance(o, SMap):
            return NotImplemented
        if not isinstance(o, SSet):
            return NotImplemented
        a, b = (o, self) if swapped else (self, o)
        r = fresh('setop', SetSort)
        x = z3.Const('so_x', K)
        s = lambda z: z[x]
        f = {'Sub': lambda p, q: z3.And(p, z3.Not(q)), 'BitOr': z3.Or, 'BitAnd': z3.And, 'BitXor': z3.Xor}.get(op)
        if f is None:
            return NotImplemented
        for pat in (s(r), s(a.pres), s(b.pres)):
            i.ctx.axiom(z3.ForAll([x], s(r) == f(s(a.pres), s(b.pres)), patterns=[pat]))
        return SSet(i, r, a._strs and (b._strs or op in ('Sub', 'BitAnd')))

    def add(self, v):
        self._strs = self._strs and not isinstance(v, (KeyVal, int, SInt))
        self.pres = store(self._i.ctx, self.pres, to_key(self._i, v), z3.BoolVal(True))

    def discard(self, v):
        self.pres = store(self._i.ctx, self.pres, to_key(self._i, v), z3.BoolVal(False))

    def remove(self, v):
        t = to_key(self._i, v)
        if not self._i.ctx.branch(self.pres[t], 'remove'):
            self._i.raise_(KeyError, v)
        self.pres = store(self._i.ctx, self.pres, t, z3.BoolVal(False))

    def difference(self, *o):
        r = self
        for x in o:
            r = r.m_binop(self._i, 'Sub', as_set(self._i, x), False)
        return r

    def union(self, *o):
        r = self
        for x in o:
            r = r.m_binop(self._i, 'BitOr', as_set(self._i, x), False)
        return r

    def difference_update(self, *o):
        self.pres = self.difference(*o).pres

    def update(self, *o):
        self.pres = self.union(*o).pres

    def copy(self):
        return SSet(self._i, self.pres, self._strs)


class SMap(SColl):
    m_type = dict

    def __init__(self, i, pres, val, strs):
        super().__init__(i, pres, strs)
        self.val = val

    def m_state(self):
        return {'pres': Arr(self.pres), 'val': Arr(self.val)}

    def m_havoc(self, i, k):
        setattr(self, k, fresh('map_' + k, SetSort if k == 'pres' else MapSort))

    def m_getitem(self, i, v):
        t = to_key(i, v)
        if not i.ctx.branch(self.pres[t], 'getitem'):
            i.raise_(KeyError, v)
        return i.mkint(self.val[t])

    def m_setitem(self, i, v, x):
        t, n = to_key(i, v), i.as_int(x)
        if n is None:
            raise Unsupported('map value %s' % type(x).__name__)
        if not isinstance(v, (str, SVal)):
            self._strs = False
        if i.ctx.feasible([z3.Not(self.pres[t])]):
            self.pres = store(self._i.ctx, self.pres, t, z3.BoolVal(True))
        self.val = store(self._i.ctx, self.val, t, n)

    def m_delitem(self, i, v):
        t = to_key(i, v)
        if not i.ctx.branch(self.pres[t], 'delitem'):
            i.raise_(KeyError, v)
        self.pres = store(self._i.ctx, self.pres, t, z3.BoolVal(False))

    def m_getattr(self, i, name):
        if name in ('items', 'values', 'keys'):
            return lambda: SMapView(self, name)
        if name == 'get':
            def get(k, d=None):
                t = to_key(i, k)
                if i.ctx.branch(self.pres[t]):
                    return i.mkint(self.val[t])
                return d
            return get
        if name == 'pop':
            def pop(k, *d):
                t = to_key(i, k)
                if i.ctx.branch(self.pres[t]):
                    r = i.mkint(self.val[t])
                    self.pres = store(self._i.ctx, self.pres, t, z3.BoolVal(False))
                    return r
                if d:
                    return d[0]
                i.raise_(KeyError, k)
            return pop
        if name == 'copy':
            return lambda: SMap(i, self.pres, self.val, self._strs)
        return NotImplemented


class SMapView(Model):
    def __init__(self, m, what):
        self._m, self._what = m, what

    def m_iter(self, i):
        m = self._m
        e = Enum(i, m.pres)

        def elem(k):
            t = e.at(i, k.t)
            kv, v = of_key(i, t, m._strs), i.mkint(m.val[t])
            return {'items': (kv, v), 'keys': kv, 'values': v}[self._what]
        it = SIter(e.n, elem)
        it.enum = e
        return it

    def m_contains(self, i, v):
        if self._what != 'keys':
            raise Unsupported('membership in values')
        return self._m.m_contains(i, v)

    def m_binop(self, i, op, o, swapped):
        if self._what != 'keys':
            return NotImplemented
        return as_set(i, self._m).m_binop(i, op, as_set(i, o), swapped)

    def m_state(self):
        return {}


class SSorted(Model):
    """sorted(collection of strings)"""
    m_type = list

    def __init__(self, i, pres):
        self._pres = pres

    def m_iter(self, i):
        e = Enum(i, self._pres, ordered=True)
        it = SIter(e.n, lambda k: of_key(i, e.at(i, k.t), True))
        it.enum = e
        return it

    def m_state(self):
        return {}


def as_set(i, x):
    if isinstance(x, SSet):
        return x
    if isinstance(x, SMap):
        return SSet(i, x.pres, x._strs)
    if isinstance(x, SMapView) and x._what == 'keys':
        return SSet(i, x._m.pres, x._m._strs)
    if isinstance(x, SSorted):
        return SSet(i, x._pres, True)
    if isinstance(x, (set, frozenset, list, tuple)):
        s = SSet(i, const(i.ctx, z3.BoolVal(False), B), True)
        for y in x:
            s.add(y)
        return s
    raise Unsupported('set of %s' % type(x).__name__)


def install(i, map_hook=None):
    """set(), dict(), sorted() build unbounded collections in this unit"""
    from .interp import b_sorted, b_dict

    def new_map():
        m = SMap(i, const(i.ctx, z3.BoolVal(False), B), const(i.ctx, z3.IntVal(0), I), True)
        return m

    def bdict(ii, *a, **k):
        if not a and not k:
            return new_map()
        if len(a) == 1 and isinstance(a[0], SMap) and not k:
            return SMap(i, a[0].pres, a[0].val, a[0]._strs)
        return b_dict(ii, *a, **k)

    def bsorted(ii, x, **k):
        if isinstance(x, (SSet, SMap, SMapView)) and not k:
            s = as_set(i, x)
            if s._strs:
                return SSorted(i, s.pres)
        if isinstance(x, Model) and hasattr(x, 'm_sorted'):
            return x.m_sorted(ii)
        return b_sorted(ii, x, **k)

    def blist(ii, x=()):
        if isinstance(x, (SSet, SMap, SMapView, SSorted)):
            return x if isinstance(x, SSorted) else Frozen(x, ii)
        from .interp import b_list
        return b_list(ii, x)

    class Frozen(Model):
        def __init__(self, x, ii):
            self._it = x.m_iter(ii)

        def m_iter(self, ii):
            it = SIter(self._it.n, self._it.elem)
            it.enum = self._it.enum
            ii.ctx.ghost['enums'].append(it.enum)
            return it

        def m_state(self):
            return {}
    i.bi[dict] = bdict
    i.bi[set] = lambda ii, *a: as_set(ii, a[0]) .copy() if a else SSet(ii, const(i.ctx, z3.BoolVal(False), B), True)
    i.bi[sorted] = bsorted
    i.bi[list] = blist
    i.new_dict = new_map
