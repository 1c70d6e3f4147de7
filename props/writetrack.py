"""C13: the write-tracking VFS (_sqlite3ext.cpp) and its Python side (sqlite3ext.pyx), plus the set-up of tracking in
database.Connection.  Block size, offsets, lengths and the set of modified blocks are arbitrary."""
from __future__ import annotations
import os, sys, importlib.util
import z3
from pyvc.values import *
from pyvc.core import *
from pyvc.interp import Interp
from pyvc.heapm import *
from pyvc import cxx, pyx

import s3ql
SRC = os.path.dirname(os.path.abspath(s3ql.__file__))
_mods = {}


def sources():
    if not _mods:
        _mods['c'] = cxx.translate(SRC + '/_sqlite3ext.cpp', 's3ql._vp_cxx_sqlite3ext')
        _mods['p'] = pyx.translate(SRC + '/sqlite3ext.pyx', 's3ql._vp_pyx_sqlite3ext')
    return _mods['c'], _mods['p']


try:
    sources()
except Exception as e:      # reported by the units
    _error = e
else:
    _error = None


class BlockSet(HSet):
    """std::unordered_set<size_t>"""
    m_type = set

    def __init__(self, i, name, w, empty=False):
        HSet.__init__(self, i, name, 'int', empty)
        self._w = w
        self.version = 0
        self._n = z3.IntVal(0) if empty else i.ctx.int(name + '_n', lo=0).t
        if not empty:
            x = z3.Int(fresh_name('bs_x'))
            i.ctx.axiom(z3.ForAll([x], z3.Implies(self.has(x), z3.And(x >= 0, x < 2 ** 64)), patterns=pats(self.has(x))))
            self.facts()

    def facts(self):
        """_n is the number of elements"""
        x = z3.Int(fresh_name('bs_c'))
        h = self.has(x)
        i = self._i
        p = pats(h)
        i.ctx.axiom(z3.ForAll([x], z3.Implies(h, self._n > 0), patterns=p[:1]) if p else z3.ForAll([x], z3.Implies(h, self._n > 0)))
        i.ctx.axiom(self._n >= 0)
        i.ctx.axiom(z3.Implies(self._n > 0, self.has(i.ctx.int('bs_witness').t)))

    def m_bool(self, i):
        return True

    def m_state(self):
        # the iterator of a loop keeps the enumeration, which is not affected by insertions and deletions
        return {'has': sqlhold(self._has)}

    def m_havoc(self, i, k):
        if k == 'has':
            HSet.m_havoc(self, i, k)
            self._n = i.ctx.int(self._label + '_n', lo=0).t
            self.facts()

    def insert(self, b):
        t = self._i.as_int(b)
        self._n = z3.If(self.has(t), self._n, self._n + 1)
        f = self._has
        self._has = lambda x: z3.Or(x == t, f(x))
        self.version += 1
        return None
    emplace = insert

    def count(self, b):
        return self._i.mkint(z3.If(self.has(self._i.as_int(b)), z3.IntVal(1), z3.IntVal(0)))

    def contains(self, b):
        return self._i.mkbool(self.has(self._i.as_int(b)))

    def size(self):
        return self._i.mkint(self._n)

    def empty(self):
        return self._i.mkbool(self._n == 0)

    def clear(self):
        self._has = lambda x: z3.BoolVal(False)
        self._n = z3.IntVal(0)
        self.version += 1

    def begin(self):
        return It(self, Enum(self), self._i.mkint(z3.IntVal(0)))
    cbegin = begin

    def end(self):
        return It(self, None, None)
    cend = end

    def find(self, b):
        t = self._i.as_int(b)
        if self._i.ctx.branch(self.has(t), 'found'):
            return It(self, None, None, fixed=t)
        return self.end()

    def erase(self, x, last=None):
        if last is not None:
            raise Unsupported('erase of a range')
        if isinstance(x, It):
            t = x.value()
            nxt = It(self, x.enum, self._i.mkint(self._i.as_int(x.pos) + 1)) if x.enum is not None else None
        else:
            t, nxt = self._i.as_int(x), None
        n0 = self.has(t)
        self._n = z3.If(n0, self._n - 1, self._n)
        f = self._has
        self._has = lambda y: z3.And(y != t, f(y))
        self.version += 1
        self.facts()
        return nxt if isinstance(x, It) else self._i.mkint(z3.If(n0, z3.IntVal(1), z3.IntVal(0)))

    def c_range(self):
        en = Enum(self)
        self._i.cxx_ranged = en
        return RangeOver(en)


class Enum:
    """the order in which one traversal meets the elements the set has at its start"""
    def __init__(self, s):
        ctx = s._i.ctx
        self.set, self.has0 = s, s._has
        self.n = ctx.int('enum_n', lo=0).t
        at = z3.Function(fresh_name('enum_at'), I, I)
        idx = z3.Function(fresh_name('enum_idx'), I, I)
        self.at, self.idx = at, idx
        k, x = z3.Int(fresh_name('en_k')), z3.Int(fresh_name('en_x'))
        ctx.axiom(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.n), z3.And(self.has0(at(k)), idx(at(k)) == k)), patterns=[at(k)]))
        p = pats(self.has0(x)) or [idx(x)]
        ctx.axiom(z3.ForAll([x], z3.Implies(self.has0(x), z3.And(idx(x) >= 0, idx(x) < self.n, at(idx(x)) == x)), patterns=p[:1]))
        ctx.axiom((self.n == 0) == (s._n == 0))
        if p[:1] != [idx(x)]:
            ctx.axiom(z3.ForAll([x], z3.Implies(self.has0(x), z3.And(idx(x) >= 0, idx(x) < self.n, at(idx(x)) == x)), patterns=[idx(x)]))


class RangeOver(Model):
    def __init__(self, en):
        self._en = en

    def m_state(self):
        return {}

    def m_iter(self, i):
        from pyvc.interp import SIter
        en = self._en
        return SIter(en.n, lambda k: i.mkint(en.at(i.as_int(k))))


class It(Model):
    """iterator of a BlockSet; enum None: end(), or the fixed element of find()"""
    def __init__(self, s, enum, pos, fixed=None):
        self.set, self.enum, self.pos, self.fixed = s, enum, pos, fixed

    def m_state(self):
        return {'pos': self.pos} if self.enum is not None else {}

    def m_havoc(self, i, k):
        self.pos = i.ctx.int('it_pos', lo=0)

    def value(self):
        i = self.set._i
        if self.fixed is not None:
            i.ctx.prove(i.cxx_prefix + '.valid-iterator', self.set.has(self.fixed), info='removed element')
            return self.fixed
        if self.enum is None:
            i.ctx.fail(i.cxx_prefix + '.valid-iterator', 'end() dereferenced')
            raise PathEnd()
        p = i.as_int(self.pos)
        i.ctx.prove(i.cxx_prefix + '.valid-iterator', p < self.enum.n, info='end() dereferenced')
        i.ctx.assume(p < self.enum.n)
        v = self.enum.at(p)
        i.ctx.prove(i.cxx_prefix + '.valid-iterator', self.set.has(v), info='removed element')
        i.ctx.assume(self.set.has(v))
        return v

    def c_deref(self):
        return self.set._i.mkint(self.value())

    def c_copy(self):
        return It(self.set, self.enum, self.pos, self.fixed)

    def c_inc(self, post):
        i = self.set._i
        if self.enum is None:
            raise Unsupported('increment of an iterator not got from begin()')
        # the element may be gone only if it was removed through an iterator that had been moved on before
        i.ctx.prove(i.cxx_prefix + '.valid-iterator', i.as_int(self.pos) < self.enum.n, info='incremented beyond the end')
        i.ctx.prove(i.cxx_prefix + '.valid-iterator', self.set.has(self.enum.at(i.as_int(self.pos))), info='increment after removal')
        old = self.c_copy()
        self.pos = i.mkint(i.as_int(self.pos) + 1)
        return old if post else self

    def c_same(self, o):
        i = self.set._i
        if not isinstance(o, It):
            raise Unsupported('iterator comparison')
        if self.enum is None and self.fixed is None:
            if o.enum is None and o.fixed is None:
                return True
            return o.c_same(self)
        if o.enum is None and o.fixed is None:
            if self.fixed is not None:
                return False
            return i.mkbool(i.as_int(self.pos) >= self.enum.n)
        if self.enum is not None and self.enum is o.enum:
            return i.mkbool(i.as_int(self.pos) == i.as_int(o.pos))
        raise Unsupported('iterator comparison')

    def m_eq(self, i, o):
        return self.c_same(o)


def sqlhold(x):
    from pyvc.sqlm import _Hold
    return _Hold(x)


class Obj(Model):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def m_state(self):
        return {k: v for k, v in self.__dict__.items() if not k.startswith('_')}

    def m_havoc(self, i, k):
        raise Unsupported('loop changes %s' % k)

    def m_setattr(self, i, n, v):
        self.__dict__[n] = v

    def m_eq(self, i, o):
        return self is o


class W:
    """world: the globals of the extension"""
    def __init__(self, ctx, what):
        if _error is not None:
            raise Unsupported('front end: %s' % _error)
        self.ctx, self.what = ctx, what
        self.c, self.p = sources()
        self.i = i = Interp(ctx)
        i.cxx_prefix = 'C13.' + what
        cxx.install(ctx, i)
        i.bi[object.__new__] = lambda ii, c: SObj(c, {})
        self.ev = []
        self.bs = ctx.int('blocksize', lo=0)
        ctx.assume(self.bs.t < 2 ** 31)
        self.inhibited = ctx.bool('inhibited')
        self.api = Obj(log=lambda *a: None)
        w = self

        class Flag(Model):
            def m_state(self):
                return {}

            def load(self, *a):
                return SBool(w.inhibited.t)

            def store(self, v, *a):
                w.inhibited = SBool(i.truth_term(v)) if isinstance(v, (SBool, SInt)) else SBool(z3.BoolVal(bool(v)))

            def c_convert(self):
                return SBool(w.inhibited.t)
        self.G = Obj(blocksize=self.bs, writes_inhibited=Flag(), sqlite3_api=self.api, vfsname=Obj(c_str=lambda: 'the-vfs', decode=lambda *a: 'the-vfs'),
                     memset=lambda *a: None, min=lambda a, b: i.mkint(z3.If(i.as_int(b) < i.as_int(a), i.as_int(b), i.as_int(a))),
                     max=lambda a, b: i.mkint(z3.If(i.as_int(a) < i.as_int(b), i.as_int(b), i.as_int(a))))
        i.override(cxx.GLOBALS, self.G)
        ctx.roots['G'] = self.G
        # multiples of the block size: linear arithmetic over mulbs(b) = b * blocksize (facts below are arithmetic)
        self.mul = z3.Function(fresh_name('mulbs'), I, I)
        self.divf = z3.Function(fresh_name('divbs'), I, I)
        x, y = z3.Int('mx'), z3.Int('my')
        bs = self.bs.t
        ctx.axiom(z3.ForAll([x, y], z3.Implies(z3.And(bs >= 1, x < y), self.mul(x) + bs <= self.mul(y)),
                            patterns=[z3.MultiPattern(self.mul(x), self.mul(y))]))
        ctx.axiom(z3.ForAll([x], z3.Implies(z3.And(bs >= 1, x >= 0), z3.And(
            self.mul(self.divf(x)) <= x, x < self.mul(self.divf(x)) + bs, self.divf(x) >= 0, self.divf(x) <= x)), patterns=[self.divf(x)]))
        ctx.axiom(self.mul(z3.IntVal(0)) == 0)
        ctx.axiom(z3.ForAll([x], z3.Implies(z3.And(bs >= 1, x >= 0), self.mul(x) >= x), patterns=[self.mul(x)]))
        m0, d0, r0 = (i.bi[cxx.STUBS['c_' + n]] for n in ('mul', 'div', 'mod'))

        def isbs(t):
            return i.as_int(t).eq(self.bs.t)

        def mulm(ii, t, a, b):
            for p, q in ((a, b), (b, a)):
                if isbs(q):
                    e = self.mulof(i.as_int(p))
                    n, s = cxx.BITS[t.rstrip('& ')]
                    return i.mkint(e) if s else cxx.wrap_to(ctx, i, t, e)
            return m0(ii, t, a, b)

        def divm(ii, t, a, b):
            if isbs(b) and ctx.holds(z3.And(i.as_int(a) >= 0, self.bs.t >= 1)):
                return i.mkint(self.divf(i.as_int(a)))
            return d0(ii, t, a, b)

        def modm(ii, t, a, b):
            if isbs(b) and ctx.holds(z3.And(i.as_int(a) >= 0, self.bs.t >= 1)):
                return i.mkint(i.as_int(a) - self.mul(self.divf(i.as_int(a))))
            return r0(ii, t, a, b)
        i.bi[cxx.STUBS['c_mul']], i.bi[cxx.STUBS['c_div']], i.bi[cxx.STUBS['c_mod']] = mulm, divm, modm
        self.S = BlockSet(i, 'dirty', self)
        ctx.roots['dirty'] = self.S
        self.has0, self.n0 = self.S._has, self.S._n
        # blocks are those of files no longer than 2^62 (kept by the units for writing and truncation)
        ctx.axiom(z3.ForAll([x], z3.Implies(self.S.has(x), z3.And(bs >= 1, self.mul(x) < 2 ** 62)), patterns=pats(self.S.has(x))))
        self.loops()

    def mulof(self, e):
        """mul(e), with its relation to neighbouring multiples that occur in e = t + c"""
        e = z3.simplify(e)
        if z3.is_add(e) and any(z3.is_int_value(c) for c in e.children()):
            c = sum(x.as_long() for x in e.children() if z3.is_int_value(x))
            rest = [x for x in e.children() if not z3.is_int_value(x)]
            t = rest[0] if len(rest) == 1 else z3.Sum(rest)
            self.ctx.axiom(self.mul(e) == self.mul(t) + c * self.bs.t)
        return self.mul(e)

    def ob(self, name, g, info=None):
        self.ctx.prove('C13.%s.%s' % (self.what, name), g, info=info)

    def loops(self):
        i = self.i
        w = self

        def hints(ii, fr, pre):
            x = z3.Int('h_b')
            has0, n0 = w.S._has, w.S._n
            ints = [k for k, v in fr.locals.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool)]
            its = [k for k, v in fr.locals.items() if isinstance(v, It) and v.enum is not None]
            res = []

            def P(f):
                ps = pats(w.S.has(x)) or pats(has0(x))
                return z3.ForAll([x], f, patterns=ps[:1]) if ps else z3.ForAll([x], f)

            def loc(e, n):
                return ii.as_int(e.fr.locals[n])
            res.append(('ge', lambda e: P(z3.Implies(w.S.has(x), z3.And(x >= 0, x < 2 ** 64)))))
            res.append(('n', lambda e: w.S._n >= 0))
            start = {n: ii.as_int(fr.locals[n]) for n in ints}
            for n in ints:
                # blocks from the variable's start up to its current value were added
                res.append(('added:' + n, lambda e, n=n: P(w.S.has(x) == z3.Or(has0(x), z3.And(start[n] <= x, x < loc(e, n))))))
                res.append(('addeddown:' + n, lambda e, n=n: P(w.S.has(x) == z3.Or(has0(x), z3.And(start[n] >= x, x > loc(e, n))))))
                res.append(('up:' + n, lambda e, n=n: loc(e, n) >= start[n]))
                res.append(('down:' + n, lambda e, n=n: loc(e, n) <= start[n]))
                for m in ints:
                    if n != m:
                        res.append(('le:%s:%s' % (n, m), lambda e, n=n, m=m: z3.Or(loc(e, n) <= start[m], loc(e, n) <= start[n])))
                        res.append(('le1:%s:%s' % (n, m), lambda e, n=n, m=m: z3.Or(loc(e, n) <= start[m] + 1, loc(e, n) <= start[n])))
                        res.append(('cur-le:%s:%s' % (n, m), lambda e, n=n, m=m: z3.Or(loc(e, n) <= loc(e, m))))
                res.append(('small:' + n, lambda e, n=n: z3.And(loc(e, n) >= 0, loc(e, n) < 2 ** 63)))
                if w.cut is not None:
                    res.append(('cut:' + n, lambda e, n=n: w.spec_ge(loc(e, n))))
            res.append(('kept', lambda e: P(z3.Implies(w.S.has(x), has0(x)))))
            res.append(('grown', lambda e: P(z3.Implies(has0(x), w.S.has(x)))))
            if w.cut is not None:
                for n in its:
                    en = fr.locals[n].enum

                    def dropped(e, n=n, en=en):
                        it = e.fr.locals[n]
                        return z3.And(z3.BoolVal(it.enum is en), P(z3.Implies(has0(x), w.S.has(x) == z3.Or(
                            en.idx(x) >= ii.as_int(it.pos), w.mul(x) < w.cut))))
                    res.append(('dropped:' + n, dropped))
                    res.append(('inrange:' + n, lambda e, n=n, en=en: z3.And(ii.as_int(e.fr.locals[n].pos) >= 0, ii.as_int(e.fr.locals[n].pos) <= en.n)))
            return res
        i.loop_hints['vfstrace'] = hints
        i.loop_hints['WriteTracker'] = hints
        for f in self.c.__dict__:
            if f not in ('G',) and not f.startswith('_'):
                i.loop_hints.setdefault(f, hints) if not f.startswith('vfstrace') else None
        i.auto_invariants = False
        i.cut_loops = True
        i.list_fresh = lambda path, v: It(v.set, v.enum, i.ctx.int('it_pos', lo=0)) if isinstance(v, It) and v.enum is not None else None
        self.cut = None

    def spec_ge(self, t):
        return t >= 0

    def fn(self, name, mod=None):
        return self.i.ifunc_by_name(mod or self.c, name)

    def method(self, what, fails=True):
        """method of the underlying file: any result"""
        def f(*a):
            rc = self.ctx.choose(2, what) if fails else 0
            self.ev.append((what, a, rc))
            return 0 if rc == 0 else self.i.mkint(self.nonzero())
        return f

    def nonzero(self):
        t = self.ctx.int('rc').t
        self.ctx.assume(z3.And(t != 0, t > -2 ** 31, t < 2 ** 31))
        return t

    def file(self, tracked=True):
        real = Obj()
        real.pMethods = Obj(xWrite=self.method('xWrite'), xTruncate=self.method('xTruncate'), xRead=self.method('xRead'), xSync=self.method('xSync'))
        f = Obj(pReal=real, block_map=self.S if tracked else None)
        self.ctx.roots['file'] = f
        return f


def u_write(ctx, want):
    w = W(ctx, 'write')
    i = w.i
    tracked = ctx.choose(2, 'tracked') == 0
    f = w.file(tracked)
    n, off = ctx.int('iAmt', lo=0), ctx.int('iOfst', lo=0)
    ctx.assume(n.t < 2 ** 31)
    ctx.assume(off.t + n.t <= 2 ** 62)
    buf = Obj()
    inh = w.inhibited.t
    r = i.call(w.fn('vfstraceWrite'), [f, buf, n, off], {})
    rc = i.as_int(r)
    calls = [e for e in w.ev if e[0] == 'xWrite']
    ctx.shared.reached.add('written' if calls else 'refused')
    if not calls:
        w.ob('refused-only-if-inhibited', z3.And(inh, z3.BoolVal(tracked)), 'the write is not carried out')
        w.ob('refused-reported', rc != 0, 'a write that is not carried out is reported as successful')
    else:
        a = calls[0][1]
        w.ob('once', z3.BoolVal(len(calls) == 1 and a[0] is f.pReal and a[1] is buf), 'not written exactly once to the real file')
        w.ob('same-range', z3.And(i.as_int(a[2]) == n.t, i.as_int(a[3]) == off.t), 'other range written')
        w.ob('not-inhibited', z3.Not(z3.And(inh, z3.BoolVal(tracked))), 'written although writes are inhibited')
        w.ob('result', (rc == 0) == z3.BoolVal(calls[0][2] == 0), 'wrong result')
    b = z3.Int(fresh_name('b'))
    ctx.assume(b >= 0)
    over = z3.And(n.t > 0, w.mul(b) < off.t + n.t, w.mulof(b + 1) > off.t)
    new, old = w.S.has(b), w.has0(b)
    w.ob('in-file', z3.Implies(z3.And(new, n.t > 0), z3.And(w.bs.t >= 1, w.mul(b) < 2 ** 62)), 'a block beyond the end is reported')
    if tracked and calls and calls[0][2] == 0:
        if ctx.branch(w.bs.t > 0, 'blocksize'):
            ctx.axiom(w.mul(off.t) >= off.t)
            w.ob('reported', z3.Implies(z3.Or(over, old), new), 'a modified block is not reported')
            w.ob('only-modified', z3.Implies(new, z3.Or(over, old, n.t == 0)), 'an unmodified block is reported')
            ctx.shared.reached.add('marked')
    else:
        w.ob('kept', z3.Implies(old, new), 'a modified block is forgotten')
        w.ob('unmarked', z3.Implies(new, z3.Or(old, z3.And(z3.BoolVal(tracked and bool(calls)), over))), 'an unmodified block is reported')


def u_truncate(ctx, want):
    w = W(ctx, 'truncate')
    i = w.i
    tracked = ctx.choose(2, 'tracked') == 0
    f = w.file(tracked)
    size = ctx.int('size', lo=0)
    ctx.assume(size.t < 2 ** 62)
    w.cut = size.t
    inh = w.inhibited.t
    r = i.call(w.fn('vfstraceTruncate'), [f, size], {})
    rc = i.as_int(r)
    calls = [e for e in w.ev if e[0] == 'xTruncate']
    ctx.shared.reached.add('truncated' if calls else 'refused')
    if not calls:
        w.ob('refused-only-if-inhibited', z3.And(inh, z3.BoolVal(tracked)), 'not truncated')
        w.ob('refused-reported', rc != 0, 'reported as successful')
    else:
        a = calls[0][1]
        w.ob('once', z3.BoolVal(len(calls) == 1 and a[0] is f.pReal))
        w.ob('same-size', i.as_int(a[1]) == size.t)
        w.ob('not-inhibited', z3.Not(z3.And(inh, z3.BoolVal(tracked))), 'truncated although writes are inhibited')
        w.ob('result', (rc == 0) == z3.BoolVal(calls[0][2] == 0), 'wrong result')
    b = z3.Int(fresh_name('b'))
    ctx.assume(z3.And(b >= 0, b < 2 ** 64))
    new, old = w.S.has(b), w.has0(b)
    if tracked and calls and calls[0][2] == 0:
        if ctx.branch(w.bs.t > 0, 'blocksize'):
            w.ob('kept', z3.Implies(z3.And(old, w.mul(b) < size.t), new), 'a modified block that is still in the file is forgotten')
            # (the block that is cut keeps the bytes it has left; reporting it is no error)
            w.ob('beyond', z3.Implies(z3.And(new, w.mul(b) >= size.t), z3.BoolVal(False)), 'a block beyond the end is reported')
            w.ob('only-modified', z3.Implies(new, z3.Or(old, w.mulof(b + 1) > size.t)), 'an unmodified block is reported')
            ctx.shared.reached.add('dropped')
    else:
        w.ob('unchanged', new == old)


class Entry(Model):
    def __init__(self, s):
        self.second = s

    def m_state(self):
        return {}


class MapIt(Model):
    def __init__(self, e):
        self.e = e

    def m_state(self):
        return {}

    def c_deref(self):
        return self.e

    def c_copy(self):
        return self

    def c_same(self, o):
        return self.e is None and o.e is None

    def m_eq(self, i, o):
        return self.c_same(o)


class FileMap(Model):
    """std::unordered_map<std::string, block_map_t>: the entry of one file name K and those of all others"""
    def __init__(self, w):
        self._w = w
        self.K = w.ctx.val('K', str)
        # (K is an absolute path)
        w.ctx.assume(self.K.t != w.i.as_v('<temp>'))
        self.tracked = w.ctx.choose(2, 'K known') == 0
        self.cleared = False
        self._other = None

    def m_state(self):
        return {}

    def isk(self, k):
        w = self._w
        if isinstance(k, tuple) and k[0] == 'fs':
            k = k[1]
        if not (isinstance(k, SVal) or isinstance(k, str)):
            raise Unsupported('file name')
        return w.ctx.branch(w.i.as_v(k) == self.K.t, 'name is K')

    def other(self):
        if self._other is None:
            self._other = BlockSet(self._w.i, 'other', self._w)
        return self._other

    def find(self, k):
        if self.isk(k):
            return MapIt(Entry(self._w.S) if self.tracked else None)
        return MapIt(Entry(self.other()) if self._w.ctx.choose(2, 'other known') else None)

    def count(self, k):
        return 0 if self.find(k).e is None else 1

    def end(self):
        return MapIt(None)

    def c_index(self, k):
        if self.isk(k):
            if not self.tracked:
                self.tracked = True
                self._w.S.clear()
            return self._w.S
        return self.other()

    def clear(self):
        self.cleared = True
        self.tracked = False


def u_open(ctx, want):
    w = W(ctx, 'open')
    i = w.i
    m = FileMap(w)
    w.G.file_block_map = m
    t0 = m.tracked
    name = None if ctx.choose(2, 'temporary') else ctx.val('zName', str)
    real = Obj(pMethods=None)
    below = Obj(iVersion=ctx.int('iVersion', lo=1), xShmMap=[None, w.method('xShmMap')][ctx.choose(2, 'shm')])
    below.xShmLock = below.xShmBarrier = below.xShmUnmap = below.xShmMap
    below.xFetch, below.xUnfetch = w.method('xFetch'), w.method('xUnfetch')

    def xopen(root, z, f, flags, out):
        w.ev.append(('xOpen', z, f, flags, out))
        if ctx.choose(2, 'real open') == 0:
            f.pMethods = below
            return 0
        return i.mkint(w.nonzero())
    vfs = Obj(pAppData=Obj(pRootVfs=Obj(xOpen=xopen)))
    f = Obj(base=Obj(), pReal=None, block_map=None, pMethods=None)
    f.m_getitem = lambda ii, k: real
    alloc = []

    def malloc(n):
        o = Obj(**{'garbage': True})
        alloc.append(o)
        return o

    class Fresh(Obj):
        pass
    w.api.malloc = w.api.malloc64 = malloc
    zeroed = []
    w.G.memset = lambda p, v, n: zeroed.append(p)
    flags, out = ctx.int('flags'), Obj()
    r = i.call(w.fn('vfstraceOpen'), [vfs, name, f, flags, out], {})
    isk = name is not None and ctx.branch(name.t == m.K.t, 'is K')
    w.ob('opened-below', z3.BoolVal(len(w.ev) == 1 and w.ev[0][1] is name and w.ev[0][2] is real and w.ev[0][3] is flags and w.ev[0][4] is out),
         'underlying file not opened as asked')
    if isk:
        w.ob('tracked', z3.BoolVal((f.block_map is w.S) == t0), 'a file that is to be tracked is not, or the other way round')
        w.ob('tracked-unknown', z3.BoolVal(f.block_map is w.S or f.block_map is None))
    else:
        w.ob('other-file', z3.BoolVal(f.block_map is not w.S), 'writes to another file are recorded for the tracked one')
    w.ob('entries-kept', z3.BoolVal(not m.cleared and m.tracked == t0 and w.S._has is w.has0), 'modified blocks forgotten by opening')
    ok = real.pMethods is not None
    ctx.shared.reached.add('opened' if ok else 'failed')
    if ok:
        pm = f.pMethods
        good = isinstance(pm, Obj) and pm in alloc and pm in zeroed
        w.ob('methods', z3.BoolVal(good and f.pReal is real), 'the file has no methods')
        if good:
            nm = lambda n: getattr(pm.__dict__.get(n), 'qualname', None) or getattr(pm.__dict__.get(n), '__name__', None)
            w.ob('tracked-methods', z3.BoolVal(nm('xWrite') == 'vfstraceWrite' and nm('xTruncate') == 'vfstraceTruncate'),
                 'writes go around the tracking')
            for n in FILE_METHODS:
                if not n.startswith('Shm'):
                    w.ob('method-table', z3.BoolVal(nm('x' + n) == 'vfstrace' + n), 'x%s is another method' % n)
            if pm.__dict__.get('xShmMap') is not None or below.xShmMap is not None:
                v2 = i.as_int(below.iVersion) >= 2
                for n in ('ShmMap', 'ShmLock', 'ShmBarrier', 'ShmUnmap'):
                    w.ob('shm-table', z3.BoolVal(nm('x' + n) == 'vfstrace' + n) == z3.And(v2, z3.BoolVal(below.xShmMap is not None)),
                         'shared memory methods')
            w.ob('no-mapping', z3.BoolVal(pm.__dict__.get('xFetch') is None), 'memory mapping goes around the tracking')
    else:
        w.ob('no-methods', z3.BoolVal(f.pMethods is None), 'a file that was not opened has methods')


def u_init(ctx, want):
    w = W(ctx, 'init')
    i = w.i
    root = Obj(iVersion=ctx.int('iVersion', lo=1), szOsFile=ctx.int('szOsFile', lo=1), mxPathname=512)
    for n in ('xDlOpen', 'xDlError', 'xDlSym', 'xDlClose', 'xGetLastError', 'xCurrentTimeInt64', 'xSetSystemCall', 'xGetSystemCall', 'xNextSystemCall'):
        setattr(root, n, None)
    reg = []
    api = w.api
    api.vfs_find = lambda n: None if ctx.choose(2, 'no vfs') else root
    info = Obj()

    def malloc(n):
        if ctx.choose(2, 'no memory'):
            return None
        o = Obj()
        o.m_getitem = lambda ii, k: info
        return o
    api.malloc = malloc

    def register(v, dflt):
        reg.append((v, dflt))
        return 0 if ctx.choose(2, 'register') == 0 else 1
    api.vfs_register = register
    r = i.call(w.fn('sqlite3_extension_init'), [Obj(), Obj(), api], {})
    ctx.shared.reached.add('registered' if reg else 'failed')
    if reg:
        v = reg[0][0]
        w.ob('opens', z3.BoolVal(getattr(v.__dict__.get('xOpen'), 'qualname', getattr(v.__dict__.get('xOpen'), '__name__', None)) == 'vfstraceOpen'),
             'files are opened without tracking')
        for n in VFS_METHODS:
            m = v.__dict__.get('x' + n)
            w.ob('method-table', z3.BoolVal(getattr(m, 'qualname', getattr(m, '__name__', None)) == 'vfstrace' + n), 'x%s is another method' % n)
        w.ob('name', z3.BoolVal(v.__dict__.get('zName') == 'the-vfs'), 'registered under another name')
        w.ob('root', z3.BoolVal(info.__dict__.get('pRootVfs') is root and v.__dict__.get('pAppData') is info))
        sz, own = v.__dict__.get('szOsFile'), root.szOsFile
        w.ob('size', i.as_int(sz) > own.t, 'no room for the underlying file')


def u_tracker(ctx, want):
    w = W(ctx, 'tracker')
    i = w.i
    cls = w.p.WriteTracker
    t = SObj(cls, {'block_map': w.S})
    ctx.roots['tracker'] = t
    op = ('get_block', 'get_count', 'clear')[ctx.choose(3, 'operation')]
    k, v = i.run_function(Bound(w.i.ifunc_by_name(w.p, 'WriteTracker.' + op), t), [])
    b = z3.Int(fresh_name('b'))
    ctx.assume(z3.And(b >= 0, b < 2 ** 64))
    old, new = w.has0(b), w.S.has(b)
    w.ob('same-map', z3.BoolVal(t.f.get('block_map') is w.S))
    if op == 'get_block':
        ctx.shared.reached.add(op + ' ' + k)
        if k == 'return':
            x = i.as_int(v)
            w.ob('get.reports-modified', w.has0(x), 'reports a block that was not modified')
            w.ob('get.once', z3.Not(w.S.has(x)), 'the reported block stays')
            w.ob('get.others-stay', z3.Implies(z3.And(b != x, True), new == old), 'another block is forgotten')
        else:
            w.ob('get.error', z3.BoolVal(v.cls is KeyError), 'raises %s' % v.cls.__name__)
            w.ob('get.empty', z3.Not(old), 'no block although there is one')
            w.ob('get.unchanged', new == old)
    elif op == 'get_count':
        ctx.shared.reached.add(op)
        w.ob('count.result', z3.BoolVal(k == 'return') if k != 'return' else i.as_int(v) == w.n0, 'wrong number of blocks')
        w.ob('count.unchanged', new == old)
    else:
        ctx.shared.reached.add(op)
        w.ob('clear.returns', z3.BoolVal(k == 'return'))
        w.ob('clear.empty', z3.Not(new), 'blocks are left')


def u_module(ctx, want):
    """track_writes, set_blocksize, reset, set_writes_inhibited"""
    w = W(ctx, 'module')
    i = w.i
    m = FileMap(w)
    w.G.file_block_map = m
    t0 = m.tracked
    i.bi[os.fsencode] = lambda ii, p: ('fs', p)
    op = ctx.choose(4, 'operation')
    if op == 0:
        name = ctx.val('path', str)
        k, v = i.run_function(w.fn('track_writes', w.p), [name])
        ctx.shared.reached.add('track')
        w.ob('track.returns', z3.BoolVal(k == 'return'), 'raises')
        if k == 'return':
            isk = ctx.branch(name.t == m.K.t, 'is K')
            bm = v.f.get('block_map') if isinstance(v, SObj) else getattr(v, 'block_map', None)
            w.ob('track.entry', z3.BoolVal((bm is w.S) == isk), 'tracker of another file')
            b = z3.Int(fresh_name('b'))
            w.ob('track.tracked', z3.BoolVal(m.tracked == (t0 or isk)))
            w.ob('track.kept', z3.BoolVal(not m.cleared))
            if t0:
                w.ob('track.blocks-kept', w.S.has(b) == w.has0(b), 'modified blocks are forgotten')
    elif op == 1:
        n = ctx.int('n', lo=1)
        b0 = w.bs.t
        ctx.assume(n.t < 2 ** 31)
        k, v = i.run_function(w.fn('set_blocksize', w.p), [n])
        ctx.shared.reached.add('set ' + k)
        now = i.as_int(w.G.blocksize)
        if k == 'return':
            w.ob('blocksize.set', z3.And(now == n.t, z3.Or(b0 == 0, b0 == n.t)), 'block size changed')
        else:
            w.ob('blocksize.refused', z3.And(z3.BoolVal(v.cls is ValueError), b0 != 0, b0 != n.t, now == b0), 'refused')
    elif op == 2:
        k, v = i.run_function(w.fn('reset', w.p), [])
        ctx.shared.reached.add('reset')
        w.ob('reset', z3.And(z3.BoolVal(k == 'return' and m.cleared), i.as_int(w.G.blocksize) == 0))
    else:
        x = ctx.bool('x')
        k, v = i.run_function(w.fn('set_writes_inhibited', w.p), [x])
        k2, v2 = i.run_function(w.fn('get_writes_inhibited', w.p), [])
        ctx.shared.reached.add('inhibit')
        w.ob('inhibit', z3.And(z3.BoolVal(k == k2 == 'return'), w.inhibited.t == x.t, i.truth_term(v2) == x.t))


def u_connection(ctx, want):
    """database.Connection: the tracked file is the one SQLite opens, with the block size set before"""
    import apsw
    import s3ql.database as D
    from s3ql import sqlite3ext
    i = Interp(ctx)
    ev = []
    path = ctx.val('file', str)
    real = z3.Function('realpath', V, V)
    x = z3.Const('rp', V)
    i.bi[os.path.realpath] = lambda ii, p, **k: SVal(real(ii.as_v(p)), str)
    ctx.axiom(z3.ForAll([x], real(real(x)) == real(x), patterns=[real(real(x))]))
    P = lambda n, g, info=None: ctx.prove('C13.connection.' + n, g, info=info)
    tr = Obj()
    i.bi[sqlite3ext.set_blocksize] = lambda ii, n: ev.append(('bs', n))
    i.bi[sqlite3ext.track_writes] = lambda ii, p: (ev.append(('track', p)), tr)[1]
    i.bi[sqlite3ext.get_vfsname] = lambda ii: 'the-vfs'

    class Cur(Model):
        def m_state(self):
            return {}

        def execute(self, sql, *a):
            return self

        def m_iter(self, ii):
            raise Unsupported('rows')

    def conn(ii, p, **k):
        ev.append(('open', p, k))
        return Obj(cursor=lambda: Cur())
    i.bi[apsw.Connection] = conn
    i.contracts['s3ql.database.Connection.get_val'] = lambda it, a, k: 'wal'
    n = [None, ctx.int('blocksize', lo=1)][ctx.choose(2, 'tracking')]
    o = SObj(D.Connection, {})
    k, v = i.run_function(Bound(i.find_method(D.Connection, '__init__'), o), [path, n])
    ctx.shared.reached.add('tracked' if n is not None else 'untracked')
    P('returns', z3.BoolVal(k == 'return'), 'raises')
    if k != 'return':
        return
    names = [e[0] for e in ev]
    P('opened', z3.BoolVal(names.count('open') == 1))
    op = ev[names.index('open')]
    if n is None:
        P('untracked', z3.BoolVal(op[2].get('vfs') != 'the-vfs' or 'track' not in names))
        return
    P('order', z3.BoolVal(names == sorted(names, key=lambda s: s == 'open') and names.count('bs') == 1 and names.count('track') == 1),
      'not tracked before it is opened')
    if 'track' not in names or 'bs' not in names:
        return
    tp = i.as_v(ev[names.index('track')][1])
    P('same-name', z3.And(tp == i.as_v(op[1]), tp == real(tp)), 'SQLite knows the file by another name than the tracker')
    P('same-file', real(i.as_v(op[1])) == real(path.t), 'another file is opened')
    P('vfs', z3.BoolVal(op[2].get('vfs') == 'the-vfs'), 'opened without the tracking VFS')
    P('blocksize', i.as_int(ev[names.index('bs')][1]) == n.t, 'another block size')
    P('tracker', z3.BoolVal(o.f.get('dirty_blocks') is tr), 'another tracker')


FILE_METHODS = {'Read': 3, 'Sync': 1, 'FileSize': 1, 'Lock': 1, 'Unlock': 1, 'CheckReservedLock': 1, 'FileControl': 2, 'SectorSize': 0,
                'DeviceCharacteristics': 0, 'ShmLock': 3, 'ShmMap': 4, 'ShmBarrier': 0, 'ShmUnmap': 1}
VFS_METHODS = {'Delete': 2, 'Access': 3, 'FullPathname': 3}


def u_pass(ctx, want):
    """methods that only hand on what they are asked: reading, locking, shared memory, names"""
    w = W(ctx, 'pass')
    i = w.i
    names = sorted(FILE_METHODS) + sorted(VFS_METHODS)
    n = names[ctx.choose(len(names), 'method')]
    isfile = n in FILE_METHODS
    below = Obj()
    rc = ctx.int('rc')
    calls = []

    def method(*a):
        calls.append(a)
        return rc
    setattr(below, 'x' + n, method)
    args = [ctx.int('arg%d' % k) for k in range(FILE_METHODS[n] if isfile else VFS_METHODS[n])]
    for a in args:
        ctx.assume(z3.And(a.t > -2 ** 31, a.t < 2 ** 31))
    if isfile:
        real = Obj(pMethods=below)
        f = Obj(pReal=real, block_map=[None, w.S][ctx.choose(2, 'tracked')])
        target = real
    else:
        target = below
        f = Obj(pAppData=Obj(pRootVfs=below))
    r = i.call(w.fn('vfstrace' + n), [f] + args, {})
    ctx.shared.reached.add(n)
    ok = len(calls) == 1 and calls[0][0] is target and len(calls[0]) == len(args) + 1
    w.ob('handed-on', z3.BoolVal(ok), '%s is not handed on once' % n)
    if ok:
        w.ob('arguments', z3.And([i.as_int(x) == y.t for x, y in zip(calls[0][1:], args)] + [z3.BoolVal(True)]), '%s: other arguments' % n)
    if n != 'ShmBarrier':
        w.ob('result', z3.BoolVal(isinstance(r, (int, SInt))) if not isinstance(r, (int, SInt)) else i.as_int(r) == rc.t, '%s: other result' % n)
    b = z3.Int(fresh_name('b'))
    w.ob('blocks-kept', w.S.has(b) == w.has0(b), '%s changes the set of modified blocks' % n)


UNITS = [('vfs pass-through', u_pass, sorted(FILE_METHODS) + sorted(VFS_METHODS)), ('vfs write', u_write, ['written', 'refused', 'marked']), ('vfs truncate', u_truncate, ['truncated', 'refused', 'dropped']),
         ('vfs open', u_open, ['opened', 'failed']), ('vfs registration', u_init, ['registered', 'failed']),
         ('WriteTracker', u_tracker, ['get_block return', 'get_block raise', 'get_count', 'clear']),
         ('sqlite3ext module', u_module, ['track', 'set return', 'set raise', 'reset', 'inhibit']),
         ('Connection tracking', u_connection, ['tracked', 'untracked'])]
