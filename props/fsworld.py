"""World for the file system operations (s3ql.fs.Operations).

The operations are executed from /repo's current source.  Everything they call across a component
boundary is represented by its contract:
  InodeCache      SInodes     (its own contract is proved in C12)
  BlockCache      SCache      (its own contract is proved in C07/C10)
  Connection      sqlm.SDb    (trusted: SQLite's relational semantics)
  pyfuse3         kernel notifications: no effect on the state
"""
from __future__ import annotations
import errno, stat as _stat, os, sys, time
import z3
from pyvc.values import *
from pyvc.core import *
from pyvc.interp import Interp, BUILTINS, SIter, Frame, BreakEx, ContinueEx, assigned_names, Poison
from pyvc.sqlm import SDb, DbState, SCHEMA, VIEWS, check_schema, parse, _Hold
from pyvc.pymodels import Bag
import pyfuse3
import s3ql.fs, s3ql.inode_cache, s3ql.common, s3ql.database, s3ql
from s3ql import CTRL_INODE, CTRL_NAME
from s3ql.database import NoSuchRowError
from s3ql.backends.common import NoSuchObject, CorruptedObjectError
import apsw

ROOT = pyfuse3.ROOT_INODE
IATTR = ('mode', 'refcount', 'uid', 'gid', 'size', 'locked', 'rdev', 'atime_ns', 'mtime_ns', 'ctime_ns')
I, B = z3.IntSort(), z3.BoolSort()
NULLV = z3.Const('NULLV', V)


def cdiv(x, y):
    return -((-x) / y)


class SView(Model):
    """What InodeCache hands out: a live view of one row of `inodes`."""
    m_type = s3ql.inode_cache._Inode

    def __init__(self, w, i):
        self._w = w
        self._i = i
        self._epoch = w.ctx.ghost.get('yields', 0)
        self._raw = {}
        # position in the log of accesses to the attribute cache: every later access to another inode may
        # have expired this one (docstring of InodeCache)
        w.iacc.append(i)
        self._acc = len(w.iacc)

    def m_eq(self, i, o):
        return self is o

    def m_getattr(self, i, name):
        w = self._w
        if name == 'id':
            return i.mkint(self._i)
        if name in self._raw:
            return self._raw[name]
        if name in IATTR:
            t = w.st.t['inodes'].col[name](self._i)
            if name == 'locked':
                return i.mkbool(t != 0)
            return i.mkint(t)
        if name == 'generation':
            return 0
        if name == 'dirty':
            return w.ctx.bool('dirty')
        fn = i.find_method(s3ql.inode_cache._Inode, name)
        if fn is not None and not isinstance(fn, property):
            return Bound(fn, self)
        return NotImplemented

    def m_setattr(self, i, name, v):
        w = self._w
        if name not in IATTR:
            w.ctx.fail('C12.attr', 'assignment to attribute %s of an inode' % name)
            raise PathEnd()
        if self._epoch != w.ctx.ghost.get('yields', 0):
            w.ob('C12', 'write-through-possibly-evicted-inode', z3.BoolVal(False),
                 'attribute %s set on an inode object obtained before a suspension point' % name)
        if w.want('C12'):
            later = [t for t in w.iacc[self._acc:] if not t.eq(self._i)]
            if later:
                w.ob('C12', 'write-through-possibly-expired-inode', z3.And([t == self._i for t in later]),
                     'attribute %s set on an inode object obtained before another inode was accessed' % name)
        w.ob('C12', 'write-to-removed-inode', w.st.t['inodes'].ex(self._i),
             'attribute %s set on an inode that no longer exists' % name)
        t = i.as_int(v)
        if t is None:
            raise Unsupported('inode attribute value %s' % type(v).__name__)
        w.set_col(self._i, name, t)
        return None

    def m_rawsetattr(self, i, name, v):
        """object.__setattr__: bypasses the dirty flag, so the database never sees it."""
        w = self._w
        if w.want('C12'):
            w.ob('C12', 'untracked-attribute-change', self._i == CTRL_INODE,
                 'attribute %s changed without marking the inode dirty' % name)
        self._raw[name] = v

    def m_state(self):
        return {}


class AccLog(Model):
    def __init__(self, ctx):
        self._ctx = ctx
        self._log = []

    def append(self, t):
        self._log.append(t)

    def __len__(self):
        return len(self._log)

    def __getitem__(self, k):
        return self._log[k]

    def m_state(self):
        return {'n': _Hold(len(self._log))}

    def m_havoc(self, i, k):
        self._log.append(z3.Int(fresh_name('other_inode')))


class SInodes(Model):
    _label = 'inodes'

    def __init__(self, w):
        self._w = w

    def m_getitem(self, i, k):
        w = self._w
        t = i.as_int(k)
        if t is None:
            raise Unsupported('inode id')
        w.touch_inode(t)
        if not w.ctx.branch(w.st.t['inodes'].ex(t), 'inode'):
            i.raise_(KeyError, 'No such inode')
        return SView(w, t)

    def m_delitem(self, i, k):
        w = self._w
        t = i.as_int(k)
        tab = w.st.t['inodes']
        if not w.ctx.branch(tab.ex(t), 'delinode'):
            i.raise_(KeyError, 'No such inode')
        ex = tab.ex
        tab.ex = lambda j: z3.If(j == t, z3.BoolVal(False), ex(j))
        w.removed.append(t)

    def m_getattr(self, i, name):
        w = self._w
        if name == 'create_inode':
            return w.create_inode
        if name in ('flush', 'drop', 'destroy'):
            def f():
                return None
            return f
        if name == 'flush_id':
            return lambda x: None
        if name == 'db':
            return w.db
        return NotImplemented

    def m_state(self):
        return {}


class SOpen(Model):
    """collections.defaultdict(int-valued) of kernel lookup counts."""
    m_type = dict
    _label = 'open_inodes'

    def __init__(self, w):
        f = w.ctx.func('open_pres', I, B)
        g = w.ctx.func('open_cnt', I, I)
        self.pres = lambda i: f(i)
        self.cnt = lambda i: g(i)
        self._w = w

    def val(self, i):
        return z3.If(self.pres(i), self.cnt(i), z3.IntVal(0))

    def k(self, i, x):
        t = i.as_int(x)
        if t is None:
            raise Unsupported('open_inodes key')
        return t

    def m_getitem(self, i, x):
        t = self.k(i, x)
        v = self.val(t)
        self.set(t, v)
        return i.mkint(v)

    def set(self, t, v):
        p, c = self.pres, self.cnt
        self.pres = lambda j: z3.Or(j == t, p(j))
        self.cnt = lambda j: z3.If(j == t, v, c(j))

    def m_setitem(self, i, x, v):
        self.set(self.k(i, x), i.as_int(v))

    def m_delitem(self, i, x):
        t = self.k(i, x)
        if not self._w.ctx.branch(self.pres(t), 'delopen'):
            i.raise_(KeyError, x)
        p = self.pres
        self.pres = lambda j: z3.And(j != t, p(j))

    def m_contains(self, i, x):
        return i.mkbool(self.pres(self.k(i, x)))

    def m_getattr(self, i, name):
        if name == 'get':
            def get(x, d=None):
                t = self.k(i, x)
                if d is None:
                    if i.ctx.branch(self.pres(t)):
                        return i.mkint(self.cnt(t))
                    return None
                return i.mkint(z3.If(self.pres(t), self.cnt(t), i.as_int(d)))
            return get
        if name == 'pop':
            def pop(x, *d):
                t = self.k(i, x)
                if i.ctx.branch(self.pres(t)):
                    r = i.mkint(self.cnt(t))
                    self.m_delitem(i, x)
                    return r
                if d:
                    return d[0]
                i.raise_(KeyError, x)
            return pop
        if name == 'items':
            return lambda: SOpenItems(self)
        return NotImplemented

    def snap(self):
        o = object.__new__(SOpen)
        o.pres, o.cnt, o._w = self.pres, self.cnt, self._w
        return o

    def m_state(self):
        return {'pres': _Hold(self.pres), 'cnt': _Hold(self.cnt)}

    def m_havoc(self, i, k):
        w = self._w
        if k == 'pres':
            f = w.ctx.func('open_pres', I, B)
            self.pres = lambda j: f(j)
        else:
            g = w.ctx.func('open_cnt', I, I)
            self.cnt = lambda j: g(j)


class SOpenItems(Model):
    def __init__(self, o):
        self._o = o


class SBroken(Model):
    """defaultdict(set): inode -> set of block numbers"""
    m_type = dict
    _label = 'broken_blocks'

    def __init__(self, w):
        f = w.ctx.func('broken_pres', I, B)
        g = w.ctx.func('broken', I, I, B)
        self.pres = lambda i: f(i)
        self.has = lambda i, b: z3.And(f(i), g(i, b))
        self._w = w

    def m_contains(self, i, x):
        return i.mkbool(self.pres(i.as_int(x)))

    def m_getitem(self, i, x):
        t = i.as_int(x)
        p = self.pres
        self.pres = lambda j: z3.Or(j == t, p(j))
        return SBrokenSet(self, t)

    def m_delitem(self, i, x):
        t = i.as_int(x)
        if not i.ctx.branch(self.pres(t), 'delbroken'):
            i.raise_(KeyError, x)
        p, h = self.pres, self.has
        self.pres = lambda j: z3.And(j != t, p(j))
        self.has = lambda j, b: z3.And(j != t, h(j, b))

    def m_getattr(self, i, name):
        if name == 'pop':
            def pop(x, *d):
                t = i.as_int(x)
                if i.ctx.branch(self.pres(t)):
                    self.m_delitem(i, x)
                    return None
                if d:
                    return d[0]
                i.raise_(KeyError, x)
            return pop
        if name == 'get':
            def get(x, d=None):
                t = i.as_int(x)
                if i.ctx.branch(self.pres(t)):
                    return SBrokenSet(self, t)
                return d
            return get
        return NotImplemented

    def m_state(self):
        return {'pres': _Hold(self.pres), 'has': _Hold(self.has)}

    def m_havoc(self, i, k):
        w = self._w
        if k == 'pres':
            f = w.ctx.func('broken_pres', I, B)
            self.pres = lambda j: f(j)
        else:
            g = w.ctx.func('broken', I, I, B)
            self.has = lambda a, b: g(a, b)


class SBrokenSet(Model):
    m_type = set

    def __init__(self, o, t):
        self._o, self._t = o, t

    def m_contains(self, i, b):
        return i.mkbool(self._o.has(self._t, i.as_int(b)))

    def m_getattr(self, i, name):
        if name == 'add':
            def add(b):
                t, x, h = self._t, i.as_int(b), self._o.has
                self._o.has = lambda j, c: z3.Or(z3.And(j == t, c == x), h(j, c))
            return add
        return NotImplemented

    def m_state(self):
        return {}


class SCache(Model):
    """BlockCache contract: the contents of a file are a function (inode, block) -> zero-padded
    bytes; `ex` says whether the block exists at all (in the cache or as an object)."""
    _label = 'cache'

    def __init__(self, w):
        self._w = w
        f = w.ctx.func('blk_ex', I, I, B)
        g = w.ctx.func('blk_byte', I, I, I, I)
        self.bex = lambda i, b: f(i, b)
        self.byte = lambda i, b, k: g(i, b, k)
        self.raises = ()
        i, b, k = z3.Ints('bx_i bx_b bx_k')
        w.ctx.axiom(z3.ForAll([i, b, k], z3.And(g(i, b, k) >= 0, g(i, b, k) <= 255), patterns=[g(i, b, k)]))
        w.ctx.axiom(z3.ForAll([i, b, k], z3.Implies(z3.Not(f(i, b)), g(i, b, k) == 0), patterns=[g(i, b, k)]))

    def snap(self):
        o = object.__new__(SCache)
        o.bex, o.byte, o._w = self.bex, self.byte, self._w
        return o

    def m_state(self):
        return {'bex': _Hold(self.bex), 'byte': _Hold(self.byte)}

    def m_havoc(self, i, k):
        w = self._w
        if k == 'bex':
            f = w.ctx.func('blk_ex', I, I, B)
            self.bex = lambda a, b: f(a, b)
        else:
            g = w.ctx.func('blk_byte', I, I, I, I)
            self.byte = lambda a, b, c: g(a, b, c)

    def m_getattr(self, i, name):
        w = self._w
        if name == 'remove':
            def remove(inode, start_no, end_no=None):
                def run():
                    t, a = i.as_int(inode), i.as_int(start_no)
                    e = a + 1 if end_no is None else i.as_int(end_no)
                    if e is None:
                        raise Unsupported('block range')
                    f, g = self.bex, self.byte
                    hit = lambda x, b: z3.And(x == t, b >= a, b < e)
                    self.bex = lambda x, b: z3.And(z3.Not(hit(x, b)), f(x, b))
                    self.byte = lambda x, b, k: z3.If(hit(x, b), z3.IntVal(0), g(x, b, k))
                    w.ctx.ghost['cachewrites'] = w.ctx.ghost.get('cachewrites', 0) + 1
                    i.yield_point('cache.remove')
                return SCoro(run, 'cache.remove')
            return remove
        if name == 'get':
            def get(inode, blockno, max_write=None):
                return SBlockCM(self, i.as_int(inode), i.as_int(blockno), max_write)
            return get
        if name in ('start_flush', 'flush', 'drop'):
            def fl(*a):
                def run():
                    if name in ('flush', 'drop') and w.opts.get('flush_may_fail') and w.ctx.choose(2, 'flushfail'):
                        i.raise_(RuntimeError)
                    w.ctx.ghost.setdefault('flushed', []).append(i.as_int(a[0]) if a else None)
                    i.yield_point('cache.' + name)
                return SCoro(run, 'cache.' + name)
            return fl
        if name == 'flush_local':
            return lambda inode, blockno: None
        if name == 'get_usage':
            return lambda: tuple(w.ctx.int('usage', lo=0) for _ in range(5))
        if name == 'cache':
            return Bag(fields={'max_size': w.ctx.int('max_size')})
        return NotImplemented


class SBlockCM(Model):
    def __init__(self, c, t, b, mw):
        self._c, self._t, self._b, self._mw = c, t, b, mw
        self._f = None

    def m_enter(self, i):
        w = self._c._w
        i.yield_point('cache.get')
        n = w.ctx.choose(3 if w.opts.get('get_may_fail', True) else 1, 'cache.get')
        if n == 1:
            o = SObj(NoSuchObject, {'args': (), 'key': w.ctx.val('key', str)})
            raise PyRaise(o)
        if n == 2:
            raise PyRaise(SObj(CorruptedObjectError, {'args': ()}))
        self._f = SBlockFile(self._c, self._t, self._b)
        return self._f

    def m_exit(self, i, exc):
        if self._f is not None:
            self._f._closed = True
        return False

    def m_state(self):
        return {}


class SBlockFile(Model):
    """CacheEntry: a seekable buffer holding one block; the part beyond its length reads as zero
    through the file."""

    def __init__(self, c, t, b):
        self._c, self._t, self._b = c, t, b
        w = c._w
        self._w = w
        self._pos = z3.IntVal(0)
        self._closed = False
        # actual length of the cached block: unknown, everything at or beyond it is zero in the
        # zero-padded view
        self._len = w.ctx.int('blklen', lo=0).t
        k = z3.Int(fresh_name('k'))
        byte = c.byte
        w.ctx.axiom(z3.ForAll([k], z3.Implies(k >= self._len, byte(t, b, k) == 0), patterns=[byte(t, b, k)])
                    if not z3.is_app_of(byte(t, b, k), z3.Z3_OP_ITE) else
                    z3.ForAll([k], z3.Implies(k >= self._len, byte(t, b, k) == 0)))
        f = c.bex
        c.bex = lambda x, y: z3.Or(z3.And(x == t, y == b), f(x, y))

    def chk(self):
        if self._closed:
            self._w.ob('C04', 'block-used-after-release', z3.BoolVal(False))

    def m_getattr(self, i, name):
        w, c, t, b = self._w, self._c, self._t, self._b
        self.chk()
        if name == 'seek':
            def seek(off, whence=0):
                if whence != 0:
                    raise Unsupported('seek whence')
                self._pos = i.as_int(off)
                return off
            return seek
        if name == 'tell':
            return lambda: i.mkint(self._pos)
        if name == 'write':
            def write(data):
                d = i.to_bytes(data)
                if d is None:
                    raise Unsupported('write of %s' % type(data).__name__)
                p, n, at, g = self._pos, d.n, d.at, c.byte
                w.ob('C04', 'write-within-block', z3.And(p >= 0, p + n <= w.S.t),
                     'write reaches beyond the end of the block')
                c.byte = lambda x, y, k: z3.If(z3.And(x == t, y == b, k >= p, k < p + n), at(k - p), g(x, y, k))
                self._pos = z3.simplify(p + n)
                self._len = z3.simplify(z3.If(n > 0, z3.If(p + n > self._len, p + n, self._len), self._len))
                w.ctx.ghost['cachewrites'] = w.ctx.ghost.get('cachewrites', 0) + 1
                return i.mkint(n)
            return write
        if name == 'read':
            def read(size=None):
                p, g = self._pos, c.byte
                avail = z3.If(self._len > p, self._len - p, z3.IntVal(0))
                if size is None:
                    n = avail
                else:
                    s = i.as_int(size)
                    n = z3.If(s < 0, avail, z3.If(s < avail, s, avail))
                n = z3.simplify(n)
                self._pos = z3.simplify(p + n)
                return SBytes(n, lambda k: g(t, b, p + k))
            return read
        if name == 'truncate':
            def truncate(size=None):
                s = self._pos if size is None else i.as_int(size)
                g = c.byte
                c.byte = lambda x, y, k: z3.If(z3.And(x == t, y == b, k >= s), z3.IntVal(0), g(x, y, k))
                self._len = s
                w.ctx.ghost['cachewrites'] = w.ctx.ghost.get('cachewrites', 0) + 1
                return i.mkint(s)
            return truncate
        if name == 'flush':
            return lambda: None
        return NotImplemented

    def m_state(self):
        return {}


class World:
    def __init__(self, ctx, want=None, **opts):
        self.ctx = ctx
        self.opts = opts
        self._want = want
        self.interp = i = Interp(ctx)
        self.st = DbState(ctx)
        self.removed = []
        self.iacc = ctx.roots['iacc'] = AccLog(ctx)
        self.db = SDb(i, self.st, NoSuchRowError)
        self.db._conflict = apsw.ConstraintError
        self.db._write_hook = self.db_write
        self.db._w = self
        self.dbwrites = 0
        self.created = []
        self.S = ctx.int('max_obj_size', lo=1)
        self.open = SOpen(self)
        self.broken = SBroken(self)
        self.cache = SCache(self)
        self.inodes = SInodes(self)
        self.failsafe0 = ctx.bool('failsafe')
        self.fs = SObj(s3ql.fs.Operations, {
            'inodes': self.inodes, 'db': self.db, 'upload_task': Bag(fields={'event': NullModel()}),
            'open_inodes': self.open, 'max_obj_size': self.S, 'cache': self.cache,
            'failsafe': self.failsafe0, 'broken_blocks': self.broken}, label='fs')
        i.override(s3ql.fs.log, NullModel())
        i.override(s3ql.common.log, NullModel())
        for n in ('invalidate_inode', 'invalidate_entry', 'invalidate_entry_async'):
            i.override(getattr(pyfuse3, n), lambda *a, **k: None)
        i.obj_over[('pyfuse3', 'FileInfo')] = lambda **k: Bag(fields=k)
        i.obj_over[('pyfuse3', 'EntryAttributes')] = lambda **k: Bag(fields=k)
        i.obj_over[('pyfuse3', 'StatvfsData')] = lambda **k: Bag(fields=k)
        i.contracts['s3ql.common.get_path'] = lambda it, a, k: ctx.val('path', bytes)
        i.contracts['s3ql.common.time_ns'] = lambda it, a, k: ctx.int('now', lo=0)
        i.contracts['s3ql.fs.update_logging'] = lambda it, a, k: None
        ctx.shared.trusted.update(['s3ql.inode_cache.InodeCache (contract; proved under C12)',
                                   's3ql.block_cache.BlockCache (contract; proved under C07/C10)',
                                   's3ql.database.Connection (assumed: SQLite relational semantics, atomic statements)',
                                   'pyfuse3 notification calls (assumed: no effect on file system state)',
                                   's3ql.common.get_path/time_ns (used only for messages and time stamps)'])
        self.roots = {'st': self.db, 'open': self.open, 'broken': self.broken, 'cache': self.cache}
        ctx.roots.update(self.roots)
        self.assume_inv(self.st, self.open, self.cache)
        self.st.base_axioms()
        self.assume_special()
        self.snapshot()

    # -- bookkeeping -----------------------------------------------------
    def want(self, p):
        return self._want is None or p in self._want

    def ob(self, prop, name, goal, info=None):
        if self.want(prop):
            return self.ctx.prove('%s.%s' % (prop, name), goal, info=info)

    def db_write(self, st, params):
        if st['k'] != 'select':
            self.dbwrites += 1

    def snapshot(self):
        self.st0 = self.st.snap()
        self.open0 = self.open.snap()
        self.cache0 = self.cache.snap()

    def set_col(self, i, name, t):
        tab = self.st.t['inodes']
        f = tab.col[name]
        tab.col[name] = lambda j: z3.If(j == i, t, f(j))

    def create_inode(self, **kw):
        c, i = self.ctx, self.interp
        tab = self.st.t['inodes']
        n = c.int('new_inode', lo=1).t
        self.touch_inode(n)
        c.assume(z3.Not(tab.ex(n)))
        c.assume(z3.Not(self.st0.t['inodes'].ex(n)))
        # AUTOINCREMENT: never used before
        for r in self.removed:
            c.assume(n != r)
        for cr in self.created:
            c.assume(n != cr)
        self.created.append(n)
        ex = tab.ex
        tab.ex = lambda j: z3.Or(j == n, ex(j))
        dflt = {'size': 0, 'rdev': 0, 'locked': 0}
        for a in IATTR:
            if a in kw:
                v = i.as_int(kw[a])
                if v is None:
                    raise Unsupported('create_inode(%s)' % a)
            elif a in dflt:
                v = z3.IntVal(dflt[a])
            else:
                i.raise_(apsw.ConstraintError, 'NOT NULL')
            self.set_col(n, a, v)
        for k in kw:
            if k not in IATTR:
                i.raise_(TypeError, k)
        self.dbwrites += 1
        return SView(self, n)

    def touch_inode(self, t):
        """instantiate invariants at an accessed inode"""
        pass

    # -- invariants --------------------------------------------------------
    def inv_formulas(self, st, op, ca):
        """name -> (arity, function of int terms -> formula, pattern builder)"""
        nm, ino, con, xa = st.t['names'], st.t['inodes'], st.t['contents'], st.t['ext_attributes']
        sy, ob = st.t['symlink_targets'], st.t['objects']
        S = self.S.t
        out = {}
        out['C05.names-refcount'] = (1, lambda n: z3.And(
            z3.Implies(nm.ex(n), z3.And(nm.col['refcount'](n) == st.cn(n), st.cn(n) >= 1)),
            z3.Implies(z3.Not(nm.ex(n)), z3.And(st.g['cn_c'](n) == 0, st.g['cn_x'](n) == 0))),
            lambda n: [nm.ex(n), st.g['cn_c'](n)])
        out['C06.link-count'] = (1, lambda i: z3.Implies(
            z3.And(ino.ex(i), i != ROOT, i != CTRL_INODE), ino.col['refcount'](i) == st.g['ci'](i)),
            lambda i: [ino.ex(i), st.g['ci'](i)])
        out['C06.no-entry-of-missing-inode'] = (1, lambda i: z3.Implies(
            z3.Not(ino.ex(i)), z3.And(st.g['ci'](i) == 0, st.g['cp'](i) == 0, z3.Not(op.pres(i)),
                                      z3.Not(sy.ex(i)))), lambda i: [ino.ex(i), st.g['ci'](i), sy.ex(i)])
        out['C06.no-rows-of-missing-inode'] = (2, lambda i, n: z3.Implies(
            z3.Not(ino.ex(i)), z3.And(z3.Not(con.ex(i, n)), z3.Not(xa.ex(i, n)), z3.Not(ca.bex(i, n)))),
            lambda i, n: [con.ex(i, n), xa.ex(i, n), ca.bex(i, n)])
        out['C06.unused-is-open'] = (1, lambda i: z3.Implies(
            z3.And(ino.ex(i), ino.col['refcount'](i) <= 0), op.pres(i)), lambda i: [ino.ex(i)])
        out['C06.open-positive'] = (1, lambda i: z3.Implies(op.pres(i), op.cnt(i) >= 1),
                                    lambda i: [op.pres(i), op.cnt(i)])
        out['C06.refcount-nonneg'] = (1, lambda i: z3.And(
            z3.Implies(ino.ex(i), ino.col['refcount'](i) >= 0), st.g['ci'](i) >= 0, st.g['cp'](i) >= 0), lambda i: [ino.ex(i)])
        out['C06.no-orphan'] = (1, lambda p: z3.Implies(
            st.g['cp'](p) >= 1, z3.And(ino.ex(p), ino.col['refcount'](p) >= 1)),
            lambda p: [st.g['cp'](p)])
        out['C06.root'] = (0, lambda: z3.And(
            ino.ex(ROOT), ino.col['refcount'](ROOT) >= 1, st.g['ci'](ROOT) == 0, op.pres(ROOT),
            ino.ex(CTRL_INODE), ino.col['refcount'](CTRL_INODE) >= 1, st.g['ci'](CTRL_INODE) == 0,
            st.g['cp'](CTRL_INODE) == 0), None)
        out['C04.blocks-within-size'] = (2, lambda i, b: z3.Implies(
            z3.And(ca.bex(i, b), ino.ex(i)), z3.And(b >= 0, b * S < ino.col['size'](i))),
            lambda i, b: [ca.bex(i, b)])
        out['C04.size-nonneg'] = (1, lambda i: z3.Implies(ino.ex(i), ino.col['size'](i) >= 0), lambda i: [ino.ex(i)])
        return out

    def assume_inv(self, st, op, ca, skip=()):
        for name, (ar, f, pat) in self.inv_formulas(st, op, ca).items():
            if name in skip:
                continue
            if ar == 0:
                self.ctx.assume(f())
                continue
            vs = [z3.Int('q_%d_%s' % (k, name)) for k in range(ar)]
            pats = pat(*vs)
            # conjunction split per pattern: one axiom, several alternative patterns
            self.ctx.axiom(z3.ForAll(vs, f(*vs), patterns=pats))

    def assume_special(self):
        pass

    def skolems(self):
        if not hasattr(self, '_sk'):
            c = self.ctx
            self._sk = dict(n=c.int('sk_n').t, i=c.int('sk_i').t, b=c.int('sk_b').t, p=c.int('sk_p').t,
                            v=c.val('sk_v').t)
        return self._sk

    def final_facts(self, st):
        """truths about counting and unique keys, instantiated at the skolem rows"""
        c, k = self.ctx, self.skolems()
        c.assume(st.facts_contents(k['p'], k['n']))
        c.assume(st.facts_contents(k['i'], k['n']))
        c.assume(st.facts_xattr(k['i'], k['n']))
        c.assume(st.unique_name(k['n']))
        for t in self.removed:
            c.assume(self.st0.facts_xattr(t, k['n']))
            c.assume(st.facts_xattr(t, k['n']))

    def prove_inv(self, when='', skip=()):
        st, op, ca, k = self.st, self.open, self.cache, self.skolems()
        self.final_facts(st)
        args = {'C05.names-refcount': ('n',), 'C06.no-rows-of-missing-inode': ('i', 'n'),
                'C04.blocks-within-size': ('i', 'b'), 'C06.no-orphan': ('p',)}
        for name, (ar, f, pat) in self.inv_formulas(st, op, ca).items():
            if name in skip or not self.want(name.split('.')[0]):
                continue
            a = args.get(name, ('i',) if ar == 1 else ())
            if name == 'C06.no-rows-of-missing-inode':
                # two skolem keys: name id and block number
                ino, con, xa = (st.t[x] for x in ('inodes', 'contents', 'ext_attributes'))
                self.ctx.prove('%s%s' % (name, when), z3.Implies(z3.Not(ino.ex(k['i'])), z3.And(
                    z3.Not(con.ex(k['i'], k['n'])), z3.Not(xa.ex(k['i'], k['n'])), z3.Not(ca.bex(k['i'], k['b'])))))
                continue
            self.ctx.prove('%s%s' % (name, when), f(*[k[x] for x in a]))

    # -- functional views -------------------------------------------------
    def entry(self, st, p, v):
        """(present, inode) of directory entry v in p"""
        n = st.idof['names'](v)
        nm, con = st.t['names'], st.t['contents']
        self.ctx.assume(st.facts_contents(p, n))
        for t in self.removed:
            self.ctx.assume(self.st0.facts_xattr(t, n))
            self.ctx.assume(st.facts_xattr(t, n))
        return z3.And(nm.ex(n), nm.col['name'](n) == v, con.ex(p, n)), con.col['inode'](p, n)

    def xattr(self, st, i, v):
        n = st.idof['names'](v)
        nm, xa = st.t['names'], st.t['ext_attributes']
        return z3.And(nm.ex(n), nm.col['name'](n) == v, xa.ex(i, n)), xa.col['value'](i, n)

    def touch_name(self, v):
        """instantiate facts about the row that carries name v, in both states"""
        for st in (self.st0, self.st):
            n = st.idof['names'](v)
            self.ctx.assume(st.unique_name(n))
            k = self.skolems()
            self.ctx.assume(st.facts_contents(k['p'], n))
            self.ctx.assume(st.facts_xattr(k['i'], n))
            self.ctx.assume(st.facts_contents(k['i'], n))

    # -- argument builders --------------------------------------------------
    def held_inode(self, name):
        """an inode id the kernel holds a lookup on"""
        c = self.ctx
        i = c.int(name)
        c.assume(self.open.pres(i.t))
        c.assume(self.open.cnt(i.t) >= 1)
        c.assume(self.st.t['inodes'].ex(i.t))
        return i

    def held_dir(self, name):
        i = self.held_inode(name)
        self.ctx.assume(i.t != CTRL_INODE)        # a regular file, never used as a directory
        return i

    def reqctx(self):
        c = self.ctx
        return Bag(pyfuse3.RequestContext, {'uid': c.int('uid', lo=0), 'gid': c.int('gid', lo=0),
                                            'pid': c.int('pid', lo=0), 'umask': c.int('umask', lo=0)})

    def run(self, op, *args, **kw):
        f = self.interp.ifunc_by_name(s3ql.fs, 'Operations.' + op)
        try:
            return self.interp.run_function(f, [self.fs] + list(args), kw)
        finally:
            self.check_coros()

    def check_coros(self):
        for co in self.ctx.coros:
            if not co.awaited:
                self.ob('C05', 'coroutine-never-awaited', z3.BoolVal(False), co.name)


def is_fuse_error(o):
    return isinstance(o, SObj) and issubclass(o.cls, pyfuse3.FUSEError)
