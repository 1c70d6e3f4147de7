"""C04, C07, C10: cached blocks as files, and the worker tasks of the block cache.

A CacheEntry keeps the size and position of its file and whether it has been modified since the last upload.  Each method
is verified against a model of an unbuffered POSIX file: writes may store only part of the data, any operation may fail."""
from __future__ import annotations
import builtins, io, os, re, time, logging
import z3, trio
from pyvc.values import *
from pyvc.core import *
from pyvc.interp import Interp, BUILTINS, SIter, Unsupported
from pyvc.sqlm import _Hold
from props.mountcmd import Obj
import s3ql.block_cache as bc
from s3ql.backends.common import NoSuchObject

Q = 's3ql.block_cache.'
And, Or, Not, Imp = z3.And, z3.Or, z3.Not, z3.Implies


class WFile(Model):
    """regular file opened without buffer, of any content"""

    def __init__(self, ctx, i, new=False):
        self._ctx, self._i = ctx, i
        self._at = ctx.bytes('file').at
        self.n = z3.IntVal(0) if new else ctx.int('length', lo=0).t
        self.off = ctx.int('offset', lo=0).t
        self.name = ctx.val('filename', str)
        self.closed = False
        self.changed = z3.BoolVal(False)

    def m_state(self):
        return {'at': _Hold(self._at), 'n': SInt(self.n), 'off': SInt(self.off), 'changed': SBool(self.changed)}

    def m_havoc(self, i, k):
        if k == 'at':
            self._at = i.ctx.bytes('file').at
        elif k == 'changed':
            self.changed = i.ctx.bool('changed').t
        else:
            setattr(self, k, i.ctx.int(k, lo=0).t)

    def _fail(self, what):
        if self._ctx.choose(2, what + ' fails'):
            self._i.raise_(OSError, 28, what)

    def write(self, buf):
        c, i = self._ctx, self._i
        self._fail('write')
        b = i.to_bytes(buf)
        k = c.int('written', lo=0).t
        c.assume(And(k <= b.n, Imp(b.n > 0, k > 0)))
        at, n, off = self._at, self.n, self.off
        self._at = lambda j: z3.If(And(j >= off, j < off + k), b.at(j - off), z3.If(j >= n, z3.IntVal(0), at(j)))
        self.n = z3.If(And(k > 0, off + k > n), off + k, n)
        self.off = off + k
        self.changed = Or(self.changed, k > 0)
        return SInt(k)

    def read(self, size=None):
        i = self._i
        self._fail('read')
        p = self.off
        avail = z3.If(p < self.n, self.n - p, z3.IntVal(0))
        if size is None:
            k = avail
        else:
            s = i.as_int(size)
            k = z3.If(Or(s < 0, s > avail), avail, s)
        k = z3.simplify(k)
        at = self._at
        self.off = p + k
        return SBytes(k, lambda j: at(j + p))

    def readinto(self, b):
        raise Unsupported('readinto')

    def seek(self, off, whence=0):
        i = self._i
        p = i.as_int(off)
        if not isinstance(whence, int):
            raise Unsupported('whence')
        base = {0: z3.IntVal(0), 1: self.off, 2: self.n}[whence]
        p = z3.simplify(base + p)
        if self._ctx.branch(p < 0, 'seek before start'):
            i.raise_(OSError, 22, 'seek')
        self.off = p
        return SInt(p)

    def tell(self):
        return SInt(self.off)

    def truncate(self, size=None):
        i = self._i
        self._fail('truncate')
        s = self.off if size is None else i.as_int(size)
        if self._ctx.branch(s < 0, 'negative size'):
            i.raise_(OSError, 22, 'truncate')
        at, n = self._at, self.n
        self._at = lambda j: z3.If(j >= n, z3.IntVal(0), at(j))
        self.n = s
        self.changed = z3.BoolVal(True)
        return SInt(s)

    def flush(self):
        pass

    def fileno(self):
        return 7

    def close(self):
        self.closed = True


class EW:
    def __init__(self, ctx, want, new=False):
        self.ctx = ctx
        self.i = i = Interp(ctx)
        self.f = WFile(ctx, i, new)
        ctx.roots['file'] = self.f
        self.now = SFloat(z3.Real(fresh_name('now')))
        i.bi[time.time] = lambda ii: self.now
        i.bi[memoryview] = lambda ii, b: b
        i.bi[os.fstat] = lambda ii, fd: Obj(st_size=SInt(self.f.n))
        i.bi[os.path.getsize] = lambda ii, p: SInt(self.f.n)

    def P(self, n, g, info=None, props=('C10',)):
        for p in props:
            self.ctx.prove('%s.entry.%s' % (p, n), g if z3.is_expr(g) else z3.BoolVal(g), info=info)

    def entry(self):
        c, f = self.ctx, self.f
        self.dirty0 = c.bool('dirty').t
        self.me = SObj(bc.CacheEntry, dict(fh=f, dirty=SBool(self.dirty0), pos=SInt(f.off), size=SInt(f.n), inode=c.int('inode'),
                                           blockno=c.int('blockno', lo=0), last_write=SFloat(z3.Real(fresh_name('lw'))),
                                           in_transit=SBool(c.bool('tr').t)))
        self.at0, self.n0, self.off0 = f._at, f.n, f.off
        self.frame0 = {k: self.me.f[k] for k in ('inode', 'blockno', 'in_transit', 'fh')}
        return self.me

    def call(self, name, *a):
        i = self.i
        k, v = i.run_function(Bound(i.find_method(bc.CacheEntry, name), self.me), list(a))
        self.ctx.shared.reached.add(k if k == 'return' else v.cls.__name__)
        return k, v

    def inv(self, pre):
        m, i, f = self.me.f, self.i, self.f
        dirty = m['dirty'].t if isinstance(m['dirty'], SBool) else z3.BoolVal(bool(m['dirty']))
        self.P(pre + '.position', i.as_int(m['pos']) == f.off, 'the recorded position is not the one of the file', ('C04', 'C10'))
        self.P(pre + '.size', i.as_int(m['size']) == f.n, 'the recorded size is not the size of the file')
        self.P(pre + '.dirty', And(Imp(f.changed, dirty), Imp(self.dirty0, dirty)), 'the data changed but the block is not marked as modified')
        for k, v in self.frame0.items():
            self.P(pre + '.frame', self.same(m[k], v), '%s of the cache entry changes' % k)

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Sym) and isinstance(b, Sym):
            return a.t == b.t
        return False


def u_write(ctx, want):
    w = EW(ctx, want)
    me = w.entry()
    f, i = w.f, w.i
    b0 = ctx.bytes('data')
    j = ctx.int('j', lo=0).t
    i.auto_invariants = False
    moved = lambda: f.off - w.off0

    def hints(ii, fr, pre):
        def cont(e):
            return f._at(j) == z3.If(And(j >= w.off0, j < f.off), b0.at(j - w.off0), z3.If(j >= w.n0, z3.IntVal(0), w.at0(j)))

        def cont0(e):
            return Imp(f.off == w.off0, And(f.n == w.n0, Or(j >= w.n0, f._at(j) == w.at0(j))))
        n1 = lambda: z3.If(And(moved() > 0, f.off > w.n0), f.off, w.n0)
        out = [('at', lambda e: Or(f.off == w.off0, cont(e))), ('at0', cont0), ('n', lambda e: f.n == n1()), ('in', lambda e: And(moved() >= 0, moved() <= b0.n)),
               ('changed', lambda e: Imp(f.changed, moved() > 0))]
        for p, v in pre.items():
            if v[0] == 'l' and isinstance(v[3], (int, SInt)) and not isinstance(v[3], bool):
                out += [('moved:' + p, lambda e, p=p: e.m(p) == moved()), ('left:' + p, lambda e, p=p: e.m(p) == b0.n - moved()),
                        ('range:' + p, lambda e, p=p: And(e.m(p) >= 0, e.m(p) <= b0.n))]
            elif isinstance(v[3], SBytes):
                out += [('rest:' + p, lambda e, p=p: And(e.v(p).n == b0.n - moved(),
                                                         Imp(And(j >= f.off, j - f.off < e.v(p).n),
                                                             e.v(p).at(j - f.off) == b0.at(j - w.off0)))),
                        ('whole:' + p, lambda e, p=p: And(e.v(p).n == b0.n, e.v(p).at(j - w.off0) == b0.at(j - w.off0)))]
        out += [('pos', lambda e: i.as_int(me.f['pos']) == f.off), ('size', lambda e: i.as_int(me.f['size']) == f.n),
                ('pos0', lambda e: i.as_int(me.f['pos']) == w.off0), ('size0', lambda e: i.as_int(me.f['size']) == w.n0),
                ('dirty', lambda e: me.f['dirty'].t if isinstance(me.f['dirty'], SBool) else z3.BoolVal(bool(me.f['dirty'])))]
        return out
    i.loop_hints['write'] = hints
    k, v = w.call('write', b0)
    w.inv('write')
    n = b0.n
    if k == 'return':
        w.P('write.all', f.off == w.off0 + n, 'not all of the data is written', ('C04', 'C10'))
        w.P('write.length', f.n == z3.If(And(n > 0, w.off0 + n > w.n0), w.off0 + n, w.n0), 'wrong length after a write', ('C04',))
    else:
        w.P('write.error', v.cls is OSError, 'unexpected error')
    done = f.off - w.off0
    w.P('write.content', Imp(j < f.n, f._at(j) == z3.If(And(j >= w.off0, j < w.off0 + done), b0.at(j - w.off0),
                                                          z3.If(j >= w.n0, z3.IntVal(0), w.at0(j)))),
        'the file does not contain what was written, or other data changed', ('C04', 'C10'))


def u_read(ctx, want):
    w = EW(ctx, want)
    me = w.entry()
    f, i = w.f, w.i
    size = [None, ctx.int('count')][ctx.choose(2, 'limited')]
    k, v = w.call('read', *([] if size is None and ctx.choose(2, 'default') else [size]))
    w.inv('read')
    j = ctx.int('j', lo=0).t
    w.P('read.unchanged', And(f.n == w.n0, Not(f.changed)), 'reading changes the data', ('C04', 'C10'))
    if k == 'return':
        b = i.to_bytes(v)
        avail = z3.If(w.off0 < w.n0, w.n0 - w.off0, z3.IntVal(0))
        want_n = avail if size is None else z3.If(Or(size.t < 0, size.t > avail), avail, size.t)
        w.P('read.count', And(b.n == want_n, f.off == w.off0 + want_n), 'wrong number of bytes read', ('C04',))
        w.P('read.content', Imp(j < b.n, b.at(j) == w.at0(w.off0 + j)), 'wrong data read', ('C04',))


def u_seek(ctx, want):
    w = EW(ctx, want)
    me = w.entry()
    f, i = w.f, w.i
    wh = ctx.choose(4, 'whence')
    off = ctx.int('to')
    k, v = w.call('seek', off, *([] if wh == 3 else [wh]))
    w.inv('seek')
    w.P('seek.unchanged', And(f.n == w.n0, Not(f.changed)), 'seeking changes the data')
    t = off.t + {0: z3.IntVal(0), 3: z3.IntVal(0), 1: w.off0, 2: w.n0}[wh]
    if k == 'return':
        w.P('seek.target', And(f.off == t, i.as_int(v) == t), 'wrong position', ('C04', 'C10'))
    else:
        w.P('seek.error', And(t < 0, f.off == w.off0), 'seek fails')


def u_tell(ctx, want):
    w = EW(ctx, want)
    w.entry()
    k, v = w.call('tell')
    w.inv('tell')
    w.P('tell.value', k == 'return' and w.i.as_int(v) == w.f.off, 'wrong position', ('C04',))
    w.call('flush')
    w.inv('flush')


def u_truncate(ctx, want):
    w = EW(ctx, want)
    me = w.entry()
    f, i = w.f, w.i
    size = [None, ctx.int('to', lo=0)][ctx.choose(2, 'given')]
    k, v = w.call('truncate', *([] if size is None else [size]))
    j = ctx.int('j', lo=0).t
    w.inv('truncate')
    w.P('truncate.position', f.off == w.off0, 'truncating moves the position', ('C04',))
    if k == 'return':
        s = w.off0 if size is None else size.t
        w.P('truncate.length', f.n == s, 'wrong length', ('C04',))
        w.P('truncate.content', Imp(j < f.n, f._at(j) == z3.If(j < w.n0, w.at0(j), z3.IntVal(0))), 'truncating changes the remaining data', ('C04',))
    else:
        w.P('truncate.error', And(f.n == w.n0, z3.BoolVal(v.cls is OSError)), 'a failed truncate changes the size')


def u_init(ctx, want):
    """a new entry: empty file for w+b, the existing file for r+b; size, position, not modified"""
    how = ctx.choose(3, 'mode')
    w = EW(ctx, want, new=False)
    f, i = w.f, w.i
    at0, n0 = f._at, f.n
    opened = []
    name = ctx.val('path', str)

    def open_(ii, fn, mode='r', buffering=-1, **k):
        w.P('init.file', fn is name, 'another file is opened')
        m = mode.replace('b', '')
        w.P('init.binary', 'b' in mode and '+' in m, 'the file cannot be read and written')
        if ctx.choose(2, 'open fails'):
            ii.raise_(OSError, 24, 'open')
        opened.append(mode)
        if m[0] == 'w':
            f.n = z3.IntVal(0)
        elif m[0] != 'r':
            raise Unsupported('mode')
        f.off = z3.IntVal(0)
        return f
    i.bi[builtins.open] = open_
    ino, bn = ctx.int('inode'), ctx.int('blockno', lo=0)
    w.me = me = SObj(bc.CacheEntry, {})
    k, v = w.call('__init__', ino, bn, name, *[[], ['w+b'], ['r+b']][how])
    if k != 'return':
        w.P('init.error', v.cls is OSError and not opened, 'unexpected error')
        return
    m = me.f
    for x, y in ((m['inode'], ino), (m['blockno'], bn)):
        w.P('init.key', w.same(x, y), 'the entry belongs to another block')
    w.P('init.content', And(f.n == (n0 if how == 2 else z3.IntVal(0)), Not(f.changed)), 'the data of the file is lost or remains')
    w.P('init.position', i.as_int(m['pos']) == f.off, 'wrong position', ('C04', 'C10'))
    w.P('init.size', i.as_int(m['size']) == f.n, 'wrong size')
    d = m['dirty'].t if isinstance(m['dirty'], SBool) else z3.BoolVal(bool(m['dirty']))
    t = m['in_transit'].t if isinstance(m['in_transit'], SBool) else z3.BoolVal(bool(m['in_transit']))
    w.P('init.flags', And(Not(d), Not(t)), 'a new entry is marked as modified or being uploaded')
    k, v = i.run_function(Bound(i.find_method(bc.CacheEntry, '__str__'), me), [])
    w.P('init.str', k == 'return', 'an entry cannot be formatted')



# ---------------------------------------------------------------------- worker tasks and set-up

def prove(ctx, p, n, g, info=None):
    ctx.prove('%s.%s' % (p, n), g if z3.is_expr(g) else z3.BoolVal(bool(g)), info=info)


class IdList(Model):
    """list of object ids"""
    m_type = list

    def __init__(self, ctx, i, items=()):
        self._ctx, self._i = ctx, i
        self._at = lambda j: z3.IntVal(0)
        self.n = z3.IntVal(0)
        for x in items:
            self.append(x)

    @staticmethod
    def of(x, ctx, i):
        return x if isinstance(x, IdList) else IdList(ctx, i, x)

    def m_state(self):
        return {'at': _Hold(self._at), 'n': SInt(self.n)}

    def m_havoc(self, i, k):
        if k == 'n':
            self.n = i.ctx.int('n', lo=0).t
        else:
            f = i.ctx.func('ids', z3.IntSort(), z3.IntSort())
            self._at = lambda j: f(j)

    def append(self, x):
        x, at, n = self._i.as_int(x), self._at, self.n
        self._at = lambda j: z3.If(j == n, x, at(j))
        self.n = z3.simplify(n + 1)

    def clear(self):
        self.n = z3.IntVal(0)

    def copy(self):
        r = IdList(self._ctx, self._i)
        r._at, r.n = self._at, self.n
        return r

    def m_len(self):
        return SInt(self.n)

    def m_bool(self, i):
        return i.mkbool(self.n > 0)

    def m_getitem(self, i, k):
        if isinstance(k, slice):
            if (k.start, k.stop, k.step) == (None, None, None):
                return self.copy()
            if k.step is not None or isinstance(k.start, int) and k.start < 0 or isinstance(k.stop, int) and k.stop < 0:
                raise Unsupported('slice')
            lo = i.as_int(k.start) if k.start is not None else z3.IntVal(0)
            hi = i.as_int(k.stop) if k.stop is not None else self.n
            clip = lambda x: z3.If(x > self.n, self.n, x)
            r, at = IdList(self._ctx, i), self._at
            lo, hi = clip(lo), clip(hi)
            r.n, r._at = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0))), lambda j: at(j + lo)
            return r
        k = i.as_int(k)
        k = z3.If(k < 0, self.n + k, k)
        if self._ctx.branch(Or(k < 0, k >= self.n), 'index'):
            i.raise_(IndexError)
        return SInt(self._at(k))

    def m_same(self, o):
        return isinstance(o, IdList) and o._at is self._at and o.n.eq(self.n)

    def m_iter(self, i):
        at = self._at
        return SIter(self.n, lambda k: SInt(at(k.t)))

    def m_listcomp(self, i, fr, e):
        g = e.generators[0]
        if len(e.generators) != 1 or g.ifs:
            return NotImplemented
        at = self._at

        def elem(p):
            i.assign(fr, g.target, SInt(at(p)))
            return i.eval(fr, e.elt)
        return KeyList(self.n, elem)


class KeyList(Model):
    m_type = list

    def __init__(self, n, elem):
        self.n, self.elem = n, elem

    def m_state(self):
        return {}

    def m_len(self):
        return SInt(self.n)


class Recv(Model):
    """receiving end of a channel: items come once each, in any number"""

    def __init__(self, ctx, i, item, on_recv=None):
        self._ctx, self._i, self._item, self._on = ctx, i, item, on_recv or (lambda: None)
        self.r = z3.IntVal(0)
        self.entered = False

    def m_state(self):
        return {'r': SInt(self.r)}

    def m_havoc(self, i, k):
        self.r = i.ctx.int('received', lo=0).t

    def m_enter(self, i):
        self.entered = True
        return self

    def m_exit(self, i, exc):
        return False

    def take(self):
        self._on()
        r = self.r
        self.r = z3.simplify(r + 1)
        return self._item(r)

    def m_iter(self, i):
        n = self._ctx.int('items', lo=0).t
        self._on()
        return SIter(n, lambda k: self.take())

    def receive_nowait(self):
        h = self._ctx.choose(3, 'nowait')
        if h:
            self._i.raise_([trio.WouldBlock, trio.EndOfChannel][h - 1])
        return self.take()

    def receive(self):
        def run():
            if self._ctx.choose(2, 'end'):
                self._i.raise_(trio.EndOfChannel)
            return self.take()
        return SCoro(run, 'receive')

    def close(self):
        pass

    def aclose(self):
        return SCoro(lambda: None, 'aclose')


class Ghost(Model):
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def m_state(self):
        return {k: (SBool(v) if z3.is_bool(v) else SInt(v)) for k, v in self.__dict__.items()}

    def m_havoc(self, i, k):
        setattr(self, k, i.ctx.bool(k).t if z3.is_bool(getattr(self, k)) else i.ctx.int(k).t)


def u_removal(ctx, want):
    """every id received is passed to delete_multi exactly once, under its own name, before the next one is waited for"""
    i = Interp(ctx)
    i.auto_invariants = False
    I = z3.IntSort()
    seq = z3.Function('received_id', I, I)
    p = ctx.int('p', lo=0).t
    g = Ghost(d=z3.IntVal(0), lost=z3.BoolVal(False))
    recv = Recv(ctx, i, lambda r: SInt(seq(r)))
    ctx.roots['recv'], ctx.roots['ghost'] = recv, g
    fs = Obj(failsafe=False)
    failed = []

    def name_of(key):
        t = key.t if isinstance(key, SVal) else None
        if t is None or t.decl().name() != "fmt_'s3ql_data_%d'_1" or t.arg(0).decl().name() != 'int2v':
            raise Unsupported('object name')
        return t.arg(0).arg(0)

    class Be(Model):
        def m_state(self):
            return {}

        def delete_multi(self, keys, **kw):
            def run():
                if isinstance(keys, list):
                    ks = KeyList(z3.IntVal(len(keys)), None)
                    ok = And(ks.n == recv.r - g.d, *[name_of(x) == seq(g.d + n) for n, x in enumerate(keys)])
                elif isinstance(keys, KeyList):
                    ok = And(keys.n == recv.r - g.d, Or(p >= keys.n, name_of(keys.elem(p)) == seq(g.d + p)))
                else:
                    raise Unsupported('keys')
                prove(ctx, 'C07', 'removal.each-once', ok, 'not exactly the objects queued for removal are deleted')
                h = ctx.choose(4, 'delete')
                if h == 1:
                    # nothing more is known: the objects that are there have been deleted or stay as garbage
                    g.lost, g.d = z3.BoolVal(True), recv.r
                    i.raise_(NoSuchObject, 'key')
                if h == 2:
                    failed.append(1)
                    i.raise_(ConnectionError)
                if h == 3:
                    failed.append(1)
                    i.raise_(trio.Cancelled)
                g.d = recv.r
            return SCoro(run, 'delete_multi')

        def delete(self, key):
            def run():
                prove(ctx, 'C07', 'removal.each-once', And(g.d < recv.r, name_of(key) == seq(g.d)), 'an object that was not queued is deleted')
                if ctx.choose(2, 'delete'):
                    failed.append(1)
                    i.raise_(ConnectionError)
                g.d = z3.simplify(g.d + 1)
            return SCoro(run, 'delete')

    def ids(e):
        return [(k, IdList.of(v, ctx, i)) for k, v in e.fr.locals.items() if isinstance(v, (list, IdList))]

    def hints(ii, fr, pre):
        def whole(e):
            out = []
            for k, l in ids(e):
                out.append(And(l.n == recv.r - g.d, Or(p >= l.n, l._at(p) == seq(g.d + p))))
            return And(*out) if out else z3.BoolVal(True)
        return [('ids', whole), ('done', lambda e: recv.r == g.d), ('order', lambda e: And(g.d >= 0, recv.r >= g.d)), ('more', lambda e: recv.r > g.d),
                ('lost', lambda e: Imp(g.lost, z3.BoolVal(fs.failsafe is True) if not isinstance(fs.failsafe, SBool) else fs.failsafe.t))]
    i.loop_hints['_removal_task'] = hints
    i.list_model = lambda path, l: IdList(ctx, i, l)

    def fresh(path, v):
        if isinstance(v, (list, IdList)):
            r = IdList(ctx, i)
            r.m_havoc(i, 'n')
            r.m_havoc(i, 'at')
            return r
        return None
    i.list_fresh = fresh
    me = SObj(bc.BlockCache, dict(backend=Be(), fs=fs))

    def on_recv():
        if failed:
            prove(ctx, 'C07', 'removal.errors', False, 'a failed deletion is ignored')
    recv._on = on_recv
    k, v = i.run_function(Bound(i.find_method(bc.BlockCache, '_removal_task'), me), [recv])
    ctx.shared.reached.add(k if k == 'return' else v.cls.__name__)
    if k == 'return':
        prove(ctx, 'C07', 'removal.errors', not failed, 'a failed deletion is ignored')
        prove(ctx, 'C07', 'removal.complete', g.d == recv.r, 'objects queued for removal are forgotten')
        prove(ctx, 'C07', 'removal.lost', Imp(g.lost, z3.BoolVal(fs.failsafe is True) if not isinstance(fs.failsafe, SBool) else fs.failsafe.t),
              'a missing object is not noticed')
    else:
        prove(ctx, 'C07', 'removal.errors', v.cls in (ConnectionError, trio.Cancelled) and bool(failed), 'unexpected error')


def u_upload_task(ctx, want):
    """every entry received is uploaded, once, before the next one is accepted (it comes with the lock of its block)"""
    i = Interp(ctx)
    i.auto_invariants = False
    I = z3.IntSort()
    obj = z3.Function('received_obj', I, I)
    g = Ghost(d=z3.IntVal(0))
    els = {}
    failed = []

    class El(Model):
        def __init__(self, r):
            self.r = r
            self.dirty, self.in_transit, self.size = SBool(ctx.bool('dirty').t), True, ctx.int('size', lo=0)

        def m_state(self):
            return {}
    recv = Recv(ctx, i, lambda r: (El(r), SInt(obj(r))), lambda: prove(ctx, 'C07', 'upload_task.one-at-a-time', And(g.d == recv.r, z3.BoolVal(not failed)),
                                                                       'a block is accepted for upload before the last one has been uploaded'))
    ctx.roots['recv'], ctx.roots['ghost'] = recv, g

    def up(it, a, k):
        def run():
            el, o = a[1], a[2]
            if not isinstance(el, El):
                raise Unsupported('upload of %r' % (el,))
            prove(ctx, 'C07', 'upload_task.item', And(el.r == g.d, it.as_int(o) == obj(g.d), recv.r == g.d + 1), 'not the block received is uploaded')
            g.d = z3.simplify(g.d + 1)
            h = ctx.choose(3, 'upload')
            if h:
                failed.append(1)
                it.raise_([ConnectionError, trio.Cancelled][h - 1])
        return SCoro(run, '_do_upload')
    i.contracts[Q + 'BlockCache._do_upload'] = up
    i.loop_hints['_upload_task'] = lambda ii, fr, pre: [('done', lambda e: And(g.d == recv.r, z3.BoolVal(not failed)))]
    me = SObj(bc.BlockCache, {})
    k, v = i.run_function(Bound(i.find_method(bc.BlockCache, '_upload_task'), me), [recv])
    ctx.shared.reached.add(k if k == 'return' else v.cls.__name__)
    if k == 'return':
        prove(ctx, 'C07', 'upload_task.complete', And(g.d == recv.r, z3.BoolVal(not failed)), 'a block handed over is not uploaded')
    else:
        prove(ctx, 'C07', 'upload_task.errors', And(g.d == recv.r, z3.BoolVal(bool(failed))), 'unexpected error')


SAMPLES = ['1-0', '12-345', '98765432109-0', '1-0.tmp', 'x1-0', '1-0x', '-1-0', '1--0', '1_0', '1', '', '1-', '-', '1-0-2', 'a-b', ' 1-0']


def u_load(ctx, want):
    """load_cache: one entry per file, with its data, and the size of the cache"""
    i = Interp(ctx)
    i.auto_invariants = False
    I, B = z3.IntSort(), z3.BoolSort()
    m = ctx.int('m', lo=0).t
    valid = z3.Function('is_block', I, B)
    ino, bn, size = (z3.Function(x, I, I) for x in ('file_inode', 'file_block', 'file_size'))
    root = ctx.val('cachedir', str)
    cur = {}
    n = ctx.int('files', lo=0).t
    g = Ghost(tot=z3.IntVal(0), loaded=z3.IntVal(0), clen=z3.IntVal(0))

    class Name(Model):
        m_type = str

        def __init__(self, k, full=False):
            self.k, self.full = k, full

        def m_state(self):
            return {}

        def endswith(self, s):
            if ctx.holds(valid(self.k)) and s[-1:] not in '0123456789':
                return False
            return SBool(ctx.bool('ends').t)

    class Names(Model):
        m_type = list

        def m_state(self):
            return {}

        def m_iter(self, ii):
            return SIter(n, lambda k: Name(k.t))
    i.bi[os.listdir] = lambda ii, p: Names() if p is root else _unsup('listdir')
    i.bi[os.path.join] = lambda ii, a, b: Name(b.k, True) if a is root and isinstance(b, Name) else _unsup('join')

    class Num(Model):
        m_type = str

        def __init__(self, t):
            self.t = t

        def m_state(self):
            return {}

    class Match(Model):
        def __init__(self, k):
            self.k = k

        def m_state(self):
            return {}

        def group(self, *a):
            f = {1: ino, 2: bn}
            r = tuple(Num(f[x](self.k)) if x in f else Name(self.k) for x in a)
            return r[0] if len(r) == 1 else r

        def groups(self):
            return (Num(ino(self.k)), Num(bn(self.k)))

        def m_getitem(self, ii, x):
            return self.group(x)

    def match(ii, pat, s, *a, real=re.match):
        if not isinstance(s, Name) or not isinstance(pat, str) or s.full:
            raise Unsupported('match')
        for x in SAMPLES:
            r = real(pat, x)
            ok = (r.groups() == tuple(x.split('-'))) if x in SAMPLES[:3] else r is None
            prove(ctx, 'C10', 'load.names', ok, 'file name %r is %s' % (x, 'not recognised' if x in SAMPLES[:3] else 'taken for a block'))
        return Match(s.k) if ctx.branch(valid(s.k), 'block') else None
    i.bi[re.match] = match
    i.bi[re.fullmatch] = lambda ii, pat, s, *a: match(ii, pat, s, real=re.fullmatch)
    old = BUILTINS[int]

    def toint(ii, x=0, *a):
        if isinstance(x, Num):
            return SInt(x.t)
        return old(ii, x, *a)
    i.bi[int] = toint
    for f in (os.unlink, os.remove, os.truncate, os.rename):
        i.bi[f] = lambda ii, *a: prove(ctx, 'C10', 'load.data', False, 'a file of the cache is removed while it is loaded')

    def entry(it, a, k):
        names = ['inode', 'blockno', 'filename', 'mode']
        d = dict(zip(names, a))
        d.update(k)
        fn = d['filename']
        if not isinstance(fn, Name) or not fn.full:
            raise Unsupported('file name')
        prove(ctx, 'C10', 'load.data', d.get('mode', 'w+b') == 'r+b', 'the data of a cached block is lost when the cache is loaded')
        prove(ctx, 'C10', 'load.entry', And(it.as_int(d['inode']) == ino(fn.k), it.as_int(d['blockno']) == bn(fn.k)), 'a file is loaded as another block')
        cur['k'] = fn.k
        return Obj(inode=d['inode'], blockno=d['blockno'], size=SInt(size(fn.k)), dirty=False, k=fn.k)
    i.contracts['s3ql.block_cache.CacheEntry'] = entry

    class C(Model):
        def __init__(self):
            self.size = SInt(z3.IntVal(0))

        def m_state(self):
            return {'size': self.size}

        def m_havoc(self, ii, k):
            self.size = ctx.int('size')

        def m_setattr(self, ii, nme, v):
            if nme != 'size':
                raise Unsupported(nme)
            self.size = v

        def m_len(self):
            return SInt(g.clen)

        def m_contains(self, ii, k):
            return False

        def m_setitem(self, ii, k, v):
            a, b = (ii.as_int(x) for x in k)
            prove(ctx, 'C10', 'load.key', And(a == ino(v.k), b == bn(v.k)), 'a block is cached under the key of another one')
            g.tot = z3.simplify(g.tot + size(v.k))
            g.clen = z3.simplify(g.clen + 1)
            g.loaded = z3.simplify(g.loaded + z3.If(v.k == m, 1, 0))
    cache = C()
    ctx.roots['cache'], ctx.roots['ghost'] = cache, g
    i.loop_hints['load_cache'] = lambda ii, fr, pre: [
        ('size', lambda e: ii.as_int(cache.size) == g.tot),
        ('loaded', lambda e: g.loaded == z3.If(And(m < e.m('$k'), valid(m)), z3.IntVal(1), z3.IntVal(0)))]
    me = SObj(bc.BlockCache, dict(path=root, cache=cache))
    k, v = i.run_function(Bound(i.find_method(bc.BlockCache, 'load_cache'), me), [])
    ctx.shared.reached.add(k)
    prove(ctx, 'C10', 'load.no-error', k == 'return')
    if k == 'return':
        prove(ctx, 'C10', 'load.size', i.as_int(cache.size) == g.tot, 'the recorded size is not that of the blocks loaded')
        prove(ctx, 'C10', 'load.each', Imp(And(m < n, valid(m)), g.loaded == 1), 'a cached block is not loaded')
        prove(ctx, 'C10', 'load.only', Imp(Not(And(m < n, valid(m))), g.loaded == 0), 'a file that is not a block is loaded')


def _unsup(x):
    raise Unsupported(x)


class Chan(Model):
    def __init__(self, size):
        self.size = size
        self.send, self.recv = ChEnd(self, 'send'), ChEnd(self, 'recv')

    def m_state(self):
        return {}


class ChEnd(Model):
    def __init__(self, ch, kind):
        self.ch, self.kind, self.closed, self.clones = ch, kind, False, []

    def m_state(self):
        return {}

    def clone(self):
        c = ChEnd(self.ch, self.kind)
        self.clones.append(c)
        return c

    def aclose(self):
        def run():
            self.closed = True
        return SCoro(run, 'aclose')

    def close(self):
        self.closed = True


def u_create(ctx, want):
    """workers serve the channels the cache uses; entries are handed over without a buffer"""
    i = Interp(ctx)
    i.auto_invariants = False
    chans, started, loaded, made = [], [], [], []

    class OC(Model):
        def m_state(self):
            return {}

        def m_getitem(self, ii, k):
            return self

        def m_call(self, ii, a, k):
            c = Chan(a[0] if a else k['max_buffer_size'])
            chans.append(c)
            return (c.send, c.recv)
    i.obj_over[('s3ql.block_cache', 'trio.open_memory_channel')] = OC()
    i.bi[trio.open_memory_channel] = lambda ii, n: OC().m_call(ii, [n], {})
    exists = ctx.choose(2, 'cachedir exists')
    path = ctx.val('cachedir', str)
    i.bi[os.path.exists] = lambda ii, p: bool(exists)
    i.bi[os.path.isdir] = lambda ii, p: bool(exists)
    i.bi[os.mkdir] = i.bi[os.makedirs] = lambda ii, p, *a, **k: made.append(p)
    i.contracts[Q + 'BlockCache.load_cache'] = lambda it, a, k: loaded.append(1)
    conns, thr = ctx.int('max_connections', lo=1), ctx.int('max_threads', lo=0)
    be = Obj(max_connections=conns, max_threads=thr)
    count = Ghost(n=z3.IntVal(0))
    ctx.roots['workers'] = count

    class Nursery(Model):
        def m_state(self):
            return {}

        def start_soon(self, f, *a, **k):
            nm = f.fn.qualname.split('.')[-1] if isinstance(f, Bound) else '?'
            e = a[0] if a else None
            ok = isinstance(e, ChEnd) and e.kind == 'recv'
            if nm == '_removal_task':
                started.append(nm)
                prove(ctx, 'C07', 'create.removal-channel', ok and f.self_.f['_remove_send'].ch is e.ch, 'nobody serves the removal queue')
            elif nm == '_upload_task':
                count.n = z3.simplify(count.n + 1)
                prove(ctx, 'C10', 'create.upload-channel', ok and f.self_.f['_upload_send'].ch is e.ch, 'nobody serves the upload queue')
    i.bi[trio.Condition] = lambda ii: Obj()
    i.contracts['s3ql.multi_lock.MultiLock'] = i.contracts[Q + 'MultiLock'] = lambda it, a, k: Obj()
    i.contracts[Q + 'CacheDict'] = lambda it, a, k: CD(a, k)

    class CD(Model):
        def __init__(self, a, k):
            self.a = dict(zip(['max_size', 'max_entries'], a), **k)

        def m_state(self):
            return {}

        def m_len(self):
            return 0
    i.loop_hints['create'] = lambda ii, fr, pre: [('n', lambda e: count.n == e.m('$k'))]
    db, ms, me_ = Obj(), ctx.int('max_size', lo=0), ctx.int('max_entries', lo=0)
    given = ctx.choose(2, 'max_entries given')
    kw = dict(nursery=Nursery())
    if given:
        kw['max_entries'] = me_
    fn = i.find_method(bc.BlockCache, 'create')
    k, v = i.run_function(Bound(fn, bc.BlockCache), [be, db, path, ms], kw)
    ctx.shared.reached.add(k)
    prove(ctx, 'C10', 'create.no-error', k == 'return')
    if k != 'return':
        return
    f = v.f
    prove(ctx, 'C07', 'create.hand-over', isinstance(f['_upload_send'], ChEnd) and f['_upload_send'].ch.size == 0,
          'blocks wait in a buffer between being marked as in transit and being taken over by a worker')
    prove(ctx, 'C07', 'create.channels', f['_upload_send'].ch is not f['_remove_send'].ch and f['_upload_send'].kind == f['_remove_send'].kind == 'send')
    prove(ctx, 'C07', 'create.removal-worker', len(started) >= 1, 'there is no worker for removals')
    prove(ctx, 'C10', 'create.upload-worker', count.n >= 1, 'there is no worker for uploads')
    prove(ctx, 'C10', 'create.limits', f['cache'].a['max_size'] is ms and (not given or f['cache'].a['max_entries'] is me_), 'other limits than configured')
    prove(ctx, 'C10', 'create.load', bool(loaded) == bool(exists), 'blocks left in the cache directory are not loaded')
    prove(ctx, 'C07', 'create.state', f['db'] is db and f['backend'] is be and f['path'] is path and f['in_flight_uploads'] == {}
          and f['_in_transit_count'] == 0)


def u_destroy(ctx, want):
    """destroy: everything is written out (and only then forgotten) before the workers are told to stop"""
    i = Interp(ctx)
    i.auto_invariants = False
    keep = ctx.choose(2, 'keep_cache')
    log = []
    g = Ghost(closed=z3.IntVal(0), out=z3.BoolVal(False))
    ctx.roots['ghost'] = g
    n, m = ctx.int('entries', lo=0).t, ctx.int('m', lo=0).t

    def done(name):
        def c(it, a, k):
            def run():
                if ctx.choose(2, name + ' fails'):
                    it.raise_(ConnectionError)
                log.append(name)
                if name == 'drop':
                    g.out = z3.BoolVal(True)
            return SCoro(run, name)
        i.contracts[Q + 'BlockCache.' + name] = c
    done('flush'), done('drop')

    class El(Model):
        def __init__(self, k):
            self.k = k
            self.dirty = False

        def m_state(self):
            return {}

        def close(self):
            prove(ctx, 'C10', 'destroy.flush-first', 'flush' in log, 'a block is closed before it has been written out')
            g.closed = z3.simplify(g.closed + z3.If(self.k == m, 1, 0))

        def unlink(self):
            prove(ctx, 'C10', 'destroy.keep', False, 'the cache is to be kept')

    class Values(Model):
        m_type = list

        def m_state(self):
            return {}

        def m_iter(self, ii):
            return SIter(n if 'drop' not in log else z3.IntVal(0), lambda k: El(k.t))

    class C(Model):
        def m_state(self):
            return {}

        def values(self):
            return Values()
        mutable_values = values

        def m_len(self):
            return SInt(n if 'drop' not in log else z3.IntVal(0))

    class Send(Model):
        def __init__(self, name):
            self.name = name

        def m_state(self):
            return {}

        def aclose(self):
            def run():
                prove(ctx, 'C10', 'destroy.workers', ('flush' if keep else 'drop') in log, 'the workers are stopped before everything has been written out')
                log.append(self.name)
            return SCoro(run, 'aclose')
    def rmdir(ii, p):
        prove(ctx, 'C10', 'destroy.keep', not keep, 'the cache is to be kept')
        log.append('rmdir')
    i.bi[os.rmdir] = rmdir
    i.loop_hints['destroy'] = lambda ii, fr, pre: [('closed', lambda e: g.closed == z3.If(m < e.m('$k'), z3.IntVal(1), z3.IntVal(0)))]
    me = SObj(bc.BlockCache, dict(path=ctx.val('cachedir', str), cache=C(), _upload_send=Send('up'), _remove_send=Send('rm'), _in_transit_count=0))
    k, v = i.run_function(Bound(i.find_method(bc.BlockCache, 'destroy'), me), [] if not keep and ctx.choose(2, 'default') else [bool(keep)])
    ctx.shared.reached.add(k)
    if k == 'return':
        prove(ctx, 'C10', 'destroy.written-out', ('flush' in log or 'drop' in log) if keep else 'drop' in log, 'returns without writing out modified blocks')
        prove(ctx, 'C07', 'destroy.closed', log.count('up') == 1 and log.count('rm') == 1, 'the workers are not told to stop')
    else:
        prove(ctx, 'C10', 'destroy.error', v.cls is ConnectionError and not log, 'unexpected error')


UNITS = [
    ('cacheentry.write', u_write, ['return', 'OSError']),
    ('cacheentry.read', u_read, ['return', 'OSError']),
    ('cacheentry.seek', u_seek, ['return', 'OSError']),
    ('cacheentry.tell', u_tell, ['return']),
    ('cacheentry.truncate', u_truncate, ['return', 'OSError']),
    ('cacheentry.init', u_init, ['return', 'OSError']),
    ('blockcache._removal_task', u_removal, ['return', 'ConnectionError', 'Cancelled']),
    ('blockcache._upload_task', u_upload_task, ['return', 'ConnectionError', 'Cancelled']),
    ('blockcache.load_cache', u_load, ['return']),
    ('blockcache.create', u_create, ['return']),
    ('blockcache.destroy', u_destroy, ['return', 'raise']),
]
