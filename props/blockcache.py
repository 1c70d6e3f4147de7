"""C07, C10: the block cache.

Rely/guarantee over the sections between two suspension points of a task.  The state is a set of unbounded functions
(database rows, cache map, cache entries, locks, uploads under way, stored objects).  At every suspension point the shared
invariant is proved for arbitrary block, object and entry; then everything is forgotten except what the other tasks
guarantee (rely): they change what belongs to a block only while they hold its lock, and so on.  Every one of these
guarantees is an obligation of the code under contract as well: it is proved at the write in question."""
from __future__ import annotations
import builtins, os, sys, time, logging, re
import z3, trio
from pyvc.values import *
from pyvc.core import *
from pyvc.interp import Interp, BUILTINS, SIter
from pyvc.sqlm import SDb, DbState, Table, _Hold, UNIQUE2
from pyvc.heapm import *
import s3ql.block_cache as bc
from s3ql.backends.common import NoSuchObject
from s3ql.database import NoSuchRowError

I, B = z3.IntSort(), z3.BoolSort()
NULLV = z3.Const('NULLV', V)
EMPTY = z3.Const('empty_content', V)
T, F_ = z3.BoolVal(True), z3.BoolVal(False)
Q = 's3ql.block_cache.'

FUN = dict(my=(1, I), oth=(1, I), cd=(2, B), cv=(2, I), al=(1, B), size=(1, I), dig=(1, V), pos=(1, I), dirty=(1, B), tr=(1, B),
           lk=(2, B), infl=(1, B), upel=(1, I), st=(1, B), sd=(1, V), rq=(1, B), used=(1, B), ok=(1, B), reg=(1, B))
SCAL = ('clen', 'csize', 'tot', 'opend', 'ntr', 'itc')
TAB = dict(oe=('objects', None), oh=('objects', 'hash'), orc=('objects', 'refcount'), oph=('objects', 'phys_size'),
           olen=('objects', 'length'), be=('inode_blocks', None), bo=('inode_blocks', 'obj_id'))


def And(*a):
    a = [x if z3.is_expr(x) else z3.BoolVal(bool(x)) for x in a]
    return z3.And(*a) if a else T


def Or(*a):
    return z3.Or(*a) if a else F_


Imp, Not = z3.Implies, z3.Not


class S:
    """a state: one closure per function"""


class BDb(SDb):
    def m_state(self):
        return {}

    def ghost_row(self, tname, key, colvals, sign, guard):
        w = self._w
        SDb.ghost_row(self, tname, key, colvals, sign, guard)
        if tname == 'inode_blocks':
            w.need_lock('block-row', key[0], key[1], 'the mapping of a block is changed without its lock', guard)
            o = colvals['obj_id']
            w.touch('o', o)
            if sign < 0:
                w.add_my(o, z3.If(guard, z3.IntVal(1), z3.IntVal(0)))

    def do_update(self, st, params):
        w = self._w
        if st['table'] != 'objects':
            return SDb.do_update(self, st, params)
        t = self._st.t['objects']
        key, M = self.pin_where(t, st['where'], params)
        if key is None:
            raise Unsupported('update of many objects')
        o = key[0]
        w.touch('o', o)
        old = {c: f(o) for c, f in t.col.items()}
        r = SDb.do_update(self, st, params)
        if r == 1:
            w.object_changed(o, old, {c: f(o) for c, f in self._st.t['objects'].col.items()}, [c for c, e in st['sets']])
        return r

    def do_delete(self, st, params):
        w = self._w
        if st['table'] != 'objects':
            return SDb.do_delete(self, st, params)
        t = self._st.t['objects']
        key, M = self.pin_where(t, st['where'], params)
        if key is None:
            raise Unsupported('deletion of many objects')
        w.touch('o', key[0])
        r = SDb.do_delete(self, st, params)
        if r == 1:
            w.add_my(key[0], z3.IntVal(-1))
            w.deleted.append((key[0], t.col['phys_size'](key[0])))
        return r


class EHeap(Heap):
    """cache entries; inode and block number never change"""

    def __init__(self, w):
        self._w = w
        self._i, self._cls, self._label = w.i, bc.CacheEntry, 'entry'
        self._kinds = dict(inode='int', blockno='int', size='int', pos='int', dirty='bool', in_transit='bool')

    def m_state(self):
        return {}

    def fld(self, k, r):
        w = self._w
        if k in ('inode', 'blockno'):
            return (w.kin if k == 'inode' else w.kbn)(r)
        return w.F['tr' if k == 'in_transit' else k](r)

    def store(self, k, r, t):
        w = self._w
        w.touch('r', r)
        if k in ('inode', 'blockno'):
            w.ctx.fail('C10.entry-key-fixed', 'block of a cache entry changes')
            raise PathEnd()
        w.set_entry('tr' if k == 'in_transit' else k, r, t)


class Cache(Model):
    """CacheDict: contract of LinkedDict proved as C11"""
    m_type = bc.CacheDict

    def __init__(self, w):
        self._w = w

    def m_state(self):
        return {}

    def key(self, k):
        w = self._w
        if not isinstance(k, tuple) or len(k) != 2:
            raise Unsupported('cache key')
        a, b = (w.i.as_int(x) for x in k)
        w.touch('k', a, b)
        return a, b

    def m_getattr(self, i, n):
        w = self._w
        if n in ('max_size', 'max_entries'):
            return w.limits[n]
        if n == 'size':
            return SInt(w.sc['csize'])
        if n in ('remove', 'is_full'):
            w.ctx.shared.functions.add(Q + 'CacheDict.' + n)
            return Bound(i.find_method(bc.CacheDict, n), self)
        return NotImplemented

    def m_setattr(self, i, n, v):
        w = self._w
        if n == 'size':
            w.sc['csize'] = z3.simplify(i.as_int(v))
            return None
        if n in ('max_size', 'max_entries'):
            w.limits[n] = v
            return None
        return NotImplemented

    def m_len(self):
        return SInt(self._w.sc['clen'])

    def ref(self, a, b):
        w = self._w
        r = w.F['cv'](a, b)
        w.touch('r', r)
        return HRef(w.heap, r)

    def has(self, k):
        a, b = self.key(k)
        return self._w.ctx.branch(self._w.F['cd'](a, b), 'cached'), a, b

    def get(self, k, default=None):
        h, a, b = self.has(k)
        return self.ref(a, b) if h else default

    def m_getitem(self, i, k):
        h, a, b = self.has(k)
        if not h:
            i.raise_(KeyError, k)
        return self.ref(a, b)

    def m_contains(self, i, k):
        a, b = self.key(k)
        return i.mkbool(self._w.F['cd'](a, b))

    def move_to_tail(self, k):
        h, a, b = self.has(k)
        if not h:
            self._w.i.raise_(KeyError, k)
    move_to_head = move_to_tail

    def m_setitem(self, i, k, v):
        w = self._w
        a, b = self.key(k)
        if not (isinstance(v, HRef) and v.heap is w.heap):
            raise Unsupported('cache value')
        w.need_lock('cache-insert', a, b, 'a block is put into the cache without its lock')
        w.ob('C10', 'insert-new', And(Not(w.F['cd'](a, b)), Or(*[v.t == x for x in w.newrefs])),
             'a cached block is replaced: its data would be lost')
        w.ob('C10', 'insert-key', And(w.kin(v.t) == a, w.kbn(v.t) == b), 'a block is cached under the key of another one')
        w.upd('cd', (a, b), T)
        w.upd('cv', (a, b), v.t)
        w.sc['clen'] = w.sc['clen'] + 1
        w.sc['tot'] = w.sc['tot'] + w.F['size'](v.t)

    def pop(self, k, *d):
        w = self._w
        h, a, b = self.has(k)
        if not h:
            if d:
                return d[0]
            w.i.raise_(KeyError, k)
        e = self.ref(a, b)
        w.need_lock('cache-remove', a, b, 'a block is taken out of the cache without its lock')
        w.on_drop(e.t, a, b)
        w.upd('cd', (a, b), F_)
        w.sc['clen'] = w.sc['clen'] - 1
        w.sc['tot'] = w.sc['tot'] - w.F['size'](e.t)
        return e

    def m_delitem(self, i, k):
        self.pop(k)

    def mutable_values(self):
        return Values(self._w, True)

    def values(self):
        return Values(self._w, False)


class Values(Model):
    """Contract of LinkedDict.mutable_values (C11): every element is some entry that was cached when it was handed out;
    an entry that stays cached from before the iteration until after it is visited.  `values` may not be used while the
    cache can change; nothing is known about its order either."""

    def __init__(self, w, mutable):
        self.w, self.mutable = w, mutable

    def m_state(self):
        return {}

    def m_iter(self, i):
        w = self.w
        n = w.ctx.int('visited', lo=0).t
        idx = z3.Function(fresh_name('visit'), I, I)
        ref = z3.Function(fresh_name('visited'), I, I)
        w.visit = (n, idx, ref, w.snap(), self.mutable)
        if w.skr is not None:
            w.ctx.assume(Imp(And(idx(w.skr) >= 0, idx(w.skr) < n), ref(idx(w.skr)) == w.skr))
        if not self.mutable:
            w.iter_frozen = w.version

        def elem(k):
            if not self.mutable and w.version != w.iter_frozen:
                i.raise_(RuntimeError, 'dictionary changed size during iteration')
            r = ref(k.t)
            w.touch('r', r)
            w.ctx.assume(And(w.F['al'](r), w.cached(w.F, r), idx(r) == k.t))
            w.touch('k', w.kin(r), w.kbn(r))
            return HRef(w.heap, r)
        it = SIter(n, elem)
        it.kind = 'entries'
        w.visit_it = it
        return it


class Lock(Model):
    """MultiLock: contract proved as C22"""

    def __init__(self, w):
        self._w = w

    def m_state(self):
        return {}

    def key(self, k):
        return self._w.cache.key(k)

    def take(self, a, b):
        w = self._w
        w.ctx.assume(Not(w.F['lk'](a, b)))
        w.reassume()
        w.upd('lk', (a, b), T)
        w.mine.append((a, b))
        w.acquired(a, b)

    def acquire(self, k):
        w = self._w

        def run():
            a, b = self.key(k)
            w.ob('C10', 'no-self-deadlock', Not(w.is_mine(a, b)), 'waits for a lock that it holds itself')
            w.suspend('lock', cancel=True)
            self.take(a, b)
        return SCoro(run, 'acquire')

    def acquire_nowait(self, k):
        w = self._w
        a, b = self.key(k)
        if w.ctx.choose(2, 'lock busy'):
            return False
        self.take(a, b)
        return True

    def release(self, k, noerror=False):
        w = self._w

        def run():
            a, b = self.key(k)
            w.suspend('unlock')
            m = w.is_mine(a, b)
            nothing = Not(w.F['lk'](a, b)) if noerror else F_
            w.ob('C10', 'release-own', Or(m, nothing), 'releases a lock that it does not hold (any more)')
            w.released(a, b)
            w.upd('lk', (a, b), F_)
            w.mine[:] = [x for x in w.mine if not w.ctx.holds(And(x[0] == a, x[1] == b))]
        return SCoro(run, 'release')

    def m_call(self, i, args, kw):
        return LockCM(self, args[0])


class LockCM(Model):
    def __init__(self, lock, key):
        self.lock, self.key = lock, key

    def m_enter(self, i):
        i.await_(self.lock.acquire(self.key))
        return None

    def m_exit(self, i, exc):
        i.await_(self.lock.release(self.key))
        return False


class Ev(Model):
    m_type = trio.Event

    def __init__(self, w, o=None):
        self._w, self.o, self.done = w, o, False

    def m_state(self):
        return {}

    def set(self):
        self.done = True

    def wait(self):
        w = self._w

        def run():
            w.suspend('event', cancel=True)
            if self.o is not None:
                w.ctx.assume(Not(w.F['infl'](self.o)))
                w.reassume()
        return SCoro(run, 'wait')


class Infl(Model):
    m_type = dict

    def __init__(self, w):
        self._w = w

    def m_state(self):
        return {}

    def key(self, k):
        o = self._w.i.as_int(k)
        if o is None:
            raise Unsupported('object id')
        self._w.touch('o', o)
        return o

    def get(self, k, default=None):
        w = self._w
        o = self.key(k)
        return Ev(w, o) if w.ctx.branch(w.F['infl'](o), 'in flight') else default

    def m_contains(self, i, k):
        return i.mkbool(self._w.F['infl'](self.key(k)))

    def m_getitem(self, i, k):
        r = self.get(k)
        if r is None:
            i.raise_(KeyError, k)
        return r

    def m_setitem(self, i, k, v):
        w = self._w
        o = self.key(k)
        if not isinstance(v, Ev):
            raise Unsupported('upload event')
        w.ob('C07', 'register-new-object', Or(*[o == x for x in w.newobjs]), 'an object that is not new is uploaded (again)')
        if w.cur_el is None:
            raise Unsupported('upload outside upload_if_dirty')
        v.o = o
        w.upd('infl', (o,), T)
        w.upd('upel', (o,), w.cur_el)
        w.myups.append(o)

    def pop(self, k, *d):
        w = self._w
        o = self.key(k)
        if not w.ctx.branch(w.F['infl'](o), 'in flight'):
            if d:
                return d[0]
            w.i.raise_(KeyError, k)
        w.upload_owner(o, 'upload-finished-by-owner', 'the upload of somebody else is declared finished')
        w.at_pop(o)
        w.upd('infl', (o,), F_)
        w.myups[:] = [x for x in w.myups if not w.ctx.holds(x == o)]
        e = Ev(w, o)
        w.popped.append(e)
        return e

    def m_delitem(self, i, k):
        self.pop(k)


class CPath(Model):
    m_type = str

    def __init__(self, w, term, suffix='', dir_=True):
        self.w, self.term, self.suffix, self.dir = w, term, suffix, dir_

    def m_state(self):
        return {}

    def m_binop(self, i, op, o, swapped):
        if op == 'Add' and not swapped and isinstance(o, str):
            return CPath(self.w, self.term, self.suffix + o)
        return NotImplemented

    def m_fmt(self, i, f, args):
        if f.startswith('%s') and '%' not in f[2:] and len(args) == 1:
            return CPath(self.w, self.term, self.suffix + f[2:])
        return NotImplemented

    def m_eq(self, i, o):
        return isinstance(o, CPath) and o.suffix == self.suffix and o.term.eq(self.term)


class TmpFile(Model):
    """a file being written: what readinto_fh stores, whether it is complete, flushed and on disk"""

    def __init__(self, w, path, mode):
        self._w, self.path, self.mode = w, path, mode
        self.data, self.complete, self.flushed, self.synced, self.closed = None, False, True, False, False
        self.name = path
        self.exists = True

    def m_state(self):
        return {}

    def m_enter(self, i):
        return self

    def m_exit(self, i, exc):
        self.close()
        return False

    def close(self):
        self.flushed = self.closed = True

    def flush(self):
        if self._w.ctx.choose(2, 'flush ok'):
            self._w.i.raise_(OSError, 28, 'flush')
        self.flushed = True

    def fileno(self):
        return ('fd', self)


class LogM(NullModel):
    """logging may be switched on"""

    def __init__(self, w):
        NullModel.__init__(self)
        self._w = w

    def isEnabledFor(self, lvl):
        return bool(self._w.ctx.choose(2, 'debug log'))


class W:
    def __init__(self, ctx, want, quiet=False):
        self.ctx, self.want = ctx, want
        self.i = i = Interp(ctx)
        i.auto_invariants = False
        self.quiet = quiet
        self.version = 0
        self.kin = lambda r, f=z3.Function('entry_inode', I, I): f(r)
        self.kbn = lambda r, f=z3.Function('entry_blockno', I, I): f(r)
        self.dbst = DbState(ctx)
        self.db = BDb(i, self.dbst, NoSuchRowError)
        self.db._w = self
        self.db._row_hook = lambda t, k: self.touch('o', k[0]) if t == 'objects' else self.touch('k', *k) if t == 'inode_blocks' else None
        self.db._auto_hook = self.new_object
        self.heap = EHeap(self)
        self.cache, self.lock, self.infl = Cache(self), Lock(self), Infl(self)
        self.limits = dict(max_size=ctx.int('max_size', lo=0), max_entries=ctx.int('max_entries', lo=0))
        self.mine, self.newrefs, self.newobjs, self.deleted, self.popped, self.tmps = [], [], [], [], [], []
        self.myups, self.mine0, self.ups0 = [], [], []
        self.objs, self.keys, self.refs = [], [], []
        self.cur_el = self.skr = None
        self.visit = self.visit_it = None
        self.watch = []            # called with a state when a section ends
        self.mypend = z3.IntVal(0)
        self.removed_rq = []
        self.failsafe = 0
        self.iv = 0
        self.drop_mode = 'clean'
        self.obj = SObj(bc.BlockCache, dict(
            path=CPath(self, z3.Const('cachedir', V)), db=self.db, backend=Backend(self), cache=self.cache, block_lock=self.lock,
            in_flight_uploads=self.infl, _in_transit_count=0, transfer_completed=Cond(self),
            _upload_send=UpSend(self), _remove_send=RmSend(self), fs=Fs(self)))
        self.F, self.sc = {}, {}
        self.fresh_state()
        self.s0 = self.snap()
        ctx.roots['bc'] = self.root = Root(self)
        self.assume_all(None)
        self.support()

    # ------------------------------------------------------------------ state
    def fresh_state(self):
        c = self.ctx
        for n, (k, s) in FUN.items():
            f = c.func('s_' + n, *([I] * k + [s]))
            self.F[n] = (lambda f: lambda *a: f(*a))(f)
        for n in SCAL:
            self.sc[n] = c.int('s_' + n).t
        for t in ('objects', 'inode_blocks'):
            SDb.m_havoc(self.db, None, t)
        SDb.m_havoc(self.db, None, 'g_cob')
        SDb.m_havoc(self.db, None, 'g_cib')
        SDb.m_havoc(self.db, None, 'idof')
        self.obj.f['_in_transit_count'] = SInt(self.sc['itc'])
        self.version += 1

    def snap(self):
        s = S()
        s.__dict__.update(self.F)
        s.__dict__.update(self.sc)
        s.itc = self.i.as_int(self.obj.f['_in_transit_count'])
        for n, (t, c) in TAB.items():
            tb = self.dbst.t[t]
            setattr(s, n, tb.ex if c is None else tb.col[c])
        s.cob = self.dbst.g['cob']
        s.idh = self.dbst.idof['objects']
        return s

    def upd(self, n, key, v):
        f = self.F[n]
        self.F[n] = lambda *a: z3.If(And(*[x == y for x, y in zip(a, key)]), v, f(*a))
        self.version += 1

    def add_my(self, o, d):
        f = self.F['my']
        self.F['my'] = lambda x: f(x) + z3.If(x == o, d, z3.IntVal(0))
        self.version += 1

    def ob(self, prop, name, g, info=None):
        self.ctx.prove('%s.%s' % (prop, name), g, info=info)

    # ------------------------------------------------------------------ invariant
    def cached(self, s, r):
        d, v = (s['cd'], s['cv']) if isinstance(s, dict) else (s.cd, s.cv)
        return And(d(self.kin(r), self.kbn(r)), v(self.kin(r), self.kbn(r)) == r)

    def inv_obj(self, s, o):
        E = s.upel(o)
        a, b = self.kin(E), self.kbn(E)
        return [
            ('counts', 'C07', 'the reference count of an object differs from the number of blocks that point at it',
             And(s.my(o) >= 0, s.oth(o) >= 0, s.cob(o) >= 0,
                 Imp(s.oe(o), And(s.orc(o) == s.cob(o) + s.my(o) + s.oth(o), s.orc(o) >= 1, s.used(o), o >= 1)),
                 Imp(Not(s.oe(o)), And(s.cob(o) == 0, s.my(o) == 0, s.oth(o) == 0, Not(s.infl(o)))))),
            ('hashed-is-stored', 'C07', 'an object that later blocks can be shared with is not stored with that content',
             And(Imp(And(s.oe(o), s.oh(o) != NULLV, Not(s.infl(o))), And(s.st(o), s.sd(o) == s.oh(o), s.oph(o) != -1)),
                 Imp(s.oe(o), s.oph(o) >= -1), Imp(s.st(o), s.used(o)))),
            ('in-flight', 'C07', 'what is being uploaded is not the content recorded for the object',
             Imp(s.infl(o), And(s.oe(o), s.al(E), E >= 1, s.cd(a, b), s.cv(a, b) == E, s.lk(a, b), s.tr(E), s.dirty(E), s.be(a, b),
                                s.bo(a, b) == o, s.oh(o) == s.dig(E), s.oh(o) != NULLV, s.olen(o) == s.size(E),
                                s.oph(o) == -1, Not(s.st(o))))),
            ('removed-stays-removed', 'C07', 'an object in use is removed from storage',
             Imp(s.rq(o), And(s.used(o), Not(s.oe(o))))),
            ('unique-hash', None, '', Imp(And(s.oe(o), s.oh(o) != NULLV), s.idh(s.oh(o)) == o)),
        ]

    def inv_key(self, s, a, b):
        r = s.cv(a, b)
        o = s.bo(a, b)
        return [
            ('cache-map', 'C10', 'the cache holds an entry under the wrong key',
             Imp(s.cd(a, b), And(r >= 1, s.al(r), self.kin(r) == a, self.kbn(r) == b, s.size(r) >= 0))),
            ('clean-is-recorded', 'C10', 'a cached block counts as unmodified although its content is not recorded in the database',
             Imp(And(s.cd(a, b), Not(s.dirty(r))), z3.If(s.be(a, b), Or(s.oh(o) == NULLV, s.oh(o) == s.dig(r)), s.dig(r) == EMPTY))),
            ('in-transit', 'C10', 'a block is marked as being uploaded although it is not',
             Imp(And(s.cd(a, b), s.tr(r)), And(s.dirty(r), s.lk(a, b), s.be(a, b), s.infl(o), s.upel(o) == r, s.oh(o) == s.dig(r)))),
            ('row-has-object', 'C07', 'a block refers to an object that does not exist',
             Imp(s.be(a, b), s.oe(o))),
        ]

    def inv_ref(self, s, r):
        out = [('entry', 'C10', 'an entry that is not cached is marked as being uploaded',
                And(Imp(s.al(r), r >= 1), s.dig(r) != NULLV, Imp(And(s.tr(r), s.al(r)), self.cached(s, r))))]
        if self.quiet:
            out.append(('quiet', 'C10', 'a block becomes modified during the flush',
                        Imp(s.ok(r), Not(And(self.cached(s, r), s.dirty(r))))))
        return out

    def inv_scal(self, s):
        return [('transit-count', 'C10', 'the number of blocks being uploaded is not what is recorded',
                 And(s.itc == s.ntr, s.ntr >= 0)), ('length', None, '', s.clen >= 0)]

    def inv(self, s, kind, t):
        return {'o': self.inv_obj, 'k': self.inv_key, 'r': self.inv_ref}[kind](s, *t)

    def counting(self, s, kind, t):
        """what holds by the meaning of the ghost counts (number of blocks of an object, of entries in transit, of locks held)"""
        if kind == 'k':
            return And(Imp(s.be(*t), s.cob(s.bo(*t)) >= 1), Imp(s.cd(*t), s.clen >= 1))
        if kind == 'r':
            return Imp(s.tr(*t), s.ntr >= 1)
        return s.cob(*t) >= 0

    def owners(self, o):
        """an upload whose block this task has locked is one that it has started (or taken over) itself"""
        E = self.s0.upel(o)
        return Imp(And(self.s0.infl(o), self.is_mine(self.kin(E), self.kbn(E), self.mine0)), Or(*[o == x for x in self.ups0]))

    # ------------------------------------------------------------------ rely
    def is_mine(self, a, b, mine=None):
        return Or(*[And(x == a, y == b) for x, y in (self.mine if mine is None else mine)])

    def rely(self, p, n, kind, t):
        M = self.is_mine
        if kind == 'k':
            a, b = t
            r = p.cv(a, b)
            return Imp(M(a, b), And(n.cd(a, b) == p.cd(a, b), n.cv(a, b) == p.cv(a, b), n.be(a, b) == p.be(a, b),
                                    n.bo(a, b) == p.bo(a, b), n.lk(a, b),
                                    Imp(p.cd(a, b), self.same_entry(p, n, r))))
        if kind == 'r':
            r, = t
            out = [Imp(p.al(r), n.al(r)),
                   Imp(And(p.al(r), Not(self.cached(p, r))), Not(self.cached(n, r))),
                   Imp(And(p.al(r), M(self.kin(r), self.kbn(r)), self.cached(p, r)), And(self.cached(n, r), self.same_entry(p, n, r))),
                   Imp(p.ok(r), n.ok(r)), Imp(p.reg(r), n.reg(r))]
            if self.quiet:
                out.append(Imp(And(self.cached(n, r), n.dirty(r)), And(self.cached(p, r), p.dirty(r))))
            return And(*out)
        o, = t
        E = p.upel(o)
        own = And(p.infl(o), M(self.kin(E), self.kbn(E)))
        return And(
            Imp(p.used(o), n.used(o)), Imp(And(p.used(o), Not(p.oe(o))), Not(n.oe(o))), n.my(o) == p.my(o),
            Imp(And(n.infl(o), p.used(o)), And(p.infl(o), n.upel(o) == E)),
            Imp(own, And(n.infl(o), n.upel(o) == E, n.oe(o), n.oh(o) == p.oh(o), n.oph(o) == p.oph(o), n.olen(o) == p.olen(o),
                         n.st(o) == p.st(o), n.sd(o) == p.sd(o), self.same_entry(p, n, E))),
            Imp(And(p.used(o), p.oe(o), n.oe(o)), And(n.olen(o) == p.olen(o), Or(n.oh(o) == p.oh(o), And(n.oh(o) == NULLV, p.infl(o))),
                                                      Imp(Not(p.infl(o)), n.oph(o) == p.oph(o)))),
            Imp(p.st(o), And(Imp(n.oe(o), n.st(o)), n.sd(o) == p.sd(o))),
            *[Imp(o == d, n.rq(o) == p.rq(o)) for d, ph in self.deleted])

    def same_entry(self, p, n, r):
        return And(n.size(r) == p.size(r), n.dirty(r) == p.dirty(r), n.tr(r) == p.tr(r), n.dig(r) == p.dig(r), n.pos(r) == p.pos(r))

    # ------------------------------------------------------------------ instances
    def touch(self, kind, *t):
        lst = {'o': self.objs, 'k': self.keys, 'r': self.refs}[kind]
        t = tuple(z3.simplify(x) for x in t)
        if any(all(x.eq(y) for x, y in zip(t, u)) for u in lst):
            return
        lst.append(t)
        for _, _, _, g in self.inv(self.s0, kind, t):
            self.ctx.assume(g)
        self.ctx.assume(self.counting(self.s0, kind, t))
        if kind == 'o':
            self.ctx.assume(self.owners(*t))

    def terms(self):
        return [('o', t) for t in self.objs] + [('k', t) for t in self.keys] + [('r', t) for t in self.refs]

    def assume_all(self, p):
        """the invariant holds in the current state, which others produced from p"""
        n = self.snap()
        c = self.ctx
        self.s0, self.mine0, self.ups0 = n, list(self.mine), list(self.myups)
        for _, _, _, g in self.inv_scal(n):
            c.assume(g)
        for kind, t in self.terms():
            c.assume(self.counting(n, kind, t))
            if kind == 'o':
                c.assume(self.owners(*t))
            for _, _, _, g in self.inv(n, kind, t):
                c.assume(g)
            if p is not None:
                c.assume(self.rely(p, n, kind, t))

    def reassume(self):
        pass

    def prove_inv(self, where):
        s = self.snap()
        if all(getattr(s, k) is getattr(self.s0, k) or
               (z3.is_expr(getattr(s, k)) and getattr(s, k).eq(getattr(self.s0, k))) for k in s.__dict__ if k not in ('ok', 'reg', 'tot', 'csize', 'opend')):
            return
        c = self.ctx
        o, a, b, r = (c.int('sk_' + x).t for x in 'oabr')
        self.touch('o', o)
        self.touch('k', a, b)
        self.touch('r', r)
        # the object of an arbitrary block, the block of an arbitrary upload, as they were and as they are
        for x in (self.s0.bo(a, b), s.bo(a, b)):
            self.touch('o', x)
        for x in (self.s0.cv(a, b), s.cv(a, b), self.s0.upel(o), s.upel(o)):
            self.touch('r', x)
            self.touch('k', self.kin(x), self.kbn(x))
        self.touch('k', self.kin(r), self.kbn(r))
        for kind, t in self.terms():
            c.assume(self.counting(s, kind, t))
        for kind, t in (('o', (o,)), ('k', (a, b)), ('r', (r,))):
            for name, prop, info, g in self.inv(s, kind, t):
                if prop is not None:
                    self.ob(prop, '%s.%s' % (where, name), g, info)
        for name, prop, info, g in self.inv_scal(s):
            if prop is not None:
                self.ob(prop, '%s.%s' % (where, name), g, info)
        # fewer terms from here on
        self.objs = [t for t in self.objs if not (t[0].eq(o) or t[0].eq(z3.simplify(s.bo(a, b))) or t[0].eq(z3.simplify(self.s0.bo(a, b))))]
        self.keys = [t for t in self.keys if not any(x.eq(z3.simplify(y)) for x in t for y in (a, b, self.kin(r), self.kbn(r)))]
        self.refs = [t for t in self.refs if not t[0].eq(r)]

    def section_end(self, where):
        for e in self.popped:
            self.ob('C07', 'waiters-woken', z3.BoolVal(e.done), 'tasks that wait for the end of an upload are never woken')
        self.popped = []
        self.prove_inv(where)
        for f in self.watch:
            f(self.snap())

    def suspend(self, where, cancel=False):
        self.i.yield_point(where)
        self.section_end(self.unit + '.' + where)
        p = self.snap()
        pend = z3.simplify(p.tot - p.csize - p.opend)
        my = self.F['my']
        self.fresh_state()
        self.F['my'] = my           # nobody else knows about it
        n = self.snap()
        self.ctx.assume(n.tot == n.csize + pend + n.opend)
        self.assume_all(p)
        for f in self.watch:
            f(self.snap())
        self.newobjs = []
        if cancel and self.ctx.choose(2, 'cancel ' + where):
            self.i.raise_(trio.Cancelled)

    # ------------------------------------------------------------------ guarantees at writes
    def need_lock(self, name, a, b, info, guard=T):
        self.ob('C10' if name.startswith('cache') else 'C07', name + '-locked', Imp(guard, self.is_mine(a, b)), info)

    def set_entry(self, k, r, t):
        self.ob('C10', 'entry-locked', Or(self.is_mine(self.kin(r), self.kbn(r)), *[r == x for x in self.newrefs]),
                'a cache entry is changed without the lock of its block')
        old = self.F[k](r)
        if k == 'tr':
            n = z3.If(t, z3.IntVal(1), z3.IntVal(0)) - z3.If(old, z3.IntVal(1), z3.IntVal(0))
            self.sc['ntr'] = z3.simplify(self.sc['ntr'] + n)
        if k == 'size':
            self.sc['tot'] = self.sc['tot'] + z3.If(self.cached(self.F, r), t - old, z3.IntVal(0))
        self.upd(k, (r,), t)

    def upload_owner(self, o, name, info):
        E = self.s0.upel(o)
        self.touch('r', E)
        self.touch('k', self.kin(E), self.kbn(E))
        self.ob('C07', name, Or(And(self.s0.infl(o), self.is_mine(self.kin(E), self.kbn(E))), *[o == x for x in self.newobjs]), info)

    def object_changed(self, o, old, new, cols):
        for c in cols:
            if c == 'refcount':
                d = new[c] - old[c]
                self.add_my(o, z3.If(d < 0, d, z3.IntVal(0)))
            elif c == 'hash':
                self.ob('C07', 'hash-only-cleared', new[c] == NULLV, 'the checksum of an object changes')
                self.upload_owner(o, 'hash-cleared-by-owner', 'the checksum of an object is cleared although its upload has not failed')
            elif c == 'phys_size':
                self.upload_owner(o, 'phys-size-by-owner', 'the stored size of an object changes that is not being uploaded')
            else:
                self.ob('C07', 'object-%s-fixed' % c, new[c] == old[c], '%s of an existing object changes' % c)

    def new_object(self, t, nid):
        if t != 'objects':
            return
        self.ctx.assume(Not(self.F['used'](nid)))
        self.touch('o', nid)
        self.upd('used', (nid,), T)
        self.newobjs.append(nid)

    def on_drop(self, r, a, b):
        if self.drop_mode == 'clean':
            self.ob('C10', 'drop-only-recorded', Not(self.F['dirty'](r)), 'a modified block is dropped from the cache')
        self.ob('C10', 'drop-not-in-transit', Not(self.F['tr'](r)), 'a block is dropped from the cache while it is being uploaded')

    def acquired(self, a, b):
        pass

    def released(self, a, b):
        pass

    def at_pop(self, o):
        pass

    def finish(self, k, v, mine=()):
        """end of the function: as a suspension point, nothing left over"""
        u = self.unit
        if k == 'raise':
            self.ctx.shared.reached.add(v.cls.__name__)
        else:
            self.ctx.shared.reached.add('return')
        self.section_end(u + '.end')
        s = self.snap()
        self.ob('C10', u + '.size-accounted', s.tot == s.csize + s.opend, 'the recorded size differs from the size of the cached blocks')
        o = self.ctx.int('sk_owed').t
        self.touch('o', o)
        self.ob('C07', u + '.references-released', s.my(o) == 0, 'a reference to an object is never released')
        self.ob('C10', u + '.locks-released', z3.BoolVal(not self.mine), 'a block stays locked')
        return s

    # ------------------------------------------------------------------ environment
    def support(self):
        i, ctx, w = self.i, self.ctx, self
        i.obj_over[('s3ql.block_cache', 'log')] = LogM(self)
        i.contracts[Q + 'CacheEntry'] = lambda it, a, k: self.open_entry(*a, **k)
        C = i.contracts

        def seek(it, a, k):
            e, off = a[0], it.as_int(a[1])
            wh = a[2] if len(a) > 2 else k.get('whence', 0)
            if wh != 0:
                raise Unsupported('seek')
            w.set_entry('pos', e.t, off)
            return SInt(off)
        C[Q + 'CacheEntry.seek'] = seek
        C[Q + 'CacheEntry.close'] = C[Q + 'CacheEntry.unlink'] = C[Q + 'CacheEntry.flush'] = lambda it, a, k: None
        C[Q + 'CacheEntry.__str__'] = lambda it, a, k: 'entry'
        b = i.bi
        b[trio.Event] = lambda ii: Ev(w)
        for fn in (trio.lowlevel.checkpoint, trio.sleep, trio.lowlevel.checkpoint_if_cancelled, trio.lowlevel.cancel_shielded_checkpoint):
            b[fn] = lambda ii, *a, fn=fn: SCoro(lambda: w.suspend("checkpoint", cancel="shielded" not in fn.__name__), "checkpoint")
        b[time.time] = lambda ii: ii.ctx.int('now')
        b[sys.exc_info] = lambda ii: (NullModel(), SObj(OSError, {'args': ()}), NullModel())
        b[os.path.join] = lambda ii, d, n: CPath(w, ii.as_v(n)) if isinstance(d, CPath) and not d.suffix else ii_unsupported('join')
        b[builtins.open] = lambda ii, name, mode='r', *a, **k: w.open_file(name, mode)
        b[os.rename] = b[os.replace] = lambda ii, x, y: w.rename(x, y)
        b[os.unlink] = b[os.remove] = lambda ii, x: w.unlink(x)
        b[os.fsync] = b[os.fdatasync] = lambda ii, fd: w.fsync(fd)

        def run_sync(ii, fn, *a, **k):
            def run():
                if fn is bc.sha256_fh or (isinstance(fn, IFunc) and fn.qualname == 'sha256_fh'):
                    el = a[0]
                    w.need_lock('cache-hash', w.kin(el.t), w.kbn(el.t), 'the checksum is computed without holding the lock of the block')
                    d = w.F['dig'](el.t)
                    w.suspend('hash', cancel=True)
                    if ctx.choose(2, 'hash fails'):
                        ii.raise_(OSError, 5, 'read')
                    w.upd('pos', (el.t,), ctx.int('hashpos', lo=0).t)
                    return Sha(d)
                w.suspend('thread', cancel=True)
                return ii.call(fn, list(a), {})
            return SCoro(run, 'run_sync')
        b[trio.to_thread.run_sync] = run_sync

    def open_entry(self, inode, blockno, filename, mode='w+b'):
        i, ctx = self.i, self.ctx
        a, b = i.as_int(inode), i.as_int(blockno)
        r = ctx.int('new_entry', lo=1).t
        ctx.assume(And(Not(self.F['al'](r)), self.kin(r) == a, self.kbn(r) == b))
        self.touch('r', r)
        if not isinstance(filename, CPath) or filename.suffix:
            raise Unsupported('cache file name')
        exp = i.fmt('%d-%d', (SInt(a), SInt(b))).t
        self.ob('C10', 'cache-file-name', filename.term == exp, 'the data of a block is kept under the name of another block')
        if mode == 'w+b':
            if ctx.choose(2, 'open ok'):
                i.raise_(OSError, 28, 'open')
            d, sz = EMPTY, z3.IntVal(0)
        elif mode == 'r+b':
            d = self.disk(filename)
            if d is None:
                self.ctx.fail('C10.cache-file-exists', 'cache file is opened that was not downloaded')
                raise PathEnd()
            sz = ctx.int('file_size', lo=0).t
        else:
            raise Unsupported('mode %r' % (mode,))
        self.newrefs.append(r)
        ctx.assume(d != NULLV)
        self.upd('al', (r,), T)
        for k, v in (('size', sz), ('dig', d), ('pos', z3.IntVal(0)), ('dirty', F_), ('tr', F_)):
            self.upd(k, (r,), v)
        ctx.assume(Not(self.s0.tr(r)))
        return HRef(self.heap, r)

    def disk(self, path):
        for p, d in reversed(self.files):
            if p.term.eq(path.term):
                return d
        return None
    files = ()

    def open_file(self, name, mode):
        if not isinstance(name, CPath) or mode != 'wb':
            raise Unsupported('open')
        self.ob('C10', 'download-into-scratch-file', z3.BoolVal(name.suffix != ''), 'a download overwrites the cache file itself')
        if self.ctx.choose(2, 'open ok'):
            self.i.raise_(OSError, 28, 'open')
        f = TmpFile(self, name, mode)
        self.tmps.append(f)
        return f

    def tmp(self, p):
        for f in self.tmps:
            if isinstance(p, CPath) and f.path.term.eq(p.term) and f.path.suffix == p.suffix and f.exists:
                return f
        return None

    def fsync(self, fd):
        if not (isinstance(fd, tuple) and fd[0] == 'fd'):
            raise Unsupported('fsync')
        if self.ctx.choose(2, 'fsync ok'):
            self.i.raise_(OSError, 5, 'fsync')
        fd[1].synced = fd[1].flushed

    def rename(self, x, y):
        f = self.tmp(x)
        if f is None or not isinstance(y, CPath) or y.suffix:
            raise Unsupported('rename')
        self.ob('C10', 'download-complete', z3.BoolVal(f.complete), 'an incomplete download becomes the cached block')
        self.ob('C10', 'download-on-disk', z3.BoolVal(f.flushed and f.synced), 'a download becomes the cached block before it is on disk')
        if self.ctx.choose(2, 'rename ok'):
            self.i.raise_(OSError, 5, 'rename')
        f.exists = False
        self.files = list(self.files) + [(y, f.data)]

    def unlink(self, x):
        f = self.tmp(x)
        if f is None:
            raise Unsupported('unlink')
        f.exists = False

    def name_of(self, key):
        """s3ql_data_<n> -> n"""
        t = key.t if isinstance(key, SVal) else None
        if t is None or t.decl().name() != "fmt_'s3ql_data_%d'_1":
            raise Unsupported('object name')
        x = t.arg(0)
        if x.decl().name() != 'int2v':
            raise Unsupported('object name')
        return x.arg(0)

    def call(self, name, *a, **kw):
        self.unit = name
        self.ctx.shared.functions.add(Q + 'BlockCache.' + name)
        fn = self.i.find_method(bc.BlockCache, name)
        return self.i.run_function(Bound(fn, self.obj), list(a), kw)


def ii_unsupported(x):
    raise Unsupported(x)


class Root(Model):
    """all of the state, for loops: at the head of a loop the invariant holds as it does at a suspension point"""

    def __init__(self, w):
        self._w = w

    def m_state(self):
        w = self._w
        s = w.snap()
        return {'all': _Hold(tuple(v if not z3.is_expr(v) else Term(v) for k, v in sorted(s.__dict__.items()) if k != 'itc'))}

    def m_havoc(self, i, k):
        self._w.fresh_state()


class Term:
    _c = {}

    def __new__(cls, t):
        k = t.get_id()
        if k not in cls._c:
            o = object.__new__(cls)
            o.t = t
            cls._c[k] = o
        return cls._c[k]


class Sha(Model):
    def __init__(self, d):
        self.d = d

    def m_state(self):
        return {}

    def digest(self):
        return SVal(self.d, bytes)


class Backend(Model):
    def __init__(self, w):
        self._w = w

    def m_state(self):
        return {}

    def write_fh(self, key, fh, len_=None, **kw):
        w = self._w

        def run():
            o = w.name_of(key)
            w.touch('o', o)
            if not isinstance(fh, HRef) or kw:
                raise Unsupported('write_fh')
            r = fh.t
            n = w.i.as_int(len_) if len_ is not None else w.F['size'](r)
            w.ob('C07', 'upload-right-object', And(w.F['infl'](o), w.F['upel'](o) == r), 'data is stored under the name of another object')
            w.ob('C07', 'upload-once', Not(w.F['st'](o)), 'a stored object is overwritten')
            w.ob('C07', 'upload-all', And(w.F['pos'](r) == 0, n == w.F['size'](r)), 'not all of the block is uploaded')
            w.need_lock('upload', w.kin(r), w.kbn(r), 'uploads without holding the lock of the block')
            w.suspend('upload')
            how = w.ctx.choose(3, 'upload')
            if how == 0:
                w.upd('st', (o,), T)
                w.upd('sd', (o,), w.F['dig'](r))
                w.uploaded = True
                w.upd('pos', (r,), w.F['size'](r))
                return w.ctx.int('phys', lo=0)
            w.uploaded = False
            b = w.ctx.bool('stored anyway').t
            w.upd('st', (o,), b)
            w.upd('pos', (r,), w.ctx.int('p', lo=0).t)
            w.i.raise_(trio.Cancelled if how == 1 else ConnectionError)
        return SCoro(run, 'write_fh')

    def readinto_fh(self, key, fh, size_hint=None, **kw):
        w = self._w

        def run():
            o = w.name_of(key)
            w.touch('o', o)
            if not isinstance(fh, TmpFile):
                raise Unsupported('readinto_fh')
            w.on_download(o, fh)
            fh.flushed = fh.synced = False
            w.suspend('download', cancel=True)
            if w.ctx.choose(2, 'download ok'):
                w.i.raise_(NoSuchObject if w.ctx.choose(2, 'missing') else ConnectionError)
            fh.data, fh.complete = w.F['sd'](o), True
        return SCoro(run, 'readinto_fh')

    def delete_multi(self, keys, **kw):
        return self._w.delete_multi(keys)


class UpSend(Model):
    """channel without buffer: once send() returns, a worker has taken over the entry and its lock"""

    def __init__(self, w):
        self._w = w

    def m_state(self):
        return {}

    def send(self, item):
        w = self._w

        def run():
            el, obj = item
            o = w.i.as_int(obj)
            w.touch('o', o)
            w.ob('C07', 'hand-over', And(w.F['infl'](o), w.F['upel'](o) == el.t, w.is_mine(w.kin(el.t), w.kbn(el.t))),
                 'a block is handed to an upload worker without being registered')
            w.suspend('hand-over', cancel=True)
            if w.ctx.choose(2, 'workers gone'):
                w.i.raise_(trio.BrokenResourceError)
            w.mine[:] = [x for x in w.mine if not w.ctx.holds(And(x[0] == w.kin(el.t), x[1] == w.kbn(el.t)))]
            w.handed = True
            w.myups[:] = [x for x in w.myups if not w.ctx.holds(x == o)]
            w.suspend('handed-over')
        return SCoro(run, 'send')

    def aclose(self):
        return SCoro(lambda: None, 'aclose')


class RmSend(Model):
    def __init__(self, w):
        self._w = w

    def m_state(self):
        return {}

    def send(self, obj):
        w = self._w

        def run():
            o = w.i.as_int(obj)
            w.touch('o', o)
            w.ob('C07', 'remove-own', Or(*[o == d for d, ph in w.deleted]), 'an object is removed from storage by somebody who did not '
                 'release its last reference')
            w.ob('C07', 'remove-unused', And(Not(w.F['oe'](o)), w.F['cob'](o) == 0 if 'cob' in w.F else w.snap().cob(o) == 0,
                                             Not(w.F['infl'](o))) if 'oe' in w.F else
                 And(Not(w.snap().oe(o)), w.snap().cob(o) == 0, Not(w.snap().infl(o))), 'an object in use is removed from storage')
            w.ob('C07', 'remove-once', Not(w.F['rq'](o)), 'an object is removed from storage twice')
            w.suspend('queue-removal', cancel=True)
            w.upd('rq', (o,), T)
            w.removed_rq.append(o)
        return SCoro(run, 'send')

    def aclose(self):
        return SCoro(lambda: None, 'aclose')


class Cond(Model):
    def __init__(self, w):
        self._w = w

    def m_state(self):
        return {}

    def m_enter(self, i):
        self._w.suspend('cond', cancel=True)
        return self

    def m_exit(self, i, exc):
        return False

    def notify_all(self):
        pass


class Fs(Model):
    def __init__(self, w):
        self._w = w

    def m_state(self):
        return {}

    def m_setattr(self, i, n, v):
        if n == 'failsafe' and v is True:
            self._w.failsafe += 1
            return None
        return NotImplemented


# ---------------------------------------------------------------------- contracts

def c_deref(w):
    """releases one reference that this task owes; raises only after it has done so"""
    def c(it, a, k):
        def run():
            o = it.as_int(a[1])
            w.touch('o', o)
            w.ob('C07', 'deref-owed', w.F['my'](o) >= 1, 'a reference is released that was not given up before')
            w.section_end(w.unit + '.deref')
            w.add_my(o, z3.IntVal(-1))
            f = w.F['oth']
            # from here on the release is in progress (counted as somebody else's)
            w.F['oth'] = lambda x: f(x) + z3.If(x == o, z3.IntVal(1), z3.IntVal(0))
            w.suspend('deref', cancel=True)
        return SCoro(run, '_deref_obj')
    w.i.contracts[Q + 'BlockCache._deref_obj'] = c


UP_ERRORS = (trio.Cancelled,)


def c_upload(w):
    """upload_if_dirty: nothing is promised about others; False: the entry was seen unmodified or gone"""
    def c(it, a, k):
        def run():
            el = a[1]
            w.touch('r', el.t)
            w.ob('C10', 'upload-entry', w.F['al'](el.t))
            w.ob('C10', 'calls-without-locks', z3.BoolVal(not w.mine), 'a lock is held while waiting for other blocks')
            w.suspend('upload_if_dirty')
            if w.ctx.choose(2, 'upload_if_dirty raises'):
                it.raise_(trio.Cancelled)
            w.upd('reg', (el.t,), T)
            b = w.ctx.bool('scheduled')
            if not w.ctx.branch(b.t, 'scheduled'):
                if w.quiet:
                    w.ctx.assume(Not(And(w.cached(w.F, el.t), w.F['dirty'](el.t))))
                w.upd('ok', (el.t,), T)
                return False
            return True
        return SCoro(run, 'upload_if_dirty')
    w.i.contracts[Q + 'BlockCache.upload_if_dirty'] = c


def c_simple(w, name, cancel=True, post=None):
    def c(it, a, k):
        def run():
            w.ob('C10', 'calls-without-locks', z3.BoolVal(not w.mine), 'a lock is held while waiting for other blocks')
            w.suspend(name)
            if cancel and w.ctx.choose(2, name + ' raises'):
                it.raise_(trio.Cancelled)
            if post:
                return post(a[1:], k)
        return SCoro(run, name)
    w.i.contracts[Q + 'BlockCache.' + name] = c


def loops(w, extra=lambda ii, fr, pre: []):
    """at the head of every loop the shared invariant holds; no locks are held, nothing is owed"""
    c = w.ctx
    sk = {}

    def hints(ii, fr, pre):
        ln = id(fr)
        if 'o' not in sk:
            for x in 'oabr':
                sk[x] = c.int('lp_' + x).t

        def all_(e):
            s = w.snap()
            for kind, t in (('o', (sk['o'],)), ('k', (sk['a'], sk['b'])), ('r', (sk['r'],))):
                w.touch(kind, *t)
            gs = [g for kind, t in (('o', (sk['o'],)), ('k', (sk['a'], sk['b'])), ('r', (sk['r'],)))
                  for _, _, _, g in w.inv(s, kind, t)] + [g for _, _, _, g in w.inv_scal(s)]
            return And(*gs)

        def acc(e):
            s = w.snap()
            return s.tot == s.csize + s.opend

        def nolocks(e):
            return z3.BoolVal(not w.mine and not w.popped and not w.myups)

        def owed(e):
            return w.snap().my(sk['o']) == 0
        return [('shared', all_), ('size', acc), ('nolocks', nolocks), ('owed', owed)] + list(extra(ii, fr, pre))
    w.i.loop_hints['BlockCache.'] = hints

    def hook(ii, fr, st):
        info = [v for k, v in c.shared.loops.items() if k[2] == st.lineno and k[1] == fr.f.qualname]
        if any('hint:shared' in v.dropped or 'hint:nolocks' in v.dropped for v in info):
            c.fail('C10.loop-invariant', 'the shared state is not consistent at the head of a loop')
            raise PathEnd()
        w.mine, w.newobjs, w.popped, w.deleted, w.myups = [], [], [], [], []
        if not any('hint:owed' in v.dropped for v in info):
            w.F['my'] = lambda o: z3.IntVal(0)
        w.assume_all(None)
        w.loop_start(ii, fr, st)
    w.i.loop_assume_hooks = [hook]
    w.loop_start = lambda ii, fr, st: None


# ---------------------------------------------------------------------- units

def entry_arg(w):
    r = w.ctx.int('el', lo=1).t
    w.touch('r', r)
    w.ctx.assume(w.F['al'](r))
    w.touch('k', w.kin(r), w.kbn(r))
    return HRef(w.heap, r)


def nothing_owed(w):
    """this task owes no references when it starts"""
    f = w.F['my']
    w.F['my'] = lambda o: z3.IntVal(0)
    for t in w.objs:
        w.ctx.assume(f(*t) == 0)
    w.s0 = w.snap()
    for kind, t in w.terms():
        for _, _, _, g in w.inv(w.s0, kind, t):
            w.ctx.assume(g)
    s = w.s0
    w.ctx.assume(s.tot == s.csize + s.opend)


def u_upload(ctx, want):
    w = W(ctx, want)
    nothing_owed(w)
    el = entry_arg(w)
    w.cur_el = el.t
    c_deref(w)
    seen = []
    w.watch = [lambda s: seen.append((And(s.al(el.t), Or(Not(w.cached(s, el.t)), Not(s.dirty(el.t)))), s.tr(el.t)))]
    w.watch[0](w.snap())
    w.handed = False
    k, v = w.call('upload_if_dirty', el)
    w.finish(k, v)
    if k == 'return':
        b = w.i.truth_term(v)
        b = b if z3.is_expr(b) else z3.BoolVal(b)
        ctx.shared.reached.add('True' if ctx.holds(b) else 'False')
        w.ob('C10', 'upload.false-means-recorded', Or(b, *[x for x, y in seen]),
             'reports that nothing has to be uploaded although the block is modified')
        w.ob('C10', 'upload.registered', Or(*[Or(x, y) for x, y in seen]), 'returns although the block is not recorded for upload')
        w.ob('C10', 'upload.true-means-scheduled', Or(Not(b), *[y for x, y in seen]), 'reports an upload that was not scheduled')


def u_do_upload(ctx, want):
    w = W(ctx, want)
    nothing_owed(w)
    o = ctx.int('obj', lo=1).t
    w.touch('o', o)
    ctx.assume(w.F['infl'](o))
    r = w.F['upel'](o)
    w.touch('r', r)
    w.touch('k', w.kin(r), w.kbn(r))
    w.mine.append((w.kin(r), w.kbn(r)))
    w.mine0, w.myups, w.ups0 = list(w.mine), [o], [o]
    w.uploaded = None
    state = {}

    def at_pop(oo):
        s = w.snap()
        w.ob('C07', 'upload-finished-itself', oo == o)
        if w.uploaded:
            w.ob('C10', 'upload.clean-after', Not(s.dirty(r)), 'the block still counts as modified after it has been uploaded')
            w.ob('C07', 'upload.keeps-hash', s.oh(o) == w.s0.oh(o), 'a stored object loses its checksum')
        else:
            w.ob('C10', 'upload.dirty-after-failure', s.dirty(r), 'a block whose upload failed counts as unmodified: it can be dropped')
            w.ob('C07', 'upload.hash-cleared', s.oh(o) == NULLV, 'an object whose upload failed can be shared with other blocks')
        state['popped'] = True
    w.at_pop = at_pop
    k, v = w.call('_do_upload', HRef(w.heap, r), SInt(o))
    w.finish(k, v)
    w.ob('C07', '_do_upload.completed', z3.BoolVal(state.get('popped', False)), 'the upload is never declared finished')
    if w.uploaded is False:
        w.ob('C07', '_do_upload.failure-reported', z3.BoolVal(k == 'raise'), 'a failed upload goes unnoticed')
    else:
        w.ob('C07', '_do_upload.success', z3.BoolVal(k == 'return' or v.cls is trio.Cancelled), 'raises after a successful upload')


def u_deref(ctx, want):
    w = W(ctx, want)
    o = ctx.int('obj', lo=1).t
    w.F['my'] = lambda x: z3.If(x == o, z3.IntVal(1), z3.IntVal(0))
    w.s0 = w.snap()
    ctx.assume(w.s0.tot == w.s0.csize + w.s0.opend)
    w.touch('o', o)
    k, v = w.call('_deref_obj', SInt(o))
    w.finish(k, v)
    if k == 'return':
        # an object that was stored and lost its last reference is queued for removal
        for d, ph in w.deleted:
            w.ob('C07', '_deref_obj.removed', Or(ph == -1, *[d == x for x in w.removed_rq]),
                 'a stored object without references is not removed from storage')
        if w.deleted:
            ctx.shared.reached.add('removed' if w.removed_rq else 'never stored')


class KSet(Model):
    """set(range(lo, hi)) of block numbers"""
    m_type = set

    def __init__(self, w, lo, hi):
        self._w, self.lo, self.hi = w, lo, hi
        self._has = lambda x: And(x >= lo, x < hi)
        w.ctx.roots['blocknos'] = self

    def m_state(self):
        return {'has': _Hold(self._has)}

    def m_havoc(self, i, k):
        f = z3.Function(fresh_name('bn_has'), I, B)
        self._has = lambda x: f(x)

    def has(self, x):
        return self._has(x)

    def m_contains(self, i, k):
        return i.mkbool(self._has(i.as_int(k)))

    def drop(self, t):
        f = self._has
        self._has = lambda x: And(x != t, f(x))

    def remove(self, k):
        t = self._w.i.as_int(k)
        if not self._w.ctx.branch(self._has(t), 'setmember'):
            self._w.i.raise_(KeyError, k)
        self.drop(t)

    def discard(self, k):
        self.drop(self._w.i.as_int(k))

    def m_iter(self, i):
        return KList(self).m_iter(i)


class KList(Model):
    """the block numbers of the set at this moment, each once"""
    m_type = list

    def __init__(self, ks):
        self.has = ks._has
        self.w = ks._w

    def m_state(self):
        return {}

    def m_iter(self, i):
        w = self.w
        has = self.has
        n = w.ctx.int('blocks', lo=0).t
        at, idx = z3.Function(fresh_name('block_at'), I, I), z3.Function(fresh_name('block_idx'), I, I)
        w.blocks = (n, at, idx, has)
        sk = w.skb
        w.ctx.assume(Imp(has(sk), And(idx(sk) >= 0, idx(sk) < n, at(idx(sk)) == sk)))

        def elem(k):
            x = at(k.t)
            w.ctx.assume(And(has(x), idx(x) == k.t))
            return SInt(x)
        it = SIter(n, elem)
        it.kind = 'blocks'
        return it


def u_remove(ctx, want):
    w = W(ctx, want)
    nothing_owed(w)
    w.drop_mode = 'remove'
    c_deref(w)
    inode, lo = ctx.int('inode'), ctx.int('start', lo=0)
    single = ctx.choose(2, 'one block')
    hi = ctx.int('end', lo=0)
    w.i.bi[range] = lambda ii, *a: ('range', a) if any(isinstance(x, SInt) for x in a) else range(*a)
    w.i.bi[set] = lambda ii, *a: KSet(w, ii.as_int(a[0][1][0]), ii.as_int(a[0][1][1])) if a and isinstance(a[0], tuple) and a[0][:1] == ('range',) \
        else BUILTINS[set](ii, *a)
    w.i.bi[list] = lambda ii, *a: KList(a[0]) if a and isinstance(a[0], KSet) else BUILTINS[list](ii, *a)
    w.skb = ctx.int('some_block').t
    done = z3.Function(fresh_name('done0'), I, B)
    w.done = Done(w)
    ctx.roots['done'] = w.done

    def released(a, b):
        # what is true at the moment the lock is given up
        s = w.snap()
        w.done.mark(And(a == inode.t, Not(s.cd(a, b)), Not(s.be(a, b))), b)
        w.ob('C10', 'remove.removed', And(Not(s.cd(a, b)), Not(s.be(a, b))), 'a removed block is still there when its lock is given up')
    w.released = released
    rng = lambda x: And(x >= lo.t, x < (hi.t if not single else lo.t + 1))

    def acquired(a, b):
        w.ob('C10', 'remove.only-asked', And(a == inode.t, rng(b)), 'a block is removed that was not asked for')
    w.acquired = acquired

    def extra(ii, fr, pre):
        x = w.skb

        def cover(e):
            ks = ctx.roots['blocknos']
            return And(Imp(ks.has(x), rng(x)), Imp(And(rng(x), Not(ks.has(x))), w.done.f(x)))

        def rest(e):
            # elements not visited yet are still to be done; those visited: done (second pass)
            n, at, idx, has = w.blocks
            ks = ctx.roots['blocknos']
            return And(Imp(ks.has(x), has(x)), Imp(And(has(x), idx(x) >= e.m('$k')), ks.has(x)))

        def second(e):
            n, at, idx, has = w.blocks
            ks = ctx.roots['blocknos']
            t = fr.locals.get('timeout')
            return Imp(And(has(x), idx(x) < e.m('$k')), Not(ks.has(x))) if t is None else T

        # the same for the element at hand
        def cur(e):
            n, at, idx, has = w.blocks
            ks = ctx.roots['blocknos']
            y = at(e.m('$k'))
            return Imp(e.m('$k') < n, And(has(y), rng(y), ks.has(y), idx(y) == e.m('$k')))
        return [('cover', cover), ('rest', rest), ('second', second)]
    loops(w, extra)

    def loop_start(ii, fr, st):
        n, at, idx, has = w.blocks
        it = ii.cur_iter
        y = at(it.k.t)
        ks = ctx.roots['blocknos']
        # the loop invariant holds for every block: here for the one that comes next
        ctx.assume(Imp(it.k.t < n, And(has(y), idx(y) == it.k.t)))
        info = [v for k, v in ctx.shared.loops.items() if k[2] == st.lineno and k[1] == fr.f.qualname]
        dropped = set().union(*[v.dropped for v in info])
        if 'hint:rest' not in dropped and 'hint:cover' not in dropped:
            ctx.assume(And(Imp(And(has(y), idx(y) >= it.k.t), ks.has(y)), Imp(ks.has(y), rng(y))))
    w.loop_start = loop_start
    args = [inode, lo] + ([] if single else [hi])
    k, v = w.call('remove', *args)
    w.finish(k, v)
    if k == 'return':
        w.ob('C10', 'remove.all', Imp(rng(w.skb), w.done.f(w.skb)), 'a block is left behind')
    else:
        w.ob('C10', 'remove.error', z3.BoolVal(v.cls is trio.Cancelled), 'raises %s' % v.cls.__name__)


class Done(Model):
    """blocks that were removed under their lock"""

    def __init__(self, w):
        self._w = w
        self.f = lambda x: F_

    def m_state(self):
        return {'f': _Hold(self.f)}

    def m_havoc(self, i, k):
        f = z3.Function(fresh_name('done'), I, B)
        self.f = lambda x: f(x)

    def mark(self, cond, b):
        f = self.f
        self.f = lambda x: Or(And(x == b, cond), f(x))


def block_args(w):
    a, b = w.ctx.int('inode'), w.ctx.int('blockno', lo=0)
    w.touch('k', a.t, b.t)
    w.touch('o', w.s0.bo(a.t, b.t))
    return a, b


def u_get_entry(ctx, want):
    w = W(ctx, want)
    nothing_owed(w)
    a, b = block_args(w)
    # the caller holds the lock, and nothing of this block is being uploaded
    ctx.assume(w.F['lk'](a.t, b.t))
    w.mine.append((a.t, b.t))
    w.mine0 = list(w.mine)
    for t in w.objs:
        ctx.assume(w.owners(*t))
    s = w.snap()
    w.files = []

    def on_download(o, fh):
        t = w.snap()
        w.ob('C10', 'download-right-object', And(t.be(a.t, b.t), t.bo(a.t, b.t) == o), 'the data of another block is downloaded')
        w.ob('C10', 'download-not-in-flight', Not(t.infl(o)), 'an object is downloaded while it is still being uploaded')
        w.ob('C10', 'download-file', z3.BoolVal(fh.path.suffix != ''), 'a download overwrites the cache file')
        w.dl = o
    w.on_download = on_download
    w.dl = None
    k, v = w.call('_get_entry', a, b)
    w.mine[:] = [] if w.ctx.holds(Or(*[And(x == a.t, y == b.t) for x, y in w.mine])) else ['lost']
    ctx.assume(z3.BoolVal(True))
    if k == 'return':
        t = w.snap()
        if not isinstance(v, HRef):
            ctx.fail('C10._get_entry.result', 'no cache entry')
            return
        w.ob('C10', '_get_entry.entry', And(t.cd(a.t, b.t), t.cv(a.t, b.t) == v.t), 'the entry is not the cached one: changes would be lost')
        for f in w.tmps:
            w.ob('C10', '_get_entry.scratch-gone', z3.BoolVal(not f.exists), 'a partial download is left behind')
        # a block that exists is never presented as empty
        w.ob('C10', '_get_entry.content', Imp(And(Not(t.dirty(v.t)), t.be(a.t, b.t), t.oh(t.bo(a.t, b.t)) != NULLV),
                                              t.dig(v.t) == t.oh(t.bo(a.t, b.t))), 'the block does not have its stored content')
        if w.dl is not None:
            ctx.shared.reached.add('downloaded')
            w.ob('C10', '_get_entry.null-hash-reported', Imp(s.oh(w.dl) == NULLV, z3.BoolVal(w.failsafe > 0)),
                 'a block without checksum is used without notice')
        elif w.newrefs:
            ctx.shared.reached.add('created')
        else:
            ctx.shared.reached.add('cached')
    else:
        for f in w.tmps:
            w.ob('C10', '_get_entry.scratch-gone', z3.BoolVal(not f.exists), 'a partial download is left behind')
    w.finish(k, v)


def c_get_entry(w):
    def c(it, a, k):
        def run():
            x, y = it.as_int(a[1]), it.as_int(a[2])
            w.need_lock('cache-get', x, y, 'a block is looked up without its lock')
            w.suspend('_get_entry')
            if w.ctx.choose(2, '_get_entry raises'):
                it.raise_(ConnectionError if w.ctx.choose(2, 'which') else trio.Cancelled)
            # afterwards it is cached under this key; it has been (re)loaded if it was not
            n = w.snap()
            r = w.ctx.int('got', lo=1).t
            w.touch('k', x, y)
            w.touch('r', r)
            # like a suspension in which the block, if it was not cached, appears
            if not w.ctx.holds(n.cd(x, y)):
                if w.ctx.branch(n.cd(x, y), 'was cached'):
                    w.ctx.assume(n.cv(x, y) == r)
                else:
                    w.ctx.assume(And(Not(n.al(r)), w.kin(r) == x, w.kbn(r) == y, Not(n.tr(r))))
                    o = n.bo(x, y)
                    w.touch('o', o)
                    sz = w.ctx.int('got_size', lo=0).t
                    d = w.ctx.val('got_digest').t
                    w.ctx.assume(And(d != NULLV, z3.If(n.be(x, y), Or(n.oh(o) == NULLV, n.oh(o) == d), d == EMPTY)))
                    for f, v in (('al', T), ('size', sz), ('dig', d), ('pos', w.ctx.int('got_pos', lo=0).t), ('dirty', F_), ('tr', F_)):
                        w.upd(f, (r,), v)
                    w.upd('cd', (x, y), T)
                    w.upd('cv', (x, y), r)
                    w.sc['clen'] = w.sc['clen'] + 1
                    w.sc['tot'] = w.sc['tot'] + sz
                    w.sc['csize'] = w.sc['csize'] + sz
            else:
                w.ctx.assume(n.cv(x, y) == r)
            return HRef(w.heap, r)
        return SCoro(run, '_get_entry')
    w.i.contracts[Q + 'BlockCache._get_entry'] = c


def u_get(ctx, want):
    """the caller may read, write and truncate while it has the entry, other tasks run in between"""
    w = W(ctx, want)
    nothing_owed(w)
    a, b = block_args(w)
    c_get_entry(w)
    c_simple(w, 'evict')
    loops(w)
    has_max = ctx.choose(2, 'max_write')
    mw = ctx.int('max_write', lo=0)
    kw = {'max_write': mw} if has_max else {}
    w.unit = 'get'
    ctx.shared.functions.add(Q + 'BlockCache.get')
    fn = w.i.find_method(bc.BlockCache, 'get')
    try:
        m = w.i.call(Bound(fn, w.obj), [a, b], kw)
        e = w.i.cm_enter(m, True)
    except PyRaise as x:
        w.finish('raise', x.value)
        w.ob('C10', 'get.enter-error', z3.BoolVal(x.value.cls in (trio.Cancelled, ConnectionError)), 'raises %s' % x.value.cls.__name__)
        return
    s = w.snap()
    if not isinstance(e, HRef):
        ctx.fail('C10.get.result', 'no cache entry')
        return
    w.ob('C10', 'get.locked', w.is_mine(a.t, b.t), 'the caller works on a block that is not locked')
    w.ob('C10', 'get.entry', And(s.cd(a.t, b.t), s.cv(a.t, b.t) == e.t), 'the caller gets an entry that is not the cached one: its changes would be lost')
    # the caller
    if ctx.choose(2, 'caller changes'):
        if has_max:
            if ctx.choose(2, 'writes'):
                end = ctx.int('end', lo=0).t
                ctx.assume(end <= mw.t)
                w.set_entry('size', e.t, z3.If(end > s.size(e.t), end, s.size(e.t)))
        else:
            w.set_entry('size', e.t, ctx.int('newsize', lo=0).t)
        d = ctx.val('newcontent').t
        ctx.assume(d != NULLV)
        w.set_entry('dirty', e.t, T)
        w.set_entry('dig', e.t, d)
        ctx.shared.reached.add('changed')
    w.suspend('caller')
    t = w.snap()
    w.ob('C10', 'get.entry-stays', And(t.cd(a.t, b.t), t.cv(a.t, b.t) == e.t), 'the entry leaves the cache while it is being used')
    how = ctx.choose(3, 'body')
    exc = [None, SObj(ZeroDivisionError, {'args': ()}), SObj(trio.Cancelled, {'args': ()})][how]
    sw = None
    k = 'return'
    val = None
    try:
        sw = w.i.cm_exit(m, exc, True)
    except PyRaise as x:
        k, val = 'raise', x.value
        w.ob('C10', 'get.exit-error', z3.BoolVal(exc is not None and val.cls is exc.cls), 'leaving the block raises %s' % val.cls.__name__)
    w.ob('C10', 'get.not-swallowed', z3.BoolVal(exc is None or not sw), 'an error of the caller is swallowed')
    w.finish(k, val)
    ctx.shared.reached.add('exit%d' % how)


def u_evict(ctx, want):
    w = W(ctx, want)
    nothing_owed(w)
    c_upload(w)
    c_simple(w, 'wait')
    loops(w)
    how = ctx.choose(3, 'max_entries')
    lim = ctx.int('lim', lo=0)
    args, kw = [([], {}), ([lim], {}), ([], {'max_entries': lim})][how]
    lim0 = dict(w.limits)
    k, v = w.call('evict', *args, **kw)
    s = w.finish(k, v)
    w.ob('C10', 'evict.limits-kept', z3.BoolVal(all(w.limits[x] is lim0[x] for x in lim0)), 'the limits of the cache change')
    if k == 'return':
        w.ob('C10', 'evict.size', s.csize <= lim0['max_size'].t, 'returns although the cache is larger than allowed')
        w.ob('C10', 'evict.entries', s.clen <= (lim.t if how else lim0['max_entries'].t), 'returns although there are more entries than allowed')
    else:
        w.ob('C10', 'evict.error', z3.BoolVal(v.cls is trio.Cancelled), 'raises %s' % v.cls.__name__)


def u_drop(ctx, want):
    w = W(ctx, want)
    nothing_owed(w)
    c_upload(w)
    c_simple(w, 'wait')
    c_simple(w, 'flush')

    def post(a, kw):
        m = a[0] if a else kw.get('max_entries')
        s = w.snap()
        ctx.assume(And(s.csize <= w.i.as_int(w.limits['max_size']),
                       s.clen <= (w.i.as_int(w.limits['max_entries']) if m is None else w.i.as_int(m))))
    c_simple(w, 'evict', post=post)
    loops(w)
    lim0 = dict(w.limits)
    k, v = w.call('drop')
    s = w.finish(k, v)
    w.ob('C10', 'drop.limits-kept', z3.BoolVal(all(w.limits[x] is lim0[x] for x in lim0)), 'the limits of the cache change')
    if k == 'return':
        w.ob('C10', 'drop.empty', s.clen <= 0, 'blocks are left in the cache')
    else:
        w.ob('C10', 'drop.error', z3.BoolVal(v.cls is trio.Cancelled), 'raises %s' % v.cls.__name__)


def flush_extra(w, skr, what):
    """for an arbitrary entry skr: once the iteration has come past it, upload_if_dirty has dealt with it"""
    def extra(ii, fr, pre):
        it = ii.cur_iter
        bools = [p for p, v in pre.items() if v[0] == 'l' and isinstance(v[3], (bool, SBool))]

        def flag(p):
            f = w.i.truth_term(pre[p][1].locals.get(pre[p][2], False))
            return f if z3.is_expr(f) else z3.BoolVal(f)
        if getattr(it, 'kind', None) != 'entries':
            def clean(p):
                s = w.snap()
                if w.visit is not None and w.visit_it.k is not None:
                    visit_complete(w, skr, w.visit_it.k.t >= w.visit_it.n)
                return Or(flag(p), Not(And(s.al(skr), w.cached(s, skr), s.dirty(skr))))
            return [('true:' + p, lambda e, p=p: flag(p)) for p in bools] + (
                [('clean:' + p, lambda e, p=p: clean(p)) for p in bools] if w.quiet else [])
        n, idx, ref, st0, mutable = w.visit

        def visited(e, f=F_):
            s = w.snap()
            return Imp(And(idx(skr) >= 0, idx(skr) < e.m('$k'), w.want_visit(skr)), Or(s.ok(skr), f) if what == 'ok' else s.reg(skr))

        def onlydirty(e):
            s = w.snap()
            return Imp(And(w.cached(s, skr), s.dirty(skr)), And(w.cached(st0, skr), st0.dirty(skr))) if w.quiet else T

        def goneforever(e):
            s = w.snap()
            return Imp(And(st0.al(skr), Not(w.cached(st0, skr))), Not(w.cached(s, skr)))
        return [('visited', visited), ('onlydirty', onlydirty), ('gone', goneforever)] + [
            ('visited:' + p, lambda e, p=p: visited(e, flag(p))) for p in bools]
    return extra


def visit_complete(w, skr, when=T):
    """contract of mutable_values at the end of the iteration: an entry that was there all the time has been visited"""
    n, idx, ref, st0, mutable = w.visit
    s = w.snap()
    w.ctx.assume(Imp(And(when, w.cached(st0, skr), w.cached(s, skr)), And(idx(skr) >= 0, idx(skr) < n)))


def u_flush(ctx, want):
    """nobody writes during the flush"""
    w = W(ctx, want, quiet=True)
    nothing_owed(w)
    c_upload(w)

    def hookwait(a, kw):
        pass
    c_simple(w, 'wait')
    skr = w.skr = ctx.int('sk_entry', lo=1).t
    w.touch('r', skr)
    w.touch('k', w.kin(skr), w.kbn(skr))
    w.want_visit = lambda r: T
    loops(w, flush_extra(w, skr, 'ok'))
    k, v = w.call('flush')
    if k == 'return':
        visit_complete(w, skr)
        s = w.snap()
        w.ob('C10', 'flush.complete', Not(And(s.al(skr), w.cached(s, skr), s.dirty(skr))), 'a modified block is left after a flush')
    else:
        w.ob('C10', 'flush.error', z3.BoolVal(v.cls in UP_ERRORS), 'raises %s' % v.cls.__name__)
    w.finish(k, v)


def u_start_flush(ctx, want):
    w = W(ctx, want)
    nothing_owed(w)
    c_upload(w)
    skr = w.skr = ctx.int('sk_entry', lo=1).t
    w.touch('r', skr)
    w.touch('k', w.kin(skr), w.kbn(skr))
    how = ctx.choose(2, 'inode given')
    ino = ctx.int('inode')
    w.want_visit = lambda r: w.kin(r) == ino.t if how else T
    loops(w, flush_extra(w, skr, 'reg'))
    s1 = w.snap()
    ctx.assume(Not(s1.reg(skr)))
    k, v = w.call('start_flush', *([ino] if how else []))
    if k == 'return':
        n, idx, ref, st0, mutable = w.visit
        visit_complete(w, skr)
        s = w.snap()
        w.ob('C10', 'start_flush.registered', Imp(And(s1.al(skr), w.cached(s1, skr), w.cached(st0, skr), w.cached(s, skr), w.want_visit(skr)), s.reg(skr)),
             'a modified block is not registered by start_flush')
    else:
        w.ob('C10', 'start_flush.error', z3.BoolVal(v.cls in UP_ERRORS), 'raises %s' % v.cls.__name__)
    w.finish(k, v)


UNITS = [
    ('blockcache.upload_if_dirty', u_upload, ['return', 'Cancelled', 'True', 'False', 'OSError', 'BrokenResourceError']),
    ('blockcache._do_upload', u_do_upload, ['return', 'Cancelled', 'ConnectionError']),
    ('blockcache._deref_obj', u_deref, ['return', 'Cancelled', 'removed']),
    ('blockcache.remove', u_remove, ['return', 'Cancelled']),
    ('blockcache._get_entry', u_get_entry, ['return', 'Cancelled', 'OSError', 'NoSuchObject', 'downloaded', 'created', 'cached']),
    ('blockcache.get', u_get, ['exit0', 'exit1', 'exit2', 'Cancelled', 'ConnectionError', 'changed']),
    ('blockcache.evict', u_evict, ['return', 'Cancelled']),
    ('blockcache.drop', u_drop, ['return', 'Cancelled']),
    ('blockcache.flush', u_flush, ['return', 'Cancelled']),
    ('blockcache.start_flush', u_start_flush, ['return', 'Cancelled']),
]
