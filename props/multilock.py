"""C22: MultiLock.  Rely/guarantee at the suspension points of a single task: other tasks may change the set
arbitrarily while this task is suspended; between two suspension points this task changes only its own key."""
from __future__ import annotations
import z3, trio
from pyvc.values import *
from pyvc.core import *
from pyvc.interp import Interp, BUILTINS, SGen, SCtxMgr
from pyvc.sqlm import _Hold
from pyvc.heapm import *
import s3ql.multi_lock as ml

KEY = 'valobject'


class Shield(Model):
    def __init__(self, w, shield=False, **kw):
        self._w, self._shield = w, shield

    def m_enter(self, i):
        self._w.shield += bool(self._shield)
        return self

    def m_exit(self, i, exc):
        self._w.shield -= bool(self._shield)
        return exc is not None and exc.cls is trio.Cancelled and not self._shield and False

    def m_setattr(self, i, n, v):
        if n == 'shield':
            self._w.shield += bool(v)
            return None
        return NotImplemented


class Cond(Model):
    m_type = trio.Condition

    def __init__(self, w):
        self._w = w
        self.held = False
        self.seg = w.set._has
        self.notified = True

    def m_state(self):
        return {'seg': _Hold(self.seg), 'held': self.held}

    def m_havoc(self, i, k):
        if k == 'seg':
            f = z3.Function(fresh_name('seg'), V, z3.BoolSort())
            self.seg = lambda x: f(x)
        else:
            raise Unsupported('lock state changes in a loop')

    def frame(self):
        """only our own key changes between two suspension points"""
        x = self._w.ctx.val('x', object).t
        self._w.ob('only-own-key', z3.Implies(x != self._w.key.t, self._w.set.has(x) == self.seg(x)),
                   'a lock for a different key is changed')

    def suspend(self):
        w = self._w
        self.frame()
        w.set.m_havoc(w.i, 'has')
        self.seg = w.set._has
        w.i.yield_point('cond')
        # a task that is cancelled sees it here, unless shielded
        if not w.shield and w.ctx.choose(2, 'cancel'):
            w.cancelled = True
            return True
        return False

    def m_enter(self, i):
        if self.suspend():
            i.raise_(trio.Cancelled)
        self.held = True
        return self

    def m_exit(self, i, exc):
        self._w.ob('cond-released-once', z3.BoolVal(self.held is True))
        self.held = False
        return False

    def acquire_nowait(self):
        if self._w.ctx.choose(2, 'busy'):
            self._w.busy = True
            self._w.i.raise_(trio.WouldBlock)
        self.held = True

    def release(self):
        self._w.ob('cond-released-once', z3.BoolVal(self.held is True))
        self.held = False

    def acquire(self):
        def run():
            if self.suspend():
                self._w.i.raise_(trio.Cancelled)
            self.held = True
        return SCoro(run, 'acquire')

    def wait(self):
        w = self._w

        def run():
            w.ob('wait-holds-cond', z3.BoolVal(self.held is True), 'waits without holding the condition')
            w.ob('waits-only-for-own-key', w.set.has(w.key.t), 'waits although the key is free')
            if self.suspend():
                w.i.raise_(trio.Cancelled)      # trio re-acquires the condition before raising
        return SCoro(run, 'wait')

    def notify_all(self):
        w = self._w
        w.ob('notify-holds-cond', z3.BoolVal(self.held is True), 'notifies without holding the condition')
        w.notify_has = w.set.has(w.key.t)
        w.notify_all_called = True

    def notify(self, n=1):
        w = self._w
        w.ob('notify-holds-cond', z3.BoolVal(self.held is True))
        # waiters for other keys may be the ones woken up: a waiter for this key could sleep forever
        w.notify_all_called = w.notify_all_called or False


class KeySet(HSet):
    def add(self, k):
        w = self._w
        t = self.key(k)
        w.ob('exclusive', z3.Not(self.has(t)), 'a lock that somebody else holds is taken')
        w.ob('right-key', t == w.key.t)
        w.added = True
        HSet.add(self, k)


class W:
    def __init__(self, ctx, want):
        self.ctx = ctx
        self.i = i = Interp(ctx)
        self.key = ctx.val('key', object)
        self.shield = 0
        self.cancelled = self.busy = self.added = self.notify_all_called = False
        self.notify_has = None
        self.set = KeySet(i, 'locked', KEY)
        self.set._w = self
        self.cond = Cond(self)
        ctx.roots['cond'] = self.cond
        self.obj = SObj(ml.MultiLock, dict(locked_keys=self.set, cond=self.cond))
        i.bi[trio.CancelScope] = lambda i, **kw: Shield(self, **kw)

        def hints(ii, fr, pre):
            x = z3.Const('h_x', V)
            return [('segframe', lambda e: z3.ForAll([x], z3.Implies(x != self.key.t, self.set.has(x) == self.cond.seg(x)),
                                                     patterns=pats(self.cond.seg(x)))),
                    ('segkey', lambda e: self.set.has(self.key.t) == self.cond.seg(self.key.t))]
        i.loop_hints['MultiLock.'] = hints

    def ob(self, name, g, info=None):
        self.ctx.prove('C22.' + name, g, info=info)

    def fin(self, what, k, v):
        self.cond.frame()
        self.ob(what + '.cond-released', z3.BoolVal(self.cond.held is False), 'the condition is still held')
        if k == 'raise':
            return v.cls.__name__
        return 'return'

    def has(self):
        return self.set.has(self.key.t)

    def seg0(self):
        return self.cond.seg(self.key.t)


def u_acquire(ctx, want):
    w = W(ctx, want)
    fn = w.i.find_method(ml.MultiLock, 'acquire')
    k, v = w.i.run_function(Bound(fn, w.obj), [w.key])
    r = w.fin('acquire', k, v)
    ctx.shared.reached.add(r)
    if k == 'return':
        w.ob('acquire.taken', w.has(), 'returns without having taken the lock')
        w.ob('acquire.was-free', z3.And(z3.BoolVal(w.added), z3.Not(w.seg0())))
    else:
        w.ob('acquire.error', z3.BoolVal(v.cls is trio.Cancelled and w.cancelled), 'raises %s' % v.cls.__name__)
        w.ob('acquire.cancelled-clean', w.has() == w.seg0(), 'a cancelled attempt leaves the lock taken')


def u_nowait(ctx, want):
    w = W(ctx, want)
    h0 = w.has()
    fn = w.i.find_method(ml.MultiLock, 'acquire_nowait')
    k, v = w.i.run_function(Bound(fn, w.obj), [w.key])
    r = w.fin('nowait', k, v)
    w.ob('nowait.no-error', z3.BoolVal(k == 'return'), 'raises')
    if k != 'return':
        return
    b = w.i.truth_term(v)
    b = b if z3.is_expr(b) else z3.BoolVal(b)
    ctx.shared.reached.add(str(z3.simplify(b)))
    w.ob('nowait.result', b == z3.And(z3.Not(h0), z3.BoolVal(not w.busy)), 'wrong result')
    w.ob('nowait.state', w.has() == z3.Or(h0, b))


def u_release(ctx, want):
    w = W(ctx, want)
    noerr = ctx.choose(3, 'noerror')
    fn = w.i.find_method(ml.MultiLock, 'release')
    k, v = w.i.run_function(Bound(fn, w.obj), [w.key], [{}, {'noerror': True}, {'noerror': False}][noerr])
    r = w.fin('release', k, v)
    ctx.shared.reached.add(r)
    had = w.seg0()
    w.ob('release.free', z3.Not(w.has()), 'the lock is still taken afterwards')
    if k == 'return':
        w.ob('release.reported', z3.Or(had, z3.BoolVal(noerr == 1)), 'releasing a lock that is not held goes unnoticed')
        w.ob('release.wakes', z3.Implies(had, z3.BoolVal(w.notify_all_called)), 'waiting tasks are not woken')
        if w.notify_has is not None:
            w.ob('release.wakes-after', z3.Not(w.notify_has), 'waiting tasks are woken before the lock is free')
    else:
        w.ob('release.error', z3.And(z3.BoolVal(v.cls is KeyError and noerr != 1), z3.Not(had)),
             'raises %s (noerror=%s)' % (v.cls.__name__, noerr == 1))


def u_with(ctx, want):
    """async with lock(key): body may finish, fail or be cancelled"""
    w = W(ctx, want)
    fn = w.i.find_method(ml.MultiLock, '__call__')
    ctx.shared.functions.add('s3ql.multi_lock.MultiLock.__call__')
    try:
        m = w.i.call(Bound(fn, w.obj), [w.key], {})
    except PyRaise as e:
        ctx.fail('C22.with.enter', 'raises')
        return
    try:
        w.i.cm_enter(m, True)
    except PyRaise as e:
        w.ob('with.enter-error', z3.BoolVal(e.value.cls is trio.Cancelled and w.cancelled))
        w.ob('with.enter-clean', w.has() == w.seg0(), 'a cancelled attempt leaves the lock taken')
        ctx.shared.reached.add('enter-cancelled')
        return
    w.ob('with.taken', w.has(), 'the body runs without the lock')
    w.ob('with.was-free', z3.BoolVal(w.added))
    # the protected code runs: others may do anything except release our key
    w.cond.frame()
    w.set.m_havoc(w.i, 'has')
    w.cond.seg = w.set._has
    ctx.assume(w.has())
    # others may change anything while we release, except our key
    old = w.set.m_havoc

    def havoc(i, k):
        old(i, k)
        ctx.assume(w.has())
    w.set.m_havoc = havoc
    how = ctx.choose(3, 'body')
    exc = [None, SObj(ZeroDivisionError, {'args': ()}), SObj(trio.Cancelled, {'args': ()})][how]
    try:
        sw = w.i.cm_exit(m, exc, True)
    except PyRaise as e:
        w.ob('with.exit-error', z3.BoolVal(False), 'leaving the block raises %s' % e.value.cls.__name__)
        w.ob('with.released', z3.Not(w.has()), 'the lock is not released')
        return
    ctx.shared.reached.add('exit%d' % how)
    w.ob('with.not-swallowed', z3.BoolVal(not sw or exc is None), 'exception of the protected code is swallowed')
    w.ob('with.released', z3.Not(w.has()), 'the lock is not released')
    w.ob('with.cond-released', z3.BoolVal(w.cond.held is False))


def u_init(ctx, want):
    i = Interp(ctx)
    i.override(trio.Condition, lambda *a: 'COND')
    o = SObj(ml.MultiLock, {})
    i.contracts = {}
    i.bi[trio.Condition] = lambda i: 'COND'
    k, v = i.run_function(Bound(i.find_method(ml.MultiLock, '__init__'), o), [])
    ctx.shared.reached.add(k)
    ctx.prove('C22.init', z3.BoolVal(k == 'return' and o.f.get('locked_keys') == set() and o.f.get('cond') == 'COND'))


UNITS = [
    ('multilock.__init__', u_init, ['return']),
    ('multilock.acquire', u_acquire, ['return', 'Cancelled']),
    ('multilock.acquire_nowait', u_nowait, ['True', 'False']),
    ('multilock.release', u_release, ['return', 'KeyError']),
    ('multilock.__call__', u_with, ['exit0', 'exit1', 'exit2', 'enter-cancelled']),
]
