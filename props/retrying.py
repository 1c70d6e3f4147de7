"""C17: s3ql.backends.common.retry, for every sequence of outcomes of the wrapped method."""
from __future__ import annotations
import io, re, time, z3, trio, inspect, random, h11
from io import BytesIO
from pyvc.values import *
from pyvc.core import *
from pyvc.interp import Interp, BUILTINS
from pyvc.pymodels import Bag
import s3ql.backends.common as bc
import s3ql.backends.s3c as s3c
import s3ql.http as hm


class TempError(Exception):
    pass


class Ghost(Model):
    def __init__(self, attempts, sleeps, slept, pending):
        self.attempts, self.sleeps, self.slept, self.pending = attempts, sleeps, slept, pending

    def m_state(self):
        return dict(attempts=self.attempts, sleeps=self.sleeps, slept=self.slept, pending=self.pending)

    def m_havoc(self, i, k):
        if k in ('attempts', 'sleeps'):
            setattr(self, k, i.ctx.int(k))
        elif k == 'slept':
            self.slept = SFloat(z3.Real(fresh_name('slept')))
        else:
            self.pending = i.ctx.bool('pending')


class Tracker(Model):
    def __init__(self, ctx):
        self._ctx = ctx

    def m_getattr(self, i, n):
        if n == 'register':
            return lambda *a: None
        if n == 'get_rate':
            return lambda: SFloat(z3.Real(fresh_name('rate')))
        if n == 'window_length':
            return 60
        return NotImplemented

    def m_state(self):
        return {}


class Self(Model):
    def __init__(self, ctx):
        self._ctx = ctx

    def is_temp_failure(self, exc):
        return exc.f['temp']

    def m_state(self):
        return {}

    def m_getattr(self, i, n):
        if n == '__class__':
            return object
        return NotImplemented


def u_retry(ctx, want, has_kw=False):
    i = Interp(ctx)
    i.floats_as_reals = True
    P = lambda n, g, info=None: ctx.prove('C17.' + n, g, info=info)
    is_coro = ctx.choose(2, 'coroutine') == 0
    g = Ghost(0, 0, SFloat(z3.RealVal(0)), SBool(z3.BoolVal(False)))
    ctx.roots['g'] = g
    me, a1, k1 = Self(ctx), ctx.val('arg', object), ctx.val('kwarg', object)
    state = {'last': None, 'slept': None}

    class Method(Model):
        m_type = object

        def m_state(self):
            return {}

        def m_getattr(self, ii, n):
            return {'__name__': 'meth', '__doc__': None}.get(n, NotImplemented)

        def m_call(self, ii, args, kw):
            def run():
                ok = len(args) == 2 and args[0] is me and args[1] is a1 and kw.get('opt') is k1
                P('same-arguments', z3.BoolVal(ok and set(kw) == ({'opt', 'is_retry'} if has_kw else {'opt'})),
                  'the method is repeated with different arguments')
                n = i.as_int(g.attempts)
                P('wait-before-retry', i.as_int(g.sleeps) == n, 'an attempt without a wait before it')
                P('attempt-after-temporary', z3.Not(g.pending.t), 'a new attempt after a failure that was not handled')
                if has_kw:
                    r = kw.get('is_retry')
                    rt = r.t if isinstance(r, SBool) else z3.BoolVal(bool(r))
                    P('is_retry', rt == (n > 0), 'wrong is_retry')
                g.attempts = i.mkint(n + 1)
                how = ctx.choose(6, 'outcome')
                if how == 0:
                    v = ctx.val('result', object)
                    state['last'] = ('return', v)
                    return v
                g.pending = SBool(z3.BoolVal(True))
                cls = trio.Cancelled if how == 1 else TempError
                e = SObj(cls, {'args': ()})
                e.f['temp'] = SBool(z3.BoolVal(False)) if how == 1 else ctx.bool('temp')
                if how == 3:
                    e.f['retry_after'] = None
                elif how == 4:
                    e.f['retry_after'] = ctx.int('after', lo=0)
                elif how == 5:
                    e.f['retry_after'] = SFloat(z3.Real(fresh_name('after')))
                    ctx.assume(e.f['retry_after'].t >= 0)
                state['last'] = ('raise', e)
                raise PyRaise(e)
            return SCoro(run, 'method')

    def sleep(t):
        def run():
            g.sleeps = i.mkint(i.as_int(g.sleeps) + 1)
            k, e = state['last'] or ('none', None)
            P('wait-only-after-failure', g.pending.t, 'waits although nothing failed')
            g.pending = SBool(z3.BoolVal(False))
            x = i.as_real(t)
            if k == 'raise':
                P('retry-only-temporary', e.f['temp'].t, 'retries after an error that is not temporary')
                ra = e.f.get('retry_after')
                req = z3.RealVal(0) if ra is None else i.as_real(ra)
                P('requested-delay', z3.Implies(req > 0, z3.And(req <= x, x <= req * z3.RealVal('3/2'))),
                  'the delay requested by the server is not honoured')
                P('default-delay', z3.Implies(req == 0, z3.And(x > 0, x <= 450)), 'delay out of bounds')
                P('time-limit', g.slept.t <= z3.RealVal('3/2') * bc.RETRY_TIMEOUT, 'keeps trying after the time limit')
            else:
                P('wait-only-after-failure', z3.BoolVal(False))
            g.slept = SFloat(g.slept.t + x)
            return None
        return SCoro(run, 'sleep')

    def uniform(ii, lo, hi):
        r = z3.Real(fresh_name('rnd'))
        ctx.assume(z3.And(r >= ii.as_real(lo), r <= ii.as_real(hi)))
        return SFloat(r)

    i.bi[random.uniform] = uniform
    i.bi[trio.sleep] = lambda ii, t: sleep(t)
    i.bi[inspect.iscoroutinefunction] = lambda ii, f: is_coro
    i.bi[inspect.signature] = lambda ii, f: Bag(None, dict(parameters={'is_retry': 1} if has_kw else {'x': 1}))
    i.contracts['s3ql.backends.common.extend_docstring'] = lambda ii, a, k: None

    def hints(ii, fr, pre):
        out = [('slept>=0', lambda e: g.slept.t >= 0), ('n', lambda e: i.as_int(g.sleeps) == i.as_int(g.attempts)),
               ('n>=0', lambda e: i.as_int(g.attempts) >= 0), ('np', lambda e: z3.Not(g.pending.t))]
        for p, (kind, cont, k, v) in pre.items():
            if isinstance(v, (bool, SBool)):
                b = lambda e, p=p: e.v(p).t if isinstance(e.v(p), SBool) else z3.BoolVal(bool(e.v(p)))
                out.append((p + '==again', lambda e, b=b: b(e) == (i.as_int(g.attempts) > 0)))
                out.append((p + '==first', lambda e, b=b: b(e) == (i.as_int(g.attempts) == 0)))
                continue
            if kind != 'l' or i.as_real(v) is None:
                continue
            r = lambda e, p=p: i.as_real(e.v(p))
            out.append((p + '>0', lambda e, r=r: r(e) > 0))
            out.append((p + '>=0', lambda e, r=r: r(e) >= 0))
            out.append((p + '<=300', lambda e, r=r: r(e) <= 300))
            out.append((p + '<=slept', lambda e, r=r: r(e) <= g.slept.t))
            out.append((p + '>=slept', lambda e, r=r: r(e) * z3.RealVal('3/2') >= g.slept.t))
            out.append((p + '==n', lambda e, r=r: r(e) == z3.ToReal(i.as_int(g.sleeps))))
        return out
    i.loop_hints['wrapped'] = hints
    fn = i.ifunc_by_name(bc, 'retry')
    if True:
        m = Method()
        k, w = i.run_function(fn, [m], {'_tracker': Tracker(ctx)})
        if not is_coro:
            ctx.shared.reached.add('TypeError')
            P('only-coroutines', z3.BoolVal(k == 'raise' and w.cls is TypeError))
            return
        if k != 'return':
            ctx.fail('C17.decorator', 'retry() raises %s' % w.cls.__name__)
            return
        k, v = i.run_function(w, [me, a1], {'opt': k1})
    lk, lv = state['last'] or (None, None)
    if k == 'return':
        ctx.shared.reached.add('return')
        P('result', z3.BoolVal(lk == 'return' and v is lv), 'the result is not that of the successful attempt')
        return
    if v.cls is TimeoutError:
        ctx.shared.reached.add('timeout')
        P('timeout-only-temporary', lv.f['temp'].t if lk == 'raise' else z3.BoolVal(False))
        P('timeout-time', g.slept.t >= bc.RETRY_TIMEOUT, 'gives up before the time limit')
        P('timeout-cause', z3.BoolVal(v.f.get('__cause__') is lv), 'the last error is not attached')
        return
    ctx.shared.reached.add('raise')
    P('error', z3.BoolVal(lk == 'raise' and v is lv), 'raises %s' % v.cls.__name__)
    if lk == 'raise':
        P('permanent-only', z3.Not(lv.f['temp'].t), 'a temporary failure is not retried')


class SrcFile(Model):
    """Seekable file of any content; read() may return less than asked for, but something unless at the end."""

    def __init__(self, ctx, i, typ):
        self._ctx, self._i = ctx, i
        self.m_type = typ
        self._content = ctx.bytes('file')
        self.pos = ctx.int('pos', lo=0)

    def m_state(self):
        return {'pos': self.pos}

    def m_havoc(self, i, k):
        self.pos = i.ctx.int('pos')

    def seek(self, off, whence=0):
        p = self._i.as_int(off)
        if whence == 2:
            p = p + self._content.n
        elif whence == 1:
            p = p + self._i.as_int(self.pos)
        self.pos = self._i.mkint(p)
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=None):
        i, p, size = self._i, self._i.as_int(self.pos), self._content.n
        avail = z3.If(p < size, size - p, z3.IntVal(0))
        if n is None:
            k = avail
        else:
            k = self._ctx.int('got', lo=0).t
            nn = i.as_int(n)
            lim = z3.If(z3.Or(nn < 0, nn > avail), avail, nn)
            self._ctx.assume(z3.And(k <= lim, z3.Implies(lim > 0, k > 0)))
            if self.m_type is BytesIO:
                self._ctx.assume(k == lim)
        self.pos = i.mkint(p + k)
        c = self._content.at
        return SBytes(z3.simplify(k), lambda j: c(j + p))


class Sent(Model):
    def __init__(self):
        self.n = 0

    def m_state(self):
        return {'n': self.n}

    def m_havoc(self, i, k):
        self.n = i.ctx.int('sent', lo=0)


def u_stream(ctx, want):
    """http: file bodies are sent from position 0, in order, completely, whatever the position was before"""
    i = Interp(ctx)
    P = lambda n, g, info=None: ctx.prove('C17.' + n, g, info=info)
    f = SrcFile(ctx, i, BytesIO if ctx.choose(2, 'filetype') else io.BufferedReader)
    sent = Sent()
    ctx.roots['sent'] = sent
    ctx.roots['file'] = f
    q = z3.Int('q')

    def send(ii, a, k):
        def run():
            ev = a[1]
            d = i.to_bytes(ev)
            n = i.as_int(sent.n)
            P('stream.content', z3.Implies(z3.And(q >= 0, q < d.n), z3.And(n + q < f._content.n, d.at(q) == f._content.at(n + q))),
              'the data sent differs from the file')
            sent.n = i.mkint(n + d.n)
        return SCoro(run, 'send')
    i.contracts['s3ql.http.HTTPConnection._send_event'] = send
    i.bi[h11.Data] = lambda ii, data=b'': data
    i.bi[trio.to_thread.run_sync] = lambda ii, fn, *a, **k: SCoro(lambda: ii.call(fn, list(a), {}), 'run_sync')
    total = ctx.int('total', lo=0)

    def hints(ii, fr, pre):
        return [('pos', lambda e: i.as_int(f.pos) == i.as_int(sent.n)), ('sent', lambda e: i.as_int(sent.n) >= 0),
                ('in', lambda e: i.as_int(sent.n) <= f._content.n)] + [
            ('rem:' + p, lambda e, p=p: e.m(p) == total.t - i.as_int(sent.n)) for p, v in pre.items()
            if v[0] == 'l' and isinstance(v[3], (int, SInt))]
    i.loop_hints['_stream_file'] = hints
    obj = SObj(hm.HTTPConnection, {})
    k, v = i.run_function(Bound(i.find_method(hm.HTTPConnection, '_stream_file'), obj), [f, total])
    ctx.shared.reached.add(k)
    P('stream.no-error', z3.BoolVal(k == 'return'))
    if k != 'return':
        return
    n = i.as_int(sent.n)
    P('stream.remaining', i.as_int(v) == total.t - n, 'wrong count of bytes left')
    P('stream.complete', z3.Or(n == total.t, n == f._content.n), 'sending ends before the end of the file')
    P('stream.not-more', n <= total.t, 'more than announced is sent')


def u_retry_after(ctx, want):
    """requested delays are clamped"""
    i = Interp(ctx)
    i.floats_as_reals = True
    h = ctx.val('header', str)
    hit = ctx.choose(2, 'match')
    i.bi[re.match] = lambda ii, *a: (object() if hit else None)
    sec = ctx.int('seconds', lo=0)
    old = BUILTINS[int]

    def toint(ii, x=0, base=None):
        if isinstance(x, SVal):
            return sec
        return old(ii, x) if base is None else old(ii, x, base)
    i.bi[int] = toint
    nodate = ctx.choose(2, 'nodate')
    i.bi[s3c.parsedate_tz] = lambda ii, x: None if nodate else (1, 2)
    i.bi[s3c.mktime_tz] = lambda ii, x: SFloat(z3.Real(fresh_name('t')))
    i.bi[time.time] = lambda ii: SFloat(z3.Real(fresh_name('now')))
    k, v = i.run_function(i.ifunc_by_name(s3c, '_parse_retry_after'), [h])
    P = lambda n, g, info=None: ctx.prove('C17.' + n, g, info=info)
    P('retry-after.no-error', z3.BoolVal(k == 'return'))
    if k != 'return':
        return
    ctx.shared.reached.add('none' if v is None else 'value')
    if v is None:
        P('retry-after.ignored-only-if-unreadable', z3.BoolVal(not hit and bool(nodate)))
        return
    x = i.as_real(v)
    P('retry-after.bounds', z3.And(x >= 1, x <= 300), 'requested delay out of bounds')
    if hit:
        s = z3.ToReal(sec.t)
        P('retry-after.value', z3.Implies(z3.And(s >= 1, s <= 300), x == s), 'requested delay is changed')


UNITS = [('retry', u_retry, ['return', 'raise', 'timeout', 'TypeError']),
         ('retry.is_retry', lambda c, w: u_retry(c, w, True), ['return', 'raise', 'timeout', 'TypeError']),
         ('http._stream_file', u_stream, ['return']),
         ('s3c._parse_retry_after', u_retry_after, ['none', 'value'])]
