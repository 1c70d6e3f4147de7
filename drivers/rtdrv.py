"""backends.common.retry on random failure sequences (C17), with time and sleeping replaced by a clock of the driver."""
from __future__ import annotations
import random, io, math
import pyvc.purepy
import trio
import s3ql.backends.common as bc

RULE = 'random sequences of temporary and permanent failures with and without requested delays; simulated clock'


def cases(prop, seed, n, kw):
    for s in range(n):
        yield (seed, s)


class Temp(Exception):
    def __init__(self, n, after=None, has=True):
        super().__init__(n)
        if has:
            self.retry_after = after


class Perm(Exception):
    pass


class PermBase(BaseException):
    pass


def run_case(case, prop):
    r = random.Random('rt%s-%s' % case)
    cnt = {}
    slept = []
    plan = []
    n = r.choice((0, 0, 1, 2, 3, 5, 8, 30, 400)) if r.random() < .9 else 5000
    small = r.random() < .5
    for _ in range(n):
        x = r.random()
        if x < .5:
            plan.append(Temp('t', has=False))
        elif x < .6:
            plan.append(Temp('t', after=None))
        else:
            plan.append(Temp('t', after=r.choice((0, 1, 2.5, 7, 30)) if small else r.choice((0, 1, 2.5, 60, 3600, 900))))
    end = r.choice(('ok', 'ok', 'perm', 'base', 'never'))
    last = {'ok': None, 'perm': Perm('p'), 'base': PermBase('b'), 'never': Temp('z', has=False)}[end]
    if end == 'perm' and r.random() < .3:
        last.retry_after = 5
    calls = []
    res = object()

    class B:
        def is_temp_failure(self, exc):
            return isinstance(exc, Temp)

    obj = B()
    args = tuple(object() for _ in range(r.randrange(3)))
    kws = {k: object() for k in ('x', 'y')[:r.randrange(3)]}
    want_retry = r.random() < .5

    def body(self, a, kw, is_retry):
        ok = self is obj and len(a) == len(args) and all(p is q for p, q in zip(a, args)) and kw.keys() == kws.keys() and \
            all(kw[k] is kws[k] for k in kw)
        calls.append((ok, is_retry))
        if len(calls) > 200000:
            raise PermBase('runaway')
        i = len(calls) - 1
        if i < len(plan):
            raise plan[i]
        if last is not None:
            raise last
        return res
    if want_retry:
        async def m(self, *a, is_retry='unset', **kw):
            return body(self, a, kw, is_retry)
    else:
        async def m(self, *a, **kw):
            return body(self, a, kw, None)

    async def sleep(t):
        slept.append(t)
    clock = [1000.0]
    old = (bc.trio.sleep, bc.time.monotonic)

    def fail(msg):
        desc = [('%s after=%r' % (e, getattr(e, 'retry_after', None))) for e in plan[:20]]
        return dict(tags=['C17'], msg='%s; failures %s, then %s' % (msg, desc, end)), cnt, ''

    cnt[end] = 1
    w = bc.retry(m)
    try:
        bc.trio.sleep = sleep
        c = w(obj, *args, **kws)
        out = None
        try:
            try:
                while True:
                    c.send(None)
            except StopIteration as e:
                out = ('ret', e.value)
            except BaseException as e:
                out = ('exc', e)
        finally:
            bc.trio.sleep = old[0]
    finally:
        bc.trio.sleep = old[0]
    if not all(c[0] for c in calls):
        return fail('repeated with other arguments')
    if want_retry and any(c[1] is not (i > 0) for i, c in enumerate(calls)):
        return fail('is_retry wrong: %r' % (calls[:5],))
    # every wait happens between two attempts
    if len(slept) != len(calls) - 1:
        return fail('%d attempts, %d waits' % (len(calls), len(slept)))
    for i, s in enumerate(slept):
        ra = getattr(plan[i] if i < len(plan) else last, 'retry_after', None)
        if ra and not (ra - 1e-9 <= s <= 1.5 * ra + 1e-9):
            return fail('server asked for a delay of %r, waited %r' % (ra, s))
        if not ra and not (0 < s <= 450.0001) and not any(getattr(p, 'retry_after', None) for p in plan[:i]):
            return fail('waited %r' % s)
        if not ra and s > 450.0001:
            return fail('waited %r' % s)
    total = sum(slept)
    expect = n + 1
    if out[0] == 'exc' and isinstance(out[1], TimeoutError):
        if total * 1.0 < bc.RETRY_TIMEOUT * 0.99:
            return fail('gave up after %.0f s' % total)
        if not isinstance(out[1].__cause__, Temp):
            return fail('cause of the timeout is %r' % out[1].__cause__)
        if out[1].__cause__ is not (plan[len(calls) - 1] if len(calls) <= n else last):
            return fail('timeout does not carry the most recent error')
        return None, cnt, ''
    if total > 2 * bc.RETRY_TIMEOUT + 10000 * 1.5 + 3600:
        return fail('kept trying for %.0f s' % total)
    if end == 'never':
        return fail('ended with %r although every attempt failed temporarily' % (out,))
    if len(calls) != expect:
        return fail('%d attempts instead of %d, result %r' % (len(calls), expect, out))
    if end == 'ok' and (out[0] != 'ret' or out[1] is not res):
        return fail('result %r' % (out,))
    if end in ('perm', 'base') and (out[0] != 'exc' or out[1] is not last):
        return fail('result %r' % (out,))
    return None, cnt, ''
