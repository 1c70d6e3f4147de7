"""Random schedules of trio tasks on the real MultiLock."""
from __future__ import annotations
import random
import trio
from s3ql.multi_lock import MultiLock

RULE = ('random schedules of up to 6 trio tasks acquiring, trying, releasing and cancelling locks on 1-3 keys; '
        'exclusion, wake-up and errors compared with a reference')


def cases(prop, seed, n, kw):
    for s in range(n):
        yield (seed, s)


class Bad(Exception):
    pass


def run_case(case, prop):
    rnd = random.Random('%s-%s' % case)
    cnt, log = {}, []
    held = {}

    async def main():
        ml = MultiLock()
        keys = list(range(rnd.randint(1, 3)))

        async def worker(w):
            for _ in range(rnd.randint(1, 6)):
                k = rnd.choice(keys)
                op = rnd.choice(['with', 'with', 'withfail', 'acq', 'try', 'bad', 'noerr', 'cancel', 'cancelwith'])
                cnt[op] = cnt.get(op, 0) + 1
                log.append('%d:%s %s' % (w, op, k))

                async def crit():
                    if k in held:
                        raise Bad('two holders of key %r' % k)
                    held[k] = w
                    for _ in range(rnd.randint(0, 3)):
                        await trio.lowlevel.checkpoint()
                    if held.get(k) != w:
                        raise Bad('holder of key %r changed' % k)
                    del held[k]
                if op in ('with', 'withfail'):
                    try:
                        async with ml(k):
                            await crit()
                            if op == 'withfail':
                                raise ZeroDivisionError()
                    except ZeroDivisionError:
                        if op != 'withfail':
                            raise
                    else:
                        if op == 'withfail':
                            raise Bad('exception in protected code swallowed')
                elif op == 'acq':
                    await ml.acquire(k)
                    await crit()
                    await ml.release(k)
                elif op == 'try':
                    free = k not in ml.locked_keys and not ml.cond.locked() if hasattr(ml, 'locked_keys') else None
                    r = ml.acquire_nowait(k)
                    if r and k in held:
                        raise Bad('acquire_nowait succeeded on a held key')
                    if free is not None and r is not free:
                        raise Bad('acquire_nowait returned %r, key %s' % (r, 'free' if free else 'taken'))
                    if r:
                        await crit()
                        await ml.release(k)
                elif op == 'bad':
                    q = ('never', w)
                    try:
                        await ml.release(q)
                    except KeyError:
                        pass
                    else:
                        raise Bad('releasing a lock that is not held is not reported')
                    with trio.fail_after(30):
                        async with ml(q):
                            pass
                elif op == 'noerr':
                    await ml.release(('never', w), noerror=True)
                elif op == 'cancel':
                    got = False
                    with trio.move_on_after(0) as cs:
                        await ml.acquire(k)
                        got = True
                        held[k] = w
                    if got:
                        held.pop(k, None)
                        with trio.CancelScope(shield=True):
                            await ml.release(k)
                elif op == 'cancelwith':
                    # the holder is cancelled while it holds (or waits for) the lock
                    with trio.CancelScope() as cs:
                        async with ml(k):
                            if k in held:
                                raise Bad('two holders of key %r' % k)
                            held[k] = w
                            try:
                                await trio.lowlevel.checkpoint()
                                cs.cancel()
                                await trio.lowlevel.checkpoint()
                            finally:
                                del held[k]
                for _ in range(rnd.randint(0, 2)):
                    await trio.lowlevel.checkpoint()
        with trio.fail_after(20):
            async with trio.open_nursery() as n:
                for w in range(rnd.randint(2, 6)):
                    n.start_soon(worker, w)
        # everything is free again
        for k in keys:
            if not ml.acquire_nowait(k):
                raise Bad('key %r is still locked after all holders released it' % k)
            if ml.acquire_nowait(k):
                raise Bad('key %r acquired twice' % k)
        # different keys never block each other
        with trio.fail_after(20):
            async with ml('other'):
                pass

    try:
        trio.run(main)
    except BaseException as e:
        while isinstance(e, BaseExceptionGroup):
            e = e.exceptions[0]
        if isinstance(e, (Bad, trio.TooSlowError, KeyError, RuntimeError, ValueError)):
            return dict(tags=['C22'], msg='%s %s after %s' % (type(e).__name__, e, '; '.join(log[-30:]))), cnt, ''
        raise
    return None, cnt, '; '.join(log)[:300]
