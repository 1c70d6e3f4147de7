"""Random operation sequences on the real LinkedDict (pure Python, current source) against a reference list."""
from __future__ import annotations
import random
import pyvc.purepy
from s3ql._linked_dict import LinkedDict

RULE = ('random sequences of mapping operations, moves and interleaved mutable_values() iterators (several at once, '
        'closed early or exhausted) against an ordered reference')


def cases(prop, seed, n, kw):
    for s in range(n):
        yield (seed, s)


class Stop(Exception):
    pass


def run_case(case, prop):
    rnd = random.Random('%s-%s' % case)
    d = LinkedDict()
    ref = []                 # [(key, value)] in order
    cnt = {}
    log = []
    its = []                 # [iterator, stays set, seen list, present-ever]
    nk = rnd.choice((2, 3, 5, 9))

    def fail(msg):
        return (dict(tags=['C11'], msg=msg + ' after ' + '; '.join(log[-25:])), cnt, '; '.join(log))

    def idx(k):
        for i, (a, _) in enumerate(ref):
            if a == k:
                return i
        return None
    vals = 0
    for step in range(rnd.randint(5, 60)):
        op = rnd.choice(['set', 'set', 'set', 'del', 'pop', 'move', 'move', 'get', 'iter', 'next', 'next', 'next', 'close', 'plain', 'len'])
        k = rnd.randrange(nk)
        i = idx(k)
        cnt[op] = cnt.get(op, 0) + 1
        try:
            if op == 'set':
                vals += 1
                log.append('d[%d]=%d' % (k, vals))
                d[k] = vals
                if i is None:
                    ref.append((k, vals))
                else:
                    ref[i] = (k, vals)
                    # same node, new value
            elif op in ('del', 'pop'):
                log.append('%s %d' % (op, k))
                try:
                    if op == 'del':
                        del d[k]
                    else:
                        r = d.pop(k)
                    if i is None:
                        return fail('%s of missing key did not raise' % op)
                    if op == 'pop' and r != ref[i][1]:
                        return fail('pop returned %r' % r)
                    del ref[i]
                    for it in its:
                        if it[1]:
                            (it[1] or set()).discard(k)
                except KeyError:
                    if i is not None:
                        return fail('KeyError for present key')
            elif op == 'move':
                log.append('move %d' % k)
                try:
                    d.move_to_tail(k)
                    if i is None:
                        return fail('move of missing key did not raise')
                    ref.append(ref.pop(i))
                    for it in its:
                        if it[1]:
                            (it[1] or set()).discard(k)
                except KeyError:
                    if i is not None:
                        return fail('KeyError for present key')
            elif op == 'get':
                log.append('get %d' % k)
                want = None if i is None else ref[i][1]
                if d.get(k) != want or (k in d) != (i is not None) or d.get(k, 'x') != ('x' if i is None else want):
                    return fail('get/contains wrong for %d' % k)
                try:
                    if d[k] != want:
                        return fail('wrong value')
                except KeyError:
                    if i is not None:
                        return fail('KeyError for present key')
            elif op == 'iter' and len(its) < 4:
                log.append('it%d=iter' % len(its))
                its.append([d.mutable_values(), None, [], False])
            elif op in ('next', 'close') and its:
                j = rnd.randrange(len(its))
                it = its[j]
                if op == 'close':
                    log.append('close it')
                    it[0].close()
                    its.remove(it)
                else:
                    log.append('next it%d' % j)
                    if it[1] is None:
                        it[1] = {a for a, _ in ref}
                        it.append([a for a, _ in ref])
                    try:
                        v = next(it[0])
                    except StopIteration:
                        left = it[1] - set(it[2])
                        if left:
                            return fail('iteration ended without reaching %s' % left)
                        its.remove(it)
                        continue
                    ks = [a for a, b in ref if b == v]
                    if not ks:
                        return fail('yielded %r which is not present' % v)
                    if ks[0] in it[1] and ks[0] in it[2]:
                        return fail('yielded the entry %r, which stayed in place, twice' % ks[0])
                    order = it[4]
                    if ks[0] in it[1]:
                        done = set(it[2])
                        for x in order[:order.index(ks[0])]:
                            if x in it[1] and x not in done:
                                return fail('skipped or reordered entry %r' % x)
                    it[2].append(ks[0])
            elif op == 'plain':
                log.append('plain')
                if sorted(d) != sorted(a for a, _ in ref) or sorted(d.values()) != sorted(b for _, b in ref) or \
                        sorted(d.items()) != sorted(ref) or sorted(d.keys()) != sorted(a for a, _ in ref):
                    return fail('plain iteration differs')
            elif op == 'len':
                if len(d) != len(ref):
                    return fail('len %d != %d' % (len(d), len(ref)))
        except (AttributeError, RuntimeError, TypeError, IndexError, KeyError, ValueError) as e:
            return fail('%s raised %r' % (op, e))
        if rnd.random() < 0.3:
            if list(d.mutable_values()) != [b for _, b in ref]:
                return fail('order is %r, expected %r' % (list(d.mutable_values()), [b for _, b in ref]))
    for it in its:
        it[0].close()
    if list(d.mutable_values()) != [b for _, b in ref] or len(d) != len(ref):
        return fail('final order is %r, expected %r' % (list(d.mutable_values()), [b for _, b in ref]))
    n, x = 0, d._head.next if hasattr(d, '_head') else None
    while x is not None and x is not d._tail:
        n, x = n + 1, x.next
    if hasattr(d, '_head') and n != len(ref):
        return fail('%d nodes linked for %d entries' % (n, len(ref)))
    return None, cnt, '; '.join(log)[:300]
