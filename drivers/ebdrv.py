"""Backup expiry (C21): random backup lists, states and age ranges against the coverage rule, and the command itself
on scratch directories."""
from __future__ import annotations
import random, os, sys, tempfile, shutil, re, copy
import pyvc.purepy
from props.expirebackups import load

RULE = ('random backup lists, saved states and age ranges (up to 9 backups, ranges up to 14 cycles): result checked against '
        'the covering rule for every number of further backups; repeated runs; the command on scratch directories')


def cases(prop, seed, n, kw):
    for s in range(n):
        yield (seed, s)


def fail(msg):
    return dict(tags=['C21'], msg=msg)


def name(k):
    return '2024-%02d-%02d_%02d:%02d:%02d' % (1 + k // 700 % 12, 1 + k // 25 % 28, k % 24, k % 60, k % 60)


def ranges_of(cycles):
    return list(zip([0] + cycles[:-1], cycles))


def covered(ages, step, rng):
    lo, hi = rng
    return any(lo <= a + step < hi for a in ages) or any(lo <= step - j < hi for j in range(1, step + 1))


def check(mod, blist, state, cycles):
    b0, s0, c0 = set(blist), dict(state), list(cycles)
    b, s, c = set(blist), dict(state), list(cycles)
    try:
        dele = mod.process_backups(b, s, c)
    except Exception as e:
        return fail('process_backups(%r, %r, %r) raises %r' % (b0, s0, c0, e)), None
    what = 'process_backups(%r, %r, %r) = %r: ' % (sorted(b0), s0, c0, sorted(dele))
    if b != b0 or c != c0:
        return fail(what + 'changes its arguments'), None
    if not set(dele) <= b0:
        return fail(what + 'removes something that is not in the list'), None
    if set(s) != b0 - set(dele):
        return fail(what + 'state %r does not match the remaining backups' % s), None
    new = sorted(b0 - set(s0))
    age = {x: s0[x] + len(new) for x in b0 & set(s0)}
    age.update({x: len(new) - 1 - i for i, x in enumerate(new)})
    for x in s:
        if s[x] != age[x]:
            return fail(what + 'age of %s is %r instead of %r' % (x, s[x], age[x])), None
    for step in range(max(c0) + 2):
        for r in ranges_of(c0):
            if covered(age.values(), step, r) and not covered(s.values(), step, r):
                return fail(what + 'after %d more backups nothing is left for the age range %r' % (step, r)), None
    if any(0 <= a < c0[-1] for a in age.values()) and not s:
        return fail(what + 'keeps no backup at all'), None
    s2 = dict(s)
    again = mod.process_backups(set(s), s2, list(c0))
    if again or s2 != s:
        return fail(what + 'running it again removes %r' % sorted(again)), None
    return None, (s, dele)


def run_case(case, prop):
    r = random.Random('eb%s-%s' % case)
    mod = load()
    cnt = {}
    f = None
    for _ in range(10):
        # a history: new backups come in, some get lost, the tool runs now and then
        cycles = sorted(r.randrange(0, 15) for _ in range(r.choice((1, 1, 2, 3, 4, 5))))
        if not cycles[-1]:
            cycles[-1] = 1
        if r.random() < .6:
            cycles = sorted(set(cycles))
        state = {}
        blist = set()
        k = r.randrange(5000)
        if r.random() < .4:
            for _ in range(r.randrange(8)):
                k += r.randrange(1, 40)
                state[name(k)] = r.randrange(0, 18)
            items = list(state.items())
            r.shuffle(items)
            state = dict(items)
            blist = {x for x in state if r.random() < .85}
        for _ in range(r.choice((1, 1, 3, 6))):
            for _ in range(r.choice((0, 1, 1, 1, 2, 4))):
                k += r.randrange(1, 40)
                blist.add(name(k))
            if blist and r.random() < .15:
                blist.discard(r.choice(sorted(blist)))
            cnt['process'] = cnt.get('process', 0) + 1
            f, res = check(mod, blist, state, cycles)
            if f:
                return f, cnt, repr(case)
            state = res[0]
            blist -= res[1]
    if r.random() < .15:
        cnt['command'] = 1
        f = command(r, mod)
    return f, cnt, repr(case)


def command(r, mod):
    d = tempfile.mkdtemp(prefix='eb')
    old = os.getcwd()
    os.chdir(d)
    try:
        k = r.randrange(5000)
        cycles = sorted({r.randrange(1, 9) for _ in range(3)})
        others = ['keepme', '2024-01-01', '2024-01-01_00:00:00x', 'x2024-01-01_00:00:00', '.hidden', '2024-01-01_00-00-00',
                  '2024-1-01_00:00:00', '2024-01-01_00:00:00.1']
        for o in others:
            os.mkdir(o)
        prop = r.choice((0.5, 1, 0.2))
        dry = r.random() < .3
        for it in range(6):
            k += r.randrange(1, 40)
            x = name(k)
            os.mkdir(x)
            open(os.path.join(x, 'f'), 'w').write(x)
            before = {y for y in os.listdir('.') if y not in others and not y.startswith('.expire')}
            st0 = load_state(mod)
            a = [str(c) for c in cycles] + ['--quiet', '-p', str(prop)] + (['-n'] if dry else [])
            try:
                mod.main(a)
                ok = True
            except SystemExit as e:
                ok = not e.code
            except Exception as e:
                ok = False
                if type(e).__name__ != 'QuietError':
                    return fail('expire_backups %s with %r raises %r' % (a, sorted(before), e))
            now = {y for y in os.listdir('.') if y not in others and not y.startswith('.expire')}
            if set(others) - set(os.listdir('.')):
                return fail('expire_backups %s removes %r, which is no backup' % (a, set(others) - set(os.listdir('.'))))
            st1 = dict(st0 or {})
            want = before - mod.process_backups(set(before), st1, list(cycles))
            too = len(before - want) / len(before) > prop
            if dry or too:
                if now != before or (st0 is not None and load_state(mod) != st0):
                    return fail('expire_backups %s (refused or dry run) changes something: %r -> %r' % (a, sorted(before), sorted(now)))
                if dry:
                    break
                continue
            if st0 is None and len(before) > 1:
                continue
            if not ok or now != want:
                return fail('expire_backups %s with %r leaves %r instead of %r' % (a, sorted(before), sorted(now), sorted(want)))
            if load_state(mod) != st1:
                return fail('expire_backups %s saves state %r instead of %r' % (a, load_state(mod), st1))
    finally:
        os.chdir(old)
        shutil.rmtree(d)
    return None


def load_state(mod):
    from s3ql.common import thaw_basic_mapping
    if not os.path.exists('.expire_backups.dat'):
        return None
    return thaw_basic_mapping(open('.expire_backups.dat', 'rb').read())
