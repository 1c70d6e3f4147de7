"""Serialization (C03) and control command literals (C20): random mappings, byte strings and near-misses."""
from __future__ import annotations
import random, struct, math, ast, enum
import pyvc.purepy
from s3ql import common
from s3ql.common import freeze_basic_mapping, thaw_basic_mapping, ThawError, parse_literal, parse_literal_tuple
from s3ql.backends.common import checksum_basic_mapping

RULE = ('random mappings with adversarial strings, bytes, numbers and invalid values; mutated and random serialized '
        'text; pairs of mappings that are close in the checksum encoding; random command literals')


def cases(prop, seed, n, kw):
    for s in range(n):
        yield (seed, s)


class IntSub(enum.IntEnum):
    A = 3


CH = ['a', 'b', '\0', '\0s', '\0n', '\0i', "'", '"', '\\', '\n', '\u20ac', '\ud800', '\U0001f600', ' ', '{', '}', ':', ',',
      '=', 'signature', 'True', '\x7f', '%', '\r', '#', 'sx', 'K', 'S', '\0K', '\0S', '\x01', '\x03']


def rstr(r):
    return ''.join(r.choice(CH) for _ in range(r.choice((0, 1, 1, 2, 3, 5))))


def rval(r):
    k = r.randrange(9)
    if k == 0:
        return rstr(r)
    if k == 1:
        return bytes(r.choice((0, 1, 39, 92, 255, 61, 43, 47, 10, 115)) for _ in range(r.choice((0, 1, 2, 3, 4, 7, 32, 33))))
    if k == 2:
        return r.choice((0, 1, -1, 2**31, 2**63, -2**63, 2**64 + 5, 10**30, r.randrange(-1000, 1000)))
    if k == 3:
        return r.choice((True, False))
    if k == 4:
        return r.choice((0.0, -0.0, 1.5, 1e300, 5e-324, 0.1, 1e22, 123456789.123456789, r.random() * 10 ** r.randrange(-20, 20)))
    if k == 5:
        return None
    if k == 6:
        return struct.unpack('<d', r.randbytes(8))[0] if r.random() < .5 else r.random()
    if k == 7:
        return bytearray(r.randbytes(r.randrange(5)))
    return r.choice((1j, 2.5 + 1j, complex(0, -3)))


def bad_val(r):
    return r.choice(([1], (), {'a': 1}, object(), {1}, frozenset(), range(3), Ellipsis, int, [], {}, (1, 'a'), memoryview(b'a')))


def is_basic(d):
    return type(d) is dict and all(type(k) is str and (v is None or type(v) in (str, bytes, int, float, bool, complex))
                                   for k, v in d.items())


def same(a, b):
    if a.keys() != b.keys() or list(a) != list(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, bytearray):
            x = bytes(x)
        if type(x) is not type(y) or (x != y):
            return False
        if type(x) is float and math.copysign(1, x) != math.copysign(1, y):
            return False
    return True


def mutate(r, buf):
    b = bytearray(buf)
    for _ in range(r.choice((1, 1, 2, 4))):
        k = r.randrange(4)
        if k == 0 and b:
            del b[r.randrange(len(b))]
        elif k == 1:
            b.insert(r.randrange(len(b) + 1), r.choice(b'{}[]()"\'\\,:b0123456789.jeE+- \n\0\xff*aNT='))
        elif k == 2 and b:
            b[r.randrange(len(b))] = r.randrange(256)
        elif k == 3 and b:
            i = r.randrange(len(b))
            b[i:i] = b[i:i + r.randrange(10)]
    return bytes(b)


TEXTS = [b'', b'{', b'[1]', b'1', b'None', b'{1: 2}', b"{'a': [1]}", b"{'a': {}}", b"{b'a': 1}", b"{'a': b'x'}", b"{'a': b'a==='}",
         b'{**{}}', b'{"a": -"b"}', b'{[]: 1}', b'set()', b'{1}', b"{'a': 1 + 2j}", b"{'a': 1 + 2}", b'(' * 300 + b')' * 300,
         b'-' * 3000 + b'1', b"{'a': ...}", b"{'a': (1,)}", b"{'a': 1e999}", b'\xff\xfe', b"{'a': '\\ud800'}", b'{None: None}',
         b'{True: 1}', b"{'a': b'\\xff'}", b'[' * 120 + b']' * 120, b'__import__("os")', b"{'a': 1,,}", b"{'a'}", b'{"a": "\0"}',
         b'{"a": 0777}', b'{"a": ' + b'9' * 5000 + b'}', b'\0', b'{ }', b"{'a': f'{1}'}", b"{'a': 'b' 'c'}", b"{'a': b'YQ=='}",
         b"{'a': b'YQ=''='}"]


def fail(msg):
    return dict(tags=['C03', 'C20'], msg=msg)


def run_case(case, prop):
    r = random.Random('ser%s-%s' % case)
    cnt = {}
    f = None
    if prop == 'C03':
        for _ in range(20):
            f = f or one_c03(r, cnt)
    else:
        for _ in range(20):
            f = f or one_c20(r, cnt)
    return f, cnt, ''


def one_c03(r, cnt):
    k = r.randrange(5)
    d = {rstr(r): rval(r) for _ in range(r.choice((0, 1, 1, 2, 3, 6)))}
    if k in (0, 1):
        cnt['roundtrip'] = cnt.get('roundtrip', 0) + 1
        d0 = dict(d)
        finite = all(not isinstance(v, float) or math.isfinite(v) for v in d.values())
        try:
            b = freeze_basic_mapping(d)
        except (ValueError, TypeError) as e:
            if finite:
                return fail('refuses %r: %r' % (d0, e))
            return None
        except Exception as e:
            return fail('freeze(%r) raises %r' % (d0, e))
        if type(b) is not bytes:
            return fail('freeze(%r) returns %r' % (d0, b))
        if any(d0[x] is not d.get(x) for x in d0) or len(d) != len(d0):
            return fail('freeze changes its argument')
        try:
            e = thaw_basic_mapping(r.choice((bytes, bytearray))(b))
        except Exception as x:
            return fail('thaw(freeze(%r)) raises %r' % (d0, x))
        if not same(d0, e):
            return fail('thaw(freeze(%r)) = %r' % (d0, e))
    elif k == 2:
        cnt['refuse'] = cnt.get('refuse', 0) + 1
        items = list(d.items())
        if r.random() < .5:
            items.insert(r.randrange(len(items) + 1), (rstr(r) + 'x', bad_val(r)))
        else:
            items.insert(r.randrange(len(items) + 1), (r.choice((1, None, b'a', True, 1.5, ())), rval(r)))
        d = dict(items)
        if all(type(x) is str for x in d) and all(v is None or isinstance(v, (str, bytes, bytearray, int, float, complex)) for v in d.values()):
            return None
        try:
            b = freeze_basic_mapping(d)
        except (ValueError, TypeError):
            return None
        except Exception as e:
            return fail('freeze(%r) raises %r' % (d, e))
        return fail('freeze accepts %r' % (d,))
    elif k == 3:
        cnt['malformed'] = cnt.get('malformed', 0) + 1
        if r.random() < .5:
            try:
                buf = mutate(r, freeze_basic_mapping(d))
            except (ValueError, TypeError):
                return None
        elif r.random() < .7:
            buf = r.choice(TEXTS)
        else:
            buf = r.randbytes(r.randrange(20))
        try:
            e = thaw_basic_mapping(buf)
        except ThawError:
            return None
        except Exception as x:
            return fail('thaw(%r) raises %r' % (buf[:200], x))
        if not is_basic(e):
            return fail('thaw(%r) returns %r' % (buf[:200], e))
    else:
        cnt['checksum'] = cnt.get('checksum', 0) + 1
        key = r.choice((None, b'k' * 32, b''))
        d = {k.encode('utf-8', 'replace').decode(): (v.encode('utf-8', 'replace').decode() if isinstance(v, str) else v)
             for k, v in d.items() if not isinstance(v, complex)}
        e = dict(d)
        what = r.randrange(8)
        expect_same = False
        if what == 0:
            items = list(e.items())
            r.shuffle(items)
            e = dict(items)
            expect_same = True
        elif what == 1:
            e['signature'] = r.randbytes(32)
            d['signature'] = r.choice((b'', r.randbytes(32), 'x'))
            if r.random() < .5:
                del d['signature']
            expect_same = True
        elif what == 2 and e:
            k = r.choice(list(e))
            del e[k]
            if k == 'signature':
                return None
        elif what == 3 and e:
            k = r.choice(list(e))
            if k == 'signature':
                return None
            v = e[k]
            e[k] = r.choice([rval(r), 1 if v is True else str(v), str(v).encode('utf-8', 'replace') if v is not None else '',
                             None, float(v) if isinstance(v, int) and abs(v) < 1e300 else 0, bool(v)])
            if isinstance(e[k], complex) or isinstance(e[k], str) and '\ud800' in e[k]:
                return None
            if type(e[k]) is type(v) and (e[k] == v or v != v) or isinstance(v, bytearray) or isinstance(e[k], bytearray):
                return None
        elif what == 4 and e:
            k = r.choice(list(e))
            if k == 'signature':
                return None
            v = e.pop(k)
            k2 = k + r.choice(('x', '\0s', '\0', 's'))
            if k2 in e or k2 == 'signature':
                return None
            e[k2] = v
        elif what == 5:
            # move a part of the encoding from one entry to another
            a, b, c = (r.choice(('x', 'y', '', '\0', 'a')) for _ in range(3))
            d = {'a': a, 'b' + c: b}
            e = {'a': a + '\0b' + c + r.choice(('\0s', '')) + b}
        elif what == 6:
            a, b = (r.choice((b'x', b'', b'\0', b'b', b'\1\0\0\0')) for _ in range(2))
            d = {'a': a, 'b': b}
            e = {'a': a + b'b' + b}
        else:
            a = r.choice(('', 'x'))
            d = {'a' + a: None, 'b': None}
            e = {'a' + a + r.choice(('\0nb', 'b', '\0n\0b')): None}
        try:
            x, y = checksum_basic_mapping(d, key), checksum_basic_mapping(e, key)
        except Exception as ex:
            if any(isinstance(v, str) and '\ud800' in v or '\ud800' in k for z in (d, e) for k, v in z.items()):
                return None
            return fail('checksum of %r or %r raises %r' % (d, e, ex))
        eq = {k: v for k, v in d.items() if k != 'signature'} == {k: v for k, v in e.items() if k != 'signature'} and \
            all(type(d[k]) is type(e[k]) for k in d if k != 'signature')
        if (expect_same or eq) and x != y and all(v == v for v in d.values()):
            return fail('checksums of %r and %r (key %r) differ' % (d, e, key))
        if not expect_same and not eq and x == y:
            return fail('%r and %r have the same checksum' % (d, e))
        if checksum_basic_mapping(d, b'other') == x:
            return fail('checksum does not depend on the key')
    return None


def one_c20(r, cnt):
    cnt['literal'] = cnt.get('literal', 0) + 1
    types = [int, bytes, str, bool, float, tuple, type(None)]
    vals = [0, 1, -5, True, False, b'', b'abc\xff', 'x', None, 1.5, (1, b'a'), (1,), [1], {}, (True, b'x'), (1, 'x'), (1, b'x', 2),
            (b'x', 1), [1, b'x'], 2**70, (1, (b'x',)), (1, 2), ((1, b'x'),)]
    v = r.choice(vals)
    buf = repr(v).encode()
    if r.random() < .4:
        buf = mutate(r, buf)
    elif r.random() < .3:
        buf = r.choice(TEXTS)
    try:
        want = ast.literal_eval(buf.decode())
        ok = True
    except Exception:
        want, ok = None, False
    if r.random() < .5:
        t = r.choice(types)
        try:
            got = parse_literal(buf, t)
        except ValueError:
            if ok and type(want) is t:
                return fail('parse_literal(%r, %s) refused' % (buf[:100], t.__name__))
            return None
        except Exception as e:
            return fail('parse_literal(%r, %s) raises %r' % (buf[:100], t.__name__, e))
        if not ok or type(want) is not t or type(got) is not t or got != want:
            return fail('parse_literal(%r, %s) = %r' % (buf[:100], t.__name__, got))
    else:
        ts = r.choice(((int, bytes), (int, int), (bytes, int), (int, str), (bool, bytes)))
        good = ok and type(want) is tuple and len(want) == len(ts) and all(type(x) is t for x, t in zip(want, ts))
        try:
            got = parse_literal_tuple(buf, ts)
        except ValueError:
            if good:
                return fail('parse_literal_tuple(%r, %s) refused' % (buf[:100], ts))
            return None
        except Exception as e:
            return fail('parse_literal_tuple(%r, %s) raises %r' % (buf[:100], ts, e))
        if not good or got != want:
            return fail('parse_literal_tuple(%r, %s) = %r' % (buf[:100], ts, got))
    return None
