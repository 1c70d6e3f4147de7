"""Compressing and encrypting layer (C01, C02): random objects stored and fetched over a store in memory, from files with short reads,
and every kind of damage to what is stored."""
from __future__ import annotations
import io, random, bz2, lzma, zlib, struct
import trio
import pyvc.purepy
from s3ql import BUFSIZE
from s3ql.authinfo import CompressAlgorithm, CompressSpec
from s3ql.backends.comprenc import AsyncComprencBackend, ObjectNotEncrypted
from s3ql.backends.common import CorruptedObjectError, NoSuchObject
from s3ql.common import copyfh
from drivers import membackend

RULE = ('objects of sizes around multiples of the buffer size, with every algorithm and level, with and without passphrase, from files with short '
        'reads and start offsets, are stored and fetched back; stored data and metadata are damaged, swapped, truncated, extended or replaced '
        'by unencrypted objects, and must be refused with the documented errors')

SECRET = 'S3CRET-plain-text-marker'


class Short(io.RawIOBase):
    """file of a type of its own whose reads return less than asked for"""
    def __init__(self, data, r, most):
        self.b, self.r, self.most = io.BytesIO(data), r, most

    def readable(self):
        return True

    def seekable(self):
        return True

    def read(self, n=-1):
        rest = len(self.b.getbuffer()) - self.b.tell()
        if n is None or n < 0:
            n = rest
        n = min(n, rest)
        return self.b.read(max(1, min(n, self.r.randrange(1, self.most + 1))) if n else 0)

    def seek(self, *a):
        return self.b.seek(*a)

    def tell(self):
        return self.b.tell()


def cases(prop, seed, n, kw):
    for s in range(n):
        yield (seed, s)


def rsize(r):
    k = r.random()
    if k < .35:
        return r.choice((0, 1, 2, 3, 4, 5, 31, 32, 36, 100, 255))
    if k < .7:
        return r.randrange(20000)
    if k < .95:
        return max(0, BUFSIZE * r.randrange(1, 3) + r.randrange(-6, 7))
    return BUFSIZE * 2 + r.randrange(100000)


def rdata(r, n):
    k = r.random()
    m = SECRET.encode()
    if k < .4:
        d = r.randbytes(n)
    elif k < .7:
        d = bytes([r.randrange(256)]) * n
    else:
        d = (r.randbytes(min(n, 50)) * (n // 50 + 1))[:n]
    if n >= len(m) + 10:
        p = r.randrange(n - len(m))
        d = d[:p] + m + d[p + len(m):]
    return d


def rmeta(r):
    if r.random() < .2:
        return None
    vals = (1, -5, 2 ** 70, 'v', b'\x00\xff', True, False, None, 1.5, 2j, '', SECRET, SECRET.encode(), 'x' * 300, '\u20ac\0')
    return {r.choice(('a', 'b', 'size', '_size', '__siz', 'k\n', '\u20ac', 'data', 'nonce')): r.choice(vals) for _ in range(r.randrange(4))}


def same(a, b):
    return set(a) == set(b) and all(type(a[k]) is type(b[k]) and a[k] == b[k] for k in a)


def leak(x):
    if isinstance(x, str):
        return SECRET in x
    return isinstance(x, bytes) and SECRET.encode() in x


def fail(prop, msg, **kw):
    return dict(tags=[prop], msg=msg, **kw)


def run_case(case, prop):
    seed, s = case
    r = random.Random('%s/%s/comprenc' % (seed, s))
    counts = {}
    f = trio.run(store if prop == 'C01' else tamper, r, counts)
    if f is not None:
        f['case'] = repr(case)
    return f, counts, ''


async def make(r, pw=None, alg=None):
    alg = alg or r.choice(('none', 'zlib', 'bzip2', 'lzma'))
    level = r.choice((0, 0, 1, 1, 2, 3, 6, 9)) if alg != 'lzma' else r.choice((0, 0, 1, 2, 6))
    raw = membackend.make_class()(r)
    be = await AsyncComprencBackend.create(pw, CompressSpec(algorithm=CompressAlgorithm(alg), level=level), raw)
    return raw, be, '%s-%d' % (alg, level)


async def store(r, counts):
    pw = r.choice((None, b'', b'pw', r.randbytes(32)))
    raw, be, spec = await make(r, pw)
    for step in range(r.randrange(1, 4)):
        n = rsize(r)
        want = rdata(r, n)
        before = r.randbytes(r.choice((0, 0, 1, 5, 1000)))
        after = r.randbytes(r.choice((0, 0, 1, 5, 1000)))
        whole = before + want + after
        kind = r.choice(('bytesio', 'short', 'short', 'store'))
        key = r.choice(('k', 's3ql_data_1', 'x/\u20ac'))
        md, dont = rmeta(r), r.random() < .3
        md0 = None if md is None else dict(md)
        info = '%s passphrase=%r data=%d of %d at %d from %s metadata=%r dont_compress=%s' % (spec, pw and pw[:4], n, len(whole), len(before), kind, md, dont)
        counts[kind] = counts.get(kind, 0) + 1
        try:
            if kind == 'store':
                ret = await be.store(key, want, md)
            else:
                fh = io.BytesIO(whole) if kind == 'bytesio' else Short(whole, r, r.choice((1000, 65537, BUFSIZE)))
                fh.seek(len(before))
                ret = await be.write_fh(key, fh, n, md, **({'dont_compress': True} if dont else {}))
        except Exception as e:
            return fail('C01', 'storing raises %r: %s' % (e, info))
        if md is not None and md != md0:
            return fail('C01', 'storing changes the mapping it is given: %s' % info)
        if ret != len(raw.d[key][0]):
            return fail('C01', 'returns %r as size of an object of %d bytes: %s' % (ret, len(raw.d[key][0]), info))
        if pw is not None:
            sd, sm = raw.d[key]
            if leak(sd) or any(leak(k) or leak(v) for k, v in sm.items()) or (n >= 16 and want in sd):
                return fail('C01', 'plaintext is handed to the backend: %s' % info)
        pos = r.choice((0, 0, 3, 500))
        out = io.BytesIO(b'\1' * pos)
        out.seek(pos)
        hint = r.choice((None, 0, n, 10 ** 9))
        try:
            got = await be.readinto_fh(key, out, size_hint=hint) if hint is not None else await be.readinto_fh(key, out)
            got2 = await be.lookup(key)
            d3, got3 = await be.fetch(key)
        except Exception as e:
            return fail('C01', 'fetching raises %r: %s' % (e, info))
        if out.getvalue() != b'\1' * pos + want or d3 != want:
            return fail('C01', 'other data comes back (%d bytes instead of %d): %s' % (len(out.getvalue()) - pos, n, info))
        for g in (got, got2, got3):
            if not same(g, md0 or {}):
                return fail('C01', 'other metadata comes back: %r: %s' % (g, info))
    # copyfh on its own
    data = r.randbytes(r.choice((0, 5, BUFSIZE - 1, BUFSIZE, BUFSIZE + 1, 2 * BUFSIZE + 3)))
    src, dst, seen = Short(data, r, r.choice((7000, BUFSIZE))), io.BytesIO(), []
    off = r.randrange(len(data) + 1)
    src.seek(off)
    ln = r.choice((None, 0, r.randrange(len(data) + 2), len(data) - off))
    copyfh(src, dst, ln, seen.append)
    want = data[off:] if ln is None else data[off:off + ln]
    if dst.getvalue() != want or b''.join(seen) != want:
        return fail('C01', 'copyfh of %s from %d of %d copies something else' % (ln, off, len(data)))
    return None


def damage(r, b, other):
    """something else than b"""
    b = bytearray(b)
    k = r.randrange(8)
    if k == 0 and b:
        b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    elif k == 1:
        del b[r.randrange(len(b) + 1):]
    elif k == 2:
        b += r.randbytes(r.choice((1, 4, 32, 36, BUFSIZE)))
    elif k == 3:
        b = bytearray(other)
    elif k == 4 and len(b) > 8:
        p = r.randrange(len(b) - 4)
        del b[p:p + r.choice((1, 4, 32))]
    elif k == 5:
        p = r.randrange(len(b) + 1)
        b[p:p] = r.randbytes(r.choice((1, 4, 36)))
    elif k == 6:
        del b[len(b) - r.choice((1, 2, 31, 32, 33, 36, 40)):]
    else:
        b += bytes(b[-36:])
    return bytes(b)


async def tamper(r, counts):
    pw = r.choice((b'pw', r.randbytes(32))) if r.random() < .85 else None
    raw, be, spec = await make(r, pw)
    K, L = r.choice((('k', 'l'), ('s3ql_data_1', 's3ql_data_11'), ('s3ql_data_11', 's3ql_data_1'), ('s3ql_data_21', 's3ql_data_1'), ('s3ql_data_1', 's3ql_data_21'), ('K', 'k'), ('s3ql_data_12', 's3ql_data_21')))
    objs = {}
    for key in (K, L):
        n = min(rsize(r), 300000)
        md = {'name': key, 'n': r.randrange(100)}
        objs[key] = (rdata(r, n), md)
        await be.store(key, objs[key][0], md)
    orig = {k: v for k, v in raw.d.items()}
    # an object made without passphrase, one with another, and an old version of the same object
    plain = {}
    for p2 in (None, b'other'):
        raw2, be2, _ = await make(r, p2)
        await be2.store(K, b'forged', {'name': K, 'n': 1})
        plain[p2] = raw2.d[K]
    for step in range(r.randrange(1, 12)):
        data, meta = orig[K]
        meta = dict(meta)
        k = r.choice(('data', 'data', 'data', 'field', 'field', 'field', 'swap', 'swapdata', 'swapmeta', 'plain', 'otherpw', 'add', 'notdict', 'missing'))
        if pw is None and k != 'data':
            k = 'data'
        what = k
        if k == 'data':
            data = damage(r, data, r.choice((orig[L][0], b'', plain[None][0])))
        elif k == 'field':
            f = r.choice(sorted(meta))
            what += ' ' + f
            if r.random() < .15:
                del meta[f]
            elif r.random() < .5 and isinstance(meta[f], bytes):
                meta[f] = damage(r, meta[f], r.choice((b'', orig[L][1][f])))
            else:
                meta[f] = r.choice((None, 0, 1, 2, 2.0, True, 1.5, 2j, '', 'None', 'AES_v2', 'AES', 'ZLIB', K, L, '\ud800', b'', b'x', orig[L][1][f], meta[f]))
        elif k == 'swap':
            data, meta = orig[L]
        elif k == 'swapdata':
            data = orig[L][0]
        elif k == 'swapmeta':
            meta = orig[L][1]
        elif k == 'plain':
            data, meta = plain[None]
            if r.random() < .5:
                meta = dict(orig[K][1], encryption='None', data=meta['data'])
        elif k == 'otherpw':
            data, meta = plain[b'other']
        elif k == 'add':
            meta[r.choice(('payload_offset', 'x', '\ud800', 'a' * 100))] = r.choice((0, 4, 5, 2j, '\ud800', None, b''))
        elif k == 'notdict':
            meta = r.choice((b'x', 'x', None, [], 5))
        if k == 'missing':
            raw.d.pop(K)
        elif data == orig[K][0] and isinstance(meta, dict) and same(meta, orig[K][1]):
            continue
        else:
            raw.d[K] = (data, meta)
        counts[k] = counts.get(k, 0) + 1
        info = '%s passphrase=%s tampering=%s stored data %d bytes, now %d; metadata now %r' % (
            spec, pw is not None, what, len(orig[K][0]), len(data), meta)
        metasame = isinstance(meta, dict) and k != 'missing' and same(meta, orig[K][1])
        ok = (CorruptedObjectError, ObjectNotEncrypted) if k != 'missing' else (NoSuchObject,)
        raw_lookup = raw.lookup
        if k == 'notdict':
            async def lk(key, m=meta):
                return m

            async def rd(key, fh, m=meta):
                fh.write(orig[K][0])
                return m
            raw.lookup, raw.readinto_fh = lk, rd
        for op in ('lookup', 'readinto_fh', 'fetch'):
            try:
                if op == 'lookup':
                    got = await be.lookup(K)
                    if metasame and got == objs[K][1]:
                        continue
                elif op == 'fetch':
                    d, got = await be.fetch(K)
                    if pw is None:
                        continue
                else:
                    o = io.BytesIO()
                    got = await be.readinto_fh(K, o, size_hint=r.choice((None, 0, 10 ** 6)))
                    if pw is None:
                        # nothing but the compressed format can tell without a passphrase (see below)
                        continue
            except ok as e:
                if type(e) is ObjectNotEncrypted and not (isinstance(meta, dict) and meta.get('encryption') == 'None'):
                    return fail('C02', '%s raises ObjectNotEncrypted for an encrypted object: %s' % (op, info))
                continue
            except Exception as e:
                return fail('C02', '%s raises %r: %s' % (op, e, info))
            return fail('C02', '%s succeeds: %s' % (op, info))
        if k == 'notdict':
            del raw.lookup, raw.readinto_fh
        raw.d.clear()
        raw.d.update(orig)
    # untouched objects are still there
    for key, (d, m) in objs.items():
        try:
            got, gm = await be.fetch(key)
        except Exception as e:
            return fail('C02', 'an untouched object raises %r' % e)
        if got != d or gm != m:
            return fail('C02', 'an untouched object comes back differently')
    # streams of the decompressors: truncated, damaged, followed by something
    alg = r.choice(('zlib', 'bzip2', 'lzma'))
    raw, be, spec = await make(r, None, alg)
    d = rdata(r, r.choice((0, 10, 5000)))
    await be.store(K, d, {})
    z, m = raw.d[K]
    k = r.randrange(5)
    if k == 0:
        z2 = z + r.randbytes(r.choice((1, 100, BUFSIZE, BUFSIZE + 1, 2 * BUFSIZE)))
    elif k == 1:
        z2 = z[:r.randrange(len(z))]
    elif k == 2 and alg == 'zlib':
        z2 = z[:1] + bytes([z[1] | 0x20]) + z[2:]
        h = z2[0] * 256 + (z2[1] & 0xe0)
        z2 = z2[:1] + bytes([(z2[1] & 0xe0) + (31 - h % 31) % 31]) + z2[2:]
    elif k == 2 and alg == 'lzma':
        hs = (z[12] + 1) * 4
        h = bytearray(z[12:12 + hs])
        h[2] = 0x7f
        h[-4:] = struct.pack('<I', zlib.crc32(bytes(h[:-4])))
        z2 = z[:12] + bytes(h) + z[12 + hs:]
    else:
        z2 = damage(r, z, b'')
    if z2 != z:
        counts['stream'] = counts.get('stream', 0) + 1
        raw.d[K] = (z2, m)
        try:
            got, _ = await be.fetch(K)
        except CorruptedObjectError:
            return None
        except MemoryError:
            return None
        except Exception as e:
            return fail('C02', 'a damaged %s stream raises %r' % (alg, e))
        if k in (0, 1) or got != d and alg != 'lzma':
            return fail('C02', 'a damaged %s stream (%s) is accepted' % (alg, ('followed by data', 'truncated', 'options', 'damaged', 'damaged')[k]))
    return None
