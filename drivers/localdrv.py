"""Local storage backend (C18): random histories against a dictionary, with failing file operations, damaged files,
concurrent stores and awkward keys.  Runs as an unprivileged user inside a scratch directory."""
from __future__ import annotations
import io, os, random, resource, shutil, tempfile, errno, struct, pickle
import trio
import pyvc.purepy
from s3ql.backends import local as lo
from s3ql.backends.common import NoSuchObject, CorruptedObjectError
from s3ql.common import freeze_basic_mapping

RULE = ('random histories of store/fetch/lookup/contains/get_size/delete/delete_multi/list on keys with special characters, checked '
        'against a dictionary; full disk, failing reads, renames and directory reads, damaged and truncated files, concurrent stores')

PIECES = ['/', '=', '#', '.', '..', '2', 'F', '3', 'D', 'E', '=2F', '=3D', '=23', '=2E', 'a', '1', '12', '123', '\u20ac', ' ', '%', '\\', '\n',
          '-', '.tmp', '#1-2.tmp', 's3ql_data_', '~', '0']


def cases(prop, seed, n, kw):
    for s in range(n):
        yield (seed, s)


def fail(msg, **kw):
    return dict(tags=['C18'], msg=msg, **kw)


def rkey(r):
    k = r.random()
    if k < .45:
        return 's3ql_data_%d' % r.choice((r.randrange(30), r.randrange(1200), 10 ** r.randrange(9) * r.randrange(1, 13) + r.randrange(3)))
    if k < .55:
        return 's3ql_data_' + ''.join(r.choice(PIECES) for _ in range(r.randrange(5)))
    if k < .62:
        return r.choice(('s3ql_metadata', 's3ql_params', 's3ql_params_%x' % r.randrange(4), 's3ql_metadata_%d' % r.randrange(20), 's3ql_data', 's3ql_passphrase',
                         's3ql_data_', '.', '..', '...'))
    s = ''.join(r.choice(PIECES) for _ in range(r.randrange(1, 6)))
    return s or 'k'


def rprefix(r, keys):
    k = r.random()
    if k < .15:
        return ''
    if k < .3:
        return r.choice(('s3ql_', 's3ql_data_', 's3ql_metadata_', 's3ql_data_1', 's3ql_params', 's', 's3ql_data'))
    key = r.choice(keys) if keys and k < .8 else rkey(r)
    return key[:r.randrange(len(key) + 1)]


def rdata(r):
    return r.randbytes(r.choice((0, 1, 2, 9, 100, 5000, 65536, 65537, 100000)))


def rmeta(r):
    return {r.choice(('a', 'b', 'key', 'x\n', '\u20ac')): r.choice((1, -5, 'v', b'\x00\xff', True, None, 1.5, '', 's' * 300, b'x' * 10000))
            for _ in range(r.randrange(4))}


class BrokenSource(io.BytesIO):
    def __init__(self, data, after):
        super().__init__(data)
        self.after = after

    def read(self, n=-1):
        if self.tell() >= self.after:
            raise OSError(errno.EIO, 'source')
        return super().read(n)


class ShortReads(io.BytesIO):
    """returns less than asked for"""
    def __init__(self, data, r):
        super().__init__(data)
        self.r = r

    def read(self, n=-1):
        if n is None or n < 0:
            return super().read()
        return super().read(self.r.randrange(1, n + 1) if n else 0)


def check_state(d, model):
    """files outside the storage directory"""
    base = os.path.dirname(d)
    for p in os.listdir(base):
        if p != 'store':
            return fail('a file outside the storage directory was created: %r' % p)
    up = os.path.dirname(base)
    for p in os.listdir(up):
        if p != 'b':
            return fail('a file outside the storage directory was created: ../%r' % p)
    return None


async def listing(b, prefix):
    return [k async for k in b.list(prefix)]


async def history(r, d, ops, prop):
    async def new():
        return await lo.AsyncBackend.create(storage_url='local://' + d, backend_options={}, max_connections=r.choice((1, 4)))
    b = await new()
    model = {}
    pool = [rkey(r) for _ in range(r.randrange(2, 9))]
    # relatives: keys that begin with others or differ only in special characters
    for k in list(pool):
        if r.random() < .5:
            pool.append(r.choice((k + r.choice(PIECES), k[:-1] or 'q', k.replace('/', '=2F'), k.replace('=', '/'), k + '#', k.upper())))
    pool = [k for k in pool if k and len(k.encode()) * 3 < 200]
    trace = []

    async def compare(what):
        k = r.choice(pool)
        if await b.contains(k) != (k in model):
            return fail('%s: contains(%r) is wrong' % (what, k), trace=trace)
        p = rprefix(r, pool)
        got = await listing(b, p)
        want = sorted(x for x in model if x.startswith(p))
        if sorted(got) != want:
            return fail('%s: list(%r) = %r instead of %r' % (what, p, sorted(got), want), trace=trace)
        if k not in model:
            for nm, f in (('lookup', b.lookup), ('get_size', b.get_size), ('fetch', b.fetch)):
                try:
                    v = await f(k)
                    return fail('%s: %s(%r) of a missing key returns %r' % (what, nm, k, v), trace=trace)
                except NoSuchObject:
                    pass
                except Exception as e:
                    return fail('%s: %s(%r) of a missing key raises %r' % (what, nm, k, e), trace=trace)
            return None
        data, meta, size = model[k]
        if await b.lookup(k) != meta:
            return fail('%s: lookup(%r) returns other metadata' % (what, k), trace=trace)
        if size is not None and await b.get_size(k) != size:
            return fail('%s: get_size(%r) is wrong' % (what, k), trace=trace)
        off = r.choice((0, 7))
        fh = io.BytesIO(b'z' * off)
        fh.seek(off)
        m = await b.readinto_fh(k, fh)
        if m != meta or {x: type(y) for x, y in m.items()} != {x: type(y) for x, y in meta.items()}:
            return fail('%s: reading %r returns other metadata: %r' % (what, k, m), trace=trace)
        if fh.getvalue() != b'z' * off + data:
            return fail('%s: reading %r returns other data' % (what, k), trace=trace)
        return None

    for n in range(r.randrange(4, 14)):
        op = r.choice(('store', 'store', 'store', 'delete', 'delete_multi', 'missing', 'full', 'eio', 'rename', 'concurrent', 'walk', 'reopen',
                       'damage', 'toolarge', 'listdel', 'noread'))
        k = r.choice(pool)
        data, meta = rdata(r), rmeta(r)
        trace.append((op, k, len(data)))
        ops[op] = ops.get(op, 0) + 1
        if op == 'store':
            fh = r.choice((io.BytesIO, lambda x: ShortReads(x, r)))(data)
            fh.seek(r.choice((0, 0, len(data), len(data) // 2)))
            try:
                size = await (b.write_fh(k, fh, meta) if meta or r.random() < .5 else b.write_fh(k, fh))
            except Exception as e:
                return fail('storing %r failed: %r' % (k, e), trace=trace)
            model[k] = (data, meta, size)
        elif op == 'reopen':
            b = await new()
        elif op == 'delete':
            try:
                await b.delete(k)
            except Exception as e:
                return fail('deleting %r failed: %r' % (k, e), trace=trace)
            model.pop(k, None)
        elif op == 'delete_multi':
            ks = r.sample(pool, r.randrange(len(pool) + 1))
            ks = list(dict.fromkeys(ks))
            ks2 = list(ks)
            if ks and r.random() < .4:
                # one deletion fails
                bad = r.randrange(len(ks))
                nun = [0]
                real = os.unlink

                def unlink(p, *a, **kw):
                    nun[0] += 1
                    if nun[0] > bad:
                        raise OSError(errno.EIO, 'unlink')
                    return real(p, *a, **kw)
                os.unlink = unlink
                try:
                    await b.delete_multi(ks2)
                    err = None
                except OSError as e:
                    err = e
                except BaseExceptionGroup as e:
                    err = e
                finally:
                    os.unlink = real
                if nun[0] > bad and err is None:
                    return fail('delete_multi hides an error', trace=trace)
                gone = [x for x in ks if x not in ks2]
                for x in gone:
                    model.pop(x, None)
                for x in ks2:
                    if x in model and not await b.contains(x) or x not in ks:
                        return fail('delete_multi leaves %r in the list although it was deleted' % x, trace=trace)
            else:
                await b.delete_multi(ks2)
                if ks2:
                    return fail('delete_multi leaves %r in the list' % ks2, trace=trace)
                for x in ks:
                    model.pop(x, None)
        elif op == 'full':
            # the disk is full: part of the data can be written
            hdr = 9 + len(freeze_basic_mapping(meta))
            total = hdr + len(data)
            lim = r.choice((0, 1, hdr, max(0, total - 1), max(0, total - 1), max(0, total - 100), total // 2, total))
            soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, hard))
            try:
                size = await b.write_fh(k, io.BytesIO(data), meta)
                ok = True
            except OSError:
                ok = False
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
            if ok:
                model[k] = (data, meta, size)
        elif op == 'eio':
            try:
                size = await b.write_fh(k, BrokenSource(data, r.choice((0, 1, 65536))), meta)
                model[k] = (data, meta, size)
            except OSError:
                pass
        elif op == 'rename':
            real, hit = (os.rename, os.replace), []

            def ren(*a, **kw):
                hit.append(a)
                raise OSError(errno.EIO, 'rename')
            os.rename = os.replace = ren
            try:
                size = await b.write_fh(k, io.BytesIO(data), meta)
                if hit:
                    os.rename, os.replace = real
                    return fail('storing %r reports success although it could not be renamed' % k, trace=trace)
                model[k] = (data, meta, size)
            except OSError:
                pass
            finally:
                os.rename, os.replace = real
        elif op == 'toolarge':
            try:
                size = await b.write_fh(k, io.BytesIO(data), {'x': 'y' * r.choice((65400, 70000, 65536 * 2))})
                got = await b.lookup(k)
                if len(got.get('x', '')) < 65400:
                    return fail('metadata of %r is cut' % k, trace=trace)
                model[k] = (data, got, size)
            except ValueError:
                pass
        elif op == 'concurrent':
            vals = [(r.randbytes(r.choice((0, 100, 70000, 200000))), {'n': j}) for j in range(r.randrange(2, 4))]
            errs = []

            async def one(v):
                try:
                    await b.write_fh(k, io.BytesIO(v[0]), v[1])
                except Exception as e:
                    errs.append(e)
            async with trio.open_nursery() as nur:
                for v in vals:
                    nur.start_soon(one, v)
            if errs:
                return fail('storing %r while it is being stored fails: %r' % (k, errs[0]), trace=trace)
            fh = io.BytesIO()
            m = await b.readinto_fh(k, fh)
            if (fh.getvalue(), m) not in vals:
                return fail('concurrent stores of %r are mixed up' % k, trace=trace)
            model[k] = (fh.getvalue(), m, None)
        elif op == 'walk':
            # a directory cannot be read: the listing must not just be shorter
            real = os.scandir
            subs = [p for p, _, _ in os.walk(d)]
            bad = r.choice(subs)

            def scandir(p='.'):
                if os.path.normpath(os.fspath(p)) == os.path.normpath(bad):
                    raise PermissionError(errno.EACCES, 'scandir')
                return real(p)
            os.scandir = scandir
            p = rprefix(r, pool)
            try:
                got = await listing(b, p)
            except OSError:
                got = None
            finally:
                os.scandir = real
            if got is not None and sorted(got) != sorted(x for x in model if x.startswith(p)):
                return fail('list(%r) leaves out %r when a directory cannot be read' % (p, [x for x in model if x.startswith(p) and x not in got]),
                            trace=trace)
        elif op == 'listdel':
            # deleting and adding while listing: keys that stay are listed once
            p = rprefix(r, pool)
            victim, extra = r.choice(pool), r.choice(pool)
            seen, first = [], True
            async for x in b.list(p):
                seen.append(x)
                if first:
                    first = False
                    await b.delete(victim)
                    new_extra = extra not in model and extra != victim
                    if new_extra:
                        size = await b.write_fh(extra, io.BytesIO(data), meta)
            if not first:
                stay = [x for x in model if x.startswith(p) and x != victim]
                bad = [x for x in stay if seen.count(x) != 1] + [x for x in seen if x not in model and x != extra]
                if bad:
                    return fail('list(%r) during changes: %r listed %d times' % (p, bad[0], seen.count(bad[0])), trace=trace)
                model.pop(victim, None)
                if new_extra:
                    model[extra] = (data, meta, size)
        elif op in ('damage', 'noread'):
            # a file that is cut or overwritten is reported, not returned as something else
            kk = 'dmg%d' % n
            await b.write_fh(kk, io.BytesIO(data), meta)
            fn = None
            for p, _, fs in os.walk(d):
                for f in fs:
                    if f == kk:
                        fn = os.path.join(p, f)
            if fn is None:
                await b.delete(kk)
                continue
            if op == 'noread':
                real = io.FileIO.read
                os.chmod(fn, 0)
                try:
                    await b.fetch(kk)
                    res = None
                    if os.geteuid() != 0:
                        res = fail('an unreadable object is returned', trace=trace)
                except NoSuchObject:
                    res = fail('an unreadable object is reported as missing', trace=trace)
                except OSError:
                    res = None
                os.unlink(fn)
                if res:
                    return res
            else:
                buf = open(fn, 'rb').read()
                hdr = len(buf) - len(data)
                how = r.randrange(5)
                if how == 0:
                    bad = buf[:r.randrange(hdr)]
                elif how == 1:
                    j = r.randrange(7)
                    bad = buf[:j] + bytes([buf[j] ^ (1 << r.randrange(8))]) + buf[j + 1:]
                elif how == 2:
                    bad = b''
                elif how == 3:
                    bad = r.randbytes(r.randrange(1, 40))
                else:
                    bad = buf[:9] + bytes([buf[9] ^ 0x55]) + buf[10:]
                with open(fn, 'wb') as fh:
                    fh.write(bad)
                for nm, f in (('fetch', b.fetch), ('lookup', b.lookup)):
                    try:
                        v = await f(kk)
                        return fail('%s returns %.80r from a damaged file (%d)' % (nm, v, how), trace=trace)
                    except CorruptedObjectError:
                        pass
                    except Exception as e:
                        return fail('%s of a damaged file raises %r (%d)' % (nm, e, how), trace=trace)
                os.unlink(fn)
        f = await compare('after %s' % op)
        f = f or check_state(d, model)
        if f:
            return f
        if len(set(trace)) and n % 4 == 3:
            got = await listing(b, '')
            if sorted(got) != sorted(model):
                return fail('list() = %r instead of %r' % (sorted(got), sorted(model)), trace=trace)
    # everything, again
    for k in list(model):
        got = await b.fetch(k)
        if got != (model[k][0], model[k][1]):
            return fail('%r is not returned as stored' % k, trace=trace)
        for p in [k[:j] for j in range(len(k) + 1)]:
            got = await listing(b, p)
            if sorted(got) != sorted(x for x in model if x.startswith(p)):
                return fail('list(%r) = %r instead of %r' % (p, sorted(got), sorted(x for x in model if x.startswith(p))), trace=trace)
    return None


def run_case(case, prop):
    seed, s = case
    r = random.Random('%s/%s/local' % (seed, s))
    ops = {}
    root = tempfile.mkdtemp(prefix='local')
    top = tempfile.gettempdir()
    uid = os.geteuid()
    try:
        d = os.path.join(root, 'a', 'b', 'store')
        os.makedirs(d)
        if uid == 0:
            p = root
            while p != '/' and p.startswith(top):
                os.chmod(p, os.stat(p).st_mode & 0o7777 | 0o711)
                p = os.path.dirname(p)
            for p in (root, root + '/a', root + '/a/b', d):
                os.chown(p, 65534, 65534)
            os.seteuid(65534)
        try:
            f = trio.run(history, r, d, ops, prop)
        finally:
            if uid == 0:
                os.seteuid(0)
        if f:
            f['case'] = repr(case)
        return f, ops, repr(case)
    finally:
        shutil.rmtree(root, ignore_errors=True)
