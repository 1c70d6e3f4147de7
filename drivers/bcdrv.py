"""Block cache (C07, C10): several tasks write, read, truncate, remove, flush, drop and evict blocks of the real BlockCache over a
store in memory, with cancelled requests, failing uploads and downloads and writes that the operating system cuts short."""
from __future__ import annotations
import errno, hashlib, io, logging, os, random, shutil, tempfile
import trio, trio.testing
import pyvc.purepy
from s3ql import block_cache
from s3ql.backends.common import NoSuchObject
from s3ql.database import Connection, create_tables

RULE = ('random concurrent sequences of write, read, truncate, remove, flush, start_flush, evict and drop on the block cache with small limits '
        'and few distinct block contents, over a store whose transfers take several steps; modes: undisturbed, requests cancelled at '
        'arbitrary steps, an upload or download that fails, writes to the cache file cut short or failing; after every step: sharing only '
        'with stored objects, clean blocks equal what the database maps them to, nothing in use deleted, sizes add up')


class Fail(Exception):
    def __init__(self, tags, msg):
        super().__init__(msg)
        self.tags, self.msg = tags, msg


class Boom(Exception):
    pass


class Store:
    """what BlockCache needs of a backend"""
    def __init__(self, r, conns, threads):
        self.r, self.max_connections, self.max_threads = r, conns, threads
        self.d, self.deleted, self.failed = {}, set(), set()
        self.fail_put = self.fail_get = 0
        self.on_delete = None
        self.slow = r.choice((1, 3, 8, 30))
        self.puts = 0

    async def pause(self, n=None):
        for _ in range(self.r.randrange(n or self.slow)):
            await trio.lowlevel.checkpoint()

    async def write_fh(self, key, fh, len_=None, **kw):
        assert key not in self.d, 'object %s written twice' % key
        out = b''
        fh.seek(0)
        while True:
            b = fh.read(self.r.choice((1, 3, 100)))
            if not b:
                break
            out += b
            await self.pause()
        if self.fail_put and self.r.random() < self.fail_put:
            self.failed.add(key)
            raise Boom('upload')
        await trio.lowlevel.checkpoint()
        if len_ is not None and len(out) != len_:
            raise Fail('C07', 'object %s: announced %d bytes, the file has %d' % (key, len_, len(out)))
        self.d[key] = out
        self.puts += 1
        return len(out) + 7

    async def readinto_fh(self, key, fh, size_hint=None, **kw):
        await self.pause()
        if key not in self.d:
            raise NoSuchObject(key)
        d = self.d[key]
        k = self.r.randrange(len(d) + 1)
        fh.write(d[:k])
        await self.pause()
        if self.fail_get and self.r.random() < self.fail_get:
            raise Boom('download')
        fh.write(d[k:])

    async def delete_multi(self, keys):
        keys = list(keys)
        for k in keys:
            if k in self.deleted:
                raise Fail('C07', 'object %s deleted twice' % k)
            if k not in self.d:
                raise Fail('C07', 'object %s deleted, but it is not stored' % k)
            self.deleted.add(k)
            self.on_delete(k)
        await self.pause()
        for k in keys:
            del self.d[k]


class CutFile(io.FileIO):
    """file on a device where writes are cut short, and sometimes fail afterwards"""
    rng = None
    fail = 0

    def write(self, b):
        r = CutFile.rng
        b = bytes(b)
        if len(b) > 1 and r.random() < .6:
            b = b[:r.randrange(1, len(b))]
        elif r.random() < CutFile.fail:
            raise OSError(errno.ENOSPC, 'device full')
        return super().write(b)


class OpsStub:
    failsafe = False


MODES = ('plain', 'cancel', 'plain', 'failput', 'cut', 'failget', 'cancel', 'plain')


def cases(prop, seed, n, kw):
    for s in range(n):
        yield (seed, s)


def sha(b):
    return hashlib.sha256(b).digest()


class Run:
    def __init__(self, r, mode, d):
        self.r, self.mode, self.dir = r, mode, d
        self.model = {}                       # (inode, blockno) -> bytes; what reads must give
        self.busy = {}                        # blocks that are being changed right now
        self.counts = {}
        self.steps = 0
        self.writers = 0
        self.pool = [r.randbytes(r.choice((0, 1, 5, 20))) for _ in range(r.choice((1, 3, 6)))]
        self.scopes = set()

    def cnt(self, k):
        self.counts[k] = self.counts.get(k, 0) + 1

    # ---- state that can be inspected between any two steps
    def rows(self):
        o = {x[0]: x[1:] for x in self.db.query('SELECT id, hash, refcount, phys_size, length FROM objects')}
        b = {(x[0], x[1]): x[2] for x in self.db.query('SELECT inode, blockno, obj_id FROM inode_blocks')}
        return o, b

    def check(self, quiet=False):
        o, b = self.rows()
        use = {}
        for k, x in b.items():
            use[x] = use.get(x, 0) + 1
            if x not in o:
                raise Fail('C07', 'block %r refers to object %d, which is not in the database' % (k, x))
        hashes = [v[0] for v in o.values() if v[0] is not None]
        if len(set(hashes)) != len(hashes):
            raise Fail('C07', 'two objects with the same checksum')
        for x, (h, rc, ps, ln) in o.items():
            if rc < use.get(x, 0) or quiet and rc != use.get(x, 0):
                raise Fail('C07', 'object %d: reference count %d, but %d blocks refer to it' % (x, rc, use.get(x, 0)))
            key = 's3ql_data_%d' % x
            if x in self.bc.in_flight_uploads:
                if quiet:
                    raise Fail('C07', 'object %d is still being uploaded' % x)
            elif h is not None:
                if key not in self.store.d:
                    raise Fail('C07,C10', 'object %d can be shared, but it is not stored and not being uploaded' % x)
                if sha(self.store.d[key]) != h or ln != len(self.store.d[key]):
                    raise Fail('C07', 'object %d is not what the database says' % x)
                if ps != len(self.store.d[key]) + 7:
                    raise Fail('C07', 'object %d: stored size recorded as %d' % (x, ps))
        c = self.bc.cache
        tot = 0
        for key, el in list(c.items()):
            path = '%s/cache/%d-%d' % (self.dir, *key)
            if (el.inode, el.blockno) != key:
                raise Fail('C10', 'block %r cached as %r' % ((el.inode, el.blockno), key))
            try:
                data = open(path, 'rb').read()
            except FileNotFoundError:
                raise Fail('C10', 'cache file of block %r is missing' % (key,))
            if len(data) != el.size:
                raise Fail('C10', 'block %r: size %d, the file has %d bytes' % (key, el.size, len(data)))
            tot += el.size
            if key in self.busy:
                continue
            if data != self.model.get(key, b''):
                raise Fail('C10', 'cached block %r holds %r, written was %r' % (key, data, self.model.get(key)))
            if not el.dirty and key in b and o[b[key]][0] not in (None, sha(data)):
                raise Fail('C07', 'block %r is not marked as modified, but the database maps it to object %d, which differs' % (key, b[key]))
            if not el.dirty and key not in b and data:
                raise Fail('C07', 'block %r is not marked as modified, but is not in the database' % (key,))
        if not self.writers and c.size != tot:
            raise Fail('C10', 'cache size is %d, blocks have %d' % (c.size, tot))
        for key, data in self.model.items():
            if key in self.busy or key in c:
                continue
            if key not in b:
                if data:
                    raise Fail('C10', 'block %r is neither cached nor in the database' % (key,))
                continue
            h = o[b[key]][0]
            if h is not None and h != sha(data):
                raise Fail('C10', 'modified block %r was dropped from the cache, the database has something else' % (key,))
        if c.max_entries != self.max_entries and not self.dropping:
            raise Fail('C10', 'number of entries is limited to %d, configured %d' % (c.max_entries, self.max_entries))
        if quiet:
            have, want = {int(k[10:]) for k in self.store.d}, {x for x in o if o[x][0] is not None}
            if want - have or (have - set(o) and self.mode in ('plain', 'cut', 'failget')):
                raise Fail('C07', 'stored objects %r, objects in the database %r' % (sorted(have), sorted(o)))

    def on_delete(self, key):
        x = int(key[10:])
        o, b = self.rows()
        if x in o or x in b.values():
            raise Fail('C07', 'object %d is deleted while the database refers to it' % x)
        if x in self.bc.in_flight_uploads:
            raise Fail('C07', 'object %d is deleted while it is being uploaded' % x)

    # ---- requests
    def data(self):
        r = self.r
        return r.choice(self.pool) if r.random() < .6 else r.randbytes(r.randrange(1, 12))

    async def op_write(self, key):
        r = self.r
        d = self.data()
        off, lim = self.limit(key, d)
        async with self.bc.get(*key, **lim) as el:
            old = self.model.get(key, b'')
            self.same(key, el, old)
            self.busy[key] = True
            self.writers += 1
            try:
                if r.random() < .3:
                    await trio.lowlevel.checkpoint()
                el.seek(off)
                n0 = el.size
                try:
                    el.write(d)
                except OSError:
                    path = '%s/cache/%d-%d' % (self.dir, *key)
                    self.model[key] = open(path, 'rb').read()
                    if not el.dirty:
                        raise Fail('C10', 'block changed by a failed write is not marked as modified')
                    if el.size != len(self.model[key]):
                        raise Fail('C10', 'after a failed write the block has %d bytes, recorded %d' % (len(self.model[key]), el.size))
                    raise
                if d:
                    new = old + b'\0' * (off - len(old))
                    self.model[key] = new[:off] + d + new[off + len(d):]
                else:
                    self.model.setdefault(key, b'')
                if el.pos != off + len(d) or el.tell() != off + len(d):
                    raise Fail('C10', 'position %d after writing %d bytes at %d' % (el.pos, len(d), off))
                path = '%s/cache/%d-%d' % (self.dir, *key)
                if open(path, 'rb').read() != self.model[key]:
                    raise Fail('C10', 'file of block %r is not what was written' % (key,))
                if d and not el.dirty:
                    raise Fail('C10', 'block not marked as modified by a write')
                if r.random() < .3:
                    await trio.lowlevel.checkpoint()
            finally:
                self.writers -= 1
                del self.busy[key]

    def limit(self, key, d):
        r = self.r
        el = self.bc.cache.get(key, None)
        n = el.size if el is not None else len(self.model.get(key, b''))
        off = r.choice((0, 0, n, n + 2, r.randrange(n + 1)))
        return off, {} if r.random() < .3 else dict(max_write=off + len(d) - 1)

    def same(self, key, el, old):
        path = '%s/cache/%d-%d' % (self.dir, *key)
        got = open(path, 'rb').read()
        if got != old or el.size != len(old):
            raise Fail('C10', 'block %r: cache gives %r, written was %r' % (key, got, old))

    async def op_read(self, key):
        async with self.bc.get(*key) as el:
            self.model.setdefault(key, b'')
            old = self.model[key]
            el.seek(0)
            got = el.read(10 ** 6)
            if got != old:
                raise Fail('C10', 'block %r: read %r, written was %r' % (key, got, old))
            k = self.r.randrange(len(old) + 1)
            el.seek(k)
            n = self.r.randrange(len(old) + 3)
            if el.read(n) != old[k:k + n] or el.tell() != min(k + n, len(old)):
                raise Fail('C10', 'block %r: reading %d bytes at %d' % (key, n, k))
            if el.seek(0, os.SEEK_END) != len(old) or el.tell() != len(old):
                raise Fail('C10', 'block %r: end is not at %d' % (key, len(old)))

    async def op_trunc(self, key):
        async with self.bc.get(*key) as el:
            old = self.model.get(key, b'')
            self.busy[key] = True
            self.writers += 1
            try:
                n = self.r.randrange(len(old) + 4)
                if self.r.random() < .3:
                    el.seek(n)
                    el.truncate()
                else:
                    el.truncate(n)
                self.model[key] = old[:n] + b'\0' * (n - len(old))
                if self.r.random() < .3:
                    await trio.lowlevel.checkpoint()
            finally:
                self.writers -= 1
                del self.busy[key]
        # (what the file holds is compared by check)

    async def op_remove(self, ino):
        r = self.r
        s = r.randrange(4)
        e = r.choice((None, s + 1, s + 2, 5, s))
        rng = range(s, s + 1 if e is None else e)
        for b in rng:
            self.busy[ino, b] = True
        try:
            await (self.bc.remove(ino, s) if e is None else self.bc.remove(ino, s, e))
            for b in rng:
                self.model.pop((ino, b), None)
                if (ino, b) in self.bc.cache or os.path.exists('%s/cache/%d-%d' % (self.dir, ino, b)):
                    raise Fail('C10', 'block %r is still in the cache after it was removed' % ((ino, b),))
                if self.db.has_val('SELECT 1 FROM inode_blocks WHERE inode=? AND blockno=?', (ino, b)):
                    raise Fail('C07', 'block %r is still in the database after it was removed' % ((ino, b),))
        except BaseException:
            o, bl = self.rows()
            for b in rng:
                if (ino, b) not in self.bc.cache and (ino, b) not in bl:
                    self.model.pop((ino, b), None)
            raise
        finally:
            for b in rng:
                del self.busy[ino, b]

    async def op_drop(self):
        self.dropping += 1
        try:
            await self.bc.drop()
            quiet = self.actors == 1
            if quiet and len(self.bc.cache):
                raise Fail('C10', '%d blocks left after dropping the cache' % len(self.bc.cache))
        finally:
            self.dropping -= 1

    async def op_flush(self):
        await self.bc.flush()
        if self.actors == 1:
            for el in self.bc.cache.values():
                if el.dirty:
                    raise Fail('C10', 'block %r is still modified after a flush' % (el.key,))

    async def op_start_flush(self, ino):
        dirty = [el for el in self.bc.cache.values() if el.dirty and (ino is None or el.inode == ino)]
        await self.bc.start_flush(ino)
        if self.actors == 1:
            o, b = self.rows()
            for el in dirty:
                if self.bc.cache.get(el.key) is el and (el.key not in b or o[b[el.key]][0] not in (None, sha(self.model[el.key]))):
                    raise Fail('C10', 'block %r is not registered in the database after start_flush' % (el.key,))

    async def op_evict(self):
        await self.bc.evict()
        c = self.bc.cache
        if c.size > c.max_size or len(c) > c.max_entries:
            raise Fail('C10', 'evict returns with %d blocks of %d bytes, limits %d and %d' % (len(c), c.size, c.max_entries, c.max_size))

    async def op_upload(self):
        els = list(self.bc.cache.values())
        if not els:
            return
        el = self.r.choice(els)
        if not await self.bc.upload_if_dirty(el):
            if self.actors == 1 and el.dirty and self.bc.cache.get(el.key) is el:
                raise Fail('C10', 'modified block %r not uploaded' % (el.key,))
        elif self.actors == 1 and self.mode != 'failput':
            if not (el.in_transit or not el.dirty):
                raise Fail('C10', 'block %r is not on its way' % (el.key,))

    async def one(self, inos):
        r = self.r
        k = r.random()
        key = (r.choice(inos), r.randrange(4))
        if k < .4:
            self.cnt('write')
            await self.op_write(key)
        elif k < .55:
            self.cnt('read')
            await self.op_read(key)
        elif k < .62:
            self.cnt('truncate')
            await self.op_trunc(key)
        elif k < .7:
            self.cnt('remove')
            await self.op_remove(key[0])
        elif k < .76:
            self.cnt('flush')
            await self.op_flush()
        elif k < .84:
            self.cnt('start_flush')
            await self.op_start_flush(r.choice((None, key[0])))
        elif k < .92:
            self.cnt('upload')
            await self.op_upload()
        elif k < .96:
            self.cnt('evict')
            await self.op_evict()
        else:
            self.cnt('drop')
            await self.op_drop()

    async def actor(self, inos, n):
        for _ in range(n):
            with trio.CancelScope() as cs:
                if self.mode == 'cancel' and self.r.random() < .5:
                    self.scopes.add(cs)
                try:
                    await self.one(inos)
                except OSError:
                    self.cnt('device full')
                except Boom as e:
                    if str(e) != 'download':
                        raise
                    self.cnt('failed download')
                finally:
                    self.scopes.discard(cs)
            if cs.cancelled_caught:
                self.cnt('cancelled')
            await trio.lowlevel.checkpoint()
        self.running -= 1

    async def watcher(self):
        while self.running:
            self.check()
            if self.scopes and self.r.random() < .1:
                self.r.choice(sorted(self.scopes, key=id)).cancel()
            self.steps += 1
            if self.steps > 60000:
                raise Fail('C10', 'no progress')
            await trio.lowlevel.checkpoint()

    async def main(self):
        r = self.r
        self.db = Connection(self.dir + '/db')
        create_tables(self.db)
        self.store = Store(r, r.choice((1, 1, 3)), r.choice((0, 0, 2)))
        self.store.on_delete = self.on_delete
        self.max_entries = r.choice((1, 2, 4, 50))
        self.dropping = 0
        done = False
        started = False
        boom = None
        try:
            async with trio.open_nursery() as n0:
                self.bc = await block_cache.BlockCache.create(
                    self.store, self.db, self.dir + '/cache', r.choice((0, 10, 40, 10 ** 6)), self.max_entries, nursery=n0)
                self.bc.fs = OpsStub()
                started = True
                if self.mode == 'failput':
                    self.store.fail_put = r.choice((.05, .3))
                if self.mode == 'failget':
                    self.store.fail_get = .3
                self.actors = r.choice((1, 1, 2, 3, 5))
                self.running = self.actors
                async with trio.open_nursery() as n1:
                    for a in range(self.actors):
                        n1.start_soon(self.actor, [10 * a + 1, 10 * a + 2][:r.choice((1, 2))], r.randrange(3, 25))
                    n1.start_soon(self.watcher)
                self.actors = 1
                self.store.fail_get = 0
                for k in range(10000):
                    if not self.bc.in_flight_uploads and not self.bc._in_transit_count:
                        break
                    await trio.lowlevel.checkpoint()
                self.check()
                keep = r.random() < .4
                await self.op_flush()
                self.check()
                await self.bc.destroy(keep_cache=keep)
                done = True
                if keep:
                    el = sorted(os.listdir(self.dir + '/cache'))
                    if el != sorted('%d-%d' % k for k in self.bc.cache):
                        raise Fail('C10', 'cache directory holds %r' % el)
            if keep:
                self.check(True)
                async with trio.open_nursery() as n0:
                    sizes = sum(os.path.getsize(self.dir + '/cache/' + x) for x in os.listdir(self.dir + '/cache'))
                    self.bc = await block_cache.BlockCache.create(
                        self.store, self.db, self.dir + '/cache', 10 ** 6, self.max_entries, nursery=n0)
                    self.bc.fs = OpsStub()
                    if self.bc.cache.size != sizes:
                        raise Fail('C10', 'cache size is %d after loading %d bytes' % (self.bc.cache.size, sizes))
                    self.check()
                    await self.bc.destroy()
        except* (Boom, trio.BrokenResourceError) as eg:
            boom = eg
        if boom is not None:
            if self.mode != 'failput':
                raise boom
            self.cnt('collapsed')
            if not started:
                return
            # the file system is going down: nothing that was not stored may be taken for stored
            self.dropping = 1
            for k in list(self.busy):
                self.busy.pop(k)
            self.writers = 1
            self.check()
            o, b = self.rows()
            use = {}
            for x in b.values():
                use[x] = use.get(x, 0) + 1
            for x, (h, rc, ps, ln) in o.items():
                if rc != use.get(x, 0):
                    raise Fail('C07', 'object %d: reference count %d, but %d blocks refer to it' % (x, rc, use.get(x, 0)))
            self.bc.cache.clear() if hasattr(self.bc.cache, 'clear') else None
            for el in list(self.bc.cache.values()):
                el.dirty = False
            return
        self.check(True)
        if self.store.d.keys() - {'s3ql_data_%d' % x for x in self.rows()[0]} and self.mode == 'plain':
            raise Fail('C07', 'unused objects left')
        o, b = self.rows()
        for key, d in self.model.items():
            if key in b:
                h = o[b[key]][0]
                if h is None:
                    continue
                got = self.store.d.get('s3ql_data_%d' % b[key])
                if got != d:
                    raise Fail('C10', 'block %r is stored as %r, written was %r' % (key, got, d))
            elif d:
                raise Fail('C10', 'block %r is not stored' % (key,))


def flat(e):
    if isinstance(e, BaseExceptionGroup):
        for x in e.exceptions:
            yield from flat(x)
    else:
        yield e


def run_case(case, prop):
    seed, s = case
    r = random.Random('%s/%s/bc' % (seed, s))
    mode = r.choice(MODES)
    d = tempfile.mkdtemp(prefix='bc')
    logging.disable(logging.CRITICAL)
    try:
        trio._core._run._r.seed('%s/%s' % (seed, s))          # the order in which trio runs tasks
    except AttributeError:
        pass
    run = Run(r, mode, d)
    had = 'open' in vars(block_cache)
    try:
        if mode == 'cut':
            CutFile.rng, CutFile.fail = r, r.choice((0, .1))
            block_cache.open = lambda name, m, b=-1, *a: CutFile(name, m.replace('b', '').replace('w+', 'w+')) if b == 0 else open(name, m, b, *a)
        try:
            trio.run(run.main, clock=trio.testing.MockClock(autojump_threshold=0))
        except BaseException as e:
            fails = [x for x in flat(e) if isinstance(x, Fail)]
            if fails:
                return dict(tags=fails[0].tags.split(','), msg='%s: %s' % (mode, fails[0].msg), case=repr(case)), run.counts, repr(case)
            raise
    finally:
        if mode == 'cut' and not had:
            del block_cache.open
        try:
            for el in list(run.bc.cache.values()):
                el.dirty = False
        except Exception:
            pass
        shutil.rmtree(d, ignore_errors=True)
    run.cnt('mode ' + mode)
    return None, run.counts, 'mode %s: %r' % (mode, run.counts)
