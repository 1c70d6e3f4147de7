"""Metadata backups (C14, C15): random histories of changes to a database file, incremental and full uploads, shrinking and
growing, expiry with random retention, followed by downloads of every retained version; superblocks (C16)."""
from __future__ import annotations
import hashlib, logging, os, random, shutil, tempfile
import trio
from . import membackend

RULE = ('random histories of writes, truncations, incremental and full uploads of a database file (odd sizes and block sizes), '
        'expiry with random retention, download of every version; restoring checked byte for byte')


def cases(prop, seed, n, kw):
    for s in range(n):
        yield (seed, s)


class Fail(Exception):
    def __init__(self, tags, msg):
        self.tags, self.msg = tags, msg


class Dirty:
    def __init__(self):
        self.s = set()

    def get_block(self):
        if not self.s:
            raise KeyError()
        return self.s.pop()

    def get_count(self):
        return len(self.s)


class Db:
    """stands in for Connection: a plain file with exact write tracking"""
    def __init__(self, path, blocksize):
        self.file, self.blocksize, self.dirty_blocks = path, blocksize, Dirty()
        open(path, 'wb').close()

    def get_size(self):
        return os.path.getsize(self.file)

    def content(self):
        return open(self.file, 'rb').read()

    def write(self, off, data):
        with open(self.file, 'r+b') as fh:
            fh.seek(off)
            fh.write(data)
        if data:
            self.dirty_blocks.s |= set(range(off // self.blocksize, (off + len(data) - 1) // self.blocksize + 1))

    def truncate(self, size):
        os.truncate(self.file, size)
        if size % self.blocksize:
            self.dirty_blocks.s.add(size // self.blocksize)
        self.dirty_blocks.s = {b for b in self.dirty_blocks.s if b * self.blocksize < size}


async def history(case, prop, d, counts, trace):
    from s3ql import database as D
    rng = random.Random(repr(case))
    real = prop == 'C14' and rng.random() < .12
    conns = rng.choice([1, 1, 3, 8])
    raw, be = await membackend.make(rng, conns, rng.choice([None, None, None, b'pw']), rng.choice(['none', 'none', 'zlib']),
                                    rng.choice([1, 6]))
    if real:
        from s3ql import sqlite3ext
        sqlite3ext.reset()
        bs = rng.choice([512, 4096, 8192, 65536])
        db = D.Connection(d + '/src.db', bs)
        db.execute('CREATE TABLE foo (id INTEGER PRIMARY KEY, data BLOB)')
    else:
        bs = rng.choice([1, 3, 7, 16, 64])
        db = Db(d + '/src.db', bs)
    seq = rng.choice([1, 2, 5, 0xfff0, 10 ** 9, 0xffffffffe])
    params = D.FsAttributes(metadata_block_size=bs, data_block_size=1024, seq_no=seq, label='l')
    versions = {}
    kept = None

    def mutate():
        for _ in range(rng.randrange(0, 4)):
            if real:
                k = rng.randrange(5)
                if k < 3:
                    db.execute('INSERT OR REPLACE INTO foo VALUES(?, ?)', (rng.randrange(40), rng.randbytes(rng.randrange(6000))))
                elif k == 3:
                    db.execute('DELETE FROM foo WHERE id > ?', (rng.randrange(40),))
                else:
                    db.execute('DELETE FROM foo WHERE id > ?', (rng.randrange(40),))
                    db.execute('VACUUM')
                continue
            size = db.get_size()
            k = rng.randrange(6)
            if k < 3:
                off = rng.randrange(0, size + 1)
                db.write(off, rng.randbytes(rng.randrange(1, 2 * bs + 2)))
            elif k == 3:
                db.write(size, rng.randbytes(rng.randrange(1, 6 * bs)))
            elif k == 4 and size:
                db.truncate(rng.randrange(0, size + 1))
            elif k == 5:
                db.truncate(size // bs * bs)
    full_needed = True
    nver = rng.randrange(1, 9)
    for v in range(nver):
        mutate()
        if real:
            db.sync_checkpoint()
        if rng.random() < .3 and not full_needed:
            # upload while changes go on: does not record size and checksum
            before = (params.db_size, params.db_md5)
            trace.append('upload(seq=%x, incremental, no params)' % params.seq_no)
            await D.upload_metadata(be, db, params, incremental=True, update_params=False)
            if (params.db_size, params.db_md5) != before:
                raise Fail(['C14'], 'size and checksum recorded although not asked for')
            mutate()
            if real:
                db.sync_checkpoint()
        inc = not full_needed and rng.random() < .8
        full_needed = False
        cont = open(db.file, 'rb').read()
        dirty = None if real else set(db.dirty_blocks.s)
        n0 = len(raw.seen)
        trace.append('upload(seq=%x, incremental=%s) size %d bs %d' % (params.seq_no, inc, len(cont), bs))
        await D.upload_metadata(be, db, params, incremental=inc)
        counts['upload'] = counts.get('upload', 0) + 1
        if open(db.file, 'rb').read() != cont:
            raise Fail(['C14'], 'uploading changes the database')
        if params.db_size != len(cont) or params.db_md5 != hashlib.sha256(cont).hexdigest():
            raise Fail(['C14'], 'recorded size %r / checksum %r do not match the database (%d bytes)' % (
                params.db_size, params.db_md5, len(cont)))
        want = set(range((len(cont) + bs - 1) // bs)) if not inc else dirty
        got = [k for k, _, _ in raw.seen[n0:]]
        if len(set(got)) != len(got):
            raise Fail(['C14'], 'block uploaded twice: %r' % sorted(got))
        if want is not None and set(got) != {'s3ql_metadata_%012x_%010x' % (b, params.seq_no) for b in want}:
            raise Fail(['C14'], 'uploaded %r instead of blocks %r of version %x' % (sorted(got), sorted(want), params.seq_no))
        for k in got:
            b = int(k.split('_')[2], 16)
            data = (await be.fetch(k))[0]
            if data != cont[b * bs:(b + 1) * bs]:
                raise Fail(['C14'], 'block %d stored with other bytes than in the database' % b)
        await D.upload_params(be, params)
        r = await D.read_remote_params(be, rng.choice([None, params.seq_no]))
        if r != params:
            raise Fail(['C14', 'C16'], 'parameters read back as %r instead of %r' % (r, params))
        versions[params.seq_no] = (params.copy(), cont)
        if rng.random() < .5:
            # the state right after mounting or after a background upload
            params.seq_no += rng.choice([1, 1, 2, 255])
            if rng.random() < .5:
                await D.upload_params(be, params)
                versions[params.seq_no] = (params.copy(), cont)
        else:
            params.seq_no += 1
        if rng.random() < .3:
            await expire(D, raw, be, rng, versions, trace, counts)
    if prop == 'C15' or rng.random() < .5:
        await expire(D, raw, be, rng, versions, trace, counts)
    todo = sorted(versions)
    if len(todo) > 4:
        todo = rng.sample(todo, 4)
    for s in todo:
        p, cont = versions[s]
        await download(D, be, p, cont, d, trace, counts, ['C14'])
    # a version that cannot be restored correctly is refused
    if prop == 'C14' and versions:
        s = rng.choice(sorted(versions))
        p, cont = versions[s]
        cand = sorted(k for k in raw.d if k.startswith('s3ql_metadata_'))
        used = [k for k in cand if any(k == used_key(raw, b, s) for b in range((len(cont) + bs - 1) // bs))]
        if used:
            k = rng.choice(used)
            saved = dict(raw.d)
            how = rng.randrange(3)
            if how == 0:
                del raw.d[k]
            elif how == 1:
                b = int(k.split('_')[2], 16)
                good = cont[b * bs:(b + 1) * bs]
                bad = bytes(x ^ 1 for x in good)
                await be.store(k, bad)
            else:
                p = p.copy()
                p.db_size = max(0, p.db_size + rng.choice([-1, 1, bs]))
            trace.append('damage %d %s' % (how, k))
            try:
                c = await D.download_metadata(be, d + '/bad.db', p) if real else None
                if not real:
                    await run_download(D, be, d + '/bad.db', p)
                else:
                    c.close()
                got = open(d + '/bad.db', 'rb').read()
                if got != versions[s][1]:
                    raise Fail(['C14'], 'downloading version %x after damage %d to %s reports success with a different database' % (
                        s, how, k))
            except Fail:
                raise
            except Exception:
                counts['refused'] = counts.get('refused', 0) + 1
            raw.d.clear()
            raw.d.update(saved)
    if real:
        db.close()


def used_key(raw, b, s):
    c = [int(k.split('_')[3], 16) for k in raw.d if k.startswith('s3ql_metadata_%012x_' % b)]
    c = [x for x in c if x <= s]
    return 's3ql_metadata_%012x_%010x' % (b, max(c)) if c else None


async def run_download(D, be, path, p):
    """download_metadata without opening the result (it is no sqlite file)"""
    class NoConn:
        def __init__(self, *a):
            pass
    old = D.Connection
    D.Connection = NoConn
    try:
        await D.download_metadata(be, path, p)
    finally:
        D.Connection = old


async def download(D, be, p, cont, d, trace, counts, tags):
    path = d + '/dl.db'
    if os.path.exists(path) or counts.get('download', 0) % 2:
        with open(path, 'wb') as fh:
            fh.write(b'old' * 100)
    try:
        await run_download(D, be, path, p.copy())
    except Exception as e:
        raise Fail(tags, 'version %x cannot be downloaded: %r %s' % (p.seq_no, e, e))
    counts['download'] = counts.get('download', 0) + 1
    got = open(path, 'rb').read()
    if got != cont:
        raise Fail(tags, 'version %x is restored as %d bytes %r... instead of %d bytes %r...' % (
            p.seq_no, len(got), got[:40], len(cont), cont[:40]))


async def expire(D, raw, be, rng, versions, trace, counts):
    keep = rng.choice([1, 1, 2, 3, 5, 32])
    present = sorted(int(k.split('_')[2], 16) for k in raw.d if k.startswith('s3ql_params_'))
    stay = present[-keep:]
    need = set()
    for s in stay:
        p, cont = versions[s]
        bs = p.metadata_block_size
        for b in range((len(cont) + bs - 1) // bs):
            need.add(used_key(raw, b, s))
    before = set(raw.d)
    trace.append('expire(keep=%d)' % keep)
    counts['expire'] = counts.get('expire', 0) + 1
    try:
        await D.expire_objects(be, versions_to_keep=keep)
    except Exception as e:
        raise Fail(['C15'], 'expire_objects fails: %r %s' % (e, e))
    after = set(raw.d)
    want = {k for k in before if not k.startswith(('s3ql_metadata_', 's3ql_params_'))} | need \
        | {'s3ql_params_%010x' % s for s in stay}
    if after != want:
        raise Fail(['C15'], 'keeping %d of versions %s: wrongly removed %r, wrongly kept %r' % (
            keep, ['%x' % x for x in present], sorted(want - after), sorted(after - want)))
    for s in list(versions):
        if s not in stay:
            del versions[s]


def run_case(case, prop):
    logging.disable(logging.CRITICAL)
    counts, trace = {}, []
    d = tempfile.mkdtemp(prefix='mddrv-')
    try:
        trio.run(history, case, prop, d, counts, trace)
    except Fail as e:
        return dict(tags=e.tags, msg=e.msg, trace=trace, case=repr(case)), counts, ''
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None, counts, '%r %s' % (case, trace[:4])
