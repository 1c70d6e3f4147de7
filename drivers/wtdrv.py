"""The write-tracking VFS, built from the current source, driven directly and through SQLite."""
from __future__ import annotations
import atexit, importlib.util, os, random, shutil, subprocess, sys, sysconfig, tempfile
import apsw

RULE = ('random writes, truncations and drains through the tracking VFS (built from the current source) compared with a reference set of '
        'blocks; random SQL workloads whose changed file blocks must have been reported; inhibited writes and other files')
_built = None


def build():
    """build the extension outside the repository; -> path of the library"""
    global _built
    if _built is None:
        import s3ql
        src = os.path.dirname(os.path.abspath(s3ql.__file__))
        d = tempfile.mkdtemp(prefix='wtdrv-')
        os.chmod(d, 0o755)
        pid = os.getpid()
        atexit.register(lambda: shutil.rmtree(d, ignore_errors=True) if os.getpid() == pid else None)
        for n in ('sqlite3ext.pyx', '_sqlite3ext.cpp'):
            shutil.copy(src + '/' + n, d)
        for n in os.listdir(src):
            if n.endswith('.h'):
                shutil.copy(src + '/' + n, d)
        env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
        subprocess.run([sys.executable, '-m', 'cython', '-3', '--cplus', 'sqlite3ext.pyx', '-o', 'sqlite3ext.cpp'], cwd=d, check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
        subprocess.run(['g++', '-std=c++17', '-O0', '-shared', '-fPIC', '-I' + sysconfig.get_path('include'), '-I' + src + '/../../include', '-I.',
                        'sqlite3ext.cpp', '-o', 'sqlite3ext.so'], cwd=d, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        _built = d + '/sqlite3ext.so'
    return _built


_ext = None


def load():
    global _ext
    if _ext is None:
        p = build()
        sp = importlib.util.spec_from_file_location('sqlite3ext', p)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        import s3ql.database as D
        db = apsw.Connection(':memory:')
        db.enableloadextension(True)
        db.loadextension(p[:-3])
        db.close()
        D.sqlite3ext = m
        _ext = m
    return _ext


def cases(prop, seed, n, kw):
    try:
        build()
    except (OSError, subprocess.SubprocessError) as e:
        print('wtdrv: cannot build the extension, no runs: %r' % e)
        return
    for s in range(n):
        yield (seed, s, ('raw', 'raw', 'raw', 'sql')[s % 4])


class Bad(Exception):
    pass


def drain(t):
    res = []
    n = t.get_count()
    while True:
        try:
            res.append(t.get_block())
        except KeyError:
            break
        if len(res) > 10 ** 6:
            raise Bad('blocks do not end')
    if len(set(res)) != len(res) or len(res) != n:
        raise Bad('handed out %d blocks, %d different ones, counted %d' % (len(res), len(set(res)), n))
    if t.get_count():
        raise Bad('blocks left after the last one was handed out')
    return set(res)


def raw(rnd, m, d, cnt, log):
    bs = rnd.choice([1, 3, 7, 16, 100, 512, 1000, 4096, 65536, 131072])
    m.reset()
    m.set_writes_inhibited(False)
    m.set_blocksize(bs)
    fn, other = d + '/tracked.db', d + '/other.db'
    t = m.track_writes(fn)
    if rnd.random() < 0.2:
        m.track_writes(d + '/tracked.db2')
    F = apsw.SQLITE_OPEN_MAIN_DB | apsw.SQLITE_OPEN_CREATE | apsw.SQLITE_OPEN_READWRITE
    f = apsw.VFSFile(m.get_vfsname(), fn, [F, 0])
    g = apsw.VFSFile(m.get_vfsname(), other, [F, 0])
    must, may = set(), set()
    log.append('bs=%d' % bs)
    big = bs >= 4096 and rnd.random() < 0.4
    size = 0

    def pos():
        k = rnd.randrange(4)
        base = rnd.choice([0, 2 ** 31, 2 ** 32, 2 ** 33, 2 ** 36]) if big else 0
        if k == 0:
            return base + rnd.randint(0, 12) * bs
        if k == 1:
            return max(0, base + rnd.randint(0, 12) * bs + rnd.choice([-1, 1]))
        if k == 2 and size:
            return max(0, size + rnd.choice([-1, 0, 1, -bs, bs]))
        return base + rnd.randint(0, 12 * bs)

    def check():
        got = drain(t)
        if must - got:
            raise Bad('modified blocks %s not reported' % sorted(must - got)[:5])
        if got - must - may:
            raise Bad('unmodified blocks %s reported' % sorted(got - must - may)[:5])
        must.clear()
        may.clear()
    for _ in range(rnd.randint(2, 14)):
        op = rnd.choice(['write'] * 5 + ['trunc'] * 3 + ['one', 'drain', 'other', 'inhibit', 'clear', 'reopen'])
        cnt[op] = cnt.get(op, 0) + 1
        if op == 'write':
            o = pos()
            n = rnd.choice([1, bs, 2 * bs, rnd.randint(1, 3 * bs), max(1, bs - 1), bs + 1])
            n = min(n, 65536)      # (SQLite writes at most that much at once)
            log.append('write %d@%d' % (n, o))
            f.xWrite(bytes([rnd.randint(1, 255)]) * n, o)
            bl = set(range(o // bs, (o + n - 1) // bs + 1))
            must |= bl
            may -= bl
            size = max(size, o + n)
        elif op == 'trunc':
            s = min(size, pos()) if rnd.random() < 0.8 else size
            log.append('truncate %d' % s)
            f.xTruncate(s)
            size = s
            n = -(-s // bs)
            for b in [b for b in must if b >= n]:
                must.discard(b)
            may = {b for b in may if b < n}
            if s % bs:
                may.add(s // bs)
        elif op == 'one':
            k = t.get_count()
            log.append('get')
            try:
                b = t.get_block()
            except KeyError:
                if must:
                    raise Bad('no block handed out, %d expected' % len(must))
                continue
            if b not in must and b not in may:
                raise Bad('unmodified block %d reported' % b)
            must.discard(b)
            may.discard(b)
            if t.get_count() != k - 1:
                raise Bad('count %d after one of %d' % (t.get_count(), k))
        elif op == 'drain':
            log.append('drain')
            check()
        elif op == 'clear':
            log.append('clear')
            t.clear()
            must.clear()
            may.clear()
            if t.get_count():
                raise Bad('blocks after clear')
        elif op == 'other':
            log.append('other')
            k = t.get_count()
            g.xWrite(b'x' * rnd.randint(1, min(65536, 3 * bs)), rnd.randint(0, 10 * bs))
            g.xTruncate(rnd.randint(0, 3))
            if t.get_count() != k:
                raise Bad('writes to another file recorded')
        elif op == 'reopen':
            log.append('reopen')
            f.xClose()
            f = apsw.VFSFile(m.get_vfsname(), fn, [F, 0])
            t = m.track_writes(fn)
            m.set_blocksize(bs)
            try:
                m.set_blocksize(bs + 1)
            except ValueError:
                pass
            else:
                raise Bad('block size changed')
        else:
            log.append('inhibit')
            m.set_writes_inhibited(True)
            if not m.get_writes_inhibited():
                raise Bad('not inhibited')
            k = t.get_count()
            before = os.stat(fn)
            for a in (lambda: f.xWrite(b'x', 0), lambda: f.xTruncate(0)):
                try:
                    a()
                except apsw.IOError:
                    pass
                else:
                    raise Bad('write not refused')
            after = os.stat(fn)
            if (before.st_size, before.st_mtime_ns) != (after.st_size, after.st_mtime_ns):
                raise Bad('written although inhibited')
            g.xWrite(b'x', 0)
            if t.get_count() != k:
                raise Bad('refused write recorded or blocks lost')
            m.set_writes_inhibited(False)
    check()
    if os.path.getsize(fn) != size:
        raise Bad('file has %d bytes, %d expected' % (os.path.getsize(fn), size))
    f.xClose()
    g.xClose()


def blocks(fn, bs):
    with open(fn, 'rb') as fh:
        res = []
        while True:
            b = fh.read(bs)
            if not b:
                return res
            res.append(b)


def sql(rnd, m, d, cnt, log):
    from s3ql.database import Connection
    bs = rnd.choice([512, 1000, 4096, 8192, 65536])
    m.reset()
    m.set_writes_inhibited(False)
    real = d + '/real'
    os.mkdir(real)
    os.symlink(real, d + '/link')
    fn = rnd.choice([real + '/a.db', d + '/link/a.db', os.path.relpath(real + '/a.db')])
    log.append('bs=%d %s' % (bs, os.path.basename(os.path.dirname(fn))))
    db = Connection(fn, bs)
    old = blocks(real + '/a.db', bs)
    reported = set()
    db.execute('CREATE TABLE t (id INTEGER PRIMARY KEY, b BLOB)')
    db.execute('CREATE INDEX ix ON t(b)')
    other = Connection(d + '/plain.db')
    other.execute('CREATE TABLE t (id INTEGER PRIMARY KEY, b BLOB)')

    def checkpoint():
        db.conn.cursor().execute('PRAGMA wal_checkpoint(%s)' % rnd.choice(['TRUNCATE', 'RESTART', 'FULL', 'PASSIVE'])).fetchall()

    def compare():
        nonlocal old, reported
        reported |= drain(db.dirty_blocks)
        new = blocks(real + '/a.db', bs)
        ch = {k for k in range(len(new)) if k >= len(old) or (new[k] != old[k] and not (
            k == len(new) - 1 and old[k].startswith(new[k])))}
        if ch - reported:
            raise Bad('changed blocks %s not reported' % sorted(ch - reported)[:5])
        if any(k >= len(new) for k in reported):
            raise Bad('blocks behind the end reported')
        old, reported = new, set()
    for _ in range(rnd.randint(1, 8)):
        op = rnd.choice(['insert', 'insert', 'delete', 'vacuum', 'checkpoint', 'compare', 'other', 'drop'])
        cnt[op] = cnt.get(op, 0) + 1
        log.append(op)
        if op == 'insert':
            for _ in range(rnd.randint(1, 60)):
                db.execute('INSERT INTO t(b) VALUES(?)', (rnd.randbytes(rnd.randint(1, 5000)),))
        elif op == 'delete':
            db.execute('DELETE FROM t WHERE id % ? = 0', (rnd.randint(1, 4),))
        elif op == 'drop':
            db.execute('DELETE FROM t')
        elif op == 'vacuum':
            db.execute('VACUUM')
        elif op == 'other':
            other.execute('INSERT INTO t(b) VALUES(?)', (rnd.randbytes(20000),))
            other.conn.cursor().execute('PRAGMA wal_checkpoint(TRUNCATE)').fetchall()
        elif op == 'checkpoint':
            checkpoint()
        else:
            checkpoint()
            compare()
    other.close()
    checkpoint()
    compare()
    t = db.dirty_blocks
    db.close()
    for b in drain(t):
        reported.add(b)
    new = blocks(real + '/a.db', bs)
    if any(k >= len(old) or new[k] != old[k] for k in range(len(new)) if k not in reported):
        raise Bad('changed by closing and not reported')


def run_case(case, prop):
    seed, s, kind = case
    rnd = random.Random('%s-%s' % (seed, s))
    m = load()
    d = os.path.realpath(tempfile.mkdtemp(prefix='wt-'))
    cnt, log = {}, []
    try:
        {'raw': raw, 'sql': sql}[kind](rnd, m, d, cnt, log)
    except (Bad, apsw.Error, ValueError, KeyError, RuntimeError, AssertionError, OSError) as e:
        return dict(tags=['C13'], msg='%s: %s\nafter %s' % (kind, e if isinstance(e, Bad) else repr(e), '; '.join(log)), case=repr(case)), cnt, ''
    finally:
        m.set_writes_inhibited(False)
        shutil.rmtree(d, ignore_errors=True)
    return None, cnt, '; '.join(log)[:300]
