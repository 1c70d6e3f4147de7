"""File system checker (C19): random sound file systems, random damage to the tables and to the stored objects."""
from __future__ import annotations
import hashlib, logging, os, random, shutil, stat, tempfile, types
import trio
import pyvc.purepy
from . import membackend

RULE = ('random sound file systems (directories, hard links, symbolic links, devices, extended attributes, shared blocks, deep trees) '
        'with 0-6 random damages to the tables, the stored objects or the cache directory; Fsck.check on them, twice; the tables are '
        'compared with counts computed here')
TABLES = ['inodes', 'names', 'contents', 'objects', 'inode_blocks', 'symlink_targets', 'ext_attributes']


def cases(prop, seed, n, kw):
    for s in range(n):
        yield (seed, s)


class World:
    def __init__(self, d, rnd):
        from s3ql.database import Connection, create_tables
        from s3ql.mkfs import init_tables
        self.rnd, self.d = rnd, d
        self.bs = 100
        self.db = Connection(d + '/db')
        create_tables(self.db)
        init_tables(self.db)
        os.mkdir(d + '/cache')
        cls = membackend.make_class()

        class Be(cls):
            @property
            def backend(self):
                return self

            async def write_fh(self, key, fh, len_=None, metadata=None, **kw):
                off = fh.tell()
                b = fh.read(len_)
                self.d[key] = (b, {})
                return len(b)

            async def delete(self, key):
                from s3ql.backends.common import NoSuchObject
                if key not in self.d:
                    raise NoSuchObject(key)
                del self.d[key]
        self.be = Be(rnd)
        self.log = []
        self.cached = {}
        self.lost = set()

    def q(self, sql, *a):
        return [tuple(x) for x in self.db.query(sql, a)]

    def x(self, sql, *a):
        return self.db.execute(sql, a)

    def r(self, sql, *a):
        return self.db.rowid(sql, a)

    # ---------------------------------------------------------- building
    def name_id(self, name):
        r = self.q('SELECT id FROM names WHERE name=?', name)
        if r:
            self.x('UPDATE names SET refcount=refcount+1 WHERE id=?', r[0][0])
            return r[0][0]
        return self.r('INSERT INTO names (name, refcount) VALUES (?,1)', name)

    def link(self, ino, parent, name):
        self.x('INSERT INTO contents (name_id, inode, parent_inode) VALUES (?,?,?)', self.name_id(name), ino, parent)

    def inode(self, mode, size=0, rdev=0, refcount=1):
        return self.r('INSERT INTO inodes (mode,uid,gid,mtime_ns,atime_ns,ctime_ns,refcount,size,rdev) VALUES (?,0,0,1,2,3,?,?,?)',
                      mode, refcount, size, rdev)

    def build(self):
        rnd = self.rnd
        used = set()
        pool = [b'a', b'b', b'a_b', b'x/'[:1], b'\xff\xfe', b'inode-5', b'lost+found', b'=' * 250, b'n' * 255, b'lost+found-1', b'-4']

        def fresh(parent):
            while True:
                n = rnd.choice(pool) if rnd.random() < 0.7 else b'f%d' % rnd.randrange(1000)
                if parent == 1 and n == b'lost+found':
                    continue
                if (parent, n) not in used:
                    used.add((parent, n))
                    return n
        lof = self.q("SELECT inode FROM contents WHERE parent_inode=1")[0][0]
        dirs = [1] + ([lof] if rnd.random() < 0.4 else [])
        files, objs = [], []
        for _ in range(rnd.randrange(12)):
            p = rnd.choice(dirs)
            k = rnd.choice(('dir', 'dir', 'file', 'file', 'file', 'link', 'sym', 'dev', 'xattr', 'rootx'))
            if k == 'dir':
                i = self.inode(stat.S_IFDIR | 0o755)
                self.link(i, p, fresh(p))
                dirs.append(i)
            elif k == 'file':
                i = self.inode(stat.S_IFREG | 0o644)
                self.link(i, p, fresh(p))
                files.append(i)
                size = 0
                for b in sorted(rnd.sample(range(4), rnd.randrange(4))):
                    if objs and rnd.random() < 0.4:
                        o = rnd.choice(objs)
                        self.x('UPDATE objects SET refcount=refcount+1 WHERE id=?', o)
                    else:
                        data = os.urandom(0) + b'%d-%d' % (len(objs), i) + b'z' * rnd.randrange(60)
                        o = self.r('INSERT INTO objects (refcount,phys_size,length,hash) VALUES (1,?,?,?)', len(data), len(data),
                                   hashlib.sha256(data).digest())
                        self.be.d['s3ql_data_%d' % o] = (data, {})
                        objs.append(o)
                    self.x('INSERT INTO inode_blocks (inode, blockno, obj_id) VALUES (?,?,?)', i, b, o)
                    ln = self.q('SELECT length FROM objects WHERE id=?', o)[0][0]
                    size = max(size, b * self.bs + ln)
                self.x('UPDATE inodes SET size=? WHERE id=?', size + rnd.choice((0, 0, 7, 1000)), i)
            elif k == 'link' and files:
                i = rnd.choice(files)
                self.link(i, p, fresh(p))
                self.x('UPDATE inodes SET refcount=refcount+1 WHERE id=?', i)
            elif k == 'sym':
                t = rnd.choice((b'target', b'\xff', b'a/b'))
                i = self.inode(stat.S_IFLNK | 0o777, size=len(t))
                self.x('INSERT INTO symlink_targets (inode, target) VALUES (?,?)', i, t)
                self.link(i, p, fresh(p))
            elif k == 'dev':
                i = self.inode(rnd.choice((stat.S_IFCHR, stat.S_IFBLK)) | 0o600, rdev=rnd.choice((0, 5)))
                self.link(i, p, fresh(p))
            elif k in ('xattr', 'rootx'):
                i = rnd.choice(files + dirs) if k == 'xattr' else 1
                n = rnd.choice((b'user.x', b'a', b'user.y', b'b', b'lost+found_%d' % rnd.randrange(1, 5)))
                if not self.q('SELECT 1 FROM ext_attributes_v WHERE inode=? AND name=?', i, n):
                    self.x('INSERT INTO ext_attributes (inode, name_id, value) VALUES (?,?,?)', i, self.name_id(n), b'v')
        if rnd.random() < 0.04:
            p = rnd.choice(dirs)
            for k in range(rnd.choice((260, 1200))):
                i = self.inode(stat.S_IFDIR | 0o755)
                self.link(i, p, b'deep')
                p = i
            self.log.append('deep tree')
        if rnd.random() < 0.1 and files:
            # clean block in the cache
            r = self.q('SELECT inode, blockno, obj_id FROM inode_blocks')
            if r:
                i, b, o = rnd.choice(r)
                with open('%s/cache/%d-%d' % (self.d, i, b), 'wb') as fh:
                    fh.write(self.be.d['s3ql_data_%d' % o][0])
                self.cached[i, b] = self.be.d['s3ql_data_%d' % o][0]
                self.log.append('clean cached block')

    # ---------------------------------------------------------- damage
    def damage(self):
        rnd = self.rnd
        pick = lambda sql: (lambda r: rnd.choice(r) if r else None)(self.q(sql))
        lof = lambda: self.q("SELECT rowid, inode, name_id FROM contents_v WHERE parent_inode=1 AND name=?", b'lost+found')

        def names_gone():
            r = pick('SELECT id FROM names') if rnd.random() < 0.5 else pick('SELECT MAX(id) FROM names')
            if r:
                self.x('DELETE FROM names WHERE id=?', r[0])

        def inode_gone():
            r = pick('SELECT id FROM inodes WHERE id > 2')
            if r:
                self.x('DELETE FROM inodes WHERE id=?', r[0])

        def entry_gone():
            r = pick('SELECT rowid FROM contents')
            if r:
                self.x('DELETE FROM contents WHERE rowid=?', r[0])

        def object_gone():
            r = pick('SELECT id FROM objects')
            if r:
                self.x('DELETE FROM objects WHERE id=?', r[0])

        def sym_gone():
            self.x('INSERT OR IGNORE INTO symlink_targets (inode, target) VALUES (?,?)', 5000, b'x')

        def counts():
            t = rnd.choice(('names', 'inodes', 'objects'))
            r = pick('SELECT id FROM %s' % t)
            if r and not (t == 'inodes' and r[0] in (1, 2)):
                self.x('UPDATE %s SET refcount=? WHERE id=?' % t, rnd.choice((0, 1, 2, 7)), r[0])

        def unused_object():
            data = b'unused%d' % rnd.randrange(100000)
            o = self.r('INSERT INTO objects (refcount,phys_size,length,hash) VALUES (?,?,?,?)', rnd.choice((0, 1, 3)), len(data), len(data),
                       hashlib.sha256(data).digest())
            if rnd.random() < 0.8:
                self.be.d['s3ql_data_%d' % o] = (data, {})

        def null_hash():
            r = pick('SELECT id FROM objects')
            if r:
                self.x('UPDATE objects SET hash=NULL WHERE id=?', r[0])

        def no_size():
            r = pick('SELECT id FROM objects')
            if r:
                self.x('UPDATE objects SET phys_size=-1 WHERE id=?', r[0])

        def lost_object():
            if self.be.d:
                self.be.d.pop(rnd.choice(sorted(self.be.d)))

        def spurious():
            self.be.d['s3ql_data_%d' % rnd.randrange(900, 1000)] = (b'spurious', {})

        def move():
            r, i = pick('SELECT rowid FROM contents'), pick("SELECT id FROM inodes WHERE id != 2 AND (mode & %d) = %d" % (0o170000, stat.S_IFDIR))
            if r and i:
                self.x('UPDATE OR IGNORE contents SET parent_inode=? WHERE rowid=?', rnd.choice((i[0], i[0], i[0], 7000)), r[0])

        def loop():
            r = self.q("SELECT contents.rowid, inodes.id FROM contents JOIN inodes ON contents.inode = inodes.id WHERE (mode & %d) = %d" % (0o170000, stat.S_IFDIR))
            rnd.shuffle(r)
            for (a, i), (b, j) in zip(r, r[1:] + r[:1] if rnd.random() < 0.5 else r):
                self.x('UPDATE OR IGNORE contents SET parent_inode=? WHERE rowid=?', j, a)

        def wrong_inode():
            r = pick('SELECT rowid FROM contents')
            if r:
                self.x('UPDATE contents SET inode=? WHERE rowid=?', 7001, r[0])

        def wrong_name():
            r = pick('SELECT rowid FROM contents')
            if r:
                self.x('UPDATE OR IGNORE contents SET name_id=? WHERE rowid=?', rnd.choice((9000, self.q('SELECT MAX(id) FROM names')[0][0] + 1 if self.q('SELECT MAX(id) FROM names')[0][0] else 3)), r[0])

        def block():
            r = pick('SELECT inode, blockno FROM inode_blocks')
            if r:
                c, v = rnd.choice((('inode', 7003), ('obj_id', 7004)))
                self.x('UPDATE OR IGNORE inode_blocks SET %s=? WHERE inode=? AND blockno=?' % c, v, *r)

        def xattr():
            r = pick('SELECT inode, name_id FROM ext_attributes')
            if r:
                c, v = rnd.choice((('inode', 7005), ('name_id', 9005)))
                self.x('UPDATE OR IGNORE ext_attributes SET %s=? WHERE inode=? AND name_id=?' % c, v, *r)

        def lof_gone():
            r = lof()
            if not r:
                return
            k = rnd.randrange(4)
            if k == 0:
                self.x('DELETE FROM contents WHERE rowid=?', r[0][0])
            elif k == 1:
                self.x('DELETE FROM inodes WHERE id=?', r[0][1])
            elif k == 2:
                if not self.q('SELECT 1 FROM contents WHERE parent_inode=?', r[0][1]):
                    self.x('UPDATE inodes SET mode=? WHERE id=?', stat.S_IFREG | 0o644, r[0][1])
            else:
                self.x('UPDATE OR IGNORE contents SET parent_inode=inode WHERE rowid=?', r[0][0])

        def no_type():
            r = pick('SELECT id FROM inodes WHERE id > 2 AND (mode & %d) IN (%d, %d)' % (0o170000, stat.S_IFREG, stat.S_IFDIR))
            if r:
                self.x('UPDATE inodes SET mode=mode & %d WHERE id=?' % 0o7777, r[0])

        def small():
            r = pick('SELECT inode FROM inode_blocks')
            if r:
                self.x('UPDATE inodes SET size=0 WHERE id=?', r[0])

        def cached():
            r = self.q('SELECT id, size FROM inodes WHERE (mode & %d) = %d AND id > 2' % (0o170000, stat.S_IFREG))
            if r:
                i, size = rnd.choice(r)
                b = rnd.randrange(3)
                data = b'cached%d' % rnd.randrange(5)
                with open('%s/cache/%d-%d' % (self.d, i, b), 'wb') as fh:
                    fh.write(data)
                self.cached[i, b] = data
                self.x('UPDATE inodes SET size=MAX(size, ?) WHERE id=?', b * self.bs + len(data), i)

        def lof_block():
            r = lof()
            if r:
                self.x('INSERT OR IGNORE INTO inode_blocks (inode, blockno, obj_id) VALUES (?,0,7010)', r[0][1])

        def twins():
            ds = [i for i, in self.q("SELECT id FROM inodes WHERE id > 2 AND (mode & %d) = %d" % (0o170000, stat.S_IFDIR))]
            if len(ds) > 1:
                a, b = rnd.sample(ds, 2)
                n = rnd.choice((b'a', b'twin'))
                for p in (a, b):
                    i = self.name_id(n)
                    self.x('INSERT OR IGNORE INTO contents (name_id, inode, parent_inode) VALUES (?,?,?)', i, a, p)
        ops = [lof_block, twins, names_gone, inode_gone, entry_gone, object_gone, sym_gone, counts, counts, unused_object, null_hash, no_size, lost_object,
               spurious, move, move, loop, wrong_inode, wrong_name, block, xattr, lof_gone, no_type, small, cached]
        for _ in range(rnd.choice((0, 1, 1, 2, 3, 6))):
            f = rnd.choice(ops)
            f()
            self.log.append(f.__name__)

    # ---------------------------------------------------------- judging
    def dump(self):
        return {t: sorted(map(repr, self.q('SELECT rowid, * FROM %s' % t))) for t in TABLES}

    def problems(self):
        """what is wrong according to the documentation of the tables"""
        q = self.q
        out = []
        for t, c, ref in (('contents', 'name_id', 'names'), ('contents', 'inode', 'inodes'), ('contents', 'parent_inode', 'inodes'),
                          ('ext_attributes', 'inode', 'inodes'), ('ext_attributes', 'name_id', 'names'), ('inode_blocks', 'inode', 'inodes'),
                          ('inode_blocks', 'obj_id', 'objects'), ('symlink_targets', 'inode', 'inodes')):
            for r in q('SELECT %s FROM %s WHERE %s NOT IN (SELECT id FROM %s)' % (c, t, c, ref)):
                out.append('%s.%s refers to missing %s %d' % (t, c, ref, r[0]))
        for i, n, c in q('SELECT id, refcount, (SELECT COUNT(*) FROM contents WHERE name_id=names.id) + '
                         '(SELECT COUNT(*) FROM ext_attributes WHERE name_id=names.id) FROM names'):
            if n != c:
                out.append('name %d has count %d, is used %d times' % (i, n, c))
        for i, n, c in q('SELECT id, refcount, (SELECT COUNT(*) FROM contents WHERE inode=inodes.id) FROM inodes WHERE id > 2'):
            if n != c or c == 0:
                out.append('inode %d has count %d, is used %d times' % (i, n, c))
        for i, n, c, h, p in q('SELECT id, refcount, (SELECT COUNT(*) FROM inode_blocks WHERE obj_id=objects.id), hash, phys_size FROM objects'):
            if n != c or c == 0:
                out.append('object %d has count %d, is used %d times' % (i, n, c))
            if h is None:
                out.append('object %d has no hash' % i)
            if p < 0:
                out.append('object %d has no size' % i)
            if 's3ql_data_%d' % i not in self.be.d:
                out.append('object %d is not stored' % i)
        ids = {'s3ql_data_%d' % i for i, in q('SELECT id FROM objects')}
        for k in self.be.d:
            if k not in ids:
                out.append('%s is stored but unknown' % k)
        for i, t in q('SELECT id, typeof(name) FROM names'):
            if t != 'blob':
                out.append('name %d is %s' % (i, t))
        for i, s, m in q('SELECT inodes.id, size, MAX(blockno * %d + length) FROM inodes JOIN inode_blocks ON inodes.id = inode '
                         'JOIN objects ON objects.id = obj_id GROUP BY inodes.id' % self.bs):
            if s < m:
                out.append('inode %d has size %d but data up to %d' % (i, s, m))
        kids = {}
        for p, i in q('SELECT parent_inode, inode FROM contents'):
            kids.setdefault(p, []).append(i)
        seen, todo = set(), [1]
        while todo:
            i = todo.pop()
            if i not in seen:
                seen.add(i)
                todo += kids.get(i, ())
        for i, in q('SELECT id FROM inodes WHERE id != 2'):
            if i not in seen:
                out.append('inode %d cannot be reached' % i)
        r = q("SELECT mode FROM contents_v JOIN inodes ON contents_v.inode = inodes.id WHERE parent_inode=1 AND name=?", b'lost+found')
        if not r or not stat.S_ISDIR(r[0][0]):
            out.append('no lost+found')
        for i, m in q('SELECT id, mode FROM inodes'):
            if stat.S_IFMT(m) == 0:
                out.append('inode %d has no type' % i)
        for f in os.listdir(self.d + '/cache'):
            i, b = map(int, f.split('-'))
            if not q('SELECT 1 FROM inodes WHERE id=?', i):
                continue
            h = q('SELECT hash FROM inode_blocks JOIN objects ON obj_id = objects.id WHERE inode=? AND blockno=?', i, b)
            with open('%s/cache/%s' % (self.d, f), 'rb') as fh:
                want = hashlib.sha256(fh.read()).digest()
                if (not h or h[0][0] != want) and want not in self.lost:
                    out.append('cached block %s is not stored' % f)
        return out


def run_case(case, prop):
    logging.disable(logging.CRITICAL)
    d = tempfile.mkdtemp(prefix='fsckdrv')
    try:
        return trio.run(go, case, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


async def go(case, d):
    from s3ql.fsck import Fsck
    rnd = random.Random('fsck-%s-%s' % case)
    w = World(d, rnd)
    cnt = {}
    try:
        w.build()
        w.damage()
        for x in w.log:
            cnt[x] = cnt.get(x, 0) + 1
        bad = w.problems()
        before, stored = w.dump(), dict(w.be.d)
        kept = {i: (m, tuple(w.q('SELECT blockno, obj_id FROM inode_blocks WHERE inode=? ORDER BY blockno', i)),
                    tuple(w.q('SELECT value FROM ext_attributes WHERE inode=? ORDER BY value', i)),
                    tuple(w.q('SELECT target FROM symlink_targets WHERE inode=?', i)))
                for i, m in w.q('SELECT id, mode FROM inodes')}
        good = {o for o, h in w.q('SELECT id, hash FROM objects') if h is not None and 's3ql_data_%d' % o in w.be.d}
        contents = dict(w.be.d)
        # blocks that seem to have been uploaded are not looked at again
        w.lost = lost = {h for o, h in w.q('SELECT id, hash FROM objects WHERE phys_size >= 0') if 's3ql_data_%d' % o not in w.be.d}
        param = types.SimpleNamespace(data_block_size=w.bs)

        def fail(m):
            return dict(tags=['C19'], msg='%s; damage: %s; case %s-%s' % (m, ', '.join(w.log) or 'none', case[0], case[1])), cnt, ''
        f = Fsck(d + '/cache', w.be, param, w.db)
        keep = rnd.choice((True, True, 'keep'))
        try:
            await f.check(keep)
        except Exception as e:
            import traceback
            return fail('the check fails: %s' % ''.join(traceback.format_exception(e))[-700:])
        after = w.dump()
        cnt['repaired' if bad else 'sound'] = 1
        if not bad:
            if f.found_errors:
                return fail('an error is reported for a sound file system')
            if after != before:
                return fail('a sound file system is changed: %s' % diff(before, after))
            if w.be.d != stored:
                return fail('stored objects of a sound file system are changed')
        else:
            if not f.found_errors and (after != before or w.be.d != stored) and \
                    not all('object' in x and 'count 0, is used 0' in x for x in bad):
                return fail('%s: repaired without reporting an error' % bad[0])
        now = w.problems()
        if now:
            return fail('after the check: %s' % '; '.join(now[:3]))
        if f.uncorrectable_errors:
            return fail('errors are said to be left')
        for i, (m, bl, xa, sy) in kept.items():
            r = w.q('SELECT mode FROM inodes WHERE id=?', i)
            if not r:
                return fail('file %d is gone' % i)
            if r[0][0] != m and stat.S_IFMT(m):
                return fail('file %d changed its mode' % i)
            nb = dict(w.q('SELECT blockno, obj_id FROM inode_blocks WHERE inode=?', i))
            for b, o in bl:
                if o in good and (i, b) not in w.cached and nb.get(b) != o:
                    return fail('block %d of file %d is gone' % (b, i))
            for b in nb:
                if (i, b) not in w.cached and (b, nb[b]) not in bl:
                    return fail('file %d has got a block %d' % (i, b))
            if tuple(w.q('SELECT value FROM ext_attributes WHERE inode=? ORDER BY value', i)) != xa:
                return fail('extended attributes of %d are gone' % i)
            if tuple(w.q('SELECT target FROM symlink_targets WHERE inode=?', i)) != sy:
                return fail('link target of %d is gone' % i)
        for o in good:
            k = 's3ql_data_%d' % o
            if k in w.be.d and w.be.d[k] != contents[k]:
                return fail('object %d is changed' % o)
        for (i, b), data in w.cached.items():
            if i not in kept or hashlib.sha256(data).digest() in lost:
                continue
            r = w.q('SELECT obj_id FROM inode_blocks WHERE inode=? AND blockno=?', i, b)
            if not r or w.be.d['s3ql_data_%d' % r[0][0]][0] != data:
                return fail('data of cached block %d of file %d is not stored' % (b, i))
        if os.listdir(d + '/cache') and keep is True:
            return fail('files are left in the cache')
        for x in os.listdir(d + '/cache'):
            if not w.q('SELECT 1 FROM inodes WHERE id=?', int(x.split('-')[0])) or lost:
                os.unlink(d + '/cache/' + x)
        f2 = Fsck(d + '/cache', w.be, param, w.db)
        await f2.check()
        if f2.found_errors or w.dump() != after:
            return fail('a second check finds errors again: %s' % diff(after, w.dump()))
        return None, cnt, ''
    finally:
        try:
            w.db.close()
        except Exception:
            pass


def diff(a, b):
    return '; '.join('%s: %s -> %s' % (t, [x for x in a[t] if x not in b[t]][:2], [x for x in b[t] if x not in a[t]][:2]) for t in a if a[t] != b[t])
