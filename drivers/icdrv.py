"""Random operation sequences on the real InodeCache over a real database against a reference table."""
from __future__ import annotations
import os, random, tempfile, sys
import pyvc.purepy
import s3ql.inode_cache as ic
from s3ql.database import Connection, create_tables

RULE = ('random create/read/change/delete/flush/flush_id/drop sequences (cache sizes 1-100, file counts around the '
        'cache size) against a reference table; after every flush the database is compared row by row')
A = ic.UPDATE_ATTRS


def cases(prop, seed, n, kw):
    for s in range(n):
        yield (seed, s)


def run_case(case, prop):
    rnd = random.Random('%s-%s' % case)
    old = ic.CACHE_SIZE
    hooked = []
    oldhook = sys.excepthook
    sys.excepthook = lambda *a: hooked.append(a[1])
    d = tempfile.mkdtemp(prefix='icdrv')
    try:
        ic.CACHE_SIZE = rnd.choice((1, 2, 3, 5, 8, 100))
        return go(rnd, os.path.join(d, 'db'), hooked)
    finally:
        ic.CACHE_SIZE = old
        sys.excepthook = oldhook
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def go(rnd, dbf, hooked):
    db = Connection(dbf)
    create_tables(db)
    c = ic.InodeCache(db, 7)
    ref, log, cnt = {}, [], {}
    dead = []

    def fail(msg):
        try:
            for o in list(c.attrs.values()):
                o.dirty = False
            c.attrs.clear()
            db.close()
        except Exception:
            pass
        return dict(tags=['C12'], msg=msg + ' after ' + '; '.join(log[-25:])), cnt, ''

    def row(i):
        try:
            r = db.get_row('SELECT %s FROM inodes WHERE id=?' % ', '.join(A), (i,))
        except Exception:
            return None
        return {a: int(v) for a, v in zip(A, r)}

    def vals(o):
        return {a: int(getattr(o, a)) for a in A}
    maxid = 1
    for step in range(rnd.randint(5, 80)):
        op = rnd.choice(['create', 'read', 'read', 'set', 'set', 'set', 'del', 'flush', 'flush_id', 'drop', 'missing', 'entry', 'copy'])
        cnt[op] = cnt.get(op, 0) + 1
        ids = sorted(ref)
        i = rnd.choice(ids) if ids else None
        if op == 'create':
            kw = {a: rnd.randrange(1, 10 ** 6) for a in A if a not in ('size', 'rdev', 'locked') or rnd.random() < .5}
            if 'locked' in kw:
                kw['locked'] = bool(kw['locked'] % 2)
            try:
                o = c.create_inode(**kw)
            except Exception as e:
                return fail('create raised %r' % e)
            if o.id in ref or o.id in dead:
                return fail('id %d reused' % o.id)
            ref[o.id] = {a: int(kw.get(a, 0)) for a in A}
            log.append('create %d' % o.id)
            if vals(o) != ref[o.id]:
                return fail('new inode has %r, expected %r' % (vals(o), ref[o.id]))
        elif op == 'missing':
            j = rnd.choice(dead) if dead and rnd.random() < .7 else 10 ** 6 + 5
            log.append('missing %d' % j)
            try:
                c[j]
                return fail('reading missing inode %d succeeds' % j)
            except KeyError:
                pass
            try:
                del c[j]
                return fail('deleting missing inode %d succeeds' % j)
            except KeyError:
                pass
        elif i is None:
            continue
        elif op == 'read':
            log.append('read %d' % i)
            o = c[i]
            if o.id != i or vals(o) != ref[i]:
                return fail('inode %d reads %r, expected %r' % (i, vals(o), ref[i]))
            if c[i] is not o:
                return fail('two objects for one inode')
        elif op == 'set':
            o = c[i]
            for a in rnd.sample(A, rnd.randint(1, 3)):
                v = rnd.randrange(10 ** 6)
                if a == 'locked':
                    v = bool(v % 2)
                setattr(o, a, v)
                ref[i][a] = int(v)
                log.append('%d.%s=%d' % (i, a, v))
        elif op == 'del':
            log.append('del %d' % i)
            del c[i]
            del ref[i]
            dead.append(i)
            if row(i) is not None:
                return fail('deleted inode %d is still stored' % i)
        elif op == 'flush_id':
            log.append('flush_id %d' % i)
            c.flush_id(i)
            if row(i) != ref[i]:
                return fail('flush_id(%d): stored %r, expected %r' % (i, row(i), ref[i]))
        elif op in ('flush', 'drop'):
            log.append(op)
            getattr(c, op)()
            for j in ref:
                if row(j) != ref[j]:
                    return fail('%s: inode %d stored %r, expected %r' % (op, j, row(j), ref[j]))
            for j in dead:
                if row(j) is not None:
                    return fail('deleted inode %d written back' % j)
            if op == 'drop' and len(c.attrs):
                return fail('drop leaves entries')
        elif op == 'entry':
            o = c[i]
            e = o.entry_attributes()
            r = ref[i]
            got = dict(mode=e.st_mode, refcount=e.st_nlink, uid=e.st_uid, gid=e.st_gid, size=e.st_size, rdev=e.st_rdev,
                       atime_ns=e.st_atime_ns, mtime_ns=e.st_mtime_ns, ctime_ns=e.st_ctime_ns)
            if e.st_ino != i or any(got[a] != r[a] for a in got) or e.generation != 7:
                return fail('entry_attributes %r, expected %r' % (got, r))
        elif op == 'copy':
            o = c[i].copy()
            if vals(o) != ref[i] or o.id != i:
                return fail('copy differs')
            o.dirty = False
    c.destroy()
    for j in ref:
        if row(j) != ref[j]:
            return fail('destroy: inode %d stored %r, expected %r' % (j, row(j), ref[j]))
    n = db.get_val('SELECT COUNT(*) FROM inodes')
    if n != len(ref):
        return fail('%d rows stored, expected %d' % (n, len(ref)))
    if hooked:
        return fail('change lost: %r' % hooked[0])
    db.close()
    return None, cnt, '; '.join(log)[:300]
