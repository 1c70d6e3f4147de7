"""Concrete driver: the real Operations + BlockCache + InodeCache + Connection + local backend, run
against a plain in-memory reference file system.  Used to turn a failed obligation into a failing
input, and as the labelled *bounded* stand-in for code the verifier cannot reach.

A sequence is fully determined by (seed, profile).  All effects stay in a scratch directory.
"""
from __future__ import annotations
import errno, hashlib, logging, os, random, shutil, stat, sys, tempfile, traceback
import trio
from . import common


class Fail(Exception):
    def __init__(self, tags, msg):
        super().__init__(msg)
        self.tags = set(tags.split(',')) if isinstance(tags, str) else set(tags)
        self.msg = msg


class Ctx:
    def __init__(self, uid=1000, gid=1000):
        self.uid, self.gid, self.pid, self.umask = uid, gid, 1, 0


class Fields:
    def __init__(self, **kw):
        for k in ('atime', 'mtime', 'ctime', 'mode', 'uid', 'gid', 'size'):
            setattr(self, 'update_' + k, kw.get(k, False))


class Node:
    def __init__(self, kind, mode, uid, gid, rdev=0, target=None):
        self.kind = kind
        self.mode, self.uid, self.gid, self.rdev = mode, uid, gid, rdev
        self.data = bytearray()
        self.target = target
        self.xattr = {}
        self.entries = {}
        self.locked = False
        self.size0 = len(target) if target is not None else 0
        self.atime = self.mtime = None        # only when set explicitly

    @property
    def size(self):
        return len(self.data) if self.kind == 'file' else self.size0


NAMES = [b'a', b'b', b'c', b'd', b'user.x', b'n\xc3\xa4me', b'x' * 200, b'e', b'f']


class FaultBackend:
    """wraps the plain backend; injects failures for selected keys"""


async def make_env(S, cache_blocks, max_entries, inode_cache, workdir, nursery, compress='zlib', passphrase=None,
                   fresh=True):
    from s3ql import fs, block_cache, inode_cache as ic
    from s3ql.backends import local
    from s3ql.backends.comprenc import AsyncComprencBackend
    from s3ql.database import Connection, create_tables
    from s3ql.mkfs import init_tables
    from s3ql.backends.comprenc import CompressAlgorithm, CompressSpec
    os.makedirs(workdir + '/backend', exist_ok=True)
    plain = await local.AsyncBackend.create(storage_url='local://' + workdir + '/backend', backend_options={})
    backend = await AsyncComprencBackend.create(passphrase, CompressSpec(algorithm=CompressAlgorithm(compress), level=1)
                                                if compress != 'none' else CompressSpec(algorithm=CompressAlgorithm.NONE, level=0),
                                                plain)
    db = Connection(workdir + '/db.sqlite')
    if fresh:
        create_tables(db)
        init_tables(db)
    ic.CACHE_SIZE = inode_cache
    cache = await block_cache.BlockCache.create(backend, db, workdir + '/cache', S * cache_blocks, max_entries, nursery=nursery)
    inodes = ic.InodeCache(db, 0)
    ops = fs.Operations(cache, db, S, inodes)
    cache.fs = ops
    ops.init()
    return ops, cache, backend, db, inodes


class Sim:
    """One run."""

    def __init__(self, seed, profile, workdir, nops):
        self.rng = random.Random(seed)
        self.seed, self.profile, self.workdir, self.nops = seed, profile, workdir, nops
        self.trace = []
        self.nodes = {}
        self.look = {}
        self.failsafe = False
        r = self.rng
        self.S = r.choice([16, 64, 100, 256])
        self.cache_blocks = r.choice([1, 2, 5, 50])
        self.max_entries = r.choice([1, 3, 100])
        self.icache = r.choice([1, 2, 3, 7, 100]) if profile != 'bigicache' else 100
        self.compress = r.choice(['zlib', 'none', 'lzma']) if r.random() < .3 else 'none'
        self.passphrase = b'pass' if r.random() < .15 else None
        self.counts = {}

    # ---- infrastructure
    async def run(self):
        import s3ql
        logging.disable(logging.CRITICAL)
        import pyfuse3
        for f in ('invalidate_inode', 'invalidate_entry', 'invalidate_entry_async'):
            setattr(pyfuse3, f, lambda *a, **k: None)
        self.hook_errors = []
        old = sys.excepthook
        sys.excepthook = lambda t, v, tb: self.hook_errors.append(v)
        try:
            await self.run1()
        finally:
            sys.excepthook = old
        if self.hook_errors:
            raise Fail('C12', 'unflushed inode or block destroyed: %s' % self.hook_errors[0])

    async def run1(self):
        import pyfuse3
        async with trio.open_nursery() as nursery:
            self.nursery = nursery
            await self.mount(True)
            self.root = 1
            self.nodes = {1: Node('dir', None, None, None)}
            for row in list(self.db.query("SELECT name, inode FROM contents_v WHERE parent_inode=1").__enter__()):
                n = Node('dir', None, None, None)
                self.nodes[row[1]] = n
                self.nodes[1].entries[row[0]] = row[1]
            self.sync_attrs()
            self.look = {1: 1}
            for k in range(self.nops):
                await self.step()
                if self.rng.random() < .06:
                    await self.deep()
            await self.deep()
            await self.unmount()
            nursery.cancel_scope.cancel()

    async def mount(self, fresh=False):
        with trio.CancelScope():
            r = await make_env(self.S, self.cache_blocks, self.max_entries, self.icache, self.workdir, self.nursery,
                               self.compress, self.passphrase, fresh)
        self.ops, self.cache, self.backend, self.db, self.inodes = r

    async def unmount(self, keep=None):
        await self.ops.destroy()
        self.look = {1: 1}
        for i in [i for i, n in self.nodes.items() if self.nlink(i) == 0 and i != 1]:
            self.drop_node(i)
        keep = self.rng.random() < .3 if keep is None else keep
        await self.cache.destroy(keep_cache=keep)
        for _ in range(3):
            await trio.testing.wait_all_tasks_blocked(0.005)
        self.db.close()

    def sync_attrs(self):
        for i, n in self.nodes.items():
            a = self.inodes[i]
            n.mode, n.uid, n.gid, n.rdev = a.mode, a.uid, a.gid, a.rdev

    # ---- model helpers
    def nlink(self, i):
        return sum(1 for n in self.nodes.values() for t in n.entries.values() if t == i)

    def live(self, kind=None):
        return [i for i, n in self.nodes.items() if kind is None or n.kind == kind]

    def linked_dirs(self):
        """directories reachable from the root"""
        out, todo = set(), [1]
        while todo:
            i = todo.pop()
            if i in out or self.nodes[i].kind != 'dir':
                continue
            out.add(i)
            todo += self.nodes[i].entries.values()
        return sorted(out)

    def subtree(self, i):
        out, todo = [], [i]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.append(x)
            todo += self.nodes[x].entries.values()
        return out

    def add_look(self, i, n=1):
        self.look[i] = self.look.get(i, 0) + n

    def drop_node(self, i):
        if i in self.nodes and i != 1 and self.nlink(i) == 0 and not self.look.get(i):
            del self.nodes[i]

    def fail(self, tags, msg):
        raise Fail(tags, msg)

    # ---- calling operations
    async def call(self, tags, name, *a, expect=None, **kw):
        """-> ('ok', value) or ('err', errno)"""
        from pyfuse3 import FUSEError
        self.trace.append((name,) + tuple(self.short(x) for x in a))
        self.counts[name] = self.counts.get(name, 0) + 1
        before = self.frozen()
        try:
            r = await getattr(self.ops, name)(*a, **kw)
            if not (name == 'setxattr' and a[0] == 2):
                self.check_frozen(before, True)
            return 'ok', r
        except FUSEError as e:
            self.check_frozen(before, False)
            return 'err', e.errno
        except trio.Cancelled:
            raise
        except Exception as e:
            raise Fail(tags, '%s%r raised %s' % (name, self.trace[-1][1:], ''.join(
                traceback.format_exception_only(type(e), e)).strip()))

    FROZEN = ('mode', 'uid', 'gid', 'size', 'rdev', 'mtime_ns', 'ctime_ns')

    def frozen(self):
        """attributes of the inodes that must not change (without disturbing the attribute cache)"""
        out = {}
        for i, n in self.nodes.items():
            if n.locked or self.failsafe:
                a = self.inodes.attrs.get(i)
                if a is not None:
                    out[i] = tuple(getattr(a, x) for x in self.FROZEN)
                else:
                    for row in self.db.query('SELECT %s FROM inodes WHERE id=?' % ', '.join(self.FROZEN), (i,)):
                        out[i] = tuple(row)
        return out

    def check_frozen(self, before, success):
        if not before:
            return
        after = self.frozen()
        for i, b in before.items():
            if i in after and not self.failsafe_changed(i):
                k = len(b) if not success else len(b) - 1     # (un)linking an immutable file changes its ctime
                if after[i][:k] != b[:k]:
                    d = [(x, p, q) for x, p, q in zip(self.FROZEN, b[:k], after[i][:k]) if p != q]
                    self.fail('C08', '%s changed attributes of %s inode %d: %r' % (
                        self.trace[-1], 'immutable' if self.nodes[i].locked else '(fail-safe state)', i, d))

    def failsafe_changed(self, i):
        return self.failsafe != bool(self.ops.failsafe)

    def short(self, x):
        if isinstance(x, (bytes, bytearray)):
            return bytes(x) if len(x) < 40 else b'%s..(%d)' % (bytes(x[:8]), len(x))
        if isinstance(x, (int, str, tuple, list)) or x is None:
            return x
        return type(x).__name__

    def attrs(self, tags, i, a):
        n = self.nodes[i]
        exp = dict(st_ino=i, st_mode=n.mode, st_nlink=self.nlink(i) if i != 1 else a.st_nlink, st_uid=n.uid, st_gid=n.gid,
                   st_size=n.size, st_rdev=n.rdev)
        if n.atime is not None:
            pass
        if n.mtime is not None:
            exp['st_mtime_ns'] = n.mtime
        for k, v in exp.items():
            if getattr(a, k) != v:
                t = {'st_nlink': 'C06,C05', 'st_size': 'C04,C12', 'st_ino': 'C05'}.get(k, 'C12,C05')
                self.fail(t + ',' + tags, 'attribute %s of inode %d is %r, expected %r' % (k, i, getattr(a, k), v))

    def check_err(self, tags, what, got, allowed):
        if got[0] != 'err' or got[1] not in allowed:
            self.fail(tags, '%s: expected error %s, got %s' % (
                what, sorted(errno.errorcode.get(e, e) for e in allowed),
                errno.errorcode.get(got[1], got[1]) if got[0] == 'err' else 'success'))

    # ---- one random operation
    WEIGHTS = dict(create=8, mkdir=6, mknod=2, symlink=4, link=4, unlink=6, rmdir=3, rename=8, lookup=6, forget=10,
                   write=14, read=8, truncate=6, chattr=3, setxattr=6, removexattr=3, getxattr=3, listxattr=2,
                   readlink=2, readdir=3, copy=2, lock=1, rmtree=2, flush=2, dropc=2, remount=1, dup=3, open_trunc=2,
                   getattr=3, ctrl=1, fsync=1, badctl=1, failsafe=.05)
    PROFILES = {
        'names': dict(create=12, link=10, unlink=12, rename=20, setxattr=14, removexattr=8, symlink=6, forget=16, write=3, read=1),
        'data': dict(write=40, read=20, truncate=20, dup=10, create=8, dropc=6, flush=5, rename=2, mkdir=1, copy=3),
        'trees': dict(mkdir=16, create=14, copy=10, rmtree=8, lock=2, link=8, setxattr=8, symlink=6, write=10, rename=4),
        'lock': dict(lock=12, mkdir=12, create=14, write=14, setxattr=8, removexattr=6, rename=8, unlink=8, rmdir=5, truncate=6, copy=6,
                     link=6, rmtree=6, chattr=4, failsafe=.6),
        'unlinked': dict(unlink=20, rmdir=8, forget=4, write=14, create=14, rename=10, copy=5, truncate=6, dup=6, setxattr=8),
    }

    async def step(self):
        w = dict(self.WEIGHTS)
        if self.profile in self.PROFILES:
            w = {k: v * .3 for k, v in w.items()}
            w.update(self.PROFILES[self.profile])
        ops = list(w)
        op = self.rng.choices(ops, [w[o] for o in ops])[0]
        await getattr(self, 'op_' + op)()
        self.check_open()

    def check_open(self):
        o = {i: n for i, n in self.ops.open_inodes.items()}
        e = {i: n for i, n in self.look.items() if n}
        if o != e:
            d = {i: (o.get(i), e.get(i)) for i in set(o) | set(e) if o.get(i) != e.get(i)}
            self.fail('C06', 'kernel lookup counts differ (inode: (actual, expected)): %r' % d)

    def ctx(self):
        return Ctx(self.rng.choice([0, 1000, 2 ** 31]), self.rng.choice([0, 1000]))

    def held(self, kind=None):
        return [i for i in self.live(kind) if self.look.get(i)]

    async def hold(self, i):
        """the kernel can only name inodes it holds: look the inode up through one of its entries"""
        if self.look.get(i):
            return True
        for p, n in sorted(self.nodes.items()):
            for name, t in n.entries.items():
                if t == i and (self.look.get(p) or await self.hold(p)):
                    r = await self.call('C05,C06', 'lookup', p, name, self.ctx())
                    if r[0] != 'ok':
                        self.fail('C05', 'lookup of existing entry %r in %d failed: %s' % (name, p, r[1]))
                    if r[1].st_ino != i:
                        self.fail('C05', 'lookup of %r in %d gives inode %d, expected %d' % (name, p, r[1].st_ino, i))
                    self.add_look(i)
                    self.attrs('C05', i, r[1])
                    return True
        return False

    async def pick_dir(self, unlinked=.08):
        c = [i for i in self.held('dir') if self.nlink(i) == 0 and i != 1]
        if c and self.rng.random() < unlinked:
            return self.rng.choice(c)
        d = self.rng.choice(self.linked_dirs())
        await self.hold(d)
        return d

    async def pick_node(self, kind=None):
        c = self.live(kind)
        if not c:
            return None
        i = self.rng.choice(c)
        if not await self.hold(i):
            return None
        return i

    def new_name(self, d):
        free = [n for n in NAMES if n not in self.nodes[d].entries]
        if not free:
            return None
        return self.rng.choice(free)

    def guard(self, d, name=None):
        """errors that creating something in directory d must give"""
        n = self.nodes[d]
        if self.failsafe or n.locked:
            return {errno.EPERM} | ({errno.EINVAL} if self.nlink(d) == 0 and d != 1 else set())
        if d != 1 and self.nlink(d) == 0:
            return {errno.EINVAL}
        return None

    def gid_of(self, d, c, mode):
        n = self.nodes[d]
        if n.mode & stat.S_ISGID:
            if stat.S_ISDIR(mode):
                mode |= stat.S_ISGID
            return n.gid, mode
        return c.gid, mode

    async def _creat(self, op, kind, d, name, mode, args, target=None, rdev=0):
        c = self.ctx()
        g = self.guard(d)
        r = await self.call('C05,C06', op, d, name, *args, c)
        if g:
            self.check_err('C08' if (self.failsafe or self.nodes[d].locked) else 'C05,C06', '%s in %d' % (op, d), r, g)
            return None
        if r[0] != 'ok':
            self.fail('C05', '%s(%d, %r) failed with %s' % (op, d, name, errno.errorcode.get(r[1], r[1])))
        a = r[1][1] if op == 'create' else r[1]
        i = a.st_ino
        if i in self.nodes:
            self.fail('C05,C06', '%s returned existing inode %d' % (op, i))
        gid, mode = self.gid_of(d, c, mode)
        n = Node(kind, mode, c.uid, gid, rdev, target)
        self.nodes[i] = n
        self.nodes[d].entries[name] = i
        self.add_look(i)
        self.attrs('C05,C12', i, a)
        return i

    async def op_create(self):
        d = await self.pick_dir()
        ex = [k for k, t in self.nodes[d].entries.items() if self.nodes[t].kind == 'file']
        if ex and self.rng.random() < .2:        # create() on an existing entry
            name = self.rng.choice(ex)
            i = self.nodes[d].entries[name]
            r = await self.call('C05,C06', 'create', d, name, 0o100644, os.O_RDWR, self.ctx())
            n = self.nodes[i]
            if self.failsafe or n.locked:
                self.check_err('C08', 'create of immutable %r' % name, r, {errno.EPERM})
                return
            if r[0] != 'ok' or r[1][1].st_ino != i:
                self.fail('C05', 'create on existing entry gave %r' % (r,))
            self.add_look(i)
            self.attrs('C05,C12', i, r[1][1])
            return
        name = self.new_name(d)
        if name is None:
            return
        mode = 0o100000 | self.rng.choice([0o644, 0o600, 0o777, 0])
        i = await self._creat('create', 'file', d, name, mode, (mode, os.O_RDWR))
        if i and self.rng.random() < .6:
            await self.do_write(i)

    async def op_mkdir(self):
        d = await self.pick_dir()
        name = self.new_name(d)
        if name is not None and len(self.nodes) < 60:
            mode = 0o040000 | self.rng.choice([0o755, 0o700, 0o2755])
            await self._creat('mkdir', 'dir', d, name, mode, (mode,))

    async def op_mknod(self):
        d = await self.pick_dir()
        name = self.new_name(d)
        if name is not None:
            mode = self.rng.choice([stat.S_IFIFO, stat.S_IFSOCK, stat.S_IFCHR, stat.S_IFBLK]) | 0o600
            rdev = self.rng.choice([0, 5, 2 ** 31 + 7])
            await self._creat('mknod', 'special', d, name, mode, (mode, rdev), rdev=rdev)

    async def op_symlink(self):
        d = await self.pick_dir()
        name = self.new_name(d)
        if name is not None:
            t = self.rng.choice([b'target', b'', b'/a/b/c' * 30, b'\xff\xfe'])
            mode = stat.S_IFLNK | 0o777
            await self._creat('symlink', 'symlink', d, name, mode, (t,), target=t)

    async def op_link(self):
        i = await self.pick_node()
        d = await self.pick_dir()
        name = self.new_name(d)
        if i is None or name is None or self.nodes[i].kind == 'dir' or self.nlink(i) == 0:
            return
        g = self.guard(d)
        r = await self.call('C05,C06', 'link', i, d, name, self.ctx())
        if g:
            self.check_err('C08' if self.nodes[d].locked or self.failsafe else 'C05,C06', 'link', r, g)
            return
        if r[0] != 'ok':
            self.fail('C05', 'link failed: %s' % r[1])
        self.nodes[d].entries[name] = i
        self.add_look(i)
        self.attrs('C05,C06', i, r[1])

    def removed(self, i):
        self.drop_node(i)

    async def op_unlink(self, op='unlink'):
        d = await self.pick_dir()
        n = self.nodes[d]
        if not n.entries or self.rng.random() < .05:
            name = self.rng.choice([b'nonexistent', b'.__s3ql__ctrl__'])
            if name == b'.__s3ql__ctrl__':
                r = await self.call('C05,C06', op, d, name, self.ctx())
                if r[0] != 'err':
                    self.fail('C05', 'control file removed')
                return
            r = await self.call('C05,C06', op, d, name, self.ctx())
            self.check_err('C05,C06', '%s of missing entry' % op, r, {errno.ENOENT} | ({errno.EPERM} if self.failsafe or n.locked else set()))
            return
        name = self.rng.choice(sorted(n.entries))
        i = n.entries[name]
        isdir = self.nodes[i].kind == 'dir'
        r = await self.call('C05,C06', op, d, name, self.ctx())
        errs = set()
        if op == 'unlink' and isdir:
            errs.add(errno.EISDIR)
        if op == 'rmdir' and not isdir:
            errs.add(errno.ENOTDIR)
        if self.nodes[i].entries:
            errs.add(errno.ENOTEMPTY)
        if n.locked or self.failsafe:
            errs.add(errno.EPERM)
        if errs:
            self.check_err('C08,C05' if errno.EPERM in errs else 'C05', '%s of entry %r' % (op, name), r, errs)
            return
        if r[0] != 'ok':
            self.fail('C05', '%s(%d, %r) failed: %s' % (op, d, name, r[1]))
        del n.entries[name]
        self.removed(i)

    async def op_rmdir(self):
        await self.op_unlink('rmdir')

    async def op_rename(self):
        p, q = await self.pick_dir(.02), await self.pick_dir()
        if not self.nodes[p].entries:
            return
        name = self.rng.choice(sorted(self.nodes[p].entries))
        i = self.nodes[p].entries[name]
        if self.nodes[q].entries and self.rng.random() < .5:
            new = self.rng.choice(sorted(self.nodes[q].entries))
        else:
            new = self.rng.choice(NAMES)
        if q in self.subtree(i):
            return                       # the kernel refuses to move a directory beneath itself
        t = self.nodes[q].entries.get(new)
        if t == i:
            return                       # same file: the kernel does nothing
        r = await self.call('C05,C06', 'rename', p, name, q, new, 0, self.ctx())
        errs = set()
        if self.failsafe or self.nodes[p].locked or self.nodes[q].locked:
            errs.add(errno.EPERM)
        if q != 1 and self.nlink(q) == 0:
            errs |= {errno.EINVAL, errno.ENOENT}
        if t is not None and self.nodes[t].entries:
            errs |= {errno.EINVAL, errno.ENOTEMPTY}
        if errs:
            self.check_err('C08,C05' if errno.EPERM in errs else 'C05,C06', 'rename', r, errs)
            return
        if r[0] != 'ok':
            self.fail('C05', 'rename failed: %s' % r[1])
        del self.nodes[p].entries[name]
        self.nodes[q].entries[new] = i
        if t is not None:
            self.removed(t)

    async def op_lookup(self):
        d = await self.pick_dir()
        name = self.rng.choice(NAMES + [b'.__s3ql__ctrl__', b'missing'])
        r = await self.call('C05,C06', 'lookup', d, name, self.ctx())
        if name == b'.__s3ql__ctrl__':
            if r[0] != 'ok' or r[1].st_ino != 2:
                self.fail('C05,C20', 'control file lookup gives %r' % (r,))
            self.add_look(2)
            return
        i = self.nodes[d].entries.get(name)
        if i is None:
            self.check_err('C05', 'lookup of missing entry', r, {errno.ENOENT})
            return
        if r[0] != 'ok' or r[1].st_ino != i:
            self.fail('C05', 'lookup(%d, %r) gives %r, expected inode %d' % (d, name, r, i))
        self.add_look(i)
        self.attrs('C05,C12', i, r[1])

    async def op_getattr(self):
        i = await self.pick_node()
        if i is None:
            return
        r = await self.call('C05,C06,C12', 'getattr', i, self.ctx())
        if r[0] != 'ok':
            self.fail('C12', 'getattr failed')
        self.attrs('C12', i, r[1])

    async def op_forget(self):
        held = [i for i in self.look if self.look[i] > (1 if i == 1 else 0)]
        if not held:
            return
        items = []
        for i in self.rng.sample(held, min(len(held), self.rng.choice([1, 1, 2, 4]))):
            m = self.look[i] - (1 if i == 1 else 0)
            items.append((i, self.rng.choice([1, m])))
        r = await self.call('C06', 'forget', items)
        if r[0] != 'ok':
            self.fail('C06', 'forget failed')
        for i, n in items:
            self.look[i] -= n
            if not self.look[i]:
                del self.look[i]
            self.drop_node(i)

    # ---- data
    def rdata(self, n):
        r = self.rng
        k = r.random()
        if k < .3:
            return bytes([r.randrange(3)]) * n
        if k < .4:
            return b'\0' * n
        if k < .6:
            return bytes((j // 7) % 256 for j in range(n))
        return bytes(r.randrange(256) for _ in range(n))

    def roff(self, size):
        r, S = self.rng, self.S
        return max(0, r.choice([0, r.randrange(0, size + 1), size, r.randrange(0, 4 * S + 1), S * r.randrange(0, 5),
                                S * r.randrange(1, 5) - 1, S * r.randrange(0, 5) + 1]))

    async def do_write(self, i):
        n = self.nodes[i]
        off = self.roff(n.size)
        ln = self.rng.choice([0, 1, self.rng.randrange(1, 3 * self.S), self.S, 2 * self.S, self.rng.randrange(1, 12)])
        buf = self.rdata(ln)
        r = await self.call('C04', 'write', i, off, buf)
        if self.failsafe or n.locked:
            self.check_err('C08', 'write to immutable file', r, {errno.EPERM})
            return
        if r[0] != 'ok' or r[1] != ln:
            self.fail('C04', 'write(%d, %d, %d bytes) gives %r' % (i, off, ln, r))
        end = off + ln
        if end > len(n.data):
            n.data += bytes(end - len(n.data))
        n.data[off:end] = buf
        n.mtime = None

    async def op_write(self):
        i = await self.pick_node('file')
        if i is not None:
            await self.do_write(i)

    async def op_dup(self):
        """copy the contents of one file into another (deduplication)"""
        i, j = await self.pick_node('file'), await self.pick_node('file')
        if i is None or j is None or i == j:
            return
        buf = bytes(self.nodes[i].data)
        n = self.nodes[j]
        r = await self.call('C04', 'write', j, 0, buf)
        if self.failsafe or n.locked:
            self.check_err('C08', 'write to immutable file', r, {errno.EPERM})
            return
        if r[0] != 'ok' or r[1] != len(buf):
            self.fail('C04', 'write gives %r' % (r,))
        n.data[:len(buf)] = buf
        n.mtime = None

    async def op_read(self):
        i = await self.pick_node('file')
        if i is None:
            return
        await self.do_read(i)

    async def do_read(self, i, off=None, ln=None):
        n = self.nodes[i]
        off = self.roff(n.size) if off is None else off
        ln = self.rng.choice([1, self.S, 3 * self.S, self.rng.randrange(1, 5 * self.S), 10 ** 6]) if ln is None else ln
        r = await self.call('C04', 'read', i, off, ln)
        if r[0] != 'ok':
            self.fail('C04', 'read(%d, %d, %d) failed: %s' % (i, off, ln, r[1]))
        exp = bytes(n.data[off:off + ln])
        if r[1] != exp:
            k = next((k for k in range(min(len(exp), len(r[1]))) if exp[k] != r[1][k]), min(len(exp), len(r[1])))
            self.fail('C04', 'read(%d, %d, %d): %d bytes instead of %d, first difference at file offset %d' % (
                i, off, ln, len(r[1]), len(exp), off + k))

    def ea(self, **kw):
        import pyfuse3
        a = pyfuse3.EntryAttributes()
        for k, v in kw.items():
            setattr(a, k, v)
        return a

    async def op_truncate(self):
        i = await self.pick_node('file')
        if i is None:
            return
        n = self.nodes[i]
        sz = self.roff(n.size)
        r = await self.call('C04,C06', 'setattr', i, self.ea(st_size=sz), Fields(size=True), None, self.ctx())
        self.trace[-1] += (sz,)
        if self.failsafe or n.locked:
            self.check_err('C08', 'truncate of immutable file', r, {errno.EPERM})
            return
        if r[0] != 'ok':
            self.fail('C04', 'truncate failed: %s' % r[1])
        if sz < len(n.data):
            del n.data[sz:]
        else:
            n.data += bytes(sz - len(n.data))
        self.attrs('C04', i, r[1])

    async def op_open_trunc(self):
        i = await self.pick_node('file')
        if i is None:
            return
        n = self.nodes[i]
        r = await self.call('C04,C08', 'open', i, os.O_RDWR | os.O_TRUNC, self.ctx())
        if self.failsafe or n.locked:
            self.check_err('C08', 'open(O_TRUNC) of immutable file', r, {errno.EPERM})
            return
        if r[0] != 'ok':
            self.fail('C04', 'open(O_TRUNC) failed: %s' % r[1])
        n.data.clear()
        n.mtime = None

    async def op_chattr(self):
        i = await self.pick_node()
        if i is None:
            return
        n = self.nodes[i]
        fmt = stat.S_IFMT(n.mode)
        mode, uid, gid = fmt | self.rng.choice([0o600, 0o4755, 0o777]), self.rng.randrange(2 ** 32), self.rng.randrange(2 ** 32)
        mt = self.rng.choice([0, 10 ** 18 + 1, -5, 2 ** 62])
        f = {k: self.rng.random() < .5 for k in ('mode', 'uid', 'gid', 'mtime')}
        a = self.ea(st_mode=mode, st_uid=uid, st_gid=gid)
        a.st_mtime_ns = max(0, mt)
        r = await self.call('C12,C05', 'setattr', i, a, Fields(**f), None, self.ctx())
        if self.failsafe or n.locked:
            self.check_err('C08', 'setattr on immutable inode', r, {errno.EPERM})
            return
        if r[0] != 'ok':
            self.fail('C12', 'setattr failed: %s' % r[1])
        if f['mode']:
            n.mode = mode
        if f['uid']:
            n.uid = uid
        if f['gid']:
            n.gid = gid
        if f['mtime'] and n.kind == 'file':
            n.mtime = max(0, mt)
        self.attrs('C12', i, r[1])

    # ---- xattr
    async def op_setxattr(self):
        i = await self.pick_node()
        if i is None:
            return
        n = self.nodes[i]
        name, val = self.rng.choice(NAMES), self.rng.choice([b'', b'v', b'w' * 300, bytes(range(256))])
        r = await self.call('C05,C06', 'setxattr', i, name, val, self.ctx())
        if self.failsafe or n.locked:
            self.check_err('C08', 'setxattr on immutable inode', r, {errno.EPERM})
            return
        if r[0] != 'ok':
            self.fail('C05', 'setxattr failed: %s' % r[1])
        n.xattr[name] = val

    async def op_removexattr(self):
        import pyfuse3
        i = await self.pick_node()
        if i is None:
            return
        n = self.nodes[i]
        name = self.rng.choice(sorted(n.xattr) if n.xattr and self.rng.random() < .7 else NAMES)
        r = await self.call('C05,C06', 'removexattr', i, name, self.ctx())
        if self.failsafe or n.locked:
            self.check_err('C08', 'removexattr on immutable inode', r, {errno.EPERM})
            return
        if name not in n.xattr:
            self.check_err('C05,C06', 'removexattr of missing attribute', r, {pyfuse3.ENOATTR})
            return
        if r[0] != 'ok':
            self.fail('C05', 'removexattr failed: %s' % r[1])
        del n.xattr[name]

    async def op_getxattr(self):
        import pyfuse3
        i = await self.pick_node()
        if i is None:
            return
        n = self.nodes[i]
        name = self.rng.choice(sorted(n.xattr) if n.xattr and self.rng.random() < .8 else NAMES)
        r = await self.call('C05', 'getxattr', i, name, self.ctx())
        if name not in n.xattr:
            self.check_err('C05', 'getxattr of missing attribute', r, {pyfuse3.ENOATTR})
        elif r != ('ok', n.xattr[name]):
            self.fail('C05', 'getxattr(%d, %r) gives %r' % (i, name, r))

    async def op_listxattr(self):
        i = await self.pick_node()
        if i is None:
            return
        r = await self.call('C05', 'listxattr', i, self.ctx())
        if r[0] != 'ok' or sorted(r[1]) != sorted(self.nodes[i].xattr):
            self.fail('C05', 'listxattr(%d) gives %r, expected %r' % (i, r, sorted(self.nodes[i].xattr)))

    async def op_readlink(self):
        i = await self.pick_node('symlink')
        if i is None:
            return
        r = await self.call('C05,C06', 'readlink', i, self.ctx())
        if r != ('ok', self.nodes[i].target):
            self.fail('C05', 'readlink gives %r' % (r,))

    # ---- readdir
    async def op_readdir(self):
        d = await self.pick_dir()
        await self.do_readdir(d)

    async def do_readdir(self, d):
        import pyfuse3
        got, off = [], 0
        exp = dict(self.nodes[d].entries)
        stable = dict(exp)
        changed = 0
        old = pyfuse3.readdir_reply
        limit = self.rng.choice([1, 2, 3, 1000])
        try:
            for rounds in range(1000):
                cur = []

                def reply(token, name, attr, next_, cur=cur):
                    if len(cur) >= limit:
                        return False
                    cur.append((name, attr, next_))
                    return True
                pyfuse3.readdir_reply = reply
                r = await self.call('C20', 'readdir', d, off, object())
                if r[0] != 'ok':
                    self.fail('C20', 'readdir failed: %s' % r[1])
                for name, attr, next_ in cur:
                    if next_ <= 2 or next_ <= off:
                        self.fail('C20', 'readdir cursor %d after %d' % (next_, off))
                    i = self.nodes[d].entries.get(name)
                    if i is None:
                        self.fail('C20', 'readdir reports %r, which does not exist' % name)
                    self.add_look(i)
                    self.attrs('C20,C12', i, attr)
                    off = next_
                    got.append(name)
                if len(cur) < limit:
                    break
                if changed < 3 and self.rng.random() < .5 and not self.failsafe and not self.nodes[d].locked:
                    # remove an entry that was already listed, or add one, between two calls
                    changed += 1
                    if got and self.rng.random() < .5:
                        name = self.rng.choice(got)
                        i = self.nodes[d].entries.get(name)
                        if i is not None and self.nodes[i].kind != 'dir':
                            r = await self.call('C05,C06', 'unlink', d, name, self.ctx())
                            if r[0] == 'ok':
                                del self.nodes[d].entries[name]
                                stable.pop(name, None)
                                self.removed(i)
                    elif self.guard(d) is None:
                        name = self.new_name(d)
                        if name is not None and name not in got:
                            i = await self._creat('mknod', 'special', d, name, 0o010600, (0o010600, 0))
            else:
                self.fail('C20', 'readdir does not terminate')
        finally:
            pyfuse3.readdir_reply = old
        if len(set(got)) != len(got):
            self.fail('C20', 'readdir reports an entry twice: %r' % got)
        miss = set(stable) - set(got)
        if miss:
            self.fail('C20', 'readdir misses %r' % sorted(miss))

    # ---- control operations
    async def ctrl(self, name, value):
        return await self.call('C09,C08,C20,C05,C06' if name != b'copy' else 'C09,C06,C05', 'setxattr', 2, name, value, Ctx(0, 0))

    async def op_copy(self):
        """replicate a directory tree into a fresh directory (as s3qlcp does)"""
        src = self.rng.choice(self.linked_dirs())
        dst_p = await self.pick_dir(0)
        name = self.new_name(dst_p)
        if name is None or len(self.nodes) > 70 or dst_p in self.subtree(src):
            return
        await self.hold(src)
        t = await self._creat('mkdir', 'dir', dst_p, name, 0o040700, (0o040700,))
        if t is None:
            return
        before = set(self.nodes)
        r = await self.ctrl(b'copy', ('(%d, %d)' % (src, t)).encode())
        if self.failsafe:
            self.check_err('C08', 'copy in failsafe mode', r, {errno.EPERM})
            return
        if r[0] != 'ok':
            self.fail('C09', 'copy failed: %s' % r[1])
        sn, tn = self.nodes[src], self.nodes[t]
        tn.mode, tn.uid, tn.gid = sn.mode, sn.uid, sn.gid
        # learn the new inode ids from the directory entries, structure checked against the source
        mp = {}
        todo = [(src, t)]
        while todo:
            s, d = todo.pop()
            rows = dict((bytes(n), i) for n, i in self.db.query_typed((bytes, int), 'SELECT name, inode FROM contents_v WHERE parent_inode=?', (d,)))
            if set(rows) != set(self.nodes[s].entries):
                self.fail('C09', 'copy of directory %d has entries %r, expected %r' % (s, sorted(rows), sorted(self.nodes[s].entries)))
            for name, i in sorted(self.nodes[s].entries.items()):
                j = rows[name]
                if j in before:
                    self.fail('C09', 'entry %r of the copy is the pre-existing inode %d' % (name, j))
                if i in mp:
                    if mp[i] != j:
                        self.fail('C09', 'hard links to inode %d became inodes %d and %d in the copy' % (i, mp[i], j))
                elif j in mp.values():
                    self.fail('C09', 'inode %d used for two different files in the copy' % j)
                else:
                    mp[i] = j
                    o = self.nodes[i]
                    n = Node(o.kind, o.mode, o.uid, o.gid, o.rdev, o.target)
                    n.data = bytearray(o.data)
                    n.xattr = dict(o.xattr)
                    n.mtime = o.mtime
                    self.nodes[j] = n
                    if o.kind == 'dir':
                        todo.append((i, j))
                self.nodes[d].entries[name] = j
        for i, j in sorted(mp.items()):
            r = await self.call('C09', 'getattr', j, self.ctx())
            if r[0] != 'ok':
                self.fail('C09', 'copied inode %d has no attributes' % j)
            try:
                self.attrs('C09', j, r[1])
            except Fail as e:
                e.tags.add('C09')
                raise
            if self.nodes[j].kind == 'file' and self.rng.random() < .5:
                try:
                    await self.do_read(j, 0, 10 ** 6)
                except Fail as e:
                    e.tags.add('C09')
                    raise

    async def op_failsafe(self):
        self.trace.append(('FAILSAFE',))
        self.ops.failsafe = True
        self.failsafe = True

    async def op_lock(self):
        d = self.rng.choice(self.linked_dirs())
        if d == 1 or len(self.subtree(d)) > len(self.nodes) // 2 + 3:
            return
        r = await self.ctrl(b'lock', b'%d' % d)
        if self.failsafe:
            self.check_err('C08', 'lock in failsafe mode', r, {errno.EPERM})
            return
        if r[0] != 'ok':
            self.fail('C08', 'lock failed: %s' % r[1])
        for i in self.subtree(d):
            self.nodes[i].locked = True

    async def op_rmtree(self):
        import pyfuse3
        d = await self.pick_dir(0)
        if not self.nodes[d].entries:
            return
        name = self.rng.choice(sorted(self.nodes[d].entries))
        i = self.nodes[d].entries[name]
        r = await self.ctrl(b'rmtree', ('(%d, %r)' % (d, name)).encode())
        if self.failsafe or self.nodes[d].locked:
            self.check_err('C08', 'rmtree', r, {errno.EPERM})
            return
        if r[0] != 'ok':
            self.fail('C05,C06', 'rmtree failed: %s' % r[1])
        sub = self.subtree(i)
        del self.nodes[d].entries[name]
        for x in sub:
            if self.nodes[x].kind == 'dir':
                self.nodes[x].entries.clear()
        for x in sub:
            self.drop_node(x)

    async def op_ctrl(self):
        r = await self.call('C20', 'getxattr', 2, b's3ql_pid?', Ctx(0, 0))
        if r != ('ok', b'%d' % os.getpid()):
            self.fail('C20', 's3ql_pid? gives %r' % (r,))
        sz = self.rng.choice([self.S, self.S * 5])
        r = await self.ctrl(b'cachesize', b'%d' % sz)
        if r[0] != 'ok' or self.cache.cache.max_size != sz:
            self.fail('C20,C10', 'cachesize command has no effect')

    async def op_badctl(self):
        name, val = self.rng.choice([(b'copy', b'(1,'), (b'copy', b'(1, 2, 3)'), (b'copy', b'5'), (b'lock', b'"x"'), (b'lock', b''),
                                     (b'rmtree', b'(1, "str")'), (b'rmtree', b'()'), (b'cachesize', b'1.5'), (b'nosuch', b'1'),
                                     (b'copy', b'("a", 1)'), (b'logging', b'(1,)'), (b'copy', b'\xff'), (b'lock', b'1+'),
                                     (b'lock', b'[1]'), (b'copy', b'{1: 2}'), (b'cachesize', b'__import__("os")'),
                                     (b'lock', b'(' * 500), (b'copy', b'{[]: 1}'), (b'lock', b'True'), (b'cachesize', b'True'),
                                     (b'cachesize', b'b"5"'), (b'copy', b'(1, True)'), (b'copy', b'(True, 1)'), (b'copy', b'[1, 1]'),
                                     (b'rmtree', b'(1, b"x", 2)'), (b'rmtree', b'(True, b"x")'), (b'rmtree', b'[1, b"x"]'),
                                     (b'rmtree', b'(1,)'), (b'copy', b'(1,)'), (b'copy', b'()'), (b'logging', b'(1, b"x")'),
                                     (b'logging', b'(True, "x")'), (b'logging', b'("10", "x")'), (b'cachesize', b'(5,)'),
                                     (b'lock', b'(1,)'), (b'lock', b'1.0'), (b'cachesize', b'None'), (b'copy', b'1, 1, 1'),
                                     (b'rmtree', b'(b"x", 1)'), (b'lock', b'1 if True else 2'), (b'cachesize', b'')])
        sz = self.cache.cache.max_size
        r = await self.call('C20', 'setxattr', 2, name, val, Ctx(0, 0))
        if self.cache.cache.max_size != sz:
            self.fail('C20', 'malformed control command %r %r changes the cache size' % (name, val))
        if r[0] != 'err':
            self.fail('C20', 'malformed control command %r %r accepted' % (name, val))

    # ---- cache handling
    async def op_flush(self):
        r = await self.ctrl(b's3ql_flushcache!', b'')
        if r[0] != 'ok':
            self.fail('C10', 'flush failed')
        self.check_cache(flushed=True)

    async def op_dropc(self):
        r = await self.ctrl(b's3ql_dropcache!', b'')
        if r[0] != 'ok':
            self.fail('C10', 'drop failed')
        if len(self.cache.cache) or self.cache.cache.size:
            self.fail('C10', 'cache not empty after drop: %d entries, size %d' % (len(self.cache.cache), self.cache.cache.size))
        self.check_cache(flushed=True)

    async def op_fsync(self):
        i = await self.pick_node('file')
        if i is not None:
            r = await self.call('C04', 'fsync', i, self.rng.random() < .5)
            if r[0] != 'ok':
                self.fail('C04', 'fsync failed')

    async def op_remount(self):
        self.trace.append(('remount',))
        try:
            await self.unmount()
            await self.mount(False)
            self.failsafe = False
        except Fail:
            raise
        except trio.Cancelled:
            raise
        except Exception as e:
            raise Fail('C06,C10,C12', 'unmount/mount raised %r' % e)

    def check_cache(self, flushed=False):
        c = self.cache.cache
        els = list(c.values())
        tot = sum(e.size for e in els)
        if c.size != tot:
            self.fail('C10', 'cache.size is %d but the entries add up to %d' % (c.size, tot))
        for e in els:
            if os.fstat(e.fh.fileno()).st_size != e.size:
                self.fail('C10', 'entry %s: size %d, file has %d bytes' % (e.key, e.size, os.fstat(e.fh.fileno()).st_size))
            if flushed and e.dirty:
                self.fail('C10', 'dirty entry %s after flush' % (e.key,))
            i, b = e.key
            if i not in self.nodes:
                self.fail('C06,C10', 'cached block of removed inode %d' % i)
        files = sorted(f for f in os.listdir(self.cache.path))
        exp = sorted('%d-%d' % e.key for e in els)
        if files != exp:
            self.fail('C10', 'cache directory holds %r, cache knows %r' % (files[:10], exp[:10]))
        u = self.cache.get_usage()
        if u[:4] != (len(els), tot, sum(1 for e in els if e.dirty), sum(e.size for e in els if e.dirty)):
            self.fail('C10', 'get_usage() gives %r' % (u,))

    # ---- whole-state comparison
    async def deep(self):
        self.trace.append(('deep-check',))
        self.inodes.flush()
        db = self.db
        q = lambda sql: list(db.query(sql).__enter__())
        rows = {r[0]: r for r in q('SELECT id, refcount, mode, uid, gid, size, rdev, locked FROM inodes')}
        ctrl = {2}
        extra = set(rows) - set(self.nodes) - ctrl
        if extra:
            self.fail('C06,C09', 'inodes %r are in the database but not in use' % sorted(extra))
        for i, n in self.nodes.items():
            r = rows.get(i)
            if r is None:
                self.fail('C06', 'inode %d vanished while in use' % i)
            if i != 1 and r[1] != self.nlink(i):
                self.fail('C06', 'inode %d: refcount %d, %d entries' % (i, r[1], self.nlink(i)))
            if (r[2], r[3], r[4], r[6]) != (n.mode, n.uid, n.gid, n.rdev):
                self.fail('C12,C05', 'inode %d: stored attributes %r, expected %r' % (i, r[2:], (n.mode, n.uid, n.gid, n.rdev)))
            if r[5] != n.size:
                self.fail('C04,C12', 'inode %d: stored size %d, expected %d' % (i, r[5], n.size))
            if bool(r[7]) != n.locked:
                self.fail('C08', 'inode %d: locked is %r, expected %r' % (i, r[7], n.locked))
        con = {(r[0], bytes(r[1])): r[2] for r in q('SELECT parent_inode, name, inode FROM contents_v')}
        exp = {(i, k): t for i, n in self.nodes.items() for k, t in n.entries.items()}
        if con != exp or len(con) != q('SELECT count(*) FROM contents')[0][0]:
            self.fail('C05', 'directory entries differ: %r' % sorted(set(con.items()) ^ set(exp.items()))[:5])
        use = {}
        for (i, k) in con:
            use[k] = use.get(k, 0) + 1
        xa = {(r[0], bytes(r[1])): bytes(r[2]) for r in q('SELECT inode, name, value FROM ext_attributes_v')}
        expx = {(i, k): v for i, n in self.nodes.items() for k, v in n.xattr.items()}
        if xa != expx:
            self.fail('C05,C09' if len(xa) <= len(expx) else 'C05,C06', 'extended attributes differ: %r' % sorted(set(xa.items()) ^ set(expx.items()))[:5])
        if q('SELECT count(*) FROM ext_attributes')[0][0] != len(xa):
            self.fail('C05', 'extended attribute without name')
        for (i, k) in xa:
            use[k] = use.get(k, 0) + 1
        names = {bytes(r[0]): r[1] for r in q('SELECT name, refcount FROM names')}
        if names != use:
            self.fail('C05,C06', 'name reference counts differ (name, count): %r' % sorted(set(names.items()) ^ set(use.items()))[:5])
        sy = {r[0]: bytes(r[1]) for r in q('SELECT inode, target FROM symlink_targets')}
        expy = {i: n.target for i, n in self.nodes.items() if n.kind == 'symlink'}
        if sy != expy:
            self.fail('C05,C06', 'symlink targets differ: %r' % sorted(set(sy.items()) ^ set(expy.items()))[:5])
        await self.check_objects()
        self.check_cache()
        for i in self.live('file'):
            if self.rng.random() < .4:
                await self.do_read(i, 0, 10 ** 6)

    async def check_objects(self, flush=None):
        if flush is None:
            flush = self.rng.random() < .5
        q = lambda sql: list(self.db.query(sql).__enter__())
        if flush:
            await self.cache.flush()
            self.check_cache(flushed=True)
        for _ in range(2):
            await trio.testing.wait_all_tasks_blocked(0.002)
        ib = q('SELECT inode, blockno, obj_id FROM inode_blocks')
        obj = {r[0]: r for r in q('SELECT id, hash, refcount, phys_size, length FROM objects')}
        cnt = {}
        for i, b, o in ib:
            cnt[o] = cnt.get(o, 0) + 1
            if i not in self.nodes:
                self.fail('C06', 'block %d of removed inode %d' % (b, i))
            if b < 0 or b * self.S >= self.nodes[i].size:
                self.fail('C04,C06', 'inode %d (size %d) has a block %d beyond its end' % (i, self.nodes[i].size, b))
            if o not in obj:
                self.fail('C07', 'inode %d block %d refers to missing object %d' % (i, b, o))
        for o, r in obj.items():
            if r[2] != cnt.get(o, 0):
                self.fail('C07,C09', 'object %d: refcount %d but %d blocks use it' % (o, r[2], cnt.get(o, 0)))
        keys = set()
        async for k in self.backend.list('s3ql_data_'):
            keys.add(int(k[10:]))
        if not self.cache.transfer_in_progress():
            if keys != set(obj):
                self.fail('C07', 'backend objects not in database: %r; database objects not in backend: %r' % (
                    sorted(keys - set(obj))[:5], sorted(set(obj) - keys)[:5]))
        hs = [r[1] for r in obj.values() if r[1] is not None]
        if len(hs) != len(set(hs)):
            self.fail('C07', 'two objects with the same hash')
        if not flush:
            return
        cont = {}
        for o, r in obj.items():
            import io
            b = io.BytesIO()
            await self.backend.readinto_fh('s3ql_data_%d' % o, b)
            b = b.getvalue()
            cont[o] = b
            if len(b) != r[4]:
                self.fail('C07', 'object %d: length %d, stored %d bytes' % (o, r[4], len(b)))
            if r[1] is not None and hashlib.sha256(b).digest() != r[1]:
                self.fail('C07', 'object %d: hash does not match the stored data' % o)
            if r[3] <= 0:
                self.fail('C07', 'object %d: phys_size %d after upload' % (o, r[3]))
        have = {(i, b): o for i, b, o in ib}
        for i in self.live('file'):
            n = self.nodes[i]
            for b in range((n.size + self.S - 1) // self.S):
                exp = bytes(n.data[b * self.S:(b + 1) * self.S])
                o = have.get((i, b))
                got = cont[o] if o is not None else b''
                if len(got) > self.S:
                    self.fail('C07', 'object %d larger than a block' % o)
                if got[:len(exp)] + bytes(len(exp) - len(got[:len(exp)])) != exp:
                    self.fail('C07,C10,C04', 'stored data of inode %d block %d differs from what was written' % (i, b))


def run_one(seed, profile, nops=60, scratch=None):
    """-> None or dict(tags, msg, seed, profile, trace)"""
    import trio.testing
    wd = tempfile.mkdtemp(prefix='vfs-', dir=scratch)
    sim = Sim(seed, profile, wd, nops)
    try:
        with open(os.devnull, 'w') as dn:
            olde = sys.stderr
            try:
                trio.run(sim.run)
            finally:
                sys.stderr = olde
        return None, sim
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        f = find_fail(e)
        if f is None and common.misfit(e):
            raise
        if f is None:
            return dict(tags=sorted(ALLTAGS), msg='unexpected %s' % ''.join(traceback.format_exception(e))[-3000:], seed=seed,
                        profile=profile, nops=nops, trace=sim.trace[-40:], config=cfg(sim)), sim
        return dict(tags=sorted(f.tags), msg=f.msg, seed=seed, profile=profile, nops=nops, trace=sim.trace[-40:], config=cfg(sim)), sim
    finally:
        try:                     # keep the destructors of a failed run quiet
            for x in sim.inodes.attrs.values():
                x.dirty = False
            sim.inodes.attrs.clear()
            for x in list(sim.cache.cache.values()):
                x.dirty = False
        except Exception:
            pass
        shutil.rmtree(wd, ignore_errors=True)


ALLTAGS = {'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C12', 'C20'}


def cfg(s):
    return dict(max_obj_size=s.S, cache_blocks=s.cache_blocks, max_entries=s.max_entries, inode_cache=s.icache,
                compress=s.compress, encrypted=bool(s.passphrase))


def find_fail(e):
    if isinstance(e, Fail):
        return e
    if isinstance(e, BaseExceptionGroup):
        for x in e.exceptions:
            f = find_fail(x)
            if f:
                return f
    return None


RULE = ('random sequence of file system requests (seed, profile) on the real Operations/BlockCache/InodeCache/'
        'database/local backend with tiny caches and blocks, compared after every request with a reference model; '
        'non-trivial = distinct multiset of executed operations')
BY_PROP = {'C04': ['data', '', 'data', 'unlinked'], 'C05': ['names', '', 'unlinked', 'trees'],
           'C06': ['unlinked', 'names', '', 'trees'], 'C07': ['data', '', 'trees', 'data'],
           'C08': ['lock', 'lock', 'trees', ''], 'C09': ['trees', 'trees', 'lock', ''],
           'C10': ['data', '', 'trees'], 'C12': ['', 'names', 'unlinked', 'data'], 'C20': ['names', 'trees', '']}


def cases(prop, seed, n, kw):
    P = BY_PROP[prop]
    for k in range(n):
        yield (seed * 1000003 + k, P[k % len(P)], kw.get('nops', 60))


def run_case(case, prop):
    f, sim = run_one(*case)
    return f, dict(sim.counts), '%r -> %r' % (case, sim.trace[:4])


if __name__ == '__main__':
    import time
    t = time.time()
    n = int(sys.argv[1])
    base = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    prof = sys.argv[3] if len(sys.argv) > 3 else None
    P = [''] + sorted(Sim.PROFILES)
    tot = {}
    for k in range(base, base + n):
        r, s = run_one(k, prof if prof is not None else P[k % len(P)])
        for a, b in s.counts.items():
            tot[a] = tot.get(a, 0) + b
        if r:
            print('FAIL', r['seed'], r['profile'], r['tags'], r['msg'][:1500], r['config'])
            for x in r['trace'][-12:]:
                print('   ', x)
    print(tot, round(time.time() - t, 1))
