"""Mounting (C16, C14, C15): histories of mkfs, mount (successful, failing, crashing, with metadata backups), fsck and parameter
changes on two machines sharing one storage, using the real commands with the FUSE library replaced by a stub; and reading and
writing of file system parameters."""
from __future__ import annotations
import io, json, logging, os, random, shutil, sys, tempfile, traceback
import trio

RULE = ('random histories of mount.s3ql / fsck.s3ql on two machines (clean, failing, crashing, damaged, outdated, with backups in '
        'between), every step a separate process of the real command with a stub FUSE library; parameter round trips')


def cases(prop, seed, n, kw):
    for s in range(n):
        yield (seed, s)


class Fail(Exception):
    def __init__(self, tags, msg):
        self.tags, self.msg = tags, msg


def child(fn):
    """run fn in a forked process; it returns a JSON value"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            out = fn(lambda v: os.write(w, (json.dumps(v) + '\n').encode()))
            os.write(w, (json.dumps({'end': out}) + '\n').encode())
            code = 0
        except BaseException:
            os.write(w, (json.dumps({'err': traceback.format_exc()[-1500:]}) + '\n').encode())
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    while True:
        x = os.read(r, 65536)
        if not x:
            break
        buf += x
    os.close(r)
    os.waitpid(pid, 0)
    return [json.loads(l) for l in buf.decode().splitlines()]


def outcome(e):
    from s3ql.logging import QuietError
    if isinstance(e, BaseExceptionGroup):
        rs = [outcome(x) for x in e.exceptions]
        return next((r for r in rs if r.startswith('exit')), rs[0])
    if isinstance(e, QuietError):
        return 'exit %s' % e.exitcode
    if isinstance(e, SystemExit):
        return 'sys %s' % e.code
    return 'exc %s: %s' % (type(e).__name__, e)


def run_app(m, args):
    import contextlib
    dn = open(os.devnull, 'w')
    os.dup2(dn.fileno(), 1)
    os.dup2(dn.fileno(), 2)
    try:
        m.app(args, standalone_mode=False)
        return 'ok'
    except BaseException as e:
        return outcome(e)


class W:
    def __init__(self, d, rng):
        self.d, self.rng = d, rng
        os.mkdir(d + '/be')
        os.mkdir(d + '/mnt')
        for c in ('c1', 'c2'):
            os.mkdir(d + '/' + c)
        fd = os.open(d + '/auth', os.O_CREAT | os.O_WRONLY, 0o600)
        os.close(fd)
        self.url = 'local://%s/be' % d

    def base(self, c):
        return [self.url], ['--authfile', self.d + '/auth', '--cachedir', self.d + '/' + c]

    def params(self, c):
        """(local, remote) parameters as dictionaries"""
        def go(send):
            import glob
            from s3ql.common import thaw_basic_mapping
            loc = None
            for f in glob.glob(self.d + '/' + c + '/*.params'):
                loc = thaw_basic_mapping(open(f, 'rb').read())
            return [loc, self.remote()]
        r = child(go)
        if 'end' not in r[-1]:
            raise Fail(['C16'], 'parameters unreadable: %s' % r)
        return r[-1]['end']

    def remote(self, upd=None):
        from s3ql.backends import local
        from s3ql.backends.comprenc import AsyncComprencBackend
        from s3ql.common import thaw_basic_mapping, freeze_basic_mapping
        from s3ql.authinfo import CompressSpec, Authinfo
        from s3ql.backends import open_backend

        async def go():
            async with await open_backend(self.url, Authinfo.from_file(self.d + '/auth', self.url), compress=CompressSpec.parse('none')) as be:
                d = thaw_basic_mapping((await be.fetch('s3ql_params'))[0])
                if upd:
                    d.update(upd)
                    await be.store('s3ql_params', freeze_basic_mapping(d))
                    await be.store('s3ql_params_%010x' % d['seq_no'], freeze_basic_mapping(d))
                return d
        return trio.run(go)

    def mkfs(self):
        def go(send):
            from s3ql import mkfs
            a, b = self.base('c1')
            return run_app(mkfs, a + ['--plain', '--metadata-block-size', '4'] + b)
        return child(go)

    def fsck(self, c, *opts):
        def go(send):
            from s3ql import fsck
            a, b = self.base(c)
            return run_app(fsck, a + ['--log', 'none', '--batch', '--max-threads', '1'] + list(opts) + b)
        return child(go)

    def mount(self, c, plan, opts=()):
        """plan: list of ('mk', name) ('rm', name) ('backup',) ('crash',) ('fail',) ('ls',)"""
        w = self

        def go2(send):
            import pyfuse3
            from s3ql import mount
            S = {}

            def init(ops, mnt, o):
                if ('fail',) in plan:
                    raise RuntimeError('cannot mount')
                S['ops'] = ops

            async def main():
                import glob
                from s3ql.common import thaw_basic_mapping
                ops = S['ops']
                loc = [thaw_basic_mapping(open(f, 'rb').read()) for f in glob.glob(w.d + '/' + c + '/*.params')]
                be = ops.cache.backend_pool if hasattr(ops.cache, 'backend_pool') else ops.cache.backend
                rem = thaw_basic_mapping((await be.fetch('s3ql_params'))[0])
                cur = 's3ql_params_%010x' % rem['seq_no']
                remv = thaw_basic_mapping((await be.fetch(cur))[0]) if await be.contains(cur) else None
                send({'serving': [loc[0] if loc else None, rem, remv],
                      'ls': sorted(bytes(r[0]).decode() for r in ops.db.query('SELECT name FROM contents_v'))})
                ctx = type('C', (), dict(uid=0, gid=0, pid=1, umask=0))()
                for st in plan:
                    if st[0] == 'mk':
                        fi, at = await ops.create(1, st[1].encode(), 0o100644, os.O_RDWR, ctx)
                        await ops.release(fi.fh)
                        await ops.forget([(at.st_ino, 1)])
                    elif st[0] == 'rm':
                        await ops.unlink(1, st[1].encode(), ctx)
                    elif st[0] == 'backup':
                        before = ops.upload_task.params.seq_no
                        ops.upload_task.event.set()
                        for _ in range(4000):
                            await trio.sleep(.002)
                            r = thaw_basic_mapping((await be.fetch('s3ql_params'))[0])
                            if r['seq_no'] > before and ops.db._inhibit_writes_event is None:
                                break
                        else:
                            raise RuntimeError('no backup')
                        send({'backup': r['seq_no']})
                    elif st[0] == 'crash':
                        send({'crash': 1})
                        os._exit(3)
                    elif st[0] == 'broken':
                        ops.failsafe = True
            pyfuse3.init, pyfuse3.main, pyfuse3.close = init, main, lambda unmount=True: None
            a, b = w.base(c)
            return run_app(mount, a + [w.d + '/mnt'] + b + ['--log', 'none', '--fg', '--cachesize', '1000', '--max-threads', '1',
                                                          '--compress', 'none'] + list(opts))
        return child(go2)


def history(case, prop, d, counts, trace):
    rng = random.Random(repr(case))
    w = W(d, rng)
    T = ['C16']

    def fail(msg, tags=T):
        raise Fail(tags, msg)
    r = w.mkfs()
    if r[-1].get('end') != 'ok':
        fail('mkfs: %r' % r)
    R = dict(seq=w.params('c1')[1]['seq_no'], mounted=False, damaged=False, ls={'lost+found'}, id=0)
    L = {'c1': dict(R), 'c2': None}
    ctr = [0]
    ids = [0]

    def newid():
        ids[0] += 1
        return ids[0]
    rolled = False
    old = None                  # an earlier state of the storage: (copy, parameters)

    def check_params(c, what):
        loc, rem = w.params(c)
        l = L[c]
        exp = (l['seq'], l['mounted']) if l else None
        got = (loc['seq_no'], loc['is_mounted']) if loc else None
        if got != exp:
            fail('%s: local parameters are (version, in use) %r instead of %r' % (what, got, exp))
        if (rem['seq_no'], rem['is_mounted'], rem['needs_fsck']) != (R['seq'], R['mounted'], R['damaged']):
            fail('%s: remote parameters are (version, in use, damaged) %r instead of %r' % (
                what, (rem['seq_no'], rem['is_mounted'], rem['needs_fsck']), (R['seq'], R['mounted'], R['damaged'])))
    for step in range(rng.randrange(2, 9)):
        c = rng.choice(['c1', 'c1', 'c2'])
        l = L[c]
        l_use = None if l is not None and l['seq'] < R['seq'] else l

        def stale():
            # same version, other content: not to be used for mounting
            return l_use is not None and l_use['seq'] == R['seq'] and l_use['id'] != R['id']
        op = rng.choice(['mount', 'mount', 'mount', 'fsck', 'mark', 'lose', 'rollback'])
        if op == 'rollback':
            # the storage is restored from a copy made earlier
            if old is None:
                shutil.copytree(d + '/be', d + '/be.old')
                old = dict(R)
                old['ls'] = set(R['ls'])
            elif rng.random() < .6:
                trace.append('storage rolled back to version %d' % old['seq'])
                shutil.rmtree(d + '/be')
                shutil.copytree(d + '/be.old', d + '/be')
                R = dict(old)
                R['ls'] = set(old['ls'])
                rolled = True
            continue
        force = False
        if rolled and rng.random() < .7:
            op, c = 'fsck', rng.choice(['c1', 'c2'])
            l = L[c]
            l_use = None if l is not None and l['seq'] < R['seq'] else l
        rolled = False
        if R['mounted'] and rng.random() < .7:
            # somebody else carries on after a crash
            op, force = 'fsck', True
            c = rng.choice(['c1', 'c2', 'c2'])
            l = L[c]
            l_use = None if l is not None and l['seq'] < R['seq'] else l
        if op == 'lose':
            # the local copy is lost
            if rng.random() < .5 or l is None:
                continue
            trace.append('%s: local copy lost' % c)
            shutil.rmtree(d + '/' + c)
            os.mkdir(d + '/' + c)
            L[c] = None
            continue
        if op == 'mark':
            if rng.random() < .6:
                continue
            trace.append('remote marked as damaged')
            R['damaged'] = True
            child(lambda send: w.remote({'needs_fsck': True}) and None)
            R['id'] = newid()
            continue
        if op == 'mount':
            plan = []
            names = set(R['ls'] if l_use is None else l_use['ls'])
            if rng.random() < .12:
                plan.append(('fail',))
            for _ in range(rng.randrange(0, 3)):
                ctr[0] += 1
                for k in range(rng.choice([1, 1, 40])):
                    plan.append(('mk', 'f%d-%d' % (ctr[0], k)))
            k = rng.randrange(6)
            if k == 0:
                plan.insert(rng.randrange(len(plan) + 1), ('backup',))
            if k == 1 and ('fail',) not in plan:
                plan.append(('broken',))
            if rng.random() < .25:
                plan.insert(rng.randrange(len(plan) + 1), ('crash',))
                plan = plan[:plan.index(('crash',)) + 1]
            opts = rng.choice([[], [], ['--nfs']])
            trace.append('%s: mount %s %s' % (c, plan[:3] + plan[-2:] if len(plan) > 5 else plan, opts))
            counts['mount'] = counts.get('mount', 0) + 1
            out = w.mount(c, plan, opts)
            res = out[-1].get('end', out[-1])
            # what has to happen
            if l is not None and l['seq'] > R['seq']:
                want = 'exit 30'
            elif stale():
                want = 'refuse'
            elif R['mounted']:
                want = 'exit 31'
            elif R['damaged']:
                want = 'exit 30'
            else:
                want = None
            serving = [o for o in out if 'serving' in o]
            if want is not None:
                counts['refused'] = counts.get('refused', 0) + 1
                if serving or not isinstance(res, str) or (want != 'refuse' and res != want) or res == 'ok':
                    fail('mount on %s: %s instead of %s (local %r, remote %r)' % (c, 'mounted' if serving else res, want, l, R))
                check_params(c, 'refused mount')
                continue
            if ('fail',) in plan:
                if serving or res != 'exit 39':
                    fail('mount with failing FUSE: %r' % (res,))
                if l_use is None:
                    # downloaded, but not in use: parameters still those of the old copy
                    pass
                check_params(c, 'failed mount')
                continue
            if not serving:
                fail('mount on %s refused or failed: %s (local %r, remote %r)' % (c, res, l, R))
            seq = max(R['seq'], 0) + 1
            loc, rem, remv = serving[0]['serving']
            for nm, p in (('local', loc), ('remote', rem), ('remote versioned', remv)):
                if p is None or p['seq_no'] != seq or not p['is_mounted']:
                    fail('file system is served while the %s parameters are %r (expected version %d, in use)' % (
                        nm, p and (p['seq_no'], p['is_mounted']), seq))
            if set(serving[0]['ls']) != R['ls']:
                fail('mounted on %s: directory entries %r... instead of %r...' % (
                    c, sorted(set(serving[0]['ls']) ^ R['ls'])[:6], sorted(R['ls'])[:6]), ['C16', 'C14'])
            nl = set(R['ls'])
            R.update(seq=seq, mounted=True, id=newid())
            L[c] = dict(seq=seq, mounted=True, ls=nl, id=R['id'])
            for st in plan:
                if st[0] == 'mk':
                    nl.add(st[1])
                elif st[0] == 'backup':
                    R['ls'] = set(nl)
                    R['seq'] += 1
                    R['id'] = newid()
                    L[c].update(seq=R['seq'], id=R['id'])
            broken = ('broken',) in plan
            if ('crash',) in plan:
                check_params(c, 'crashed mount')
                continue
            if res != 'ok':
                fail('mount does not end properly: %r' % (res,))
            R.update(mounted=False, ls=set(nl), damaged=broken, id=newid())
            L[c] = dict(seq=R['seq'], mounted=False, ls=set(nl), id=R['id'], damaged=broken)
            check_params(c, 'mount')
            continue
        # fsck
        opts = []
        if force or rng.random() < .6:
            opts.append('--force-remote')
        if rng.random() < .6:
            opts.append('--force')
        if rng.random() < .5:
            opts.append('--fast')
        trace.append('%s: fsck %s' % (c, opts))
        counts['fsck'] = counts.get('fsck', 0) + 1
        out = w.fsck(c, *opts)
        res = out[-1].get('end', out[-1])
        if l_use is not None:
            src, mounted = l_use['ls'], l_use['mounted']
            need = l_use['mounted'] or l_use['seq'] > R['seq'] or l_use.get('damaged')
            if stale():
                if not mounted and '--force' not in opts:
                    check_params(c, 'fsck')
                    continue
            seq = l_use['seq']
        else:
            src, mounted, need, seq = R['ls'], R['mounted'], R['damaged'] or R['mounted'], R['seq']
            if mounted and '--force-remote' not in opts:
                if res != 'exit 41':
                    fail('fsck of a file system in use elsewhere: %r' % (res,))
                check_params(c, 'refused fsck')
                continue
        if not need and '--force' not in opts:
            if res != 'ok':
                fail('fsck of a clean file system: %r' % (res,))
            check_params(c, 'fsck')
            continue
        if res not in ('sys 0', 'sys 128'):
            fail('fsck on %s fails: %r (local %r, remote %r)' % (c, res, l, R))
        R.update(seq=seq + 1, mounted=False, damaged=False, ls=set(src), id=newid())
        L[c] = dict(seq=seq + 1, mounted=False, ls=set(src), id=R['id'])
        check_params(c, 'fsck')
    # a final look from a fresh machine
    if not R['mounted'] and not R['damaged'] and rng.random() < .7:
        os.mkdir(d + '/c3')
        L['c3'] = None
        trace.append('c3: mount')
        out = w.mount('c3', [])
        s = [o for o in out if 'serving' in o]
        if not s or out[-1].get('end') != 'ok':
            fail('clean file system cannot be mounted on another machine: %r' % (out[-1],), ['C14', 'C16'])
        if set(s[0]['ls']) != R['ls']:
            fail('another machine sees other entries: %r' % sorted(set(s[0]['ls']) ^ R['ls'])[:6], ['C14', 'C16'])


# ------------------------------------------------------------------------------------------------- parameters
async def params_case(case, d, counts, trace):
    from s3ql import database as D
    from s3ql import CURRENT_FS_REV
    from s3ql.common import thaw_basic_mapping, freeze_basic_mapping, ThawError
    from s3ql.logging import QuietError
    from . import membackend
    import dataclasses
    rng = random.Random(repr(case))
    raw, be = await membackend.make(rng, 1, rng.choice([None, b'x']))

    def num():
        return rng.choice([0, 1, 2, 255, 2 ** 31, 2 ** 40 - 1, rng.randrange(2 ** 40)])

    def mk():
        return D.FsAttributes(data_block_size=num(), metadata_block_size=num(), seq_no=num(), db_size=num(),
                              label=rng.choice(['', 'x', 'ü\n"\'', '<unnamed>']), needs_fsck=rng.random() < .5,
                              is_mounted=rng.random() < .5, inode_gen=num(), last_fsck=rng.choice([0, 1.5, 1e9 + .1]),
                              last_modified=rng.choice([0, 2.25, 1e9 + .7]), db_md5=rng.choice(['', 'ab' * 32]))

    def fail(m):
        raise Fail(['C16'], m)

    def same(a, b):
        return a == b and [type(x) for x in dataclasses.asdict(a).values()] == [type(x) for x in dataclasses.asdict(b).values()]
    counts['params'] = counts.get('params', 0) + 1
    p = mk()
    trace.append(repr(p))
    q = p.copy()
    r = D.FsAttributes.deserialize(p.serialize())
    if not same(r, p) or not same(p, q):
        fail('%r comes back as %r' % (p, r))
    m = rng.choice([0, p.seq_no - 1, p.seq_no, p.seq_no + 1, num()])
    try:
        r = D.FsAttributes.deserialize(p.serialize(), min_seq=m)
        if p.seq_no < m:
            fail('version %d accepted although at least %d is required' % (p.seq_no, m))
        if not same(r, p):
            fail('%r comes back as %r' % (p, r))
    except D.OutdatedData:
        if p.seq_no >= m:
            fail('version %d refused as older than %d' % (p.seq_no, m))
    # incompatible revisions
    f = dataclasses.asdict(p)
    for rev, code in ((CURRENT_FS_REV - rng.randrange(1, 9), 32), (CURRENT_FS_REV + rng.randrange(1, 9), 33)):
        f['revision'] = rev
        buf = freeze_basic_mapping(f)
        for ms in (None, p.seq_no):
            try:
                D.FsAttributes.deserialize(buf, min_seq=ms)
                fail('revision %d accepted' % rev)
            except QuietError as e:
                if e.exitcode != code:
                    fail('revision %d refused with exit code %r' % (rev, e.exitcode))
        try:
            D.FsAttributes.deserialize(buf, min_seq=p.seq_no + 1)
            fail('outdated data accepted')
        except D.OutdatedData:
            pass
    # not parameters at all
    bad = rng.choice([b'', b'\x80\x03}q', b'{', b'[1]', rng.randbytes(20), p.serialize()[:-1]])
    try:
        D.FsAttributes.deserialize(bad)
        fail('%r accepted' % bad)
    except ThawError:
        pass
    except Exception as e:
        fail('%r raises %r' % (bad, e))
    # local file
    cp = d + '/fs'
    if D.read_cached_params(cp) is not None:
        fail('parameters read from nowhere')
    open(cp + '.db', 'wb').close()
    for _ in range(rng.randrange(1, 3)):
        p = mk()
        D.write_params(cp, p)
    if not same(D.read_cached_params(cp), p):
        fail('local file: %r comes back as %r' % (p, D.read_cached_params(cp)))
    for m in (p.seq_no, p.seq_no + 1, max(0, p.seq_no - 1)):
        r = D.read_cached_params(cp, min_seq=m)
        if (r is None) != (p.seq_no < m) or (r is not None and not same(r, p)):
            fail('local file with version %d, at least %d required: %r' % (p.seq_no, m, r))
    # a failed write keeps the old parameters
    new = mk()
    real = os.fsync

    def boom(fd):
        raise OSError(5, 'no')
    os.fsync = boom
    try:
        D.write_params(cp, new)
    except OSError:
        pass
    finally:
        os.fsync = real
    r = D.read_cached_params(cp)
    if r is None or not (same(r, p) or same(r, new)):
        fail('failed write leaves %r' % (r,))
    # storage
    try:
        await D.read_remote_params(be)
        fail('parameters read from empty storage')
    except QuietError as e:
        if e.exitcode != 32:
            fail('missing parameters: exit code %r' % e.exitcode)
    ps = {}
    for _ in range(rng.randrange(1, 4)):
        p = mk()
        if p.seq_no in ps:
            continue
        await D.upload_params(be, p)
        ps[p.seq_no] = p
        last = p
    if not same(await D.read_remote_params(be), last):
        fail('storage: %r comes back as %r' % (last, await D.read_remote_params(be)))
    for s, p in ps.items():
        if s and not same(await D.read_remote_params(be, s), p):
            fail('storage, version %d: %r comes back as %r' % (s, p, await D.read_remote_params(be, s)))
    counts['params.ok'] = counts.get('params.ok', 0) + 1


def run_case(case, prop):
    import pyfuse3, s3ql.mount, s3ql.fsck, s3ql.mkfs       # (before forking)
    logging.disable(logging.CRITICAL)
    counts, trace = {}, []
    d = tempfile.mkdtemp(prefix='mountdrv-')
    try:
        if prop == 'C16' and case[1] % 4:
            trio.run(params_case, case, d, counts, trace)
        else:
            history(case, prop, d, counts, trace)
    except Fail as e:
        return dict(tags=e.tags, msg=e.msg, trace=trace, case=repr(case)), counts, ''
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None, counts, '%r %s' % (case, trace[:4])
