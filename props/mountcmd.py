"""C16: the mount command, the periodic metadata backup and the decisions of the fsck command."""
from __future__ import annotations
import _thread, builtins, contextlib, faulthandler, itertools, os, shutil, signal, sys, textwrap, time
import z3
from pyvc.values import *
from pyvc.core import *
from pyvc.interp import Interp, SIter, BUILTINS
from .files import Path, GhostFS
from .mountparams import mk_params, same_fields, proc, as_bool, exitcode, Back, world, FIELDS
import s3ql.database as D
from s3ql.logging import QuietError


class Stack(Model):
    """contextlib.(Async)ExitStack"""
    def __init__(self, i):
        self._i, self.cbs = i, []

    def m_state(self):
        return {}

    def m_enter(self, i):
        return self

    def enter_async_context(self, cm):
        def run():
            v = self._i.cm_enter(cm, True)
            self.cbs.append(lambda e: self._i.cm_exit(cm, e, True))
            return v
        return SCoro(run, 'enter')

    def enter_context(self, cm):
        v = self._i.cm_enter(cm, False)
        self.cbs.append(lambda e: self._i.cm_exit(cm, e, False))
        return v

    def push_async_callback(self, fn, *a, **k):
        self.cbs.append(lambda e: (self._i.await_(self._i.call(fn, list(a), dict(k))), False)[1])
        return fn

    def callback(self, fn, *a, **k):
        self.cbs.append(lambda e: (self._i.call(fn, list(a), dict(k)), False)[1])
        return fn

    def m_exit(self, i, exc):
        cur = exc
        while self.cbs:
            cb = self.cbs.pop()
            try:
                if cb(cur):
                    cur = None
            except PyRaise as e:
                cur = e.value
        if cur is not None and cur is not exc:
            raise PyRaise(cur)
        return exc is not None and cur is None


class Obj(Model):
    """object with given attributes"""
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def m_state(self):
        return {}

    def m_setattr(self, i, n, v):
        self.__dict__[n] = v


class Ev(Model):
    def __init__(self):
        self.flag = False

    def m_state(self):
        return {}

    def set(self):
        self.flag = True

    def is_set(self):
        return self.flag

    def wait(self):
        return SCoro(lambda: None, 'wait')


def cmd_support(ctx, i, mod, w, be):
    """process environment and command line, irrelevant for the parameters"""
    import trio
    from s3ql import authinfo
    from s3ql.backends.comprenc import AsyncComprencBackend
    none = lambda ii, *a, **k: None
    for f in (faulthandler.enable, faulthandler.register, print):
        i.bi[f] = none
    i.bi[shutil.disk_usage] = lambda ii, *a: (0, 0, ctx.int('free', lo=0))
    i.bi[os.path.abspath] = lambda ii, p: p
    i.bi[_thread.get_ident] = lambda ii: 1
    i.bi[contextlib.AsyncExitStack] = i.bi[contextlib.ExitStack] = lambda ii: Stack(i)
    i.bi[trio.Event] = lambda ii: Ev()
    info = Obj(max_connections=ctx.int('conns', lo=1), max_threads=None, cachedir=Path('cachedir'), compress=Obj())
    mods = {'s3ql.logging', 's3ql.parse_args', 's3ql.common', 's3ql.mount', 's3ql.fsck', 's3ql.backends', mod.__name__}
    cs = dict(setup_logging=lambda it, a, k: None, init_cachedir=lambda it, a, k: w.base,
              pick=lambda it, a, k: a[0] if a[0] is not None else a[1],
              is_mounted=lambda it, a, k: SBool(ctx.bool('mounted here').t), determine_threads=lambda it, a, k: 4,
              open_backend=lambda it, a, k: SCoro(lambda: be, 'open_backend'))
    for n, f in cs.items():
        for m in mods:
            i.contracts['%s.%s' % (m, n)] = f
    i.contracts['s3ql.authinfo.Authinfo.from_file'] = lambda it, a, k: info
    i.contracts['s3ql.authinfo.CompressSpec.parse'] = lambda it, a, k: Obj()
    i.contracts['s3ql.backends.comprenc.AsyncComprencBackend.set_max_threads'] = lambda it, a, k: None


def ok_events(ev, kind):
    return [e for e in ev if e[0] == kind and e[-1] == 0]


def upload_support(ctx, i, mod, w, check, ev):
    def um(it, a, k):
        def run():
            upd = k.get('update_params', a[4] if len(a) > 4 else True)
            check(a, k, upd)
            r = ctx.choose(2, 'upload_metadata')
            if r == 0 and upd is True:
                w.R.f['db_size'], w.R.f['db_md5'] = ctx.int('db_size', lo=0), ctx.val('md5', str)
            ev.append(('upload-metadata', upd, dict(a[2].f), k.get('incremental', a[3] if len(a) > 3 else True), r))
            if r:
                i.raise_(RuntimeError, 'upload_metadata')
        return SCoro(run, 'upload_metadata')

    def eo(it, a, k):
        ev.append(('expire',))
        return SCoro(lambda: None, 'expire_objects')
    for m in ('s3ql.database', mod):
        i.contracts[m + '.upload_metadata'] = um
        i.contracts[m + '.expire_objects'] = eo


def u_mount(ctx, want):
    import s3ql.mount as M, pyfuse3, trio
    import s3ql.fs as F
    from s3ql.block_cache import BlockCache
    from s3ql.inode_cache import InodeCache
    i = Interp(ctx)
    P = proc(ctx, 'mount', want)
    ev = []
    w = world(ctx, i, 's3ql.mount', ev)
    w.pref = 'mount'
    GhostFS(ctx, i, may_fail=False)
    i.bi[os.open] = lambda ii, name, *a, **k: 77      # log file
    be = Back(ctx, i)
    cmd_support(ctx, i, M, w, be)
    R0 = dict(w.R.f)
    db = w.Db('remote', Path('cachepath', '.db'))

    def gm(it, a, k):
        def run():
            ev.append(('get-metadata',))
            if ctx.choose(2, 'get_metadata') == 1:
                i.raise_(QuietError, 'refused')
            return (w.R, db)
        return SCoro(run, 'get_metadata')
    cs = dict(get_metadata=gm, _determine_max_cache_entries=lambda it, a, k: ctx.int('entries', lo=1),
              get_fuse_opts=lambda it, a, k: set(), daemonize=lambda it, a, k: None, setup_exchook=lambda it, a, k: exc_info,
              systemd_notify=lambda it, a, k: None)
    for n, f in cs.items():
        i.contracts['s3ql.mount.' + n] = f
    i.contracts['s3ql.daemonize.daemonize'] = cs['daemonize']
    exc_info = []
    ops = Obj(failsafe=False)

    def started():
        """the file system starts being used: everything must be marked by now"""
        for kind in ('write-local', 'write-remote'):
            ws = ok_events(ev, kind)
            P('marked.' + kind, z3.BoolVal(bool(ws)), 'in use before the parameters say so')
            if ws:
                exp = dict(R0, seq_no=i.mkint(R0['seq_no'].t + 1), is_mounted=True)
                P('marked.value', same_fields(i, ws[-1][2], exp), 'parameters are not: as before, next version, in use')
        for e in ev:
            if e[0] == 'db-execute':
                P('no-change-before', z3.BoolVal(isinstance(e[1], str) and ' '.join(e[1].split()[:2]).upper() in
                                                 ('CREATE INDEX', 'DROP INDEX')), 'database changed before marking')

    class Nursery(Model):
        def m_state(self):
            return {}

        def m_enter(self, ii):
            return self

        def m_exit(self, ii, exc):
            ev.append(('joined',))
            if exc is None and ctx.choose(2, 'task failed') == 1:
                i.raise_(RuntimeError, 'task')
            return False

        def start_soon(self, fn, *a, **k):
            started()
            ev.append(('task', fn))
    i.bi[trio.open_nursery] = lambda ii, *a, **k: Nursery()

    def destroy(what):
        def run():
            ev.append((what,))
            if ctx.choose(2, what) == 1:
                i.raise_(RuntimeError, what)
        return lambda *a, **k: SCoro(run, what)
    bc = Obj(destroy=destroy('cache-destroyed'), fs=None)

    def bcreate(it, a, k):
        P('cache-args', z3.BoolVal(any(x is db for x in a)
                                   and any(isinstance(x, Path) and x.key == ('cachepath', '-cache') for x in a)))
        return SCoro(lambda: bc, 'BlockCache.create')
    i.contracts['s3ql.block_cache.BlockCache.create'] = bcreate
    ops.destroy = destroy('ops-destroyed')

    def mkops(ii, *a, **k):
        P('ops-args', z3.BoolVal(any(x is db for x in a) or k.get('db') is db))
        return ops
    i.bi[F.Operations] = mkops
    i.bi[InodeCache] = lambda ii, *a, **k: Obj()

    def init(ii, *a):
        ev.append(('fuse-init',))
        if ctx.choose(2, 'fuse init') == 1:
            i.raise_(RuntimeError, 'fuse')
    handlers = []

    def main(ii, *a, **k):
        def run():
            started()
            ev.append(('served',))
            # meanwhile backups increase the version, and errors may be found
            f = w.R.f
            f['seq_no'] = ctx.int('seq later', lo=0)
            ctx.assume(f['seq_no'].t >= R0['seq_no'].t + 1)
            f['last_modified'] = SFloat(z3.Real(fresh_name('lm')))
            f['db_size'], f['inode_gen'], f['db_md5'] = ctx.int('db_size', lo=0), ctx.int('inode_gen', lo=0), ctx.val('md5', str)
            ops.failsafe = w.failsafe = ctx.bool('failsafe')
            w.later = dict(f)
            c = ctx.choose(4, 'main')
            if c == 1:
                i.raise_(RuntimeError, 'main')
            if c == 2:
                exc_info.extend([SObj(RuntimeError, {'args': ('other thread',)}), None])
            if c == 3 and handlers:
                sig = [signal.SIGINT, signal.SIGTERM][ctx.choose(2, 'signal')]
                ev.append(('signal', sig))
                i.call(handlers[0], [sig.value, None], {})
        return SCoro(run, 'main')

    def sighandler(ii, n, h):
        if isinstance(h, IFunc):
            handlers.append(h)
    i.bi[signal.signal] = sighandler
    i.bi[signal.Signals] = lambda ii, n: signal.Signals(n)
    i.bi[pyfuse3.init] = init
    i.bi[pyfuse3.main] = main
    i.bi[pyfuse3.close] = lambda ii, *a, **k: ev.append(('fuse-closed',))
    i.bi[pyfuse3.terminate] = lambda ii, *a, **k: None
    i.obj_over[('pyfuse3', 'trio_token')] = Obj()
    upload_support(ctx, i, 's3ql.mount', w, lambda a, k, upd: P('final-upload.args', z3.BoolVal(a[1] is db and a[2] is w.R and upd is True)), ev)
    fg = ctx.choose(2, 'foreground') == 1
    kw = dict(storage_url='local:///x', mountpoint=Path('mnt'), authfile=None, cachedir=None, backend_options=None, compress=None,
              cachesize=[None, ctx.int('cachesize', lo=0)][ctx.choose(2, 'cachesize')], max_cache_entries=None, keep_cache=False,
              allow_other=False, allow_root=False, dirty_block_upload_delay=10, fg=fg, fs_name=None, systemd=False,
              metadata_backup_interval=0, max_connections=None, max_threads=None, nfs=ctx.choose(2, 'nfs') == 1,
              log_target='none' if fg else 'file', debug=False, debug_modules=None, quiet=False)
    try:
        i.await_(i.call(i.ifunc_by_name(M, 'mount'), [], kw))
        kind, r = 'return', None
    except PyRaise as e:
        kind, r = 'raise', e.value
    names = [e[0] for e in ev]
    ctx.shared.reached.add(kind + ('-served' if 'served' in names else ''))
    if 'served' not in names:
        for e in ev:
            if e[0].startswith('write-'):
                P('unserved.marked', as_bool(e[2]['is_mounted']), 'parameters written without having been mounted')
        P('unserved.no-upload', z3.BoolVal('upload-metadata' not in names and 'expire' not in names))
        P('unserved.fails', z3.BoolVal(kind == 'raise'))
        return
    sv = names.index('served')
    P('served-once', z3.BoolVal(names.count('served') == 1 and names.count('fuse-init') == 1 and names.index('fuse-init') < sv))
    for n, e in enumerate(ev):
        if e[0].startswith('write-') and n > sv:
            upl = [m for m, x in enumerate(ev) if x[0] == 'upload-metadata' and x[-1] == 0]
            before = names[:upl[0]] if upl and upl[0] < n else []
            clean = all(x in before for x in ('db-close', 'joined', 'ops-destroyed', 'cache-destroyed'))
            P('unmounted-only-if-uploaded', z3.Or(as_bool(e[2]['is_mounted']), z3.BoolVal(clean)),
              'marked as not in use before everything is uploaded')
            P('damage-recorded', z3.Implies(w.failsafe.t, as_bool(e[2]['needs_fsck'])), 'errors are not recorded')
            P('version-kept', i.as_int(e[2]['seq_no']) == w.later['seq_no'].t)
    lastw = max([n for n, e in enumerate(ev) if e[0] == 'write-remote' and n > sv], default=None)
    P('expire-last', z3.BoolVal('expire' not in names or lastw is not None and names.index('expire') > lastw))
    if kind == 'return':
        for k in ('write-local', 'write-remote'):
            ws = ok_events(ev[sv:], k)
            P('end.' + k, z3.BoolVal(False) if not ws else z3.Not(as_bool(ws[-1][2]['is_mounted'])), 'still marked as in use')
            if ws:
                P('end.damage', as_bool(ws[-1][2]['needs_fsck']) == z3.Or(w.failsafe.t, as_bool(R0['needs_fsck'])))
                P('end.same', same_fields(i, ws[-1][2], w.R))


class Wait(Model):
    """event of the backup task; while waiting, the task may be told to stop"""
    def __init__(self, stop):
        self._stop = stop

    def m_state(self):
        return {}

    def wait(self):
        return SCoro(self._stop, 'wait')

    def set(self):
        pass


class Cancel(Model):
    def m_state(self):
        return {}

    def m_enter(self, ii):
        return self

    def m_exit(self, ii, exc):
        return False


def u_backup(ctx, want):
    """MetadataUploadTask.run: one round from an arbitrary state (then it is told to stop)"""
    import s3ql.mount as M, trio
    i = Interp(ctx)
    i.auto_invariants = False
    P = proc(ctx, 'backup', want)
    ev = []
    w = world(ctx, i, 's3ql.mount', ev)
    w.pref = 'backup'
    be = Back(ctx, i)
    inh = [0]

    class Inh(Cancel):
        def m_enter(self, ii):
            inh[0] += 1

        def m_exit(self, ii, exc):
            inh[0] -= 1
            return False

    class Db(Model):
        def m_state(self):
            return {}

        def sync_checkpoint(self):
            P('checkpoint', z3.BoolVal(inh[0] == 0), 'checkpoint while writes are inhibited')

        def checkpoint(self):
            return SCoro(self.sync_checkpoint, 'checkpoint')

        def inhibit_writes(self):
            return Inh()
    db = Db()

    def check(a, k, upd):
        P('args', z3.BoolVal(a[1] is db and a[2] is w.R and isinstance(upd, bool)))
        P('snapshot', z3.BoolVal(upd is False or inh[0] == 1), 'size and checksum of a changing database are recorded')
        P('upload-version', i.as_int(w.R.f['seq_no']) == R0['seq_no'].t, 'blocks are uploaded under another version')
    upload_support(ctx, i, 's3ql.mount', w, check, ev)
    rounds, task = [0], []

    def stop():
        rounds[0] += 1
        if rounds[0] > 1 or ctx.choose(2, 'stopped') == 1:
            task[0].f['quit'] = True
    i.bi[trio.Event] = lambda ii: Wait(stop)
    i.bi[trio.move_on_after] = lambda ii, *a, **k: Cancel()
    w.R.f['is_mounted'] = True
    R0 = dict(w.R.f)
    t = SObj(M.MetadataUploadTask, dict(backend=be, db=db, event=Wait(stop), quit=False, params=w.R, cachepath=w.base, fs=None,
                                        metadata_backup_interval=[None, 3600][ctx.choose(2, 'interval')]))
    task.append(t)
    m = i.find_method(M.MetadataUploadTask, 'run')
    try:
        i.await_(i.call(Bound(m, t), [], {}))
        kind = 'return'
    except PyRaise as e:
        kind = 'raise'
    names = [e[0] for e in ev]
    ctx.shared.reached.add(kind if kind == 'raise' else 'idle' if not ev else 'backup')
    ups = [n for n, e in enumerate(ev) if e[0] == 'upload-metadata' and e[1] is True and e[-1] == 0]
    for n, e in enumerate(ev):
        if e[0].startswith('write-'):
            P('in-use', as_bool(e[2]['is_mounted']), 'backup marks the file system as not in use')
            P('after-upload', z3.BoolVal(bool(ups) and ups[0] < n), 'parameters written before the metadata')
            s = i.as_int(e[2]['seq_no'])
            P('versions', z3.Or(s == R0['seq_no'].t, s == R0['seq_no'].t + 1))
            P('damage-kept', as_bool(e[2]['needs_fsck']) == as_bool(R0['needs_fsck']))
            P('snapshot-params', same_fields(i, {k: e[2][k] for k in ('db_size', 'db_md5')},
                                             {k: w.R.f[k] for k in ('db_size', 'db_md5')}, ['db_size', 'db_md5']))
        if e[0] == 'expire':
            P('expire-after', z3.BoolVal(len(ok_events(ev[:n], 'write-remote')) >= 2))
    if kind == 'return' and ev:
        for k in ('write-local', 'write-remote'):
            ws = [e[2] for e in ok_events(ev, k)]
            P('recorded.' + k, z3.Or([z3.BoolVal(False)] + [i.as_int(f['seq_no']) == R0['seq_no'].t for f in ws]), 'backup has no parameters')
            P('next.' + k, i.as_int(ws[-1]['seq_no']) == R0['seq_no'].t + 1 if ws else z3.BoolVal(False),
              'later changes belong to the version of the backup')
        P('one-snapshot', z3.BoolVal(len(ups) == 1))


class Stdin(Model):
    def __init__(self, ctx):
        self.ctx, self.answer = ctx, None

    def m_state(self):
        return {}

    def readline(self):
        self.answer = self.ctx.choose(2, 'answer') == 0
        return 'continue, I know what I am doing\n' if self.answer else 'no\n'


def u_fsck(ctx, want):
    """the fsck command: which metadata is checked, and what is recorded when"""
    import s3ql.fsck as M
    i = Interp(ctx)
    i.auto_invariants = False
    P = proc(ctx, 'fsck', want)
    ev = []
    w = world(ctx, i, 's3ql.fsck', ev)
    w.pref = 'fsck'
    fs = GhostFS(ctx, i, may_fail=False)
    cachedir = ('cachepath', '-cache')
    had = None                                  # old cache: none, empty, with files

    def listdir(ii, p):
        if not (isinstance(p, Path) and p.key == cachedir):
            raise Unsupported('other directory')
        nonlocal had
        if had is None:
            had = ctx.choose(3, 'old cache')
        if had == 0:
            i.raise_(FileNotFoundError, 2, 'none')
        return [] if had == 1 else ['inode-7-3']
    i.bi[os.listdir] = listdir

    class Count(Model):
        def m_state(self):
            return {}

        def m_iter(self, ii):
            return SIter(ctx.int('infinite', lo=0).t, lambda k: ii.mkint(k.t))
    i.bi[itertools.count] = lambda ii: Count()
    be = Back(ctx, i)
    cmd_support(ctx, i, M, w, be)
    R0, L0 = dict(w.R.f), dict(w.L.f)

    class Fsck(Model):
        def __init__(self, a):
            self.a = a
            self.found_errors, self.uncorrectable_errors = ctx.bool('found'), ctx.bool('uncorrectable')
            # an error that cannot be corrected is an error
            ctx.assume(z3.Implies(self.uncorrectable_errors.t, self.found_errors.t))

        def m_state(self):
            return {}

        def check(self, *a, **k):
            def run():
                ev.append(('check', a, dict(self.a[2].f)))
                if ctx.choose(2, 'check') == 1:
                    i.raise_(RuntimeError, 'check')
            return SCoro(run, 'check')
    fk = []

    def mk(ii, *a, **k):
        if k:
            raise Unsupported('keywords')
        fk.append(Fsck(a))
        return fk[-1]
    i.bi[M.Fsck] = mk

    def vm(it, a, k):
        def run():
            ev.append(('verify', k))
            if ctx.choose(2, 'verify') == 1:
                i.raise_(RuntimeError, 'verify')
        return SCoro(run, 'verify')
    i.contracts['s3ql.fsck.verify_metadata_snapshots'] = vm
    stdin = Stdin(ctx)
    i.obj_over[('sys', 'stdin')] = stdin
    exits = []

    def sysexit(ii, code=0):
        exits.append(code)
        i.raise_(SystemExit, code)
    i.bi[sys.exit] = sysexit
    upload_support(ctx, i, 's3ql.fsck', w, lambda a, k, upd: P('upload.args', z3.BoolVal(upd is True)), ev)
    force, fremote, fast, batch, keep = (ctx.bool(n) for n in ('force', 'force-remote', 'fast', 'batch', 'keep'))
    kw = dict(storage_url='local:///x', authfile=None, cachedir=None, backend_options=None, keep_cache=keep, batch=batch, force=force,
              force_remote=fremote, fast=fast, max_connections=None, max_threads=None, log_target='none', debug=False,
              debug_modules=None, quiet=False, stack=Stack(i))
    try:
        i.await_(i.call(i.ifunc_by_name(M, 'fsck'), [], kw))
        kind, r = 'return', None
    except PyRaise as e:
        kind, r = 'raise', e.value
    names = [e[0] for e in ev]
    if w.use_local is None:
        P('early', z3.BoolVal(not any(n.startswith('write') or n in ('download', 'check', 'upload-metadata') for n in names)))
        return
    loc = w.use_local
    p0 = L0 if loc else R0
    seq0 = p0['seq_no'].t
    newer = z3.And(z3.BoolVal(loc), L0['seq_no'].t > R0['seq_no'].t)
    # what is known to be damaged, not properly unmounted, or behind
    dirty = z3.Or(as_bool(p0['needs_fsck']), as_bool(p0['is_mounted']), newer)
    elsewhere = z3.And(z3.BoolVal(not loc), as_bool(R0['is_mounted']))
    touched = [n for n in names if n.startswith('write-') or n in ('download', 'check', 'upload-metadata', 'expire')] or \
        [x for x in fs.log if x[0] in ('rename', 'rmtree', 'unlink')]
    agreed = z3.Or(fremote.t, z3.And(z3.Not(batch.t), z3.BoolVal(stdin.answer is True)))
    if touched:
        P('in-use-elsewhere', z3.Or(z3.Not(elsewhere), agreed), 'goes on although the file system is in use elsewhere')
    if issubclass(r.cls, QuietError) if kind == 'raise' else False:
        c = exitcode(r)
        if c in (41, 42):
            ctx.shared.reached.add('refused')
            P('refused.only-if', z3.And(elsewhere, z3.Not(agreed)))
            P('refused.untouched', z3.BoolVal(not touched))
    if kind == 'return':
        ctx.shared.reached.add('clean')
        P('clean.really', z3.Not(dirty), 'considers a damaged, unfinished or outdated file system clean')
        P('clean.not-forced', z3.Not(force.t))
        P('clean.untouched', z3.BoolVal(not touched))
        return
    dl = [e for e in ev if e[0] == 'download']
    op = [e for e in ev if e[0] == 'db-open']
    if loc:
        P('local.no-download', z3.BoolVal(not dl), 'local metadata that is more recent gets overwritten')
    else:
        P('remote.no-local', z3.BoolVal(not op), 'outdated local metadata is used')
    for e in dl:
        P('download.args', z3.BoolVal(e[1] == ('cachepath', '.db') and e[2] is w.R))
        P('download.failsafe', as_bool(e[3]) == as_bool(R0['is_mounted']), 'checksum not verified, or verified although it cannot match')
    for e in op:
        P('local.path', z3.BoolVal(e[1] == ('cachepath', '.db') and e[2] is not None))
    removed = ('rmtree', cachedir) in fs.log
    P('cache.kept', z3.BoolVal(not removed or not loc), 'local changes are thrown away')
    P('cache.dirty-kept', z3.Or(z3.BoolVal(not removed), z3.Not(dirty)), 'unsaved changes are thrown away')
    for x in fs.log:
        if x[0] == 'rename':
            P('cache.backup', z3.BoolVal(x[1] == cachedir and not loc))
    for n, e in enumerate(ev):
        if e[0] == 'check':
            P('check.started', z3.And([same_fields(i, f, dict(p0, seq_no=i.mkint(seq0 + 1), is_mounted=True, needs_fsck=f['needs_fsck']))
                                       for kd in ('write-local', 'write-remote') for f in [(ok_events(ev[:n], kd) or [[0, 0, {}]])[-1][2]]]),
              'changes begin before the new version is recorded')
            P('check.params', z3.And(i.as_int(e[2]['seq_no']) == seq0 + 1, as_bool(e[2]['is_mounted'])))
            P('check.old-cache', z3.BoolVal(loc or had in (0, 1) or removed or any(x[0] == 'rename' for x in fs.log)),
              'cached blocks of older metadata are used')
            cc = e[1][0] if e[1] else None
            mnt = as_bool(p0['is_mounted'])
            P('check.cache', z3.And(z3.Implies(z3.And(z3.BoolVal(loc), mnt), z3.If(keep.t, z3.BoolVal(cc == 'keep'), z3.BoolVal(cc is True))),
                                    z3.Implies(z3.Not(z3.And(z3.BoolVal(loc), mnt)), z3.BoolVal(cc is False))),
              'unsaved blocks ignored, or outdated ones used')
            P('check.verified', z3.Or(fast.t, z3.BoolVal('verify' in names[:n])))
        if e[0].startswith('write-'):
            P('version', i.as_int(e[2]['seq_no']) == seq0 + 1)
            upl = [x for x in ev[:n] if x[0] == 'upload-metadata' and x[-1] == 0]
            P('clean-only-if', z3.Or(as_bool(e[2]['is_mounted']), z3.BoolVal(bool(upl) and 'check' in names[:n])),
              'marked as not in use before the checked metadata is uploaded')
            if upl:
                P('clean-not-uncorrectable', z3.Not(fk[0].uncorrectable_errors.t), 'marked clean with errors left')
        if e[0] == 'upload-metadata':
            P('upload.closed', z3.BoolVal('db-close' in names[:n] and 'check' in names[:n]))
            P('upload.version', i.as_int(e[2]['seq_no']) == seq0 + 1)
            P('upload.full', z3.Implies(z3.Or(dirty, fk[0].found_errors.t), z3.Not(as_bool(e[3]))),
              'only blocks known to have changed are uploaded although others may differ')
    if 'expire' in names:
        n = names.index('expire')
        for kd in ('write-local', 'write-remote'):
            ws = ok_events(ev[:n], kd)
            P('expire-last.' + kd, z3.BoolVal(len(ws) >= 2))
    if exits:
        ctx.shared.reached.add('exit')
        P('exit.code', z3.If(fk[0].found_errors.t, z3.BoolVal(exits[0] == 128), z3.BoolVal(exits[0] == 0)))
        for kd in ('write-local', 'write-remote'):
            ws = ok_events(ev, kd)
            P('exit.' + kd, z3.And(z3.Not(as_bool(ws[-1][2]['is_mounted'])), z3.Not(as_bool(ws[-1][2]['needs_fsck']))) if ws
              else z3.BoolVal(False), 'not marked as clean')
    elif kind == 'raise':
        ctx.shared.reached.add('raise')


UNITS = [('mount.mount', u_mount, ['raise', 'return-served', 'raise-served']),
         ('mount.backup', u_backup, ['raise', 'idle', 'backup']),
         ('fsck.command', u_fsck, ['exit', 'raise', 'clean', 'refused'])]
