"""C16: file system parameters (s3ql.database) and the decisions of mount.s3ql and fsck.s3ql based on them, for every combination of
local and remote parameters."""
from __future__ import annotations
import _thread, builtins, contextlib, copy, dataclasses, faulthandler, itertools, os, shutil, signal, sys, textwrap, time
import z3
from pyvc.values import *
from pyvc.core import *
from pyvc.interp import Interp, SIter, BUILTINS
from .files import Path, GhostFS
import s3ql.database as D
import s3ql.common as C
from s3ql import CURRENT_FS_REV
from s3ql.logging import QuietError
from s3ql.backends.common import NoSuchObject

FIELDS = list(D.FsAttributes.__dataclass_fields__)
NUM = ('data_block_size', 'metadata_block_size', 'seq_no', 'db_size', 'inode_gen')


def mk_params(ctx, name, **over):
    f = {}
    for k in FIELDS:
        if k in NUM:
            f[k] = ctx.int(name + '.' + k, lo=0)
        elif k in ('needs_fsck', 'is_mounted'):
            f[k] = ctx.bool(name + '.' + k)
        elif k in ('last_fsck', 'last_modified'):
            f[k] = SFloat(z3.Real(fresh_name(name + '.' + k)))
        elif k == 'revision':
            f[k] = CURRENT_FS_REV
        else:
            f[k] = ctx.val(name + '.' + k, str)
    f.update(over)
    return SObj(D.FsAttributes, f)


def same_fields(i, a, b, fields=FIELDS):
    """the two parameter objects (or field dictionaries) agree"""
    fa, fb = (x.f if isinstance(x, SObj) else x for x in (a, b))
    if set(fa) != set(fb):
        return z3.BoolVal(False)
    r = i.and_([i.eq(fa[k], fb[k]) for k in fields])
    return r.t if isinstance(r, SBool) else z3.BoolVal(bool(r))


def proc(ctx, pref, want):
    return lambda n, g, info=None: ctx.prove('C16.%s.%s' % (pref, n), g, info=info)


def as_bool(v):
    return v.t if isinstance(v, SBool) else z3.BoolVal(bool(v))


def exitcode(e):
    c = e.f.get('exitcode')
    return c


class Frozen(Model):
    """serialized parameters"""
    m_type = bytes

    def __init__(self, fields):
        self.fields = dict(fields)

    def m_state(self):
        return {}


# ------------------------------------------------------------------------------------------------- FsAttributes
def u_serialize(ctx, want):
    i = Interp(ctx)
    P = proc(ctx, 'params', want)
    p = mk_params(ctx, 'p', revision=ctx.int('revision', lo=0))
    before = dict(p.f)
    frozen = []

    def freeze(it, a, k):
        frozen.append(a[0])
        return Frozen(a[0])
    for m in ('s3ql.database', 's3ql.common'):
        i.contracts[m + '.freeze_basic_mapping'] = freeze
    i.bi[dataclasses.asdict] = lambda ii, o: dict(o.f)
    kind, r = i.run_function(i.find_method(D.FsAttributes, 'serialize'), [p], {})
    ctx.shared.reached.add(kind)
    P('serialize.all', z3.BoolVal(kind == 'return' and isinstance(r, Frozen)) if not (kind == 'return' and isinstance(r, Frozen))
      else same_fields(i, r.fields, before), 'a field is lost or changed')
    P('serialize.pure', same_fields(i, p, before))


def u_deserialize(ctx, want):
    i = Interp(ctx)
    P = proc(ctx, 'params', want)
    q = mk_params(ctx, 'q', revision=ctx.int('revision', lo=0))
    bad = ctx.choose(2, 'thaw ok') == 1
    given = ctx.choose(3, 'min_seq') if True else 0
    buf = ctx.val('buf')

    def thaw(it, a, k):
        P('deserialize.input', z3.BoolVal(a[0] is buf))
        if bad:
            i.raise_(C.ThawError, 'malformed')
        return dict(q.f)
    for m in ('s3ql.database', 's3ql.common'):
        i.contracts[m + '.thaw_basic_mapping'] = thaw
    ms = ctx.int('min_seq', lo=0)
    fn = i.find_method(D.FsAttributes, 'deserialize')
    if isinstance(fn, staticmethod):
        fn = fn.__func__
    args, kw = [buf], {}
    if given == 1:
        kw = {'min_seq': ms}
    elif given == 2:
        args.append(None)
    kind, r = i.run_function(fn, args, kw)
    s, rev = q.f['seq_no'].t, q.f['revision'].t
    old = s < ms.t if given == 1 else z3.BoolVal(False)
    ctx.shared.reached.add(kind)
    if kind == 'return':
        P('deserialize.malformed', z3.BoolVal(not bad), 'malformed data is accepted')
        P('deserialize.version', z3.Not(old), 'older version accepted')
        P('deserialize.revision', rev == CURRENT_FS_REV, 'incompatible revision accepted')
        P('deserialize.all', same_fields(i, r, q) if isinstance(r, SObj) and r.cls is D.FsAttributes else z3.BoolVal(False),
          'a field is lost or changed')
        return
    if issubclass(r.cls, C.ThawError):
        P('deserialize.thaw-error', z3.BoolVal(bad))
    elif issubclass(r.cls, D.OutdatedData):
        P('deserialize.outdated-error', old, 'sufficiently recent version refused')
    elif issubclass(r.cls, QuietError):
        c = exitcode(r)
        P('deserialize.revision-error', z3.And(z3.Not(old), z3.Or(z3.And(z3.BoolVal(c == 32), rev < CURRENT_FS_REV),
                                                                z3.And(z3.BoolVal(c == 33), rev > CURRENT_FS_REV))),
          'exit code %r' % (c,))
    else:
        P('deserialize.error-kind', z3.BoolVal(False), r.cls.__name__)


# ------------------------------------------------------------------------------------------------- reading and writing
def u_write_params(ctx, want):
    i = Interp(ctx)
    P = proc(ctx, 'write', want)
    fs = GhostFS(ctx, i)
    p = mk_params(ctx, 'p')
    base = Path('cachepath')
    dst = Path('cachepath', '.params')
    data = []

    def ser(it, a, k):
        data.append(Frozen(a[0].f))
        return data[-1]
    i.contracts['s3ql.database.FsAttributes.serialize'] = ser
    old = fs.get(dst)
    done = []

    def ren(a, b):
        if b.key != dst.key:
            return
        f = fs.get(a)
        ok = f.content is not None and len(f.content) == 1 and isinstance(f.content[0], Frozen)
        P('complete', same_fields(i, f.content[0].fields, p) if ok else z3.BoolVal(False), 'incomplete or other data takes effect')
        P('durable-first', z3.BoolVal(bool(f.flushed and f.synced)), 'takes effect before it is on disk')
        done.append(1)
    fs.on_rename = ren
    kind, r = i.run_function(i.ifunc_by_name(D, 'write_params'), [base, p], {})
    ctx.shared.reached.add(kind)
    P('never-in-place', z3.BoolVal(not any(x[0] in ('open', 'unlink', 'rmtree') and x[1] == dst.key
                                           and (x[0] != 'open' or x[2] != 'rb') for x in fs.log)), 'old parameters are overwritten in place')
    P('at-most-once', z3.BoolVal(len(done) <= 1))
    if kind == 'raise':
        P('failure-keeps', z3.BoolVal(bool(done) or fs.get(dst) is old), 'failed write loses the old parameters')
        return
    P('done', z3.BoolVal(len(done) == 1), 'nothing written')
    ri = max((n for n, x in enumerate(fs.log) if x[0] == 'rename'), default=None)
    P('rename-durable', z3.BoolVal(ri is not None and any(x == ('fsync', Path('dir of cachepath').key) for x in fs.log[ri:])),
      'directory not synchronized after the rename')
    P('no-leak', z3.BoolVal(not fs.fds and all(f.closed for f in fs.open_fhs)), 'file left open')


def u_read_cached(ctx, want):
    i = Interp(ctx)
    P = proc(ctx, 'read-cached', want)
    fs = GhostFS(ctx, i, may_fail=False)
    base = Path('cachepath')
    ex = fs.get(Path('cachepath', '.params')).exists
    ctx.assume(z3.Implies(ex, fs.get(Path('cachepath', '.db')).exists))
    p = mk_params(ctx, 'p')
    given = ctx.choose(2, 'min_seq given') == 1
    ms = ctx.int('min_seq', lo=0)
    calls = []
    how = ctx.choose(3, 'deserialize')

    def des(it, a, k):
        m = a[1] if len(a) > 1 else k.get('min_seq')
        P('min-seq', z3.BoolVal((m is ms) if given else (m is None)), 'required version not passed on')
        P('right-data', z3.BoolVal(fs.files[('cachepath', '.params')].content is not None
                                   and a[0] is fs.files[('cachepath', '.params')].content[0]))
        calls.append(1)
        if how == 1:
            i.raise_(D.OutdatedData)
        if how == 2:
            i.raise_(QuietError, 'revision', exitcode=32) if False else i.raise_(QuietError, 'revision')
        return p
    i.contracts['s3ql.database.FsAttributes.deserialize'] = des
    kind, r = i.run_function(i.ifunc_by_name(D, 'read_cached_params'), [base], {'min_seq': ms} if given else {})
    ctx.shared.reached.add(kind)
    if kind == 'raise':
        P('refusal-kept', z3.BoolVal(how == 2 and bool(calls)), 'unexpected %s' % r.cls.__name__)
    elif r is None:
        P('none-only-if', z3.Or(z3.Not(ex), z3.BoolVal(how == 1 and bool(calls))), 'existing parameters ignored')
    else:
        P('value', z3.And(ex, z3.BoolVal(r is p and how == 0)), 'other parameters')


class Back(Model):
    """storage backend: store and fetch by key"""
    def __init__(self, ctx, i, objs=None):
        self.ctx, self._i, self.objs, self.stored, self.events = ctx, i, objs or {}, [], []

    def m_state(self):
        return {}

    def store(self, key, val, metadata=None):
        def run():
            if self.ctx.choose(2, 'store ok') == 1:
                self._i.raise_(RuntimeError, 'store')
            self.stored.append((key, val))
        return SCoro(run, 'store')

    def fetch(self, key):
        def run():
            return (self.objs['get'](key), None)
        return SCoro(run, 'fetch')

    def m_enter(self, i):
        return self

    def m_exit(self, i, exc):
        return False

    def close(self):
        return SCoro(lambda: self.events.append(('backend-closed',)), 'close')


def is_key(i, key, seq):
    """condition: key names the parameters of version seq"""
    return i.as_v(key) == i.as_v(i.fmt('s3ql_params_%010x', (i.mkint(seq),)))


def u_upload_params(ctx, want):
    i = Interp(ctx)
    P = proc(ctx, 'upload', want)
    p = mk_params(ctx, 'p')
    i.contracts['s3ql.database.FsAttributes.serialize'] = lambda it, a, k: Frozen(a[0].f)
    be = Back(ctx, i)
    try:
        i.await_(i.call(i.ifunc_by_name(D, 'upload_params'), [be, p], {}))
        kind = 'return'
    except PyRaise:
        kind = 'raise'
    ctx.shared.reached.add(kind)
    for key, val in be.stored:
        P('value', same_fields(i, val.fields, p) if isinstance(val, Frozen) else z3.BoolVal(False), 'other parameters stored')
        if key != 's3ql_params' if isinstance(key, str) else True:
            P('key', is_key(i, key, p.f['seq_no'].t) if not isinstance(key, str) else z3.BoolVal(False), 'other object')
    if kind == 'return':
        cur = [k for k, v in be.stored if isinstance(k, str) and k == 's3ql_params']
        ver = [k for k, v in be.stored if not isinstance(k, str)]
        P('both', z3.BoolVal(len(cur) >= 1 and len(ver) >= 1), 'current or versioned parameters not stored')


def u_read_remote(ctx, want):
    i = Interp(ctx)
    P = proc(ctx, 'read-remote', want)
    p = mk_params(ctx, 'p')
    mode = ctx.choose(2, 'version given')
    seq = ctx.int('seq', lo=1)
    buf = ctx.val('buf')
    asked = []
    missing = ctx.choose(2, 'exists') == 1

    def get(key):
        asked.append(key)
        if missing:
            i.raise_(NoSuchObject, key)
        return buf
    i.contracts['s3ql.database.FsAttributes.deserialize'] = lambda it, a, k: (
        P('data', z3.BoolVal(a[0] is buf)), P('no-min', z3.BoolVal(len(a) == 1 and not k)), p)[2]
    be = Back(ctx, i, {'get': get})
    try:
        r = i.await_(i.call(i.ifunc_by_name(D, 'read_remote_params'), [be] + ([seq] if mode else []), {}))
        kind = 'return'
    except PyRaise as e:
        kind, r = 'raise', e.value
    ctx.shared.reached.add(kind)
    for k in asked:
        P('key', is_key(i, k, seq.t) if mode and not isinstance(k, str) else z3.BoolVal(not mode and k == 's3ql_params'), 'other object')
    P('asked', z3.BoolVal(len(asked) >= 1))
    if kind == 'return':
        P('value', z3.BoolVal(r is p and not missing))
        if mode:
            P('version', p.f['seq_no'].t == seq.t, 'parameters of another version')
    elif missing and not mode:
        P('missing', z3.BoolVal(issubclass(r.cls, QuietError) and exitcode(r) == 32))
    elif not missing:
        P('error', z3.And(z3.BoolVal(bool(mode)), p.f['seq_no'].t != seq.t), r.cls.__name__)


# ------------------------------------------------------------------------------------------------- mount: the decision
def world(ctx, i, mod, events):
    """contracts of the functions that read and write parameters, as seen by a command; `mod` is the module of the command"""
    w = type('W', (), {})()
    w.R = mk_params(ctx, 'R')
    w.have_local = ctx.choose(2, 'local copy') == 1
    w.L = mk_params(ctx, 'L')
    w.base = Path('cachepath')
    w.r0 = {k: v for k, v in w.R.f.items()}
    w.l0 = {k: v for k, v in w.L.f.items()}
    w.min_ok = w.L.f['seq_no'].t >= w.R.f['seq_no'].t      # contract of read_cached_params with min_seq=R.seq_no
    w.use_local = None
    w.remote_read = 0

    def rr(it, a, k):
        def run():
            if len(a) > 1 or k:
                raise Unsupported('other version')
            events.append(('read-remote',))
            w.remote_read += 1
            r = ctx.choose(2, 'remote readable')
            if r == 1:
                i.raise_(QuietError, 'unreadable')
            return w.R
        return SCoro(run, 'read_remote_params')

    def rc(it, a, k):
        m = a[1] if len(a) > 1 else k.get('min_seq')
        ctx.prove('C16.%s.local.path' % w.pref, z3.BoolVal(isinstance(a[0], Path) and a[0].key == w.base.key))
        ctx.prove('C16.%s.local.min-version' % w.pref,
                  z3.BoolVal(False) if m is None else i.as_int(m) >= w.r0['seq_no'].t, info='older local parameters are accepted')
        if m is not None:
            ctx.prove('C16.%s.local.min-version-exact' % w.pref, i.as_int(m) == w.r0['seq_no'].t, info='local parameters refused')
        if not w.have_local or not ctx.branch(w.min_ok, 'local recent'):
            w.use_local = False
            return None
        w.use_local = True
        return w.L

    class Db(Model):
        def __init__(self, src, path=None):
            self.src, self.path, self.file = src, path, path

        def m_state(self):
            return {}

        def execute(self, *a):
            events.append(('db-execute', a[0] if a else None))
            return 0

        def close(self):
            events.append(('db-close',))

        def get_list(self, *a):
            events.append(('db-query',))
            return ctx.choose_list() if False else [('ok',)]
    w.Db = Db

    def conn(ii, path, bs=None, **k):
        bs = k.get('blocksize', bs)
        events.append(('db-open', path.key if isinstance(path, Path) else path, bs))
        return Db('local', path)

    def dl(it, a, k):
        def run():
            events.append(('download', a[1].key if isinstance(a[1], Path) else a[1], a[2], k.get('failsafe', a[3] if len(a) > 3 else False)))
            if ctx.choose(2, 'download ok') == 1:
                events.append(('download-failed',))
                i.raise_(RuntimeError, 'download')
            return Db('remote', a[1])
        return SCoro(run, 'download_metadata')

    def snap(p):
        return dict(p.f) if isinstance(p, SObj) else {}

    def wp(it, a, k):
        r = ctx.choose(3, 'write_params')       # written / failed before / failed after taking effect
        events.append(('write-local', a[0].key if isinstance(a[0], Path) else a[0], snap(a[1]), r))
        if r:
            i.raise_(OSError, 5, 'write')

    def up(it, a, k):
        def run():
            r = ctx.choose(2, 'upload_params')
            events.append(('write-remote', a[0], snap(a[1]), r))
            if r:
                i.raise_(RuntimeError, 'upload')
        return SCoro(run, 'upload_params')
    cs = dict(read_remote_params=rr, read_cached_params=rc, download_metadata=dl, write_params=wp, upload_params=up)
    for n, f in cs.items():
        for m in ('s3ql.database', mod):
            i.contracts['%s.%s' % (m, n)] = f
    i.bi[D.Connection] = conn
    w.now = SFloat(z3.Real(fresh_name('now')))
    w.clock = []

    def tm(ii):
        t = SFloat(z3.Real(fresh_name('now')))
        ctx.assume(t.t >= (w.clock[-1].t if w.clock else 0))
        w.clock.append(t)
        return t
    i.bi[time.time] = tm
    i.floats_as_reals = True
    return w


def u_get_metadata(ctx, want):
    import s3ql.mount as M
    i = Interp(ctx)
    P = proc(ctx, 'mount', want)
    ev = []
    w = world(ctx, i, 's3ql.mount', ev)
    w.pref = 'mount'
    fs = GhostFS(ctx, i, may_fail=False)
    cache = fs.get(Path('cachepath', '-cache'))
    had = cache.exists
    be = Back(ctx, i)
    try:
        r = i.await_(i.call(i.ifunc_by_name(M, 'get_metadata'), [be, w.base], {}))
        kind = 'return'
    except PyRaise as e:
        kind, r = 'raise', e.value
    R, L = w.r0, w.l0
    P('parameters-unchanged', z3.And(same_fields(i, w.R, R), same_fields(i, w.L, L)))
    P('nothing-written', z3.BoolVal(not any(e[0].startswith('write') for e in ev)))
    dls = [e for e in ev if e[0] == 'download']
    dropped = ('rmtree', ('cachepath', '-cache')) in fs.log
    P('cache-kept', z3.BoolVal(not dropped or (bool(dls) and ('download-failed',) not in ev)),
      'cached blocks dropped although the local database stays in use')
    for x in fs.log:
        if x[0] in ('unlink', 'rmtree', 'rename') or x[0] == 'open' and x[2] != 'rb':
            P('frame', z3.BoolVal(x == ('rmtree', ('cachepath', '-cache'))), 'touches %r' % (x,))
    recent = z3.BoolVal(w.have_local and w.use_local is True)
    newer = z3.And(recent, L['seq_no'].t > R['seq_no'].t)
    if kind == 'return':
        ctx.shared.reached.add('local' if w.use_local else 'remote')
        p, db = r if isinstance(r, tuple) and len(r) == 2 else (None, None)
        P('not-mounted', z3.Not(R['is_mounted'].t), 'mounts a file system that is in use')
        P('not-damaged', z3.Not(R['needs_fsck'].t), 'mounts a damaged file system')
        P('not-newer-local', z3.Not(newer), 'mounts outdated remote metadata')
        P('params', same_fields(i, p, R) if isinstance(p, SObj) else z3.BoolVal(False), 'other parameters')
        ok = isinstance(db, w.Db)
        P('db', z3.BoolVal(ok))
        if ok:
            opened = [e for e in ev if e[0] == 'db-open']
            if db.src == 'local':
                P('local-only-if-same', same_fields(i, L, R) if w.use_local else z3.BoolVal(False),
                  'local database is used although it is not the one of the remote parameters')
                P('local-path', z3.BoolVal(len(opened) == 1 and opened[0][1] == ('cachepath', '.db')))
                P('local-tracked', i.as_int(opened[0][2]) == R['metadata_block_size'].t if len(opened) == 1 and opened[0][2] is not None
                  else z3.BoolVal(False), 'changes of the database are not tracked')
                P('no-download', z3.BoolVal(not dls))
            else:
                P('download', z3.BoolVal(len(dls) == 1 and dls[0][1] == ('cachepath', '.db') and dls[0][2] is w.R
                                         and dls[0][3] is False), '%r' % (dls,))
                P('download-only-if', z3.BoolVal(not w.use_local), 'local database overwritten')
                P('stale-cache-dropped', z3.Implies(had, z3.BoolVal(dropped)), 'cached blocks of older metadata are kept')
        return
    c = exitcode(r)
    if w.remote_read == 0 or ('read-remote',) in ev and w.use_local is None:
        return
    if ('download-failed',) in ev:
        ctx.shared.reached.add('download fails')
        return
    P('refusal-before-download', z3.BoolVal(not dls), 'local database overwritten although mounting is refused')
    if issubclass(r.cls, QuietError) and c == 31:
        ctx.shared.reached.add('31')
        P('refusal.31', z3.And(R['is_mounted'].t, z3.Not(newer)))
    elif issubclass(r.cls, QuietError) and c == 30:
        ctx.shared.reached.add('30')
        P('refusal.30', z3.Or(newer, z3.And(R['needs_fsck'].t, z3.Not(R['is_mounted'].t))))
    else:
        ctx.shared.reached.add('differs')
        P('refusal.other', z3.And(recent, z3.Not(newer), z3.Not(same_fields(i, L, R))), r.cls.__name__)


UNITS = [('params.serialize', u_serialize, ['return']),
         ('params.deserialize', u_deserialize, ['return', 'raise']),
         ('params.write', u_write_params, ['return', 'raise']),
         ('params.read_cached', u_read_cached, ['return', 'raise']),
         ('params.upload', u_upload_params, ['return', 'raise']),
         ('params.read_remote', u_read_remote, ['return', 'raise']),
         ('mount.get_metadata', u_get_metadata, ['local', 'remote', '30', '31'])]
