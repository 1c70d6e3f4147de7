"""C14, C15: listing, downloading and uploading metadata blocks (s3ql.database), for every set of stored objects and
every database.  As in props.metadata, one arbitrary block object (b0, s0) is tracked through every collection."""
from __future__ import annotations
import builtins, collections, itertools, random, re
import z3
from pyvc.values import *
from pyvc.core import *
from pyvc.interp import Interp, SIter, BUILTINS, SRange
from .files import Path
from .metadata import T, Blocks, Cands, Store, simp, I, B, BIG
import s3ql.database as D
import s3ql.common as C

FIELDS = ('blockno', 'offset', 'length', 'seq_no')


def coro(r, name='contract'):
    return SCoro(lambda: r, name)


# ------------------------------------------------------------------------------------------------- listing the store
class Hex(Model):
    """digits of a number"""
    m_type = str

    def __init__(self, t):
        self._term = t

    def m_state(self):
        return {}


class Listed(Model):
    """name of the k-th listed object"""
    m_type = str

    def __init__(self, lst, k):
        self._l, self._k = lst, k

    def m_state(self):
        return {}

    def m_getattr(self, i, n):
        if n in ('startswith', 'endswith'):
            return lambda *a: SBool(i.ctx.bool(n).t)
        return NotImplemented


class Hit(Model):
    m_type = re.Match

    def __init__(self, groups):
        self._g = groups

    def m_state(self):
        return {}

    def group(self, *a):
        if not a or a[0] == 0:
            raise Unsupported('whole match')
        r = tuple(Hex(self._g[x - 1]) for x in a)
        return r[0] if len(r) == 1 else r

    def groups(self):
        return tuple(Hex(x) for x in self._g)

    def m_getitem(self, i, k):
        return self.group(k)


def learn_pattern(pat, how, fmt, ncomp):
    """Which component of a canonical name each group of the real pattern yields (bounded: sampled names)."""
    pat = re.compile(pat)
    rng = random.Random(1)
    cands = [set(range(ncomp)) for _ in range(pat.groups)]
    samples = [tuple(rng.choice([0, 1, 9, 10, 255, 4096, rng.randrange(2 ** 20), rng.randrange(2 ** 40)]) for _ in range(ncomp))
               for _ in range(300)]
    for s in samples:
        m = getattr(pat, how)(fmt % s)
        if m is None:
            raise Unsupported('pattern does not match %s' % (fmt % s))
        for g in range(pat.groups):
            try:
                v = int(m.group(g + 1), 16)
            except (TypeError, ValueError):
                v = None
            cands[g] = {c for c in cands[g] if s[c] == v}
    for bad in ('s3ql_metadata_bak_1', 's3ql_metadata', 's3ql_metadata_00', 's3ql_params', 's3ql_params_', 's3ql_data_12',
                's3ql_params_xyz', 's3ql_metadata_g_h'):
        if getattr(pat, how)(bad):
            raise Unsupported('pattern matches %s' % bad)
    return [next(iter(c)) if c else None for c in cands]


class Pattern(Model):
    m_type = re.Pattern

    def __init__(self, pat, spec):
        self._pat, self._spec = pat, spec

    def m_state(self):
        return {}

    def apply(self, how, name):
        if not isinstance(name, Listed):
            raise Unsupported('pattern applied to something else')
        fmt, n = self._spec
        idx = learn_pattern(self._pat, how, fmt, n)
        if not name._l.ctx.branch(name._l.canonical(name._k), 'canonical'):
            return None
        comps = name._l.comps(name._k)
        return Hit([comps[c] if c is not None else name._l.ctx.int('digits', lo=0).t for c in idx])

    def match(self, name):
        return self.apply('match', name)

    def fullmatch(self, name):
        return self.apply('fullmatch', name)

    def search(self, name):
        return self.apply('search', name)


class Listing(Model):
    """what backend.list() yields: n names, in any order, each once"""
    def __init__(self, ctx, n, canonical, comps, facts):
        self.ctx, self._n, self.canonical, self.comps, self._facts = ctx, n, canonical, comps, facts

    def m_state(self):
        return {}

    def m_iter(self, i):
        def elem(k):
            self._facts(k.t)
            return Listed(self, k.t)
        it = SIter(self._n, elem)
        it.kind = 'listing'
        return it


def re_support(i, spec, globs=()):
    """calls of the re module on listed names"""
    for how in ('match', 'fullmatch', 'search'):
        i.bi[getattr(re, how)] = lambda ii, p, s, *a, how=how: Pattern(p, spec).apply(how, s)
    for nm in globs:
        i.obj_over[('s3ql.database', nm)] = Pattern(getattr(D, nm), spec)

    def int_(ii, x=0, base=None):
        if isinstance(x, Hex):
            if base != 16:
                raise Unsupported('base')
            return ii.mkint(x._term)
        return BUILTINS[int](ii, x) if base is None else BUILTINS[int](ii, x, base)
    i.bi[int] = int_


class Index(Model):
    """block -> list of versions, seen through (b0, s0)"""
    m_type = dict

    def __init__(self, w):
        self._w = w
        self.key, self.cnt, self.sorted = z3.BoolVal(False), z3.IntVal(0), z3.BoolVal(True)

    def m_state(self):
        return {'key': SBool(self.key), 'cnt': SInt(self.cnt), 'sorted': SBool(self.sorted)}

    def m_havoc(self, i, k):
        setattr(self, k, i.ctx.int('cnt').t if k == 'cnt' else i.ctx.bool(k).t)

    def touch(self, b):
        hit = b == self._w.b0
        self.sorted = simp(z3.If(z3.And(hit, z3.Not(self.key)), z3.BoolVal(True), self.sorted))
        self.key = simp(z3.Or(self.key, hit))

    def m_getitem(self, i, b):
        self.touch(i.as_int(b))
        return IndexList(self, i.as_int(b))

    def m_getattr(self, i, n):
        if n == 'setdefault':
            return lambda b, d: self.m_getitem(i, b)
        return NotImplemented

    def m_contains(self, i, b):
        r = i.ctx.bool('indexed').t
        i.ctx.assume(z3.Implies(i.as_int(b) == self._w.b0, r == self.key))
        return SBool(r)

    def view(self, what):
        return IndexView(self, what)

    def values(self):
        return self.view('values')

    def items(self):
        return self.view('items')

    def keys(self):
        return self.view('keys')

    def m_iter(self, i):
        return self.view('keys').m_iter(i)


class IndexView(Model):
    def __init__(self, ix, what):
        self._ix, self._what = ix, what

    def m_state(self):
        return {}

    def m_iter(self, i):
        ix, ctx = self._ix, i.ctx
        n, pos, f = ctx.int('nkeys', lo=0).t, ctx.int('keypos').t, ctx.func('key', I, I)
        had = ix.key
        ctx.assume(z3.Implies(had, z3.And(pos >= 0, pos < n, f(pos) == ix._w.b0)))

        def elem(k):
            ctx.assume((f(k.t) == ix._w.b0) == z3.And(had, k.t == pos))
            b = i.mkint(f(k.t))
            lst = IndexList(ix, f(k.t))
            return {'values': lst, 'items': (b, lst), 'keys': b}[self._what]
        it = SIter(n, elem)
        it.kind, it.pos = 'index', pos
        return it


class IndexList(Model):
    m_type = list

    def __init__(self, ix, b):
        self._ix, self._b = ix, b

    def m_state(self):
        return {}

    def append(self, v):
        ix = self._ix
        w = ix._w
        s = w.i.as_int(v)
        hit = self._b == w.b0
        ix.cnt = simp(ix.cnt + z3.If(z3.And(hit, s == w.s0), 1, 0))
        # a list of one element is sorted; the check needs no more than that sort() comes last
        ix.sorted = simp(z3.And(ix.sorted, z3.Not(hit)))

    def sort(self, **kw):
        if kw:
            raise Unsupported('sort key')
        self._ix.sorted = simp(z3.Or(self._ix.sorted, self._b == self._ix._w.b0))


def u_get_block_objects(ctx, want):
    i = Interp(ctx)
    i.auto_invariants = False
    t = T(ctx, i)
    P = lambda n, g, info=None: [ctx.prove(p + '.' + n, g, info=info) for p in ('C14', 'C15')]
    n = ctx.int('nlisted', lo=0).t
    can = ctx.func('canonical', I, B)
    bl, sq = ctx.func('blk', I, I), ctx.func('seq', I, I)
    hb, hs = ctx.bool('haveb').t, ctx.bool('haves').t
    bpos, spos = ctx.int('bpos').t, ctx.int('spos').t
    ctx.assume(z3.Implies(hb, z3.And(bpos >= 0, bpos < n, can(bpos), bl(bpos) == t.b0)))
    ctx.assume(z3.Implies(hs, z3.And(hb, spos >= bpos, spos < n, can(spos), bl(spos) == t.b0, sq(spos) == t.s0)))

    def facts(k):
        ctx.assume(z3.And(bl(k) >= 0, sq(k) >= 0))
        # bpos: first object of the block;  spos: the object (each is listed once)
        ctx.assume(z3.Implies(z3.And(can(k), bl(k) == t.b0), z3.And(hb, k >= bpos)))
        ctx.assume(z3.Implies(can(k), z3.And(bl(k) == t.b0, sq(k) == t.s0) == z3.And(hs, k == spos)))
    re_support(i, (D.METADATA_OBJ_NAME, 2), ['METADATA_OBJ_RE'])

    class Backend(Model):
        def m_state(self):
            return {}

        def list(self, prefix=''):
            if not isinstance(prefix, str):
                raise Unsupported('prefix')
            P('list-prefix', z3.BoolVal('s3ql_metadata_'.startswith(prefix)), 'lists only %r' % prefix)
            return Listing(ctx, n, lambda k: can(k), lambda k: [bl(k), sq(k)], facts)
    ix = []

    def dd(ii, *a):
        if ix:
            raise Unsupported('second dictionary')
        ix.append(Index(t))
        return ix[0]
    i.bi[collections.defaultdict] = dd

    def hints(ii, fr, pre):
        it = ii.cur_iter
        d = ix[0]
        k = lambda e: e.m('$k')
        if getattr(it, 'kind', None) == 'listing':
            return [('key', lambda e: d.key == z3.And(hb, bpos < k(e))),
                    ('cnt', lambda e: d.cnt == z3.If(z3.And(hs, spos < k(e)), 1, 0))]
        if getattr(it, 'kind', None) == 'index':
            key, cnt = d.key, d.cnt
            return [('sorted', lambda e: z3.Implies(z3.And(d.key, it.pos < k(e)), d.sorted)),
                    ('key', lambda e: d.key == key), ('cnt', lambda e: d.cnt == cnt)]
        return []
    i.loop_hints['get_block_objects'] = hints
    r = i.await_(i.call(i.ifunc_by_name(D, 'get_block_objects'), [Backend()], {}))
    ctx.shared.reached.add('return')
    if not isinstance(r, Index):
        raise Unsupported('result is %s' % type(r).__name__)
    P('listing.blocks', r.key == hb, 'a block is missing or invented')
    P('listing.versions', r.cnt == z3.If(hs, 1, 0), 'a version of a block is missing, repeated or invented')
    P('listing.sorted', z3.Implies(r.key, r.sorted), 'versions of a block are not sorted')


class NumList(Model):
    """list of versions: how often it has the tracked one"""
    m_type = list

    def __init__(self, t):
        self._t = t
        self.cnt = z3.IntVal(0)

    def m_state(self):
        return {'cnt': SInt(self.cnt)}

    def m_havoc(self, i, k):
        self.cnt = i.ctx.int('cnt').t

    def append(self, v):
        s = self._t.i.as_int(v)
        if s is None:
            raise Unsupported('not a number')
        self.cnt = simp(self.cnt + z3.If(s == self._t.q0, 1, 0))

    def sort(self):
        pass


def u_get_available_seq_nos(ctx, want):
    i = Interp(ctx)
    i.auto_invariants = False
    t = T(ctx, i)
    P = lambda n, g, info=None: ctx.prove('C15.' + n, g, info=info)
    n = ctx.int('nlisted', lo=0).t
    can, sq = ctx.func('canonical', I, B), ctx.func('seq', I, I)
    hq, qpos = ctx.bool('haveq').t, ctx.int('qpos').t
    ctx.assume(z3.Implies(hq, z3.And(qpos >= 0, qpos < n, can(qpos), sq(qpos) == t.q0)))

    def facts(k):
        ctx.assume(sq(k) >= 0)
        ctx.assume(z3.Implies(can(k), (sq(k) == t.q0) == z3.And(hq, k == qpos)))
    re_support(i, ('s3ql_params_%010x', 1))

    class Backend(Model):
        def m_state(self):
            return {}

        def list(self, prefix=''):
            if not isinstance(prefix, str):
                raise Unsupported('prefix')
            P('list-prefix', z3.BoolVal('s3ql_params_'.startswith(prefix)), 'lists only %r' % prefix)
            return Listing(ctx, n, lambda k: can(k), lambda k: [sq(k)], facts)
    lists = {}

    def lm(path, lst):
        if path not in lists:
            nl = lists[path] = NumList(t)
            for x in lst:
                nl.append(x)
        return lists[path]
    i.list_model = lm
    i.loop_hints['get_available_seq_nos'] = lambda ii, fr, pre: [
        ('cnt%s' % nm, lambda e, l=l: l.cnt == z3.If(z3.And(hq, qpos < e.m('$k')), 1, 0))
        for nm, l in fr.locals.items() if isinstance(l, NumList)]
    r = i.await_(i.call(i.ifunc_by_name(D, 'get_available_seq_nos'), [Backend()], {}))
    ctx.shared.reached.add('return')
    if isinstance(r, list):
        x = NumList(t)
        for v in r:
            x.append(v)
        r = x
    if not isinstance(r, NumList):
        raise Unsupported('result is %s' % type(r).__name__)
    P('versions.all', r.cnt == z3.If(hq, 1, 0), 'a version is missing, repeated or invented')


# ------------------------------------------------------------------------------------------------- jobs
class Jobs(Model):
    """list of jobs: how many there are for block b0, and the fields of the last of those"""
    m_type = list

    def __init__(self, t, init=()):
        self._t = t
        self.cnt, self.n = z3.IntVal(0), z3.IntVal(0)
        self.fl = {f: z3.IntVal(-1) for f in ('offset', 'length', 'seq_no')}
        for x in init:
            self.append(x)

    def m_state(self):
        d = {'cnt': SInt(self.cnt), 'n': SInt(self.n)}
        for f in ('offset', 'length', 'seq_no'):
            d[f] = SInt(self.fl[f])
        return d

    def m_havoc(self, i, k):
        if k in ('cnt', 'n'):
            setattr(self, k, i.ctx.int(k, lo=0).t)
        else:
            self.fl[k] = i.ctx.int('job_' + k).t

    def append(self, x):
        i = self._t.i
        if not isinstance(x, SObj):
            raise Unsupported('job is %s' % type(x).__name__)
        hit = i.as_int(x.f['blockno']) == self._t.b0
        self.cnt = simp(self.cnt + z3.If(hit, 1, 0))
        self.n = simp(self.n + 1)
        for f in ('offset', 'length', 'seq_no'):
            if f in x.f:
                self.fl[f] = simp(z3.If(hit, i.as_int(x.f[f]), self.fl[f]))

    def m_len(self):
        return SInt(self.n)


def jobs_setup(ctx, i, t, qual, extra):
    lists = {}

    def lm(path, lst):
        if path not in lists:
            lists[path] = Jobs(t, lst)
        return lists[path]
    i.list_model = lm
    i.loop_hints[qual] = lambda ii, fr, pre: extra(ii, fr, [l for l in fr.locals.values() if isinstance(l, Jobs)])


def file_open(ctx, i, log):
    class Fh(Model):
        def __init__(self, name, mode):
            self.name, self.mode, self.pos = name, mode, SInt(z3.IntVal(0))

        def m_state(self):
            return {'pos': self.pos}

        def m_havoc(self, ii, k):
            self.pos = ctx.int('pos', lo=0)

        def seek(self, off, whence=0):
            if whence != 0:
                raise Unsupported('seek')
            self.pos = off if not isinstance(off, int) else SInt(z3.IntVal(off))
            return self.pos

        def tell(self):
            return self.pos

        def truncate(self, size=None):
            log.append(('truncate', i.as_int(size if size is not None else self.pos)))
            return size

        def flush(self):
            pass

        def close(self):
            log.append(('close',))

        def m_enter(self, ii):
            return self

        def m_exit(self, ii, exc):
            log.append(('close',))
            return False

    def op(ii, name, mode='r', buffering=-1, **kw):
        log.append(('open', name, mode))
        return Fh(name, mode)
    i.bi[builtins.open] = op
    return Fh


def dl_obj(ctx, i, failsafe=None):
    params = SObj(D.FsAttributes, {f: None for f in D.FsAttributes.__dataclass_fields__})
    size, bs, v = ctx.int('db_size', lo=0), ctx.int('blocksize', lo=1), ctx.int('version', lo=0)
    params.f.update(db_size=size, metadata_block_size=bs, seq_no=v, db_md5=ctx.val('recorded'))

    class Backend(Model):
        max_connections = ctx.int('max_connections', lo=1)
        max_threads = ctx.int('max_threads', lo=1)

        def m_state(self):
            return {}
    be = Backend()
    o = SObj(D.DownloadMetadata, dict(backend=be, db_file=Path('db'), params=params,
                                      failsafe=failsafe if failsafe is not None else ctx.bool('failsafe'), total=0,
                                      counter=itertools.count(1)))
    return o, params, be, size.t, bs.t, v.t


def leftovers(ctx, i, db_file, log):
    """files of an earlier session next to the database: which of them exist"""
    import os
    left = {'-wal': ctx.bool('wal exists').t, '-shm': ctx.bool('shm exists').t}

    def which(path):
        if isinstance(path, Path) and path.base == db_file.base and path.suffix in left:
            return path.suffix
        raise Unsupported('other path %r' % path)

    def unlink(ii, path, *a, **k):
        s = which(path)
        if not ctx.branch(left[s], s + ' exists'):
            i.raise_(FileNotFoundError, 2, 'no such file')
        if ctx.choose(2, 'unlink ok') == 1:
            i.raise_(PermissionError, 13, 'not allowed')
        left[s] = z3.BoolVal(False)
    for f in (os.unlink, os.remove):
        i.bi[f] = unlink
    for f in (os.path.exists, os.path.isfile, os.path.lexists):
        i.bi[f] = lambda ii, path: SBool(left[which(path)])
    return left


def u_dl_produce(ctx, want):
    i = Interp(ctx)
    i.auto_invariants = False
    w = Store(ctx, i)
    t = w.t
    P = lambda n, g, info=None: ctx.prove('C14.' + n, g, info=info)
    o, params, be, size, bs, v = dl_obj(ctx, i)
    fs = o.f['failsafe'].t
    log = []
    file_open(ctx, i, log)
    left = leftovers(ctx, i, o.f['db_file'], log)
    i.contracts['s3ql.database.get_block_objects'] = lambda it, a, k: (log.append(('list',)), coro(Blocks(w)))[1]
    i.contracts['s3ql.database.first_le_than'] = w.flt
    oldest = ctx.func('oldest', I, I)

    def mn(ii, *a, **k):
        if len(a) == 1 and isinstance(a[0], Cands) and not k:
            return ii.mkint(oldest(a[0]._b))
        return BUILTINS[min](ii, *a, **k)
    i.bi[min] = mn
    off0 = t.b0 * bs
    newest, found = w.newest(t.b0, v), w.found(t.b0, v)
    # no overflow of the block index: product of non-negative numbers
    ctx.assume(off0 >= 0)
    taken = z3.And(w.haveb, z3.Or(fs, off0 < size))

    def extra(ii, fr, jobs):
        k = lambda e: e.m('$k')
        past = lambda e: w.bpos < k(e)
        out = []
        for j in jobs:
            out += [('cnt', lambda e, j=j: j.cnt == z3.If(z3.And(taken, past(e)), 1, 0)),
                    ('off', lambda e, j=j: z3.Implies(z3.And(taken, past(e)), j.fl['offset'] == off0)),
                    ('seq', lambda e, j=j: z3.Implies(z3.And(taken, past(e), found), j.fl['seq_no'] == newest)),
                    ('old', lambda e, j=j: z3.Implies(z3.And(taken, past(e), z3.Not(found)),
                                                      z3.And(fs, j.fl['seq_no'] == oldest(t.b0))))]
        return out
    jobs_setup(ctx, i, t, 'DownloadMetadata.produce', extra)
    m = i.find_method(D.DownloadMetadata, 'produce')
    try:
        r = i.await_(i.call(Bound(m, o), [], {}))
        kind = 'return'
    except PyRaise as e:
        kind = 'raise'
        exc = e.value
    ctx.shared.reached.add(kind)
    opens = [x for x in log if x[0] == 'open']
    if kind == 'raise' and issubclass(exc.cls, PermissionError):
        P('download.unlink-failed', z3.BoolVal(not opens), 'carries on with an old log')
        return
    P('download.file-created', z3.BoolVal(len(opens) == 1 and opens[0][1] is o.f['db_file'] and opens[0][2] == 'w+b'
                                          and log.index(opens[0]) == 0), 'the file does not start out empty')
    # otherwise SQLite replays the log of another session into the downloaded file
    P('download.no-old-log', z3.BoolVal(bool(log) and log[0] == ('open',) + log[0][1:] and log[0][2:] == ('w+b',)
                                        and ctx.holds(z3.Not(left['-wal']))), 'an old write-ahead log survives')
    if kind == 'raise':
        # only if there is a block within the size that has no acceptable version (the block of the current iteration)
        P('download.error-kind', z3.And(z3.BoolVal(issubclass(exc.cls, RuntimeError)), z3.Not(fs)))
        return
    if isinstance(r, list):
        r = Jobs(t, r)
    P('download.wanted', r.cnt == z3.If(taken, 1, 0), 'block not downloaded, downloaded twice, or beyond the end')
    P('download.offset', z3.Implies(taken, r.fl['offset'] == off0), 'block put at a wrong position')
    P('download.version', z3.Implies(z3.And(taken, found), r.fl['seq_no'] == newest),
      'not the newest version of the block that is not newer')
    P('download.incomplete', z3.Implies(z3.And(taken, z3.Not(found)), fs), 'a block without acceptable version is accepted')
    P('download.total', i.as_int(o.f['total']) == w.nblocks)


class JobStream(Model):
    """jobs received by one worker"""
    def __init__(self, ctx, i, cls, fields):
        self.ctx, self._i, self._cls = ctx, i, cls
        self._f = {f: ctx.func('job_' + f, I, I) for f in fields}
        self._n = ctx.int('njobs', lo=0).t

    def m_state(self):
        return {}

    def m_iter(self, i):
        def elem(k):
            fl = {f: i.mkint(g(k.t)) for f, g in self._f.items()}
            self.ctx.assume(z3.And([g(k.t) >= 0 for g in self._f.values()]))
            return SObj(self._cls, fl)
        it = SIter(self._n, elem)
        it.kind = 'jobs'
        return it


class Transfers(Model):
    """calls of the storage backend: number, number of those for the tracked job, and whether all were right"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.total, self.good = z3.IntVal(0), z3.BoolVal(True)
        self.hits = z3.IntVal(0)
        self.hit = lambda i, b, s, pos, ln: z3.BoolVal(False)

    max_connections = 4
    max_threads = 4

    def m_state(self):
        return {'total': SInt(self.total), 'hits': SInt(self.hits)}

    def m_havoc(self, i, k):
        setattr(self, k, self.ctx.int(k, lo=0).t)


def u_consume(ctx, want, up):
    from .metadata import decode
    i = Interp(ctx)
    i.auto_invariants = False
    P = lambda n, g, info=None: ctx.prove('C14.%s.%s' % ('upload' if up else 'download', n), g, info=info)
    log = []
    Fh = file_open(ctx, i, log)
    tr = Transfers(ctx)
    cls = D._BlockUpload if up else D._BlockJob
    js = JobStream(ctx, i, cls, ('blockno', 'offset', 'length') if up else ('blockno', 'seq_no', 'offset'))
    f = js._f
    j0 = ctx.int('j0').t
    ctx.assume(z3.And(j0 >= 0, j0 < js._n))
    ver = ctx.int('version', lo=0)
    dbfile = ctx.val('file')
    params = SObj(D.FsAttributes, {x: None for x in D.FsAttributes.__dataclass_fields__})
    params.f.update(seq_no=ver, metadata_block_size=ctx.int('blocksize', lo=1))
    b0, o0 = f['blockno'](j0), f['offset'](j0)
    s0 = ver.t if up else f['seq_no'](j0)
    # which call is the one of job j0: the k-th call must be the k-th job
    cur = {}

    def call(name, fh, ln):
        d = decode(i.as_v(name))
        if d is None or d[0] != 'B':
            raise Unsupported('object name')
        if not isinstance(fh, Fh):
            raise Unsupported('file')
        k = tr.total
        P('right-file', z3.BoolVal(fh.name is dbfile and any(c in fh.mode for c in ('r+b' if not up else 'rb',))),
          'other file or mode')
        P('right-object', z3.And(d[1][0] == f['blockno'](k), d[1][1] == (ver.t if up else f['seq_no'](k))), 'other object')
        P('right-place', i.as_int(fh.pos) == f['offset'](k), 'other position')
        if up:
            P('right-length', z3.BoolVal(False) if ln is None else i.as_int(ln) == f['length'](k), 'other length')
        tr.total = simp(k + 1)
        tr.hits = simp(tr.hits + z3.If(k == j0, 1, 0))

    def readinto_fh(key, fh, off=0, update=None, size_hint=None, **kw):
        def run():
            call(key, fh, None)
            fh.pos = ctx.int('after', lo=0)
            if ctx.choose(2, 'ok') == 1:
                i.raise_(RuntimeError, 'transfer failed')
        return SCoro(run, 'readinto_fh')

    def write_fh(key, fh, metadata=None, len_=None, **kw):
        def run():
            call(key, fh, len_)
            fh.pos = ctx.int('after', lo=0)
            if ctx.choose(2, 'ok') == 1:
                i.raise_(RuntimeError, 'transfer failed')
            return ctx.int('stored', lo=0)
        return SCoro(run, 'write_fh')
    if up:
        tr.write_fh = write_fh
    else:
        tr.readinto_fh = readinto_fh
    ctx.roots['be'] = tr
    cnt = ctx.int('done', lo=1)
    i.bi[next] = lambda ii, x, *a: ctx.int('done', lo=1) if isinstance(x, Cnt) else BUILTINS[next](ii, x, *a)

    class Cnt(Model):
        def m_state(self):
            return {}
    fl = dict(backend=tr, params=params, total=ctx.int('total', lo=1), counter=Cnt())
    if up:
        class Db(Model):
            file = dbfile
            blocksize = params.f['metadata_block_size']

            def m_state(self):
                return {}
        fl.update(db=Db(), incremental=ctx.bool('inc'), update_params=ctx.bool('up'), db_size=ctx.int('db_size', lo=0))
        o = SObj(D.UploadMetadata, fl)
    else:
        fl.update(db_file=dbfile, failsafe=ctx.bool('failsafe'))
        o = SObj(D.DownloadMetadata, fl)
    q = ('UploadMetadata' if up else 'DownloadMetadata') + '.consume'
    i.loop_hints[q] = lambda ii, fr, pre: [
        ('total', lambda e: tr.total == e.m('$k')),
        ('hits', lambda e: tr.hits == z3.If(j0 < e.m('$k'), 1, 0))]
    m = i.find_method(o.cls, 'consume')
    try:
        i.await_(i.call(Bound(m, o), [js], {}))
        kind = 'return'
    except PyRaise as e:
        kind = 'raise'
    ctx.shared.reached.add(kind)
    if kind == 'return':
        P('every-job', z3.And(tr.hits == 1, tr.total == js._n), 'a job is left out or repeated')


def u_dl_finalize(ctx, want):
    i = Interp(ctx)
    P = lambda n, g, info=None: ctx.prove('C14.download.' + n, g, info=info)
    o, params, be, size, bs, v = dl_obj(ctx, i)
    log = []
    Fh = file_open(ctx, i, log)
    digest = ctx.val('digest')

    def sha(it, a, k):
        log.append(('digest', a[0]))

        class H(Model):
            def m_state(self):
                return {}

            def hexdigest(self):
                return digest
        return H()
    i.contracts['s3ql.common.sha256_fh'] = sha
    i.contracts['s3ql.database.sha256_fh'] = sha
    m = i.find_method(D.DownloadMetadata, 'finalize')
    kind, r = i.run_function(m, [o], {})
    ctx.shared.reached.add(kind)
    fs = o.f['failsafe'].t
    tr = [n for n, x in enumerate(log) if x[0] == 'truncate']
    dg = [n for n, x in enumerate(log) if x[0] == 'digest']
    op = [n for n, x in enumerate(log) if x[0] == 'open']
    same = i.as_v(digest) == i.as_v(params.f['db_md5'])
    if kind == 'raise':
        P('error-kind', z3.BoolVal(issubclass(r.cls, D.DatabaseChecksumError)), r.cls.__name__)
        P('error-only-if-bad', z3.And(z3.Not(fs), z3.Not(same)))
        return
    P('checksum', z3.Implies(z3.Not(fs), z3.And(z3.BoolVal(len(dg) == 1), same)), 'wrong checksum accepted')
    ok = len(tr) == 1 and len(dg) == 1 and tr[0] < dg[0] and len(op) == 1 and log[op[0]][1] is o.f['db_file'] \
        and '+' in log[op[0]][2] and 'w' not in log[op[0]][2]
    P('truncated', z3.Or(fs, z3.And(z3.BoolVal(ok), log[tr[0]][1] == size) if ok else z3.BoolVal(False)),
      'recorded size is not restored before the check')
    P('failsafe-untouched', z3.Implies(fs, z3.BoolVal(not tr)))


# ------------------------------------------------------------------------------------------------- upload
class BlockNos(Model):
    """list of block numbers: how often it has b0"""
    m_type = list

    def __init__(self, t, init=()):
        self._t = t
        self.cnt, self.n = z3.IntVal(0), z3.IntVal(0)
        for x in init:
            self.append(x)

    def m_state(self):
        return {'cnt': SInt(self.cnt), 'n': SInt(self.n)}

    def m_havoc(self, i, k):
        setattr(self, k, i.ctx.int(k, lo=0).t)

    def append(self, v):
        b = self._t.i.as_int(v)
        self.cnt, self.n = simp(self.cnt + z3.If(b == self._t.b0, 1, 0)), simp(self.n + 1)

    def m_len(self):
        return SInt(self.n)

    def m_iter(self, i):
        ctx, t = i.ctx, self._t
        f, pos = ctx.func('no', I, I), ctx.int('nopos').t
        cnt, n = self.cnt, self.n
        ctx.assume(z3.Implies(cnt >= 1, z3.And(pos >= 0, pos < n, f(pos) == t.b0)))

        def elem(k):
            ctx.assume(f(k.t) >= 0)
            ctx.assume(z3.Implies(cnt == 0, f(k.t) != t.b0))
            ctx.assume(z3.Implies(cnt == 1, (f(k.t) == t.b0) == (k.t == pos)))
            return i.mkint(f(k.t))
        it = SIter(n, elem)
        it.kind, it.pos = 'blocknos', pos
        return it


def up_obj(ctx, i, t):
    size, bs = ctx.int('db_size', lo=0, hi=BIG), ctx.int('blocksize', lo=1)
    params = SObj(D.FsAttributes, {x: None for x in D.FsAttributes.__dataclass_fields__})
    params.f.update(seq_no=ctx.int('version', lo=0), metadata_block_size=bs, db_size=ctx.int('old_size', lo=0),
                    db_md5=ctx.val('old_digest'))
    dirty0 = ctx.bool('dirty').t
    log = []

    class Tracker(Model):
        """WriteTracker (C13): hands out each modified block once, KeyError when there is none"""
        def __init__(self):
            self.dirty, self.left = dirty0, ctx.int('ndirty', lo=0).t
            ctx.assume(z3.Implies(dirty0, self.left >= 1))

        def m_state(self):
            return {'dirty': SBool(self.dirty), 'left': SInt(self.left)}

        def m_havoc(self, ii, k):
            setattr(self, k, ctx.bool(k).t if k == 'dirty' else ctx.int(k, lo=0).t)

        def get_block(self):
            if not ctx.branch(self.left > 0, 'any'):
                ctx.assume(z3.Not(self.dirty))
                i.raise_(KeyError)
            b = ctx.int('blk', lo=0)
            ctx.assume(z3.Implies(b.t == t.b0, self.dirty))
            ctx.assume(z3.Implies(z3.And(self.left == 1, self.dirty), b.t == t.b0))
            self.dirty, self.left = simp(z3.And(self.dirty, b.t != t.b0)), simp(self.left - 1)
            return b

        def get_count(self):
            return SInt(self.left)

        def clear(self):
            self.dirty, self.left = z3.BoolVal(False), z3.IntVal(0)

    class Db(Model):
        blocksize = bs
        file = ctx.val('file')
        dirty_blocks = Tracker()

        def m_state(self):
            return {}

        def get_size(self):
            return size
    db = Db()
    ctx.roots['tracker'] = db.dirty_blocks
    o = SObj(D.UploadMetadata, dict(backend=Transfers(ctx), db=db, params=params, incremental=ctx.bool('incremental'),
                                    update_params=ctx.bool('update_params'), total=0, db_size=0, counter=itertools.count(1)))

    def lst(ii, x=()):
        if isinstance(x, SRange):
            lo, hi = ii.as_int(x._lo), ii.as_int(x._hi)
            if x._step != 1:
                raise Unsupported('range step')
            r = BlockNos(t)
            r.n = simp(z3.If(hi > lo, hi - lo, 0))
            r.cnt = simp(z3.If(z3.And(t.b0 >= lo, t.b0 < hi), 1, 0))
            return r
        return BUILTINS[list](ii, x)
    i.bi[list] = lst
    return o, db, params, size.t, bs.t, dirty0, log


def u_snapshot(ctx, want):
    i = Interp(ctx)
    i.auto_invariants = False
    t = T(ctx, i)
    P = lambda n, g, info=None: ctx.prove('C14.upload.' + n, g, info=info)
    o, db, params, size, bs, dirty0, log = up_obj(ctx, i, t)
    inc = o.f['incremental'].t
    lists = {}

    def lm(path, l):
        if path not in lists:
            lists[path] = BlockNos(t, l)
        return lists[path]
    i.list_model = lm
    tk = db.dirty_blocks

    def hints(ii, fr, pre):
        return [('all', lambda e, l=l: l.cnt + z3.If(tk.dirty, 1, 0) == z3.If(dirty0, 1, 0))
                for l in fr.locals.values() if isinstance(l, BlockNos)] + \
               [('left', lambda e: z3.Implies(tk.dirty, tk.left >= 1)), ('drained', lambda e: z3.Not(tk.dirty))]
    i.loop_hints['UploadMetadata.snapshot_blocks'] = hints
    m = i.find_method(D.UploadMetadata, 'snapshot_blocks')
    kind, r = i.run_function(m, [o], {})
    ctx.shared.reached.add(kind)
    P('no-error', z3.BoolVal(kind == 'return'), str(r))
    if kind != 'return':
        return
    if isinstance(r, list):
        r = BlockNos(t, r)
    if not isinstance(r, BlockNos):
        raise Unsupported('result')
    full = t.b0 * bs < size
    P('modified', z3.Implies(inc, r.cnt == z3.If(dirty0, 1, 0)), 'modified blocks are left out or repeated')
    P('every-block', z3.Implies(z3.Not(inc), r.cnt == z3.If(full, 1, 0)), 'a full upload leaves out or repeats a block')
    P('tracker-kept', z3.Implies(z3.Not(inc), tk.dirty == dirty0))
    P('size', i.as_int(o.f['db_size']) == size, 'size is not recorded')
    P('count', i.as_int(o.f['total']) == r.n)


def u_up_produce(ctx, want):
    i = Interp(ctx)
    i.auto_invariants = False
    t = T(ctx, i)
    P = lambda n, g, info=None: ctx.prove('C14.upload.' + n, g, info=info)
    o, db, params, size, bs, dirty0, log = up_obj(ctx, i, t)
    bl = BlockNos(t)
    listed = ctx.bool('listed').t
    bl.cnt, bl.n = z3.If(listed, 1, 0), ctx.int('nblocks', lo=0).t
    ctx.assume(z3.Implies(listed, bl.n >= 1))

    def snap(it, a, k):
        o.f['db_size'], o.f['total'] = SInt(size), SInt(bl.n)
        return bl
    i.contracts['s3ql.database.UploadMetadata.snapshot_blocks'] = snap
    off0 = t.b0 * bs
    ctx.assume(off0 >= 0)
    ln0 = z3.If(size - off0 <= 0, 0, z3.If(size - off0 < bs, size - off0, bs))

    def extra(ii, fr, jobs):
        it = ii.cur_iter
        if getattr(it, 'kind', None) != 'blocknos':
            return []
        past = lambda e: z3.And(listed, it.pos < e.m('$k'))
        out = []
        for j in jobs:
            out += [('cnt', lambda e, j=j: j.cnt == z3.If(past(e), 1, 0)), ('n', lambda e, j=j: j.n == e.m('$k')),
                    ('off', lambda e, j=j: z3.Implies(past(e), j.fl['offset'] == off0)),
                    ('len', lambda e, j=j: z3.Implies(past(e), j.fl['length'] == ln0))]
        return out
    jobs_setup(ctx, i, t, 'UploadMetadata.produce', extra)
    m = i.find_method(D.UploadMetadata, 'produce')
    r = i.await_(i.call(Bound(m, o), [], {}))
    ctx.shared.reached.add('return')
    if isinstance(r, list):
        r = Jobs(t, r)
    P('wanted', r.cnt == z3.If(listed, 1, 0), 'block not uploaded or uploaded twice')
    P('offset', z3.Implies(listed, r.fl['offset'] == off0), 'other part of the file')
    P('length', z3.Implies(listed, r.fl['length'] == ln0), 'other length')
    P('jobs', r.n == bl.n)


def u_up_finalize(ctx, want):
    i = Interp(ctx)
    t = T(ctx, i)
    P = lambda n, g, info=None: ctx.prove('C14.upload.' + n, g, info=info)
    o, db, params, size, bs, dirty0, log = up_obj(ctx, i, t)
    o.f['db_size'] = SInt(size)
    old = (params.f['db_size'], params.f['db_md5'])
    Fh = file_open(ctx, i, log)
    digest = ctx.val('digest')

    def sha(it, a, k):
        log.append(('digest', a[0]))

        class H(Model):
            def m_state(self):
                return {}

            def hexdigest(self):
                return digest
        return H()
    i.contracts['s3ql.common.sha256_fh'] = sha
    i.contracts['s3ql.database.sha256_fh'] = sha
    m = i.find_method(D.UploadMetadata, 'finalize')
    kind, r = i.run_function(m, [o], {})
    ctx.shared.reached.add(kind)
    P('no-error', z3.BoolVal(kind == 'return'))
    if kind != 'return':
        return
    upd = o.f['update_params'].t
    dg = [x for x in log if x[0] == 'digest']
    ok = len(dg) == 1 and isinstance(dg[0][1], Fh) and dg[0][1].name is db.file
    P('records-size', z3.Implies(upd, i.as_int(params.f['db_size']) == size), 'size is not recorded')
    P('records-checksum', z3.Implies(upd, z3.And(z3.BoolVal(ok), i.as_v(params.f['db_md5']) == i.as_v(digest))),
      'checksum of the file is not recorded')
    P('params-kept', z3.Implies(z3.Not(upd), z3.And(i.as_int(params.f['db_size']) == old[0].t,
                                                   i.as_v(params.f['db_md5']) == i.as_v(old[1]))))


def u_sha256_fh(ctx, want):
    """the digest covers the whole file, from its start"""
    i = Interp(ctx)
    i.auto_invariants = False
    import hashlib
    def P(n, g, info=None):
        for p in ('C14', 'C07'):
            ctx.prove(p + '.checksum.' + n, g, info=info)
    size = ctx.int('size', lo=0).t
    st = SObj(object, {'pos': ctx.int('pos', lo=0), 'hashed': SInt(z3.IntVal(0)), 'eof': SBool(z3.BoolVal(False)),
                       'good': SBool(z3.BoolVal(True))})
    ctx.roots['st'] = st

    class Fh(Model):
        def m_state(self):
            return {}

        def seek(self, off, whence=0):
            if whence != 0:
                raise Unsupported('seek')
            st.f['pos'] = SInt(i.as_int(off))
            return st.f['pos']

        def read(self, n=-1):
            p = st.f['pos'].t
            k = ctx.int('got', lo=0).t
            ctx.assume(z3.And(z3.Implies(p >= size, k == 0), z3.Implies(p < size, z3.And(k >= 1, k <= size - p))))
            if n is not None and not (isinstance(n, int) and n < 0):
                ctx.assume(k <= i.as_int(n))
            else:
                ctx.assume(z3.Implies(p < size, k == size - p))
            st.f['pos'] = SInt(simp(p + k))
            return Piece(p, k)

    class Piece(Model):
        m_type = bytes

        def __init__(self, p, k):
            self._p, self._n = p, k

        def m_state(self):
            return {}

        def m_len(self):
            return SInt(self._n)

        def m_truth(self, ii):
            return self._n > 0

    class Sha(Model):
        def m_state(self):
            return {}

        def update(self, b):
            if not isinstance(b, Piece):
                raise Unsupported('update')
            st.f['good'] = SBool(simp(z3.And(st.f['good'].t, b._p == st.f['hashed'].t)))
            st.f['hashed'] = SInt(simp(st.f['hashed'].t + b._n))
    i.bi[hashlib.sha256] = lambda ii, *a: Sha()
    g = lambda e, k: st.f[k].t
    i.loop_hints['sha256_fh'] = lambda ii, fr, pre: [
        ('good', lambda e: g(e, 'good')), ('sync', lambda e: g(e, 'hashed') == g(e, 'pos')),
        ('range', lambda e: z3.And(g(e, 'hashed') >= 0, g(e, 'hashed') <= size))]
    kind, r = i.run_function(i.ifunc_by_name(C, 'sha256_fh'), [Fh()], {})
    ctx.shared.reached.add(kind)
    P('whole-file', z3.And(z3.BoolVal(kind == 'return' and isinstance(r, Sha)), st.f['good'].t, st.f['hashed'].t == size),
      'digest does not cover exactly the whole file')


UNITS = [('metadata.get_block_objects', u_get_block_objects, ['return']),
         ('metadata.get_available_seq_nos', u_get_available_seq_nos, ['return']),
         ('metadata.download.produce', u_dl_produce, ['return', 'raise']),
         ('metadata.download.consume', lambda c, w: u_consume(c, w, False), ['return', 'raise']),
         ('metadata.download.finalize', u_dl_finalize, ['return', 'raise']),
         ('metadata.upload.snapshot_blocks', u_snapshot, ['return']),
         ('metadata.upload.produce', u_up_produce, ['return']),
         ('metadata.upload.consume', lambda c, w: u_consume(c, w, True), ['return', 'raise']),
         ('metadata.upload.finalize', u_up_finalize, ['return']),
         ('metadata.sha256_fh', u_sha256_fh, ['return'])]


# ------------------------------------------------------------------------------------------------- the pipeline
class Chan(Model):
    def __init__(self, p, kind, base=None):
        self._p, self.kind, self.base, self.closed = p, kind, base or self, False

    def m_state(self):
        return {}

    def clone(self):
        return Chan(self._p, self.kind, self.base)

    def m_enter(self, i):
        return self

    def m_exit(self, i, exc):
        self.closed = True
        return False

    def close(self):
        self.closed = True

    def aclose(self):
        def run():
            self.closed = True
        return SCoro(run, 'aclose')

    def send(self, item):
        if self.kind != 'send':
            raise Unsupported('send')
        return SCoro(lambda: self._p.send(item), 'send')

    def send_nowait(self, item):
        raise Unsupported('send_nowait')


class Nursery(Model):
    """trio.open_nursery(): leaving it waits for every task started in it and passes on their errors"""
    def __init__(self, p):
        self._p = p
        self.open = False

    def m_state(self):
        return {}

    def m_enter(self, i):
        self.open = True
        return self

    def m_exit(self, i, exc):
        self.open = False
        return False if exc is not None else self._p.joined()

    def start_soon(self, fn, *a, **k):
        self._p.start(self, fn, a)


def u_pipeline(ctx, want):
    """ParallelPipeline.run: every job is handed to the workers exactly once, all workers finish, then finalize"""
    import trio
    i = Interp(ctx)
    i.auto_invariants = False
    P = lambda n, g, info=None: ctx.prove('C14.pipeline.' + n, g, info=info)
    n, wk = ctx.int('njobs', lo=0).t, ctx.int('n_workers', lo=1)
    j0 = ctx.int('j0').t
    ctx.assume(z3.And(j0 >= 0, j0 < n))

    class Item(Model):
        def __init__(self, k):
            self.k = k

        def m_state(self):
            return {}

    class JobsIn(Model):
        m_type = list

        def m_state(self):
            return {}

        def m_len(self):
            return SInt(n)

        def m_iter(self, ii):
            it = SIter(n, lambda k: Item(k.t))
            it.kind = 'jobs'
            return it
    jobs = JobsIn()

    class Pipe(Model):
        def __init__(self):
            self.sent, self.hits, self.workers = z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)
            self.order = []
            self.chans = None

        def m_state(self):
            return {'sent': SInt(self.sent), 'hits': SInt(self.hits), 'workers': SInt(self.workers)}

        def m_havoc(self, ii, k):
            setattr(self, k, ctx.int(k, lo=0).t)

        def send(self, item):
            if not isinstance(item, Item):
                raise Unsupported('sends %s' % type(item).__name__)
            P('workers-first', self.workers >= 1, 'jobs are sent before there is a worker')
            self.sent, self.hits = simp(self.sent + 1), simp(self.hits + z3.If(item.k == j0, 1, 0))

        def start(self, nursery, fn, a):
            P('in-nursery', z3.BoolVal(nursery.open), 'task started outside the nursery')
            ok = isinstance(fn, Bound) and fn.self_ is o and fn.fn.qualname.endswith('_drive_consumer') and len(a) == 1 \
                and isinstance(a[0], Chan) and a[0].kind == 'recv' and not a[0].closed
            P('worker', z3.BoolVal(bool(ok)), 'worker does not receive from the channel')
            P('own-channel', z3.BoolVal(bool(ok and a[0] is not self.chans[1])), 'workers share one end of the channel')
            self.workers = simp(self.workers + 1)

        def joined(self):
            P('closed', z3.BoolVal(self.chans[0].closed and self.chans[1].closed), 'workers never see the end of the jobs')
            self.order.append('joined')
            if ctx.choose(2, 'worker fails') == 1:
                self.order.append('failed')
                i.raise_(RuntimeError, 'worker')
            return False
    pipe = Pipe()
    ctx.roots['pipe'] = pipe

    class Omc(Model):
        def m_state(self):
            return {}

        def m_getitem(self, ii, k):
            return self

        def m_call(self, ii, a, k):
            if pipe.chans is not None:
                raise Unsupported('second channel')
            pipe.chans = (Chan(pipe, 'send'), Chan(pipe, 'recv'))
            return pipe.chans
    i.obj_over[('trio', 'open_memory_channel')] = Omc()
    i.obj_over[('trio', 'open_nursery')] = type('On', (Model,), {'m_state': lambda s: {}, 'm_call': lambda s, ii, a, k: Nursery(pipe)})()

    class Sub(C.ParallelPipeline):
        pass
    o = SObj(D.UploadMetadata, {})
    i.contracts['s3ql.database.UploadMetadata.produce'] = lambda it, a, k: SCoro(lambda: (pipe.order.append('produce'), jobs)[1], 'produce')
    i.contracts['s3ql.database.UploadMetadata.finalize'] = lambda it, a, k: pipe.order.append('finalize')
    i.loop_hints['ParallelPipeline.run'] = lambda ii, fr, pre: (
        [('sent', lambda e: z3.And(pipe.sent == e.m('$k'), pipe.hits == z3.If(j0 < e.m('$k'), 1, 0)))]
        if getattr(ii.cur_iter, 'kind', None) == 'jobs' else
        [('workers', lambda e: pipe.workers == e.m('$k')), ('nosend', lambda e: z3.And(pipe.sent == 0, pipe.hits == 0))])
    m = i.find_method(C.ParallelPipeline, 'run')
    try:
        i.await_(i.call(Bound(m, o), [wk], {}))
        kind = 'return'
    except PyRaise as e:
        kind = 'raise'
    ctx.shared.reached.add(kind)
    if kind == 'raise':
        P('failure-no-finalize', z3.BoolVal('failed' in pipe.order and 'finalize' not in pipe.order),
          'finishes although a worker failed')
        return
    P('every-job', z3.And(pipe.hits == 1, pipe.sent == n), 'a job is left out or handed out twice')
    P('finalize-last', z3.BoolVal(pipe.order == ['produce', 'joined', 'finalize']), '%s' % pipe.order)


def u_pipeline_worker(ctx, want):
    i = Interp(ctx)
    P = lambda n, g, info=None: ctx.prove('C14.pipeline.' + n, g, info=info)
    o = SObj(D.UploadMetadata, {})
    got = []
    ch = Chan(None, 'recv')

    def consume(it, a, k):
        def run():
            got.append((a[1], ch.closed))
            if ctx.choose(2, 'ok') == 1:
                i.raise_(RuntimeError, 'consume')
        return SCoro(run, 'consume')
    i.contracts['s3ql.database.UploadMetadata.consume'] = consume
    m = i.find_method(C.ParallelPipeline, '_drive_consumer')
    try:
        i.await_(i.call(Bound(m, o), [ch], {}))
        kind = 'return'
    except PyRaise as e:
        kind = 'raise'
    ctx.shared.reached.add(kind)
    P('worker.consumes', z3.BoolVal(len(got) == 1 and got[0][0] is ch and not got[0][1]))
    P('worker.closes', z3.BoolVal(ch.closed))


def u_glue(ctx, want, up):
    """upload_metadata / download_metadata run the pipeline on exactly what they were given"""
    i = Interp(ctx)
    P = lambda n, g, info=None: ctx.prove('C14.%s.call.%s' % ('upload' if up else 'download', n), g, info=info)
    runs = []
    cls = D.UploadMetadata if up else D.DownloadMetadata

    def run(it, a, k):
        def go():
            runs.append((a, k))
            if ctx.choose(2, 'ok') == 1:
                i.raise_(RuntimeError, 'pipeline failed')
        return SCoro(go, 'run')
    i.contracts['s3ql.common.ParallelPipeline.run'] = run
    conns = []

    def conn(ii, *a, **k):
        conns.append(a)
        return ('conn',)
    i.bi[D.Connection] = conn
    params = SObj(D.FsAttributes, {x: None for x in D.FsAttributes.__dataclass_fields__})
    params.f['metadata_block_size'] = ctx.int('blocksize', lo=1)

    class Obj(Model):
        def m_state(self):
            return {}
    be, db = Obj(), Obj()
    be.max_connections, be.max_threads = ctx.int('max_connections', lo=1), ctx.int('max_threads', lo=0)
    f1, f2 = ctx.bool('flag1'), ctx.bool('flag2')
    name = ctx.val('db_file', str)
    args = [be, db, params] if up else [be, name, params]
    kw, exp = {}, {}
    given = ctx.choose(2, 'flags given') == 1
    if up:
        exp = {'incremental': True, 'update_params': True}
        if given:
            kw = exp = {'incremental': f1, 'update_params': f2}
    else:
        exp = {'failsafe': False}
        if given:
            kw = exp = {'failsafe': f1}
    fn = i.ifunc_by_name(D, 'upload_metadata' if up else 'download_metadata')
    try:
        i.await_(i.call(fn, args, kw))
        kind = 'return'
    except PyRaise:
        kind = 'raise'
    ctx.shared.reached.add(kind)
    ok = len(runs) == 1
    P('once', z3.BoolVal(ok))
    if not ok:
        return
    a, k = runs[0]
    op = a[0]
    nw = a[1] if len(a) > 1 else k.get('n_workers')
    P('workers', i.as_int(nw) >= 1, 'no workers')
    want_f = dict(backend=be, params=params, **exp)
    want_f['db' if up else 'db_file'] = db if up else name
    for f, v in want_f.items():
        x = op.f.get(f)
        same = x is v or (isinstance(v, bool) and x == v) or \
            (isinstance(v, SBool) and isinstance(x, SBool) and ctx.holds(x.t == v.t))
        P('arg.' + f, z3.BoolVal(bool(isinstance(op, SObj) and op.cls is cls and same)), 'other %s' % f)
    if kind == 'return' and not up:
        P('opens', z3.BoolVal(len(conns) == 1 and conns[0][0] is name))


UNITS += [('pipeline.run', u_pipeline, ['return', 'raise']),
          ('pipeline.worker', u_pipeline_worker, ['return', 'raise']),
          ('metadata.upload', lambda c, w: u_glue(c, w, True), ['return', 'raise']),
          ('metadata.download', lambda c, w: u_glue(c, w, False), ['return', 'raise'])]
