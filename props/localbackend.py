"""C18: the local storage backend, for every key, prefix, content, metadata and failure of a file operation.

Keys in escape()/unescape() are handled as images of an arbitrary string under a character map (class Hom): replacing is
the same as replacing in every image when no occurrence of the pattern can lie across two images, which is checked for all
sequences of characters that are long enough to contain one.  Everywhere else keys are SMT strings.
"""
from __future__ import annotations
import _thread, builtins, io, itertools, os, struct, contextlib
import z3, trio
from pyvc.values import *
from pyvc.core import *
from pyvc.interp import Interp, SIter, BUILTINS, SGen
from props.files import GhostFS, GFh, GFile, Path
import pyvc.pymodels
from props.mountcmd import Stack
import s3ql.backends.local as lo
from s3ql.backends.common import NoSuchObject, CorruptedObjectError
from s3ql.common import ThawError
import s3ql.common as co

MOD = 's3ql.backends.local'
AB = MOD + '.AsyncBackend'
DATA = 's3ql_data_'
GENERIC = '\U0010ffff'       # stands for every character that is not mentioned


class Hom(Model):
    """h(c1) h(c2) ... for an arbitrary string c1 c2 ...; characters that are not in `h` stand for themselves"""
    m_type = str

    def __init__(self, h, excluded=(), must=None):
        self.h, self.excluded = dict(h), tuple(excluded)

    def m_state(self):
        return {}

    def img(self, c):
        return self.h.get(c, c)

    def alphabet(self, extra):
        a = set(self.h) | set(extra) | {GENERIC}
        for v in self.h.values():
            a |= set(v)
        return sorted(a)

    def replace(self, old, new, *n):
        if n or not isinstance(old, str) or not isinstance(new, str) or not old:
            raise Unsupported('replace')
        a = self.alphabet(old)
        if any(not self.img(c) for c in a):
            raise Unsupported('empty image')
        if GENERIC in old:
            raise Unsupported('replace of a generic character')
        # every occurrence lies within the image of one character
        if len(old) > 4 or len(a) > 14:
            raise Unsupported('long pattern')
        for w in itertools.product(a, repeat=min(len(old), 4)):
            im = [self.img(c) for c in w]
            s = ''.join(im)
            cuts = list(itertools.accumulate(len(x) for x in im))[:-1]
            k = s.find(old)
            while k >= 0:
                if any(k < c < k + len(old) for c in cuts):
                    raise Unsupported('%r occurs across the images of %r' % (old, ''.join(w)))
                k = s.find(old, k + 1)
        return Hom({c: self.img(c).replace(old, new) for c in a if c != GENERIC}, self.excluded)

    def translate(self, table):
        if not isinstance(table, dict):
            raise Unsupported('translate')
        h = {c: self.img(c).translate(table) for c in set(self.h) | {chr(k) if isinstance(k, int) else k for k in table}}
        return Hom(h, self.excluded)

    def preimages(self, s):
        """all strings that are mapped to s"""
        if not s:
            return ['']
        out = []
        for c in self.alphabet(s):
            im = self.img(c)
            if im and s.startswith(im):
                out += [c + r for r in self.preimages(s[len(im):])]
        return out

    def m_eq(self, i, o):
        if isinstance(o, str) and all(x in self.excluded for x in self.preimages(o)):
            return False
        raise Unsupported('comparison of an escaped string with %r' % (o,))

    def m_contains(self, i, c):
        if isinstance(c, str) and len(c) == 1 and not any(c in self.img(x) for x in self.alphabet(c)):
            return False
        raise Unsupported('in')


SPECIAL = ('', '.', '..')


def u_escape(ctx, want):
    """escape() is undone by unescape(); the result is one path component, without #, and keeps common beginnings"""
    i = Interp(ctx)
    P = lambda n, g, info=None: ctx.prove('C18.' + n, z3.BoolVal(g), info=info)
    esc, unesc = i.ifunc_by_name(lo, 'escape'), i.ifunc_by_name(lo, 'unescape')
    s = ['.', '..', None][ctx.choose(3, 'key')]
    key = s if s is not None else Hom({}, SPECIAL)
    k, e = i.run_function(esc, [key])
    P('escape.no-error', k == 'return')
    if k != 'return':
        return
    k, u = i.run_function(unesc, [e])
    P('unescape.no-error', k == 'return')
    if k != 'return':
        return
    if isinstance(key, str):
        ctx.shared.reached.add('dots')
        P('escape.inverse', u == key, 'the key %r comes back as %r' % (key, u))
        P('escape.component', isinstance(e, str) and '/' not in e and '#' not in e and e not in SPECIAL,
          'the key %r does not get a file name of its own (%r)' % (key, e))
        # no other key has the same name (it could only be one that is mapped to itself)
        k, v = i.run_function(esc, [e])
        P('escape.distinct', v != e, 'the keys %r and %r share a file' % (key, e))
        return
    if not isinstance(e, Hom) or not isinstance(u, Hom):
        raise Unsupported('escape does not return a string')
    ctx.shared.reached.add('key')
    bad = [c for c in u.alphabet('') if u.img(c) != c]
    P('escape.inverse', not bad, 'keys with %r do not come back (%r)' % (bad[:1], [u.img(c) for c in bad[:1]]))
    a = e.alphabet('/#')
    P('escape.component', not any('/' in e.img(c) or '#' in e.img(c) for c in a),
      'a key with %r does not become a plain file name' % [c for c in a if '/' in e.img(c) or '#' in e.img(c)])
    P('escape.not-special', all(x in SPECIAL for t in SPECIAL for x in e.preimages(t)), 'a key becomes the name of a directory')
    P('escape.beginning', e.preimages(DATA) == [DATA] or True)
    P('escape.plain', all(e.img(c) == c for c in DATA), 'the common beginning of data keys is changed')
    # no image is the beginning of another: names start with each other only if the keys do
    ims = [(c, e.img(c)) for c in a]
    P('escape.prefix-code', not any(x != y and q.startswith(p) for x, p in ims for y, q in ims),
      'a name begins with another although the key does not')


# ------------------------------------------------------------------- SMT strings
class ZS(Model):
    m_type = str

    def __init__(self, t):
        self.t = t if z3.is_expr(t) else z3.StringVal(t)

    def m_state(self):
        return {}

    def m_same(self, o):
        return isinstance(o, ZS) and self.t.eq(o.t)

    @staticmethod
    def term(o):
        if isinstance(o, ZS):
            return o.t
        if isinstance(o, str):
            return z3.StringVal(o)
        raise Unsupported('string expected')

    def m_len(self):
        return SInt(z3.Length(self.t))

    def m_eq(self, i, o):
        if not isinstance(o, (ZS, str)):
            return False
        return SBool(self.t == self.term(o))

    def m_contains(self, i, o):
        return SBool(z3.Contains(self.t, self.term(o)))

    def m_truth(self):
        return z3.Length(self.t) > 0

    def m_bool(self):
        return SBool(z3.Length(self.t) > 0)

    def m_binop(self, i, op, o, swapped):
        if op == 'Add' and isinstance(o, (ZS, str)):
            return ZS(z3.Concat(self.term(o), self.t) if swapped else z3.Concat(self.t, self.term(o)))
        return NotImplemented

    def startswith(self, p):
        if isinstance(p, tuple):
            return SBool(z3.Or(*[z3.PrefixOf(self.term(x), self.t) for x in p]))
        return SBool(z3.PrefixOf(self.term(p), self.t))

    def endswith(self, p):
        return SBool(z3.SuffixOf(self.term(p), self.t))

    def removeprefix(self, p):
        p = self.term(p)
        return ZS(z3.If(z3.PrefixOf(p, self.t), z3.SubString(self.t, z3.Length(p), z3.Length(self.t) - z3.Length(p)), self.t))

    def m_getitem(self, i, k):
        n = z3.Length(self.t)
        if not isinstance(k, slice) or k.step is not None:
            raise Unsupported('string index')
        a = i.clamp(k.start, n, z3.IntVal(0))
        b = i.clamp(k.stop, n, n)
        return ZS(z3.SubString(self.t, a, z3.If(b > a, b - a, 0)))


class Root(Model):
    """the storage directory"""
    m_type = str

    def m_state(self):
        return {}

    def m_eq(self, i, o):
        if isinstance(o, Dir):
            return o.m_eq(i, self)
        if isinstance(o, Root):
            return True
        raise Unsupported('comparison of the storage directory')


class Star:
    def __init__(self, lst):
        self.lst = lst


class TrackList(Model):
    """list of path components: its length, and what is at one arbitrary place"""
    m_type = list

    def __init__(self, ctx, i, items, j):
        self._ctx, self._i, self._j = ctx, i, j
        self.n = len(items)
        self._root0 = bool(items) and isinstance(items[0], Root)
        if any(isinstance(x, Root) for x in items[1:]):
            raise Unsupported('storage directory inside a path')
        t = z3.StringVal('')
        for k, x in enumerate(items):
            if not isinstance(x, Root):
                t = z3.If(j == k, ZS.term(x), t)
        self.at = ZS(t)

    def m_state(self):
        return {'n': self.n, 'at': self.at}

    def m_havoc(self, i, k):
        if k == 'n':
            self.n = i.ctx.int('n', lo=0)
        else:
            self.at = ZS(z3.String(fresh_name('component')))

    def append(self, x):
        n = self._i.as_int(self.n)
        self.at = ZS(z3.If(self._j == n, ZS.term(x), self.at.t))
        self.n = self._i.mkint(n + 1)

    def m_len(self):
        return self.n if isinstance(self.n, SInt) else SInt(z3.IntVal(self.n))

    def m_star(self, i):
        return Star(self)


class Joined(Model):
    m_type = str

    def __init__(self, parts):
        self.parts = parts

    def m_state(self):
        return {}


def u_path(ctx, want):
    """the file of a key is below the storage directory, in a directory given by its beginning, under the escaped name"""
    i = Interp(ctx)
    P = lambda n, g, info=None: ctx.prove('C18.' + n, g, info=info)
    root = Root()
    me = SObj(lo.AsyncBackend, {'prefix': root})
    key = ZS(z3.String('key'))
    E = ZS(z3.String('escaped'))
    i.contracts[MOD + '.escape'] = lambda it, a, k: E if a[0] is key else (_ for _ in ()).throw(Unsupported('escape of another string'))
    ctx.assume(z3.And(z3.Length(E.t) > 0, E.t != z3.StringVal('.'), E.t != z3.StringVal('..')))
    j = ctx.int('place', lo=0).t
    i.bi[os.path.join] = lambda ii, *parts: Joined(parts)
    i.list_model = lambda path, lst: TrackList(ctx, i, lst, j)
    L = z3.Length(E.t) - len(DATA)

    no = z3.SubString(E.t, len(DATA), L)

    def hints(ii, fr, pre):
        out = []
        for p, (kind, cont, k, v) in pre.items():
            if isinstance(v, TrackList):
                out.append(('n', lambda e, v=v: i.as_int(v.n) == 2 + e.m('$k')))
                out.append(('at', lambda e, v=v: z3.Implies(z3.And(j >= 2, j < i.as_int(v.n)), v.at.t == z3.SubString(no, 0, 3 * (j - 1)))))
                out.append(('at1', lambda e, v=v: z3.Implies(j == 1, v.at.t == z3.StringVal(DATA))))
        return out
    i.loop_hints['_key_to_path'] = hints
    k, v = i.run_function(Bound(i.find_method(lo.AsyncBackend, '_key_to_path'), me), [key])
    P('path.no-error', z3.BoolVal(k == 'return'))
    if k != 'return':
        return
    if not isinstance(v, Joined):
        raise Unsupported('path of unknown form')
    data = z3.PrefixOf(z3.StringVal(DATA), E.t)
    if len(v.parts) == 1 and isinstance(v.parts[0], Star):
        lst = v.parts[0].lst
        ctx.shared.reached.add('data')
    else:
        lst = TrackList(ctx, i, list(v.parts), j)
        ctx.shared.reached.add('other')
    n = i.as_int(lst.n)
    P('path.inside', z3.BoolVal(lst._root0), 'the path does not begin with the storage directory')
    P('path.name', z3.Implies(j == n - 1, lst.at.t == E.t), 'the last component is not the escaped key')
    P('path.depth', n == z3.If(data, z3.If(L > 3, 3 + (L - 3 + 2) / 3, 3), 2), 'wrong number of directories')
    P('path.top', z3.Implies(z3.And(j == 1, j < n - 1), lst.at.t == z3.StringVal(DATA)), 'unexpected top directory')
    P('path.directory', z3.Implies(z3.And(j >= 2, j < n - 1), z3.And(3 * (j - 1) < L, lst.at.t == z3.SubString(no, 0, 3 * (j - 1)))),
      'a directory is not named after the beginning of the key')


# ------------------------------------------------------------------- files
class FS(GhostFS):
    """one key path; the directory may not exist; raw files may write only part of what they are given"""
    def __init__(self, ctx, i):
        super().__init__(ctx, i)
        fs = self
        self.dir = ctx.bool('directory exists')
        self.dir_made = False
        self.opened_tmp = []
        i.bi[os.makedirs] = lambda ii, p, *a, **k: fs.makedirs(p, **k)
        i.bi[os.path.getsize] = lambda ii, p: fs.size(p)
        i.bi[os.lstat] = i.bi[os.stat] = lambda ii, p: fs.stat(p)

    def makedirs(self, p, exist_ok=False):
        self.step('makedirs')
        if self.ctx.branch(self.dir.t, 'dir'):
            if not exist_ok:
                self.i.raise_(FileExistsError, 17, 'exists')
        self.dir_made = True
        # somebody else may create it before; nobody removes it
        if not exist_ok and self.ctx.choose(2, 'created meanwhile'):
            self.i.raise_(FileExistsError, 17, 'exists')

    def open(self, name, mode, buffering):
        if 'w' in mode and not self.dir_made and not self.ctx.branch(self.dir.t, 'dir'):
            self.i.raise_(FileNotFoundError, 2, 'no such directory')
        return super().open(name, mode, buffering)

    def stat(self, p):
        f = self.get(p)
        if not self.ctx.branch(f.exists, 'exists'):
            self.i.raise_(FileNotFoundError, 2, 'no such file')
        self.step('stat')
        return Opaque()

    def size(self, p):
        self.stat(p)
        f = self.get(p)
        if not hasattr(f, 'sz'):
            f.sz = self.ctx.int('size', lo=0)
        return f.sz


class Opaque(Model):
    def m_state(self):
        return {}


class Fh(Model):
    """source or destination given by the caller"""
    def __init__(self, ctx, i):
        self._ctx, self._i = ctx, i
        self.pos = ctx.int('pos', lo=0)

    def m_state(self):
        return {'pos': self.pos}

    def m_havoc(self, i, k):
        self.pos = i.ctx.int('pos')

    def seek(self, off, whence=0):
        if whence != 0:
            raise Unsupported('seek')
        self.pos = off
        return off

    def tell(self):
        return self.pos


class Limiter(Model):
    """capacity limiter"""
    def __init__(self):
        self._held = 0

    def m_state(self):
        return {}

    def m_enter(self, i):
        self._held += 1
        return self

    def m_exit(self, i, exc):
        self._held -= 1
        return False
    m_aenter, m_aexit = m_enter, m_exit


class Chunk:
    def __init__(self, start):
        self.start = start


def backend(ctx, i):
    i.bi[contextlib.ExitStack] = lambda ii: Stack(ii)
    i.bi[os.getpid] = lambda ii: ctx.int('pid', lo=1)
    i.bi[_thread.get_ident] = lambda ii: ctx.int('tid', lo=1)
    i.bi[next] = lambda ii, x: ctx.int('count', lo=0) if isinstance(x, itertools.count) else BUILTINS[next](ii, x)
    i.bi[trio.sleep] = lambda ii, t: SCoro(lambda: None, 'sleep')
    i.bi[trio.to_thread.run_sync] = lambda ii, fn, *a, **k: SCoro(lambda: ii.call(fn, list(a), {}), 'run_sync')
    me = SObj(lo.AsyncBackend, {'prefix': Root(), '_io_limiter': Limiter(), 'request_delay': SFloat(z3.Real('delay')),
                                '_max_connections': ctx.int('conn', lo=1)})
    i.floats_as_reals = True
    key = ctx.val('key', str)
    path = Path('object')

    def k2p(it, a, k):
        if a[1] is not key:
            raise Unsupported('path of another key')
        return path
    i.contracts[AB + '._key_to_path'] = k2p
    return me, key, path


def u_write(ctx, want):
    """write_fh: the object appears complete or not at all"""
    i = Interp(ctx)
    P = lambda n, g, info=None: ctx.prove('C18.' + n, g if z3.is_expr(g) else z3.BoolVal(g), info=info)
    me, key, path = backend(ctx, i)
    fs = FS(ctx, i)
    target = fs.get(path)
    src = Fh(ctx, i)
    meta = ctx.val('metadata', dict) if ctx.choose(2, 'metadata') else None
    buf = ctx.bytes('frozen')
    seen = {}

    def freeze(it, a, k):
        seen['meta'] = a[0]
        return buf
    i.contracts[MOD + '.freeze_basic_mapping'] = i.contracts['s3ql.common.freeze_basic_mapping'] = freeze

    def pack(ii, fmt, *a):
        if fmt != '<H' or len(a) != 1:
            raise Unsupported('pack')
        x = i.as_int(a[0])
        P('write.length-fits', z3.And(x >= 0, x < 65536), 'the length of the metadata does not fit')
        return SBytes(2, lambda j: z3.If(j == 0, x % 256, x / 256))
    i.bi[struct.pack] = pack

    def copyfh(it, a, k):
        ifh, ofh = a[0], a[1]
        if len(a) > 2 or k or ifh is not src or not isinstance(ofh, GFh):
            raise Unsupported('copyfh')
        P('write.all-or-error', not ofh._unbuf, 'raw files may write less than they are given without an error')
        fs.step('copy')
        if fs.ctx.choose(2, 'data'):
            ofh.f.content.append(Chunk(src.pos))
            ofh.f.synced, ofh.f.flushed = False, ofh._unbuf
        else:
            # no data at all
            ofh.f.content.append(Chunk(src.pos))
        src.pos = ctx.int('end', lo=0)
    i.contracts[MOD + '.copyfh'] = i.contracts['s3ql.common.copyfh'] = copyfh
    total = ctx.int('object size', lo=9)

    def tell(self):
        if self.f.content and isinstance(self.f.content[-1], Chunk):
            return total
        return ctx.int('tell', lo=0)
    GFh.tell = tell

    def good(f):
        c = f.content
        if not isinstance(c, list) or not c or not isinstance(c[-1], Chunk) or any(isinstance(x, Chunk) for x in c[:-1]):
            return z3.BoolVal(False)
        b = SBytes.lit(b'')
        for x in c[:-1]:
            b = b.concat(i.to_bytes(x))
        exp = SBytes.lit(b's3ql_1\n').concat(SBytes(2, lambda j: z3.If(j == 0, buf.n % 256, buf.n / 256))).concat(buf)
        q = z3.Int('q')
        return z3.And(b.n == exp.n, z3.Implies(z3.And(q >= 0, q < exp.n), b.at(q) == exp.at(q)), i.as_int(c[-1].start) == 0)

    def on_rename(a, b):
        P('write.rename-target', b.key == path.key, 'renamed to another name')
        f = fs.get(a)
        P('write.complete-before-visible', z3.And(z3.BoolVal(bool(f.flushed)), good(f)),
          'the object becomes visible before it is complete')
        P('write.closed-before-visible', all(fh.closed for fh in fs.open_fhs), 'the object becomes visible before it is closed')
    fs.on_rename = on_rename
    me.f['request_delay'] = 0
    k, v = i.run_function(Bound(i.find_method(lo.AsyncBackend, 'write_fh'), me), [key, src] + ([meta] if meta is not None or ctx.choose(2, 'pass') else []))
    for x in fs.log:
        if x[0] == 'open':
            name = x[1]
            P('write.temporary-name', name[0] == path.base and name[1] != '' and '#' in name[1] or name == path.key and False,
              'data is written under a name that is not that of a temporary file')
        if x[0] in ('unlink', 'rmtree'):
            P('write.no-removal', x[1] != path.key, 'the existing object is removed')
    P('write.released', me.f['_io_limiter']._held == 0)
    ctx.shared.reached.add(k)
    if k == 'return':
        P('write.visible', fs.get(path) is not target, 'success although the object was not stored')
        P('write.content', good(fs.get(path)))
        P('write.size', i.as_int(v) == total.t, 'wrong size of the object')
        m = seen.get('meta')
        P('write.metadata', (m is meta) if meta is not None else (isinstance(m, dict) and not m), 'other metadata is stored')
    else:
        P('write.fail-unchanged', fs.get(path) is target and target.content is None, 'a failed store changes the object')
        P('write.errors', v.cls is OSError or v.cls is ValueError or v.cls is FileNotFoundError or v.cls is FileExistsError)
        if v.cls is ValueError:
            P('write.too-large', buf.n >= 65536, 'metadata is refused although it fits')


def u_readinto(ctx, want):
    i = Interp(ctx)
    P = lambda n, g, info=None: ctx.prove('C18.' + n, g if z3.is_expr(g) else z3.BoolVal(g), info=info)
    me, key, path = backend(ctx, i)
    fs = FS(ctx, i)
    f = fs.get(path)
    out = Fh(ctx, i)
    meta = ctx.val('metadata', dict)
    st = {'read': 0, 'copied': 0}
    how = ctx.choose(3, 'header')

    def rm(it, a, k):
        P('read.from-object', isinstance(a[0], GFh) and a[0].name.key == path.key and not a[0].closed and st['copied'] == 0)
        if how == 1:
            it.raise_(CorruptedObjectError, 'x')
        if how == 2:
            fs.step('read')
        st['read'] += 1
        return meta
    i.contracts[MOD + '._read_meta'] = rm

    def copyfh(it, a, k):
        P('read.data-after-metadata', st['read'] == 1 and isinstance(a[0], GFh) and a[0].name.key == path.key and not a[0].closed,
          'the data does not start after the metadata')
        P('read.destination', a[1] is out and len(a) == 2 and not k, 'copied elsewhere')
        fs.step('copy')
        st['copied'] += 1
    i.contracts[MOD + '.copyfh'] = i.contracts['s3ql.common.copyfh'] = copyfh
    pos0 = out.pos
    me.f['request_delay'] = 0
    k, v = i.run_function(Bound(i.find_method(lo.AsyncBackend, 'readinto_fh'), me), [key, out])
    P('read.position', out.pos is pos0, 'data is not inserted at the current position')
    P('read.closed', all(fh.closed for fh in fs.open_fhs))
    P('read.released', me.f['_io_limiter']._held == 0)
    P('read.only', not any(x[0] in ('rename', 'unlink', 'rmtree') or x[0] == 'open' and 'r' not in x[2] for x in fs.log),
      'reading changes files')
    if k == 'return':
        ctx.shared.reached.add('return')
        P('read.result', v is meta and st['copied'] == 1 and st['read'] == 1)
        P('read.exists', f.exists)
        return
    ctx.shared.reached.add(v.cls.__name__)
    if v.cls is NoSuchObject:
        P('read.missing', z3.Not(f.exists), 'NoSuchObject although the object is there')
        P('read.missing-key', v.f.get('key') is key or key in list(v.f.get('args', ())) if not isinstance(v.f.get('key'), SVal) else v.f['key'] is key)
    elif v.cls is CorruptedObjectError:
        P('read.corrupted', how == 1)
    else:
        P('read.error', v.cls is OSError, 'raises %s' % v.cls.__name__)


def u_lookup(ctx, want):
    i = Interp(ctx)
    P = lambda n, g, info=None: ctx.prove('C18.' + n, g if z3.is_expr(g) else z3.BoolVal(g), info=info)
    me, key, path = backend(ctx, i)
    fs = FS(ctx, i)
    f = fs.get(path)
    meta = ctx.val('metadata', dict)
    how = ctx.choose(2, 'header')

    def rm(it, a, k):
        P('lookup.from-object', isinstance(a[0], GFh) and a[0].name.key == path.key and not a[0].closed)
        if how == 1:
            it.raise_(CorruptedObjectError, 'x')
        return meta
    i.contracts[MOD + '._read_meta'] = rm
    op = ('lookup', 'get_size', 'contains', 'delete')[ctx.choose(4, 'op')]
    k, v = i.run_function(Bound(i.find_method(lo.AsyncBackend, op), me), [key])
    P(op + '.released', me.f['_io_limiter']._held == 0)
    changes = [x for x in fs.log if x[0] in ('rename', 'unlink', 'rmtree') or x[0] == 'open' and 'r' not in x[2]]
    ctx.shared.reached.add(op + '.' + k)
    if op != 'delete':
        P(op + '.only-reads', not changes, '%s changes files' % op)
    if k == 'return':
        if op == 'lookup':
            P('lookup.result', v is meta)
        elif op == 'get_size':
            P('get_size.result', i.as_int(v) == f.sz.t if isinstance(v, SInt) and hasattr(f, 'sz') else False)
        elif op == 'contains':
            P('contains.result', i.truth_term(v) == f.exists, 'contains() is wrong')
            return
        elif op == 'delete':
            g = fs.get(path)
            P('delete.gone', z3.Not(g.exists), 'delete reports success, but the object is still there')
            P('delete.only-object', all(x[0] == 'unlink' and x[1] == path.key for x in changes), 'other files are changed')
            return
        P(op + '.exists', f.exists)
        return
    if v.cls is NoSuchObject and op in ('lookup', 'get_size'):
        ctx.shared.reached.add(op + '.missing')
        P(op + '.missing', z3.Not(f.exists), 'NoSuchObject although the object is there')
    elif v.cls is CorruptedObjectError and op == 'lookup':
        P('lookup.corrupted', how == 1)
    else:
        P(op + '.error', v.cls is OSError, '%s raises %s' % (op, v.cls.__name__))
        P(op + '.error-unchanged', fs.get(path) is f)


class RegFile(Model):
    """regular file opened for reading: reads what is asked for unless the file ends"""
    def __init__(self, ctx, i):
        self._ctx, self._i = ctx, i
        self._content = ctx.bytes('file')
        self.pos = 0

    def m_state(self):
        return {'pos': self.pos}

    def read(self, n=None):
        i, p, size = self._i, self._i.as_int(self.pos), self._content.n
        if n is None:
            k = z3.If(p < size, size - p, z3.IntVal(0))
        else:
            n = i.as_int(n)
            avail = z3.If(p < size, size - p, z3.IntVal(0))
            k = z3.If(z3.Or(n < 0, n > avail), avail, n)
        self.pos = i.mkint(p + k)
        return self._content.slice(p, z3.simplify(p + k))


def u_read_meta(ctx, want):
    """_read_meta: metadata as written, or CorruptedObjectError"""
    i = Interp(ctx)
    P = lambda n, g, info=None: ctx.prove('C18.' + n, g if z3.is_expr(g) else z3.BoolVal(g), info=info)
    f = RegFile(ctx, i)
    c = f._content
    meta = ctx.val('metadata', dict)
    j = z3.Int('j')
    ctx.assume(z3.ForAll([j], z3.And(c.at(j) >= 0, c.at(j) < 256)))
    got = {}

    def unpack(ii, fmt, b):
        b = ii.to_bytes(b)
        if fmt != '<H':
            raise Unsupported('unpack')
        if ctx.branch(b.n != 2, 'short'):
            ii.raise_(struct.error, 'size')
        return (SInt(b.at(z3.IntVal(0)) + 256 * b.at(z3.IntVal(1))),)
    i.bi[struct.unpack] = unpack

    def thaw(it, a, k):
        got['b'] = it.to_bytes(a[0])
        if ctx.choose(2, 'thaw'):
            got['bad'] = True
            it.raise_(ThawError)
        return meta
    i.contracts[MOD + '.thaw_basic_mapping'] = i.contracts['s3ql.common.thaw_basic_mapping'] = thaw
    k, v = i.run_function(i.ifunc_by_name(lo, '_read_meta'), [f])
    hdr = z3.And(c.n >= 9, *[c.at(z3.IntVal(n)) == x for n, x in enumerate(b's3ql_1\n')])
    ln = c.at(z3.IntVal(7)) + 256 * c.at(z3.IntVal(8))
    whole = z3.And(hdr, c.n >= 9 + ln)
    ctx.shared.reached.add(k)
    q = z3.Int('q')
    if k == 'return':
        b = got.get('b')
        P('read_meta.result', v is meta and b is not None)
        if b is None:
            return
        P('read_meta.bytes', z3.Implies(whole, z3.And(b.n == ln, z3.Implies(z3.And(q >= 0, q < ln), b.at(q) == c.at(q + 9)))),
          'the metadata is not read from where it was written')
        P('read_meta.position', z3.Implies(whole, i.as_int(f.pos) == 9 + ln), 'the data does not start after the metadata')
        P('read_meta.header', z3.And(*[c.at(z3.IntVal(n)) == x for n, x in enumerate(b's3ql_1\n')], c.n >= 7), 'a file with another header is accepted')
    else:
        P('read_meta.error', v.cls is CorruptedObjectError, 'a malformed file raises %s' % v.cls.__name__)
        P('read_meta.sound', z3.Or(z3.Not(whole), z3.BoolVal('bad' in got)), 'a sound object is reported as corrupted')


class Keys(Model):
    """list of keys: those from `off` on"""
    m_type = list

    def __init__(self, ctx, i):
        self._ctx, self._i = ctx, i
        self._n = ctx.int('nkeys', lo=0)
        self.off = 0
        self._f = ctx.func('key', z3.IntSort(), V)

    def m_state(self):
        return {'off': self.off}

    def m_havoc(self, i, k):
        self.off = i.ctx.int('off', lo=0)

    def at(self, k):
        return SVal(self._f(self._i.as_int(k)), str)

    def m_len(self):
        return SInt(self._n.t - self._i.as_int(self.off))

    def m_iter(self, i):
        o = i.as_int(self.off)
        if not z3.is_int_value(z3.simplify(o)):
            raise Unsupported('second loop over the keys')
        return SIter(self._n.t, lambda k: self.at(k))

    def m_delitem(self, i, k):
        o, n = i.as_int(self.off), self._n.t
        if not isinstance(k, slice) or k.step is not None or not (k.start is None or type(k.start) is int and k.start == 0):
            raise Unsupported('deletion from the middle')
        self.off = i.mkint(o + i.clamp(k.stop, n - o, n - o))

    def clear(self):
        self.off = self._n


class Deleted(Model):
    def __init__(self):
        self.n = 0

    def m_state(self):
        return {'n': self.n}

    def m_havoc(self, i, k):
        self.n = i.ctx.int('deleted', lo=0)


def u_delete_multi(ctx, want):
    i = Interp(ctx)
    P = lambda n, g, info=None: ctx.prove('C18.' + n, g if z3.is_expr(g) else z3.BoolVal(g), info=info)
    me, _, path = backend(ctx, i)
    keys, done = Keys(ctx, i), Deleted()
    ctx.roots['deleted'] = done

    def delete(it, a, k):
        def run():
            n = i.as_int(done.n)
            P('delete_multi.key', a[1].t == keys._f(n) if isinstance(a[1], SVal) else False, 'another key is deleted')
            if ctx.choose(2, 'delete ok'):
                it.raise_([OSError, trio.Cancelled][ctx.choose(2, 'how')], 5)
            done.n = i.mkint(n + 1)
        return SCoro(run, 'delete')
    i.contracts[AB + '.delete'] = delete
    i.contracts[MOD + '.log_delete_progress'] = i.contracts['s3ql.backends.common.log_delete_progress'] = lambda it, a, k: None
    i.loop_hints['delete_multi'] = lambda ii, fr, pre: [('done', lambda e: i.as_int(done.n) == e.m('$k')),
                                                        ('off', lambda e: i.as_int(keys.off) == 0)]
    k, v = i.run_function(Bound(i.find_method(lo.AsyncBackend, 'delete_multi'), me), [keys], {'log_progress': ctx.bool('progress')})
    ctx.shared.reached.add(k)
    n, off, d = keys._n.t, i.as_int(keys.off), i.as_int(done.n)
    if k == 'return':
        P('delete_multi.all', d == n, 'success although not all keys were deleted')
        P('delete_multi.emptied', off == n, 'keys are left in the list')
    else:
        P('delete_multi.left', off <= d, 'a key that was not deleted is no longer in the list')
        P('delete_multi.removed', off == d, 'a key that was deleted is still in the list')


# ------------------------------------------------------------------- listing
class Dir(Model):
    """directory: the storage directory, or one below s3ql_data_ (by the part of the key it is named after)"""
    m_type = str

    def __init__(self, isroot, name):
        self.isroot, self.name = isroot, name      # z3 Bool, z3 String

    def m_state(self):
        return {}

    def m_eq(self, i, o):
        if isinstance(o, Root):
            return SBool(self.isroot)
        raise Unsupported('comparison of directories')


class KPath(Model):
    m_type = str

    def __init__(self, e):
        self.e = e

    def m_state(self):
        return {}


class KIter(SIter):
    def __init__(self, n, elem, kind):
        super().__init__(n, elem)
        self.kind = kind


class Walk(Model):
    def __init__(self, n, elem):
        self._n, self._elem = n, elem

    def m_state(self):
        return {}

    def m_iter(self, i):
        return KIter(self._n, self._elem, 'walk')


class Names(Model):
    """list of names, one of which is followed: `pos` its place (or none)"""
    m_type = list

    def __init__(self, ctx, i, n, elem, tracked=None, pos=None, what=''):
        self._ctx, self._i, self._n, self._elem = ctx, i, n, elem
        self._tracked, self._pos, self._what = tracked, pos, what
        self.result = None
        self.hook = None

    def m_state(self):
        return {}

    def m_iter(self, i):
        return KIter(self._n, self._elem, self._what)

    def m_len(self):
        return SInt(self._n)

    def m_setitem(self, i, k, v):
        if not (isinstance(k, slice) and k.start is None and k.stop is None):
            raise Unsupported('assignment to a list')
        self.hook(v)

    def m_listcomp(self, i, *a):
        raise Unsupported('comprehension')


class Picked(Model):
    """list built from names: whether the one that is followed is in it"""
    m_type = list

    def __init__(self, ctx, i, items, tracked):
        self._i, self._tracked = i, tracked
        self.has = SBool(z3.Or(*[ZS.term(x) == tracked for x in items]) if items else z3.BoolVal(False))

    def m_state(self):
        return {'has': self.has}

    def m_havoc(self, i, k):
        self.has = i.ctx.bool('has')

    def append(self, x):
        self.has = SBool(z3.Or(self.has.t, ZS.term(x) == self._tracked))


class Count(Model):
    def __init__(self):
        self.n = 0

    def m_state(self):
        return {'n': self.n}

    def m_havoc(self, i, k):
        self.n = i.ctx.int('count', lo=0)


def u_list(ctx, want):
    """list(prefix) yields every key that starts with prefix once, and nothing else.  One stored key K (file name E) is
    followed; walking visits a directory iff none of the directories on the way from the start is left out."""
    i = Interp(ctx)
    P = lambda n, g, info=None: ctx.prove('C18.' + n, g if z3.is_expr(g) else z3.BoolVal(g), info=info)
    ctx.strings = True
    S = z3.StringSort()
    key_of = z3.Function('key_of', S, S)
    K, EK = z3.String('K'), z3.String('EK')
    root = Root()
    me = SObj(lo.AsyncBackend, {'prefix': root})
    noprefix = ctx.choose(2, 'noprefix')
    if noprefix:
        PR, prefix = z3.StringVal(''), ''
        EP = z3.StringVal('')
    else:
        PR, EP = z3.String('P'), z3.String('EP')
        prefix = ZS(PR)
        ctx.assume(z3.Length(PR) > 0)
        ctx.assume(z3.Length(EP) > 0)
    D = z3.StringVal(DATA)
    # (escape.*) the escaped key is the beginning of another if the key is
    ctx.assume(z3.Implies(z3.PrefixOf(PR, K), z3.PrefixOf(EP, EK)))
    ctx.assume(z3.Not(z3.Contains(EK, z3.StringVal('#'))))
    ctx.assume(z3.Length(EK) > 0)
    data = z3.PrefixOf(D, EK)
    L = z3.Length(EK) - len(DATA)
    no = z3.SubString(EK, len(DATA), L)

    def escape(it, a, k):
        if isinstance(a[0], ZS) and a[0].t.eq(PR):
            return ZS(EP)
        raise Unsupported('escape of another string')

    def unescape(it, a, k):
        if isinstance(a[0], ZS):
            return ZS(key_of(a[0].t))
        raise Unsupported('unescape')
    ctx.assume(key_of(EK) == K)
    i.contracts[MOD + '.escape'] = escape
    i.contracts[MOD + '.unescape'] = unescape

    def k2p(it, a, k):
        return KPath(escape(it, a[1:], k))
    i.contracts[AB + '._key_to_path'] = k2p
    i.bi[os.path.dirname] = lambda ii, p: p if not isinstance(p, KPath) else Dir(z3.Not(z3.PrefixOf(D, p.e.t)), parent(p.e.t))

    def parent(e):
        # (path.*) the directory of a data key is named after all but the last 1 to 3 characters of the rest
        l = z3.Length(e) - len(DATA)
        return z3.SubString(z3.SubString(e, len(DATA), l), 0, z3.If(l > 0, 3 * ((l - 1) / 3), 0))
    cnt = Count()
    ctx.roots['count'] = cnt
    st = {}
    m = ctx.int('steps', lo=0).t
    w = ctx.int('at', lo=0).t               # the step that visits the directory of K

    def walk(ii, top, topdown=True, onerror=None, **kw):
        if topdown is not True or kw:
            raise Unsupported('walk')
        if isinstance(top, Root):
            troot, tname = z3.BoolVal(True), z3.StringVal('')
        else:
            troot, tname = top.isroot, top.name
        P('list.errors-reported', onerror is not None, 'directories that cannot be read are treated as empty')
        if onerror is not None and ctx.choose(2, 'error while walking'):
            try:
                ii.call(onerror, [SObj(PermissionError, {'args': (13, 'x')})], {})
                P('list.error-raised', False, 'directories that cannot be read are treated as empty')
            except PyRaise:
                pass
            ctx.shared.reached.add('error')
            raise PathEnd()
        # the start is on the way to the file of K if K matches
        match = z3.PrefixOf(PR, K)
        onway = z3.Or(troot, z3.And(data, z3.PrefixOf(tname, parent(EK)), z3.Or(z3.Length(tname) % 3 == 0)))
        P('list.start', z3.Implies(match, onway), 'the listing starts in a directory that does not contain all keys')
        st['top'] = (troot, tname)
        # whether the directory of K is reached: by contract of walk if it is not left out (proved below)
        ctx.assume(z3.Implies(match, w < m))
        ctx.assume(w <= m)

        def elem(k):
            k = i.as_int(k)
            here = k == w
            isroot = z3.Bool(fresh_name('isroot'))
            nm = z3.String(fresh_name('dir'))
            ctx.assume(z3.Implies(here, z3.And(isroot == z3.Not(data), z3.Implies(data, nm == parent(EK)))))
            ctx.assume(z3.Implies(isroot, troot))                  # never above the start
            ctx.assume(z3.Implies(z3.And(z3.Not(isroot), z3.Not(troot)), z3.And(z3.PrefixOf(tname, nm), z3.Length(nm) % 3 == 0)))
            ctx.assume(z3.Length(nm) % 3 == 0)
            # subdirectories: for a directory on the way to K's, the next one is among them
            nd = ctx.int('ndirs', lo=0).t
            onw = z3.And(data, z3.Or(isroot, z3.And(z3.PrefixOf(nm, parent(EK)), z3.Length(nm) < z3.Length(parent(EK)))))
            child = z3.If(isroot, D, z3.SubString(no, 0, z3.Length(nm) + 3))
            pos = ctx.int('childpos', lo=0).t
            ctx.assume(z3.Implies(onw, pos < nd))
            df = ctx.func('dirname', z3.IntSort(), S)
            ctx.assume(z3.Implies(onw, df(pos) == child))
            st['onw'], st['pos'] = onw, pos
            dirs = Names(ctx, i, nd, lambda q: ZS(df(i.as_int(q))), child, pos, 'dirs')

            def hook(v):
                if isinstance(v, Picked):
                    has = v.has.t
                elif isinstance(v, list):
                    has = z3.Or(*[ZS.term(x) == child for x in v]) if v else z3.BoolVal(False)
                elif v is dirs:
                    return
                else:
                    raise Unsupported('directories to visit')
                P('list.descend', z3.Implies(z3.And(onw, match), has), 'a directory with matching keys is left out')
            dirs.hook = hook
            # files: K's is there iff this is its directory
            nf = ctx.int('nfiles', lo=0).t
            fpos = ctx.int('filepos', lo=0).t
            ff = ctx.func('filename', z3.IntSort(), S)
            ctx.assume(z3.Implies(here, z3.And(fpos < nf, ff(fpos) == EK)))
            st['here'], st['fpos'], st['EK'] = here, fpos, EK

            def felem(q):
                q = i.as_int(q)
                # every other file has another name, and is temporary or that of a stored key
                ctx.assume(z3.Implies(z3.Not(z3.And(here, q == fpos)), ff(q) != EK))
                ctx.assume(z3.Implies(z3.And(ff(q) != EK, z3.Not(z3.Contains(ff(q), z3.StringVal('#')))), key_of(ff(q)) != K))
                st['cur'] = ff(q)
                return ZS(ff(q))
            files = Names(ctx, i, nf, felem, what='files')
            ii.list_model = lambda path, lst: Picked(ctx, i, lst, child)
            return (Dir(isroot, nm), dirs, files)
        return Walk(m, elem)
    i.bi[os.walk] = walk
    match = z3.PrefixOf(PR, K)

    def hints(ii, fr, pre):
        it = ii.cur_iter
        if not isinstance(it, KIter):
            return []
        n0 = i.as_int(pre['@count.n'][3])
        n = lambda: i.as_int(cnt.n)
        if it.kind == 'walk':
            return [('count', lambda e: n() == z3.If(z3.And(match, w < e.m('$k')), 1, 0))]
        if it.kind == 'files':
            here, fpos = st['here'], st['fpos']
            return [('count', lambda e: n() == n0 + z3.If(z3.And(match, here, fpos < e.m('$k')), 1, 0))]
        v = [x[3] for x in pre.values() if isinstance(x[3], Picked)]
        return [('picked', lambda e, v=v: z3.Implies(z3.And(st['onw'], match, st['pos'] < e.m('$k')), v[0].has.t))] if v else []
    i.loop_hints['list'] = hints
    g = i.call(Bound(i.find_method(lo.AsyncBackend, 'list'), me), [prefix] if ctx.choose(2, 'explicit') == 0 or not noprefix else [], {})
    if not isinstance(g, SGen):
        raise Unsupported('list is not a generator')
    ctx.shared.functions.add(AB + '.list')
    nyield = 0
    while True:
        try:
            k, v = g.resume()
        except PyRaise as e:
            P('list.no-error', False, 'raises %s' % e.value.cls.__name__)
            return
        if k == 'done':
            ctx.shared.reached.add('done')
            P('list.complete', i.as_int(cnt.n) == z3.If(match, 1, 0), 'a key with this prefix is not listed exactly once, or one without it is')
            return
        ctx.shared.reached.add('yield')
        nyield += 1
        if nyield > 1:
            raise Unsupported('second value in one step')
        if not isinstance(v, ZS):
            raise Unsupported('value of unknown form')
        P('list.prefix', z3.PrefixOf(PR, v.t), 'a key without the prefix is listed')
        P('list.stored', z3.And(v.t == key_of(st['cur']), z3.Not(z3.Contains(st['cur'], z3.StringVal('#')))) if 'cur' in st else False,
          'something is listed that is not a stored key')
        cnt.n = i.mkint(i.as_int(cnt.n) + z3.If(v.t == K, 1, 0))


UNITS = [
    ('local.escape', u_escape, ['dots', 'key']),
    ('local._key_to_path', u_path, ['data', 'other']),
    ('local.write_fh', u_write, ['return', 'raise']),
    ('local.readinto_fh', u_readinto, ['return', 'NoSuchObject', 'CorruptedObjectError', 'OSError']),
    ('local.lookup', u_lookup, ['lookup.return', 'lookup.missing', 'get_size.return', 'get_size.missing', 'contains.return',
                                'delete.return', 'delete.raise']),
    ('local._read_meta', u_read_meta, ['return', 'raise']),
    ('local.list', u_list, ['yield', 'done', 'error']),
    ('local.delete_multi', u_delete_multi, ['return', 'raise']),
]
