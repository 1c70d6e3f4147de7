"""Units for file contents: read, write, truncate, open, fsync (C04, C06, C08, C12)."""
from __future__ import annotations
from .fsworld import *
from .fsops import locked_guard, same_namespace, failing, unchanged, attrs_reported, lifetime
from pyvc.interp import PDIV, PMOD
import os, stat as _stat


class Bytes0:
    """the byte array of a file: F(inode, position), seen through the block store"""

    def __init__(self, w):
        self.w = w
        self.S = w.S.t

    def qm(self, pos):
        return self.w.interp.divmod_terms(pos, self.S)

    def F(self, cache, i, pos):
        q, m = self.qm(pos)
        return cache.byte(i, q, m)

    def relate(self, a, b):
        """products with the block size are monotonic: instance of the lemma unit fsdata.lemmas"""
        S = self.S
        c = self.w.ctx
        c.assume(z3.Implies(a >= b + 1, S * a >= S * b + S))
        c.assume(z3.Implies(a <= b - 1, S * a <= S * b - S))
        c.assume(S * a == a * S)
        c.assume(S * b == b * S)


def setup(ctx, want, **opts):
    w = World(ctx, want, **opts)
    f = Bytes0(w)
    pp = ctx.int('sk_pos', lo=0).t
    q, m = f.qm(pp)
    w.pp, w.q, w.m = pp, q, m
    k = w.skolems()
    # the cached part of a block never exceeds the block size; nothing is stored beyond the end of a file
    old = z3.simplify
    orig = w.interp.divmod_terms

    def dm(x, y):
        r = orig(x, y)
        if z3.simplify(y).eq(z3.simplify(w.S.t)):
            for other in (w.q, k['b']):
                f.relate(r[0], other)
        return r
    w.interp.divmod_terms = dm
    f.relate(q, k['b'])
    return w, f


def zero_beyond(w, f, cache, st, i):
    """bytes beyond the size read as zero (so extending a file exposes zeros)"""
    return z3.Implies(z3.And(st.t['inodes'].ex(i), w.pp >= st.t['inodes'].col['size'](i)),
                      cache.byte(i, w.q, w.m) == 0)


def assume_zero_beyond(w, f, i):
    """the invariant, at the skolem position, for every inode"""
    j = z3.Int('zb_i')
    w.ctx.axiom(z3.ForAll([j], zero_beyond(w, f, w.cache0, w.st0, j), patterns=[w.cache0.byte(j, w.q, w.m)]))
    w.ctx.assume(zero_beyond(w, f, w.cache0, w.st0, i))


def others_unchanged(w, t, attrs_too=True):
    """no other file's blocks (and attributes) are touched"""
    k = w.skolems()
    i, b, n = k['i'], k['b'], k['n']
    w.ob('C04', 'other-files-unchanged', z3.Implies(i != t, z3.And(
        w.cache0.bex(i, b) == w.cache.bex(i, b), w.cache0.byte(i, b, n) == w.cache.byte(i, b, n))))
    a, c = w.st0.t['inodes'], w.st.t['inodes']
    w.ob('C04', 'other-file-sizes-unchanged', z3.Implies(i != t, z3.And(
        a.ex(i) == c.ex(i), z3.Implies(a.ex(i), a.col['size'](i) == c.col['size'](i)))))


def same_meta(w, t, allowed):
    """the only attributes that change are the allowed ones of inode t"""
    k = w.skolems()
    i = k['i']
    a, c = w.st0.t['inodes'], w.st.t['inodes']
    w.ob('C12', 'only-listed-attributes-change', z3.Implies(a.ex(i), z3.And(c.ex(i), *[
        (z3.Or(i == t, a.col[x](i) == c.col[x](i)) if x in allowed else a.col[x](i) == c.col[x](i)) for x in a.cols])))
    p, n = k['p'], k['n']
    for tn, key in (('contents', (p, n)), ('ext_attributes', (i, n)), ('names', (n,)), ('symlink_targets', (i,))):
        a, c = w.st0.t[tn], w.st.t[tn]
        w.ob('C05', 'no-change-to-' + tn, z3.And(a.ex(*key) == c.ex(*key), *[
            z3.Implies(a.ex(*key), a.col[x](*key) == c.col[x](*key)) for x in a.cols]))


def io_failure(w, out, t):
    """(True if the operation failed); EIO marks the block broken and sets failsafe (C08), never anything else"""
    kind, v = out
    if kind != 'raise':
        return False
    w.ctx.shared.reached.add('raise')
    if not is_fuse_error(v):
        for p in ('C04', 'C08'):
            w.ob(p, 'no-unexpected-exception', z3.BoolVal(False), 'raises %s' % v.cls.__name__)
        return True
    e = w.interp.as_int(v.f.get('errno'))
    if e is not None:
        fs = w.interp.truth_term(w.fs.f['failsafe'])
        fs = z3.BoolVal(fs) if isinstance(fs, bool) else fs
        changed = w.ctx.ghost.get('lost', False)
        if changed:
            w.ob('C08', 'lost-block-reported-as-EIO', e == errno.EIO)
            w.ob('C08', 'failsafe-after-lost-block', fs)
    others_unchanged(w, t)
    return True


def writer_hints(w, f, t, off0, buf0):
    """candidate invariants of the write loop, for whatever the loop variables are called"""
    k = w.skolems()
    i, b, n = k['i'], k['b'], k['n']
    end = off0 + buf0.n

    def hints(interp, fr, pre):
        ints = [p for p, x in pre.items() if x[0] == 'l' and isinstance(x[3], (int, SInt)) and not isinstance(x[3], bool)]
        bts = [p for p, x in pre.items() if x[0] == 'l' and isinstance(x[3], (bytes, SBytes))]
        out = [
            ('other-files', lambda e: z3.Implies(i != t, z3.And(
                w.cache0.bex(i, b) == w.cache.bex(i, b), w.cache0.byte(i, b, n) == w.cache.byte(i, b, n)))),
            ('other-files-pos', lambda e: z3.Implies(i != t, w.cache0.byte(i, w.q, w.m) == w.cache.byte(i, w.q, w.m))),
            ('blocks-made', lambda e: z3.Implies(w.cache.bex(i, b), z3.Or(
                w.cache0.bex(i, b), z3.And(i == t, b >= 0, b * f.S < end)))),
        ]
        for x in ints:
            out.append(('written:' + x, lambda e, x=x: w.cache.byte(t, w.q, w.m) == z3.If(
                z3.And(off0 <= w.pp, w.pp < e.m(x)), buf0.at(w.pp - off0), w.cache0.byte(t, w.q, w.m))))
            out.append(('written-rel:' + x, lambda e, x=x: w.cache.byte(t, w.q, w.m) == z3.If(
                z3.And(off0 <= w.pp, w.pp < off0 + e.m(x)), buf0.at(w.pp - off0), w.cache0.byte(t, w.q, w.m))))
            out.append(('written-left:' + x, lambda e, x=x: w.cache.byte(t, w.q, w.m) == z3.If(
                z3.And(off0 <= w.pp, w.pp < end - e.m(x)), buf0.at(w.pp - off0), w.cache0.byte(t, w.q, w.m))))
            out.append(('start:' + x, lambda e, x=x: e.m(x) >= off0))
            out.append(('nonneg:' + x, lambda e, x=x: e.m(x) >= 0))
            out.append(('within:' + x, lambda e, x=x: e.m(x) <= end))
            out.append(('part:' + x, lambda e, x=x: e.m(x) <= buf0.n))
            for y in bts:
                out.append(('tail:%s:%s' % (x, y), lambda e, x=x, y=y: z3.And(
                    e.m(x) + e.m('len(%s)' % y) == end,
                    z3.Implies(z3.And(e.m(x) <= w.pp, w.pp < end),
                               interp.to_bytes(e.v(y)).at(w.pp - e.m(x)) == buf0.at(w.pp - off0)))))
        return out
    return hints


def u_write(ctx, want):
    w, f = setup(ctx, want)
    i = w.held_inode('fh')
    t = i.t
    ctx.assume(t != CTRL_INODE)
    off = ctx.int('offset', lo=0)
    buf = ctx.bytes('buf')
    assume_zero_beyond(w, f, t)
    w.interp.loop_hints['Operations.write'] = writer_hints(w, f, t, off.t, buf)
    out = w.run('write', i, off, buf)
    locked_guard(w, out, [t])
    if io_failure(w, out, t):
        return
    ctx.shared.reached.add('ok')
    r = w.interp.as_int(out[1])
    w.ob('C04', 'returns-number-of-bytes', z3.BoolVal(False) if r is None else r == buf.n)
    inside = z3.And(off.t <= w.pp, w.pp < off.t + buf.n)
    w.ob('C04', 'exactly-the-written-bytes-change', w.cache.byte(t, w.q, w.m) == z3.If(
        inside, buf.at(w.pp - off.t), w.cache0.byte(t, w.q, w.m)))
    s0, s1 = w.st0.t['inodes'].col['size'](t), w.st.t['inodes'].col['size'](t)
    w.ob('C04', 'size-extended-to-end-of-write', s1 == z3.If(off.t + buf.n > s0, off.t + buf.n, s0))
    w.ob('C04', 'zero-beyond-size', zero_beyond(w, f, w.cache, w.st, t))
    others_unchanged(w, t)
    same_meta(w, t, ('size', 'mtime_ns', 'ctime_ns'))
    lifetime(w, modified=t)
    w.prove_inv()


def u_read(ctx, want):
    w, f = setup(ctx, want)
    i = w.held_inode('fh')
    t = i.t
    ctx.assume(t != CTRL_INODE)
    off, length = ctx.int('offset', lo=0), ctx.int('length', lo=0)
    assume_zero_beyond(w, f, t)
    k = w.skolems()
    size0 = w.st0.t['inodes'].col['size'](t)

    def hints(interp, fr, pre):
        ints = [p for p, x in pre.items() if x[0] == 'l' and isinstance(x[3], (int, SInt)) and not isinstance(x[3], bool)]
        bts = [p for p, x in pre.items() if isinstance(x[3], (bytes, SBytes))]
        a, b, n = k['i'], k['b'], k['n']
        out = [('contents', lambda e: z3.And(w.cache0.byte(a, b, n) == w.cache.byte(a, b, n),
                                             w.cache0.byte(t, w.q, w.m) == w.cache.byte(t, w.q, w.m))),
               ('blocks', lambda e: z3.And(z3.Implies(w.cache0.bex(a, b), w.cache.bex(a, b)),
                                           z3.Implies(w.cache.bex(a, b), z3.Or(w.cache0.bex(a, b), z3.And(
                                               a == t, b >= 0, b * f.S < size0)))))]
        for x in ints:
            out.append(('start:' + x, lambda e, x=x: e.m(x) >= off.t))
            total = z3.If(off.t + length.t < size0, off.t + length.t, size0) - off.t
            out.append(('upto:' + x, lambda e, x=x: e.m(x) <= off.t + z3.If(total > 0, total, 0)))
            out.append(('part:' + x, lambda e, x=x: z3.And(e.m(x) >= 0, e.m(x) <= z3.If(total > 0, total, 0))))
            for y in bts:
                out.append(('got-rel:%s:%s' % (x, y), lambda e, x=x, y=y: z3.And(
                    e.m('len(%s)' % y) == e.m(x),
                    z3.Implies(z3.And(off.t <= w.pp, w.pp < off.t + e.m(x)),
                               interp.to_bytes(e.v(y)).at(w.pp - off.t) == w.cache0.byte(t, w.q, w.m)))))
                out.append(('got:%s:%s' % (x, y), lambda e, x=x, y=y: z3.And(
                    e.m('len(%s)' % y) == e.m(x) - off.t,
                    z3.Implies(z3.And(off.t <= w.pp, w.pp < e.m(x)),
                               interp.to_bytes(e.v(y)).at(w.pp - off.t) == w.cache0.byte(t, w.q, w.m)))))
            for z in ints:
                if z != x:
                    out.append(('rest:%s:%s' % (x, z), lambda e, x=x, z=z: z3.Or(
                        e.m(z) <= 0, e.m(x) + e.m(z) <= size0)))
                    want_n = z3.If(off.t + length.t < size0, off.t + length.t, size0)
                    out.append(('end:%s:%s' % (x, z), lambda e, x=x, z=z: z3.If(
                        want_n >= off.t, z3.And(e.m(x) + e.m(z) == want_n, e.m(z) >= 0),
                        z3.And(e.m(x) == off.t, e.m(z) <= 0))))
        return out
    w.interp.loop_hints['Operations.read'] = hints
    out = w.run('read', i, off, length)
    if io_failure(w, out, t):
        return
    ctx.shared.reached.add('ok')
    r = w.interp.to_bytes(out[1])
    if r is None:
        w.ob('C04', 'returns-bytes', z3.BoolVal(False))
        return
    s0 = size0
    n = z3.If(off.t + length.t < s0, length.t, z3.If(s0 > off.t, s0 - off.t, z3.IntVal(0)))
    w.ob('C04', 'short-only-at-end-of-file', r.n == n)
    w.ob('C04', 'returns-the-stored-bytes', z3.Implies(
        z3.And(off.t <= w.pp, w.pp < off.t + n), r.at(w.pp - off.t) == w.cache0.byte(t, w.q, w.m)))
    a, b, nn = k['i'], k['b'], k['n']
    w.ob('C04', 'reading-changes-no-data', w.cache0.byte(a, b, nn) == w.cache.byte(a, b, nn))
    same_meta(w, t, ('atime_ns',))
    w.prove_inv()


def setattr_args(w, ctx, t):
    attr = Bag(pyfuse3.EntryAttributes, {
        'st_ino': ctx.int('a_ino'), 'st_mode': ctx.int('a_mode', lo=0), 'st_uid': ctx.int('a_uid', lo=0),
        'st_gid': ctx.int('a_gid', lo=0), 'st_size': ctx.int('a_size', lo=0), 'st_rdev': ctx.int('a_rdev', lo=0),
        'st_atime_ns': ctx.int('a_atime'), 'st_mtime_ns': ctx.int('a_mtime'), 'st_ctime_ns': ctx.int('a_ctime')})
    fields = Bag(pyfuse3.SetattrFields, {'update_' + k: ctx.bool('u_' + k) for k in (
        'mode', 'uid', 'gid', 'size', 'atime', 'mtime', 'ctime')})
    return attr, fields


def u_setattr(ctx, want):
    w, f = setup(ctx, want)
    i = w.held_inode('id')
    t = i.t
    ctx.assume(t != CTRL_INODE)
    attr, fields = setattr_args(w, ctx, t)
    a0 = {k: v.t for k, v in attr.f.items()}
    u = {k[7:]: v.t for k, v in fields.f.items()}
    assume_zero_beyond(w, f, t)
    out = w.run('setattr', i, attr, fields, i if ctx.choose(2, 'fh') else None, w.reqctx())
    locked_guard(w, out, [t])
    if io_failure(w, out, t):
        return
    ctx.shared.reached.add('ok')
    ino0, ino1 = w.st0.t['inodes'], w.st.t['inodes']
    s0, s1 = ino0.col['size'](t), ino1.col['size'](t)
    w.ob('C04', 'size-set', s1 == z3.If(u['size'], a0['st_size'], s0))
    w.ob('C04', 'truncation-cuts-or-zero-extends', w.cache.byte(t, w.q, w.m) == z3.If(
        z3.And(u['size'], w.pp >= a0['st_size']), z3.IntVal(0), w.cache0.byte(t, w.q, w.m)))
    w.ob('C04', 'zero-beyond-size', zero_beyond(w, f, w.cache, w.st, t))
    others_unchanged(w, t)
    for c, fld, src in (('mode', 'mode', 'st_mode'), ('uid', 'uid', 'st_uid'), ('gid', 'gid', 'st_gid'),
                        ('atime_ns', 'atime', 'st_atime_ns'), ('mtime_ns', 'mtime', 'st_mtime_ns')):
        w.ob('C12', 'attribute-set-' + c, ino1.col[c](t) == z3.If(u[fld], a0[src], ino0.col[c](t)))
    same_meta(w, t, ('mode', 'uid', 'gid', 'size', 'atime_ns', 'mtime_ns', 'ctime_ns'))
    attrs_reported(w, out[1], t)
    if w.want('C06'):
        k = w.skolems()
        w.ob('C06', 'kernel-references', w.open.val(k['i']) == w.open0.val(k['i']))
    w.prove_inv()


def u_open(ctx, want):
    w, f = setup(ctx, want)
    i = w.held_inode('id')
    t = i.t
    ctx.assume(t != CTRL_INODE)
    flags = ctx.int('flags', lo=0)
    assume_zero_beyond(w, f, t)
    out = w.run('open', i, flags, w.reqctx())
    band = lambda x, c: w.interp.as_int(w.interp.binop('BitAnd', SInt(x), c))
    wr = z3.Or(band(flags.t, os.O_RDWR) != 0, band(flags.t, os.O_WRONLY) != 0)
    locked = z3.Or(w.failsafe0.t, w.st0.t['inodes'].col['locked'](t) != 0)
    if out[0] == 'return':
        w.ob('C08', 'not-opened-for-writing-when-immutable-or-failed', z3.Not(z3.And(locked, wr)))
    k = w.skolems()
    a, c = w.st0.t['inodes'], w.st.t['inodes']
    w.ob('C08', 'nothing-changed-when-refused', z3.Implies(locked, z3.And(
        w.cache0.byte(k['i'], k['b'], k['n']) == w.cache.byte(k['i'], k['b'], k['n']),
        w.cache0.bex(k['i'], k['b']) == w.cache.bex(k['i'], k['b']),
        *[z3.Implies(a.ex(k['i']), a.col[x](k['i']) == c.col[x](k['i'])) for x in a.cols if x != 'atime_ns'])))
    if io_failure(w, out, t):
        return
    ctx.shared.reached.add('ok')
    trunc = band(flags.t, os.O_TRUNC) != 0
    isreg = z3.Function('py_bitand', I, I, I)(a.col['mode'](t), z3.IntVal(0o170000)) == _stat.S_IFREG
    cut = z3.And(trunc, isreg)
    w.ob('C04', 'opened-with-truncation-is-empty', c.col['size'](t) == z3.If(cut, z3.IntVal(0), a.col['size'](t)))
    w.ob('C04', 'open-changes-data-only-by-truncation', w.cache.byte(t, w.q, w.m) == z3.If(
        cut, z3.IntVal(0), w.cache0.byte(t, w.q, w.m)))
    w.ob('C04', 'zero-beyond-size', zero_beyond(w, f, w.cache, w.st, t))
    others_unchanged(w, t)
    same_meta(w, t, ('size', 'mtime_ns', 'ctime_ns'))
    r = out[1]
    fh = w.interp.as_int(r.f.get('fh')) if isinstance(r, Bag) and r.f.get('fh') is not None else None
    w.ob('C04', 'file-handle-is-the-file', z3.BoolVal(False) if fh is None else fh == t)
    w.prove_inv()


def u_lemmas(ctx, want):
    if want is not None and 'C04' not in want:
        return
    S, a, b = (ctx.int(x).t for x in 'Sab')
    ctx.assume(S >= 1)
    ctx.shared.reached.add('ok')
    d = a - b
    ctx.prove('C04.lemma-products-monotonic', z3.Implies(a >= b + 1, S * d >= S))
    ctx.prove('C04.lemma-products-monotonic-2', z3.Implies(a <= b - 1, S * d <= -S))
    ctx.prove('C04.lemma-distribute', S * d == S * a - S * b)


UNITS = [
    ('fs.write', u_write, ('ok', 'raise')),
    ('fs.read', u_read, ('ok', 'raise')),
    ('fs.setattr', u_setattr, ('ok', 'raise')),
    ('fs.open', u_open, ('ok', 'raise')),
    ('fsdata.lemmas', u_lemmas, ()),
]
