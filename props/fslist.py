"""Units for the listing operations of s3ql.fs.Operations (C20, C06): readdir, listxattr, and the argument parser
of control commands is in props.serial."""
from __future__ import annotations
from .fsworld import *
from .fsops import failing
from pyvc.sqlm import SRows


class Trace(Model):
    """What has been handed to the kernel so far, seen through one arbitrary entry and one arbitrary inode."""
    _label = 'replies'

    def __init__(self, start):
        self.count = z3.IntVal(0)       # entries accepted
        self.last = start               # position handed out last
        self.seen = z3.IntVal(0)        # how often the arbitrary entry has been accepted
        self.refs = z3.IntVal(0)        # accepted entries of the arbitrary inode
        self.stopped = z3.BoolVal(False)

    def m_state(self):
        return {k: SInt(getattr(self, k)) for k in ('count', 'last', 'seen', 'refs')} | {'stopped': SBool(self.stopped)}

    def m_havoc(self, i, k):
        setattr(self, k, i.ctx.bool(k).t if k == 'stopped' else i.ctx.int(k).t)


def u_readdir(ctx, want):
    w = World(ctx, want)
    i = w.interp
    d = w.held_dir('fh')
    off = ctx.int('off', lo=0)
    # a position that was handed out before, or the beginning
    ctx.assume(z3.Or(off.t == 0, off.t > 3))
    k = w.skolems()
    n0, t0 = k['n'], k['i']
    con, nm = w.st0.t['contents'], w.st0.t['names']
    # rowids of names are positive (sqlite assigns 1, 2, ...)
    nn = z3.Int('pos_n')
    ctx.axiom(z3.ForAll([nn], z3.Implies(nm.ex(nn), nn >= 1), patterns=[nm.ex(nn)]))
    ctx.assume(z3.Implies(nm.ex(n0), n0 >= 1))
    tr = Trace(off.t)
    ctx.roots['tr'] = tr
    token = ctx.val('token', object)
    P = lambda n, g, info=None: w.ob('C20', n, g, info)

    def reply(it, tok, name, attr, nxt):
        nx, st = i.as_int(nxt), attr.f.get('st_ino') if isinstance(attr, Bag) else None
        ino = i.as_int(st) if st is not None else None
        nid = None
        if ino is None or nx is None:
            raise Unsupported('readdir_reply arguments')
        P('listing.token', z3.BoolVal(tok is token))
        P('listing.not-after-stop', z3.Not(tr.stopped), 'continues after the kernel has stopped the listing')
        P('listing.positions-increase', nx > tr.last, 'positions do not increase')
        P('listing.reserved-positions', nx > 2, 'uses a position reserved by NFS')
        # the entry handed out is a real one
        v = i.as_v(name)
        n = w.st.idof['names'](v)
        for x in (n, nx - 3):
            ctx.assume(w.st0.facts_contents(d.t, x))
            ctx.assume(w.st0.unique_name(x))
        e, t = w.entry(w.st0, d.t, v)
        P('listing.real-entry', z3.And(e, t == ino), 'hands out something that is not an entry of this directory')
        if ctx.branch(ctx.bool('accepted').t, 'accepted'):
            tr.count = tr.count + 1
            tr.last = nx
            tr.seen = z3.simplify(tr.seen + z3.If(n == n0, 1, 0))
            tr.refs = z3.simplify(tr.refs + z3.If(ino == t0, 1, 0))
            return True
        tr.stopped = z3.BoolVal(True)
        return False
    i.bi[pyfuse3.readdir_reply] = reply

    def hints(ii, fr, pre):
        rows = [r for r in ctx.ghost.get('rows', []) if isinstance(r, SRows)]
        if not rows or len(rows[-1].kf) != 1:
            return []
        r = rows[-1]
        m0 = r.member(n0)
        kk = lambda e: e.m('$k')
        return [
            ('not-stopped', lambda e: z3.Not(tr.stopped)),
            ('last', lambda e: z3.If(kk(e) == 0, tr.last == off.t, tr.last == r.kf[0](kk(e) - 1) + 3)),
            ('seen', lambda e: tr.seen == z3.If(z3.And(m0, r.idx(n0) < kk(e)), z3.IntVal(1), z3.IntVal(0))),
            ('refs>=0', lambda e: tr.refs >= 0),
            ('refs', lambda e: w.open.val(t0) == w.open0.val(t0) + tr.refs),
            ('pres', lambda e: w.open.pres(t0) == (w.open.val(t0) > 0)),
            ('root', lambda e: w.open.pres(z3.IntVal(ROOT))),
            ('refs-real', lambda e: z3.Implies(tr.refs > 0, w.st0.t['inodes'].ex(t0)))]
    i.loop_hints['Operations.readdir'] = hints
    out = w.run('readdir', d, off, token)
    kind, v = out
    ctx.shared.reached.add(kind)
    if kind == 'raise':
        P('listing.no-error', z3.BoolVal(False), 'raises %s' % v.cls.__name__)
        return
    ctx.shared.reached.add('stopped' if z3.is_true(z3.simplify(tr.stopped)) else 'end')
    for r in ctx.ghost.get('rows', []):
        if len(r.kf) == 1:
            r.member(n0)
    ent = con.ex(d.t, n0)
    ctx.assume(w.st0.facts_contents(d.t, n0))
    after = z3.Or(off.t == 0, n0 + 3 > off.t)
    P('listing.each-entry-at-most-once', z3.And(tr.seen >= 0, tr.seen <= 1))
    P('listing.nothing-repeated', z3.Implies(tr.seen >= 1, z3.And(ent, after)), 'an entry from before the position is listed again')
    P('listing.complete', z3.Implies(z3.And(ent, after, nm.ex(n0)), (tr.seen == 1) == z3.Or(
        z3.Not(tr.stopped), z3.And(tr.count > 0, n0 + 3 <= tr.last))),
        'an entry is skipped: neither listed now nor by continuing from the last position handed out')
    P('listing.no-count-without-entries', z3.Implies(tr.count == 0, tr.last == off.t))
    w.ob('C06', 'readdir.kernel-references', w.open.val(t0) == w.open0.val(t0) + tr.refs,
         'kernel references do not match the entries handed out')
    w.prove_inv()


def u_listxattr(ctx, want):
    w = World(ctx, want)
    i = w.interp
    t = w.held_inode('inode')
    k = w.skolems()
    n0 = k['n']
    x = w.st0.t['ext_attributes']

    class Names(Model):
        m_type = list

        def __init__(self):
            self.count, self.seen, self.wrong = z3.IntVal(0), z3.IntVal(0), z3.BoolVal(False)

        def m_state(self):
            return dict(count=SInt(self.count), seen=SInt(self.seen), wrong=SBool(self.wrong))

        def m_havoc(self, ii, kk):
            setattr(self, kk, ctx.bool(kk).t if kk == 'wrong' else ctx.int(kk).t)

        def m_len(self):
            return SInt(self.count)

        def append(self, v):
            vt = i.as_v(v)
            n = w.st0.idof['names'](vt)
            ctx.assume(w.st0.facts_xattr(t.t, n))
            ctx.assume(w.st0.unique_name(n))
            pres, _ = w.xattr(w.st0, t.t, vt)
            self.wrong = z3.simplify(z3.Or(self.wrong, z3.Not(pres)))
            self.seen = z3.simplify(self.seen + z3.If(n == n0, 1, 0))
            self.count = self.count + 1
    names = {}

    def lm(path, lst):
        if not lst and path not in names:
            names[path] = Names()
        return names.get(path)
    i.list_model = lm

    def hints(ii, fr, pre):
        rows = ctx.ghost.get('rows', [])
        if not rows or not names or len(rows[-1].kf) != 1:
            return []
        r = rows[-1]
        m0 = r.member(n0)
        out = []
        for nm in names.values():
            out += [('cnt', lambda e, nm=nm: nm.count == e.m('$k')), ('ok', lambda e, nm=nm: z3.Not(nm.wrong)),
                    ('seen', lambda e, nm=nm: nm.seen == z3.If(z3.And(m0, r.idx(n0) < e.m('$k')), z3.IntVal(1), z3.IntVal(0)))]
        return out
    i.loop_hints['Operations.listxattr'] = hints
    kind, v = w.run('listxattr', t, w.reqctx())
    ctx.shared.reached.add(kind)
    P = lambda n, g, info=None: w.ob('C20', n, g, info)
    if kind == 'raise':
        P('xattr-listing.no-error', z3.BoolVal(False), 'raises %s' % v.cls.__name__)
        return
    if isinstance(v, list) and not v:
        v = Names()
    if not isinstance(v, Names):
        raise Unsupported('listxattr result')
    ctx.assume(w.st0.facts_xattr(t.t, n0))
    for r in ctx.ghost.get('rows', []):
        if len(r.kf) == 1:
            r.member(n0)
    P('xattr-listing.real', z3.Not(v.wrong))
    P('xattr-listing.exact', z3.Implies(w.st0.t['names'].ex(n0), v.seen == z3.If(x.ex(t.t, n0), z3.IntVal(1), z3.IntVal(0))),
      'an extended attribute is missing from the listing or listed twice')
    w.prove_inv()


def u_control(ctx, want):
    """Control commands: every command takes effect only with a literal of exactly its type, which is passed on
    unchanged; anything else is refused as invalid (EINVAL) without any effect."""
    w = World(ctx, want)
    i = w.interp
    name, value = ctx.val('name', bytes), ctx.val('value', bytes)
    P = lambda n, g, info=None: w.ob('C20', n, g, info)
    done = []                       # effects
    # what the literal is, seen as a value of a given type (parse_literal's contract, proved in serial.parse_literal*)
    arg = {('int',): [ctx.int('arg')], ('int', 'int'): [ctx.int('a0'), ctx.int('a1')],
           ('int', 'bytes'): [ctx.int('r0'), ctx.val('r1', bytes)], ('int', 'str'): [ctx.int('l0'), ctx.val('l1', str)]}
    shape = ctx.int('shape').t      # which of the types the literal has; anything else: none of them
    keys = list(arg)

    def kind(ts):
        out = []
        for t in ts:
            while hasattr(t, '__supertype__'):
                t = t.__supertype__
            out.append(getattr(t, '__name__', str(t)))
        return tuple(out)

    def parsed(ts, val):
        if val is not value:
            raise Unsupported('parse_literal is applied to something else')
        k = kind(ts)
        if k not in arg:
            P('control.types', z3.BoolVal(False), 'command argument of type %s' % (k,))
            raise PathEnd()
        if not ctx.branch(shape == keys.index(k), 'literal'):
            i.raise_(ValueError, 'literal has wrong type')
        return k

    def pl(it, a, k):
        return arg[parsed((a[1],), a[0])][0]

    def plt(it, a, k):
        return tuple(arg[parsed(tuple(a[1]), a[0])])
    for m in ('s3ql.fs', 's3ql.common'):
        i.contracts[m + '.parse_literal'] = pl
        i.contracts[m + '.parse_literal_tuple'] = plt

    def effect(what):
        def f(it, a, k):
            def run():
                done.append((what, list(a[1:])))
                i.yield_point(what)
            return SCoro(run, what)
        return f
    for n in ('copy_tree', 'lock_tree', 'remove_tree'):
        i.contracts['s3ql.fs.Operations.' + n] = effect(n)

    def logg(it, a, k):
        done.append(('logging', list(a)))
    for m in ('s3ql.fs', 's3ql.logging'):
        i.contracts[m + '.update_logging'] = logg

    class Limits(Model):
        def m_getattr(self, ii, n):
            return ctx.int(n) if n == 'max_size' else NotImplemented

        def m_setattr(self, ii, n, v):
            done.append((n, [v]))

        def m_state(self):
            return {}
    lim = Limits()
    i_get = type(w.cache).m_getattr

    class C(type(w.cache)):
        def m_getattr(self, ii, n):
            if n == 'cache':
                return lim
            r = i_get(self, ii, n)
            if n in ('flush', 'drop', 'start_flush'):
                def f(*a):
                    done.append(('cache.' + n, list(a)))
                    return r(*a)
                return f
            return r
    w.cache.__class__ = C
    before = w.cache.snap()
    out = w.run('setxattr', CTRL_INODE, name, value, w.reqctx())
    kind_, v = out
    ctx.shared.reached.add(kind_)
    is_ = lambda s: name.t == ctx.lit(s)
    known = {b'copy': ('copy_tree', ('int', 'int')), b'lock': ('lock_tree', ('int',)), b'rmtree': ('remove_tree', ('int', 'bytes')),
             b'logging': ('logging', ('int', 'str')), b'cachesize': ('max_size', ('int',))}
    plain = (b's3ql_flushcache!', b's3ql_dropcache!', b'upload-meta')
    if kind_ == 'raise':
        P('control.refusal-kind', z3.BoolVal(is_fuse_error(v)), 'raises %s' % v.cls.__name__)
        en = w.interp.as_int(v.f.get('errno')) if is_fuse_error(v) else None
        if en is not None:
            P('control.refusal-invalid', z3.Or(en == errno.EINVAL, z3.And(is_(b'upload-meta'), en == errno.ENOTTY)),
              'refused with an error that does not say invalid')
        P('control.refused-without-effect', z3.BoolVal(not done), 'a refused command has an effect: %s' % done)
        for n, (_, k) in known.items():
            P('control.valid-accepted', z3.Not(z3.And(is_(n), shape == keys.index(k))), 'a valid %s command is refused' % n.decode())
        P('control.valid-accepted', z3.And([z3.Not(is_(p)) for p in plain[:2]]))
        w.prove_inv()
        return
    P('control.known', z3.Or([is_(n) for n in list(known) + list(plain)]), 'an unknown command is accepted')
    for n, (what, k) in known.items():
        P('control.literal-of-the-type', z3.Implies(is_(n), shape == keys.index(k)), '%s accepts something else' % n.decode())
        if done and done[0][0] == what:
            P('control.right-effect', z3.And(is_(n), z3.BoolVal(len(done) == 1)))
            got = done[0][1]
            exp = arg[k]
            if what == 'logging':
                P('control.argument', i.as_int(got[0]) == exp[0].t, 'level')
            else:
                P('control.argument', z3.And([z3.BoolVal(len(got) == len(exp))] + [
                    (i.as_int(g) == e.t) if isinstance(e, SInt) else (i.as_v(g) == e.t) for g, e in zip(got, exp)]),
                  'the argument is not passed on unchanged')
        else:
            P('control.right-effect', z3.Not(is_(n)), '%s has not its effect' % n.decode())
    for p, what in ((plain[0], 'cache.flush'), (plain[1], 'cache.drop')):
        P('control.right-effect', is_(p) == z3.BoolVal(any(d[0] == what for d in done)), what)
    w.prove_inv()


UNITS = [('control', u_control, ['return', 'raise']),
         ('readdir', u_readdir, ['return', 'stopped', 'end']),
         ('listxattr', u_listxattr, ['return'])]
