"""C14, C15: uploading, downloading and expiring metadata backups (s3ql.database), for every set of stored objects.

The statements are about one arbitrary stored block object (block number b0, version s0) and one arbitrary superblock
(version q0); collections are tracked by whether and where they hold these."""
from __future__ import annotations
import bisect, collections, itertools, math, re
import z3
from pyvc.values import *
from pyvc.core import *
from pyvc.interp import Interp, SIter, BUILTINS
import s3ql.database as D
import s3ql.common as C

I, B = z3.IntSort(), z3.BoolSort()
BIG = 2 ** 52


def decode(t):
    """name term -> (kind, integer terms)"""
    if not z3.is_app(t):
        return None
    nm = t.decl().name()
    args = []
    for a in t.children():
        if not (z3.is_app(a) and a.decl().name() == 'int2v'):
            return None
        args.append(a.arg(0))
    if nm == "fmt_%r_1" % 's3ql_params_%010x':
        return ('P', args)
    if nm == 'fmt_%r_2' % 's3ql_metadata_%012x_%010x':
        return ('B', args)
    return None


class T:
    """the tracked objects"""
    def __init__(self, ctx, i):
        self.ctx, self.i = ctx, i
        self.b0, self.s0, self.q0 = (ctx.int(n, lo=0).t for n in ('b0', 's0', 'q0'))

    def is_tracked(self, v):
        """(is the tracked superblock, is the tracked block object) for a name"""
        d = decode(self.i.as_v(v))
        if d is None:
            raise Unsupported('object name')
        k, a = d
        if k == 'P':
            return a[0] == self.q0, z3.BoolVal(False)
        return z3.BoolVal(False), z3.And(a[0] == self.b0, a[1] == self.s0)


def simp(t):
    return z3.simplify(t)


class Names(Model):
    """list of object names"""
    m_type = list

    def __init__(self, t, init=()):
        self._t = t
        self.p = self.b = z3.BoolVal(False)
        for x in init:
            self.append(x)

    def m_state(self):
        return {'p': SBool(self.p), 'b': SBool(self.b)}

    def m_havoc(self, i, k):
        setattr(self, k, i.ctx.bool('has_' + k).t)

    def append(self, v):
        p, b = self._t.is_tracked(v)
        self.p, self.b = simp(z3.Or(self.p, p)), simp(z3.Or(self.b, b))

    def extend(self, o):
        if isinstance(o, Names):
            self.p, self.b = simp(z3.Or(self.p, o.p)), simp(z3.Or(self.b, o.b))
        elif isinstance(o, (list, tuple)):
            for x in o:
                self.append(x)
        else:
            raise Unsupported('extend')

    def m_binop(self, i, op, o, sw):
        if op != 'Add' or not isinstance(o, (Names, list)):
            return NotImplemented
        r = Names(self._t)
        r.extend(self)
        r.extend(o)
        return r

    def m_len(self):
        # a lower bound is all that is known
        n = self._t.ctx.int('n_names', lo=0)
        self._t.ctx.assume(z3.Implies(z3.Or(self.p, self.b), n.t >= 1))
        return n

    def m_iter(self, i):
        """in some order, names of either kind"""
        raise Unsupported('iteration over names')


class Ints(Model):
    """list of integers: n elements f(0..n-1); `rank`: position of the tracked element if it is in the list"""
    m_type = list

    def __init__(self, t, n, f, points=(), kind=None, asc=False):
        self._t, self.n, self._f, self._points, self._kind, self._asc = t, n, f, list(points), kind, asc

    def m_state(self):
        return {}

    def m_len(self):
        return SInt(self.n)

    def at(self, k):
        return self._f(k)

    def m_iter(self, i):
        it = SIter(self.n, lambda k: i.mkint(self._f(k.t)))
        it.kind, it.list = self._kind, self
        return it

    def m_getitem(self, i, k):
        if isinstance(k, slice):
            if k.step not in (None, 1, -1):
                raise Unsupported('slice step')
            if k.step == -1:
                if k.start is not None or k.stop is not None:
                    raise Unsupported('reversed slice with bounds')
                n, f = self.n, self._f
                return Ints(self._t, n, lambda j: f(simp(n - 1 - j)), [lambda p: n - 1 - p], self._kind)
            lo = i.clamp(k.start, self.n, z3.IntVal(0))
            hi = i.clamp(k.stop, self.n, self.n)
            f = self._f
            n = simp(z3.If(hi > lo, hi - lo, 0))
            return Ints(self._t, n, lambda j: f(simp(lo + j)), [lo], self._kind, self._asc)
        t = i.as_int(k)
        if t is None:
            raise Unsupported('index')
        if not i.ctx.branch(z3.And(t >= -self.n, t < self.n), 'index'):
            i.raise_(IndexError, 'list index out of range')
        return i.mkint(self._f(simp(z3.If(t < 0, t + self.n, t))))

    def m_listcomp(self, i, fr, e):
        g = e.generators[0]
        if len(e.generators) != 1 or g.ifs:
            raise Unsupported('filtered comprehension over a symbolic list')

        def elem(k):
            i.assign(fr, g.target, i.mkint(self._f(k)))
            return i.eval(fr, e.elt)
        t, ctx = self._t, self._t.ctx
        r = Names(t)
        inr = lambda k: z3.And(k >= 0, k < self.n)
        hp, hb = ctx.bool('comp_p').t, ctx.bool('comp_b').t
        # something contained has a position; a position in range is contained
        for h, which in ((hp, 0), (hb, 1)):
            w = ctx.int('w').t
            ctx.assume(z3.Implies(h, z3.And(inr(w), t.is_tracked(elem(w))[which])))
        for c in self.instances():
            p, b = t.is_tracked(elem(c))
            ctx.assume(z3.Implies(z3.And(inr(c), p), hp))
            ctx.assume(z3.Implies(z3.And(inr(c), b), hb))
        r.p, r.b = hp, hb
        return r

    def instances(self):
        """positions of interest: that of the tracked superblock"""
        rk = getattr(self._t, 'rank', None)
        if rk is None:
            return []
        lo = self._points[0] if self._points and not callable(self._points[0]) else z3.IntVal(0)
        return [simp(rk - lo)]

    def sort(self, **k):
        raise Unsupported('sort')


class Seqs(Ints):
    """get_available_seq_nos(): the versions in any order; sort() puts them in order"""
    def __init__(self, t, n, unsorted, inorder):
        super().__init__(t, n, unsorted, kind='versions')
        self._ord = inorder
        self.is_sorted = z3.BoolVal(False)

    def sort(self, **kw):
        if kw:
            raise Unsupported('sort key')
        self._f = self._ord
        self.is_sorted = z3.BoolVal(True)

    def m_state(self):
        return {'is_sorted': SBool(self.is_sorted)}

    def m_sorted(self, i):
        return Ints(self._t, self.n, self._ord, kind='versions')


class Cands(Model):
    """the versions stored of one block (ascending)"""
    m_type = list

    def __init__(self, w, b):
        self._w, self._b = w, b

    def m_state(self):
        return {}

    def m_iter(self, i):
        w, b = self._w, self._b

        def elem(k):
            s = w.cand(b, k.t)
            i.ctx.assume(s >= 0)
            i.ctx.assume(z3.Implies(b == w.t.b0, z3.And(w.haveb, (s == w.t.s0) == z3.And(w.haves, k.t == w.spos))))
            return i.mkint(s)
        it = SIter(w.ncand(b), elem)
        i.ctx.assume(w.ncand(b) >= 0)
        it.kind, it.b = 'cands', b
        return it

    def m_contains(self, i, v):
        s = i.as_int(v)
        r = i.ctx.bool('incands').t
        i.ctx.assume(z3.Implies(z3.And(self._b == self._w.t.b0, s == self._w.t.s0), r == self._w.haves))
        return SBool(r)

    def m_len(self):
        return SInt(self._w.ncand(self._b))


class Blocks(Model):
    """get_block_objects(): block number -> versions"""
    m_type = dict

    def __init__(self, w):
        self._w = w

    def m_state(self):
        return {}

    def m_len(self):
        return SInt(self._w.nblocks)

    def items(self):
        return BlocksView(self._w, 'items')

    def keys(self):
        return BlocksView(self._w, 'keys')

    def values(self):
        return BlocksView(self._w, 'values')

    def m_iter(self, i):
        return BlocksView(self._w, 'keys').m_iter(i)

    def m_getitem(self, i, b):
        return Cands(self._w, i.as_int(b))

    def m_contains(self, i, b):
        r = i.ctx.bool('inblocks').t
        i.ctx.assume(z3.Implies(i.as_int(b) == self._w.t.b0, r == self._w.haveb))
        return SBool(r)


class BlocksView(Model):
    def __init__(self, w, what):
        self._w, self._what = w, what

    def m_state(self):
        return {}

    def m_iter(self, i):
        w = self._w

        def elem(k):
            b = w.block(k.t)
            i.ctx.assume(b >= 0)
            i.ctx.assume((b == w.t.b0) == z3.And(w.haveb, k.t == w.bpos))
            c = Cands(w, b)
            return {'items': (i.mkint(b), c), 'keys': i.mkint(b), 'values': c}[self._what]
        it = SIter(w.nblocks, elem)
        it.kind = 'blocks'
        return it


class Store:
    """what is stored remotely, seen through the tracked objects"""
    def __init__(self, ctx, i):
        self.ctx, self.i = ctx, i
        t = self.t = T(ctx, i)
        self.haveb, self.haves = ctx.bool('haveb').t, ctx.bool('haves').t
        self.nblocks = ctx.int('nblocks', lo=0).t
        self.bpos, self.spos = ctx.int('bpos').t, ctx.int('spos').t
        self.block = ctx.func('block', I, I)
        self.cand = ctx.func('cand', I, I, I)
        self.ncand = ctx.func('ncand', I, I)
        ctx.assume(z3.Implies(self.haveb, z3.And(self.bpos >= 0, self.bpos < self.nblocks, self.block(self.bpos) == t.b0)))
        ctx.assume(z3.Implies(self.haves, z3.And(self.haveb, self.spos >= 0, self.spos < self.ncand(t.b0),
                                                 self.cand(t.b0, self.spos) == t.s0)))
        # first_le_than (proved in metadata.first_le_than): newest candidate not newer than the threshold
        self.found = z3.Function('newest_exists', I, I, B)
        self.newest = z3.Function('newest', I, I, I)

    def flt(self, it, a, k):
        seq, thr = a
        v = it.as_int(thr)
        if not isinstance(seq, Cands) or v is None:
            raise Unsupported('first_le_than arguments')
        b = seq._b
        if not self.ctx.branch(self.found(b, v), 'found'):
            it.raise_(ValueError, 'No element')
        r = self.newest(b, v)
        self.ctx.assume(z3.And(r >= 0, r <= v))
        self.ctx.assume(z3.Implies(z3.And(b == self.t.b0, r == self.t.s0), self.haves))
        return it.mkint(r)


class Keep(Model):
    """dictionary of sets of versions, by block"""
    m_type = dict

    def __init__(self, w):
        self._w = w
        self.has = z3.BoolVal(False)
        self.why = z3.IntVal(-1)        # the version for which the tracked object was last added

    def m_state(self):
        return {'has': SBool(self.has), 'why': SInt(self.why)}

    def m_havoc(self, i, k):
        setattr(self, k, i.ctx.bool('keeps').t if k == 'has' else i.ctx.int('why').t)

    def m_getitem(self, i, b):
        return KeepSet(self, i.as_int(b))

    def m_getattr(self, i, n):
        if n == 'get':
            return lambda b, d=None: KeepSet(self, i.as_int(b))
        if n == 'setdefault':
            return lambda b, d=None: KeepSet(self, i.as_int(b))
        return NotImplemented

    def m_setitem(self, i, b, v):
        raise Unsupported('replacing a set')


class KeepSet(Model):
    m_type = set

    def __init__(self, k, b):
        self._k, self._b = k, b

    def m_state(self):
        return {}

    def add(self, v):
        k = self._k
        w = k._w
        s = w.i.as_int(v)
        if s is None:
            raise Unsupported('version')
        hit = z3.And(self._b == w.t.b0, s == w.t.s0)
        why = s.arg(1) if z3.is_app(s) and s.decl().name() == 'newest' else z3.IntVal(-1)
        k.has, k.why = simp(z3.Or(k.has, hit)), simp(z3.If(hit, why, k.why))

    def m_contains(self, i, v):
        w = self._k._w
        s = i.as_int(v)
        r = i.ctx.bool('inset').t
        i.ctx.assume(z3.Implies(z3.And(self._b == w.t.b0, s == w.t.s0), r == self._k.has))
        return SBool(r)


def real_fn(name):
    return getattr(D, name)


def u_expire(ctx, want):
    i = Interp(ctx)
    i.auto_invariants = False
    w = Store(ctx, i)
    t = w.t
    P = lambda n, g, info=None: ctx.prove('C15.' + n, g, info=info)
    # the versions
    n = ctx.int('nversions', lo=0).t
    un, V_ = ctx.func('anyorder', I, I), ctx.func('version', I, I)
    rankf = ctx.func('rank', I, I)
    haveq = ctx.bool('haveq').t
    t.rank = ctx.int('rank').t
    ctx.assume(z3.Implies(haveq, z3.And(t.rank >= 0, t.rank < n, V_(t.rank) == t.q0)))
    ctx.assume(z3.Implies(z3.Not(haveq), t.rank == -1))
    a, b = z3.Ints('va vb')
    ctx.axiom(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < n), V_(a) < V_(b)),
                        patterns=[z3.MultiPattern(V_(a), V_(b))]))
    ctx.axiom(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n), z3.And(V_(a) >= 0, z3.Implies(z3.Not(haveq), V_(a) != t.q0),
                                                                      rankf(V_(a)) == a)), patterns=[V_(a)]))
    ctx.axiom(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < n), z3.And(un(a) >= 0, z3.Implies(z3.Not(haveq), un(a) != t.q0))),
                        patterns=[un(a)]))
    m = ctx.int('versions_to_keep', lo=1)
    SZ, BS = ctx.func('db_size', I, I), ctx.func('blocksize', I, I)

    def contr(r):
        return SCoro(lambda: r, 'contract')
    i.contracts['s3ql.database.get_block_objects'] = lambda it, a_, k: contr(Blocks(w))
    i.contracts['s3ql.database.get_available_seq_nos'] = lambda it, a_, k: contr(Seqs(t, n, un, V_))
    i.contracts['s3ql.database.first_le_than'] = w.flt

    def params(it, a_, k):
        def run():
            v = it.as_int(a_[1] if len(a_) > 1 else k.get('seq_no'))
            if v is None:
                raise Unsupported('read_remote_params without version')
            if ctx.choose(2, 'readable') == 1:
                it.raise_(RuntimeError, 'unreadable')
            o = SObj(D.FsAttributes, {f: None for f in D.FsAttributes.__dataclass_fields__})
            o.f.update(seq_no=it.mkint(v), db_size=it.mkint(SZ(v)), metadata_block_size=it.mkint(BS(v)))
            ctx.assume(z3.And(SZ(v) >= 0, SZ(v) < BIG, BS(v) > 0))
            return o
        return SCoro(run, 'read_remote_params')
    i.contracts['s3ql.database.read_remote_params'] = params
    
    def keep(ii, *a_):
        if 'keep' in ctx.ghost:
            raise Unsupported('second dictionary')
        ctx.ghost['keep'] = Keep(w)
        return ctx.ghost['keep']
    i.bi[collections.defaultdict] = keep
    i.bi[sorted] = lambda ii, x, **k: x.m_sorted(ii) if isinstance(x, Seqs) and not k else BUILTINS[sorted](ii, x, **k)

    class Backend(Model):
        _label = 'backend'

        def __init__(self):
            self.p = self.b = z3.BoolVal(False)

        def m_state(self):
            return {'p': SBool(self.p), 'b': SBool(self.b)}

        def m_havoc(self, ii, k):
            setattr(self, k, ctx.bool('removed_' + k).t)

        def delete_multi(self, keys, **kw):
            def run():
                if isinstance(keys, (list, tuple)):
                    nm = Names(t, keys)
                elif isinstance(keys, Names):
                    nm = keys
                else:
                    raise Unsupported('delete_multi argument')
                self.p, self.b = simp(z3.Or(self.p, nm.p)), simp(z3.Or(self.b, nm.b))
            return SCoro(run, 'delete_multi')

        def delete(self, key):
            def run():
                p, b_ = t.is_tracked(key)
                self.p, self.b = simp(z3.Or(self.p, p)), simp(z3.Or(self.b, b_))
            return SCoro(run, 'delete')
    be = Backend()
    ctx.roots['be'] = be
    lists = {}

    def lm(path, lst):
        if path not in lists:
            lists[path] = Names(t, lst) if isinstance(lst, list) else None
        return lists[path]
    i.list_model = lm
    # one arbitrary retained version
    j0 = ctx.int('j0').t
    mt = m.t
    lo = z3.If(n > mt, n - mt, 0)
    ctx.assume(z3.And(j0 >= lo, j0 < n))
    v0 = V_(j0)
    ctx.assume(z3.And(v0 >= 0, SZ(v0) >= 0, SZ(v0) < BIG, BS(v0) > 0))
    used = lambda v: t.b0 * BS(v) < SZ(v)
    q0kept = z3.And(haveq, t.rank >= lo)
    needed0 = z3.And(w.haveb, used(v0), w.newest(t.b0, v0) == t.s0, w.found(t.b0, v0))

    def hints(ii, fr, pre):
        it = ii.cur_iter
        kind = getattr(it, 'kind', None)
        kk = lambda e: e.m('$k')
        keeps = [v for v in fr.locals.values() if isinstance(v, Keep)]
        names = [v for v in fr.locals.values() if isinstance(v, Names)]
        out = []
        if not keeps:
            return out
        kp = keeps[0]
        out.append(('why-kept', lambda e: z3.Implies(kp.has, z3.And(
            rankf(kp.why) >= lo, rankf(kp.why) < n, V_(rankf(kp.why)) == kp.why, used(kp.why),
            w.newest(t.b0, kp.why) == t.s0))))
        out.append(('keeps-listed', lambda e: z3.Implies(kp.has, w.haves)))
        if kind == 'versions':
            out.append(('kept-all', lambda e: z3.Implies(z3.And(needed0, j0 - lo < kk(e)), kp.has)))
            out.append(('unchanged-old', lambda e: z3.BoolVal(True)))
        if kind == 'blocks':
            had, cur = kp.has, fr.locals.get('seq_no')
            curt = ii.as_int(cur) if isinstance(cur, (int, SInt)) else None
            out.append(('only-added', lambda e: z3.Implies(had, kp.has)))
            out.append(('same-as-before', lambda e: kp.has == had))
            if curt is not None:
                for d in {id(x): x for x in (curt, v0)}.values():
                    out.append(('kept-cur%d' % (d is v0), lambda e, d=d: z3.Implies(z3.And(
                        needed0, curt == v0, w.bpos < kk(e)), kp.has)))
            for x, nm in enumerate(names):
                was = nm.b
                out.append(('removed%d' % x, lambda e, nm=nm: nm.b == z3.And(w.haves, w.bpos < kk(e), z3.Not(kp.has))))
                out.append(('removed-none%d' % x, lambda e, nm=nm: z3.Not(nm.b)))
                out.append(('removed-same%d' % x, lambda e, nm=nm, was=was: nm.b == was))
        if kind == 'cands':
            for x, nm in enumerate(names):
                out.append(('removed-c%d' % x, lambda e, nm=nm: z3.If(
                    it.b == t.b0, nm.b == z3.And(w.haves, w.spos < kk(e), z3.Not(kp.has)), z3.BoolVal(True))))
                was = nm.b
                out.append(('removed-o%d' % x, lambda e, nm=nm, was=was: z3.Implies(it.b != t.b0, nm.b == was)))
                out.append(('removed-s%d' % x, lambda e, nm=nm, was=was: nm.b == was))
        for x, nm in enumerate(names):
            p0 = nm.p
            out.append(('params%d' % x, lambda e, nm=nm, p0=p0: nm.p == p0))
        return out
    i.loop_hints['expire_objects'] = hints
    f = i.ifunc_by_name(D, 'expire_objects')
    try:
        i.await_(i.call(f, [be, m], {}))
        kind = 'return'
    except PyRaise as e:
        kind = 'raise'
        exc = e.value
    ctx.shared.reached.add(kind)
    if kind == 'raise':
        P('error-removes-nothing', z3.Not(z3.Or(be.p, be.b)), 'fails after removing something')
        # only when a superblock cannot be read or a version is incomplete
        return
    P('retained-complete', z3.Implies(z3.And(needed0, w.haves), z3.Not(be.b)),
      'a block that a download of a retained version uses is removed')
    P('newest-kept', z3.Implies(q0kept, z3.Not(be.p)), 'a superblock of one of the newest versions is removed')
    P('old-superblocks-removed', z3.Implies(z3.And(haveq, t.rank < lo), be.p), 'the superblock of an expired version stays')
    P('removes-only-present', z3.And(z3.Implies(be.b, w.haves), z3.Implies(be.p, haveq)))
    kp = ctx.ghost.get('keep')
    ok = lambda j: z3.And(j >= lo, j < n, used(V_(j)), w.newest(t.b0, V_(j)) == t.s0)
    wv = z3.Int('wj')
    some = ok(rankf(kp.why)) if kp else z3.Exists([wv], ok(wv))
    # unneeded blocks go: if the object stays, some retained version uses it
    P('unneeded-removed', z3.Implies(z3.And(w.haves, z3.Not(be.b)), some), 'a block object that no retained version needs stays')


def u_first_le_than(ctx, want):
    i = Interp(ctx)
    i.auto_invariants = False
    P = lambda p, n, g, info=None: ctx.prove(p + '.' + n, g, info=info)

    class TT:
        pass
    tt = TT()
    tt.ctx, tt.i = ctx, i
    n = ctx.int('n', lo=0).t
    f = ctx.func('seq', I, I)
    a, b = z3.Ints('fa fb')
    ctx.axiom(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b < n), f(a) <= f(b)),
                        patterns=[z3.MultiPattern(f(a), f(b))]))
    j0 = ctx.int('j0').t
    ctx.assume(z3.And(j0 >= 0, j0 < n))
    ctx.assume(f(j0) == f(j0))
    thr = ctx.int('threshold')
    seq = Ints(tt, n, f, kind='seq')

    def hints(ii, fr, pre):
        it = ii.cur_iter
        out = []
        if getattr(it, 'list', None) is not None:
            out += [('passed', lambda e: z3.Implies(j0 > n - 1 - e.m('$k'), f(j0) > thr.t)),
                    ('passed-fwd', lambda e: z3.Implies(j0 < e.m('$k'), f(j0) <= thr.t))]
        nums = [p for p, x in pre.items() if x[0] == 'l' and x[1] is fr and (x[3] is None or isinstance(x[3], (int, SInt)))
                and not isinstance(x[3], bool)]
        for p in nums:
            # a position: everything behind it is too new, or everything before it is acceptable
            out += [(p + ' range', lambda e, p=p: z3.And(e.m(p) >= -1, e.m(p) < n)), (p + ' range1', lambda e, p=p: z3.And(e.m(p) >= 0, e.m(p) <= n)),
                    (p + ' range2', lambda e, p=p: z3.And(e.m(p) >= 1, e.m(p) <= n + 1)),
                    (p + ' behind', lambda e, p=p: z3.Implies(j0 > e.m(p), f(j0) > thr.t)),
                    (p + ' behind1', lambda e, p=p: z3.Implies(j0 >= e.m(p), f(j0) > thr.t)),
                    (p + ' back', lambda e, p=p: z3.Implies(j0 > n - e.m(p), f(j0) > thr.t)),
                    (p + ' back1', lambda e, p=p: z3.Implies(j0 >= n - e.m(p), f(j0) > thr.t)),
                    (p + ' last', lambda e, p=p: z3.Or(e.m(p) <= 0, f(e.m(p) - 1) <= thr.t)),
                    (p + ' before', lambda e, p=p: z3.Implies(j0 < e.m(p), f(j0) <= thr.t))]
            out += [('%s<=%s' % (p, q), lambda e, p=p, q=q: e.m(p) <= e.m(q)) for q in nums if q != p]

            # the best element so far
            def best(e, p=p):
                v = e.v(p)
                if it is None:
                    raise Unsupported('position')
                past = j0 < e.m('$k')
                if v is None:
                    return z3.Implies(past, f(j0) > thr.t)
                x, v = z3.Int('wk'), i.as_int(v)
                return z3.And(v <= thr.t, z3.Implies(z3.And(past, f(j0) <= thr.t), f(j0) <= v), z3.Exists([x], z3.And(0 <= x, x < n, f(x) == v)))
            out.append((p + ' best', best))
        return out
    i.loop_hints['first_le_than'] = hints
    i.bi[reversed] = lambda ii, x: x.m_getitem(ii, slice(None, None, -1)) if isinstance(x, Ints) else BUILTINS[reversed](ii, x)

    def bisect_right(ii, x, v):
        if x is not seq:
            raise Unsupported('bisect')
        r, v = ctx.int('bisect').t, ii.as_int(v)
        ctx.assume(z3.And(r >= 0, r <= n))
        ctx.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < r), f(a) <= v), patterns=[f(a)]))
        ctx.assume(z3.ForAll([a], z3.Implies(z3.And(r <= a, a < n), f(a) > v), patterns=[f(a)]))
        return SInt(r)
    i.bi[bisect.bisect_right] = i.bi[bisect.bisect] = bisect_right
    fn = i.ifunc_by_name(D, 'first_le_than')
    try:
        r = i.run_function(fn, [seq, thr], {})
    except PyRaise as e:
        r = ('raise', e.value)
    kind, v = r
    ctx.shared.reached.add(kind)
    for p in ('C14', 'C15'):
        if kind == 'raise':
            P(p, 'newest.error', z3.BoolVal(v.cls is ValueError), 'raises %s' % v.cls.__name__)
            P(p, 'newest.none', f(j0) > thr.t, 'an acceptable version is not found')
        else:
            r_ = i.as_int(v)
            P(p, 'newest.limit', r_ <= thr.t, 'a version newer than the threshold is used')
            P(p, 'newest.newest', z3.Implies(f(j0) <= thr.t, f(j0) <= r_), 'not the newest acceptable version')
            x = z3.Int('wk')
            P(p, 'newest.member', z3.Exists([x], z3.And(0 <= x, x < n, f(x) == r_)))


UNITS = [('metadata.expire', u_expire, ['return', 'raise']),
         ('metadata.first_le_than', u_first_le_than, ['return', 'raise'])]
