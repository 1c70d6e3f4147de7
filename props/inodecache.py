"""C12: contract of InodeCache (what props/fsworld.SInodes assumes) proved for the real class."""
from __future__ import annotations
import z3
from pyvc.values import *
from pyvc.core import *
from pyvc.interp import Interp, BUILTINS
from pyvc.sqlm import SDb, DbState
from pyvc.heapm import *
from pyvc.pymodels import Bag
import s3ql.inode_cache as ic
import pyfuse3
from s3ql.database import NoSuchRowError

COLS = ('mode', 'refcount', 'uid', 'gid', 'size', 'locked', 'rdev', 'atime_ns', 'mtime_ns', 'ctime_ns')


class W:
    def __init__(self, ctx, want=None):
        self.ctx = ctx
        self.want = want
        self.i = i = Interp(ctx)
        self.st = DbState(ctx)
        self.db = SDb(i, self.st, NoSuchRowError)
        ctx.roots['db'] = self.db
        kinds = {c: 'int' for c in COLS + ('id', 'generation')}
        kinds['dirty'] = 'bool'
        self.heap = Heap(i, ic._Inode, kinds, 'inode')
        self.attrs = HMap(i, 'attrs', 'int', ('ref', self.heap))
        n = ctx.int('nrows', lo=1).t
        ctx.assume(n == ic.CACHE_SIZE)
        self.NONE = z3.IntVal(-1)
        self.rows = HList(i, 'rows', ('opt', 'int', self.NONE), n)
        self.pos = ctx.int('pos', lo=0)
        ctx.assume(self.pos.t < n)
        self.gen = ctx.int('generation')
        self.obj = SObj(ic.InodeCache, dict(attrs=self.attrs, cached_rows=self.rows, db=self.db, generation=self.gen,
                                            pos=self.pos))
        ctx.roots['icache'] = self.obj
        pf = z3.Function('rowpos', I, I)
        self.posof = lambda k: pf(k)
        k = z3.Int('ax_k')
        p = z3.Int('ax_p')
        ctx.axiom(z3.ForAll([k], self.inv(k), patterns=[self.attrs.dom(k)]))
        # nothing is stored under a negative id
        ctx.axiom(z3.ForAll([k], z3.Implies(self.st.t['inodes'].ex(k), k >= 0), patterns=[self.st.t['inodes'].ex(k)]))
        self.st0 = self.st.snap()
        self.h0 = dict(self.heap._fn)
        self.al0 = self.heap._alloc
        self.dom0, self.val0 = self.attrs._dom, self.attrs._val
        self.rows0 = self.rows._at
        self.i.bi[pyfuse3.EntryAttributes] = lambda i: Bag(pyfuse3.EntryAttributes)

    def tab(self):
        return self.st.t['inodes']

    def inv(self, k, posof=None):
        """class invariant at inode number k"""
        h, m, t = self.heap, self.attrs, self.tab()
        r = m.val(k)
        return z3.Implies(m.dom(k), z3.And(
            r > 0, h.alloc(r), h.fld('id', r) == k, t.ex(k),
            (posof or self.posof)(k) >= 0, (posof or self.posof)(k) < self.rows._n,
            self.rows.at((posof or self.posof)(k)) == k,
            z3.Implies(z3.Not(h.fld('dirty', r)), z3.And([h.fld(c, r) == t.col[c](k) for c in COLS]))))

    def inv_now(self, k):
        """as inv, with some witness position"""
        h, m, t = self.heap, self.attrs, self.tab()
        r = m.val(k)
        p = z3.Int('wit_p')
        return z3.Implies(m.dom(k), z3.And(
            r > 0, h.alloc(r), h.fld('id', r) == k, t.ex(k),
            z3.Or(*[z3.And(q >= 0, q < self.rows._n, self.rows.at(q) == k) for q in self.witnesses(k)]),
            z3.Implies(z3.Not(h.fld('dirty', r)), z3.And([h.fld(c, r) == t.col[c](k) for c in COLS]))))

    def witnesses(self, k):
        return [self.posof(k), self.pos.t]

    def view(self, c, k, old=False):
        if old:
            return z3.If(self.dom0(k), self.h0[c](self.val0(k)), self.st0.t['inodes'].col[c](k))
        return z3.If(self.attrs.dom(k), self.heap.fld(c, self.attrs.val(k)), self.tab().col[c](k))

    def ex0(self, k):
        return self.st0.t['inodes'].ex(k)

    def ob(self, name, g, info=None):
        self.ctx.prove('C12.' + name, g, info=info)

    def skolem(self, name='k'):
        k = self.ctx.int(name, lo=0).t
        # bring the initial invariant into scope at the skolem constant
        self.ctx.assume(z3.Implies(self.dom0(k), z3.And(self.val0(k) > 0, self.h0['id'](self.val0(k)) == k, self.ex0(k))))
        return k

    def unchanged(self, k, but=None, ex=True):
        g = z3.And([self.view(c, k) == self.view(c, k, True) for c in COLS])
        if ex:
            g = z3.And(g, self.tab().ex(k) == self.ex0(k))
        if but is not None:
            g = z3.Implies(k != but, g)
        return g

    def prove_frame(self, name, but=None):
        k = self.skolem()
        self.ob(name + '.other-values-kept', z3.Implies(self.ex0(k), self.unchanged(k, but)),
                'attributes of some other inode (or the same one) change')
        self.ob(name + '.invariant', self.inv_now(k), 'cache invariant broken for some inode')
        self.ob(name + '.ring-position', z3.And(self.i.as_int(self.obj.f['pos']) >= 0,
                                                self.i.as_int(self.obj.f['pos']) < self.rows._n))
        self.ob(name + '.ring-size', self.rows._n == ic.CACHE_SIZE)

    def call(self, name, *a, **kw):
        self.ctx.shared.functions.add('s3ql.inode_cache.InodeCache.' + name)
        fn = self.i.find_method(ic.InodeCache, name)
        return self.i.run_function(Bound(fn, self.obj), list(a), kw)

    def inode_id(self, name='id'):
        return self.ctx.int(name, lo=0)


def is_ref(v):
    return isinstance(v, HRef)


def u_getitem(ctx, want):
    w = W(ctx)
    x = w.inode_id()
    k, v = w.call('__getitem__', x)
    ctx.shared.reached.add(k)
    if k == 'return':
        if not is_ref(v):
            ctx.fail('C12.getitem.result', 'not an inode')
            return
        w.ob('getitem.exists', w.ex0(x.t))
        w.ob('getitem.cached', z3.And(w.attrs.dom(x.t), w.attrs.val(x.t) == v.t),
             'the returned object is not the cached one: later changes would be lost')
        w.ob('getitem.values', z3.And([w.heap.fld(c, v.t) == w.view(c, x.t, True) for c in COLS]),
             'attributes differ from the most recently set values')
        w.ob('getitem.id', w.heap.fld('id', v.t) == x.t)
    else:
        w.ob('getitem.keyerror', z3.And(z3.BoolVal(v.cls is KeyError), z3.Not(w.ex0(x.t))), 'raises %s' % v.cls.__name__)
    w.prove_frame('getitem')
    # objects that stay cached are the same objects
    j = w.skolem('j')
    w.ob('getitem.same-object', z3.Implies(z3.And(w.dom0(j), w.attrs.dom(j)), w.attrs.val(j) == w.val0(j)),
         'a cached inode object is replaced by another one: changes through the first are lost')


def u_getattr(ctx, want):
    w = W(ctx)
    x = w.inode_id()
    k, v = w.call('getattr', x)
    ctx.shared.reached.add(k)
    if k == 'return':
        if not is_ref(v):
            ctx.fail('C12.getattr.result', 'not an inode')
            return
        w.ob('getattr.values', z3.And([w.heap.fld(c, v.t) == w.tab().col[c](x.t) for c in COLS] +
                                      [w.heap.fld('id', v.t) == x.t, z3.Not(w.heap.fld('dirty', v.t)),
                                       w.heap.fld('generation', v.t) == w.gen.t]))
    else:
        w.ob('getattr.error', z3.And(z3.BoolVal(v.cls is NoSuchRowError), z3.Not(w.ex0(x.t))))
    w.prove_frame('getattr')


def u_delitem(ctx, want):
    w = W(ctx)
    x = w.inode_id()
    k, v = w.call('__delitem__', x)
    ctx.shared.reached.add(k)
    j = w.skolem()
    if k == 'return':
        w.ob('delitem.existed', w.ex0(x.t))
        w.ob('delitem.gone', z3.And(z3.Not(w.tab().ex(x.t)), z3.Not(w.attrs.dom(x.t))),
             'the inode is still cached or stored after deletion')
        w.ob('delitem.others', z3.Implies(j != x.t, w.tab().ex(j) == w.ex0(j)))
        w.ob('delitem.clean', z3.Implies(w.dom0(x.t), z3.Not(w.heap.fld('dirty', w.val0(x.t)))))
        w.prove_frame('delitem', but=x.t)
    else:
        w.ob('delitem.keyerror', z3.And(z3.BoolVal(v.cls is KeyError), z3.Not(w.ex0(x.t))))
        w.prove_frame('delitem')


def u_setattr(ctx, want):
    w = W(ctx)
    x = w.inode_id()
    ctx.assume(w.attrs.dom(x.t))
    ctx.assume(w.inv(x.t))
    r = HRef(w.heap, w.attrs.val(x.t))
    k, v = w.call('setattr', r)
    ctx.shared.reached.add(k)
    w.ob('setattr.returns', z3.BoolVal(k == 'return'))
    w.ob('setattr.stored', z3.And([w.tab().col[c](x.t) == w.view(c, x.t, True) for c in COLS]),
         'a changed attribute is not written')
    w.ob('setattr.clean', z3.Not(w.heap.fld('dirty', r.t)))
    j = w.skolem('j')
    w.ob('setattr.only-this-row', z3.Implies(j != x.t, z3.And([w.tab().col[c](j) == w.st0.t['inodes'].col[c](j) for c in COLS])),
         'attributes of another file are overwritten')
    w.prove_frame('setattr')


def u_flush_id(ctx, want):
    w = W(ctx)
    x = w.inode_id()
    k, v = w.call('flush_id', x)
    ctx.shared.reached.add(k)
    w.ob('flush_id.returns', z3.BoolVal(k == 'return'))
    w.ob('flush_id.stored', z3.Implies(w.ex0(x.t), z3.And([w.tab().col[c](x.t) == w.view(c, x.t, True) for c in COLS])),
         'a changed attribute is not written by flush_id')
    w.prove_frame('flush_id')


def flush_hints(w, kill):
    def hints(i, fr, pre):
        k = z3.Int('h_k')
        p = z3.Int('h_p')

        def view(e):
            return z3.ForAll([k], z3.Implies(z3.And(k >= 0, w.ex0(k)), w.unchanged(k)), patterns=pats(w.dom0(k), w.attrs.dom(k)))

        def exs(e):
            return z3.ForAll([k], w.tab().ex(k) == w.ex0(k), patterns=pats(w.ex0(k), w.tab().ex(k)))

        def inv(e):
            return z3.ForAll([k], w.inv(k), patterns=pats(w.attrs.dom(k), w.dom0(k)))

        def done(e):
            kk = e.m('$k')
            h, m = w.heap, w.attrs
            return z3.ForAll([k], z3.Implies(z3.And(m.dom(k), w.posof(k) < kk), z3.Not(h.fld('dirty', m.val(k)))),
                             patterns=pats(w.posof(k), w.attrs.dom(k)))

        def gone(e):
            kk = e.m('$k')
            return z3.ForAll([k], z3.Implies(w.attrs.dom(k), w.posof(k) >= kk), patterns=pats(w.posof(k), w.attrs.dom(k)))

        def domsub(e):
            return z3.ForAll([k], z3.Implies(w.attrs.dom(k), z3.And(w.dom0(k), w.attrs.val(k) == w.val0(k))),
                             patterns=pats(w.dom0(k), w.attrs.dom(k)))

        def domeq(e):
            return z3.ForAll([k], z3.And(w.attrs.dom(k) == w.dom0(k), w.attrs.val(k) == w.val0(k)), patterns=pats(w.dom0(k), w.attrs.dom(k)))

        def rowsrest(e):
            kk = e.m('$k')
            return z3.ForAll([p], z3.Implies(p >= kk, w.rows.at(p) == w.rows0(p)), patterns=pats(w.rows0(p), w.rows.at(p)))

        def rowsnone(e):
            kk = e.m('$k')
            return z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < kk), w.rows.at(p) == w.NONE), patterns=pats(w.rows0(p), w.rows.at(p)))

        def killed(e):
            # everything that was dropped has its value in the table
            return z3.ForAll([k], z3.Implies(z3.And(w.dom0(k), z3.Not(w.attrs.dom(k))),
                                             z3.And([w.tab().col[c](k) == w.view(c, k, True) for c in COLS])),
                             patterns=pats(w.dom0(k), w.attrs.dom(k)))
        return [('view', view), ('exists', exs), ('inv', inv), ('done', done), ('gone', gone), ('domsub', domsub),
                ('domeq', domeq), ('rowsrest', rowsrest), ('rowsnone', rowsnone), ('killed', killed)]
    return hints


def u_flush(ctx, want):
    w = W(ctx)
    w.i.loop_hints['InodeCache.'] = flush_hints(w, False)
    k, v = w.call('flush')
    ctx.shared.reached.add(k)
    w.ob('flush.returns', z3.BoolVal(k == 'return'), 'raises %s' % (v.cls.__name__ if k == 'raise' else ''))
    if k != 'return':
        return
    j = w.skolem('j')
    ctx.assume(z3.Implies(w.attrs.dom(j), z3.And(w.posof(j) >= 0, w.posof(j) < w.rows._n)))
    w.ob('flush.stored', z3.Implies(w.ex0(j), z3.And([w.tab().col[c](j) == w.view(c, j, True) for c in COLS])),
         'a changed attribute of some inode is not written by flush')
    w.prove_frame('flush')


def _destroy(name):
    def u(ctx, want):
        w = W(ctx)
        w.i.loop_hints['InodeCache.'] = flush_hints(w, True)
        k, v = w.call(name)
        ctx.shared.reached.add(k)
        w.ob(name + '.returns', z3.BoolVal(k == 'return'), 'raises %s' % (v.cls.__name__ if k == 'raise' else ''))
        if k != 'return':
            return
        j = w.skolem('j')
        w.ob(name + '.stored', z3.Implies(w.ex0(j), z3.And([w.tab().col[c](j) == w.view(c, j, True) for c in COLS])),
             'a changed attribute of some inode is lost')
        w.ob(name + '.empty', z3.Not(w.attrs.dom(j)))
        w.prove_frame(name)
    return u


def u_create(ctx, want):
    w = W(ctx)
    kw = {c: ctx.int('v_' + c) for c in COLS if c not in ('size', 'rdev', 'locked') or ctx.choose(2, 'with') }
    k, v = w.call('create_inode', **kw)
    ctx.shared.reached.add(k)
    w.ob('create.returns', z3.BoolVal(k == 'return'))
    if k != 'return' or not is_ref(v):
        return
    n = w.heap.fld('id', v.t)
    dflt = {'size': 0, 'rdev': 0, 'locked': 0}
    w.ob('create.new', z3.Not(w.ex0(n)))
    w.ob('create.cached', z3.And(w.attrs.dom(n), w.attrs.val(n) == v.t, w.tab().ex(n)))
    w.ob('create.values', z3.And([w.heap.fld(c, v.t) == (kw[c].t if c in kw else dflt[c]) for c in COLS]),
         'the new file does not have the given attributes')
    w.prove_frame('create', but=n)


def u_mark(ctx, want):
    """every assignment to an attribute marks the object for writing"""
    w = W(ctx)
    x = w.inode_id()
    ctx.assume(w.attrs.dom(x.t))
    ctx.assume(w.inv(x.t))
    r = HRef(w.heap, w.attrs.val(x.t))
    c = COLS[ctx.choose(len(COLS), 'col')]
    v = ctx.int('new')
    ctx.shared.functions.add('s3ql.inode_cache._Inode.__setattr__')
    w.i.setattr(r, c, v)
    ctx.shared.reached.add('return')
    w.ob('assign.value', w.heap.fld(c, r.t) == v.t)
    w.ob('assign.dirty', w.heap.fld('dirty', r.t), 'changing %s does not mark the inode as changed' % c)
    w.ob('assign.others', z3.And([w.heap.fld(o, r.t) == w.h0[o](r.t) for o in COLS + ('id',) if o != c]))
    j = ctx.int('other').t
    w.ob('assign.other-inodes', z3.Implies(j != r.t, z3.And([w.heap.fld(o, j) == w.h0[o](j) for o in COLS])))
    w.ob('assign.invariant', w.inv_now(x.t))


def u_copy(ctx, want):
    w = W(ctx)
    x = w.inode_id()
    ctx.assume(w.attrs.dom(x.t))
    ctx.assume(w.inv(x.t))
    ctx.assume(w.heap.alloc(w.attrs.val(x.t)))
    r = HRef(w.heap, w.attrs.val(x.t))
    try:
        v = w.i.call(w.i.getattr(r, 'copy'), [], {})
    except PyRaise:
        ctx.fail('C12.copy', 'raises')
        return
    ctx.shared.reached.add('return')
    w.ob('copy.values', z3.And([w.heap.fld(c, v.t) == w.view(c, x.t, True) for c in COLS] + [w.heap.fld('id', v.t) == x.t, v.t != r.t]))
    w.prove_frame('copy')


def u_entry(ctx, want):
    w = W(ctx)
    x = w.inode_id()
    ctx.assume(w.attrs.dom(x.t))
    ctx.assume(w.inv(x.t))
    r = HRef(w.heap, w.attrs.val(x.t))
    try:
        a = w.i.call(w.i.getattr(r, 'entry_attributes'), [], {})
    except PyRaise:
        ctx.fail('C12.entry', 'raises')
        return
    ctx.shared.reached.add('return')
    g = lambda n: w.i.as_int(a.m_getattr(w.i, n)) if n in a.f else z3.IntVal(-99)
    for st, c in (('st_nlink', 'refcount'), ('st_ino', 'id'), ('st_mode', 'mode'), ('st_uid', 'uid'), ('st_gid', 'gid'),
                  ('st_size', 'size'), ('st_rdev', 'rdev'), ('st_atime_ns', 'atime_ns'), ('st_mtime_ns', 'mtime_ns'),
                  ('st_ctime_ns', 'ctime_ns'), ('generation', 'generation')):
        w.ob('entry.' + st, g(st) == w.h0[c](r.t), 'reported %s differs from the stored %s' % (st, c))
    w.ob('entry.st_blocks', g('st_blocks') == (w.h0['size'](r.t) + 511) / 512)
    w.prove_frame('entry')


def u_init(ctx, want):
    """the constructor establishes the invariant (empty cache, ring of the configured size)"""
    w = W(ctx)
    i = w.i
    o = SObj(ic.InodeCache, {})
    fn = i.find_method(ic.InodeCache, '__init__')
    k, v = i.run_function(Bound(fn, o), [w.db, w.gen], {})
    ctx.shared.reached.add(k)
    ok = k == 'return' and o.f.get('attrs') == {} and o.f.get('cached_rows') == [None] * ic.CACHE_SIZE and \
        isinstance(o.f.get('pos'), int) and 0 <= o.f['pos'] < ic.CACHE_SIZE and o.f.get('db') is w.db
    w.ob('init.state', z3.BoolVal(ok), 'constructor does not establish the invariant')


R = ['return']
RR = ['return', 'raise']
UNITS = [
    ('inodecache.__getitem__', u_getitem, RR),
    ('inodecache.getattr', u_getattr, RR),
    ('inodecache.__delitem__', u_delitem, RR),
    ('inodecache.setattr', u_setattr, R),
    ('inodecache.flush_id', u_flush_id, R),
    ('inodecache.flush', u_flush, R),
    ('inodecache.destroy', _destroy('destroy'), R),
    ('inodecache.drop', _destroy('drop'), R),
    ('inodecache.create_inode', u_create, R),
    ('inodecache.assign', u_mark, R),
    ('inodecache.copy', u_copy, R),
    ('inodecache.entry_attributes', u_entry, R),
    ('inodecache.__init__', u_init, R),
]
