"""C11: LinkedDict.  Nodes live in a symbolic heap; the ghost order `rank` fixes which order the list
must have; every operation must leave pointers that realise exactly the ranks the specification gives."""
from __future__ import annotations
import z3
from pyvc.values import *
from pyvc.core import *
from pyvc.interp import Interp, BUILTINS, SIter, SGen
from pyvc.sqlm import _Hold
from pyvc.heapm import *
import cython
import s3ql._linked_dict as ld

BUILTINS[cython.cast] = lambda i, t, v: v
Rl = z3.RealSort()
KEY = 'valobject'
CURSOR = z3.Const('CURSOR_KEY', V)


class W:
    def __init__(self, ctx):
        self.ctx = ctx
        self.i = i = Interp(ctx)
        self.heap = h = Heap(i, ld._Node, {'key': KEY, 'value': KEY}, 'node')
        for f in ('prev', 'next'):
            h._kinds[f] = ('ref', h, True)
            h._fn[f] = h._fresh(f, h._kinds[f])
        self.data = HMap(i, 'data', KEY, ('ref', h))
        i.obj_over[(ld.__name__, '_CURSOR_KEY')] = SVal(CURSOR, object)
        self.head, self.tail = ctx.int('head', lo=1).t, ctx.int('tail', lo=1).t
        ctx.assume(self.head != self.tail)
        self.obj = SObj(ld.LinkedDict, dict(_data=self.data, _head=HRef(h, self.head), _tail=HRef(h, self.tail)))
        ctx.roots['ld'] = self.obj
        inl = ctx.func('inlist', I, B)
        rank = ctx.func('rank', I, Rl)
        self.inl = lambda n: inl(n)
        self.rank = lambda n: rank(n)
        n, m = z3.Ints('ax_n ax_m')
        k = z3.Const('ax_key', V)
        for f in self.inv_list():
            ctx.axiom(f)
        ctx.assume(z3.And(self.inl(self.head), self.inl(self.tail)))
        self.mark()

    def mark(self):
        h = self.heap
        self.f0, self.al0 = h.snap()
        self.dom0, self.val0, self.n0 = self.data.snap()
        self.inl0, self.rank0 = self.inl, self.rank

    # ---- invariant, as universally quantified formulas over nodes/keys
    def inv_at(self, n):
        h, d = self.heap, self.data
        nx, pv = h.fld('next', n), h.fld('prev', n)
        key = h.fld('key', n)
        R = self.rank
        ent = z3.And(n != self.head, n != self.tail)
        return z3.Implies(self.inl(n), z3.And(
            n > 0, h.alloc(n),
            z3.Implies(n != self.tail, z3.And(self.inl(nx), h.fld('prev', nx) == n, R(n) < R(nx), nx != self.head)),
            z3.Implies(n != self.head, z3.And(self.inl(pv), h.fld('next', pv) == n, R(pv) < R(n), pv != self.tail)),
            z3.Implies(n != self.tail, R(n) < R(self.tail)), z3.Implies(n != self.head, R(self.head) < R(n)),
            z3.Implies(z3.And(ent, key != CURSOR), z3.And(d.dom(key), d.val(key) == n))))

    def gap_at(self, n, m):
        """nothing lies between a node and its successor"""
        nx = self.heap.fld('next', n)
        return z3.Implies(z3.And(self.inl(n), self.inl(m), n != self.tail),
                          z3.Or(self.rank(m) <= self.rank(n), self.rank(m) >= self.rank(nx)))

    def uniq_at(self, n, m):
        return z3.Implies(z3.And(self.inl(n), self.inl(m), self.rank(n) == self.rank(m)), n == m)

    def map_at(self, k):
        h, d = self.heap, self.data
        x = d.val(k)
        return z3.Implies(d.dom(k), z3.And(k != CURSOR, x > 0, h.alloc(x), self.inl(x), h.fld('key', x) == k, x != self.head, x != self.tail))

    def inv_list(self):
        n, m = z3.Ints('ax_n ax_m')
        k = z3.Const('ax_key', V)
        return [z3.ForAll([n], self.inv_at(n), patterns=pats(self.inl(n))),
                z3.ForAll([n, m], self.gap_at(n, m), patterns=[z3.MultiPattern(self.inl(n), self.inl(m))]),
                z3.ForAll([n, m], self.uniq_at(n, m), patterns=[z3.MultiPattern(self.inl(n), self.inl(m))]),
                z3.ForAll([k], self.map_at(k), patterns=pats(self.data.dom(k)))]

    def ob(self, name, g, info=None):
        self.ctx.prove('C11.' + name, g, info=info)

    def prove_inv(self, name):
        n, m = self.ctx.int('node').t, self.ctx.int('node2').t
        k = self.ctx.val('key', object).t
        # bring the known facts into scope
        for a in (n, m):
            self.ctx.assume(z3.Implies(self.inl0(a), a > 0))
        self.ob(name + '.linked', self.inv_at(n), 'the links around some entry are not what the order requires')
        self.ob(name + '.order', z3.And(self.gap_at(n, m), self.uniq_at(n, m)), 'entries are linked in a wrong order')
        self.ob(name + '.map', self.map_at(k), 'map and list disagree')

    def prove_map(self, name, key=None, present=None, val=None):
        """content: only `key` may change"""
        k = self.ctx.val('k', object).t
        same = z3.And(self.data.dom(k) == self.dom0(k),
                      z3.Implies(self.dom0(k), self.heap.fld('value', self.data.val(k)) == self.f0['value'](self.val0(k))))
        self.ob(name + '.others', same if key is None else z3.Implies(k != key, same), 'another entry changes')
        if key is not None:
            self.ob(name + '.entry', self.data.dom(key) == present if z3.is_expr(present) else self.data.dom(key) == z3.BoolVal(present))
            if val is not None:
                self.ob(name + '.value', self.heap.fld('value', self.data.val(key)) == val, 'wrong value stored')
        n1 = self.data._n
        return n1

    def key(self):
        v = self.ctx.val('key', object)
        self.ctx.assume(v.t != CURSOR)
        self.touch(v.t)
        return v

    def touch(self, k):
        self.ctx.assume(self.map_at(k))
        self.ctx.assume(z3.Implies(self.data.dom(k), self.inv_at(self.data.val(k))))

    def call(self, name, *a):
        self.ctx.shared.functions.add('s3ql._linked_dict.LinkedDict.' + name)
        fn = self.i.find_method(ld.LinkedDict, name)
        return self.i.run_function(Bound(fn, self.obj), list(a), {})

    def last(self, but=None):
        """node before the tail (not counting `but`)"""
        p = self.f0['prev'](self.tail)
        if but is None:
            return p
        return z3.If(p == but, self.f0['prev'](but), p)


def obs_noerror(w, name, k, v):
    w.ob(name + '.no-error', z3.BoolVal(k == 'return'), 'raises %s' % (v.cls.__name__ if k == 'raise' else ''))
    return k == 'return'


def u_setitem(ctx, want):
    w = W(ctx)
    k, val = w.key(), ctx.val('value', object)
    had = w.dom0(k.t)
    t, v = w.call('__setitem__', k, val)
    ctx.shared.reached.add(t)
    if not obs_noerror(w, 'setitem', t, v):
        return
    n1 = w.prove_map('setitem', k.t, True, val.t)
    w.ob('setitem.len', n1 == z3.If(had, w.n0, w.n0 + 1))
    node = w.data.val(k.t)
    last = w.last()
    inl, rank = w.inl0, w.rank0
    # specified order: unchanged for an existing key, else after the last node
    w.inl = lambda n: z3.Or(inl(n), z3.And(z3.Not(had), n == node))
    w.rank = lambda n: z3.If(z3.And(z3.Not(had), n == node), (rank(last) + rank(w.tail)) / 2, rank(n))
    w.ob('setitem.fresh', z3.Implies(z3.Not(had), z3.Not(inl(node))))
    w.prove_inv('setitem')


def _del(name, returns):
    def u(ctx, want):
        w = W(ctx)
        k = w.key()
        had = w.dom0(k.t)
        node = w.val0(k.t)
        t, v = w.call(name, k)
        ctx.shared.reached.add(t)
        nm = name.strip('_')
        if t == 'raise':
            w.ob(nm + '.keyerror', z3.And(z3.Not(had), z3.BoolVal(v.cls is KeyError)), 'raises %s' % v.cls.__name__)
            w.prove_map(nm)
            w.prove_inv(nm)
            return
        w.ob(nm + '.existed', had)
        if returns:
            ok = isinstance(v, SVal)
            w.ob(nm + '.result', (v.t == w.f0['value'](node)) if ok else z3.BoolVal(False), 'wrong value returned')
        n1 = w.prove_map(nm, k.t, False)
        w.ob(nm + '.len', n1 == w.n0 - 1)
        inl = w.inl0
        w.inl = lambda n: z3.And(inl(n), n != node)
        w.prove_inv(nm)
    return u


def u_move(ctx, want):
    w = W(ctx)
    k = w.key()
    had = w.dom0(k.t)
    node = w.val0(k.t)
    t, v = w.call('move_to_tail', k)
    ctx.shared.reached.add(t)
    if t == 'raise':
        w.ob('move.keyerror', z3.And(z3.Not(had), z3.BoolVal(v.cls is KeyError)))
        w.prove_map('move')
        w.prove_inv('move')
        return
    w.ob('move.existed', had)
    n1 = w.prove_map('move')
    w.ob('move.len', n1 == w.n0)
    rank, last = w.rank0, w.last(but=node)
    w.ctx.assume(w.inv_at0(last) if hasattr(w, 'inv_at0') else z3.BoolVal(True))
    w.rank = lambda n: z3.If(n == node, (rank(last) + rank(w.tail)) / 2, rank(n))
    w.prove_inv('move')


def u_read(ctx, want):
    w = W(ctx)
    k = w.key()
    name = ('__getitem__', 'get', '__contains__', '__len__')[ctx.choose(4, 'op')]
    had = w.dom0(k.t)
    dflt = ctx.val('default', object)
    useddef = name == 'get' and ctx.choose(2, 'dflt')
    t, v = w.call(name, *([] if name == '__len__' else [k, dflt] if useddef else [k]))
    ctx.shared.reached.add(name)
    val = w.f0['value'](w.val0(k.t))
    if name == '__getitem__':
        if t == 'raise':
            w.ob('getitem.keyerror', z3.And(z3.Not(had), z3.BoolVal(v.cls is KeyError)))
        else:
            w.ob('getitem.value', z3.And(had, v.t == val) if isinstance(v, SVal) else z3.BoolVal(False))
    elif not obs_noerror(w, name.strip('_'), t, v):
        return
    elif name == 'get':
        if v is None:
            w.ob('get.default', z3.And(z3.Not(had), z3.BoolVal(not useddef)))
        else:
            w.ob('get.value', v.t == z3.If(had, val, dflt.t) if isinstance(v, SVal) else z3.BoolVal(False))
    elif name == '__contains__':
        r = w.i.truth_term(v)
        w.ob('contains.value', (r if z3.is_expr(r) else z3.BoolVal(r)) == had)
    else:
        w.ob('len.value', w.i.as_int(v) == w.n0)
    w.prove_map(name.strip('_'))
    w.prove_inv(name.strip('_'))


def u_init(ctx, want):
    w = W(ctx)
    o = SObj(ld.LinkedDict, {})
    fn = w.i.find_method(ld.LinkedDict, '__init__')
    t, v = w.i.run_function(Bound(fn, o), [], {})
    ctx.shared.reached.add(t)
    h = w.heap
    a, b = o.f.get('_head'), o.f.get('_tail')
    ok = t == 'return' and isinstance(a, HRef) and isinstance(b, HRef) and o.f.get('_data') == {}
    w.ob('init.state', z3.And(a.t != b.t, h.fld('next', a.t) == b.t, h.fld('prev', b.t) == a.t) if ok else z3.BoolVal(False),
         'constructor does not establish an empty list')


def u_iter(ctx, want):
    """mutable_values(): any sequence of operations between two steps"""
    w = W(ctx)
    i, h = w.i, w.heap
    R0 = w.rank
    # entries present at the start that are neither removed nor moved during the whole iteration
    st = ctx.func('stays', I, B)
    n, m = z3.Ints('it_n it_m')
    ctx.axiom(z3.ForAll([n], z3.Implies(st(n), z3.And(w.inl(n), n != w.head, n != w.tail, h.fld('key', n) != CURSOR)),
                        patterns=[st(n)]))
    seen0 = lambda n: z3.BoolVal(False)

    class Ghost(Model):
        def __init__(self):
            self.seen, self.inl, self.rank = seen0, w.inl, w.rank
            self.cur = None

        def m_state(self):
            return {'seen': _Hold(self.seen), 'inl': _Hold(self.inl), 'rank': _Hold(self.rank)}

        def m_havoc(self, i, k):
            if k == 'seen':
                f = ctx.func('seen', I, B)
                self.seen = lambda n: f(n)
            elif k == 'inl':
                f = ctx.func('inlist', I, B)
                self.inl = w.inl = lambda n: f(n)
            else:
                f = ctx.func('rank', I, Rl)
                self.rank = w.rank = lambda n: f(n)
    gh = Ghost()
    ctx.roots['ghost'] = gh

    def cursor_of(fr):
        c = fr.locals.get('cursor')
        return c.t if isinstance(c, HRef) else None

    def withc(c):
        """list order including the cursor, whose rank follows from its neighbours"""
        inl, rank = gh.inl, gh.rank
        pv, nx = h.fld('prev', c), h.fld('next', c)
        w.inl = lambda n: z3.Or(inl(n), n == c)
        w.rank = lambda n: z3.If(n == c, (rank(pv) + rank(nx)) / 2, rank(n))

    def nocur():
        w.inl, w.rank = gh.inl, gh.rank

    def structure(c):
        withc(c)
        n, m = z3.Ints('ax_n ax_m')
        k = z3.Const('ax_key', V)
        r = [('linked', z3.ForAll([n], w.inv_at(n), patterns=pats(gh.inl(n)))),
             ('gap', z3.ForAll([n, m], w.gap_at(n, m), patterns=[z3.MultiPattern(gh.inl(n), gh.inl(m))])),
             ('gapc', z3.ForAll([m], z3.And(w.gap_at(c, m), w.gap_at(m, c)), patterns=pats(gh.inl(m)))),
             ('curs', z3.And(w.inv_at(c), c > 0, h.fld('key', c) == CURSOR, z3.Not(gh.inl(c)), c != w.head, c != w.tail,
                             gh.inl(h.fld('prev', c)), gh.inl(h.fld('next', c)))),
             ('uniq', z3.ForAll([n, m], w.uniq_at(n, m), patterns=[z3.MultiPattern(gh.inl(n), gh.inl(m))])),
             ('map', z3.ForAll([k], w.map_at(k), patterns=pats(w.data.dom(k)))),
             ('stay', z3.ForAll([n], z3.Implies(st(n), z3.And(gh.inl(n), n != w.head, n != w.tail, h.fld('key', n) != CURSOR)), patterns=[st(n)])),
             ('seen', z3.ForAll([n], z3.Implies(st(n), gh.seen(n) == (w.rank(n) < w.rank(c))), patterns=[st(n)])),
             ('seenin', z3.ForAll([n], z3.Implies(gh.seen(n), n > 0), patterns=pats(gh.seen(n))) if gh.seen is not seen0 else z3.BoolVal(True))]
        nocur()
        return r

    def hints(ii, fr, pre):
        names = [x for x, _ in structure(z3.Int('dummy'))]

        def mk(nm):
            def f(e):
                c = cursor_of(e.fr)
                if c is None:
                    return None
                return dict(structure(c))[nm]
            return f
        return [(nm, mk(nm)) for nm in names]
    i.loop_hints['mutable_values'] = hints
    w.mutframe = None
    fn = i.find_method(ld.LinkedDict, 'mutable_values')
    g = i.call(Bound(fn, w.obj), [], {})
    ctx.shared.functions.add('s3ql._linked_dict.LinkedDict.mutable_values')
    kind, msg = 'next', None
    nyield = 0
    while True:
        try:
            k, v = g.resume(kind, msg)
        except PyRaise as e:
            if kind == 'throw' and e.value.cls is GeneratorExit:
                k, v = 'closed', None
            else:
                w.ob('iterate.no-error', z3.BoolVal(False), 'iteration raises %s' % e.value.cls.__name__)
                return
        c = cursor_of(g.frame)
        if k == 'done' or k == 'closed':
            ctx.shared.reached.add(k)
            nocur()
            w.mark()
            # the cursor is gone
            w.prove_inv('iterate-end')
            if k == 'done':
                x = ctx.int('entry').t
                w.ob('iterate.complete', z3.Implies(st(x), gh.seen(x)), 'an entry that was there all the time is not reached')
            return
        nyield += 1
        if nyield > 1:
            raise Unsupported('second value in one step of the loop')
        ctx.shared.reached.add('yield')
        # which entry was yielded: the one just before the cursor
        y = h.fld('prev', c)
        for nm, f in structure(c):
            if nm != 'seen':
                ctx.prove('C11.iterate.%s' % nm, f, info='the list is damaged while iterating')
        w.ob('iterate.value', z3.And(gh.inl(y), y != w.head, h.fld('key', y) != CURSOR, v.t == h.fld('value', y))
             if isinstance(v, SVal) else z3.BoolVal(False), 'yields a value that is not that of the next present entry')
        w.ob('iterate.once', z3.Implies(st(y), z3.Not(gh.seen(y))), 'an entry that stays in place is yielded twice')
        x = ctx.int('e').t
        withc(c)
        w.ob('iterate.inorder', z3.Implies(z3.And(st(x), st(y), x != y), gh.seen(x) == (w.rank(x) < w.rank(y))),
             'yields entries out of order or skips one')
        nocur()
        s0 = gh.seen
        gh.seen = lambda n, s0=s0, y=y: z3.Or(s0(n), n == y)
        # other code runs here: everything may change, except that the structure stays sound, entries that
        # stay keep their place, and the cursor node keeps its place between them
        if ctx.choose(2, 'close'):
            kind, msg = 'throw', PyRaise(SObj(GeneratorExit, {'args': ()}))
            continue
        oldinl, oldrank = gh.inl, gh.rank
        withc(c)
        cr = w.rank
        crk = cr(c)
        nocur()
        h.havoc_all()
        f = ctx.func('inlist', I, B)
        gh.inl = w.inl = lambda n, f=f: f(n)
        r = ctx.func('rank', I, Rl)
        gh.rank = w.rank = lambda n, r=r: r(n)
        for kk in ('dom', 'val', 'n'):
            w.data.m_havoc(i, kk)
        h.m_havoc(i, '$alloc')
        ctx.assume(z3.And(gh.inl(w.head), gh.inl(w.tail)))
        for nm, fml in structure(c):
            ctx.assume(fml)
        kind, msg = 'next', None


def u_plain(ctx, want):
    """__iter__/keys/values/items list every entry exactly once"""
    w = W(ctx)
    name = ('values', 'items', '__iter__', 'keys')[ctx.choose(4, 'op')]
    k = w.i.find_method(ld.LinkedDict, name)
    ctx.shared.functions.add('s3ql._linked_dict.LinkedDict.' + name)
    try:
        g = w.i.call(Bound(k, w.obj), [], {})
    except PyRaise as e:
        ctx.fail('C11.plain.no-error', 'raises %s' % e.value.cls.__name__)
        return
    ctx.shared.reached.add(name)
    if not isinstance(g, SGen):
        it = g
        w.ob('plain.keys', z3.BoolVal(isinstance(g, HMapIter) and g.mp is w.data and g.kind == 'keys' or g is w.data),
             'does not iterate over the keys of the mapping')
        return
    y = 0
    while True:
        try:
            t, v = g.resume()
        except PyRaise as e:
            ctx.fail('C11.plain.no-error', 'raises %s' % e.value.cls.__name__)
            return
        it = w.data._last_iter
        if t == 'done':
            w.ob('plain.complete', it.k.t >= it.n if it is not None and z3.is_expr(it.k.t) else z3.BoolVal(False))
            return
        y += 1
        w.ob('plain.single', z3.BoolVal(y == 1), 'more than one value per entry')
        kt = w.data._iter_key(it.k.t)
        val = h_val = w.heap.fld('value', w.data.val(kt))
        if name == 'values':
            w.ob('plain.value', v.t == val if isinstance(v, SVal) else z3.BoolVal(False))
        else:
            ok = isinstance(v, tuple) and len(v) == 2
            w.ob('plain.item', z3.And(v[0].t == kt, v[1].t == val) if ok else z3.BoolVal(False))


UNITS = [
    ('linkeddict.__init__', u_init, ['return']),
    ('linkeddict.__setitem__', u_setitem, ['return']),
    ('linkeddict.__delitem__', _del('__delitem__', False), ['return', 'raise']),
    ('linkeddict.pop', _del('pop', True), ['return', 'raise']),
    ('linkeddict.move_to_tail', u_move, ['return', 'raise']),
    ('linkeddict.read', u_read, ['__getitem__', 'get', '__contains__', '__len__']),
    ('linkeddict.mutable_values', u_iter, ['yield', 'done', 'closed']),
    ('linkeddict.plain-iteration', u_plain, ['values', 'items', '__iter__', 'keys']),
]
