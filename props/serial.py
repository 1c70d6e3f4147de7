"""C03 (and the argument parsing of C20): serialization of basic mappings.

The text produced by repr()/literal_eval()/json-like syntax is not modelled character by character: the contract of
the library is  literal_eval('{ r1: s1, ..., rn: sn }') = {literal_eval(r1): literal_eval(s1), ...}  and
literal_eval(repr(x)) = x for finite elementary x.  The checksum is modelled byte by byte."""
from __future__ import annotations
import ast, binascii, base64, hashlib, hmac, struct, z3
from pyvc.values import *
from pyvc.core import *
from pyvc.interp import Interp, BUILTINS, SIter, assigned_names
from pyvc.pymodels import Bag
import s3ql.common as co
import s3ql.backends.common as bc

TYPES = [str, type(None), bool, int, float, bytes, bytearray, complex, list]
BASIC = (str, bytes, bytearray, int, float, complex, bool, type(None))


class El(Model):
    """value of a known type, otherwise arbitrary"""

    def __init__(self, t, name='v', orig=None):
        self.m_type, self._name, self._orig = t, name, orig

    def m_state(self):
        return {}

    def m_eq(self, i, o):
        return True if o is self else NotImplemented


def element(ctx, name, types=TYPES):
    t = types[ctx.choose(len(types), name)]
    return None if t is type(None) else ctx.bool(name) if t is bool else El(t, name)


class Text(Model):
    m_type = str

    def __init__(self, kind, *a):
        self._kind, self._a = kind, a

    def m_state(self):
        return {}

    def encode(self, *a):
        return Text('enc', self, a)

    def decode(self, *a):
        return self

    def m_binop(self, i, op, o, swapped):
        if op != 'Add' or not isinstance(o, (str, Text)):
            return NotImplemented
        parts = lambda x: list(x._a) if isinstance(x, Text) and x._kind == 'cat' else [x]
        out = []
        for x in parts(o) + parts(self) if swapped else parts(self) + parts(o):
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        if len(out) == 3 and isinstance(out[0], str) and isinstance(out[2], str) and isinstance(out[1], Text):
            if out[1]._kind == 'joined' and out[0].strip() == '{' and out[2].strip() == '}':
                return Text('dict', out[1])
        if len(out) == 3 and out[1].strip() == ':' if isinstance(out[1], str) and len(out) == 3 else False:
            return Text('entry', out[0], out[2])
        return Text('cat', *out)


class EntryList(Model):
    """list of entry texts collected so far: exactly those of the items already visited"""
    m_type = list

    def __init__(self, w, init):
        self._w = w
        if init:
            raise Unsupported('list with elements before the loop')
        self.n = 0

    def m_state(self):
        return {'n': self.n}

    def m_havoc(self, i, k):
        self.n = i.ctx.int('nels', lo=0)

    def append(self, x):
        self._w.check_entry(x)
        self.n = self._w.i.mkint(self._w.i.as_int(self.n) + 1)

    def m_len(self):
        return self.n

    def m_join(self, i, sep):
        return Text('joined', sep, i.as_int(self.n))


class W:
    pass


class Items(Model):
    def __init__(self, d, sel):
        self._d, self._sel = d, sel

    def m_state(self):
        return {}

    def m_iter(self, i):
        me = self._d

        def elem(k):
            me._w.k, me._w.idx = (element(me._w.ctx, 'key', me._tk), element(me._w.ctx, 'value', me._tv)), k
            me._w.stored = None
            return self._sel(me._w.k)
        me._w.it = SIter(me._n, elem)
        return me._w.it


def snapshot(i):
    for t in (list, tuple):
        old = i.bi.get(t, BUILTINS.get(t))
        i.bi[t] = lambda ii, x=(), *a, old=old: (x if isinstance(x, Items) else x.keys() if isinstance(x, AbstractDict) else old(ii, x, *a))


class OutDict(Model):
    """dictionary filled with exactly one value for every entry visited so far"""
    m_type = dict

    def __init__(self, w):
        self._w = w
        self.n = 0

    def m_state(self):
        return {'n': self.n}

    def m_havoc(self, i, k):
        self.n = i.ctx.int('nout', lo=0)

    def m_setitem(self, i, k, v):
        if self._w.stored is not None:
            raise Unsupported('entry stored twice')
        self._w.on_store(k, v)
        self.n = i.mkint(i.as_int(self.n) + 1)

    def m_len(self):
        return self.n


class AbstractDict(Model):
    m_type = dict

    def __init__(self, w, types_k, types_v):
        self._w, self._tk, self._tv = w, types_k, types_v
        self._n = w.ctx.int('n_items', lo=0).t
        self._store = None

    def m_state(self):
        return {}

    def items(self):
        return Items(self, lambda kv: kv)

    def keys(self):
        return Items(self, lambda kv: kv[0])

    def m_iter(self, i):
        return self.keys().m_iter(i)

    def m_getitem(self, i, k):
        if self._w.k is None or k is not self._w.k[0]:
            raise Unsupported('other entry')
        return self._w.k[1] if self._w.stored is None else self._w.stored[0]

    def m_setitem(self, i, k, v):
        self._w.on_store(k, v)

    def m_len(self):
        return SInt(self._n)


def u_freeze(ctx, want):
    w = W()
    w.ctx, w.i = ctx, Interp(ctx)
    i = w.i
    P = lambda n, g, info=None: ctx.prove('C03.freeze.' + n, g, info=info)
    w.k = None
    w.it = None
    cnt = {}

    def on_store(k, v):
        P('argument-unchanged', z3.BoolVal(False), 'the argument is changed')
    w.on_store = on_store

    def check_entry(x):
        k, v = w.k
        P('entry', z3.BoolVal(isinstance(x, Text) and x._kind == 'entry' and isinstance(x._a[0], Text) and
                              x._a[0]._kind == 'repr' and x._a[0]._a[0] is k), 'wrong text for an entry')
        P('entry-key-type', z3.BoolVal(i.pytype_of(k) is str), 'a key that is not a string is accepted')
        vt = i.pytype_of(v) if v is not None else type(None)
        P('entry-value-type', z3.BoolVal(vt in BASIC), 'a value of type %s is accepted' % vt.__name__)
        r = x._a[1]
        ok = isinstance(r, Text) and r._kind == 'repr'
        if vt in (bytes, bytearray):
            ok = ok and isinstance(r._a[0], El) and r._a[0]._orig is v and r._a[0].m_type is bytes
        else:
            ok = ok and r._a[0] is v
        P('entry-value', z3.BoolVal(ok), 'wrong text for a value of type ' + vt.__name__)
        ctx.shared.reached.add('entry-' + vt.__name__)
    w.check_entry = check_entry
    nonfinite = ctx.bool('nonfinite').t

    def fmt(f, args):
        args = args if isinstance(args, tuple) else (args,)
        f = f.replace('{}', '%s') if '{}' in f else f
        if f == '%s: %s' and all(isinstance(a, Text) for a in args):
            return Text('entry', *args)
        if f == '{ %s }' and isinstance(args[0], Text):
            return Text('dict', args[0])
        return ctx.val('fmt', str)
    i.fmt = fmt
    i.bi[repr] = lambda ii, x: Text('repr', x)

    def lit(ii, x):
        if not isinstance(x, Text) or x._kind != 'repr':
            raise Unsupported('literal_eval')
        v = x._a[0]
        t = ii.pytype_of(v) if v is not None else None
        if t in (float, complex) and ctx.branch(nonfinite):
            ii.raise_(ValueError, 'malformed node')
        return v
    i.bi[ast.literal_eval] = lit
    i.bi[base64.b64encode] = lambda ii, x: El(bytes, 'b64', x)
    i.bi[eval] = lambda ii, *a: ctx.fail('C03.freeze.eval', 'text is executed')
    i.list_model = lambda path, l: EntryList(w, l)
    i.loop_hints['freeze_basic_mapping'] = lambda ii, fr, pre: [
        ('n:' + p, lambda e, p=p: e.m('n(%s)' % p) == e.m('$k')) for p, x in pre.items() if isinstance(x[3], list)]
    d = AbstractDict(w, [str, bytes, int, type(None), bool], TYPES)
    snapshot(i)
    fn = i.ifunc_by_name(co, 'freeze_basic_mapping')
    k, v = i.run_function(fn, [d])
    if k == 'raise':
        ctx.shared.reached.add('raise')
        P('error-type', z3.BoolVal(issubclass(v.cls, (ValueError, TypeError))), 'raises %s' % v.cls.__name__)
        ok = w.k is not None
        if ok:
            kt = i.pytype_of(w.k[0]) if w.k[0] is not None else type(None)
            vt = i.pytype_of(w.k[1]) if w.k[1] is not None else type(None)
            P('refuses-only-invalid', z3.Or(z3.BoolVal(kt is not str or vt not in BASIC), z3.And(z3.BoolVal(vt in (float, complex)), nonfinite)),
              'a %s is refused' % vt.__name__)
        else:
            P('refuses-only-invalid', z3.BoolVal(False), 'refuses without having looked at an entry')
        return
    ctx.shared.reached.add('return')
    ok = isinstance(v, Text) and v._kind == 'enc' and v._a[1] in (('utf-8',), (), ('utf8',)) and v._a[0]._kind == 'dict' and \
        v._a[0]._a[0]._kind == 'joined' and v._a[0]._a[0]._a[0].strip() == ','
    P('result-form', z3.BoolVal(ok), 'the result is not the text of a mapping')
    if ok:
        P('all-entries', v._a[0]._a[0]._a[1] == d._n, 'entries are missing')


def u_thaw(ctx, want):
    w = W()
    w.ctx, w.i = ctx, Interp(ctx)
    i = w.i
    P = lambda n, g, info=None: ctx.prove('C03.thaw.' + n, g, info=info)
    w.k, w.it, w.stored = None, None, None
    KT = [str, bytes, int, type(None), bool, tuple, float]
    VT = [str, type(None), bool, int, float, bytes, complex, list, tuple, dict, set, type(Ellipsis)]
    d = AbstractDict(w, KT, VT)

    def on_store(k, v):
        P('store', z3.BoolVal(k is w.k[0]), 'another entry is changed')
        w.stored = (v,)
    w.on_store = on_store
    w.out = None

    def dm(name, x):
        if x or w.out is not None:
            return None
        w.out = OutDict(w)
        return w.out
    i.dict_model = dm
    i.loop_hints['thaw_basic_mapping'] = lambda ii, fr, pre: [
        ('n:' + p, lambda e, p=p: e.m(p) == e.m('$k')) for p, x in pre.items() if x[1] is w.out]
    b64fail = [False]

    def b64d(ii, x, *a, **kw):
        if not (isinstance(x, El) and x.m_type is bytes):
            ii.raise_(TypeError, 'b64decode')
        if ctx.choose(2, 'b64'):
            b64fail[0] = True
            ii.raise_(binascii.Error, 'padding')
        return El(bytes, 'decoded', x)
    i.bi[base64.b64decode] = b64d

    def lit(ii, x):
        P('decoded', z3.BoolVal(isinstance(x, Text)))
        how = ctx.choose(8, 'literal')
        if how < 5:
            ii.raise_([ValueError, SyntaxError, TypeError, MemoryError, RecursionError][how], 'malformed')
        return [d, El(list, 'obj'), None][how - 5]
    i.bi[ast.literal_eval] = lit
    i.bi[eval] = lambda ii, *a: ctx.fail('C03.thaw.eval', 'data is executed')

    class Buf(Model):
        m_type = bytes

        def m_state(self):
            return {}

        def decode(self, *a):
            if ctx.choose(2, 'utf8'):
                i.raise_(UnicodeDecodeError, 'bad')
            return Text('decoded')

    def accepted():
        kk, vv = w.k
        kt = i.pytype_of(kk) if kk is not None else type(None)
        vt = i.pytype_of(vv) if vv is not None else type(None)
        P('key-type', z3.BoolVal(kt is str), 'a key of type %s is accepted' % kt.__name__)
        P('value-type', z3.BoolVal(vt in BASIC), 'a value of type %s is accepted' % vt.__name__)
        st = w.stored[0] if w.stored is not None else None
        if w.stored is None and w.out is not None:
            ok = False
        elif vt is bytes:
            ok = isinstance(st, El) and st._orig is vv
        else:
            ok = w.stored is None or st is vv or isinstance(st, SBool) and isinstance(vv, SBool) and st.t.eq(vv.t)
        P('bytes-decoded', z3.BoolVal(ok), 'wrong value for ' + vt.__name__)
        ctx.shared.reached.add('accept-' + vt.__name__)
    i.on_loop_step = lambda ii, fr, st: accepted()
    snapshot(i)
    fn = i.ifunc_by_name(co, 'thaw_basic_mapping')
    k, v = i.run_function(fn, [Buf()])
    if k == 'raise':
        ctx.shared.reached.add('raise')
        P('documented-error', z3.BoolVal(v.cls is co.ThawError), 'raises %s' % v.cls.__name__)
        if w.k is not None:
            kt = i.pytype_of(w.k[0]) if w.k[0] is not None else type(None)
            vt = i.pytype_of(w.k[1]) if w.k[1] is not None else type(None)
            P('refuses-only-invalid', z3.BoolVal(kt is not str or vt not in BASIC or b64fail[0]), 'a valid entry is refused')
        return
    ctx.shared.reached.add('return')
    P('result', z3.BoolVal(v is d and w.out is None or v is not None and v is w.out or w.it is None and isinstance(v, dict) and not v),
      'something that is not the mapping is returned')
    if v is not None and v is w.out:
        P('all-entries', i.as_int(v.n) == d._n, 'entries are missing')
    if v is d or v is w.out:
        P('all-checked', w.it.k.t == d._n if w.it is not None else d._n == 0, 'not all entries are checked')


# ------------------------------------------------------------------ checksum
class BStr(Model):
    """string given by its UTF-8 encoding"""
    m_type = str

    def __init__(self, ctx, name):
        self.b = ctx.bytes(name)
        self._sig = z3.Bool(fresh_name(name + '_is_signature'))

    def m_state(self):
        return {}

    def encode(self, *a):
        if a and a[0] not in ('utf-8', 'utf8'):
            raise Unsupported('encoding')
        return self.b

    def m_eq(self, i, o):
        if o == 'signature':
            return SBool(self._sig)
        return NotImplemented


class Num(Model):
    def __init__(self, ctx, t, name):
        self.m_type = t
        self.b = ctx.bytes(name, n=z3.IntVal(8) if t is float else None)
        self._ctx = ctx
        if t is int:
            k = z3.Int('kd')
            at = self.b.at
            ctx.axiom(z3.ForAll([k], at(k) != 0, patterns=[at(k)]))
            ctx.assume(self.b.n > 0)

    def m_state(self):
        return {}

    def m_binop(self, i, op, o, swapped):
        if op == 'Mod' and swapped and o == '%d' and self.m_type is int:
            return NumText(self.b)
        if op == 'Mod' and swapped and o == b'%d' and self.m_type is int:
            return self.b
        return NotImplemented

    def m_fmt(self, i, f, args):
        if self.m_type is int and f in ('%d', '%s', '{}', '{:d}', '%r') and (args is self or args == (self,)):
            return NumText(self.b)
        return i.ctx.val('text', str)


class NumText(Model):
    m_type = str

    def __init__(self, b):
        self.b = b

    def encode(self, *a):
        return self.b


class Stream(Model):
    """hash object: the bytes fed to it (in the current iteration)"""

    def __init__(self, w):
        self._w = w
        self.acc = SBytes.lit(b'')

    def m_state(self):
        return {}

    def update(self, x):
        if isinstance(x, Joined):
            x._p.joined += 1
            return
        b = self._w.i.to_bytes(x)
        if b is None and isinstance(x, El):
            raise Unsupported('update')
        self.acc = self.acc.concat(b)
        self._w.cuts.append(self.acc.n)

    def digest(self):
        return Text('digest', self)


class Parts(Model):
    """list of pieces of the message"""
    m_type = list

    def __init__(self, w, init):
        self._w = w
        self.acc = w.i.to_bytes(b'')
        self.used = self.joined = 0
        for x in init:
            self.append(x)
        w.parts.append(self)

    def m_state(self):
        return {}

    def append(self, x):
        b = self._w.i.to_bytes(x)
        if b is None:
            raise Unsupported('piece of the message')
        self.acc = self.acc.concat(b)
        self._w.cuts.append(self.acc.n)

    def extend(self, xs):
        for x in self._w.i.iter_concrete(xs):
            self.append(x)

    def m_join(self, i, sep):
        if sep != b'':
            raise Unsupported('join')
        return Joined(self)


class Joined(Model):
    m_type = bytes

    def __init__(self, p):
        self._p = p

    def m_state(self):
        return {}


class Escape(Exception):
    pass


class Meta(Model):
    m_type = dict

    def __init__(self, w, tag):
        self._w, self._tag = w, tag
        self._n = w.ctx.int('n_' + tag, lo=0).t
        self.key = None

    def m_state(self):
        return {}

    def keys(self):
        return Keys(self, False)

    def items(self):
        return Keys(self, False, True)

    def m_iter(self, i):
        return Keys(self, False).m_iter(i)

    def m_listcomp(self, i, f, e):
        return Keys(self, False).m_listcomp(i, f, e)

    def m_getitem(self, i, k):
        if k is not self.key:
            raise Unsupported('other entry')
        return self.val


class Keys(Model):
    def __init__(self, m, is_sorted, items=False, conds=()):
        self._m, self._sorted, self._items, self._conds = m, is_sorted, items, conds

    def m_listcomp(self, i, f, e):
        g = e.generators[0]
        if self._items or not isinstance(g.target, ast.Name) or not (isinstance(e.elt, ast.Name) and e.elt.id == g.target.id):
            raise Unsupported('comprehension')

        def cond(c):
            def ev(key):
                i.assign(f, g.target, key)
                return i.eval(f, c)
            return ev
        return Keys(self._m, self._sorted, False, tuple(self._conds) + tuple((cond(c), None) for c in g.ifs))

    def m_state(self):
        return {}

    def m_iter(self, i):
        m, w = self._m, self._m._w
        w.ob('sorted', z3.BoolVal(self._sorted), 'depends on the order of the entries')

        def elem(k):
            m.key = BStr(w.ctx, 'key_' + m._tag)
            ts = [str, type(None), bool, int, float, bytes, complex]
            t = ts[w.ctx.choose(len(ts), 'vt')]
            m.vt = t
            m.val = (BStr(w.ctx, 'val_' + m._tag) if t is str else None if t is type(None) else w.ctx.bool('val') if t is bool
                     else Num(w.ctx, t, 'val_' + m._tag) if t in (int, float) else
                     w.ctx.bytes('val_' + m._tag) if t is bytes else El(complex))
            for c, pos in self._conds:
                if not w.i.truth(c(m.key), 'filter'):
                    # not in the sequence
                    w.ob('all-entries', m.key._sig, 'entries are left out')
                    raise PathEnd()
            w.stream.acc = SBytes.lit(b'')
            for p in w.parts:
                p.acc = SBytes.lit(b'')
            w.cuts = []
            return (m.key, m.val) if self._items else m.key
        it = SIter(m._n, elem)
        w.it = it
        return it


def has_byte(w, b, c):
    """c in b for a single byte"""
    wit = w.ctx.int('pos')
    r = z3.Bool(fresh_name('has'))
    k = z3.Int('kh')
    w.ctx.assume(z3.Implies(r, z3.And(wit.t >= 0, wit.t < b.n, b.at(wit.t) == c)))
    w.ctx.axiom(z3.ForAll([k], z3.Implies(z3.And(z3.Not(r), k >= 0, k < b.n), b.at(k) != c), patterns=[b.at(k)]))
    return SBool(r)


def pack(w, f, *vals):
    if f in ('<d',) and isinstance(vals[0], Num):
        return vals[0].b
    n = {'<I': 4, '<Q': 8, '<H': 2, '<B': 1}.get(f)
    if n is None:
        raise Unsupported('struct.pack ' + str(f))
    t = w.i.as_int(vals[0])
    bs = [w.ctx.int('byte', lo=0, hi=255).t for _ in range(n)]
    if w.ctx.branch(z3.Or(t < 0, t >= 256 ** n), 'packrange'):
        w.i.raise_(struct.error, 'out of range')
    w.ctx.assume(t == sum(x * 256 ** j for j, x in enumerate(bs)))

    def at(i):
        r = bs[-1]
        for j in range(n - 2, -1, -1):
            r = z3.If(i == j, bs[j], r)
        return r
    return SBytes(n, at)


class Chk:
    """interprets checksum_basic_mapping up to the end of an arbitrary iteration"""

    def __init__(self, ctx, tag):
        self.ctx = ctx
        self.i = i = Interp(ctx)
        self.stream = Stream(self)
        self.cuts = []
        self.meta = Meta(self, tag)
        self.keyed = None
        self.parts = []
        i.bi[sorted] = self.bsorted
        snap = lambda old: lambda ii, x=(), *a: Keys(x, False) if isinstance(x, Meta) else x if isinstance(x, Keys) else old(ii, x, *a)
        for t in (list, tuple):
            i.bi[t] = snap(BUILTINS[t])
        i.list_model = lambda path, lst: Parts(self, lst)
        self.head = {}

        def heads(ii, fr, st):
            self.head = {k: v for k, v in fr.locals.items() if isinstance(v, (bytes, SBytes)) and k in assigned_names(st)}
        i.loop_assume_hooks = tuple(i.loop_assume_hooks) + (heads,)
        i.bi[str] = lambda ii, x='', *a: NumText(x.b) if isinstance(x, Num) and x.m_type is int else BUILTINS[str](ii, x, *a)
        i.bi[hashlib.md5] = self.mk('md5')
        i.bi[hmac.new] = self.mk('hmac')
        i.bi[struct.pack] = lambda ii, f, *v: pack(self, f, *v)
        oc = i.contains
        i.contains = lambda c, x: has_byte(self, c, x[0]) if isinstance(c, SBytes) and isinstance(x, bytes) and len(x) == 1 else oc(c, x)

    def bsorted(self, ii, x, key=None, **kw):
        x = Keys(x, False) if isinstance(x, Meta) else x
        if kw or not isinstance(x, Keys):
            raise Unsupported('sorted')
        if key is not None:
            probe = BStr(self.ctx, 'probe')
            if ii.call(key, [(probe, None) if x._items else probe], {}) is not probe:
                raise Unsupported('sorted by something else')
        return Keys(x._m, True, x._items, x._conds)

    def mk(self, name):
        def f(ii, *a, **kw):
            self.keyed = (name, a, kw)
            return self.stream
        return f

    def ob(self, n, g, info=None):
        self.ctx.prove('C03.checksum.' + n, g, info=info)

    def step(self, key):
        """-> ('step',) after an arbitrary iteration, or ('return', v) / ('raise', e)"""
        def esc(ii, fr, st):
            if self.head:
                raise Unsupported('message carried in ' + ', '.join(sorted(self.head)))
            if self.parts:
                if len(self.parts) > 1 or not z3.is_int_value(z3.simplify(self.stream.acc.n)) or z3.simplify(self.stream.acc.n).as_long():
                    raise Unsupported('several messages')
                self.stream.acc = self.parts[0].acc
            raise Escape()
        self.i.on_loop_step = esc
        try:
            return self.i.run_function(self.i.ifunc_by_name(bc, 'checksum_basic_mapping'), [self.meta, key])
        except Escape:
            return ('step', None)


def u_checksum_iter(ctx, want):
    c = Chk(ctx, 'a')
    key = [None, ctx.bytes('key')][ctx.choose(2, 'keyed')]
    k, v = c.step(key)
    ctx.shared.reached.add(k)
    m = c.meta
    if k == 'raise':
        c.ob('error', z3.BoolVal(v.cls in (ValueError, TypeError) and m.vt is complex or v.cls in (struct.error, AssertionError)),
             'raises %s for a value of type %s' % (v.cls.__name__, m.vt.__name__))
        return
    ok = c.keyed is not None and (c.keyed[0] == ('md5' if key is None else 'hmac'))
    if ok and key is not None:
        ok = c.keyed[1][:1] == (key,) and c.keyed[2].get('digestmod', c.keyed[1][-1]) in (hashlib.sha256, 'sha256')
    c.ob('keyed', z3.BoolVal(bool(ok)), 'the key is not used')
    if k == 'return':
        c.ob('digest', z3.BoolVal(isinstance(v, Text) and v._kind == 'digest' and v._a[0] is c.stream), 'not the digest')
        c.ob('all-entries', c.it.k.t == m._n, 'entries are left out')
        for p in c.parts:
            c.ob('all-entries', z3.BoolVal(p.joined == 1), 'entries are left out')
        return
    n = c.stream.acc.n
    c.ob('signature-excluded', z3.Implies(m.key._sig, n == 0), 'the signature itself influences the checksum')
    c.ob('entry-included', z3.Implies(z3.Not(m.key._sig), n > 0), 'an entry of type %s is left out' % m.vt.__name__)


def u_checksum_code(ctx, want):
    """the encodings of two entries neither of which is a prefix of the other are those of equal entries"""
    a, b = Chk(ctx, 'a'), Chk(ctx, 'b')
    for c in (a, b):
        k, v = c.step(None)
        if k != 'step':
            raise PathEnd()
        ctx.assume(z3.Not(c.meta.key._sig))
        ctx.assume(c.meta.key.b.n < 2 ** 31)
        if isinstance(c.meta.val, BStr):
            ctx.assume(c.meta.val.b.n < 2 ** 31)
    ctx.shared.reached.add('pair')
    S, T = a.stream.acc, b.stream.acc
    lim = z3.If(S.n < T.n, S.n, T.n)
    idx = [z3.IntVal(0), z3.IntVal(1)]
    for c in (a, b):
        kl = c.meta.key.b.n
        for base in (kl, kl + 10):
            idx += [base + d for d in range(-1, 12)]
        vb = c.meta.val.b if isinstance(c.meta.val, (BStr, Num)) else c.meta.val if isinstance(c.meta.val, SBytes) else None
        if vb is not None:
            for off in (kl + 2, kl + 12, kl + 6, kl + 10, kl + 20):
                idx += [off + vb.n, off + vb.n - 1]
    idx += [z3.IntVal(d) for d in range(2, 12)]
    q = z3.Int('q')
    # generic positions in key and value
    for o in (0, 10):
        idx.append(q + o)
        for c in (a, b):
            for o2 in (2, 6, 10):
                idx.append(c.meta.key.b.n + o + o2 + q)
    # lengths of NUL-separated parts
    for c, o in ((a, b), (b, a)):
        for x in (c.meta.val, c.meta.key):
            if isinstance(x, (BStr, Num)):
                for off in (2, 10, 12, 20):
                    idx.append(o.meta.key.b.n + off + x.b.n)
    for x in idx:
        ctx.assume(z3.Implies(z3.And(x >= 0, x < lim), S.at(x) == T.at(x)))
    ka, kb = a.meta.key.b, b.meta.key.b
    ob = lambda n, g, info=None: ctx.prove('C03.checksum.' + n, g, info=info)
    what = '%s / %s' % (a.meta.vt.__name__, b.meta.vt.__name__)
    ob('unique-key-length', ka.n == kb.n, 'different keys are encoded alike (%s)' % what)
    ctx.assume(ka.n == kb.n)
    ob('unique-key', z3.Implies(z3.And(q >= 0, q < ka.n), ka.at(q) == kb.at(q)), 'different keys are encoded alike')
    ob('unique-type', z3.BoolVal(a.meta.vt is b.meta.vt), 'values of different types are encoded alike: ' + what)
    if a.meta.vt is not b.meta.vt:
        return
    x, y = a.meta.val, b.meta.val
    if isinstance(x, SBool):
        ob('unique-value', x.t == y.t, 'different booleans are encoded alike')
        return
    if x is None:
        return
    x, y = (x.b, y.b) if not isinstance(x, SBytes) else (x, y)
    ob('unique-value-length', x.n == y.n, 'different values are encoded alike (%s)' % what)
    ctx.assume(x.n == y.n)
    ob('unique-value', z3.Implies(z3.And(q >= 0, q < x.n), x.at(q) == y.at(q)), 'different values are encoded alike (%s)' % what)


def u_parse_literal(ctx, want):
    parse(ctx, False)


def u_parse_tuple(ctx, want):
    parse(ctx, True)


def parse(ctx, tup):
    i = Interp(ctx)
    P = lambda n, g, info=None: ctx.prove('C20.parse.' + n, g, info=info)
    T = [int, bool, bytes, str, float, type(None), tuple, list]
    spec = [int, bytes, bool, str][ctx.choose(4, 'spec')]
    spec2 = [int, bytes][ctx.choose(2, 'spec2')] if tup else None
    newt = ctx.choose(2, 'newtype')
    import typing
    NT = typing.NewType('NT', spec)
    out = {}

    def lit(ii, x):
        how = ctx.choose(6, 'literal')
        if how < 5:
            ii.raise_([ValueError, SyntaxError, TypeError, MemoryError, RecursionError][how], 'malformed')
        if tup:
            kind = ctx.choose(3, 'kind')
            if kind == 1:
                v = element(ctx, 'obj', [t for t in T if t is not tuple])
            else:
                n = ctx.choose(4, 'len')
                v = tuple(element(ctx, 'el%d' % j, [int, bool, bytes, str]) for j in range(n))
                if kind == 2:
                    v = list(v)
        else:
            v = element(ctx, 'obj', T)
        out['v'] = v
        return v
    i.bi[ast.literal_eval] = lit
    i.bi[eval] = lambda ii, *a: ctx.fail('C20.parse.eval', 'data is executed')

    class Buf(Model):
        m_type = bytes

        def m_state(self):
            return {}

        def decode(self, *a):
            if ctx.choose(2, 'utf8'):
                i.raise_(UnicodeDecodeError, 'bad')
            return Text('decoded')
    t1 = NT if newt else spec
    k, v = i.run_function(i.ifunc_by_name(co, 'parse_literal_tuple' if tup else 'parse_literal'),
                          [Buf(), (t1, spec2) if tup else t1])
    ty = lambda x: type(None) if x is None else i.pytype_of(x)
    if 'v' in out:
        x = out['v']
        good = (ty(x) is tuple and len(x) == 2 and ty(x[0]) is spec and ty(x[1]) is spec2) if tup and isinstance(x, tuple) \
            else (not tup and ty(x) is spec)
    else:
        good = False
    ctx.shared.reached.add(k)
    if k == 'return':
        P('accepts-only-exact', z3.BoolVal(good), 'accepts %s' % (out.get('v'),))
        P('value', z3.BoolVal(v is out.get('v')), 'returns something else')
    else:
        P('error', z3.BoolVal(v.cls is ValueError), 'raises %s' % v.cls.__name__)
        P('refuses-only-bad', z3.BoolVal(not good), 'refuses a correct literal')


UNITS = [
    ('serial.freeze', u_freeze, ['return', 'raise', 'entry-str', 'entry-bytes', 'entry-int', 'entry-NoneType', 'entry-bool', 'entry-float']),
    ('serial.thaw', u_thaw, ['return', 'raise', 'accept-str', 'accept-bytes', 'accept-int', 'accept-NoneType', 'accept-bool']),
    ('serial.checksum', u_checksum_iter, ['return', 'raise', 'step']),
    ('serial.checksum-code', u_checksum_code, ['pair']),
]
PARSE_UNITS = [('serial.parse_literal', u_parse_literal, ['return', 'raise']),
               ('serial.parse_literal_tuple', u_parse_tuple, ['return', 'raise'])]
UNITS = UNITS + PARSE_UNITS
