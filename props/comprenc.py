"""C01, C02: compression, encryption and authentication of stored objects.

Byte strings are tokens: a piece of the source (name, start, length), a length header, what a cipher or compressor made of
another token.  Consumers (cipher, MAC, output file) accept tokens in the only order in which the round trip works; positions
and lengths are integers of any size, reads return any number of bytes.
"""
from __future__ import annotations
import bz2, builtins, hashlib, hmac, io, lzma, os, struct, time, zlib
import z3, trio
from pyvc.values import *
from pyvc.core import *
from pyvc.interp import Interp, BUILTINS
import s3ql.backends.comprenc as ce
import s3ql.backends.common as bc
import s3ql.common as co
import s3ql.http as sh
from s3ql.backends.common import CorruptedObjectError, _FACTORY_SENTINEL
from s3ql.authinfo import CompressAlgorithm, CompressSpec

MOD = 's3ql.backends.comprenc'
CE = MOD + '.AsyncComprencBackend'
U32 = 2 ** 32


def zi(x):
    return x if z3.is_expr(x) else z3.IntVal(x)


class Tok(Model):
    """byte string of known origin"""
    m_type = bytes

    def __init__(self, kind, n, a=None, inner=None, extra=None):
        self.kind, self.n, self.a, self.inner, self.extra = kind, zi(n), None if a is None else zi(a), inner, extra

    def m_state(self):
        return {}

    def m_len(self):
        n = z3.simplify(self.n)
        return n.as_long() if z3.is_int_value(n) else SInt(n)

    def m_binop(self, i, op, o, swapped):
        if op == 'Mod' and swapped:
            return NotImplemented
        if op != 'Add':
            raise Unsupported('operation on bytes')
        if isinstance(o, bytes) and not o:
            return self
        if not isinstance(o, (Tok, Cat)):
            raise Unsupported('concatenation of bytes')
        l, r = (atoms(o), atoms(self)) if swapped else (atoms(self), atoms(o))
        return Cat(l + r)

    def m_eq(self, i, o):
        f = i.ctx.roots.get('$compare')
        if f is None or not isinstance(o, Tok):
            raise Unsupported('comparison of bytes')
        return f(self, o)


class Cat(Model):
    m_type = bytes

    def __init__(self, parts):
        self.parts = parts

    def m_state(self):
        return {}

    def m_len(self):
        return SInt(z3.Sum([p.n for p in self.parts]))

    m_binop = Tok.m_binop


def atoms(t):
    if isinstance(t, Tok):
        return [t]
    if isinstance(t, Cat):
        return list(t.parts)
    if isinstance(t, bytes) and not t:
        return []
    raise Unsupported('bytes of unknown origin')


class Src(Model):
    """readable file; read() may return less than asked for (unless full), but something unless at the end"""
    m_type = io.BufferedReader

    def __init__(self, ctx, i, kind, full=False, start=None, size=None):
        self._ctx, self._i, self._kind, self._full = ctx, i, kind, full
        self._size = size if size is not None else ctx.int('size', lo=0)
        self.pos = ctx.int('pos', lo=0) if start is None else start

    def m_state(self):
        return {'pos': self.pos}

    def m_havoc(self, i, k):
        self.pos = i.ctx.int('pos', lo=0)

    def avail(self, p=None):
        i = self._i
        p = i.as_int(self.pos) if p is None else p
        s = i.as_int(self._size)
        return z3.If(p < s, s - p, z3.IntVal(0))

    def read(self, n=None):
        i, ctx = self._i, self._ctx
        p = i.as_int(self.pos)
        av = self.avail()
        if n is None:
            lim = av
        else:
            nn = i.as_int(n)
            lim = z3.If(z3.Or(nn < 0, nn > av), av, nn)
        if self._full:
            k = lim
        else:
            k = ctx.int('got', lo=0).t
            ctx.assume(z3.And(k <= lim, z3.Implies(lim > 0, k > 0)))
        self.pos = i.mkint(p + k)
        return Tok(self._kind, k, p)

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        raise Unsupported('seek')


def rest_hints(pre, s, start, pfx=''):
    """an integer variable that counts down what is left to be read (its value before the loop, less what was read since)"""
    out = []
    for path, x in pre.items():
        if x[0] == 'l' and isinstance(x[3], (int, SInt)) and not isinstance(x[3], bool):
            v0 = x[3].t if isinstance(x[3], SInt) else z3.IntVal(x[3])
            out.append((pfx + 'left ' + path, lambda e, path=path, v0=v0: z3.And(e.m(path) + s() == v0 + start, e.m(path) >= 0)))
            out.append((pfx + 'done ' + path, lambda e, path=path, v0=v0: z3.And(e.m(path) - s() == v0 - start)))
    return out


def chunk_hints(i, pre, s, done, end):
    """a variable that holds a chunk read in the previous iteration (or before the loop) and not yet processed"""
    out = []

    def fresh(path, v):
        return Tok(v.kind, i.ctx.int(path, lo=0).t, i.ctx.int(path + '@').t) if isinstance(v, Tok) and v.a is not None else None
    i.list_fresh = fresh
    for path, x in pre.items():
        if x[0] == 'l' and isinstance(x[3], Tok) and x[3].a is not None:
            v = lambda e, path=path: e.v(path)
            for d in done:
                out.append(('chunk %s' % path, lambda e, v=v, d=d: z3.And(v(e).a == d(), v(e).a + v(e).n == s())))
            out.append(('eof ' + path, lambda e, v=v: z3.Implies(v(e).n == 0, s() >= end)))
            out.append(('chunk>=0 ' + path, lambda e, v=v: v(e).n >= 0))
    return out


class Counter(Model):
    """named integers that loops may change"""
    def __init__(self, ctx, i, **kw):
        object.__setattr__(self, '_c', (ctx, i))
        self.__dict__.update(kw)

    def m_state(self):
        return {k: v for k, v in self.__dict__.items() if not k.startswith('_')}

    def m_havoc(self, i, k):
        self.__dict__[k] = i.ctx.int(k)

    def z(self, k):
        return self._c[1].as_int(self.__dict__[k])

    def set(self, k, t):
        self.__dict__[k] = self._c[1].mkint(t)


def pack_header(i, P):
    def pack(ii, fmt, *a):
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        if fmt != '<I' or len(a) != 1:
            raise Unsupported('pack')
        x = i.as_int(a[0])
        P('length-fits', z3.And(x >= 0, x < U32), 'a packet is longer than its length field can hold')
        return Tok('hdr', 4, x)
    i.bi[struct.pack] = pack


def prover(ctx, *props):
    def P(name, g, info=None):
        g = g if z3.is_expr(g) else z3.BoolVal(bool(g))
        for p in props:
            ctx.prove(p + '.' + name, g, info=info)
    return P


# ------------------------------------------------------------------- encrypt_fh
def u_encrypt(ctx, want):
    """encrypt_fh: a sequence of packets (length, that many bytes of the source in order), a packet of length 0, and the MAC
    of all that, everything encrypted, for every length and every way in which reads are split"""
    i = Interp(ctx)
    i.auto_invariants, i.cut_loops = False, True
    P = prover(ctx, 'C01')
    src = Src(ctx, i, 'src')
    start = i.as_int(src.pos)
    av0 = src.avail()
    len_ = ctx.int('len', lo=0) if ctx.choose(2, 'len') else None
    key = ctx.val('key', bytes)
    HN = ctx.func('packet', z3.IntSort(), z3.IntSort())
    # e_/m_: cipher and MAC: place in the source, rest of the packet, packets, 0/1/2: data, terminated, MAC appended; seq/out: encrypted
    # and written tokens; defd: packets known to either
    g = Counter(ctx, i, e_pos=start if False else src.pos, m_pos=src.pos, e_rem=0, m_rem=0, e_k=0, m_k=0, e_fin=0, m_fin=0, seq=0, out=0, defd=0)
    ctx.roots['g'] = g
    used = []

    def accept(w, t):
        z = lambda n: g.z(w + '_' + n)
        if t.kind == 'hdr':
            n = t.a
            P('encrypt.packet-order', z3.And(z('rem') == 0, z('fin') == 0), 'a length is written in the middle of a packet or after the end')
            k = z('k')
            if ctx.branch(k >= g.z('defd'), 'new packet'):
                ctx.assume(HN(k) == n)
                g.set('defd', k + 1)
            else:
                P('encrypt.same-stream', HN(k) == n, 'what is encrypted and what is authenticated differs')
            g.set(w + '_k', k + 1)
            if ctx.branch(n == 0, 'terminator'):
                g.set(w + '_fin', z3.IntVal(1))
            else:
                g.set(w + '_rem', n)
        elif t.kind == 'src':
            P('encrypt.order', z3.Implies(t.n > 0, z3.And(t.a == z('pos'), t.n <= z('rem'), z('fin') == 0)),
              'data is missing, repeated or in the wrong place')
            g.set(w + '_pos', z('pos') + t.n)
            g.set(w + '_rem', z('rem') - t.n)
        elif t.kind == 'digest':
            ok = z3.And(z('fin') == 1, z('rem') == 0, *[t.extra[n] == g.z('e_' + n) for n in ('pos', 'k', 'fin')])
            P('encrypt.mac', ok if w == 'e' else False, 'the MAC does not cover the whole stream')
            g.set(w + '_fin', z3.IntVal(2))
        else:
            P('encrypt.token', False, 'something else is encrypted')

    class Cipher(Model):
        def m_state(self):
            return {}

        def update(self, t):
            at = atoms(t)
            for x in at:
                accept('e', x)
            s = g.z('seq')
            g.set('seq', s + 1)
            return Tok('enc', z3.Sum([x.n for x in at] + [z3.IntVal(0)]), s)

        def finalize(self):
            return b''

    class Mac(Model):
        def m_state(self):
            return {}

        def update(self, t):
            for x in atoms(t):
                accept('m', x)

        def digest(self):
            return Tok('digest', 32, extra={n: g.z('m_' + n) for n in ('pos', 'k', 'fin')})

    class Out(Model):
        m_type = io.BytesIO

        def m_state(self):
            return {}

        def write(self, t):
            for x in atoms(t):
                P('encrypt.no-plaintext', x.kind == 'enc', 'data is written without being encrypted')
                if x.kind == 'enc':
                    P('encrypt.write-order', x.a == g.z('out'), 'the encrypted stream is not written in order')
                    g.set('out', g.z('out') + 1)
            return t.m_len() if isinstance(t, (Tok, Cat)) else len(t)

    def enc(it, a, k):
        P('encrypt.key', len(a) == 1 and a[0] is key and not used, 'another key is used')
        used.append('enc')
        return Cipher()
    i.contracts[MOD + '.aes_encryptor'] = enc

    def new(ii, k, msg=None, digestmod=None):
        if msg is not None or digestmod is not hashlib.sha256:
            raise Unsupported('another MAC')
        P('encrypt.mac-key', k is key and 'mac' not in used, 'another key is used')
        used.append('mac')
        return Mac()
    i.bi[hmac.new] = new
    pack_header(i, lambda n, t, m: P('encrypt.' + n, t, m))
    total = (z3.If(len_.t < av0, len_.t, av0) if len_ is not None else av0)

    def hints(ii, fr, pre):
        s = lambda: i.as_int(src.pos)
        return [('pos', lambda e: z3.And(s() == g.z('e_pos'), s() == g.z('m_pos'), s() >= start)),
                ('packet', lambda e: z3.And(g.z('e_rem') == 0, g.z('m_rem') == 0, g.z('e_fin') == 0, g.z('m_fin') == 0)),
                ('k', lambda e: z3.And(g.z('e_k') == g.z('m_k'), g.z('defd') == g.z('e_k'))),
                ('out', lambda e: g.z('seq') == g.z('out')),
                ('limit', lambda e: s() - start <= total)] + rest_hints(pre, s, start) + rest_hints(pre, lambda: g.z('e_pos'), start, 'processed ') + [
                    ('same', lambda e: z3.And(g.z('e_pos') == g.z('m_pos'), g.z('e_pos') >= start))] + chunk_hints(
                    i, pre, s, [lambda: g.z('e_pos')], start + total)
    i.loop_hints['encrypt_fh'] = hints
    k, v = i.run_function(i.ifunc_by_name(ce, 'encrypt_fh'), [src, Out(), key] + ([] if len_ is None else [len_]))
    ctx.shared.reached.add(k)
    P('encrypt.no-error', k == 'return', 'raises %s' % (v.cls.__name__ if k != 'return' else ''))
    if k == 'return':
        P('encrypt.complete', g.z('e_pos') - start == total, 'not exactly the requested bytes are stored')
        P('encrypt.source', i.as_int(src.pos) - start == total, 'more is read than requested')
        P('encrypt.terminated', g.z('e_fin') == 2, 'the stream is not terminated or not authenticated')
        P('encrypt.written', g.z('out') == g.z('seq'), 'not everything is written')


# ------------------------------------------------------------------- decrypt_fh
def u_decrypt(ctx, want):
    """decrypt_fh, for any stream: returns only if everything read was authenticated with the full MAC, nothing follows, and
    exactly the packet contents were written in order; and for streams made by encrypt_fh: always returns"""
    i = Interp(ctx)
    i.auto_invariants, i.cut_loops = False, True
    good = ctx.choose(2, 'sound stream') == 1
    P = prover(ctx, 'C01' if good else 'C02')
    both = prover(ctx, 'C01', 'C02')
    size = ctx.int('size', lo=0)
    src = Src(ctx, i, 'ct', full=good, start=ctx.int('start', lo=0), size=size)
    start = i.as_int(src.pos)
    key = ctx.val('key', bytes)
    HV = ctx.func('header', z3.IntSort(), z3.IntSort())
    p = z3.Int('p')
    ctx.assume(z3.ForAll([p], z3.And(HV(p) >= 0, HV(p) < U32), patterns=[HV(p)]))
    IsB = z3.Function(fresh_name('boundary'), z3.IntSort(), z3.BoolSort())
    if good:
        ctx.assume(IsB(start))
        ctx.assume(z3.ForAll([p], z3.Implies(IsB(p), z3.And(p + 36 <= size.t, z3.If(HV(p) == 0, p + 36 == size.t, z3.And(
            IsB(p + 4 + HV(p)), p + 4 + HV(p) + 36 <= size.t)))), patterns=[IsB(p)]))
    # dec, mac: up to where the stream was decrypted/authenticated; w, we: next byte to be written, end of the packet;
    # term: 0, or the end of the terminating packet
    g = Counter(ctx, i, dec=src.pos, mac=src.pos, w=src.pos, we=src.pos, term=0)
    ctx.roots['g'] = g
    st = {'cmp': [], 'used': []}

    class Cipher(Model):
        def m_state(self):
            return {}

        def update(self, t):
            out = []
            for x in atoms(t):
                both('decrypt.order', z3.And(z3.BoolVal(x.kind == 'ct'), x.a == g.z('dec')) if x.a is not None else False,
                     'the stream is not decrypted in order')
                g.set('dec', g.z('dec') + x.n)
                out.append(Tok('pt', x.n, x.a))
            return out[0] if len(out) == 1 else Cat(out)

        def finalize(self):
            return b''

    class Mac(Model):
        def m_state(self):
            return {}

        def update(self, t):
            for x in atoms(t):
                both('decrypt.authenticated', z3.And(z3.BoolVal(x.kind == 'pt'), x.a == g.z('mac')) if x.a is not None else False,
                     'the stream is not authenticated in order')
                g.set('mac', g.z('mac') + x.n)

        def digest(self):
            return Tok('digest', 32, extra=g.z('mac'))

    class Out(Model):
        def m_state(self):
            return {}

        def write(self, t):
            for x in atoms(t):
                both('decrypt.data', z3.Implies(x.n > 0, z3.And(z3.BoolVal(x.kind == 'pt'), x.a == g.z('w'), x.a + x.n <= g.z('we')))
                     if x.a is not None else False, 'something else than the packet contents in order is written')
                g.set('w', g.z('w') + x.n)
            return t.m_len()

    def dec(it, a, k):
        both('decrypt.key', len(a) == 1 and a[0] is key, 'another key is used')
        P('decrypt.once', 'enc' not in st['used'])
        st['used'].append('enc')
        return Cipher()
    i.contracts[MOD + '.aes_decryptor'] = dec

    def new(ii, k, msg=None, digestmod=None):
        if msg is not None or digestmod is not hashlib.sha256:
            raise Unsupported('another MAC')
        both('decrypt.mac-key', k is key, 'another key is used')
        st['used'].append('mac')
        return Mac()
    i.bi[hmac.new] = new

    def unpack(ii, fmt, t):
        if isinstance(fmt, bytes):
            fmt = fmt.decode()
        if fmt != '<I':
            raise Unsupported('unpack')
        if not isinstance(t, Tok) or t.kind != 'pt':
            both('decrypt.header', False, 'the length is not taken from the decrypted stream')
            raise PathEnd()
        if ctx.branch(t.n != 4, 'short header'):
            ii.raise_(struct.error, 'x')
        v = HV(t.a)
        both('decrypt.header-place', z3.And(g.z('w') == g.z('we'), t.a == g.z('we'), g.z('term') == 0), 'a length is read from elsewhere')
        if ctx.branch(v == 0, 'terminator'):
            g.set('term', t.a + 4)
        else:
            g.set('w', t.a + 4)
            g.set('we', t.a + 4 + v)
        return (SInt(v),)
    i.bi[struct.unpack] = unpack

    def compare(a, b):
        if isinstance(b, Tok) and b.kind == 'pt':
            a, b = b, a
        if not (isinstance(a, Tok) and isinstance(b, Tok) and a.kind == 'pt' and b.kind == 'digest'):
            both('decrypt.compare', False, 'the MAC is compared with something else')
            raise PathEnd()
        exact = z3.And(a.a == g.z('term'), a.n == 32, b.extra == g.z('term'), g.z('term') > 0)
        ok = ctx.bool('mac')
        if good:
            ctx.assume(z3.Implies(exact, ok.t))
        ctx.assume(z3.Implies(a.n != 32, z3.Not(ok.t)))
        st['cmp'].append((ok.t, exact))
        return ok
    i.bi[hmac.compare_digest] = lambda ii, a, b: compare(a, b)
    ctx.roots['$compare'] = compare

    def hints(ii, fr, pre):
        s = lambda: i.as_int(src.pos)
        base = [('pos', lambda e: z3.And(s() == g.z('dec'), s() == g.z('mac'), s() == g.z('w'), s() >= start)),
                ('z', lambda e: g.z('term') == 0),
                ('we', lambda e: g.z('w') == g.z('we')),
                ('limit', lambda e: g.z('w') <= g.z('we'))]
        if good:
            base += [('boundary', lambda e: IsB(s())), ('boundary-we', lambda e: IsB(g.z('we'))), ('in', lambda e: s() <= size.t)]
        for path, x in pre.items():
            if x[0] == 'l' and isinstance(x[3], (int, SInt)):
                base.append(('rest ' + path, lambda e, path=path: e.m(path) + g.z('w') == g.z('we')))
                base.append(('end ' + path, lambda e, path=path: e.m(path) == g.z('we')))
                v0 = x[3].t if isinstance(x[3], SInt) else z3.IntVal(x[3])
                base.append(('done ' + path, lambda e, path=path, v0=v0, w0=g.z('w'): e.m(path) - g.z('w') == v0 - w0))
        return base
    i.loop_hints['decrypt_fh'] = hints
    k, v = i.run_function(i.ifunc_by_name(ce, 'decrypt_fh'), [src, Out(), key])
    ctx.shared.reached.add(('good ' if good else 'any ') + k)
    if k == 'return':
        both('decrypt.all-data', z3.And(g.z('term') > 0, g.z('w') == g.z('we')), 'success without having seen the end of the data')
        both('decrypt.verified', z3.Or(*[z3.And(o, x) for o, x in st['cmp']]) if st['cmp'] else False,
             'success without a matching MAC over the whole stream')
        both('decrypt.end', z3.And(i.as_int(src.pos) == size.t, g.z('term') + 32 == size.t), 'success although more data follows')
    elif good:
        P('decrypt.no-error', False, 'a sound stream is refused with %s' % v.cls.__name__)
    else:
        P('decrypt.error', v.cls is CorruptedObjectError, 'a damaged stream raises %s' % v.cls.__name__)


# ------------------------------------------------------------------- compress_fh, decompress_fh, copyfh
class SeqOut(Model):
    """output file: must receive tokens of one kind contiguously from 0"""
    def __init__(self, ctx, i, kind, P, label, first=0):
        self._i, self._kind, self._P, self._label = i, kind, P, label
        self.pos = first

    def m_state(self):
        return {'pos': self.pos}

    def m_havoc(self, i, k):
        self.pos = i.ctx.int('opos', lo=0)

    def write(self, t):
        for x in atoms(t):
            p = self._i.as_int(self.pos)
            self._P(self._label, z3.Implies(x.n > 0, z3.And(z3.BoolVal(x.kind == self._kind), x.a == p)) if x.a is not None else False,
                    'the output is not written completely and in order')
            self.pos = self._i.mkint(p + x.n)
        return t.m_len() if not isinstance(t, bytes) else len(t)


def u_compress(ctx, want):
    """compress_fh: exactly the requested bytes are fed in order, the compressor is flushed once, all output is written in order"""
    i = Interp(ctx)
    i.auto_invariants, i.cut_loops = False, True
    P = prover(ctx, 'C01')
    src = Src(ctx, i, 'src')
    start, av0 = i.as_int(src.pos), src.avail()
    len_ = ctx.int('len', lo=0) if ctx.choose(2, 'len') else None
    g = Counter(ctx, i, fed=src.pos, made=0, flushed=0)
    ctx.roots['g'] = g
    out = SeqOut(ctx, i, 'z', P, 'compress.write-order')

    class Compr(Model):
        def m_state(self):
            return {}

        def made(self):
            n, a = ctx.int('compressed', lo=0).t, g.z('made')
            g.set('made', a + n)
            return Tok('z', n, a)

        def compress(self, t):
            for x in atoms(t):
                P('compress.order', z3.And(z3.BoolVal(x.kind == 'src'), x.a == g.z('fed'), g.z('flushed') == 0) if x.a is not None else False,
                  'data is missing, repeated or in the wrong place')
                g.set('fed', g.z('fed') + x.n)
            return self.made()

        def flush(self, *a):
            if a:
                raise Unsupported('flush mode')
            P('compress.flush-once', g.z('flushed') == 0, 'flushed twice')
            g.set('flushed', z3.IntVal(1))
            return self.made()
    total = (z3.If(len_.t < av0, len_.t, av0) if len_ is not None else av0)

    def hints(ii, fr, pre):
        s = lambda: i.as_int(src.pos)
        return [('pos', lambda e: z3.And(s() == g.z('fed'), s() >= start)), ('flushed', lambda e: g.z('flushed') == 0),
                ('out', lambda e: g.z('made') == i.as_int(out.pos)), ('limit', lambda e: s() - start <= total), ('started', lambda e: g.z('fed') >= start)] + rest_hints(
                    pre, s, start) + rest_hints(pre, lambda: g.z('fed'), start, 'processed ') + chunk_hints(
                    i, pre, s, [lambda: g.z('fed')], start + total)
    i.loop_hints['compress_fh'] = hints
    k, v = i.run_function(i.ifunc_by_name(ce, 'compress_fh'), [src, out, Compr()] + ([] if len_ is None else [len_]))
    ctx.shared.reached.add(k)
    P('compress.no-error', k == 'return', 'raises an error')
    if k == 'return':
        P('compress.complete', g.z('fed') - start == total, 'not exactly the requested bytes are compressed')
        P('compress.source', i.as_int(src.pos) - start == total, 'more is read than requested')
        P('compress.flushed', g.z('flushed') == 1, 'the compressed stream is not completed')
        P('compress.written', i.as_int(out.pos) == g.z('made'), 'not all of the compressed stream is written')


def refused(ctx, ii):
    """errors of the decompressors for malformed input"""
    errs = [(OSError, 'Invalid data stream'), (lzma.LZMAError, 'Corrupt input data'), (lzma.LZMAError, 'Input format not supported by decoder'),
            (lzma.LZMAError, 'Invalid or unsupported options'), (lzma.LZMAError, 'Unsupported integrity check'),
            (zlib.error, 'Error -3 while decompressing data: incorrect header check'), (zlib.error, 'Error 2 while decompressing data')]
    c, m = errs[ctx.choose(len(errs), 'refused')]
    ii.raise_(c, m)


def u_decompress(ctx, want):
    """decompress_fh, for any input: returns only if a complete compressed stream was read, nothing follows, and everything
    that came out was written in order; malformed input raises CorruptedObjectError; a sound stream is accepted"""
    i = Interp(ctx)
    i.auto_invariants, i.cut_loops = False, True
    good = ctx.choose(2, 'sound stream') == 1
    P = prover(ctx, 'C01' if good else 'C02')
    both = prover(ctx, 'C01', 'C02')
    src = Src(ctx, i, 'z', full=False)
    start, size = i.as_int(src.pos), i.as_int(src._size)
    # place where the compressed stream ends (not before at least one byte)
    ze = ctx.int('end of stream').t
    ctx.assume(ze > start)
    plain = ctx.int('plain size', lo=0).t
    if good:
        ctx.assume(ze == size)
    g = Counter(ctx, i, fed=src.pos, made=0)
    ctx.roots['g'] = g
    out = SeqOut(ctx, i, 'd', both, 'decompress.write-order')

    class Dec(Model):
        def m_state(self):
            return {}

        def decompress(self, t, *a):
            if a:
                raise Unsupported('decompress with limit')
            for x in atoms(t):
                both('decompress.order', z3.And(z3.BoolVal(x.kind == 'z'), x.a == g.z('fed')) if x.a is not None else False,
                     'input is missing, repeated or in the wrong place')
                if not good:
                    if ctx.choose(2, 'malformed'):
                        refused(ctx, i)
                    if ctx.branch(g.z('fed') >= ze, 'after the end') and ctx.choose(2, 'how'):
                        i.raise_(EOFError, 'End of stream already reached')
                g.set('fed', g.z('fed') + x.n)
            n, a = ctx.int('decompressed', lo=0).t, g.z('made')
            g.set('made', a + n)
            ctx.assume(z3.Implies(g.z('fed') >= ze, a + n == plain))
            ctx.assume(a + n <= plain)
            return Tok('d', n, a)

        def m_getattr(self, i, name):
            if name == 'eof':
                return SBool(g.z('fed') >= ze)
            if name == 'unused_data':
                f = g.z('fed')
                return Tok('unused', z3.If(f > ze, f - ze, z3.IntVal(0)), ze)
            if name in ('needs_input', 'unconsumed_tail'):
                raise Unsupported(name)
            return getattr(self, name)

    def hints(ii, fr, pre):
        s = lambda: i.as_int(src.pos)
        return [('pos', lambda e: z3.And(s() == g.z('fed'), s() >= start)), ('out', lambda e: g.z('made') == i.as_int(out.pos)),
                ('in', lambda e: z3.Or(s() <= size, s() == start)),
                ('full', lambda e: z3.Implies(g.z('fed') >= ze, g.z('made') == plain)),
                ('started', lambda e: g.z('fed') >= start)] + chunk_hints(i, pre, s, [lambda: g.z('fed')], size)
    i.loop_hints['decompress_fh'] = hints
    if good:
        ctx.assume(start < size)
    k, v = i.run_function(i.ifunc_by_name(ce, 'decompress_fh'), [src, out, Dec()])
    ctx.shared.reached.add(('good ' if good else 'any ') + k)
    if k == 'return':
        both('decompress.complete', z3.And(i.as_int(out.pos) == plain, g.z('fed') == ze), 'success although the stream is incomplete or data follows')
        both('decompress.end', z3.Or(i.as_int(src.pos) == size, start >= size), 'success although not everything was read')
    elif good:
        P('decompress.no-error', False, 'a sound stream is refused with %s' % v.cls.__name__)
    else:
        P('decompress.error', v.cls is CorruptedObjectError, 'malformed compressed data raises %s' % v.cls.__name__)


def u_copyfh(ctx, want):
    """copyfh: exactly the requested bytes in order; update() is given every byte after it was written"""
    i = Interp(ctx)
    i.auto_invariants, i.cut_loops = False, True
    P = prover(ctx, 'C01')
    src = Src(ctx, i, 'src')
    start, av0 = i.as_int(src.pos), src.avail()
    len_ = ctx.int('len', lo=0) if ctx.choose(2, 'len') else None
    out = SeqOut(ctx, i, 'src', P, 'copy.order', first=src.pos)
    g = Counter(ctx, i, upd=src.pos)
    ctx.roots['g'] = g

    class Upd(Model):
        def m_state(self):
            return {}

        def m_call(self, ii, a, k):
            t, = a
            for x in atoms(t):
                P('copy.update', z3.And(z3.BoolVal(x.kind == 'src'), x.a == g.z('upd'), x.a + x.n <= i.as_int(out.pos)) if x.a is not None else False,
                  'update() is not given what was written')
                g.set('upd', g.z('upd') + x.n)
    upd = Upd() if ctx.choose(2, 'update') else None
    total = (z3.If(len_.t < av0, len_.t, av0) if len_ is not None else av0)

    def hints(ii, fr, pre):
        s = lambda: i.as_int(src.pos)
        return [('pos', lambda e: z3.And(s() == i.as_int(out.pos), s() >= start)), ('upd', lambda e: g.z('upd') == s() if upd is not None else z3.BoolVal(True)),
                ('limit', lambda e: s() - start <= total), ('started', lambda e: i.as_int(out.pos) >= start),
                ('upd-out', lambda e: g.z('upd') == i.as_int(out.pos) if upd is not None else z3.BoolVal(True))] + rest_hints(
                    pre, s, start) + rest_hints(pre, lambda: i.as_int(out.pos), start, 'processed ') + chunk_hints(
                    i, pre, s, [lambda: i.as_int(out.pos)], start + total)
    i.loop_hints['copyfh'] = hints
    kw = {}
    if len_ is not None:
        kw['len_'] = len_
    if upd is not None:
        kw['update'] = upd
    k, v = i.run_function(i.ifunc_by_name(co, 'copyfh'), [src, out], kw)
    ctx.shared.reached.add(k)
    P('copy.no-error', k == 'return', 'raises an error')
    if k == 'return':
        P('copy.complete', i.as_int(out.pos) - start == total, 'not exactly the requested bytes are copied')
        P('copy.source', i.as_int(src.pos) - start == total, 'more is read than requested')
        if upd is not None:
            P('copy.updated', g.z('upd') == i.as_int(out.pos), 'update() is not given everything')


# ------------------------------------------------------------------- composition
class BT(Model):
    """byte string as a sequence of named parts; equality is equality of the parts"""
    m_type = bytes

    def __init__(self, *parts):
        self.parts = tuple(parts)

    def m_state(self):
        return {}

    @staticmethod
    def of(x):
        if isinstance(x, BT):
            return x.parts
        if isinstance(x, bytes):
            return (x,) if x else ()
        raise Unsupported('bytes of unknown origin')

    def m_binop(self, i, op, o, swapped):
        if op == 'Mod' and swapped:
            return NotImplemented
        if op != 'Add' or not isinstance(o, (bytes, BT)):
            raise Unsupported('operation %s on bytes and %s' % (op, type(o).__name__))
        l, r = (BT.of(o), BT.of(self)) if swapped else (BT.of(self), BT.of(o))
        return BT(*(l + r))

    def m_bool(self):
        if any(isinstance(x, bytes) or x[0] in ('dbl', 'frozen', 'pass', 'sha') for x in self.parts):
            return True
        raise Unsupported('bytes that may be empty')

    def m_eq(self, i, o):
        if isinstance(o, (bytes, BT)):
            if BT.of(o) == self.parts:
                return True
            raise Unsupported('comparison of different byte strings')
        return False


class KeyS(Model):
    m_type = str

    def m_state(self):
        return {}

    def encode(self, *a):
        return BT(('key',))

    def m_eq(self, i, o):
        if o is self:
            return True
        if isinstance(o, KeyS):
            raise Unsupported('comparison of keys')
        return i.ctx.bool('key equals') if isinstance(o, (str, SVal)) else False


class Mem(Model):
    """io.BytesIO: what was written, piece by piece (piece, length)"""
    m_type = io.BytesIO

    def __init__(self, ctx, i, P):
        self._ctx, self._i, self._P = ctx, i, P
        self.pieces, self.pos = [], z3.IntVal(0)

    def m_state(self):
        return {}

    def total(self):
        return z3.Sum([z3.IntVal(0)] + [n for _, n in self.pieces])

    def tell(self):
        return self._i.mkint(self.pos)

    def seek(self, off, whence=0):
        o = self._i.as_int(off)
        self.pos = z3.simplify(o + (self.total() if whence == 2 else self.pos if whence == 1 else 0))
        return self._i.mkint(self.pos)

    def put(self, x, n):
        self._P('file.append', self.pos == self.total(), 'written over other data')
        self.pieces.append((x, n))
        self.pos = z3.simplify(self.pos + n)

    def take(self, n=None):
        """the content from the position on"""
        t = self.total()
        n = t if n is None else n
        self._P('file.whole', z3.And(self.pos == 0, n >= t) if len(self.pieces) == 1 else False, 'only a part of a buffer is processed')
        self.pos = t
        return self.pieces[0] if self.pieces else (None, z3.IntVal(0))

    def getbuffer(self):
        class B(Model):
            nbytes = self._i.mkint(self.total())
        return B()


class DataFile(Model):
    """what is to be stored"""
    def __init__(self, ctx, i, typ):
        self._ctx, self._i, self.m_type = ctx, i, typ
        self.size, self.start = ctx.int('size', lo=0).t, ctx.int('start', lo=0).t
        self.pos = self.start

    def m_state(self):
        return {}

    def tell(self):
        return self._i.mkint(self.pos)

    def seek(self, off, whence=0):
        o = self._i.as_int(off)
        self.pos = o + (self.size if whence == 2 else self.pos if whence == 1 else 0)
        return self._i.mkint(self.pos)

    def take(self, n=None):
        a = self.pos
        av = z3.If(a < self.size, self.size - a, z3.IntVal(0))
        n = av if n is None else z3.If(n < av, n, av)
        self.pos = a + n
        return ('data', a, n), n


def take(i, f, n):
    if not isinstance(f, (Mem, DataFile)):
        raise Unsupported('file')
    return f.take(None if n is None else i.as_int(n))


def bytes_world(ctx, i, P, pw):
    """contracts of ciphers, checksums and serialization on byte strings with a known structure"""
    frozen = []

    def sha(it, a, k):
        return BT(('sha', BT.of(a[0])))
    i.contracts[MOD + '.sha256'] = sha

    class Aes(Model):
        def __init__(self, key, enc):
            self.key, self.enc, self.done = key, enc, False

        def m_state(self):
            return {}

        def update(self, b):
            if self.done:
                raise Unsupported('second use of a cipher')
            self.done = True
            b = BT.of(b)
            if self.enc:
                return BT(('aes', self.key, b))
            if len(b) == 1 and not isinstance(b[0], bytes) and b[0][0] == 'aes' and b[0][1] == self.key:
                return BT(*b[0][2])
            return BT(('decrypted', self.key, b))

        def finalize(self):
            return b''
    i.contracts[MOD + '.aes_encryptor'] = lambda it, a, k: Aes(BT.of(a[0]), True)
    i.contracts[MOD + '.aes_decryptor'] = lambda it, a, k: Aes(BT.of(a[0]), False)

    def freeze(it, a, k):
        if not isinstance(a[0], dict):
            raise Unsupported('freeze')
        frozen.append(dict(a[0]))
        return BT(('frozen', len(frozen) - 1))
    i.contracts[MOD + '.freeze_basic_mapping'] = i.contracts['s3ql.common.freeze_basic_mapping'] = freeze

    def pack(ii, fmt, *a):
        if fmt != '<d':
            raise Unsupported('pack')
        return BT(('dbl', len(frozen)))
    i.bi[struct.pack] = pack
    i.bi[time.time] = lambda ii: SFloat(z3.Real(fresh_name('now')))
    i.bi[hmac.compare_digest] = lambda ii, x, y: i.eq(x, y)

    def run_sync(ii, fn, *a, limiter=None, **kw):
        return SCoro(lambda: i.call(fn, list(a), {}), 'run_sync')
    i.bi[trio.to_thread.run_sync] = run_sync
    i.contracts[CE + '._get_thread_limiter'] = lambda it, a, k: NullModel()
    i.bi[io.BytesIO] = lambda ii, *a: Mem(ctx, i, P) if not a else (_ for _ in ()).throw(Unsupported('BytesIO with content'))
    for f, n in ((zlib.decompressobj, CompressAlgorithm.ZLIB), (bz2.BZ2Decompressor, CompressAlgorithm.BZIP2),
                 (lzma.LZMADecompressor, CompressAlgorithm.LZMA)):
        i.bi[f] = lambda ii, *a, n=n, **kw: ('decompressor', n)

    def compressor(n, lo):
        def f(ii, level=None, preset=None, **kw):
            lv = preset if preset is not None else level
            if kw or lv is None:
                raise Unsupported('compressor')
            if ctx.branch(i.as_int(lv) < lo, 'level too low'):
                ii.raise_(ValueError, 'compresslevel must be between 1 and 9')
            return ('compressor', n)
        return f
    i.bi[zlib.compressobj] = compressor(CompressAlgorithm.ZLIB, 0)
    i.bi[bz2.BZ2Compressor] = compressor(CompressAlgorithm.BZIP2, 1)
    i.bi[lzma.LZMACompressor] = compressor(CompressAlgorithm.LZMA, 0)
    return frozen


class Sig(Model):
    m_type = bytes

    def __init__(self, d, key):
        self.d, self.key = d, key

    def m_state(self):
        return {}

    def m_eq(self, i, o):
        if not isinstance(o, Sig):
            return False
        if self.key != o.key or set(self.d) != set(o.d):
            return False
        return all(i.same(v, o.d[k]) or i.truth(i.eq(v, o.d[k]), 'sig') for k, v in self.d.items())


def args(a, k, names):
    """positional and keyword arguments of a contracted function"""
    out = list(a) + [None] * (len(names) - len(a))
    for n, v in k.items():
        out[names.index(n)] = v
    return out


def u_roundtrip(ctx, want):
    """write_fh followed by readinto_fh under the same key and passphrase gives back exactly the requested bytes and the metadata,
    and the backend is given no plaintext"""
    i = Interp(ctx)
    P0 = prover(ctx, 'C01')
    P = lambda n, t, m=None: P0('roundtrip.' + n, t, m)
    alg = list(CompressAlgorithm)[ctx.choose(len(CompressAlgorithm), 'algorithm')]
    pw = BT(('pass',)) if ctx.choose(2, 'passphrase') else None
    level = ctx.int('level', lo=0)
    ctx.assume(level.t <= 9)
    frozen = bytes_world(ctx, i, P, pw)
    key = KeyS()
    src = DataFile(ctx, i, io.BytesIO if ctx.choose(2, 'filetype') else io.BufferedReader)
    start, len_ = src.start, ctx.int('len', lo=0)
    ctx.assume(start + len_.t <= src.size)
    dont = bool(ctx.choose(2, 'dont_compress'))
    kx, vx = ctx.val('metakey', str), ctx.val('metaval', object)
    md = ({}, {kx: vx}, None)[ctx.choose(3, 'metadata')]
    md0 = dict(md) if md else {}
    st = {}

    def spec(name):
        class S(Model):
            def m_state(self):
                return {}
        S.m_type = CompressSpec
        s = S()
        s.algorithm, s.level = alg, level
        return s

    class Backend(Model):
        def m_state(self):
            return {}

        def write_fh(self, *a, **k):
            k_, fh, meta = args(a, k, ['key', 'fh', 'metadata'])

            def run():
                P('once', 'stored' not in st, 'stored twice')
                P('key', k_ is key, 'stored under another key')
                fh.seek(0)
                c, n = fh.take()
                if not isinstance(meta, dict):
                    raise Unsupported('metadata')
                st['stored'] = (c, n, dict(meta))
                return ('size', n)
            return SCoro(run, 'write_fh')

        def readinto_fh(self, *a, **k):
            k_, fh = args(a, k, ['key', 'fh'])

            def run():
                P('read-key', k_ is key, 'another key is read')
                fh.put(st['stored'][0], st['stored'][1])
                return dict(st['stored'][2])
            return SCoro(run, 'readinto_fh')

        def lookup(self, k_):
            def run():
                P('read-key', k_ is key, 'another key is looked up')
                return dict(st['stored'][2])
            return SCoro(run, 'lookup')
    me = SObj(ce.AsyncComprencBackend, {'passphrase': pw, 'compress': spec(alg), 'backend': Backend()})

    def fh_size(it, a, k):
        f = a[0]
        if isinstance(f, DataFile):
            if f.m_type is not io.BytesIO:
                f.pos = ctx.int('position').t
            return i.mkint(f.size)
        return i.mkint(f.total())
    i.contracts[MOD + '.fh_size'] = i.contracts['s3ql.http.fh_size'] = fh_size

    def compress(it, a, k):
        ifh, ofh, comp, n = args(a, k, ['ifh', 'ofh', 'compr', 'len_'])
        x, _ = take(i, ifh, n)
        if not (isinstance(comp, tuple) and comp[0] == 'compressor' and isinstance(ofh, Mem)):
            raise Unsupported('compress_fh')
        ofh.put(('compressed', comp[1], x), ctx.int('compressed', lo=1).t)
    i.contracts[MOD + '.compress_fh'] = compress

    def encrypt(it, a, k):
        ifh, ofh, kk, n = args(a, k, ['ifh', 'ofh', 'key', 'len_'])
        x, m = take(i, ifh, n)
        if not isinstance(ofh, Mem):
            raise Unsupported('encrypt_fh')
        ofh.put(('encrypted', BT.of(kk), x), ctx.int('encrypted', lo=36).t)
    i.contracts[MOD + '.encrypt_fh'] = encrypt

    def decrypt(it, a, k):
        ifh, ofh, kk = args(a, k, ['ifh', 'ofh', 'key'])
        x, _ = take(i, ifh, None)
        if not (isinstance(x, tuple) and x[0] == 'encrypted' and x[1] == BT.of(kk)):
            it.raise_(CorruptedObjectError, 'HMAC mismatch')
        ofh.put(x[2], ctx.int('decrypted', lo=0).t)
    i.contracts[MOD + '.decrypt_fh'] = decrypt

    def decompress(it, a, k):
        ifh, ofh, d = args(a, k, ['ifh', 'ofh', 'decompressor'])
        x, _ = take(i, ifh, None)
        if not (isinstance(x, tuple) and x[0] == 'compressed' and isinstance(d, tuple) and d == ('decompressor', x[1])):
            it.raise_(CorruptedObjectError, 'Invalid compressed stream')
        ofh.put(x[2], ctx.int('decompressed', lo=0).t)
    i.contracts[MOD + '.decompress_fh'] = decompress

    def copy(it, a, k):
        ifh, ofh, n, u = args(a, k, ['ifh', 'ofh', 'len_', 'update'])
        x, m = take(i, ifh, n)
        ofh.put(x, m)
    i.contracts[MOD + '.copyfh'] = i.contracts['s3ql.common.copyfh'] = copy

    def checksum(it, a, k):
        if not isinstance(a[0], dict):
            raise Unsupported('checksum')
        return Sig({n: v for n, v in a[0].items() if n != 'signature'}, BT.of(a[1]))
    i.contracts[MOD + '.checksum_basic_mapping'] = i.contracts['s3ql.backends.common.checksum_basic_mapping'] = checksum

    def thaw(it, a, k):
        p = BT.of(a[0])
        if len(p) == 1 and not isinstance(p[0], bytes) and p[0][0] == 'frozen':
            return dict(frozen[p[0][1]])
        it.raise_(co.ThawError)
    i.contracts[MOD + '.thaw_basic_mapping'] = i.contracts['s3ql.common.thaw_basic_mapping'] = thaw
    a = [key, src, len_] + ([] if md is None else [md])
    k, v = i.run_function(Bound(i.find_method(ce.AsyncComprencBackend, 'write_fh'), me), a, {'dont_compress': True} if dont else {})
    if k != 'return':
        # the name of the internal entry is refused
        ctx.shared.reached.add('refused')
        reserved = i.truth_term(i.eq(kx, '__size')) if md else z3.BoolVal(False)
        P('no-error', reserved if v.cls is ValueError else False, 'storing raises %s' % v.cls.__name__)
        P('nothing-stored', 'stored' not in st)
        return
    ctx.shared.reached.add('stored')
    P('stored', 'stored' in st, 'success without storing')
    if 'stored' not in st:
        return
    c, n, raw = st['stored']
    P('size', isinstance(v, tuple) and v[0] == 'size', 'not the size of the stored object is returned')
    P('argument', md is None or md == md0 if not md else set(md) == set(md0), 'the mapping passed by the caller is changed')
    if pw is not None:
        def leaks(x):
            if isinstance(x, BT):
                return any(not isinstance(q, bytes) and q[0] not in ('dbl', 'key', 'aes') for q in x.parts)
            return not (x is key or isinstance(x, (Sig, str, int)) and not isinstance(x, bool))
        P('no-plaintext', isinstance(c, tuple) and c[0] == 'encrypted', 'data is handed to the backend without encryption')
        P('no-plaintext-meta', not any(leaks(x) for x in raw.values()) and not any(x is kx for x in raw), 'metadata is handed to the backend without encryption')
    out = Mem(ctx, i, P)
    how = ctx.choose(3, 'fetch')
    if how == 2:
        k, v = i.run_function(Bound(i.find_method(ce.AsyncComprencBackend, 'lookup'), me), [key])
    else:
        hint = (None, ctx.int('hint', lo=0))[how]
        k, v = i.run_function(Bound(i.find_method(ce.AsyncComprencBackend, 'readinto_fh'), me), [key, out] + ([hint] if hint is not None else []))
    P('readable', k == 'return', 'what was stored cannot be read: %s' % (v.cls.__name__ if k != 'return' else ''))
    if k != 'return':
        return
    ctx.shared.reached.add('read')
    d = out.pieces[0][0] if len(out.pieces) == 1 else None
    if how != 2:
        P('data', z3.And(d[1] == start, d[2] == len_.t) if isinstance(d, tuple) and d[0] == 'data' else False, 'other data is returned')
    P('metadata', isinstance(v, dict) and set(v) == set(md0) and all(v[q] is md0[q] for q in md0), 'other metadata is returned')


class AnyMap(Model):
    """mapping (or something else) with arbitrary content, looked at key by key"""
    def __init__(self, ctx, i, isdict=True):
        self._ctx, self._i, self._have, self._val = ctx, i, {}, {}
        self.m_type = dict if isdict else str

    def m_state(self):
        return {}

    def has(self, k):
        if not isinstance(k, str):
            raise Unsupported('key')
        if k not in self._have:
            self._have[k] = bool(self._ctx.choose(2, 'has ' + k))
        return self._have[k]

    def value(self, k):
        if k not in self._val:
            c = self._ctx
            self._val[k] = (c.val(k, str), BT(('given', k)), c.int(k), c.bool(k), None, 1.5, 2j)[c.choose(7, 'type of ' + k)]
        return self._val[k]

    def m_contains(self, i, k):
        return self.has(k)

    def m_getitem(self, i, k):
        if not self.has(k):
            i.raise_(KeyError, k)
        return self.value(k)

    def get(self, k, d=None):
        return self.value(k) if self.has(k) else d


def u_verify(ctx, want):
    """_verify_meta, for any mapping: with a passphrase it returns only if the signature over the whole mapping is that made with the
    passphrase and the object was stored under the requested key; everything else is refused with the documented errors"""
    i = Interp(ctx)
    P0 = prover(ctx, 'C02')
    P = lambda n, t, m=None: P0('verify.' + n, t, m)
    pw = BT(('pass',)) if ctx.choose(2, 'passphrase') else None
    bytes_world(ctx, i, P, pw)
    key = ctx.val('key', str)
    m = AnyMap(ctx, i, bool(ctx.choose(2, 'isdict')))
    st = {'sig': []}

    def checksum(it, a, k):
        if a[0] is not m:
            P('whole-mapping', False, 'the signature does not cover the whole mapping')
            raise PathEnd()
        if ctx.choose(2, 'no checksum'):
            it.raise_(ValueError, 'x')
        return BT(('checksum', BT.of(a[1])))
    i.contracts[MOD + '.checksum_basic_mapping'] = i.contracts['s3ql.backends.common.checksum_basic_mapping'] = checksum

    def compare(ii, a, b):
        ok = ctx.bool('signature')
        if isinstance(a, BT) and isinstance(b, BT):
            x = {a.parts, b.parts}
            st['sig'].append((x, ok.t))
        return ok
    i.bi[hmac.compare_digest] = compare

    def thaw(it, a, k):
        if ctx.choose(2, 'thaw'):
            it.raise_(co.ThawError)
        st['meta'] = (BT.of(a[0]), {'thawed': True})
        return st['meta'][1]
    i.contracts[MOD + '.thaw_basic_mapping'] = i.contracts['s3ql.common.thaw_basic_mapping'] = thaw
    via = ctx.choose(2, 'lookup')
    if via:
        class Backend(Model):
            def m_state(self):
                return {}

            def lookup(self, k):
                P('lookup-key', k is key, 'another key is looked up')
                return SCoro(lambda: m, 'lookup')
        me = SObj(ce.AsyncComprencBackend, {'passphrase': pw, 'backend': Backend()})
        k, v = i.run_function(Bound(i.find_method(ce.AsyncComprencBackend, 'lookup'), me), [key])
    else:
        me = SObj(ce.AsyncComprencBackend, {'passphrase': pw})
        k, v = i.run_function(Bound(i.find_method(ce.AsyncComprencBackend, '_verify_meta'), me), [key, m])
    ctx.shared.reached.add(('encrypted ' if pw is not None else 'plain ') + k)
    if k != 'return':
        P('error', v.cls in (CorruptedObjectError, ce.ObjectNotEncrypted), 'malformed metadata raises %s' % v.cls.__name__)
        return
    d = st.get('meta')
    if via:
        P('lookup-result', isinstance(v, dict) and d is not None and set(v) <= set(d[1]), 'other metadata is returned')
        nonce, meta = m._val.get('nonce'), v
    else:
        P('result', isinstance(v, tuple) and len(v) == 2, 'unexpected result')
        nonce, meta = v
    P('meta', d is not None and (meta is d[1]), 'other metadata is returned')
    if pw is None or d is None:
        return
    mk = ('sha', (('pass',), ('given', 'nonce'), b'meta'))
    good = [z3.And(ok) for x, ok in st['sig'] if x == {(('given', 'signature'),), (('checksum', (mk,)),)}]
    P('signature', z3.Or(*good) if good else False, 'metadata without a valid signature is accepted')
    oid = m._val.get('object_id')
    P('object-id', oid.t == key.t if isinstance(oid, SVal) and oid.pytype is str else False, 'an object stored under another key is accepted')
    P('decrypted', d[0] == (('decrypted', (mk,), (('given', 'data'),)),), 'other metadata than the authenticated is returned')
    P('nonce', isinstance(nonce, BT) and nonce.parts == (('given', 'nonce'),), 'another nonce is used')


def u_read(ctx, want):
    """readinto_fh with a passphrase, for any stored data: succeeds only if the metadata was verified for the key requested and the whole
    data stream was authenticated with the key that belongs to it; what is written is what that stream contains"""
    i = Interp(ctx)
    P0 = prover(ctx, 'C02')
    P = lambda n, t, m=None: P0('read.' + n, t, m)
    pw = BT(('pass',))
    bytes_world(ctx, i, P, pw)
    key = KeyS()
    from s3ql.backends.common import NoSuchObject
    alg = list(CompressAlgorithm)[ctx.choose(len(CompressAlgorithm), 'algorithm')]
    # facts about metadata that carries a valid signature: it was made by write_fh (roundtrip.*) or by upgrades that added payload_offset
    raw = {'format_version': 2, 'compression': ce._METADATA_TOKEN[alg], 'encryption': 'AES_v2', 'object_id': key,
           'nonce': BT(('dbl', 0), ('key',)), 'data': BT(('given', 'data')), 'signature': BT(('given', 'signature'))}
    off = ctx.int('offset', lo=0) if ctx.choose(2, 'payload_offset') else None
    if off is not None:
        raw['payload_offset'] = off
    mx = ctx.val('value', object)
    meta = {'m': mx}
    if ctx.choose(2, 'has size'):
        meta['__size'] = ctx.int('plainsize', lo=0)
    total = ctx.int('stored size', lo=0).t
    st = {'decrypted': [], 'verified': 0}
    out = Mem(ctx, i, P)

    class Stored(Mem):
        def take(self, n=None):
            P('whole-object', z3.And(self.pos == (off.t if off is not None else 0), z3.BoolVal(n is None)), 'not the whole object is authenticated')
            self.pos = self.total()
            return self.pieces[0]

    class Backend(Model):
        def m_state(self):
            return {}

        def readinto_fh(self, *a, **k):
            k_, fh = args(a, k, ['key', 'fh'])

            def run():
                P('key', k_ is key, 'another key is read')
                P('not-into-result', fh is not out, 'unauthenticated data is written to the result')
                c = ctx.choose(3, 'backend')
                if c:
                    i.raise_([None, NoSuchObject, CorruptedObjectError][c], 'x')
                fh.put('object', total)
                fh.__class__ = Stored
                return raw
            return SCoro(run, 'readinto_fh')
    me = SObj(ce.AsyncComprencBackend, {'passphrase': pw, 'backend': Backend()})

    def verify(it, a, k):
        P('verify-args', a[1] is key and a[2] is raw, 'metadata is verified for another key')
        if ctx.choose(2, 'verify'):
            it.raise_([CorruptedObjectError, ce.ObjectNotEncrypted][ctx.choose(2, 'how')], 'x')
        st['verified'] += 1
        return (raw['nonce'], meta)
    i.contracts[CE + '._verify_meta'] = verify

    def decrypt(it, a, k):
        ifh, ofh, kk = args(a, k, ['ifh', 'ofh', 'key'])
        P('after-verify', st['verified'] > 0, 'data is used before the metadata was verified')
        x, _ = take(i, ifh, None)
        P('decrypt-input', x == 'object', 'something else is decrypted')
        P('data-key', BT.of(kk) == (('sha', (('pass',),) + raw['nonce'].parts),), 'another key is used')
        ofh.put(('decrypted',), ctx.int('n', lo=0).t)
        if ctx.choose(2, 'decrypt'):
            it.raise_(CorruptedObjectError, 'x')
        st['decrypted'].append(1)
    i.contracts[MOD + '.decrypt_fh'] = decrypt

    def decompress(it, a, k):
        ifh, ofh, d = args(a, k, ['ifh', 'ofh', 'decompressor'])
        x, _ = take(i, ifh, None)
        P('decompress-input', x == ('decrypted',) and len(st['decrypted']) == 1, 'data is decompressed without having been authenticated')
        P('algorithm', d == ('decompressor', alg), 'another algorithm is used')
        ofh.put(('plain',), ctx.int('n', lo=0).t)
        if ctx.choose(2, 'decompress'):
            it.raise_(CorruptedObjectError, 'x')
    i.contracts[MOD + '.decompress_fh'] = decompress

    def copy(it, a, k):
        ifh, ofh, n, u = args(a, k, ['ifh', 'ofh', 'len_', 'update'])
        x, m = take(i, ifh, n)
        ofh.put(x, m)
    i.contracts[MOD + '.copyfh'] = i.contracts['s3ql.common.copyfh'] = copy
    hint = (None, ctx.int('hint', lo=0))[ctx.choose(2, 'size_hint')]
    k, v = i.run_function(Bound(i.find_method(ce.AsyncComprencBackend, 'readinto_fh'), me), [key, out] + ([hint] if hint is not None else []))
    ctx.shared.reached.add(k)
    if k != 'return':
        P('error', v.cls in (CorruptedObjectError, ce.ObjectNotEncrypted, NoSuchObject), 'raises %s' % v.cls.__name__)
        return
    P('verified', st['verified'] == 1, 'success without verification of the metadata')
    P('authenticated', len(st['decrypted']) == 1, 'success without authentication of the data')
    P('data', [x for x, _ in out.pieces] == [('decrypted',) if alg is CompressAlgorithm.NONE else ('plain',)], 'other data is written')
    P('meta', isinstance(v, dict) and set(v) == {'m'} and v['m'] is mx, 'other metadata is returned')


UNITS = [
    ('comprenc.encrypt_fh', u_encrypt, ['return']),
    ('comprenc.decrypt_fh', u_decrypt, ['good return', 'any return', 'any raise']),
    ('comprenc.compress_fh', u_compress, ['return']),
    ('comprenc.decompress_fh', u_decompress, ['good return', 'any return', 'any raise']),
    ('comprenc.copyfh', u_copyfh, ['return']),
    ('comprenc.roundtrip', u_roundtrip, ['stored', 'refused', 'read']),
    ('comprenc._verify_meta', u_verify, ['encrypted return', 'encrypted raise', 'plain return', 'plain raise']),
    ('comprenc.readinto_fh', u_read, ['return', 'raise']),
]
