"""Contracts of standard-library objects used by the code under contract (trusted)."""
from __future__ import annotations
import io, stat, time, os, z3
from .values import *
from . import interp as I_
from .interp import BUILTINS, PYOPS


class Bag(Model):
    """Plain record with attributes (EntryAttributes, FileInfo, ...)."""

    def __init__(self, cls=None, fields=None):
        self.__dict__['f'] = dict(fields or {})
        self.__dict__['m_type'] = cls or object

    def m_getattr(self, i, name):
        if name in self.f:
            return self.f[name]
        return NotImplemented

    def m_setattr(self, i, name, v):
        self.f[name] = v
        return None

    def m_state(self):
        return dict(self.f)

    def m_havoc(self, i, k):
        self.f[k] = i.fresh_of(i.tag(self.f[k]), k)


class SBytesIO(Model):
    """io.BytesIO / buffer in memory: content + position."""
    m_type = io.BytesIO

    def __init__(self, i, init=None):
        self._i = i
        self.content = i.to_bytes(init) if init is not None else SBytes.lit(b'')
        self.pos = 0

    def p(self):
        return self._i.as_int(self.pos)

    def write(self, b):
        i = self._i
        b = i.to_bytes(b)
        c, p = self.content, self.p()
        n = c.n
        end = z3.simplify(p + b.n)
        if z3.is_true(z3.simplify(p == n)):
            self.content = c.concat(b)
        else:
            ca, ba = c.at, b.at
            self.content = SBytes(z3.simplify(z3.If(end > n, end, n)),
                                  lambda k: z3.If(z3.And(k >= p, k < p + b.n), ba(k - p),
                                                  z3.If(k < n, ca(k), z3.IntVal(0))))
        self.pos = i.mkint(end)
        return i.mkint(b.n)

    def read(self, size=None):
        i = self._i
        c, p = self.content, self.p()
        avail = z3.If(p < c.n, c.n - p, z3.IntVal(0))
        if size is None:
            k = avail
        else:
            s = i.as_int(size)
            k = z3.If(s < 0, avail, z3.If(s < avail, s, avail))
        k = z3.simplify(k)
        ca = c.at
        self.pos = i.mkint(p + k)
        return SBytes(k, lambda j: ca(j + p))

    def getvalue(self):
        return self.content

    def getbuffer(self):
        return self.content

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        i = self._i
        if not isinstance(whence, int):
            raise Unsupported('seek whence')
        o = i.as_int(off)
        if whence == 1:
            o = self.p() + o
        elif whence == 2:
            o = self.content.n + o
        if i.truth(i.mkbool(o < 0), 'seekneg'):
            i.raise_(ValueError, 'negative seek')
        self.pos = i.mkint(o)
        return self.pos

    def truncate(self, size=None):
        i = self._i
        s = self.p() if size is None else i.as_int(size)
        c = self.content
        n = z3.simplify(z3.If(s < c.n, s, c.n))
        self.content = SBytes(n, c.at)
        return i.mkint(s)

    def flush(self):
        return None

    def close(self):
        return None

    def m_state(self):
        return {'content': self.content, 'pos': self.pos}

    def m_havoc(self, i, k):
        if k == 'content':
            self.content = i.ctx.bytes('bio')
        else:
            self.pos = i.ctx.int('biopos', lo=0)

    def m_enter(self, i):
        return self

    def m_exit(self, i, exc):
        return False


BUILTINS[io.BytesIO] = lambda i, init=None: SBytesIO(i, init)


def _st(fn, val):
    def f(i, m):
        if isinstance(m, int):
            return fn(m)
        return i.eq(i.bitop('BitAnd', m, 0o170000), val)
    return f


for _n, _v in (('S_ISDIR', stat.S_IFDIR), ('S_ISREG', stat.S_IFREG), ('S_ISLNK', stat.S_IFLNK),
               ('S_ISFIFO', stat.S_IFIFO), ('S_ISBLK', stat.S_IFBLK), ('S_ISCHR', stat.S_IFCHR),
               ('S_ISSOCK', stat.S_IFSOCK)):
    BUILTINS[getattr(stat, _n)] = _st(getattr(stat, _n), _v)
BUILTINS[stat.S_IFMT] = lambda i, m: i.bitop('BitAnd', m, 0o170000) if not isinstance(m, int) else stat.S_IFMT(m)


def f_time(i):
    t = i.ctx.int('time', lo=0)
    return t


for _f in (time.time, time.monotonic, time.perf_counter, time.time_ns):
    BUILTINS[_f] = f_time
for _f in (os.getuid, os.getgid, os.getpid, os.geteuid):
    BUILTINS[_f] = (lambda f: lambda i: i.ctx.int(f.__name__, lo=0))(_f)


class SListN(Model):
    """Immutable list of symbolic length; elements given by a closure (engine value)."""
    m_type = list

    def __init__(self, n, elem):
        self._n, self._elem = n, elem

    def m_len(self):
        return SInt(self._n)

    def m_iter(self, i):
        return I_.SIter(self._n, self._elem)
