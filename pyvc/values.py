"""Value domain of the verification-condition generator.

Concrete Python values are represented by themselves.  Symbolic values wrap z3 terms.
Everything that can be written to during execution is a `Model` or an `SObj`; writes are
logged so that loop frames are inferred, never assumed.
"""
from __future__ import annotations
import itertools
import z3

V = z3.DeclareSort('V')           # opaque immutable values (bytes/str/...), only equality
vlen = z3.Function('vlen', V, z3.IntSort())
_fresh = itertools.count()


def reset_fresh():
    global _fresh
    _fresh = itertools.count()


def fresh_name(base):
    return '%s!%d' % (base, next(_fresh))


class Sym:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, self.t)

    def __hash__(self):
        return hash(self.t)

    # native comparison of symbolic values by host code is always a mistake
    def __bool__(self):
        raise TypeError('symbolic value used as native bool')


class SInt(Sym):
    __slots__ = ()

    def __eq__(self, o):
        raise TypeError('native == on SInt')
    __hash__ = Sym.__hash__


class SBool(Sym):
    __slots__ = ()

    def __eq__(self, o):
        raise TypeError('native == on SBool')
    __hash__ = Sym.__hash__


class SReal(Sym):
    """Quotient of two ints produced by true division (kept as a pair so ceil/floor are exact);
    `exact` is the z3 condition under which IEEE doubles give the mathematical result."""
    __slots__ = ('num', 'den')

    def __init__(self, num, den):
        self.num, self.den = num, den
        self.t = z3.ToReal(num) / z3.ToReal(den)

    __hash__ = Sym.__hash__


class SFloat(Sym):
    """Float, modelled as a real number."""
    __slots__ = ()

    def __eq__(self, o):
        raise TypeError('native == on SFloat')
    __hash__ = Sym.__hash__


class SVal(Sym):
    """Opaque immutable value with a Python type tag."""
    __slots__ = ('pytype',)

    def __init__(self, t, pytype=bytes):
        self.t = t
        self.pytype = pytype

    def __eq__(self, o):
        raise TypeError('native == on SVal')
    __hash__ = Sym.__hash__


class SBytes:
    """Immutable byte string: symbolic length + pointwise content."""
    __slots__ = ('n', 'at', 'tag')

    def __init__(self, n, at, tag=None):
        self.n = n if z3.is_expr(n) else z3.IntVal(n)
        self.at = at
        self.tag = tag

    @staticmethod
    def lit(b):
        def at(i, b=bytes(b)):
            r = z3.IntVal(0)
            if len(set(b)) == 1:
                return z3.IntVal(b[0])
            for k, c in enumerate(b):
                r = z3.If(i == k, z3.IntVal(c), r)
            return r
        return SBytes(len(b), at)

    def concat(self, o):
        n1, a1, a2 = self.n, self.at, o.at
        return SBytes(z3.simplify(n1 + o.n), lambda i: z3.If(i < n1, a1(i), a2(i - n1)))

    def slice(self, lo, hi):
        """lo/hi z3 ints, already clamped to 0 <= lo <= hi <= n"""
        a = self.at
        return SBytes(z3.simplify(hi - lo), lambda i: a(i + lo))

    def __repr__(self):
        return 'SBytes(n=%s)' % (self.n,)


class Model:
    """Base of hand-written models of external or contracted objects."""
    _label = None

    def label(self):
        return self._label or type(self).__name__


class NullModel(Model):
    """Swallows everything (loggers)."""

    def __getattr__(self, name):
        if name.startswith('__') or name.startswith('m_') or name in ('_label', '_async', 'havoc'):
            raise AttributeError(name)
        return lambda *a, **k: None


class SObj:
    """Instance of an interpreted class; identity known."""
    __slots__ = ('cls', 'f', '_label', 'oid')

    def __init__(self, cls, fields=None, label=None, ctx=None):
        self.cls = cls
        self.f = dict(fields or {})
        self._label = label or cls.__name__
        self.oid = None

    def label(self):
        return self._label

    def __repr__(self):
        return '<SObj %s %s>' % (self.cls.__name__, self._label)


class IFunc:
    """Interpreted function."""
    def __init__(self, node, module, qualname, closure=None, cls=None, is_async=None, defaults=None,
                 kw_defaults=None):
        import ast
        self.node = node
        self.module = module
        self.qualname = qualname
        self.closure = closure
        self.cls = cls
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.defaults = defaults
        self.kw_defaults = kw_defaults

    def __repr__(self):
        return '<IFunc %s.%s>' % (self.module.__name__, self.qualname)


class Bound:
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    def __repr__(self):
        return '<Bound %r>' % (self.fn,)


class SCoro:
    def __init__(self, thunk, name):
        self.thunk = thunk
        self.name = name
        self.awaited = False


class PyRaise(Exception):
    """A Python exception raised by interpreted code. value is an SObj whose cls is a real class."""
    def __init__(self, value):
        self.value = value

    def __repr__(self):
        return 'PyRaise(%s %s)' % (self.value.cls.__name__, self.value.f)


class PathEnd(BaseException):
    pass


class Unsupported(Exception):
    """Construct outside the verifier's reach."""
    pass
