"""Symbolic interpreter of the Python subset used by the code under contract.

The functions are read from /repo's current source on every run (ast), never transcribed.
"""
from __future__ import annotations
import ast, re, builtins, logging, types, inspect, threading, itertools, functools, operator
import z3
from .values import *
from .core import Ctx, PathEnd, RestartExploration, LoopInfo, has_quant

MAX_UNROLL = 400


LOGGER = NullModel()


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Cell:
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v


UNBOUND = object()

_mod_ast = {}


def module_ast(mod):
    """Parse the module's current source; index functions/classes by qualname."""
    fn = mod.__file__
    if fn.endswith('.so'):
        raise Unsupported('compiled module %s' % fn)
    if fn not in _mod_ast:
        src = open(fn, encoding='utf-8').read()
        tree = ast.parse(src, fn)
        index = {}

        def walk(body, prefix):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if any('overload' in ast.dump(d) for d in n.decorator_list):
                        continue
                    index[prefix + n.name] = n
                    walk(n.body, prefix + n.name + '.<locals>.')
                elif isinstance(n, ast.ClassDef):
                    index[prefix + n.name] = n
                    walk(n.body, prefix + n.name + '.')
                elif isinstance(n, (ast.If, ast.Try, ast.With)):
                    for fld in ('body', 'orelse', 'finalbody'):
                        walk(getattr(n, fld, []) or [], prefix)
                    for h in getattr(n, 'handlers', []) or []:
                        walk(h.body, prefix)
        walk(tree.body, '')
        _mod_ast[fn] = (tree, index, src)
    return _mod_ast[fn]


class Frame:
    __slots__ = ('f', 'locals', 'cells', 'module', 'interp', 'globals_decl', 'nonlocals', 'cur_exc', 'closure', 'gen')

    def __init__(self, f, module, closure=None):
        self.f = f
        self.locals = {}
        self.module = module
        self.closure = closure
        self.globals_decl = set()
        self.nonlocals = set()
        self.cur_exc = None
        self.gen = None


class SGen:
    """Generator of interpreted code, run in a hand-off thread."""

    def __init__(self, interp, frame, body_fn):
        self.interp = interp
        self.frame = frame
        self.body_fn = body_fn
        self.thread = None
        self.state = 'new'
        self.cv_in = threading.Semaphore(0)
        self.cv_out = threading.Semaphore(0)
        self.msg = None
        self.out = None
        interp.ctx.ghost.setdefault('_gens', []).append(self)

    def _run(self):
        self.cv_in.acquire()
        try:
            k, v = self.msg
            if k == 'kill':
                self.out = ('done', None)
                return
            if k == 'throw':
                raise v
            self.body_fn()
            self.out = ('done', None)
        except ReturnEx as e:
            self.out = ('done', e.v)
        except BaseException as e:
            self.out = ('exc', e)
        finally:
            self.state = 'done'
            self.cv_out.release()

    def resume(self, kind='next', v=None):
        """Returns ('yield', value) or ('done', retval); raises what the body raises."""
        if self.state == 'done':
            if kind == 'throw':
                raise v
            return ('done', None)
        if self.state == 'new':
            threading.stack_size(64 * 1024 * 1024)
            self.thread = threading.Thread(target=self._run, daemon=True)
            self.thread.start()
            self.state = 'run'
        self.msg = (kind, v)
        self.cv_in.release()
        self.cv_out.acquire()
        k, o = self.out
        if k == 'exc':
            raise o
        return (k, o)

    def do_yield(self, v):
        self.out = ('yield', v)
        self.cv_out.release()
        self.cv_in.acquire()
        k, x = self.msg
        if k == 'kill':
            raise PathEnd()
        if k == 'throw':
            raise x
        return x

    def kill(self):
        if self.state == 'run' and self.thread.is_alive():
            try:
                self.resume('kill')
            except BaseException:
                pass


class SCtxMgr:
    def __init__(self, gen, is_async):
        self.gen = gen
        self.is_async = is_async


def is_native(fn):
    m = getattr(fn, '__module__', None) or ''
    return m.startswith('pyvc') or m.startswith('props')


class Interp:
    def __init__(self, ctx: Ctx):
        self.bi = {}           # contracts of library functions, for this unit only
        self.ctx = ctx
        self.obj_over = {}        # id(real object) -> replacement
        self.keep = []
        self.contracts = {}       # 'module.qualname' -> callable(interp, args, kwargs)
        self.depth = 0
        self.loop_hints = {}      # function qualname prefix -> list of (name, fn(env)->z3)
        self.loop_rules = []      # callables (interp, frame, node) -> True if handled
        self.measures = []        # callables () -> dict name -> z3 int
        self.attr_hook = None
        self.on_yield = None      # called at every await of an async model
        self.call_stack = []
        self.obj_roots = {}

    # ------------------------------------------------------------------ util
    def override(self, real, repl):
        self.obj_over[id(real)] = repl
        self.keep.append(real)

    def wrap(self, v):
        """Real object found in a namespace -> engine value."""
        r = self.obj_over.get(id(v))
        if r is not None:
            return r
        if isinstance(v, logging.Logger):
            return LOGGER
        if isinstance(v, types.FunctionType):
            v0 = inspect.unwrap(v, stop=lambda f: id(f) in self.obj_over)
            if id(v0) in self.obj_over:
                return self.obj_over[id(v0)]
            if v0.__module__ and self.is_repo_module(v0.__module__) and '<lambda>' not in v0.__qualname__:
                return self.ifunc(v0)
        return v

    def is_repo_module(self, name):
        import sys
        m = sys.modules.get(name)
        f = getattr(m, '__file__', '') or ''
        return name.split('.')[0] == 's3ql' or f.startswith('/repo/') or name in ('expire_backups', 'vp_expire_backups')

    def ifunc(self, real):
        import sys
        mod = sys.modules[real.__module__]
        q = real.__qualname__
        return self.ifunc_by_name(mod, q)

    def ifunc_by_name(self, mod, q):
        tree, index, src = module_ast(mod)
        if q not in index:
            raise Unsupported('source of %s.%s not found' % (mod.__name__, q))
        return IFunc(index[q], mod, q)

    def raise_(self, cls, *args, **fields):
        o = SObj(cls, {'args': tuple(args)})
        if args and cls.__name__ == 'FUSEError':
            o.f['errno'] = args[0]
            o.f['errno_'] = args[0]
        o.f.update(fields)
        raise PyRaise(o)

    def yield_point(self, what):
        """A suspension point: other tasks may run here."""
        self.ctx.ghost['yields'] = self.ctx.ghost.get('yields', 0) + 1
        if self.on_yield is not None:
            self.on_yield(what)

    # ------------------------------------------------------------ truthiness
    def truth(self, v, label=''):
        """-> native bool, forking if symbolic"""
        t = self.truth_term(v)
        if isinstance(t, bool):
            return t
        return self.ctx.branch(t, label)

    def truth_term(self, v):
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SBytes):
            return z3.simplify(v.n > 0)
        if isinstance(v, SVal):
            if v.pytype in (bytes, str):
                return vlen(v.t) > 0
            return True
        if isinstance(v, (SReal, SFloat)):
            return v.t != 0
        if isinstance(v, Model):
            if hasattr(v, 'm_bool'):
                r = v.m_bool()
                return r.t if isinstance(r, SBool) else r
            if hasattr(v, 'm_len'):
                n = v.m_len()
                return n.t > 0 if isinstance(n, SInt) else n > 0
            return True
        if isinstance(v, SObj):
            fn = self.find_method(v.cls, '__bool__')
            if fn is not None:
                return self.truth_term(self.call(Bound(fn, v), [], {}))
            fn = self.find_method(v.cls, '__len__')
            if fn is not None:
                return self.truth_term(self.call(Bound(fn, v), [], {}))
            return True
        if isinstance(v, (IFunc, Bound, SGen, SCoro)):
            return True
        return bool(v)

    # ---------------------------------------------------------------- binops
    def as_int(self, v):
        if isinstance(v, SInt):
            return v.t
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, SBool):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        return None

    floats_as_reals = False
    list_fresh = None      # (path, value) -> arbitrary value for a list variable assigned by a symbolic loop
    list_model = None      # (path, list) -> Model standing for a list grown by a symbolic loop
    dict_model = None      # (name, dict) -> Model standing for a dictionary filled by a symbolic loop

    def as_real(self, v):
        if isinstance(v, (SFloat, SReal)):
            return v.t
        if isinstance(v, float):
            from fractions import Fraction
            if v != v or v in (float('inf'), float('-inf')):
                return None
            fr = Fraction(v)
            return z3.RealVal(fr.numerator) / z3.RealVal(fr.denominator)
        if self.intlike(v):
            return z3.ToReal(self.as_int(v))
        return None

    def intlike(self, v):
        return isinstance(v, (SInt, int, SBool))

    def symbolic(self, v):
        return isinstance(v, (Sym, SBytes, SObj, Model))

    def deep_symbolic(self, v):
        if self.symbolic(v) or isinstance(v, (IFunc, Bound, SGen, SCoro)):
            return True
        if isinstance(v, (list, tuple, set, frozenset)):
            return any(self.deep_symbolic(x) for x in v)
        if isinstance(v, dict):
            return any(self.deep_symbolic(x) or self.deep_symbolic(k) for k, x in v.items())
        return False

    def mkint(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        return SInt(t)

    def mkbool(self, t):
        if isinstance(t, bool):
            return t
        if not has_quant(t):
            t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t)

    def to_bytes(self, v):
        if isinstance(v, SBytes):
            return v
        if isinstance(v, (bytes, bytearray)):
            return SBytes.lit(bytes(v))
        if isinstance(v, Model) and hasattr(v, 'm_bytes'):
            return v.m_bytes()
        return None

    def binop(self, op, a, b):
        ctx = self.ctx
        if isinstance(a, Model) and hasattr(a, 'm_binop'):
            r = a.m_binop(self, op, b, False)
            if r is not NotImplemented:
                return r
        if isinstance(b, Model) and hasattr(b, 'm_binop'):
            r = b.m_binop(self, op, a, True)
            if r is not NotImplemented:
                return r
        if not self.deep_symbolic(a) and not self.deep_symbolic(b):
            try:
                return PYOPS[op](a, b)
            except Exception as e:
                self.raise_(type(e), *e.args)
        if op == 'Mod' and isinstance(a, (str, bytes)):
            return self.fmt(a, b)
        if self.intlike(a) and self.intlike(b):
            x, y = self.as_int(a), self.as_int(b)
            if op == 'Add':
                return self.mkint(x + y)
            if op == 'Sub':
                return self.mkint(x - y)
            if op == 'Mult':
                return self.mkint(x * y)
            if op in ('FloorDiv', 'Mod', 'Div'):
                if self.truth(self.mkbool(y == 0), 'div0'):
                    self.raise_(ZeroDivisionError, 'division by zero')
                if op == 'Div':
                    return SReal(x, y)
                # Python floor semantics; z3 div/mod agree for y > 0
                if self.truth(self.mkbool(y > 0), 'divpos'):
                    if z3.is_int_value(z3.simplify(y)):
                        return self.mkint(x / y) if op == 'FloorDiv' else self.mkint(x % y)
                    q, r = self.divmod_terms(x, y)
                    return self.mkint(q) if op == 'FloorDiv' else self.mkint(r)
                q = -((x) / (-y)) if False else z3.ToInt(z3.ToReal(x) / z3.ToReal(y))
                return self.mkint(q) if op == 'FloorDiv' else self.mkint(x - q * y)
            if op == 'LShift' and isinstance(b, int):
                return self.mkint(x * (1 << b))
            if op == 'LShift' and isinstance(a, int):
                return self.mkint(x * self.pow2(y))
            if op == 'RShift' and isinstance(b, int):
                return self.mkint(x / (1 << b))
            if op == 'RShift':
                return self.mkint(x / self.pow2(y))
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                if isinstance(a, SBool) and isinstance(b, (SBool, bool)) or isinstance(b, SBool) and isinstance(a, (SBool, bool)):
                    p = a.t if isinstance(a, SBool) else z3.BoolVal(a)
                    q = b.t if isinstance(b, SBool) else z3.BoolVal(b)
                    return self.mkbool({'BitAnd': z3.And, 'BitOr': z3.Or, 'BitXor': z3.Xor}[op](p, q))
                return self.bitop(op, a, b)
            if op == 'Pow' and isinstance(b, int) and 0 <= b <= 4:
                r = z3.IntVal(1)
                for _ in range(b):
                    r = r * x
                return self.mkint(r)
            raise Unsupported('int op ' + op)
        if isinstance(a, (SReal, SFloat, float)) or isinstance(b, (SReal, SFloat, float)):
            x, y = self.as_real(a), self.as_real(b)
            if x is None or y is None or not (isinstance(a, SFloat) or isinstance(b, SFloat)) and not self.floats_as_reals:
                raise Unsupported('float arithmetic')
            if op == 'Add':
                return SFloat(x + y)
            if op == 'Sub':
                return SFloat(x - y)
            if op == 'Mult':
                return SFloat(x * y)
            if op == 'Div':
                if self.truth(self.mkbool(y == 0), 'div0'):
                    self.raise_(ZeroDivisionError, 'division by zero')
                return SFloat(x / y)
            raise Unsupported('float op ' + op)
        if op == 'Add':
            ba, bb = self.to_bytes(a), self.to_bytes(b)
            if ba is not None and bb is not None:
                return ba.concat(bb)
            if isinstance(a, (list, tuple)) and type(a) is type(b):
                return a + b
            if self.strlike(a) and self.strlike(b):
                return SVal(z3.Function('concat', V, V, V)(self.as_v(a), self.as_v(b)), self.tyof(a))
        if op == 'Mult':
            if isinstance(b, (bytes, bytearray)):
                a, b = b, a
            if isinstance(a, (bytes, bytearray)) and len(a) == 1 and isinstance(b, SInt):
                c = z3.IntVal(a[0])
                return SBytes(z3.If(b.t > 0, b.t, 0), lambda i: c)
        if isinstance(a, SObj):
            nm = DUNDER.get(op)
            fn = nm and self.find_method(a.cls, nm)
            if fn is not None:
                return self.call(Bound(fn, a), [b], {})
        raise Unsupported('binop %s on %s, %s' % (op, type(a).__name__, type(b).__name__))

    def pow2(self, y):
        f = z3.Function('pow2', z3.IntSort(), z3.IntSort())
        t = f(y)
        self.ctx.assume(t >= 1)
        self.ctx.assume(z3.Implies(y == 0, t == 1))
        return t

    def bitop(self, op, a, b):
        """Bit operations: modelled bit by bit for constants that are unions of few bits, via an
        uninterpreted but functionally consistent `bit(x, k)`."""
        f = z3.Function('py_' + op.lower(), z3.IntSort(), z3.IntSort(), z3.IntSort())
        if isinstance(a, int) and not isinstance(b, int):
            a, b = b, a
        x, y = self.as_int(a), self.as_int(b)
        t = f(x, y)
        if op == 'BitAnd':
            if isinstance(b, int) and b >= 0:
                self.ctx.assume(z3.Implies(x >= 0, z3.And(t >= 0, t <= b, t <= x)))
                bit = lambda m: f(x, z3.IntVal(m)) if m > 1 else x % 2
                if (b + 1) & b == 0:
                    if 1 < b <= 15:
                        bits = [1 << k for k in range(b.bit_length())]
                        self.ctx.assume(x % (b + 1) == z3.Sum([bit(m) for m in bits]))
                        for m in bits:
                            self.ctx.assume(z3.Or(bit(m) == 0, bit(m) == m))
                    return self.mkint(x % (b + 1))
                if b & (b - 1) == 0:
                    self.ctx.assume(z3.Or(t == 0, t == b))
                elif bin(b).count('1') <= 4:
                    bits = [1 << k for k in range(b.bit_length()) if b >> k & 1]
                    self.ctx.assume(t == z3.Sum([bit(m) for m in bits]))
                    for m in bits:
                        self.ctx.assume(z3.Or(bit(m) == 0, bit(m) == m))
        elif op == 'BitOr':
            self.ctx.assume(z3.Implies(z3.And(x >= 0, y >= 0), z3.And(t >= x, t >= y, t <= x + y)))
        return SInt(t)

    def strlike(self, v):
        return isinstance(v, (bytes, str)) or isinstance(v, SVal) and v.pytype in (bytes, str)

    def tyof(self, v):
        return v.pytype if isinstance(v, SVal) else type(v)

    def as_v(self, v):
        """engine value -> term of sort V (opaque)"""
        if isinstance(v, SVal):
            return v.t
        if isinstance(v, (bytes, str)):
            return self.ctx.lit(v)
        if v is None:
            return z3.Const('NULLV', V)
        if isinstance(v, SBytes):
            # opaque name for a byte string: functional in its tag only
            if v.tag is None:
                v.tag = self.ctx.val('bytesval').t
                self.ctx.assume(vlen(v.tag) == v.n)
            return v.tag
        it = self.as_int(v)
        if it is not None:
            return z3.Function('int2v', z3.IntSort(), V)(it)
        if isinstance(v, SObj):
            if 'v_' not in v.f:
                v.f['v_'] = self.ctx.val('obj').t
            return v.f['v_']
        raise Unsupported('opaque of %s' % type(v).__name__)

    def fmt(self, f, args):
        if not isinstance(args, tuple):
            args = (args,)
        for a in args:
            if isinstance(a, Model) and hasattr(a, 'm_fmt'):
                r = a.m_fmt(self, f, args)
                if r is not NotImplemented:
                    return r
        parts = []
        for a in args:
            try:
                parts.append(self.as_v(a))
            except Unsupported:
                return self.ctx.val('fmt', type(f))
        if isinstance(f, str):
            it = iter(args)
            f = re.sub(r'%(%|s|d)', lambda m: m.group() if m.group(1) == '%' or not self.intlike(next(it, None)) else '%d', f) \
                if not re.search(r'%[^%sd]', f) else f
        fn = z3.Function('fmt_%r_%d' % (f, len(parts)), *([V] * len(parts) + [V]))
        return SVal(fn(*parts), type(f))

    def compare(self, op, a, b):
        ctx = self.ctx
        if op == 'Is':
            if a is None or b is None:
                return a is b
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                return self.eq(a, b)
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Model) and hasattr(x, 'm_is'):
                    return x.m_is(self, y)
            if isinstance(a, SVal) and isinstance(b, SVal) and a.pytype is object and b.pytype is object:
                return self.eq(a, b)
            return a is b
        if op == 'IsNot':
            r = self.compare('Is', a, b)
            return self.not_(r)
        if op == 'In':
            return self.contains(b, a)
        if op == 'NotIn':
            return self.not_(self.contains(b, a))
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            return self.not_(self.eq(a, b))
        if not self.deep_symbolic(a) and not self.deep_symbolic(b):
            try:
                return PYOPS[op](a, b)
            except Exception as e:
                self.raise_(type(e), *e.args)
        if isinstance(a, SReal) or isinstance(b, SReal):
            # x/y < k with y > 0 assumed checked
            def parts(v):
                if isinstance(v, SReal):
                    return v.t
                if isinstance(v, float):
                    return z3.RealVal(repr(v))
                return z3.ToReal(self.as_int(v))
            x, y = parts(a), parts(b)
        elif isinstance(a, (float, SFloat)) or isinstance(b, (float, SFloat)):
            x, y = self.as_real(a), self.as_real(b)
            if x is None or y is None:
                if a is None or b is None:
                    self.raise_(TypeError, 'unorderable')
                raise Unsupported('compare float')
        elif self.intlike(a) and self.intlike(b):
            x, y = self.as_int(a), self.as_int(b)
        elif isinstance(a, Model) and hasattr(a, 'm_compare'):
            return a.m_compare(self, op, b)
        elif self.strlike(a) and self.strlike(b):
            f = z3.Function('vless', V, V, z3.BoolSort())
            x, y = self.as_v(a), self.as_v(b)
            lt = {'Lt': f(x, y), 'Gt': f(y, x), 'LtE': z3.Not(f(y, x)), 'GtE': z3.Not(f(x, y))}[op]
            return self.mkbool(lt)
        elif isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            # lexicographic
            def lex(i):
                if i == len(a) or i == len(b):
                    return PYOPS[op](len(a), len(b))
                e = self.eq(a[i], b[i])
                l = self.compare('Lt' if op in ('Lt', 'LtE') else 'Gt', a[i], b[i])
                rest = lex(i + 1)
                return self.or_([l, self.and_([e, rest])])
            return lex(0)
        elif isinstance(a, SObj):
            fn = self.find_method(a.cls, DUNDER[op])
            if fn is None:
                self.raise_(TypeError, 'unorderable')
            return self.call(Bound(fn, a), [b], {})
        else:
            if a is None or b is None:
                self.raise_(TypeError, 'unorderable')
            raise Unsupported('compare %s %s %s' % (op, type(a).__name__, type(b).__name__))
        return self.mkbool({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])

    def not_(self, v):
        if isinstance(v, SBool):
            return self.mkbool(z3.Not(v.t))
        return not self.truth(v)

    def and_(self, vs):
        ts = []
        for v in vs:
            if isinstance(v, SBool):
                ts.append(v.t)
            elif not v:
                return False
        if not ts:
            return True
        return self.mkbool(z3.And(*ts))

    def or_(self, vs):
        ts = []
        for v in vs:
            if isinstance(v, SBool):
                ts.append(v.t)
            elif v:
                return True
        if not ts:
            return False
        return self.mkbool(z3.Or(*ts))

    def eq(self, a, b):
        if a is b and not isinstance(a, float):
            return True
        if isinstance(a, Model) and hasattr(a, 'm_eq'):
            r = a.m_eq(self, b)
            if r is not NotImplemented:
                return r
        if isinstance(b, Model) and hasattr(b, 'm_eq'):
            r = b.m_eq(self, a)
            if r is not NotImplemented:
                return r
        if not self.deep_symbolic(a) and not self.deep_symbolic(b):
            return a == b
        if a is None or b is None:
            return False
        if self.intlike(a) and self.intlike(b):
            if isinstance(a, SBool) and isinstance(b, (SBool, bool)) or isinstance(b, SBool) and isinstance(a, bool):
                p = a.t if isinstance(a, SBool) else z3.BoolVal(a)
                q = b.t if isinstance(b, SBool) else z3.BoolVal(b)
                return self.mkbool(p == q)
            return self.mkbool(self.as_int(a) == self.as_int(b))
        if isinstance(a, SFloat) or isinstance(b, SFloat):
            x, y = self.as_real(a), self.as_real(b)
            return False if x is None or y is None else self.mkbool(x == y)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            return self.and_([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, SBytes) or isinstance(b, SBytes):
            x, y = self.to_bytes(a), self.to_bytes(b)
            if x is None or y is None:
                if self.strlike(a) or self.strlike(b):
                    return self.mkbool(self.as_v(a) == self.as_v(b))
                return False
            if isinstance(a, bytes) and len(a) == 0:
                return self.mkbool(y.n == 0)
            if isinstance(b, bytes) and len(b) == 0:
                return self.mkbool(x.n == 0)
            for u, w in ((a, y), (b, x)):
                if isinstance(u, bytes):
                    return self.mkbool(z3.And(w.n == len(u), *[w.at(z3.IntVal(i)) == c for i, c in enumerate(u)]))
            k = z3.Int(fresh_name('i'))
            return self.mkbool(z3.And(x.n == y.n, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < x.n), x.at(k) == y.at(k)))))
        if self.strlike(a) and self.strlike(b):
            if self.tyof(a) is not self.tyof(b):
                return False
            return self.mkbool(self.as_v(a) == self.as_v(b))
        if isinstance(a, SVal) and isinstance(b, SVal):
            return self.mkbool(a.t == b.t)
        if isinstance(a, SObj) and isinstance(b, SObj):
            fn = self.find_method(a.cls, '__eq__')
            if fn is not None and isinstance(fn, IFunc):
                return self.call(Bound(fn, a), [b], {})
            if hasattr(a.cls, '__dataclass_fields__') and a.cls is b.cls:
                return self.and_([self.eq(a.f[k], b.f[k]) for k in a.cls.__dataclass_fields__])
            return False
        if isinstance(a, SVal) and a.pytype is object or isinstance(b, SVal) and b.pytype is object:
            return self.mkbool(self.as_v(a) == self.as_v(b))
        if isinstance(a, (SObj, Model, IFunc, Bound)) or isinstance(b, (SObj, Model, IFunc, Bound)):
            return False
        ta = self.pytype_of(a)
        tb = self.pytype_of(b)
        if ta is not tb:
            return False
        raise Unsupported('eq %s %s' % (type(a).__name__, type(b).__name__))

    def pytype_of(self, v):
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, SBytes):
            return bytes
        if isinstance(v, SVal):
            return v.pytype
        if isinstance(v, (SReal, SFloat)):
            return float
        if isinstance(v, SObj):
            return v.cls
        if isinstance(v, Model):
            return getattr(v, 'm_type', type(v))
        return type(v)

    def contains(self, c, x):
        if isinstance(c, Model):
            if hasattr(c, 'm_contains'):
                return c.m_contains(self, x)
            raise Unsupported('contains on %s' % type(c).__name__)
        if isinstance(c, SObj):
            fn = self.find_method(c.cls, '__contains__')
            if fn is not None:
                return self.call(Bound(fn, c), [x], {})
            raise Unsupported('contains on ' + c.cls.__name__)
        if isinstance(c, (list, tuple, set, frozenset)):
            if not self.deep_symbolic(x) and not any(self.deep_symbolic(y) for y in c):
                return x in c
            return self.or_([self.eq(x, y) for y in c])
        if isinstance(c, dict):
            if not self.deep_symbolic(x) and not any(self.deep_symbolic(k) for k in c):
                return x in c
            return self.or_([self.eq(x, y) for y in c])
        if not self.deep_symbolic(x) and not self.deep_symbolic(c):
            try:
                return x in c
            except Exception as e:
                self.raise_(type(e), *e.args)
        if isinstance(c, (str, bytes)) or isinstance(c, SVal):
            return SBool(z3.Function('vcontains', V, V, z3.BoolSort())(self.as_v(c), self.as_v(x)))
        raise Unsupported('in %s' % type(c).__name__)

    # --------------------------------------------------------------- attributes
    def find_method(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                d = k.__dict__[name]
                if isinstance(d, (staticmethod, classmethod)):
                    f = d.__func__
                elif isinstance(d, property):
                    return d
                else:
                    f = d
                if isinstance(f, types.FunctionType):
                    f0 = inspect.unwrap(f)
                    if self.is_repo_module(f0.__module__):
                        try:
                            r = self.ifunc(f0)
                        except Unsupported:
                            return None
                        r.cls = k
                        if isinstance(d, staticmethod):
                            r.kind = 'static'
                        elif isinstance(d, classmethod):
                            r.kind = 'class'
                        return r
                    return None
                return None
        return None

    def getattr(self, o, name, default=UNBOUND):
        ctx = self.ctx
        if self.attr_hook is not None:
            r = self.attr_hook(self, o, name)
            if r is not NotImplemented:
                return r
        if isinstance(o, SObj):
            # data descriptors (properties) first
            d = None
            for k in o.cls.__mro__:
                if name in k.__dict__:
                    d = k.__dict__[name]
                    break
            if isinstance(d, property):
                f0 = d.fget
                if self.is_repo_module(f0.__module__):
                    fn = self.ifunc(f0)
                    fn.cls = k
                    return self.call(Bound(fn, o), [], {})
                raise Unsupported('property %s' % name)
            if name in o.f:
                return o.f[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return o.f
            if d is not None:
                if isinstance(d, types.MemberDescriptorType):
                    d = None
                else:
                    fn = self.find_method(o.cls, name)
                    if fn is not None:
                        if getattr(fn, 'kind', None) == 'static':
                            return fn
                        if getattr(fn, 'kind', None) == 'class':
                            return Bound(fn, o.cls)
                        return Bound(fn, o)
                    if isinstance(d, types.FunctionType):
                        if id(d) in self.obj_over:
                            return Bound(self.obj_over[id(d)], o)
                        raise Unsupported('method %s.%s outside the repository' % (o.cls.__name__, name))
                    if not callable(d) or isinstance(d, type):
                        return self.wrap(d)
                    if name in ('with_traceback',):
                        return lambda *a: o
                    raise Unsupported('descriptor %s' % name)
            fn = self.find_method(o.cls, '__getattr__')
            if fn is not None:
                return self.call(Bound(fn, o), [name], {})
            if default is not UNBOUND:
                return default
            if issubclass(o.cls, BaseException):
                raise Unsupported('exception attribute ' + name)
            self.raise_(AttributeError, name)
        if isinstance(o, Model):
            if hasattr(o, 'm_getattr'):
                r = o.m_getattr(self, name)
                if r is not NotImplemented:
                    return r
            try:
                return getattr(o, name)
            except AttributeError:
                if default is not UNBOUND:
                    return default
                raise Unsupported('model %s has no attribute %s' % (type(o).__name__, name))
        if isinstance(o, types.ModuleType):
            over = self.obj_over.get((o.__name__, name))
            if over is not None:
                return over
            if name not in o.__dict__ and not hasattr(o, name):
                if default is not UNBOUND:
                    return default
                self.raise_(AttributeError, name)
            return self.wrap(getattr(o, name))
        if isinstance(o, type):
            fn = self.find_method(o, name)
            if isinstance(fn, IFunc):
                if getattr(fn, 'kind', None) == 'class':
                    return Bound(fn, o)
                return fn
            if hasattr(o, name):
                v = getattr(o, name)
                return self.wrap(v)
            if default is not UNBOUND:
                return default
            self.raise_(AttributeError, name)
        if isinstance(o, (SVal, SInt, SBytes, SBool, SReal, SFloat)):
            m = self.sym_method(o, name)
            if m is None:
                raise Unsupported('attribute %s of %s' % (name, type(o).__name__))
            return m
        if isinstance(o, (IFunc, Bound)):
            if name in ('__name__', '__qualname__'):
                f = o.fn if isinstance(o, Bound) else o
                return f.qualname.split('.')[-1] if isinstance(f, IFunc) else 'f'
            if name == '__self__':
                return o.self_
            raise Unsupported('attribute %s of function' % name)
        if isinstance(o, SGen):
            raise Unsupported('generator method ' + name)
        if isinstance(o, SCoro):
            raise Unsupported('coroutine attribute ' + name)
        # native container or real object
        if isinstance(o, (list, dict, set, tuple, str, bytes, int, float, bytearray, frozenset)) or o is None:
            if not hasattr(o, name):
                if default is not UNBOUND:
                    return default
                self.raise_(AttributeError, name)
            return NativeMethod(self, o, name)
        if hasattr(o, name):
            return self.wrap(getattr(o, name))
        if default is not UNBOUND:
            return default
        self.raise_(AttributeError, name)

    def sym_method(self, o, name):
        if isinstance(o, SBytes):
            if name in ('cast', 'tobytes', 'toreadonly'):
                return lambda *a: o
            if name == 'nbytes':
                return self.mkint(o.n)
            if name == 'startswith':
                def sw(p):
                    return self.mkbool(z3.And(o.n >= len(p), *[o.at(z3.IntVal(i)) == c for i, c in enumerate(p)]))
                return sw
            if name == 'release':
                return lambda: None
            if name == '__len__':
                return lambda: self.mkint(o.n)
        if isinstance(o, SInt):
            if name == 'bit_length':
                def bl():
                    f = z3.Function('bit_length', z3.IntSort(), z3.IntSort())
                    t = f(o.t)
                    self.ctx.assume(t >= 0)
                    # exact around the widths that matter
                    for w in (8, 16, 31, 32, 63, 64):
                        self.ctx.assume((t > w) == z3.Or(o.t >= 2 ** w, o.t <= -(2 ** w)))
                    return SInt(t)
                return bl
            if name == 'value':
                return o
        if isinstance(o, SVal):
            if name in ('encode', 'decode', 'strip', 'lower', 'upper', 'rstrip', 'lstrip', 'hex', 'digest',
                        'title', 'swapcase', 'casefold'):
                f = z3.Function('v_' + name, V, V)
                ty = {'encode': bytes, 'decode': str, 'hex': str}.get(name, o.pytype)
                return lambda *a: SVal(f(o.t), ty)
            if name in ('startswith', 'endswith'):
                f = z3.Function('v_' + name, V, V, z3.BoolSort())
                return lambda p: SBool(f(o.t, self.as_v(p)))
            if name in ('split', 'rsplit'):
                f = z3.Function('v_' + name, V, V, V)
                return lambda *a: SVal(f(o.t, self.as_v(a[0]) if a else self.as_v(None)), list)
        return None

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            d = None
            for k in o.cls.__mro__:
                if name in k.__dict__:
                    d = k.__dict__[name]
                    break
            if isinstance(d, property):
                if d.fset is None:
                    self.raise_(AttributeError, name)
                fn = self.ifunc_by_setter(d.fset)
                self.call(Bound(fn, o), [v], {})
                return
            fn = self.find_method(o.cls, '__setattr__')
            if isinstance(fn, IFunc):
                self.call(Bound(fn, o), [name, v], {})
                return
            o.f[name] = v
            return
        if isinstance(o, Model):
            if hasattr(o, 'm_setattr'):
                if o.m_setattr(self, name, v) is not NotImplemented:
                    return
            setattr(o, name, v)
            return
        if o is None:
            self.raise_(AttributeError, name)
        raise Unsupported('setattr on %s' % type(o).__name__)

    def ifunc_by_setter(self, f):
        import sys
        mod = sys.modules[f.__module__]
        tree, index, src = module_ast(mod)
        # property setters share the qualname; find the def by line number
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef) and n.name == f.__name__ and \
                    n.lineno <= f.__code__.co_firstlineno + len(n.decorator_list) and \
                    any('setter' in ast.dump(d) for d in n.decorator_list) and \
                    abs(f.__code__.co_firstlineno - n.lineno) <= 3:
                return IFunc(n, mod, f.__qualname__)
        raise Unsupported('property setter %s' % f.__qualname__)

    def getitem(self, o, k):
        if isinstance(o, Model):
            if hasattr(o, 'm_getitem'):
                return o.m_getitem(self, k)
            raise Unsupported('getitem on %s' % type(o).__name__)
        if isinstance(o, SObj):
            fn = self.find_method(o.cls, '__getitem__')
            if fn is None:
                raise Unsupported('getitem on ' + o.cls.__name__)
            return self.call(Bound(fn, o), [k], {})
        if isinstance(o, SBytes) or isinstance(o, (bytes, bytearray)) and self.deep_symbolic(k):
            return self.bytes_getitem(self.to_bytes(o), k)
        if isinstance(o, dict):
            if not self.deep_symbolic(k) and not any(self.deep_symbolic(x) for x in o):
                if k in o:
                    return o[k]
                if hasattr(o, 'default_factory') and o.default_factory is not None:
                    o[k] = self.call(o.default_factory, [], {})
                    return o[k]
                self.raise_(KeyError, k)
            for kk in list(o):
                if self.truth(self.eq(kk, k), 'dictkey'):
                    return o[kk]
            self.raise_(KeyError, k)
        if isinstance(o, (list, tuple)):
            if isinstance(k, slice):
                if self.deep_symbolic((k.start, k.stop, k.step)):
                    raise Unsupported('symbolic slice of list')
                return o[k]
            if isinstance(k, SInt):
                for i in range(len(o)):
                    if self.truth(self.mkbool(z3.Or(k.t == i, k.t == i - len(o))), 'idx'):
                        return o[i]
                self.raise_(IndexError, 'index out of range')
            try:
                return o[k]
            except (IndexError, TypeError) as e:
                self.raise_(type(e), *e.args)
        if isinstance(o, type) or o is None:
            return o                     # typing subscripts
        if isinstance(k, slice):
            if self.deep_symbolic((k.start, k.stop, k.step)) or self.symbolic(o):
                if self.strlike(o):
                    return self.ctx.val('slice', self.tyof(o))
                raise Unsupported('slice of %s' % type(o).__name__)
        if not self.deep_symbolic(o) and not self.deep_symbolic(k):
            try:
                return self.wrap(o[k])
            except Exception as e:
                self.raise_(type(e), *e.args)
        raise Unsupported('getitem %s' % type(o).__name__)

    def clamp(self, v, n, dflt):
        if v is None:
            return dflt
        t = self.as_int(v)
        if t is None:
            raise Unsupported('slice bound')
        t = z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t))
        return z3.simplify(t)

    def bytes_getitem(self, b, k):
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported('slice step')
            lo = self.clamp(k.start, b.n, z3.IntVal(0))
            hi = self.clamp(k.stop, b.n, b.n)
            hi = z3.simplify(z3.If(hi < lo, lo, hi))
            return b.slice(lo, hi)
        t = self.as_int(k)
        if self.truth(self.mkbool(z3.Or(t >= b.n, t < -b.n)), 'bytesidx'):
            self.raise_(IndexError, 'index out of range')
        t = z3.If(t < 0, t + b.n, t)
        return self.mkint(b.at(t))

    def setitem(self, o, k, v):
        if isinstance(o, Model):
            if hasattr(o, 'm_setitem'):
                return o.m_setitem(self, k, v)
            raise Unsupported('setitem on %s' % type(o).__name__)
        if isinstance(o, SObj):
            fn = self.find_method(o.cls, '__setitem__')
            if fn is None:
                raise Unsupported('setitem on ' + o.cls.__name__)
            return self.call(Bound(fn, o), [k, v], {})
        if isinstance(o, dict):
            if self.deep_symbolic(k) or any(self.deep_symbolic(x) for x in o):
                for kk in list(o):
                    if self.truth(self.eq(kk, k), 'dictkey'):
                        o[kk] = v
                        return
            o[k] = v
            return
        if isinstance(o, list):
            if isinstance(k, slice):
                if self.deep_symbolic((k.start, k.stop)):
                    raise Unsupported('symbolic slice assignment')
                o[k] = self.iter_concrete(v)
                return
            if isinstance(k, SInt):
                for i in range(len(o)):
                    if self.truth(self.mkbool(z3.Or(k.t == i, k.t == i - len(o))), 'idx'):
                        o[i] = v
                        return
                self.raise_(IndexError, 'index')
            try:
                o[k] = v
            except IndexError as e:
                self.raise_(IndexError, *e.args)
            return
        raise Unsupported('setitem on %s' % type(o).__name__)

    def delitem(self, o, k):
        if isinstance(o, Model):
            if hasattr(o, 'm_delitem'):
                return o.m_delitem(self, k)
            raise Unsupported('delitem on %s' % type(o).__name__)
        if isinstance(o, SObj):
            fn = self.find_method(o.cls, '__delitem__')
            if fn is None:
                raise Unsupported('delitem on ' + o.cls.__name__)
            return self.call(Bound(fn, o), [k], {})
        if isinstance(o, dict):
            if not self.deep_symbolic(k) and not any(self.deep_symbolic(x) for x in o):
                if k not in o:
                    self.raise_(KeyError, k)
                del o[k]
                return
            for kk in list(o):
                if self.truth(self.eq(kk, k), 'dictkey'):
                    del o[kk]
                    return
            self.raise_(KeyError, k)
        if isinstance(o, list) and isinstance(k, (int, slice)):
            try:
                del o[k]
            except IndexError as e:
                self.raise_(IndexError, *e.args)
            return
        raise Unsupported('delitem on %s' % type(o).__name__)

    # ------------------------------------------------------------------- calls
    def call(self, fn, args, kw):
        self.depth += 1
        if self.depth > 120:
            self.depth = 0
            raise Unsupported('call depth')
        try:
            return self._call(fn, args, kw)
        finally:
            self.depth -= 1

    def _call(self, fn, args, kw):
        ctx = self.ctx
        if isinstance(fn, Bound):
            return self._call(fn.fn, [fn.self_] + list(args), kw)
        if isinstance(fn, IFunc):
            key = fn.module.__name__ + '.' + fn.qualname
            c = self.contracts.get(key)
            if c is not None:
                ctx.shared.trusted.add('contract:' + key)
                return c(self, args, kw)
            return self.call_ifunc(fn, args, kw)
        if isinstance(fn, NativeMethod):
            return fn.call(args, kw)
        if isinstance(fn, Model):
            if hasattr(fn, 'm_call'):
                return fn.m_call(self, args, kw)
            raise Unsupported('call of %s' % type(fn).__name__)
        over = self.obj_over.get(id(fn))
        if over is not None and over is not fn:
            return self._call(over, args, kw)
        if isinstance(fn, type):
            return self.instantiate(fn, args, kw)
        b = (self.bi.get(fn) or BUILTINS.get(fn)) if _hashable(fn) else None
        if b is not None:
            return b(self, *args, **kw)
        if isinstance(fn, (types.FunctionType, types.MethodType, functools.partial)) and \
                (is_native(fn) or isinstance(fn, types.MethodType) and isinstance(fn.__self__, Model)):
            return fn(*args, **kw)
        if isinstance(fn, SObj):
            m = self.find_method(fn.cls, '__call__')
            if m is not None:
                return self.call(Bound(m, fn), args, kw)
        # real library function: run natively when every argument is concrete and it is known pure
        if not self.deep_symbolic(list(args)) and not self.deep_symbolic(kw):
            if _pure_ok(fn):
                try:
                    return fn(*args, **kw)
                except Exception as e:
                    self.raise_(type(e), *e.args)
        raise Unsupported('call of %s' % (getattr(fn, '__module__', '') or '') + '.' + getattr(fn, '__qualname__', repr(fn)))

    def instantiate(self, cls, args, kw):
        ctx = self.ctx
        b = self.bi.get(cls) or BUILTINS.get(cls)
        if b is not None:
            return b(self, *args, **kw)
        if issubclass(cls, BaseException):
            o = SObj(cls, {'args': tuple(args)})
            init = self.find_method(cls, '__init__')
            if isinstance(init, IFunc):
                self.call(Bound(init, o), args, kw)
            elif hasattr(cls, '__dataclass_fields__'):
                self.init_fields(o, cls, args, kw)
            elif cls.__name__ == 'FUSEError':
                o.f['errno'] = args[0]
            elif issubclass(cls, OSError) and len(args) >= 1:
                o.f['errno'] = args[0]
            return o
        key = cls.__module__ + '.' + cls.__qualname__
        c = self.contracts.get(key)
        if c is not None:
            return c(self, args, kw)
        if self.is_repo_module(cls.__module__):
            import enum
            if issubclass(cls, enum.Enum):
                if not self.deep_symbolic(args):
                    try:
                        return cls(*args)
                    except Exception as e:
                        self.raise_(type(e), *e.args)
                raise Unsupported('enum of symbolic')
            o = SObj(cls, {})
            init = None
            for k in cls.__mro__:
                if '__init__' in k.__dict__:
                    init = k.__dict__['__init__']
                    break
            fn = self.find_method(cls, '__init__')
            if isinstance(fn, IFunc):
                self.call(Bound(fn, o), args, kw)
                return o
            if hasattr(cls, '__dataclass_fields__') or hasattr(cls, '__attrs_attrs__') or \
                    (issubclass(cls, tuple) and hasattr(cls, '_fields')):
                self.init_fields(o, cls, args, kw)
                return o
            if init is object.__init__ or init is None:
                return o
            raise Unsupported('instantiate ' + key)
        if not self.deep_symbolic(list(args)) and not self.deep_symbolic(kw) and cls in PURE_CLASSES:
            try:
                return cls(*args, **kw)
            except Exception as e:
                self.raise_(type(e), *e.args)
        raise Unsupported('instantiate ' + key)

    def init_fields(self, o, cls, args, kw):
        sig = inspect.signature(cls)
        try:
            ba = sig.bind(*args, **kw)
        except TypeError as e:
            self.raise_(TypeError, str(e))
        for n, p in sig.parameters.items():
            if n in ba.arguments:
                o.f[n] = ba.arguments[n]
            else:
                d = p.default
                if hasattr(cls, '__dataclass_fields__'):
                    import dataclasses
                    fld = cls.__dataclass_fields__[n]
                    if fld.default_factory is not dataclasses.MISSING:
                        d = fld.default_factory()
                    else:
                        d = fld.default
                o.f[n] = d
        fn = self.find_method(cls, '__post_init__')
        if isinstance(fn, IFunc):
            self.call(Bound(fn, o), [], {})

    def bind(self, fn, args, kw):
        a = fn.node.args
        loc = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if len(args) > len(pos) and a.vararg is None:
            self.raise_(TypeError, 'too many positional arguments to ' + fn.qualname)
        for n, v in zip(pos, args):
            loc[n] = v
        if a.vararg is not None:
            loc[a.vararg.arg] = tuple(args[len(pos):])
        kwo = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in pos or k in kwo:
                if k in loc:
                    self.raise_(TypeError, 'multiple values for ' + k)
                loc[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            loc[a.kwarg.arg] = extra
        elif extra:
            self.raise_(TypeError, 'unexpected keyword ' + str(list(extra)))
        # defaults
        fr = Frame(fn, fn.module, fn.closure)
        nd = len(a.defaults)
        for i, n in enumerate(pos):
            if n not in loc:
                j = i - (len(pos) - nd)
                if j < 0:
                    self.raise_(TypeError, 'missing argument %s of %s' % (n, fn.qualname))
                loc[n] = fn.defaults[j] if fn.defaults is not None else self.eval(fr, a.defaults[j])
        for i, n in enumerate(kwo):
            if n not in loc:
                d = a.kw_defaults[i]
                if d is None:
                    self.raise_(TypeError, 'missing argument ' + n)
                loc[n] = fn.kw_defaults[i] if fn.kw_defaults is not None else self.eval(fr, d)
        return loc

    def call_ifunc(self, fn, args, kw):
        node = fn.node
        if isinstance(node, ast.Lambda):
            fr = Frame(fn, fn.module, fn.closure)
            fr.locals = self.bind(fn, args, kw)
            return self.eval(fr, node.body)
        loc = self.bind(fn, args, kw)
        fr = Frame(fn, fn.module, fn.closure)
        fr.locals = loc
        self.ctx.shared.functions.add(fn.module.__name__ + '.' + fn.qualname)
        decos = [self.deco_name(d) for d in node.decorator_list]
        isgen = is_generator(node)
        if isgen:
            def body():
                self.exec_block(fr, node.body)
            g = SGen(self, fr, body)
            fr.gen = g
            if 'asynccontextmanager' in decos:
                return SCtxMgr(g, True)
            if 'contextmanager' in decos:
                return SCtxMgr(g, False)
            g.is_async = fn.is_async
            return g

        def run():
            self.call_stack.append(fn.qualname)
            try:
                self.exec_block(fr, node.body)
            except ReturnEx as e:
                return e.v
            finally:
                self.call_stack.pop()
            return None
        if fn.is_async:
            c = SCoro(run, fn.qualname)
            self.ctx.coros.append(c)
            return c
        return run()

    def deco_name(self, d):
        if isinstance(d, ast.Call):
            d = d.func
        if isinstance(d, ast.Attribute):
            return d.attr
        if isinstance(d, ast.Name):
            return d.id
        return '?'

    def await_(self, v):
        if isinstance(v, SCoro):
            if v.awaited:
                self.raise_(RuntimeError, 'cannot reuse already awaited coroutine')
            v.awaited = True
            return v.thunk()
        if isinstance(v, Model) and hasattr(v, 'm_await'):
            return v.m_await(self)
        raise Unsupported('await of %s' % type(v).__name__)

    def run_function(self, fn, args, kw=None):
        """Run a function body (not its contract); awaits coroutines. Returns ('return', v) or
        ('raise', SObj)."""
        kw = kw or {}
        try:
            if isinstance(fn, Bound):
                args = [fn.self_] + list(args)
                fn = fn.fn
            r = self.call_ifunc(fn, args, kw)
            if isinstance(r, SCoro):
                r = self.await_(r)
            return ('return', r)
        except PyRaise as e:
            return ('raise', e.value)

    # ---------------------------------------------------------------- iteration
    def iter_concrete(self, v):
        """-> native list of engine values"""
        if isinstance(v, (list, tuple, set, frozenset, dict, range, str, bytes)) :
            return list(v)
        if isinstance(v, SGen):
            out = []
            while True:
                k, x = v.resume()
                if k == 'done':
                    return out
                out.append(x)
                if len(out) > MAX_UNROLL:
                    raise Unsupported('unbounded generator')
        if isinstance(v, Model) and hasattr(v, 'm_list'):
            return v.m_list(self)
        if isinstance(v, NativeIter):
            return list(v.it)
        if isinstance(v, SObj):
            fn = self.find_method(v.cls, '__iter__')
            if fn is not None:
                return self.iter_concrete(self.call(Bound(fn, v), [], {}))
        if hasattr(v, '__iter__') and not self.symbolic(v):
            return list(itertools.islice(iter(v), MAX_UNROLL))
        raise Unsupported('iteration over %s' % type(v).__name__)

    # --------------------------------------------------------------- statements
    def exec_block(self, fr, body):
        for st in body:
            self.exec(fr, st)

    def exec(self, fr, st):
        ctx = self.ctx
        ctx.steps += 1
        if ctx.steps > 60000:
            raise Unsupported('step limit')
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        try:
            return m(fr, st)
        except Unsupported as e:
            if not getattr(e, 'located', False):
                e.located = True
                e.args = ('%s [%s:%d]' % (e.args[0] if e.args else '', fr.f.qualname if fr.f else '?', st.lineno),)
            raise

    def st_Expr(self, fr, st):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(fr, st.value)

    def st_Pass(self, fr, st):
        pass

    def st_Assign(self, fr, st):
        v = self.eval(fr, st.value)
        for t in st.targets:
            self.assign(fr, t, v)

    def st_AnnAssign(self, fr, st):
        if st.value is not None:
            self.assign(fr, st.target, self.eval(fr, st.value))

    def st_AugAssign(self, fr, st):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.load_name(fr, t.id)
            v = self.aug(op, cur, self.eval(fr, st.value))
            self.store_name(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(fr, t.value)
            cur = self.getattr(o, t.attr)
            v = self.aug(op, cur, self.eval(fr, st.value))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(fr, t.value)
            k = self.eval_index(fr, t.slice)
            cur = self.getitem(o, k)
            v = self.aug(op, cur, self.eval(fr, st.value))
            self.setitem(o, k, v)
        else:
            raise Unsupported('augassign')

    def aug(self, op, cur, v):
        if isinstance(cur, list) and op == 'Add':
            cur.extend(self.iter_concrete(v))
            return cur
        if isinstance(cur, Model) and op == 'Add' and getattr(cur, 'm_type', None) is list and hasattr(cur, 'extend'):
            cur.extend(v)
            return cur
        if isinstance(cur, (set, dict)) and op in ('BitOr', 'Sub', 'BitAnd') and not self.deep_symbolic(cur) and not self.deep_symbolic(v):
            if op == 'BitOr':
                cur |= v
            elif op == 'Sub':
                cur -= v
            else:
                cur &= v
            return cur
        return self.binop(op, cur, v)

    def assign(self, fr, t, v):
        if isinstance(t, ast.Name):
            self.store_name(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Model) and hasattr(v, 'm_unpack'):
                vs = v.m_unpack(len(t.elts))
            else:
                vs = self.iter_concrete(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    self.raise_(ValueError, 'not enough values to unpack')
                for e, x in zip(t.elts[:i], vs[:i]):
                    self.assign(fr, e, x)
                self.assign(fr, t.elts[i].value, list(vs[i:len(vs) - k]))
                for e, x in zip(t.elts[i + 1:], vs[len(vs) - k:]):
                    self.assign(fr, e, x)
                return
            if len(vs) != len(t.elts):
                self.raise_(ValueError, 'unpack mismatch')
            for e, x in zip(t.elts, vs):
                self.assign(fr, e, x)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(fr, t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(fr, t.value), self.eval_index(fr, t.slice), v)
        else:
            raise Unsupported('assign target %s' % type(t).__name__)

    def st_Delete(self, fr, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(fr, t.value), self.eval_index(fr, t.slice))
            elif isinstance(t, ast.Attribute):
                o = self.eval(fr, t.value)
                if isinstance(o, SObj) and t.attr in o.f:
                    del o.f[t.attr]
                else:
                    raise Unsupported('del attr')
            else:
                raise Unsupported('del')

    def st_Return(self, fr, st):
        raise ReturnEx(self.eval(fr, st.value) if st.value is not None else None)

    def st_If(self, fr, st):
        if self.truth(self.eval(fr, st.test), 'if:%d' % st.lineno):
            self.exec_block(fr, st.body)
        else:
            self.exec_block(fr, st.orelse)

    def st_Assert(self, fr, st):
        if not self.truth(self.eval(fr, st.test), 'assert'):
            self.raise_(AssertionError)

    def st_Raise(self, fr, st):
        if st.exc is None:
            if fr.cur_exc is None:
                f = fr
                e = self.ctx.ghost.get('_cur_exc')
                if e is None:
                    self.raise_(RuntimeError, 'No active exception')
                raise PyRaise(e)
            raise PyRaise(fr.cur_exc)
        e = self.eval(fr, st.exc)
        if isinstance(e, type):
            e = self.instantiate(e, [], {})
        if isinstance(e, BaseException):
            e = SObj(type(e), {'args': e.args})
        cause = self.eval(fr, st.cause) if st.cause is not None else None
        if not isinstance(e, SObj):
            raise Unsupported('raise of %s' % type(e).__name__)
        if st.cause is not None:
            e.f['__cause__'] = cause
        raise PyRaise(e)

    def st_Global(self, fr, st):
        fr.globals_decl.update(st.names)

    def st_Nonlocal(self, fr, st):
        fr.nonlocals.update(st.names)

    def st_Import(self, fr, st):
        import importlib
        for a in st.names:
            m = importlib.import_module(a.name)
            if a.asname:
                fr.locals[a.asname] = m
            else:
                fr.locals[a.name.split('.')[0]] = importlib.import_module(a.name.split('.')[0])

    def st_ImportFrom(self, fr, st):
        import importlib
        base = st.module or ''
        if st.level:
            pk = fr.module.__name__.split('.')
            if not hasattr(fr.module, '__path__'):
                pk = pk[:-1]
            pk = pk[:len(pk) - (st.level - 1)]
            base = '.'.join(pk + ([st.module] if st.module else []))
        m = importlib.import_module(base)
        for a in st.names:
            if not hasattr(m, a.name):
                importlib.import_module(base + '.' + a.name)
            fr.locals[a.asname or a.name] = self.wrap(getattr(m, a.name))

    def st_FunctionDef(self, fr, st):
        q = (fr.f.qualname + '.<locals>.' if fr.f else '') + st.name
        f = IFunc(st, fr.module, q, closure=fr,
                  defaults=[self.eval(fr, d) for d in st.args.defaults],
                  kw_defaults=[None if d is None else self.eval(fr, d) for d in st.args.kw_defaults])
        v = f
        for d in reversed(st.decorator_list):
            n = self.deco_name(d)
            if n in ('wraps', 'overload', 'contextmanager', 'asynccontextmanager'):
                continue
            v = self.call(self.eval(fr, d), [v], {})
        self.store_name(fr, st.name, v)
    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, fr, st):
        raise Unsupported('local class')

    def exc_matches(self, exc, spec):
        if isinstance(spec, tuple):
            return any(self.exc_matches(exc, s) for s in spec)
        if isinstance(spec, type):
            return issubclass(exc.cls, spec)
        raise Unsupported('except clause %r' % (spec,))

    def st_Try(self, fr, st):
        def inner():
            try:
                self.exec_block(fr, st.body)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e.value, self.eval(fr, h.type)):
                        old, oldg = fr.cur_exc, self.ctx.ghost.get('_cur_exc')
                        fr.cur_exc = e.value
                        self.ctx.ghost['_cur_exc'] = e.value
                        if h.name:
                            self.store_name(fr, h.name, e.value)
                        try:
                            self.exec_block(fr, h.body)
                        finally:
                            fr.cur_exc = old
                            self.ctx.ghost['_cur_exc'] = oldg
                            if h.name:
                                fr.locals.pop(h.name, None)
                        return
                raise
            else:
                self.exec_block(fr, st.orelse)
        if not st.finalbody:
            return inner()
        try:
            inner()
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.exec_block(fr, st.finalbody)
            raise
        # PathEnd etc. skip the finally block: the path is abandoned
        self.exec_block(fr, st.finalbody)

    # with statements
    def st_With(self, fr, st):
        self.do_with(fr, st.items, st.body, False)

    def st_AsyncWith(self, fr, st):
        self.do_with(fr, st.items, st.body, True)

    def do_with(self, fr, items, body, is_async):
        if not items:
            return self.exec_block(fr, body)
        it = items[0]
        mgr = self.eval(fr, it.context_expr)
        v = self.cm_enter(mgr, is_async)
        if it.optional_vars is not None:
            self.assign(fr, it.optional_vars, v)
        try:
            self.do_with(fr, items[1:], body, is_async)
        except PyRaise as e:
            if self.cm_exit(mgr, e.value, is_async):
                return
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            self.cm_exit(mgr, None, is_async)
            raise
        self.cm_exit(mgr, None, is_async)

    def cm_enter(self, mgr, is_async):
        if isinstance(mgr, SCtxMgr):
            k, v = mgr.gen.resume()
            if k != 'yield':
                self.raise_(RuntimeError, "generator didn't yield")
            return v
        if isinstance(mgr, Model):
            if hasattr(mgr, 'm_enter'):
                return mgr.m_enter(self)
            raise Unsupported('with %s' % type(mgr).__name__)
        if isinstance(mgr, SObj):
            fn = self.find_method(mgr.cls, '__aenter__' if is_async else '__enter__')
            if fn is not None:
                r = self.call(Bound(fn, mgr), [], {})
                return self.await_(r) if is_async else r
        raise Unsupported('with %s' % type(mgr).__name__)

    def cm_exit(self, mgr, exc, is_async):
        """returns True if the exception is swallowed"""
        if isinstance(mgr, SCtxMgr):
            if exc is None:
                k, v = mgr.gen.resume()
                if k != 'done':
                    self.raise_(RuntimeError, "generator didn't stop")
                return False
            try:
                k, v = mgr.gen.resume('throw', PyRaise(exc))
            except PyRaise as e:
                if e.value is exc:
                    return False
                raise
            if k != 'done':
                self.raise_(RuntimeError, "generator didn't stop after throw()")
            return True
        if isinstance(mgr, Model):
            return bool(mgr.m_exit(self, exc))
        if isinstance(mgr, SObj):
            fn = self.find_method(mgr.cls, '__aexit__' if is_async else '__exit__')
            a = [None, None, None] if exc is None else [exc.cls, exc, None]
            r = self.call(Bound(fn, mgr), a, {})
            if is_async:
                r = self.await_(r)
            return self.truth(r) if r is not None else False
        raise Unsupported('with')

    # ------------------------------------------------------------------- loops
    def st_While(self, fr, st):
        if not st.orelse and any(isinstance(x, (ast.NamedExpr, ast.Await)) for x in ast.walk(st.test)):
            # a test with effects: `while True: if not test: break; ...`
            w = getattr(st, '_vc_plain', None)
            if w is None:
                brk = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=st.test), body=[ast.Break()], orelse=[])
                w = ast.While(test=ast.Constant(value=True), body=[brk] + st.body, orelse=[])
                for x in (brk, brk.test, brk.body[0], w, w.test):
                    ast.copy_location(x, st)
                st._vc_plain = w
            st = w
        n = 0
        while True:
            for rule in self.loop_rules:
                if rule(self, fr, st):
                    return
            t = self.eval_pure_test(fr, st.test)
            if isinstance(t, z3.ExprRef):
                t = z3.simplify(t)
                if z3.is_true(t):
                    t = True
                elif z3.is_false(t):
                    t = False
            if not isinstance(t, bool) or n >= 24 or (t is True and self.has_symbolic_break(fr, st, n)):
                return self.symbolic_loop(fr, st, None)
            if not t:
                self.exec_block(fr, st.orelse)
                return
            n += 1
            try:
                self.exec_block(fr, st.body)
            except BreakEx:
                return
            except ContinueEx:
                pass

    def has_symbolic_break(self, fr, st, n):
        # `while True:` loops are always treated with an invariant
        if self.cut_loops:
            return True
        return isinstance(st.test, ast.Constant) and n >= 0 and not getattr(self, 'unroll_while_true', False)

    def eval_pure_test(self, fr, test):
        """Evaluate a loop test to a term without forking if possible."""
        v = self.eval(fr, test, nofork=True)
        return self.truth_term(v)

    def st_For(self, fr, st):
        for rule in self.loop_rules:
            if rule(self, fr, st):
                return
        it = self.eval(fr, st.iter)
        if isinstance(it, SGen):
            # interleaved execution
            n = 0
            while True:
                k, x = it.resume()
                if k == 'done':
                    break
                n += 1
                if n > MAX_UNROLL:
                    raise Unsupported('unbounded generator loop')
                self.assign(fr, st.target, x)
                try:
                    self.exec_block(fr, st.body)
                except BreakEx:
                    return
                except ContinueEx:
                    pass
            self.exec_block(fr, st.orelse)
            return
        if isinstance(it, SObj):
            fn = self.find_method(it.cls, '__iter__')
            if fn is not None:
                it = self.call(Bound(fn, it), [], {})
                if isinstance(it, SGen):
                    items = self.iter_concrete(it)
                    it = items
        if isinstance(it, Model) and hasattr(it, 'm_iter'):
            return self.symbolic_loop(fr, st, it.m_iter(self))
        items = self.iter_concrete(it)
        if len(items) > MAX_UNROLL:
            raise Unsupported('loop over %d elements' % len(items))
        for x in items:
            self.assign(fr, st.target, x)
            try:
                self.exec_block(fr, st.body)
            except BreakEx:
                return
            except ContinueEx:
                pass
        self.exec_block(fr, st.orelse)
    st_AsyncFor = st_For

    def st_Break(self, fr, st):
        raise BreakEx()

    def st_Continue(self, fr, st):
        raise ContinueEx()

    # -- state snapshots for loops
    def collect_state(self, fr):
        """access path -> (kind, container, key, value) for all mutable state reachable from the
        frame, its closures and the registered roots."""
        out = {}
        seen = set()

        def visit(path, v, depth):
            if depth > 6:
                return
            if isinstance(v, SObj):
                if id(v) in seen:
                    return
                seen.add(id(v))
                for k, x in v.f.items():
                    out[path + '.' + k] = ('f', v, k, x)
                    visit(path + '.' + k, x, depth + 1)
            elif isinstance(v, Model):
                if id(v) in seen:
                    return
                seen.add(id(v))
                if hasattr(v, 'm_state'):
                    for k, x in v.m_state().items():
                        out[path + '.' + k] = ('m', v, k, x)
                        visit(path + '.' + k, x, depth + 1)
                elif not isinstance(v, NullModel):
                    for k, x in v.__dict__.items():
                        if k.startswith('_'):
                            continue
                        out[path + '.' + k] = ('a', v, k, x)
                        visit(path + '.' + k, x, depth + 1)
            elif isinstance(v, (list, dict, set)):
                if id(v) in seen:
                    return
                seen.add(id(v))
                if isinstance(v, dict) and all(isinstance(k, str) for k in v):
                    out[path + '#'] = ('k', v, None, tuple(v))
                    for k, x in v.items():
                        out['%s{%s}' % (path, k)] = ('d', v, k, x)
                        visit('%s{%s}' % (path, k), x, depth + 1)
                    return
                out[path + '#'] = ('c', v, None, _snap(v))
                for i, x in enumerate(list(v.values()) if isinstance(v, dict) else list(v)):
                    visit('%s[%d]' % (path, i), x, depth + 1)
            elif isinstance(v, tuple):
                for i, x in enumerate(v):
                    visit('%s[%d]' % (path, i), x, depth + 1)
            elif isinstance(v, Bound):
                visit(path + '.self', v.self_, depth + 1)
            elif isinstance(v, IFunc) and isinstance(v.closure, Frame):
                for k, x in v.closure.locals.items():
                    visit(path + '.<c>' + k, x, depth + 1)

        f = fr
        pre = ''
        while f is not None:
            for k, x in list(f.locals.items()):
                out[pre + k] = ('l', f, k, x)
                visit(pre + k, x, 0)
            f = f.closure if isinstance(f.closure, Frame) else None
            pre = pre + '^'
        for k, x in list(self.ctx.roots.items()):
            visit('@' + k, x, 0)
        return out

    def tag(self, v):
        if isinstance(v, (bool, SBool)):
            return 'bool'
        if isinstance(v, (int, SInt)):
            return 'int'
        if isinstance(v, (bytes, SBytes)):
            return 'bytes'
        if isinstance(v, (SFloat, float)):
            return 'float'
        if isinstance(v, SVal):
            return 'val:' + v.pytype.__name__
        if isinstance(v, str):
            return 'val:str'
        if v is None:
            return 'none'
        return 'other'

    def fresh_of(self, tag, name):
        c = self.ctx
        if tag == 'int':
            return c.int(name)
        if tag == 'bool':
            return c.bool(name)
        if tag == 'float':
            return SFloat(z3.Real(fresh_name(name)))
        if tag == 'bytes':
            return c.bytes(name)
        if tag.startswith('val:'):
            return c.val(name, {'bytes': bytes, 'str': str}.get(tag[4:], object))
        if tag == 'none':
            return None
        raise Unsupported('loop modifies %s in a way that has no abstraction' % name)

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Sym) and isinstance(b, Sym):
            return type(a) is type(b) and a.t.eq(b.t)
        if isinstance(a, SBytes) and isinstance(b, SBytes):
            return a.at is b.at and a.n.eq(b.n)
        if isinstance(a, (int, str, bytes, bool)) and isinstance(b, (int, str, bytes, bool)):
            return type(a) is type(b) and a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if hasattr(a, 'm_same'):
            return a.m_same(b)
        return False

    def symbolic_loop(self, fr, st, it):
        """Cut the loop at an inferred inductive invariant (Houdini over candidate set)."""
        ctx = self.ctx
        # (an optional variable that is None on entry is a case of its own)
        key = (fr.f.module.__name__, fr.f.qualname, st.lineno, getattr(st, 'col_offset', 0),
               tuple(sorted(k for k in assigned_names(st) if k in fr.locals and fr.locals[k] is None)))
        info = ctx.shared.loops.setdefault(key, LoopInfo())
        # locals assigned syntactically
        if self.dict_model is not None:
            for x in ast.walk(st):
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                    v = fr.locals.get(x.value.id)
                    if type(v) is dict:
                        nv = self.dict_model(x.value.id, v)
                        if nv is not None:
                            if sum(1 for a in self.collect_state(fr).values() if a[3] is v) > 1:
                                raise Unsupported('dictionary %s is shared' % x.value.id)
                            fr.locals[x.value.id] = nv
        pre_state = self.collect_state(fr)
        # containers that the loop changes are replaced by their unbounded model (initialised with the contents)
        swapped = False
        for path in sorted(info.havoc):
            if path not in pre_state or pre_state[path][0] != 'c':
                continue
            cont = pre_state[path][1]
            nv = self.list_model(path, cont) if self.list_model is not None else None
            if nv is None:
                raise Unsupported('container %s modified in symbolic loop' % path)
            for kind2, cont2, k2, v2 in pre_state.values():
                if v2 is cont:
                    if kind2 == 'l':
                        cont2.locals[k2] = nv
                    elif kind2 == 'f':
                        cont2.f[k2] = nv
                    elif kind2 == 'd':
                        cont2[k2] = nv
                    else:
                        raise Unsupported('container %s shared by %s' % (path, kind2))
            swapped = True
        if swapped:
            pre_state = self.collect_state(fr)
        pre_ints = self.measure(fr, pre_state, it, pre=True)
        self.cur_iter, self.cur_loop = it, st
        cands = self.candidates(fr, pre_state, pre_ints, it)
        pre_env = LoopEnv(self, fr, pre_state, it)

        def evalc(name, fn):
            try:
                return fn(self.cur_env(fr, it))
            except (KeyError, AttributeError, TypeError, z3.Z3Exception, Unsupported):
                return None
        # initial check
        kidx = None
        if it is not None:
            it.k = SInt(z3.IntVal(0))
        self.houdini(cands, info, evalc)
        # havoc
        assigned = assigned_names(st)
        for k in assigned:
            if k in fr.locals or k in info.havoc:
                pass
        plain = assigned_names(st, aug=False)
        for path, (kind, cont, k, v) in pre_state.items():
            if kind == 'l' and cont is fr and k in assigned and path not in info.havoc:
                if k not in plain and (isinstance(v, list) or isinstance(v, Model) and getattr(v, 'm_type', None) is list):
                    continue        # `x += ...` changes a list in place (check_frame notices otherwise)
                info.havoc.setdefault(path, set()).add(self.tag(v) if self.tag(v) != 'other' else 'other')
        for path in sorted(info.havoc):
            tags = sorted(info.havoc[path], key=str)
            if path not in pre_state:
                continue     # created inside the loop
            kind, cont, k, v = pre_state[path]
            if kind == 'm':
                cont.m_havoc(self, k)
                continue
            if kind == 'c':
                raise Unsupported('container %s modified in symbolic loop' % path)
            if kind != 'k' and not isinstance(v, Poison) and self.tag(v) not in info.havoc[path]:
                # the value on entry is one of those at the head of the loop
                info.havoc[path].add(self.tag(v))
                raise RestartExploration()
            if kind == 'k':
                # dictionary with keys added by the loop: each may or may not be there already
                for kk, tg in tags:
                    if kk not in cont and ctx.choose(2, 'loopkey'):
                        cont[kk] = self.fresh_of(tg, kk)
                continue
            t = tags[0] if len(tags) == 1 else tags[ctx.choose(len(tags), 'loopvar')]
            if t == 'other':
                nv = self.list_fresh(path, v) if self.list_fresh is not None else None
                if nv is None:
                    # value of unsupported type: unbound in the havoced state if it is reassigned before use
                    nv = Poison(path)
            else:
                nv = self.fresh_of(t, path.replace('.', '_'))
            if kind == 'l':
                cont.locals[k] = nv
            elif kind == 'f':
                cont.f[k] = nv
            elif kind == 'd':
                cont[k] = nv
            else:
                setattr(cont, k, nv)
        if it is not None:
            it.k = ctx.int('k', lo=0)
            ctx.assume(it.k.t <= it.n)
        for name, fn in cands:
            if name in info.dropped:
                continue
            g = evalc(name, fn)
            if g is None:
                info.dropped.add(name)
                raise RestartExploration()
            if not has_quant(g) and z3.is_false(z3.simplify(g)):
                raise Unsupported('loop abstraction is inconsistent: ' + name)
            ctx.assume(g)
        for f in self.loop_assume_hooks:
            f(self, fr, st)
        mid = self.collect_state(fr)
        # guard
        if it is None:
            go = self.truth(self.eval(fr, st.test), 'loop')
        else:
            go = ctx.branch(it.k.t < it.n, 'loop')
        if not go:
            self.exec_block(fr, st.orelse)
            return
        try:
            if it is not None:
                kk = it.k
                self.assign(fr, st.target, it.elem(kk))
            self.exec_block(fr, st.body)
        except BreakEx:
            # what this iteration changed is the state after the loop; the loop head never sees it
            return
        except ContinueEx:
            pass
        # step: frame + invariants
        self.check_frame(fr, info, mid, pre_state)
        if it is not None:
            it.k = SInt(z3.simplify(it.k.t + 1))
        self.houdini(cands, info, evalc)
        if getattr(self, 'on_loop_step', None):
            self.on_loop_step(self, fr, st)
        raise PathEnd()

    def houdini(self, cands, info, evalc):
        # everything assumed so far holds only if the surviving candidates do: drop all that fail, start again
        bad = False
        for name, fn in cands:
            if name in info.dropped:
                continue
            g = evalc(name, fn)
            if g is None or not self.ctx.holds(g):
                info.dropped.add(name)
                bad = True
        if bad:
            raise RestartExploration()

    loop_assume_hooks = ()
    cut_loops = False          # never unroll a while loop whose test is true
    auto_invariants = True     # also try the generic candidates
    cur_iter = None

    def check_frame(self, fr, info, mid, pre):
        post = self.collect_state(fr)
        changed = False
        for path, (kind, cont, k, v) in mid.items():
            if path not in post:
                if path in pre and path not in info.havoc:
                    # replaced parents are reported through the parent's own path
                    continue
                continue
            nv = post[path][3]
            if path not in pre:
                continue
            if kind == 'k':
                if [x for x in v if x not in nv]:
                    raise Unsupported('key removed from %s in a symbolic loop' % path)
                for x in nv:
                    if x not in pre[path][3]:
                        e = (x, self.tag(post['%s{%s}' % (path[:-1], x)][3]))
                        if e not in info.havoc.get(path, ()):
                            info.havoc.setdefault(path, set()).add(e)
                            changed = True
                continue
            if not self.same(v, nv):
                t = self.tag(nv)
                s = info.havoc.get(path)
                if s is None:
                    info.havoc[path] = {self.tag(pre[path][3]), t} if kind != 'm' else {'m'}
                    changed = True
                elif kind != 'm' and t not in s:
                    s.add(t)
                    changed = True
        if changed:
            raise RestartExploration()

    def cur_env(self, fr, it):
        return LoopEnv(self, fr, None, it)

    def measure(self, fr, state, it, pre=False):
        """int-valued terms of the current state by access path"""
        out = {}
        st = state if state is not None else self.collect_state(fr)
        for path, (kind, cont, k, v) in st.items():
            if kind == 'c':
                continue
            if isinstance(v, bool) or isinstance(v, SBool):
                continue
            if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                out[path] = self.as_int(v)
            elif kind != 'k' and isinstance(v, list):
                out['n(%s)' % path] = z3.IntVal(len(v))
            elif isinstance(v, Model) and getattr(v, 'm_type', None) is list and hasattr(v, 'm_len'):
                out['n(%s)' % path] = self.as_int(v.m_len())
            elif isinstance(v, (SBytes, bytes)):
                out['len(%s)' % path] = self.to_bytes(v).n
        for f in self.measures:
            out.update(f())
        if it is not None:
            out['$k'] = self.as_int(it.k) if it.k is not None else z3.IntVal(0)
        return out

    def candidates(self, fr, pre_state, pre_ints, it):
        """candidate invariants: (stable name, fn(env) -> z3 Bool)"""
        key = (fr.f.module.__name__, fr.f.qualname)
        info = None
        for k, v in self.ctx.shared.loops.items():
            if k[:2] == key:
                info = v
        cands = []
        seen_hint = set()
        for prefix, hints in self.loop_hints.items():
            if any(prefix in q for q in self.call_stack[-3:] + [fr.f.qualname]):
                if callable(hints):
                    hints = hints(self, fr, pre_state)
                for name, fn in hints:
                    cands.append(('hint:' + name, fn))
        # what holds only before or after a flag was changed by the loop
        names = assigned_names(self.cur_loop)
        for path, (kind, cont, k, v) in pre_state.items():
            if kind == 'l' and cont is fr and k in names and isinstance(v, bool):
                def flag(e, path=path):
                    x = e.v(path)
                    return x.t if isinstance(x, SBool) else z3.BoolVal(x)
                for name, fn in [c for c in cands if c[0].startswith('hint:')]:
                    cands.append(('if %s: %s' % (path, name), lambda e, fn=fn, flag=flag: z3.Implies(flag(e), fn(e))))
                    cands.append(('if not %s: %s' % (path, name), lambda e, fn=fn, flag=flag: z3.Implies(z3.Not(flag(e)), fn(e))))
        if not self.auto_invariants:
            return cands
        if it is not None:
            pre_ints = dict(pre_ints)
            pre_ints['$k'] = z3.IntVal(0)
        mod = [p for p in pre_ints if p == '$k' or self.may_change(p, fr, key)]
        for p in mod:
            v0 = pre_ints[p]
            cands.append(('%s>=0' % p, lambda e, p=p: e.m(p) >= 0))
            if p != '$k':
                cands.append(('%s>=pre' % p, lambda e, p=p, v0=v0: e.m(p) >= v0))
                cands.append(('%s<=pre' % p, lambda e, p=p, v0=v0: e.m(p) <= v0))
        for i, p in enumerate(mod):
            for q in mod[i + 1:]:
                p0, q0 = pre_ints[p], pre_ints[q]
                cands.append(('%s+%s=pre' % (p, q), lambda e, p=p, q=q, s=p0 + q0: e.m(p) + e.m(q) == s))
                cands.append(('%s-%s=pre' % (p, q), lambda e, p=p, q=q, s=p0 - q0: e.m(p) - e.m(q) == s))
        others = [p for p in pre_ints if p not in mod][:8]
        for p in mod:
            for q in mod + others:
                if p != q:
                    cands.append(('%s<=%s' % (p, q), lambda e, p=p, q=q: e.m(p) <= e.m(q)))
        return cands

    def may_change(self, p, fr, key):
        base = p[4:-1] if p.startswith('len(') else p
        for k, v in self.ctx.shared.loops.items():
            if k[:2] == key and (base in v.havoc or p in v.havoc):
                return True
        return p.startswith('$')

    # --------------------------------------------------------------- names
    def load_name(self, fr, name):
        f = fr
        if name not in fr.globals_decl:
            while f is not None:
                if name in f.locals:
                    v = f.locals[name]
                    if isinstance(v, Poison):
                        raise Unsupported('loop-carried value %s has no abstraction' % v.path)
                    return v
                f = f.closure if isinstance(f.closure, Frame) else None
        over = self.obj_over.get((fr.module.__name__, name))
        if over is not None:
            return over
        g = fr.module.__dict__
        if name in g:
            return self.wrap(g[name])
        if hasattr(builtins, name):
            return self.wrap(getattr(builtins, name))
        tree, index, src = module_ast(fr.module)
        if name in fr_assigned(fr):
            self.raise_(UnboundLocalError, name)
        self.raise_(NameError, name)

    def store_name(self, fr, name, v):
        if name in fr.globals_decl:
            raise Unsupported('global assignment')
        if name in fr.nonlocals:
            f = fr.closure
            while f is not None:
                if name in f.locals:
                    f.locals[name] = v
                    return
                f = f.closure
            raise Unsupported('nonlocal')
        fr.locals[name] = v

    # ---------------------------------------------------------- expressions
    def eval(self, fr, e, nofork=False):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(fr, e)

    def ex_Constant(self, fr, e):
        return e.value

    def ex_Name(self, fr, e):
        return self.load_name(fr, e.id)

    def ex_Attribute(self, fr, e):
        return self.getattr(self.eval(fr, e.value), e.attr)

    def eval_index(self, fr, s):
        return self.eval(fr, s)

    def ex_Slice(self, fr, e):
        return slice(*(None if x is None else self.eval(fr, x) for x in (e.lower, e.upper, e.step)))

    def ex_Subscript(self, fr, e):
        return self.getitem(self.eval(fr, e.value), self.eval_index(fr, e.slice))

    def ex_Tuple(self, fr, e):
        return tuple(self.eval_elts(fr, e.elts))

    def ex_List(self, fr, e):
        return list(self.eval_elts(fr, e.elts))

    def ex_Set(self, fr, e):
        return set(self.eval_elts(fr, e.elts))

    def eval_elts(self, fr, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(fr, x.value)
                if isinstance(v, Model) and hasattr(v, 'm_star'):
                    out.append(v.m_star(self))
                    continue
                out.extend(self.iter_concrete(v))
            else:
                out.append(self.eval(fr, x))
        return out

    new_dict = None

    def ex_Dict(self, fr, e):
        if not e.keys and self.new_dict is not None:
            return self.new_dict()
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(fr, v))
            else:
                self.setitem(d, self.eval(fr, k), self.eval(fr, v))
        return d

    def ex_BinOp(self, fr, e):
        return self.binop(type(e.op).__name__, self.eval(fr, e.left), self.eval(fr, e.right))

    def ex_UnaryOp(self, fr, e):
        v = self.eval(fr, e.operand)
        op = type(e.op).__name__
        if op == 'Not':
            t = self.truth_term(v)
            return self.mkbool(z3.Not(t)) if not isinstance(t, bool) else not t
        if op == 'USub':
            if isinstance(v, (SInt, SBool)):
                return self.mkint(-self.as_int(v))
            if isinstance(v, SReal):
                return SReal(-v.num, v.den)
            return -v
        if op == 'UAdd':
            return v
        if op == 'Invert':
            if isinstance(v, SInt):
                return self.mkint(-v.t - 1)
            return ~v
        raise Unsupported(op)

    def ex_BoolOp(self, fr, e):
        is_and = isinstance(e.op, ast.And)
        # if all operands are side-effect free symbolic booleans we still must respect short circuit;
        # fork per operand
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(fr, x)
            if i == len(e.values) - 1:
                return v
            t = self.truth_term(v)
            if isinstance(t, bool):
                if t != is_and:
                    return v
                continue
            if isinstance(v, SBool) and all(self.pure_expr(y) for y in e.values[i + 1:]):
                # combine without forking when the rest is pure and boolean-valued
                try:
                    rest = self.eval_rest_pure(fr, e, i + 1)
                except _NotPure:
                    rest = None
                if rest is not None:
                    return self.mkbool(z3.And(t, rest) if is_and else z3.Or(t, rest))
            if self.ctx.branch(t, 'boolop') != is_and:
                return v
        return v

    def eval_rest_pure(self, fr, e, i):
        is_and = isinstance(e.op, ast.And)
        ts = []
        for x in e.values[i:]:
            if not isinstance(x, (ast.Compare, ast.Name, ast.UnaryOp)):
                raise _NotPure()
            if isinstance(x, ast.Compare):
                a = [self.pure_val(fr, y) for y in [x.left] + x.comparators]
                if len(a) != 2 or type(x.ops[0]).__name__ not in ('Lt', 'LtE', 'Gt', 'GtE', 'Eq', 'NotEq'):
                    raise _NotPure()
                if not all(self.intlike(y) for y in a):
                    raise _NotPure()
                v = self.compare(type(x.ops[0]).__name__, a[0], a[1])
            else:
                raise _NotPure()
            ts.append(v.t if isinstance(v, SBool) else z3.BoolVal(v))
        return z3.And(*ts) if is_and else z3.Or(*ts)

    def pure_val(self, fr, y):
        if isinstance(y, ast.Constant):
            return y.value
        if isinstance(y, ast.Name):
            f = fr
            while f is not None:
                if y.id in f.locals:
                    return f.locals[y.id]
                f = f.closure if isinstance(f.closure, Frame) else None
        raise _NotPure()

    def pure_expr(self, y):
        return isinstance(y, (ast.Compare, ast.Name, ast.Constant))

    def ex_Compare(self, fr, e):
        left = self.eval(fr, e.left)
        res = None
        acc = []
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(fr, c)
            r = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return r
            acc.append(r)
            left = right
        return self.and_(acc)

    def ex_IfExp(self, fr, e):
        if self.truth(self.eval(fr, e.test), 'ifexp'):
            return self.eval(fr, e.body)
        return self.eval(fr, e.orelse)

    def ex_NamedExpr(self, fr, e):
        v = self.eval(fr, e.value)
        self.store_name(fr, e.target.id, v)
        return v

    def ex_Lambda(self, fr, e):
        return IFunc(e, fr.module, (fr.f.qualname if fr.f else '') + '.<lambda>', closure=fr,
                     defaults=[self.eval(fr, d) for d in e.args.defaults])

    def ex_JoinedStr(self, fr, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(fr, v.value)
                spec = self.eval(fr, v.format_spec) if v.format_spec is not None else ''
                parts.append((x, spec, v.conversion))
        if not any(isinstance(p, tuple) and self.deep_symbolic(p[0]) for p in parts):
            out = ''
            for p in parts:
                if isinstance(p, tuple):
                    x, spec, conv = p
                    if conv == 114:
                        x = repr(x)
                    elif conv == 115:
                        x = str(x)
                    out += format(x, spec)
                else:
                    out += p
            return out
        # the same form as the % operator, so that both spellings are the same value
        f = ''.join(p.replace('%', '%%') if isinstance(p, str) else
                    '%' + (p[1] or ('r' if p[2] == 114 else 's')) for p in parts)
        return self.fmt(f, tuple(p[0] for p in parts if isinstance(p, tuple)))

    def ex_Await(self, fr, e):
        return self.await_(self.eval(fr, e.value))

    def ex_Yield(self, fr, e):
        v = self.eval(fr, e.value) if e.value is not None else None
        g = fr.gen
        if g is None:
            raise Unsupported('yield outside generator frame')
        return g.do_yield(v)

    def ex_Starred(self, fr, e):
        raise Unsupported('starred')

    def ex_Call(self, fr, e):
        # super()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == 'super':
            return self.super_call(fr, e)
        fn = self.eval(fr, e.func)
        args = None
        if (fn is any or fn is all or fn is next) and e.args and isinstance(e.args[0], ast.GeneratorExp) and fn not in self.bi \
                and not e.keywords and len(e.args) <= 2 and len(e.args[0].generators) == 1 \
                and not any(isinstance(x, (ast.Starred, ast.NamedExpr)) for x in ast.walk(e)):
            g = e.args[0]
            it = self.eval(fr, g.generators[0].iter)
            if isinstance(it, Model) and hasattr(it, 'm_iter') and not hasattr(it, 'm_listcomp') and not self.is_concrete_iter(it):
                return self.search_loop(fr, e, fn, g, it)
            if not isinstance(it, Model) or self.is_concrete_iter(it):
                f = self.comp_frame(fr)
                for x in self.iter_concrete(it):
                    self.assign(f, g.generators[0].target, x)
                    if all(self.truth(self.eval(f, c)) for c in g.generators[0].ifs):
                        if fn is next:
                            return self.eval(f, g.elt)
                        if self.truth(self.eval(f, g.elt)) == (fn is any):
                            return fn is any
                if fn is not next:
                    return fn is all
                if len(e.args) < 2:
                    self.raise_(StopIteration)
                return self.eval(fr, e.args[1])
            args = [self.ex_ListComp(fr, g, it)]
            if fn is not next:
                return self.call(fn, args, {})
            args = [NativeIter(iter(args[0])) if isinstance(args[0], list) else args[0]] + self.eval_elts(fr, e.args[1:])
        if args is None:
            args = self.eval_elts(fr, e.args)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(fr, k.value)
                if not isinstance(d, dict):
                    raise Unsupported('** of non-dict')
                kw.update(d)
            else:
                kw[k.arg] = self.eval(fr, k.value)
        return self.call(fn, args, kw)

    def super_call(self, fr, e):
        f = fr
        while f.f.node is not None and 'self' not in f.locals and 'cls' not in f.locals:
            f = f.closure
        self_ = f.locals.get('self', f.locals.get('cls'))
        q = f.f.qualname.split('.')
        clsname = q[-2]
        cls = self_.cls if isinstance(self_, SObj) else self_.m_type if isinstance(self_, Model) else self_
        mro = cls.__mro__
        i = [k.__name__ for k in mro].index(clsname)
        args = self.eval_elts(fr, e.args)
        kw = {k.arg: self.eval(fr, k.value) for k in e.keywords}
        name = e.func.attr
        for k in mro[i + 1:]:
            if name in k.__dict__:
                d = k.__dict__[name]
                if isinstance(d, types.FunctionType) and self.is_repo_module(d.__module__):
                    fn = self.ifunc(inspect.unwrap(d))
                    fn.cls = k
                    return self.call(Bound(fn, self_), args, kw)
                if name == '__init__':
                    if issubclass(cls, BaseException):
                        self_.f['args'] = tuple(args)
                    return None
                if name == '__setattr__':
                    b_object_setattr(self, self_, args[0], args[1])
                    return None
                raise Unsupported('super().%s' % name)
        return None

    def comp(self, fr, gens, emit, it=None):
        if not gens:
            emit()
            return
        g = gens[0]
        if it is None:
            it = self.eval(fr, g.iter)
        if isinstance(it, Model) and hasattr(it, 'm_comp'):
            raise Unsupported('comprehension over symbolic iterable')
        for x in self.iter_concrete(it):
            self.assign(fr, g.target, x)
            if all(self.truth(self.eval(fr, c)) for c in g.ifs):
                self.comp(fr, gens[1:], emit)

    def comp_frame(self, fr):
        f = Frame(fr.f, fr.module, fr)
        f.gen = fr.gen
        f.cur_exc = fr.cur_exc
        return f

    def search_loop(self, fr, e, fn, g, it):
        """any()/all()/next() over a sequence of any length: `acc = ...; for target in it: if ...: acc = ...; break`"""
        tmp = '$it%d_%d' % (e.lineno, e.col_offset)
        acc = tmp + 'acc'
        st = getattr(e, '_vc_loop', None)
        if st is None:
            gen = g.generators[0]
            load = lambda n: ast.Name(id=n, ctx=ast.Load())
            setacc = lambda v: ast.Assign(targets=[ast.Name(id=acc, ctx=ast.Store())], value=v)
            keep = [gen.target, g.elt] + gen.ifs
            if fn is next:
                body = [setacc(g.elt), setacc2(tmp + 'found', ast.Constant(True)), ast.Break()]
            else:
                test = g.elt if fn is any else ast.UnaryOp(ast.Not(), g.elt)
                body = [ast.If(test=test, body=[setacc(ast.Constant(fn is any)), ast.Break()], orelse=[])]
            for c in reversed(gen.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            st = ast.For(target=gen.target, iter=load(tmp), body=body, orelse=[])
            todo = [st]
            while todo:
                x = todo.pop()
                ast.copy_location(x, e)
                todo += [y for y in ast.iter_child_nodes(x) if not any(y is z for z in keep) and hasattr(type(y), '_attributes')]
            e._vc_loop = st
        names = assigned_names(st)
        old = {n: fr.locals[n] for n in names if n in fr.locals}
        fr.locals[tmp] = it
        if fn is next:
            default = self.eval(fr, e.args[1]) if len(e.args) > 1 else None
            fr.locals[acc], fr.locals[tmp + 'found'] = None, False
        else:
            fr.locals[acc] = fn is all
        try:
            self.exec_block(fr, [st])
            r = fr.locals[acc]
            if fn is next and not self.truth(fr.locals[tmp + 'found'], 'found'):
                if len(e.args) < 2:
                    self.raise_(StopIteration)
                r = default
            return r
        finally:
            for n in names | {tmp, acc, tmp + 'found'}:
                fr.locals.pop(n, None)
            fr.locals.update(old)

    def ex_ListComp(self, fr, e, it=None):
        out = []
        f = self.comp_frame(fr)
        if it is None:
            it = self.eval(fr, e.generators[0].iter)
        if isinstance(it, Model):
            if len(e.generators) == 1 and hasattr(it, 'm_listcomp'):
                r = it.m_listcomp(self, f, e)
                if r is not NotImplemented:
                    return r
            if len(e.generators) == 1 and hasattr(it, 'm_iter') and self.list_model is not None and not self.is_concrete_iter(it):
                return self.comp_loop(fr, e, it)
        self.comp(f, e.generators, lambda: out.append(self.eval(f, e.elt)), it)
        return out

    def is_concrete_iter(self, it):
        try:
            self.iter_concrete(it)
            return True
        except Unsupported:
            return False

    def comp_loop(self, fr, e, it):
        """a comprehension over a sequence of any length: `acc = []; for target in it: if ...: acc.append(elt)`"""
        if isinstance(e, ast.SetComp):
            raise Unsupported('set comprehension over a symbolic sequence')
        tmp = '$it%d_%d' % (e.lineno, e.col_offset)
        st = getattr(e, '_vc_loop', None)
        if st is None:
            g = e.generators[0]
            load = lambda n: ast.Name(id=n, ctx=ast.Load())
            if isinstance(e, ast.DictComp):
                body = ast.Assign(targets=[ast.Subscript(load(tmp + 'acc'), e.key, ast.Store())], value=e.value)
            else:
                body = ast.Expr(ast.Call(ast.Attribute(load(tmp + 'acc'), 'append', ast.Load()), [e.elt], []))
            for c in reversed(g.ifs):
                body = ast.If(test=c, body=[body], orelse=[])
            st = ast.For(target=g.target, iter=load(tmp), body=[body], orelse=[])
            todo = [st]
            while todo:
                x = todo.pop()
                ast.copy_location(x, e)
                keep = [g.target] + g.ifs + ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt])
                todo += [y for y in ast.iter_child_nodes(x) if not any(y is z for z in keep) and hasattr(type(y), '_attributes')]
            e._vc_loop = st
        names = assigned_names(st)
        old = {n: fr.locals[n] for n in names if n in fr.locals}
        fr.locals[tmp], fr.locals[tmp + 'acc'] = it, {} if isinstance(e, ast.DictComp) else []
        try:
            self.exec_block(fr, [st])
            return fr.locals[tmp + 'acc']
        finally:
            for n in names | {tmp, tmp + 'acc'}:
                fr.locals.pop(n, None)
            fr.locals.update(old)

    def ex_SetComp(self, fr, e):
        return set(self.ex_ListComp(fr, e))

    def ex_GeneratorExp(self, fr, e):
        return self.ex_ListComp(fr, e)

    def ex_DictComp(self, fr, e):
        out = {}
        f = self.comp_frame(fr)
        if len(e.generators) == 1 and self.dict_model is not None:
            it = self.eval(fr, e.generators[0].iter)
            if isinstance(it, Model) and hasattr(it, 'm_iter') and not self.is_concrete_iter(it):
                return self.comp_loop(fr, e, it)
            self.comp(f, e.generators, lambda: self.setitem(out, self.eval(f, e.key), self.eval(f, e.value)), it)
            return out
        self.comp(f, e.generators, lambda: self.setitem(out, self.eval(f, e.key), self.eval(f, e.value)))
        return out


def setacc2(name, v):
    return ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=v)


class _NotPure(Exception):
    pass


class Poison:
    def __init__(self, path):
        self.path = path


class LoopEnv:
    """What invariants see: int measures by access path, raw values by access path."""
    def __init__(self, interp, fr, state, it):
        self.i = interp
        self.fr = fr
        self.it = it
        self._st = state
        self._m = None

    @property
    def st(self):
        if self._st is None:
            self._st = self.i.collect_state(self.fr)
        return self._st

    def m(self, p):
        if self._m is None:
            self._m = self.i.measure(self.fr, self.st, self.it)
        return self._m[p]

    def v(self, p):
        return self.st[p][3]

    def bytes_vars(self):
        return [p for p, x in self.st.items() if x[0] != 'c' and isinstance(x[3], (SBytes, bytes))]


def _snap(v):
    if isinstance(v, dict):
        return tuple((k, id(x)) if not isinstance(x, (int, str)) else (k, x) for k, x in v.items())
    return tuple(x if isinstance(x, (int, str)) else id(x) for x in v)


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def assigned_names(node, aug=True):
    out = set()

    class W(ast.NodeVisitor):
        def visit_AugAssign(self, n):
            if aug or not isinstance(n.target, ast.Name):
                self.visit(n.target)
            self.visit(n.value)

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_AsyncFunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    w = W()
    for s in node.body:
        w.visit(s)
    if isinstance(node, (ast.For, ast.AsyncFor)):
        w.visit(node.target)
    return out


def fr_assigned(fr):
    if fr.f is None or isinstance(fr.f.node, ast.Lambda):
        return set()
    return assigned_names(fr.f.node)


_isgen = {}


def is_generator(node):
    if id(node) not in _isgen:
        found = False

        class W(ast.NodeVisitor):
            def visit_Yield(self, n):
                nonlocal found
                found = True

            def visit_YieldFrom(self, n):
                nonlocal found
                found = True

            def visit_FunctionDef(self, n):
                pass

            def visit_AsyncFunctionDef(self, n):
                pass

            def visit_Lambda(self, n):
                pass
        w = W()
        for s in node.body:
            w.visit(s)
        _isgen[id(node)] = (found, node)
    return _isgen[id(node)][0]


class NativeIter:
    def __init__(self, it):
        self.it = it


class NativeMethod:
    """Method of a native container whose elements may be symbolic."""

    def __init__(self, interp, o, name):
        self.i, self.o, self.name = interp, o, name

    def call(self, args, kw):
        i, o, n = self.i, self.o, self.name
        if isinstance(o, dict):
            if n == 'get':
                if self.sym(args[:1]):
                    for kk in list(o):
                        if i.truth(i.eq(kk, args[0]), 'dictkey'):
                            return o[kk]
                    return args[1] if len(args) > 1 else None
                return o.get(*args, **kw)
            if n == 'pop':
                if self.sym(args[:1]):
                    for kk in list(o):
                        if i.truth(i.eq(kk, args[0]), 'dictkey'):
                            return o.pop(kk)
                    if len(args) > 1:
                        return args[1]
                    i.raise_(KeyError, args[0])
                if args[0] not in o and len(args) < 2:
                    i.raise_(KeyError, args[0])
                return o.pop(*args)
            if n == 'setdefault':
                if i.truth(i.contains(o, args[0])):
                    return i.getitem(o, args[0])
                i.setitem(o, args[0], args[1] if len(args) > 1 else None)
                return i.getitem(o, args[0])
            if n in ('items', 'keys', 'values'):
                return list(getattr(o, n)())
            if n == 'copy':
                return dict(o)
            if n == 'update':
                for a in args:
                    for k, v in a.items():
                        i.setitem(o, k, v)
                for k, v in kw.items():
                    o[k] = v
                return None
            if n == 'clear':
                o.clear()
                return None
        if isinstance(o, list):
            if n == 'pop':
                if not o:
                    i.raise_(IndexError, 'pop from empty list')
                try:
                    return o.pop(*args)
                except IndexError as e:
                    i.raise_(IndexError, *e.args)
            if n in ('append', 'insert', 'clear', 'copy', 'reverse'):
                return getattr(o, n)(*args)
            if n == 'extend':
                o.extend(i.iter_concrete(args[0]))
                return None
            if n == 'index':
                for k, x in enumerate(o):
                    if i.truth(i.eq(x, args[0])):
                        return k
                i.raise_(ValueError, 'not in list')
            if n == 'remove':
                for k, x in enumerate(o):
                    if i.truth(i.eq(x, args[0])):
                        del o[k]
                        return None
                i.raise_(ValueError, 'not in list')
            if n == 'sort' and not self.sym(o):
                o.sort(**kw)
                return None
            if n == 'count' and not self.sym(o) and not self.sym(args):
                return o.count(*args)
        if isinstance(o, set):
            if n in ('add', 'discard', 'remove'):
                x = args[0]
                if self.sym([x]) or self.sym(o):
                    for y in list(o):
                        if i.truth(i.eq(y, x), 'setel'):
                            if n != 'add':
                                o.discard(y)
                            return None
                    if n == 'add':
                        o.add(x)
                    elif n == 'remove':
                        i.raise_(KeyError, x)
                    return None
                if n == 'remove' and x not in o:
                    i.raise_(KeyError, x)
                return getattr(o, n)(x)
            if n in ('clear', 'copy'):
                return getattr(o, n)()
        if isinstance(o, (bytes, str)) and n == 'join' and isinstance(args[0], Model) and hasattr(args[0], 'm_join'):
            return args[0].m_join(i, o)
        if isinstance(o, (bytes, str)) and n == 'join':
            items = i.iter_concrete(args[0])
            if not self.sym(items):
                return o.join(items)
            if isinstance(o, bytes) and all(i.to_bytes(x) is not None for x in items):
                r = SBytes.lit(b'')
                for k, x in enumerate(items):
                    if k and o:
                        r = r.concat(SBytes.lit(o))
                    r = r.concat(i.to_bytes(x))
                return r
            return i.ctx.val('join', type(o))
        if isinstance(o, (str, bytes)) and n == 'format':
            if self.sym(args) or self.sym(list(kw.values())):
                return i.fmt(o, tuple(args) + tuple(kw.values()))
        if self.sym(list(args)) or self.sym(list(kw.values())):
            raise Unsupported('%s.%s with symbolic argument' % (type(o).__name__, n))
        try:
            return getattr(o, n)(*args, **kw)
        except Exception as e:
            i.raise_(type(e), *e.args)

    def sym(self, xs):
        return any(self.i.deep_symbolic(x) for x in xs)


PYOPS = {
    'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv,
    'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'Pow': operator.pow, 'LShift': operator.lshift,
    'RShift': operator.rshift, 'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor,
    'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge,
}
DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__',
          'GtE': '__ge__'}


# ------------------------------------------------------------------- builtins
def b_len(i, x):
    if isinstance(x, SBytes):
        return i.mkint(x.n)
    if isinstance(x, SVal):
        t = vlen(x.t)
        i.ctx.assume(t >= 0)
        return SInt(t)
    if isinstance(x, Model):
        if hasattr(x, 'm_len'):
            return x.m_len()
        raise Unsupported('len of %s' % type(x).__name__)
    if isinstance(x, SObj):
        fn = i.find_method(x.cls, '__len__')
        if fn is None:
            i.raise_(TypeError, 'no len')
        return i.call(Bound(fn, x), [], {})
    try:
        return len(x)
    except TypeError as e:
        i.raise_(TypeError, *e.args)


def b_minmax(op):
    def f(i, *args, **kw):
        if len(args) == 1:
            args = i.iter_concrete(args[0])
            if not args:
                if 'default' in kw:
                    return kw['default']
                i.raise_(ValueError, 'empty')
        if kw.get('key') is not None:
            raise Unsupported('min/max key')
        if not any(i.symbolic(a) for a in args):
            return (min if op == 'Lt' else max)(args)
        r = args[0]
        for a in args[1:]:
            if isinstance(r, SFloat) or isinstance(a, SFloat):
                x, y = i.as_real(r), i.as_real(a)
                r = SFloat(z3.If(y < x, y, x) if op == 'Lt' else z3.If(y > x, y, x))
            elif i.intlike(r) and i.intlike(a):
                x, y = i.as_int(r), i.as_int(a)
                r = i.mkint(z3.If(y < x, y, x) if op == 'Lt' else z3.If(y > x, y, x))
            else:
                if i.truth(i.compare(op, a, r)):
                    r = a
        return r
    return f


def b_abs(i, x):
    if isinstance(x, SInt):
        return i.mkint(z3.If(x.t < 0, -x.t, x.t))
    return abs(x)


def b_int(i, x=0, base=None):
    if isinstance(x, (SInt, int)):
        return x if not isinstance(x, bool) else int(x)
    if isinstance(x, SBool):
        return i.mkint(i.as_int(x))
    if isinstance(x, (SReal, SFloat)):
        # int(x/y): truncation toward zero of an IEEE double
        q = z3.ToInt(x.t)
        i.ctx.shared.notes.append('int(float)')
        return i.mkint(z3.If(x.t >= 0, q, -z3.ToInt(-x.t)))
    if isinstance(x, SVal):
        f = z3.Function('parse_int', V, z3.IntSort())
        ok = z3.Function('is_int_text', V, z3.BoolSort())
        if not i.ctx.branch(ok(x.t), 'int()'):
            i.raise_(ValueError, 'invalid literal for int()')
        return SInt(f(x.t))
    if i.symbolic(x):
        raise Unsupported('int of %s' % type(x).__name__)
    try:
        return int(x) if base is None else int(x, base)
    except (ValueError, TypeError) as e:
        i.raise_(type(e), *e.args)


def b_bool(i, x=False):
    t = i.truth_term(x)
    return t if isinstance(t, bool) else i.mkbool(t)


def b_isinstance(i, x, c):
    if isinstance(c, tuple):
        rs = [b_isinstance(i, x, k) for k in c]
        return i.or_(rs)
    if isinstance(c, types.UnionType):
        return b_isinstance(i, x, c.__args__)
    if isinstance(x, Model) and hasattr(x, 'm_isinstance'):
        return x.m_isinstance(i, c)
    t = i.pytype_of(x)
    if c is type(None):
        return x is None
    try:
        return issubclass(t, c)
    except TypeError:
        raise Unsupported('isinstance %r' % (c,))


class SRange(Model):
    def __init__(self, lo, hi, step=1):
        self._lo, self._hi, self._step = lo, hi, step

    def m_iter(self, i):
        lo, hi, st = i.as_int(self._lo), i.as_int(self._hi), self._step
        return SIter(z3.simplify(z3.If(hi > lo, (hi - lo + st - 1) / st, 0)), lambda k: i.mkint(lo + k.t * st))

    def m_contains(self, i, x):
        if self._step != 1:
            raise Unsupported('in range with a step')
        return i.and_([i.compare('LtE', self._lo, x), i.compare('Lt', x, self._hi)])

    def m_len(self):
        raise Unsupported('len(range)')


class SIter:
    def __init__(self, n, elem):
        self.n, self.elem = n, elem
        self.k = None


def b_range(i, *a):
    if not any(i.symbolic(x) for x in a):
        try:
            return range(*a)
        except TypeError as e:
            i.raise_(TypeError, *e.args)
    if len(a) == 1:
        return SRange(0, a[0])
    if len(a) == 2 or a[2] == 1:
        return SRange(a[0], a[1])
    if type(a[2]) is int and a[2] > 0:
        return SRange(a[0], a[1], a[2])
    raise Unsupported('range step')


def b_list(i, x=()):
    if isinstance(x, Model) and hasattr(x, 'm_tolist'):
        return x.m_tolist(i)
    return list(i.iter_concrete(x))


def b_tuple(i, x=()):
    return tuple(i.iter_concrete(x))


def b_set(i, x=()):
    out = set()
    for y in i.iter_concrete(x):
        NativeMethod(i, out, 'add').call([y], {})
    return out


def b_dict(i, x=None, **kw):
    d = {}
    if x is not None:
        if isinstance(x, dict):
            d.update(x)
        elif isinstance(x, (list, tuple)):
            for k, v in x:
                i.setitem(d, k, v)
        else:
            raise Unsupported('dict(%s)' % type(x).__name__)
    d.update(kw)
    return d


def b_sorted(i, x, **kw):
    xs = i.iter_concrete(x)
    if any(i.deep_symbolic(y) for y in xs) or kw.get('key') is not None and isinstance(kw['key'], IFunc):
        if len(xs) <= 1:
            return xs
        raise Unsupported('sorted of symbolic')
    try:
        return sorted(xs, **kw)
    except Exception as e:
        i.raise_(type(e), *e.args)


class SEnumerate(Model):
    def __init__(self, x, start):
        self._x, self._start = x, start

    def m_iter(self, i):
        it = self._x.m_iter(i)
        return SIter(it.n, lambda k: (i.binop('Add', k, self._start), it.elem(k)))

    def m_state(self):
        return {}


def b_enumerate(i, x, start=0):
    if isinstance(x, Model) and hasattr(x, 'm_iter'):
        return SEnumerate(x, start)
    return [(k + start, v) for k, v in enumerate(i.iter_concrete(x))]


def b_zip(i, *xs, **kw):
    if kw.get('strict'):
        xs = [i.iter_concrete(x) for x in xs]
        if len({len(x) for x in xs}) > 1:
            i.raise_(ValueError, 'zip() arguments of different length')
    return list(zip(*[i.iter_concrete(x) for x in xs]))


def b_any(i, x):
    for y in i.iter_concrete(x):
        if i.truth(y):
            return True
    return False


def b_all(i, x):
    for y in i.iter_concrete(x):
        if not i.truth(y):
            return False
    return True


def b_sum(i, x, start=0):
    r = start
    for y in i.iter_concrete(x):
        r = i.binop('Add', r, y)
    return r


def b_getattr(i, o, n, *d):
    if isinstance(n, str):
        return i.getattr(o, n, *d)
    raise Unsupported('getattr with symbolic name')


def b_setattr(i, o, n, v):
    if isinstance(n, str):
        return i.setattr(o, n, v)
    raise Unsupported('setattr with symbolic name')


def b_hasattr(i, o, n):
    if isinstance(o, SObj):
        if n in o.f:
            return True
        return any(n in k.__dict__ and not isinstance(k.__dict__[n], types.MemberDescriptorType) for k in o.cls.__mro__)
    return hasattr(o, n)


def b_type(i, x):
    return i.pytype_of(x)


def b_str(i, x='', *a):
    if not i.deep_symbolic(x):
        return str(x, *a) if a else str(x)
    try:
        return SVal(z3.Function('py_str', V, V)(i.as_v(x)), str)
    except Unsupported:
        return i.ctx.val('str', str)


def b_repr(i, x):
    if not i.deep_symbolic(x):
        return repr(x)
    try:
        return SVal(z3.Function('py_repr', V, V)(i.as_v(x)), str)
    except Unsupported:
        return i.ctx.val('repr', str)


def b_bytes(i, x=b'', *a):
    if isinstance(x, SBytes):
        return x
    if isinstance(x, SInt):
        return SBytes(z3.If(x.t > 0, x.t, 0), lambda k: z3.IntVal(0))
    if isinstance(x, Model) and hasattr(x, 'm_bytes'):
        return x.m_bytes()
    if isinstance(x, SVal):
        return SVal(x.t, bytes)
    if not i.deep_symbolic(x):
        try:
            return bytes(x, *a) if a else bytes(x)
        except Exception as e:
            i.raise_(type(e), *e.args)
    raise Unsupported('bytes()')


def b_memoryview(i, x):
    if isinstance(x, (bytes, SBytes)):
        return x
    if isinstance(x, Model) and hasattr(x, 'm_memoryview'):
        return x.m_memoryview()
    raise Unsupported('memoryview')


def b_next(i, it, *d):
    if isinstance(it, SGen):
        k, v = it.resume()
        if k == 'yield':
            return v
        if d:
            return d[0]
        i.raise_(StopIteration)
    if isinstance(it, Model) and hasattr(it, 'm_next'):
        return it.m_next(i, *d)
    if isinstance(it, NativeIter):
        try:
            return next(it.it)
        except StopIteration:
            if d:
                return d[0]
            i.raise_(StopIteration)
    if isinstance(it, SObj):
        fn = i.find_method(it.cls, '__next__')
        if fn is not None:
            return i.call(Bound(fn, it), [], {})
    if isinstance(it, list):      # generator expression evaluated eagerly
        if it:
            return it[0]
        if d:
            return d[0]
        i.raise_(StopIteration)
    raise Unsupported('next')


def b_iter(i, x):
    if isinstance(x, (list, tuple, dict, set, range)):
        return NativeIter(iter(list(x)))
    if isinstance(x, SGen):
        return x
    if isinstance(x, SObj):
        fn = i.find_method(x.cls, '__iter__')
        if fn is not None:
            return i.call(Bound(fn, x), [], {})
    if isinstance(x, Model) and hasattr(x, 'm_iterobj'):
        return x.m_iterobj(i)
    raise Unsupported('iter')


def b_ceil(i, x):
    if isinstance(x, SReal):
        return float_ceil(i, x)
    if isinstance(x, (int, SInt)):
        return x
    import math
    return math.ceil(x)


def divmod_terms(self, x, y):
    """floor division by a positive symbolic divisor: uninterpreted quotient and remainder with
    their defining facts stated at the operands (keeps the solver away from symbolic div)"""
    x, y = z3.simplify(x), z3.simplify(y)
    q, r = PDIV(x, y), PMOD(x, y)
    self.ctx.assume(z3.Implies(y > 0, z3.And(x == q * y + r, r >= 0, r < y)))
    self.ctx.assume(z3.Implies(z3.And(y > 0, x >= 0), z3.And(q >= 0, q <= x)))
    self.ctx.assume(z3.Implies(z3.And(y > 0, x < 0), q < 0))
    return q, r


PDIV = z3.Function('pdiv', z3.IntSort(), z3.IntSort(), z3.IntSort())
PMOD = z3.Function('pmod', z3.IntSort(), z3.IntSort(), z3.IntSort())
Interp.divmod_terms = divmod_terms


def float_ceil(i, x):
    """math.ceil(a / b) on IEEE doubles.  Mathematically exact only while |a| < 2**53 and b > 0
    (the correctly rounded quotient then cannot cross an integer: |a/b - n| >= 1/b is preserved);
    beyond that the result is only known to lie within one ulp, modelled as unconstrained within
    a relative error of 2**-52."""
    a, b = x.num, x.den
    exact = -i.divmod_terms(-a, b)[0]          # ceil for b > 0 (z3 div is floor for positive divisor)
    r = z3.Int(fresh_name('fceil'))
    i.ctx.assume(z3.Implies(z3.And(b > 0, a >= 0, a <= 2 ** 53), r == exact))
    i.ctx.assume(z3.Implies(z3.And(b > 0, a >= 0, a > 2 ** 53), z3.And(r >= exact - 1, r >= 0, r <= exact)))
    return SInt(r)


def b_divmod(i, a, b):
    return (i.binop('FloorDiv', a, b), i.binop('Mod', a, b))


def b_reversed(i, x):
    return list(reversed(i.iter_concrete(x)))


def b_callable(i, x):
    return isinstance(x, (IFunc, Bound)) or callable(x)


def b_cast(i, t, v):
    return v


def b_map(i, f, *xs):
    return [i.call(f, list(a), {}) for a in zip(*[i.iter_concrete(x) for x in xs])]


def b_filter(i, f, x):
    return [y for y in i.iter_concrete(x) if i.truth(y if f is None else i.call(f, [y], {}))]


def b_object_setattr(i, o, n, v):
    if isinstance(o, SObj):
        o.f[n] = v
        return None
    if isinstance(o, Model):
        if hasattr(o, 'm_rawsetattr'):
            return o.m_rawsetattr(i, n, v)
        setattr(o, n, v)
        return None
    raise Unsupported('object.__setattr__')


def b_object_getattribute(i, o, n):
    if isinstance(o, SObj) and n in o.f:
        return o.f[n]
    return i.getattr(o, n)


def b_frozenset(i, x=()):
    return frozenset(i.iter_concrete(x))


def b_id(i, x):
    return id(x)


def b_print(i, *a, **k):
    return None


def b_object(i):
    return SObj(object, {})


def b_defaultdict(i, factory=None, *a):
    import collections
    d = collections.defaultdict(None)
    d.default_factory = factory
    return d


def b_float(i, x=0.0):
    if not i.deep_symbolic(x):
        try:
            return float(x)
        except Exception as e:
            i.raise_(type(e), *e.args)
    if isinstance(x, SInt):
        return SReal(x.t, z3.IntVal(1))
    raise Unsupported('float()')


def b_round(i, x, *a):
    if not i.deep_symbolic(x):
        return round(x, *a)
    raise Unsupported('round')


def b_contextlib_suppress(i, *a):
    return SuppressCM(a)


class SuppressCM(Model):
    def __init__(self, excs):
        self._excs = excs

    def m_enter(self, i):
        return None

    def m_exit(self, i, exc):
        return exc is not None and i.exc_matches(exc, tuple(self._excs))


import math as _math, typing as _typing, collections as _collections, contextlib as _contextlib

BUILTINS = {
    len: b_len, min: b_minmax('Lt'), max: b_minmax('Gt'), abs: b_abs, int: b_int, bool: b_bool,
    isinstance: b_isinstance, range: b_range, list: b_list, tuple: b_tuple, set: b_set, dict: b_dict,
    sorted: b_sorted, enumerate: b_enumerate, zip: b_zip, any: b_any, all: b_all, sum: b_sum,
    getattr: b_getattr, setattr: b_setattr, hasattr: b_hasattr, type: b_type, str: b_str, repr: b_repr,
    bytes: b_bytes, memoryview: b_memoryview, next: b_next, iter: b_iter, _math.ceil: b_ceil,
    divmod: b_divmod, reversed: b_reversed, callable: b_callable, _typing.cast: b_cast, map: b_map,
    filter: b_filter, frozenset: b_frozenset, id: b_id, print: b_print, object: b_object,
    object.__setattr__: b_object_setattr, object.__getattribute__: b_object_getattribute,
    _collections.defaultdict: b_defaultdict, float: b_float, round: b_round,
    _contextlib.suppress: b_contextlib_suppress,
}

PURE_MODULES = ('stat', '_stat', 'errno', 'math', 'struct', '_struct', 're', 'posixpath', 'genericpath', 'bisect', '_bisect',
                'itertools', 'functools', 'operator', '_operator', 'string', 'base64', 'binascii', 'hashlib', '_hashlib',
                'ast', 'datetime', 'textwrap', 'urllib.parse', 'email.utils', 'email._parseaddr', 'calendar', 'time_pure')
import datetime as _dt
PURE_CLASSES = {_dt.timedelta, _dt.datetime, complex, bytearray}


def _pure_ok(fn):
    m = getattr(fn, '__module__', None)
    if m is None:
        s = getattr(fn, '__self__', None)
        if s is not None and not isinstance(s, types.ModuleType):
            m = type(s).__module__
            if type(s).__name__ in ('Pattern', 'Match', 'Struct'):
                return True
        else:
            m = getattr(s, '__name__', None)
    if m == 'builtins':
        s = getattr(fn, '__self__', None)
        return isinstance(s, (str, bytes, int, float, tuple, frozenset, _dt.datetime, _dt.timedelta)) or fn in (
            ord, chr, hex, bin, oct, pow, hash, format, ascii, issubclass)
    if m is None:
        return isinstance(fn, types.MethodDescriptorType)
    return m in PURE_MODULES or m.split('.')[0] in ('re',)
