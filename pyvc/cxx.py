"""C++ front end: clang's syntax tree of the real file -> functions for the verification-condition generator.

`translate(path)` runs `clang++ -fsyntax-only -Xclang -ast-dump=json` on the current source and turns every function
with a body defined in that file into a Python function of the same name and parameters, statement by statement:

* every arithmetic operation and conversion carries its C type: unsigned arithmetic and conversions wrap modulo 2^n
  exactly as in C, signed arithmetic is taken as mathematical;
* objects (pointers, references, class instances) are engine objects; `*p`, `&x` and conversions between pointer
  types are the identity except for iterators, which keep their own dereference operation;
* global variables are attributes of the object `G`, library functions and operators are `c_...` functions that the
  contract file gives meaning to.

What it drops: types of objects, const, noexcept, alignment, object lifetimes and memory layout.
What it does not know raises Unsupported when the function is used (never silently skipped)."""
from __future__ import annotations
import ast, json, re, subprocess, sys, types
import z3
from .values import *
from .core import *
from .interp import Interp, _mod_ast

BITS = {'bool': (1, False), 'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'short': (16, True),
        'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False),
        'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
        'size_t': (64, False), 'std::size_t': (64, False), 'ssize_t': (64, True)}
CLANG = ['clang++', '-std=c++17', '-fsyntax-only', '-w', '-Xclang', '-ast-dump=json']


def parse(path):
    p = subprocess.run(CLANG + [path], capture_output=True, text=True, timeout=120)
    if p.returncode:
        raise RuntimeError('clang: ' + p.stderr[-2000:])
    return json.loads(p.stdout)


def qt(n):
    t = n.get('type', {})
    s = t.get('desugaredQualType') or t.get('qualType', '')
    s = re.sub(r'\b(const|volatile)\b', '', s).strip()
    return ' '.join(s.split())


def is_int(t):
    return t.rstrip('& ') in BITS


class No(Exception):
    pass


class Tr:
    """one function"""
    def __init__(self, fn, known, names):
        self.fn, self.known, self.names = fn, known, names
        self.out = []
        self.ind = 1
        self.steps = []        # code to run before `continue`
        self.tmp = 0

    def emit(self, s):
        self.out.append('    ' * self.ind + s)

    def kids(self, n):
        return [c for c in n.get('inner', []) if c.get('kind') and not c['kind'].endswith('Comment')]

    def local(self, d):
        """unique name of a local variable (scopes are flattened)"""
        i = d['id']
        if i not in self.names:
            base = d.get('name') or 'anon'
            n, k = base, 1
            used = set(self.names.values())
            while n in used:
                k += 1
                n = '%s_%d' % (base, k)
            if n in ('None', 'in', 'is', 'not', 'and', 'or', 'lambda', 'def', 'from', 'pass', 'del', 'with', 'yield', 'G') or n.startswith('c_'):
                n = 'v_' + n
            self.names[i] = n
        return self.names[i]

    # ---- expressions
    def ex(self, n):
        k = n['kind']
        f = getattr(self, 'x_' + k, None)
        if f is None:
            raise No('C++ %s' % k)
        return f(n)

    def one(self, n):
        c = self.kids(n)
        if len(c) != 1:
            raise No('C++ %s with %d operands' % (n['kind'], len(c)))
        return self.ex(c[0])

    def x_ParenExpr(self, n): return '(%s)' % self.one(n)
    x_ExprWithCleanups = x_MaterializeTemporaryExpr = x_CXXBindTemporaryExpr = x_ConstantExpr = one
    x_SubstNonTypeTemplateParmExpr = one

    def x_IntegerLiteral(self, n): return str(int(n['value']))
    def x_CharacterLiteral(self, n): return str(int(n['value']))
    def x_CXXBoolLiteralExpr(self, n): return 'True' if n['value'] else 'False'
    def x_StringLiteral(self, n): return repr(ast.literal_eval(n['value']))
    def x_CXXNullPtrLiteralExpr(self, n): return 'None'
    def x_GNUNullExpr(self, n): return 'None'
    def x_CXXDefaultArgExpr(self, n): return 'c_default()'
    def x_UnaryExprOrTypeTraitExpr(self, n): return 'c_sizeof(%r)' % (n.get('argType', {}).get('qualType', 'expression'),)

    def x_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d['kind'] in ('ParmVarDecl', 'VarDecl') and d['id'] in self.names:
            return self.names[d['id']]
        if d['kind'] == 'VarDecl':
            return 'G.' + d['name']
        if d['kind'] == 'EnumConstantDecl':
            raise No('enumerator')
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            if d['name'] in self.known:
                return d['name']
            return 'G.' + d['name'] if d['name'].isidentifier() else 'G'
        raise No('C++ reference to %s' % d['kind'])

    def x_MemberExpr(self, n):
        nm = n.get('name', '')
        if not nm.isidentifier():
            raise No('member ' + nm)
        b = self.kids(n)[0]
        if b['kind'] == 'CXXThisExpr':
            raise No('this')
        return '%s.%s' % (self.ex(b), nm)

    def x_ArraySubscriptExpr(self, n):
        a, b = self.kids(n)
        return '%s[%s]' % (self.ex(a), self.ex(b))

    def cast(self, n):
        ck = n.get('castKind')
        c = self.kids(n)[0]
        if ck in ('LValueToRValue', 'NoOp', 'BitCast', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'DerivedToBase',
                  'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion', 'UserDefinedConversion'):
            return self.ex(c)
        if ck == 'IntegralCast':
            return 'c_cast(%r, %s)' % (qt(n), self.ex(c))
        if ck == 'IntegralToBoolean':
            return '(%s != 0)' % self.ex(c)
        if ck == 'PointerToBoolean':
            return '(%s is not None)' % self.ex(c)
        if ck == 'NullToPointer':
            return 'None'
        if ck == 'ToVoid':
            return self.ex(c)
        raise No('C++ cast %s' % ck)
    x_ImplicitCastExpr = x_CStyleCastExpr = x_CXXStaticCastExpr = x_CXXReinterpretCastExpr = x_CXXConstCastExpr = cast
    x_CXXFunctionalCastExpr = cast

    def x_ConditionalOperator(self, n):
        a, b, c = self.kids(n)
        return '(%s if %s else %s)' % (self.ex(b), self.ex(a), self.ex(c))

    OPS = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'mod', '<<': 'shl', '>>': 'shr', '&': 'and_', '|': 'or_', '^': 'xor'}

    def arith(self, op, t, a, b):
        if not is_int(t):
            raise No('C++ %s on %s' % (op, t))
        return 'c_%s(%r, %s, %s)' % (self.OPS[op], t, a, b)

    def lv(self, n):
        """assignable expression: local variable or member"""
        while n['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            n = self.kids(n)[0]
        s = self.ex(n)
        if n['kind'] == 'DeclRefExpr':
            return s, s.isidentifier()
        if n['kind'] == 'MemberExpr':
            return s, False
        raise No('assignment to C++ %s' % n['kind'])

    def copy(self, n):
        """value of n copied (iterators have value semantics)"""
        s = self.ex(n)
        return 'c_copy(%s)' % s if 'iterator' in qt(n).lower() else s

    def x_BinaryOperator(self, n):
        op = n['opcode']
        a, b = self.kids(n)
        if op == '=':
            v, loc = self.lv(a)
            if not loc:
                raise No('assignment to a member inside an expression')
            return '(%s := %s)' % (v, self.copy(b))
        if op == ',':
            return '(%s, %s)[1]' % (self.ex(a), self.ex(b))
        x, y = self.ex(a), self.ex(b)
        if op in ('&&', '||'):
            return '(%s %s %s)' % (x, 'and' if op == '&&' else 'or', y)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if not (is_int(qt(a)) and is_int(qt(b))):
                if op == '==':
                    return 'c_same(%s, %s)' % (x, y)
                if op == '!=':
                    return '(not c_same(%s, %s))' % (x, y)
                raise No('pointer comparison')
            return '(%s %s %s)' % (x, op, y)
        return self.arith(op, qt(n), x, y)

    def x_CompoundAssignOperator(self, n):
        v, loc = self.lv(self.kids(n)[0])
        if not loc:
            raise No('compound assignment to a member inside an expression')
        return '(%s := %s)' % (v, self.compound(n, v))

    def compound(self, n, v):
        t = (n.get('computeResultType') or n['type'])
        ct = t.get('desugaredQualType') or t.get('qualType')
        lt = (n.get('computeLHSType') or n['type'])
        lt = lt.get('desugaredQualType') or lt.get('qualType')
        r = self.arith(n['opcode'][:-1], ct, 'c_cast(%r, %s)' % (lt, v), self.ex(self.kids(n)[1]))
        return 'c_cast(%r, %s)' % (qt(n), r)

    def incdec(self, n, v):
        return self.arith('+' if n['opcode'] == '++' else '-', qt(n), v, '1')

    def x_UnaryOperator(self, n):
        op = n['opcode']
        c = self.kids(n)[0]
        if op == '!':
            return '(not %s)' % self.ex(c)
        if op in ('&', '__extension__'):
            if op == '&' and is_int(qt(c)):
                raise No('address of an integer')
            return self.ex(c)
        if op == '*':
            return 'c_deref(%s)' % self.ex(c)
        if op == '-':
            return 'c_sub(%r, 0, %s)' % (qt(n), self.ex(c))
        if op == '+':
            return self.ex(c)
        if op == '~':
            return 'c_not(%r, %s)' % (qt(n), self.ex(c))
        if op in ('++', '--'):
            v, loc = self.lv(c)
            if not loc:
                raise No('increment of a member inside an expression')
            if n.get('isPostfix'):
                return '(%s, (%s := %s))[0]' % (v, v, self.incdec(n, v))
            return '(%s := %s)' % (v, self.incdec(n, v))
        raise No('C++ unary ' + op)

    def args(self, cs):
        return ', '.join(self.copy(c) for c in cs)

    def x_CallExpr(self, n):
        cs = self.kids(n)
        f = self.ex(cs[0])
        return '%s(%s)' % (f, self.args(cs[1:]))

    def x_CXXMemberCallExpr(self, n):
        cs = self.kids(n)
        if cs[0]['kind'] == 'MemberExpr' and cs[0].get('name', '').startswith('operator '):
            return 'c_convert(%s)' % self.ex(self.kids(cs[0])[0])
        return '%s(%s)' % (self.ex(cs[0]), self.args([c for c in cs[1:] if c['kind'] != 'CXXDefaultArgExpr']))

    def x_CXXOperatorCallExpr(self, n):
        cs = self.kids(n)
        d = cs[0]
        while d['kind'] != 'DeclRefExpr':
            d = self.kids(d)[0]
        op = d['referencedDecl']['name'].replace('operator', '').strip()
        a = [self.ex(c) for c in cs[1:]]
        if op == '*' and len(a) == 1:
            return 'c_deref(%s)' % a[0]
        if op == '->':
            return 'c_arrow(%s)' % a[0]
        if op in ('++', '--'):
            return 'c_%s(%s)' % ({'++': 'inc', '--': 'dec'}[op] + ('post' if len(a) == 2 else 'pre'), a[0])
        if op == '==':
            return 'c_same(%s, %s)' % (a[0], a[1])
        if op == '!=':
            return '(not c_same(%s, %s))' % (a[0], a[1])
        if op == '[]':
            return 'c_index(%s, %s)' % (a[0], a[1])
        if op == '<<':
            return 'c_stream(%s, %s)' % (a[0], a[1])
        raise No('C++ operator ' + op)

    def x_CXXConstructExpr(self, n):
        cs = [c for c in self.kids(n) if c['kind'] != 'CXXDefaultArgExpr']
        t = qt(n)
        if len(cs) == 1:
            # copy, move or conversion of a library type
            return 'c_construct(%r, %s)' % (t, self.copy(cs[0]))
        return 'c_construct(%r%s)' % (t, ''.join(', ' + self.copy(c) for c in cs))
    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def x_InitListExpr(self, n):
        cs = self.kids(n)
        if len(cs) == 1:
            return self.ex(cs[0])
        raise No('initialiser list')

    def x_ImplicitValueInitExpr(self, n):
        return '0' if is_int(qt(n)) else 'None'
    x_CXXScalarValueInitExpr = x_ImplicitValueInitExpr

    def x_LambdaExpr(self, n): raise No('lambda')

    # ---- statements
    def st(self, n):
        f = getattr(self, 's_' + n['kind'], None)
        if f is not None:
            return f(n)
        self.emit(self.ex(n))

    def block(self, n):
        self.ind += 1
        k = len(self.out)
        self.st(n)
        if len(self.out) == k:
            self.emit('pass')
        self.ind -= 1

    def s_CompoundStmt(self, n):
        for c in self.kids(n):
            self.st(c)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for d in self.kids(n):
            if d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl'):
                continue
            if d['kind'] != 'VarDecl' or d.get('storageClass') == 'static':
                raise No('C++ local %s' % d['kind'])
            init = self.kids(d)
            t = qt(d)
            if t.endswith('&') and init and is_int(t):
                src = init[0]
                if 'const' not in d['type'].get('qualType', '') :
                    raise No('reference to an integer')
            v = self.copy(init[0]) if init else None
            nm = self.local(d)
            if v is not None:
                self.emit('%s = %s' % (nm, v))
            elif not is_int(t) and not t.endswith('*'):
                self.emit('%s = c_construct(%r)' % (nm, t))

    def s_BinaryOperator(self, n):
        if n['opcode'] == '=':
            v, loc = self.lv(self.kids(n)[0])
            self.emit('%s = %s' % (v, self.copy(self.kids(n)[1])))
        else:
            self.emit(self.ex(n))

    def s_CompoundAssignOperator(self, n):
        v, loc = self.lv(self.kids(n)[0])
        self.emit('%s = %s' % (v, self.compound(n, v)))

    def s_UnaryOperator(self, n):
        if n['opcode'] in ('++', '--'):
            v, loc = self.lv(self.kids(n)[0])
            self.emit('%s = %s' % (v, self.incdec(n, v)))
        else:
            self.emit(self.ex(n))

    def s_ExprWithCleanups(self, n):
        self.st(self.kids(n)[0])

    def s_ParenExpr(self, n):
        self.st(self.kids(n)[0])

    def s_CXXOperatorCallExpr(self, n):
        cs = self.kids(n)
        d = cs[0]
        while d['kind'] != 'DeclRefExpr':
            d = self.kids(d)[0]
        op = d['referencedDecl']['name']
        if op == 'operator=':
            v, loc = self.lv(cs[1])
            self.emit('%s = %s' % (v, self.copy(cs[2])))
        else:
            self.emit(self.ex(n))

    def s_ReturnStmt(self, n):
        c = self.kids(n)
        self.emit('return %s' % (self.copy(c[0]) if c else 'None'))

    def s_IfStmt(self, n):
        cs = self.kids(n)
        while cs and cs[0]['kind'] == 'DeclStmt':
            self.st(cs[0])
            cs = cs[1:]
        # (a condition that declares a variable repeats it as expression)
        self.emit('if %s:' % self.ex(cs[0]))
        self.block(cs[1])
        if len(cs) > 2:
            self.emit('else:')
            self.block(cs[2])

    def loop(self, cond, body, step=None):
        self.emit('while %s:' % cond)
        self.steps.append(step)
        self.block(body)
        self.steps.pop()
        if step is not None:
            self.ind += 1
            self.st(step)
            self.ind -= 1

    def s_WhileStmt(self, n):
        cs = self.kids(n)
        if len(cs) != 2:
            raise No('C++ while with a declaration')
        self.loop(self.ex(cs[0]), cs[1])

    def s_DoStmt(self, n):
        body, cond = self.kids(n)
        self.emit('while True:')
        self.steps.append('do')
        self.block(body)
        self.steps.pop()
        self.ind += 1
        self.emit('if not %s:' % self.ex(cond))
        self.ind += 1
        self.emit('break')
        self.ind -= 2

    def s_ForStmt(self, n):
        init, decl, cond, step, body = n['inner']
        if init.get('kind'):
            self.st(init)
        if decl.get('kind'):
            raise No('C++ for with a declaration in the condition')
        self.loop(self.ex(cond) if cond.get('kind') else 'True', body, step if step.get('kind') else None)

    def s_CXXForRangeStmt(self, n):
        cs = self.kids(n)
        rng = next(c for c in cs if c['kind'] == 'DeclStmt' and self.kids(c)[0].get('name', '').startswith('__range'))
        src = self.kids(self.kids(rng)[0])[0]
        var = self.kids([c for c in cs if c['kind'] == 'DeclStmt'][-1])[0]
        body = cs[-1]
        if 'const' not in var['type'].get('qualType', '') and var['type'].get('qualType', '').endswith('&'):
            raise No('loop over references')
        s = self.ex(src)
        nm = self.local(var)
        self.emit('for %s in c_range(%s):' % (nm, s))
        self.steps.append(None)
        self.block(body)
        self.steps.pop()

    def s_ContinueStmt(self, n):
        s = self.steps[-1]
        if s == 'do':
            raise No('continue in do')
        if s is not None:
            self.st(s)
        self.emit('continue')

    def s_BreakStmt(self, n):
        self.emit('break')


def translate(path, modname):
    """-> module whose functions the verifier executes; .failed: {function: reason}; .source: text"""
    tu = parse(path)
    fns = []
    cur = {'file': None}

    def loc_file(n):
        # clang prints the file only where it changes
        for l in (n.get('loc') or {}, ):
            for x in (l, l.get('expansionLoc') or {}, l.get('spellingLoc') or {}):
                if 'file' in x:
                    return x['file']
        return None

    def files(o):
        """document order update of the current file"""
        if isinstance(o, dict):
            if 'file' in o and 'offset' in o or 'file' in o and 'line' in o:
                cur['file'] = o['file']
            for k, v in o.items():
                if k != 'inner' and isinstance(v, (dict, list)):
                    files(v)
            for v in o.get('inner', ()):
                files(v)
        elif isinstance(o, list):
            for v in o:
                files(v)

    def walk(n):
        for c in n.get('inner', []):
            if c.get('kind') in ('LinkageSpecDecl', 'NamespaceDecl') and c.get('name') != 'std':
                # position in the file is in the children
                before = {k: v for k, v in c.items() if k != 'inner'}
                files(before)
                walk(c)
                continue
            head = {k: v for k, v in c.items() if k != 'inner'}
            files(head.get('loc') or {})
            here = cur['file']
            files(head.get('range') or {})
            for x in c.get('inner', ()):
                files(x)
            if c.get('kind') == 'FunctionDecl' and here == path and any(x.get('kind') == 'CompoundStmt' for x in c.get('inner', ())):
                fns.append(c)
    walk(tu)
    known = {f['name'] for f in fns}
    src, failed = [], {}
    for f in fns:
        names = {}
        t = Tr(f, known, names)
        ps = []
        for c in f['inner']:
            if c['kind'] == 'ParmVarDecl':
                q = c['type'].get('qualType', '')
                if q.endswith('&') and is_int(qt(c)) and 'const' not in q:
                    failed[f['name']] = 'reference parameter'
                ps.append(t.local(c))
        try:
            if f['name'] in failed:
                raise No(failed[f['name']])
            t.st(next(x for x in f['inner'] if x['kind'] == 'CompoundStmt'))
            body = t.out or ['    pass']
        except No as e:
            failed[f['name']] = str(e)
            body = ['    c_unsupported(%r)' % str(e)]
        src.append('def %s(%s):\n%s\n' % (f['name'], ', '.join(ps), '\n'.join(body)))
    text = '\n'.join(src)
    return make_module(modname, text, path, failed)


class CFun(Model):
    """operation of the C++ language or library; meaning given by install()"""


def _stub(name):
    def f(*a):
        raise NotImplementedError(name)
    f.__name__ = f.__qualname__ = name
    f.__module__ = 'pyvc.cxx'
    return f


OPNAMES = ['cast', 'add', 'sub', 'mul', 'div', 'mod', 'shl', 'shr', 'and_', 'or_', 'xor', 'not', 'same', 'deref', 'arrow', 'copy',
           'incpost', 'incpre', 'decpost', 'decpre', 'index', 'construct', 'default', 'sizeof', 'convert', 'range', 'stream', 'unsupported']
STUBS = {'c_' + n: _stub('c_' + n) for n in OPNAMES}


def make_module(modname, text, path, failed):
    m = types.ModuleType(modname)
    m.__file__ = path + '.' + modname + '.py'
    m.__dict__.update(STUBS)
    m.G = GLOBALS
    exec(compile(text, m.__file__, 'exec'), m.__dict__)
    sys.modules[modname] = m
    tree = ast.parse(text, m.__file__)
    _mod_ast[m.__file__] = (tree, {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}, text)
    m.failed, m.source, m.path = failed, text, path
    return m


class _G:
    pass


GLOBALS = _G()


def wrap_to(ctx, i, t, e):
    """value of the mathematical integer e converted to type t"""
    t = t.rstrip('& ')
    if t not in BITS:
        raise Unsupported('conversion to %s' % t)
    n, signed = BITS[t]
    if t == 'bool':
        return i.mkbool(e != 0)
    lo, hi = (-(1 << (n - 1)), 1 << (n - 1)) if signed else (0, 1 << n)
    if ctx.holds(z3.And(e >= lo, e < hi)):
        return i.mkint(e)
    return i.mkint((e - lo) % (hi - lo) + lo)


def install(ctx, i):
    """meaning of the operations on integers"""
    def T(x):
        return i.as_int(x)

    def arith(f):
        def g(ii, t, a, b):
            e = f(T(a), T(b))
            n, signed = BITS[t.rstrip('& ')]
            if signed:
                return i.mkint(e)      # overflow would be undefined behaviour: see the assumptions
            return wrap_to(ctx, i, t, e)
        return g

    def div(ii, t, a, b):
        a, b = T(a), T(b)
        ctx.prove(ii.cxx_prefix + '.no-division-by-zero', b != 0)
        if ctx.holds(z3.And(a >= 0, b > 0)):
            return i.mkint(a / b)
        q = z3.If(z3.And(a >= 0, b > 0), a / b, z3.If(z3.And(a < 0, b > 0), -((-a) / b),
                  z3.If(z3.And(a >= 0, b < 0), -(a / -b), (-a) / (-b))))
        return i.mkint(q)

    def mod(ii, t, a, b):
        q = div(ii, t, a, b)
        if ctx.holds(z3.And(T(a) >= 0, T(b) > 0)):
            return i.mkint(T(a) % T(b))
        return i.mkint(T(a) - T(q) * T(b))

    def const(x):
        x = z3.simplify(T(x))
        if not z3.is_int_value(x):
            raise Unsupported('shift by or mask with a variable')
        return x.as_long()

    def shl(ii, t, a, b):
        return arith(lambda x, y: x * (1 << const(b)))(ii, t, a, b)

    def shr(ii, t, a, b):
        return i.mkint(T(a) / (1 << const(b)))

    def and_(ii, t, a, b):
        for x, y in ((a, b), (b, a)):
            try:
                m = const(y)
            except Unsupported:
                continue
            if m >= 0 and (m & (m + 1)) == 0:
                return i.mkint(T(x) % (m + 1))
        raise Unsupported('&')

    def or_(ii, t, a, b):
        return const(a) | const(b)

    def nope(what):
        def f(*a):
            raise Unsupported('C++ operation %s' % what)
        return f
    S = STUBS
    for n in OPNAMES:
        i.bi[S['c_' + n]] = nope(n)

    def unsupported(ii, why):
        raise Unsupported(why)
    i.bi[S['c_unsupported']] = unsupported
    i.bi[S['c_cast']] = lambda ii, t, a: wrap_to(ctx, i, t, T(a))
    i.bi[S['c_add']] = arith(lambda x, y: x + y)
    i.bi[S['c_sub']] = arith(lambda x, y: x - y)
    i.bi[S['c_mul']] = arith(lambda x, y: x * y)
    i.bi[S['c_div']], i.bi[S['c_mod']] = div, mod
    i.bi[S['c_shl']], i.bi[S['c_shr']], i.bi[S['c_and_']] = shl, shr, and_
    i.bi[S['c_or_']] = or_

    def same(ii, a, b):
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Model) and hasattr(x, 'c_same'):
                return x.c_same(y)
        if a is None or b is None:
            return False
        if isinstance(a, (int, SInt)) and isinstance(b, (int, SInt)):
            return i.mkbool(T(a) == T(b))
        raise Unsupported('comparison of pointers')
    i.bi[S['c_same']] = same
    i.bi[S['c_deref']] = lambda ii, a: a.c_deref() if hasattr(a, 'c_deref') else a
    i.bi[S['c_arrow']] = lambda ii, a: a.c_deref() if hasattr(a, 'c_deref') else a
    i.bi[S['c_copy']] = lambda ii, a: a.c_copy() if hasattr(a, 'c_copy') else a
    i.bi[S['c_incpost']] = lambda ii, a: a.c_inc(True)
    i.bi[S['c_incpre']] = lambda ii, a: a.c_inc(False)
    i.bi[S['c_index']] = lambda ii, a, k: a.c_index(k)
    i.bi[S['c_range']] = lambda ii, a: a.c_range()

    def construct(ii, t, *a):
        if len(a) == 1:
            return a[0]
        raise Unsupported('construction of ' + t)
    i.bi[S['c_construct']] = construct
    i.bi[S['c_default']] = lambda ii: None

    def sizeof(ii, t):
        n = ctx.int('sizeof', lo=1)
        ctx.assume(n.t < 2 ** 20)
        return n
    i.bi[S['c_sizeof']] = sizeof
    i.bi[S['c_convert']] = lambda ii, a: a.c_convert()
    i.bi[S['c_stream']] = lambda ii, a, b: a
