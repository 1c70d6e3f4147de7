"""Relational semantics of the SQL statements found in the code under contract.

Statements are taken from the running code (the interpreter evaluates the string expression), parsed
here, and given pointwise semantics over symbolic tables of unbounded size:
   table = existence predicate + column functions over the unique key.
Row counts that the invariants talk about are ghost functions, updated exactly at row granularity.
"""
from __future__ import annotations
import re
import z3
from .values import *
from .core import PathEnd

I, B = z3.IntSort(), z3.BoolSort()

# unique key and value columns of each table (checked against the repository's schema by check_schema)
SCHEMA = {
    'objects': (('id',), {'hash': V, 'refcount': I, 'phys_size': I, 'length': I}),
    'inodes': (('id',), {'uid': I, 'gid': I, 'mode': I, 'mtime_ns': I, 'atime_ns': I, 'ctime_ns': I,
                         'refcount': I, 'size': I, 'rdev': I, 'locked': I}),
    'inode_blocks': (('inode', 'blockno'), {'obj_id': I}),
    'symlink_targets': (('inode',), {'target': V}),
    'names': (('id',), {'name': V, 'refcount': I}),
    'contents': (('parent_inode', 'name_id'), {'inode': I}),
    'ext_attributes': (('inode', 'name_id'), {'value': V}),
}
VIEWS = {'contents_v': ('contents', 'names'), 'ext_attributes_v': ('ext_attributes', 'names')}
UNIQUE2 = {'names': 'name', 'objects': 'hash'}     # secondary unique columns


def check_schema(create_src):
    """The key structure above must be what create_tables() declares."""
    def body(t):
        m = re.search(r'CREATE TABLE %s \((.*?)\)"""' % t, create_src, re.S)
        return re.sub(r'\s+', ' ', m.group(1)) if m else ''
    problems = []
    exp = {
        'objects': ['id INTEGER PRIMARY KEY AUTOINCREMENT', 'hash BLOB(32) UNIQUE'],
        'inodes': ['id INTEGER PRIMARY KEY AUTOINCREMENT'],
        'inode_blocks': ['PRIMARY KEY (inode, blockno)'],
        'symlink_targets': ['inode INTEGER PRIMARY KEY'],
        'names': ['id INTEGER PRIMARY KEY', 'UNIQUE (name)'],
        'contents': ['UNIQUE (parent_inode, name_id)'],
        'ext_attributes': ['PRIMARY KEY (inode, name_id)'],
    }
    for t, frags in exp.items():
        b = body(t)
        for f in frags:
            if f not in b:
                problems.append('%s: %r not declared' % (t, f))
        for c in list(SCHEMA[t][0]) + list(SCHEMA[t][1]):
            if not re.search(r'\b%s\b' % c, b):
                problems.append('%s.%s missing' % (t, c))
    return problems


TOK = re.compile(r"\s*(?:(\d+)|([A-Za-z_][A-Za-z_0-9]*)|('(?:[^']|'')*')|(<=|>=|!=|<>|==|\|\||[?=<>(),.*+\-/;]))")


def tokenize(s):
    out, pos = [], 0
    s = s.strip()
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported('SQL token: %r' % s[pos:pos + 20])
        pos = m.end()
        if m.group(1):
            out.append(('n', int(m.group(1))))
        elif m.group(2):
            out.append(('w', m.group(2)))
        elif m.group(3):
            out.append(('s', m.group(3)[1:-1]))
        else:
            out.append(('o', m.group(4)))
    return out


class P:
    def __init__(self, toks):
        self.t, self.i, self.np = toks, 0, 0

    def peek(self, *w):
        if self.i >= len(self.t):
            return False
        k, v = self.t[self.i]
        if k == 'w':
            return v.upper() in w
        return v in w and k == 'o'

    def eat(self, *w):
        if self.peek(*w):
            self.i += 1
            return True
        return False

    def need(self, *w):
        if not self.eat(*w):
            raise Unsupported('SQL: expected %s at %s' % (w, self.t[self.i:self.i + 3]))

    def word(self):
        k, v = self.t[self.i]
        if k != 'w':
            raise Unsupported('SQL: identifier expected')
        self.i += 1
        return v

    def end(self):
        self.eat(';')
        if self.i != len(self.t):
            raise Unsupported('SQL: trailing %s' % (self.t[self.i:],))

    # expressions
    def expr(self):
        return self.or_()

    def or_(self):
        a = self.and_()
        while self.eat('OR'):
            a = ('or', a, self.and_())
        return a

    def and_(self):
        a = self.not_()
        while self.eat('AND'):
            a = ('and', a, self.not_())
        return a

    def not_(self):
        if self.eat('NOT'):
            if self.eat('EXISTS'):
                self.need('(')
                s = self.select()
                self.need(')')
                return ('not', ('exists', s))
            return ('not', self.not_())
        return self.cmp()

    def cmp(self):
        if self.eat('EXISTS'):
            self.need('(')
            s = self.select()
            self.need(')')
            return ('exists', s)
        a = self.add()
        for op in ('=', '==', '<=', '>=', '!=', '<>', '<', '>'):
            if self.eat(op):
                b = self.add()
                return ('cmp', {'==': '=', '<>': '!='}.get(op, op), a, b)
        if self.eat('IS'):
            neg = self.eat('NOT')
            self.need('NULL')
            r = ('isnull', a)
            return ('not', r) if neg else r
        neg = False
        if self.peek('NOT'):
            self.i += 1
            neg = True
            if not self.peek('IN'):
                raise Unsupported('SQL NOT')
        if self.eat('IN'):
            self.need('(')
            if self.peek('SELECT'):
                s = self.select()
                r = ('in', a, s)
            else:
                xs = [self.expr()]
                while self.eat(','):
                    xs.append(self.expr())
                r = ('inlist', a, xs)
            self.need(')')
            return ('not', r) if neg else r
        if self.eat('BETWEEN'):
            lo = self.add()
            self.need('AND')
            hi = self.add()
            return ('and', ('cmp', '>=', a, lo), ('cmp', '<=', a, hi))
        return a

    def add(self):
        a = self.mul()
        while True:
            if self.eat('+'):
                a = ('+', a, self.mul())
            elif self.eat('-'):
                a = ('-', a, self.mul())
            else:
                return a

    def mul(self):
        a = self.atom()
        while self.eat('*'):
            a = ('*', a, self.atom())
        return a

    def atom(self):
        k, v = self.t[self.i]
        if k == 'n':
            self.i += 1
            return ('num', v)
        if k == 's':
            self.i += 1
            return ('str', v)
        if self.eat('?'):
            self.np += 1
            return ('param', self.np - 1)
        if self.eat('-'):
            return ('-', ('num', 0), self.atom())
        if self.eat('('):
            if self.peek('SELECT'):
                s = self.select()
                self.need(')')
                return ('sub', s)
            e = self.expr()
            self.need(')')
            return e
        if self.eat('*'):
            return ('star',)
        w = self.word()
        if w.upper() == 'NULL':
            return ('null',)
        if self.eat('('):
            args = []
            if not self.peek(')'):
                args.append(self.expr())
                while self.eat(','):
                    args.append(self.expr())
            self.need(')')
            return ('fn', w.upper(), args)
        if self.eat('.'):
            c = self.word()
            return ('col', w, c)
        return ('col', None, w)

    # statements
    def select(self):
        self.need('SELECT')
        distinct = self.eat('DISTINCT')
        cols = [self.expr()]
        if self.eat('AS'):
            self.word()
        while self.eat(','):
            cols.append(self.expr())
            if self.eat('AS'):
                self.word()
        tables, on = [], []
        if self.eat('FROM'):
            def tbl():
                n = self.word()
                alias = n
                if self.eat('AS'):
                    alias = self.word()
                elif self.i < len(self.t) and self.t[self.i][0] == 'w' and self.t[self.i][1].upper() not in (
                        'JOIN', 'LEFT', 'INNER', 'WHERE', 'GROUP', 'ORDER', 'LIMIT', 'ON', 'USING', 'HAVING', 'CROSS'):
                    alias = self.word()
                tables.append((n, alias))
            tbl()
            while True:
                if self.eat('INNER'):
                    pass
                if self.eat('LEFT'):
                    raise Unsupported('LEFT JOIN')
                if self.eat('JOIN') or self.eat(','):
                    tbl()
                    if self.eat('ON'):
                        on.append(self.expr())
                    elif self.eat('USING'):
                        self.need('(')
                        c = self.word()
                        self.need(')')
                        on.append(('cmp', '=', ('col', tables[-2][1], c), ('col', tables[-1][1], c)))
                else:
                    break
        where = self.expr() if self.eat('WHERE') else None
        group = None
        if self.eat('GROUP'):
            self.need('BY')
            group = self.expr()
        order = None
        if self.eat('ORDER'):
            self.need('BY')
            order = []
            while True:
                x = self.expr()
                desc = bool(self.eat('DESC'))
                self.eat('ASC')
                order.append((x, desc))
                if not self.eat(','):
                    break
        limit = None
        if self.eat('LIMIT'):
            limit = self.expr()
        return {'k': 'select', 'cols': cols, 'tables': tables, 'on': on, 'where': where, 'group': group,
                'order': order, 'limit': limit, 'distinct': distinct}


_cache = {}


def parse(sql):
    if sql in _cache:
        return _cache[sql]
    p = P(tokenize(sql))
    if p.peek('SELECT'):
        r = p.select()
    elif p.eat('UPDATE'):
        t = p.word()
        p.need('SET')
        sets = []
        while True:
            c = p.word()
            p.need('=')
            sets.append((c, p.add()))
            if not p.eat(','):
                break
        where = p.expr() if p.eat('WHERE') else None
        r = {'k': 'update', 'table': t, 'sets': sets, 'where': where}
    elif p.eat('DELETE'):
        p.need('FROM')
        t = p.word()
        where = p.expr() if p.eat('WHERE') else None
        r = {'k': 'delete', 'table': t, 'where': where}
    elif p.peek('INSERT', 'REPLACE'):
        repl = p.eat('REPLACE')
        if not repl:
            p.need('INSERT')
            if p.eat('OR'):
                if p.eat('REPLACE'):
                    repl = True
                else:
                    raise Unsupported('INSERT OR')
        p.need('INTO')
        t = p.word()
        p.need('(')
        cols = [p.word()]
        while p.eat(','):
            cols.append(p.word())
        p.need(')')
        if p.eat('VALUES'):
            p.need('(')
            vs = [p.expr()]
            while p.eat(','):
                vs.append(p.expr())
            p.need(')')
            r = {'k': 'insert', 'table': t, 'cols': cols, 'vals': vs, 'replace': bool(repl)}
        else:
            s = p.select()
            r = {'k': 'inssel', 'table': t, 'cols': cols, 'sel': s, 'replace': bool(repl)}
    else:
        raise Unsupported('SQL statement: ' + sql[:40])
    p.end()
    _cache[sql] = r
    return r


class Table:
    """ex(key...) -> Bool ; col[c](key...) -> term; closures over z3 terms."""

    def __init__(self, ctx, name):
        self.name = name
        self.keys, self.cols = SCHEMA[name]
        n = len(self.keys)
        f = ctx.func(name + '_ex', *([I] * n + [B]))
        self.ex = lambda *k: f(*k)
        self.col = {}
        for c, s in self.cols.items():
            g = ctx.func('%s_%s' % (name, c), *([I] * n + [s]))
            self.col[c] = (lambda g: lambda *k: g(*k))(g)
        self.base = f

    def snap(self):
        t = object.__new__(Table)
        t.name, t.keys, t.cols, t.ex, t.col, t.base = self.name, self.keys, self.cols, self.ex, dict(self.col), self.base
        return t


def eqs(a, b):
    return z3.And(*[x == y for x, y in zip(a, b)]) if len(a) > 1 else a[0] == b[0]


class DbState:
    def __init__(self, ctx):
        self.ctx = ctx
        self.t = {n: Table(ctx, n) for n in SCHEMA}
        # secondary unique lookups
        f = ctx.func('idof_name', V, I)
        g = ctx.func('idof_hash', V, I)
        self.idof = {'names': lambda v: f(v), 'objects': lambda v: g(v)}
        # ghost counts
        fs = {}
        for nm, k in (('cn_c', 1), ('cn_x', 1), ('ci', 1), ('cp', 1), ('cob', 1), ('cib', 2)):
            h = ctx.func('ghost_' + nm, *([I] * k + [I]))
            fs[nm] = (lambda h: lambda *a: h(*a))(h)
        self.g = fs

    def snap(self):
        s = object.__new__(DbState)
        s.ctx = self.ctx
        s.t = {n: t.snap() for n, t in self.t.items()}
        s.idof = dict(self.idof)
        s.g = dict(self.g)
        return s

    def cn(self, n):
        return self.g['cn_c'](n) + self.g['cn_x'](n)

    # --- facts that hold by the meaning of the ghosts / unique constraints, instantiated at given terms
    def facts_contents(self, p, n):
        c = self.t['contents']
        e = c.ex(p, n)
        i = c.col['inode'](p, n)
        return z3.And(z3.Implies(e, z3.And(self.g['cn_c'](n) >= 1, self.g['ci'](i) >= 1, self.g['cp'](p) >= 1)),
                      self.g['cn_c'](n) >= 0, self.g['cn_x'](n) >= 0)

    def facts_xattr(self, i, n):
        x = self.t['ext_attributes']
        return z3.And(z3.Implies(x.ex(i, n), self.g['cn_x'](n) >= 1), self.g['cn_x'](n) >= 0, self.g['cn_c'](n) >= 0)

    def facts_block(self, i, b):
        t = self.t['inode_blocks']
        o = t.col['obj_id'](i, b)
        return z3.And(z3.Implies(t.ex(i, b), z3.And(self.g['cob'](o) >= 1, self.g['cib'](i, o) >= 1)))

    def facts_name(self, v):
        n = self.t['names']
        i = self.idof['names'](v)
        return z3.BoolVal(True)

    def unique_name(self, i):
        n = self.t['names']
        return z3.Implies(n.ex(i), self.idof['names'](n.col['name'](i)) == i)

    def unique_hash(self, i):
        o = self.t['objects']
        h = o.col['hash'](i)
        return z3.Implies(z3.And(o.ex(i), h != z3.Const('NULLV', V)), self.idof['objects'](h) == i)

    def base_axioms(self):
        """Quantified versions over the initial state."""
        p, n, i, b = z3.Ints('ax_p ax_n ax_i ax_b')
        c, x, t, nm, ob = (self.t[k] for k in ('contents', 'ext_attributes', 'inode_blocks', 'names', 'objects'))
        A = self.ctx.axiom
        A(z3.ForAll([p, n], self.facts_contents(p, n), patterns=[c.ex(p, n)]))
        A(z3.ForAll([i, n], self.facts_xattr(i, n), patterns=[x.ex(i, n)]))
        A(z3.ForAll([i, b], self.facts_block(i, b), patterns=[t.ex(i, b)]))
        A(z3.ForAll([i], self.unique_name(i), patterns=[nm.ex(i)]))
        A(z3.ForAll([i], self.unique_hash(i), patterns=[ob.ex(i)]))
        A(z3.ForAll([n], z3.And(self.g['cn_c'](n) >= 0), patterns=[self.g['cn_c'](n)]))
        A(z3.ForAll([n], z3.And(self.g['cn_x'](n) >= 0), patterns=[self.g['cn_x'](n)]))
        A(z3.ForAll([n], z3.And(self.g['ci'](n) >= 0), patterns=[self.g['ci'](n)]))
        A(z3.ForAll([n], z3.And(self.g['cob'](n) >= 0), patterns=[self.g['cob'](n)]))
        A(z3.ForAll([i, n], z3.And(self.g['cib'](i, n) >= 0, self.g['cib'](i, n) <= self.g['cob'](n)),
                    patterns=[self.g['cib'](i, n)]))


def upd(f, key, val):
    """pointwise function update at one key"""
    return lambda *k: z3.If(eqs(k, key), val, f(*k))


class SDb(Model):
    """Contract of database.Connection over DbState (trusted: SQLite executes these statements
    according to relational semantics; a write statement is atomic)."""
    _label = 'db'

    def __init__(self, interp, st, errcls):
        self._i = interp
        self._c = interp.ctx
        self._st = st
        self._err = errcls            # NoSuchRowError class
        self._conflict = None         # exception class for constraint violations
        self._log = []
        self._write_hook = None
        self._row_hook = None         # called with (table, key) for each row found/written

    # state protocol for loops
    def m_state(self):
        out = {}
        for n, t in self._st.t.items():
            out[n] = (t.ex,) + tuple(t.col.values())
        for k, v in self._st.g.items():
            out['g_' + k] = v
        out['idof'] = tuple(self._st.idof.values())
        return {k: _Hold(v) for k, v in out.items()}

    def m_havoc(self, i, k):
        """forget everything about one table / ghost count (loop cut)"""
        c = self._c
        if k.startswith('g_'):
            n = 2 if k == 'g_cib' else 1
            h = c.func('ghost_' + k[2:], *([I] * n + [I]))
            self._st.g[k[2:]] = lambda *a: h(*a)
        elif k == 'idof':
            f, g = c.func('idof_name', V, I), c.func('idof_hash', V, I)
            self._st.idof = {'names': lambda v: f(v), 'objects': lambda v: g(v)}
        else:
            t = self._st.t[k]
            n = Table(c, k)
            t.ex, t.col = n.ex, n.col

    # ---- evaluation
    def conj(self, e):
        if e is None:
            return []
        if e[0] == 'and':
            return self.conj(e[1]) + self.conj(e[2])
        return [e]

    def resolve(self, env, tab, col):
        """-> (alias, column) ; env: alias -> (Table, key terms)"""
        if tab is not None:
            for al, (t, k) in env.items():
                if al == tab or al.split('#')[-1] == tab or t.name == tab:
                    if col in t.keys or col in t.cols:
                        return al
            raise Unsupported('SQL column %s.%s' % (tab, col))
        for al, (t, k) in env.items():
            if col in t.keys or col in t.cols or col == 'rowid':
                return al
        raise Unsupported('SQL column %s' % col)

    def colterm(self, env, tab, col):
        al = self.resolve(env, tab, col)
        t, k = env[al]
        if col == 'rowid':
            return z3.Function('rowid_' + t.name, *([I] * (len(t.keys) + 1)))(*k)
        if col in t.keys:
            return k[t.keys.index(col)]
        return t.col[col](*k)

    def term(self, v):
        """python/engine value -> z3 term"""
        if isinstance(v, (SInt,)):
            return v.t
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, SBool):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        return self._i.as_v(v)

    def ev(self, e, env, params):
        k = e[0]
        if k == 'num':
            return z3.IntVal(e[1])
        if k == 'str':
            return self._c.lit(e[1])
        if k == 'null':
            return z3.Const('NULLV', V)
        if k == 'param':
            if e[1] >= len(params):
                raise Unsupported('SQL: missing parameter')
            return self.term(params[e[1]])
        if k == 'col':
            return self.colterm(env, e[1], e[2])
        if k in '+-*':
            a, b = self.ev(e[1], env, params), self.ev(e[2], env, params)
            return {'+': a + b, '-': a - b, '*': a * b}[k] if k != '*' else a * b
        raise Unsupported('SQL expression %s' % k)

    def cond(self, e, env, params):
        if e is None:
            return z3.BoolVal(True)
        k = e[0]
        if k == 'and':
            return z3.And(self.cond(e[1], env, params), self.cond(e[2], env, params))
        if k == 'or':
            return z3.Or(self.cond(e[1], env, params), self.cond(e[2], env, params))
        if k == 'not':
            return z3.Not(self.cond(e[1], env, params))
        if k == 'cmp':
            a, b = self.ev(e[2], env, params), self.ev(e[3], env, params)
            if a.sort() != b.sort():
                if a.sort() == V or b.sort() == V:
                    return z3.BoolVal(False)
            op = e[1]
            if a.sort() == V:
                nl = z3.Const('NULLV', V)
                if op == '=':
                    return z3.And(a == b, a != nl)
                if op == '!=':
                    return z3.And(a != b, a != nl, b != nl)
                raise Unsupported('SQL order on blobs')
            return {'=': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if k == 'isnull':
            a = self.ev(e[1], env, params)
            if a.sort() == V:
                return a == z3.Const('NULLV', V)
            return z3.BoolVal(False)
        if k == 'in':
            return self.in_select(self.ev(e[1], env, params), e[2], env, params)
        if k == 'inlist':
            a = self.ev(e[1], env, params)
            return z3.Or(*[a == self.ev(x, env, params) for x in e[2]])
        if k == 'exists':
            env2, M, free = self.rows(e[1], params, outer=env)
            if free:
                return z3.Exists(free, M)
            return M
        if k == 'num':
            return z3.BoolVal(bool(e[1]))
        raise Unsupported('SQL condition %s' % k)

    def in_select(self, a, sel, env, params):
        env2, M, free = self.rows(sel, params, outer=env, force=[(sel['cols'][0], a)])
        if free:
            return z3.Exists(free, M)
        return M

    def open_tables(self, tables, fresh=True):
        env = {}
        on = []
        for n, alias in tables:
            if n in VIEWS:
                b, j = VIEWS[n]
                env[alias + '#' + b] = self._st.t[b]
                env[alias + '#' + j] = self._st.t[j]
                on.append(('cmp', '=', ('col', alias + '#' + j, 'id'), ('col', alias + '#' + b, 'name_id')))
            elif n in self._st.t:
                env[alias] = self._st.t[n]
            else:
                raise Unsupported('SQL table ' + n)
        return env, on

    def rows(self, sel, params, outer=None, force=()):
        """Row variables of a select: -> (env, match condition, unpinned fresh consts)."""
        tabs, on = self.open_tables(sel['tables'])
        conj = self.conj(sel['where'])
        for o in on + list(sel['on']):
            conj += self.conj(o)
        # fresh key constants, then pin through equalities
        keys = {al: [z3.Int(fresh_name('%s_%s' % (t.name, k))) for k in t.keys] for al, t in tabs.items()}
        fresh = {al: list(k) for al, k in keys.items()}
        pinned = {al: [False] * len(t.keys) for al, t in tabs.items()}

        def env_now():
            e = {al: (tabs[al], keys[al]) for al in tabs}
            if outer:
                for al, v in outer.items():
                    if al not in e:
                        e[al] = v
            return e

        def known(e):
            """is expression e a term over pinned things?"""
            if e[0] in ('num', 'param', 'str', 'null'):
                return True
            if e[0] == 'col':
                env = env_now()
                al = self.resolve(env, e[1], e[2])
                if al not in tabs:
                    return True
                t = tabs[al]
                if e[2] in t.keys:
                    return pinned[al][t.keys.index(e[2])]
                return all(pinned[al])
            if e[0] in '+-*':
                return known(e[1]) and known(e[2])
            return False
        eqlist = [(c[2], c[3]) for c in conj if c[0] == 'cmp' and c[1] == '=']
        extra = []
        changed = True
        forced = list(force)
        while changed:
            changed = False
            for a, b in eqlist + [(b, a) for a, b in eqlist] + [(e, ('term', t)) for e, t in forced]:
                if a[0] != 'col':
                    continue
                env = env_now()
                al = self.resolve(env, a[1], a[2])
                if al not in tabs:
                    continue
                t = tabs[al]
                if b[0] != 'term' and not known(b):
                    continue
                if a[2] in t.keys:
                    ki = t.keys.index(a[2])
                    if pinned[al][ki]:
                        continue
                    tv = b[1] if b[0] == 'term' else self.ev(b, env, params)
                    if tv.sort() != I or tv.eq(keys[al][ki]):
                        continue
                    keys[al][ki] = tv
                    pinned[al][ki] = True
                    changed = True
                elif UNIQUE2.get(t.name) == a[2] and not pinned[al][0]:
                    tv = b[1] if b[0] == 'term' else self.ev(b, env, params)
                    if tv.sort() != V:
                        continue
                    keys[al][0] = self._st.idof[t.name](tv)
                    pinned[al][0] = True
                    changed = True
            if not changed:
                # join of two undetermined keys: one stands for both
                for a, b in eqlist:
                    if a[0] != 'col' or b[0] != 'col':
                        continue
                    env = env_now()
                    x, y = self.resolve(env, a[1], a[2]), self.resolve(env, b[1], b[2])
                    if x not in tabs or y not in tabs or a[2] not in tabs[x].keys or b[2] not in tabs[y].keys:
                        continue
                    ki, kj = tabs[x].keys.index(a[2]), tabs[y].keys.index(b[2])
                    if pinned[x][ki] or pinned[y][kj]:
                        continue
                    # keep the one that belongs to the table with more keys
                    if len(tabs[x].keys) > len(tabs[y].keys):
                        keys[y][kj] = keys[x][ki]
                        pinned[y][kj] = True
                    else:
                        keys[x][ki] = keys[y][kj]
                        pinned[x][ki] = True
                    changed = True
                    break
        env = env_now()
        cs = [tabs[al].ex(*keys[al]) for al in tabs]
        for c in conj:
            cs.append(self.cond(c, env, params))
        for e, tv in forced:
            cs.append(self.ev(e, env, params) == tv)
        free = [k for al in tabs for k, p in zip(fresh[al], pinned[al]) if not p]
        return env, z3.And(*cs), free

    def find(self, sql, params, st=None):
        """Select one row. -> env or None (forks)."""
        sel = st or parse(sql)
        env, M, free = self.rows(sel, params)
        for al, (t, k) in env.items():
            self.touch(t, k)
        if not free:
            if self._c.branch(M, 'row'):
                return sel, env
            return sel, None
        if self._c.choose(2, 'row?') == 0:
            self._c.assume(M)
            return sel, env
        self._c.axiom(z3.ForAll(free, z3.Not(M)))
        self.count_zero(sel, params)
        self._c.ghost.setdefault('norows', []).append((sql, free, M))
        return sel, None

    # ---- all rows of a query
    def query(self, sql, params=(), **kw):
        sel = parse(sql)
        if sel['k'] != 'select':
            raise Unsupported('query of non-select')
        return SRows(self, sel, self._params(params))

    def query_typed(self, types, sql, params=(), **kw):
        return self.query(sql, params)

    def get_list(self, sql, params=(), **kw):
        return self.query(sql, params)

    def count_zero(self, sel, params):
        """a query for all rows with one counted column fixed found none: that count is zero"""
        conj = self.conj(sel['where'])
        if len(sel['tables']) != 1 or sel['on'] or len(conj) != 1:
            return
        c = conj[0]
        tn = sel['tables'][0][0]
        ghost = {('contents', 'parent_inode'): 'cp', ('contents', 'inode'): 'ci', ('inode_blocks', 'obj_id'): 'cob',
                 ('contents', 'name_id'): 'cn_c', ('ext_attributes', 'name_id'): 'cn_x'}
        if c[0] == 'cmp' and c[1] == '=':
            for a, b in ((c[2], c[3]), (c[3], c[2])):
                if a[0] == 'col' and b[0] in ('param', 'num') and (tn, a[2]) in ghost:
                    self._c.assume(self._st.g[ghost[tn, a[2]]](self.ev(b, {}, params)) == 0)

    def touch(self, t, k):
        """instantiate counting/uniqueness facts at the rows that are accessed"""
        st = self._st
        c = self._c
        if t.name == 'contents':
            c.assume(st.facts_contents(*k))
        elif t.name == 'ext_attributes':
            c.assume(st.facts_xattr(*k))
        elif t.name == 'inode_blocks':
            c.assume(st.facts_block(*k))
        elif t.name == 'names':
            c.assume(st.unique_name(k[0]))
        elif t.name == 'objects':
            c.assume(st.unique_hash(k[0]))
        if self._row_hook:
            self._row_hook(t.name, k)

    def agg(self, sel, params):
        c = sel['cols'][0]
        return c[0] == 'fn' and c[1] in ('COUNT', 'SUM', 'MAX', 'MIN', 'TOTAL')

    def wrapcol(self, e, env, params):
        if e == ('num', 1):
            return 1
        if e[0] == 'fn':
            raise Unsupported('SQL function in row')
        t = self.ev(e, env, params)
        if t.sort() == I:
            al = self.resolve(env, e[1], e[2]) if e[0] == 'col' else None
            return self._i.mkint(t)
        if t.sort() == V and e[0] == 'col' and e[2] == 'hash':
            if self._c.branch(t == z3.Const('NULLV', V), 'null'):
                return None
        return SVal(t, bytes)

    # ---- Connection API
    def _select_row(self, sql, params):
        sel = parse(sql)
        if sel['k'] != 'select':
            raise Unsupported('row from non-select')
        if self.agg(sel, params):
            return [self._c.int('agg')]
        sel, env = self.find(sql, params)
        if env is None:
            return None
        return [self.wrapcol(c, env, params) for c in sel['cols']]

    def _params(self, params):
        return list(self._i.iter_concrete(params))

    def get_row(self, sql, params=(), **kw):
        self._c.ghost['db_reads'] = self._c.ghost.get('db_reads', 0) + 1
        r = self._select_row(sql, self._params(params))
        if r is None:
            self._i.raise_(self._err)
        return tuple(r)

    def get_val(self, sql, params=(), **kw):
        return self.get_row(sql, params)[0]

    def get_inode_val(self, sql, params=(), **kw):
        return self.get_val(sql, params)
    get_int_val = get_inode_val
    get_bytes_val = get_inode_val

    def get_bool_val(self, sql, params=(), **kw):
        r = self.get_val(sql, params)
        return self._i.mkbool(self._i.as_int(r) != 0)

    def get_int_val_or_none(self, sql, params=(), **kw):
        return self.get_val(sql, params)

    def get_row_typed(self, types, sql, params=(), **kw):
        return self.get_row(sql, params)

    def has_val(self, sql, params=(), **kw):
        r = self._select_row(sql, self._params(params))
        return r is not None

    def get_size(self):
        return self._c.int('dbsize', lo=0)

    def checkpoint(self):
        self._i.yield_point('checkpoint')
        return SCoro(lambda: None, 'checkpoint')

    def changes(self):
        return self._c.int('changes', lo=0)

    def rowid(self, sql, params=(), **kw):
        r = self.execute(sql, params)
        return self._c.ghost['last_rowid']

    def execute(self, sql, params=(), **kw):
        st = parse(sql)
        params = self._params(params)
        if self._write_hook:
            self._write_hook(st, params)
        k = st['k']
        n = getattr(self, 'do_' + k)(st, params)
        return n

    def do_select(self, st, params):
        return 0

    # -- ghost maintenance at single row granularity (old state -> new state)
    def ghost_row(self, tname, key, colvals, sign, guard):
        """row `key` with column values is removed (sign=-1) or added (+1) if guard"""
        g = self._st.g
        d = z3.If(guard, z3.IntVal(sign), z3.IntVal(0))

        def add(nm, k):
            g[nm] = (lambda f, k: lambda *a: f(*a) + z3.If(eqs(a, k), d, z3.IntVal(0)))(g[nm], k)
        if tname == 'contents':
            p, n = key
            add('cn_c', (n,))
            add('ci', (colvals['inode'],))
            add('cp', (p,))
        elif tname == 'ext_attributes':
            add('cn_x', (key[1],))
        elif tname == 'inode_blocks':
            add('cob', (colvals['obj_id'],))
            add('cib', (key[0], colvals['obj_id']))

    def do_insert(self, st, params):
        t = self._st.t.get(st['table'])
        if t is None:
            raise Unsupported('SQL table ' + st['table'])
        c = self._c
        vals = {col: self.ev(v, {}, params) for col, v in zip(st['cols'], st['vals'])}
        key = []
        auto = None
        for k in t.keys:
            if k in vals:
                key.append(vals[k])
            else:
                nid = c.int('new_' + t.name).t
                c.assume(nid >= 1)
                c.assume(z3.Not(t.ex(nid)))
                auto = nid
                key.append(nid)
        key = tuple(key)
        self.touch(t, key)
        # defaults
        for col, srt in t.cols.items():
            if col not in vals:
                if srt == I:
                    vals[col] = z3.IntVal(0)
                else:
                    vals[col] = z3.Const('NULLV', V)
        exists = t.ex(*key)
        if auto is None:
            if not st['replace']:
                if c.branch(exists, 'unique'):
                    self._i.raise_(self._conflict or RuntimeError, 'UNIQUE constraint')
        # secondary unique
        u = UNIQUE2.get(t.name)
        if u and vals[u] is not None:
            oid = self._st.idof[t.name](vals[u])
            clash = z3.And(t.ex(oid), t.col[u](oid) == vals[u], oid != key[0], vals[u] != z3.Const('NULLV', V))
            if c.branch(clash, 'unique2'):
                if st['replace']:
                    raise Unsupported('REPLACE on secondary key')
                self._i.raise_(self._conflict or RuntimeError, 'UNIQUE constraint')
        old = {col: t.col[col](*key) for col in t.cols}
        if st['replace']:
            self.ghost_row(t.name, key, old, -1, exists)
        self.ghost_row(t.name, key, vals, +1, z3.BoolVal(True))
        t.ex = upd(t.ex, key, z3.BoolVal(True))
        for col in t.cols:
            t.col[col] = upd(t.col[col], key, vals[col])
        if u:
            uid = key[0]
            self._st.idof[t.name] = (lambda f, v, uid: lambda x: z3.If(x == v, uid, f(x)))(self._st.idof[t.name], vals[u], uid)
        self._c.ghost['last_rowid'] = self._i.mkint(auto if auto is not None else z3.Int(fresh_name('rowid')))
        if auto is not None:
            self._c.ghost.setdefault('autoids', []).append((t.name, auto))
            if getattr(self, '_auto_hook', None):
                self._auto_hook(t.name, auto)
        self._log.append(('insert', t.name, key, vals))
        return 1

    def pin_where(self, t, where, params):
        """-> (key terms | None, cond(key) closure)"""
        sel = {'tables': [(t.name, t.name)], 'where': where, 'on': [], 'cols': [('num', 1)]}
        env, M, free = self.rows(sel, params)
        if not free:
            return env[t.name][1], M

        # the closure is evaluated later: subselects must see the tables as they are now
        t0, frozen = t.snap(), self.frozen()

        def cond(*k):
            return frozen.cond(where, {t.name: (t0, k)}, params)
        return None, cond

    def frozen(self):
        o = object.__new__(type(self))
        o.__dict__.update(self.__dict__)
        o.__dict__['_st'] = self._st.snap()
        return o

    def do_update(self, st, params):
        t = self._st.t.get(st['table'])
        if t is None:
            raise Unsupported('SQL table ' + st['table'])
        c = self._c
        key, M = self.pin_where(t, st['where'], params)
        setc = dict(st['sets'])
        keyset = [k for k in setc if k in t.keys]
        if key is not None:
            key = tuple(key)
            self.touch(t, key)
            ok = c.branch(M, 'upd')
            if not ok:
                return 0
            env = {t.name: (t, key)}
            nv = {col: self.ev(e, env, params) for col, e in setc.items()}
            old = {col: t.col[col](*key) for col in t.cols}
            newkey = tuple(nv.get(k, kv) for k, kv in zip(t.keys, key))
            newvals = {col: nv.get(col, old[col]) for col in t.cols}
            if keyset:
                self.touch(t, newkey)
                if c.branch(z3.And(t.ex(*newkey), z3.Not(eqs(newkey, key))), 'updconf'):
                    self._i.raise_(self._conflict or RuntimeError, 'UNIQUE constraint')
            u = UNIQUE2.get(t.name)
            self.ghost_row(t.name, key, old, -1, z3.BoolVal(True))
            self.ghost_row(t.name, newkey, newvals, +1, z3.BoolVal(True))
            if keyset:
                t.ex = upd(upd(t.ex, key, z3.BoolVal(False)), newkey, z3.BoolVal(True))
            for col in t.cols:
                if keyset or col in nv:
                    t.col[col] = upd(t.col[col], newkey, newvals[col])
            if u and u in nv:
                isnull = nv[u] == z3.Const('NULLV', V)
                self._st.idof[t.name] = (lambda f, v, uid: lambda x: z3.If(z3.And(x == v, z3.Not(isnull)), uid, f(x)))(
                    self._st.idof[t.name], nv[u], key[0])
            self._log.append(('update', t.name, key, newkey, newvals))
            return 1
        cond = M
        # bulk
        if keyset:
            return self.bulk_rekey(st, t, setc, keyset, params)
        if t.name in ('contents', 'inode_blocks') and any(col in setc for col in ('inode', 'obj_id')):
            raise Unsupported('bulk update of counted column')
        t0, fz = t.snap(), self.frozen()
        for col, e in setc.items():
            def newf(*k, col=col, e=e):
                env = {t.name: (t0, k)}
                return z3.If(z3.And(t0.ex(*k), cond(*k)), fz.ev(e, env, params), t0.col[col](*k))
            t.col[col] = newf
        if UNIQUE2.get(t.name) in setc:
            raise Unsupported('bulk update of unique column')
        self._log.append(('bulkupdate', t.name))
        return self._c.int('changes', lo=0)

    def bulk_rekey(self, st, t, setc, keyset, params):
        """UPDATE t SET k=? WHERE k=? (bulk move of all rows with key part k=S to k=T)"""
        if t.name != 'contents' or keyset != ['parent_inode'] or len(setc) != 1:
            raise Unsupported('bulk rekey')
        w = st['where']
        if not (w and w[0] == 'cmp' and w[1] == '=' and w[2][0] == 'col' and w[2][2] == 'parent_inode'):
            raise Unsupported('bulk rekey where')
        T = self.ev(setc['parent_inode'], {}, params)
        S = self.ev(w[3], {}, params)
        c = self._c
        n = z3.Int(fresh_name('n'))
        t0 = t.snap()
        conflict = z3.And(S != T, t0.ex(T, n), t0.ex(S, n))
        if c.choose(2, 'rekeyconf') == 1:
            c.assume(conflict)
            self._i.raise_(self._conflict or RuntimeError, 'UNIQUE constraint')
        c.axiom(z3.ForAll([n], z3.Not(conflict)))
        t.ex = lambda p, m: z3.If(p == T, z3.Or(t0.ex(T, m), t0.ex(S, m)), z3.If(p == S, z3.BoolVal(False), t0.ex(p, m)))
        for col in t.cols:
            t.col[col] = (lambda f: lambda p, m: z3.If(z3.And(p == T, t0.ex(S, m)), f(S, m), f(p, m)))(t0.col[col])
        g = self._st.g
        cp0 = g['cp']
        g['cp'] = lambda p: z3.If(S == T, cp0(p), z3.If(p == T, cp0(T) + cp0(S), z3.If(p == S, z3.IntVal(0), cp0(p))))
        self._log.append(('rekey', t.name, S, T))
        return c.int('changes', lo=0)

    def do_delete(self, st, params):
        t = self._st.t.get(st['table'])
        if t is None:
            raise Unsupported('SQL table ' + st['table'])
        c = self._c
        key, M = self.pin_where(t, st['where'], params)
        if key is not None:
            key = tuple(key)
            self.touch(t, key)
            if not c.branch(M, 'del'):
                return 0
            old = {col: t.col[col](*key) for col in t.cols}
            self.ghost_row(t.name, key, old, -1, z3.BoolVal(True))
            t.ex = upd(t.ex, key, z3.BoolVal(False))
            self._log.append(('delete', t.name, key))
            return 1
        t0 = t.snap()
        cond = M
        g = self._st.g
        if t.name == 'ext_attributes':
            # pinned by inode only: each name occurs at most once per inode
            w = st['where']
            x = self.single_pin(w, 'inode', params)
            f = g['cn_x']
            g['cn_x'] = lambda n: f(n) - z3.If(t0.ex(x, n), z3.IntVal(1), z3.IntVal(0))
        elif t.name in ('contents', 'inode_blocks'):
            raise Unsupported('bulk delete from %s' % t.name)
        t.ex = lambda *k: z3.And(t0.ex(*k), z3.Not(cond(*k)))
        self._log.append(('bulkdelete', t.name))
        return c.int('changes', lo=0)

    def single_pin(self, w, col, params):
        if w and w[0] == 'cmp' and w[1] == '=' and w[2][0] == 'col' and w[2][2] == col and w[3][0] in ('param', 'num'):
            return self.ev(w[3], {}, params)
        raise Unsupported('bulk statement not restricted by %s' % col)

    def do_inssel(self, st, params):
        t = self._st.t.get(st['table'])
        if t is None:
            raise Unsupported('SQL table ' + st['table'])
        sel = st['sel']
        c = self._c
        g = self._st.g
        if t.name == 'objects' and st['replace']:
            return self.replace_objects(st, params)
        # INSERT INTO t (inode, cols) SELECT ?, cols FROM t WHERE inode=?
        cols = dict(zip(st['cols'], sel['cols']))
        if [x[0] for x in sel['tables']] != [t.name] or set(cols) != set(t.keys) | set(t.cols) or sel['group']:
            raise Unsupported('INSERT..SELECT shape')
        if t.keys[0] != 'inode' or cols['inode'][0] not in ('param', 'num'):
            raise Unsupported('INSERT..SELECT shape')
        for cc, e in cols.items():
            if cc != 'inode' and e != ('col', None, cc):
                raise Unsupported('INSERT..SELECT shape')
        new = self.ev(cols['inode'], {}, params)
        src = self.single_pin(sel['where'], 'inode', params)
        t0 = t.snap()
        rest = [z3.Int(fresh_name('r')) for _ in t.keys[1:]]
        conflict = z3.And(t0.ex(new, *rest), t0.ex(src, *rest))
        if not st['replace']:
            if not rest:
                if c.branch(conflict, 'insselconf'):
                    self._i.raise_(self._conflict or RuntimeError, 'UNIQUE constraint')
            else:
                if c.choose(2, 'insselconf') == 1:
                    c.assume(conflict)
                    self._i.raise_(self._conflict or RuntimeError, 'UNIQUE constraint')
                c.axiom(z3.ForAll(rest, z3.Not(conflict)))
        t.ex = lambda i, *r: z3.If(i == new, z3.Or(t0.ex(new, *r), t0.ex(src, *r)), t0.ex(i, *r))
        for col in t.cols:
            t.col[col] = (lambda f: lambda i, *r: z3.If(z3.And(i == new, t0.ex(src, *r)), f(src, *r), f(i, *r)))(t0.col[col])
        if t.name == 'ext_attributes':
            f = g['cn_x']
            g['cn_x'] = lambda n: f(n) + z3.If(z3.And(t0.ex(src, n), z3.Not(t0.ex(new, n))), z3.IntVal(1), z3.IntVal(0))
        elif t.name == 'inode_blocks':
            fo, fi = g['cob'], g['cib']
            g['cob'] = lambda o: fo(o) + fi(src, o)
            g['cib'] = lambda i, o: z3.If(i == new, fi(new, o) + fi(src, o), fi(i, o))
        self._log.append(('inssel', t.name, new, src))
        return c.int('changes', lo=0)

    def replace_objects(self, st, params):
        """REPLACE INTO objects (...) SELECT id, hash, <expr over refcount, COUNT(id)>, ... FROM inode_blocks
        JOIN objects ON obj_id = id WHERE inode = ? GROUP BY id"""
        sel = st['sel']
        cols = dict(zip(st['cols'], sel['cols']))
        names = sorted(x[0] for x in sel['tables'])
        if names != ['inode_blocks', 'objects'] or sel['group'] != ('col', None, 'id') or len(sel['on']) != 1:
            raise Unsupported('REPLACE..SELECT shape')
        if set(cols) != {'id', 'hash', 'refcount', 'phys_size', 'length'} or cols['id'] != ('col', None, 'id'):
            raise Unsupported('REPLACE..SELECT shape')
        o1 = sel['on'][0]
        if o1[0] != 'cmp' or o1[1] != '=' or {o1[2][2], o1[3][2]} != {'obj_id', 'id'}:
            raise Unsupported('REPLACE..SELECT join')
        src = self.single_pin(sel['where'], 'inode', params)
        t = self._st.t['objects']
        t0 = t.snap()
        cib = self._st.g['cib']

        def evc(e, oid):
            if e[0] == 'fn' and e[1] == 'COUNT':
                return cib(src, oid)
            if e[0] == 'col':
                if e[2] == 'id':
                    return oid
                return t0.col[e[2]](oid)
            if e[0] in '+-*':
                a, b = evc(e[1], oid), evc(e[2], oid)
                return a + b if e[0] == '+' else a - b if e[0] == '-' else a * b
            if e[0] in ('num', 'param'):
                return self.ev(e, {}, params)
            raise Unsupported('REPLACE..SELECT expr')
        for col in t.cols:
            t.col[col] = (lambda col, e: lambda o: z3.If(z3.And(t0.ex(o), cib(src, o) >= 1), evc(e, o), t0.col[col](o)))(
                col, cols[col])
        self._log.append(('replobj', src))
        return self._c.int('changes', lo=0)


class SRows(Model):
    """All rows of a select, as they are when the query is made: a sequence of any length, without repetition,
    that has exactly the matching rows, in the order asked for."""
    m_type = list

    def __init__(self, db, sel, params):
        self._db = db
        c = db._c
        st = db._st
        db._st = st.snap()                  # rows of the tables as they are now
        try:
            if db.agg(sel, params) or sel.get('limit') is not None or sel['group'] or sel['distinct']:
                raise Unsupported('query form')
            env, M, free = db.rows(sel, params)
        finally:
            db._st = st
        self.sel, self.params = sel, params
        self.frozen = st.snap()
        if not free:
            self.n = z3.If(M, z3.IntVal(1), z3.IntVal(0))
            self.kf = []
        else:
            n = z3.Int(fresh_name('rows'))
            c.assume(n >= 0)
            self.n = n
            self.kf = [c.func('row_%s' % f, I, I) for f in free]
        self.free, self.M, self.env0 = free, M, env
        if free:
            j, j2 = z3.Ints('rj rj2')
            kj = [f(j) for f in self.kf]
            self.idx = c.func('rowidx', *([I] * len(free) + [I]))
            inr = z3.And(j >= 0, j < self.n)
            c.axiom(z3.ForAll([j], z3.Implies(inr, z3.And(z3.substitute(M, *zip(free, kj)), self.idx(*kj) == j)),
                              patterns=[self.kf[0](j)]))
            ix = self.idx(*free)
            c.axiom(z3.ForAll(free, z3.Implies(M, z3.And(ix >= 0, ix < self.n, *[
                f(ix) == x for f, x in zip(self.kf, free)])), patterns=[ix]))
            for col, desc in reversed(sel.get('order') or []):
                t = lambda jj: z3.substitute(db.ev(col, env, params), *zip(free, [f(jj) for f in self.kf]))
                a, b = t(j), t(j2)
                if a.sort() != I:
                    raise Unsupported('order by non-integer')
                if len(sel['order']) == 1:
                    strict = len(free) == 1 and z3.is_const(db.ev(col, env, params)) and db.ev(col, env, params).eq(free[0])
                    lt = (a > b if strict else a >= b) if desc else (a < b if strict else a <= b)
                    c.axiom(z3.ForAll([j, j2], z3.Implies(z3.And(0 <= j, j < j2, j2 < self.n), lt),
                                      patterns=[z3.MultiPattern(self.kf[0](j), self.kf[0](j2))]))
                    self.strict = strict
        c.ghost.setdefault('rows', []).append(self)

    def member(self, *keys):
        """does the row with these free keys match; also makes its position known"""
        m = z3.substitute(self.M, *zip(self.free, keys))
        ix = self.idx(*keys)
        self._db._c.assume(z3.Implies(m, z3.And(ix >= 0, ix < self.n, *[f(ix) == x for f, x in zip(self.kf, keys)])))
        return m

    def row(self, j):
        db = self._db
        sub = list(zip(self.free, [f(j) for f in self.kf]))
        if sub:
            db._c.assume(z3.Implies(z3.And(j >= 0, j < self.n), z3.And(
                z3.substitute(self.M, *sub), self.idx(*[f(j) for f in self.kf]) == j)))
        env = {al: (t, [z3.substitute(k, *sub) for k in ks]) for al, (t, ks) in self.env0.items()}
        st = db._st
        db._st = self.frozen
        try:
            for al, (t, k) in env.items():
                db.touch(t, k)
            return tuple(db.wrapcol(c, env, self.params) for c in self.sel['cols'])
        finally:
            db._st = st

    def m_iter(self, i):
        return SIterOf(self.n, lambda k: self.row(k.t))

    def m_enter(self, i):
        return self

    def m_exit(self, i, exc):
        return False

    def m_len(self):
        return SInt(self.n)

    def m_state(self):
        return {}

    def m_getattr(self, i, n):
        if n == 'close':
            return lambda: None
        return NotImplemented


def SIterOf(n, elem):
    from .interp import SIter
    return SIter(n, elem)


class _Hold:
    """opaque holder compared by identity of members"""
    def __init__(self, v):
        self.v = v if isinstance(v, tuple) else (v,)

    def m_same(self, o):
        return isinstance(o, _Hold) and len(self.v) == len(o.v) and all(x is y for x, y in zip(self.v, o.v))
