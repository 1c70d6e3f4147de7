"""Relational semantics of the statements the file system checker issues: joins on row keys, outer joins, grouping, temporary
tables, set difference.

Every table is a set of row numbers with column arrays (z3 arrays over unbounded integers).  How many rows have a given value
in a column that is counted is a ghost array, changed with every row; `meaning` states what it means.  A query is the
sequence of the matching rows of the state it starts in (each once, in any order).
"""
from __future__ import annotations
import re
import z3
from .values import *
from .core import PathEnd
from . import sqlm
from .interp import SIter, PyRaise
from .sqlm import tokenize

I, B = z3.IntSort(), z3.BoolSort()
NULLV = z3.Const('NULLV', V)

# key column (an alias of the row number), other columns
TABLES = {
    'objects': ('id', {'hash': V, 'refcount': I, 'phys_size': I, 'length': I}),
    'inodes': ('id', {'uid': I, 'gid': I, 'mode': I, 'mtime_ns': I, 'atime_ns': I, 'ctime_ns': I, 'refcount': I, 'size': I, 'rdev': I}),
    'names': ('id', {'name': V, 'refcount': I}),
    'symlink_targets': ('inode', {'target': V}),
    'contents': (None, {'name_id': I, 'inode': I, 'parent_inode': I}),
    'inode_blocks': (None, {'inode': I, 'blockno': I, 'obj_id': I}),
    'ext_attributes': (None, {'inode': I, 'name_id': I, 'value': V}),
}
COUNTED = [('contents', 'name_id'), ('contents', 'inode'), ('ext_attributes', 'name_id'), ('inode_blocks', 'obj_id')]
UNIQUE = {'contents': ('parent_inode', 'name_id'), 'inode_blocks': ('inode', 'blockno'), 'ext_attributes': ('inode', 'name_id'),
          'names': ('name',), 'objects': ('hash',)}


class P(sqlm.P):
    def select(self):
        self.need('SELECT')
        self.eat('DISTINCT')
        cols = []
        while True:
            cols.append(self.expr())
            if self.eat('AS'):
                self.word()
            if not self.eat(','):
                break
        tables = []
        if self.eat('FROM'):
            def tbl(left):
                n = self.word()
                al = n
                if self.eat('AS'):
                    al = self.word()
                tables.append([n, al, left, []])
            tbl(False)
            while True:
                left = False
                if self.eat('LEFT'):
                    self.eat('OUTER')
                    left = True
                elif self.eat('INNER'):
                    pass
                if self.eat('JOIN') or not left and self.eat(','):
                    tbl(left)
                    if self.eat('ON'):
                        tables[-1][3].append(self.expr())
                    elif self.eat('USING'):
                        self.need('(')
                        c = self.word()
                        self.need(')')
                        tables[-1][3].append(('cmp', '=', ('col', tables[-2][1], c), ('col', tables[-1][1], c)))
                else:
                    break
        where = self.expr() if self.eat('WHERE') else None
        group = None
        if self.eat('GROUP'):
            self.need('BY')
            group = self.expr()
        exc = None
        if self.eat('EXCEPT'):
            exc = self.select()
        if self.eat('ORDER'):
            self.need('BY')
            self.expr()
            self.eat('ASC', 'DESC')
        limit = self.expr() if self.eat('LIMIT') else None
        return dict(k='select', cols=cols, tables=tables, where=where, group=group, exc=exc, limit=limit)


_cache = {}


def parse(sql):
    if sql in _cache:
        return _cache[sql]
    p = P(tokenize(sql.replace('==', '=')))
    if p.peek('SELECT'):
        r = p.select()
    elif p.eat('UPDATE'):
        t = p.word()
        p.need('SET')
        sets = []
        while True:
            c = p.word()
            p.need('=')
            sets.append((c, p.add()))
            if not p.eat(','):
                break
        r = dict(k='update', table=t, sets=sets, where=p.expr() if p.eat('WHERE') else None)
    elif p.eat('DELETE'):
        p.need('FROM')
        r = dict(k='delete', table=p.word(), where=p.expr() if p.eat('WHERE') else None)
    elif p.eat('INSERT'):
        p.need('INTO')
        t = p.word()
        cols = None
        if p.eat('('):
            cols = [p.word()]
            while p.eat(','):
                cols.append(p.word())
            p.need(')')
        if p.eat('VALUES'):
            p.need('(')
            vs = [p.expr()]
            while p.eat(','):
                vs.append(p.expr())
            p.need(')')
            r = dict(k='insert', table=t, cols=cols, vals=vs)
        else:
            r = dict(k='inssel', table=t, cols=cols, sel=p.select())
    elif p.eat('CREATE'):
        if p.eat('INDEX'):
            r = dict(k='nop')
            p.i = len(p.t)
        else:
            p.need('TEMPORARY', 'TEMP')
            p.need('TABLE')
            t = p.word()
            if p.eat('AS'):
                r = dict(k='createas', table=t, sel=p.select())
            else:
                p.need('(')
                cols, key = [], None
                while True:
                    c = p.word()
                    cols.append(c)
                    ws = []
                    while not p.peek(',', ')'):
                        ws.append(p.word().upper())
                    if 'PRIMARY' in ws:
                        if ws[0] != 'INTEGER':
                            raise Unsupported('key of temporary table')
                        key = c
                    if not p.eat(','):
                        break
                p.need(')')
                r = dict(k='create', table=t, cols=cols, key=key)
    elif p.eat('DROP'):
        if p.eat('INDEX'):
            r = dict(k='nop')
            p.i = len(p.t)
        else:
            p.need('TABLE')
            ie = False
            if p.eat('IF'):
                p.need('EXISTS')
                ie = True
            r = dict(k='drop', table=p.word(), ifexists=ie)
    else:
        raise Unsupported('SQL statement: ' + sql[:40])
    p.end()
    _cache[sql] = r
    return r


class Rel:
    """ex(r), col(name, r) -> (null, term)"""
    def __init__(self, name, key, order, ex, cols, trig=None):
        self.name, self.key, self.order, self.ex, self.cols, self.trig = name, key, order, ex, cols, trig or ex

    def has(self, c):
        return c == 'rowid' or c == self.key or c in self.cols

    def col(self, c, r):
        if c == 'rowid' or c == self.key:
            return False, r
        return self.cols[c](r)


def nor(*xs):
    xs = [x for x in xs if x is not False]
    return False if not xs else xs[0] if len(xs) == 1 else z3.Or(*xs)


def conj(e):
    if e is None:
        return []
    if e[0] == 'and':
        return conj(e[1]) + conj(e[2])
    return [e]


class Query:
    """the rows of a select: driving relation, match(r), env(r)"""

    def __init__(self, db, sel, params, outer=None):
        self.db, self.sel, self.params, self.outer = db, sel, params, outer or {}
        tabs = []
        for n, al, left, on in sel['tables']:
            if n == 'contents_v':
                tabs.append((al, db.rel('contents'), left, list(on)))
                tabs.append((al, db.rel('names'), False, [('viewjoin',)]))
            else:
                tabs.append((al, db.rel(n), left, list(on)))
        self.where = conj(sel['where'])
        for order in range(len(tabs)):
            if tabs[order][2]:
                continue
            r = self.plan(tabs, order)
            if r is not None:
                self.steps = r
                break
        else:
            raise Unsupported('SQL join')
        self.drv = tabs[order][1]

    def plan(self, tabs, d):
        """[(alias, rel, left, key expression or None)], residual conditions"""
        todo = [t for k, t in enumerate(tabs) if k != d]
        steps = [(tabs[d][0], tabs[d][1], False, None)]
        res = [c for t in [tabs[d]] for e in t[3] for c in conj(e)] + list(self.where)
        known = [(tabs[d][0], tabs[d][1])]
        if any(e == ('viewjoin',) for e in tabs[d][3]):
            return None
        while todo:
            hit = None
            for t in todo:
                al, rel, left, on = t
                cs = [c for e in on for c in conj(e)]
                if ('viewjoin',) in cs:
                    if any(a == al for a, _ in known):
                        hit = (t, ('viewkey',), [])
                        break
                    continue
                for pool, isw in ((cs, False), (res, True)):
                    if left and isw:
                        continue
                    for c in pool:
                        if c[0] != 'cmp' or c[1] != '=':
                            continue
                        for x, y in ((c[2], c[3]), (c[3], c[2])):
                            x = strip(x)
                            if x[0] == 'col' and self.owner(x, tabs) is rel and (x[2] == rel.key or x[2] == 'rowid') and \
                                    self.closed(y, known, tabs):
                                rest = [z for z in cs if z is not c]
                                if isw:
                                    res = [z for z in res if z is not c]
                                hit = (t, y, rest)
                                break
                        if hit:
                            break
                    if hit:
                        break
                if hit:
                    break
            if not hit:
                return None
            t, key, rest = hit
            if t[2] and rest:
                return None
            res += rest
            steps.append((t[0], t[1], t[2], key))
            known.append((t[0], t[1]))
            todo = [x for x in todo if x is not t]
        self.res = res
        return steps

    def owner(self, x, tabs):
        for t in tabs:
            if (x[1] is None or x[1] == t[0]) and t[1].has(x[2]):
                return t[1]
        return None

    def closed(self, e, known, tabs):
        if e[0] == 'col':
            o = self.owner(e, tabs)
            if o is None:
                return True             # outer query
            return any(o is r for _, r in known)
        return all(self.closed(x, known, tabs) for x in e[1:] if isinstance(x, tuple))

    def env(self, r):
        env = []
        for al, rel, left, key in self.steps:
            if key is None:
                env.append((al, rel, r, False))
                continue
            if key == ('viewkey',):
                nl, k = next(x for x in env if x[0] == al)[1].col('name_id', next(x for x in env if x[0] == al)[2])
            else:
                nl, k = self.db.ev(key, env, self.params, self.outer)
            env.append((al, rel, k, nor(nl, z3.Not(rel.ex(k))) if left else ('inner', nl)))
        return env

    def match(self, r):
        env = self.env(r)
        cs = [self.drv.ex(r)]
        e2 = []
        for al, rel, k, n in env:
            if isinstance(n, tuple):
                cs.append(rel.ex(k))
                if n[1] is not False:
                    cs.append(z3.Not(n[1]))
                n = False
            e2.append((al, rel, k, n))
        for c in self.res:
            cs.append(self.db.cond(c, e2, self.params, self.outer))
        return z3.And(*cs) if len(cs) > 1 else cs[0]

    def row(self, r):
        env = [(al, rel, k, False if isinstance(n, tuple) else n) for al, rel, k, n in self.env(r)]
        out = []
        for c in self.sel['cols']:
            if c == ('star',):
                for al, rel, k, n in env:
                    for x in rel.order:
                        nl, t = rel.col(x, k)
                        out.append((nor(nl, n), t))
            else:
                out.append(self.db.ev(c, env, self.params, self.outer))
        return out

    def names(self):
        out = []
        for c in self.sel['cols']:
            if c == ('star',):
                for al, rel, left, key in self.steps:
                    out += rel.order
            else:
                c = strip(c)
                out.append(c[2] if c[0] == 'col' else None)
        return out

    def pinned(self):
        """value of the driving row number if the conditions give it"""
        for c in self.res:
            if c[0] == 'cmp' and c[1] == '=':
                for x, y in ((c[2], c[3]), (c[3], c[2])):
                    x = strip(x)
                    if x[0] == 'col' and (x[1] is None or x[1] == self.steps[0][0]) and (x[2] == self.drv.key or x[2] == 'rowid') and \
                            self.drv.has(x[2]) and self.closed(y, [], [(s[0], s[1]) for s in self.steps]) and not self.outer:
                        return self.db.ev(y, [], self.params, self.outer)[1]
        return None

    def none(self):
        r = z3.Int(fresh_name('nr'))
        return z3.ForAll([r], z3.Not(self.match(r)), patterns=[self.drv.trig(r)])


def strip(e):
    return e


class FDb(Model):
    _label = 'db'

    def __init__(self, ctx, i, nosuch):
        self._c, self._i, self._err = ctx, i, nosuch
        self.S = {}
        for t, (key, cols) in TABLES.items():
            self.S[t + '.ex'] = z3.Array(fresh_name(t + '_ex'), I, B)
            for c, s in cols.items():
                self.S['%s.%s' % (t, c)] = z3.Array(fresh_name('%s_%s' % (t, c)), I, s)
        for t, c in COUNTED:
            self.S['cnt.%s.%s' % (t, c)] = z3.Array(fresh_name('cnt_%s_%s' % (t, c)), I, I)
        self.temp = {}
        self.fixes = {'dbf': ''}
        self.meaning()
        self.wlog = []

    # ------------------------------------------------------------ state
    def m_state(self):
        from .collm import Arr
        return {k: Arr(v) for k, v in self.S.items()}

    def m_havoc(self, i, k):
        if k not in self.S:
            raise Unsupported('temporary table created in a loop')
        self.S[k] = z3.Const(fresh_name('lp_' + k), self.S[k].sort())

    def snap(self):
        s = dict(self.S)
        return s

    def set(self, k, v):
        n = z3.Const(fresh_name(k), v.sort())
        self._c.assume(n == v)
        self.S[k] = n

    def rel(self, name, S=None):
        S = dict(self.S) if S is None else S
        if name in TABLES:
            key, cols = TABLES[name]
        elif name in self.temp:
            d = self.temp[name]
            if isinstance(d, Rel):
                return d
            key, cols = d
        else:
            raise Unsupported('SQL table ' + name)

        def mk(c, s):
            a = S['%s.%s' % (name, c)]
            if '%s.%s?' % (name, c) in S:
                nl = S['%s.%s?' % (name, c)]
                return lambda r: (nl[r], a[r])
            return (lambda r: (a[r] == NULLV, a[r])) if s == V and c == 'hash' or c == 'target' else (lambda r: (False, a[r]))
        ex = S[name + '.ex']
        return Rel(name, key, ([key] if key else []) + list(cols), lambda r: ex[r], {c: mk(c, s) for c, s in cols.items()})

    def meaning(self, S=None):
        """what the counts mean and what the unique constraints say about the state (assumed: SQLite keeps both)"""
        S = S or self.S
        c = self._c
        v, r = z3.Ints('mg_v mg_r')
        for t, col in COUNTED:
            C, ex, a = S['cnt.%s.%s' % (t, col)], S[t + '.ex'], S['%s.%s' % (t, col)]
            w = z3.Function(fresh_name('wit_' + t), I, I)
            c.axiom(z3.ForAll([v], z3.And(C[v] >= 0, z3.Implies(C[v] > 0, z3.And(ex[w(v)], a[w(v)] == v))), patterns=[C[v]]))
            c.axiom(z3.ForAll([r], z3.Implies(ex[r], z3.And(C[a[r]] >= 1, z3.Implies(C[a[r]] == 1, w(a[r]) == r))), patterns=[a[r]]))
        for t, cols in UNIQUE.items():
            ex, arrs = S[t + '.ex'], [S['%s.%s' % (t, x)] for x in cols]
            f = z3.Function(fresh_name('rowof_' + t), *([a.sort().range() for a in arrs] + [I]))
            g = ex[r] if t != 'objects' else z3.And(ex[r], arrs[0][r] != NULLV)
            c.axiom(z3.ForAll([r], z3.Implies(g, f(*[a[r] for a in arrs]) == r), patterns=[z3.MultiPattern(*[a[r] for a in arrs])]))

    # ------------------------------------------------------------ expressions
    def find(self, env, outer, al, c):
        for pool in (env, outer or ()):
            for a, rel, k, n in pool:
                if (al is None or a == al or rel.name == al) and rel.has(c):
                    nl, t = rel.col(c, k)
                    return nor(nl, n), t
        raise Unsupported('SQL column %s' % c)

    def param(self, v):
        i = self._i
        if v is None:
            return z3.BoolVal(True), z3.IntVal(0)
        if isinstance(v, SBool):
            return False, z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        t = i.as_int(v) if isinstance(v, (int, SInt)) else None
        if t is not None:
            return False, t
        return False, i.as_v(v)

    def ev(self, e, env, params, outer=None):
        k = e[0]
        if k == 'num':
            return False, z3.IntVal(e[1])
        if k == 'null':
            return z3.BoolVal(True), z3.IntVal(0)
        if k == 'param':
            if e[1] >= len(params):
                raise Unsupported('SQL: missing parameter')
            return self.param(params[e[1]])
        if k == 'col':
            return self.find(env, outer, e[1], e[2])
        if k in ('+', '-', '*'):
            (na, a), (nb, b) = self.ev(e[1], env, params, outer), self.ev(e[2], env, params, outer)
            return nor(na, nb), (a + b if k == '+' else a - b if k == '-' else a * b)
        if k == 'sub':
            return self.scalar(e[1], env, params, outer)
        if k == 'fn' and e[1] == 'COALESCE':
            (na, a), (nb, b) = self.ev(e[2][0], env, params, outer), self.ev(e[2][1], env, params, outer)
            if na is False:
                return False, a
            return (False if nb is False else z3.And(na, nb)), z3.If(na, b, a)
        if k == 'fn' and e[1] == 'MAX' and len(e[2]) > 1:
            xs = [self.ev(x, env, params, outer) for x in e[2]]
            m = xs[0][1]
            for _, x in xs[1:]:
                m = z3.If(x > m, x, m)
            return nor(*[x[0] for x in xs]), m
        raise Unsupported('SQL expression %s %s' % (k, e[1] if k == 'fn' else ''))

    def scalar(self, sel, env, params, outer):
        col = sel['cols'][0]
        if col[0] == 'fn' and col[1] == 'COUNT':
            return False, self.count(sel, env, params)
        if col[0] == 'fn' and col[1] == 'MAX' and len(col[2]) == 1 and not sel['group']:
            q = Query(self, dict(sel, cols=col[2]), params, env)
            m, nl, w, r = z3.Int(fresh_name('max')), z3.Bool(fresh_name('maxnull')), z3.Int(fresh_name('maxrow')), z3.Int('mx_r')
            self._c.axiom(z3.ForAll([r], z3.Implies(q.match(r), z3.And(z3.Not(nl), q.row(r)[0][1] <= m)), patterns=[q.drv.trig(r)]))
            self._c.assume(z3.Implies(z3.Not(nl), z3.And(q.match(w), q.row(w)[0][1] == m)))
            return nl, m
        raise Unsupported('SQL subquery')

    def count(self, sel, env, params):
        """COUNT(..) over one table, of the rows with a value in a counted column"""
        if len(sel['tables']) != 1 or sel['group']:
            raise Unsupported('SQL count')
        t = sel['tables'][0][0]
        cs = conj(sel['where'])
        if len(cs) == 1 and cs[0][0] == 'cmp' and cs[0][1] == '=':
            for x, y in ((cs[0][2], cs[0][3]), (cs[0][3], cs[0][2])):
                if x[0] == 'col' and (t, x[2]) in COUNTED and x[1] in (None, t):
                    if y[0] == 'col' and y[1] is None and self.rel(t).has(y[2]):
                        continue
                    nl, v = self.ev(y, [], params, env)
                    return self.S['cnt.%s.%s' % (t, x[2])][v]
        if env:
            raise Unsupported('SQL correlated count')
        q = Query(self, dict(sel, cols=[('num', 1)]), params)
        n, r, w = z3.Int(fresh_name('count')), z3.Int('ct_r'), z3.Int(fresh_name('ct_w'))
        self._c.assume(n >= 0)
        self._c.axiom(z3.ForAll([r], z3.Implies(q.match(r), n > 0), patterns=[q.drv.trig(r)]))
        self._c.assume(z3.Implies(n > 0, q.match(w)))
        return n

    def cond(self, e, env, params, outer=None):
        k = e[0]
        if k == 'and':
            return z3.And(self.cond(e[1], env, params, outer), self.cond(e[2], env, params, outer))
        if k == 'or':
            return z3.Or(self.cond(e[1], env, params, outer), self.cond(e[2], env, params, outer))
        if k == 'not' and e[1][0] == 'isnull':
            n = self.ev(e[1][1], env, params, outer)[0]
            return z3.BoolVal(True) if n is False else z3.Not(n)
        if k == 'isnull':
            n = self.ev(e[1], env, params, outer)[0]
            return z3.BoolVal(False) if n is False else n
        if k == 'cmp':
            (na, a), (nb, b) = self.ev(e[2], env, params, outer), self.ev(e[3], env, params, outer)
            if a.sort() != b.sort():
                raise Unsupported('SQL comparison of different types')
            op = e[1]
            if a.sort() == V and op not in ('=', '!='):
                raise Unsupported('SQL order of blobs')
            g = a == b if op == '=' else a != b if op == '!=' else a < b if op == '<' else a <= b if op == '<=' else a > b if op == '>' else a >= b
            n = nor(na, nb)
            return g if n is False else z3.And(z3.Not(n), g)
        if k == 'num':
            return z3.BoolVal(bool(e[1]))
        raise Unsupported('SQL condition ' + k)

    def wrap(self, nt):
        nl, t = nt
        if nl is not False:
            nl = z3.simplify(nl)
            if not z3.is_false(nl):
                if self.decide(nl):
                    return None
        if t.sort() == V:
            return SVal(t, bytes)
        return self._i.mkint(t)

    def decide(self, g):
        """branch that also uses the quantified facts"""
        c = self._c
        if c.choose(2, 'null'):
            c.assume(z3.Not(g))
            r = False
        else:
            c.assume(g)
            r = True
        self.prune()
        return r

    def prune(self):
        if self._c.check(z3.BoolVal(False), timeout=300)[0] == 'unsat':
            raise PathEnd()

    # ------------------------------------------------------------ queries
    def params(self, p):
        if isinstance(p, (list, tuple)):
            return list(p)
        raise Unsupported('SQL parameters')

    def group_rel(self, sel, params):
        """relation of a grouped select: keyed by the group"""
        g, cols = sel['group'], sel['cols']
        if g[0] != 'col' or cols[0] != g:
            raise Unsupported('SQL group')
        if len(sel['tables']) == 1 and sel['where'] is None and (sel['tables'][0][0], g[2]) in COUNTED:
            t = sel['tables'][0][0]
            C = self.S['cnt.%s.%s' % (t, g[2])]
            if len(cols) == 2 and cols[1][0] == 'fn' and cols[1][1] == 'COUNT' and cols[1][2][0] != ('star',) and \
                    cols[1][2][0][0] == 'col' and cols[1][2][0][2] in TABLES[t][1] or len(cols) == 2 and cols[1] == ('fn', 'COUNT', [('star',)]):
                return Rel('group', g[2], [g[2], 'count'], lambda v: C[v] > 0, {'count': lambda v: (False, C[v])}, lambda v: C[v])
            if len(cols) == 1:
                return Rel('group', g[2], [g[2]], lambda v: C[v] > 0, {}, lambda v: C[v])
        if len(cols) == 2 and cols[1][0] == 'fn' and cols[1][1] == 'MAX':
            q = Query(self, dict(sel, cols=[g, cols[1][2][0]], group=None), params)
            M, w = z3.Function(fresh_name('gmax'), I, I), z3.Function(fresh_name('gwit'), I, I)
            E = z3.Function(fresh_name('gex'), I, B)
            r, v = z3.Ints('gm_r gm_v')
            gr = lambda r: q.row(r)[0][1]
            self._c.axiom(z3.ForAll([r], z3.Implies(q.match(r), z3.And(E(gr(r)), q.row(r)[1][1] <= M(gr(r)))), patterns=[q.drv.trig(r)]))
            self._c.axiom(z3.ForAll([v], z3.Implies(E(v), z3.And(q.match(w(v)), gr(w(v)) == v, q.row(w(v))[1][1] == M(v))), patterns=[E(v)]))
            return Rel('group', g[2], [g[2], 'max'], lambda v: E(v), {'max': lambda v: (False, M(v))})
        raise Unsupported('SQL group')

    def as_rel(self, sel, params):
        """select as relation keyed by its first column (which is a key)"""
        if sel['group'] is not None:
            return self.group_rel(sel, params)
        if sel['exc'] is not None:
            a, b = self.as_rel(dict(sel, exc=None), params), self.as_rel(sel['exc'], params)
            if a.order != a.order[:1]:
                raise Unsupported('SQL EXCEPT')
            return Rel('except', a.key, a.order[:1], lambda r: z3.And(a.ex(r), z3.Not(b.ex(r))), {}, a.trig)
        q = Query(self, sel, params)
        names = q.names()
        s0 = q.steps[0]
        c0 = sel['cols'][0] if sel['cols'][0] != ('star',) else ('col', None, q.drv.key)
        if c0[0] != 'col' or not (c0[2] == q.drv.key or c0[2] == 'rowid'):
            raise Unsupported('SQL select without key')
        if len(names) != len(set(names)):
            names = [n if n and names.index(n) == k else '%s:%d' % (n, k) for k, n in enumerate(names)]
        cols = {n: (lambda r, k=k: q.row(r)[k]) for k, n in enumerate(names) if k}
        return Rel('sel', names[0], names, q.match, cols, q.drv.trig)

    def query(self, sql, params=(), **kw):
        sel = self.sel(sql)
        params = self.params(params)
        if sel['exc'] is not None or sel['group'] is not None:
            rel = self.as_rel(sel, params)
            match, trig, row = rel.ex, rel.trig, lambda r: [rel.col(x, r) for x in rel.order]
        else:
            q = Query(self, sel, params)
            if sel['limit'] is not None:
                raise Unsupported('SQL LIMIT')
            match, trig, row = q.match, q.drv.trig, q.row
        rows = Rows(self, match, trig, row)
        rows.table = sel['tables'][0][0]
        return [] if rows.empty else rows

    def query_typed(self, types, sql, params=(), **kw):
        return self.query(sql, params)

    def sel(self, sql):
        if not isinstance(sql, str):
            raise Unsupported('SQL text')
        s = parse(sql)
        if s['k'] != 'select':
            raise Unsupported('query of non-select')
        return s

    def one(self, sql, params, default=None):
        sel = self.sel(sql)
        params = self.params(params)
        c = self._c
        if not sel['tables']:
            return [self.wrap(self.ev(x, [], params)) for x in sel['cols']]
        if len(sel['cols']) == 1 and sel['cols'][0][0] == 'fn':
            return [self.wrap(self.scalar(sel, [], params, None))]
        q = Query(self, sel, params)
        r = q.pinned()
        if r is not None:
            if c.branch(q.match(r), 'row'):
                return [self.wrap(x) for x in q.row(r)]
            self.prune()
            return None
        r = z3.Int(fresh_name('row'))
        if c.choose(2, 'row') == 0:
            c.assume(q.match(r))
            self.prune()
            return [self.wrap(x) for x in q.row(r)]
        c.axiom(q.none())
        self.prune()
        return None

    def get_row(self, sql, params=(), **kw):
        r = self.one(sql, params)
        if r is None:
            self._i.raise_(self._err)
        return tuple(r)

    def get_row_typed(self, types, sql, params=(), **kw):
        return self.get_row(sql, params)

    def get_val(self, sql, params=(), **kw):
        return self.get_row(sql, params)[0]

    get_int_val = get_inode_val = get_bytes_val = get_val

    def has_val(self, sql, params=(), **kw):
        return self.one(sql, params) is not None

    # ------------------------------------------------------------ changes
    def rowid(self, sql, params=(), **kw):
        st = parse(sql)
        if st['k'] != 'insert':
            raise Unsupported('rowid() of other statement')
        return self._i.mkint(self.insert(st, self.params(params)))

    def execute(self, sql, params=(), **kw):
        if not isinstance(sql, str):
            raise Unsupported('SQL text')
        if sql.startswith(('DROP INDEX', 'CREATE INDEX')):
            return None
        st = parse(sql)
        params = self.params(params)
        k = st['k']
        if k == 'nop':
            return None
        if k == 'insert':
            self.insert(st, params)
        elif k in ('update', 'delete'):
            self.change(st, params)
        elif k == 'create':
            self.temp[st['table']] = (st['key'], {c: I for c in st['cols'] if c != st['key']})
            if st['table'] in TABLES:
                raise Unsupported('temporary table shadows')
            n = st['table']
            self.S[n + '.ex'] = z3.K(I, z3.BoolVal(False))
            for c in self.temp[n][1]:
                self.S['%s.%s' % (n, c)] = z3.Array(fresh_name(n + '_' + c), I, I)
            self.temp[n + '!empty'] = True
        elif k == 'inssel':
            self.inssel(st, params)
        elif k == 'createas':
            self.temp[st['table']] = self.as_rel(st['sel'], params)
            self.temp[st['table']].name = st['table']
        elif k == 'drop':
            if st['table'] in TABLES:
                self._c.fail('C19.drop', 'drops the table ' + st['table'])
            elif st['table'] in self.temp:
                del self.temp[st['table']]
                for x in [x for x in self.S if x.startswith(st['table'] + '.')]:
                    del self.S[x]
            elif not st['ifexists']:
                raise Unsupported('DROP of missing table')
        else:
            raise Unsupported('execute of ' + k)
        return None

    def inssel(self, st, params):
        n = st['table']
        if n not in self.temp or isinstance(self.temp[n], Rel) or not self.temp.pop(n + '!empty', False):
            raise Unsupported('INSERT SELECT')
        rel = self.as_rel(st['sel'], params) if not self.plain(st['sel']) else self.plain_rel(st['sel'], params)
        key, cols = self.temp[n]
        order = st['cols'] or ([key] + list(cols))
        if order[0] != key:
            raise Unsupported('INSERT SELECT order')
        r = z3.Int('is_r')
        ex = z3.Array(fresh_name(n + '_ex'), I, B)
        self._c.axiom(z3.ForAll([r], ex[r] == rel.ex(r), patterns=[ex[r]]))
        if rel.trig is not rel.ex:
            self._c.axiom(z3.ForAll([r], ex[r] == rel.ex(r), patterns=[rel.trig(r)]))
        self.S[n + '.ex'] = ex
        for c, src in zip(order[1:], rel.order[1:]):
            a = z3.Array(fresh_name('%s_%s' % (n, c)), I, I)
            nl, t = rel.col(src, r)
            if nl is not False:
                raise Unsupported('INSERT SELECT of NULL')
            self._c.axiom(z3.ForAll([r], z3.Implies(rel.ex(r), a[r] == t), patterns=[a[r]]))
            self.S['%s.%s' % (n, c)] = a

    def plain(self, sel):
        return sel['group'] is None and sel['exc'] is None and any(c[0] == 'num' for c in sel['cols'])

    def plain_rel(self, sel, params):
        q = Query(self, sel, params)
        if sel['cols'][0][0] != 'col' or sel['cols'][0][2] != q.drv.key:
            raise Unsupported('SQL select without key')
        order = ['k'] + ['c%d' % j for j in range(1, len(sel['cols']))]
        return Rel('sel', 'k', order, q.match, {'c%d' % j: (lambda r, j=j: q.row(r)[j]) for j in range(1, len(sel['cols']))}, q.drv.trig)

    def insert(self, st, params):
        n = st['table']
        if n not in TABLES and (n not in self.temp or isinstance(self.temp[n], Rel)):
            raise Unsupported('INSERT')
        key, cols = TABLES.get(n) or self.temp[n]
        self.temp.pop(n + '!empty', None)
        order = st['cols'] or ([key] if key else []) + list(cols)
        vals = {c: self.ev(e, [], params) for c, e in zip(order, st['vals'])}
        c = self._c
        if key in vals:
            r = vals[key][1]
            if n in TABLES:
                c.prove('C19.unique', z3.Not(self.S[n + '.ex'][r]), info='row number in use: ' + n)
                c.assume(z3.Not(self.S[n + '.ex'][r]))
            elif self.decide(self.S[n + '.ex'][r]):
                raise Unsupported('duplicate in temporary table')
        else:
            r = z3.Int(fresh_name('new_' + n))
            c.assume(z3.And(z3.Not(self.S[n + '.ex'][r]), r > 0))
        new = {}
        for x, s in cols.items():
            if x in vals:
                nl, t = vals[x]
                if t.sort() != s:
                    raise Unsupported('value stored in %s.%s' % (n, x))
                new[x] = t
            else:
                new[x] = NULLV if s == V else z3.IntVal(0)
        self.check_unique(n, r, new)
        self.set(n + '.ex', z3.Store(self.S[n + '.ex'], r, True))
        for x, t in new.items():
            self.set('%s.%s' % (n, x), z3.Store(self.S['%s.%s' % (n, x)], r, t))
            self.bump(n, x, t, 1)
        self.wlog.append(('insert', n, r))
        return r

    def bump(self, n, x, v, d):
        k = 'cnt.%s.%s' % (n, x)
        if k in self.S:
            C = self.S[k]
            self._c.assume(C[v] >= 0)
            if d < 0:
                self._c.assume(C[v] >= 1)
            self.set(k, z3.Store(C, v, C[v] + d))

    def check_unique(self, n, r, new):
        u = UNIQUE.get(n)
        if not u or not any(x in new for x in u):
            return
        val = lambda x, q: self.S['%s.%s' % (n, x)][q]
        tgt = [new.get(x, val(x, r)) for x in u]
        s = z3.Int(fresh_name('us'))
        clash = z3.And(self.S[n + '.ex'][s], s != r, *[val(x, s) == t for x, t in zip(u, tgt)])
        if u == ('hash',):
            clash = z3.And(clash, tgt[0] != NULLV)
        self._c.prove('C19.unique', z3.Not(clash), info='duplicate entry in ' + n)

    def change(self, st, params):
        n = st['table']
        if n not in TABLES and (n not in self.temp or isinstance(self.temp[n], Rel)):
            raise Unsupported(st['k'])
        q = Query(self, dict(k='select', cols=[('num', 1)], tables=[[n, n, False, []]], where=st['where'], group=None, exc=None, limit=None),
                  params)
        c = self._c
        r = q.pinned()
        if r is not None:
            if not c.branch(q.match(r), 'row'):
                self.prune()
                return
        else:
            u = UNIQUE.get(n)
            eqs = {x[2][2] for x in q.res if x[0] == 'cmp' and x[1] == '=' and x[2][0] == 'col'}
            if u and set(u) <= eqs:
                r = z3.Int(fresh_name('row'))
                if c.choose(2, 'row'):
                    c.axiom(q.none())
                    self.prune()
                    return
                c.assume(q.match(r))
                self.prune()
        if r is None:
            return self.bulk(st, q, params)
        if st['k'] == 'delete':
            for t, x in COUNTED:
                if t == n:
                    self.bump(n, x, self.S['%s.%s' % (n, x)][r], -1)
            self.set(n + '.ex', z3.Store(self.S[n + '.ex'], r, False))
            self.wlog.append(('delete', n, r))
            return
        env = q.env(r)
        new = {}
        for x, e in st['sets']:
            nl, t = self.ev(e, env, params)
            if nl is not False or '%s.%s' % (n, x) not in self.S or t.sort() != self.S['%s.%s' % (n, x)].sort().range():
                raise Unsupported('value stored in %s.%s' % (n, x))
            new[x] = t
        self.check_unique(n, r, new)
        for x, t in new.items():
            self.bump(n, x, self.S['%s.%s' % (n, x)][r], -1)
            self.bump(n, x, t, 1)
            self.set('%s.%s' % (n, x), z3.Store(self.S['%s.%s' % (n, x)], r, t))
        self.wlog.append(('update', n, r))

    def bulk(self, st, q, params):
        n = st['table']
        r = z3.Int('bk_r')
        c = self._c
        if st['k'] == 'delete':
            old = self.S[n + '.ex']
            ex = z3.Array(fresh_name(n + '_ex'), I, B)
            g = ex[r] == z3.And(old[r], z3.Not(q.match(r)))
            c.axiom(z3.ForAll([r], g, patterns=[ex[r]]))
            c.axiom(z3.ForAll([r], g, patterns=[old[r]]))
            self.S[n + '.ex'] = ex
            touched = [x for t, x in COUNTED if t == n]
        else:
            touched = []
            env = q.env(r)
            new = {x: self.ev(e, env, params) for x, e in st['sets']}
            for x, (nl, t) in new.items():
                if nl is not False or x in UNIQUE.get(n, ()):
                    raise Unsupported('UPDATE of several rows')
                old = self.S['%s.%s' % (n, x)]
                a = z3.Array(fresh_name('%s_%s' % (n, x)), I, old.sort().range())
                c.axiom(z3.ForAll([r], a[r] == z3.If(q.match(r), t, old[r]), patterns=[a[r]]))
                self.S['%s.%s' % (n, x)] = a
                if (n, x) in COUNTED:
                    touched.append(x)
        for x in touched:
            k = 'cnt.%s.%s' % (n, x)
            self.S[k] = z3.Array(fresh_name(k), I, I)
        if touched:
            self.meaning()
        self.wlog.append((st['k'], n, None))


class Rows(Model):
    """result of a query (the state it was started in)"""
    m_type = list

    def __init__(self, db, match, trig, row):
        self._db, self._c, self.match, self.row = db, db._c, match, row
        c = self._c
        x = z3.Int(fresh_name('anyrow'))
        self.empty = c.check(z3.Not(match(x)), timeout=600)[0] == 'unsat'
        if self.empty:
            return
        self.n = c.int('nrows', lo=0).t
        self.seq, self.pos = z3.Function(fresh_name('seq'), I, I), z3.Function(fresh_name('pos'), I, I)
        k, r = z3.Ints('q_k q_r')
        s, p = self.seq, self.pos
        c.axiom(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.n), z3.And(match(s(k)), p(s(k)) == k)), patterns=[s(k)]))
        g = z3.Implies(match(r), z3.And(0 <= p(r), p(r) < self.n, s(p(r)) == r))
        c.axiom(z3.ForAll([r], g, patterns=[p(r)]))
        c.axiom(z3.ForAll([r], g, patterns=[trig(r)]))
        self._vis = {}

    def m_state(self):
        return {}

    def m_iter(self, i):
        it = SIter(self.n, self.elem)
        it.q = self
        return it

    def m_tolist(self, i):
        return self

    def m_len(self):
        return SInt(self.n)

    def m_enter(self, i):
        return self

    def m_exit(self, i, exc):
        return False

    def elem(self, k):
        c = self._c
        r = self.seq(k.t)
        c.assume(z3.Implies(z3.And(k.t >= 0, k.t < self.n), z3.And(self.match(r), self.pos(r) == k.t)))
        return tuple(self._db.wrap(x) for x in self.row(r))

    def done(self, r, k):
        """row r is among the first k"""
        return z3.And(self.match(r), self.pos(r) < k)

    def vis(self, table, col):
        """how many of the first k rows have value v in a column of their driving table (and in the table then)"""
        if (table, col) in self._vis:
            return self._vis[table, col]
        S = self._db.S
        ex, a, C = S[table + '.ex'], S['%s.%s' % (table, col)], S['cnt.%s.%s' % (table, col)]
        f = z3.Function(fresh_name('vis'), I, I, I)
        k, v, r = z3.Ints('vs_k vs_v vs_r')
        A = self._c.axiom
        A(z3.ForAll([v], f(0, v) == 0, patterns=[f(0, v)]))
        A(z3.ForAll([k, v], z3.Implies(z3.And(0 <= k, k < self.n), f(k + 1, v) == f(k, v) + z3.If(a[self.seq(k)] == v, 1, 0)),
                    patterns=[z3.MultiPattern(f(k, v), self.seq(k))]))
        A(z3.ForAll([k, v], z3.Implies(z3.And(0 <= k, k <= self.n), z3.And(f(k, v) >= 0, f(k, v) <= C[v])), patterns=[f(k, v)]))
        # a row that has the value and is not among the first k is not counted
        A(z3.ForAll([k, r], z3.Implies(z3.And(0 <= k, k <= self.n, ex[r], z3.Not(self.done(r, k))), f(k, a[r]) < C[a[r]]),
                    patterns=[f(k, a[r])]))
        self._vis[table, col] = f
        return f
