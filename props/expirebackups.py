"""C21: contrib/expire_backups.py process_backups, for every list of backups, state and list of age ranges."""
from __future__ import annotations
import os, sys, importlib.util, collections
import z3
from pyvc.values import *
from pyvc.core import *
from pyvc.interp import Interp, SIter
from pyvc import collm
from pyvc.collm import K, SSet, SMap, SetSort, MapSort, fresh, lt_str


def load():
    if 'vp_expire_backups' in sys.modules:
        return sys.modules['vp_expire_backups']
    fn = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'contrib', 'expire_backups.py')
    spec = importlib.util.spec_from_file_location('vp_expire_backups', fn)
    m = importlib.util.module_from_spec(spec)
    sys.modules['vp_expire_backups'] = m
    spec.loader.exec_module(m)
    return m


class Nothing(Model):
    """something whose contents do not matter"""
    def m_getattr(self, i, name):
        return lambda *a, **k: None

    def m_getitem(self, i, k):
        return Nothing()

    def m_setitem(self, i, k, v):
        return None

    def m_iter(self, i):
        return SIter(i.ctx.int('n', lo=0).t, lambda k: i.ctx.val('x', str))

    def m_sorted(self, i):
        return self

    def m_state(self):
        return {}


class Cycles(Model):
    """sorted list of non-negative integers, not empty"""
    m_type = list

    def __init__(self, ctx):
        self._c = ctx
        self.n = ctx.int('ncycles', lo=1).t
        self.f = ctx.func('cycle', z3.IntSort(), z3.IntSort())
        a, b = z3.Ints('cy_a cy_b')
        ctx.axiom(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b < self.n), z3.And(0 <= self.f(a), self.f(a) <= self.f(b))),
                            patterns=[z3.MultiPattern(self.f(a), self.f(b))]))

    def m_len(self):
        return SInt(self.n)

    def m_getitem(self, i, k):
        t = i.as_int(k)
        if t is None:
            raise Unsupported('slice of cycles')
        if not i.ctx.branch(z3.And(t >= -self.n, t < self.n), 'index'):
            i.raise_(IndexError)
        t = z3.simplify(z3.If(t < 0, t + self.n, t))
        self.point(t)
        return i.mkint(self.f(t))

    def point(self, t):
        last = self.n - 1
        self._c.assume(z3.Implies(z3.And(t >= 0, t < self.n), z3.And(self.f(t) >= 0, self.f(t) <= self.f(last))))
        self._c.assume(z3.Implies(z3.And(t >= 1, t < self.n), self.f(t - 1) <= self.f(t)))

    def m_iter(self, i):
        def elem(k):
            self.point(k.t)
            return i.mkint(self.f(k.t))
        return SIter(self.n, elem)

    def m_state(self):
        return {}


class Ranges(Model):
    """the list of (from, to) pairs"""
    m_type = list

    def __init__(self, ctx, n=None):
        self._c = ctx
        self.n = z3.IntVal(0) if n is None else n
        self.lo = collm.const(ctx, z3.IntVal(0), z3.IntSort(), z3.IntSort())
        self.hi = collm.const(ctx, z3.IntVal(0), z3.IntSort(), z3.IntSort())

    def m_state(self):
        return {'n': SInt(self.n), 'lo': collm.Arr(self.lo), 'hi': collm.Arr(self.hi)}

    def m_havoc(self, i, k):
        if k == 'n':
            self.n = self._c.int('nranges').t
        else:
            setattr(self, k, fresh('ranges_' + k, z3.IntSort(), z3.IntSort()))

    def append(self, p):
        i = self._i
        if not (isinstance(p, tuple) and len(p) == 2):
            raise Unsupported('range')
        self.lo = collm.store(self._c, self.lo, self.n, i.as_int(p[0]))
        self.hi = collm.store(self._c, self.hi, self.n, i.as_int(p[1]))
        self.n = z3.simplify(self.n + 1)

    def m_len(self):
        return SInt(self.n)

    def m_iter(self, i):
        return SIter(self.n, lambda k: (i.mkint(self.lo[k.t]), i.mkint(self.hi[k.t])))


def u_process(ctx, want):
    mod = load()
    i = Interp(ctx)
    i.obj_over[('vp_expire_backups', 'defaultdict')] = lambda *a: Nothing()
    i.contracts['vp_expire_backups.format_list'] = lambda it, a, k: ctx.val('s', str)
    i.contracts['expire_backups.format_list'] = lambda it, a, k: ctx.val('s', str)
    collm.install(i)
    P = lambda n, g, info=None: ctx.prove('C21.' + n, g, info=info)

    def strs(t):
        x = z3.Const('kx', K)
        ctx.axiom(z3.ForAll([x], z3.Implies(t[x], K.is_S(x)), patterns=[t[x]]))
        return t
    L0 = strs(fresh('backup_list', SetSort))
    S0 = strs(fresh('state0', SetSort))
    A0 = fresh('age0', MapSort)
    blist = SSet(i, L0, True)
    state = SMap(i, S0, A0, True)
    cyc = Cycles(ctx)
    ctx.roots.update(backup_list=blist, state=state)

    def b_max(ii, x, *r):
        if x is cyc and not r:
            return ii.mkint(cyc.f(cyc.n - 1))
        from pyvc.interp import BUILTINS
        return BUILTINS[max](ii, x, *r)
    i.bi[max] = b_max

    rg = {}

    def lm(path, lst):
        if path.startswith('ranges') or not rg:
            if path not in rg and isinstance(lst, list) and all(isinstance(x, tuple) and len(x) == 2 for x in lst):
                r = Ranges(ctx)
                r._i = i
                for x in lst:
                    r.append(x)
                rg[path] = r
        return rg.get(path)
    i.list_model = lm

    # arbitrary: a situation after s0 more backups, a range, a backup
    s0 = ctx.int('s0', lo=0).t
    r0 = ctx.int('r0', lo=0).t
    b0 = fresh('b0', K)
    ctx.assume(K.is_S(b0))
    ctx.assume(r0 < cyc.n)
    cyc.point(r0)
    cyc.point(r0 - 1)
    cyc.point(cyc.n - 1)
    lo0 = z3.If(r0 == 0, z3.IntVal(0), cyc.f(r0 - 1))
    hi0 = cyc.f(r0)
    x = z3.Const('hx', K)
    FA = lambda body, *pats: z3.ForAll([x], body, patterns=list(pats))

    def within(age):
        return z3.And(lo0 <= age, age < hi0)
    hyp = z3.If(lo0 > 0, lo0, z3.IntVal(0)) < z3.If(s0 < hi0, s0, hi0)    # a hypothetical later backup covers it
    new = fresh('new', SetSort)
    for p in (new[x], L0[x], S0[x]):
        ctx.axiom(FA(new[x] == z3.And(L0[x], z3.Not(S0[x])), p))
    found = {}

    def names(ii, fr):
        """the objects the function works with, found by role"""
        sims = [v for k, v in fr.locals.items() if isinstance(v, SMap) and v is not state]
        keeps = [v for k, v in fr.locals.items() if isinstance(v, SSet) and k not in ('backup_list', 'new_backups', 'missing_backups')
                 and v is not blist]
        return (sims[0] if sims else None), (keeps[0] if keeps else None)

    stepv = {}

    i.auto_invariants = False
    ctx.hold_timeout = 1500
    sel = lambda a: (lambda t: t[a])

    def hints(ii, fr, pre):
        it = ii.cur_iter
        e0 = getattr(it, 'enum', None)
        sim, keep = names(ii, fr)
        kk = lambda e: e.m('$k')
        out = []
        cur = fr.locals.get('step')
        cur = i.as_int(cur) if isinstance(cur, (int, SInt)) else None
        sim_phase = sim is not None and keep is not None
        if e0 is not None:
            # maps aged or thinned out while going over a snapshot
            for m in (state, sim):
                if m is None or sim_phase and m is state and not e0.pres.eq(keep.pres) and cur is None and False:
                    continue
                pp, pv = m.pres, m.val
                same = e0.pres.eq(pp)
                if same:
                    out.append(('vals-aged', lambda e, m=m, pv=pv: FA(
                        m.val[x] == pv[x] + z3.If(z3.And(e0.pres[x], e0.idx(x) < kk(e)), 1, 0), m.val[x])))
                else:
                    out.append(('deleted', lambda e, m=m, pp=pp: FA(
                        m.pres[x] == z3.And(pp[x], z3.Not(z3.And(e0.pres[x], e0.idx(x) < kk(e)))), m.pres[x], pp[x])))
            if not sim_phase and not e0.pres.eq(state.pres):
                sp, sv = state.pres, state.val
                out += [
                    ('new-pres', lambda e: FA(state.pres[x] == z3.Or(sp[x], z3.And(new[x], e0.idx(x) < kk(e))), state.pres[x], sp[x])),
                    ('new-old-age', lambda e: FA(z3.Implies(sp[x], state.val[x] == sv[x] + kk(e)), state.val[x])),
                    ('new-new-age', lambda e: FA(z3.Implies(z3.And(new[x], e0.idx(x) < kk(e)), state.val[x] == kk(e) - 1 - e0.idx(x)),
                                                 state.val[x]))]
        for r in (rg.values() if not sim_phase else ()):
            out += [('ranges-n', lambda e, r=r: r.n == kk(e) + 1), ('ranges-n0', lambda e, r=r: r.n == kk(e)),
                    ('ranges', lambda e, r=r: z3.Implies(r0 < r.n, z3.And(r.lo[r0] == lo0, r.hi[r0] == hi0)))]
        if rg and not sim_phase:
            for n, v in list(fr.locals.items()):
                if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                    out.append(('previous-' + n, lambda e, n=n: e.m(n) == z3.If(kk(e) == 0, z3.IntVal(0), cyc.f(kk(e) - 1))))
        if sim_phase:
            def step_inv(now):
                return lambda e: FA(z3.Implies(sim.pres[x], z3.Or(
                    z3.And(K.is_N(x), 1 <= K.n(x), K.n(x) <= now(e), sim.val[x] == now(e) - K.n(x)),
                    z3.And(K.is_S(x), keep.pres[x], state.pres[x], sim.val[x] == state.val[x] + now(e)))), sim.pres[x])

            def cov(done):
                return lambda e: z3.Implies(z3.And(done(e), state.pres[b0], within(state.val[b0] + s0)), z3.Or(
                    hyp, z3.Exists([x], z3.And(keep.pres[x], within(state.val[x] + s0)))))
            if e0 is None:
                out.append(('keep-in-state', lambda e: FA(z3.Implies(keep.pres[x], z3.And(K.is_S(x), state.pres[x])), keep.pres[x])))
                if cur is None or cur.eq(z3.IntVal(0)) or isinstance(fr.locals.get('step'), int) or True:
                    out.append(('sim', step_inv(lambda e: kk(e) - 1)))
                    out.append(('cov', cov(lambda e: s0 < kk(e))))
                if cur is not None:
                    out.append(('sim-now', step_inv(lambda e: cur)))
                    out.append(('cov-now', cov(lambda e: z3.Or(s0 < cur, z3.And(s0 == cur, r0 < kk(e))))))
            else:
                lo, hi = fr.locals.get('min_'), fr.locals.get('max_')
                if cur is not None and isinstance(lo, (int, SInt)):
                    l, h = i.as_int(lo), i.as_int(hi)
                    out.append(('none-so-far', lambda e: z3.Implies(
                        z3.And(e0.pres[b0], e0.idx(b0) < kk(e)),
                        z3.Not(z3.And(l <= state.val[b0] + cur, state.val[b0] + cur < h)))))
                    for n, v in list(fr.locals.items()):
                        if isinstance(v, (bool, SBool)):
                            out.append(('flag-' + n, lambda e, n=n: z3.Not((e.v(n).t if isinstance(e.v(n), SBool) else z3.BoolVal(bool(e.v(n)))))))
        return out
    i.loop_hints['process_backups'] = hints
    f = i.ifunc_by_name(mod, 'process_backups')
    try:
        r = i.run_function(f, [blist, state, cyc], {})
    except PyRaise as e:
        r = ('raise', e.obj)
    kind, v = r
    ctx.shared.reached.add(kind)
    if kind == 'raise':
        P('no-error', z3.BoolVal(False), 'raises %s' % v.cls.__name__)
        return
    if not isinstance(v, SSet):
        raise Unsupported('result')
    dele, fin = v.pres, state.pres
    y = fresh('y', K)
    P('removes-only-listed', z3.Implies(dele[y], L0[y]), 'a backup is removed that is not in the list')
    P('kept-or-removed', z3.Implies(L0[y], fin[y] != dele[y]), 'a backup is neither kept in the state nor removed, or both')
    P('state-only-listed', z3.Implies(fin[y], L0[y]), 'the state keeps a backup that does not exist')
    ens = ctx.ghost.get('enums', [])
    if len(ens) > 1:
        w = fresh('w', K)
        ens = [e for e in ens if ctx.holds(e.pres[w] == new[w])] + ens
    # ages
    z = fresh('z', K)
    for q in (y, z):
        ens[0].member(i, q)
    nnew = ens[0].n
    P('age-of-known', z3.Implies(z3.And(fin[y], S0[y]), state.val[y] == A0[y] + nnew), 'age of a known backup')
    P('age-of-new', z3.Implies(z3.And(fin[y], fin[z], new[y], new[z], lt_str(K.s(y), K.s(z))),
                               state.val[y] > state.val[z]), 'ages of new backups do not follow their order')
    P('age-of-new', z3.Implies(z3.And(fin[y], new[y]), z3.And(state.val[y] >= 0, state.val[y] < nnew)))
    age = z3.If(S0[b0], A0[b0] + nnew, nnew - 1 - ens[0].idx(b0))
    ens[0].member(i, b0)
    P('coverage', z3.Implies(z3.And(s0 < cyc.f(cyc.n - 1), L0[b0], within(age + s0)), z3.Or(
        hyp, z3.Exists([x], z3.And(fin[x], within(state.val[x] + s0))))),
      'an age range that is covered, now or after more backups, loses its backup')


UNITS = [('expire_backups.process', u_process, ['return'])]
