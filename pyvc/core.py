"""Path exploration, path condition, obligations."""
from __future__ import annotations
import os, time, itertools, traceback
import z3
from . import values as vals
from .values import *

PROVE_TIMEOUT = int(os.environ.get('PYVC_TIMEOUT_MS', '20000'))
FEAS_TIMEOUT = 400


class Obligation:
    __slots__ = ('unit', 'name', 'status', 'time', 'model', 'where', 'backend', 'info')

    def __init__(self, unit, name, status, t, model=None, where=None, backend='z3', info=None):
        self.unit, self.name, self.status, self.time = unit, name, status, t
        self.model, self.where, self.backend, self.info = model, where, backend, info


class LoopInfo:
    def __init__(self):
        self.havoc = {}        # access path -> set of type tags observed
        self.dropped = set()   # candidate invariant names refuted
        self.stable = False


class RestartExploration(BaseException):
    pass


class Ctx:
    """One execution path of one verification unit."""

    def __init__(self, unit, prefix, shared):
        self.unit = unit
        self.prefix = prefix
        self.trace = []          # (choice, n_alternatives)
        self.shared = shared     # persists over paths of the unit (loop infos, obligations)
        self.facts = []          # ground facts (feasibility + proof)
        self.axioms = []         # quantified facts (proof only)
        self.solver = z3.Solver()
        self.solver.set('timeout', FEAS_TIMEOUT)
        self.lits = {}
        self.ghost = {}
        self.roots = {}          # name -> object: state reachable by loops beyond the frame
        self.notes = []
        self.coros = []
        self.yield_hook = None
        self.steps = 0
        vals.reset_fresh()

    # -- fresh symbols -------------------------------------------------
    def int(self, name, lo=None, hi=None):
        t = z3.Int(fresh_name(name))
        if lo is not None:
            self.assume(t >= lo)
        if hi is not None:
            self.assume(t <= hi)
        return SInt(t)

    def bool(self, name):
        return SBool(z3.Bool(fresh_name(name)))

    def val(self, name, pytype=bytes):
        t = z3.Const(fresh_name(name), V)
        if pytype in (bytes, str):
            self.assume(t != z3.Const('NULLV', V))
            self.assume(vlen(t) >= 0)
        return SVal(t, pytype)

    def bytes(self, name, n=None):
        f = z3.Function(fresh_name(name), z3.IntSort(), z3.IntSort())
        if n is None:
            n = z3.Int(fresh_name(name + '_len'))
            self.assume(n >= 0)
        b = SBytes(n, lambda i: f(i))
        k = z3.Int('k!' + name)
        self.axiom(z3.ForAll([k], z3.And(f(k) >= 0, f(k) <= 255), patterns=[f(k)]))
        return b

    def func(self, name, *sorts):
        return z3.Function(fresh_name(name), *sorts)

    def lit(self, v):
        key = (type(v).__name__, v)
        if key not in self.lits:
            c = z3.Const('lit_%s_%r' % key, V)
            for o in self.lits.values():
                self.assume(c != o)
            self.assume(c != z3.Const('NULLV', V))
            if isinstance(v, (bytes, str)):
                self.assume(vlen(c) == len(v))
            self.lits[key] = c
        return self.lits[key]

    # -- path condition --------------------------------------------------
    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd()
            return
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise PathEnd()
        if has_quant(f):
            self.axioms.append(f)
            return
        self.facts.append(f)
        self.solver.add(f)

    def axiom(self, f):
        if isinstance(f, bool):
            assert f
            return
        self.axioms.append(f)

    def feasible(self, extra=()):
        r = self.solver.check(*extra)
        return r != z3.unsat

    def choose(self, n, label=''):
        """Nondeterministic choice 0..n-1 (all explored)."""
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = 0
        self.trace.append((c, n))
        return c

    def branch(self, cond, label=''):
        """Decide a symbolic condition; explores both feasible sides."""
        if isinstance(cond, SBool):
            cond = cond.t
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
            self.trace.append((c, 2 if c == 0 else 2))
            # c==0: true side, 1: false side, 2: forced true, 3: forced false
            r = c in (0, 2)
            if c in (0, 1):
                f = cond if r else z3.Not(cond)
                self.facts.append(f)
                if has_quant(f):
                    self.axioms.append(f); self.facts.pop()
                else:
                    self.solver.add(f)
            return r
        t_ok = has_quant(cond) or self.feasible([cond])
        f_ok = has_quant(cond) or self.feasible([z3.Not(cond)])
        if not t_ok and not f_ok:
            raise PathEnd()
        if t_ok and f_ok:
            self.trace.append((0, 2))
            f = cond
            r = True
        elif t_ok:
            self.trace.append((2, 1))
            return True
        else:
            self.trace.append((3, 1))
            return False
        if has_quant(f):
            self.axioms.append(f)
        else:
            self.facts.append(f)
            self.solver.add(f)
        return r

    # -- obligations -------------------------------------------------------
    def check(self, goal, timeout=None, want_model=False):
        """'unsat' if goal follows from path condition; 'sat' with model if refuted; 'unknown'."""
        if isinstance(goal, bool):
            if goal:
                return 'unsat', None, 'trivial'
            goal = z3.BoolVal(False)
        goal = z3.simplify(goal) if not has_quant(goal) else goal
        if z3.is_true(goal):
            return 'unsat', None, 'simplify'
        s = z3.Solver()
        s.set('timeout', timeout or PROVE_TIMEOUT)
        for f in self.facts:
            s.add(f)
        s.add(z3.Not(goal))
        if self.strings and not self.axioms:
            # string constraints: cvc5 decides what z3 does not (and the other way round)
            s.set('timeout', 500)
            r = s.check()
            rr = {'unsat': 'unsat', 'sat': 'sat'}.get(str(r))
            if rr is None:
                rr = cvc5_check(s, 10)
                if rr in ('sat', 'unsat'):
                    return rr, None, 'cvc5'
            else:
                return rr, s.model() if rr == 'sat' else None, 'z3'
            s.set('timeout', timeout or PROVE_TIMEOUT)
        # try without the quantified axioms first (cheap); they are needed only sometimes
        r = s.check()
        if r == z3.unsat:
            return 'unsat', None, 'z3'
        if not self.axioms:
            if r == z3.sat:
                return 'sat', s.model(), 'z3'
        model = s.model() if r == z3.sat else None
        # quantified axioms by e-matching only: fast, terminates; 'unknown' here means not provable this way
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('timeout', timeout or PROVE_TIMEOUT, 'auto_config', False, 'mbqi', False)
        for f in self.facts:
            s.add(f)
        for f in self.axioms:
            s.add(f)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            return 'unsat', None, 'z3'
        if r == z3.sat:
            return 'sat', s.model(), 'z3'
        if timeout is not None and self.mbqi and timeout == self.hold_timeout:
            s = z3.Solver()
            s.set('timeout', self.mbqi)
            for f in self.facts + self.axioms:
                s.add(f)
            s.add(z3.Not(goal))
            if s.check() == z3.unsat:
                return 'unsat', None, 'z3-mbqi'
        if timeout is None:
            s = z3.Solver()
            s.set('timeout', 4000)
            for f in self.facts + self.axioms:
                s.add(f)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                return 'unsat', None, 'z3-mbqi'
            if r == z3.sat:
                return 'sat', s.model(), 'z3-mbqi'
            rr = cvc5_check(s, 8)
            if rr == 'unsat':
                return 'unsat', None, 'cvc5'
            if rr == 'sat':
                return 'sat', None, 'cvc5'
        m = None
        try:
            m = s.model()
        except z3.Z3Exception:
            pass
        return 'unknown', m, 'z3+cvc5'

    def prove(self, name, goal, where=None, info=None):
        t = time.time()
        if isinstance(goal, SBool):
            goal = goal.t
        r, m, be = self.check(goal)
        st = {'unsat': 'discharged', 'sat': 'refuted', 'unknown': 'unknown'}[r]
        ob = Obligation(self.unit, name, st, time.time() - t,
                        model=self._model_info(m) if m is not None else None, where=where, backend=be,
                        info=info)
        self.shared.obligations.append(ob)
        return st == 'discharged'

    def fail(self, name, why):
        """An obligation that is violated outright on this (feasible) path."""
        self.prove(name, z3.BoolVal(False), info=why)

    hold_timeout = 5000
    mbqi = 0                   # also try model-based instantiation for invariants (milliseconds)
    strings = False

    def holds(self, goal):
        return self.check(goal, timeout=self.hold_timeout)[0] == 'unsat'

    def _model_info(self, m):
        d = {}
        try:
            for decl in m.decls():
                if decl.arity() == 0:
                    d[decl.name()] = str(m[decl])
        except Exception:
            pass
        return d

    def note(self, *a):
        self.notes.append(a)


_hq_cache = {}


def has_quant(f):
    k = f.get_id()
    r = _hq_cache.get(k)
    if r is not None and r[1].eq(f):
        return r[0]
    stack, seen, res = [f], set(), False
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            res = True
            break
        stack.extend(e.children())
    if len(_hq_cache) > 20000:
        _hq_cache.clear()
    _hq_cache[k] = (res, f)
    return res


def cvc5_check(solver, timeout_s):
    try:
        import cvc5
    except Exception:
        return 'unknown'
    try:
        txt = '(set-logic ALL)\n' + solver.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption('strings-exp', 'true')
        slv.setOption('tlimit-per', str(timeout_s * 1000))
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = parser.getSymbolManager()
        res = 'unknown'
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            o = str(out).strip()
            if o in ('sat', 'unsat', 'unknown'):
                res = o
        return res
    except Exception:
        return 'unknown'


class Shared:
    def __init__(self):
        self.obligations = []
        self.loops = {}
        self.paths = 0
        self.reached = set()
        self.functions = set()
        self.trusted = set()
        self.notes = []
        self.restarts = 0


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.obligations = []
        self.paths = 0
        self.unsupported = None
        self.functions = set()
        self.trusted = set()
        self.reached = set()
        self.required = set()
        self.wall = 0.0
        self.notes = []
        self.crash = None

    @property
    def failed(self):
        return [o for o in self.obligations if o.status != 'discharged']


def explore(name, fn, stack, loops, slice_s=None):
    """Explore the paths below the decision prefixes in `stack` (depth first) for at most slice_s seconds.

    -> dict with the obligations found, the prefixes left over, and either `restart` (loop inference
    changed the loop information: everything found so far is void) or `unsupported`.
    """
    shared = Shared()
    shared.loops = loops
    stack = list(stack)
    t0 = time.time()
    out = dict(restart=False, unsupported=None, crash=None)
    try:
        while stack:
            prefix = stack.pop()
            ctx = Ctx(name, prefix, shared)
            try:
                fn(ctx)
            except PathEnd:
                pass
            finally:
                for g in ctx.ghost.get('_gens', []):
                    g.kill()
            shared.paths += 1
            for i in range(len(prefix), len(ctx.trace)):
                c, n = ctx.trace[i]
                base = [x for x, _ in ctx.trace[:i]]
                for alt in range(c + 1, n):
                    stack.append(base + [alt])
            if slice_s is not None and time.time() - t0 > slice_s:
                break
    except RestartExploration:
        out['restart'] = True
    except Unsupported as e:
        out['unsupported'] = str(e) or 'unsupported'
    except RecursionError:
        out['unsupported'] = 'recursion limit'
    except MemoryError:
        out['unsupported'] = 'out of memory'
    except Exception as e:                       # engine crash = out of reach, never a violation
        out['unsupported'] = 'engine: %s: %s' % (type(e).__name__, e)
        out['crash'] = traceback.format_exc()
    out.update(obligations=shared.obligations, paths=shared.paths, functions=shared.functions,
               trusted=shared.trusted, reached=shared.reached, notes=shared.notes, loops=loops, left=stack,
               wall=time.time() - t0)
    return out


def run_unit(name, fn, max_paths=4000, required=(), max_restarts=60, budget_s=None):
    """Explore all paths of fn(ctx) in this process. Returns UnitResult (used by the debugging tools)."""
    res = UnitResult(name)
    res.required = set(required)
    t0 = time.time()
    loops, restarts = {}, 0
    while True:
        o = explore(name, fn, [[]], loops, budget_s)
        if o['restart']:
            restarts += 1
            if restarts <= max_restarts:
                continue
            res.unsupported = 'loop inference did not stabilise'
        break
    if o['left'] and not res.unsupported:
        res.unsupported = 'time budget exceeded'
    res.unsupported = res.unsupported or o['unsupported']
    for k in ('obligations', 'paths', 'functions', 'trusted', 'reached', 'notes', 'crash'):
        setattr(res, k, o[k])
    res.wall = time.time() - t0
    res.loops = {str(k): sorted(map(str, v.havoc)) for k, v in loops.items()}
    res.restarts = restarts
    return res
