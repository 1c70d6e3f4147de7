"""bin/check <property> quick|thorough: decide one property.

1. Proof: every unit of the property is verified from /repo's current source; every obligation that
   belongs to the property must be accepted by the solver.
2. Concrete drivers run the real code.  They turn a failed obligation into a failing input, and are
   the (labelled, bounded) stand-in for what the verifier cannot reach.

exit 0: held.  exit 1: VIOLATION line.  exit 2: the check itself failed.
"""
from __future__ import annotations
import collections, importlib, json, os, sys, time, traceback, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known():
    """known-findings.txt: lines `finding: property=<id> key=<key> <text>` and `fixed: ...`"""
    res = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l.split()[1:3])
                res.append((d['property'], d['key'], l.split(None, 3)[3]))
    except FileNotFoundError:
        pass
    return res


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from props import registry
    spec = registry.PROPS[prop]
    limit = 780 if tier == 'quick' else 6 * 3600
    known = {k: t for p, k, t in load_known() if p == prop}

    # ---------------------------------------------------------------- proof
    units = []
    load_errors = []
    for modname, sel in spec.get('units', ()):
        try:
            mod = importlib.import_module('props.' + modname)
            for u in mod.UNITS:
                if sel is None or u[0] in sel or any(s.endswith('*') and u[0].startswith(s[:-1]) for s in sel):
                    units.append(u)
        except Exception as e:
            load_errors.append('%s: %r' % (modname, e))
            traceback.print_exc()
    from . import runner
    budget = spec.get('budget', 600) * (1 if tier == 'quick' else 10)
    results = runner.run_units(units, {prop}, budget=budget, deadline=t0 + limit * 0.6) if units else []
    proof_wall = time.time() - t0

    obs = [(r['name'], o) for r in results for o in r['obs'] if o[0].startswith(prop + '.')]
    out_of_reach = {r['name']: r['unsupported'] for r in results if r['unsupported']}
    bad = [(u, o) for u, o in obs if o[1] != 'discharged']
    # anything found before a unit ran out of reach still counts
    missing = {r['name']: sorted(set(r['required']) - set(r['reached'])) for r in results
               if not r['unsupported'] and not set(r['required']) <= set(r['reached'])}
    expect = spec.get('min_obligations', 0)
    for r in results:
        line = collections.Counter(o[1] for o in r['obs'] if o[0].startswith(prop + '.'))
        print('unit %-28s paths %-4d %s%s' % (r['name'], r['paths'], dict(line),
                                              ' OUT OF REACH: ' + r['unsupported'] if r['unsupported'] else ''))
        if r['crash'] and os.environ.get('VERIF_DEBUG'):
            print(r['crash'])
    names = collections.OrderedDict()
    for u, o in bad:
        names.setdefault((u, o[0]), []).append(o)
    for (u, n), os_ in names.items():
        print('  not discharged: %s in %s (%d instances, %s) %s' % (n, u, len(os_), os_[0][1], (os_[0][4] or '')[:200]))

    # ---------------------------------------------------------------- concrete drivers
    runs, fails = [], []
    extra = bool(bad or out_of_reach or load_errors or missing)
    from drivers import common as dcommon
    for dname, kw in spec.get('drivers', ()):
        mod = importlib.import_module('drivers.' + dname)
        # when an obligation failed, search much longer for the failing input
        left = max(10.0, limit - (time.time() - t0))
        n = kw.get('thorough' if tier != 'quick' else 'quick', 100)
        cap = min(left * 0.8, kw.get('cap', 60) if tier == 'quick' else 3600 * 2)
        if extra and tier == 'quick':
            n *= 5
            cap = min(left * 0.6, 240)
        try:
            r = dcommon.explore(mod, prop, seed, n, cap, kw, stop=True, known=known)
        except Exception:
            traceback.print_exc()
            return 2
        runs.append((dname, r))
        fails += [(dname, f) for f in r['failures']]
        print('driver %-12s %d runs, %d failures, %.1fs' % (dname, r['runs'], len(r['failures']), r['wall']))

    # ---------------------------------------------------------------- verdict
    new = [(d, f) for d, f in fails if f.get('key') not in known]
    seen_known = sorted({f['key'] for d, f in fails if f.get('key') in known})
    for k in sorted(known):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    violation = None
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    rp = os.path.join(VERIF, 'evidence', 'replay', '%s-%s.json' % (prop, tier))
    if os.path.exists(rp):
        os.unlink(rp)
    failed_obs = [dict(unit=u, obligation=n, status=os_[0][1], instances=len(os_), detail=os_[0][4], backend=os_[0][3],
                       verifier_output=os_[0][5]) for (u, n), os_ in names.items()]
    if new:
        d, f = new[0]
        with open(rp, 'w') as fh:
            json.dump(dict(property=prop, driver=d, failure=f, failed_obligations=failed_obs,
                           how='VERIF_REPLAY: cd /verif && bin/replay ' + rp), fh, indent=1, default=repr)
        print('failing input (%s): %s' % (d, str(f.get('msg'))[:1500]))
        violation = 'VIOLATION property=%s replay=%s' % (prop, rp)
    elif bad:
        with open(rp, 'w') as fh:
            json.dump(dict(property=prop, failed_obligations=failed_obs, driver_runs={d: r['runs'] for d, r in runs}),
                      fh, indent=1, default=repr)
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)

    # ---------------------------------------------------------------- evidence
    fns = sorted({f for r in results for f in r['functions']})
    trusted = sorted({f for r in results for f in r['trusted']})
    backends = collections.Counter(o[3] for u, o in obs if o[1] == 'discharged')
    cov = {}
    level = spec['level']
    if level == 'proof':
        done = [(u, o) for u, o in obs if u not in out_of_reach]
        cov.update(
            obligations=len(obs), discharged=sum(o[1] == 'discharged' for u, o in done),
            distinct_obligations=len({(u, o[0]) for u, o in obs}),
            checker_cmd='cd /verif && bin/check %s %s   (pyvc: VC generation from /repo source; z3 4.x/cvc5)' % (prop, tier),
            trusted_base=spec.get('trusted', []) + registry.TRUSTED_BASE + ['contract assumed: ' + t for t in trusted],
            functions_under_contract=fns, paths=sum(r['paths'] for r in results),
            by_backend=dict(backends), solver_seconds=round(sum(o[2] for u, o in obs), 1),
            units={r['name']: dict(paths=r['paths'], obligations=sum(o[0].startswith(prop + '.') for o in r['obs']),
                                   out_of_reach=r['unsupported'], loops=r['loops'], wall=round(r['wall'], 1))
                   for r in results},
            out_of_reach=out_of_reach)
    b = {}
    for d, r in runs:
        b[d] = dict(runs=r['runs'], operations=r['counts'], rule=r['rule'], bounded=True, wall=round(r['wall'], 1),
                    distinct=r['distinct'])
    cov['bounded_checks'] = b
    if level == 'exploration':
        cov.update(evaluations=sum(r['runs'] for d, r in runs), distinct_nontrivial=sum(r['distinct'] for d, r in runs),
                   rule='; '.join(r['rule'] for d, r in runs), samples=[s for d, r in runs for s in r['samples']][:5])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=spec.get('assumptions', []) + registry.ASSUMPTIONS, wall_s=round(time.time() - t0, 2),
              violations=1 if violation else 0)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=repr)

    if violation:
        print(violation)
        return 1
    # vacuity: on code within reach something must have been decided
    if units and not out_of_reach and len(obs) < expect:
        print('check error: only %d obligations (expected at least %d)' % (len(obs), expect))
        return 2
    if missing and not out_of_reach:
        print('note: scenarios not reached: %s' % missing)
    if not units and not runs:
        print('check error: nothing decided')
        return 2
    print('%s: held (%d obligations discharged in %.1fs; %s)' % (
        prop, sum(o[1] == 'discharged' for u, o in obs), proof_wall,
        ', '.join('%s %d runs' % (d, r['runs']) for d, r in runs) or 'no driver'))
    return 0


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
