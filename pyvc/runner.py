"""Runs units (one process each, in parallel) and collects their obligations."""
from __future__ import annotations
import os, sys, time, json, multiprocessing, multiprocessing.connection, collections, pickle, traceback


MEM_LIMIT = 6 << 30


def _worker(conn, units, want):
    """Persistent worker: receives (unit index, prefixes, pickled loops, slice) and explores."""
    sys.setrecursionlimit(20000)
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except Exception:
        pass
    from .core import explore
    while True:
        try:
            msg = conn.recv_bytes()
        except (EOFError, OSError):
            os._exit(0)
        idx, prefixes, loops, slice_s = pickle.loads(msg)
        name, fn, req = units[idx]
        try:
            o = explore(name, (lambda c: fn(c, want)), prefixes, loops, slice_s)
            o['obs'] = [(b.name, b.status, b.time, b.backend, str(b.info) if b.info else None,
                         str(b.model)[:6000] if b.model is not None and b.status != 'discharged' else None)
                        for b in o.pop('obligations')]
            o['notes'] = [str(x) for x in o['notes']]
            data = pickle.dumps(o)
        except BaseException as e:
            data = pickle.dumps(dict(restart=False, unsupported='engine: %r' % e, crash=traceback.format_exc(), obs=[],
                                     paths=0, functions=set(), trusted=set(), reached=set(), notes=[], loops=loops,
                                     left=[], wall=0.0))
        try:
            conn.send_bytes(data)
        except Exception:
            os._exit(0)


class _Unit:
    def __init__(self, idx, name, req):
        self.idx, self.name, self.req = idx, name, set(req)
        self.t0 = time.time()
        self.loops, self.restarts, self.gen = {}, 0, 0
        self.done = False
        self.cpu = 0.0
        self.unsupported = self.crash = None
        self.reset()

    def reset(self):
        self.stack, self.busy = [[]], 0
        self.obs, self.paths = [], 0
        self.functions, self.trusted, self.reached, self.notes = set(), set(), set(), []

    def result(self):
        return {'name': self.name, 'paths': self.paths, 'unsupported': self.unsupported,
                'functions': sorted(self.functions), 'trusted': sorted(self.trusted), 'reached': sorted(self.reached),
                'required': sorted(self.req), 'wall': time.time() - self.t0, 'cpu': self.cpu, 'crash': self.crash,
                'restarts': self.restarts, 'obs': self.obs, 'notes': self.notes,
                'loops': {str(k): sorted(map(str, v.havoc)) for k, v in self.loops.items()}}


def run_units(units, want, jobs=None, budget=250, deadline=None, progress=None, max_paths=12000, slice_s=0.7,
              max_restarts=80):
    """units: [(name, fn, required labels)] -> list of result dicts (order of `units`).

    `budget`: cpu seconds per unit; the paths of one unit are spread over all worker processes.
    A unit that exceeds its budget, or meets a construct out of reach, is reported `unsupported`.
    """
    jobs = jobs or min(8, os.cpu_count() or 4)
    ctx = multiprocessing.get_context('fork')
    us = [_Unit(i, n, r) for i, (n, f, r) in enumerate(units)]
    workers = []                                  # [process, conn, task or None]

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, units, want), daemon=True)
        p.start()
        b.close()
        return [p, a, None]

    def finish(u, why=None, crash=None):
        if u.done:
            return
        u.done = True
        u.unsupported = u.unsupported or why
        u.crash = u.crash or crash
        u.stack = []
        if progress:
            progress(u.result())

    workers = [spawn() for _ in range(jobs)]
    try:
        while not all(u.done for u in us):
            idle = [w for w in workers if w[2] is None]
            for w in idle:
                # the unit with the fewest running tasks first, so that long ones get started early
                c = [u for u in us if not u.done and u.stack and (u.gen == 0 or True)]
                if not c:
                    break
                u = min(c, key=lambda u: (u.busy > 0, -len(u.stack) if u.busy else 0, u.idx))
                n = 1 if len(u.stack) < 2 * jobs else max(1, len(u.stack) // (2 * jobs))
                part, u.stack = u.stack[:n], u.stack[n:]
                try:
                    w[1].send_bytes(pickle.dumps((u.idx, part, u.loops, slice_s)))
                except Exception:
                    u.stack = part + u.stack
                    w[0].kill()
                    w[:] = spawn()
                    continue
                w[2] = (u, u.gen, time.time())
                u.busy += 1
            rd = multiprocessing.connection.wait([w[1] for w in workers if w[2] is not None], timeout=1.0)
            for w in workers:
                if w[2] is None:
                    continue
                u, gen, t0 = w[2]
                if w[1] in rd:
                    try:
                        o = pickle.loads(w[1].recv_bytes())
                    except Exception:
                        o = None
                    w[2] = None
                    u.busy -= 1 if gen == u.gen else 0
                    if o is None:
                        w[0].kill()
                        w[:] = spawn()
                        finish(u, 'worker died')
                        continue
                    u.cpu += o['wall']
                    if u.done or gen != u.gen:
                        continue
                    if o['unsupported']:
                        u.obs += o['obs']
                        finish(u, o['unsupported'], o['crash'])
                        continue
                    if o['restart']:
                        u.restarts += 1
                        u.gen += 1
                        u.loops = o['loops']
                        u.reset()
                        if u.restarts > max_restarts:
                            finish(u, 'loop inference did not stabilise')
                        continue
                    # loops met for the first time further down the tree
                    for k, v in o['loops'].items():
                        u.loops.setdefault(k, v)
                    u.obs += o['obs']
                    u.paths += o['paths']
                    u.functions |= o['functions']
                    u.trusted |= o['trusted']
                    u.reached |= o['reached']
                    u.notes += o['notes']
                    u.stack += o['left']
                    if u.paths > max_paths:
                        finish(u, 'more than %d paths' % max_paths)
                    elif not u.stack and not u.busy:
                        finish(u)
                elif not w[0].is_alive() or (deadline and time.time() > deadline) or time.time() - t0 > budget + 60:
                    w[0].kill()
                    w[0].join()
                    w[:] = spawn()
                    u.busy -= 1 if gen == u.gen else 0
                    if gen == u.gen:
                        finish(u, 'worker died or time budget exceeded')
            for u in us:
                if not u.done and u.cpu > budget:
                    finish(u, 'time budget exceeded')
                if not u.done and deadline and time.time() > deadline:
                    finish(u, 'deadline exceeded')
    finally:
        for w in workers:
            w[0].kill()
        for w in workers:
            w[0].join()
    return [u.result() for u in us]


def summarize(d, verbose=True):
    c = collections.Counter(o[1] for o in d['obs'])
    print('%-28s paths %-4d %s%s %.1fs%s' % (
        d['name'], d['paths'], dict(c), '' if set(d['required']) <= set(d['reached']) else ' MISSING %s' % (
            set(d['required']) - set(d['reached'])), d['wall'],
        (' UNSUPPORTED ' + d['unsupported']) if d['unsupported'] else ''), flush=True)
    if d['crash'] and verbose:
        print(d['crash'])
    cc = collections.Counter((o[0], o[1], (o[4] or '')[:90]) for o in d['obs'] if o[1] != 'discharged')
    for k, v in sorted(cc.items()):
        print('     ', v, *k)


if __name__ == '__main__':
    import importlib
    mod = importlib.import_module(sys.argv[1])
    sel = sys.argv[2].split(',') if len(sys.argv) > 2 else ['all']
    want = set(sys.argv[3].split(',')) if len(sys.argv) > 3 and sys.argv[3] != '-' else None
    us = [u for u in mod.UNITS if sel == ['all'] or any(u[0] == s or u[0].split('.', 1)[-1] == s for s in sel)]
    t = time.time()
    run_units(us, want, progress=summarize, budget=int(os.environ.get('BUDGET', '200')))
    print('total %.1fs' % (time.time() - t))
