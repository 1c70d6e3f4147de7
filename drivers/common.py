"""Runs a concrete driver on many seeds in parallel worker processes.

A driver module provides
    RULE                           what a run is
    cases(prop, seed, n, kw)       iterable of picklable cases
    run_case(case, prop)           -> (failure dict or None, {operation: count}, sample)
A failure dict has `tags` (properties), `msg`, optionally `key` (stable identity for known findings).
"""
from __future__ import annotations
import multiprocessing, multiprocessing.connection, os, pickle, sys, time, traceback, hashlib, tempfile, shutil


HERE = os.path.dirname(os.path.abspath(__file__))


def misfit(e):
    """True if the exception comes from the driver's own use of an internal that no longer exists in this
    form (renamed helper, changed signature): says nothing about the code under test."""
    if isinstance(e, BaseExceptionGroup):
        return any(misfit(x) for x in e.exceptions)
    tb = e.__traceback__
    if isinstance(e, (ImportError, ModuleNotFoundError)):
        return True
    if not isinstance(e, (AttributeError, TypeError)) or tb is None:
        return False
    while tb.tb_next is not None:
        tb = tb.tb_next
    return tb.tb_frame.f_code.co_filename.startswith(HERE)


def _worker(conn, mod, prop, scratch):
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    if not os.environ.get('VERIF_DEBUG'):
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 2)
    while True:
        try:
            case = conn.recv()
        except (EOFError, OSError):
            os._exit(0)
        try:
            r = mod.run_case(case, prop)
        except BaseException as e:
            if misfit(e):
                r = (None, {'!misfit': 1}, 'driver does not fit: %r' % e)
                try:
                    conn.send(r)
                except Exception:
                    pass
                continue
            # an exception that escapes the driver itself: the code under test raised where the driver
            # did not expect it
            r = (dict(tags=[prop], msg='driver: %s' % ''.join(traceback.format_exception(e))[-3000:], case=repr(case),
                      crash=True), {}, repr(case)[:300])
        try:
            conn.send(r)
        except Exception:
            conn.send((None, {}, ''))


def explore(mod, prop, seed, n, cap, kw, stop=True, jobs=None, known=(), case_timeout=120):
    jobs = jobs or min(8, os.cpu_count() or 4)
    ctx = multiprocessing.get_context('fork')
    t0 = time.time()
    it = iter(mod.cases(prop, seed, n, kw))
    scratch = tempfile.mkdtemp(prefix='vdrv-')
    os.chmod(scratch, 0o755)
    ws = []
    failures, counts, samples, distinct, runs, hung = [], {}, [], set(), 0, 0

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, mod, prop, scratch), daemon=True)
        p.start()
        b.close()
        return [p, a, None, 0.0]
    try:
        ws = [spawn() for _ in range(jobs)]
        exhausted = False
        while True:
            over = time.time() - t0 > cap or (stop and any(f.get('key') not in known for f in failures))
            for w in ws:
                if w[2] is None and not exhausted and not over:
                    try:
                        c = next(it)
                    except StopIteration:
                        exhausted = True
                        break
                    w[1].send(c)
                    w[2], w[3] = c, time.time()
            busy = [w for w in ws if w[2] is not None]
            if not busy or (over and stop and failures):
                break
            rd = multiprocessing.connection.wait([w[1] for w in busy], timeout=1.0)
            for w in busy:
                if w[1] in rd:
                    try:
                        f, cnt, smp = w[1].recv()
                    except Exception:
                        f, cnt, smp = dict(tags=[prop], msg='worker process died on case %r' % (w[2],), case=repr(w[2]),
                                           crash=True), {}, ''
                        w[0].kill()
                        c = w[2]
                        w[:] = spawn()
                        w[2] = c
                    runs += 1
                    case = w[2]
                    w[2] = None
                    for k, v in cnt.items():
                        counts[k] = counts.get(k, 0) + v
                    h = hashlib.sha1(repr((smp, sorted(cnt.items()))).encode()).digest()
                    if cnt:
                        distinct.add(h)
                    if len(samples) < 3 and smp:
                        samples.append(smp)
                    if f is not None and prop in f['tags']:
                        f.setdefault('case', repr(case))
                        failures.append(f)
                elif time.time() - w[3] > case_timeout:
                    failures.append(dict(tags=[prop], msg='no result within %d s (hang) on case %r' % (case_timeout, w[2]),
                                         case=repr(w[2])))
                    w[0].kill()
                    w[:] = spawn()
    finally:
        for w in ws:
            w[0].kill()
        for w in ws:
            w[0].join()
        shutil.rmtree(scratch, ignore_errors=True)
    return dict(runs=runs, failures=failures, counts=counts, samples=samples, distinct=len(distinct),
                wall=time.time() - t0, rule=mod.RULE)
