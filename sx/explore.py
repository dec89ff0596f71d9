"""Path exploration, work distribution, evidence."""

import signal
import multiprocessing
import multiprocessing.connection
import operator
import os
import random
import sys
import time
import traceback

import z3

from sx import hooks
from sx import values as V
from sx.core import E, PathAbort, PathLimit, EngineError
from sx.ctx import Violation, Skip
from sx.symctx import SymCtx

E.ivars = {}
E.iranges = {}


class StateGuard:
    """Restores module-level containers of the code under test per path."""

    def __init__(self, prefixes):
        self.items = []
        seen = set()
        self.caches = []
        self.roots = set(p.split('.')[0] for p in prefixes)
        for name, mod in list(sys.modules.items()):
            if not any(name == p or name.startswith(p + '.')
                       for p in prefixes):
                continue
            for k, v in list(vars(mod).items()):
                if k.startswith('__'):
                    continue
                self._add(v, seen, 3)
                if hasattr(v, 'cache_clear'):
                    self.caches.append(v)
                if isinstance(v, type) and v.__module__ == name:
                    for kk, vv in list(vars(v).items()):
                        if not kk.startswith('__'):
                            self._add(vv, seen, 2)

    def _add(self, v, seen, depth):
        if id(v) in seen or not depth:
            return
        if isinstance(v, dict) and type(v).__module__ in ('builtins',
                                                          'collections'):
            seen.add(id(v))
            self.items.append((v, (list(v.keys()), list(v.values())), 'd'))
            for x in list(v.values())[:500]:
                self._add(x, seen, depth - 1)
        elif type(v) is list:
            seen.add(id(v))
            self.items.append((v, list(v), 'l'))
            for x in v[:500]:
                self._add(x, seen, depth - 1)
        elif type(v) is set:
            seen.add(id(v))
            self.items.append((v, list(v), 's'))
        elif not isinstance(v, type) and \
                getattr(type(v), '__module__', '').split('.')[0] in \
                self.roots and type(getattr(v, '__dict__', None)) is dict:
            # an object made by the code under test
            seen.add(id(v))
            d = v.__dict__
            self.items.append((d, (list(d.keys()), list(d.values())), 'd'))
            for x in list(d.values())[:100]:
                self._add(x, seen, depth - 1)

    def restore(self):
        E.hash_ok += 1
        try:
            for c, snap, kind in self.items:
                if kind == 'd':
                    if len(c) == len(snap[0]) and \
                            all(map(operator.is_, c.values(), snap[1])) and \
                            all(map(operator.is_, c.keys(), snap[0])):
                        continue
                    c.clear()
                    c.update(zip(*snap))
                elif kind == 'l':
                    if len(c) == len(snap) and \
                            all(map(operator.is_, c, snap)):
                        continue
                    c[:] = snap
                elif len(c) == len(snap) and \
                        all(map(operator.is_, c, snap)):
                    continue
                else:
                    c.clear()
                    c.update(snap)
            for f in self.caches:
                f.cache_clear()
        finally:
            E.hash_ok -= 1


class Hang(BaseException):
    pass


def _on_alarm(_sig, frame):
    if os.environ.get('SX_HANG'):
        traceback.print_stack(frame)
    raise Hang()


class Worker:

    def __init__(self, module, tasks, guard):
        self.module = module
        self.tasks = tasks
        self.guard = guard
        self.path_time = 40

    def run_path(self, task, assign, bound):
        """Run one path; returns (inputs, outcome)."""
        self.guard.restore()
        hooks.reset_tainted()
        E.reset(assign, bound)
        E.ivars = {}
        E.path_deadline = time.time() + self.path_time
        ctx = SymCtx(task.params)
        fn = getattr(self.module, task.harness)
        outcome = 'ok'
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, self.path_time)
        try:
            fn(ctx, **task.params)
            signal.setitimer(signal.ITIMER_REAL, 0)
        except Hang:
            E.violations.append(('did not terminate', []))
            outcome = 'violation'
            self.path_time = 10
        except PathAbort:
            outcome = 'abort'
            E.stats['aborted'] += 1
        except PathLimit:
            outcome = 'limit'
            E.violations.append(('path limit', []))
            E.stats['limited'] += 1
        except Violation:
            outcome = 'violation'
        except EngineError as e:
            outcome = 'engine:' + str(e)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if '/sx/' not in f.filename]
            last = where[-1] if where else tb[-1]
            E.violations.append((
                'raised %s' % type(e).__name__,
                ['%s:%d %s' % (last.filename, last.lineno, last.name),
                 safe_str(e)]))
            outcome = 'violation'
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        inputs = {n: v for n, (k, v) in E.inputs.items()}
        E.stats['paths'] += 1
        return inputs, outcome

    def expand(self, ti, inputs, outcome, bound, pins):
        """Solver stage: children and assertion counterexamples."""
        children = []
        cexs = []
        path = E.path
        s = self.solver
        s.push()
        st = E.stats
        st['decisions'] += sum(1 for d in path if d.kind != 'pre')
        incomplete = 0
        try:
            for i, d in enumerate(path):
                if i >= bound and d.kind != 'pre':
                    if d.kind == 'pin':
                        c = pins.get(d.info, 0)
                        pins[d.info] = c + 1
                        if c >= E.pin_limit:
                            incomplete += 1
                            s.add(d.expr)
                            continue
                    t = time.time()
                    s.push()
                    s.add(z3.Not(d.expr))
                    r = s.check()
                    st['queries'] += 1
                    if d.kind == 'assert':
                        st['assert_queries'] += 1
                    if r == z3.sat:
                        st['sat'] += 1
                        m = s.model()
                        new = dict(inputs)
                        for n, (k, v) in E.inputs.items():
                            var = E.ivars[n] if k == 'i' else V._bytevar(n)
                            val = m[var]
                            if val is not None:
                                new[n] = val.as_signed_long() if k == 'i' \
                                    else val.as_long()
                        if d.kind == 'assert':
                            cexs.append((d.info[0], new))
                        else:
                            children.append((ti, new, i + 1))
                    elif r == z3.unsat:
                        st['unsat'] += 1
                    else:
                        st['unknown'] += 1
                        incomplete += 1
                    s.pop()
                    st['solver_s'] += time.time() - t
                s.add(d.expr)
        finally:
            s.pop()
        return children, cexs, incomplete

    def loop(self, conn):
        self.solver = z3.SolverFor('QF_BV')
        self.solver.set('timeout', 20000)
        import gc
        gc.freeze()
        pins = {}
        while True:
            msg = conn.recv()
            if msg is None:
                return
            jobs, slice_s = msg
            end = time.time() + slice_s
            for k in E.stats:
                E.stats[k] = 0
            out = dict(jobs=[], cexs=[], witnesses=[], covers={},
                       outcomes={}, per_task={}, incomplete={}, sites={},
                       engine=[], funcs=None)
            stack = list(jobs)
            E.sites = {}
            while stack:
                if time.time() > end:
                    break
                ti, assign, bound = stack.pop()
                task = self.tasks[ti]
                inputs, outcome = self.run_path(task, assign, bound)
                viol = E.violations[:1]
                obs = E.observations
                children, cexs, inc = self.expand(
                    ti, inputs, outcome, bound, pins)
                stack.extend(children)
                if inc or outcome == 'limit':
                    out['incomplete'][ti] = \
                        out['incomplete'].get(ti, 0) + max(inc, 1)
                if outcome.startswith('engine:'):
                    out['incomplete'][ti] = out['incomplete'].get(ti, 0) + 1
                    out['engine'].append((ti, inputs, outcome))
                    outcome = 'engine'
                for lab, det in viol:
                    out['cexs'].append((ti, lab, inputs, det))
                for lab, inp in cexs:
                    out['cexs'].append((ti, lab, inp, []))
                out['outcomes'][outcome] = out['outcomes'].get(outcome, 0) + 1
                n = out['per_task'].get(ti, 0)
                out['per_task'][ti] = n + 1
                for c in E.covers:
                    out['covers'].setdefault((ti, c), inputs)
                if outcome == 'ok' and (n < 3 or n % 16 == 0):
                    out['witnesses'].append((ti, inputs, obs))
            out['jobs'] = stack
            out['stats'] = dict(E.stats)
            out['sites'] = E.sites
            conn.send(out)


def safe_str(e):
    try:
        from sx.ctx import canon
        return canon(e)[:300]
    except Exception:
        return '?'


class Result:
    pass


def explore(module, tasks, guard, budget_s, nproc=None, verbose=False,
            max_cex=200):
    nproc = nproc or int(os.environ.get('SX_PROCS', '0')) or os.cpu_count()
    w = Worker(module, tasks, guard)
    conns = {}
    procs = []
    ctx = multiprocessing.get_context('fork')
    for _ in range(nproc):
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker_main, args=(w, b, a), daemon=True)
        p.start()
        b.close()
        procs.append(p)
        conns[a] = p
    R = Result()
    R.stats = {}
    R.cexs = []
    R.witnesses = {}
    R.covers = {}
    R.outcomes = {}
    R.per_task = {i: 0 for i in range(len(tasks))}
    R.incomplete = {}
    R.sites = {}
    R.engine = []
    R.left = {}
    start = time.time()
    jobs = [(i, {}, 0) for i in reversed(range(len(tasks)))]
    idle = list(conns)
    busy = {}
    stop = False
    hangs = 0
    ncex = {}
    while True:
        now = time.time()
        if now - start > budget_s:
            stop = True
        if stop and not busy:
            break
        if not jobs and not busy:
            break
        while idle and jobs and not stop:
            c = idle.pop()
            share = max(1, min(32, len(jobs) // (2 * nproc)))
            batch = [jobs.pop() for _ in range(min(share, len(jobs)))]
            slice_s = 0.05 if len(jobs) < nproc * 2 else 0.5
            c.send((batch, slice_s))
            busy[c] = batch
        if not busy:
            continue
        for c in multiprocessing.connection.wait(list(busy), timeout=1.0):
            try:
                out = c.recv()
            except (EOFError, OSError):
                for (ti, _, _) in busy[c]:
                    R.incomplete[ti] = R.incomplete.get(ti, 0) + 1
                R.engine.append((busy[c][0][0], busy[c][0][1],
                                 'worker died'))
                del busy[c]
                a, b = ctx.Pipe()
                p = ctx.Process(target=_worker_main, args=(w, b, a),
                                daemon=True)
                p.start()
                b.close()
                procs.append(p)
                idle.append(a)
                continue
            del busy[c]
            idle.append(c)
            for k, v in out['stats'].items():
                R.stats[k] = R.stats.get(k, 0) + v
            for k, v in out['sites'].items():
                R.sites[k] = R.sites.get(k, 0) + v
            for k, v in out['outcomes'].items():
                R.outcomes[k] = R.outcomes.get(k, 0) + v
            for k, v in out['per_task'].items():
                R.per_task[k] += v
            for k, v in out['incomplete'].items():
                R.incomplete[k] = R.incomplete.get(k, 0) + v
            for k, v in out['covers'].items():
                R.covers.setdefault(k, v)
            R.engine.extend(out['engine'])
            for x in out['cexs']:
                if x[1] == 'did not terminate':
                    hangs += 1
                    stop = stop or hangs >= 2
                    if hangs > 2:
                        continue
                key = (x[0], x[1])
                ncex[key] = ncex.get(key, 0) + 1
                if ncex[key] <= 6 and len(R.cexs) < max_cex:
                    R.cexs.append(x)
            for ti, inp, obs in out['witnesses']:
                ws = R.witnesses.setdefault(ti, [])
                if len(ws) < 400:
                    ws.append((inp, obs))
            for j in out['jobs']:
                t = tasks[j[0]]
                if t.max_paths and R.per_task[j[0]] >= t.max_paths:
                    R.left[j[0]] = R.left.get(j[0], 0) + 1
                else:
                    jobs.append(j)
    for j in jobs:
        R.left[j[0]] = R.left.get(j[0], 0) + 1
    for c in conns:
        try:
            c.send(None)
        except (BrokenPipeError, OSError):
            pass
    for p in procs:
        p.join(2)
        if p.is_alive():
            p.terminate()
    R.wall = time.time() - start
    return R


def _worker_main(w, conn, other):
    other.close()
    sys.setrecursionlimit(12000)
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        w.loop(conn)
    except (EOFError, KeyboardInterrupt):
        pass
    except BaseException:
        traceback.print_exc()
        raise
