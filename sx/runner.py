"""Runs the tasks of one property, replays counterexamples, writes evidence."""

import argparse
import importlib
import importlib.util
import json
import os
import re
import subprocess
import sys
import time

from sx import hooks, instrument
from sx.ctx import Task

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
VENV_PY = '/opt/venv/bin/python'


def load(prop):
    roots = {'httpolice': REPO, 'checks': HERE, 'ref': HERE, 'sxlib': HERE}
    spec = importlib.util.find_spec('dominate')     # renders HTML reports
    if spec is not None:
        roots['dominate'] = os.path.dirname(os.path.dirname(spec.origin))
    instrument.install(roots)
    sys.setrecursionlimit(12000)
    return importlib.import_module('checks.' + prop)


def replay_batch(reqs, timeout=600):
    if not reqs:
        return []
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', TZ='UTC',
               LC_ALL='C.UTF-8')
    env.pop('PYTHONPATH', None)
    n = min(8, max(1, len(reqs) // 25 + 1))
    chunks = [reqs[i::n] for i in range(n)]
    procs = []
    for c in chunks:
        p = subprocess.Popen(
            [VENV_PY, os.path.join(HERE, 'replay.py'), '--batch'],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=env, text=True, cwd=HERE)
        procs.append(p)
    import threading
    outs = [None] * n

    def feed(i):
        try:
            o, _ = procs[i].communicate(json.dumps(chunks[i]),
                                        timeout=timeout)
            outs[i] = json.loads(o[o.rindex('@@@') + 3:])
        except Exception as e:
            procs[i].kill()
            outs[i] = [dict(outcome='error', label=repr(e)[:200],
                            detail=[], obs=[]) for _ in chunks[i]]
    ts = [threading.Thread(target=feed, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    res = [None] * len(reqs)
    for i in range(n):
        res[i::n] = outs[i]
    return res


def known_findings(prop):
    """Lines `finding: property=X task=RE label=RE detail=RE :: text`"""
    out = []
    try:
        with open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) task=(\S+) '
                             r'label=(\S+) detail=(\S+) :: (.*)', line)
                if m and m.group(1) == prop:
                    out.append(m.groups()[1:])
    except FileNotFoundError:
        pass
    return out


def match_known(known, task, r):
    for k in known:
        t, l, d, text = k
        sp = lambda s: s.replace('\\s', ' ')
        if re.search(t, task.replace(' ', '_')) and \
                re.search(l, str(r['label']).replace(' ', '_')) and \
                re.search(d, ' '.join(map(str, r['detail'])).replace(
                    ' ', '_')):
            return text
    return None


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--task', help='only tasks whose name matches')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    prop = a.property
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = load(prop)
    if hasattr(mod, 'custom_main'):
        from sx import custom
        return custom.run(mod, prop, tier, seed, a, t0)
    return run_tasks(mod, prop, tier, seed, a, t0)


def run_tasks(mod, prop, tier, seed, a, t0):
    from sx import explore as X
    tasks = mod.tasks(tier)
    if a.task:
        tasks = [t for t in tasks if re.search(a.task, t.name)]
    if hasattr(mod, 'warm'):
        mod.warm()
    guard = X.StateGuard(['httpolice', 'checks', 'ref'])
    budget = a.budget or getattr(mod, 'BUDGET', {}).get(
        tier, 600 if tier == 'quick' else 3000)
    R = X.explore(mod, tasks, guard, budget, verbose=a.v)

    # replay counterexamples on the real code
    reqs = [dict(property=prop, task=tasks[ti].name, inputs=inp)
            for (ti, lab, inp, det) in R.cexs]
    reps = replay_batch(reqs)
    known = known_findings(prop)
    confirmed, unconfirmed, known_hits = [], [], {}
    for (ti, lab, inp, det), r in zip(R.cexs, reps):
        if r['outcome'] == 'violation':
            k = match_known(known, tasks[ti].name, r)
            if k is not None:
                known_hits.setdefault(k, (tasks[ti].name, inp, r))
            else:
                confirmed.append((tasks[ti].name, inp, r))
        else:
            unconfirmed.append((tasks[ti].name, lab, det, inp, r))

    # validate sampled path witnesses against the real code
    sample = []
    per = 40 if tier == 'quick' else 120
    total = sum(len(v) for v in R.witnesses.values())
    cap = 600 if tier == 'quick' else 4000
    for ti, ws in sorted(R.witnesses.items()):
        step = max(1, len(ws) // per)
        for w in ws[::step][:per]:
            sample.append((ti, w))
    if len(sample) > cap:
        sample = sample[::len(sample) // cap + 1]
    vreqs = [dict(property=prop, task=tasks[ti].name, inputs=w[0])
             for ti, w in sample]
    vres = replay_batch(vreqs)
    validated = diverged = 0
    div_ex = []
    for (ti, w), r in zip(sample, vres):
        if r['outcome'] == 'violation':
            k = match_known(known, tasks[ti].name, r)
            if k is not None:
                known_hits.setdefault(k, (tasks[ti].name, w[0], r))
            else:
                confirmed.append((tasks[ti].name, w[0], r))
        elif r['outcome'] == 'ok' and r['obs'] == json.loads(
                json.dumps(w[1])):
            validated += 1
        else:
            diverged += 1
            if len(div_ex) < 5:
                div_ex.append((tasks[ti].name, w[0], w[1], r))

    missing = []
    for i, t in enumerate(tasks):
        for c in t.expect:
            if (i, c) not in R.covers:
                missing.append('%s: %s' % (t.name, c))

    st = R.stats
    exhausted = not R.left and not R.incomplete and not R.engine
    samples = []
    for (ti, c), inp in list(R.covers.items())[:8]:
        samples.append(dict(task=tasks[ti].name, cover=c,
                            witness=render(inp)))
    for ti, ws in list(R.witnesses.items())[:6]:
        samples.append(dict(task=tasks[ti].name, witness=render(ws[0][0]),
                            observed=ws[0][1]))
    funcs = getattr(mod, 'FUNCTIONS', [])
    cov = dict(
        states=st.get('paths', 0),
        transitions=st.get('decisions', 0),
        traces_validated_against_impl=validated,
        samples=samples,
        exhaustive=False,
        all_paths_within_bounds_decided=exhausted,
        functions_encoded=funcs,
        bounds=getattr(mod, 'BOUNDS', {}).get(tier, ''),
        outside_the_claim=getattr(mod, 'OUTSIDE', ''),
        queries_discharged=st.get('queries', 0),
        queries_unsat=st.get('unsat', 0),
        queries_sat=st.get('sat', 0),
        queries_unknown=st.get('unknown', 0),
        assertions_evaluated=st.get('asserts', 0),
        assertion_queries=st.get('assert_queries', 0),
        assertions_decided_by_path_condition=st.get('asserts_const', 0),
        solver_seconds=round(st.get('solver_s', 0), 2),
        solver='z3 (QF_BV, incremental)',
        path_outcomes=R.outcomes,
        paths_per_task={tasks[i].name: n for i, n in R.per_task.items()},
        reachability_witnesses=sorted(
            '%s: %s' % (tasks[i].name, c) for (i, c) in R.covers)[:60],
        reachability_missing=missing,
        unexplored_jobs={tasks[i].name: n for i, n in R.left.items()},
        incomplete={tasks[i].name: n for i, n in R.incomplete.items()},
        concretisations=R.sites,
        witness_divergences=diverged,
        unconfirmed_counterexamples=len(unconfirmed),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2),
              violations=len(confirmed))
    if not a.no_evidence and not a.task:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')

    print('%s [%s]: %d tasks, %d paths, %d decisions, %d queries '
          '(%d unsat, %d sat, %d unknown), %d asserts (%d solver queries), '
          'solver %.1f s, %d traces validated, %d diverged, wall %.1f s%s' % (
              prop, tier, len(tasks), st.get('paths', 0),
              st.get('decisions', 0), st.get('queries', 0),
              st.get('unsat', 0), st.get('sat', 0), st.get('unknown', 0),
              st.get('asserts', 0), st.get('assert_queries', 0),
              st.get('solver_s', 0), validated, diverged,
              time.time() - t0, '' if exhausted else ' (NOT EXHAUSTIVE)'))
    if a.v:
        for i, n in R.per_task.items():
            print('   %-60s %d%s' % (tasks[i].name, n,
                                     ' left %d' % R.left[i]
                                     if i in R.left else ''))
        for s, n in sorted(R.sites.items(), key=lambda x: -x[1])[:25]:
            print('   pin', n, s)
    for x in R.engine[:5]:
        print('   ENGINE', tasks[x[0]].name, x[2], str(render(x[1]))[:300])
    for x in div_ex[:5]:
        print('   DIVERGED', x[0], render(x[1]), '\n      sym', x[2],
              '\n      real', x[3])
    for m in missing:
        print('   UNREACHED', m)
    for x in unconfirmed[:6]:
        print('   UNCONFIRMED', x[0], x[1], x[2], render(x[3]),
              x[4]['outcome'], x[4]['label'])
    for text, (tn, inp, r) in known_hits.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if confirmed:
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        seen = set()
        n = 0
        for tn, inp, r in confirmed:
            key = (tn, r['label'])
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(d, '%s_%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, task=tn, inputs=inp,
                               label=r['label'], detail=r['detail']), f,
                          indent=1)
            print('   %s: %s %s\n      input %s' % (
                tn, r['label'], str(r['detail'])[:600], render(inp)))
            print('VIOLATION property=%s replay=%s' % (
                prop, os.path.relpath(path, HERE)))
            n += 1
            if n >= 10:
                break
        return 1
    return 0


def render(inputs):
    """Group byte inputs back into byte strings for reading."""
    groups = {}
    other = {}
    for k, v in inputs.items():
        m = re.match(r'(.*)\.(\d+)$', k)
        if m:
            groups.setdefault(m.group(1), {})[int(m.group(2))] = v
        else:
            other[k] = v
    out = {k: repr(bytes(v for _, v in sorted(d.items())))
           for k, d in groups.items()}
    out.update(other)
    return out
