"""Re-runs a counterexample (or a batch of path witnesses) on the real,
uninstrumented code in /repo.

usage: replay.py FILE.json      exit 1 if the property is violated
       replay.py --batch        JSON requests on stdin, JSON answers on stdout
"""
import importlib
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
REPO = os.environ.get('SX_REPO', '/repo')
sys.path[:0] = [REPO, HERE]
if REPO in sys.path[1:]:
    pass
from sx.ctx import ConcreteCtx, Skip, Violation, canon      # noqa: E402


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


_tasks = {}


def get_task(prop, name):
    if prop not in _tasks:
        m = importlib.import_module('checks.' + prop)
        d = {}
        for tier in ('thorough', 'quick'):
            for t in m.tasks(tier):
                d[t.name] = t
        _tasks[prop] = (m, d)
    m, d = _tasks[prop]
    return m, d[name]


_guard = None


def run_one(prop, name, inputs, limit=30):
    m, t = get_task(prop, name)
    reset()
    ctx = ConcreteCtx(inputs, t.params)
    r = dict(outcome='ok', label=None, detail=[], obs=[])
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        getattr(m, t.harness)(ctx, **t.params)
    except Skip as e:
        r['outcome'] = 'skip'
    except Violation:
        r['outcome'] = 'violation'
        r['label'], r['detail'] = ctx.violations[0]
    except Timeout:
        r['outcome'] = 'violation'
        r['label'] = 'did not terminate within %d s' % limit
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        r['outcome'] = 'violation'
        r['label'] = 'raised %s' % type(e).__name__
        fr = [f for f in tb if '/httpolice/' in f.filename] or tb
        r['detail'] = ['%s:%s' % (os.path.basename(fr[-1].filename),
                                  fr[-1].name), canon(e)[:400]]
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    r['obs'] = ctx.observations
    return r


def reset():
    """Forget cross-run caches, so each replay stands alone."""
    p = sys.modules.get('httpolice.parse')
    memo = getattr(p, '_memo', None)
    if hasattr(memo, 'clear'):
        memo.clear()


def main():
    if sys.argv[1] == '--batch':
        reqs = json.load(sys.stdin)
        out = []
        for q in reqs:
            try:
                out.append(run_one(q['property'], q['task'], q['inputs']))
            except BaseException as e:
                out.append(dict(outcome='error', label=repr(e)[:300],
                                detail=[], obs=[]))
        sys.stdout.write('\n@@@' + json.dumps(out))
        return 0
    with open(sys.argv[1]) as f:
        q = json.load(f)
    r = run_one(q['property'], q['task'], q['inputs'])
    print(json.dumps(r, indent=1))
    return 1 if r['outcome'] == 'violation' else 0


if __name__ == '__main__':
    sys.exit(main())
