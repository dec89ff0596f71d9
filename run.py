"""Entry point of every check:  python3 run.py PROPERTY_ID

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: a counterexample
was found by the solver and reproduced on the real code."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/bin/python3'
SITE = '/opt/venv/lib/python3.12/site-packages'


def reexec():
    env = dict(os.environ)
    env.update(SX_CHILD='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               PYTHONPATH=os.pathsep.join([REPO, HERE, SITE]), TZ='UTC',
               LC_ALL='C.UTF-8')
    exe = VT if os.path.exists(VT) else 'python3-vt'
    os.execvpe(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)


if os.environ.get('SX_CHILD') != '1' or \
        os.environ.get('PYTHONHASHSEED') != '0':
    reexec()

from sx.runner import main                                  # noqa: E402

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
