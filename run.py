#!/usr/bin/env python3
"""run.py C01            run the check of a property (VERIF_SEED, VERIF_TIER)
run.py replay FILE     run a replay file again: exit 1 and a VIOLATION line if it still fails"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))

if os.environ.get('VERIF_CHILD') != '1':
    # fixed hash seed, no compiled files read from or written next to the sources
    env = dict(os.environ, VERIF_CHILD='1', PYTHONDONTWRITEBYTECODE='1')
    env.setdefault('PYTHONHASHSEED', '0')
    py = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
    os.execve(py, [py, '-B', '-X', 'pycache_prefix=/nonexistent/pycache', os.path.join(HERE, 'run.py')] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from sim import core  # noqa: E402


def main(argv):
    if argv and argv[0] == 'replay':
        d, res = core.replay(argv[1])
        if 'violation' in res:
            print('%s: %s' % (res['violation']['cls'], res['violation']['msg']))
            print('VIOLATION property=%s replay=%s' % (d['property'], argv[1]))
            return 1
        if 'stats' not in res:
            print(res)
            return 2
        print('no violation')
        return 0
    return core.main_check(argv[0], os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1')))


sys.exit(main(sys.argv[1:]))
