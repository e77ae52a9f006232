#!/usr/bin/env python3
"""determinism.py [RUNS]: the same runs of every check in fresh processes with different hash seeds and different addresses; the digests must agree"""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
ONE = '''
import sys
sys.path.insert(0, %r)
from sim import core
pad = [object() for _ in range(int(sys.argv[3]))]
check = core.load(sys.argv[1]) if hasattr(core, 'load') else __import__('checks.' + sys.argv[1].lower(), fromlist=['x'])
for i in range(1000, 1000 + int(sys.argv[2])):
    r = core.isolated(core.seeded, check, 1, i, 'quick')
    print(i, r['stats']['digest'] if 'stats' in r else sorted(r))
''' % HERE


def main():
    n = sys.argv[1] if len(sys.argv) > 1 else '60'
    bad = 0
    for prop in sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'checks')) if f.startswith('c') and f[1:3].isdigit()):
        outs = []
        for hashseed, pad in (('0', '0'), ('12345', '1000'), ('777', '54321')):
            env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1', VERIF_CHILD='1')
            p = subprocess.run([PY, '-B', '-X', 'pycache_prefix=/nonexistent/pycache', '-c', ONE, prop, n, pad], env=env, cwd=HERE, capture_output=True, text=True)
            outs.append(p.stdout.split('\n'))
            if p.returncode:
                print(p.stderr[-800:])
        differ = [k for k in range(len(outs[0])) if len({o[k] if k < len(o) else None for o in outs}) > 1]
        bad += len(differ)
        print('%s: %d runs, %d differ%s' % (prop, len(outs[0]) - 1, len(differ), ' ' + str([outs[0][k] for k in differ[:5]]) if differ else ''), flush=True)
    sys.exit(1 if bad else 0)


main()
