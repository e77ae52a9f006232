#!/usr/bin/env python3
"""mutant.py [--checks C01,C02|own|none] [--runs N] [--notests] PATCH_OR_SEEDED_DIR...
Applies each patch to a scratch copy of /repo, runs the stable tests, the demonstration (if any; with and without the patch) and
checks against the copy, and says what each found. Never touches /repo."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def scratch():
    d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    shutil.copytree('/repo/python', d + '/python', ignore=shutil.ignore_patterns('__pycache__'))
    return d


def tests(d):
    code, out = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--ignore=tests/test_parse.py', '--timeout=300'], d + '/python',
                   {'PYTHONPATH': d + '/python', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0'})
    last = out.strip().split('\n')[-1]
    return last


def demo(path, d):
    try:
        return sh(['bash', path], d, {'PYTHONDONTWRITEBYTECODE': '1'}, 300)
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def main(argv):
    checks, runs, dotests = 'own', None, True
    args = []
    it = iter(argv)
    for a in it:
        if a == '--checks':
            checks = next(it)
        elif a == '--runs':
            runs = next(it)
        elif a == '--notests':
            dotests = False
        else:
            args.append(a)
    base = scratch()
    summary = []
    for a in args:
        a = os.path.abspath(a)
        patch = a + '/patch.diff' if os.path.isdir(a) else a
        meta = json.load(open(a + '/meta.json')) if os.path.isdir(a) else {}
        d = scratch()
        try:
            code, out = sh(['patch', '-p1', '--no-backup-if-mismatch', '-i', patch], d)
            if code:
                print(a, 'PATCH FAILS', out)
                continue
            line = [os.path.basename(a)]
            if dotests:
                line.append(tests(d))
            if os.path.exists(os.path.dirname(patch) + '/demo.sh'):
                x = demo(os.path.dirname(patch) + '/demo.sh', base)
                y = demo(os.path.dirname(patch) + '/demo.sh', d)
                line.append('demo %s/%s' % (x[0], y[0]))
                if x[0] != 0 or y[0] == 0:
                    print(x[1][-1500:], y[1][-1500:])
            todo = {'own': [meta.get('property')] if meta else [], 'none': [], 'all': ['C%02d' % i for i in range(1, 19)]}.get(checks, checks.split(','))
            for c in todo:
                env = {'VERIF_REPO': d, 'VERIF_SEED': os.environ.get('VERIF_SEED', '1')}
                if runs:
                    env['VERIF_RUNS'] = runs
                code, out = sh(['python3', 'run.py', c], HERE, env)
                why = re.findall(r'^run (\d+): (.*)', out, re.M)
                line.append('%s:%s %s' % (c, {0: 'MISSED', 1: 'caught'}.get(code, 'BROKEN %s' % code), (why[0][0] + ' ' + why[0][1][:160]) if why else out[-300:] if code not in (0, 1) else ''))
            print(' | '.join(line), flush=True)
        finally:
            shutil.rmtree(d)
    shutil.rmtree(base)


main(sys.argv[1:])
