#!/usr/bin/env python3
"""automut.py WORK [--jobs N] [--runs N] [--only file.py,..] [--stage gen|test|check|all] [--limit K]
Systematic small mutations of the library's source (scratch copies only, never /repo): generate, drop those the existing tests
notice, run every check (few runs each) on the rest, and list what no check noticed, for a human to judge as equivalent or as a gap."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SRC = '/repo/python/enolib'
SWAP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
NAMES = {'BEGIN': 'END', 'END': 'BEGIN', 'HUMAN_INDEXING': '0'}


def mutants(path):
    src = open(path).read()
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()
    out = []

    def edit(n, new, kind):
        a, b = pos(n)
        if raw[a:b].decode() != new:
            out.append({'line': n.lineno, 'a': a, 'b': b, 'new': new, 'old': raw[a:b].decode(), 'kind': kind})
    tree = ast.parse(src)
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = SWAP.get(type(n.ops[0]))
            if op:
                edit(n, '%s %s %s' % (text(n.left), op, text(n.comparators[0])), 'cmp')
        if isinstance(n, ast.BoolOp):
            vals = [text(v) for v in n.values]
            edit(n, '(' + (' or ' if isinstance(n.op, ast.And) else ' and ').join(vals) + ')', 'andor')
            for i in range(len(vals)):
                edit(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(vals[:i] + vals[i + 1:]) + ')', 'dropop')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            edit(n, text(n.operand), 'not')
        if isinstance(n, (ast.If, ast.IfExp)):
            edit(n.test, 'True', 'iftrue')
            edit(n.test, 'False', 'iffalse')
        if isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                edit(n, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                edit(n, str(n.value + 1), 'int')
        if isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load):
            edit(n, NAMES[n.id], 'name')
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            edit(n, '%s %s %s' % (text(n.left), '-' if isinstance(n.op, ast.Add) else '+', text(n.right)), 'arith')
            edit(n, text(n.left), 'arithdrop')
        if isinstance(n, ast.comprehension):
            for i in n.ifs:
                edit(i, 'True', 'compif')
        if isinstance(n, ast.List) and len(n.elts) == 1 and isinstance(n.elts[0], ast.Starred):
            edit(n, text(n.elts[0].value), 'nocopy')
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue, ast.Break)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                edit(n, 'pass', 'stmt')
        if isinstance(n, ast.Return) and n.value is not None and text(n.value) != 'None':
            edit(n, 'return None', 'retnone')
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            s = n.slice
            if s.lower:
                edit(s.lower, '', 'slice')
            if s.upper:
                edit(s.upper, '', 'slice')
        if isinstance(n, ast.Try) and n.handlers:
            edit(n, '\n'.join(text(b) for b in n.body[:1]) if len(n.body) == 1 else text(n), 'try')
        if isinstance(n, ast.Call) and n.args and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in ('list', 'dict', 'sorted', 'copy', 'set', 'reversed', 'tuple'):
            edit(n, text(n.args[0]), 'nocopy')
    keep = []
    for m in out:
        new = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
        try:
            compile(new, path, 'exec')
        except SyntaxError:
            continue
        keep.append(m)
    return keep


def apply(m, d):
    p = os.path.join(d, 'python/enolib', m['file'])
    raw = open(os.path.join(SRC, m['file']), 'rb').read()
    open(p, 'wb').write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])


def restore(m, d):
    shutil.copy(os.path.join(SRC, m['file']), os.path.join(d, 'python/enolib', m['file']))


def run(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def main(argv):
    work, jobs, runs, only, stage, limit = argv[0], 8, 200, None, 'all', None
    it = iter(argv[1:])
    for a in it:
        v = next(it)
        if a == '--jobs':
            jobs = int(v)
        elif a == '--runs':
            runs = int(v)
        elif a == '--only':
            only = v.split(',')
        elif a == '--stage':
            stage = v
        elif a == '--limit':
            limit = int(v)
    os.makedirs(work, exist_ok=True)
    f = work + '/mutants.json'
    if stage in ('gen', 'all') or not os.path.exists(f):
        all_ = []
        for root, _, files in os.walk(SRC):
            for name in sorted(files):
                if name.endswith('.py') and '/messages' not in root:
                    rel = os.path.relpath(os.path.join(root, name), SRC)
                    if not only or any(o in rel for o in only):
                        for m in mutants(os.path.join(root, name)):
                            all_.append(dict(m, file=rel))
        all_.sort(key=lambda m: (m['file'], m['line'], m['a']))
        for i, m in enumerate(all_):
            m['id'] = i
        json.dump(all_, open(f, 'w'), indent=0)
    ms = json.load(open(f))
    print(len(ms), 'mutants', flush=True)
    dirs = []
    for _ in range(jobs):
        d = tempfile.mkdtemp(prefix='am.', dir=work)
        shutil.copytree('/repo/python', d + '/python', ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copytree(HERE, d + '/v', ignore=shutil.ignore_patterns('__pycache__', '.git', 'seeded', 'replays', 'evidence'))
        os.makedirs(d + '/v/evidence')
        os.makedirs(d + '/v/replays')
        dirs.append(d)
    free = list(dirs)

    def test(m):
        d = free.pop()
        try:
            apply(m, d)
            code, out = run([PY, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '--ignore=tests/test_parse.py', '--timeout=20'], d + '/python',
                            {'PYTHONPATH': d + '/python', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0'}, 60)
            m['survives'] = code == 0
        finally:
            restore(m, d)
            free.append(d)

    def check(m):
        d = free.pop()
        order = ['C%02d' % i for i in range(1, 19)]
        fast = [c for c in order if c not in ('C07', 'C08', 'C10', 'C11')]
        random.Random(m['id']).shuffle(fast)
        try:
            apply(m, d)
            m['caught'] = None
            for c in fast + ['C07', 'C08', 'C10', 'C11']:
                code, out = run(['python3', 'run.py', c], d + '/v', {'VERIF_REPO': d, 'VERIF_RUNS': str({'C08': runs // 3, 'C10': runs // 3, 'C11': runs // 5, 'C07': runs // 2}.get(c, runs)), 'VERIF_WORKERS': '1', 'VERIF_SEED': '1'}, 900)
                if code != 0:
                    m['caught'] = c
                    m['code'] = code
                    m['out'] = out[-600:]
                    break
        finally:
            restore(m, d)
            free.append(d)

    def save():
        json.dump(ms, open(f + '.tmp', 'w'), indent=0)
        os.replace(f + '.tmp', f)
    with ThreadPoolExecutor(jobs) as ex:
        if stage in ('test', 'all'):
            todo = [m for m in ms if 'survives' not in m]
            for i, _ in enumerate(ex.map(test, todo)):
                if i % 50 == 0:
                    save()
            save()
            print(sum(m['survives'] for m in ms), 'survive the tests', flush=True)
        if stage in ('check', 'all'):
            todo = [m for m in ms if m.get('survives') and 'caught' not in m][:limit]
            for i, _ in enumerate(ex.map(check, todo)):
                if i % 10 == 0:
                    save()
            save()
    for d in dirs:
        shutil.rmtree(d)
    for m in ms:
        if m.get('survives') and 'caught' in m and (m['caught'] is None or m['code'] != 1):
            print('%d %s:%d %s | %s -> %s | %s' % (m['id'], m['file'], m['line'], m['kind'], m['old'][:90].replace('\n', '\\n'), m['new'][:90].replace('\n', '\\n'), m['caught'] and '%s %s' % (m['caught'], m['code'])))


main(sys.argv[1:])
