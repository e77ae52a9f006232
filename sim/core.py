"""The driver: seeds, forked runs, replay, minimisation, evidence.

One run = one plan (plain JSON, drawn from one PRNG) executed in a forked child of a process that has imported enolib but
never used it. Executing a plan draws no random numbers and reads no clock, so plan + code determine everything.
"""
import gc
import hashlib
import importlib
import json
import os
import random
import resource
import select
import signal
import sys
import traceback
from time import monotonic

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
CPU_S = 60
WALL_S = 400


class Violation(Exception):
    """cls names the kind of violation: minimisation keeps it"""
    def __init__(self, cls, msg):
        super().__init__(cls, msg)
        self.cls, self.msg = cls, msg


HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + os.sep


class Lib:
    """The library under test, loaded from the working tree"""
    def load(self):
        from . import trace
        if getattr(self, 'parse', None):
            return
        path = os.path.join(REPO, 'python')
        sys.path.insert(0, path)
        trace.sim_locks()
        trace.sim_time()
        enolib = importlib.import_module('enolib')
        where = os.path.abspath(enolib.__file__)
        if not where.startswith(os.path.join(path, 'enolib') + os.sep):
            raise RuntimeError('enolib comes from ' + where)
        trace.ROOT = os.path.join(path, 'enolib') + os.sep
        self.module = enolib
        self.ParseError, self.ValidationError = enolib.ParseError, enolib.ValidationError
        self.parse, self.lookup, self.register = enolib.parse, enolib.lookup, enolib.register
        from enolib.messages import de, en, es
        from enolib.reporters import HtmlReporter, TerminalReporter, TextReporter
        self.locales = {'en': en, 'de': de, 'es': es}
        self.reporters = {'Text': TextReporter, 'Html': HtmlReporter, 'Terminal': TerminalReporter}


lib = Lib()


class Stats:
    """What one run did"""
    def __init__(self):
        self.n = {}             # counters
        self.faults = {}        # fault kinds that actually fired
        self.probes = {}        # rare conditions reached
        self.states = set()     # hashes of distinct states / interleavings
        self.digest = hashlib.blake2b(digest_size=8)
        self.nontrivial = False
        self.shape = None       # what makes this run distinct
        self.findings = []
        self.sample = None

    def add(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def fault(self, name, k=1):
        self.faults[name] = self.faults.get(name, 0) + k

    def probe(self, name, k=1):
        self.probes[name] = self.probes.get(name, 0) + k

    def state(self, *what):
        self.states.add(hashlib.blake2b(repr(what).encode('utf-8', 'surrogatepass'), digest_size=6).hexdigest())

    def event(self, what):
        self.digest.update(repr(what).encode('utf-8', 'surrogatepass'))

    def data(self):
        return {'n': self.n, 'faults': self.faults, 'probes': self.probes, 'states': sorted(self.states), 'digest': self.digest.hexdigest(),
                'nontrivial': self.nontrivial, 'shape': self.shape, 'findings': self.findings, 'sample': self.sample}


def dumps(x):
    return json.dumps(x, ensure_ascii=True)


def isolated(fn, *args, cpu=CPU_S, wall=WALL_S):
    """Run fn(*args) in a forked child; returns its JSON result, or {'died': ...}"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            hard = resource.getrlimit(resource.RLIMIT_CPU)[1]
            if hard == resource.RLIM_INFINITY:      # not within another run
                resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                out = fn(*args)
            except BaseException as e:
                out = {'harness': traceback.format_exc()[-3000:]}
                if escaped(e):
                    out['escape'] = type(e).__name__
            sys.settrace(None)
            data = dumps(out).encode()
            while data:
                data = data[os.write(w, data):]
            code = 0
        except BrokenPipeError:
            pass
        except BaseException:
            os.write(2, traceback.format_exc().encode())
        finally:
            os._exit(code)
    os.close(w)
    chunks, until = [], monotonic() + wall
    while True:
        left = until - monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return {'died': 'wall'}
        c = os.read(r, 1 << 20)
        if not c:
            break
        chunks.append(c)
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(status):
        return {'died': 'cpu' if os.WTERMSIG(status) == signal.SIGXCPU else 'signal %d' % os.WTERMSIG(status)}
    if os.WEXITSTATUS(status):
        return {'died': 'exit %d' % os.WEXITSTATUS(status)}
    out = json.loads(b''.join(chunks))
    if isinstance(out, dict) and 'escape' in out and 'harness' in out:
        raise Violation('escape:' + out['escape'], 'in a process of its own: ' + out['harness'][-1500:])
    return out


def escaped(e):
    """an exception nobody expected came out of the library"""
    from . import trace
    tb, inside = e.__traceback__, False
    while tb is not None and trace.ROOT:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(trace.ROOT):
            inside = True
        elif name.startswith(HOME):
            inside = False
        tb = tb.tb_next
    return isinstance(e, Exception) and inside


def execute(check, plan, keep_plan=False):
    """in the child: run one plan"""
    gc.disable()
    from .trace import Deadlock, Stuck, clock, quiet
    quiet()
    random.seed(0)
    plan = json.loads(dumps(plan))      # what a replay file would hold
    st = Stats()
    out = {}
    try:
        check.run(plan, st)
    except Violation as v:
        out['violation'] = {'cls': v.cls, 'msg': v.msg[:4000]}
    except Stuck:
        out['violation'] = {'cls': 'nontermination', 'msg': 'the step budget of the run is used up'}
    except Deadlock:
        out['violation'] = {'cls': 'deadlock', 'msg': 'every thread waits for a lock'}
    except Exception as e:
        if not escaped(e):
            raise
        sys.settrace(None)
        out['violation'] = {'cls': 'escape:' + type(e).__name__, 'msg': traceback.format_exc()[-2000:]}
    sys.settrace(None)
    if clock.looks:
        st.fault('clock jump', clock.looks)
    out['stats'] = st.data()
    if keep_plan or 'violation' in out:
        out['plan'] = plan
    return out


def settle(result, plan):
    """an exhausted CPU budget is a violation: runs take milliseconds"""
    if result.get('died') == 'cpu':
        return {'violation': {'cls': 'nontermination', 'msg': 'a run that takes milliseconds used %d s of CPU' % CPU_S}, 'plan': plan}
    if str(result.get('died', '')).startswith('signal'):
        return {'violation': {'cls': 'died', 'msg': 'the process died: %s' % result['died']}, 'plan': plan}
    return result


def rng_for(seed, prop, i):
    return random.Random('%s:%s:%s' % (seed, prop, i))


def seeded(check, seed, i, tier):
    plan = draw(check, seed, i, tier)
    out = execute(check, plan)
    if 'violation' not in out and i < 3 and out['stats']['sample'] is None:
        out['stats']['sample'] = brief_plan(plan)
    return out


def brief_plan(plan):
    s = dumps(plan)
    return plan if len(s) < 3000 else {'plan (cut)': s[:3000]}


def draw(check, seed, i, tier):
    fixed = check.seeds(i) if hasattr(check, 'seeds') else None
    return fixed if fixed is not None else check.plan(rng_for(seed, check.ID, i), tier)


def planned(check, seed, i, tier):
    return {'plan': draw(check, seed, i, tier)}


def children_cpu():
    u = resource.getrusage(resource.RUSAGE_CHILDREN)
    return u.ru_utime + u.ru_stime


def worker(check, seed, tier, indices, out, deadline):
    """runs its indices one after another, a JSON line per run"""
    for i in indices:
        if monotonic() > deadline:
            break
        before = children_cpu()
        res = isolated(seeded, check, seed, i, tier)
        res['cpu'] = round(children_cpu() - before, 3)
        if res.get('died') in ('cpu',) or str(res.get('died', '')).startswith('signal'):
            res = settle(res, isolated(planned, check, seed, i, tier).get('plan'))
        if 'stats' in res and 'violation' not in res and i % 40 == 7:
            again = isolated(seeded, check, seed, i, tier)
            res['stats']['n']['determinism_pairs'] = 1
            if again.get('stats', {}).get('digest') != res['stats']['digest'] or 'violation' in again:
                res['diverged'] = True
        res['i'] = i
        out.write(dumps(res) + '\n')
        out.flush()
    out.close()


def run_all(check, seed, tier, runs, wall):
    """the main batch; returns (aggregate, violations, problems)"""
    deadline = monotonic() + wall
    pipes, pids = [], []
    for k in range(WORKERS):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for fd in pipes:
                    os.close(fd)
                worker(check, seed, tier, range(k, runs, WORKERS), os.fdopen(w, 'w'), deadline)
                os._exit(0)
            except BaseException:
                os.write(2, traceback.format_exc().encode())
                os._exit(4)
        os.close(w)
        pipes.append(r)
        pids.append(pid)
    agg = {'runs': 0, 'n': {}, 'faults': {}, 'probes': {}, 'states': set(), 'shapes': set(), 'nontrivial': set(), 'samples': [], 'findings': {}, 'slowest': (0, None)}
    violations, problems = [], []
    buffers = {r: b'' for r in pipes}
    open_, stop_at = set(pipes), None
    while open_:
        ready, _, _ = select.select(list(open_), [], [], 1.0)
        for r in ready:
            c = os.read(r, 1 << 20)
            if not c:
                open_.discard(r)
                continue
            *lines, buffers[r] = (buffers[r] + c).split(b'\n')
            for line in lines:
                absorb(json.loads(line), agg, violations, problems)
        now = monotonic()
        if violations and stop_at is None:
            stop_at = now + 2
        if (stop_at is not None and now > stop_at) or now > deadline + WALL_S:
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            break
    for r in pipes:
        os.close(r)
    for p in pids:
        status = os.waitpid(p, 0)[1]
        if status and stop_at is None:
            problems.append('a worker ended with status %d' % status)
    return agg, violations, problems


def absorb(res, agg, violations, problems):
    if 'violation' in res:
        violations.append(res)
    if 'harness' in res:
        problems.append('run %d: %s' % (res['i'], res['harness']))
    if 'died' in res:
        problems.append('run %d died: %s' % (res['i'], res['died']))
    if res.get('diverged'):
        problems.append('run %d is not deterministic' % res['i'])
    st = res.get('stats')
    if not st:
        return
    agg['runs'] += 1
    agg['slowest'] = max(agg['slowest'], (res.get('cpu', 0), res.get('i')))
    for k in ('n', 'faults', 'probes'):
        for name, v in st[k].items():
            agg[k][name] = agg[k].get(name, 0) + v
    agg['states'].update(st['states'])
    if st['nontrivial']:
        agg['nontrivial'].add(st['shape'] or st['digest'])
    if st['sample'] is not None and len(agg['samples']) < 3:
        agg['samples'].append(st['sample'])
    for f in st['findings']:
        agg['findings'].setdefault(f['id'], (f, res.get('i')))


def minimise(check, plan, cls, wall=60):
    """shrink while the same violation class persists"""
    until = monotonic() + wall
    tried = 0
    slow = cls in ('nontermination', 'died')
    progress = True
    while progress and monotonic() < until:
        progress = False
        batch = []
        for cand in check.shrink(plan):
            batch.append(cand)
            if len(batch) < WORKERS:
                continue
            hit = first_hit(check, batch, cls, 3 if slow else CPU_S)
            tried += len(batch)
            batch = []
            if hit is not None:
                plan, progress = hit, True
                break
            if monotonic() > until:
                return plan, tried
        if not progress and batch:
            hit = first_hit(check, batch, cls, 3 if slow else CPU_S)
            tried += len(batch)
            if hit is not None:
                plan, progress = hit, True
    return plan, tried


def first_hit(check, batch, cls, cpu):
    """try candidates in parallel, take the first (in order) that still fails the same way"""
    kids = []
    for cand in batch:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            res = settle(isolated(execute, check, cand, cpu=cpu, wall=60), cand)
            os.write(w, b'1' if res.get('violation', {}).get('cls') == cls else b'0')
            os._exit(0)
        os.close(w)
        kids.append((pid, r))
    hits = []
    for pid, r in kids:
        hits.append(os.read(r, 1) == b'1')
        os.close(r)
        os.waitpid(pid, 0)
    for cand, hit in zip(batch, hits):
        if hit:
            return cand
    return None


# ------------------------------------------------------------------------------------------------- shrinking helpers

def drop_chunks(items):
    """the list with ever smaller chunks removed"""
    n = len(items)
    size = n
    while size >= 1:
        for at in range(0, n, size):
            yield items[:at] + items[at + size:]
        size //= 2


def with_(plan, path, value):
    """a copy of plan with the value at path (keys / indices) replaced"""
    if not path:
        return value
    head, rest = path[0], path[1:]
    if isinstance(plan, list):
        return [with_(x, rest, value) if i == head else x for i, x in enumerate(plan)]
    return {**plan, head: with_(plan[head], rest, value)}


def shrink_list(plan, *path):
    cur = plan
    for p in path:
        cur = cur[p]
    for smaller in drop_chunks(cur):
        yield with_(plan, path, smaller)


def shrink_text(plan, *path):
    cur = plan
    for p in path:
        cur = cur[p]
    lines = cur.split('\n')
    if len(lines) > 1:
        for smaller in drop_chunks(lines):
            if len(smaller) != len(lines):
                yield with_(plan, path, '\n'.join(smaller))
    if len(cur) <= 400:
        for smaller in drop_chunks(cur):
            yield with_(plan, path, smaller)


# ------------------------------------------------------------------------------------------------- one check

def load_check(prop):
    lib.load()
    return importlib.import_module('checks.' + prop.lower())


def known_findings(prop):
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        return {e['id']: e for e in json.load(f)['findings'] if e['property'] == prop and e['status'] == 'known'}


def write_replay(prop, seed, i, plan, violation, note):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join('replays', '%s-%s-%s.json' % (prop, seed, i))
    with open(os.path.join(HERE, path), 'w') as f:
        json.dump({'property': prop, 'verif_seed': seed, 'run': i, 'violation': violation, 'note': note, 'plan': plan}, f, indent=1)
        f.write('\n')
    return path


def replay(path):
    with open(path if os.path.isabs(path) else os.path.join(HERE, path)) as f:
        d = json.load(f)
    check = load_check(d['property'])
    res = settle(isolated(execute, check, d['plan']), d['plan'])
    return d, res


def main_check(prop, tier, seed):
    t0 = monotonic()
    check = load_check(prop)
    runs, wall = check.RUNS[tier]
    if os.environ.get('VERIF_RUNS'):
        runs = int(os.environ['VERIF_RUNS'])
    print('%s seed=%d tier=%s runs=%d' % (prop, seed, tier, runs), flush=True)
    agg, violations, problems = run_all(check, seed, tier, runs, wall)
    known = known_findings(prop)
    for fid, (f, i) in sorted(agg['findings'].items()):
        if fid in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[fid]['what']))
        else:
            violations.append({'i': i, 'violation': {'cls': f['cls'], 'msg': f['msg']}, 'plan': f['plan']})
    took = monotonic() - t0
    write_evidence(check, tier, seed, agg, len(violations), took)
    if violations:
        v = min(violations, key=lambda v: v['i'])
        i, cls, msg, plan = v['i'], v['violation']['cls'], v['violation']['msg'], v['plan']
        small, tried = minimise(check, plan, cls) if plan is not None else (plan, 0)
        res = settle(isolated(execute, check, small), small) if small is not None else {}
        note = 'minimised in %d trials' % tried
        if res.get('violation', {}).get('cls') != cls:
            small, note = plan, 'not minimised'
        else:
            msg = res['violation']['msg']
        path = write_replay(prop, seed, i, small, {'cls': cls, 'msg': msg}, note)
        print('run %d: %s: %s' % (i, cls, msg))
        print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
        return 1
    if problems:
        print('%d problems in the machinery, the first: %s' % (len(problems), problems[0]))
        return 2
    if agg['runs'] == 0:
        print('nothing was run')
        return 2
    print('held on %d runs (%d distinct and non-trivial), %.1f s' % (agg['runs'], len(agg['nontrivial']), took))
    return 0


def write_evidence(check, tier, seed, agg, violations, took):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    n = agg['n']
    cov = {
        'evaluations': n.get('evaluations', 0) or agg['runs'],
        'distinct_nontrivial': len(agg['nontrivial']),
        'rule': check.RULE,
        'samples': agg['samples'],
        'simulated_runs': agg['runs'],
        'seeds': 'run i draws everything from random.Random("%d:%s:i")' % (seed, check.ID),
        'runs_per_hour': int(agg['runs'] / max(took, .001) * 3600),
        'slowest_run': {'cpu_s': agg['slowest'][0], 'run': agg['slowest'][1], 'limit_s': CPU_S},
        'simulated_time': 'steps, not seconds: nothing here reads a clock',
        'simulated_steps': n.get('steps', 0),
        'fault_kinds_fired': dict(sorted(agg['faults'].items())),
        'distinct_states': len(agg['states']),
        'states_measure': check.STATES,
        'probes': dict(sorted(agg['probes'].items())),
        'counters': dict(sorted(n.items())),
        'ran_real_code': check.REAL,
        'ran_stub': check.STUB,
    }
    e = {'property': check.ID, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
         'assumptions': check.ASSUMPTIONS, 'wall_s': round(took, 2), 'violations': violations}
    with open(os.path.join(HERE, 'evidence', check.ID + '.json'), 'w') as f:
        json.dump(e, f, indent=1, ensure_ascii=True)
        f.write('\n')
