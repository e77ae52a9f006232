"""What C07-C09 share: caller threads under the seeded scheduler."""
from sim import core, gen, ops, trace
from sim.author import prune

from . import history

LIMIT = 4_000_000       # events of one run; instructions: five times that
REAL = history.REAL + ['real threads, one runnable at a time']
STUB = ['thread scheduling: the seeded scheduler of sim/trace.py switches at traced events (calls, lines, returns, or single bytecode instructions) inside enolib',
        'callbacks: generated']
ASSUMPTIONS = ['switches happen between bytecode instructions of enolib\'s own code (switches inside C code of the interpreter are atomic under the GIL)',
               'sampling: schedules not drawn were not tried']
KILLS = ['KeyboardInterrupt', 'SimTimeout', 'SimCancel', 'MemoryError', 'SystemExit']


def segments(rng, threads, opcodes):
    """who runs for how many events"""
    style = rng.choice(['fine', 'fine', 'mixed', 'mixed', 'coarse', 'few', 'equal'])
    scale = 6 if opcodes else 1
    out = []
    if style == 'equal':
        q = rng.choice([1, 1, 2, 3, 7, 20]) * scale
        for _ in range(rng.choice([20, 100, 300])):
            for t in range(threads):
                out.append([t, q])
        return out
    for _ in range({'fine': 400, 'mixed': 250, 'coarse': 40, 'few': rng.choice([1, 2, 3, 5])}[style]):
        mean = {'fine': 3, 'mixed': rng.choice([1, 3, 30, 200]), 'coarse': 120, 'few': rng.choice([20, 100, 400, 1500])}[style]
        out.append([rng.randrange(threads), 1 + int(rng.expovariate(1 / mean) * scale)])
    return out


def kills(rng, threads, opcodes, p=.3):
    out = {}
    for t in range(threads):
        if rng.random() < p:
            out[str(t)] = [1 + int(rng.expovariate(1 / rng.choice([20, 200, 1000])) * (6 if opcodes else 1)), rng.choice(KILLS)]
    if len(out) == threads:
        out.pop(rng.choice(sorted(out)))
    return out


def shared_strings(docs, share):
    """equal texts as one object (or as many)"""
    if share:
        seen = {}
        for d in docs:
            d['text'] = seen.setdefault(d['text'], d['text'])
    return docs


class Thread:
    """A client: runs its program in its own world, keeps what it saw"""

    def __init__(self, t, docs, program, identity, handles=(), scribble=0):
        self.handed = ops.Handed(scribble)
        self.t, self.program, self.identity = t, program, identity
        self.world = ops.Real(docs)
        for name, h, doc in handles:
            self.world.h[name], self.world.doc_of[name] = h, doc
        self.seen = []
        self.cut = None         # index of the op a kill hit

    def run(self, scheduler=None):
        for i, op in enumerate(self.program):
            if not self.world.has(op):
                self.seen.append(None)
                continue
            out = self.world.call(op)
            if scheduler is not None and self.t in scheduler.killed:
                self.cut = i
                return
            if scheduler is not None:
                scheduler.muted = True
            self.seen.append(self.world.norm(out, self.identity))
            self.handed.take('thread %d, op %s' % (self.t, ops.describe(op)), op['m'], out)
            if scheduler is not None:
                scheduler.muted = False


def together(plan, threads, st):
    """run the threads under the plan's schedule"""
    s = trace.Scheduler(plan['segments'], LIMIT * (5 if plan['opcodes'] else 1), {int(t): [k[0], trace.ASYNC[k[1]]] for t, k in plan['kills'].items()}, plan['opcodes'])
    s.run([(lambda th: lambda: th.run(s))(th) for th in threads])
    for e in s.escaped.values():
        if isinstance(e, (trace.Stuck, trace.Deadlock)):
            raise e
    for e in s.escaped.values():
        raise e
    for t in s.killed:
        st.fault('interrupted thread')
    st.fault('preemption', s.switches)
    st.add('steps', s.steps)
    st.add('switches', s.switches)
    st.add('switches_inside_operations' if not plan['opcodes'] else 'switches_between_instructions', s.switches)
    st.state(s.trail)
    st.event(s.trail)
    return s


def plain(x):
    """as JSON would carry it"""
    return core.json.loads(core.dumps(x))


def brief(x):
    return core.dumps(x)[:700]


def shrink(plan, *lists):
    yield from core.shrink_list(plan, 'segments')
    for k in plan['kills']:
        yield {**plan, 'kills': {x: y for x, y in plan['kills'].items() if x != k}}
    for path in lists:
        yield from core.shrink_list(plan, *path)
    for i in range(len(plan['docs'])):
        yield from core.shrink_text(plan, 'docs', i, 'text')
        for k in [k for k in plan['docs'][i] if k != 'text']:
            yield core.with_(plan, ('docs', i), {x: y for x, y in plan['docs'][i].items() if x != k})
    for i, seg in enumerate(plan['segments'][:30]):
        if seg[1] > 1:
            yield core.with_(plan, ('segments', i, 1), seg[1] // 2)
            yield core.with_(plan, ('segments', i, 1), seg[1] - 1)


def text(rng, **force):
    if rng.random() < .15:
        return gen.document(rng, gen.Style(rng, **{"far": False, **force}), valid=False)
    return gen.document(rng, gen.Style(rng, **{"far": False, **force}))


__all__ = ['prune']
