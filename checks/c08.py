"""C08: concurrent readers of one document all get the right answers"""
import math

from sim import core, ops, trace
from sim.author import EFFECT_FREE, Author
from sim.core import Violation, lib
from sim.walk import walk

from . import c10, history, threads

ID = 'C08'
RUNS = {'quick': (5000, 300), 'thorough': (80000, 1500)}
RULE = ('one case = one parsed document whose parts nobody has accessed yet, read by two to four threads under one seeded schedule, some of them cut off by an '
        'asynchronous exception (in a third of the runs: the first of two suspended at each of its events), and then read once more; every answer is compared with that of a lone reader in a fresh process. A run is non-trivial when the '
        'schedule switched threads at least twice; distinct by text, programs and executed schedule')
STATES = 'distinct executed schedules (sequence of thread and number of events)'
REAL, STUB = threads.REAL, threads.STUB
ASSUMPTIONS = threads.ASSUMPTIONS + ['readers agree on what they take an ambiguous element as, and leave touch assertions and settings to others (see DESIGN.md)']

WEIGHTS = {'assert': 0, 'strict': 0, 'raw': 4, 'many': 9, 'err': 4, 'parent': 0, 'value': 9, 'comment': 4}


def audit(rng, n=None):
    """somebody read part of the document; now several look, at once, whether all of it was read, and at what the parts are: none of that changes anything"""
    sweep = rng.random() < .4
    docs = [history.doc(rng, c10.small(rng) if sweep else history.text(rng, far=False, **rng.choice([{}, {'copy': .4}, {'width': 3, 'depth': 2}])))]
    a = Author(rng, docs, inner_parses=0, missing=.1, weights={'strict': 0, 'touch': 4, 'nav': 12, 'many': 12, 'assert': 0}, loaders=['tag', 'id', 'none'])
    root = a.parse('main', 0)
    a.ops[-1]['as'] = 'root'
    a.model.h['root'], a.model.doc_of['root'] = root.v, 0
    if root.kind == 'value':
        for _ in range(rng.choice([0, 2, 5, 10, 20])):
            a.step('main')
        if rng.random() < .6:       # most of it, or all
            walk(Recorder(a), 'root', rng.randrange(1 << 30), leave=rng.choice([0, .03, .1, .3]))
    before = a.ops[1:]
    a.weights = {**a.weights, 'assert': rng.choice([8, 30])}
    n = n or (2 if sweep else rng.choice([2, 2, 3, 4]))
    programs = []
    for c in range(n + 1):
        a.pool[c] = list(a.pool['main'])
        a.ops = []
        for _ in range(rng.choice([1, 1, 2, 3]) if sweep else rng.choice([1, 2, 4, 8])):
            if rng.random() < .5:
                a.emit(c, {'m': 'assert_all_touched', 'on': 'root'})
            else:
                a.step(c, only=EFFECT_FREE)
        programs.append(a.ops)
    if rng.random() < .4:
        programs[1:-1] = [programs[0]] * (n - 1)
    threads.prune(before + [o for p in programs for o in p])
    opcodes = rng.random() < .4 and len(docs[0]['text']) < 1500
    extra = {'sweep': {'points': rng.choice([20, 40, 80]), 'phase': round(rng.random(), 3), 'span': [0, 1]}} if sweep else {}
    return {**extra, 'docs': docs, 'register': [], 'before': before, 'programs': programs,
            'segments': threads.segments(rng, n, opcodes), 'kills': threads.kills(rng, n, opcodes), 'opcodes': opcodes}


class Recorder:
    """what walk() does, noted by the scratch model"""
    def __init__(self, author):
        self.a, self.model = author, author.model

    def do(self, op):
        if self.model.has(op):
            self.a.ops.append(op)
            return self.model.call(op)


def plan(rng, tier):
    return audit(rng) if rng.random() < .15 else readers(rng)


def readers(rng, n=None):
    sweep = rng.random() < .3
    n = n or (2 if sweep else rng.choice([2, 2, 3, 4]))
    docs = [history.doc(rng, c10.small(rng) if sweep else
                        history.text(rng, far=False, **rng.choice([{}, {}, {'copy': .4}, {'conts': .6, 'comment': .6}, {'width': 3, 'depth': 2}])))]
    a = Author(rng, docs, inner_parses=0, missing=.1, weights={**WEIGHTS, **rng.choice([{}, {'raw': 40}, {'raw': 40}, {'many': 20, 'nav': 20}] if sweep else [{}, {}, {'raw': 15}, {'many': 20, 'nav': 20}])},
               loaders=['tag', 'id', 'none', 'int', 'fail'], names=rng.choice([(), ('n',)]))
    if a.names:
        a.emit(None, {'m': 'register', 'names': {'n': {'fn': 'loader', 'id': 1, 'do': rng.choice(['tag', 'int'])}}})
    a.pool['main'] = []
    root = a.parse('main', 0)
    clients = ['t%d' % t for t in range(n)] + ['last']
    for c in clients:
        a.pool[c] = [('root', 'Section', root.v.node)]
    a.ops[-1]['as'] = 'root'
    a.model.h['root'], a.model.doc_of['root'] = root.v, 0
    same = rng.random() < (.6 if sweep else .3)        # every thread reads the same things
    steps = rng.choice([1, 1, 2, 3]) if sweep else rng.choice([3, 6, 12, 25])
    for c in clients:
        if same and c != clients[0] and c != 'last':
            continue
        for _ in range(steps if c != 'last' else 15):
            if a.step(c) is None:
                break
    threads.prune([o for o in a.ops if o['m'] != 'parse'])
    by = {c: [o for o in a.ops if o.get('c') == c] for c in clients}
    if same:
        for c in clients[1:-1]:
            by[c] = by[clients[0]]
    opcodes = rng.random() < .4 and len(docs[0]['text']) < 1500
    extra = {}
    if sweep:       # the first reader suspended at every one of its events, or evenly spread ones, while the second does all it wants
        extra = {'sweep': {'points': rng.choice([20, 40, 80]), 'phase': round(rng.random(), 3), 'span': [0, 1]}}
    return {**extra, 'docs': docs, 'register': [o for o in a.ops if o['m'] == 'register'], 'programs': agree(docs, [by[c] for c in clients]),
            'segments': threads.segments(rng, n, opcodes), 'kills': threads.kills(rng, n, opcodes), 'opcodes': opcodes}


def opened(plan):
    w = ops.Real(plan['docs'])
    for op in plan['register']:
        w.call(op)
    root = lib.parse(plan['docs'][0]['text'], **ops.options(plan['docs'][0]))
    w.h['root'], w.doc_of['root'] = root, 0
    for op in plan.get('before', ()):
        if w.has(op):
            w.call(op)
    return [(name, h, 0) for name, h in w.h.items()], w


def alone(plan, t):
    handles, _w = opened(plan)
    th = threads.Thread(t, plan['docs'], plan['programs'][t], False, handles)
    th.run()
    return th.seen


def conflicts(docs, programs, order):
    """(program, op) that ask for an element as something others have taken it as something else"""
    m = ops.Model(docs)
    root = m.call({'m': 'parse', 'doc': 0})
    out = []
    for p in order:
        m.h, m.doc_of = {'root': root.v}, {'root': 0}
        for i, op in enumerate(programs[p]):
            if root.kind == 'value' and m.has(op) and m.call(op).kind == 'type':
                out.append((p, i))
    return out


def agree(docs, programs, times=1):
    """drop what readers disagree on; whoever comes first or last"""
    while True:
        drop = set(conflicts(docs, programs, list(range(len(programs))) * times) + conflicts(docs, programs, list(range(len(programs) - 1, -1, -1)) * times))
        if not drop:
            return programs
        programs = [[op for i, op in enumerate(p) if (t, i) not in drop] for t, p in enumerate(programs)]


def run(plan, st):
    programs = plan['programs']
    if 'before' not in plan and agree(plan['docs'], programs) is not programs:       # only minimised plans come to this
        return
    want = [core.isolated(alone, plan, t) for t in range(len(programs))]
    for w in want:
        if not isinstance(w, list):
            raise RuntimeError('a thread alone: %r' % w)
    if 'sweep' not in plan:
        return together(plan, want, st)
    s = plan['sweep']
    n = core.isolated(events, plan).get('n', 0)
    ks = range(1, n + 1)
    if n > s['points']:
        ks = sorted({1 + int((i + s['phase']) * n / s['points']) for i in range(s['points'])})
    for k in ks[int(s['span'][0] * len(ks)):math.ceil(s['span'][1] * len(ks))]:
        together({**plan, 'segments': [[0, k], [1, 1 << 40]], 'kills': {}}, want, st)


def events(plan):
    handles, _w = opened(plan)
    th = threads.Thread(0, plan['docs'], plan['programs'][0], False, handles)
    return {'n': trace.count(th.run, plan['opcodes'])[1]}


def together(plan, want, st):
    programs = plan['programs']
    try:
        handles, _w = opened(plan)
    except lib.ParseError:
        return
    ths = [threads.Thread(t, plan['docs'], p, False, handles) for t, p in enumerate(programs)]
    s = threads.together(plan, ths[:-1], st)
    ths[-1].run()
    for th in ths:
        seen = threads.plain(th.seen)
        expected = want[th.t] if th.cut is None else want[th.t][:th.cut]
        who = 'reader %d' % th.t if th is not ths[-1] else 'a later reader'
        for i, (x, y) in enumerate(zip(expected, seen)):
            st.add('evaluations')
            if x != y:
                raise Violation('reader', '%s, op %s: alone %s, together %s' % (who, ops.describe(th.program[i]), threads.brief(x), threads.brief(y)))
        if len(expected) != len(seen):
            raise Violation('reader', '%s: did %d of %d operations' % (who, len(seen), len(expected)))
        st.event(seen)
    st.nontrivial = st.nontrivial or s.switches >= 2


def shrink(plan):
    if 'sweep' in plan:
        a, b = plan['sweep']['span']
        if b - a > .004:
            for span in ([a, (a + b) / 2], [(a + b) / 2, b]):
                yield {**plan, 'sweep': {**plan['sweep'], 'span': span}}
    if plan.get('before'):
        yield from core.shrink_list(plan, 'before')
    yield from threads.shrink(plan, *[('programs', t) for t in range(len(plan['programs']))])
