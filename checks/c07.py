"""C07: threads working on separate documents never influence each other"""
from sim import core, ops, trace
from sim.author import Author
from sim.core import Violation

from . import history, threads

ID = 'C07'
RUNS = {'quick': (8000, 300), 'thorough': (80000, 1500)}
RULE = ('one case = two to four threads, each with its own document (half of the time one text with different locale, reporter or source), running their own '
        'parse / query / touch / validate / report / lookup programs under one seeded schedule, some of them cut off by an asynchronous exception; in every eighth case one operation of a thread is preempted at many points for another thread; each thread\'s '
        'observations are compared with the same program alone in a fresh process. A run is non-trivial when the schedule switched threads at least twice; '
        'distinct by programs, texts and the schedule that was executed')
STATES = 'distinct executed schedules (sequence of thread and number of events)'
REAL, STUB, ASSUMPTIONS = threads.REAL, threads.STUB, threads.ASSUMPTIONS


def sweep(rng):
    """one operation of a thread, preempted at many points for the whole of another thread, or for a part of it"""
    docs, programs = [], []
    shape = rng.choice([{'depth': 3, 'width': 2}, {'depth': 2, 'width': 2}, {'width': 3, 'depth': 1}, {'conts': .6, 'comment': .6}, {'copy': .5, 'depth': 2, 'width': 2}])
    weights = rng.choice([{'err': 16, 'assert': 8, 'nav': 22}, {'err': 16, 'assert': 8, 'nav': 22}, {'raw': 12}, {}])
    for t in range(2):
        docs.append(history.doc(rng, docs[0]['text'] if t and rng.random() < .4 else threads.text(rng, **shape)))
    for t in range(2):
        a = Author(rng, docs, inner_parses=0, missing=.3, loaders=['tag', 'none', 'fail', 'raise:KeyError'], weights=weights)
        a.parse('c', t)
        for _ in range(rng.choice([1, 2, 4, 8])):
            if a.step('c') is None:
                break
        programs.append(threads.prune(a.ops))
    if not programs[0]:
        return None
    i = rng.choice([0, len(programs[0]) - 1, len(programs[0]) - 1, rng.randrange(len(programs[0]))])
    opcodes = rng.random() < .5
    return {'docs': docs, 'programs': programs, 'segments': [], 'kills': {}, 'opcodes': opcodes, 'scribble': 0, 'share': rng.random() < .5,
            'sweep': {'op': i, 'points': rng.choice([15, 30]), 'phase': round(rng.random(), 3), 'before': rng.choice([0, 0, 0, round(rng.random(), 3)]), 'burst': rng.choice([1, 1, 1, round(rng.random(), 3)])}}


def plan(rng, tier):
    if rng.random() < .12:
        p = sweep(rng)
        if p:
            return p
    n = rng.choice([2, 2, 2, 3, 4])
    texts = [threads.text(rng)]
    docs, programs = [], []
    small = rng.random() < .5
    for t in range(n):
        text = rng.choice(texts) if t and rng.random() < .5 else threads.text(rng, **({'width': 3, 'depth': 1} if small else {}))
        texts.append(text)
        docs.append(history.doc(rng, text))
    for t in range(n):
        a = Author(rng, docs, inner_parses=0, loaders=['tag', 'id', 'none', 'int', 'fail', 'raise:KeyError', 'reenter'], weights={'err': 3, 'raw': 3})
        for _ in range(rng.choice([1, 1, 2])):
            a.parse('c', t)
        for _ in range(rng.choice([2, 5, 12, 25])):
            if rng.random() < .1:
                a.emit('c', {'m': 'lookup', 'doc': t, 'index': rng.randrange(len(docs[t]['text']) + 1)})
            elif rng.random() < .1:
                a.parse('c', t)
            elif a.step('c') is None:
                break
        programs.append(threads.prune(a.ops))
    opcodes = rng.random() < .3 and all(len(d['text']) < 1500 for d in docs)
    return {'docs': docs, 'programs': programs, 'segments': threads.segments(rng, n, opcodes), 'kills': threads.kills(rng, n, opcodes),
            'opcodes': opcodes, 'scribble': rng.choice([0, 0, 1, 2]), 'share': rng.random() < .5}


def alone(plan, t):
    th = threads.Thread(t, threads.shared_strings(plan['docs'], plan['share']), plan['programs'][t], True, scribble=plan['scribble'] if t == 0 else 0)
    if 'sweep' not in plan:
        th.run()
        return th.seen
    counts = []
    for op in th.program:
        n = 0
        if th.world.has(op):
            out, n = trace.count(lambda: th.world.call(op), plan['opcodes'])
            th.seen.append(th.world.norm(out, True))
        else:
            th.seen.append(None)
        counts.append(n)
    return [th.seen, counts]


def run(plan, st):
    want = [core.isolated(alone, plan, t) for t in range(len(plan['programs']))]
    for w in want:
        if not isinstance(w, list):
            raise RuntimeError('a thread alone: %r' % w)
    if 'sweep' not in plan:
        together(plan, want, st)
        return
    s, counts = plan['sweep'], [w[1] for w in want]
    if len(want) < 2 or s['op'] >= len(counts[0]):
        return
    before, n, other = sum(counts[0][:s['op']]), counts[0][s['op']], sum(counts[1])
    st.fault('swept operation')
    for i in range(min(n, s['points'])):
        k = before + 1 + int((i + s['phase']) * n / min(n, s['points']))
        first = int(s['before'] * other)
        segments = [[1, first], [0, k], [1, other if s['burst'] == 1 else 1 + int(s['burst'] * other)], [0, 1 << 40]]
        together({**plan, 'segments': [x for x in segments if x[1]]}, [w[0] for w in want], st)


def together(plan, want, st):
    docs = threads.shared_strings(plan['docs'], plan['share'])
    ths = [threads.Thread(t, docs, p, True, scribble=plan['scribble'] if t == 0 else 0) for t, p in enumerate(plan['programs'])]
    s = threads.together(plan, ths, st)
    for th in ths:
        seen = threads.plain(th.seen)
        expected = want[th.t] if th.cut is None else want[th.t][:th.cut]
        for i, (x, y) in enumerate(zip(expected, seen)):
            st.add('evaluations')
            if x != y:
                raise Violation('interference', 'thread %d, op %s: alone %s, together %s' % (th.t, ops.describe(th.program[i]), threads.brief(x), threads.brief(y)))
        if len(expected) != len(seen):
            raise Violation('interference', 'thread %d: did %d of %d operations' % (th.t, len(seen), len(expected)))
        st.add('handed_out_kept', th.handed.settle())
        st.event(seen)
    st.nontrivial = st.nontrivial or s.switches >= 2


def shrink(plan):
    if 'sweep' in plan and plan['sweep']['before']:
        yield core.with_(plan, ('sweep', 'before'), 0)
    yield from threads.shrink(plan, *[('programs', t) for t in range(len(plan['programs']))])
