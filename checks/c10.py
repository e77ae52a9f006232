"""C10: an interrupted operation leaves the document fully usable"""
import math

from sim import core, ops, trace
from sim.author import EFFECT_FREE, METHODS, Author, prune
from sim.core import Violation
from sim.walk import walk

from . import history

ID = 'C10'
RUNS = {'quick': (5000, 300), 'thorough': (80000, 1500)}
RULE = ('one case = one operation (parse, lookup, read, take, touch, setting, report, assertion) cut short at a drawn fraction of its events (in a third of the runs: at every '
        'event, or evenly spread ones, each on a fresh document) by an asynchronous exception, '
        'or starved of stack, possibly several times, then repeated at once, later, or (where it has no effect) never; every answer of the history and of a complete '
        'reading afterwards is compared with the model, which never saw the attempt. A run is non-trivial when at least one interruption hit; distinct by history and '
        'points of interruption')
STATES = 'distinct (operation, function-local point of interruption in tenths of the operation, exception) hit'
REAL = history.REAL
STUB = history.STUB + ['signals, timeouts, cancellation, memory exhaustion: exceptions raised by the trace function at a traced event inside enolib',
                       'stack exhaustion: a lowered recursion limit']
ASSUMPTIONS = history.ASSUMPTIONS + ['interruptions arrive between bytecode instructions (or, in line mode, at calls, lines and returns) of enolib\'s own code']
EXC = ['KeyboardInterrupt', 'KeyboardInterrupt', 'SimTimeout', 'SimCancel', 'MemoryError', 'SystemExit', 'GeneratorExit', 'StopIteration']
trace.ASYNC.setdefault('GeneratorExit', GeneratorExit)
trace.ASYNC.setdefault('StopIteration', StopIteration)
PURE = ('value', 'key', 'comment', 'raw', 'err', 'yield', 'repr')


def cut(rng, opcodes):
    if rng.random() < .15:
        return {'starve': rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 17, 20, 25, 30])}
    r = rng.random()
    if rng.random() < .25:      # the last moments, when things are being published
        r = 1 - r * .1
    return {'r': round(r, 4), 'exc': rng.choice(EXC[:6]), 'opcodes': rng.random() < opcodes}


def small(rng):
    return history.text(rng, far=False, width=rng.choice([1, 2, 3]), depth=rng.choice([0, 0, 1, 2]), copy=rng.choice([.3, .6, .9]), conts=rng.choice([0, .6]), comment=rng.choice([0, .6]), free=0, long=0)


def sweep_plan(rng):
    """one operation of a short history, cut short at every one of its events (or evenly spread ones)"""
    docs = [history.doc(rng, small(rng))]
    a = Author(rng, docs, inner_parses=0, missing=.05, loaders=['tag', 'id', 'none', 'int', 'fail'], weights=rng.choice([{}, {'raw': 30}, {'many': 15, 'nav': 15}, {'err': 15}, {'assert': 15, 'touch': 5}]))
    a.parse('c', 0)
    for _ in range(rng.choice([0, 1, 1, 2, 4, 6])):
        if a.step('c') is None:
            break
    prune(a.ops)
    a.ops[0]['as'] = a.ops[0].get('as', 'root')
    method = METHODS.get(kind(a, a.ops[-1]), {}).get(a.ops[-1]['m'])
    return {'docs': docs, 'ops': a.ops, 'walk': rng.randrange(1 << 30),
            'sweep': {'exc': rng.choice(EXC[:6]), 'opcodes': rng.random() < .3, 'phase': round(rng.random(), 3), 'points': rng.choice([20, 40, 80]), 'span': [0, 1],
                      'abandon': bool(method) and method[0] in EFFECT_FREE and rng.random() < .4}}


def sweep(plan, st):
    s, op = plan['sweep'], plan['ops'][-1]

    def prepared():
        lk = ops.Lockstep(plan['docs'])
        for o in plan['ops'][:-1]:
            lk.do(o)
        return lk

    lk = prepared()
    if not lk.model.has(op) or not lk.real.has(op):
        return
    n = core.isolated(events, lk, op, s['opcodes']).get('n')
    if not n:
        return
    ks = range(1, n + 1)
    if n > s['points']:
        ks = sorted({1 + int((i + s['phase']) * n / s['points']) for i in range(s['points'])})
    hits = 0
    for k in ks[int(s['span'][0] * len(ks)):math.ceil(s['span'][1] * len(ks))]:
        lk = prepared()
        out = interrupt(lk, op, {'k': k, 'exc': s['exc'], 'opcodes': s['opcodes'], 'r': k / (n + 1)}, st)
        if out is not None:
            lk.do(op, real=out)
        else:
            hits += 1
            if not s['abandon']:
                lk.do(op)
        afterwards(plan, lk)
        st.add('steps', lk.done)
        st.add('evaluations', lk.done)
        st.event(lk.digest.hexdigest())
    st.add('sweeps')
    st.nontrivial = hits > 0


def afterwards(plan, lk):
    root = plan['ops'][0].get('as') if plan['ops'] and plan['ops'][0]['m'] == 'parse' else None
    if root and root in lk.model.h:
        lk.do({'m': 'assert_all_touched', 'on': root})
        lk.do({'m': 'raw', 'on': root})
        walk(lk, root, plan['walk'])
        lk.do({'m': 'assert_all_touched', 'on': root})


def plan(rng, tier):
    if rng.random() < .3:
        return sweep_plan(rng)
    docs = [history.doc(rng, history.text(rng, far=False, **rng.choice([{}, {}, {'copy': .5, 'depth': 2}, {'conts': .7, 'comment': .6}, {'width': 3, 'depth': 1}])))]
    a = Author(rng, docs, inner_parses=0, loaders=['tag', 'id', 'none', 'int', 'fail', 'raise:KeyError'], weights=rng.choice([{}, {'raw': 8}, {'strict': 4, 'assert': 5, 'touch': 4}, {'many': 15, 'nav': 15}]))
    p, late, opcodes = rng.choice([.15, .4, .8]), rng.choice([0, .1, .3]), rng.choice([0, .5, 1])
    cuts = lambda: [cut(rng, opcodes) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    a.parse('c', 0)
    if rng.random() < .3:
        a.ops[-1]['cuts'] = cuts()
    for _ in range(rng.choice([4, 8, 15, 25])):
        if rng.random() < .06:
            a.emit('c', {'m': 'lookup', 'doc': 0, 'index': rng.randrange(len(docs[0]['text']) + 1)})
        elif rng.random() < late:
            op = a.draw('c')
            if op is None:
                break
            a.ops.append({'m': 'attempt', 'op': op, 'cuts': cuts()})
            for _ in range(rng.choice([1, 2, 4])):
                a.step('c', only=PURE)
            a.emit('c', op)
            continue
        elif a.step('c') is None:
            break
        op = a.ops[-1]
        if rng.random() < p:
            op['cuts'] = cuts()
            method = METHODS.get(kind(a, op), {}).get(op['m'])
            if method and method[0] in EFFECT_FREE and rng.random() < .4:
                op['abandon'] = True
    prune([o for o in a.ops if o['m'] != 'attempt'])
    a.ops[0]['as'] = a.ops[0].get('as', 'root')
    return {'docs': docs, 'ops': a.ops, 'walk': rng.randrange(1 << 30)}


def kind(a, op):
    try:
        return type(a.model.ref(op['on'])).__name__
    except (ops.Skip, KeyError):
        return None


def events(lk, op, opcodes):
    return {'n': trace.count(lambda: lk.real.call(op), opcodes)[1]}


def interrupt(lk, op, c, st):
    """one attempt; returns its outcome if it ran to its end"""
    if 'starve' in c:
        how, out = trace.starve(lambda: lk.real.call(op), c['starve'])
        if (how == 'raise' and isinstance(out, RecursionError)) or (how == 'value' and out.kind == 'other' and isinstance(out.v, RecursionError)):
            st.fault('stack exhausted')
            st.state(op['m'], 'stack', c['starve'])
            return None
        if how == 'raise':
            raise out
        st.add('not_hit')
        return out
    if 'k' not in c:
        n = core.isolated(events, lk, op, c['opcodes']).get('n')
        if n is None:
            raise RuntimeError('counting %s' % ops.describe(op))
        k = 1 + int(c['r'] * n)
    else:
        k = c['k']
    hit, how, out = trace.inject(lambda: lk.real.call(op), k, lambda: trace.ASYNC[c['exc']]('injected'), c['opcodes'])
    if how == 'raise':
        raise out
    if not hit.fired:
        st.add('not_hit')
        return out
    if hit.swallowed:       # the interpreter does not deliver exceptions while it disposes of a generator
        st.add('swallowed_by_the_interpreter')
        return out
    if out.v is not hit.error:
        raise Violation('unchanged', '%s interrupted by %s at event %d: the caller sees %s' % (ops.describe(op), c['exc'], k, ops.show(out)))
    st.fault(c['exc'] + (' between instructions' if c['opcodes'] else ''))
    st.state(op['m'], int(c.get('r', 0) * 10), c['exc'])
    st.add('interrupted')
    return None


def run(plan, st):
    if 'sweep' in plan:
        return sweep(plan, st)
    lk = ops.Lockstep(plan['docs'])
    hits = 0
    for op in plan['ops']:
        attempt = op['m'] == 'attempt'
        todo = op['op'] if attempt else op
        done = False
        for c in op.get('cuts', ()):
            if not lk.model.has(todo) or not lk.real.has(todo):
                break
            out = interrupt(lk, todo, c, st)
            if out is None:
                hits += 1
                continue
            if attempt and todo.get('m') in ops.SPECIAL:
                break
            lk.do(todo, real=out)
            done = True
            break
        if done or attempt or op.get('abandon'):
            continue
        lk.do(op)
    afterwards(plan, lk)
    st.add('steps', lk.done)
    st.add('evaluations', lk.done)
    st.digest = lk.digest
    st.nontrivial = hits > 0


def shrink(plan):
    if 'sweep' in plan:
        s = plan['sweep']
        a, b = s['span']
        if b - a > .004:
            for span in ([a, (a + b) / 2], [(a + b) / 2, b]):
                yield {**plan, 'sweep': {**s, 'span': span}}
        if len(plan['ops']) < 2:
            return
        for rest in core.drop_chunks(plan['ops'][:-1]):
            yield {**plan, 'ops': rest + plan['ops'][-1:]}
    else:
        yield from core.shrink_list(plan, 'ops')
    for i, op in enumerate(plan['ops']):
        if 'cuts' in op:
            yield core.with_(plan, ('ops', i), {k: v for k, v in op.items() if k not in ('cuts', 'abandon')})
            if len(op['cuts']) > 1:
                for c in op['cuts']:
                    yield core.with_(plan, ('ops', i, 'cuts'), [c])
            for j, c in enumerate(op['cuts']):
                if c.get('opcodes'):
                    yield core.with_(plan, ('ops', i, 'cuts', j, 'opcodes'), False)
    for i in range(len(plan['docs'])):
        yield from core.shrink_text(plan, 'docs', i, 'text')
