"""C24: a handler that runs in the middle of an operation may use the library"""
import math

from sim import core, ops, trace
from sim.author import Author
from sim.core import Violation, lib

from . import c08, c09, history, threads

ID = 'C24'
RUNS = {'quick': (5000, 300), 'thorough': (90000, 1500)}
RULE = ('one case = one program in whose operations, at drawn events, handlers run to their end on top of what is going on (as signal handlers and finalizers do), some '
        'of which then raise so that the operation is cut off and repeated; handlers read the same document, work on documents of their own, or register loaders. Program and '
        'handlers are each compared with themselves alone in a fresh process (registrations: with the model). In a quarter of the runs one operation is entered at every one of '
        'its events (or evenly spread ones), each time on fresh documents. A run is non-trivial when at least one handler ran inside an operation; distinct by programs and points')
STATES = 'distinct (operation, tenth of it, what the handler did first) combinations'
REAL = history.REAL
STUB = history.STUB + ['signals, finalizers: handlers called by the trace function at a traced event (call, line, return, or bytecode instruction) inside enolib, in the same thread']
ASSUMPTIONS = threads.ASSUMPTIONS + ['handlers and the operation they enter agree on what they take an ambiguous element as, and on the same document handlers leave touch assertions and settings to others']


def at(rng, n_ops, handlers, then):
    """which handler runs in which operation, how far into it, and what it raises at its end"""
    out = []
    for h in range(handlers):
        r = rng.random()
        out.append([rng.randrange(n_ops), round(1 - r * .1 if rng.random() < .25 else r, 4), h, rng.choice(threads.KILLS) if rng.random() < then else None])
    return out


def plan(rng, tier):
    flavour = rng.choice(['same', 'same', 'own', 'own', 'register'])
    if flavour == 'register':
        return registering(rng)
    return using(rng, flavour)


def using(rng, flavour):
    n = rng.choice([1, 1, 2, 3, 5])         # handlers
    if flavour == 'same':
        p = c08.readers(rng, n + 1) if rng.random() < .85 else c08.audit(rng, n + 1)
        out = {k: p[k] for k in ('docs', 'register', 'before', 'programs', 'opcodes') if k in p}
    else:
        force = rng.choice([{}, {}, {'conts': .8, 'blank': .1}, {'comment': .8}, {'copy': .5}, {'multi': .5}])
        texts = [threads.text(rng, **force)]
        docs, programs = [], []
        weights = {'err': 3, 'raw': rng.choice([3, 20]), 'assert': 3}
        for t in range(n + 1):
            text = rng.choice(texts) if t and rng.random() < .5 else threads.text(rng, **{**force, **rng.choice([{}, {'width': 3, 'depth': 1}])})
            texts.append(text)
            docs.append(history.doc(rng, text))
        for t in range(n + 1):
            a = Author(rng, docs, inner_parses=0, loaders=['tag', 'id', 'none', 'int', 'fail', 'raise:KeyError', 'reenter'], weights=weights)
            a.parse('c', t)
            for _ in range(rng.choice([2, 5, 12, 25]) if not t else rng.choice([0, 2, 5, 12])):
                if rng.random() < .1:
                    a.emit('c', {'m': 'lookup', 'doc': t, 'index': rng.randrange(len(docs[t]['text']) + 1)})
                elif rng.random() < .15:
                    a.parse('c', t)
                elif a.step('c') is None:
                    break
            if rng.random() < .3:
                a.ops[0]['as'] = a.ops[0].get('as', 'root')
                a.ops.append({'m': 'raw', 'on': a.ops[0]['as']})
            programs.append(threads.prune(a.ops))
        programs.append([])                 # nobody comes later
        out = {'docs': docs, 'register': [], 'programs': programs, 'opcodes': rng.random() < .4}
    out['flavour'] = flavour
    if flavour == 'same' and 'before' not in out:       # handlers may run more than once
        out['programs'] = c08.agree(out['docs'], out['programs'], 2)
    main = out['programs'][0]
    if main:
        if rng.random() < .25:
            i = len(main) - 1 if rng.random() < .5 else rng.randrange(len(main))
            out['sweep'] = {'op': i, 'points': rng.choice([20, 40, 80]), 'phase': round(rng.random(), 3), 'span': [0, 1]}
            out['at'] = []
        else:
            out['at'] = at(rng, len(main), n, rng.choice([0, 0, .3]))
            if rng.random() < .3:
                out['storm'] = [rng.choice([1, 1, 2, 5, 13]), rng.choice([50, 150, 400])]
    return out


def opened(plan):
    if plan['flavour'] == 'same':
        return c08.opened(plan)[0]
    return []


def alone(plan, t):
    """what the program sees on its own, and how many events each of its operations takes"""
    th = threads.Thread(t, plan['docs'], plan['programs'][t], plan['flavour'] == 'own', opened(plan))
    counts = []
    for op in th.program:
        if not th.world.has(op):
            th.seen.append(None)
            counts.append(0)
            continue
        if t:
            out = th.world.call(op)
        else:
            out, n = trace.count(lambda: th.world.call(op), plan['opcodes'])
            counts.append(n)
        th.seen.append(th.world.norm(out, th.identity))
    return [th.seen, counts]


def run(plan, st):
    if plan['flavour'] == 'register':
        return run_registering(plan, st)
    compare(plan, st, together)


def compare(plan, st, together):
    programs = plan['programs']
    if not programs[0]:
        return
    if plan['flavour'] == 'same' and 'before' not in plan and c08.agree(plan['docs'], programs, 2) is not programs:     # only minimised plans come to this
        return
    try:
        opened(plan)
    except lib.ParseError:
        return
    want = [core.isolated(alone, plan, t) for t in range(len(programs))]
    for w in want:
        if not isinstance(w, list):
            raise RuntimeError('a program alone: %r' % w)
    counts = want[0][1]
    seen = [w[0] for w in want]
    if 'sweep' not in plan:
        return together(plan, seen, counts, st, [(i, 1 + int(r * counts[i]), h, then) for i, r, h, then in plan['at'] if i < len(counts) and h + 1 < len(programs) - 1])
    s = plan['sweep']
    if s['op'] >= len(counts) or len(programs) < 3:
        return
    n = counts[s['op']]
    ks = range(1, n + 1)
    if n > s['points']:
        ks = sorted({1 + int((i + s['phase']) * n / s['points']) for i in range(s['points'])})
    for k in ks[int(s['span'][0] * len(ks)):math.ceil(s['span'][1] * len(ks))]:
        together(plan, seen, counts, st, [(s['op'], k, 0, None)])


def together(plan, want, counts, st, points):
    handles = opened(plan)
    programs = plan['programs']
    main, *handlers = [threads.Thread(t, plan['docs'], p, plan['flavour'] == 'own', handles) for t, p in enumerate(programs)]
    last = handlers.pop()
    extra, storm = [], list(plan.get('storm', ())) if handlers else []
    opcodes = plan['opcodes']
    at = {}
    for i, k, h, then in points:
        at.setdefault(i, []).append((k, h, then))
    for i, op in enumerate(main.program):
        if not main.world.has(op):
            main.seen.append(None)
            continue
        for cut in [p for p in at.get(i, ()) if p[2]]:
            error = []

            def dying(h=cut[1], then=cut[2]):
                handlers[h].run()
                error.append(trace.ASYNC[then]('from a handler'))
                raise error[0]

            how, out = trace.nest(lambda: main.world.call(op), {cut[0]: dying}, opcodes)
            if how == 'raise':
                raise out
            if not error:
                continue
            note(st, op, cut[0] / (counts[i] + 1), handlers[cut[1]].program, 'handler that raises')
            if any(e is error[0] for e in trace.unraisable):
                st.add('swallowed_by_the_interpreter')
            elif out.v is not error[0]:
                raise Violation('unchanged', '%s cut off by %s from a handler: the caller sees %s' % (ops.describe(op), cut[2], ops.show(out)))
        inside = {}
        for k, h, then in at.get(i, ()):
            if not then:
                inside.setdefault(k, []).append(handlers[h])
        if storm:       # one after the other, short of all through the operation
            every, left = storm
            for k in range(1, counts[i] + 1, every)[:left]:
                t = 1 + len(extra) % (len(programs) - 2)
                extra.append(threads.Thread(t, plan['docs'], programs[t], main.identity, handles))
                inside.setdefault(k, []).append(extra[-1])
            storm[1] = max(0, left - len(range(1, counts[i] + 1, every)))

        def call(k):
            def go():
                for h in inside[k]:
                    h.run()
                    note(st, op, k / (counts[i] + 1), h.program, 'handler')
            return go

        how, out = trace.nest(lambda: main.world.call(op), {k: call(k) for k in inside}, opcodes) if inside else ('value', main.world.call(op))
        if how == 'raise':
            raise out
        main.seen.append(main.world.norm(out, main.identity))
        main.handed.take('op %s' % ops.describe(op), op['m'], out)
    for h in handlers + extra:
        if not h.seen:          # its moment never came
            h.run()
            st.add('handlers_that_came_late')
    last.run()
    for th in [main, *handlers, *extra, last]:
        seen = threads.plain(th.seen)
        who = 'the program' if th is main else 'a later reader' if th is last else 'handler %d' % th.t
        for i, (x, y) in enumerate(zip(want[th.t], seen)):
            st.add('evaluations')
            if x != y:
                raise Violation('nested', '%s, op %s: alone %s, together %s' % (who, ops.describe(th.program[i]), threads.brief(x), threads.brief(y)))
        if len(want[th.t]) != len(seen):
            raise Violation('nested', '%s: did %d of %d operations' % (who, len(seen), len(want[th.t])))
        st.add('handed_out_kept', th.handed.settle())
        st.event(seen)
    st.add('steps', sum(counts))


def note(st, op, r, program, fault):
    st.nontrivial = True
    st.fault(fault)
    st.add('entered')
    st.state(op['m'], int(10 * r), program[0]['m'] if program else '')


# ---- registrations

def registering(rng):
    names = rng.sample(c09.NAMES, rng.choice([1, 2, 2, 3]))
    serial = [0]
    docs = [history.doc(rng, history.text(rng, far=False, width=4, depth=rng.choice([0, 1, 2]), comment=.4)) for _ in range(2)]
    actors = []
    for t in range(2):
        a = Author(rng, docs, inner_parses=0, missing=.3, loaders=['tag', 'int'], weights={'assert': 0, 'strict': 0, 'err': 0, 'typed': 1, 'raw': 1, 'nav': 14, 'many': 8})
        a.parse('c', t)
        for _ in range(rng.choice([6, 12, 25])):
            op = c09.read(rng, a, names) if rng.random() < .6 else None
            if op is not None:
                a.ops.append(op)
            elif rng.random() < .15:
                a.ops.append(c09.registration(rng, names, serial))
            elif a.step('c') is None:
                break
        threads.prune(a.ops)
        actors.append(a.ops)
    main, handler = actors
    handler.insert(rng.randrange(len(handler) + 1), c09.registration(rng, names, serial))
    # pieces of the handler's program run inside operations of the main one
    pieces, i = [], 0
    while i < len(handler):
        n = rng.choice([1, 1, 2, 4])
        pieces.append(handler[i:i + n])
        i += n
    where = sorted([rng.randrange(len(main)) for _ in pieces])
    seen, at = set(), []
    for w, p in zip(where, pieces):
        if w in seen:
            at[-1][2] += p
            continue
        seen.add(w)
        at.append([w, round(rng.random(), 4), p])
    start = [c09.registration(rng, names, serial) for _ in range(rng.choice([0, 1, 2]))]
    return {'flavour': 'register', 'docs': docs, 'start': start, 'main': main, 'at': at, 'opcodes': rng.random() < .4}


def run_registering(plan, st):
    registry = c09.Registry(plan['docs'])
    clock = [0]

    def now():
        clock[0] += 1
        return clock[0]

    for op in plan['start']:
        registry.register(op, now)
    lks = [ops.Lockstep(plan['docs']) for _ in range(2)]
    done = []

    def perform(who, op):
        if op['m'] == 'register':
            registry.register(op, now)
        elif lks[who].real.has(op):
            begin = now()
            out = lks[who].real.call(op)
            out.log = []
            done.append((begin, who, op, out, now()))

    pieces = {w: (r, p) for w, r, p in plan['at']}
    for i, op in enumerate(plan['main']):
        r, piece = pieces.get(i, (0, ()))
        if not piece or not (op['m'] == 'register' or lks[0].real.has(op)):
            perform(0, op)
            for o in piece:
                perform(1, o)
            continue
        entered = []

        def handler():
            entered.append(op)
            for o in piece:
                perform(1, o)
            note(st, op, r, piece, 'handler')

        n = 1 + int(r * (120 if plan['opcodes'] else 25) * (3 if op['m'] == 'register' else 1))
        how, out = trace.nest(lambda: perform(0, op), {n: handler}, plan['opcodes'])
        if how == 'raise':
            raise out
        if not entered:
            for o in piece:
                perform(1, o)
            st.add('handlers_that_came_late')
    for begin, who, op, out, end in sorted(done, key=lambda d: d[:2]):
        c09.check(lks[who], op, out, begin, end, registry, st)
    st.event([(r[0], r[2], r[3], r[4]) for r in registry.all])
    st.event([(op['m'], lks[who].real.norm(out, False)) for _b, who, op, out, _e in done])
    st.add('steps', len(done))


def shrink(plan):
    if plan['flavour'] == 'register':
        yield from core.shrink_list(plan, 'start')
        yield from core.shrink_list(plan, 'at')
        for i in range(len(plan['at'])):
            yield from core.shrink_list(plan, 'at', i, 2)
    else:
        if 'sweep' in plan:
            a, b = plan['sweep']['span']
            if b - a > .004:
                for span in ([a, (a + b) / 2], [(a + b) / 2, b]):
                    yield {**plan, 'sweep': {**plan['sweep'], 'span': span}}
        if 'storm' in plan:
            yield {k: v for k, v in plan.items() if k != 'storm'}
            yield {**plan, 'storm': [plan['storm'][0], plan['storm'][1] // 2]}
            yield {**plan, 'storm': [plan['storm'][0] + 1, plan['storm'][1]]}
        yield from core.shrink_list(plan, 'at')
        for t in range(1, len(plan['programs'])):
            yield from core.shrink_list(plan, 'programs', t)
        if plan.get('before'):
            yield from core.shrink_list(plan, 'before')
    for i in range(len(plan['docs'])):
        yield from core.shrink_text(plan, 'docs', i, 'text')
        for k in [k for k in plan['docs'][i] if k != 'text']:
            yield core.with_(plan, ('docs', i), {x: y for x, y in plan['docs'][i].items() if x != k})
