"""C27: a process forked while another thread is in the middle of an operation can use the library"""
from sim import core, ops, trace
from sim.core import Violation

from . import c08, c09, c24, history, threads

ID = 'C27'
RUNS = {'quick': (4000, 300), 'thorough': (60000, 1500)}
RULE = ('one case = one program; at drawn events inside its operations (in a quarter of the runs: at every event of one of them, or evenly spread ones) a second thread forks the process, '
        'so that in the child only that thread goes on and the operation stays where it is for ever. In the child it reads the inherited documents, works on documents of its own, or registers '
        'loaders and reads through them: all of it compared with the same alone in a fresh process (registrations: with the model), within a bounded number of steps. The parent goes on and must not '
        'notice. A run is non-trivial when at least one process was forked inside an operation; distinct by programs and points')
STATES = 'distinct (operation, tenth of it, what the child did first) combinations'
REAL = history.REAL + ['real threads and forked processes']
STUB = history.STUB + ['who forks when: the trace function at a traced event (call, line, return, or bytecode instruction) inside enolib lets a second thread fork and waits for it',
                       'locks of the library, should it have any: cooperative stand-ins that report what waits for a thread that is not there']
ASSUMPTIONS = threads.ASSUMPTIONS + ['child and parent agree on what they take an ambiguous element as, and the child leaves touch assertions of inherited documents to the parent']
CHILD_S = 60            # seconds of the wall clock a child may take: it needs milliseconds
SPARE = 300_000         # events a child may take: some hundreds suffice


class Alone:
    """the only thread of a forked process: whoever holds a lock will never give it back"""
    current = 'forked'

    def wait(self, lock):
        raise trace.Deadlock()


def fork(child):
    """in a second thread: fork, run child() there, and bring back what it says"""
    def surviving():
        trace.active = Alone()
        try:
            return {'out': child()}
        except Violation as v:
            return {'cls': v.cls, 'msg': v.msg}
        except trace.Deadlock:
            return {'cls': 'deadlock', 'msg': 'waits for a lock that is held by a thread the process does not have'}
        except trace.Stuck:
            return {'cls': 'nontermination', 'msg': 'does not get anywhere'}

    try:
        got = trace.in_thread(lambda: core.isolated(surviving, wall=CHILD_S))
    except Violation as v:
        got = {'cls': v.cls, 'msg': v.msg}
    if 'died' in got:
        got = {'cls': 'died', 'msg': 'died: %s' % got['died']}
    if 'cls' in got:
        raise Violation('forked:' + got['cls'], 'a process forked in the middle of an operation %s' % got['msg'])
    if 'out' not in got:
        raise RuntimeError('a forked process: %r' % got)
    return got['out']


def plan(rng, tier):
    flavour = rng.choice(['same', 'same', 'own', 'register'])
    if flavour == 'register':
        return registering(rng)
    p = c24.using(rng, flavour)
    p.pop('storm', None)
    if 'sweep' in p:
        p['sweep']['points'] = rng.choice([12, 25, 50])
    if p['programs'][0] and rng.random() < .5:          # the child starts over with what its parent is at
        first = p['programs'][0]
        p['programs'] = [first, *(first[:rng.randrange(len(first)) + 1] for _ in p['programs'][1:-1]), p['programs'][-1]]
        if flavour == 'same':
            p['programs'] = c08.agree(p['docs'], p['programs'], 2)
            if not p['programs'][0]:
                p.pop('sweep', None)
    for a in p.get('at', ()):
        a[3] = None
    return p


def run(plan, st):
    if plan['flavour'] == 'register':
        return run_registering(plan, st)
    c24.compare(plan, st, together)


def together(plan, want, counts, st, points):
    handles = c24.opened(plan)
    programs, opcodes = plan['programs'], plan['opcodes']
    own = plan['flavour'] == 'own'
    main, *children = [threads.Thread(t, plan['docs'], p, own, handles) for t, p in enumerate(programs)]
    last = children.pop()
    at = {}
    for i, k, h, _then in points:
        at.setdefault(i, {}).setdefault(k, []).append(h)
    for i, op in enumerate(main.program):
        if not main.world.has(op):
            main.seen.append(None)
            continue

        def forking(k):
            def go():
                for h in at[i][k]:
                    child = children[h]

                    def work():
                        trace.count(child.run, limit=SPARE)
                        return child.seen

                    seen = fork(work)
                    note(st, op, k / (counts[i] + 1), child.program)
                    same('the child', child.program, want[child.t], seen, st)
            return go

        points_here = {k: forking(k) for k in at.get(i, ())}
        how, out = trace.nest(lambda: main.world.call(op), points_here, opcodes) if points_here else ('value', main.world.call(op))
        if how == 'raise':
            raise out
        main.seen.append(main.world.norm(out, main.identity))
    last.run()
    same('the parent', main.program, want[0], main.seen, st)
    same('a later reader', last.program, want[last.t], last.seen, st)
    st.add('steps', sum(counts))


def same(who, program, want, seen, st):
    seen = threads.plain(seen)
    for i, (x, y) in enumerate(zip(want, seen)):
        st.add('evaluations')
        if x != y:
            raise Violation('forked', '%s, op %s: alone %s, here %s' % (who, ops.describe(program[i]), threads.brief(x), threads.brief(y)))
    if len(want) != len(seen):
        raise Violation('forked', '%s: did %d of %d operations' % (who, len(seen), len(want)))
    st.event(seen)


def note(st, op, r, program):
    st.nontrivial = True
    st.fault('fork inside an operation')
    st.add('forked')
    st.state(op['m'], int(10 * r), program[0]['m'] if program else '')


# ---- registrations

def registering(rng):
    p = c24.registering(rng)
    p['child'] = [op for _w, _r, piece in p['at'] for op in piece]
    if rng.random() < .5:       # inside registrations too
        serial = [100]
        names = sorted({n for op in p['start'] + p['child'] + p['main'] if op['m'] == 'register' for n in op['names']})
        for _ in range(rng.choice([1, 2])):
            i = rng.randrange(len(p['main']) + 1)
            p['main'].insert(i, c09.registration(rng, names or c09.NAMES[:2], serial))
    where = [i for i, op in enumerate(p['main']) if op['m'] == 'register']
    p['at'] = sorted({(rng.choice(where) if where and rng.random() < .7 else rng.randrange(len(p['main'])), round(rng.random(), 4)) for _ in range(rng.choice([1, 2, 4]))})
    p['at'] = [list(a) for a in p['at']]
    return p


def run_registering(plan, st):
    registry = c09.Registry(plan['docs'])
    clock = [0]

    def now():
        clock[0] += 1
        return clock[0]

    for op in plan['start']:
        registry.register(op, now)
    lks = [ops.Lockstep(plan['docs']) for _ in range(2)]
    done = []

    def perform(who, op):
        if op['m'] == 'register':
            registry.register(op, now)
        elif lks[who].real.has(op):
            begin = now()
            out = lks[who].real.call(op)
            out.log = []
            done.append((begin, who, op, out, now()))

    def child():
        for r in registry.all:          # whoever was at it is not there any more
            if r[3] == c09.FOREVER:
                r[3] = now()
        done[:] = []
        trace.count(lambda: [perform(1, o) for o in plan['child']], limit=SPARE)
        for begin, who, op, out, end in done:
            c09.check(lks[who], op, out, begin, end, registry, st)
        return [[op['m'], lks[1].real.norm(out, False)] for _b, _w, op, out, _e in done]

    for i, op in enumerate(plan['main']):
        points = {}
        for w, r in plan['at']:
            if w == i and (op['m'] == 'register' or lks[0].real.has(op)):
                def go(r=r, op=op):
                    st.event(fork(child))
                    note(st, op, r, plan['child'])
                points[1 + int(r * (120 if plan['opcodes'] else 25) * (3 if op['m'] == 'register' else 1))] = go
        how, out = trace.nest(lambda: perform(0, op), points, plan['opcodes'])
        if how == 'raise':
            raise out
    for begin, who, op, out, end in sorted(done, key=lambda d: d[:2]):
        c09.check(lks[who], op, out, begin, end, registry, st)
    st.event([(r[0], r[2], r[3], r[4]) for r in registry.all])
    st.event([(op['m'], lks[who].real.norm(out, False)) for _b, who, op, out, _e in done])
    st.add('steps', len(done))


def shrink(plan):
    if plan['flavour'] == 'register':
        yield from core.shrink_list(plan, 'start')
        yield from core.shrink_list(plan, 'at')
        yield from core.shrink_list(plan, 'child')
    else:
        yield from c24.shrink(plan)
        return
    for i in range(len(plan['docs'])):
        yield from core.shrink_text(plan, 'docs', i, 'text')
