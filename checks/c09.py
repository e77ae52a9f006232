"""C09: registering loaders is safe while documents are in use"""
from sim import core, eno, ops, trace
from sim.author import Author
from sim.core import Violation

from . import history, threads

ID = 'C09'
RUNS = {'quick': (12000, 300), 'thorough': (90000, 1500)}
RULE = ('one case = one or two threads registering loaders (keywords, functions, dictionaries; new names and known ones; some cut off by an asynchronous exception) '
        'while others read through registered accessors of handles they already had and of new ones, real and missing, under one seeded schedule; then registrations and '
        'reads one after another. Every read must be what the model gives for a registration that was in force at some point of the read. A run is non-trivial when the '
        'schedule switched at least twice or a registration was cut off; distinct by programs and executed schedule')
STATES = 'distinct executed schedules (sequence of thread and number of events)'
REAL, STUB = threads.REAL, threads.STUB + ['oracle: reference model, once per registration that may be in force']
ASSUMPTIONS = threads.ASSUMPTIONS

NAMES = ['n', 'm', 'color', 'x_y']
GENERIC = ['key', 'optional_comment', 'required_comment', 'optional_value', 'required_value', 'optional_values', 'required_values']
FOREVER = 1 << 60


def registration(rng, names, serial):
    chosen = rng.sample(names, min(len(names), rng.choice([1, 1, 1, 2])))
    specs = {}
    for n in chosen:
        serial[0] += 1
        specs[n] = {'fn': 'loader', 'id': serial[0], 'do': rng.choice(['tag', 'tag', 'tag', 'tag', 'int', 'fail', 'none'])}
    return {'m': 'register', 'names': specs, 'via': rng.choice(['names', 'functions', 'dict'])}


def read(rng, a, names):
    """a read through a registered accessor, now and then of a name or kind that does not exist"""
    pool = [p for p in a.pool['c'] if p[2] is None or p[2].type != eno.DOCUMENT]
    if not pool:
        return None
    ref, _kind, _node = rng.choice(pool[-6:] if rng.random() < .6 else pool)
    handle = a.model.ref(ref)
    g = rng.choice(GENERIC if rng.random() < .05 else ops.accessors(handle))
    return {'m': ops.spelled(g, rng.choice(names) if rng.random() < .97 else 'nobody'), 'on': ref}


def plan(rng, tier):
    readers = rng.choice([1, 1, 2, 3])
    names = rng.sample(NAMES, rng.choice([1, 2, 2, 3]))
    serial = [0]
    docs = [history.doc(rng, history.text(rng, far=False, width=4, depth=rng.choice([0, 1, 2]), comment=.4)) for _ in range(readers)]
    before, during, after = [], [], []
    for t in range(readers):
        a = Author(rng, docs, inner_parses=0, missing=.3, loaders=['tag', 'int'], weights={'assert': 0, 'strict': 0, 'err': 0, 'typed': 1, 'raw': 1, 'nav': 14, 'many': 8})
        a.parse('c', t)
        marks = [0]
        for phase in range(3):
            for _ in range(rng.choice([0, 4, 8]) if phase == 0 else rng.choice([4, 8, 14])):
                op = read(rng, a, names) if rng.random() < (.2, .7, .8)[phase] else None
                if op is not None:
                    a.ops.append(op)
                elif a.step('c') is None:
                    break
            marks.append(len(a.ops))
        threads.prune(a.ops)
        before.append(a.ops[:marks[1]])
        during.append(a.ops[marks[1]:marks[2]])
        after.append(a.ops[marks[2]:])
    registrars = rng.choice([1, 1, 2])
    start = [registration(rng, names, serial) for _ in range(rng.choice([0, 1, 2]))]
    register = [[registration(rng, names, serial) for _ in range(rng.choice([1, 2, 4]))] for _ in range(registrars)]
    later = [registration(rng, names, serial) for _ in range(rng.choice([0, 1, 2]))]
    opcodes = rng.random() < .4 and all(len(d['text']) < 1000 for d in docs)
    kills = {}
    for t in range(registrars):
        if rng.random() < .4:
            kills[str(t)] = [rng.randrange(1, (300 if opcodes else 70)), rng.choice(threads.KILLS)]
    return {'docs': docs, 'start': start, 'register': register, 'later': later, 'before': before, 'during': during, 'after': after,
            'segments': threads.segments(rng, registrars + readers, opcodes), 'kills': kills, 'opcodes': opcodes}


class Registry:
    """when which registration was in force"""

    def __init__(self, docs):
        self.model = ops.Model(docs)
        self.real = ops.Real(docs)
        self.all = []           # [name, number, start, end, complete, model loader]
        self.seen = {}          # (class, method) -> (number, start of that read)

    def register(self, op, now):
        rows = []
        for n, spec in op['names'].items():
            rows.append([n, len(self.all), now(), FOREVER, False, self.model.callable(spec)])
            self.all.append(rows[-1])
        out = self.real.call(op)
        for r in rows:
            r[3] = now()
            r[4] = out.kind == 'value'
        return out

    def candidates(self, name, begin, end):
        """[(number, loader or None)] that may be in force at some point of begin..end"""
        mine = [r for r in self.all if r[0] == name and r[2] <= end]
        done = [r for r in mine if r[4] and r[3] <= begin]
        out = [(r[1], r[5], r[3]) for r in mine if not any(d[2] >= r[3] and d is not r for d in done)]
        return out + ([] if done else [(None, None, FOREVER)])


def perform(th, registry, now):
    for op in th.program:
        if th.world.has(op):
            begin = now()
            out = th.world.call(op)
            th.seen.append((op, out, begin, now()))
            if out.kind == 'other' and type(out.v).__name__ in trace.ASYNC:
                return


def check(lk, op, out, begin, end, registry, st):
    """one read of a reader against the model"""
    if not lk.model.has(op):
        return
    method = op['m']
    out.log = []
    names = {r[0] for r in registry.all}
    own = [n for n in names if any(method == ops.spelled(g, n) for g in GENERIC)]
    if not own:
        lk.model.loaders = {}
        m = lk.model.call(op)
        m.log = []
        lk.match(op, out, m)
        return
    target = type(lk.model.ref(op['on'])).__name__
    fits, wrong = [], None
    for number, loader, until in registry.candidates(own[0], begin, end):
        lk.model.loaders = {own[0]: loader} if loader else {}
        m = lk.model.call(op)
        m.log = []
        try:
            lk.match(op, out, m)
            fits.append((number, until))
        except Violation as v:
            wrong = wrong or v
    st.add('evaluations')
    st.probe('registrations_that_could_be_in_force:%d' % min(4, len(fits)))
    if not fits:
        raise Violation('registered:' + wrong.cls, '%s (no registration in force explains it)' % wrong.msg)
    if len(fits) == 1:
        number, until = fits[0]
        last = registry.seen.get((target, method))
        if last is not None and last[0] != number and until <= last[1]:
            raise Violation('registered:unstable', 'op %s of a %s goes from registration %s to %s that was over before' % (ops.describe(op), target, last[0], number))
        registry.seen[target, method] = (number, begin)


def run(plan, st):
    registry = Registry(plan['docs'])
    clock = [0]
    now = lambda: clock[0]

    def tick():
        clock[0] += 1

    for op in plan['start']:
        tick()
        registry.register(op, now)
    lks = [ops.Lockstep(plan['docs']) for _ in plan['before']]
    readers = []
    for lk, program in zip(lks, plan['before']):
        for op in program:
            tick()
            if lk.real.has(op):
                check(lk, op, lk.real.call(op), now(), now(), registry, st)
        th = threads.Thread(len(plan['register']) + len(readers), plan['docs'], [], False)
        th.world = lk.real
        th.seen = []
        readers.append(th)
    tick()
    base = now()
    s = trace.Scheduler(plan['segments'], threads.LIMIT * 5, {int(t): [k[0], trace.ASYNC[k[1]]] for t, k in plan['kills'].items()}, plan['opcodes'])
    clocked = lambda: base + s.steps

    def registrar(t):
        for op in plan['register'][t]:
            registry.register(op, clocked)
            if t in s.killed:
                return

    def reader(th, program):
        th.program = program
        perform(th, registry, clocked)

    programs = [(lambda t: lambda: registrar(t))(t) for t in range(len(plan['register']))]
    programs += [(lambda th, p: lambda: reader(th, p))(th, p) for th, p in zip(readers, plan['during'])]
    s.run(programs)
    for e in s.escaped.values():
        raise e
    for t in s.killed:
        st.fault('interrupted registration')
    st.fault('preemption', s.switches)
    st.add('steps', s.steps)
    st.state(s.trail)
    clock[0] = base + s.steps
    merged = sorted(((x[2], i, x) for i, th in enumerate(readers) for x in th.seen), key=lambda y: y[:2])
    for _b, i, (op, out, begin, end) in merged:
        check(lks[i], op, out, begin, end, registry, st)
    later = list(plan['later'])
    longest = max([len(p) for p in plan['after']] + [0])
    for k in range(longest):
        if later and k % 3 == 1:
            tick()
            tick()
            registry.register(later.pop(0), now)
        for lk, program in zip(lks, plan['after']):
            if k < len(program) and lk.real.has(program[k]):
                tick()
                check(lk, program[k], lk.real.call(program[k]), now(), now(), registry, st)
    st.event([(r[0], r[2], r[3], r[4]) for r in registry.all])
    st.event([(op['m'], registry.real.norm(out, False)) for _b, _i, (op, out, _x, _y) in merged])
    st.nontrivial = s.switches >= 2 or bool(s.killed)


def shrink(plan):
    paths = [('start',), ('later',)] + [('register', t) for t in range(len(plan['register']))]
    for part in ('before', 'during', 'after'):
        paths += [(part, t) for t in range(len(plan[part]))]
    yield from threads.shrink(plan, *paths)
