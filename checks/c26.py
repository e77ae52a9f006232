"""C26: letting go of handles and garbage collection change nothing"""
import gc

from sim import api, core, eno, gen, ops, trace
from sim.author import Author, prune
from sim.core import Violation
from sim.walk import walk

from . import history

ID = 'C26'
RUNS = {'quick': (12000, 300), 'thorough': (100000, 1500)}
RULE = ('one case = one operation of a history in which the client now and then lets go of all handles but a few (of whole documents too) and the garbage collector runs, '
        'between operations and at drawn events inside them; what was taken, touched or required through handles long gone is reached again from those that are left (down from '
        'the root, up through parents) and every answer is compared with the model, which forgets nothing. A run is non-trivial when handles were let go of and at least three '
        'operations followed; distinct by documents and history')
STATES = 'distinct (operation, outcome kind, handles held) triples'
REAL = history.REAL + ['the garbage collector of the interpreter, run only where the plan says']
STUB = history.STUB
ASSUMPTIONS = history.ASSUMPTIONS + ['the collector runs between bytecode instructions of enolib\'s own code']


def keep(rng, a):
    """the client remembers a part of its handles only"""
    every = [(c, p) for c in a.pool for p in a.pool[c]]
    if len(every) < 2:
        return
    style = rng.choice(['one', 'one', 'deep', 'few', 'half', 'root', 'not root'])
    sections = [x for x in every if x[1][1] == 'Section']
    if style == 'one':
        chosen = [rng.choice(every)]
    elif style == 'deep':       # what was reached last
        chosen = [every[-1]]
    elif style == 'few':
        chosen = rng.sample(every, min(len(every), 3))
    elif style == 'root':
        chosen = [every[0]]
    elif style == 'not root':
        chosen = every[1:]
    else:
        chosen = [x for x in every if rng.random() < .5] or [rng.choice(sections or every)]
    for c in a.pool:
        a.pool[c] = [p for d, p in every if d == c and any(p is q for _c, q in chosen)]
    alive = [p[0] for c in a.pool for p in a.pool[c]]
    a.ops.append({'m': 'keep', 'refs': alive, 'gc': rng.random() < .8})
    for name in list(a.model.h):
        retain(a.model, name, alive)


def retain(world, name, refs):
    v = world.h[name]
    if isinstance(v, list):
        left = {r[1] for r in refs if isinstance(r, list) and r[0] == name}
        if left:
            world.h[name] = [x if i in left else None for i, x in enumerate(v)]
            return
    elif name in refs:
        return
    del world.h[name]


def plan(rng, tier):
    docs = [history.doc(rng, rng.choice([gen.valid_merges, gen.valid_knots])(rng) if rng.random() < .1 else
                        history.text(rng, **rng.choice([{}, {'depth': 2, 'width': 2}, {'copy': .5}, {'empty': .5}, {'depth': 3, 'width': 2, 'comment': .4}]))) for _ in range(rng.choice([1, 1, 2, 3]))]
    a = Author(rng, docs, inner_parses=0, missing=.15, loaders=['tag', 'id', 'none', 'int', 'fail', 'raise:KeyError', 'reenter'],
               weights=rng.choice([{'parent': 6}, {'parent': 8, 'strict': 4, 'nav': 14}, {'parent': 5, 'take': 14, 'nav': 14}, {'parent': 6, 'touch': 4, 'assert': 6}, {'parent': 4, 'err': 6, 'raw': 5, 'comment': 6}]))
    a.parse('c', 0)
    p = rng.choice([.08, .15, .3])
    for _ in range(rng.choice([10, 25, 60])):
        roll = rng.random()
        if roll < p:
            keep(rng, a)
        elif roll < p + .03 or not a.pool['c']:
            a.parse('c', rng.randrange(len(docs)))
        elif roll < p + .05:
            i = rng.randrange(len(docs))
            a.emit('c', {'m': 'lookup', 'doc': i, 'index': rng.randrange(len(docs[i]['text']) + 1)})
        else:
            a.step('c')
        if rng.random() < .15 and a.ops[-1]['m'] != 'keep':
            a.ops[-1]['gc'] = [1 + int(rng.expovariate(1 / rng.choice([5, 40]))), rng.choice([1, 3, 10, 50])]
    if rng.random() < .6:
        keep(rng, a)
    named = {o['as'] for o in a.ops if o.get('as')}
    prune([o for o in a.ops if o['m'] != 'keep'] + [{'m': 'x', 'on': r} for o in a.ops if o['m'] == 'keep' for r in o['refs']])
    return {'docs': docs, 'ops': a.ops, 'walk': rng.randrange(1 << 30) if rng.random() < .6 and named else None}


class Forgetful(ops.Lockstep):
    """holds nothing but the handles the plan says"""

    def __init__(self, docs, st):
        super().__init__(docs)
        self.handed.LIMIT = 0
        self.st = st

    def do(self, op):
        if not self.model.has(op) or not ops.World.has(self.real, op):
            return None
        hook = op.get('gc')
        if hook:
            n = 0

            def event():
                nonlocal n
                n += 1
                if n >= hook[0] and (n - hook[0]) % hook[1] == 0 and n <= hook[0] + 8 * hook[1]:
                    gc.collect()
                    self.st.fault('garbage collection inside an operation')
            trace.trace(event)
        try:
            r = self.real.call(op)
        finally:
            if hook:
                trace.untrace()
        m = self.model.call(op)
        self.done += 1
        self.match(op, r, m)
        for e in self.real.own:         # frames hold handles
            e.__traceback__ = e.__context__ = None
        data = self.real.norm(r, False)
        self.digest.update(repr((op['m'], data)).encode('utf-8', 'surrogatepass'))
        return m

    def keep(self, op):
        before = len(self.alive)
        for world in (self.real, self.model):
            for name in list(world.h):
                retain(world, name, op['refs'])
        held = {id(x) for v in self.real.h.values() for x in (v if isinstance(v, list) else [v]) if x is not None}
        # the model's side stays (it must not give the number of one gone to another), the library's goes
        self.gone = getattr(self, 'gone', []) + [m for r, m in self.alive if id(r) not in held]
        self.alive = [(r, m) for r, m in self.alive if id(r) in held]
        self.pairs = {id(m): r for r, m in self.alive}
        self.back = {id(r): m for r, m in self.alive}
        self.st.fault('handles let go of', before - len(self.alive))
        if op['gc']:
            self.st.fault('garbage collection between operations')
            self.st.add('objects_collected', gc.collect())
        return before - len(self.alive)


def run(plan, st):
    gc.collect()
    gc.freeze()
    gc.disable()
    lk = Forgetful(plan['docs'], st)
    gone = after = 0
    for op in plan['ops']:
        if op['m'] == 'keep':
            gone += lk.keep(op)
            continue
        m = lk.do(op)
        if m is not None:
            after += gone > 0
            st.state(op['m'], m.kind, min(len(lk.alive), 9))
    if plan['walk'] is not None:
        top = climb(lk)
        if top:
            before = lk.done
            walk(lk, top, plan['walk'], leave=.1)
            lk.do({'m': 'assert_all_touched', 'on': top})
            after += (lk.done - before) * (gone > 0)
            st.add('readings_from_what_was_left')
    st.add('steps', lk.done)
    st.add('errors_compared', lk.errors)
    st.add('evaluations', after)
    st.digest = lk.digest
    st.nontrivial = gone > 0 and after >= 3


def climb(lk):
    """from any handle left to the document, letting go of everything on the way"""
    start = None
    for name, v in lk.model.h.items():
        for i, h in enumerate(v if isinstance(v, list) else [v]):
            if isinstance(h, api.Base) and (isinstance(h, api.Section) or hasattr(h, 'parent')):
                start = start or ([name, i] if isinstance(v, list) else name)
    n = 0
    while start is not None:
        h = lk.model.ref(start)
        if isinstance(h, api.Section) and h.node.type == eno.DOCUMENT:
            return start
        n += 1
        name = 'up%d' % n
        out = lk.do({'m': 'parent', 'on': start, 'as': name})
        if out is None or out.kind != 'value' or n > 60:
            return None
        start = name
        lk.keep({'refs': [name], 'gc': n % 2})
    return None


def shrink(plan):
    yield from core.shrink_list(plan, 'ops')
    for i, op in enumerate(plan['ops']):
        if op.get('gc') and op['m'] != 'keep':
            yield core.with_(plan, ('ops', i), {k: v for k, v in op.items() if k != 'gc'})
    if plan['walk'] is not None:
        yield {**plan, 'walk': None}
    for i in range(len(plan['docs'])):
        yield from core.shrink_text(plan, 'docs', i, 'text')


__all__ = ['Violation']
