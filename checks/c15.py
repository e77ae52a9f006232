"""C15: copies and their originals stay independent of each other"""
from sim import gen, ops
from sim.author import Author, prune

from . import c10, history

ID = 'C15'
RUNS = {'quick': (14000, 300), 'thorough': (100000, 1500)}
RULE = ('one case = one operation on a document full of copies (of fields, lists, fieldsets, sections; shallow, deep, chained, extended, overriding), by one to three clients that '
        'read, dump, take, touch, make strict and fail on copies and originals in drawn order, some operations cut short by an asynchronous exception; every answer, and a '
        'complete reading afterwards, is compared with the model, which expands copies on every read. A run is non-trivial when the document contains at least one copy; '
        'distinct by documents and history')
STATES = 'distinct (operation, outcome kind) pairs'
REAL, STUB, ASSUMPTIONS = c10.REAL, c10.STUB, c10.ASSUMPTIONS


def plan(rng, tier):
    docs = [history.doc(rng, gen.valid_merges(rng) if rng.random() < .2 else history.text(rng, copy=rng.choice([.4, .6, .9]), deep=rng.choice([0, .5, .9]), width=rng.choice([2, 3, 4]), depth=rng.choice([0, 1, 2, 3]), empty=.15, comment=rng.choice([0, .2])))]
    a = Author(rng, docs, missing=.1, loaders=['tag', 'id', 'int', 'fail', 'raise:KeyError'], weights=rng.choice([{}, {'touch': 6, 'assert': 5}, {'strict': 6, 'nav': 14}, {'raw': 8}, {'take': 14}]))
    clients = ['c%d' % i for i in range(rng.choice([1, 2, 3]))]
    root = a.parse(clients[0], 0)
    name = a.ops[0]['as']
    for c in clients[1:]:
        a.pool[c] = [(name, 'Section', root.v.node)]
    p, opcodes = rng.choice([0, 0, .2]), rng.choice([0, .5, 1])
    for _ in range(rng.choice([8, 20, 40])):
        if a.step(rng.choice(clients)) is None:
            break
        if rng.random() < p:
            a.ops[-1]['cuts'] = [c10.cut(rng, opcodes)]
    prune(a.ops)
    a.ops[0]['as'] = name
    return {'docs': docs, 'ops': a.ops, 'walk': rng.randrange(1 << 30), 'leave': rng.choice([0, 0, .2])}


def subject(op, v):
    return not v.cls.startswith('snippet')


def run(plan, st):
    lk = ops.Lockstep(plan['docs'], judge=subject)
    for op in plan['ops']:
        out = None
        if lk.stopped:
            break
        for c in op.get('cuts', ()):
            if lk.model.has(op) and lk.real.has(op):
                out = c10.interrupt(lk, op, c, st)
                if out is not None:
                    break
        m = lk.do(op, real=out) if out is not None else lk.do(op)
        if m is not None:
            st.state(op['m'], m.kind)
    root = history.after(plan, lk, st, plan['leave'])
    if root in lk.model.h:
        lk.do({'m': 'assert_all_touched', 'on': root})
        st.nontrivial = bool(lk.model.h[root].env.doc.copies)
    st.n['evaluations'] = lk.done
    st.digest = lk.digest


def shrink(plan):
    yield from history.shrink(plan)
    yield from c10.shrink(plan)
