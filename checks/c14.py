"""C14: an element commits to the one type it was first taken as"""
from sim import ops
from sim.author import Author, prune

from . import c10, history

ID = 'C14'
RUNS = {'quick': (14000, 300), 'thorough': (100000, 1500)}
RULE = ('one case = one attempt to take an element as some type (through the element, through section accessors single and plural, through lookup results), in histories of '
        'one to three clients on documents full of ambiguous elements, some attempts cut short by an asynchronous exception and followed by an attempt to take the element '
        'as something else; outcome, identity of the handle and what the element offers are compared with the model. A run is non-trivial when at least one TypeError was '
        'due; distinct by documents and history')
STATES = 'distinct (operation, outcome kind) pairs'
REAL, STUB, ASSUMPTIONS = c10.REAL, c10.STUB, c10.ASSUMPTIONS
TAKES = ('empty', 'field', 'fieldset', 'list')


def plan(rng, tier):
    docs = [history.doc(rng, history.text(rng, empty=rng.choice([.4, .7, .9]), width=rng.choice([2, 3, 6]), depth=rng.choice([0, 1, 2]), copy=rng.choice([0, .2, .5]), dup=rng.choice([0, .4])))]
    a = Author(rng, docs, missing=.05, weights={'take': 14, 'nav': 12, 'many': 8, 'yield': 8, 'value': 1, 'typed': 1, 'key': 1, 'comment': 1, 'raw': 1, 'err': 1, 'assert': 1, 'touch': 2, 'strict': .5})
    clients = ['c%d' % i for i in range(rng.choice([1, 2, 3]))]
    root = a.parse(clients[0], 0)
    name = a.ops[0]['as']
    for c in clients[1:]:
        a.pool[c] = [(name, 'Section', root.v.node)]
    p, opcodes = rng.choice([0, .1, .4]), rng.choice([0, .5, 1])
    for _ in range(rng.choice([10, 20, 40])):
        c = rng.choice(clients)
        if rng.random() < .05:
            a.emit(c, {'m': 'lookup', 'doc': 0, 'index': rng.randrange(len(docs[0]['text']) + 1)})
            continue
        op = a.draw(c)
        if op is None:
            break
        if rng.random() < p and history.category(op) in ('take', 'nav', 'many'):
            if op['m'].startswith('to_') and rng.random() < .6:        # then as something else
                a.ops.append({'m': 'halved', 'op': op, 'cut': c10.cut(rng, opcodes), 'as_': rng.choice(TAKES)})
            else:
                op['cuts'] = [c10.cut(rng, opcodes)]
        a.emit(c, op)
    prune([o for o in a.ops if o['m'] != 'halved'])
    a.ops[0]['as'] = name
    return {'docs': docs, 'ops': a.ops, 'walk': rng.randrange(1 << 30) if rng.random() < .5 else None}


def subject(op, v):
    return history.category(op) in ('take', 'nav', 'many', 'yield') and not v.cls.startswith(('error-', 'snippet'))


def run(plan, st):
    lk = ops.Lockstep(plan['docs'], judge=subject)
    for op in plan['ops']:
        halved = op['m'] == 'halved'
        todo = op['op'] if halved else op
        if lk.stopped:
            break
        out = None
        for c in [op['cut']] if halved else op.get('cuts', ()):
            if lk.model.has(todo) and lk.real.has(todo):
                out = c10.interrupt(lk, todo, c, st)
                if out is not None:
                    break
        if not halved:
            m = lk.do(op, real=out) if out is not None else lk.do(op)
            if m is not None:
                st.state(op['m'], m.kind)
            continue
        if out is not None:
            lk.do(todo, real=out)
            continue
        # cut short: either it is taken completely or not at all; another attempt tells which
        if not lk.model.has(todo):
            continue
        other = {'m': 'to_' + op['as_'], 'on': todo['on']}
        r = lk.real.call(other)
        if r.kind == 'type':
            lk.model.call({**todo, 'as': None})
        lk.do(other, real=r)
        st.probe('halved_take_committed' if r.kind == 'type' else 'halved_take_left_no_trace')
    history.after(plan, lk, st)
    for k in lk.kinds:
        if k.endswith(':type'):
            st.probe('TypeErrors', lk.kinds[k])
    st.n['evaluations'] = sum(v for k, v in lk.kinds.items() if history.CATEGORY.get(k.split(':')[0]) in ('take', 'nav', 'many'))
    st.digest = lk.digest
    st.nontrivial = any(k.endswith(':type') for k in lk.kinds)


def shrink(plan):
    yield from history.shrink(plan)
    yield from c10.shrink(plan)
