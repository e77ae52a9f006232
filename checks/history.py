"""What C12-C17 share: several clients of the same documents, interleaved op by op, in lockstep with the model."""
from sim import core, gen, ops
from sim.author import METHODS, Author, prune
from sim.walk import walk

REPORTERS = ['Text', 'Html', 'Terminal']
LOCALES = ['en', 'de', 'es']
REAL = ['enolib: all of it (parser, resolver, elements, registered accessors, errors, reporters, locales)']
STUB = ['callbacks (loaders, message functions): generated', 'oracle: reference model of the notation and of the element API (sim/eno.py, sim/api.py)']
ASSUMPTIONS = ['the reference model states the documented behaviour', 'sampling: histories not drawn were not tried']


def doc(rng, text):
    d = {'text': text}
    if rng.random() < .5:
        d['locale'] = rng.choice(LOCALES)
    if rng.random() < .6:
        d['reporter'] = rng.choice(REPORTERS)
    if rng.random() < .3:
        d['source'] = rng.choice(['conf.eno', '/etc/x.eno', 'a b', ''])
    return d


def history(rng, docs, steps, clients, shared=.7, names=(), lookups=0, **kw):
    a = Author(rng, docs, names=names, **kw)
    cs = ['c%d' % i for i in range(clients)]
    if names and rng.random() < .8:
        a.emit(None, {'m': 'register', 'names': {n: a.loader(False) for n in names}})
    first = a.parse(cs[0], 0)
    root = a.ops[-1]['as']
    for i, c in enumerate(cs[1:], 1):
        if len(docs) > 1 and rng.random() >= shared:
            a.parse(c, i % len(docs))
        else:
            a.pool[c] = [(root, 'Section', first.v.node)]
    weights = [rng.choice([1, 1, 2, 5]) for _ in cs]
    while len(a.ops) < steps:
        c = rng.choices(cs, weights)[0]
        roll = rng.random()
        if lookups and roll < lookups:
            i = rng.randrange(len(docs))
            a.emit(c, {'m': 'lookup', 'doc': i, 'index': rng.randrange(len(docs[i]['text']) + 1)})
        elif names and roll > .97:
            n = rng.choice(names)
            a.emit(None, {'m': 'register', 'names': {n: a.loader(False)}, 'via': rng.choice(['names', 'functions', 'dict'])})
        elif a.step(c) is None:
            break
    prune(a.ops)
    a.ops[[o['m'] for o in a.ops].index('parse')]['as'] = root
    return a.ops


CATEGORY = {m: v[0] for kind in METHODS.values() for m, v in kind.items()}


def category(op):
    return CATEGORY.get(op['m'], 'registered')


def after(plan, lk, st, leave=0):
    """a complete reading of the first document"""
    root = next((o['as'] for o in plan['ops'] if o['m'] == 'parse' and o.get('as')), None)
    if plan.get('walk') is not None and root in lk.model.h:
        before = lk.done
        walk(lk, root, plan['walk'], leave=leave)
        st.add('steps', lk.done - before)
    st.add('evaluations', lk.done)
    settle(lk, st)
    st.digest = lk.digest
    return root


def settle(lk, st):
    """what the clients were given is still what they were given"""
    if not lk.stopped:
        st.add('handed_out_kept', lk.settle())
        if lk.handed.scribble:
            st.fault('client changes what it was given', lk.handed.n // lk.handed.scribble)


def run(plan, st, judge=None):
    lk = ops.Lockstep(plan['docs'], judge=judge, scribble=plan.get('scribble', 0))
    last, switches = None, 0
    lk.failed = 0
    for op in plan['ops']:
        m = lk.do(op)
        if m is not None:
            lk.failed += m.kind != 'value'
            if op.get('c') != last:
                switches += 1
                last = op.get('c')
            st.state(op['m'], m.kind)
    st.add('steps', lk.done)
    st.add('errors_compared', lk.errors)
    st.add('client_switches', switches)
    if lk.stopped:
        st.add('stopped_elsewhere')
    for k, v in lk.kinds.items():
        st.probe(k, v)
    st.digest = lk.digest
    return lk


def shrink(plan):
    yield from core.shrink_list(plan, 'ops')
    for i in range(len(plan['docs'])):
        yield from core.shrink_text(plan, 'docs', i, 'text')
    if plan.get('walk') is not None:
        yield {**plan, 'walk': None}
    for i, op in enumerate(plan['ops']):
        for j, a in enumerate(op.get('a', ())):
            if isinstance(a, dict) and a.get('ops'):
                yield from core.shrink_list(plan, 'ops', i, 'a', j, 'ops')


def text(rng, **force):
    if rng.random() < (.25 if force.get('copy', 0) >= .4 else .05):
        return rng.choice([gen.valid_knots, gen.valid_merges])(rng)
    st = gen.Style(rng, **force)
    return gen.document(rng, st)
