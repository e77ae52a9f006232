"""C06: content lost from a document is reported as missing, never as a crash"""
from sim import core, eno, ops, storage
from sim.author import Author, prune
from sim.core import Violation

from . import damage

ID = 'C06'
RUNS = {'quick': (18000, 240), 'thorough': (100000, 1500)}
RULE = ('one case = one operation of a program written for the intact document and run on what faults left of it; a run is non-trivial when some operation met '
        'an absent element; distinct by program and texts')
STATES = 'distinct (operation, kind of handle, outcome) triples'
REAL = ['enolib: section and fieldset accessors, the missing-element classes, validation errors, reporters']
STUB = damage.STUB + ['reader program: generated from the intact document', 'reference element API (sim/api.py)']
ASSUMPTIONS = damage.ASSUMPTIONS
WEIGHTS = {'nav': 14, 'take': 4, 'value': 6, 'typed': 3, 'many': 3, 'key': 3, 'comment': 3, 'raw': 1, 'assert': .5, 'touch': .3, 'strict': .4, 'err': .5, 'parent': .5}


def plan(rng, tier):
    intact = damage.text(rng, 0)
    while damage.model(intact)[0] != 'ok':
        intact = damage.text(rng, 0)
    versions = iter([intact])
    disk = storage.plan(rng, lambda: next(versions, intact), rng.choice([2, 4, 6]))
    if rng.random() < .7:       # whole lines lost, which usually leaves a readable document
        lines = intact.split('\n')
        for _ in range(3):
            i = rng.randrange(len(lines))
            disk['steps'].append(['text', '\n'.join(lines[:i] + lines[i + rng.choice([1, 1, 2, 5, 50]):])])
    keyless = rng.random() < .15
    if keyless:     # next to nothing is left
        lines = [l for l in intact.split('\n') if l.startswith('#')]
        disk['steps'].append(['text', '\n'.join(lines[:rng.choice([0, 0, 1, 2])])])
    written_for = '\n'.join(lines[:1]) if keyless and rng.random() < .7 else intact        # or for what may be left of it
    if damage.model(written_for)[0] != 'ok':
        written_for = intact
    a = Author(rng, [{'text': written_for}], WEIGHTS, missing=rng.choice([.1, .3, .6]), loaders=['tag', 'id', 'fail', 'int'])
    a.keyless = .5 if keyless else .12
    a.parse('c', 0)
    for _ in range(rng.choice([8, 15, 30])):
        a.step('c')
    return {'disk': disk, 'opts': [damage.opts(rng)], 'ops': prune(a.ops)}


def run(plan, st):
    for doc in damage.readings(plan, st):
        if damage.model(doc['text'])[0] != 'ok':
            continue
        lk = ops.Lockstep([doc])
        met = False
        try:
            for op in plan['ops']:
                kind = None
                if 'on' in op and lk.model.has(op):
                    kind = type(lk.model.ref(op['on'])).__name__
                    if not hasattr(lk.model.ref(op['on']), op['m']) and op['m'] != '__repr__':
                        st.add('not_offered')       # the chain the program expected does not exist on what it got
                        continue
                    if getattr(getattr(lk.model.ref(op['on']), 'node', None), 'type', None) == eno.DOCUMENT and op['m'] in ('error', 'key_error', 'comment_error'):
                        continue
                m = lk.do(op)
                if m is not None:
                    st.add('evaluations')
                    st.state(op['m'], kind, m.kind)
                    if kind and kind.startswith('Missing'):
                        met = True
                        st.probe('on %s: %s' % (kind, m.kind))
        except Violation as v:
            raise Violation(v.cls, '%s: %s' % (damage.brief(doc), v.msg))
        st.add('steps', lk.done)
        st.event(lk.digest.hexdigest())
        st.nontrivial = st.nontrivial or met


def shrink(plan):
    yield from damage.shrink(plan)
    yield from core.shrink_list(plan, 'ops')
