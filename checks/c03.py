"""C03: what survives damage reads back exactly as stored"""
from sim import ops, walk
from sim.core import Violation

from . import damage

ID = 'C03'
RUNS = {'quick': (12000, 240), 'thorough': (80000, 1500)}
RULE = ('one case = one accepted text a reader got from the simulated disk, read completely through the element API; a run is non-trivial when a fault fired '
        'and an accepted text was not one that was written; distinct by the texts read')
STATES = 'distinct (operation, outcome) pairs of the readers'
REAL = ['enolib parse, resolver, context (values, comments, elements, copies), the element classes, selections of error()']
STUB = damage.STUB + ['reference element API (sim/api.py)']
ASSUMPTIONS = damage.ASSUMPTIONS


def plan(rng, tier):
    p = damage.plan(rng, odd=rng.choice([0, .1, .3]))
    p['walk'] = rng.randrange(1 << 30)
    return p


def run(plan, st):
    written = {s[1] for s in plan['disk']['steps'] if s[0] == 'write'}
    survived = False
    for n, doc in enumerate(damage.readings(plan, st)):
        want, m = damage.model(doc['text'])
        if want != 'ok':
            continue
        st.add('evaluations')
        lk = ops.Lockstep([doc])
        try:
            lk.do({'m': 'parse', 'doc': 0, 'as': 'r'})
            walk.walk(lk, 'r', plan['walk'] + n)
        except Violation as v:
            raise Violation(v.cls, '%s: %s' % (damage.brief(doc), v.msg))
        survived = survived or doc['text'] not in written
        st.add('steps', lk.done)
        st.event(lk.digest.hexdigest())
        for k, v in lk.kinds.items():
            st.probe(k, v)
            st.state(k)
        if m.copies:
            st.probe('document with copies')
    st.nontrivial = bool(st.faults) and survived


shrink = damage.shrink
