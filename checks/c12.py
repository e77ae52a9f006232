"""C12: a read gives the same answer at any point of any history"""
from . import history

ID = 'C12'
RUNS = {'quick': (12000, 300), 'thorough': (90000, 1500)}
RULE = ('one case = one operation of a history of up to 80 operations by one to three clients of the same documents (reads, takes, raw dumps, failed queries, error reports, '
        'debug prints, touch assertions, re-entrant and failing callbacks, registrations, lookups) and of a complete reading afterwards; every answer and every identity of '
        'a handle is compared with the model, which has no caches. A run is non-trivial when at least one operation before the last failed or two clients took turns; '
        'distinct by documents and history')
STATES = 'distinct (operation, outcome kind) pairs'
REAL, STUB, ASSUMPTIONS = history.REAL, history.STUB, history.ASSUMPTIONS


def plan(rng, tier):
    docs = [history.doc(rng, history.text(rng)) for _ in range(rng.choice([1, 1, 1, 2]))]
    names = rng.choice([(), (), ('n',), ('n', 'm')])
    return {'docs': docs, 'ops': history.history(rng, docs, rng.choice([10, 20, 40, 80]), rng.choice([1, 2, 3]), lookups=rng.choice([0, .05]), names=names,
                                                 loaders=['tag', 'tag', 'id', 'none', 'zero', 'blank', 'int', 'fail', 'raise:KeyError', 'reenter']),
            'scribble': rng.choice([0, 0, 1, 3]), 'walk': rng.randrange(1 << 30) if rng.random() < .6 else None}


def run(plan, st):
    lk = history.run(plan, st)
    history.after(plan, lk, st)
    st.nontrivial = lk.failed > 0 or st.n.get('client_switches', 0) > 1


shrink = history.shrink
