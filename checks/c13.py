"""C13: the touch assertion finds untouched content exactly when there is some"""
from sim.walk import walk

from . import history

ID = 'C13'
RUNS = {'quick': (16000, 300), 'thorough': (120000, 1500)}
RULE = ('one case = one touch assertion (on the document, a section, a fieldset; with and without only / skip / message) at some point of a history of takes, reads, touches, '
        'failed queries, raw dumps and reports by one to three clients, a partial and a complete reading; verdict, element pointed at and message are compared with the model. '
        'A run is non-trivial when at least one assertion failed and one passed; distinct by documents and history')
STATES = 'distinct (operation, outcome kind) pairs'
REAL, STUB = history.REAL, history.STUB
ASSUMPTIONS = history.ASSUMPTIONS + ['which of several untouched elements is pointed at is open']


def plan(rng, tier):
    docs = [history.doc(rng, history.text(rng, **rng.choice([{}, {'width': 3, 'depth': 1}, {'width': 2, 'depth': 3}, {'width': 3, 'copy': .5}])))]
    weights = rng.choice([{'assert': 10, 'touch': 4}, {'assert': 6, 'touch': 1, 'take': 12}, {'assert': 5, 'touch': 12}, {'assert': 10, 'touch': 0}])
    ops_ = history.history(rng, docs, rng.choice([8, 20, 40]), rng.choice([1, 2, 3]), lookups=rng.choice([0, .05]), weights={**weights, 'err': 2, 'raw': 2, 'repr': rng.choice([1, 6])},
                           loaders=['tag', 'id', 'int', 'fail', 'raise:KeyError', 'reenter'], messages=['tag', 'none', 'reenter'])
    return {'docs': docs, 'ops': ops_, 'walk': rng.randrange(1 << 30), 'leave': rng.choice([0, .05, .1, .3]), 'asks': [ask(rng) for _ in range(4)]}


def ask(rng):
    """what an assertion after the reading asks: parts of the keys, by position"""
    k = {}
    if rng.random() < .5:
        k[rng.choice(['only', 'skip'])] = [rng.randrange(6) for _ in range(rng.choice([1, 1, 2, 4]))]
    return {'k': k, 'message': rng.choice([None, None, 'left', 'two\nlines'])}


def question(a, handle):
    keys = [h.node.key for h in handle.all]
    op = {'m': 'assert_all_touched', 'k': {k: [keys[i] for i in v if i < len(keys)] for k, v in a['k'].items()}}
    if a['message']:
        op['a'] = [a['message']]
    return op


def run(plan, st):
    asserts = {'value': 0, 'error': 0}
    subject = lambda op, v: op['m'] in ('assert_all_touched', 'touch')
    lk = history.run(plan, st, subject)
    root = history.after(plan, lk, st, plan['leave'])
    if root in lk.model.h and not lk.stopped:
        names = [n for n in lk.model.h if not isinstance(lk.model.h[n], list) and hasattr(lk.model.h[n], 'assert_all_touched')][-6:]
        for a in plan['asks']:
            for n in [root] + names:
                lk.do({**question(a, lk.model.h[n]), 'on': n})
        if plan['leave']:
            walk(lk, root, plan['walk'] + 1)
            lk.do({'m': 'assert_all_touched', 'on': root})
    for k, v in lk.kinds.items():
        if k.startswith('assert_all_touched:'):
            asserts[k.split(':')[1]] = v
            st.add('asserts:' + k.split(':')[1], v)
    st.n['evaluations'] = lk.kinds.get('assert_all_touched:value', 0) + lk.kinds.get('assert_all_touched:error', 0)
    st.digest = lk.digest
    st.nontrivial = bool(asserts['value'] and asserts['error'])


shrink = history.shrink
