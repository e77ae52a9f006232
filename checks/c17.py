"""C17: a failing loader fails exactly its own read and nothing else"""
from . import history

ID = 'C17'
RUNS = {'quick': (14000, 300), 'thorough': (120000, 1500)}
RULE = ('one case = one read through a loader (own or registered; of values, items, keys, comments; there or absent) that returns anything, refuses with a ValueError of some '
        'form, raises anything else, fails at its second or third call, or reads, dumps, validates and parses documents itself; calls, arguments and outcome, and all later '
        'reads, are compared with the model. A run is non-trivial when at least one loader failed and one later read was compared; distinct by documents and history')
STATES = 'distinct (operation, outcome kind) pairs'
REAL = history.REAL
STUB = ['loaders and message functions: generated, they record their calls'] + history.STUB[1:]
ASSUMPTIONS = history.ASSUMPTIONS
LOADERS = ['tag', 'tag', 'id', 'none', 'zero', 'blank', 'false', 'list', 'int', 'int', 'fail', 'fail', 'fail0', 'fail2', 'failsub', 'bytes', 'json', 'raise:KeyError', 'raise:AttributeError',
           'raise:TypeError', 'raise:StopIteration', 'raise:StopIteration', 'raise:IndexError', 'raise:RecursionError', 'raise:KeyboardInterrupt', 'raise:GeneratorExit', 'raise:LookupError', 'raise:Boom', 'raise:OSError', 'raise:SystemExit',
           'raise:MemoryError', 'raise:AssertionError', 'reenter', 'reenter', 'reenter']


def plan(rng, tier):
    docs = [history.doc(rng, history.text(rng, **rng.choice([{}, {'empty': .3, 'comment': .6}, {'conts': .8}, {'multi': .4}, {'copy': .4}, {'empty': .05, 'multi': 0, 'long': .1}])))]
    docs.append(history.doc(rng, rng.choice(['a: b', '!', 'a\n', 'a = b', '# s\nx: 1', 'k < missing'])))
    names = rng.choice([(), ('n',), ('n', 'm')])
    return {'docs': docs, 'ops': history.history(rng, docs, rng.choice([10, 20, 40]), rng.choice([1, 1, 2]), shared=1, names=names, lookups=rng.choice([0, .03]), loaders=LOADERS, inner_parses=.15,
                                                 missing=rng.choice([.1, .3]), weights={'typed': 16, 'err': 1, 'raw': 1, 'value': 4, 'key': 1, 'comment': 2, 'assert': 1}),
            'walk': rng.randrange(1 << 30) if rng.random() < .4 else None}


def run(plan, st):
    lk = history.run(plan, st)
    calls = failed = 0
    for op in plan['ops']:
        for a in op.get('a', ()):
            if isinstance(a, dict) and a['fn'] == 'loader':
                calls += 1
                kind = a['do'].split(':')[0]
                failed += kind.startswith(('fail', 'raise', 'int', 'bytes', 'json'))
                st.fault('loader ' + a['do'])
    history.after(plan, lk, st)
    st.n['evaluations'] = sum(v for k, v in lk.kinds.items() if history.CATEGORY.get(k.split(':')[0], 'typed') == 'typed')
    st.nontrivial = failed > 0 and any(k.endswith((':own', ':error')) for k in lk.kinds)


shrink = history.shrink
