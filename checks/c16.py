"""C16: requiring all elements reaches everything below, whenever it was taken"""
from . import history

ID = 'C16'
RUNS = {'quick': (16000, 300), 'thorough': (120000, 1500)}
RULE = ('one case = one query for a single element or entry, present or absent, in a history in which one to three clients switch the requirement on and off at several levels '
        'of the document, before and after sections and fieldsets below were taken through various accessors; the outcome is compared with the model. A run is non-trivial when '
        'a query that is optional by itself failed because of the requirement; distinct by documents and history')
STATES = 'distinct (operation, outcome kind) pairs'
REAL, STUB, ASSUMPTIONS = history.REAL, history.STUB, history.ASSUMPTIONS


def plan(rng, tier):
    docs = [history.doc(rng, history.text(rng, width=rng.choice([2, 3, 4]), depth=rng.choice([1, 2, 3, 4]), empty=.3, comment=0, multi=0, copy=rng.choice([0, .3, .6])))]
    ops_ = history.history(rng, docs, rng.choice([12, 25, 50]), rng.choice([1, 2, 3]), missing=rng.choice([.3, .5, .7]), lookups=.03,
                           weights={'strict': 7, 'nav': 22, 'many': 8, 'take': 8, 'value': 1, 'typed': 1, 'key': 0, 'comment': 0, 'raw': 1, 'err': 0, 'assert': 1, 'touch': 1, 'yield': 0, 'parent': 2})
    return {'docs': docs, 'ops': ops_, 'probe': [rng.choice(['optional_field', 'field', 'element', 'optional_section', 'section', 'fieldset', 'optional_list', 'empty', 'optional_element', 'required_field'])
                                               for _ in range(3)]}


def subject(op, v):
    return history.category(op) in ('nav', 'strict', 'many', 'take', 'parent')


def run(plan, st):
    lk = history.run(plan, st, subject)
    # ask every section and fieldset met for what is not there
    for name in list(lk.model.h):
        for ref in [name] if not isinstance(lk.model.h[name], list) else [[name, i] for i in range(min(4, len(lk.model.h[name])))]:
            kind = type(lk.model.ref(ref)).__name__
            for m in plan['probe'] if kind == 'Section' else ['optional_entry', 'entry'] if kind == 'Fieldset' else []:
                lk.do({'m': m, 'on': ref, 'a': ['nowhere']})
    implied = sum(v for k, v in lk.kinds.items() if k.endswith(':error') and k.split(':')[0] in ('element', 'empty', 'field', 'fieldset', 'list', 'section', 'entry', 'optional_entry')
                  or k.endswith(':error') and k.startswith('optional_') and 'value' not in k and 'comment' not in k)
    st.add('failed_by_requirement', implied)
    st.n['evaluations'] = sum(v for k, v in lk.kinds.items() if history.CATEGORY.get(k.split(':')[0]) == 'nav')
    st.digest = lk.digest
    st.nontrivial = implied > 0 and any(k.startswith('all_') for k in lk.kinds)


shrink = history.shrink
