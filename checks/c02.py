"""C02: a rejected damaged document is reported exactly where it is broken"""
from sim import messages, ops, storage
from sim.core import Violation

from . import damage

ID = 'C02'
RUNS = {'quick': (20000, 240), 'thorough': (120000, 1500)}
RULE = ('one case = one rejected text a reader got from the simulated disk, reported by each of the three reporters; a run is non-trivial when a fault fired '
        'and at least one text was rejected; distinct by the texts read')
STATES = 'distinct (kind of defect, line of the error, number of lines) seen'
REAL = ['enolib parse: analyzer, grammar, resolver, parsing errors, selections, the three reporters, locales']
STUB = damage.STUB
ASSUMPTIONS = damage.ASSUMPTIONS + ['where the notation leaves open which of several defects is reported, any of those the model lists is accepted',
                                    'terminal snippets of texts that contain escape characters themselves are compared without colours']


def plan(rng, tier):
    if rng.random() < .01:
        return {'disk': storage.plan(rng, lambda: damage.miles(rng), 2), 'opts': [damage.opts(rng)]}
    return damage.plan(rng, odd=rng.choice([.1, .3, .5]))


def run(plan, st):
    messages.verify()
    rejected = False
    for doc in damage.readings(plan, st):
        want, m = damage.model(doc['text'])
        if want == 'ok':
            continue
        rejected = True
        first = None
        for name in [doc.get('reporter')] + [r for r in damage.REPORTERS if r != doc.get('reporter')]:
            d = {**doc, 'reporter': name} if name else {k: v for k, v in doc.items() if k != 'reporter'}
            got, e = damage.parse(d)
            if got != 'error':
                raise Violation('accepted', '%s is accepted, the grammar says %s' % (damage.brief(d), m))
            where = 'parsing %s' % damage.brief(d)
            try:
                ops.check_error(e, m, d, where)
                data = ops.error_data(e)
            except (KeyError, TypeError, AttributeError, IndexError) as x:
                raise Violation('error-structure', '%s: malformed error: %r' % (where, x))
            if first is None:
                first = data
            elif (data['text'], data['selection']) != (first['text'], first['selection']):
                raise Violation('error-reporter', '%s: text and selection differ between reporters' % where)
            st.add('evaluations')
            st.event(data)
        st.probe('defect:' + m.kind)
        st.state(m.kind, first['selection'][0][0], doc['text'].count('\n'))
    st.nontrivial = bool(st.faults) and rejected


shrink = damage.shrink
