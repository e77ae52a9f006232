"""C01: damaged documents end in a document or a ParseError, in bounded steps"""
from sim import core, storage, trace
from sim.core import Violation, lib

from . import damage

ID = 'C01'
RUNS = {'quick': (24000, 240), 'thorough': (150000, 1500)}
RULE = ('one case = one text a reader got from the simulated disk, parsed with drawn locale, reporter and source; a run is non-trivial when a fault fired '
        'and at least one text was rejected or differs from what was written; distinct by the texts read')
STATES = 'distinct (verdict, kind of defect, number of lines) seen'
REAL = ['enolib parse: analyzer, grammar, resolver, errors, reporters, locales']
STUB = damage.STUB
ASSUMPTIONS = damage.ASSUMPTIONS + ['steps are counted as traced events (calls, lines, returns) inside enolib in a fifth of the runs; time inside the regex engine only shows as CPU time of a run (limit %d s, normal: milliseconds)' % core.CPU_S,
                                    'nesting and copy chains deeper than the interpreter\'s stack are a listed finding, not searched']


def bound(text):
    """events parsing may take: about five times what it takes today (see DESIGN.md), polynomial in the size of the text"""
    lines = text.count('\n') + 1
    return 1500 + 10 * len(text) + 600 * lines + 10 * lines * lines


# deeper than the stack: listed in known_findings.json by name
DEEP = {
    'deep-copy-chain': ('ok', lambda: '\n'.join(['k%d < k%d' % (i, i + 1) for i in range(1200)] + ['k1200: v'])),
    'deep-section-copy-chain': ('ok', lambda: '\n'.join(['# k%d < k%d' % (i, i + 1) for i in range(1200)] + ['# k1200', 'a: 1'])),
    'deep-nesting-then-error': ('error', lambda: '\n'.join('#' * (i + 1) + ' k' for i in range(1200)) + '\nfoo'),
}


def plan(rng, tier):
    if rng.random() < .015:
        return {'disk': storage.plan(rng, lambda: damage.miles(rng), 2), 'opts': [damage.opts(rng)], 'traced': False}
    p = damage.plan(rng, odd=rng.choice([.1, .3, .6]))
    p['traced'] = rng.random() < .2
    return p


def run(plan, st):
    if 'deep' in plan:
        return deep(plan['deep'], st)
    differs = False
    for doc in damage.readings(plan, st):
        st.add('evaluations')
        want, m = damage.model(doc['text'])
        if plan['traced']:
            limit = bound(doc['text'])
            (got, _v), n = trace.count(lambda: damage.parse(doc), limit=limit)
            st.add('steps', n)
            st.add('traced')
            st.probe('steps_used_percent_of_bound:%d0' % (10 * n // limit))
            st.event(n)
        else:
            got, _v = damage.parse(doc)
        if got != want:
            raise Violation('verdict:' + got, '%s is %s, the grammar says %s' % (damage.brief(doc), got, want if want == 'ok' else m))
        kind = 'ok' if want == 'ok' else m.kind
        st.probe('verdict:' + kind)
        st.state(kind, doc['text'].count('\n'))
        st.event((kind, doc['text']))
        differs = differs or want != 'ok'
    st.nontrivial = bool(st.faults) and differs


def deep(name, st):
    want, make = DEEP[name]
    try:
        lib.parse(make())
        got = 'ok'
    except lib.ParseError:
        got = 'error'
    except RecursionError:
        st.findings.append({'id': 'C01-' + name, 'cls': 'escape:RecursionError', 'msg': 'parsing %s raises RecursionError' % name, 'plan': {'deep': name}})
        return
    if got != want:
        raise Violation('verdict:' + got, '%s is %s, the grammar says %s' % (name, got, want))


def seeds(i):
    """the first runs are the listed deep documents"""
    names = sorted(DEEP)
    return {'deep': names[i]} if i < len(names) else None


def shrink(plan):
    if 'deep' not in plan:
        if plan['traced']:
            yield {**plan, 'traced': False}
        yield from damage.shrink(plan)
