"""C18: an error report is the same whenever it is made and however others fail"""
import json

from sim import core, messages, ops
from sim.author import Author, prune
from sim.core import Violation

from . import damage, history, threads

ID = 'C18'
RUNS = {'quick': (14000, 300), 'thorough': (100000, 1500)}
RULE = ('one case = one error (made directly, by a refused value, a missing or unexpected element, an untouched element) in a history in which message functions, loaders and '
        'custom reporters fail at drawn calls; text, cursor, selection and snippet are compared with the model, with earlier reports of the same cause, and (text, message, '
        'snippet, cursor, selection) with a report made in a fresh process that did nothing else. A run is non-trivial when at least one callback failed and one error was '
        'compared; distinct by documents and history')
STATES = 'distinct (operation, outcome kind) pairs'
REAL = history.REAL
STUB = ['message functions, loaders, failing subclasses of the reporters: generated'] + history.STUB[1:]
ASSUMPTIONS = history.ASSUMPTIONS + ['terminal snippets of texts that contain escape characters themselves are compared without colours']
RAISES = ['raise:KeyError', 'raise:ValueError', 'raise:TypeError', 'raise:AttributeError', 'raise:Boom', 'raise:KeyboardInterrupt', 'raise:StopIteration', 'raise:RecursionError']
TIMELESS = ('err', 'typed', 'value', 'comment', 'registered')


def plan(rng, tier):
    d = history.doc(rng, history.text(rng, **rng.choice([{}, {'comment': .6, 'blank': .3}, {'copy': .5}, {'multi': .3, 'conts': .6}, {'empty': .5}])))
    if rng.random() < .35:
        d['reporter'] = {'base': rng.choice(history.REPORTERS), 'fail': sorted(rng.sample(range(1, 12), rng.choice([1, 2, 4]))), 'in': rng.choice(['init', 'snippet']),
                         'raise': rng.choice([r[6:] for r in RAISES])}
    other = history.doc(rng, threads.text(rng) if rng.random() < .3 else damage.soup(rng))
    if rng.random() < .3:
        other['reporter'] = {'base': rng.choice(history.REPORTERS), 'fail': sorted(rng.sample(range(1, 4), rng.choice([1, 2]))), 'in': rng.choice(['init', 'snippet']),
                             'raise': rng.choice([r[6:] for r in RAISES])}
    docs = [d, other]
    a = Author(rng, docs, missing=rng.choice([.1, .4]), loaders=['tag', 'int', 'fail', 'fail0', 'failsub', 'raise:KeyError', 'reenter'], messages=['tag', 'none', 'reenter'] + rng.sample(RAISES, 3),
               weights={'err': 16, 'typed': 6, 'assert': 3, 'strict': 1, 'nav': 10, 'many': 7, 'take': 5, 'value': 4, 'raw': 2, 'repr': 2})
    clients = ['c%d' % i for i in range(rng.choice([1, 1, 2]))]
    root = a.parse(clients[0], 0)
    name = a.ops[0]['as']
    for c in clients[1:]:
        a.pool[c] = [(name, 'Section', root.v.node)]
    for _ in range(rng.choice([10, 20, 40])):
        if rng.random() < .2 and len(a.ops) > 2:        # the same again
            op = rng.choice(a.ops[1:])
            if 'on' in op and history.category(op) not in ('nav', 'many', 'take', 'strict', 'touch', 'parent'):
                a.emit(op['c'], {k: v for k, v in op.items() if k != 'as'})
                continue
        if rng.random() < .08:
            a.emit(clients[0], {'m': 'parse', 'doc': 1})
            continue
        if a.step(rng.choice(clients)) is None:
            break
    prune(a.ops)
    a.ops[0]['as'] = name
    return {'docs': docs, 'ops': a.ops, 'scribble': rng.choice([0, 0, 1, 2, 5])}


def subject(op, v):
    return history.category(op) == 'err' or v.cls.startswith(('error', 'handed', 'snippet', 'own', 'calls', 'outcome', 'escape'))


def calm(op):
    """no callback of the op does anything but answer"""
    return not any(isinstance(x, dict) and x['do'] in ('reenter',) for x in list(op.get('a', ())) + list(op.get('k', {}).values()))


def chain(by_name, op):
    """the ops that make the handles op needs"""
    out = []
    while 'on' in op:
        op = by_name.get(ops.World.base(op['on']))
        if op is None:
            return None
        out.append(op)
    return out[::-1]


def twin(docs, jobs):
    """each report again, after nothing but what leads to its element"""
    docs = [dict(d, reporter=d['reporter']['base']) if isinstance(d.get('reporter'), dict) else d for d in docs]
    out = []
    for steps, op in jobs:
        w = ops.Real(docs)
        for s in steps:
            if not w.has(s):
                break
            w.call(s)
        out.append(w.norm(w.call(op), False) if w.has(op) else None)
    return out


def run(plan, st):
    messages.verify()
    lk = ops.Lockstep(plan['docs'], judge=subject, scribble=plan.get('scribble', 0))
    first, jobs, want, by_name = {}, [], [], {}
    for op in plan['ops']:
        m = lk.do(op)
        if m is None:
            continue
        st.state(op['m'], m.kind)
        if op.get('as'):
            by_name[op['as']] = op
        if m.kind == 'own':
            st.fault('callback ' + type(m.v).__name__)
        reported = lk.last.kind == 'error' or (lk.last.kind == 'value' and isinstance(lk.last.v, (core.lib.ValidationError, core.lib.ParseError)))
        if not reported or history.category(op) not in TIMELESS or not calm(op):
            continue
        data = lk.last_data
        key = json.dumps({k: v for k, v in op.items() if k not in ('c', 'as')}, sort_keys=True)
        st.add('evaluations')
        if first.setdefault(key, data) != data:
            raise Violation('error-repeated', '%s: first %s, now %s' % (ops.describe(op), threads.brief(first[key]), threads.brief(data)))
        steps = chain(by_name, op)
        if steps is not None and len(jobs) < 12:
            jobs.append((steps, op))
            want.append(data)
    history.settle(lk, st)
    if jobs and not lk.stopped:
        got = core.isolated(twin, plan['docs'], jobs)
        if not isinstance(got, list):
            raise RuntimeError('twin: %r' % got)
        for (steps, op), a, b in zip(jobs, want, got):
            st.add('twins')
            a = threads.plain(a)
            if a != b:
                raise Violation('error-history', '%s: in this history %s, in a fresh process %s' % (ops.describe(op), threads.brief(a), threads.brief(b)))
    st.add('steps', lk.done)
    st.digest = lk.digest
    st.nontrivial = bool(st.faults) and bool(want)


shrink = history.shrink
