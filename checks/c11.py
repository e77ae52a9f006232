"""C11: parsing gives the same result whatever happened before in the process"""
import gc

from sim import core, gen, ops, trace
from sim.author import Author
from sim.core import Violation
from sim.dump import begin, dump

from . import damage, history, threads

ID = 'C11'
RUNS = {'quick': (2500, 300), 'thorough': (60000, 1500)}
RULE = ('one case = the complete reading of a text with given options after a drawn history in the same process (other documents parsed, rejected, interrupted, starved of '
        'stack, queried, validated, registered upon, thrown away), compared with the reading in a process that never did anything else. A run is non-trivial when the history '
        'contained at least one failed or interrupted operation; distinct by texts and history')
STATES = 'distinct (kind of step, outcome) in the histories'
REAL = history.REAL
STUB = ['callbacks: generated', 'signals, timeouts, memory and stack exhaustion: exceptions raised by the trace function, a lowered recursion limit']
ASSUMPTIONS = ['the outcome in a fresh process is taken as right (C01-C03 decide that)', 'sampling: histories not drawn were not tried']


def some_text(rng):
    return damage.text(rng, odd=rng.choice([0, .3, .6])) if rng.random() < .5 else threads.text(rng)


def near(rng, text):
    """a text that shares much with another"""
    lines = text.split('\n')
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(lines))
        how = rng.randrange(5)
        if how == 0:
            del lines[i]
            lines = lines or ['']
        elif how == 1:
            lines.insert(i, rng.choice(['!', '- x', 'a = b', '|', '# s', 'a < nowhere', '-- open', '> c', 'k: v']))
        elif how == 2:
            lines[i] += rng.choice([' ', ' x', ':', '1'])
        elif how == 3:
            lines[i] = lines[i][:rng.randrange(len(lines[i]) + 1)]
        else:
            lines = lines[:i + 1]
    return '\n'.join(lines)


def small(rng):
    """a short text, mostly one that is rejected"""
    for _ in range(10):
        t = rng.choice([gen.knots, gen.knots, damage.soup, lambda r: near(r, threads.text(r, width=2, depth=1))])(rng)
        if len(t) < 160:
            return t
    return 'a < b\nb < a'


def plan(rng, tier):
    if rng.random() < .12:      # one parse cut off at every point in turn, another checked after each
        d = history.doc(rng, small(rng))
        probes = [history.doc(rng, rng.choice([d['text'], near(rng, d['text']), small(rng)])) for _ in range(rng.choice([1, 2]))]
        return {'canon': probes, 'positions': [[] for _ in probes],
                'steps': [{'do': 'sweep', 'doc': d, 'exc': rng.choice(threads.KILLS), 'what': rng.choice(['parse', 'parse', 'dump']), 'offset': rng.randrange(1000)}]}
    canon = [history.doc(rng, some_text(rng)) for _ in range(rng.choice([1, 2, 3]))]
    if len(canon) > 1 and rng.random() < .6:
        canon[1]['text'] = canon[0]['text'] if rng.random() < .5 else near(rng, canon[0]['text'])
    steps = []
    for _ in range(rng.choice([2, 5, 10])):
        roll = rng.random()
        t = rng.choice(canon)['text'] if rng.random() < .4 else (near(rng, rng.choice(canon)['text']) if rng.random() < .6 else some_text(rng))
        d = history.doc(rng, t)
        if roll < .2:
            steps.append({'do': 'parse', 'doc': d, 'keep': rng.random() < .4, 'scribble': rng.random() < .2})
        elif roll < .5:
            steps.append({'do': 'cut', 'doc': d, 'exc': rng.choice(threads.KILLS), 'r': round(rng.random(), 4), 'opcodes': rng.random() < .4 and len(t) < 1500,
                          'what': rng.choice(['parse', 'dump', 'lookup']), 'at': rng.randrange(len(t) + 1)})
        elif roll < .58:
            steps.append({'do': 'starve', 'doc': d, 'frames': rng.randrange(3, 40), 'what': rng.choice(['parse', 'dump'])})
        elif roll < .66:
            steps.append({'do': 'register', 'names': {rng.choice(['n', 'm']): {'fn': 'loader', 'id': 1, 'do': rng.choice(['tag', 'fail'])}}})
        elif roll < .72:
            steps.append({'do': 'gc'})
        elif roll < .8:
            steps.append({'do': 'churn', 'texts': [near(rng, t) for _ in range(rng.choice([3, 10]))]})
        else:
            a = Author(rng, [d], inner_parses=.2, loaders=['tag', 'int', 'fail', 'raise:KeyError', 'reenter'], weights={'err': 4, 'assert': 4})
            a.parse('c', 0)
            for _ in range(rng.choice([3, 10])):
                if a.step('c') is None:
                    break
            steps.append({'do': 'ops', 'doc': d, 'ops': threads.prune(a.ops), 'scribble': rng.choice([0, 0, 1])})
        if rng.random() < .3:
            steps.append({'do': 'check', 'which': rng.randrange(len(canon))})
    positions = [sorted(rng.randrange(len(d['text']) + 2) for _ in range(rng.choice([0, 2]))) for d in canon]
    # some of the texts are already parsed somewhere in the history and read only at its end
    held = [rng.randrange(len(steps) + 1) if rng.random() < .4 else None for _ in canon]
    return {'canon': canon, 'positions': positions, 'steps': steps, 'held': held}


def reading(plan, i, root=None):
    d = plan['canon'][i]
    return dump(dict(d, text=str(d['text'])), plan['positions'][i], root)


def parsed(d):
    """what parsing alone gives"""
    try:
        return {'raw': damage.lib.parse(str(d['text']), **ops.options(d)).raw()}
    except damage.lib.ParseError as e:
        return {'error': ops.error_data(e)}


def measured(fn, opcodes):
    return {'n': trace.count(fn, opcodes)[1]}


def attempt(fn):
    try:
        fn()
        return 'done'
    except BaseException as e:
        return type(e).__name__


def action(step):
    d = step['doc']
    if step['what'] == 'parse':
        return lambda: damage.lib.parse(d['text'], **ops.options(d))
    if step['what'] == 'lookup':
        return lambda: damage.lib.lookup(d['text'], index=step['at'], **ops.options(d))
    return lambda: dump(d)


def run(plan, st):
    want = [core.isolated(reading, plan, i) for i in range(len(plan['canon']))]
    for w in want:
        if 'harness' in w or 'died' in w:
            raise Violation('fresh', 'reading in a fresh process: %r' % w)
    quick = [core.isolated(parsed, d) for d in plan['canon']] if any(step['do'] == 'sweep' for step in plan['steps']) else []
    trouble = 0
    keep = []
    world = ops.Real([])

    def check(i, root=None):
        got = threads.plain(reading(plan, i, root))
        st.add('evaluations')
        if got != want[i]:
            raise Violation('history', '%s%s: fresh %s, now %s' % (damage.brief(plan['canon'][i]), ' parsed earlier' if root else '', *difference(want[i], got)))

    held = plan.get('held') or []
    roots = {}

    def hold(k):
        for i, at in enumerate(held):
            if at == k:
                roots[i] = begin(plan['canon'][i])
                st.add('kept unread')

    for k, step in enumerate(plan['steps']):
        hold(k)
        do = step['do']
        outcome = ''
        if do == 'parse':
            try:
                h = damage.lib.parse(step['doc']['text'], **ops.options(step['doc']))
                outcome = 'ok'
                if step['keep']:
                    keep.append(h)
            except damage.lib.ParseError as e:
                outcome = 'rejected'
                trouble += 1
                if step.get('scribble'):
                    ops.scribble(e.selection)
                if step['keep']:
                    keep.append(e)
            st.fault('rejected parse', outcome == 'rejected')
        elif do == 'cut':
            fn = action(step)
            n = core.isolated(measured, lambda: attempt(fn), step['opcodes'])['n']
            hit, _how, _out = trace.inject(fn, 1 + int(step['r'] * n), lambda: trace.ASYNC[step['exc']]('injected'), step['opcodes'])
            trouble += hit.fired
            outcome = step['what']
            st.fault('interrupted ' + step['what'], int(hit.fired))
        elif do == 'sweep':
            fn = action(step)
            n = core.isolated(measured, lambda: attempt(fn), False)['n']
            stride = max(1, n // 250)
            fired = 0
            for k in range(1 + step['offset'] % stride, n + 1, stride):
                hit, _how, _out = trace.inject(fn, k, lambda: trace.ASYNC[step['exc']]('injected'))
                fired += hit.fired
                for i, d in enumerate(plan['canon']):
                    st.add('evaluations')
                    got = threads.plain(parsed(d))
                    if got != quick[i]:
                        raise Violation('history', '%s after %s cut off at event %d: fresh %s, now %s' % (damage.brief(d), damage.brief(step['doc']), k, *difference(quick[i], got)))
            st.fault('interrupted ' + step['what'], fired)
            trouble += fired > 0
        elif do == 'starve':
            how, e = trace.starve(action(step), step['frames'])
            outcome = type(e).__name__ if how == 'raise' else 'ok'
            st.fault('stack exhausted', int(isinstance(e, RecursionError)))
            trouble += isinstance(e, RecursionError)
        elif do == 'register':
            world.call({'m': 'register', 'names': step['names']})
        elif do == 'gc':
            keep.clear()
            gc.collect()
        elif do == 'churn':
            for t in step['texts']:
                attempt(lambda: damage.lib.parse(t))
            gc.collect()
        elif do == 'ops':
            w = ops.Real([step['doc']])
            handed = ops.Handed(step.get('scribble', 0))
            for op in step['ops']:
                if w.has(op):
                    out = w.call(op)
                    handed.take('', op['m'], out)
                    st.fault('failed operation', int(out.kind != 'value'))
                    trouble += out.kind != 'value'
            keep.append(w)
        elif do == 'check':
            if step['which'] < len(plan['canon']):
                check(step['which'])
        st.add('steps')
        st.state(do, outcome)
        st.event((do, outcome))
    hold(len(plan['steps']))
    for i in roots:
        check(i, roots[i])
    for i in range(len(plan['canon'])):
        check(i)
    st.event(want)
    st.nontrivial = trouble > 0


def difference(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if a.get(k) != b.get(k):
                return difference(a.get(k), b.get(k))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return difference(x, y)
    return threads.brief(a), threads.brief(b)


def shrink(plan):
    yield from core.shrink_list(plan, 'steps')
    if len(plan['canon']) > 1:
        for i in range(len(plan['canon'])):
            yield {**plan, 'canon': [plan['canon'][i]], 'positions': [plan['positions'][i]], 'held': (plan.get('held') or [None] * len(plan['canon']))[i:i + 1]}
    for i, at in enumerate(plan.get('held') or []):
        if at:
            yield {**plan, 'held': plan['held'][:i] + [0] + plan['held'][i + 1:]}
    for i in range(len(plan['canon'])):
        yield from core.shrink_text(plan, 'canon', i, 'text')
    for i, s in enumerate(plan['steps']):
        if 'ops' in s:
            yield from core.shrink_list(plan, 'steps', i, 'ops')
        if 'doc' in s:
            yield from core.shrink_text(plan, 'steps', i, 'doc', 'text')
