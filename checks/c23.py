"""C23: a long-running process keeps nothing of the documents it is done with"""
import gc
import json
import sys
import types

from sim import core, ops, trace
from sim.author import Author
from sim.core import Violation, lib

from . import damage, history, threads

ID = 'C23'
RUNS = {'quick': (700, 300), 'thorough': (12000, 1500)}
RULE = ('one case = one document of a long-running process: parsed (or rejected), read, queried, validated, reported on, looked up, some operations cut off by an asynchronous '
        'exception or starved of stack, some documents handled by a thread of their own, and then let go of. What is alive of the library (instances of its classes, and bytes '
        'reachable from its modules) is compared between two moments some hundred documents apart. A run is non-trivial when at least one document was rejected or one operation '
        'failed; distinct by documents and programs')
STATES = 'distinct (operation, outcome kind) pairs'
REAL = history.REAL
STUB = ['callbacks: generated', 'signals, timeouts, memory and stack exhaustion: exceptions raised by the trace function, a lowered recursion limit']
ASSUMPTIONS = ['what is alive = what the garbage collector of CPython can reach', 'caches that stop growing within some thousand documents are tolerated', 'sampling']
MARK = '\u00a7'
LATER = 12      # how many more rounds before growth counts as unbounded


def plan(rng, tier):
    items = []
    for _ in range(rng.choice([1, 2, 4, 6])):
        text = damage.text(rng) if rng.random() < .3 else (threads.text(rng, width=3, depth=2) if rng.random() < .7 else history.text(rng, far=False, depth=1, width=3))
        text = text[:600]
        # every document of the process has its own key, value, comment and label
        lines = text.split('\n')
        lines[0:0] = rng.choice([['k%s: v%s' % (MARK, MARK)], ['> c%s' % MARK, 'k%s:' % MARK, '- v%s' % MARK], ['`k%s`:' % MARK, 'a%s = v' % MARK], ['-- k%s' % MARK, 'v%s' % MARK, '-- k%s' % MARK],
                                 ['k%s:' % MARK, '| v%s' % MARK, '\\ w'], [], ['k: %s' % MARK, '!']])
        text = '\n'.join(lines)
        d = history.doc(rng, text)
        if rng.random() < .3:
            d['source'] = 's%s.eno' % MARK
        names = rng.choice([(), ('n',)])
        a = Author(rng, [d], inner_parses=.1, names=names, loaders=['tag', 'int', 'fail', 'raise:KeyError', 'reenter'], missing=.3, weights={'err': 4, 'assert': 3})
        a.parse('c', 0)
        for _ in range(rng.choice([3, 8])):
            if rng.random() < .15:
                a.emit('c', {'m': 'lookup', 'doc': 0, 'index': rng.randrange(len(text) + 1)})
            elif a.step('c') is None:
                break
        program = threads.prune(a.ops)
        for op in program:
            if rng.random() < .1:
                op['cut'] = rng.choice([{'k': rng.choice([1, 3, 10, 30, 100, 300]), 'exc': rng.choice(threads.KILLS)}, {'starve': rng.randrange(3, 30)}])
        items.append({'doc': d, 'ops': program, 'register': list(names) if rng.random() < .3 else [], 'thread': rng.random() < .1})
    return {'items': items, 'round': rng.choice([60, 100])}


def tag(v):
    return ['tag', v]


def process(item, st):
    """one document, from its arrival until the process is done with it"""
    w = ops.Real([item['doc']])
    if item['register']:
        lib.register(**{n: tag for n in item['register']})
    for op in item['ops']:
        if not w.has(op):
            continue
        c = op.get('cut')
        if c is None:
            out = w.call(op)
        elif 'starve' in c:
            how, out = trace.starve(lambda: w.call(op), c['starve'])
            st.fault('stack exhausted', int(how == 'raise' or isinstance(out.v, RecursionError)))
            continue
        else:
            hit, how, out = trace.inject(lambda: w.call(op), c['k'], lambda: trace.ASYNC[c['exc']]('injected'))
            st.fault(c['exc'], int(hit.fired))
            continue
        st.add('steps')
        st.add('failed', int(out.kind != 'value'))
        if out.kind != 'value':
            st.fault('failed operation')
        st.state(op['m'], out.kind)


def enolib(module):
    return isinstance(module, str) and (module == 'enolib' or module.startswith('enolib.'))


def alive():
    """(instances of the library's classes by class, bytes reachable from its modules)"""
    gc.collect()
    count = {}
    for o in gc.get_objects():
        t = type(o)
        if enolib(getattr(t, '__module__', None)):
            count[t.__name__] = count.get(t.__name__, 0) + 1
    mine = [m for n, m in sorted(sys.modules.items()) if enolib(n)]
    seen = {id(m.__dict__) for n, m in list(sys.modules.items()) if not enolib(n) and isinstance(getattr(m, '__dict__', None), dict)}
    size, todo = 0, [m.__dict__ for m in mine]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, types.ModuleType) and not enolib(o.__name__):
            continue
        if isinstance(o, type) and not enolib(o.__module__):
            continue
        if isinstance(o, types.FunctionType) and not enolib(o.__module__):
            continue
        if not isinstance(o, (type, types.FunctionType, types.CodeType)):
            size += sys.getsizeof(o)
        todo += gc.get_referents(o)
    return count, size


def run(plan, st):
    items = [core.dumps(x) for x in plan['items']]
    serial = [0]

    def rounds(n):
        for _ in range(n * plan['round']):
            i = serial[0]
            serial[0] += 1
            item = json.loads(items[i % len(items)].replace(json.dumps(MARK)[1:-1], '%06d' % i).replace(MARK, '%06d' % i))
            if item['thread'] and serial[0] % 5 == 0:
                trace.in_thread(lambda: process(item, st))
            else:
                process(item, st)
            trace.unraisable.clear()
        return alive()

    rounds(2)
    before = rounds(1)
    after = rounds(2)
    st.add('evaluations', serial[0])
    if grown(before, after, 2 * plan['round']):
        # a cache with a limit stops growing
        rounds(LATER)
        before = rounds(2)
        after = rounds(5)
        what = grown(before, after, 5 * plan['round'])
        st.add('slow_caches')
        if what:
            raise Violation('retained', 'after %d documents were let go of, %d more and %s: %r' % (serial[0] - 5 * plan['round'], 5 * plan['round'], what, plan['items'][0]['doc']['text'][:200]))
    st.event(plan)
    st.nontrivial = st.n.get('failed', 0) > 0


def grown(before, after, n):
    for name, k in after[0].items():
        if k - before[0].get(name, 0) > n / 50:
            return '%d more instances of %s are alive' % (k - before[0].get(name, 0), name)
    if after[1] - before[1] > n:
        return '%d more bytes are held by the modules of the library' % (after[1] - before[1])
    return None


def shrink(plan):
    yield from core.shrink_list(plan, 'items')
    for i, it in enumerate(plan['items']):
        yield from core.shrink_list(plan, 'items', i, 'ops')
        yield from core.shrink_text(plan, 'items', i, 'doc', 'text')
