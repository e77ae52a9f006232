"""C25: every operation on a document ends in bounded steps, at any point of any history"""
from sim import core, eno, gen, ops, trace
from sim.author import Author, prune
from sim.core import Violation
from sim.walk import walk

from . import c08, damage, history

ID = 'C25'
RUNS = {'quick': (5000, 300), 'thorough': (90000, 1500)}
RULE = ('one case = a history of 5 to 120 operations by one client, now and then followed by a complete reading, on a document (with chains, ladders and knots of copies, or large), each counted in traced events inside '
        'enolib and compared with a bound that depends on the lines of the text and on what it spells with its copies expanded, never on the history; then some operations '
        'are performed over and over between others: what one costs must not grow. Some operations are cut short or starved of stack on the way. A run is non-trivial when at least '
        'five operations were counted and one was repeated; distinct by document and history')
STATES = 'distinct (operation, outcome, tenths of its bound used) seen'
REAL = history.REAL
STUB = ['callbacks (loaders, message functions): generated', 'oracle: size of the document with copies expanded, from the reference model; steps: traced events']
ASSUMPTIONS = ['steps are calls, lines and returns inside enolib; work inside C code shows only as CPU time of a run (limit %d s, normal: milliseconds)' % core.CPU_S,
               'sampling: histories not drawn were not tried', 'documents that spell more than %d elements with copies expanded are not searched' % 4000]
LARGEST = 4000


def size(doc, limit=LARGEST):
    """how much a document spells, copies expanded: elements, items, entries, and the lines each stands on"""
    total = 0

    def links(n):
        k = 0
        while n is not None:
            k, n = k + 1, n.mirror or n.extend
        return k

    def visit(n):
        nonlocal total
        if total > limit:
            return
        total += links(n) + len(n.conts) + len(n.comments) + len(n.lines)
        m = n
        while m.mirror is not None:
            m = m.mirror
            total += len(m.conts)
        if n.type == eno.LIST:
            kids = n.effective_items()
        elif n.type == eno.FIELDSET:
            kids = n.effective_entries()
        elif n.type in (eno.SECTION, eno.DOCUMENT):
            kids = n.effective_elements(False)
        else:
            kids = ()
        for k in kids:
            visit(k)

    visit(doc.root)
    return total


def bound(lines, total):
    """events one operation may take: about five times what any takes today"""
    return 1000 + 180 * (lines + total)


def ladder(rng):
    """chains of copies that each add a little"""
    n = rng.choice([5, 12, 25, 40])
    form = rng.randrange(7)
    order = rng.choice([lambda x: x, lambda x: x[::-1]])
    if form == 0:
        parts = ['k%d < k%d\n- %d' % (i, i + 1, i) for i in range(n)] + ['k%d:\n- e' % n]
    elif form == 1:
        parts = ['k%d < k%d\na%d = %d' % (i, i + 1, i % 7, i) for i in range(n)] + ['k%d:\na = e' % n]
    elif form == 2:
        parts = ['k%d < k%d' % (i, i + 1) for i in range(n)] + ['k%d: v\n| w' % n]
    elif form == 3:
        parts = ['# k%d < k%d\na%d: 1' % (i, i + 1, i) for i in range(n)] + ['# k%d\nb: 2' % n]
    elif form == 4:
        parts = ['# k%d << k%d\n## in\nv%d: %d' % (i, i + 1, i, i) for i in range(n)] + ['# k%d\n## in\nw: 2' % n]
    elif form == 5:         # nothing but depth
        return '\n'.join('#' * (i + 1) + ' k' + rng.choice(['', '\na: 1', '\na:\n- 1']) for i in range(n))
    else:
        parts = ['# k%d < k%d' % (i, i + 1) for i in range(n)] + ['# k%d\n## a\nb: 2\n### c\nd:\n- 1' % n]
    return '\n'.join(order(parts))


def mile(rng):
    """a thousand lines of few kinds"""
    n = rng.choice([300, 600, 1000])
    unit = rng.choice([['k%d: v'], ['k: v'], ['# s%d', 'k: v'], ['# s', 'a:', '- 1'], ['k%d:', '- 1'], ['- i'], ['e%d = 1'], ['e = 1'], ['| c'], ['> c', 'k%d: v'], ['## s%d', 'k: 1'], ['k%d < t'], ['## s%d < t']])
    head = {'-': ['l:'], 'e': ['f:'], '|': ['v: 1']}.get(unit[0][0], ['# top'] if unit[0].startswith('##') else [])
    if unit[0].endswith(' t'):
        head = ['# t', 'a: 1', '# u'] if unit[0][0] == '#' else ['t:', '- 1']
    return '\n'.join(head + [l.replace('%d', str(i)) for i in range(n // len(unit)) for l in unit])


def text(rng):
    for _ in range(6):
        roll = rng.random()
        t = mile(rng) if roll < .1 else ladder(rng) if roll < .35 else rng.choice([gen.valid_merges, gen.valid_knots])(rng) if roll < .55 else damage.ladders(rng) if roll < .63 else history.text(
            rng, **rng.choice([{}, {'copy': .6, 'deep': .5}, {'depth': 5, 'width': 2}, {'big': rng.choice(gen.BIG)}, {'conts': .6, 'comment': .6}]))
        try:
            d = eno.parse(t)
        except eno.Reject:
            continue
        if size(d) <= LARGEST:
            return t
    return 'a: 1'


def plan(rng, tier):
    docs = [history.doc(rng, text(rng))]
    a = Author(rng, docs, inner_parses=0, missing=.1, loaders=['tag', 'id', 'none', 'int', 'fail', 'raise:KeyError'],
               weights=rng.choice([{}, {'raw': 10}, {'err': 8, 'assert': 6}, {'many': 16, 'nav': 16}, {'touch': 6, 'strict': 6, 'assert': 8}]))
    a.parse('c', 0)
    a.ops[-1]['as'] = a.ops[-1].get('as', 'root')
    root = a.ops[-1]['as']
    large = len(docs[0]['text']) > 2000
    for _ in range(rng.choice([5, 15]) if large else rng.choice([5, 15, 40, 120])):
        if rng.random() < .05:
            a.emit('c', {'m': 'lookup', 'doc': 0, 'index': rng.randrange(len(docs[0]['text']) + 1)})
        elif a.step('c') is None:
            break
    if a.model.h.get(root) is not None and rng.random() < (.1 if large else .4):     # most of it, or all
        walk(c08.Recorder(a), root, rng.randrange(1 << 30), errors=.02, leave=rng.choice([0, .02, .1]))
        a.emit('c', {'m': 'assert_all_touched', 'on': root})
    again = [dict(o) for o in rng.sample(a.ops, min(len(a.ops), rng.choice([1, 2, 4]))) if o['m'] != 'parse']
    for o in again:
        o.pop('as', None)
    for o in a.ops[1:]:
        if rng.random() < .04:
            o['cut'] = rng.choice([round(rng.random(), 3), rng.choice([3, 5, 8, 12])])
    prune(a.ops + again)
    a.ops[0]['as'] = a.ops[0].get('as', 'root')
    return {'docs': docs, 'ops': a.ops, 'again': again, 'times': 6 if large else rng.choice([10, 30, 80])}


class Counter:
    def __init__(self, plan, st):
        self.st = st
        self.real = ops.Real(plan['docs'])
        t = plan['docs'][0]['text']
        d = eno.parse(t)
        total = size(d)
        self.limit = bound(t.count('\n') + 1, total) + (0 if total <= LARGEST else 10 ** 9)
        self.size = total

    def do(self, op):
        if not self.real.has(op):
            return None
        extra = 0
        if op['m'] in ('parse', 'lookup'):
            extra = parsing(self.real.docs[op['doc']]['text'])
        limit = self.limit + extra
        try:
            out, n = trace.count(lambda: self.real.call(op), limit=limit)
        except trace.Stuck:
            raise Violation('steps', 'op %s takes more than %d steps (document of size %d)' % (ops.describe(op), limit, self.size))
        self.st.add('evaluations')
        self.st.add('steps', n)
        self.st.state(op['m'], out.kind, 10 * n // limit)
        self.st.probe('percent_of_bound:%d' % (100 * n // limit))
        self.st.event((op['m'], out.kind, n))
        return n


def parsing(t):
    lines = t.count('\n') + 1
    return 1500 + 10 * len(t) + 600 * lines + 10 * lines * lines


def run(plan, st):
    try:
        c = Counter(plan, st)
    except eno.Reject:
        return
    done = 0
    for op in plan['ops']:
        if 'cut' in op and c.real.has(op):
            if isinstance(op['cut'], int):
                trace.starve(lambda: c.real.call(op), op['cut'])
                st.fault('stack exhausted')
            else:
                hit, _how, _out = trace.inject(lambda: c.real.call(op), 1 + int(op['cut'] * 200), trace.ASYNC['KeyboardInterrupt'])
                if hit.fired:
                    st.fault('KeyboardInterrupt')
        done += c.do(op) is not None
    first = {}
    repeated = 0
    for r in range(plan['times']):
        for i, op in enumerate(plan['again']):
            n = c.do(op)
            if n is None:
                continue
            repeated += 1
            if r < 2:
                first[i] = max(n, first.get(i, 0))
            elif n > 1.5 * first[i] + 20:
                raise Violation('growing', 'op %s takes %d steps after %d repetitions, %d at first' % (ops.describe(op), n, r, first[i]))
    st.add('repetitions', repeated)
    st.nontrivial = done >= 5 and repeated > 0


def shrink(plan):
    yield from core.shrink_list(plan, 'ops')
    yield from core.shrink_list(plan, 'again')
    if plan['times'] > 3:
        yield {**plan, 'times': plan['times'] // 2}
    yield from core.shrink_text(plan, 'docs', 0, 'text')
