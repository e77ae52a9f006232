"""C04: damage never reaches back into the intact part of a document (real library against itself)"""
from sim import core, eno, gen, ops, storage
from sim.core import Violation, lib

from . import damage

ID = 'C04'
RUNS = {'quick': (18000, 240), 'thorough': (120000, 1500)}
RULE = ('one case = a pair of texts, one intact and one a reader got after faults, that share their first lines; a run is non-trivial when a pair had at least '
        'one element before the damage to compare, or an error after the damage to place; distinct by the texts')
STATES = 'distinct (verdict of the damaged text, line of the damage, elements compared) seen'
REAL = ['enolib parse, element API, errors: each document read twice, intact and damaged']
STUB = ['disk: sim/storage.py', 'the reference grammar only tells where elements of the intact text begin and end']
ASSUMPTIONS = ['an element is complete before a line when the next element begins before that line', 'sampling: fault sequences not drawn were not tried']


def plan(rng, tier):
    p = damage.plan(rng, odd=rng.choice([0, .1]), **({'copy': 0} if rng.random() < .5 else {}))
    return p


def prefix(doc, first):
    """[(path, node)] of everything in the intact document that is complete before line `first` and copies nothing"""
    flat = []       # (line, node) of every element, item and entry in order

    def visit(node, path):
        for i, k in enumerate(node.kids):
            flat.append((k.line.no, k, path + [i]))
            visit(k, path + [i])

    visit(doc.root, [])
    flat.sort(key=lambda f: f[0])

    def copies(n):
        return n.template is not None or any(copies(k) for k in n.kids)

    def inside(n, top):
        while n is not None:
            if n is top:
                return True
            n = n.parent
        return False

    out = []
    for i, (no, n, path) in enumerate(flat):
        after = next((l for l, m, _p in flat[i + 1:] if not inside(m, n)), None)
        if after is not None and after < first and not copies(n) and not any(p.template is not None for p in parents(n)):
            # its comments, too, lie before the damage
            out.append((path, n))
    return out


def parents(n):
    n = n.parent
    while n is not None:
        yield n
        n = n.parent


def find(root, path, doc):
    """walk down the real document by position"""
    h = root
    for i in path:
        h = children(h)[i]
    return h


def children(h):
    kind = type(h).__name__
    if kind == 'Section':
        return h.elements()
    if kind == 'SectionElement':
        if h.yields_section():
            return h.to_section().elements()
        if h.yields_list() and not h.yields_empty():
            return h.to_list().items()
        if h.yields_fieldset() and not h.yields_empty():
            return h.to_fieldset().entries()
    return []


def facts(h):
    e = h.error('x')
    return {'raw': h.raw(), 'key': h.string_key(), 'comment': h.optional_string_comment(),
            'selection': [ops.pos(e.selection['from']), ops.pos(e.selection['to'])]}


def attempt(fn, what):
    try:
        return fn()
    except Exception as e:
        raise Violation('escape:' + type(e).__name__, '%s: %r' % (what, e))


def first_difference(a, b):
    """the first line that is not the same in both, or None"""
    la, lb = a.split('\n'), b.split('\n')
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return i
    return None if len(la) == len(lb) else min(len(la), len(lb))


def run(plan, st):
    pairs = []
    if 'pair' in plan:
        pairs = [plan['pair']]
    else:
        texts = [s[1] for s in plan['disk']['steps'] if s[0] == 'write' and s[1]]
        if not texts:       # appended documents
            texts = [''.join(s[1] for s in plan['disk']['steps'] if s[0] == 'append')]
        for doc in damage.readings(plan, st):
            for t in texts[-3:]:
                if t != doc['text']:
                    pairs.append([t, doc['text']])
        pairs = pairs[:12]
    o = plan['opts'][0]
    for a, b in pairs:
        one(a, b, o, st)


def one(a, b, o, st):
    try:
        whole = eno.parse(a)
    except eno.Reject:
        return
    first = first_difference(a, b)
    if first is None or first == 0:
        return
    where = 'intact %r, damaged from line %d: %r' % (a[:400], first + 1, b[:400])
    st.add('evaluations')
    got, x = damage.parse({'text': a, **o})
    if got != 'ok':
        return              # what the grammar accepts is C01's business
    got, y = damage.parse({'text': b, **o})
    if got == 'ok':
        same = prefix(whole, first)
        for path, n in same:
            f = attempt(lambda: facts(find(x, path, a)), where)
            g = attempt(lambda: facts(find(y, path, b)), where)
            st.add('steps')
            if f != g:
                raise Violation('prefix', '%s: %s in the intact document reads %r, in the damaged one %r' % (where, path, f, g))
        st.add('elements_compared', len(same))
        st.state('ok', first, len(same))
        st.event((b, len(same)))
        if same:
            st.nontrivial = True
        return
    line = attempt(lambda: y.selection['from']['line'], where)
    blamable = {k.line.no for _l, n in whole.starts if n.template is not None for k in [n, *(n.kids if n.type != eno.SECTION else ())]}
    blamable |= {n.line.no for _l, n in whole.starts if n.type == eno.MULTI and n.end is not None and n.end.line.no >= first}
    st.state('error', first, line)
    st.event((b, line))
    if line < first and line not in blamable:
        raise Violation('blame', '%s: the error points at line %d: %r' % (where, line + 1, y.text))
    st.nontrivial = True
    # cut the text off before the construct the error names
    cut = '\n'.join(b.split('\n')[:line])
    if line and not any(n.line.no < line for n in whole.copies) and not copying(b, line):
        got, z = damage.parse({'text': cut, **o})
        st.add('cuts')
        if got != 'ok':
            raise Violation('cut', '%s: cut off before line %d it is still rejected: %r' % (where, line + 1, z.text))


def copying(text, line):
    return any('<' in l for l in text.split('\n')[:line])


def shrink(plan):
    if 'pair' in plan:
        for i in (0, 1):
            yield from core.shrink_text(plan, 'pair', i)
        a, b = plan['pair']
        la, lb = a.split('\n'), b.split('\n')
        for k in range(min(len(la), len(lb))):      # the same line out of both
            yield {**plan, 'pair': ['\n'.join(la[:k] + la[k + 1:]), '\n'.join(lb[:k] + lb[k + 1:])]}
        return
    texts, _d = storage.execute(plan['disk']['block'], plan['disk']['steps'])
    for t in [s[1] for s in plan['disk']['steps'] if s[0] == 'write' and s[1]]:
        for u in texts:
            if t != u:
                yield {'opts': plan['opts'][:1], 'pair': [t, u]}
