"""C05: looking up any position of a half-written document is safe and consistent"""
from sim import core, ops, storage
from sim.core import Violation, lib

from . import damage

ID = 'C05'
RUNS = {'quick': (9000, 240), 'thorough': (80000, 1500)}
RULE = ('one case = one lookup by index and the same by line and column, in a text an editor or a crash left behind; a run is non-trivial when a lookup found '
        'an element in a text that was not written in one piece or met a rejected text; distinct by texts and positions')
STATES = 'distinct (type of element found, range found) pairs'
REAL = ['enolib lookup, parse, resolver, Element, errors, reporters']
STUB = damage.STUB + ['editor: a document typed key by key (sim)', 'reference lookup (sim/eno.py)']
ASSUMPTIONS = damage.ASSUMPTIONS + ['line and column are taken from positions inside the text']
ON_ELEMENT = ['raw', 'error', 'string_key', 'yields_empty', 'yields_field', 'yields_fieldset', 'yields_list', 'yields_section', 'yields_fieldset_entry',
              'yields_list_item', 'optional_string_comment', 'to_empty', 'to_field', 'to_fieldset', 'to_list', 'to_section', 'to_fieldset_entry', 'to_list_item']


def plan(rng, tier):
    if rng.random() < .35:      # an editor: the same document at several moments of typing it
        t = damage.text(rng, .1)
        p = {'disk': {'block': 8, 'steps': [['text', t[:rng.randrange(len(t) + 1)]] for _ in range(3)] + [['text', storage.edit(rng, t)], ['text', t]]},
             'opts': [damage.opts(rng)]}
    else:
        p = damage.plan(rng, reads=3, odd=rng.choice([.1, .3]))
    p['at'] = [rng.random() for _ in range(14)]
    p['twin'] = damage.opts(rng)
    p['every'] = rng.random() < .1
    p['on'] = [rng.choice(ON_ELEMENT) for _ in range(8)]
    return p


def positions(text, plan):
    """indices to look at: seeded ones, plus the borders of the lines they fall in"""
    n = len(text)
    if plan['every'] and n <= 250:
        return list(range(n + 1))
    out = {0, n}
    for k, r in enumerate(plan['at']):
        i = int(r * (n + 1))
        if k % 3 == 1:
            i = text.rfind('\n', 0, i) + 1
        elif k % 3 == 2:
            j = text.find('\n', i)
            i = n if j < 0 else j
        out.add(i)
        if k % 4 == 0:
            out.add(min(n, i + 1))
    return sorted(out)


def run(plan, st):
    for doc in damage.readings(plan, st):
        t = doc['text']
        want, m = damage.model(t)
        if want == 'error':
            rejected(doc, plan, st)
            continue
        lk = ops.Lockstep([doc, {'text': t, **plan['twin']}])      # the same text under other options
        try:
            for k, i in enumerate(positions(t, plan)):
                line = t.count('\n', 0, i)
                col = i - (t.rfind('\n', 0, i) + 1)
                a = lk.do({'m': 'lookup', 'doc': 0, 'index': i, 'as': 'a'})
                lk.do({'m': 'lookup', 'doc': k % 2, 'line': line, 'column': col, 'as': 'b'})
                st.add('evaluations', 2)
                if a is not None and a.kind == 'value':
                    st.state(a.v[0].node.type, a.v[1])
                    st.probe('range:%s' % a.v[1])
                    root = a.v[0].node.line is None
                    for j in range(3):
                        name = plan['on'][(k + 3 * j) % len(plan['on'])]
                        if root and name not in ('raw',) and not name.startswith('yields'):
                            continue
                        m = lk.do({'m': name, 'on': 'ab'[j % 2], **({'as': 't'} if name.startswith('to_') else {'a': ['x']} if name == 'error' else {})})
                        if name.startswith('to_') and m is not None and m.kind == 'value':
                            ancestors(lk, 't', st)
            for op in ({'index': -1}, {'index': len(t) + 1}, {'index': len(t) + 7}, {'line': -1, 'column': 0}, {'line': t.count('\n') + 1, 'column': 0}):
                lk.do({'m': 'lookup', 'doc': 0, **op})
                st.probe('outside the text')
        except Violation as v:
            raise Violation(v.cls, '%s: %s' % (damage.brief(doc), v.msg))
        st.add('steps', lk.done)
        st.event(lk.digest.hexdigest())
    st.nontrivial = True


def ancestors(lk, h, st):
    """what the element found is part of, up to the document"""
    for _ in range(6):
        lk.do({'m': 'string_key', 'on': h})
        m = lk.do({'m': 'parent', 'on': h, 'as': 'p'})
        if m is None or m.kind != 'value' or m.v is None:
            return
        st.probe('parents')
        h = 'p'
        if m.v.node.line is None:
            lk.do({'m': 'raw', 'on': h})
            return


def rejected(doc, plan, st):
    """lookup raises the very ParseError that parse raises"""
    _v, e = damage.parse(doc)
    if _v == 'ok':
        return
    t = doc['text']
    data = ops.error_data(e)
    for i in positions(t, plan)[:6]:
        line = t.count('\n', 0, i)
        for kw in ({'index': i}, {'line': line, 'column': i - (t.rfind('\n', 0, i) + 1)}):
            st.add('evaluations')
            try:
                r = lib.lookup(t, **kw, **ops.options(doc))
            except lib.ParseError as x:
                if ops.error_data(x) != data:
                    raise Violation('lookup-error', '%s: lookup %s raises another ParseError than parse: %r' % (damage.brief(doc), kw, x.text))
            except Exception as x:
                raise Violation('escape:' + type(x).__name__, '%s: lookup %s raised %r' % (damage.brief(doc), kw, x))
            else:
                raise Violation('accepted', '%s: lookup %s returned %r' % (damage.brief(doc), kw, r))
    st.probe('lookup in a rejected text')


def shrink(plan):
    yield from damage.shrink(plan)
    for i in range(len(plan['at'])):
        if len(plan['at']) > 1:
            yield {**plan, 'at': plan['at'][:i] + plan['at'][i + 1:], 'every': False}
