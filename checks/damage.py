"""What C01-C06 share: documents that went through the simulated disk, and readers of what is left of them."""
from sim import core, eno, gen, ops, storage
from sim.core import Violation, lib

REPORTERS = ['Text', 'Html', 'Terminal']
LOCALES = ['en', 'de', 'es']
SOURCES = [None, 'conf.eno', '/var/a b.eno', '', 'ö']
ASSUMPTIONS = ['the reference grammar in sim/eno.py states the documented notation (agreement with the code on valid and invalid documents is itself checked on every run)',
               'sampling: fault sequences not drawn were not tried', 'texts reach enolib as str: decoding is the reader\'s business']
STUB = ['disk: sim/storage.py (page cache, blocks of 4-64 bytes, fsync, crash, torn / lost / reordered / misdirected / zeroed blocks, bit rot, short reads)',
        'oracle: reference grammar (sim/eno.py)']

TOKENS = ['a', 'b', 'key', ':', ': ', '=', ' = ', '<', '<<', ' < ', '-', '- ', '--', '-- ', '#', '# ', '##', '## ', '`', '``', '|', '| ', '\\', '\\ ', '>', '> ',
          ' ', '  ', '\t', '\r', '\0', '\ufeff', '\u2028', '\x0b', '\x85', '\xa0', '\ud800', 'ö', '1', 'x y', "'", '"', '{', '}', '%s', '\x1b[0m', '&amp;', '</div>']


def soup(rng):
    """lines of notation fragments"""
    out = []
    for _ in range(rng.choice([1, 2, 3, 5, 9, 20])):
        if out and rng.random() < .3:
            out.append(rng.choice(out))
        else:
            out.append(''.join(rng.choice(TOKENS) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9]))))
    return '\n'.join(out)


def runs(rng):
    """long runs of one character in places where a scanner may go back and forth"""
    n = rng.choice([50, 200, 700, 1500])
    c = rng.choice([' ', ' ', '\t', '`', '-', '#', '<', '>', 'x', 'x ', ': ', '| ', '` ', '\xa0'])
    run = c * (n // len(c))
    form = rng.choice(['%s', 'a%sb', '# a%sb', '# a%sb < c', 'a: x%sy', '`a%sb', '` a%s`:', '- %s', '> %sx', '-- a%sb', 'a%s', '%sa', 'a%s: b', 'a:\nb%s= c', '# `a%sb` < %%s', '|%sx', 'a < b%sc', '`a%sb` junk', '# `a%sb` junk', '``a%sb` c', 'a%sb` c', '#%s a', '-- a%sb\nx', '-- a\n--%s', '  `a%sb` < ', '## a%s'])
    t = form.replace('%s', run, 1).replace('%%s', 'q')
    if rng.random() < .3:
        t = t + '\n' + t
    if rng.random() < .3:
        t = 'k: v\n' + t + '\nz: y'
    return t


def ladders(rng):
    """deep nesting and long copy chains"""
    n = rng.choice([5, 12, 30, 60])
    form = rng.randrange(6)
    if form == 0:
        return '\n'.join('#' * (i + 1) + ' s' + ('%d' % i if rng.random() < .5 else '') for i in range(n))
    if form == 1:
        return '\n'.join(['k%d < k%d' % (i, i + 1) for i in range(n)] + ['k%d: v' % n])
    if form == 2:
        return '\n'.join(['# k%d < k%d\na%d: 1' % (i, i + 1, i) for i in range(n)] + ['# k%d' % n, 'b: 2'])
    if form == 3:
        return '\n'.join(['k%d < k%d\n- %d' % (i, (i + 1) % (n + (rng.random() < .5)), i) for i in range(n)] + ['k%d:\n- e' % n])
    if form == 4:       # deep copies doubling what they copy
        return '\n'.join(['# s0', '## a', 'x: 1'] + [l for i in range(1, min(n, 9)) for l in ('# s%d << s%d' % (i, i - 1), '## a', 'y%d: 1' % i, '## b%d < s%d' % (i, i - 1))])
    return '\n'.join(['# k%d %s k%d' % (i, rng.choice(['<', '<<']), (i + 1) % n) + '\n## in\nv: %d' % i for i in range(n)])


def miles(rng):
    """very many lines of few kinds, one after the other or nested no deeper than a step, somewhere among them something else"""
    n = rng.choice([1100, 1500, 2500, 4000])
    unit = rng.choice([[''], [''], ['k: v'], ['k:'], ['> c'], ['> c', ''], ['- i'], ['e = 1'], ['| c'], ['\\ c'], ['# s'], ['# s', '## t', 'k: v'], ['-- m', 'x', '-- m'], ['k < t'], ['# s < t'],
                       ['k%d: v'], ['k%d:', '- 1'], ['# s%d', 'k: v'], ['k%d < t'], ['# s%d << t']])
    head = {'-': ['l:'], 'e': ['f:'], '|': ['v: 1'], '\\': ['v: 1']}.get(unit[0][:1], [])
    if unit[0].endswith(' t'):
        head = ['# t', 'a: 1'] if unit[0][0] == '#' else ['t:', '- 1']
    if rng.random() < .2:
        head, tail = ['-- m'], ['-- m']
    else:
        tail = []
    lines = head + [l.replace('%d', str(i)) for i in range(n // len(unit)) for l in unit] + tail
    for _ in range(rng.choice([0, 1, 1, 2])):
        at = rng.choice([0, len(head), len(lines), rng.randrange(len(lines) + 1)])
        lines[at:at] = rng.choice([['x'], ['#### y'], ['- i'], ['a = 1'], ['| c'], ['-- open'], ['z < missing'], ['l:'], ['k: v'], [''], ['> c'], ['`'], ['# `s']])
    return '\n'.join(lines)


def text(rng, odd=.2, **force):
    if rng.random() < odd:
        return rng.choice([soup, soup, soup, runs, ladders, gen.knots, gen.knots, gen.merges, gen.coils])(rng)
    return gen.document(rng, gen.Style(rng, **force), valid=rng.random() < .9)


def opts(rng):
    d = {}
    if rng.random() < .6:
        d['locale'] = rng.choice(LOCALES)
    if rng.random() < .7:
        d['reporter'] = rng.choice(REPORTERS)
    if rng.random() < .5:
        d['source'] = rng.choice(SOURCES)
    return d


def plan(rng, reads=None, odd=.2, **force):
    make = lambda: text(rng, odd, **force)
    return {'disk': storage.plan(rng, make, reads or rng.choice([3, 5, 8])), 'opts': [opts(rng) for _ in range(rng.choice([1, 2, 3]))]}


def readings(plan, st):
    """every (text, options) the readers of this life of the file got"""
    texts, d = storage.execute(plan['disk']['block'], plan['disk']['steps'])
    for k, v in d.fired.items():
        st.fault(k, v)
    st.add('disk_steps', len(plan['disk']['steps']))
    seen = set()
    for i, t in enumerate(texts):
        if t in seen:
            continue
        seen.add(t)
        yield {'text': t, **plan['opts'][i % len(plan['opts'])]}


def parse(doc):
    """('ok', root) | ('error', ParseError); any other exception is a violation"""
    try:
        return 'ok', lib.parse(doc['text'], **ops.options(doc))
    except lib.ParseError as e:
        return 'error', e
    except core.Violation:
        raise
    except Exception as e:
        raise Violation('escape:' + type(e).__name__, 'parsing %s raised %r' % (brief(doc), e))


def model(t):
    try:
        return 'ok', eno.parse(t)
    except eno.Reject as r:
        return 'error', r


def brief(doc):
    return '%r with %s' % (doc['text'][:300], {k: v for k, v in doc.items() if k != 'text'})


def shrink(plan):
    if len(plan['opts']) > 1:
        for o in plan['opts']:
            yield {**plan, 'opts': [o]}
    yield from storage.shrink(plan, 'disk')
    for i, o in enumerate(plan['opts']):
        for k in o:
            yield core.with_(plan, ('opts', i), {x: y for x, y in o.items() if x != k})
