"""Seeded generation of eno documents: a tree is drawn, then spelled with varying whitespace, comments and escapes."""
from . import eno

KEYS = ['a', 'b', 'c', 'd', 'key', 'name', 'title', 'long key', 'ä', 'x 1', 'Key', 'a.b', 'ключ', 'a-b', "it's", 'K|v', '1', '{0}', '100%', '%s', '{a', 'x}', 'a(b', 'x*', '&amp;']
ESCAPED = ['{0}:', '%s=', 'a:b', 'x = y', '<t>', '`', 'a ` b', '#n', '-', '> c', '| p', ':', 'k``', '\\', '`a', '``']
WORDS = ['1', '42', '-3', 'value', 'lorem ipsum', 'x: y', 'a = b', '< t', '# h', '`', 'ünïcode ☃', '- dash', '> q', 'true', '0', 'a  b',
         '| p', '\\ s', '--', 'end\u2028x', '𝒳', "it's", '"q"', '<b>&amp;</b>', '{0}', '%s', 'null', '...', 'tab\tin']
COMMENTS = ['note', 'two words', '> nested', 'k: v', '# s', 'ö', '1', '   ', '']


BIG = ['width', 'items', 'conts', 'comments', 'blank', 'keys', 'values', 'depth', 'ticks', 'multi', 'same']


class Style:
    """Swarm parameters of one run"""
    def __init__(self, rng, **force):
        r = rng.random
        self.comment = rng.choice([0, .1, .3, .6])
        self.blank = rng.choice([0, .1, .3])
        self.free = rng.choice([0, .05, .2])
        self.escape = rng.choice([0, .1, .4])
        self.space = rng.choice([0, 0, .2, .6])
        self.conts = rng.choice([0, .2, .6])
        self.multi = rng.choice([0, .1, .3])
        self.copy = rng.choice([0, 0, .2, .5])
        self.deep = rng.choice([0, .3, .8])
        self.depth = rng.choice([0, 1, 1, 2, 2, 3, 5])
        self.width = rng.choice([1, 2, 3, 3, 4, 6, 12])
        self.keys = rng.sample(KEYS, rng.choice([2, 3, 5, 8]))
        self.dup = rng.choice([0, .1, .4])
        self.empty = rng.choice([.1, .2, .5])
        self.long = rng.choice([0, 0, 0, .1])
        self.weird = rng.choice([0, 0, .1, .1, .6])
        self.trail = r() < .5
        # now and then one dimension of a document is out of proportion
        self.big = rng.choice(BIG) if r() < .08 else ''
        self.far = r() < .02
        if self.big == 'depth':
            self.depth, self.width = rng.choice([8, 12]), 2
        for k, v in force.items():
            setattr(self, k, v)


class Draw:
    def __init__(self, type, key):
        self.type, self.key = type, key
        self.kids, self.template, self.deep = [], None, False


def _key(rng, st, used):
    for _ in range(4):
        k = rng.choice(ESCAPED) if rng.random() < st.weird else rng.choice(st.keys)
        if rng.random() < .3:
            k += str(rng.randrange(4))
        if k not in used or rng.random() < st.dup:
            break
    if st.big == 'keys' and rng.random() < .3:
        k = ' '.join([k] * rng.choice([5, 20]))
    elif st.big == 'ticks' and rng.random() < .3:
        k = '`' * rng.choice([2, 3, 5]) + k
    elif st.big == 'same' and rng.random() < .8:
        k = st.keys[0]
    used.add(k)
    return k


def _tree(rng, st, depth, nodes):
    kids, used = [], set()
    width = rng.randrange(0 if depth else 1, st.width + 1)
    if st.big in ('width', 'same') and not depth:
        width = rng.choice([20, 40, 110])
    for _ in range(width):
        roll = rng.random()
        if roll < st.empty:
            t = eno.EMPTY
        elif roll < st.empty + st.multi:
            t = eno.MULTI
        else:
            t = rng.choice([eno.FIELD, eno.FIELD, eno.LIST, eno.FIELDSET])
        n = Draw(t, _key(rng, st, used))
        if t in (eno.LIST, eno.FIELDSET):
            inner = set()
            n_kids = rng.choice([1, 1, 2, 2, 3, 5]) if rng.random() > st.long else rng.randrange(10, 25)
            if st.big == 'items' and rng.random() < .3:
                n_kids = rng.choice([12, 40, 110])
            for _ in range(n_kids):
                n.kids.append(Draw(eno.ITEM if t == eno.LIST else eno.ENTRY, _key(rng, st, inner)))
        kids.append(n)
        nodes.append(n)
    if depth < st.depth:
        for _ in range(1 if st.big == 'depth' else rng.choice([0, 1, 1, 2, 3]) if depth else rng.choice([1, 1, 2, 3])):
            s = Draw(eno.SECTION, _key(rng, st, used))
            nodes.append(s)
            s.kids = _tree(rng, st, depth + 1, nodes)
            kids.append(s)
    return kids


def _copies(rng, st, nodes):
    """Turn some nodes into copies of others (rarely of something that does not fit)"""
    for side in (False, True):
        mine = [n for n in nodes if (n.type == eno.SECTION) == side]
        if len(mine) < 2:
            continue
        serial = 0
        for n in mine:
            if rng.random() >= st.copy:
                continue
            t = rng.choice(mine)
            if t.type not in (eno.LIST, eno.FIELDSET, eno.SECTION) and rng.random() < .3:
                t = rng.choice(mine)
            if t is n:
                continue
            if t.template is None or rng.random() < .3:
                same = [m for m in mine if m.key == t.key]
                if len(same) > 1 and rng.random() < .95:
                    serial += 1
                    t.key = '%s %s%d' % (t.key, 'T' if side else 't', serial)
            if t.type in (eno.LIST, eno.FIELDSET) and rng.random() < .4:     # extends, overrides
                n.type, inner = t.type, set()
                n.kids = [Draw(eno.ITEM if t.type == eno.LIST else eno.ENTRY, rng.choice(t.kids).key if t.kids and rng.random() < .4 else _key(rng, st, inner))
                          for _ in range(rng.choice([1, 1, 2, 3]))]
            if n.type != t.type and n.type != eno.EMPTY and rng.random() < .9:
                n.type, n.kids = (t.type, n.kids if t.type in (eno.LIST, eno.FIELDSET, eno.SECTION) else []) if n.type == eno.SECTION else (eno.EMPTY, [])
            if n.type in (eno.FIELD, eno.MULTI):
                n.type = eno.EMPTY
            if side and rng.random() < .4:
                n.kids = []
            n.template = t
            n.deep = side and rng.random() < st.deep


def _spell_key(rng, st, key, section):
    plain = key and not key[0].isspace() and not key[-1].isspace()
    if section:
        plain = plain and key[0] not in '`<' and '<' not in key
    else:
        plain = plain and key[0] not in '>#-`\\|:=<' and not any(c in key for c in ':=<')
    if plain and rng.random() >= st.escape:
        return key
    ticks = '`'
    while ticks in key:
        ticks += '`'
    pad = ' ' if key[0] == '`' or key[-1] == '`' else rng.choice(['', '', ' '])
    return ticks + pad + key + pad + ticks


def _value(rng, st):
    if st.big == 'values' and rng.random() < .3:
        return rng.choice(['', ' ', ': ']).join([rng.choice(WORDS)] * rng.choice([20, 100]))
    if rng.random() < st.long:
        return ' '.join(rng.choice(WORDS) for _ in range(rng.randrange(5, 40)))
    return rng.choice(WORDS) if rng.random() < .8 else rng.choice(WORDS) + ' ' + rng.choice(WORDS)


def spell(rng, st, kids):
    out = []

    def sp(default=''):
        return rng.choice(['', ' ', '  ', '\t']) if rng.random() < st.space else default

    def line(text):
        out.append(sp() + text + sp())

    def before(attach=True):
        if rng.random() < st.blank:
            out.extend([sp()] * (rng.choice([1, 1, 2]) if st.big != 'blank' else rng.choice([1, 5, 12])))
        if rng.random() < st.free:
            for _ in range(rng.choice([1, 2])):
                line('>' + sp(' ') + rng.choice(COMMENTS))
            out.append('')
        if attach and rng.random() < st.comment:
            for _ in range(rng.choice([1, 1, 2, 3]) if st.big != 'comments' else rng.choice([4, 11])):
                line('>' + sp(' ') + rng.choice(COMMENTS))

    def conts():
        if rng.random() < st.conts:
            for _ in range(rng.choice([1, 1, 2, 3]) if st.big != 'conts' else rng.choice([4, 11, 30])):
                if rng.random() < st.free:
                    line('> ' + rng.choice(COMMENTS))
                elif rng.random() < st.blank:
                    out.append('')
                line(rng.choice('|\\') + sp(' ') + (_value(rng, st) if rng.random() < .8 else ''))

    def value():
        return sp(' ') + _value(rng, st) if rng.random() < .85 else sp()

    def walk(kids, depth):
        for n in kids:
            before()
            k = _spell_key(rng, st, n.key, n.type == eno.SECTION)
            if n.type == eno.SECTION:
                text = '#' * (depth + 1) + sp(' ') + k
                if n.template is not None:
                    text += sp(' ') + ('<<' if n.deep else '<') + sp(' ') + n.template.key
                line(text)
                walk(n.kids, depth + 1)
                continue
            if n.template is not None:
                line(k + sp(' ') + '<' + sp(' ') + n.template.key)
            elif n.type == eno.FIELD:
                if rng.random() < .12:
                    line(k + sp() + ':')
                    line(rng.choice('|\\') + ' ' + _value(rng, st))
                else:
                    line(k + sp() + ':' + sp(' ') + _value(rng, st))
                conts()
            elif n.type == eno.MULTI:
                key = n.key
                dashes = '-' * rng.choice([2, 2, 3, 4])
                out.append(sp() + dashes + sp(' ') + key)
                for _ in range(rng.choice([0, 1, 1, 2, 3]) if st.big != 'multi' else rng.choice([5, 12, 40])):
                    out.append(rng.choice(WORDS + ['', '  indented', '-- other', dashes + ' ' + key + 'x', '-' + dashes + ' ' + key, '# s', 'k: v']))
                out.append(sp() + dashes + sp(' ') + key + sp())
                continue
            else:
                line(k + sp() + ':')
            for item in n.kids:
                before()
                if item.type == eno.ITEM:
                    line('-' + value())
                else:
                    line(_spell_key(rng, st, item.key, False) + sp(' ') + '=' + value())
                conts()

    walk(kids, 0)
    if rng.random() < st.free:
        line('> ' + rng.choice(COMMENTS))
    return '\n'.join(out) + ('\n' if st.trail else '')


def knots(rng):
    """few elements and sections, nested, copying each other in all directions: chains, diamonds, cycles (also ones that close through nesting),
    templates that are missing, ambiguous or of another type"""
    copy, deep, field = rng.choice([.3, .6, .9]), rng.choice([0, .4, 1]), rng.choice([0, .3, .6])
    names = ['k%d' % i for i in range(rng.choice([2, 3, 4, 6, 9]))]
    if rng.random() < .35:
        names = rng.sample(KEYS + ESCAPED * 2, len(names))
        names = sorted(set(names), key=names.index)
    out, kinds, depth = [], {}, 0
    spelling = Style(rng, escape=rng.choice([0, .2]))

    def spelled(n, section=False):
        return n if n[0] == 'k' and n[1:].isdigit() else _spell_key(rng, spelling, n, section)
    for n in names:
        kinds[n] = rng.random() < field

    up, path = rng.choice([0, 0, .5]), []     # sections that copy what contains them

    def source(n):
        if rng.random() < .03:
            return 'nowhere'
        if path and not kinds[n] and rng.random() < up:
            return rng.choice(path)
        same = [m for m in names if kinds[m] == kinds[n] and m != n]
        return rng.choice(same if same and rng.random() < .97 else names)

    order = list(names)
    rng.shuffle(order)
    for n in order:
        if rng.random() < .02:
            n = rng.choice(names)
        if kinds[n]:
            if rng.random() < copy:
                out.append('%s < %s' % (spelled(n), source(n)))
                out += rng.choice([[], [], [], ['- 1'], ['a = 1']])
            else:
                out.append(spelled(n) + rng.choice([':', ': v']))
                if not out[-1].endswith('v'):
                    out += rng.choice([[], ['- 1'], ['a = 1'], ['- 1', '- 2'], ['a = 1', 'b = 2'], ['| c']])
        else:
            depth = rng.randrange(1, depth + 2) if depth < 4 else rng.randrange(1, 5)
            line = '#' * depth + ' ' + spelled(n, True)
            del path[depth - 1:]
            if rng.random() < copy:
                line += (' << ' if rng.random() < deep else ' < ') + source(n)
            out.append(line)
            path.append(n)
            if rng.random() < .4:
                out.append(rng.choice(['x: 1', 'y: 2', 'x:', '#' * (depth + 1) + ' ' + rng.choice('xy') + '\ny: 3']))
    return '\n'.join(out)


def coils(rng):
    """sections within sections that copy what contains them, entered from outside at any level"""
    n = rng.choice([2, 3, 4, 5])
    depths, d = [], 0
    for _ in range(n):
        d = rng.choice([d + 1, d + 1, max(1, d)]) if d else 1
        depths.append(d)
    out = []
    for i, d in enumerate(depths):
        inner = rng.random() < .15 + .5 * i / n
        out.append('#' * d + ' s%d' % i + (rng.choice([' < ', ' << ']) + 's%d' % rng.choice([rng.randrange(n), rng.randrange(i + 1)]) if inner else ''))
        if rng.random() < .2:
            out.append(rng.choice(['x: 1', '', '> c']))
    enter = ['# e%d%ss%d' % (i, rng.choice([' < ', ' << ']), rng.randrange(n)) for i in range(rng.choice([0, 1, 1, 2]))]
    return '\n'.join(enter + out if rng.random() < .8 else out + enter)


def merges(rng):
    """sections that copy each other, mostly deeply, with subsections and elements that share keys: what merges with what, over several levels"""
    keys = rng.sample(['s', 't', 'u', 'v'], rng.choice([1, 2, 3]))
    out, names = [], ['b%d' % i for i in range(rng.choice([2, 2, 3, 4]))]
    order = list(names)
    rng.shuffle(order)
    deepest = rng.choice([2, 3, 4])
    serial = [0]

    def body(depth):
        for _ in range(rng.choice([0, 1, 1, 2])):
            serial[0] += 1
            k = rng.choice(keys + ['x'])
            out.append(rng.choice(['%s: %d', '%s:\n- %d', '%s:\na = %d', '%s:', '-- %s\n%d\n-- %s']).replace('%s', k).replace('%d', str(serial[0])))
        if depth < deepest:
            for _ in range(rng.choice([0, 1, 2, 2, 3])):
                if rng.random() < .15:
                    out.append('> c%d' % serial[0])
                out.append('#' * (depth + 1) + ' ' + rng.choice(keys))
                body(depth + 1)

    for n in order:
        i = names.index(n)
        copy = ''
        if i:
            copy = rng.choice([' << ', ' << ', ' << ', ' < ']) + rng.choice(names[:i])
        out.append('# ' + n + copy)
        body(1)
    return '\n'.join(out)


def valid_merges(rng):
    return _valid(rng, merges)


def valid_knots(rng):
    return _valid(rng, knots)


def _valid(rng, make):
    for _ in range(8):
        t = make(rng)
        try:
            eno.parse(t)
            return t
        except eno.Reject:
            pass
    return '# a\nb: 1\n# c < a'


def far(rng, text):
    """the text further down: its line numbers pass a power of ten"""
    n = rng.choice([8, 9, 10, 11, 93, 97, 98, 99, 100, 101] + [995, 999, 1000]) - rng.choice([0, 0, text.count('\n') // 2, text.count('\n')])
    kind = rng.choice(['', '', '> c', 'k: v', '> c\n'])
    lines = ((kind + '\n') * max(n, 1)).split('\n')[:max(n, 1)]
    return '\n'.join(lines) + '\n' + text


def document(rng, st, valid=True):
    """A document text; with `valid` one the reference grammar accepts"""
    for attempt in range(6):
        nodes = []
        kids = _tree(rng, st, 0, nodes)
        if attempt < 5:
            _copies(rng, st, nodes)
        text = spell(rng, st, kids)
        if st.far:
            text = far(rng, text)
        if not valid:
            return text
        try:
            eno.parse(text)
            return text
        except eno.Reject:
            pass
    return 'a: 1\nb:\n- 2\n'
