"""Reference model of the eno notation: text -> tree, written line by line without regular expressions.

Shares no code with /repo. `parse(text)` returns a Doc, or raises Reject(kind, args, line, selection).
Positions are (line, column, index) triples, selections are (from, to) pairs of them.
"""

EMPTY, FIELD, MULTI, LIST, ITEM, FIELDSET, ENTRY, SECTION, DOCUMENT = (
    'empty_element', 'field', 'multiline', 'list', 'list_item', 'fieldset', 'fieldset_entry', 'section', 'document')
RAW_TYPE = {MULTI: 'field'}


class Reject(Exception):
    """The grammar rejects the text; `alternatives` holds other defects that may be reported instead."""
    def __init__(self, kind, args, sel, alternatives=()):
        super().__init__(kind, args)
        self.kind, self.margs, self.sel = kind, tuple(args), sel
        self.alternatives = list(alternatives)

    def all(self):
        return [(self.kind, self.margs, self.sel)] + [(a.kind, a.margs, a.sel) for a in self.alternatives]


class Line:
    """One physical line and where it lies in the text."""
    __slots__ = ('no', 'begin', 'end', 'text')

    def __init__(self, no, begin, text):
        self.no, self.begin, self.text = no, begin, text
        self.end = begin + len(text)

    def pos(self, index):
        return (self.no, index - self.begin, index)


class Node:
    """An instruction: occupies one line (`line`), owns continuations / comments / children."""
    def __init__(self, type, line, **kw):
        self.type, self.line = type, line
        self.ranges = {}
        self.key = None
        self.value = None
        self.conts = []
        self.comments = []
        self.kids = []          # own elements / items / entries
        self.parent = None
        self.template = None
        self.deep = False
        self.mirror = None
        self.extend = None
        self.lines = []         # multiline value lines
        self.end = None         # multiline terminator
        self.spaced = False
        self.pending = None     # unresolved copy group
        self.deep_resolve = False
        self.__dict__.update(kw)

    def at(self, rng, which):
        return self.line.pos(self.ranges[rng][which])

    def line_begin(self):
        return self.line.pos(self.line.begin)

    def line_end(self):
        return self.line.pos(self.line.end)

    def last(self):
        """The last line that belongs to what this node itself spells."""
        if self.type in (FIELD, ITEM, ENTRY) and self.conts:
            return self.conts[-1]
        if self.type in (LIST, FIELDSET, SECTION) and self.kids:
            return self.kids[-1].last()
        if self.type == MULTI:
            return self.end
        return self

    # effective content -----------------------------------------------------------------------
    def effective_value(self):
        n = self
        while n.mirror is not None:
            n = n.mirror
        if n.type == MULTI:
            return '\n'.join(l.text for l in n.lines) if n.lines else None
        parts = n.value
        gap = False
        for c in n.conts:
            if parts is None:
                parts, gap = c.value, False
            elif c.value is None:
                gap = gap or c.spaced
            else:
                parts += (' ' if c.spaced or gap else '') + c.value
                gap = False
        return parts

    def effective_items(self):
        if self.mirror is not None:
            return self.mirror.effective_items()
        inherited = self.extend.effective_items() if self.extend is not None else []
        return inherited + (self.kids if self.type == LIST else [])

    def effective_entries(self):
        if self.mirror is not None:
            return self.mirror.effective_entries()
        if self.type != FIELDSET:
            return []
        own = {k.key for k in self.kids}
        inherited = [e for e in self.extend.effective_entries() if e.key not in own] if self.extend is not None else []
        return inherited + self.kids

    def effective_elements(self, own_first):
        if self.mirror is not None:
            return self.mirror.effective_elements(own_first)
        own = {k.key for k in self.kids}
        inherited = [e for e in self.extend.effective_elements(own_first) if e.key not in own] if self.extend is not None else []
        return self.kids + inherited if own_first else inherited + self.kids

    def comment(self):
        if not self.comments:
            return None
        if len(self.comments) == 1:
            return self.comments[0].value
        full = [i for i, c in enumerate(self.comments) if c.value is not None]
        if not full:
            return None
        indent = lambda c: c.ranges['comment'][0] - c.line.begin
        least = min(indent(self.comments[i]) for i in full)
        return '\n'.join('' if c.value is None else ' ' * (indent(c) - least) + c.value
                         for c in self.comments[full[0]:full[-1] + 1])

    def raw(self):
        r = {'type': RAW_TYPE.get(self.type, self.type)}
        if self.comments:
            r['comment'] = self.comment()
        if self.type not in (DOCUMENT, ITEM):
            r['key'] = self.key
        if self.type in (FIELD, MULTI, ITEM, ENTRY):
            r['value'] = self.effective_value()
        elif self.type == LIST:
            r['items'] = [i.raw() for i in self.effective_items()]
        elif self.type == FIELDSET:
            r['entries'] = [e.raw() for e in self.effective_entries()]
        elif self.type in (SECTION, DOCUMENT):
            r['elements'] = [e.raw() for e in self.effective_elements(False)]
        return r


class Doc:
    def __init__(self, text):
        self.text = text
        self.lines = []
        begin = 0
        for no, t in enumerate(text.split('\n')):
            self.lines.append(Line(no, begin, t))
            begin += len(t) + 1
        self.root = Node(DOCUMENT, None)
        self.free = []              # comments that belong to nothing
        self.open_at_line = {}      # line -> multiline node still open there (for C04)
        self.copies = []            # copying nodes in document order
        self.starts = []            # (line no, node) of every element / section in document order


# ---------------------------------------------------------------------------------------------- line grammar

def _span(text, base, start, end):
    """strip text[start:end]; returns (content or None, (begin, end)) in absolute indices"""
    while start < end and text[start].isspace():
        start += 1
    while end > start and text[end - 1].isspace():
        end -= 1
    return (text[start:end] or None), (base + start, base + end)


def _run(text, i, ch):
    j = i
    while j < len(text) and text[j] == ch:
        j += 1
    return j


def _ws(text, i):
    while i < len(text) and text[i].isspace():
        i += 1
    return i


def _template(text, i, base, double):
    """`< template` (or `<< template`) up to the end of the line, or None"""
    if i >= len(text) or text[i] != '<':
        return None
    j = i + 1
    if double and j < len(text) and text[j] == '<':
        j += 1
    value, span = _span(text, base, j, len(text))
    if value is None:
        return None
    return {'template': value, 'op': (base + i, base + j), 'template_span': span, 'deep': j - i == 2}


def _escaped(text, i, base, rest):
    """`key` starting at i; `rest(j)` decides whether what follows the closing backticks is acceptable"""
    start = _run(text, i, '`')
    n = start - i
    key_at = _ws(text, start)
    for q in range(key_at + 1, len(text) - n + 1):
        if text[q:q + n] == '`' * n:
            r = rest(q + n)
            if r is not None:
                key, span = _span(text, base, key_at, q)
                return key, {'escape_begin_operator': (base + i, base + start),
                             'escape_end_operator': (base + q, base + q + n), 'key': span}, r
    return None


def scan(line):
    """Classify one line. Returns (kind, data); kind is None when no pattern fits."""
    t, base = line.text, line.begin
    i = _ws(t, 0)
    if i == len(t):
        return 'blank', None
    c = t[i]
    if c in '|\\>':
        value, span = _span(t, base, i + 1, len(t))
        op = {'|': 'direct_line_continuation_operator', '\\': 'spaced_line_continuation_operator', '>': 'comment_operator'}[c]
        ranges = {op: (base + i, base + i + 1)}
        if value is not None:
            ranges['comment' if c == '>' else 'value'] = span
        return ('comment' if c == '>' else 'continuation'), dict(value=value, ranges=ranges, spaced=c == '\\')
    if c == '-':
        j = _run(t, i, '-')
        value, span = _span(t, base, j, len(t))
        if j - i == 1:
            ranges = {'item_operator': (base + i, base + j)}
            if value is not None:
                ranges['value'] = span
            return 'item', dict(value=value, ranges=ranges)
        if value is None:
            return None, None
        return 'multiline', dict(key=value, dashes=j - i, ranges={'multiline_field_operator': (base + i, base + j), 'key': span})
    if c == '#':
        j = _run(t, i, '#')
        k = _ws(t, j)
        if k == len(t) or t[k] == '<':
            return None, None

        def rest(p):
            p = _ws(t, p)
            if p == len(t):
                return {}
            return _template(t, p, base, True)

        if t[k] == '`':
            found = _escaped(t, k, base, rest)
            if found is None:
                return None, None
            key, ranges, tail = found
        else:
            p = t.find('<', k)
            p = len(t) if p == -1 else p
            tail = rest(p)
            if tail is None:
                return None, None
            key, span = _span(t, base, k, p)
            ranges = {'key': span}
        ranges['section_operator'] = (base + i, base + j)
        if tail:
            ranges['template'] = tail['template_span']
            ranges['deep_copy_operator' if tail['deep'] else 'copy_operator'] = tail['op']
        return 'section', dict(key=key, depth=j - i, template=tail.get('template'), deep=tail.get('deep', False), ranges=ranges)

    def operator(p):
        p = _ws(t, p)
        if p == len(t) or t[p] not in ':=<':
            return None
        if t[p] == '<':
            return _template(t, p, base, False)
        value, span = _span(t, base, p + 1, len(t))
        return {'operator': t[p], 'op': (base + p, base + p + 1), 'value': value, 'value_span': span}

    if c == '`':
        found = _escaped(t, i, base, operator)
        if found is None:
            return None, None
        key, ranges, tail = found
    else:
        if c in ':=<':
            return None, None
        p = min((x for x in (t.find(o, i) for o in ':=<') if x != -1), default=None)
        if p is None:
            return None, None
        tail = operator(p)
        if tail is None:
            return None, None
        key, span = _span(t, base, i, p)
        ranges = {'key': span}
    if 'template' in tail:
        ranges['copy_operator'] = tail['op']
        ranges['template'] = tail['template_span']
        return 'copy', dict(key=key, template=tail['template'], ranges=ranges)
    kind = 'element' if tail['operator'] == ':' else 'entry'
    ranges['element_operator' if kind == 'element' else 'entry_operator'] = tail['op']
    if tail['value'] is not None:
        ranges['value'] = tail['value_span']
    return kind, dict(key=key, value=tail['value'], ranges=ranges)


def _unterminated_escape(text):
    """column after the opening backticks if the line opens an escaped key that is never closed"""
    i = _ws(text, _run(text, _ws(text, 0), '#'))
    j = _run(text, i, '`')
    if j == i or j == len(text) or '`' * (j - i) in text[j:]:
        return None
    return j


# ---------------------------------------------------------------------------------------------- document grammar

def analyze(text):
    doc = Doc(text)
    section, depth = doc.root, 0
    last = None         # element that may still receive items / entries
    continuable = None
    comments = []
    whole = lambda ln: (ln.pos(ln.begin), ln.pos(ln.end))
    no = 0
    while no < len(doc.lines):
        line = doc.lines[no]
        no += 1
        kind, d = scan(line)
        if kind is None:
            col = _unterminated_escape(line.text)
            if col is not None:
                raise Reject('unterminated_escaped_key', (line.no + 1,), (line.pos(line.begin + col), line.pos(line.end)))
            raise Reject('invalid_line', (line.no + 1,), whole(line))
        if kind == 'blank':
            doc.free += comments
            comments = []
            continue
        if kind == 'comment':
            comments.append(Node('comment', line, value=d['value'], ranges=d['ranges']))
            continue
        if kind == 'continuation':
            if continuable is None:
                raise Reject('missing_element_for_continuation', (line.no + 1,), whole(line))
            if continuable.type == EMPTY:
                continuable.type = FIELD
            continuable.conts.append(Node('continuation', line, value=d['value'], ranges=d['ranges'], spaced=d['spaced']))
            doc.free += comments
            comments = []
            continue
        node = Node(None, line, key=d.get('key'), ranges=d['ranges'], comments=comments, template=d.get('template'))
        comments = []
        if kind in ('item', 'entry'):
            node.type, holder, err = (ITEM, LIST, 'missing_list_for_list_item') if kind == 'item' else (ENTRY, FIELDSET, 'missing_fieldset_for_fieldset_entry')
            if last is None or last.type not in (EMPTY, holder):
                raise Reject(err, (line.no + 1,), whole(line))
            last.type = holder
            node.value = d['value']
            node.parent = last
            last.kids.append(node)
            continuable = node
            continue
        doc.starts.append((line.no, node))
        if kind == 'section':
            node.type, node.deep = SECTION, d['deep']
            if d['depth'] > depth + 1:
                raise Reject('section_hierarchy_layer_skip', (line.no + 1,), whole(line))
            up = section
            for _ in range(depth - d['depth'] + 1):
                up = up.parent
            node.parent = up
            up.kids.append(node)
            section, depth = node, d['depth']
            last = continuable = None
            if node.template is not None:
                doc.copies.append(node)
                p = up
                while p is not doc.root:
                    p.deep_resolve = True
                    p = p.parent
            continue
        node.parent = section
        section.kids.append(node)
        if kind == 'multiline':
            node.type = MULTI
            last = continuable = None
            end = next((l for l in doc.lines[no:] if _terminates(l, d['dashes'], node.key)), None)
            if end is None:
                raise Reject('unterminated_multiline_field', (node.key, line.no + 1), whole(line))
            node.lines = doc.lines[no:end.no]
            i = _ws(end.text, 0)
            key_at = _ws(end.text, i + d['dashes'])
            node.end = Node('multiline_end', end)
            node.end.ranges = {'multiline_field_operator': (end.begin + i, end.begin + i + d['dashes']),
                               'key': (end.begin + key_at, end.begin + key_at + len(node.key))}
            no = end.no + 1
            continue
        last = node
        if kind == 'copy':
            node.type, continuable = EMPTY, None
            doc.copies.append(node)
        else:
            node.value = d['value']
            node.type = EMPTY if node.value is None else FIELD
            continuable = node
    doc.free += comments
    return doc


def _terminates(line, dashes, key):
    s = line.text.strip()
    return s[:dashes] == '-' * dashes and s[dashes:dashes + 1] != '-' and s[dashes:].strip() == key


# ---------------------------------------------------------------------------------------------- copies

class _Group:
    def __init__(self, key):
        self.key, self.targets, self.template = key, [], None


def _mirror(node, template):
    node.mirror = template.mirror if template.mirror is not None else template


def _merge_element(node, template):
    if template.comments and not node.comments:
        node.comments = template.comments
    if node.type == EMPTY:
        if template.type != EMPTY:
            node.type = FIELD if template.type == MULTI else template.type
            _mirror(node, template)
    elif template.type == node.type:
        node.extend = template
    elif template.type != EMPTY:
        kind = 'missing_fieldset_for_fieldset_entry' if node.type == FIELDSET else 'missing_list_for_list_item'
        first = node.kids[0]
        raise Reject(kind, (first.line.no + 1,), (first.line_begin(), first.line_end()))


def _merge_section(node, template, deep):
    if template.comments and not node.comments:
        node.comments = template.comments
    if not node.kids:
        return _mirror(node, template)
    node.extend = template
    if not deep:
        return
    own, theirs = {}, {}
    for side, kids in ((own, node.kids), (theirs, template.kids)):
        for k in kids:
            side.setdefault(k.key, []).append(k)
    for key, mine in own.items():
        other = theirs.get(key, [])
        if len(mine) == 1 and len(other) == 1 and mine[0].type == SECTION and other[0].type == SECTION:
            _merge_section(mine[0], other[0], True)


def _cycle(chain, node):
    loop = chain[chain.index(node):]
    at = next(n for n in [loop[-1]] + loop if n.template is not None)
    return Reject('cyclic_dependency', (at.line.no + 1, at.template), (at.at('template', 0), at.at('template', 1)))


def _not_found(kind, group):
    t = group.targets[0]
    return Reject(kind, (t.line.no + 1, group.key), (t.line_begin(), t.line_end()))


def _resolve_element(node, chain=()):
    if node in chain:
        raise _cycle(list(chain), node)
    template = node.pending.template
    if template is None:
        raise _not_found('non_section_element_not_found', node.pending)
    if template.pending is not None:
        _resolve_element(template, chain + (node,))
    _merge_element(node, template)
    node.pending = None


def _resolve_section(node, chain=()):
    if node in chain:
        raise _cycle(list(chain), node)
    if node.deep_resolve:
        for k in node.kids:
            if k.type == SECTION and (k.pending is not None or k.deep_resolve):
                _resolve_section(k, chain + (node,))
        node.deep_resolve = False
    if node.pending is not None:
        template = node.pending.template
        if template is None:
            raise _not_found('section_not_found', node.pending)
        if template.pending is not None or template.deep_resolve:
            _resolve_section(template, chain + (node,))
        _merge_section(node, template, node.deep)
        node.pending = None


def resolve(doc, first=None):
    """Link copies to their templates. `first` = index of the copy to resolve first (None: the usual order)."""
    if not doc.copies:
        return
    groups = {False: {}, True: {}}
    for n in doc.copies:
        side = groups[n.type == SECTION]
        g = side.setdefault(n.template, _Group(n.template))
        g.targets.append(n)
        n.pending = g
    defects = []

    def index(section):
        for k in section.kids:
            if k.type == SECTION:
                index(k)
            g = groups[k.type == SECTION].get(k.key)
            if g is not None and k.template != k.key:
                if g.template is not None:
                    t = g.targets[0]
                    defects.append(Reject('two_or_more_templates_found', (g.key,), (t.line_begin(), t.line_end())))
                else:
                    g.template = k

    index(doc.root)
    if defects:
        raise Reject(defects[0].kind, defects[0].margs, defects[0].sel, defects[1:])
    if first is not None:
        n = doc.copies[first]
        (_resolve_section if n.type == SECTION else _resolve_element)(n)
    for side, kind, run in ((False, 'non_section_element_not_found', _resolve_element), (True, 'section_not_found', _resolve_section)):
        for g in groups[side].values():
            if g.template is None:
                raise _not_found(kind, g)
            for t in g.targets:
                if t.pending is not None:
                    run(t)


def parse(text):
    doc = analyze(text)
    try:
        resolve(doc)
    except Reject as e:
        # several copies may be defective at once: any of them may be the one reported
        if e.kind != 'two_or_more_templates_found':
            seen = set(e.all())
            for i in range(min(len(doc.copies), 12)):
                try:
                    resolve(analyze(text), first=i)
                except Reject as other:
                    if (other.kind, other.margs, other.sel) not in seen:
                        seen.add((other.kind, other.margs, other.sel))
                        e.alternatives.append(other)
        raise
    return doc


# ---------------------------------------------------------------------------------------------- lookup

def lookup(doc, no, index):
    """The (node, range name) at a position; no = line number, index = absolute index."""
    node, part = doc.root, None
    while True:
        inner = None
        for k in node.kids:
            if k.line.no <= no and (k.type == SECTION or no <= _end_line(k)):
                inner = k
        if inner is None:
            break
        node = inner
        if node.line.no == no:
            part = node
            break
        if node.type in (SECTION, LIST, FIELDSET):
            continue
        if node.type == MULTI:
            part = node.end if no == node.end.line.no else next(l for l in node.lines if l.no == no)
        else:
            part = next((c for c in node.conts if c.line.no == no), None)
        break
    if part is None:
        part = next((c for c in doc.free if c.line.no == no), None)
    if part is None:
        return node, None
    if isinstance(part, Line):
        return node, 'value'
    best = None
    for name, (b, e) in part.ranges.items():
        if b <= index <= e and (best is None or b > best[0]):
            best = (b, name)
    return node, best[1] if best else None


def _end_line(node):
    return node.last().line.no
