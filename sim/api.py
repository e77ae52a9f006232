"""Reference model of the element API: same class and method names as enolib, no caches, no shared state.

Errors are raised (or returned) as MError(text, selection); texts come from the locale under test, which message is
used with which arguments is decided here.
"""
from .eno import (DOCUMENT, EMPTY, ENTRY, FIELD, FIELDSET, ITEM, LIST, MULTI, SECTION)

FIELDISH = (FIELD, MULTI, EMPTY)
PRETTY = {EMPTY: 'empty_element', FIELD: 'field', MULTI: 'field', FIELDSET: 'fieldset', LIST: 'list', SECTION: 'section'}


class MError(Exception):
    """What a ValidationError must say; alts: other selections that are as good"""
    def __init__(self, text, sel, alts=()):
        super().__init__(text)
        self.text, self.sel, self.alts = text, sel, alts


class MTypeError(Exception):
    pass


class MNoMethod(Exception):
    """The handle has no such accessor"""


ZERO = ((0, 0, 0), (0, 0, 0))


def select_element(n):
    return (n.line_begin(), n.last().line_end())


class Env:
    def __init__(self, messages, doc):
        self.messages, self.doc = messages, doc
        self.loaders = {}       # registered name -> loader

    def err(self, text, sel, alts=()):
        if self.on_report is not None:
            self.on_report()
        return MError(text, sel, alts)

    on_report = None        # a failing reporter, counted once per error made

    def msg(self, name, *args):
        return self.messages.msg(name, *args)

    def keyed(self, name, key):
        return self.msg(name) if key is None else self.msg(name + '_with_key', key)


class Base:
    def __init__(self, env, node, parent=None):
        self.env, self.node, self.up = env, node, parent
        self.touched = False
        self.fresh = False

    # -- attributes registered by name
    GENERIC = ('key', 'optional_comment', 'required_comment')

    def _owner_key(self):
        return self.node.parent.key if self.node.type == ITEM else self.node.key

    def _comment(self, required, loader=None):
        self.touched = True
        c = self.node.comment()
        if not c:
            if required:
                raise self.env.err(self.env.msg('missing_comment'), (self.node.line_begin(),) * 2)
            return None
        if loader is None:
            return c
        try:
            return loader(c)
        except ValueError as e:
            raise self._comment_error(e)

    def _comment_error(self, message):
        cs = self.node.comments
        if not cs:
            sel = (self.node.line_begin(),) * 2
        elif len(cs) == 1 and cs[0].value is not None:
            sel = (cs[0].at('comment', 0), cs[0].at('comment', 1))
        else:
            sel = (cs[0].line_begin(), cs[-1].line_end())
        return self.env.err(self.env.msg('comment_error', message), sel)

    def comment_error(self, message):
        return self._comment_error(message(self.node.comment()) if callable(message) else message)

    def error(self, message):
        return self.env.err(message(self) if callable(message) else message, select_element(self.node))

    def _key_error(self, message):
        n = self.node.parent if self.node.type == ITEM else self.node
        return self.env.err(self.env.msg('key_error', message), (n.at('key', 0), n.at('key', 1)))

    def key_error(self, message):
        return self._key_error(message(self._owner_key()) if callable(message) else message)

    def key(self, loader):
        self.touched = True
        try:
            return loader(self._owner_key())
        except ValueError as e:
            raise self._key_error(e)

    def string_key(self):
        self.touched = True
        return self._owner_key()

    def optional_comment(self, loader):
        return self._comment(False, loader)

    def required_comment(self, loader):
        return self._comment(True, loader)

    def optional_string_comment(self):
        return self._comment(False)

    def required_string_comment(self):
        return self._comment(True)

    def raw(self):
        return self.node.raw()

    def touch(self):
        self.touched = True


def parent_of(self):
    if self.up is not None:
        return self.up
    n = self.node.parent
    if n is None:
        return None
    made = {LIST: List, FIELDSET: Fieldset}.get(n.type, Section)(self.env, n)
    made.fresh = True
    return made


class Value(Base):
    GENERIC = Base.GENERIC + ('optional_value', 'required_value')

    def _value(self, required, loader=None):
        self.touched = True
        v = self.node.effective_value()
        if v is None:
            if required:
                raise self._missing_value()
            return None
        if loader is None:
            return v
        try:
            return loader(v)
        except ValueError as e:
            raise self._value_error(e)

    def _missing_value(self):
        n = self.node
        if n.type == ENTRY:
            text, op = self.env.msg('missing_fieldset_entry_value', n.key), 'entry_operator'
        elif n.type == ITEM:
            text, op = self.env.msg('missing_list_item_value', n.parent.key), 'item_operator'
        else:
            text = self.env.msg('missing_field_value', n.key)
            op = 'template' if 'template' in n.ranges else 'element_operator'
        begin = n.at(op, 1) if op in n.ranges else n.line_end()
        return self.env.err(text, (begin, n.conts[-1].line_end() if n.type == FIELD and n.conts else n.line_end()))

    def _value_error(self, message):
        n = self.node
        text = self.env.msg('value_error', message)
        if n.mirror is not None:
            return self.env.err(text, (n.at('key', 0), n.at('key', 1)))
        if n.type == MULTI:
            if n.lines:
                first, last = n.lines[0], n.lines[-1]
                return self.env.err(text, (first.pos(first.begin), last.pos(last.end)))
            return self.env.err(text, (n.line_end(),) * 2)
        if n.value is not None:
            begin = n.at('value', 0)
        else:
            op = next((o for o in ('element_operator', 'entry_operator', 'item_operator') if o in n.ranges), None)
            begin = n.at(op, 1) if op else n.line_end()
        if n.conts:
            end = n.conts[-1].line_end()
        else:
            end = n.at('value', 1) if n.value is not None else n.line_end()
        return self.env.err(text, (begin, end))

    def optional_string_value(self):
        return self._value(False)

    def required_string_value(self):
        return self._value(True)

    def optional_value(self, loader):
        return self._value(False, loader)

    def required_value(self, loader):
        return self._value(True, loader)

    def value_error(self, message):
        return self._value_error(message(self.node.effective_value()) if callable(message) else message)


class Empty(Base):
    pass


class Field(Value):
    pass


class ListItem(Value):
    pass


class FieldsetEntry(Value):
    pass


def shorten(v):
    if not v:
        return 'None'
    return v[:11] + '...' if len(v) > 14 else v


class List(Base):
    GENERIC = Base.GENERIC + ('optional_values', 'required_values')

    def __init__(self, env, node, parent=None):
        super().__init__(env, node, parent)
        self.all = [ListItem(env, n, self) for n in node.effective_items()]

    def items(self):
        self.touched = True
        return list(self.all)

    def length(self):
        self.touched = True
        return len(self.all)

    def _values(self, m, *a):
        self.touched = True
        return [getattr(i, m)(*a) for i in self.all]

    def optional_string_values(self):
        return self._values('optional_string_value')

    def required_string_values(self):
        return self._values('required_string_value')

    def optional_values(self, loader):
        return self._values('optional_value', loader)

    def required_values(self, loader):
        return self._values('required_value', loader)

    def touch(self):
        self.touched = True
        for i in self.all:
            i.touched = True

    def untouched(self):
        if not self.touched:
            return self.node
        return next((i.node for i in self.all if not i.touched), None)


class Fieldset(Base):
    def __init__(self, env, node, parent=None):
        super().__init__(env, node, parent)
        self.strict = parent.strict if parent is not None else False
        self.all = [FieldsetEntry(env, n, self) for n in node.effective_entries()]

    def _pick(self, key):
        return [e for e in self.all if e.node.key == key] if key else list(self.all)

    def _entry(self, key, required):
        self.touched = True
        found = self._pick(key)
        if not found:
            if required or self.strict:
                raise missing(self, key, 'missing_fieldset_entry')
            return MissingFieldsetEntry(key, self) if required is None else None
        if len(found) > 1:
            raise self.env.err(self.env.keyed('expected_single_fieldset_entry', key), select_element(found[0].node))
        return found[0]

    def _missing_error(self, absent):
        raise missing(self, absent.lost, 'missing_fieldset_entry')

    def all_entries_required(self, required=True):
        self.strict = required

    def assert_all_touched(self, message=None, *, only=None, skip=None):
        source = self.node
        while source.mirror is not None:
            source = source.mirror
        own = [e for e in self.all if e.node.parent is source]
        left = [e for e in grouped(own + [e for e in self.all if e.node.parent is not source]) if selected(e, only, skip) and not e.touched]
        if left:
            e = left[0]
            raise self.env.err((message(e) if callable(message) else message) or self.env.msg('unexpected_element'), select_element(e.node),
                               [select_element(x.node) for x in left])

    def entries(self, key=None):
        self.touched = True
        return self._pick(key)

    def entry(self, key=None):
        return self._entry(key, None)

    def optional_entry(self, key=None):
        return self._entry(key, False)

    def required_entry(self, key=None):
        return self._entry(key, True)

    def touch(self):
        self.touched = True
        for e in self.all:
            e.touched = True

    def untouched(self):
        if not self.touched:
            return self.node
        return next((e.node for e in self.all if not e.touched), None)


def selected(h, only, skip):
    return not (skip and h.node.key in skip) and not (only and h.node.key not in only)


def grouped(handles):
    """in order of first appearance of their key"""
    keys = []
    for h in handles:
        if h.node.key not in keys:
            keys.append(h.node.key)
    return [h for k in keys for h in handles if h.node.key == k]


def missing(parent, key, message):
    n = parent.node
    return parent.env.err(parent.env.keyed(message, key), ZERO if n.type == DOCUMENT else (n.line_end(),) * 2)


class SectionElement(Base):
    def __init__(self, env, node, parent=None):
        super().__init__(env, node, parent)
        self.took, self.handle = None, None

    def _take(self, as_, accepts, cls):
        if self.took == as_:
            return self.handle
        if self.took is not None:
            raise MTypeError(self.took)
        if self.node.type not in accepts:
            raise self.env.err(self.env.msg('expected_' + as_), select_element(self.node))
        self.took, self.handle = as_, cls(self.env, self.node, self.up)
        return self.handle

    def to_empty(self):
        return self._take('empty', (EMPTY,), Empty)

    def to_field(self):
        return self._take('field', FIELDISH, Field)

    def to_fieldset(self):
        return self._take('fieldset', (FIELDSET, EMPTY), Fieldset)

    def to_list(self):
        return self._take('list', (LIST, EMPTY), List)

    def to_section(self):
        if self.took is not None and self.node.type != SECTION:
            raise self.env.err(self.env.msg('expected_section'), select_element(self.node))
        return self._take('section', (SECTION,), Section)

    def yields_empty(self):
        return self.node.type == EMPTY

    def yields_field(self):
        return self.node.type in FIELDISH

    def yields_fieldset(self):
        return self.node.type in (FIELDSET, EMPTY)

    def yields_list(self):
        return self.node.type in (LIST, EMPTY)

    def yields_section(self):
        return self.node.type == SECTION

    def all_untouched(self):
        if self.took is None or not self.handle.touched:
            yield self.node
        if self.took in ('fieldset', 'list'):
            for h in self.handle.all:
                if not h.touched:
                    yield h.node
        elif self.took == 'section':
            for h in self.handle.all:
                yield from h.all_untouched()

    def untouched(self):
        if self.took is None:
            return self.node
        if self.took in ('empty', 'field'):
            return None if self.handle.touched else self.node
        return self.handle.untouched()

    def touch(self):
        if self.took is not None:
            self.handle.touch()


class Element(SectionElement):
    """What lookup and touch assertions hand out"""
    def __init__(self, env, node, parent=None):
        super().__init__(env, node, parent)
        self.entry_handle = self.item_handle = None

    def to_fieldset_entry(self):
        if self.node.type != ENTRY:
            raise self.env.err(self.env.msg('expected_fieldset_entry'), select_element(self.node))
        self.entry_handle = self.entry_handle or FieldsetEntry(self.env, self.node)
        return self.entry_handle

    def to_list_item(self):
        if self.node.type != ITEM:
            raise self.env.err(self.env.msg('expected_list_item'), select_element(self.node))
        self.item_handle = self.item_handle or ListItem(self.env, self.node)
        return self.item_handle

    def yields_fieldset_entry(self):
        return self.node.type == ENTRY

    def yields_list_item(self):
        return self.node.type == ITEM


ACCEPTS = {'empty': (EMPTY,), 'field': FIELDISH, 'fieldset': (FIELDSET, EMPTY), 'list': (LIST, EMPTY), 'section': (SECTION,)}


class Section(Base):
    def __init__(self, env, node, parent=None):
        super().__init__(env, node, parent)
        self.strict = parent.strict if parent is not None else False
        self.all = [SectionElement(env, n, self) for n in node.effective_elements(True)]

    def _pick(self, key):
        return [e for e in self.all if e.node.key == key] if key else list(self.all)

    def _single(self, as_, key, required):
        self.touched = True
        found = self._pick(key)
        if not found:
            if required or self.strict:
                raise missing(self, key, 'missing_' + as_)
            return MISSING[as_](key, self) if required is None else None
        if len(found) > 1:
            raise self.env.err(self.env.keyed('expected_single_' + as_, key), select_element(found[0].node))
        e = found[0]
        if as_ == 'element':
            return e
        if e.node.type not in ACCEPTS[as_]:
            raise self.env.err(self.env.keyed('expected_' + as_, key), select_element(e.node))
        return getattr(e, 'to_' + as_)()

    def _several(self, as_, key):
        self.touched = True
        r = []
        for e in self._pick(key):
            if e.node.type not in ACCEPTS[as_]:
                raise self.env.err(self.env.keyed('expected_%ss' % as_, key), select_element(e.node))
            r.append(getattr(e, 'to_' + as_)())
        return r

    def _missing_error(self, absent):
        name = {MissingField: 'field', MissingFieldset: 'fieldset', MissingList: 'list', MissingSection: 'section'}.get(type(absent), 'element')
        raise missing(self, absent.lost, 'missing_' + name)

    def elements(self, key=None):
        self.touched = True
        return self._pick(key)

    def all_elements_required(self, required=True):
        self.strict = required
        for e in self.all:
            if e.took == 'section':
                e.handle.all_elements_required(required)
            elif e.took == 'fieldset':
                e.handle.all_entries_required(required)

    def assert_all_touched(self, message=None, *, only=None, skip=None):
        scope = [e for e in grouped(self.all) if selected(e, only, skip)]
        for e in scope:
            u = e.untouched()
            if u is not None:
                raise self.env.err((message(Element(self.env, u, self)) if callable(message) else message) or self.env.msg('unexpected_element'),
                                   select_element(u), [select_element(x) for s in scope for x in s.all_untouched()])

    def touch(self):
        self.touched = True
        for e in self.all:
            e.touch()

    def untouched(self):
        if not self.touched:
            return self.node
        for e in self.all:
            u = e.untouched()
            if u is not None:
                return u
        return None


for _c in (Empty, Field, ListItem, FieldsetEntry, List, Fieldset, Section):
    _c.parent = parent_of


def _accessors():
    def single(as_, required, default):
        if default:
            return lambda self, key=None: self._single(as_, key, required)
        return lambda self, key: self._single(as_, key, required)

    for as_ in ('element', 'empty', 'field', 'fieldset', 'list', 'section'):
        setattr(Section, as_, single(as_, None, True))
        setattr(Section, 'optional_' + as_, single(as_, False, False))
        setattr(Section, 'required_' + as_, single(as_, True, True))
        if as_ not in ('element', 'empty'):
            setattr(Section, as_ + 's', (lambda a: lambda self, key=None: self._several(a, key))(as_))


_accessors()


# ---------------------------------------------------------------------------------------------- absent elements

class Missing:
    GENERIC_NONE = ('optional_comment',)

    def __init__(self, key, parent):
        self.lost, self.up = key, parent

    def _missing_error(self, _absent):
        self.up._missing_error(self)

    def _fail(self, *_a):
        self.up._missing_error(self)

    def _none(self, *_a):
        return None

    def _nothing(self, *_a):
        return []

    key = _fail
    optional_comment = _none
    required_comment = _fail
    string_key = _fail
    optional_string_comment = _none
    required_string_comment = _fail
    raw = _none


class MissingValue(Missing):
    optional_value = optional_string_value = Missing._none
    required_value = required_string_value = Missing._fail


class MissingEmpty(Missing):
    pass


class MissingField(MissingValue):
    pass


class MissingFieldsetEntry(MissingValue):
    pass


class MissingFieldset(Missing):
    entries = Missing._nothing

    def entry(self, key=None):
        return MissingFieldsetEntry(key, self)

    optional_entry = Missing._none
    required_entry = Missing._fail


class MissingList(Missing):
    items = optional_string_values = required_string_values = Missing._nothing
    optional_values = required_values = Missing._nothing


class MissingSection(Missing):
    elements = fields = fieldsets = lists = sections = Missing._nothing


class MissingSectionElement(Missing):
    def to_empty(self):
        return MissingEmpty(self.lost, self.up)

    def to_field(self):
        return MissingField(self.lost, self.up)

    def to_fieldset(self):
        return MissingFieldset(self.lost, self.up)

    def to_list(self):
        return MissingList(self.lost, self.up)

    def to_section(self):
        return MissingSection(self.lost, self.up)


for _k in ('empty', 'field', 'fieldset', 'list', 'section'):
    setattr(MissingSectionElement, 'yields_' + _k, lambda self: True)

MISSING = {'element': MissingSectionElement, 'empty': MissingEmpty, 'field': MissingField, 'fieldset': MissingFieldset,
           'list': MissingList, 'section': MissingSection}

for _k, _c in MISSING.items():
    setattr(MissingSection, _k, (lambda c: lambda self, key=None: c(key, self))(_c))
    setattr(MissingSection, 'optional_' + _k, Missing._none)
    setattr(MissingSection, 'required_' + _k, Missing._fail)
