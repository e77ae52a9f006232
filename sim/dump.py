"""Everything one can learn about a text: parsed, read completely, reported on, looked up. Real library only, plain data."""
from . import ops
from .core import lib


def begin(doc):
    """the document, or the error that rejects it"""
    try:
        return lib.parse(doc['text'], **ops.options(doc))
    except lib.ParseError as e:
        return e


def dump(doc, positions=(), root=None):
    """doc: {"text", options}; positions: indices to look up; root: what begin() gave at some earlier time, to be read now"""
    o = ops.options(doc)
    out = {'lookups': []}
    if root is None:
        root = begin(doc)
    if isinstance(root, lib.ParseError):
        out['rejected'] = ops.error_data(root)
    else:
        out['raw'] = root.raw()
        w = Walk(doc['text'])
        out['elements'] = [w.element(e) for e in root.elements()]
        out['missing'] = failure(lambda: root.required_field('no such key'))
        out['left'] = failure(root.assert_all_touched)
        fresh = lib.parse(doc['text'], **o)
        out['untouched'] = failure(fresh.assert_all_touched)
    for i in positions:
        try:
            found = lib.lookup(doc['text'], index=i, **o)
            e = found['element']
            out['lookups'].append([found['range'], e.raw() if found['range'] != 'document' else None])
        except lib.ParseError as e:
            out['lookups'].append(ops.error_data(e))
        except IndexError:
            out['lookups'].append('IndexError')
    return out


def failure(fn):
    try:
        fn()
    except lib.ValidationError as e:
        return ops.error_data(e)
    return None


class Walk:
    """errors carry snippets of the whole document: in large documents only every so many elements are reported on"""
    def __init__(self, text):
        self.stride, self.n = 1 + len(text) // 800, 0

    def reports(self):
        return self.n % self.stride == 0 if self.n < 100 else self.n % (self.n // 25) == 0

    def common(self, h):
        self.n += 1
        out = [h.string_key(), h.optional_string_comment()]
        if self.reports():
            out += [h.raw(), ops.error_data(h.error('x')), ops.error_data(h.key_error('x')), ops.error_data(h.comment_error('x'))]
        return out

    def value(self, h):
        out = self.common(h) + [h.optional_string_value()]
        if self.reports():
            out += [failure(h.required_string_value), ops.error_data(h.value_error('x'))]
        return out

    def element(self, e):
        common, value = self.common, self.value
        out = common(e) + [e.yields_empty(), e.yields_field(), e.yields_fieldset(), e.yields_list(), e.yields_section()]
        if e.yields_section():
            s = e.to_section()
            return out + common(s) + [[self.element(x) for x in s.elements()], failure(lambda: s.required_list('no such key'))]
        if e.yields_empty():
            return out + common(e.to_empty())
        if e.yields_field():
            return out + value(e.to_field())
        if e.yields_list():
            l = e.to_list()
            return out + common(l) + [l.length(), l.optional_string_values(), [value(i) for i in l.items()]]
        f = e.to_fieldset()
        return out + common(f) + [[value(i) for i in f.entries()], failure(lambda: f.required_entry('no such key'))]
