"""Complete reading of a document in lockstep with the model: every element, in seeded order, by seeded routes."""
import random

from . import api
from .eno import DOCUMENT, EMPTY, FIELD, FIELDSET, LIST, MULTI, SECTION

TYPES = {EMPTY: ('empty', 'field', 'fieldset', 'list'), FIELD: ('field',), MULTI: ('field',), FIELDSET: ('fieldset',), LIST: ('list',), SECTION: ('section',)}


def walk(lk, root, seed, errors=.2, leave=0):
    """root: handle name in lk; takes and touches everything below (but leaves out a part of it)"""
    rng = random.Random(seed)
    n = [0]

    def new():
        n[0] += 1
        return 'w%s_%d' % (seed, n[0])

    def do(m, on, *a, as_=None):
        op = {'m': m, 'on': on}
        if a:
            op['a'] = list(a)
        if as_:
            op['as'] = as_
        return lk.do(op)

    def common(ref):
        todo = ['string_key', 'optional_string_comment', 'raw']
        rng.shuffle(todo)
        for m in todo:
            do(m, ref)
        if rng.random() < errors:
            do('error', ref, 'x')

    def value(ref):
        common(ref)
        do(rng.choice(['optional_string_value', 'required_string_value']), ref)
        if rng.random() < errors:
            do('value_error', ref, 'x')

    def section(ref, handle):
        if handle.node.type == DOCUMENT:
            if rng.random() < .3:
                do('raw', ref)
        else:
            common(ref)
        name = new()
        out = do('elements', ref, as_=name)
        if out is None or out.kind != 'value':
            return
        kids = list(enumerate(out.v))
        if rng.random() < .5:
            rng.shuffle(kids)
        for i, h in kids:
            element(ref, [name, i], h)

    def element(parent, ref, h):
        common(ref)
        for t in ('empty', 'field', 'fieldset', 'list', 'section'):
            do('yields_' + t, ref)
        if leave and rng.random() < leave:
            return
        as_ = rng.choice(TYPES[h.node.type])
        name = new()
        if h.took is None and rng.random() < .3 and h.node.key:
            out = do(rng.choice(['%s', 'required_%s', 'optional_%s']) % as_, parent, h.node.key, as_=name)
            if out is None or out.kind != 'value':
                out = do('to_' + as_, ref, as_=name)
        else:
            out = do('to_' + (h.took or as_), ref, as_=name)
        if out is None or out.kind != 'value':
            return
        typed = out.v
        if isinstance(typed, api.Section):
            section(name, typed)
        elif isinstance(typed, api.Field):
            value(name)
        elif isinstance(typed, api.Empty):
            common(name)
        elif isinstance(typed, api.List):
            common(name)
            do('length', name)
            if rng.random() < .5:
                do('optional_string_values', name)
            items = new()
            out = do('items', name, as_=items)
            for i in range(len(out.v) if out is not None and out.kind == 'value' else 0):
                if not leave or rng.random() >= leave:
                    value([items, i])
        elif isinstance(typed, api.Fieldset):
            common(name)
            entries = new()
            out = do('entries', name, as_=entries)
            if out is not None and out.kind == 'value':
                for i, e in enumerate(out.v):
                    if leave and rng.random() < leave:
                        continue
                    value([entries, i])
                    if rng.random() < .3:
                        do(rng.choice(['entry', 'optional_entry', 'required_entry', 'entries']), name, e.node.key)

    section(root, lk.model.ref(root))
