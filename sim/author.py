"""Draws client programs (lists of ops) with the help of a scratch copy of the model, so that ops mostly make sense."""
from . import api, eno, gen, ops

BASE = {
    'string_key': ('key', ''), 'key': ('typed', 'L'), 'key_error': ('err', 'M'),
    'optional_string_comment': ('comment', ''), 'required_string_comment': ('comment', ''),
    'optional_comment': ('typed', 'L'), 'required_comment': ('typed', 'L'), 'comment_error': ('err', 'M'),
    'error': ('err', 'M'), 'raw': ('raw', ''), 'touch': ('touch', ''), '__repr__': ('repr', ''),
}
VALUE = {
    **BASE, 'optional_string_value': ('value', ''), 'required_string_value': ('value', ''),
    'optional_value': ('typed', 'L'), 'required_value': ('typed', 'L'), 'value_error': ('err', 'M'), 'parent': ('parent', ''),
}
TAKES = ('empty', 'field', 'fieldset', 'list', 'section')
TAKE = {**BASE, **{'to_' + t: ('take', '') for t in TAKES}, **{'yields_' + t: ('yield', '') for t in TAKES}}
SECTION = {**BASE, 'parent': ('parent', ''), 'elements': ('many', 'k?'), 'all_elements_required': ('strict', 'B'), 'assert_all_touched': ('assert', 'A')}
for _t in ('element',) + TAKES:
    SECTION[_t] = ('nav', 'k?')
    SECTION['optional_' + _t] = ('nav', 'k')
    SECTION['required_' + _t] = ('nav', 'k?')
    if _t not in ('element', 'empty'):
        SECTION[_t + 's'] = ('many', 'k?')
MBASE = {
    'string_key': ('key', ''), 'key': ('typed', 'L'), 'optional_string_comment': ('comment', ''), 'required_string_comment': ('comment', ''),
    'optional_comment': ('typed', 'L'), 'required_comment': ('typed', 'L'), 'raw': ('raw', ''), '__repr__': ('repr', ''),
}
MVALUE = {**MBASE, 'optional_string_value': ('value', ''), 'required_string_value': ('value', ''), 'optional_value': ('typed', 'L'), 'required_value': ('typed', 'L')}

METHODS = {
    'Empty': {**BASE, 'parent': ('parent', '')},
    'Field': VALUE, 'ListItem': VALUE, 'FieldsetEntry': VALUE,
    'List': {**BASE, 'parent': ('parent', ''), 'items': ('many', ''), 'length': ('value', ''), 'optional_string_values': ('value', ''),
             'required_string_values': ('value', ''), 'optional_values': ('typed', 'L'), 'required_values': ('typed', 'L')},
    'Fieldset': {**BASE, 'parent': ('parent', ''), 'entries': ('many', 'k?'), 'entry': ('nav', 'k?'), 'optional_entry': ('nav', 'k?'),
                 'required_entry': ('nav', 'k?'), 'all_entries_required': ('strict', 'B'), 'assert_all_touched': ('assert', 'A')},
    'SectionElement': TAKE,
    'Element': {**TAKE, 'to_fieldset_entry': ('take', ''), 'to_list_item': ('take', ''), 'yields_fieldset_entry': ('yield', ''), 'yields_list_item': ('yield', '')},
    'Section': SECTION,
    'MissingEmpty': MBASE, 'MissingField': MVALUE, 'MissingFieldsetEntry': MVALUE,
    'MissingFieldset': {**MBASE, 'entries': ('many', 'k?'), 'entry': ('nav', 'k?'), 'optional_entry': ('nav', 'k?'), 'required_entry': ('nav', 'k?')},
    'MissingList': {**MBASE, 'items': ('many', ''), 'optional_string_values': ('value', ''), 'required_string_values': ('value', ''),
                    'optional_values': ('typed', 'L'), 'required_values': ('typed', 'L')},
    'MissingSectionElement': {**MBASE, **{'to_' + t: ('take', '') for t in TAKES}, **{'yields_' + t: ('yield', '') for t in TAKES}},
    'MissingSection': {**MBASE, **{k: v for k, v in SECTION.items() if v[0] in ('nav', 'many')}},
}
# what the document itself does not have (it has no key, line or comment)
ROOTLESS = ('string_key', 'key', 'key_error', 'error', 'comment_error', 'required_string_comment', 'required_comment') + tuple('to_' + t for t in TAKES) + ('to_fieldset_entry', 'to_list_item')

DEFAULT = {'key': 3, 'comment': 3, 'value': 8, 'typed': 4, 'raw': 2, 'yield': 1, 'take': 6, 'nav': 8, 'many': 6, 'parent': 1, 'assert': 2,
           'touch': 1, 'strict': 1, 'err': 2, 'repr': 1}
EFFECT_FREE = ('raw', 'yield', 'repr', 'err', 'assert')
MESSAGES = ['custom', 'two\nlines', '', 'braces {0} %s', 'ünïcode ☃', '<b>&']
GENERIC = {'key': ('ElementBase',)}


class Author:
    def __init__(self, rng, docs, weights=None, loaders=None, messages=None, missing=.15, names=(), inner_parses=.1):
        self.rng, self.docs = rng, docs
        self.model = ops.Model(docs)
        self.weights = {**DEFAULT, **(weights or {})}
        self.loaders = loaders or ['tag', 'tag', 'id', 'none', 'zero', 'blank', 'int', 'fail']
        self.messages = messages or ['tag', 'none']
        self.missing, self.names = missing, names
        self.pool = {}          # client -> [(reference, kind, node or None)]
        self.ops = []
        self.serial = 0
        self.inner_parses = inner_parses
        self.echo = None
        self.keyless = .12      # how often an accessor is asked for the only one there is

    # ---- arguments
    def key(self, handle, optional):
        r = self.rng
        if optional and r.random() < self.keyless:
            return None
        if r.random() < .02:
            return ''
        here = [h.node.key for h in getattr(handle, 'all', ())]
        if here and r.random() >= self.missing:
            return r.choice(here)
        return r.choice(['zzz', 'absent', '{0}', '%d'] + gen.KEYS[:4] + [l for l in here[:2]])

    def loader(self, nested=True):
        r = self.rng
        self.serial += 1
        do = r.choice(self.loaders)
        if do == 'reenter':
            if not nested:
                do = 'tag'
            else:
                return {'fn': 'loader', 'id': self.serial, 'do': 'reenter', 'ops': self.inner(), 'then': r.choice(['tag', 'tag', 'fail', 'raise:KeyError'])}
        spec = {'fn': 'loader', 'id': self.serial, 'do': do}
        if do not in ('tag', 'id') and r.random() < .3:
            spec['at'] = r.choice([1, 2, 2, 3])
        return spec

    def message(self, nested=True):
        r = self.rng
        self.serial += 1
        do = r.choice(self.messages)
        if r.random() < .2:
            return r.choice(MESSAGES)
        if do == 'none':
            do = 'tag'
        if do == 'reenter':
            if nested:
                return {'fn': 'msg', 'id': self.serial, 'do': 'reenter', 'ops': self.inner(), 'then': 'tag'}
            do = 'tag'
        return {'fn': 'msg', 'id': self.serial, 'do': do}

    def inner(self):
        """ops a callback runs: on handles that exist now, results dropped"""
        out = []
        for _ in range(self.rng.choice([1, 1, 2, 3])):
            c = self.rng.choice(list(self.pool))
            op = self.draw(c, nested=False)
            if self.rng.random() < self.inner_parses:
                op = {'m': 'parse', 'doc': self.rng.randrange(len(self.docs))}
            if op is not None:
                op.pop('as', None)
                out.append(op)
        return out

    # ---- one op
    def draw(self, client, nested=True, only=None):
        r = self.rng
        pool = self.pool[client]
        if not pool:
            return None
        # recent handles more often
        at = len(pool) - 1 - min(int(r.expovariate(.18)), len(pool) - 1) if r.random() < .6 else r.randrange(len(pool))
        ref, kind, node = pool[at]
        return self.draw_on(ref, kind, node, nested, only)

    def draw_on(self, ref, kind, node, nested=True, only=None):
        r = self.rng
        methods = METHODS[kind]
        if node is not None and node.type == eno.DOCUMENT:
            methods = {m: v for m, v in methods.items() if m not in ROOTLESS}
        if only is not None:
            methods = {m: v for m, v in methods.items() if v[0] in only}
        per = {}
        for m, (cat, _a) in methods.items():
            per.setdefault(cat, []).append(m)
        cats = [c for c in per if self.weights.get(c, 0) > 0]
        if not cats:
            return None
        cat = r.choices(cats, [self.weights[c] for c in cats])[0]
        m = r.choice(per[cat])
        if self.names and r.random() < .3 and cat in ('typed', 'value', 'key', 'comment'):
            handle = self.model.ref(ref)
            generic = r.choice([g for g in ops.accessors(handle) if not (node is not None and node.type == eno.DOCUMENT and g in ROOTLESS)])
            return {'m': ops.spelled(generic, r.choice(self.names)), 'on': ref}
        op = {'m': m, 'on': ref}
        a = methods[m][1]
        if a in ('k', 'k?'):
            k = self.key(self.model.ref(ref), a == 'k?')
            if k is not None or a == 'k' or r.random() < .5:
                op['a'] = [k if k is not None else '']
                if k is None:
                    op['a'] = [None]
        elif a == 'L':
            op['a'] = [self.loader(nested)]
        elif a == 'M':
            op['a'] = [self.message(nested)]
        elif a == 'B':
            if r.random() < .7:
                op['a'] = [r.random() < .6]
        elif a == 'A':
            k = {}
            if r.random() < .35:
                keys = [h.node.key for h in self.model.ref(ref).all] or ['zzz']
                k[r.choice(['only', 'skip'])] = r.sample(keys, r.randrange(0, min(3, len(keys)) + 1))
                if r.random() < .2:
                    k['skip'] = [r.choice(keys)]
            if r.random() < .55:
                op['a'] = [self.message(nested)]
            if k:
                op['k'] = k
        return op

    def emit(self, client, op):
        """execute on the scratch model, remember what came out"""
        self.serial += 1
        if op['m'] not in ('register', '__repr__'):
            op['as'] = 'h%d' % self.serial
        if client is not None:
            op['c'] = client
        out = self.model.call(op)
        self.ops.append(op)
        if out.kind == 'value' and op.get('as'):
            v = self.model.h[op['as']]
            if isinstance(v, list):
                known = {id(self.model.ref(p[0])) for p in self.pool[client]}
                for i, h in enumerate(v):
                    if isinstance(h, (api.Base, api.Missing)) and id(h) not in known and i < 12:
                        self.pool[client].append(([op['as'], i], type(h).__name__, getattr(h, 'node', None)))
            elif isinstance(v, (api.Base, api.Missing)):
                if not any(self.model.ref(p[0]) is v for p in self.pool[client]):
                    self.pool[client].append((op['as'], type(v).__name__, getattr(v, 'node', None)))
        return out

    def parse(self, client, doc):
        self.pool.setdefault(client, [])
        return self.emit(client, {'m': 'parse', 'doc': doc})

    def step(self, client, only=None):
        if self.echo is not None and only is None:      # what a callback just broke off, once more
            op, self.echo = self.echo, None
            if self.model.has(op):
                return self.emit(client, op)
        op = self.draw(client, only=only)
        if op is None:
            return None
        out = self.emit(client, op)
        if out.kind == 'own' and self.rng.random() < .4:
            self.echo = {k: v for k, v in op.items() if k not in ('as', 'c')}
            self.serial += 1
            if op.get('a') and self.rng.random() < .7:
                self.echo['a'] = [dict(x, id=self.serial, do='tag') if isinstance(x, dict) else x for x in op['a']]
        return out


def prune(ops_):
    """drop 'as' of results nobody refers to"""
    used = set()

    def note(op):
        on = op.get('on')
        if on is not None:
            used.add(on[0] if isinstance(on, list) else on)
        for a in list(op.get('a', ())) + list(op.get('k', {}).values()):
            if isinstance(a, dict) and 'ops' in a:
                for o in a['ops']:
                    note(o)

    for op in ops_:
        note(op)
    for op in ops_:
        if op.get('as') is not None and op['as'] not in used:
            del op['as']
    return ops_
