"""Operations on documents as data, executed on the real library and on the reference model.

An op is a dict: {"m": method, "on": handle reference, "a": [args], "k": {kwargs}, "as": name for the result}.
A reference is a handle name, or [name, index] for one of a list of handles. Special methods without "on":
  parse   {"doc": i}                                      lookup {"doc": i, "index": n} or {"doc": i, "line": l, "column": c}
  register {"names": {name: callable spec}, "via": "names" | "functions" | "dict"}
Arguments are JSON values or callable specs {"fn": "loader" | "msg", "do": what, ...}; specs become fresh functions for
every execution and record what they were called with.
"""
import hashlib
import json

from . import api, eno, messages, report
from .core import Violation, lib
from .trace import Deadlock, Stuck

SPECIAL = ('parse', 'lookup', 'register')


class Boom(Exception):
    """What failing callbacks raise (one class per kind, see RAISE)"""


class SubValueError(ValueError):
    pass


RAISE = {c.__name__: c for c in (KeyError, AttributeError, TypeError, IndexError, RuntimeError, StopIteration, RecursionError,
                                 ZeroDivisionError, LookupError, OSError, AssertionError, NotImplementedError, MemoryError, ValueError,
                                 KeyboardInterrupt, SystemExit, GeneratorExit, ArithmeticError, Boom)}


class Outcome:
    """kind: value | error (ParseError / ValidationError) | type (TypeError) | own (raised by one of our callables)
    | nomethod | other (anything else that escaped)"""
    __slots__ = ('kind', 'v', 'log')

    def __init__(self, kind, v, log):
        self.kind, self.v, self.log = kind, v, log

    def __repr__(self):
        return '%s %r' % (self.kind, self.v)


class Skip(Exception):
    """The op refers to something a dropped or failed op would have made"""


class World:
    """Shared by both sides: handle table and callables"""
    real = False

    def __init__(self, docs):
        self.docs = docs
        self.h = {}
        self.doc_of = {}
        self.log = None
        self.own = []           # exceptions our callables raised
        self.shared = {}        # reporter / locale state of this world

    # ---- references
    def ref(self, r):
        if isinstance(r, list):
            v = self.h.get(r[0])
            if not isinstance(v, list) or r[1] >= len(v) or v[r[1]] is None:
                raise Skip
            return v[r[1]]
        v = self.h.get(r)
        if v is None or isinstance(v, list):
            raise Skip
        return v

    @staticmethod
    def base(r):
        return r[0] if isinstance(r, list) else r

    def has(self, op):
        if op['m'] in SPECIAL:
            return True
        try:
            self.ref(op['on'])
            return True
        except Skip:
            return False

    # ---- callables
    def arg(self, a):
        if isinstance(a, dict) and 'fn' in a:
            return self.callable(a)
        return a

    def callable(self, spec):
        calls = [0]

        def fn(x):
            calls[0] += 1
            entry = [spec['fn'], x, []]
            if self.log is not None:
                self.log.append(entry)
            do = spec['do']
            if 'at' in spec and spec['at'] != calls[0]:
                do = spec.get('else', 'tag')
            return self.behave(spec, do, x, entry)
        return fn

    def throw(self, e):
        self.own.append(e)
        raise e

    def behave(self, spec, do, x, entry):
        if do == 'tag':
            return ('L', spec.get('id', 0), x) if spec['fn'] == 'loader' else 'M%s(%s)' % (spec.get('id', 0), x if isinstance(x, str) else self.name(x))
        if do == 'id':
            return x
        if do in CONST:
            return CONST[do]
        if do == 'int':
            return int(x)
        if do == 'fail':
            raise ValueError('refused «%s»' % (x,))
        if do == 'fail0':
            raise ValueError()
        if do == 'fail2':
            raise ValueError('two', x)
        if do == 'failsub':
            raise SubValueError('line one\nline <two> & {three} %s')
        if do == 'bytes':
            return b'\xff'.decode('utf-8')
        if do == 'json':
            return json.loads('{' + x)
        if do.startswith('raise:'):
            self.throw(RAISE[do[6:]]('own', spec.get('id', 0)))
        if do == 'reenter':
            for op in spec['ops']:
                if self.has(op):
                    entry[2].append((op, self.call(op)))
                else:
                    entry[2].append((op, None))
            return self.behave(spec, spec.get('then', 'tag'), x, entry)
        raise AssertionError(do)

    def name(self, x):
        return 'None' if x is None else type(x).__name__

    # ---- execution
    def call(self, op):
        """Run one op; its result is stored under op['as']"""
        outer, self.log = self.log, []
        own = len(self.own)
        try:
            try:
                kind, v = 'value', self.perform(op)
            except (Violation, Skip, Stuck, Deadlock):
                raise
            except BaseException as e:
                kind, v = self.classify(e, own)
            out = Outcome(kind, v, self.log)
        finally:
            self.log = outer
        if op.get('as') is not None:
            self.h.pop(op['as'], None)
            if kind == 'value':
                self.keep(op, v)
        return out

    def keep(self, op, v):
        if op['m'] == 'lookup':
            v = v['element'] if isinstance(v, dict) else v[0]
        self.h[op['as']] = list(v) if isinstance(v, list) else v
        self.doc_of[op['as']] = op['doc'] if op['m'] in ('parse', 'lookup') else self.doc_of[self.base(op['on'])]

    def doc_index(self, op):
        return op['doc'] if op['m'] in ('parse', 'lookup') else self.doc_of.get(self.base(op['on']))

    def classify(self, e, own):
        if any(e is o for o in self.own[own:]):
            return 'own', e
        return self.classify_more(e)


CONST = {'none': None, 'zero': 0, 'blank': '', 'false': False, 'list': []}


class Real(World):
    real = True

    def __init__(self, docs):
        super().__init__(docs)
        self.shared['own'] = self.own
        self.seen = {}
        self.keepalive = []

    def options(self, d):
        return options(d, self.shared)

    def perform(self, op):
        m = op['m']
        if m == 'parse':
            d = self.docs[op['doc']]
            return lib.parse(d['text'], **self.options(d))
        if m == 'lookup':
            d = self.docs[op['doc']]
            if 'index' in op:
                return lib.lookup(d['text'], index=op['index'], **self.options(d))
            return lib.lookup(d['text'], line=op['line'], column=op['column'], **self.options(d))
        if m == 'register':
            fns = {n: self.callable(s) for n, s in op['names'].items()}
            if op.get('via') == 'functions':
                for n, f in fns.items():
                    f.__name__ = n
                return lib.register(*fns.values())
            return lib.register(fns) if op.get('via') == 'dict' else lib.register(**fns)
        target = self.ref(op['on'])
        if m == '__repr__':
            return repr(target)
        return getattr(target, m)(*[self.arg(a) for a in op.get('a', ())], **{k: self.arg(a) for k, a in op.get('k', {}).items()})

    def classify_more(self, e):
        if isinstance(e, (lib.ParseError, lib.ValidationError)):
            return 'error', e
        if isinstance(e, TypeError):
            return 'type', e
        if isinstance(e, AttributeError):
            return 'nomethod', e
        return 'other', e

    # ---- plain-data form of an outcome, handles numbered in order of appearance (for comparing real with real)
    def norm(self, out, identity=True):
        if out is None:
            return None
        return [out.kind, self.norm_value(out.kind, out.v, identity), [[l[0], self.norm_value('value', l[1], identity),
                                                                        [self.norm(o, identity) for _op, o in l[2]]] for l in out.log]]

    def norm_value(self, kind, v, identity):
        if kind == 'error' or isinstance(v, (lib.ValidationError, lib.ParseError)):
            return error_data(v)
        if kind in ('type', 'nomethod'):
            return type(v).__name__
        if kind in ('own', 'other'):
            return [type(v).__name__, [str(a) for a in v.args]]
        if v is None or isinstance(v, (bool, int, float)):
            return v
        if isinstance(v, str):
            return v
        if isinstance(v, (list, tuple)):
            return [self.norm_value('value', x, identity) for x in v]
        if isinstance(v, dict):
            return {str(k): self.norm_value('value', x, identity) for k, x in v.items()}
        if not identity:
            return ['h', type(v).__name__]
        if id(v) not in self.seen:
            self.seen[id(v)] = len(self.seen)
            self.keepalive.append(v)
        return ['h', type(v).__name__, self.seen[id(v)]]


class Handed:
    """What clients were given for their own use (errors, raw forms). They keep it and find it unchanged later, or change it
    themselves, which nobody else must notice."""
    LIMIT = 60

    def __init__(self, scribble=0):
        self.scribble = scribble    # every n-th is changed by its client
        self.n = 0
        self.kept = []

    def take(self, where, method, out):
        """after an outcome has been judged"""
        v = out.v
        if isinstance(v, (lib.ValidationError, lib.ParseError)):
            form = error_data
        elif method == 'raw' and out.kind == 'value' and isinstance(v, (dict, list)):
            form = raw_data
        elif type(v) is list:
            if len(self.kept) < self.LIMIT:
                self.kept.append((where, v, list, list(v)))
            return
        else:
            return
        self.n += 1
        if self.scribble and self.n % self.scribble == 0:
            scribble(v.selection if form is error_data else v)
            if form is error_data:
                scribble(v.cursor)
        elif len(self.kept) < self.LIMIT:
            self.kept.append((where, v, form, form(v)))

    def settle(self):
        for where, v, form, then in self.kept:
            now = form(v)
            if now != then and not (form is list and len(now) == len(then) and all(x is y for x, y in zip(now, then))):
                raise Violation('handed-out', '%s: gave %s, which later turned into %s' % (where, brief(then), brief(now)))
        return len(self.kept)


def scribble(v):
    """a client makes what it got its own"""
    if isinstance(v, dict):
        for k in list(v):
            if isinstance(v[k], (dict, list)):
                scribble(v[k])
            else:
                v[k] = v[k] + 1000 if type(v[k]) is int else 'scribbled'
    elif isinstance(v, list):
        for x in v:
            scribble(x)
        v.append('scribbled')


def raw_data(v):
    return json.dumps(v, ensure_ascii=False, default=repr)


def error_data(e):
    s = e.selection
    return {'class': type(e).__name__, 'text': str(e.text), 'snippet': e.snippet, 'str': str(e), 'message': e.message,
            'cursor': pos(e.cursor), 'selection': [pos(s['from']), pos(s['to'])]}


def pos(p):
    return [p['line'], p['column'], p['index']]


def options(d, shared=None):
    o = {}
    if d.get('locale'):
        o['locale'] = lib.locales[d['locale']]
    if d.get('reporter'):
        r = d['reporter']
        o['reporter'] = flaky(r, shared) if isinstance(r, dict) else lib.reporters[r]
    if 'source' in d:
        o['source'] = d['source']
    return o


def flaky(spec, shared):
    """A custom reporter that fails: {"base": name, "fail": [numbers of the reports that fail], "in": "init" | "snippet"}"""
    key = json.dumps(spec, sort_keys=True)
    if key not in shared:
        base = lib.reporters[spec['base']]
        state = shared[key] = {'n': 0, 'own': shared.setdefault('own', [])}

        class Flaky(base):
            def __init__(self, context):
                state['n'] += 1
                self.number = state['n']
                if spec['in'] == 'init':
                    self.fail()
                super().__init__(context)

            def snippet(self):
                if spec['in'] == 'snippet':
                    self.fail()
                return super().snippet()

            def fail(self):
                if self.number in spec['fail']:
                    e = RAISE[spec['raise']]('reporter', self.number)
                    state['own'].append(e)
                    raise e
        state['class'] = Flaky
    return shared[key]['class']


class Model(World):
    def __init__(self, docs):
        super().__init__(docs)
        self.parsed = {}
        self.envs = []
        self.loaders = {}

    def parse(self, i):
        t = self.docs[i]['text']
        if t not in self.parsed:
            try:
                self.parsed[t] = eno.parse(t)
            except eno.Reject as e:
                self.parsed[t] = e
        if isinstance(self.parsed[t], eno.Reject):
            raise self.parsed[t]
        return self.parsed[t]

    def env(self, i):
        d = self.docs[i]
        e = api.Env(messages.Messages(d.get('locale') or 'en'), self.parse(i))
        e.loaders = self.loaders
        if isinstance(d.get('reporter'), dict):
            e.on_report = self.reporter(d['reporter'])
        return e

    def reporter(self, spec):
        key = json.dumps(spec, sort_keys=True)
        state = self.shared.setdefault(key, {'n': 0})

        def on_report():
            state['n'] += 1
            if state['n'] in spec['fail']:
                self.throw(RAISE[spec['raise']]('reporter', state['n']))
        return on_report

    def perform(self, op):
        m = op['m']
        if m == 'parse':
            try:
                e = self.env(op['doc'])
            except eno.Reject:
                spec = self.docs[op['doc']].get('reporter')
                if isinstance(spec, dict):
                    self.reporter(spec)()
                raise
            return api.Section(e, e.doc.root)
        if m == 'lookup':
            try:
                e = self.env(op['doc'])
            except eno.Reject:
                spec = self.docs[op['doc']].get('reporter')
                if isinstance(spec, dict):
                    self.reporter(spec)()
                raise
            text = self.docs[op['doc']]['text']
            if 'index' in op:
                if not 0 <= op['index'] <= len(text):
                    raise IndexError
                line = text.count('\n', 0, op['index'])
                node, rng = eno.lookup(e.doc, line, op['index'])
            else:
                if not 0 <= op['line'] < len(e.doc.lines):
                    raise IndexError
                node, rng = eno.lookup(e.doc, op['line'], e.doc.lines[op['line']].begin + op['column'])
            return (api.Element(e, node), rng)
        if m == 'register':
            for n, s in op['names'].items():
                self.loaders[n] = self.callable(s)
            return None
        target = self.ref(op['on'])
        if m == '__repr__':
            return ''
        f = getattr(target, m, None)
        args = [self.arg(a) for a in op.get('a', ())]
        if f is None:
            f, args = self.registered(target, m), args
        return f(*args, **{k: self.arg(a) for k, a in op.get('k', {}).items()})

    def registered(self, target, m):
        for name, loader in self.loaders.items():
            for generic in accessors(target):
                if m == spelled(generic, name):
                    f = getattr(target, generic)
                    return lambda: f(loader)
        raise api.MNoMethod(m)

    def classify_more(self, e):
        if isinstance(e, (api.MError, eno.Reject)):
            return 'error', e
        if isinstance(e, api.MTypeError):
            return 'type', e
        if isinstance(e, api.MNoMethod):
            return 'nomethod', e
        if isinstance(e, IndexError) and not e.args:
            return 'index', e
        raise e


def accessors(target):
    """generic accessors a model handle has under every registered name"""
    r = ['key', 'optional_comment', 'required_comment']
    if hasattr(target, 'optional_value'):
        r += ['optional_value', 'required_value']
    if hasattr(target, 'optional_values'):
        r += ['optional_values', 'required_values']
    return r


def spelled(generic, name):
    if generic == 'key':
        return name + '_key'
    a, b = generic.split('_')
    return '%s_%s_%s' % (a, name, b)


class Lockstep:
    """Executes ops on the real library and on the model and compares after each"""

    def __init__(self, docs, snippets=True, judge=None, scribble=0):
        self.handed = Handed(scribble)
        self.real, self.model = Real(docs), Model(docs)
        self.docs = docs
        self.pairs = {}         # id(model handle) -> real handle
        self.back = {}          # id(real handle) -> model handle
        self.alive = []
        self.digest = hashlib.blake2b(digest_size=8)
        self.done = 0
        self.errors = 0
        self.kinds = {}
        self.snippets = snippets
        self.judge = judge
        self.stopped = False

    def do(self, op, real=None):
        """returns the model outcome (None if skipped)"""
        if self.stopped:
            return None
        if not self.model.has(op):
            return None
        r = real if real is not None else self.real.call(op)
        m = self.model.call(op)
        self.last = r
        self.done += 1
        k = '%s:%s' % (op['m'], m.kind)
        self.kinds[k] = self.kinds.get(k, 0) + 1
        try:
            self.match(op, r, m)
        except Violation as v:
            if self.judge is not None and not self.judge(op, v):
                self.stopped = True
                return None
            raise
        self.digest.update(repr((op['m'], self.real.norm(r))).encode('utf-8', 'surrogatepass'))
        self.last_data = self.real.norm(r, False)       # before the client changes it
        self.handed.take('op %s' % describe(op), op['m'], r)
        return m

    def settle(self):
        """at the end: nothing that was handed out has changed"""
        return self.handed.settle()

    def match(self, op, r, m):
        where = 'op %s' % describe(op)
        self.match_log(where, r.log, m.log, op['m'] == 'assert_all_touched')
        if m.kind == 'index':
            if not (r.kind == 'other' and isinstance(r.v, IndexError)):
                raise Violation('range', '%s: expected IndexError, got %s' % (where, show(r)))
            return
        if r.kind != m.kind:
            cls = 'escape:' + type(r.v).__name__ if r.kind in ('other', 'nomethod', 'type') else 'outcome:%s-for-%s' % (r.kind, m.kind)
            raise Violation(cls, '%s: expected %s, got %s' % (where, show(m), show(r)))
        if r.kind == 'error' or isinstance(m.v, api.MError):
            self.errors += 1
            if not isinstance(r.v, (lib.ValidationError, lib.ParseError)):
                raise Violation('outcome', '%s: expected %s, got %s' % (where, show(m), show(r)))
            try:
                check_error(r.v, m.v, self.docs[self.model.doc_index(op)], where, self.snippets)
            except (KeyError, TypeError, AttributeError, IndexError) as e:
                raise Violation('error-structure', '%s: malformed error: %r' % (where, e))
        elif r.kind == 'own':
            if type(r.v) is not type(m.v) or r.v.args != m.v.args:
                raise Violation('own', '%s: expected %r, got %r' % (where, m.v, r.v))
        elif r.kind == 'value':
            if op['m'] == '__repr__':
                if not isinstance(r.v, str):
                    raise Violation('repr', '%s: not a string' % where)
            elif op['m'] == 'lookup':
                self.match_value(where, r.v['element'], m.v[0])
                if r.v['range'] != m.v[1]:
                    raise Violation('range', '%s: expected range %r, got %r' % (where, m.v[1], r.v['range']))
            else:
                self.match_value(where, r.v, m.v)

    def match_log(self, where, rl, ml, loose=False):
        a = [l[1] if isinstance(l[1], (str, type(None))) else type(l[1]).__name__ for l in rl]
        b = [l[1] if isinstance(l[1], (str, type(None))) else type(l[1]).__name__ for l in ml]
        if a != b:
            raise Violation('calls', '%s: callback calls expected %r, got %r' % (where, b, a))
        for x, y in zip(rl, ml):
            if not loose:       # which untouched element is reported is open
                self.match_value(where + ' (callback argument)', x[1], y[1])
            for (op, r), (_op, m) in zip(x[2], y[2]):
                if (r is None) != (m is None):
                    raise Violation('outcome', '%s: nested %s skipped on one side' % (where, describe(op)))
                if r is not None:
                    self.match(op, r, m)

    def match_value(self, where, r, m):
        if isinstance(m, (list, tuple)) and not isinstance(m, str):
            if not isinstance(r, (list, tuple)) or len(r) != len(m):
                raise Violation('value', '%s: expected %s, got %s' % (where, brief(m), brief(r)))
            for x, y in zip(r, m):
                self.match_value(where, x, y)
        elif isinstance(m, (api.Base, api.Missing)):
            self.match_handle(where, r, m)
        elif type(r) is not type(m) or r != m:
            raise Violation('value', '%s: expected %s, got %s' % (where, brief(m), brief(r)))

    def match_handle(self, where, r, m):
        if type(r).__name__ != type(m).__name__:
            raise Violation('kind', '%s: expected a %s, got %s' % (where, type(m).__name__, brief(r)))
        known = self.pairs.get(id(m))
        if known is not None:
            if known is not r:
                raise Violation('identity', '%s: a different %s than before' % (where, type(m).__name__))
            return
        other = self.back.get(id(r))
        if other is not None and other is not m and not isinstance(m, api.Missing) and not getattr(m, 'fresh', False):
            raise Violation('identity', '%s: the %s of another element' % (where, type(m).__name__))
        self.alive.append((r, m))
        self.pairs[id(m)] = r
        self.back[id(r)] = m


def check_error(real, model, doc, where, snippets=True):
    """a ParseError / ValidationError against what the model says it must be"""
    want = ([(text_of(doc, k, a), s) for k, a, s in model.all()] if isinstance(model, eno.Reject)
            else [(model.text, model.sel)] + [(model.text, s) for s in model.alts])
    cls = lib.ParseError if isinstance(model, eno.Reject) else lib.ValidationError
    if type(real) is not cls:
        raise Violation('error-class', '%s: expected %s, got %s' % (where, cls.__name__, type(real).__name__))
    sel = (tuple(pos(real.selection['from'])), tuple(pos(real.selection['to'])))
    texts = [t for t, _s in want]
    if real.text not in texts:
        raise Violation('error-text', '%s: expected error %r, got %r' % (where, texts[0], real.text))
    if (real.text, sel) not in [(t, (tuple(s[0]), tuple(s[1]))) for t, s in want]:
        raise Violation('error-selection', '%s: error %r expected at %r, got %r' % (where, real.text, [s for t, s in want if t == real.text], sel))
    structure(real, doc, where)
    if snippets:
        report.check(real, doc, where)


def text_of(doc, kind, args):
    return messages.text(doc.get('locale') or 'en', kind, args)


def structure(e, doc, where):
    """what holds for every error: cursor, message, positions agree with each other and lie inside the text"""
    sel = e.selection
    if e.cursor != sel['from']:
        raise Violation('error-cursor', '%s: cursor %r is not the selection start %r' % (where, e.cursor, sel['from']))
    if e.message != '%s\n\n%s' % (e.text, e.snippet) or str(e) != e.message:
        raise Violation('error-message', '%s: message is not text and snippet' % where)
    text = doc['text']
    for p in (sel['from'], sel['to']):
        i = p['index']
        if not 0 <= i <= len(text) or p['line'] != text.count('\n', 0, i) or p['column'] != i - (text.rfind('\n', 0, i) + 1):
            raise Violation('error-position', '%s: position %r does not lie in the text' % (where, p))
    if sel['from']['index'] > sel['to']['index']:
        raise Violation('error-position', '%s: selection ends before it begins' % where)


def describe(op):
    d = {k: v for k, v in op.items() if k not in ('c',)}
    return json.dumps(d, ensure_ascii=False, default=str)[:300]


def brief(v):
    try:
        return repr(v)[:400]
    except Exception as e:
        return 'a %s whose repr raises %s' % (type(v).__name__, type(e).__name__)


def show(o):
    if o.kind == 'error':
        v = o.v
        if isinstance(v, eno.Reject):
            return 'ParseError %s%r' % (v.kind, v.margs)
        return '%s %r at %r' % (type(v).__name__, v.text, getattr(v, 'sel', None) or (pos(v.selection['from']), pos(v.selection['to'])))
    return '%s %s' % (o.kind, brief(o.v))
