"""What the messages of a locale must be: derived once per message from probe arguments, filled in here, so that a message that treats some
keys, line numbers or texts differently from others is noticed. Every message shows each of its arguments, and no two locales share one."""
import inspect

from .core import Violation, lib

MARK = '\ue000%d\ue001'
_templates = {}


def template(locale, name, n):
    """pieces of text and argument numbers, or None when the message can not be probed"""
    known = _templates.get((locale, name, n))
    if known is None:
        known = _templates[locale, name, n] = (_derive(locale, name, n),)
    return known[0]


def _derive(locale, name, n):
    m = getattr(lib.locales[locale], name)
    if not n:
        return [m]
    try:
        text = m(*[MARK % i for i in range(n)])
    except Exception:
        return None
    out, at = [], 0
    while True:
        i = text.find('\ue000', at)
        if i < 0:
            break
        j = text.index('\ue001', i)
        out += [text[at:i], int(text[i + 1:j])]
        at = j + 1
    out.append(text[at:])
    return out


def text(locale, name, args):
    """how the message must read with these arguments"""
    t = template(locale, name, len(args))
    if t is None:
        return getattr(lib.locales[locale], name)(*args)
    return ''.join(x if isinstance(x, str) else str(args[x]) for x in t)


class Messages:
    """in place of a locale module"""

    def __init__(self, locale):
        self._locale = locale

    def msg(self, name, *args):
        return text(self._locale, name, args)


_verdict = []


def verify():
    """every message shows its arguments, and none says what another says"""
    if not _verdict:
        _verdict.append(_verify())
    if _verdict[0]:
        raise Violation('message', _verdict[0])


def _verify():
    seen = {}
    for locale, module in lib.locales.items():
        for name, v in sorted(vars(module).items()):
            if name.startswith('_') or not (isinstance(v, str) or inspect.isfunction(v)):
                continue
            n = 0 if isinstance(v, str) else len(inspect.signature(v).parameters)
            t = template(locale, name, n)
            if t is None or not any(isinstance(x, str) and ' ' in x.strip() for x in t):
                continue
            for i in range(n):
                if i not in t:
                    return 'message %s of locale %s does not show its argument %d: %r' % (name, locale, i, t)
            other = seen.setdefault(tuple(t), (locale, name))
            if other != (locale, name):
                return 'message %s of locale %s reads as %s of %s: %r' % (name, locale, other[1], other[0], t)
