"""What every snippet must satisfy, whichever reporter printed it: rows in ascending order, each quoting the stored line of
its number verbatim, and the row of the selected line is there and marked."""
import html
import re

from .core import Violation, lib

ANSI = re.compile('\x1b\\[[0-9;]*m')
HTML_ROW = re.compile('<div class="eno-report-line ([^"]*)"><div class="eno-report-gutter">([^<]*)</div><div class="eno-report-content">([^<]*)</div></div>')
TERM_ROW = re.compile(' ([ >*?]) +([0-9]+)  ')
TEXT_ROW = re.compile(' ([ >*?]) *([0-9]+) \\| ')


def rows(snippet, doc, where):
    """[(line number, mark, content)], content already unescaped"""
    name = doc.get('reporter') or 'Text'
    if isinstance(name, dict):
        name = name['base']
    m = lib.locales[doc.get('locale') or 'en']
    source = doc.get('source')
    out = []
    if name == 'Html':
        body = snippet
        if source:
            head = '<div><div>%s</div>' % source
            if not body.startswith(head) or not body.endswith('</div>'):
                raise Violation('snippet-source', '%s: source label not shown' % where)
            body = body[len(head):-6]
        if not body.startswith('<pre class="eno-report">') or not body.endswith('</pre>'):
            raise Violation('snippet-form', '%s: not an eno report' % where)
        body = body[len('<pre class="eno-report">'):-6]
        head = HTML_ROW.match(body)
        if not head or head.group(2).strip() != m.gutter_header or head.group(3) != m.content_header:
            raise Violation('snippet-form', '%s: no header' % where)
        for line in body[head.end():].split('\n'):
            row = HTML_ROW.fullmatch(line)
            if not row:
                raise Violation('snippet-form', '%s: broken row %r' % (where, line))
            if row.group(2).strip() == '...':
                continue
            mark = ' ' if not row.group(1).strip() else row.group(1)
            out.append((int(row.group(2)) - 1, mark, html.unescape(row.group(3))))
        return out, (lambda s: s)
    if name == 'Terminal':
        pattern, strip = TERM_ROW, lambda s: ANSI.sub('', s)
        body = strip(snippet)
        if source:
            head, _, body = body.partition('\n')
            if strip(str(source)) not in head:
                raise Violation('snippet-source', '%s: source label not shown' % where)
    else:
        pattern, strip = TEXT_ROW, lambda s: s
        body = snippet
        at = body.find(m.content_header)
        if at < 0 or m.gutter_header not in body[:at] or (source is not None and str(source) not in body[:at]):
            raise Violation('snippet-form', '%s: no header in %r' % (where, body[:80]))
        body = body[at + len(m.content_header) + 1:]
    for line in body.split('\n') if body else []:
        if line.strip() == '...':
            continue
        row = pattern.match(line)
        if not row:
            raise Violation('snippet-form', '%s: broken row %r' % (where, line))
        out.append((int(row.group(2)) - 1, row.group(1), line[row.end():]))
    return out, strip


def check(e, doc, where):
    lines = doc['text'].split('\n')
    got, strip = rows(e.snippet, doc, where)
    last = -1
    for no, _mark, content in got:
        if no <= last or no >= len(lines):
            raise Violation('snippet-order', '%s: row %d after row %d of %d lines' % (where, no + 1, last + 1, len(lines)))
        last = no
        if content != strip(lines[no]) and not (content == '' and not lines[no].strip()) and not ('\x1b' in lines[no] and doc.get('reporter') == 'Terminal'):
            raise Violation('snippet-row', '%s: row %d shows %r, the line is %r' % (where, no + 1, content, lines[no]))
    at = e.selection['from']['line']
    marks = {no: mark for no, mark, _ in got}
    if marks.get(at, ' ') == ' ':
        raise Violation('snippet-mark', '%s: selected line %d is not marked (rows %r)' % (where, at + 1, [(n + 1, k) for n, k, _ in got]))
