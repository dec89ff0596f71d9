"""What reports should show (N04, N05)."""

import csv
import os
import xml.etree.ElementTree as ET

import httpolice.notice as notice_module
from httpolice.header import HeaderView
from httpolice.parse import Symbol
from httpolice.structure import HeaderEntry, Parametrized

_XML = os.path.join(os.path.dirname(notice_module.__file__), 'notices.xml')


def _load():
    out = {}
    for e in ET.parse(_XML).getroot():
        if e.tag in ('error', 'comment', 'debug'):
            t = e.find('title')
            parts = [t.text or u'']
            for child in t:
                if child.tag == 'var':
                    parts.append(tuple(child.get('ref').split('.')))
                else:
                    assert not len(child), e.get('id')
                    parts.append((child.text or u'').strip())
                parts.append(child.tail or u'')
            parts[0] = parts[0].lstrip()
            parts[-1] = parts[-1].rstrip()
            out[int(e.get('id'))] = (e.tag, parts)
    return out


NOTICES = _load()
ELEMENTS = {int(e.get('id')): e for e in ET.parse(_XML).getroot()
            if e.tag in ('error', 'comment', 'debug')}
CANONICAL = {}
with open(os.path.join(os.path.dirname(_XML), 'known', 'header.csv')) as _f:
    for _row in csv.DictReader(_f):
        CANONICAL.setdefault(len(_row['key']), {})[_row['key'].lower()] = \
            _row['key']

CONTROL = frozenset(list(range(9)) + [0xb, 0xc] + list(range(0xe, 0x20)) +
                    list(range(0x7f, 0xa0)))


WIDE_CONTROL = frozenset(map(chr, list(range(0xd800, 0xe000)) +
                             list(range(0xfdd0, 0xfdf0)) + [0xfffe, 0xffff]))


def shown(s):
    """The printable form of 8-bit text (U+FFFD for control characters)."""
    out = u''
    for c in s:
        if ord(c) in CONTROL or (c > u'\xff' and c in WIDE_CONTROL):
            out = out + u'\ufffd'
        else:
            out = out + c
    return out


BREAKS = frozenset(b'\r\n')


def one_line(s):
    out = u''
    for c in shown(s):
        if ord(c) in BREAKS:
            out = out + u'\ufffd'
        else:
            out = out + c
    return out


TYPO = {0x201c: u'"', 0x201d: u'"', 0x2018: u"'", 0x2019: u"'",
        0x2014: u'--', 0x2013: u'-', 0x2212: u'-'}


def plain(s):
    out = u''
    for c in s:
        if type(c) is str and c > u'\xff':
            out = out + TYPO.get(ord(c), c)
        elif c == u'\xa0':
            out = out + u' '
        else:
            out = out + c
    return out


def canonical(name):
    table = CANONICAL.get(len(name), {})
    low = (u'' + name).lower()
    if low in table:
        for k, v in table.items():
            if low == k:
                return v
    return u'' + name


def value_text(x):
    if isinstance(x, (HeaderEntry, HeaderView)):
        return canonical(x.name)
    if isinstance(x, Parametrized):
        return value_text(x.item)
    if isinstance(x, Symbol):
        if x.citation:
            return x.name + u' (' + str(x.citation.title) + u')'
        return x.name
    if isinstance(x, str):
        return u'' + x
    return str(x)


def resolve(context, path):
    x = context[path[0]]
    for p in path[1:]:
        x = getattr(x, p)
    return x


def title_text(id_, context):
    out = u''
    for p in NOTICES[id_][1]:
        if isinstance(p, tuple):
            p = value_text(resolve(context, p))
        out = out + p
    return out


def cut(s, n):
    return s if len(s) <= n else s[:n - 3] + u'...'


REASONS = {200: u'OK', 404: u'Not Found', 100: u'Continue'}


def notice_line(complaint):
    sev = NOTICES[complaint.id][0]
    return u'%s %d ' % (sev[0].upper(), complaint.id) + \
        plain(one_line(title_text(complaint.id, complaint.context)).strip())


def text_report_lines(exchanges):
    out = []
    for e in exchanges:
        lines = []
        if e.request:
            lines.extend(notice_line(c) for c in e.request.complaints)
        for r in e.responses:
            cs = [notice_line(c) for c in r.complaints]
            if cs:
                reason = r.reason or REASONS.get(int(r.status)) or u'(unknown)'
                lines.append(cut(u'------------ response: ' +
                                 str(int(r.status)) + u' ' + one_line(reason),
                                 60))
                lines.extend(cs)
        lines.extend(notice_line(c) for c in e.complaints)
        if lines:
            if e.request:
                head = cut(u'------------ request: ' +
                           one_line(e.request.method) + u' ' +
                           one_line(e.request.target), 79)
            elif e.responses:
                head = u'------------ unknown request'
            else:
                head = u'------------'
            out.append(head)
            out.extend(lines)
    return out
