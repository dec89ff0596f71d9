"""N04: text reports."""

import io

from httpolice import Exchange, Request, Response, text_report
from httpolice.exchange import check_exchange
from httpolice.parse import Symbol
from httpolice.citation import RFC
from httpolice.structure import (CacheDirective, FieldName, HeaderEntry,
                                 Parametrized)
from checks.report_common import (NOTICES, text_report_lines)
from sx.ctx import Task

FUNCTIONS = ['httpolice.reports.text', 'httpolice.reports.common',
             'httpolice.util.text.printable', 'httpolice.util.text.ellipsize',
             'httpolice.util.text.detypographize',
             'httpolice.util.text.WriteIfAny', 'httpolice.notice',
             'httpolice.header.HeaderView']
BOUNDS = {
    'quick': 'every notice, with 1-2 arbitrary characters (U+0000-U+00FF) in '
             'each slot of its title, given as text, field name, parametrized '
             'value or number; exchanges with or without request, 0-2 '
             'responses, 0-2 notices on each object; methods, targets and '
             'reasons of 0-3 arbitrary characters and around the length '
             'limits; fully checked messages with an arbitrary character in '
             'the method, target, reason, header name or header value',
    'thorough': 'the same with one more character',
}
OUTSIDE = ('characters beyond U+00FF in the messages, except U+2028, U+D800 '
           'and U+201C; longer symbolic parts')
ASSUMPTIONS = ['notices.xml is read independently (xml.etree) for the '
               'expected titles']


def report(exchanges):
    buf = io.BytesIO()
    text_report(exchanges, buf)
    return buf.getvalue().decode('utf-8')


def verify(ctx, exchanges, *detail):
    got = report(exchanges)
    want = text_report_lines(exchanges)
    text = u''
    for line in want:
        text = text + line + u'\n'
    ctx.check(u'\r' not in got, 'no stray line breaks', got, *detail)
    ctx.check(got == text, 'the report', got, text, *detail)
    if want:
        ctx.cover('lines')


def plain_exchange(ctx, method=u'GET', target=u'/', reason=u'OK'):
    req = Request(u'http', method, target, u'HTTP/1.1',
                  [(u'Host', b'example.com')], b'')
    resp = Response(u'HTTP/1.1', 200, reason,
                    [(u'Content-Type', b'text/plain')], b'hello')
    exch = Exchange(req, [resp])
    return exch


ENTRY_NAMES = (u'cAche-control', u'WWW-AUTHENTICATE', u'x-foo')


def h_title(ctx, ids, n):
    id_ = ctx.choice('id', ids)
    exch = plain_exchange(ctx)
    resp = exch.responses[0]
    refs = [p for p in NOTICES[id_][1] if isinstance(p, tuple)]
    context = {}
    for i, path in enumerate(refs):
        if path[0] in ('msg', 'previous') or path[0] in context:
            continue
        k = ctx.choice('k%d' % i, ('text', 'entry', 'number', 'param',
                                   'symbol', 'known')) if i == 0 else 'text'
        s = ctx.text('s%d' % i, n if i == 0 else 1)
        if k == 'entry':
            s = HeaderEntry(FieldName(s), b'')
        elif k == 'known':
            s = HeaderEntry(FieldName(ctx.choice('name', ENTRY_NAMES)), b'')
        elif k == 'number':
            s = ctx.int('number', 0, 1200)
        elif k == 'param':
            s = Parametrized(CacheDirective(s), None)
        elif k == 'symbol':
            s = Symbol(s, ctx.choice('cite', (None, RFC(7230, u'3.1'))))
        context[path[0]] = s
    if ('previous', 'status') in refs:
        context['previous'] = resp
    on_request = any(r[:2] in (('msg', 'method'), ('msg', 'target'))
                     for r in refs)
    (exch.request if on_request else resp).complain(id_, **context)
    verify(ctx, [exch])
    ctx.cover('id')


SEVERAL = (1010, 1277, 1109)


def h_layout(ctx, where):
    """Which lines appear, and in what order"""
    method, target, reason = u'GET', u'/', u'OK'
    if where == 'method':
        method = ctx.text('s', ctx.choice('n', (1, 2, 0, 3)))
    elif where == 'target':
        target = ctx.text('s', ctx.choice('n', (1, 2, 0, 3)))
    elif where == 'reason':
        reason = ctx.text('s', ctx.choice('n', (1, 2, 0, 3)))
    elif where == 'other':
        ch = ctx.choice('ch', (u'\u2028', u'\ud800', u'\u201c', u'\ufffe'))
        k = ctx.choice('where', range(3))
        method, target, reason = [
            (ch if i == k else u'') + u'a' for i in range(3)]
    free = where in ('method', 'target', 'reason', 'other')
    exchanges = []
    for i in range(ctx.choice('exchanges', (1,) if free else (0, 1, 2))):
        req = None
        if free or ctx.flag('req%d' % i):
            req = Request(u'http', method, target, u'HTTP/1.1', [], b'')
        resps = [Response(u'HTTP/1.1', ctx.choice(
            'st%d%d' % (i, j), (200, 299)) if i == 0 and not free else 404,
            None if where == 'noreason' else reason, [], b'')
            for j in range(1 if free else ctx.choice(
                'resps%d' % i, (0, 1, 2) if i == 0 else (0, 1)))]
        exch = Exchange(req, resps)
        for k, obj in enumerate([exch] + exch.children):
            if free:
                m = ctx.choice('m%d' % k, (0, 1)) if k < 2 else 1
            else:
                m = ctx.choice('m%d%d' % (i, k), (0, 1, 2) if i == 0 and k < 2
                               else (0, 1))
            for id_ in SEVERAL[k % 2:][:m]:
                obj.complain(id_)
        exchanges.append(exch)
    verify(ctx, exchanges)


def h_long(ctx, part):
    """Around the length limits"""
    k = ctx.choice('length', range(45, 60) if part == 'target'
                   else range(30, 45))
    s = u'x' * k + ctx.text('s', 2) + u'y' * ctx.choice('more', (0, 1))
    req = Request(u'http', u'GET', s if part == 'target' else u'/',
                  u'HTTP/1.1', [], b'')
    resp = Response(u'HTTP/1.1', 200, s if part == 'reason' else u'OK', [],
                    b'')
    exch = Exchange(req, [resp])
    resp.complain(1010)
    verify(ctx, [exch])


def h_checked(ctx, where):
    """Notices that the checks themselves report"""
    n = 2 if where in ('name', 'method', 'reason') else 1
    s = ctx.text('s', n)
    name, value, target = u'X-Y', b'z', u'/'
    method, reason = u'POST', u'OK'
    if where == 'name':
        name = u'X' + s
    elif where == 'value':
        name, value = ctx.choice('field', (
            (u'cache-control', b'pri%svate'), (u'Via', b'1.1 %s'),
            (u'Link', b'<%s>; title=%s'), (u'Content-Type', b'a/b; q=%s'),
            (u'Location', b'/%s'), (u'Date', b'%s'),
            (u'Alt-Svc', b'a%%2%s=":1"')))
        a, b = value.split(b'%s')[0], value.split(b'%s')[-1]
        value = a.replace(b'%%', b'%') + s.encode('iso-8859-1') + b
    elif where == 'method':
        method = s
    elif where == 'target':
        target = u'/' + s
    elif where == 'reason':
        reason = s
    req = Request(u'http', method, target, u'HTTP/1.1',
                  [(u'Host', b'a'), (name, value)], b'')
    resp = Response(u'HTTP/1.1', 200, reason, [(name, value)], b'')
    exch = Exchange(req, [resp])
    check_exchange(exch)
    verify(ctx, [exch])


def tasks(tier):
    m = 1 if tier == 'thorough' else 0
    out = []
    plain_ids = [i for i in sorted(NOTICES)
                 if not any(isinstance(p, tuple) for p in NOTICES[i][1])]
    for i in range(0, len(plain_ids), 60):
        out.append(Task('h_title', dict(ids=plain_ids[i:i + 60], n=1),
                        name='h_title(plain %d)' % i, expect=('id',)))
    var_ids = [i for i in sorted(NOTICES) if i not in plain_ids]
    for i in range(0, len(var_ids), 8):
        out.append(Task('h_title', dict(ids=var_ids[i:i + 8], n=1 + m),
                        name='h_title(%d...)' % var_ids[i], expect=('id',)))
    out.append(Task('h_title', dict(ids=[1000, 1030, 1244], n=2 + m),
                    name='h_title(longer)', expect=('id',)))
    for w in ('method', 'target', 'reason', 'other', 'none', 'noreason'):
        out.append(Task('h_layout', dict(where=w), max_paths=100000,
                        expect=('lines',)))
    for part in ('target', 'reason'):
        out.append(Task('h_long', dict(part=part), expect=('lines',)))
    for w in ('name', 'value', 'method', 'target', 'reason'):
        out.append(Task('h_checked', dict(where=w), max_paths=100000,
                        expect=('lines',)))
    return out
