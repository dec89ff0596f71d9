"""N05: HTML reports."""

import io
import re
from types import SimpleNamespace

from httpolice import Exchange, Request, Response, html_report
from httpolice.citation import RFC
from httpolice.exchange import check_exchange
from httpolice.parse import ParseError, Symbol
from httpolice.structure import (CacheDirective, FieldName, HeaderEntry,
                                 Parametrized)
from checks.report_common import ELEMENTS, NOTICES, shown, title_text
from sx.ctx import Task

FUNCTIONS = ['httpolice.reports.html', 'httpolice.reports.common',
             'httpolice.util.text.printable', 'httpolice.notice',
             'httpolice.message.Message.displayable_body',
             'httpolice.message.Message.annotated_header_entries',
             'httpolice.known', 'dominate.dom_tag', 'dominate.util',
             'dominate.tags']
BOUNDS = {
    'quick': '1-2 arbitrary characters (U+0000-U+00FF; or one of U+2028, '
             'U+D800, U+FFFE) in one of: method, target, scheme, version, '
             'reason, header name, header value (unknown, and ten known '
             'syntaxes), trailer name and value, body, remark, the context of '
             'every notice that shows a variable; reports of one exchange '
             'with request and response',
    'thorough': 'the same with one more character',
}
OUTSIDE = ('characters beyond U+00FF except the listed ones; line-break '
           'normalisation that browsers do (CR, and a line break right after '
           '<pre>); appearance')
ASSUMPTIONS = ['a reference HTML tokenizer: tags, double-quoted attributes, '
               'character references']

VOID = frozenset([u'hr', u'br'])
TAGS = frozenset([u'div', u'section', u'h2', u'h3', u'code', u'span', u'pre',
                  u'p', u'a', u'abbr', u'q', u'cite', u'hr', u'var'])
ATTRS = frozenset([u'class', u'data-ref-id', u'data-ref-to', u'title',
                   u'href'])
ENTITIES = {u'amp': u'&', u'lt': u'<', u'gt': u'>', u'quot': u'"',
            u'#x27': u"'", u'#39': u"'", u'#34': u'"'}


class Malformed(Exception):
    pass


class Node:

    def __init__(self, tag, attrs):
        self.tag = tag
        self.attrs = attrs
        self.children = []

    def text(self):
        out = u''
        for c in self.children:
            out = out + (c.text() if isinstance(c, Node) else c)
        return out

    def elements(self):
        return [c for c in self.children if isinstance(c, Node)]

    def all(self, tag, cls=None):
        out = []
        for c in self.elements():
            if c.tag == tag and (cls is None or
                                 c.attrs.get(u'class') == cls):
                out.append(c)
            out.extend(c.all(tag, cls))
        return out

    def direct(self, tag, cls=None):
        return [c for c in self.elements() if c.tag == tag and
                (cls is None or c.attrs.get(u'class') == cls)]


def decoded(s):
    """Resolve character references."""
    if u'&' not in s:
        return s
    pieces = s.split(u'&')
    out = pieces[0]
    for p in pieces[1:]:
        name, semicolon, rest = p.partition(u';')
        if not semicolon or name not in ENTITIES:
            raise Malformed(u'a bare ampersand')
        out = out + ENTITIES[name] + rest
    return out


ATTR = re.compile(u' ([a-z-]+)="')


def parse(html):
    """Build the tree that a browser would see."""
    root = Node(None, {})
    stack = [root]
    chunks = html.split(u'<')
    if chunks[0]:
        stack[-1].children.append(decoded(chunks[0]))
    for chunk in chunks[1:]:
        tag, bracket, text = chunk.partition(u'>')
        if not bracket:
            raise Malformed(u'no end of tag')
        if not isinstance(tag, str) or type(tag) is not str:
            raise Malformed(u'input in a tag')
        if tag.startswith(u'/'):
            if tag[1:] != stack[-1].tag:
                raise Malformed(u'unbalanced')
            stack.pop()
        else:
            name = tag.split(u' ')[0]
            rest = tag[len(name):]
            attrs = {}
            while rest:
                m = ATTR.match(rest)
                if not m or u'"' not in rest[m.end():]:
                    raise Malformed(u'strange attributes')
                end = rest.index(u'"', m.end())
                attrs[m.group(1)] = decoded(rest[m.end():end])
                rest = rest[end + 1:]
            node = Node(name, attrs)
            stack[-1].children.append(node)
            if name not in TAGS:
                raise Malformed(u'unexpected tag')
            if not ATTRS.issuperset(attrs):
                raise Malformed(u'unexpected attribute')
            if not attrs.get(u'href', u'https:').startswith(
                    (u'https:', u'http:')):
                raise Malformed(u'unexpected URL')
            if name not in VOID:
                stack.append(node)
        if text:
            stack[-1].children.append(decoded(text))
    if len(stack) != 1:
        raise Malformed(u'unclosed tags')
    return root


START, END = u'<h1>HTTPolice report</h1>\n    <hr>', u'\n  </body>\n</html>'
DIV = u'<div class="exchange">'


def squeeze(s):
    return s.strip(u' \n')


class Report:

    def __init__(self, ctx, exch, *detail):
        self.ctx = ctx
        self.detail = detail
        buf = io.BytesIO()
        html_report([exch], buf)
        html = buf.getvalue().decode('utf-8')
        i = html.index(u'</head>')
        start = html.index(DIV, i) if DIV in html else len(html)
        end = html.rindex(u'</body>')
        self.html = html = html[start:end].rstrip(u' \n')
        try:
            root = parse(html)
        except Malformed as exc:
            ctx.check(False, 'well-formed', str(exc), html, *detail)
            root = None
        self.root = root
        if root is not None:
            ctx.cover('parsed')
            self.verify(exch)

    def same(self, label, got, want):
        self.ctx.check(got == want, label, got, want, *self.detail)

    def verify(self, exch):
        box, = self.root.direct(u'div')
        sections = box.direct(u'section')
        objs = ([exch.request] if exch.request else []) + exch.responses
        self.same('sections', len(sections), len(objs))
        for section, obj in zip(sections, objs):
            self.message(section.direct(u'div', u'message-display')[0], obj)
            self.notices(section, obj)
        self.notices(box, exch)

    def message(self, div, msg):
        remarks = [p.text() for p in div.direct(u'p', u'message-remark')]
        self.same('remark', remarks, [shown(msg.remark)] if msg.remark else [])
        head = div.direct(u'h2')[0].direct(u'code')[0]
        got = [squeeze(s.text()) for s in head.direct(u'span')]
        version = [shown(u'' + msg.version)] if msg.version else []
        if isinstance(msg, Request):
            want = [shown(u'' + msg.method), shown(u'' + msg.target)] + version
        else:
            want = version + [str(int(msg.status)) + u' ' +
                              shown(u'' + msg.reason)]
        self.same('first line', got, [squeeze(w) for w in want])
        self.entries(div.direct(u'pre'), msg.header_entries)
        trailer = div.direct(u'div', u'trailer')
        self.same('trailer', len(trailer), 1 if msg.trailer_entries else 0)
        if trailer:
            self.entries(trailer[0].direct(u'pre'), msg.trailer_entries)
        self.body = div.direct(u'div', u'body-display')

    def entries(self, pres, entries):
        got = [p.text() for p in pres]
        want = [shown(u'' + e.name) + u': ' +
                shown(e.value.decode('iso-8859-1')) for e in entries]
        self.same('header lines', got, want)

    def notices(self, node, obj):
        got = []
        for box in node.direct(u'div', u'complaints'):
            for div in box.elements():
                abbr, ident, title = div.direct(u'h3')[0].elements()
                got.append((div.attrs[u'class'], abbr.attrs[u'title'],
                            abbr.text(), ident.text(), title.text().strip()))
        want = []
        for c in obj.complaints:
            sev = NOTICES[c.id][0]
            want.append((u'notice ' + sev, sev, sev[0].upper(), str(c.id),
                         shown(title_text(c.id, c.context)).strip()))
        self.same('notices', got, want)


def message_pair(ctx, where, s):
    """An exchange with `s` in the given place."""
    scheme, method, target, version = u'http', u'POST', u'/', u'HTTP/1.1'
    reason, req_headers, resp_headers = u'OK', [(u'Host', b'a')], []
    req_body, resp_body, trailer, remark = b'', b'', None, None
    if where == 'method':
        method = s
    elif where == 'target':
        target = u'/' + s
    elif where == 'scheme':
        scheme = s
    elif where == 'version':
        version = s
    elif where == 'reason':
        reason = s
    elif where == 'remark':
        remark = s
    elif where == 'name':
        req_headers = [(s, b'z')]
        resp_headers = [(u'X' + s, b'z')]
    elif where == 'trailer':
        trailer = [(s, b'q' + s.encode('iso-8859-1'))]
    elif where == 'value':
        req_headers = [(u'Foo', s.encode('iso-8859-1'))]
        resp_headers = [(u'Foo', b'"' + s.encode('iso-8859-1'))]
    elif where == 'body':
        resp_headers = [(u'Content-Type', b'text/plain; charset=iso-8859-1')]
        resp_body = b'hello' + s.encode('iso-8859-1')
        req_body = s.encode('iso-8859-1')
    req = Request(scheme, method, target, version, req_headers, req_body,
                  remark=remark)
    resp = Response(version, 200, reason, resp_headers, resp_body, trailer,
                    remark=remark)
    return Exchange(req, [resp])


OTHER = (u'\u2028', u'\ud800', u'\ufffe')


def h_place(ctx, where, n, checked, other=False):
    if other:
        s = ctx.choice('other', OTHER)
        s = ctx.choice('how', (s, s + u'<', u'&' + s))
    else:
        s = ctx.text('s', n)
    exch = message_pair(ctx, where, s)
    if checked:
        check_exchange(exch)
    r = Report(ctx, exch, where)
    if where == 'body' and r.root is not None and s:
        pre = r.body[0].direct(u'pre')[0].text()
        r.same('body', pre, shown(u'hello' + s))


KNOWN_FIELDS = (
    (u'Cache-Control', b'pri%svate'), (u'Via', b'1.1 %s'),
    (u'Link', b'<%s>; title=%s'), (u'Content-Type', b'a/b; q=%s'),
    (u'Location', b'/%s'), (u'Date', b'%s'), (u'Alt-Svc', b'a~2%s=":1"'),
    (u'Allow', b'GET, %s'), (u'Warning', b'299 - "%s"'),
    (u'Set-Cookie', b'a=%s'), (u'Content-Disposition', b'form-data; a="%s"'),
    (u'Content-Length', b'%s'), (u'Transfer-Encoding', b'chunked, %s'))


def h_field(ctx, i, n):
    """Header values that the checks understand"""
    name, value = KNOWN_FIELDS[i]
    s = ctx.text('s', n).encode('iso-8859-1')
    a, b = value.split(b'%s')[0], value.split(b'%s')[-1]
    value = a.replace(b'~', b'%') + s + b
    req = Request(u'http', u'GET', u'/', u'HTTP/1.1',
                  [(u'Host', b'a'), (name, value)], b'')
    resp = Response(u'HTTP/1.1', 200, u'OK', [(name, value)], b'')
    exch = Exchange(req, [resp])
    check_exchange(exch)
    Report(ctx, exch, name)


def paths_of(id_):
    """Everything that the notice takes from its context."""
    e = ELEMENTS[id_]
    out = []
    for x in e.iter():
        ref = x.get('ref') if x.tag == 'var' else \
            x.get('to') if x.tag == 'ref' else None
        if ref:
            path = tuple(ref.split('.'))
            if path[0] not in ('msg', 'previous') and path not in out:
                out.append(path)
        if x.tag == 'exception':
            out.append(('error',))
    return out


def usable(id_):
    """Whether no variable is shown both as such and through an attribute."""
    paths = paths_of(id_)
    return paths and all(p == q or p[0] != q[0] for p in paths for q in paths)


def h_title(ctx, ids, n):
    """Every notice that shows variables"""
    id_ = ctx.choice('id', ids)
    exch = message_pair(ctx, None, u'')
    resp = exch.responses[0]
    s = ctx.text('s', n)
    context = {'previous': resp}
    for path in paths_of(id_):
        x = s
        if path == ('error',):
            x = ctx.choice('error', (u'%s', None))
            x = ParseError(s, 0, [(s, [Symbol(s, RFC(7230, u'3.1'))])], b'<') \
                if x is None else ValueError(s)
        elif path[0] in ('entry', 'header', 'entry1', 'entry2') and \
                len(path) == 1:
            x = HeaderEntry(FieldName(s), b'')
        elif path[0] in ('directive', 'param') and len(path) == 1:
            x = Parametrized(CacheDirective(s), None)
        elif path[0] in ('place', 'name') and len(path) == 1:
            x = Symbol(s, RFC(7230, u'3.1'))
        for attr in reversed(path[1:]):
            x = SimpleNamespace(**{attr: x})
        context[path[0]] = x
    on_request = any(x.get('ref', x.get('to')) in ('msg.method', 'msg.target')
                     for x in ELEMENTS[id_].iter())
    (exch.request if on_request else resp).complain(id_, **context)
    Report(ctx, exch, id_)


def tasks(tier):
    m = 1 if tier == 'thorough' else 0
    out = []
    for w in ('method', 'target', 'scheme', 'version', 'reason', 'remark',
              'name', 'trailer', 'value', 'body'):
        for checked in (False, True):
            out.append(Task('h_place', dict(
                where=w, n=(1 if checked else 2) + m, checked=checked),
                max_paths=20000, expect=('parsed',)))
        if w in ('method', 'target', 'reason', 'remark'):
            out.append(Task('h_place', dict(where=w, n=1, checked=False,
                                            other=True),
                            name='h_place(%s, other)' % w,
                            expect=('parsed',)))
    for i in range(len(KNOWN_FIELDS)):
        out.append(Task('h_field', dict(i=i, n=1 + m), max_paths=20000,
                        name='h_field(%s)' % KNOWN_FIELDS[i][0],
                        expect=('parsed',)))
    ids = [i for i in sorted(NOTICES) if usable(i)]
    for i in range(0, len(ids), 8):
        out.append(Task('h_title', dict(ids=ids[i:i + 8], n=1 + m),
                        name='h_title(%d...)' % ids[i], expect=('parsed',)))
    return out
