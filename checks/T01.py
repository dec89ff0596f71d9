"""T01: checking and reporting never fail."""

import io

from checks.header_samples import SAMPLES
from httpolice import Exchange, Request, Response, html_report, text_report
from httpolice.exchange import check_exchange
from httpolice.framing1 import parse_streams
from httpolice.stream import Stream
from sx.ctx import Task
from sx.files import ByteFile

BOUNDS = {
    'quick': 'every modelled header with every representative value and one '
             'symbolic byte in place of, or inserted at, every position, on '
             'requests and responses; every known header with 22 odd values; '
             'numbers of up to 5000 digits; start-line parts with 1-2 '
             'symbolic characters of any code point; any status 0-9999; '
             'bodies with a symbolic byte in 9 media types; 28 charsets; '
             'exchanges in byte streams with one symbolic byte at every '
             'position; both reports (HTML for a part of the space)',
    'thorough': 'HTML reports everywhere, two symbolic bytes'}
ASSUMPTIONS = ['codecs, zlib, brotli, XML and MIME parsers run on concrete '
               'data']
OUTSIDE = ['resource exhaustion (memory, recursion inside C libraries)',
           'messages that are built from other types than str, bytes, int']
FUNCTIONS = ['httpolice.exchange.check_exchange',
             'httpolice.request.check_request',
             'httpolice.response.check_responses',
             'httpolice.message.check_message',
             'httpolice.header.*', 'httpolice.parse.*', 'httpolice.syntax.*',
             'httpolice.structure.*', 'httpolice.known.*',
             'httpolice.framing1.parse_streams',
             'httpolice.reports.text.text_report',
             'httpolice.reports.html.html_report', 'httpolice.util.*']


def finish(ctx, exchanges, html):
    for exch in exchanges:
        check_exchange(exch)
    for report in (text_report, html_report)[:2 if html else 1]:
        buf = io.BytesIO()
        report(exchanges, buf)
        ctx.check(len(buf.getvalue()) >= 0, 'reported')
    ctx.cover('done')


REQ = [(u'Host', b'example.com')]


def exchange(ctx, side, headers, html, method=u'GET', status=200, body=b'x',
             target=u'/', scheme=u'http', version=u'HTTP/1.1', reason=u'OK',
             req_body=b'', name=None):
    req = Request(scheme, method, target, version,
                  REQ + (headers if side != 'response' else []), req_body)
    resp = Response(version, status, reason,
                    headers if side != 'request' else [], body)
    finish(ctx, [Exchange(req, [resp])], html)


def h_header(ctx, name, i, html, two=False):
    base = SAMPLES[name][i].encode('iso-8859-1')
    at = ctx.choice('at', range(len(base) + 1))
    over = 1
    if two:
        over = ctx.choice('over', (0, 1))
    b = ctx.bytes('b', 1)
    if two:
        b = b + ctx.bytes('c', 1, b'",;=*/ \t<>[]()\\:a0%-\xff')
    value = base[:at] + b + base[at + over:]
    exchange(ctx, 'both', [(name, value)], html)


ODD = (b'', b',', b';', b'=', b'"', b'""', b'\\', b'a="', b'a=', b'=a', b'a;',
       b'a;b', b'a=b;c="d', b'*', b'a/b', b'(', b'<>', b'[', b'://', b'%',
       b'\xff\xfe', b' \t', b'9' * 5000)

def h_odd(ctx, names):
    name = ctx.choice('name', names)
    value = ctx.choice('value', ODD)
    method, status, times = ctx.choice('kind', (
        (u'GET', 206, 1), (u'OPTIONS', 401, 2)))
    exchange(ctx, 'both', [(name, value)] * times, False, method, status)


NUMBERS = (
    (u'Content-Length', b'%s'), (u'Max-Forwards', b'%s'), (u'Age', b'%s'),
    (u'Retry-After', b'%s'), (u'Access-Control-Max-Age', b'%s'),
    (u'Cache-Control', b'max-age=%s'), (u'Cache-Control', b's-maxage="%s"'),
    (u'Strict-Transport-Security', b'max-age=%s'),
    (u'Strict-Transport-Security', b'max-age="%s"'),
    (u'Range', b'bytes=%s-'), (u'Range', b'bytes=-%s'),
    (u'Range', b'bytes=1-%s,%s-5,3-4'), (u'Content-Range', b'bytes 1-%s/5'),
    (u'Content-Range', b'bytes %s-9/%s'), (u'Content-Range', b'bytes */%s'),
    (u'Warning', b'%s a "b"'), (u'Prefer', b'wait=%s'),
    (u'Preference-Applied', b'wait=%s'), (u'Alt-Svc', b'h2=":%s";ma=%s'),
    (u'Host', b'a:%s'), (u'Via', b'1.%s a:%s'), (u'Alt-Used', b'a:%s'),
    (u'Forwarded', b'for="1.2.3.4:%s"'), (u'HTTPolice-Silence', b'%s'),
    (u'Origin', b'http://a:%s'), (u'Location', b'http://a:%s/%s'),
    (u'Host', b'1.2.3.%s'), (u'Accept', b'a/b;q=0.%s'), (u'Upgrade', b'a/%s'),
    (u'Date', b'Sun, %s Nov 1994 08:49:37 GMT'), (u'Link', b'<a:%s>;rel=x'),
    (u'Date', b'Sun, 06 Nov %s 08:49:37 GMT'), (u'Content-Language', b'%s'),
    (u'Expires', b'Sun Nov  %s 08:49:37 1994'))
SHAPES = ((1, b'0', True), (3, b'9', True), (3, b'0', False),
          (12, b'9', True), (20, b'0', True), (400, b'9', False),
          (5000, b'9', True))


def h_number(ctx, i):
    name, value = NUMBERS[i]
    n, fill, front = ctx.choice('shape', SHAPES)
    digit = ctx.bytes('d', 1, b'0123456789')
    num = digit + fill * (n - 1) if front else fill * (n - 1) + digit
    pieces = value.split(b'%s')
    value = pieces[0]
    for piece in pieces[1:]:
        value = value + num + piece
    exchange(ctx, 'both', [(name, value)], False,
             status=416 if n == 12 else 206)


def wide(ctx, name):
    return chr(ctx.int(name, 0, 0x10ffff))


TARGETS = (u'%', u'/%', u'http://%', u'http://[%', u'http://a:%', u'//%',
           u'http://a%', u'/?%', u'*%', u'a:%', u'[%]', u'/a#%', u'%:80')


def h_target(ctx, i, html):
    target = TARGETS[i].replace(u'%', wide(ctx, 't'))
    scheme, method = ctx.choice('kind', (
        (u'http', u'GET'), (None, u'CONNECT'), (u'ftp', u'OPTIONS'),
        (u'', u'POST')))
    exchange(ctx, 'response', [(u'Location', b'/'),
                               (u'Content-Location', b'a')], html, method, 201,
             target=target, scheme=scheme)


def h_start(ctx, what, html):
    """Other parts of the start lines"""
    s = ctx.choice('before', (u'', u'a', u'GE')) + wide(ctx, 's')
    kw = {}
    if what == 'version':
        s = ctx.choice('like', (u'', u'HTTP/', u'HTTP/1.')) + s
    if what == 'name':
        headers = [(s, b'a'), (s + u'b', b'\xff')]
        exchange(ctx, ctx.choice('side', ('request', 'response')), headers,
                 html)
        return
    kw[what] = s
    exchange(ctx, 'both', [], html, **kw)


def h_status(ctx):
    status = ctx.int('status', 0, 9999)
    method, body, reason = ctx.choice('kind', (
        (u'GET', b'', u'OK'), (u'CONNECT', None, None), (u'foo', b'x', u'')))
    exchange(ctx, 'request', [], False, method, status, body,
             target=u'a:1' if method == u'CONNECT' else u'/', reason=reason)


BODY_TYPES = (b'application/json', b'a/b+json; charset=utf-16', b'text/xml',
              b'application/x-www-form-urlencoded', b'multipart/mixed',
              b'multipart/form-data; boundary=x', b'text/plain; charset=ascii',
              b'text/html', b'application/problem+json')


def h_body(ctx, i, template, html):
    body = ctx.fill('b', template, hole=b'?')
    headers = [(u'Content-Type', BODY_TYPES[i])]
    coding = ctx.choice('coding', (None, b'gzip', b'br', b'deflate', b'foo'))
    if coding:
        headers.append((u'Content-Encoding', coding))
    ctx.assume(coding is None or template == b'?')
    exchange(ctx, 'both', headers, html, u'POST', body=body, req_body=body)


CHARSETS = (b'', b'utf-8', b'utf-7', b'utf-16', b'utf-32', b'utf-8-sig',
            b'idna', b'punycode', b'undefined', b'unicode_escape',
            b'raw_unicode_escape', b'rot13', b'hex', b'base64', b'zip', b'bz2',
            b'uu', b'quopri', b'mbcs', b'big5', b'iso2022_jp', b'hz',
            b'charmap', b'latin-1', b'cp65001', b'../x', b'a' * 300,
            b'\xc0\xff')
PARAMS = (b';charset="%s"', b';charset', b';charset=', b';charset=%s;charset=a',
          b';CHARSET="\\%s"', b';boundary="%s"', b';charset=" %s"')
BODIES = (b'', b'\xff', b'{"a":1}', b'\\ud800', b'+AAA-', b'\\x', b'xn--\xc3',
          b'\x00\xd8', b'<?xml version="1.0" encoding="utf-7"?><a/>',
          b'\x1b$B!', b'--a\r\n\r\n--a--', b'-' * 70)


def h_charset(ctx, types):
    params = ctx.choice('params', PARAMS)
    main = params == PARAMS[0]
    charset = ctx.choice('charset', CHARSETS if main else CHARSETS[:4:3])
    ctype = ctx.choice('type', types)
    body = ctx.choice('body', BODIES if main else BODIES[:3])
    exchange(ctx, 'both', [(u'Content-Type', ctype + params.replace(
        b'%s', charset))], charset in (b'', b'idna', b'utf-16'),
             u'POST', body=body, req_body=body)


INBOUND = (b'POST /a?b HTTP/1.1\r\nHost: a.b:80\r\nTransfer-Encoding: chunked'
           b'\r\n\r\n3;a="b"\r\nabc\r\n0\r\nFoo: bar\r\n\r\nGET / HTTP/1.0\r\n'
           b'\r\n')
OUTBOUND = (b'HTTP/1.1 100 C\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 3\r\n'
            b'Date: Sun, 06 Nov 1994 08:49:37 GMT\r\n\r\nabcHTTP/1.0 404 Not '
            b'Found\r\n\r\nabc')


def h_stream(ctx, side, lo, html):
    data = INBOUND if side == 'in' else OUTBOUND
    at = ctx.choice('at', range(lo, min(lo + 12, len(data))))
    what = ctx.choice('what', ('replace', 'insert', 'cut'))
    b = ctx.bytes('b', 1) if what != 'cut' else b''
    rest = b'' if what == 'cut' else data[at + (what == 'replace'):]
    data = data[:at] + b + rest
    inbound = Stream(ByteFile(data if side == 'in' else INBOUND), name='in')
    outbound = Stream(ByteFile(OUTBOUND if side == 'in' else data), name='out')
    exchanges = list(parse_streams(inbound, outbound, u'http'))
    finish(ctx, exchanges, html)


def tasks(tier):
    thorough = tier == 'thorough'
    out = []
    for name in sorted(SAMPLES):
        for i in range(len(SAMPLES[name]) if thorough else 1):
            out.append(Task('h_header', dict(name=name, i=i, html=thorough,
                                             two=thorough),
                            name='h_header(%s, %d)' % (name, i),
                            max_paths=20000, expect=('done',)))
    names = sorted(SAMPLES) + ['Foo', 'Set-Cookie', 'Cookie', 'From', '']
    for k in range(0, len(names), 8):
        out.append(Task('h_odd', dict(names=names[k:k + 8]),
                        name='h_odd(%s...)' % names[k], max_paths=20000,
                        expect=('done',)))
    for i, (name, value) in enumerate(NUMBERS):
        out.append(Task('h_number', dict(i=i),
                        name='h_number(%s: %s)' % (name, value.decode()),
                        max_paths=5000, expect=('done',)))
    for i, t in enumerate(TARGETS):
        out.append(Task('h_target', dict(i=i, html=True),
                        name='h_target(%s)' % t, expect=('done',)))
    for what in ('method', 'version', 'reason', 'scheme', 'name'):
        out.append(Task('h_start', dict(what=what, html=True),
                        name='h_start(%s)' % what, expect=('done',)))
    out.append(Task('h_status', dict(), expect=('done',)))
    for i, t in enumerate(BODY_TYPES):
        for template in (b'?', b'{?', b'??', b'<a>?', b'--x\r\n\r\n?'):
            if template == b'??' and not thorough or i in (4, 5):
                continue
            out.append(Task('h_body', dict(i=i, template=template, html=True),
                            name='h_body(%s, %r)' % (t.decode(), template),
                            max_paths=5000, expect=('done',)))
        if thorough or i in (0, 2, 3, 6):
            out.append(Task('h_charset', dict(types=[t]),
                            name='h_charset(%s)' % t.decode(),
                            max_paths=20000, expect=('done',)))
    for side, data in (('in', INBOUND), ('out', OUTBOUND)):
        for lo in range(0, len(data), 12):
            out.append(Task('h_stream', dict(side=side, lo=lo, html=thorough),
                            name='h_stream(%s, %d)' % (side, lo),
                            max_paths=20000, expect=('done',)))
    return out
