"""T02: letter case and order that make no difference."""

from httpolice import Exchange, Request, Response
from httpolice.exchange import check_exchange
from sx.ctx import Task

BOUNDS = {
    'quick': '60 exchanges that together use every modelled header; in each, '
             'one header name, or one case-insensitive part of a value, with '
             'every letter in either case (symbolic; multipart types and '
             'boundary: 3 letters); all orders of '
             'up to 4 header fields that follow Host',
    'thorough': 'the same, with one name and one value part varied together'}
ASSUMPTIONS = ['parts of values that are case-insensitive were marked '
               'according to the RFCs']
OUTSIDE = ['orders of more than 4 fields; letter case in several names at once']
FUNCTIONS = ['httpolice.structure.CaseInsensitive',
             'httpolice.header.HeadersView',
             'httpolice.header.HeaderView',
             'httpolice.header.MultiHeaderView',
             'httpolice.header.SingleHeaderView',
             'httpolice.known.*', 'httpolice.syntax.*',
             'httpolice.request.check_request',
             'httpolice.response.check_response']
DATE = 'Tue, 14 Jan 2020 08:49:37 GMT'

# Case-insensitive parts of values are in «».
EXCHANGES = [
    # request line, request headers and body; status, response headers, body
    ('GET /', 'Connection: «close», «foo»|Foo: bar|Upgrade: h2c',
     200, 'Connection: «keep-alive»|Date: %s|Content-Length: 1', 'x'),
    ('GET /', 'Connection: «upgrade», «HTTP2-Settings»|Upgrade: h2c|'
     'HTTP2-Settings: AAMAAABk', 101, 'Connection: «upgrade»|Upgrade: h2c', ''),
    ('POST /', 'Transfer-Encoding: «gzip», «chunked»|Content-Type: «text/css»;'
     '«charset»=«utf-8»', 200, 'Transfer-Encoding: «identity»', 'x'),
    ('POST /', 'Transfer-Encoding: «chunked»|Trailer: «Foo»|'
     'Content-Type: a/b', 200, 'Transfer-Encoding: «foo»|Vary: «foo»', ''),
    ('GET /', 'TE: «trailers», «gzip»;q=0.5, «chunked»|Via: 1.1 foo', 200,
     'Transfer-Encoding: «chunked»|Trailer: «Content-Length», «Date»', 'abc'),
    ('POST /', 'Expect: «100-continue»|Content-Length: 0', 417,
     'Content-Type: «text/plain»', 'no'),
    ('POST /', 'Content-Type: «application/json»', 200,
     'Content-Type: «application/problem+json»', '{'),
    ('POST /', 'Content-Type: «application/xml»', 200,
     'Content-Type: «text/xml»; «charset»=«utf-8»', '<a'),
    ('POST /', 'Content-Type: «multipart/form-data»; «boundary»=foo', 200,
     'Content-Type: «multipart/byteranges»; «boundary»=foo', ''),
    ('POST /', 'Content-Type: «application/x-www-form-urlencoded»', 415,
     'Accept-Post: «text/plain»;«charset»=«utf-8», «application/json»', 'no'),
    ('PATCH /', 'Content-Type: «application/json»', 415,
     'Accept-Patch: «application/json-patch+json»', 'no'),
    ('PATCH /', 'Content-Type: «application/json»', 200,
     'Accept-Patch: «application/json»;«charset»=«utf-8»', 'no'),
    ('PATCH /', 'Content-Type: «application/merge-patch+json»;«Q»=1', 204,
     '', ''),
    ('GET /', 'Accept: «text/html»;«level»=1;q=0.5, «*/*»|'
     'Accept-Charset: «utf-8», «iso-8859-5»;q=0.1|'
     'Accept-Encoding: «gzip», «identity»;q=0, «foo»|'
     'Accept-Language: «en-us», «x-foo-bar»;q=0.1', 406,
     'Content-Type: «text/html»; «charset»=«foo»|Content-Language: «en-gb»|'
     'Content-Encoding: «br»|Vary: «Accept», «Accept-Encoding», «Foo»', 'x'),
    ('GET /', 'Accept-Encoding: «br»', 200,
     'Content-Encoding: «gzip», «foo»|Content-Type: «text/plain»', 'abc'),
    ('GET /', 'Accept-Encoding: «x-gzip»', 200,
     'Content-Encoding: «x-gzip»|Content-Type: «audio/x-foo»', 'abc'),
    ('GET /', 'Range: «bytes»=0-9, 5-7, 6-6|If-Range: "a"', 206,
     'Content-Range: «bytes» 0-9/10|Accept-Ranges: «none», «bytes»|ETag: "b"',
     'abc'),
    ('GET /', 'Range: «foo»=bar', 206,
     'Content-Range: «foo» bar|Accept-Ranges: «bytes»|'
     'Content-Type: «multipart/byteranges»', 'abc'),
    ('GET /', 'Range: «bytes»=0-', 416, 'Content-Range: «bytes» */10', 'x'),
    ('PUT /', 'Content-Range: «bytes» 0-9/10|Content-Type: «text/x-foo»', 200,
     'Accept-Ranges: «foo»|Location: /a', 'x'),
    ('GET /', 'Cache-Control: «no-store», «max-age»=10, «foo»|'
     'Pragma: «no-cache»', 200,
     'Cache-Control: «private»="«Foo»", «max-age»=20, «s-maxage»=1, «public»|'
     'Date: %s|Expires: %s|Age: 10', 'x'),
    ('GET /', 'Cache-Control: «max-age»=10, «only-if-cached»|'
     'Pragma: «foo», «no-cache»=1', 504,
     'Cache-Control: «no-cache», «no-cache»="«Set-Cookie»"|Age: 100|'
     'Warning: 110 - "x"', 'x'),
    ('GET /', 'Cache-Control: «no-cache»=1, «max-stale», «min-fresh»', 200,
     'Cache-Control: «must-revalidate», «proxy-revalidate», «no-transform»|'
     'Warning: 112 foo "x", 214 a "b"|Age: 30|Via: «http»/1.1 foo', 'x'),
    ('GET /', 'Cache-Control: «public», «immutable»', 200,
     'Cache-Control: «immutable», «stale-if-error»=10, '
     '«stale-while-revalidate», «max-stale»|Last-Modified: %s|Age: 1', 'x'),
    ('GET /', 'Cache-Control: «max-age»', 200,
     'Cache-Control: «private»=foo, «max-age»="10"|Pragma: «no-cache»', 'x'),
    ('GET /', 'Authorization: «Basic» YTpi|'
     'Proxy-Authorization: «Foo» «bar»=qux', 401,
     'WWW-Authenticate: «Basic» «realm»="x", «Bearer» «scope»="a"|'
     'Cache-Control: «public»', 'x'),
    ('GET /?access_token=foo', 'Authorization: «Bearer» foo bar', 407,
     'Proxy-Authenticate: «Basic» «realm»=x, «Basic» «charset»="«utf-8»"',
     'x'),
    ('GET /', 'Authorization: «Bearer» «a»=b|'
     'Cache-Control: «no-store»', 401,
     'WWW-Authenticate: «Bearer» «error»="invalid_token",'
     '«error_uri»="\u00e9"', 'x'),
    ('GET /', 'Authorization: «Basic» «a»=b', 401,
     'WWW-Authenticate: «Bearer» «scope»="a  b", «Negotiate»', 'x'),
    ('GET /', 'Authorization: «Basic» !', 200,
     'WWW-Authenticate: «Basic», «Digest» «realm»=a,«realm»=b', 'x'),
    ('GET /', '', 200, 'Strict-Transport-Security: «max-age»=0; '
     '«includeSubDomains»; «foo»', 'x'),
    ('GET /', '', 200, 'Strict-Transport-Security: «max-age»=1; «max-age»=2; '
     '«includeSubDomains»=1', 'x'),
    ('GET /', '', 200, 'Strict-Transport-Security: «includeSubDomains»; «foo»;'
     ' «foo»', 'x'),
    ('GET /', 'Prefer: «respond-async», «wait»=10|Prefer: «wait»=20', 202,
     'Preference-Applied: «wait»=10, «foo»', 'x'),
    ('GET /', 'Prefer: «return»=«minimal», «return»=«representation», «a»; '
     '«b»=c', 200, 'Preference-Applied: «return»=«minimal»|Vary: «Prefer»',
     'x'),
    ('PATCH /', 'Prefer: «return»=«representation»|Content-Type: a/b', 204,
     'Preference-Applied: «return»=«representation»', ''),
    ('GET /', 'Prefer: «handling»=«strict», «handling»=«lenient», «foo»=bar',
     200, 'Preference-Applied: «handling»=«lenient»', 'x'),
    ('GET /', 'Forwarded: «for»=1.2.3.4;«by»=_foo;«host»="a.b";«proto»=«http»,'
     '«for»=_a;«for»=_b', 200, 'Forwarded: «for»=a', 'x'),
    ('GET /', 'Forwarded: «for»="a b";«proto»="1";«foo»=bar', 200,
     'Alt-Svc: h2=":443"; ma=5; foo=bar; persist=2', 'x'),
    ('GET /', 'Alt-Used: a.b:80', 421,
     'Alt-Svc: clear', 'x'),
    ('GET /', 'Alt-Used: a.b', 200,
     'Alt-Svc: h2=":443"; persist=1; ma=a', 'x'),
    ('GET /', '', 200, 'Link: </a>; «rel»=next; «title»=a; «TITLE»=b; '
     "«title*»=«utf-8»'«en»'foo", 'x'),
    ('GET /', '', 300, 'Link: </a>; «type»="«text/html»"; «hreflang»=«en»|'
     'Link: </a>; «rel»="alternate foo"', 'x'),
    ('GET /', '', 300, 'Link: </a>; «rel»="alternate"; «rel»=x; «rev»=y;'
     '«anchor»="#a"; «media»=a; «media»=b', 'x'),
    ('GET /', '', 200, 'Content-Disposition: «attachment»; «filename»=a; '
     "«filename*»=«utf-8»'«en»'foo", 'x'),
    ('GET /', '', 200, 'Content-Disposition: «inline»; «FileName»="%%41"; '
     "«foo*»=«iso-8859-1»'«en»'foo", 'x'),
    ('GET /', '', 200, 'Content-Disposition: «foo»; «filename»="\\a"; '
     '«filename»=b; «name»=c', 'x'),
    ('OPTIONS /', 'Origin: http://a|Access-Control-Request-Method: PUT|'
     'Access-Control-Request-Headers: «foo», «content-type»', 200,
     'Access-Control-Allow-Origin: *|Access-Control-Allow-Methods: PUT|'
     'Access-Control-Allow-Headers: «Foo»|Access-Control-Max-Age: 5', ''),
    ('GET /', 'Origin: «http://A.b»', 200,
     'Access-Control-Allow-Origin: *|Access-Control-Allow-Credentials: true|'
     'Access-Control-Expose-Headers: «Foo», «Date»', 'x'),
    ('GET http://«a».b/', 'Via: 1.1 foo', 200, 'Content-Location: /|'
     'X-Content-Type-Options: «nosniff»|Content-Language: «en», «en-US»', 'x'),
    ('GET /', '', 405, 'Content-Type: «text/html»|Allow: GET, POST|'
     'Content-Length: 1', 'x'),
    ('GET /', 'If-None-Match: W/"a"|If-Modified-Since: %s|If-Match: "b"', 304,
     'ETag: "a"|Last-Modified: %s|Content-Type: «text/plain»', ''),
    ('GET /', 'If-Match: "a"|If-Unmodified-Since: %s', 412,
     'Retry-After: 5|ETag: "a"|Date: %s', 'x'),
    ('GET /', 'Max-Forwards: 1|Referer: /|From: a|Cookie: a=b', 426,
     'Connection: «upgrade»|Upgrade: h2c|Set-Cookie: a=b', 'x'),
    ('TRACE /', 'Cookie: a=b|Max-Forwards: 0|User-Agent: foo', 200,
     'Content-Type: «message/http»|Server: foo', 'TRACE / HTTP/1.1\r\n\r\n'),
    ('GET /', 'Content-MD5: a|Accept-Features: *|P3P: a|Keep-Alive: 1', 200,
     'P3P: foo|Public: a|Keep-Alive: 1|Proxy-Connection: «keep-alive»', 'x'),
    ('GET /', 'HTTPolice-Silence: 1277|User-Agent: foo|X-Foo: bar', 200,
     'HTTPolice-Silence: 1277, 1110|X-Bar: foo', 'x'),
    ('CONNECT a.b:80', '', 200, 'Content-Length: 0|'
     'Transfer-Encoding: «chunked»', ''),
    ('POST /', 'Content-Length: 1|Content-Length: 1|'
     'Content-Type: «text/x-foo»', 201, 'Location: /a|'
     'Content-Length: 1|Content-Location: /a', 'x'),
    ('GET /', 'User-Agent: foo|User-Agent: bar|From: a|From: b', 200,
     'Server: a|Server: b|ETag: "a"|ETag: "b"', 'x'),
]


def parts(spec):
    """[name, [fixed or case-insensitive bytes]] of each header"""
    out = []
    for line in spec.replace('%s', DATE).replace('%%', '%').split('|'):
        if not line:
            continue
        name, value = line.split(': ', 1)
        chunks = []
        for i, piece in enumerate(value.replace(u'«', u'»').split(u'»')):
            chunks.append((bool(i % 2), piece.encode('iso-8859-1')))
        out.append((name, chunks))
    return out


def recase(ctx, name, b):
    """Every letter in either case"""
    out = b''
    # The ``email`` module needs these concrete.
    few = b.startswith((b'multipart', b'boundary'))
    for i, c in enumerate(b):
        c = bytes([c])
        if c.lower() == c.upper() or (few and i not in (1, 5, 10)):
            out = out + c
        else:
            out = out + ctx.bytes('%s%d' % (name, i), 1, c.lower() + c.upper())
    return out


def message(spec):
    return [[name.encode(), [b for _, b in chunks]]
            for name, chunks in parts(spec)]


def joined(chunks):
    out = b''
    for chunk in chunks:
        out = out + chunk
    return out


def findings(i, req_headers, resp_headers):
    line, _, status, _, body = EXCHANGES[i]
    method, target = line.replace(u'«', u'').replace(u'»', u'').split(' ')
    has_body = method in ('POST', 'PUT', 'PATCH')
    req = Request(
        u'http', method, target, u'HTTP/1.1',
        [(u'Host', b'example.com')] +
        [(n.decode('ascii'), joined(v)) for n, v in req_headers],
        b'{x' if has_body else b'')
    resp = Response(u'HTTP/1.1', status, u'OK',
                    [(n.decode('ascii'), joined(v)) for n, v in resp_headers],
                    body.encode())
    exch = Exchange(req, [resp])
    check_exchange(exch)
    return ([c.id for c in exch.request.complaints],
            [c.id for c in exch.responses[0].complaints])


def same(ctx, i, req, resp, label, *detail):
    want = findings(i, message(EXCHANGES[i][1]), message(EXCHANGES[i][3]))
    got = findings(i, req, resp)
    for a, b, who in zip(got, want, ('request', 'response')):
        ctx.check(sorted(a) == sorted(b), '%s: %s' % (label, who), sorted(a),
                  sorted(b), *detail)
    ctx.cover('done')


def places(i, what):
    """Where letter case can be varied"""
    out = []
    for side in (1, 3):
        for j, (name, chunks) in enumerate(parts(EXCHANGES[i][side])):
            if what == 'names':
                out.append((side, j, None))
                continue
            out.extend((side, j, k)
                       for k, (free, _) in enumerate(chunks) if free)
    return out


def vary(ctx, name, req, resp, place):
    side, j, k = place
    header = (req if side == 1 else resp)[j]
    if k is None:
        header[0] = recase(ctx, name, header[0])
    else:
        header[1][k] = recase(ctx, name, header[1][k])
    return header[0], joined(header[1])


def h_case(ctx, i, what, also=None):
    req, resp = message(EXCHANGES[i][1]), message(EXCHANGES[i][3])
    detail = vary(ctx, 'c', req, resp, ctx.choice('place', places(i, what)))
    if also:
        detail += vary(ctx, 'd', req, resp,
                       ctx.choice('also', places(i, also)))
    same(ctx, i, req, resp, 'letter case', *detail)


def orders(ctx, name, headers):
    """Any order of the first four fields (same names keep their order)"""
    left = headers[:4]
    out = []
    while len(left) > 1:
        first = []
        for h in left:
            if not any(h[0] == g[0] for g in first):
                first.append(h)
        pick = ctx.choice('%s%d' % (name, len(out)), range(len(first)))
        out.append(first[pick])
        left = [h for h in left if h is not first[pick]]
    return out + left + headers[4:]


def h_order(ctx, i, side):
    req, resp = message(EXCHANGES[i][1]), message(EXCHANGES[i][3])
    if side == 'request':
        req = orders(ctx, 'p', req)
    else:
        resp = orders(ctx, 'p', resp)
    same(ctx, i, req, resp, 'order', [h[0] for h in req],
         [h[0] for h in resp])


def tasks(tier):
    out = []
    for i, spec in enumerate(EXCHANGES):
        for what in ('names', 'values'):
            if places(i, what):
                out.append(Task('h_case', dict(i=i, what=what),
                                name='h_case(%d, %s)' % (i, what),
                                expect=('done',)))
        if tier == 'thorough' and places(i, 'values'):
            out.append(Task('h_case', dict(i=i, what='names', also='values'),
                            name='h_case(%d, names and values)' % i,
                            expect=('done',)))
        for k, side in ((1, 'request'), (3, 'response')):
            if len(parts(spec[k])) > 1:
                out.append(Task('h_order', dict(i=i, side=side),
                                name='h_order(%d, %s)' % (i, side),
                                expect=('done',)))
    return out
