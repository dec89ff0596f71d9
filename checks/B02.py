"""B02: malformed bodies."""

from httpolice import Exchange, Request, Response
from httpolice.exchange import check_exchange
from sx.ctx import Task

BOUNDS = {
    'quick': 'JSON: all byte strings of 0-3 bytes, and 35 templates with 1-3 '
             'symbolic bytes (structure, strings, escapes, numbers, literals, '
             'constants, BOM); 11 charset parameters with one symbolic '
             'character; URL-encoded: all strings of 0-2 bytes, also after '
             'a pair; 21 media types x representative bodies of the four '
             'classes x 8 statuses x POST/HEAD x 3 codings; media-type names '
             'with 1-2 symbolic letters; multipart/byteranges of 1-3 parts',
    'thorough': 'one more symbolic byte in JSON and URL-encoded bodies'}
ASSUMPTIONS = [
    'symbolic JSON texts go through the pure Python implementation in the '
    'standard json module (its two known differences from the C scanner are '
    'levelled); the expectation is an independent RFC 8259 recogniser',
    'XML (expat with defusedxml) and MIME (email) parsing run on concrete '
    'bodies']
OUTSIDE = ['well-formedness of XML and multipart bodies beyond the listed '
           'samples (C or stdlib parsers)',
           'the characters : ; < > ? in URL-encoded bodies',
           'JSON text nested deeply enough to exhaust the stack '
           '(one sample, not reported as malformed)']
FUNCTIONS = ['httpolice.message.Message.json_data',
             'httpolice.message.Message.xml_data',
             'httpolice.message.Message.multipart_data',
             'httpolice.message.Message.url_encoded_data',
             'httpolice.message.Message.unicode_body',
             'httpolice.message.Message.guessed_charset',
             'httpolice.response.Response.content_is_full',
             'httpolice.response._check_multipart_byteranges',
             'httpolice.known.MediaTypeKnowledge', 'json.decoder',
             'json.scanner']
OURS = (1036, 1037, 1038, 1039, 1040, 1139, 1140, 1141, 1142, 1275, 1281)


def exchange(method=u'POST', target=u'/', req_headers=(), req_body=b'',
             status=200, headers=(), body=b''):
    req = Request(u'http', method, target, u'HTTP/1.1',
                  [(u'Host', b'example.com')] + list(req_headers), req_body)
    resp = Response(u'HTTP/1.1', status, u'OK', list(headers), body)
    exch = Exchange(req, [resp])
    check_exchange(exch)
    return exch


def found(msg):
    return sorted(c.id for c in msg.complaints if c.id in OURS)


# JSON, according to RFC 8259

WS = frozenset(b' \t\r\n')
DIGIT = frozenset(b'0123456789')
HEX = frozenset(b'0123456789abcdefABCDEF')
ESCAPES = frozenset(b'"\\/bfnrt')
LITERALS = (u'true', u'false', u'null')


def space(s, i):
    while i < len(s) and ord(s[i]) in WS:
        i += 1
    return i


def digits(s, i):
    j = i
    while j < len(s) and ord(s[j]) in DIGIT:
        j += 1
    return j if j > i else None


def number(s, i):
    if s[i] == u'-':
        i += 1
    if i < len(s) and s[i] == u'0':
        i += 1
    else:
        i = digits(s, i)
        if i is None:
            return None
    if i < len(s) and s[i] == u'.':
        i = digits(s, i + 1)
        if i is None:
            return None
    if i < len(s) and s[i] in u'eE':
        i += 1
        if i < len(s) and s[i] in u'+-':
            i += 1
        i = digits(s, i)
    return i


def string(s, i):
    """After the opening quote"""
    while i < len(s):
        c = s[i]
        if c == u'"':
            return i + 1
        if c < u' ':
            return None
        if c == u'\\':
            i += 1
            if i == len(s):
                return None
            if s[i] == u'u':
                for k in range(1, 5):
                    if i + k >= len(s) or ord(s[i + k]) not in HEX:
                        return None
                i += 4
            elif ord(s[i]) not in ESCAPES:
                return None
        i += 1
    return None


def value(s, i):
    """The end of the value that starts at i"""
    i = space(s, i)
    if i == len(s):
        return None
    c = s[i]
    if c == u'"':
        return string(s, i + 1)
    if c == u'{' or c == u'[':
        is_object = c == u'{'
        end = u'}' if is_object else u']'
        i = space(s, i + 1)
        if i < len(s) and s[i] == end:
            return i + 1
        while True:
            if is_object:
                i = space(s, i)
                if i == len(s) or s[i] != u'"':
                    return None
                i = string(s, i + 1)
                if i is None:
                    return None
                i = space(s, i)
                if i == len(s) or s[i] != u':':
                    return None
                i += 1
            i = value(s, i)
            if i is None:
                return None
            i = space(s, i)
            if i == len(s):
                return None
            if s[i] == end:
                return i + 1
            if s[i] != u',':
                return None
            i += 1
    for word in LITERALS:
        if s[i:i + len(word)] == word:
            return i + len(word)
    if c == u'-' or ord(c) in DIGIT:
        return number(s, i)
    return None


def is_json(s):
    i = value(s, 0)
    return i is not None and space(s, i) == len(s)


def decoded(body, charset):
    try:
        return body.decode(charset)
    except UnicodeError:
        return None


JSON_TYPE = (u'Content-Type', b'application/json')


def h_json(ctx, template, n, both=False):
    body = ctx.fill('b', template, hole=b'?') if template is not None else \
        ctx.bytes('b', n)
    text = decoded(body, 'utf-8')
    want = [1038] if text is not None and not is_json(text) else []
    exch = exchange(headers=[JSON_TYPE], body=body)
    got = found(exch.responses[0])
    ctx.check(got == want, 'JSON', body, got, want)
    ctx.cover('done')


TEMPLATES = (
    b'{"a":?}', b'{"a"?1}', b'{?"a":1}', b'{"a":1?}', b'{"a":1,?}',
    b'[1??]', b'[?,?]', b'"\\?"', b'"\\u00?0"', b'"??"', b'-?', b'-??',
    b'0??', b'1?0', b'1.?', b'1.??', b'1e??', b'tru?', b'nul??', b'fals?',
    b'Na?', b'[Na?]', b'Infinit?', b'-Infinit?', b'[-Infinity?', b' ?1', b'1?',
    b'?{}', b'\xc2?', b'"\xc2?"', b'"?\x80"', b'\xef\xbb?1', b'{}?[]',
    b'[[?]]', b'{"a":[?}', b'123456?', b'?' + b'1' * 5000, b'-1E+?')


CHARSETS = (None, b'utf-8', b'UTF-8', b'us-ascii', b'ASCII', b'iso-8859-1',
            b'windows-1252', b'utf-16', b'x-foo', b'hex', b'')
DEEP = b'[' * 5000 + b']' * 5000


def h_charset(ctx):
    """1281 and charsets"""
    charset = ctx.choice('charset', CHARSETS)
    c = ctx.bytes('c', 1)
    wide = charset == b'utf-16'
    raw = ctx.choice('body', (b'"%s"', b'[%s]'))
    body = raw.replace(b'%s', c)
    if wide:
        body = (raw.replace(b'%s', b'x').decode() if ctx.flag('x') else u'1') \
            .encode('utf-16')
    ctype = b'application/json'
    name = 'utf-8'
    if charset is not None:
        ctype = ctype + b';charset="' + charset + b'"'
        name = charset.decode().lower()
    unknown = name in ('x-foo', 'hex', '')
    text = None if unknown else decoded(body, name)
    if text is None:
        want = []
    elif not is_json(text):
        want = [1038]
    else:
        want = [] if name in ('utf-8', 'us-ascii', 'ascii') else [1281]
    exch = exchange(headers=[(u'Content-Type', ctype)], body=body)
    got = found(exch.responses[0])
    ctx.check(got == want, 'charset', ctype, body, got, want)
    ctx.cover('done')


GOOD_URL = frozenset(b'%&*+-.0123456789_=;:<>?/'
                     b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz')
SURE_GOOD = frozenset(b'%&*+-.0123456789_='
                      b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz')
# The code lets these through (0x3A-0x3F), although HTML5 encodes them.
UNCLEAR = frozenset(b':;<>?')


def h_url_encoded(ctx, n, side):
    body = ctx.bytes('b', n)
    if ctx.flag('prefix'):
        body = b'a=b&' + body
    for c in body:
        ctx.assume((c in UNCLEAR) == False)         # noqa: E712
    headers = [(u'Content-Type', b'application/x-www-form-urlencoded')]
    if side == 'request':
        exch = exchange(req_headers=headers, req_body=body)
        msg = exch.request
    else:
        exch = exchange(headers=headers, body=body)
        msg = exch.responses[0]
        msg.url_encoded_data
    bad = any((c in SURE_GOOD) == False for c in body)      # noqa: E712
    got = found(msg)
    ctx.check(got == ([1040] if bad else []), 'URL-encoded', body, got)
    ctx.cover('done')


XML = (
    (b'<a/>', []), (b'<a>', [1039]), (b'', [1039]), (b'foo', [1039]),
    (b'<?xml version="1.0" encoding="utf-8"?><a>\xc4\x85</a>', []),
    (b'<a>\xff</a>', [1039]),
    (b'<?xml version="1.0" encoding="x-unknown"?><a/>', [1039]),
    (b'<!DOCTYPE a [<!ENTITY b "c">]><a>&b;</a>', [1275]),
    (b'<!DOCTYPE a SYSTEM "b"><a/>', []), (b'<a>&b;</a>', [1039]),
    (b'<?xml version="1.0" encoding="iso-8859-1"?><a>\xff</a>', []),
    (b'<a/><b/>', [1039]),
)
MULTIPART = (
    (b'; boundary=x', b'--x\r\n\r\nabc\r\n--x--\r\n', []),
    (b'; boundary="x"', b'--x\r\nA: b\r\n\r\nabc\r\n--x\r\n\r\n--x--', []),
    (b'', b'--x\r\n\r\nabc\r\n--x--\r\n', [1139]),
    (b'; boundary=y', b'--x\r\n\r\nabc\r\n--x--\r\n', [1140]),
    (b'; boundary=y', b'', [1140]),
    (b'; BOUNDARY=x', b'preamble\r\n--x\r\n\r\nabc\r\n--x--\r\n', []),
)
JSON = ((b'{"a": 1}', []), (b'', [1038]), (b'{', [1038]), (b'NaN', [1038]),
        (b'"\xff"', []), (b'1' * 10000, []), (DEEP, []))
URL = ((b'a=b', []), (b'', []), (b'a b', [1040]), (b'\xff', [1040]))

TYPES = (
    (b'application/json', 'json'), (b'application/foo+json', 'json'),
    (b'text/json', None), (b'Application/JSON', 'json'),
    (b'application/problem+json; a=b', 'json'), (b'text/xml', 'xml'),
    (b'application/xml', 'xml'), (b'image/svg+xml', 'xml'),
    (b'application/xhtml+xml', 'xml'), (b'text/plain', None),
    (b'text/html', None), (b'multipart/mixed', 'multipart'),
    (b'multipart/foo', 'multipart'), (b'multipart', None),
    (b'application/x-www-form-urlencoded', 'url'),
    (b'application/json-seq', None), (b'application/xml-dtd', None),
    (b'application/jsonx', None), (b'a/xml', None), (b'', None), (None, None),
)
ANY_CLASS = ('json', 'xml', 'multipart', 'url')


def bodies(cls):
    return {'json': [(b'', b, w) for b, w in JSON],
            'xml': [(b'', b, w) for b, w in XML],
            'url': [(b'', b, w) for b, w in URL],
            'multipart': list(MULTIPART)}[cls]


def h_class(ctx, i):
    """Which bodies are examined at all"""
    ctype, cls = TYPES[i]
    other = ctx.choice('bodies', [cls] if cls else ANY_CLASS)
    params, body, want = ctx.choice(
        'body', bodies(other) if cls else bodies(other)[2:3])
    status = ctx.choice('status', (200, 206, 204, 304, 103, 100, 404, 599))
    method = ctx.choice('method', (u'POST', u'HEAD'))
    headers = []
    if ctype is not None:
        headers.append((u'Content-Type', ctype + (params if cls else b'')))
    coding = ctx.choice('coding', (None, b'foo', b'gzip'))
    if coding:
        headers.append((u'Content-Encoding', coding))
    if status in (204, 304, 103, 100) or method == u'HEAD':
        if other != 'json':
            ctx.assume(coding is None)
    exch = exchange(method=method, headers=headers, status=status, body=body)
    resp = exch.responses[0]
    if cls == 'url':
        resp.url_encoded_data
    full = status not in (204, 206, 304, 103, 100) and method != u'HEAD'
    if not cls or not full:
        want = []
    if coding and body != b'':
        want = []
    got = [c for c in found(resp) if c not in (1036, 1037)]
    ctx.check(got == want, 'response', headers, status, method, body, got,
              want)
    if coding is None:
        ctx.check(1036 not in found(resp) and 1037 not in found(resp),
                  'no codings')
    ctx.cover('done')


def h_request(ctx, i):
    """The same for requests"""
    ctype, cls = TYPES[i]
    other = ctx.choice('bodies', [cls] if cls else ANY_CLASS)
    params, body, want = ctx.choice('body', bodies(other))
    method = ctx.choice('method', (u'POST', u'GET', u'PATCH', u'FOO'))
    headers = []
    if ctype is not None:
        headers.append((u'Content-Type', ctype + (params if cls else b'')))
    exch = exchange(method=method, req_headers=headers, req_body=body)
    got = found(exch.request)
    ctx.check(got == (want if cls else []), 'request', headers, method, body,
              got, want)
    ctx.cover('done')


def h_suffix(ctx, n, where):
    """Which media types are JSON or XML"""
    if where == 'suffix':
        subtype = b'foo' + ctx.fill('s', ctx.choice('base', (
            b'+j??n', b'+?son', b'?json', b'+x?l', b'+xm?', b'+json?', b'+??')),
            b'+jsonxmlJSONXMLz-')
        low = subtype.lower()
        cls = 'json' if low.endswith(b'+json') else \
            'xml' if low.endswith(b'+xml') else None
        top = ctx.choice('top', (b'application', b'image', b'x'))
    else:
        base, cls = ctx.choice('base', ((b'json', 'json'), (b'xml', 'xml')))
        top = b'application'
        i = ctx.choice('at', range(len(base)))
        subtype = base[:i] + ctx.bytes('c', 1, b'jsonxmlJSONXMLz') + \
            base[i + 1:]
        if subtype.lower() != base:
            cls = None
    exch = exchange(headers=[(u'Content-Type', top + b'/' + subtype)],
                    body=b'{<')
    want = {'json': [1038], 'xml': [1039], None: []}[cls]
    got = found(exch.responses[0])
    ctx.check(got == want, 'media type', top, subtype, got)
    ctx.cover('done')


PART_HEADERS = ((b'', [1141, 1142]),
                (b'Content-Range: bytes 0-0/2\r\n', [1142]),
                (b'Content-Type: a/b\r\n', [1141]),
                (b'content-type: a/b\r\nCONTENT-RANGE: bytes 0-0/2\r\n', []))


def h_byteranges(ctx):
    """1141 and 1142"""
    n = ctx.choice('parts', (1, 2, 3))
    body, want = b'', []
    for i in range(n):
        h, w = ctx.choice('part%d' % i, PART_HEADERS)
        body += b'--x\r\n' + h + b'\r\nab\r\n'
        want += [(id_, i + 1) for id_ in w]
    status = ctx.choice('status', (206, 200))
    subtype = ctx.choice('subtype', (b'byteranges', b'mixed'))
    exch = exchange(
        u'GET', req_headers=[(u'Range', b'bytes=0-0')], status=status,
        headers=[(u'Content-Type', b'multipart/' + subtype + b'; boundary=x')],
        body=body + b'--x--\r\n')
    resp = exch.responses[0]
    got = [(c.id, c.context['part_num']) for c in resp.complaints
           if c.id in (1141, 1142)]
    if status != 206 or subtype != b'byteranges':
        want = []
    ctx.check(sorted(got) == sorted(want), 'parts', got, want)
    ctx.cover('done')


def tasks(tier):
    m = 1 if tier == 'thorough' else 0
    out = []
    for n in range(4 + m):
        out.append(Task('h_json', dict(template=None, n=n), max_paths=100000,
                        expect=('done',)))
    for t in TEMPLATES:
        out.append(Task('h_json', dict(template=t, n=0),
                        name='h_json(%r)' % t[:30], max_paths=20000,
                        expect=('done',)))
    out.append(Task('h_charset', dict(), expect=('done',)))
    for side in ('request', 'response'):
        for n in range(3 + m):
            out.append(Task('h_url_encoded', dict(n=n, side=side),
                            expect=('done',)))
    for i in range(len(TYPES)):
        out.append(Task('h_class', dict(i=i), name='h_class(%s)' % TYPES[i][0],
                        max_paths=20000, expect=('done',)))
        out.append(Task('h_request', dict(i=i),
                        name='h_request(%s)' % TYPES[i][0],
                        expect=('done',)))
    for where in ('suffix', 'subtype'):
        out.append(Task('h_suffix', dict(n=0, where=where),
                        expect=('done',)))
    out.append(Task('h_byteranges', dict(), expect=('done',)))
    return out
