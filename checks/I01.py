"""I01: HAR files."""

import base64
import io
import json
import os
import shutil
import tempfile

from httpolice import text_report
from httpolice.exchange import check_exchange
from httpolice.inputs import InputError, formats
from httpolice.structure import Unavailable
from sx.ctx import Task

FUNCTIONS = ['httpolice.inputs.har', 'httpolice.helpers.pop_pseudo_headers',
             'httpolice.util.uri.urlparse', 'httpolice.message.Message',
             'httpolice.request.Request', 'httpolice.response.Response']
BOUNDS = {
    'quick': 'files of one entry; 2 arbitrary characters in method, header '
             'names, header values, version, reason, texts, and 3 characters '
             '(0x21-0x7e) in the URL; any body sizes -2..2; statuses 0, 100, '
             '200, 204, 304, 404, 599; seven creators; presence of every '
             'optional member; every member replaced with a value of every '
             'other JSON type or removed',
    'thorough': 'the same with 3 characters (URL: 4)',
}
OUTSIDE = ('several entries per file; URLs with control characters; '
           'empty or unknown values of content.encoding; authority of '
           'CONNECT requests when the URL has no scheme')
ASSUMPTIONS = ['the JSON decoder is correct: files are written as JSON with '
               'placeholders, for which the symbolic values are substituted '
               'after decoding (in replays the real values are written)']

BROWSERS = {u'WebInspector': 'chrome', u'Firefox': 'firefox',
            u'F12 Developer Tools': 'edge', u'Fiddler': 'fiddler'}
CREATORS = (u'HTTPToolkit', u'WebInspector', u'Firefox',
            u'F12 Developer Tools', u'Fiddler', u'firefox', u'')


class Placeholders:

    """Keeps symbolic values out of the JSON file."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.values = {}

    def put(self, x):
        if isinstance(x, dict):
            return {k: self.put(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self.put(v) for v in x]
        if not self.ctx.is_symbolic(x):
            return x
        key = u'~placeholder %d~' % len(self.values)
        self.values[key] = x
        return key

    def get(self, x):
        if isinstance(x, dict):
            return {k: self.get(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self.get(v) for v in x]
        if type(x) is str and x in self.values:
            return self.values[x]
        return x


def read_har(ctx, data):
    ph = Placeholders(ctx)
    plain = ph.put(data)
    scratch = tempfile.mkdtemp(prefix='I01')
    load, loads = json.load, json.loads
    try:
        path = os.path.join(scratch, 'some.har')
        with io.open(path, 'w', encoding='utf-8') as f:
            json.dump(plain, f)
        if ph.values:
            json.load = lambda *a, **k: ph.get(load(*a, **k))
            json.loads = lambda *a, **k: ph.get(loads(*a, **k))
        try:
            r = list(formats[u'har']([path]))
        finally:
            json.load, json.loads = load, loads
        return path, r
    finally:
        shutil.rmtree(scratch)


def header(name, value):
    return {u'name': name, u'value': value}


def document(creator=u'HTTPToolkit', method=u'GET', url=u'http://example.com/',
             version=u'HTTP/1.1', headers=None, size=0, post=None,
             status=200, reason=u'OK', resp_version=u'HTTP/1.1',
             resp_headers=None, resp_size=5, content=None):
    if headers is None:
        headers = [header(u'Host', u'example.com')]
    req = {u'method': method, u'url': url, u'httpVersion': version,
           u'headers': headers, u'bodySize': size}
    if post is not None:
        req[u'postData'] = post
    resp = {u'status': status, u'statusText': reason,
            u'httpVersion': resp_version,
            u'headers': [header(u'Content-Type', u'text/plain')]
            if resp_headers is None else resp_headers,
            u'bodySize': resp_size,
            u'content': content if content is not None else
            {u'size': 5, u'mimeType': u'text/plain', u'text': u'hello'}}
    return {u'log': {u'version': u'1.2', u'creator': {u'name': creator},
                     u'entries': [{u'request': req, u'response': resp}]}}


def latin(s):
    """What a header value looks like in bytes."""
    return s.encode('iso-8859-1', 'replace')


def same(ctx, label, got, want, *detail):
    ctx.check(got == want, label, got, want, *detail)


def entries_match(ctx, label, msg, headers):
    want = [(d[u'name'], latin(d[u'value'])) for d in headers
            if not d[u'name'].startswith(u':')]
    got = [(u'' + e.name, e.value) for e in msg.header_entries]
    same(ctx, label, got, want)


def body_state(body):
    if isinstance(body, Unavailable):
        return u'unavailable'
    if body is None:
        return u'unknown'
    return body


def h_text(ctx, where, n):
    """Text fields are kept as they are"""
    creator = ctx.choice('creator', CREATORS)
    s = ctx.text('s', n)
    kw = {}
    headers = [header(u'Host', u'example.com')]
    resp_headers = []
    if where == 'method':
        kw['method'] = s
    elif where == 'reason':
        kw['reason'] = s
    elif where == 'version':
        kw['version'] = kw['resp_version'] = \
            ctx.choice('v', (u'', u'HTTP/', u'HTTP/1')) + s
    elif where == 'name':
        headers = ctx.choice('order', (
            [header(u'Host', u'a'), header(s, u'v')],
            [header(s, u'v'), header(u':path', u'x'), header(u'Host', u'a')]))
        resp_headers = [header(u':status', u'200'), header(u'X' + s, u'1'),
                        header(s, u'2'), header(s[:1], u'3')]
    elif where == 'value':
        headers = [header(u'Host', s), header(u'A', u'b'), header(u'A', s)]
        resp_headers = [header(u'Foo', s)]
    elif where == 'post':
        kw['post'] = {u'mimeType': u'text/plain', u'text': s}
    elif where == 'content':
        kw['content'] = {u'size': 2, u'mimeType': u'text/plain', u'text': s}
    path, exchanges = read_har(ctx, document(
        creator, headers=headers, resp_headers=resp_headers, **kw))
    same(ctx, 'one exchange', len(exchanges), 1)
    req, resp = exchanges[0].request, exchanges[0].responses[0]
    same(ctx, 'method', u'' + req.method, kw.get('method', u'GET'))
    same(ctx, 'reason', resp.reason, kw.get('reason', u'OK'))
    v = kw.get('version', u'HTTP/1.1')
    if not v.startswith(u'HTTP/') or \
            BROWSERS.get(creator) in ('chrome', 'firefox', 'edge'):
        v = None
    for msg in (req, resp):
        same(ctx, 'version known', msg.version is None, v is None)
        if v is not None and msg.version is not None:
            same(ctx, 'version', u'' + msg.version, v)
        same(ctx, 'remark', msg.remark, u'from ' + path)
    entries_match(ctx, 'request headers', req, headers)
    entries_match(ctx, 'response headers', resp, resp_headers)
    if 'post' in kw:
        same(ctx, 'request text', req.unicode_body, s)
    elif 'content' in kw:
        same(ctx, 'response text', resp.unicode_body, s)
    elif where != 'method':
        same(ctx, 'response text', resp.unicode_body, u'hello')
    same(ctx, 'status', int(resp.status), 200)
    same(ctx, 'proxy', req.is_to_proxy, None)
    ctx.cover('read')


def h_url(ctx, n, authority):
    """The target and scheme"""
    s = ctx.text('s', n)
    for c in s:
        ctx.assume((c > u' ') & (c < u'\x7f'))
    if authority:
        for c in s:
            ctx.assume((c != u'/') & (c != u'?') & (c != u'#') &
                       (c != u'[') & (c != u']') & (c != u'\\'))
        rest = ctx.choice('path', (u'/', u'', u'/a?b', u'?b'))
        before, netloc = u'http://', u'e' + s
        url = before + netloc + rest
    else:
        scheme = ctx.choice('scheme', (u'http', u'https', u'HTTP', u'ws'))
        before, netloc = scheme + u'://', u'example.com:8080'
        for c in s:
            ctx.assume(c != u'#')
        ctx.assume(s[0] in u'/?')
        rest = s
        url = before + netloc + rest
    host = ctx.choice('host', (None, u'Host', u'host', u'hOST'))
    headers = [header(u'Accept', u'*/*')]
    if host:
        headers.append(header(host, u'example.com'))
    method = ctx.choice('method', (u'GET', u'CONNECT', u'OPTIONS', u'connect'))
    _, (exch,) = read_har(ctx, document(method=method, url=url, headers=headers))
    req = exch.request
    same(ctx, 'scheme', req.scheme, before[:-3].lower())
    if method == u'CONNECT':
        want = netloc
    elif host:
        want = rest
        if not want.startswith(u'/'):
            want = u'/' + want
        if want.endswith(u'?') and want.index(u'?') == len(want) - 1:
            # An empty query may be dropped.
            ctx.check((req.target == want) | (req.target == want[:-1]),
                      'target', req.target, url)
            want = None
    else:
        want = url
    if want is not None:
        same(ctx, 'target', u'' + req.target, want, url)
    ctx.cover('read')


def h_request_body(ctx):
    creator = ctx.choice('creator', CREATORS)
    method = ctx.choice('method', (u'POST', u'CONNECT'))
    text = ctx.choice('text', (None, u'', u'foo', u'About Fiddler: x'))
    post = None
    if ctx.flag('post'):
        post = {u'mimeType': u'x/y'}
        if text is not None:
            post[u'text'] = text
    else:
        text = None
    size = ctx.int('size', -2, 2)
    _, (exch,) = read_har(ctx, document(
        creator, method=method, url=u'http://example.com:80', size=size,
        post=post))
    req = exch.request
    debug = creator == u'Fiddler' and method == u'CONNECT' and text and \
        u'Fiddler' in text
    if size == 0 or debug:
        want = b''
    elif size > 0:
        want = u'unavailable'
    else:
        want = u'unknown'
    same(ctx, 'request body', body_state(req.body), want)
    if text and not debug:
        same(ctx, 'request text', req.unicode_body, text)
    elif want == b'':
        same(ctx, 'no request text', req.decoded_body, b'')
    else:
        same(ctx, 'no request text', isinstance(req.unicode_body, str), False)
    ctx.cover('read')


TEXTS = (
    (None, None, None), (u'', None, None), (u'foo', None, u'foo'),
    (u'aGVsbG8=', u'base64', b'hello'), (u'aGVsbG8=', u'BASE64', b'hello'),
    (u'aGVs', None, u'aGVs'),
    (u'aGVsbG', u'base64', None), (u'\u0142', u'base64', None),
    (base64.b64encode(b'x Fiddler y').decode(), u'base64', b'x Fiddler y'),
    (u'x Fiddler y', None, u'x Fiddler y'),
)


def h_response_body(ctx, method):
    creator = ctx.choice('creator', CREATORS)
    status = ctx.choice('status', (0, 100, 200, 204, 304, 404, 599))
    text, encoding, decoded = ctx.choice('text', TEXTS)
    size = ctx.int('size', -2, 2)
    content_size = ctx.int('content', -2, 2)
    content = {u'size': content_size, u'mimeType': u'text/plain'}
    if text is not None:
        content[u'text'] = text
    if encoding is not None:
        content[u'encoding'] = encoding
    resp_headers = [header(n, u'z') for n in (
        u'EndTime', u'Foo', u'ClientToServerBytes', u'ServerToClientBytes')]
    _, exchanges = read_har(ctx, document(
        creator, method=method, url=u'http://example.com:80',
        status=status, content=content, resp_size=size,
        resp_headers=resp_headers))
    same(ctx, 'one exchange', len(exchanges), 1)
    if status == 0:
        same(ctx, 'no response', exchanges[0].responses, [])
        return
    resp, = exchanges[0].responses
    same(ctx, 'status', int(resp.status), status)
    tunnel = creator == u'Fiddler' and method == u'CONNECT' and \
        200 <= status < 300
    entries_match(ctx, 'response headers', resp,
                  resp_headers[1:2] if tunnel else resp_headers)
    debug = tunnel and type(decoded) is bytes and b'Fiddler' in decoded
    if (size == 0) | (content_size == 0) | (status == 304) | bool(debug):
        want = b''
    elif creator == u'Firefox':
        want = u'unknown'
    elif (size > 0) | (content_size > 0):
        want = u'unavailable'
    else:
        want = u'unknown'
    same(ctx, 'response body', body_state(resp.body), want)
    if status != 304 and not debug:
        if type(decoded) is bytes:
            same(ctx, 'decoded body', resp.decoded_body, decoded)
        elif decoded is not None:
            same(ctx, 'text body', resp.unicode_body, decoded)
        elif want != b'':
            same(ctx, 'no body', isinstance(resp.decoded_body, bytes), False)
    if (status == 304) or debug:
        same(ctx, 'no body', resp.decoded_body, b'')
    ctx.cover('read')


MEMBERS = [
    (), (u'log',), (u'log', u'creator'), (u'log', u'creator', u'name'),
    (u'log', u'entries'), (u'log', u'entries', 0)]
_E = (u'log', u'entries', 0)
for _x in (u'request', u'response'):
    MEMBERS += [_E + (_x,), _E + (_x, u'headers'), _E + (_x, u'headers', 0),
                _E + (_x, u'headers', 0, u'name'),
                _E + (_x, u'headers', 0, u'value'),
                _E + (_x, u'httpVersion'), _E + (_x, u'bodySize')]
MEMBERS += [_E + (u'request', x) for x in (u'method', u'url')]
MEMBERS += [_E + (u'request', u'postData'),
            _E + (u'request', u'postData', u'text')]
MEMBERS += [_E + (u'response', x) for x in (u'status', u'statusText',
                                            u'content')]
MEMBERS += [_E + (u'response', u'content', x)
            for x in (u'size', u'text', u'encoding')]
STRANGE = (None, True, 5, -1, 1.5, u'x', u'', [], [u'x'], {}, {u'a': u'b'},
           u'\ud800', u'\u0142')
REMOVED = 'removed'


def h_shape(ctx, paths):
    """Files of any other shape lead to an input error at worst"""
    path = ctx.choice('path', paths)
    value = ctx.choice('value', STRANGE + (REMOVED,))
    encoding = ctx.choice('base64', (None, u'base64')) \
        if path[-1:] == (u'text',) else None
    content = {u'size': 5, u'text': u'aGVsbG8='}
    if encoding or path[-1:] == (u'encoding',):
        content[u'encoding'] = u'base64'
    data = document(post={u'text': u'x'}, content=content)
    if path:
        node = data
        for k in path[:-1]:
            node = node[k]
        if value is not REMOVED:
            node[path[-1]] = value
        elif isinstance(node, list):
            node.pop()
        else:
            del node[path[-1]]
    elif value is not REMOVED:
        data = value
    try:
        _, exchanges = read_har(ctx, data)
    except InputError:
        ctx.cover('error')
        return
    for exch in exchanges:
        check_exchange(exch)
    text_report(exchanges, io.BytesIO())
    ctx.cover('accepted')


def h_numbers(ctx):
    """Any numbers"""
    status = ctx.int('status', -3, 1200)
    _, exchanges = read_har(ctx, document(
        status=status, size=ctx.choice('size', (0, 10 ** 30, 1.5)),
        content={u'size': 1e300}))
    for exch in exchanges:
        same(ctx, 'response', len(exch.responses),
             0 if status == 0 else 1)
        for resp in exch.responses:
            same(ctx, 'status', int(resp.status), status)
    ctx.cover('read')


RAW = (b'', b'{', b'\xff', b'\xef\xbb\xbf{}', b'[]', b'null', b'1',
       b'{"log": 1}', b'{"log": {"entries": [], "creator": {"name": "x"}}}',
       b'\xef\xbb\xbf{"log":{"entries":[],"creator":{"name":"x"}}}',
       b'[' * 100000, b'{"log":' * 100000, b'NaN', b'"\\ud800"')


def h_raw(ctx):
    """Files that are not JSON at all"""
    raw = ctx.choice('raw', RAW)
    scratch = tempfile.mkdtemp(prefix='I01')
    try:
        path = os.path.join(scratch, 'some.har')
        with io.open(path, 'wb') as f:
            f.write(raw)
        try:
            r = list(formats[u'har']([path]))
        except InputError:
            ctx.check(b'entries' not in raw, 'rejected', raw)
        else:
            same(ctx, 'empty', r, [])
            ctx.check(b'entries' in raw, 'accepted', raw)
    finally:
        shutil.rmtree(scratch)


def tasks(tier):
    m = 1 if tier == 'thorough' else 0
    out = []
    for w in ('method', 'reason', 'version', 'name', 'value', 'post',
              'content'):
        out.append(Task('h_text', dict(where=w, n=2 + m), max_paths=20000,
                        expect=('read',)))
    for a in (False, True):
        out.append(Task('h_url', dict(n=3 + m, authority=a), max_paths=50000,
                        expect=('read',)))
    out.append(Task('h_request_body', dict(), expect=('read',)))
    for method in (u'GET', u'CONNECT'):
        out.append(Task('h_response_body', dict(method=method),
                        max_paths=50000, expect=('read',)))
    for i in range(0, len(MEMBERS), 4):
        out.append(Task('h_shape', dict(paths=MEMBERS[i:i + 4]),
                        name='h_shape(%d)' % i, expect=('error',)))
    out.append(Task('h_numbers', dict(), expect=('read',)))
    out.append(Task('h_raw', dict()))
    return out
