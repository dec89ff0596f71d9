"""R01: body and payload-header rules."""
from checks.rules_common import (X, ASSUMPTIONS, FUNCTIONS, NOW, bad, ctype,
                                 num, on, plain, tokens)
from ref.rules import BAD
from sx.ctx import Task

__all__ = ['ASSUMPTIONS', 'FUNCTIONS']
BOUNDS = {
    'quick': 'methods: every name of 3 to 7 letters (symbolic) and every '
             'registered one; statuses 100 to 999 (symbolic); versions 1.0, '
             '1.1, 2 and unknown; body unknown, empty or not; one message of '
             'each kind with up to five headers chosen by the solver',
    'thorough': 'the same with names of up to 10 letters and all header '
                'combinations together',
}
OUTSIDE = 'exchanges with more headers than listed; bodies in other encodings'

CL = ('Content-Length', b'1', 1)
CT = ctype('text/css')
TE = tokens('Transfer-Encoding', 'chunked')


def method(x, n):
    if n is None:
        return x.pick('GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'CONNECT',
                      'OPTIONS', 'TRACE', 'PATCH', 'PROPFIND', 'BASELINE-'
                      'CONTROL', 'get', 'M-SEARCH')
    return x.letters(n, lower=(n == 3))


def form(m):
    return 'origin'


def target(x, m):
    """A target of the right form for the method."""
    if m == 'CONNECT':
        return dict(target='a.b:1', form='authority')
    if m == 'OPTIONS':
        return dict(target='*', form='asterisk')
    return dict(target='/', form='origin')


def h_request(ctx, n):
    x = X(ctx)
    m = method(x, n)
    x.request(m, version=x.pick('HTTP/1.0', 'HTTP/1.1', 'HTTP/2', None),
              body=x.pick(None, b'', b'x'),
              headers=x.some(CL, CT, TE), **target(x, m))
    x.run('R01')


def h_request_meta(ctx):
    """Headers that describe a body, on requests that have none."""
    x = X(ctx)
    x.request('POST', version=x.pick('HTTP/1.0', 'HTTP/1.1', 'HTTP/2', None),
              body=x.pick(None, b'', b'x'),
              headers=x.one(tokens('Content-Encoding', 'br'),
                            tokens('Content-Language', 'en'),
                            plain('Content-Location', '/'),
                            bad('content-type'), ('ETag', b'"a"',
                                                  (False, 'a')),
                            on('LAST-Modified', NOW),
                            tokens('Content-Foo', 'x'), bad('Range')) +
              x.some(('Expect', b'100-' + x.cased('continue').encode(
                  'latin-1'), '100-continue')) +
              x.one(CL, TE, bad('Content-Length'), bad('Transfer-Encoding')))
    x.run('R01')


def h_status(ctx, m):
    """Payload headers and bodies for every status."""
    x = X(ctx)
    s = ctx.int('status', 100, 999)
    x.request(m, **target(x, m))
    x.response(s, body=x.pick(None, b'', b'x'),
               version=x.pick('HTTP/1.1', 'HTTP/2') if m == 'GET'
               else 'HTTP/1.1',
               headers=x.some(CL, CT) + (x.some(TE) if m != 'POST' else []))
    x.run('R01')


def h_alone(ctx):
    """A response without its request."""
    x = X(ctx)
    s = ctx.int('status', 100, 999)
    x.response(s, body=x.pick(None, b'', b'x'), headers=x.some(CL, CT, TE) +
               x.one(tokens('Trailer', 'x')))
    x.run('R01')


def h_informational(ctx):
    x = X(ctx)
    s = ctx.int('status', 100, 204)
    x.request()
    x.response(s, headers=x.one(tokens('Content-Encoding', 'br'),
                                tokens('Content-Language', 'en'),
                                plain('Content-Location', '/'),
                                bad('content-type'),
                                ('ETag', b'"a"', (False, 'a')),
                                on('LAST-Modified', NOW),
                                tokens('Link', 'x')[:1] + (b'</>;rel=a',
                                                           [['a']])) +
               x.one(CT, bad('Content-Length'), bad('Transfer-Encoding')))
    x.run('R01')


def h_partial(ctx):
    """Content-Type may be left out of a 206 to a range condition"""
    x = X(ctx)
    s = ctx.int('status', 200, 210)
    x.request(headers=[('Range', b'bytes=0-0', ('bytes', 1))] +
              x.one(('If-Range', b'"a"', (False, 'a')), bad('If-Range')))
    x.response(s, body=x.pick(None, b'', b'x'), headers=x.some(CT) +
               [tokens('Content-Range', 'bytes 0-0/1')])
    x.run('R01')


def h_content_type(ctx):
    x = X(ctx)
    media = x.pick('text/css', 'application/json', 'application/x-gzip',
                   'text/javascript', 'application/jsonx',
                   'application/problem+json', 'text/directory',
                   'application/' + x.cased('json'),
                   'text/' + x.cased('ecmascript'))
    ps = []
    for i in range(2):
        p = x.pick(None, 'charset', x.cased('charset'), 'charse')
        if p is not None:
            ps.append((p, 'utf-8'))
    hd = ctype(media, *ps)
    if x.flag():
        x.request('POST', body=x.pick(b'', b'1'), headers=[hd, CL])
    else:
        x.request()
        x.response(200, body=x.pick(b'', b'1'), headers=[hd, CL])
    x.run('R01')


def h_params(ctx):
    """Duplicate parameters whatever their names."""
    x = X(ctx)
    p = x.ctx.text('p', 2, b'ab-')
    q = x.ctx.text('q', 2, b'ABab')
    r = x.pick('ab', 'A', x.cased('ab'))
    x.request('POST', body=b'1', headers=[CL, ctype(
        'application/foo', (p, '1'), (q, '1'), (r, '2'))])
    x.run('R01')


def h_trailer(ctx):
    """Trailer, Transfer-Encoding and Content-Length together."""
    x = X(ctx)
    te = x.one(tokens('Transfer-Encoding', 'gzip', x.cased('chunked')),
               tokens('Transfer-Encoding', x.letters(4, lower=True)),
               bad('Transfer-Encoding'), tokens('Transfer-Encoding', 'gzip'))
    hs = te + x.some(tokens('Trailer', 'Foo'), CL) + x.one(
        bad('Trailer'), num('Content-Length', x.digits(2)))
    v = x.pick('HTTP/1.0', 'HTTP/1.1', 'HTTP/2', None)
    if x.flag():
        x.request('POST', version=v, headers=hs, body=None)
    else:
        x.request()
        x.response(200, version=v, headers=hs, body=None)
    x.run('R01')


def h_connect(ctx):
    x = X(ctx)
    s = ctx.int('status', 190, 310)
    x.request('CONNECT', target='a.b:1', form='authority')
    x.response(s, headers=x.one(TE, bad('Transfer-Encoding')) +
               x.one(CL, bad('Content-Length')), body=x.pick(None, b''))
    x.run('R01')


def h_unsupported(ctx):
    """411, 413, 415 and friends against the request's body."""
    x = X(ctx)
    s = ctx.int('status', 410, 420)
    x.request('POST', headers=x.one(CT, bad('Content-Type')),
              body=x.pick(None, b'', b'x'))
    x.response(s)
    x.run('R01')


def h_204(ctx):
    x = X(ctx)
    s = ctx.int('status', 200, 210)
    x.request(x.pick('GET', 'HEAD', 'head'))
    x.response(s, version=x.pick('HTTP/1.0', 'HTTP/2', None),
               headers=x.some(CL, CT, tokens('X-Foo', 'x')),
               body=ctx.bytes('body', x.pick(0, 2), b'xyz'))
    x.run('R01')


def h_charset_json(ctx):
    """Which parameter names count as charset."""
    x = X(ctx)
    x.request('POST', body=b'1', headers=[CL, ctype(
        'application/json', (x.letters(7, True, True), 'utf-8'))])
    x.run('R01')


def h_media(ctx, prefix, n):
    """Every subtype name: deprecated or not."""
    x = X(ctx)
    x.request('POST', body=b'', headers=[CL, ctype(
        prefix + x.letters(n, True, True, b'-.'))])
    x.run('R01')


def tasks(tier):
    deep = tier == 'thorough'
    ts = [Task('h_request', dict(n=None), expect=[
        '1021', '1022', '1041', '1056', '1057', '1059', '1061', '1062',
        '1020'])]
    for n in (3, 4, 5, 6, 7) + ((8, 9, 10) if deep else ()):
        ts.append(Task('h_request', dict(n=n), max_paths=20000))
    ts.append(Task('h_request_meta', expect=['1053', '1066', '1021']))
    for m in ('GET', 'HEAD', 'CONNECT', 'POST'):
        ts.append(Task('h_status', dict(m=m), max_paths=20000,
                       expect=['1023', '1041', '1240', '1076', '1052']))
    ts += [
        Task('h_alone', expect=['1018', '1023', '1240', '1076', '1052',
                                '1054', '1020']),
        Task('h_informational', expect=['1052', '1018', '1023']),
        Task('h_partial', expect=['1041']),
        Task('h_content_type', expect=['1035', '1042', '1280']),
        Task('h_params', expect=['1042']),
        Task('h_trailer', expect=['1054', '1020']),
        Task('h_connect', expect=['1019', '1024']),
        Task('h_unsupported', expect=['1098', '1099']),
        Task('h_204', expect=['1240', '1076', '1239']),
        Task('h_charset_json', expect=['1280']),
        Task('h_media', dict(prefix='text/', n=10)),
        Task('h_media', dict(prefix='application/', n=6)),
    ]
    return ts
