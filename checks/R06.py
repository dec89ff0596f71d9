"""R06: connection, upgrade, proxy and version rules."""
from checks.rules_common import (X, ASSUMPTIONS, FUNCTIONS, NOW, bad, cc,
                                 ctype, enc, on, plain, tokens, upgrade,
                                 warning)
from checks.R01 import method, target
from ref import registry as K
from ref.rules import BAD
from sx.ctx import Task

__all__ = ['ASSUMPTIONS', 'FUNCTIONS']
BOUNDS = {
    'quick': 'every registered header (in each message), header names of 3 '
             'to 6 arbitrary letters and every X- name of 4 letters, '
             'statuses 100 to 999, connection options and protocols of up to '
             '8 symbolic letters, versions 1.0, 1.1, 2 and unknown',
    'thorough': 'header names of up to 8 letters',
}
OUTSIDE = 'more than two upgrade protocols or connection options'

VERSIONS = ('HTTP/1.0', 'HTTP/1.1', 'HTTP/2', None)
HOST = plain('Host', 'a.b')
ABS = dict(target='http://a.b/', form='absolute')
UP = tokens('Connection', 'upgrade')


def h_names(ctx, part):
    """Every registered header in a request or response, any version."""
    x = X(ctx)
    names = [n for i, n in enumerate(sorted(set(
        K.HEADERS) | K.OTHER_HEADERS)) if i % 8 == part]
    n = x.pick(*names)
    hd = (n, b'\x01', BAD)          # (its value is not looked at)
    if x.flag():
        x.request('POST', version=x.pick('HTTP/1.1', 'HTTP/2'),
                  headers=[hd])
    else:
        x.request()
        x.response(200, version=x.pick('HTTP/1.1', 'HTTP/2'), headers=[hd])
    x.run('R06')


def h_any_name(ctx, n, prefix=''):
    x = X(ctx)
    name = prefix + x.letters(n, True, False, b'-1')
    if x.flag():
        x.request(headers=[bad(name)])
    else:
        x.request()
        x.response(200, headers=[bad(name), ('X-Foo', b'', None)])
    x.run('R06')


def h_x_names(ctx):
    """Unregistered X- names, in any case; registered ones are fine."""
    x = X(ctx)
    a = x.pick('X-Foo', 'x-foo', 'X-Foo-Bar', x.cased('x-foo'), 'X',
               'X-', 'XX-Foo', x.cased('X-Frame-Options'))
    b = x.pick(None, 'X-Bar', 'X-Frame-Options', 'A')
    hs = [(a, b'', None)] + ([(b, b'', None)] if b else [])
    if x.flag():
        hs = hs[::-1]
    x.request(headers=hs)
    x.run('R06')


def h_connection(ctx, n):
    """Options that are never connection options."""
    x = X(ctx)
    opt = x.letters(n, False, True, b'-CT')
    opt2 = x.pick(None, 'Cache-Control', 'close', x.cased('host'))
    hd = tokens('Connection', *([opt] + ([opt2] if opt2 else [])))
    if x.flag():
        x.request(headers=[hd, HOST])
    else:
        x.request()
        x.response(200, headers=[hd])
    x.run('R06')


def h_registered_options(ctx):
    x = X(ctx)
    opt = x.pick(*[n for n in sorted(K.HEADERS)])
    x.request(headers=[tokens('Connection', opt)])
    x.run('R06')


def h_host(ctx):
    x = X(ctx)
    v = x.pick(*VERSIONS)
    hosts = x.pick([], [HOST], [('HOST', b'a', 'a')], [HOST, HOST],
                   [bad('Host')], [HOST, bad('Host')],
                   [('User-Agent', b'x', ['x']), HOST], [plain('Host', '')])
    x.request(version=v, headers=hosts + x.one(tokens('Via', '1.1 a')))
    x.response(x.pick(199, 200, 299, 300, 399, 400),
               headers=[tokens('Connection', 'close')])
    x.run('R06')


def h_te(ctx):
    x = X(ctx)
    v = x.pick(*VERSIONS)
    te = x.pick(('trailers',), ('chunked',), ('gzip', 'chunked'),
                (x.cased('chunked'),), (x.letters(7, False, True),),
                ('trailers', 'deflate'), ())
    x.request(version=v, headers=[('TE', enc(', '.join(te)),
                                   [(t,) for t in te])] + x.one(
        tokens('Connection', x.cased('te')), tokens('Connection', 'close'),
        tokens('Connection', 'a', 'TE'), bad('Connection')))
    x.run('R06')


def h_h2_te(ctx):
    x = X(ctx)
    t = x.cased('trailers') if x.flag() else x.letters(8, False, True)
    x.request(version='HTTP/2', headers=[('TE', enc(t), [(t,)])])
    x.run('R06')


def h_forwards(ctx, n):
    x = X(ctx)
    m = method(x, n)
    x.request(m, headers=x.one(('Max-Forwards', b'1', 1),
                               bad('Max-Forwards')), **target(x, m))
    x.run('R06')


def h_referer(ctx):
    x = X(ctx)
    sch = x.pick('https', 'http', x.cased('https'), 'httpss', 'http:s')
    ref = sch + '://a/'
    x.request(scheme=x.pick('http', 'https', None, 'foo'), headers=x.pick(
        [plain('Referer', ref)], [bad('Referer')],
        [plain('Referer', '/https:')]))
    x.run('R06')


def h_user_agent(ctx):
    x = X(ctx)
    lib = x.pick('curl', 'Python-urllib', 'python-requests', 'foo',
                 x.letters(4, False, True), x.cased('curl'))
    form = x.pick(('{}', 1), ('{}/1.0', 1), ('{} (x)', 1), ('{}/1 foo/2', 2),
                  ('foo {}', 3), ('(x)', 0), ('{} {}', 4))
    pre, _, post = form[0].partition('{}')
    if form[1] == 4:
        raw, val = enc(lib) + b' ' + enc(lib), [lib, lib]
    elif form[1] == 0:
        raw, val = b'\xff', BAD
    else:
        raw = enc(pre) + enc(lib) + enc(post)
        val = {1: [lib], 2: [lib, 'foo'], 3: ['foo', lib]}[form[1]]
    x.request(headers=[('User-Agent', raw, val)])
    x.run('R06')


def h_method_case(ctx, n):
    """Lower-case spellings of registered methods."""
    x = X(ctx)
    x.request(x.letters(n, True, True) if n else x.pick(
        x.cased('get'), x.cased('patch'), 'version-Control',
        'VERSION-CONTROL', 'version-controls', 'm-search'))
    x.run('R06')


def h_upgrade(ctx):
    x = X(ctx)
    protos = []
    for i in range(2):
        p = x.pick(None, ('h2', None), ('h2c', None), ('h2c', '1'),
                   ('H2C', None), ('HTTP', '2.0'))
        if p:
            protos.append(p)
    hs = ([upgrade(*protos)] if protos else []) + x.one(
        UP, tokens('Connection', x.cased('upgrade'), 'x'),
        tokens('Connection', 'close'), bad('Connection')) + x.one(
        ('HTTP2-Settings', b'AAMAAABkAAQAAP__', 'AAMAAABkAAQAAP__'))
    if x.flag():
        x.request(scheme=x.pick('http', 'https', None), headers=hs,
                  version=x.pick('HTTP/1.1', 'HTTP/2'))
    else:
        x.request(scheme=x.pick('http', 'https'))
        x.response(200, version=x.pick('HTTP/1.1', 'HTTP/2'), headers=hs)
    x.run('R06')


def h_protocol(ctx):
    """Names close to h2c, malformed Upgrade."""
    x = X(ctx)
    p = x.letters(3, True, True, b'2')
    x.request(scheme='https', headers=[UP] + x.pick(
        [upgrade((p, None))], [bad('Upgrade')],
        [upgrade((p, '1')), bad('Upgrade')]))
    x.response(x.pick(101, 200, 426), headers=[UP, x.pick(
        upgrade((p, None)), upgrade(('h2c', None)), upgrade((p, '1')),
        upgrade(('x', None), (p, None)), bad('Upgrade'))])
    x.run('R06')


def h_settings(ctx):
    x = X(ctx)
    s = x.ctx.text('settings', 2, bytes(range(48, 58)) + b'azAZ-_.~+/')
    s = s + x.pick('', '=')
    x.request(headers=[('HTTP2-Settings', enc(s), s)] + x.one(
        tokens('Connection', x.cased('http2-settings')),
        tokens('Connection', 'upgrade'), bad('Connection')))
    x.run('R06')


def h_switch(ctx):
    """101 and 426 against the upgrade asked for."""
    x = X(ctx)
    s = x.pick(100, 101, 102, 200, 299, 300, 426, 505)
    x.request(version=x.pick('HTTP/1.0', 'HTTP/1.1'),
              headers=[UP] + x.one(upgrade(('a', None)),
                                   upgrade(('h2c', None))) + x.one(
        ('HTTP2-Settings', b'AA', 'AA'), bad('HTTP2-Settings')))
    x.response(s, headers=[UP] + x.one(
        upgrade(('a', None)), upgrade(('h2c', None)), bad('Upgrade')))
    x.run('R06')


def h_interim(ctx):
    x = X(ctx)
    s = ctx.int('status', 100, 204)
    m = x.pick('GET', 'CONNECT')
    x.request(m, version=x.pick(*VERSIONS), **target(x, m))
    x.response(s, version=x.pick('HTTP/1.1', 'HTTP/2'), headers=x.one(
        tokens('Connection', 'close'), tokens('Connection', 'x',
                                              x.cased('close')),
        tokens('Transfer-Encoding', 'chunked'), bad('Connection')))
    x.run('R06')


def h_close(ctx):
    """Responses delimited by closing the connection."""
    x = X(ctx)
    s = x.pick(199, 200, 204, 299, 304, 305)
    m = x.pick('GET', 'HEAD', 'CONNECT', None)
    if m:
        x.request(m, version=x.pick('HTTP/1.1', None), **target(x, m))
    x.response(s, version=x.pick(*VERSIONS), headers=x.one(
        ('Content-Length', b'0', 0), bad('Content-Length'),
        tokens('Transfer-Encoding', 'gzip', x.cased('chunked')),
        tokens('Transfer-Encoding', 'gzip'), bad('Transfer-Encoding')) +
        x.some(tokens('Connection', 'close')))
    x.run('R06')


def h_408(ctx):
    x = X(ctx)
    s = ctx.int('status', 400, 511)
    x.request(version=x.pick('HTTP/1.1', 'HTTP/1.0', None))
    x.response(s, version=x.pick(*VERSIONS), headers=x.one(
        tokens('Connection', x.cased('close')), bad('Connection')))
    x.run('R06')


def h_proxy(ctx):
    """Requests in absolute form; Via; transformations."""
    x = X(ctx)
    s = ctx.int('status', 100, 999)
    x.request(version=x.pick('HTTP/1.1', 'HTTP/2'), **x.pick(ABS, {}))
    x.response(s, headers=x.one(warning(214)) + x.one(
        tokens('Via', '1.1 x'), bad('Via')))
    x.run('R06')


def h_proxy_form(ctx):
    """What the target looks like decides."""
    x = X(ctx)
    m = x.pick('GET', 'OPTIONS', 'CONNECT')
    t, forms = x.pick(('http://a/', 'absolute absolute '),
                      ('/http://a/', 'origin origin '),
                      ('*', ' asterisk '), ('a:1', 'absolute absolute '
                                            'authority'),
                      ('x:', 'absolute absolute '), ('//a', 'origin origin '),
                      ('a', '  '))
    form = forms.split(' ')[('GET', 'OPTIONS', 'CONNECT').index(m)]
    x.request(m, target=t, form=form)
    if x.flag():
        x.response(203)
    x.run('R06')


def h_date(ctx):
    """Dates in the future."""
    x = X(ctx)
    d = x.date(NOW)
    hd = x.pick(on('Date', d), bad('Date'), on('Last-Modified', d))
    if x.flag():
        x.request(headers=[hd])
    else:
        x.request()
        x.response(x.pick(200, 103, 404), headers=[hd])
    x.run('R06')


def h_version_1_0(ctx):
    x = X(ctx)
    s = ctx.int('status', 100, 599)
    x.request(version=x.pick('HTTP/1.0', 'HTTP/1.1', 'HTTP/2'))
    x.response(s, headers=x.one(tokens('Transfer-Encoding', 'chunked'),
                                bad('Transfer-Encoding')),
               version=x.pick('HTTP/1.0', 'HTTP/1.1', 'HTTP/2'))
    x.run('R06')


def tasks(tier):
    deep = tier == 'thorough'
    ts = []
    for part in range(8):
        ts.append(Task('h_names', dict(part=part)))
    for n in (3, 4, 5, 6) + ((7, 8) if deep else ()):
        ts.append(Task('h_any_name', dict(n=n)))
    ts.append(Task('h_any_name', dict(n=4, prefix='X-'), expect=['1277']))
    ts.append(Task('h_x_names', expect=['1277']))
    for n in (4, 5, 6, 7) + ((8, 13) if deep else ()):
        ts.append(Task('h_connection', dict(n=n), expect=['1034']))
    ts += [
        Task('h_registered_options', expect=['1034']),
        Task('h_host', expect=['1031', '1032', '1033', '1071']),
        Task('h_te', expect=['1028', '1029', '1244']),
        Task('h_h2_te', expect=['1244'])]
    for n in (None, 5, 7):
        ts.append(Task('h_forwards', dict(n=n), expect=['1067']))
    ts += [
        Task('h_referer', expect=['1068']),
        Task('h_user_agent', expect=['1070', '1093'][1:])]
    for n in (0, 3, 4, 5):
        ts.append(Task('h_method_case', dict(n=n), expect=['1295']))
    ts += [
        Task('h_upgrade', expect=['1050', '1228', '1230', '1231', '1233',
                                  '1245']),
        Task('h_protocol', expect=['1233', '1049', '1102', '1103']),
        Task('h_settings', expect=['1230', '1234']),
        Task('h_switch', expect=['1049', '1051', '1071', '1101', '1102',
                                 '1103', '1232']),
        Task('h_interim', expect=['1071', '1198', '1199', '1246']),
        Task('h_close', expect=['1025', '1047', '1199']),
        Task('h_408', expect=['1094', '1101', '1105']),
        Task('h_proxy', expect=['1046', '1236', '1237']),
        Task('h_proxy_form', expect=['1236', '1237']),
        Task('h_date', expect=['1109']),
        Task('h_version_1_0', expect=['1051', '1071', '1306', '1105']),
    ]
    return ts
