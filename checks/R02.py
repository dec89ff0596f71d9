"""R02: status-code rules."""
from checks.rules_common import (X, ASSUMPTIONS, FUNCTIONS, NOW, bad, ctype,
                                 num, on, plain, tokens, upgrade)
from checks.R01 import method, target
from sx.ctx import Task

__all__ = ['ASSUMPTIONS', 'FUNCTIONS']
BOUNDS = {
    'quick': 'statuses 100 to 999 (symbolic) for every registered method '
             'group and every method name of 3 to 5 letters (symbolic); one '
             'exchange of a request and up to three responses',
    'thorough': 'method names of up to 10 letters, up to four responses',
}
OUTSIDE = 'exchanges with more headers than listed'

LOC = plain('Location', '/x')
DATE = on('Date', NOW - 5)
ALLOW = tokens('Allow', 'GET', 'POST')


def h_status(ctx, m):
    x = X(ctx)
    s = ctx.int('status', 100, 999)
    x.request(m, **target(x, m))
    x.response(s, headers=x.some(LOC, DATE, ALLOW), body=x.pick(b'', b'x'))
    x.run('R02')


def h_unknown(ctx):
    x = X(ctx)
    s = ctx.int('status', 100, 999)
    x.request(x.pick('GET', 'HEAD'), body=None)
    x.response(s, body=None, headers=x.one(bad('Location'), bad('Allow')))
    x.run('R02')


def h_alone(ctx):
    x = X(ctx)
    s = ctx.int('status', 0, 1000)
    x.response(s, headers=x.some(LOC, DATE, tokens('Retry-After', '7')),
               body=x.pick(None, b''))
    x.run('R02')


def h_safe(ctx, n):
    """Safe methods, by name."""
    x = X(ctx)
    m = method(x, n)
    s = ctx.int('status', 200, 204) if x.flag() else \
        ctx.int('status', 407, 412)
    x.request(m, **target(x, m))
    x.response(s, headers=x.some(LOC), body=x.pick(b'', b'x'))
    x.run('R02')


def h_retry(ctx):
    x = X(ctx)
    s = ctx.int('status', 100, 999)
    x.request('POST', body=b'x', headers=x.one(
        num('Content-Length', x.digits(1)), bad('Content-Length'),
        tokens('Transfer-Encoding', 'chunked')) + x.one(
        ('Expect', b'100-continue', '100-continue'), bad('Expect'),
        ('Expect', b'100-' + x.cased('continue').encode('latin-1'),
         '100-continue')))
    x.response(s, body=b'x', headers=x.one(
        tokens('Retry-After', '7'), bad('Retry-After'),
        plain('Location', '?'), bad('Date'), upgrade(('a', None)),
        bad('Upgrade')))
    x.run('R02')


def h_legal(ctx):
    """451 wants a Link with rel=blocked-by."""
    x = X(ctx)
    s = ctx.int('status', 450, 452)
    # (upper case is not allowed in relation types)
    rel = x.pick('blocked-by', 'blocked-b',
                 'b' + ctx.text('rel', 9, b'abcdefghijklmnopqrstuvwxyz-.'))
    raw = b'</a>;rel=' + rel.encode('latin-1')
    kind = x.pick('one', 'second', 'list', 'none', 'no rel', 'bad')
    if kind == 'one':
        hd = [('Link', raw, [[rel]])]
    elif kind == 'second':
        hd = [('Link', b'</b>;rel=x', [['x']]),
              ('Link', b'</c>, ' + raw, [[], [rel]])]
    elif kind == 'list':
        hd = [('Link', b'</a>;rel="x ' + rel.encode('latin-1') + b'"',
               [['x', rel]])]
    elif kind == 'no rel':
        hd = [('Link', b'</a>', [[]])]
    elif kind == 'bad':
        hd = [bad('Link')]
    else:
        hd = []
    x.request()
    x.response(s, headers=hd, body=b'x')
    x.run('R02')


def h_star(ctx):
    """OPTIONS * must not be redirected."""
    x = X(ctx)
    s = ctx.int('status', 299, 310)
    x.request(x.pick('OPTIONS', 'GET'), **x.pick(
        dict(target='*', form='asterisk'), dict(target='/*', form='origin'),
        dict(target='http://a/', form='absolute')))
    x.response(s, headers=[LOC], body=b'x')
    x.run('R02')


def h_sequence(ctx, n):
    """Responses after the final one; 101 where 100 was awaited."""
    x = X(ctx)
    x.request('POST', headers=x.one(
        ('Expect', b'100-continue', '100-continue'), bad('Expect'),
        ('Expect', b'100-Continue', '100-Continue')))
    for i in range(n):
        s = ctx.int('status%d' % i, 100, 299)
        x.response(s, headers=[upgrade(('a', None))], body=b'x')
    x.run('R02')


def h_sequence_alone(ctx, n):
    x = X(ctx)
    for i in range(n):
        x.response(ctx.int('status%d' % i, 100, 299), body=b'x')
    x.run('R02')


def h_expect(ctx):
    """417 to a request without Expect."""
    x = X(ctx)
    s = ctx.int('status', 415, 419)
    x.request('POST', body=b'x', headers=x.one(
        bad('Expect'), ('Expect', b'100-continue', '100-continue')))
    x.response(s, body=b'x')
    x.run('R02')


def tasks(tier):
    deep = tier == 'thorough'
    ts = []
    for m in ('GET', 'HEAD', 'POST', 'CONNECT', 'DELETE'):
        ts.append(Task('h_status', dict(m=m), max_paths=20000, expect=[
            '1048', '1078', '1079', '1080', '1082', '1083', '1084', '1088',
            '1089', '1110', '1112', '1167', '1205']))
    ts += [
        Task('h_unknown', expect=['1078', '1167']),
        Task('h_alone', expect=['1113', '1167', '1110', '1243']),
        Task('h_safe', dict(n=None), expect=['1072', '1073', '1074', '1095',
                                             '1096', '1284'])]
    for n in (3, 4, 5) + ((6, 7, 8, 9, 10) if deep else ()):
        ts.append(Task('h_safe', dict(n=n)))
    ts += [
        Task('h_retry', expect=['1097', '1100', '1113', '1305']),
        Task('h_legal', expect=['1243']),
        Task('h_star', expect=['1086']),
        Task('h_sequence', dict(n=4 if deep else 3),
             expect=['1304', '1305']),
        Task('h_sequence_alone', dict(n=4 if deep else 3), expect=['1304']),
        Task('h_expect', expect=['1100']),
    ]
    return ts
