"""R04: conditional requests and ranges."""
from checks.rules_common import (X, ASSUMPTIONS, FUNCTIONS, NOW, bad, cc,
                                 ctype, etag, num, on, plain, star, tokens)
from checks.R01 import method, target
from ref.rules import BAD
from sx.ctx import Task

__all__ = ['ASSUMPTIONS', 'FUNCTIONS']
BOUNDS = {
    'quick': 'methods of 3 to 7 letters and all registered ones, statuses '
             '100 to 999 (symbolic), entity tags of up to 2 characters '
             '(symbolic, strong and weak), dates within a minute of each '
             'other, subsets of the precondition and metadata headers',
    'thorough': 'the same, methods to 10 letters, tags to 3 characters',
}
OUTSIDE = 'lists of more than two entity tags'

PRE = [('If-Match', b'"a"', [(False, 'a')]),
       ('If-None-Match', b'"a"', [(False, 'a')]),
       on('If-Modified-Since', NOW - 100),
       on('If-Unmodified-Since', NOW - 100),
       ('If-Range', b'"a"', (False, 'a'))]
RANGE = ('Range', b'bytes=0-0', ('bytes', 1))
CRANGE = tokens('Content-Range', 'bytes 0-0/1')


def tag(x, n):
    """Symbolic entity tag: (raw, value)"""
    weak = x.flag()
    op = x.letters(x.pick(*range(n + 1)), other=b'*a')
    return (b'W/' if weak else b'') + b'"' + op.encode('latin-1') + b'"', \
        (weak, op)


def h_method(ctx, n):
    """Preconditions against methods."""
    x = X(ctx)
    m = method(x, n)
    x.request(m, headers=x.one(*(PRE + [
        RANGE, bad('If-Match'), bad('If-Modified-Since'), bad('Range'),
        ('If', b'(<x>)', None), ('If-Schedule-Tag-Match', b'"a"', None)])),
        **target(x, m))
    x.run('R04')


def h_subset(ctx):
    """304 and 412 against all the preconditions."""
    x = X(ctx)
    m = x.pick('GET', 'POST', 'OPTIONS')
    x.request(m, headers=x.some(*PRE) + x.one(
        ('If', b'(<x>)', None)), target='/', form='origin')
    x.response(x.pick(304, 412, 428))
    x.run('R04')


def h_status(ctx, m):
    x = X(ctx)
    s = ctx.int('status', 100, 999)
    x.request(m, headers=x.one(*(PRE + [RANGE, bad('Range'),
                                        bad('If-None-Match')])))
    x.response(s, headers=x.some(CRANGE))
    x.run('R04')


def h_safe(ctx, n):
    """304 and 412 by method."""
    x = X(ctx)
    m = method(x, n)
    x.request(m, headers=x.one(*PRE), **target(x, m))
    x.response(x.pick(304, 412, 206))
    x.run('R04')


def h_none_match(ctx, n):
    """200 although the entity tag matches."""
    x = X(ctx)
    r1, v1 = tag(x, n)
    r2, v2 = tag(x, n)
    kind = x.pick('one', 'list', 'star', 'bad')
    hd = {'one': ('If-None-Match', r1, [v1]),
          'list': ('If-None-Match', b'"foo", ' + r1, [(False, 'foo'), v1]),
          'star': star('If-None-Match'), 'bad': bad('If-None-Match')}[kind]
    x.request(x.pick('GET', 'HEAD'), headers=[hd])
    x.response(x.pick(200, 299, 300), headers=x.pick(
        [('ETag', r2, v2)], [], [bad('ETag')]))
    x.run('R04')


def h_modified(ctx):
    x = X(ctx)
    a, b = x.date(NOW - 120), x.date(NOW - 120)
    x.request(x.pick('GET', 'HEAD', 'POST'),
              headers=[on('If-Modified-Since', a)] + x.one(PRE[1]))
    x.response(x.pick(200, 204, 304, 299, 300), headers=[
        on('Last-Modified', b)] + x.one(('ETag', b'"b"', (False, 'b')),
                                        bad('ETag')))
    x.run('R04')


def h_match(ctx, n):
    """If-Match and If-Range with weak tags."""
    x = X(ctx)
    r1, v1 = tag(x, n)
    hd = x.pick(('If-Match', r1, [v1]), ('If-Range', r1, v1),
                ('If-Match', b'"W/", ' + r1, [(False, 'W/'), v1]),
                ('If-None-Match', r1, [v1]),
                star('If-Match'), on('If-Range', NOW))
    x.request('GET', headers=[hd] + x.some(RANGE))
    x.run('R04')


def h_if_range(ctx, n):
    """206 against If-Range and ETag."""
    x = X(ctx)
    r1, v1 = tag(x, n)
    r2, v2 = tag(x, n)
    x.request('GET', headers=[RANGE, x.pick(
        ('If-Range', r1, v1), bad('If-Range'), on('If-Range', NOW))])
    x.response(x.pick(206, 200), headers=[CRANGE, x.pick(
        ('ETag', r2, v2), bad('ETag'), ('X-ETag', b'"a"', None))], body=b'x')
    x.run('R04')


def h_metadata(ctx):
    """What 304 and the 206 to If-Range may carry."""
    x = X(ctx)
    s = ctx.int('status', 200, 310)
    x.request('GET', headers=[PRE[4], RANGE] + x.some(PRE[1]))
    x.response(s, headers=x.one(
        ctype('text/css'), ('ETag', b'"a"', (False, 'a')),
        on('Last-Modified', NOW - 100), on('last-modified', NOW - 100),
        tokens('Content-Encoding', 'br'), plain('Content-Location', '/'),
        tokens('Content-Language', 'en'), bad('Content-LANGUAGE'),
        ('Content-Length', b'1', 1), tokens('Link', 'x'), CRANGE,
        cc('public')) + x.one(ctype('text/plain')), body=b'')
    x.run('R04')


def h_range_response(ctx):
    """206 and 416 against Range, Content-Range and multipart/byteranges."""
    x = X(ctx)
    s = x.pick(206, 416, 200)
    rng = x.pick(RANGE, ('Range', b'bytes=0-0,2-2', ('bytes', 2)),
                 ('Range', b'bytes=-1', ('bytes', 1)),
                 ('Range', b'foo=0-0', ('foo', 0)),
                 ('Range', x.cased('bytes').encode('latin-1') + b'=1-',
                  ('bytes', 1)), bad('Range'), None)
    x.request(x.pick('GET', 'HEAD'), headers=[rng] if rng else [])
    mp = ctype('multipart/' + x.cased('byte') + 'ranges', ('boundary', 'a'))
    x.response(s, headers=x.one(mp, ctype('multipart/mixed',
                                          ('boundary', 'a')), bad(
        'Content-Type')) + x.one(CRANGE, bad('Content-Range')), body=b'')
    x.run('R04')


def h_put_range(ctx):
    x = X(ctx)
    s = ctx.int('status', 100, 999)
    x.request(x.letters(3), headers=x.one(
        CRANGE, bad('Content-Range')))
    x.response(s, headers=x.one(CRANGE))
    x.run('R04')


def h_last_modified(ctx):
    x = X(ctx)
    d, m = x.date(NOW - 60), x.date(NOW - 60)
    x.request()
    x.response(x.pick(200, 304, 103), headers=[on('Date', d)] + x.one(
        on('Last-Modified', m), bad('Last-Modified')))
    x.run('R04')


def tasks(tier):
    deep = tier == 'thorough'
    k = 3 if deep else 2
    ts = [Task('h_method', dict(n=None), expect=['1122', '1130', '1131',
                                                 '1132', '1134'])]
    for n in (3, 4, 5, 6, 7) + ((8, 9, 10) if deep else ()):
        ts.append(Task('h_method', dict(n=n)))
    ts.append(Task('h_subset', expect=['1124', '1125', '1128', '1129',
                                       '1200']))
    for m in ('GET', 'HEAD', 'POST'):
        ts.append(Task('h_status', dict(m=m), expect=[
            '1125', '1136', '1147', '1149', '1200']))
    ts.append(Task('h_safe', dict(n=None), expect=['1124', '1129', '1136']))
    for n in (3, 4, 5) + ((6, 7) if deep else ()):
        ts.append(Task('h_safe', dict(n=n)))
    ts += [
        Task('h_none_match', dict(n=k), expect=['1121']),
        Task('h_modified', expect=['1123']),
        Task('h_match', dict(n=k), expect=['1120', '1135', '1134']),
        Task('h_if_range', dict(n=k), expect=['1135', '1145']),
        Task('h_metadata', expect=['1127', '1146']),
        Task('h_range_response', expect=['1138', '1143', '1144', '1150']),
        Task('h_put_range', expect=['1058']),
        Task('h_last_modified', expect=['1118']),
    ]
    return ts
