"""R03: caching rules."""
from checks.rules_common import (X, ASSUMPTIONS, FUNCTIONS, NOW, bad, cc,
                                 ctype, num, on, plain, tokens, warning)
from checks.R01 import method, target
from ref.rules import BAD
from sx.ctx import Task

__all__ = ['ASSUMPTIONS', 'FUNCTIONS']
BOUNDS = {
    'quick': 'ages and lifetimes of 2 digits and near each threshold, dates '
             'within a minute of each threshold, every three-digit warning '
             'code, every pair of defined cache directives, methods of 3 to '
             '5 letters and statuses 100 to 999 (symbolic)',
    'thorough': 'ages and lifetimes of 3 digits, method names to 7 letters',
}
OUTSIDE = 'more than two directives besides the ones under test'

AGE = ('Age', b'5', 5)
DATE = on('Date', NOW - 60)
NAMES = ['max-age', 'max-stale', 'min-fresh', 'no-cache', 'no-store',
         'no-transform', 'only-if-cached', 'must-revalidate', 'private',
         'proxy-revalidate', 'public', 's-maxage', 'stale-if-error',
         'stale-while-revalidate', 'immutable']
NUMERIC = ['max-age', 'max-stale', 'min-fresh', 's-maxage', 'stale-if-error',
           'stale-while-revalidate']
OPTIONAL = ['max-stale']


def directive(x, names=NAMES, arg=None):
    n = x.pick(*names)
    if n in NUMERIC:
        return (n, x.digits(1) if arg is None else arg)
    return n


def h_pair_request(ctx):
    """Any two directives in a request."""
    x = X(ctx)
    a, b = directive(x, NAMES[:8]), directive(x)
    x.request(x.pick('GET', 'PUT'), headers=[cc(a, b)] + x.some(
        tokens('Pragma', 'no-cache')), body=b'')
    x.run('R03')


def h_pair_response(ctx):
    x = X(ctx)
    a, b = directive(x), directive(x)
    x.request()
    x.response(200, headers=[cc(a, b)] + x.one(AGE))
    x.run('R03')


def h_fields(ctx):
    """no-cache and private with field names apply to those fields only."""
    x = X(ctx)
    d = x.pick('no-cache', 'private')
    form = x.pick(('', None), ('=x', ['x']), ('="x"', ['x']),
                  ('="a, b"', ['a', 'b']), ('=""', []), ('="x,,"', ['x']))
    other, raw = x.pick(('max-age', b'max-age='), ('s-maxage', b's-maxage='),
                        ('no-store', None), ('public', None))
    if raw is None:
        o = (other.encode(), None)
    else:
        dg, v = x.digits(1)
        o = (raw + dg, v)
    hd = ('Cache-Control', d.encode() + form[0].encode() + b', ' + o[0],
          [(d, form[1]), (other, o[1])])
    if x.flag():
        x.request(headers=[hd])
    else:
        x.request()
        x.response(200, headers=[hd] + x.one(AGE))
    x.run('R03')


def h_names(ctx):
    """Directive names in either case, unknown ones, bad arguments."""
    x = X(ctx)
    n = x.pick(x.cased('no-store'), x.cased('public'), x.cased('private'),
               x.cased('must-revalidate'),
               x.letters(6, True, True, b'-'), x.letters(7, False, True, b'-'))
    two = x.pick(None, (b'max-age=x', ('max-age', BAD)),
                 (b'max-age', ('max-age', None)),
                 (b'no-cache', ('no-cache', None)))
    raw, val = n.encode('latin-1'), [(n, None)]
    if two is not None:
        raw, val = raw + b', ' + two[0], val + [two[1]]
    hd = ('Cache-Control', raw, val)
    if x.flag():
        x.request(headers=[hd], method=x.pick('GET', 'PUT'))
    else:
        x.request()
        x.response(200, headers=[hd] + x.one(AGE))
    x.run('R03')


def h_method(ctx, n):
    """Cacheability of methods."""
    x = X(ctx)
    m = method(x, n)
    x.request(m, headers=[cc(x.pick('no-cache', 'no-transform'))],
              **target(x, m))
    x.response(x.pick(200, 421), headers=x.one(AGE, cc('no-store')))
    x.run('R03')


def h_status(ctx):
    x = X(ctx)
    s = ctx.int('status', 100, 999)
    x.request()
    x.response(s, headers=x.one(AGE, warning(112), bad('Age')) + x.one(
        on('Expires', NOW), cc('public'), bad('Expires'),
        bad('Cache-Control')))
    x.run('R03')


def h_age_now(ctx, deep):
    """Age against the time since Date."""
    x = X(ctx)
    d = x.date(NOW - 60)
    a = x.digits(3 if deep else 2)
    x.request()
    x.response(200, headers=[on('Date', d), num('Age', a)])
    x.run('R03')


def h_age_lifetime(ctx, n):
    """Age against max-age, s-maxage present or not."""
    x = X(ctx)
    a, m = x.digits(n), x.digits(n)
    x.request(headers=x.one(cc('max-stale'), cc(('stale-if-error', 1)),
                            cc(('max-stale', 0))))
    x.response(200, headers=[num('Age', a)] + [
        cc(('max-age', m), *x.one(('s-maxage', x.digits(1)),
                                  ('s-maxage', 3), 'must-revalidate',
                                  ('stale-if-error', 0),
                                  ('stale-while-revalidate', 5)))] +
        x.one(warning(110), warning(112)))
    x.run('R03')


def h_age_expires(ctx):
    x = X(ctx)
    d, e = x.date(NOW - 120), x.date(NOW - 60)
    a = x.digits(2)
    x.request()
    x.response(200, headers=[num('Age', a), on('Date', d), on('Expires', e)] +
               x.one(cc('public'), cc(('max-age', 70)),
                     cc(('s-maxage', 1)), bad('Cache-Control')))
    x.run('R03')


def h_request_age(ctx, n):
    """The request's max-age against the response's Age."""
    x = X(ctx)
    m, a = x.digits(n), x.digits(n)
    x.request(headers=[('Cache-Control', b'max-age=' + m[0] + b', ' +
                        x.pick(b'no-store', b'max-age=x'), None)])
    # the first of repeated directives counts
    raw = x.q.header_entries[0].value
    second = ('max-age', BAD) if raw[-1:] == b'x' else ('no-store', None)
    x.rq.h.entries[0].value = [('max-age', m[1]), second]
    x.response(200, headers=[num('Age', a)])
    x.run('R03')


def h_heuristic(ctx):
    """Around one day, Warning 113."""
    x = X(ctx)
    big = ctx.bytes('age', 5, b'0123456789')
    val = 0
    for i in range(5):
        val = val * 10 + (big[i] - 48)
    x.request()
    x.response(200, headers=[('Age', big, val)] + x.one(
        warning(113), warning(110), warning(111, 113)) + x.one(
        on('Expires', NOW), cc(('max-age', 5)), cc('public')))
    x.run('R03')


def h_warning(ctx):
    """Every warning code, and its date against Date."""
    x = X(ctx)
    c = x.digits(3)
    w = x.pick(0, 1, 2)
    d = x.date(NOW - 60)
    wd = x.date(NOW - 60)
    hd = warning(c) if w == 0 else warning((c, wd))
    if x.flag():
        x.request(headers=[hd] + ([on('Date', d)] if w == 2 else []))
    else:
        x.request()
        x.response(200, headers=[hd] + ([on('Date', d)] if w == 2 else []) +
                   x.some(cc('no-transform')))
    x.run('R03')


def h_warning_bad_date(ctx):
    x = X(ctx)
    hd = x.pick(('Warning', b'110 - "x" "Sun, 30 Feb 2020 00:00:00 GMT"',
                 [(110, BAD)]), ('Warning', b'110 - "x" "x"', BAD),
                ('Warning', b'112 - "y", 110 - "x" ""', BAD))
    x.request()
    x.response(200, headers=[hd] + x.some(DATE, AGE))
    x.run('R03')


def h_warnings(ctx):
    """Two warnings; a malformed one besides."""
    x = X(ctx)
    codes = (110, 111, 112, 113, 199, 214, 299)
    a, b = x.pick(*codes), x.pick(*codes)
    hs = [warning(a)] if a == b else [warning(a, b)]
    x.request(headers=x.one(cc(('stale-if-error', 3)), cc('no-cache')))
    x.response(x.pick(200, 203, 103), headers=hs + x.one(bad('Warning'), AGE))
    x.run('R03')


def h_pragma(ctx):
    x = X(ctx)
    p = x.pick('no-cache', x.cased('no-cache'), x.letters(2, True, True))
    hd = [('Pragma', x.pick(b'x, ', b'') + p.encode('latin-1'), None)]
    val = [p]
    if hd[0][1][:3] == b'x, ':
        val = ['x', p]
    hd = [('Pragma', hd[0][1], val)]
    if x.flag():
        x.request(headers=hd + x.one(cc('no-cache'), cc('public'),
                                     bad('Cache-Control')))
        x.response(200, headers=[AGE])
    else:
        x.request()
        x.response(200, headers=hd)
    x.run('R03')


def h_transform(ctx):
    """203, Warning 214 and no-transform."""
    x = X(ctx)
    s = ctx.int('status', 200, 206)
    x.request(headers=x.one(warning(214), cc('no-transform')))
    x.response(s, headers=x.some(warning(214), cc('no-transform'),
                                 tokens('Via', '1.1 x')))
    x.run('R03')


def h_immutable(ctx):
    x = X(ctx)
    e, d = x.date(NOW - 60), x.date(NOW - 60)
    x.request(scheme=x.pick('http', 'https', None),
              version=x.pick('HTTP/1.1', 'HTTP/2'))
    x.response(200, version=x.q.version, headers=[
        cc('immutable', *x.one(('max-age', x.digits(1)))), on('Date', d)] +
        x.one(on('Expires', e), bad('Expires')) +
        x.one(('Content-Length', b'0', 0),
              tokens('Transfer-Encoding', 'chunked')))
    x.run('R03')


def h_misdirected(ctx):
    x = X(ctx)
    s = ctx.int('status', 420, 422)
    m = x.pick('GET', 'HEAD', 'POST', 'PATCH', 'FOO', 'OPTIONS')
    x.request(m)
    x.response(s, headers=x.one(cc('no-store'), cc('no-cache'),
                                bad('Cache-Control')))
    x.run('R03')


def tasks(tier):
    deep = tier == 'thorough'
    n = 3 if deep else 2
    ts = [
        Task('h_pair_request', expect=['1152', '1193', '1161', '1171']),
        Task('h_pair_response', max_paths=20000,
             expect=['1153', '1193', '1238', '1175', '1176', '1302']),
        Task('h_fields', expect=['1159', '1238', '1193', '1175', '1176']),
        Task('h_names', expect=['1152', '1193', '1176']),
        Task('h_method', dict(n=None), expect=['1171', '1172', '1173',
                                               '1283'])]
    for k in (3, 4, 5) + ((6, 7) if deep else ()):
        ts.append(Task('h_method', dict(n=k)))
    ts += [
        Task('h_status', expect=['1202', '1177', '1168', '1169', '1178',
                                 '1166']),
        Task('h_age_now', dict(deep=deep), expect=['1241', '1168']),
        Task('h_age_lifetime', dict(n=n), expect=['1184', '1188', '1186',
                                                  '1187']),
        Task('h_age_expires', expect=['1185', '1184', '1186', '1188']),
        Task('h_request_age', dict(n=n), expect=['1170', '1188'][:1]),
        Task('h_heuristic', expect=['1179', '1180', '1181', '1182', '1178']),
        Task('h_warning', expect=['1163', '1164', '1165', '1189', '1191'][
            :4]),
        Task('h_warning_bad_date', expect=['1169', '1183']),
        Task('h_warnings', expect=['1183', '1179', '1189', '1192'][:3]),
        Task('h_pragma', expect=['1160', '1161', '1162', '1174']),
        Task('h_transform', expect=['1189', '1190', '1191', '1192']),
        Task('h_immutable', expect=['1301', '1302', '1303']),
        Task('h_misdirected', expect=['1283']),
    ]
    return ts
