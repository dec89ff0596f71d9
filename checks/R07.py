"""R07: content negotiation, preferences, dispositions, PATCH, Allow."""
from checks.rules_common import (X, ASSUMPTIONS, FUNCTIONS, bad, ctype, enc,
                                 plain, star, tokens)
from checks.R01 import method
from ref import registry as K
from ref.rules import BAD
from sx.ctx import Task

__all__ = ['ASSUMPTIONS', 'FUNCTIONS']
BOUNDS = {
    'quick': 'Accept-like headers of two items whose types, subtypes, ranges '
             'and weights are symbolic (types of 2 characters, weights of 3 '
             'decimals), preferences with names of 3 symbolic letters or '
             'registered names in any case, file names of up to 3 arbitrary '
             'bytes, every registered patch and non-patch media type, '
             'statuses 100 to 999, methods of 3 to 7 symbolic letters',
    'thorough': 'three items, file names of 6 bytes',
}
OUTSIDE = 'weights on parameters named q in headers other than Accept'

TOKEN = b'*abAB\x21'
FULL = b"!#$%&'*+-.^_`|~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ" \
    b"abcdefghijklmnopqrstuvwxyz"


def weight(x, short=False):
    """(bytes, thousandths or None)"""
    k = x.pick(0, 1, 2) if short else x.pick(0, 1, 2, 3, 4)
    if k == 0:
        return b'', None
    if k == 1:
        return x.pick((b';q=1', 1000), (b'; q=1.0', 1000), (b';q=1.000', 1000))
    n = k - 1
    b, v = x.digits(n)
    return b';q=0.' + b, v * 10 ** (3 - n)


def accept_item(x, n, params=False):
    k = x.pick('*/*', 'type/*', 'type/sub')
    ps = []
    raw = b''
    if k == '*/*':
        s = u'*/*'
    else:
        s = x.ctx.text(x.uid(), n, TOKEN) + u'/'
        s = s + (u'*' if k == 'type/*' else
                 x.ctx.text(x.uid(), 1, b'*aA'))
    if params:
        for p in ((), ('v',), ('v', 'w'))[x.pick(0, 1, 2)]:
            v = x.ctx.text(x.uid(), 1, b'12')
            ps.append((p, v))
            raw = raw + b';' + enc(p) + b'=' + enc(v)
    return s, ps, raw


def h_accept(ctx, n, count, params):
    x = X(ctx)
    items = []
    raw = b''
    for i in range(count):
        s, ps, praw = accept_item(x, n, params)
        wraw, w = weight(x, True) if not params else \
            x.pick((b'', None), (b';q=0.5', 500))
        raw = raw + (b', ' if i else b'') + enc(s) + praw + wraw
        items.append((s, w, ps))
    x.request(headers=[('Accept', raw, items)])
    x.run('R07')


def h_accept_weights(ctx):
    """Only the weights are symbolic."""
    x = X(ctx)
    w1, v1 = weight(x)
    w2, v2 = weight(x)
    a, b = x.pick(('*/*', 'text/html'), ('text/*', 'text/html'),
                  ('text/html', 'TEXT/*'), ('*/*', '*/*'),
                  ('text/*', 'text/*'), ('text/*', 'texts/*'))
    x.request(headers=[('Accept', enc(a) + w1, [(a, v1)]),
                       ('Accept', enc(b) + w2, [(b, v2)])])
    x.run('R07')


def h_accept_other(ctx, name):
    x = X(ctx)
    items = []
    raw = b''
    for i in range(2):
        if x.flag():
            s = u'*'
        else:
            s = x.letters(3, True, True)
            if name == 'Accept-Language' and x.flag():
                s = s + '-' + x.letters(2)
            elif name == 'Accept-Encoding':
                s = x.pick(s, x.cased('x-gzip'),
                           'x-' + s)
            elif name == 'Accept-Charset' and x.flag():
                s = s + '*'         # (a token character, not a wildcard)
        wraw, w = weight(x, True)
        raw = raw + (b', ' if i else b'') + enc(s) + wraw
        items.append((s, w))
    x.request(headers=[(name, raw, items)])
    x.run('R07')


PREFS = (('return', 'minimal'), ('return', 'representation'),
         ('handling', 'strict'), ('handling', 'lenient'),
         ('respond-async', None), ('foo', None), ('foo', 'bar'))


def preference(x):
    n, v = x.pick(*PREFS)
    if x.flag():
        n = x.cased(n)
    raw = enc(n)
    if v is not None:
        raw = raw + (b'=' + enc(v) if x.flag() else b'="' + enc(v) + b'"')
    return n, v, raw


def h_prefer(ctx, first):
    x = X(ctx)
    n1, v1 = PREFS[first]
    raw1 = enc(n1) + (b'' if v1 is None else b'=' + enc(v1))
    n2, v2, raw2 = preference(x)
    sep = x.flag()
    hd = [('Prefer', raw1, [(n1, v1)]), ('Prefer', raw2, [(n2, v2)])]
    if sep:
        hd = [('Prefer', raw1 + b', ' + raw2, [(n1, v1), (n2, v2)])]
    x.request(x.pick('GET', 'POST', 'HEAD'), headers=hd)
    x.run('R07')


def h_prefer_method(ctx):
    x = X(ctx)
    n, v = x.pick(('return', 'minimal'), ('respond-async', None),
                  ('return', 'representation'))
    raw = enc(n) + (b'' if v is None else b'=' + enc(v))
    x.request(method(x, x.pick(None, 3, 4)),
              headers=[('Prefer', raw + x.pick(b'', b'; foo', b'; foo="bar"'),
                        [(n, v)])])
    x.run('R07')


def h_prefer_any(ctx):
    """Two preferences with arbitrary names and values."""
    x = X(ctx)
    ps = []
    raw = b''
    for i in range(2):
        n = x.letters(3, True, True)
        v = None
        raw = raw + (b', ' if i else b'') + enc(n)
        if x.flag():
            v = x.letters(1, True, True)
            raw = raw + b'=' + enc(v)
        ps.append((n, v))
    x.request(headers=[('Prefer', raw, ps)])
    a = ps[x.pick(0, 1)]
    n = x.pick(a[0], x.letters(3, True, True))
    v = x.pick(a[1], None, x.letters(1, True, True))
    x.response(200, headers=[
        ('Preference-Applied',
         enc(n) + (b'' if v is None else b'=' + enc(v)), [(n, v)])])
    x.run('R07')


def h_applied(ctx):
    x = X(ctx)
    hs = []
    if x.flag():
        n1, v1, raw1 = preference(x)
        hs = [('Prefer', raw1, [(n1, v1)])]
    x.request('POST', headers=hs)
    n2, v2 = x.pick(*PREFS)
    raw2 = enc(n2) + (b'' if v2 is None else b'=' + enc(v2))
    x.response(200, headers=[('Preference-Applied', raw2, [(n2, v2)])])
    x.run('R07')


def h_applied_vary(ctx):
    x = X(ctx)
    x.request(x.pick('GET', 'POST', 'HEAD'), headers=x.one(
        ('Prefer', b'foo', [('foo', None)]), bad('Prefer')))
    x.response(x.pick(200, 103, 404), headers=x.one(
        ('Preference-Applied', b'foo', [('foo', None)]),
        bad('Preference-Applied'))
        + x.one(star('Vary'), tokens('Vary', x.cased('prefer')),
                tokens('Vary', 'Host', 'prefer'), tokens('Vary', 'X'),
                bad('Vary')))
    x.run('R07')


def h_vary(ctx, n):
    x = X(ctx)
    x.request(x.pick('GET', 'POST'))
    w = x.letters(n, True, True)
    x.response(200, headers=[x.pick(
        tokens('Vary', w), tokens('Vary', 'X', w),
        star('Vary'))] + x.one(
            ('Preference-Applied', b'foo', [('foo', None)])))
    x.run('R07')


def h_patch(ctx):
    x = X(ctx)
    types = sorted(K.PATCH_MEDIA) + sorted(K.NOT_PATCH_MEDIA)
    t = x.pick(*types) if x.flag() else x.cased(x.pick('text/html',
                                                       'image/png'))
    if x.flag():
        x.request(x.pick('PATCH', 'POST', 'GET'), body=b'x', headers=[
            x.pick(ctype(t), ctype(t, ('a', 'b')))])
        x.response(x.pick(200, 204, 100, 404, 415, 400))
    else:
        x.request('GET')
        x.response(200, headers=[x.pick(
            ('Accept-Patch', enc(t), [t]),
            ('Accept-Patch', enc(t) + b';a=b', [t]),
            ('Accept-Patch', b'a/b, ' + enc(t), ['a/b', t]))])
    x.run('R07')


def h_patch_status(ctx):
    x = X(ctx)
    x.request(x.pick('PATCH', 'POST', x.letters(5)),
              body=b'x', headers=[x.pick(
        ctype('text/html'), ctype('application/merge-patch+json'),
        bad('Content-Type'))])
    x.response(ctx.int('status', 100, 999), headers=x.one(
        bad('Accept-Patch')))
    x.run('R07')


def h_allow(ctx, n):
    x = X(ctx)
    me = method(x, n)
    x.request(me)
    w = x.pick(me, x.letters(n or 3, True, True), 'PATCH', 'POST', None)
    x.response(x.pick(200, 405, 404, 204, 103),
               headers=x.one(*([bad('Allow')] if w is None else
                               [tokens('Allow', w),
                                tokens('Allow', 'FOO', w)])))
    x.run('R07')


def h_allow_status(ctx):
    x = X(ctx)
    me = x.pick('GET', 'OPTIONS', 'PATCH')
    x.request(me)
    x.response(ctx.int('status', 100, 999),
               headers=x.one(tokens('Allow', me), tokens('Allow', 'HEAD'),
                             tokens('Allow', 'HEAD', me, 'PATCH'),
                             bad('Allow')))
    x.run('R07')


def h_allow_accept(ctx):
    x = X(ctx)
    x.request(x.pick('OPTIONS', 'GET', 'PATCH'))
    x.response(x.pick(200, 204, 103, 404, 405), headers=x.some(
        x.pick(('Accept-Patch', b'a/b', ['a/b']), bad('Accept-Patch')),
        x.pick(('Accept-Post', b'a/b', ['a/b']), bad('Accept-Post'))) +
        x.one(bad('Allow'), tokens('Allow', 'PATCH'), tokens('Allow', 'POST'),
              tokens('Allow', 'GET', 'POST', 'PATCH'),
              tokens('Allow', x.letters(5, True, True)),
              tokens('Allow', x.letters(4, True, True)),
              tokens('Allow', 'PATCH', x.letters(4, True))))
    x.run('R07')


def h_406(ctx):
    x = X(ctx)
    hs = []
    for n, v in (('Accept', b'a/b'), ('Accept-Language', b'en'),
                 ('Accept-Charset', b'x'), ('Foo', b'')):
        if x.flag():
            hs.append((n, v, [(v.decode(), None)]))
    if x.flag():
        hs.append(bad(x.pick(*sorted(
            n for n in K.HEADERS if 'n' in K.HEADERS[n]))))
    if x.flag():
        hs.append(bad(x.pick('Accept-Languages', 'TE', 'Accept-Foo', 'Host',
                             'User-Agent', 'Accept-Language',
                             'accept-LANGUAGE')))
    x.request(headers=hs)
    x.response(x.pick(406, 200))
    x.run('R07')


def h_406_status(ctx):
    x = X(ctx)
    x.request(headers=x.one(('Accept-Language', b'en', [('en', None)])))
    x.response(ctx.int('status', 100, 999))
    x.run('R07')


def h_406_name(ctx, n):
    x = X(ctx)
    x.request(headers=[(x.letters(n, True, True, b'-'), b'\x01', BAD)])
    x.response(406)
    x.run('R07')


QDTEXT = bytes([9, 32, 33]) + bytes(range(35, 92)) + \
    bytes(range(93, 127)) + bytes(range(128, 256))


def h_filename(ctx, n):
    """Arbitrary file names, in a quoted string with escapes."""
    x = X(ctx)
    f = u''
    raw = b''
    for i in range(n):
        if x.flag():
            b = ctx.bytes(x.uid(), 1, b'"\\a%\x80\xe9')
            raw = raw + b'\\' + b
        else:
            b = ctx.bytes(x.uid(), 1, QDTEXT)
            raw = raw + b
        f = f + b.decode('iso-8859-1')
    x.request()
    x.response(200, headers=[
        ('Content-Disposition', b'attachment; filename="' + raw + b'"',
         ('attachment', [('filename', f)]))])
    x.run('R07')


def h_filename_hex(ctx):
    x = X(ctx)
    t = ctx.text(x.uid(), 3, FULL)
    pre = x.pick('', 'a', '%')
    x.request()
    x.response(200, headers=[
        ('Content-Disposition', b'inline;FileName=' + enc(pre) + enc(t),
         ('inline', [('filename', pre + t)]))])
    x.run('R07')


def h_params(ctx, count):
    """Repeated and misordered parameters."""
    x = X(ctx)
    ps = []
    raw = b''
    for i in range(count):
        n = x.pick('filename', 'filename*', 'foo', x.cased('filename'),
                   x.letters(3, True, True), x.letters(3) + '*')
        v = 'x%d' % i
        raw = raw + b'; ' + enc(n) + b'=' + (
            b"UTF-8''%s" % enc(v) if n[-1:] == '*' else enc(v))
        ps.append((n.lower(), v))
    x.request()
    x.response(x.pick(200, 404), headers=[
        ('Content-Disposition', b'attachment' + raw, ('attachment', ps))])
    x.run('R07')


def h_altsvc(ctx):
    x = X(ctx)
    ver = x.pick('HTTP/1.1', 'HTTP/2', None, 'HTTP/1.0')
    x.request(version=ver)
    x.response(ctx.int('status', 100, 999), version=ver, headers=x.one(
        ('Alt-Svc', b'h2=":443"', [()]), bad('Alt-Svc'), star('Alt-Svc')))
    x.run('R07')


def tasks(tier):
    t = []

    def add(h, name=None, expect=(), **kw):
        t.append(Task(h.__name__, kw, name=name or h.__name__[2:], max_paths=20000,
                      expect=[str(e) for e in expect]))
    deep = tier == 'thorough'
    add(h_accept, 'accept', [1276], n=2, count=2, params=False)
    add(h_accept, 'accept params', [1276], n=1, count=2, params=True)
    if deep:
        add(h_accept, 'accept 3', [1276], n=1, count=3, params=False)
    add(h_accept_weights, expect=[1276])
    for n in ('Accept-Charset', 'Accept-Encoding', 'Accept-Language'):
        t.append(Task('h_accept_other', dict(name=n), name=n, max_paths=20000,
                      expect=['1276']))
    for i in range(len(PREFS)):
        add(h_prefer, 'prefer %d' % i, [1285], first=i)
    add(h_prefer_method, expect=[1287, 1288])
    add(h_prefer_any, expect=[1285, 1286])
    add(h_applied, expect=[1286])
    add(h_applied_vary, expect=[1286, 1291])
    for n in (3, 4, 6):
        add(h_vary, 'vary %d' % n, [1235] if n == 4 else [], n=n)
    add(h_patch, expect=[1213, 1214, 1227])
    add(h_patch_status, expect=[1213, 1214, 1215])
    for n in (None, 3, 4, 5):
        add(h_allow, 'allow %s' % n, [1114, 1115], n=n)
    add(h_allow_status, expect=[1114, 1115, 1216])
    add(h_allow_accept, expect=[1216, 1217, 1310])
    add(h_406, expect=[1090, 1117])
    add(h_406_status, expect=[1090, 1117])
    for n in (6, 14, 15):
        add(h_406_name, '406 name %d' % n, n=n)
    for n in range(6 if deep else 3):
        add(h_filename, 'filename %d' % (n + 1), [1249, 1250], n=n + 1)
    add(h_filename_hex, expect=[1248])
    for n in range(3 if deep else 2):
        add(h_params, 'params %d' % (n + 1), [1251], count=n + 1)
    add(h_altsvc, expect=[1258, 1260])
    return t
