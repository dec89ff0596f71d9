"""R05: authentication and transport security."""
from checks.rules_common import (X, ASSUMPTIONS, FUNCTIONS, NOW, bad, cc,
                                 ctype, enc, plain, tokens)
from ref.rules import BAD
from sx.ctx import Task

__all__ = ['ASSUMPTIONS', 'FUNCTIONS']
BOUNDS = {
    'quick': 'token68 credentials of up to 5 characters (symbolic), scheme '
             'names in any case and of 5 or 6 arbitrary letters, up to three '
             'challenge parameters with symbolic names or values, statuses '
             '100 to 999, form bodies and queries with symbolic names',
    'thorough': 'credentials of up to 8 characters',
}
OUTSIDE = 'credentials longer than that'

T68 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~+/'
OK64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def h_status(ctx):
    x = X(ctx)
    s = ctx.int('status', 100, 999)
    x.request(scheme=x.pick('http', 'https', None))
    x.response(s, headers=x.one(
        ('WWW-Authenticate', b'Basic realm="x"',
         [('Basic', 'params', [('realm', 'x')])]),
        ('Proxy-Authenticate', b'Basic realm="x"',
         [('Basic', 'params', [('realm', 'x')])]),
        bad('WWW-Authenticate'), bad('Proxy-Authenticate'),
        ('Strict-Transport-Security', b'max-age=1', [('max-age', 1)]),
        bad('Strict-Transport-Security')))
    x.run('R05')


def h_basic(ctx, n, alphabet, pad):
    """Basic credentials: base64, the colon, control characters."""
    x = X(ctx)
    cred = ctx.text('cred', n, alphabet) + '=' * pad
    name = x.pick('Authorization', 'Proxy-Authorization')
    x.request(headers=[(name, b'Basic ' + enc(cred),
                        ('Basic', 'token68', cred))])
    x.run('R05')


def h_scheme(ctx):
    """Which schemes are which."""
    x = X(ctx)
    sch = x.pick(x.cased('basic'), x.cased('bearer'), x.letters(5, True, True),
                 x.letters(6, True, True, b'-'), 'Digest')
    form = x.pick(('none', None, b''), ('token68', 'QTpi', b' QTpi'),
                  ('params', [('a', 'b')], b' a=b'),
                  ('params', [('a', 'b'), ('c', '')], b' a="b", c=""'))
    hd = [(x.pick('Authorization', 'Proxy-Authorization'),
           enc(sch) + form[2], (sch, form[0], form[1]))]
    x.request(scheme=x.pick('http', 'https', None), headers=hd)
    x.run('R05')


def h_bad_credentials(ctx):
    x = X(ctx)
    x.request(scheme=x.pick('http', 'https'),
              headers=[bad(x.pick('Authorization', 'Proxy-Authorization'))])
    x.response(401, headers=x.one(
        ('WWW-Authenticate', b'Bearer realm="a"',
         [('Bearer', 'params', [('realm', 'a')])]),
        ('WWW-Authenticate', b'Bearer error="invalid_token"',
         [('Bearer', 'params', [('error', 'invalid_token')])])))
    x.run('R05')


def h_challenge(ctx, scheme):
    """Parameters of one challenge."""
    x = X(ctx)
    sch = x.cased(scheme) if x.flag() else scheme
    ps = []
    for i in range(2):
        n = x.pick(None, 'realm', 'charset', 'error', 'scope', 'foo',
                   x.cased('realm'))
        if n is not None:
            ps.append((n, x.pick('UTF-8', 'x')))
    form = x.pick('params', 'token68') if not ps else 'params'
    if form == 'token68':
        raw, val = enc(sch) + b' abc', (sch, 'token68', 'abc')
    elif not ps:
        raw, val = enc(sch), (sch, 'none', None)
    else:
        raw = enc(sch) + b' ' + b', '.join(
            enc(n) + b'="' + enc(v) + b'"' for n, v in ps)
        val = (sch, 'params', [(n.lower(), v) for n, v in ps])
    x.request(headers=x.one(('Authorization', b'Bearer abc',
                             ('Bearer', 'token68', 'abc'))))
    x.response(401, headers=[(x.pick('WWW-Authenticate',
                                     'Proxy-Authenticate'), raw, [val])])
    x.run('R05')


def h_charset(ctx):
    x = X(ctx)
    v = x.pick(x.cased('utf-8'), ctx.text('charset', 5, b'UuTtFf-_8x'))
    v2 = x.pick(None, 'utf-8', 'x')
    ps = [('realm', 'a'), ('charset', v)] + (
        [('charset', v2)] if v2 is not None else [])
    raw = b'Basic ' + b', '.join(enc(n) + b'="' + enc(w) + b'"'
                                 for n, w in ps)
    x.request()
    x.response(407, headers=[('Proxy-Authenticate', raw,
                              [('Basic', 'params', ps)])])
    x.run('R05')


def h_bearer_value(ctx, param, n, alphabet):
    """Syntax of the Bearer parameters."""
    x = X(ctx)
    v = ctx.text('value', n, alphabet)
    raw = b''
    for c in enc(v):
        if c == 0x22 or c == 0x5c:
            raw = raw + b'\\'
        raw = raw + bytes([c])
    x.request(scheme='https')
    x.response(400, headers=[(
        'WWW-Authenticate', b'Bearer ' + enc(param) + b'="' + raw + b'"',
        [('Bearer', 'params', [(param, v)])])])
    x.run('R05')


def h_bearer_error(ctx):
    """Error codes against statuses, tokens against errors."""
    x = X(ctx)
    s = ctx.int('status', 399, 404)
    e = x.pick(None, 'invalid_request', 'invalid_token', 'insufficient_scope',
               'invalid_tokens', 'INVALID_TOKEN')
    extra = x.pick(None, ('error_description', 'a b'),
                   ('error_uri', '/x'), ('realm', 'r'))
    ps = ([('error', e)] if e is not None else []) + \
        ([extra] if extra is not None else [])
    raw = b'Bearer' + (b' ' if ps else b'') + b', '.join(
        enc(n) + b'="' + enc(v) + b'"' for n, v in ps)
    how = x.pick('none', 'header', 'HEADER', 'other', 'query', 'form', 'bad')
    kw = {}
    hs = []
    if how == 'header':
        hs = [('Authorization', b'Bearer abc', ('Bearer', 'token68', 'abc'))]
    elif how == 'HEADER':
        sch = x.cased('bearer')
        hs = [('Authorization', enc(sch) + b' a=b',
               (sch, 'params', [('a', 'b')]))]
    elif how == 'other':
        hs = [('Authorization', b'Foo abc', ('Foo', 'token68', 'abc'))]
    elif how == 'bad':
        hs = [bad('Authorization')]
    elif how == 'query':
        kw = dict(target='/?access_token=a', query=('access_token',))
        hs = [plain('Host', 'a'), cc('no-store')]
    elif how == 'form':
        kw = dict(body=b'a=b&access_token=x', fields=('a', 'access_token'),
                  method='POST')
        hs = [ctype('application/x-www-form-urlencoded')]
    x.request(scheme=x.pick('http', 'https'), headers=hs, **kw)
    x.response(s, headers=[('WWW-Authenticate', raw, [
        ('Bearer', 'params' if ps else 'none', ps or None)])])
    x.run('R05')


def h_bearer_alone(ctx):
    x = X(ctx)
    dup = x.pick('realm', 'scope', 'error', 'error_description', 'error_uri',
                 'foo')
    x.response(x.pick(401, 403), headers=[(
        'WWW-Authenticate', b'Basic realm=a, Bearer ' + enc(dup) +
        b'="x", error="b", ' + enc(dup.upper()) + b'="y", Foo',
        [('Basic', 'params', [('realm', 'a')]),
         ('Bearer', 'params', [(dup, 'x'), ('error', 'b'), (dup, 'y')]),
         ('Foo', 'none', None)])])
    x.run('R05')


def h_token_in_query(ctx):
    """access_token in the request URI."""
    x = X(ctx)
    name = x.pick('access_token', 'access%5ftoken', 'xaccess_token',
                  ctx.text('name', 12, b'aces_toknACESTOKN-'))
    names = ('a', 'access_token' if name == 'access%5ftoken' else name)
    host = x.pick(plain('Host', 'a.b'), bad('Host'), None)
    form = x.pick('origin', 'absolute')
    q = '/?a=b&' + name + '=abc'
    ok = form == 'absolute' or (host is not None and host[2] is not BAD)
    x.request(scheme=x.pick('http', 'https', None),
              target=q if form == 'origin' else 'http://a.b' + q, form=form,
              query=(), headers=([host] if host else []) + x.one(
                  cc('no-store'), cc('no-cache'), bad('Cache-Control')))
    x.rq.query = names if ok and (x.rq.scheme or form == 'absolute') else ()
    x.run('R05')


def h_token_in_form(ctx):
    x = X(ctx)
    name = x.pick('access_token', 'access%5Ftoken',
                  ctx.text('name', 12, b'aces_toknAC*-'))
    real = 'access_token' if name == 'access%5Ftoken' else name
    media = x.pick('application/x-www-form-urlencoded',
                   'application/X-WWW-Form-urlencoded', 'text/plain')
    ok = media != 'text/plain'
    x.request('POST', scheme=x.pick('http', 'https', None),
              headers=[ctype(media)], body=b'x=1&' + enc(name) + b'=2',
              fields=('x', real) if ok else None)
    x.response(401, headers=[('WWW-Authenticate',
                              b'Bearer error="invalid_token"',
                              [('Bearer', 'params', [
                                  ('error', 'invalid_token')])])])
    x.run('R05')


def h_hsts(ctx):
    x = X(ctx)
    n = x.pick(1, 3)
    raw, v = x.digits(n)
    d1 = (x.cased('max-age').encode('latin-1') + b'=' + raw,
          ('max-age', v))
    isd = x.cased('includesubdomains')
    d2 = (enc(isd), (isd, None))
    u = x.letters(3, True, True)
    ds = [d1] + x.pick([d2], [], [d2, d2], [d1], [(enc(u), (u, None))] * 2,
                       [(b'max-age=0', ('max-age', 0)), d2])
    if x.flag():
        ds = ds[1:] + ds[:1]
    if x.flag():
        ds = [d for d in ds if d is not d1] or [d2]
    x.request(scheme=x.pick('http', 'https', None))
    x.response(200, headers=[('Strict-Transport-Security', b'; '.join(
        r for r, v in ds), [v for r, v in ds])])
    x.run('R05')


def h_hsts_bad_age(ctx):
    x = X(ctx)
    arg = x.pick((b'=x', BAD), (b'', None), (b'="0"', 0), (b'="1"', 1),
                 (b'=00', 0))
    x.request(scheme='https')
    x.response(200, headers=[(
        'Strict-Transport-Security', b'max-age' + arg[0] +
        b';includeSubDomains', [('max-age', arg[1]),
                                ('includeSubDomains', None)])])
    x.run('R05')


def h_unrelated(ctx):
    """Names close to the relevant headers mean nothing."""
    x = X(ctx)
    n = x.pick('X-Authorization', 'Authorizatio', 'WWW-Authenticat',
               'Proxy-Authenticat', 'Authentication-Info')
    s = ctx.int('status', 400, 408)
    x.request(headers=[(n, b'Basic x', None)])
    x.response(s, headers=[(n, b'Basic', None)])
    x.run('R05')


def tasks(tier):
    deep = tier == 'thorough'
    ts = [Task('h_status', expect=['1194', '1195', '1221'])]
    for n, pad in ((1, 0), (1, 3), (2, 0), (2, 1), (2, 2), (3, 0), (3, 1),
                   (4, 0), (5, 2)) + (
                       ((6, 2), (7, 1)) if deep else ()):
        ts.append(Task('h_basic', dict(n=n, alphabet=OK64, pad=pad),
                       max_paths=20000))
    ts.append(Task('h_basic', dict(n=3, alphabet=T68, pad=1),
                   expect=['1210', '1211', '1212']))
    ts += [
        Task('h_scheme', expect=['1209', '1261', '1262', '1274']),
        Task('h_bad_credentials', expect=['1263']),
        Task('h_challenge', dict(scheme='basic'),
             expect=['1206', '1207', '1208', '1273']),
        Task('h_challenge', dict(scheme='bearer'),
             expect=['1263', '1264', '1265', '1267', '1269']),
        Task('h_charset', expect=['1208']),
    ]
    PR = bytes(range(32, 127))
    for p, n in (('error', 2), ('error_description', 2), ('scope', 3)):
        ts.append(Task('h_bearer_value', dict(
            param=p, n=n, alphabet=PR + b'\t\x80\xff'), expect=['1266']))
        ts.append(Task('h_bearer_value', dict(param=p, n=0, alphabet=PR)))
    ts.append(Task('h_bearer_value', dict(
        param='error_uri', n=3, alphabet=b':/?#%[]@!aA0" \\'),
        expect=['1266']))
    ts += [
        Task('h_bearer_error', expect=['1263', '1264', '1267', '1268',
                                       '1269', '1270', '1271']),
        Task('h_bearer_alone', expect=['1265']),
        Task('h_token_in_query', expect=['1270', '1271', '1272']),
        Task('h_token_in_form', expect=['1271', '1269']),
        Task('h_hsts', expect=['1218', '1219', '1220', '1221']),
        Task('h_hsts_bad_age', expect=['1219']),
        Task('h_unrelated', expect=['1194', '1195']),
    ]
    return ts
