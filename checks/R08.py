"""R08: Location, Content-Location and the effective request URI."""
from checks.rules_common import (X, ASSUMPTIONS, FUNCTIONS, bad, enc, plain)
from ref.rules import BAD
from sx.ctx import Task

__all__ = ['ASSUMPTIONS']
FUNCTIONS = FUNCTIONS + [
    'httpolice.util.uri', 'httpolice.request.Request.effective_uri',
    'httpolice.request.Request.target_form']
BOUNDS = {
    'quick': 'references of up to 6 characters over an alphabet with every '
             'delimiter of RFC 3986, absolute ones with up to 4 symbolic '
             'characters of path, query and fragment, seven bases; request '
             'targets of up to 5 symbolic characters; statuses 100 to 999',
    'thorough': 'references of up to 7 characters',
}
OUTSIDE = 'longer references; hosts other than registered names'

# targets and their effective URIs (Host: a.b)
BASES = (
    dict(target='/', form='origin'),
    dict(target='/p/q?r', form='origin'),
    dict(target='/p/./q/', form='origin'),
    dict(target='/p?', form='origin'),
    dict(target='http://a.b', form='absolute'),
    dict(target='HTTP://a.b/p', form='absolute'),
    dict(target='*', form='asterisk'),
)
ALPHABET = b'/.?#pqr:a'


def ask(x, i, **kw):
    k = dict(BASES[i])
    k['headers'] = [plain('Host', 'a.b')]
    if k['form'] == 'asterisk':
        k['method'] = 'OPTIONS'
    k.update(kw)
    x.request(**k)


def valid(ctx, ref):
    """Keep to references that the grammar allows: a colon only after a
    scheme or within a path, no more than one #."""
    from ref.uri import split
    s, a, p, q, f = split(ref)
    if s is not None:
        ctx.assume(s[0] in 'pqra' and all(c in 'pqra.' for c in s))
        # (an http URI has an authority)
    elif a is None:
        head = p
        i = p.find('/')
        if i >= 0:
            head = p[:i]
        ctx.assume(':' not in head)
    if a is not None:
        ctx.assume(port_ok(a))
        ctx.assume(p == '' or p[0] == '/')
    if f is not None:
        ctx.assume('#' not in f)


def port_ok(a):
    i = a.find(':')
    return i < 0 or i == len(a) - 1


def h_location(ctx, n, base, method='GET'):
    x = X(ctx)
    ask(x, base, **({} if base == 6 else dict(method=method)))
    ref = ctx.text('ref', n, ALPHABET)
    valid(ctx, ref)
    x.response(307, headers=[plain('Location', ref)])
    x.run('R08')


def h_content_location(ctx, n, base):
    x = X(ctx)
    ask(x, base, **({} if base == 6 else
                    dict(method=x.pick('GET', 'DELETE'))))
    ref = ctx.text('ref', n, b'/.?pq')
    valid(ctx, ref)
    x.response(200, headers=[plain('Content-Location', ref)])
    x.run('R08')


def h_absolute(ctx, base, n):
    """Absolute references that may be the base again."""
    x = X(ctx)
    ask(x, base)
    pre = x.pick('http://a.b', x.cased('http') + '://a.b', 'http://a.c',
                 'https://a.b', '//a.b', 'http:', 'http://a.b:80')
    rest = ctx.text('rest', n, b'/.?#pq')
    ref = pre + rest
    valid_rest(ctx, pre, rest)
    x.response(307, headers=[plain('Location', ref)])
    x.run('R08')


def valid_rest(ctx, pre, rest):
    if len(rest) and pre[-1:] != ':':
        ctx.assume(rest[0] in '/?#')
    elif len(rest):
        ctx.assume(rest[:2] != '//' and rest[0] not in '?#' or True)
    i = rest.find('#')
    if i >= 0:
        ctx.assume(rest[i + 1:].find('#') < 0)


def h_self(ctx, n):
    """Symbolic target, sent back as it is or with a suffix."""
    x = X(ctx)
    t = '/' + ctx.text('target', n, b'ab/.?')
    x.request(x.pick('GET', 'POST'), target=t,
              headers=[plain('Host', 'a.b')])
    ref = x.pick(t, 'http://a.b' + t, t + 'a', t + '#', t + '#a')
    if ref[:2] == '//':
        from ref.uri import split
        ctx.assume(split(ref)[1] != '')
    if x.flag():
        x.response(x.pick(301, 307), headers=[plain('Location', ref)])
    else:
        ctx.assume('#' not in ref)
        x.response(200, headers=[plain('Content-Location', ref)])
    x.run('R08')


def h_status(ctx):
    """Which statuses and methods matter."""
    x = X(ctx)
    m = x.pick('GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'PATCH',
               'FOO', 'get')
    x.request(m, headers=[plain('Host', 'a.b')])
    x.response(ctx.int('status', 100, 999), headers=[x.pick(
        plain('Location', '/'), plain('Content-Location', '/'),
        bad('Location'), bad('Content-Location'))])
    x.run('R08')


def h_forms(ctx):
    """Effective URIs of all target forms and schemes."""
    x = X(ctx)
    kw, m = x.pick(
        (dict(target='/', form='origin'), None),
        (dict(target='*', form='asterisk'), 'OPTIONS'),
        (dict(target='a.b:1', form='authority'), 'CONNECT'),
        (dict(target='http://c.d/', form='absolute'), None),
        (dict(target='*', form=None), 'GET'),
        (dict(target='a.b:1', form='absolute'), 'GET'))
    m = m or x.pick('GET', 'DELETE')
    x.request(m, scheme=x.pick('http', 'https', None),
              headers=x.one(plain('Host', 'a.b'), bad('Host')), **kw)
    x.response(x.pick(307, 200), headers=[plain(
        x.pick('Location', 'Content-Location'),
        x.pick('/', '', 'http://a.b', 'https://a.b/', 'http://a.b:1',
               'https://a.b:1', '//c.d/', '*'))])
    x.run('R08')


def h_host(ctx, n):
    x = X(ctx)
    host = x.letters(n, False, True, b'.-1')
    x.request(headers=[plain('Host', host)])
    x.response(302, headers=[plain('Location', 'http://' + x.pick(
        host, x.letters(n, False, True)) + x.pick('', '/', '/#'))])
    x.run('R08')


def h_created(ctx, n):
    x = X(ctx)
    x.request('POST')
    ref = ctx.text('ref', n, b'/#ab?.')
    ctx.assume(ref[:2] != '//')
    i = ref.find('#')
    if i >= 0:
        ctx.assume('#' not in ref[i + 1:])
    x.response(x.pick(201, 200), headers=[plain('Location', ref)])
    x.run('R08')


def tasks(tier):
    t = []

    def add(h, name=None, expect=(), **kw):
        t.append(Task(h.__name__, kw, name=name or h.__name__[2:],
                      max_paths=20000, expect=[str(e) for e in expect]))
    deep = tier == 'thorough'
    for b in range(len(BASES)):
        for n in range(8 if deep else (6 if b < 2 else 5)):
            add(h_location, 'location %d base %d' % (n, b), n=n, base=b)
        for n in range(5 if deep else 4):
            add(h_content_location, 'content-location %d base %d' % (n, b),
                n=n, base=b)
        for n in range(5 if deep else 4):
            add(h_absolute, 'absolute %d base %d' % (n, b), base=b, n=n)
    for n in range(5 if deep else 4):
        add(h_self, 'self %d' % n, n=n)
    add(h_status, expect=[1055, 1060, 1085])
    add(h_forms, expect=[1055, 1060, 1085])
    add(h_host, expect=[1085], n=2)
    for n in range(5):
        add(h_created, 'created %d' % n, [1111] if n > 1 else [], n=n)
    return t
