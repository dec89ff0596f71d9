"""I05: CGI variables and pseudo-headers."""

from httpolice import Request
from httpolice.helpers import headers_from_cgi, pop_pseudo_headers
from httpolice.structure import FieldName
from sx.ctx import Task

FUNCTIONS = ['httpolice.helpers.headers_from_cgi',
             'httpolice.helpers.pop_pseudo_headers',
             'httpolice.helpers._header_name_from_cgi',
             'httpolice.helpers._header_value_from_cgi',
             'httpolice.util.text.force_bytes']
BOUNDS = {
    'quick': 'environments of up to 3 variables out of HTTP_HOST, '
             'CONTENT_LENGTH, CONTENT_TYPE and 2 with symbolic names (HTTP_ '
             'and 1-4 ASCII characters, or any 0-6 ASCII characters); values: '
             '0-2 arbitrary characters or bytes, numbers, None; header lists '
             'of up to 4 entries with names of 0-2 arbitrary characters',
    'thorough': 'one more character and one more entry',
}
OUTSIDE = ('names with non-ASCII characters; letter case of the names that '
           'headers_from_cgi returns; text values beyond U+00FF')


def as_bytes(x):
    if isinstance(x, bytes):
        return x
    if isinstance(x, str):
        return x.encode('iso-8859-1')
    return str(x).encode('iso-8859-1')


def any_value(ctx, name, n):
    k = ctx.choice(name + ' kind', ('text', 'bytes', 'number', 'none'))
    if k == 'text':
        return ctx.text(name, ctx.choice(name + ' size', range(n + 1)))
    if k == 'bytes':
        return ctx.bytes(name, ctx.choice(name + ' size', range(n + 1)))
    if k == 'number':
        return ctx.choice(name + ' number', (0, 17, 10 ** 20))
    return None


def rule(name):
    """The name of the header for a HTTP_* variable, ignoring case"""
    return (u'' + name)[5:].replace(u'_', u'-').lower()


def h_cgi(ctx, fixed, sizes, prefixed, n):
    """headers_from_cgi"""
    env, names = {}, []
    for f in fixed:
        if f == 'HTTP_HOST':
            env[f] = any_value(ctx, f, n)
        else:
            env[f] = ctx.choice(f, (u'', b'', u'5', b'text/plain', 0, 12,
                                    None))
        names.append(f)
    for i, size in enumerate(sizes):
        s = ctx.text('s%d' % i, size, range(1, 128))
        name = (u'HTTP_' if prefixed else u'') + s
        for other in names:
            ctx.assume(name != other)
        if not prefixed:
            ctx.assume((name != u'CONTENT_TYPE') & (name != u'HTTP_HOST'))
        env[name] = any_value(ctx, 'v%d' % i, n) if i == 0 else u'x'
        names.append(name)
    if ctx.flag('reverse'):
        env = dict(reversed(list(env.items())))
    before = list(env.items())
    got = headers_from_cgi(env)
    want = []
    for name, value in env.items():
        if name.startswith(u'HTTP_'):
            want.append((rule(name), as_bytes(value)))
        elif name in (u'CONTENT_TYPE', u'CONTENT_LENGTH') and value:
            want.append((name.replace(u'_', u'-').lower(), as_bytes(value)))
    ctx.check(len(got) == len(want), 'number of headers', got, env)
    low = [(k.lower(), v) for k, v in got]
    for x in want:
        ctx.check(low.count(x) == want.count(x), 'header', x, got)
    if env.get('HTTP_HOST'):
        ctx.check(low[0][0] == u'host', 'Host comes first', got)
    ctx.check(list(env.items()) == before, 'environment not changed')
    msg = Request(u'http', u'GET', u'/', u'HTTP/1.1', got, b'')
    ctx.check([(e.name, e.value) for e in msg.header_entries] == got,
              'usable in requests', got)
    ctx.cover('done')


def h_pop(ctx, n, size):
    entries = []
    for i in range(n):
        name = ctx.text('n%d' % i, ctx.choice(
            'size%d' % i, range(size + 1) if n < 3 else (1, size)))
        if n < 3 and ctx.flag('name%d' % i):
            name = FieldName(name)
        entries.append((name, b'v%d' % i))
    original = list(entries)
    r = pop_pseudo_headers(entries)
    kept = [e for e in original if not e[0].startswith(u':')]
    popped = [e for e in original if e[0].startswith(u':')]
    ctx.check(len(entries) == len(kept), 'number kept', original, entries)
    for a, b in zip(entries, kept):
        ctx.check((a[0] == b[0]) & (a[1] == b[1]), 'kept', original, entries)
    for name, value in popped:
        ctx.check(name in r, 'popped', original, r)
        found = r[name]
        ctx.check(any(v == found and k == name for k, v in popped),
                  'value of the popped', original, r)
    for name in r:
        ctx.check(any(k == name for k, _ in popped), 'only those', original, r)
    ctx.cover('done')


FIXED = ('HTTP_HOST', 'CONTENT_LENGTH', 'CONTENT_TYPE')


def tasks(tier):
    m = 1 if tier == 'thorough' else 0
    out = []
    for i in range(8):
        fixed = tuple(f for k, f in enumerate(FIXED) if i >> k & 1)
        out.append(Task('h_cgi', dict(fixed=fixed, sizes=(), prefixed=True,
                                      n=2 + m),
                        name='h_cgi(%s)' % (fixed,), expect=('done',)))
        if len(fixed) < 2:
            for size in range(1, 4 + m):
                out.append(Task('h_cgi', dict(fixed=fixed, sizes=(size,),
                                              prefixed=True, n=1),
                                name='h_cgi(%s, %d)' % (fixed, size),
                                max_paths=50000, expect=('done',)))
    out.append(Task('h_cgi', dict(fixed=(), sizes=(0, 1), prefixed=True, n=1),
                    expect=('done',)))
    out.append(Task('h_cgi', dict(fixed=(), sizes=(1, 1), prefixed=True, n=1),
                    expect=('done',)))
    out.append(Task('h_cgi', dict(fixed=(), sizes=(2, 1), prefixed=True, n=0),
                    expect=('done',)))
    for size in range(0, 7 + m):
        out.append(Task('h_cgi', dict(fixed=(), sizes=(size,), prefixed=False,
                                      n=0), expect=('done',)))
    for n in range(5 + m):
        out.append(Task('h_pop', dict(n=n, size=2), max_paths=50000,
                        expect=('done',)))
    return out
