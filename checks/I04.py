"""I04: combined files."""

from httpolice.inputs import InputError, formats
from httpolice.inputs.streams import parse_combined
from checks.fs_common import Directory
from sx.ctx import Task

FUNCTIONS = ['httpolice.inputs.streams.parse_combined',
             'httpolice.inputs.streams.combined_input',
             'httpolice.stream.Stream']
BOUNDS = {
    'quick': 'files with 0-3 arbitrary bytes in each of: preamble, inbound '
             'part, outbound part; each marker complete, repeated, missing, '
             'in the wrong order, or with one byte replaced with any byte or '
             'removed; file names with one arbitrary character in the '
             'extension',
    'thorough': '0-4 arbitrary bytes',
}
OUTSIDE = 'longer symbolic parts'

INBOUND = b'======== BEGIN INBOUND STREAM ========\r\n'
OUTBOUND = b'======== BEGIN OUTBOUND STREAM ========\r\n'


def split(data):
    """The three parts, or None"""
    i = data.find(INBOUND)
    if i < 0:
        return None
    j = data.find(OUTBOUND, i + len(INBOUND))
    if j < 0:
        return None
    return data[:i], data[i + len(INBOUND):j], data[j + len(OUTBOUND):]


def is_utf8(data):
    try:
        data.decode('utf-8')
    except UnicodeError:
        return False
    return True


def verify(ctx, data, name=u'x'):
    want = split(data)
    d = Directory(ctx)
    d.add(name, data)
    with d:
        try:
            inbound, outbound, scheme, preamble = parse_combined(d.path(name))
        except InputError:
            ctx.check(want is None or not is_utf8(want[0]), 'rejected', data)
            ctx.cover('rejected')
            return
        ctx.check(want is not None, 'accepted', data)
        ctx.check(preamble.encode('utf-8') == want[0], 'preamble', preamble,
                  data)
        got = inbound.file.read()
        ctx.check(got == want[1], 'inbound', got, data)
        got = outbound.file.read()
        ctx.check(got == want[2], 'outbound', got, data)
        ctx.check(scheme == u'http', 'scheme', scheme)
    ctx.cover('split')


def h_parts(ctx, sizes):
    a, b, c = [ctx.bytes('part%d' % i, n) for i, n in enumerate(sizes)]
    data = a + ctx.choice('before', (b'', INBOUND, OUTBOUND)) + INBOUND + b + \
        ctx.choice('between', (b'', INBOUND, OUTBOUND)) + OUTBOUND + c + \
        ctx.choice('after', (b'', INBOUND, OUTBOUND))
    verify(ctx, data)


def h_shape(ctx, n):
    """Any sequence of markers and text"""
    data = ctx.bytes('x', 1)
    for i in range(n):
        data = data + ctx.choice('m%d' % i, (
            b'', b'abc\r\n', INBOUND, OUTBOUND, INBOUND[:-1], OUTBOUND[:-2],
            OUTBOUND[1:]))
    verify(ctx, data)


def h_damaged(ctx, which):
    """One byte of a marker is different"""
    markers = [INBOUND, OUTBOUND]
    m = markers[which]
    i = ctx.choice('at', range(len(m)))
    c = ctx.bytes('c', 1) if ctx.flag('replace') else b''
    markers[which] = m[:i] + c + m[i + 1:]
    verify(ctx, b'a\n' + markers[0] + b'b' + markers[1] + b'c')


def h_scheme(ctx):
    """The scheme depends on the extension."""
    base = ctx.choice('base', (u'a.https', u'b.noscheme', u'c.dat', u'https',
                               u'd.https.x', u'e.HTTPS'))
    i = ctx.choice('at', range(len(base)))
    c = ctx.text('c', 1)
    ctx.assume((c != u'/') & (c != u'\0') & (c < u'\x80'))
    name = base[:i] + c + base[i + 1:]
    if name.endswith(u'.https'):
        want = u'https'
    elif name.endswith(u'.noscheme'):
        want = None
    else:
        want = u'http'
    req = b'GET / HTTP/1.1\r\nHost: a\r\n\r\n'
    resp = b'HTTP/1.1 204 No Content\r\n\r\n'
    ctx.assume(name != u'.')
    d = Directory(ctx)
    d.add(name, INBOUND + req + OUTBOUND + resp)
    with d:
        exchanges = list(formats[u'combined']([d.path(name)]))
    ctx.check(len(exchanges) == 1, 'one exchange')
    exch = exchanges[0]
    ctx.check(exch.request.scheme == want, 'scheme', name, exch.request.scheme)
    ctx.check(exch.request.target == u'/' and
              [int(r.status) for r in exch.responses] == [204], 'exchange')
    ctx.cover('read')


def tasks(tier):
    n = 4 if tier == 'thorough' else 3
    out = []
    for i in range(n + 1):
        for sizes in ((i, 0, 0), (0, i, 0), (0, 0, i), (1, i, 1)):
            if i or sizes == (0, 0, 0):
                out.append(Task('h_parts', dict(sizes=sizes),
                                expect=('split',)))
    out.append(Task('h_shape', dict(n=3 if tier == 'quick' else 4),
                    max_paths=50000, expect=('split', 'rejected')))
    for which in (0, 1):
        out.append(Task('h_damaged', dict(which=which),
                        expect=('split', 'rejected')))
    out.append(Task('h_scheme', dict(), expect=('read',)))
    return out
