"""V04: fields in the trailer part."""

from httpolice import Exchange, Request, Response, check_exchange
from httpolice.framing1 import parse_streams
from httpolice.stream import Stream
from httpolice.structure import FieldName
from checks.V01 import FOLD, same_text
from checks.values_common import deep
from ref.registry import HEADERS, OTHER_HEADERS
from sx.files import ByteFile
from sx.ctx import Task

FUNCTIONS = ['httpolice.header.HeadersView', 'httpolice.header.HeaderView',
             'httpolice.message.check_message', 'httpolice.message.Message',
             'httpolice.known.HeaderKnowledge.is_bad_for_trailer',
             'httpolice.framing1.parse_streams', 'httpolice.structure.FieldName']
BOUNDS = {
    'quick': 'every registered field name (ref/registry.py) in both letter '
             'cases and unknown names of 1-3 arbitrary letters, in the header '
             'part, the trailer part or both (two trailer entries), announced '
             'in Trailer (any letter case) or not; parsed messages with '
             'chunked bodies of 1 trailer line',
    'thorough': 'every letter case of every registered name',
}
OUTSIDE = 'more than two trailer entries of the same name; notices that ' \
          'merely list field names by their registered role (1063, 1064...) ' \
          'do look at trailers'
ASSUMPTIONS = ['ref/registry.py lists the fields RFC 7230 section 4.1.2 '
               'forbids in trailers, as the program interprets it']

LETTERS = b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'

# a valid value for each field that has a grammar, and another one
VALUES = {
    'accept': ('a/b', 'c/d'), 'age': ('1', '2'), 'allow': ('A', 'B'),
    'content-length': ('1', '2'), 'content-type': ('a/b', 'c/d'),
    'host': ('a', 'b'), 'etag': ('"a"', '"b"'), 'vary': ('a', 'b'),
    'location': ('/a', '/b'), 'cache-control': ('a', 'b'),
    'connection': ('a', 'b'), 'if-match': ('"a"', '"b"'),
    'if-none-match': ('"a"', '"b"'), 'max-forwards': ('1', '2'),
    'content-encoding': ('a', 'b'), 'content-language': ('en', 'de'),
    'retry-after': ('1', '2'), 'pragma': ('a', 'b'), 'prefer': ('a', 'b'),
    'expect': ('100-continue', '100-Continue'), 'referer': ('/a', '/b'),
    'range': ('bytes=1-', 'bytes=2-'), 'server': ('a', 'b'),
    'user-agent': ('a', 'b'), 'te': ('a', 'b'), 'upgrade': ('a', 'b'),
    'content-location': ('/a', '/b'), 'via': ('1.1 a', '1.1 b'),
    'authorization': ('a b', 'a c'), 'transfer-encoding': ('a', 'b'),
}


def both(name, request):
    if request:
        return Request(u'http', u'POST', u'/', u'HTTP/1.1', *name)
    return Response(u'HTTP/1.1', 200, u'OK', *name)


def h_known(ctx, fields, every):
    field = ctx.choice('field', fields)
    request = ctx.flag('request')
    place = ctx.choice('place', ['header', 'trailer', 'both', 'two'])
    announced = ctx.flag('announced')
    if every:
        name = cased(ctx, 'n', field)
    else:
        name = ctx.choice('case', [field, field.upper()])
    v1, v2 = VALUES.get(field, (u'a', u'b'))
    v1, v2 = v1.encode('ascii'), v2.encode('ascii')
    headers = [(u'Host', b'x')] if request and field != 'host' else []
    if announced:
        if field == 'trailer':
            return      # it would announce itself
        headers.append((u'Trailer', b'Q, ' + cased(
            ctx, 't', field[:2]).encode('ascii') + field[2:].encode('ascii')))
    trailers = []
    if place in ('header', 'both'):
        headers.append((name, v1))
    plain = list(headers)
    if place in ('trailer', 'both', 'two'):
        trailers.append((name, v2))
    if place == 'two':
        trailers.append((name, v1))
    msg = both((headers, b'abc', trailers), request)
    forbidden = 't' in HEADERS.get(field, '')
    ok = list(plain) if forbidden else plain + trailers
    # what the fields that count would say on their own
    ref = both((ok, b'abc', []), request)
    key = FieldName(field)
    ctx.check(deep(msg.headers[key].value, ref.headers[key].value),
              'value', field)
    ctx.check(msg.headers[key].is_present == ref.headers[key].is_present ==
              any(n is name for n, _ in ok), 'presence', field)
    ctx.check(msg.headers[key].is_okay == ref.headers[key].is_okay,
              'validity', field)
    ctx.check(msg.headers[key].total_entries ==
              len([1 for n, v in headers + trailers if n is name]),
              'all entries')
    n1026 = len([c for c in msg.notices if c.id == 1026])
    ctx.check(n1026 == (len(trailers) if forbidden else 0),
              'reported when forbidden', field, n1026)
    # now everything at once
    if request:
        check_exchange(Exchange(msg, []))
    else:
        q = Request(u'http', u'POST', u'/', u'HTTP/1.1', [(u'Host', b'x')],
                    b'x')
        check_exchange(Exchange(q, [msg]))
    got = [c for c in msg.notices if c.id in (1026, 1030)]
    for i, e in enumerate(msg.trailer_entries):
        a = [c.id for c in got if about(c, e)]
        want = ([1026] if forbidden else []) + ([] if announced else [1030])
        # a field allowed in trailers may announce more of them: only Trailer
        # itself could, and it is forbidden
        ctx.check(sorted(a) == want, 'per trailer entry', field, i, a, want)
    ctx.check(len(got) == len(trailers) * (
        (1 if forbidden else 0) + (0 if announced else 1)), 'nothing more',
        field, [c.id for c in got])
    if trailers and forbidden:
        ctx.cover('forbidden')
    ctx.observe(sorted(c.id for c in got))


def about(complaint, entry):
    ctx = complaint.context
    return any(x is entry for x in ctx.values())


def cased(ctx, uid, word):
    parts = []
    for i, c in enumerate(word):
        parts.append(ctx.text('%s.%d' % (uid, i), 1,
                              (c.lower() + c.upper()).encode('ascii'))
                     if c.isalpha() else c)
    return u''.join(parts)


def h_unknown(ctx, n, m):
    """Names of arbitrary letters"""
    name, other = ctx.text('name', n, LETTERS), ctx.text('other', m, LETTERS)
    low = u''.join(chr(FOLD[c]) for c in name.encode('ascii'))
    for x in HEADERS:
        if len(x) == n:
            ctx.assume(low != x)
    for x in OTHER_HEADERS:
        if len(x) == n:
            ctx.assume(low != x)
    msg = Response(u'HTTP/1.1', 200, u'OK',
                   [(u'Trailer', other.encode('ascii'))], b'abc',
                   [(name, b'x')])
    q = Request(u'http', u'POST', u'/', u'HTTP/1.1', [(u'Host', b'x')], b'x')
    check_exchange(Exchange(q, [msg]))
    announced = same_text(name, other, FOLD)
    ids = [c.id for c in msg.notices]
    ctx.check((1030 in ids) == (announced == False), 'announced',  # noqa: E712
              name, other)
    ctx.check(1026 not in ids, 'not forbidden', name)
    ctx.check(msg.headers[FieldName(name)].value == b'x', 'its value')
    ctx.observe(bool(announced))


def h_parsed(ctx, fields):
    """Straight from the stream: the framing of what follows is unaffected."""
    field = ctx.choice('field', fields)
    name = cased(ctx, 'n', field[:1]) + field[1:]
    v = VALUES.get(field, (u'a', u'b'))[0].encode('ascii')
    ws = ctx.choice('ws', [b'', b' ', b'\t '])
    out = (b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n'
           b'2\r\nab\r\n0\r\n' + name.encode('ascii') + b':' + ws + v +
           b'\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nxyz')
    inb = b'GET /1 HTTP/1.1\r\nHost: a\r\n\r\nGET /2 HTTP/1.1\r\nHost: a\r\n\r\n'
    exchanges = list(parse_streams(Stream(ByteFile(inb), name='in'), Stream(ByteFile(out), name='out'),
                                   scheme=u'http'))
    ctx.check(len(exchanges) == 2, 'two exchanges', field)
    one, two = exchanges
    ctx.check([len(one.responses), len(two.responses)] == [1, 1],
              'one response each')
    p = one.responses[0]
    ctx.check(p.status == 200 and p.body == b'ab' and
              len(p.header_entries) == 1, 'first response', field)
    ctx.check(len(p.trailer_entries) == 1 and
              same_text(p.trailer_entries[0].name, name) and
              p.trailer_entries[0].value == v, 'its trailer', field)
    check_exchange(one)
    ids = [c.id for c in p.notices]
    forbidden = 't' in HEADERS.get(field, '')
    ctx.check(ids.count(1026) == (1 if forbidden else 0), '1026', field, ids)
    ctx.check(ids.count(1030) == 1, '1030', field, ids)
    ctx.check(p.headers[FieldName(field)].is_present == (
        not forbidden or field == 'transfer-encoding'), 'presence', field)
    ctx.check(p.headers.transfer_encoding.value[0].item == u'chunked' and
              len(p.headers.transfer_encoding.value) == 1, 'framing as it was')
    ctx.check(two.responses[0].body == b'xyz', 'second response', field)
    ctx.observe(ids)


def tasks(tier):
    t = tier == 'thorough'
    names = sorted(HEADERS) + sorted(OTHER_HEADERS)
    out = []
    k = 8
    for i in range(0, len(names), k):
        out.append(Task('h_known', dict(fields=names[i:i + k], every=t)))
    for i in range(0, len(names), k):
        out.append(Task('h_parsed', dict(fields=names[i:i + k])))
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            if abs(n - m) < 2:
                out.append(Task('h_unknown', dict(n=n, m=m)))
    return out
