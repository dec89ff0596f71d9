"""B01: content codings."""

import gzip
import zlib

import brotli

from httpolice import Exchange, Request, Response
from httpolice.exchange import check_exchange
from httpolice.structure import Unavailable
from sx.ctx import Task

BOUNDS = {
    'quick': 'Content-Encoding lists of 0-2 codings (all combinations of 9 '
             'representatives, in one or two fields, with empty elements) and '
             '3 codings (supported ones and one unknown); coding names also '
             'as symbolic letters (2, 4, 6 and 7 letters, any letter case); '
             '4 contents; one layer intact, truncated, corrupted, wrongly '
             'encoded or in several members; requests and responses; '
             'statuses 200, 206, 304, 404, and HEAD',
    'thorough': 'all combinations of 3 codings'}
ASSUMPTIONS = ['zlib and brotli (C) run on concrete data: the decoders '
               'themselves are not encoded; what they return is compared with '
               'the data that was encoded by an independent encoder']
OUTSIDE = ['arbitrary byte strings as compressed data (see C01)',
           'data after the end of a compressed stream']
FUNCTIONS = ['httpolice.message.Message.decoded_body',
             'httpolice.message.Message.json_data',
             'httpolice.message.Message.unicode_body',
             'httpolice.codings.decode_gzip',
             'httpolice.codings.decode_deflate',
             'httpolice.codings.decode_brotli',
             'httpolice.header.MultiHeaderView']
CONTENT = (1036, 1037, 1038, 1039, 1040, 1139, 1140, 1275, 1281)


def members(data):
    half = len(data) // 2
    return gzip.compress(data[:half], mtime=0) + \
        gzip.compress(data[half:], mtime=0)


ENCODE = {'gzip': lambda b: gzip.compress(b, mtime=0),
          'x-gzip': lambda b: gzip.compress(b, mtime=0),
          'deflate': zlib.compress, 'br': brotli.compress}
NAMES = (b'gzip', b'x-gzip', b'deflate', b'br', b'GZip', b'foo', b'identity',
         b'compress', b'"gzip"')
FEW = (b'gzip', b'deflate', b'Br', b'foo')
PLAIN = (b'', b'{}', b'{', b'[' + b'1234567, ' * 3000 + b'1]')
DAMAGE = (None, 'cut', 'last', 'corrupt', 'other', 'members', 'double')


def kind(name):
    """The coding that a name means, '' if unsupported, None if malformed"""
    if name == b'"gzip"':
        return None
    low = name.decode().lower()
    return low if low in ENCODE else ''


def apply(damage, coding, before, after):
    """Encoded data that is wrong in some way; does it still decode?"""
    if damage == 'cut':
        return after[:len(after) // 2], False
    if damage == 'last':
        return after[:-1], False
    if damage == 'corrupt':
        return b'\x07\x07' + after[2:], False
    if damage == 'other':
        return (zlib.compress(before) if coding != 'deflate' else
                gzip.compress(before, mtime=0)), False
    if damage == 'members':
        return members(before), True
    return after, True


def encode(plain, kinds, at, damage):
    """The body, and which content is expected after all decoding.

    Layers are applied from first to last, and undone from last to first.
    """
    body = plain
    layers = []
    for i, k in enumerate(kinds):
        before, good = body, True
        if k:
            body = ENCODE[k](before)
            if i == at:
                body, good = apply(damage, k, before, body)
        layers.append((k, before, body, good))
    result = body
    for k, before, after, good in reversed(layers):
        if result == b'':
            break
        if not k:
            return body, None, 1036 if k == '' else None
        if not good:
            return body, None, 1037
        result = before
    return body, result, None


def judge(ctx, msg, full, want, notice, is_json, *detail):
    got = msg.decoded_body
    if want is None:
        ctx.check(isinstance(got, Unavailable), 'unavailable', got, *detail)
    else:
        ctx.check((isinstance(got, Unavailable) == False) & (got == want),
                  'decoded', *detail)
    expected = []
    if notice == 1036 or (notice == 1037 and full):
        expected.append(notice)
    if want is not None and full and is_json and \
            want not in (PLAIN[1], PLAIN[3]):
        expected.append(1038)
    found = [c.id for c in msg.complaints if c.id in CONTENT]
    ctx.check(found == expected, 'notices', found, expected, *detail)


def run(ctx, fields, body, side=u'response', status=200, method=u'POST',
        is_json=True):
    headers = [(u'Content-Encoding', f) for f in fields]
    if is_json:
        headers.append((u'Content-Type', b'application/json'))
    none = [], b''
    h, b = (headers, body) if side == u'request' else none
    req = Request(u'http', method, u'/', u'HTTP/1.1',
                  [(u'Host', b'example.com')] + h, b)
    h, b = (headers, body) if side == u'response' else none
    resp = Response(u'HTTP/1.1', status, u'OK', h, b)
    exch = Exchange(req, [resp])
    check_exchange(exch)
    return exch.request if side == u'request' else exch.responses[0]


def encodings(ctx, names, form):
    if form == 'lines':
        return list(names)
    if form == 'loose':
        return [b',' + b',,\t'.join(names) + b' ,']
    return [b', '.join(names)] if names else []


def h_list(ctx, n, few, first=None):
    names = []
    for i in range(n):
        if i == 0 and first is not None:
            names.append(first)
        else:
            names.append(ctx.choice('coding%d' % i, FEW if few else NAMES))
    form = ctx.choice('form', ('one', 'lines', 'loose')) if n in (1, 2) \
        else 'one'
    kinds = [kind(name) for name in names]
    plain = ctx.choice('plain', PLAIN if n < 3 else PLAIN[:3])
    at, damage = None, None
    real = [i for i, k in enumerate(kinds) if k]
    if real and form == 'one':
        at = ctx.choice('at', real)
        damage = ctx.choice('damage', DAMAGE if n < 3 else
                            (None, 'cut', 'corrupt', 'other'))
        ctx.assume(damage != 'members' or kinds[at].endswith('gzip'))
        ctx.assume(damage != 'double' or n == 1)
    body, want, notice = encode(plain, kinds, at, damage)
    if form != 'lines' and None in kinds and body != b'':
        want, notice = None, None       # nothing is known about that field
    if damage == 'double':
        # One layer too many: the data remains encoded once.
        want, body = body, ENCODE[kinds[0]](body)
    is_json = damage != 'double'
    msg = run(ctx, encodings(ctx, names, form), body, is_json=is_json)
    judge(ctx, msg, True, want, notice, is_json, names, form, damage, at,
          plain[:10])
    ctx.cover('done')


def h_full(ctx):
    """Requests, and messages that do not carry a complete content"""
    side = ctx.choice('side', (u'request', u'response'))
    status = ctx.choice('status', (200, 206, 304, 404))
    method = ctx.choice('method', (u'POST', u'HEAD'))
    name = ctx.choice('coding', (b'gzip', b'br', b'foo', b'"gzip"'))
    plain = ctx.choice('plain', PLAIN[:3])
    damage = ctx.choice('damage', (None, 'cut', 'corrupt'))
    kinds = [kind(name)]
    body, want, notice = encode(plain, kinds, 0, damage)
    full = side == u'request' or (status not in (206, 304) and
                                  method == u'POST')
    msg = run(ctx, [name], body, side, status, method)
    judge(ctx, msg, full, want, notice, True, side, status, method, name,
          damage)
    ctx.cover('done')


ANY = b'abdefgilptzABDEFGILPTZ'


def h_name(ctx, template, name):
    """Coding names are case-insensitive; others are unsupported."""
    coding = ctx.fill('n', template, ANY, hole=b'?')
    k = name if coding.lower() == name.encode() else ''
    plain = ctx.choice('plain', PLAIN[:3])
    body = ENCODE[name](plain)
    inner = ctx.flag('inner')
    names = [coding]
    if inner:
        names.append(b'deflate')
        body = zlib.compress(body)
    msg = run(ctx, encodings(ctx, names, 'one'), body)
    judge(ctx, msg, True, plain if k else None, None if k else 1036, True,
          coding, inner)
    ctx.cover('done')


def tasks(tier):
    out = [Task('h_list', dict(n=n, few=False, first=None),
                name='h_list(%d)' % n, max_paths=20000, expect=('done',))
           for n in (0, 1)]
    for first in NAMES:
        out.append(Task('h_list', dict(n=2, few=False, first=first),
                        name='h_list(2, %s)' % first.decode(),
                        max_paths=20000, expect=('done',)))
    for first in FEW if tier == 'quick' else NAMES:
        out.append(Task('h_list', dict(n=3, few=tier == 'quick', first=first),
                        name='h_list(3, %s)' % first.decode(),
                        max_paths=50000, expect=('done',)))
    out.append(Task('h_full', dict(), expect=('done',)))
    for template, name in ((b'??', 'br'), (b'????', 'gzip'),
                           (b'x-?z??', 'x-gzip'), (b'de?late', 'deflate'),
                           (b'd?f??te', 'deflate')):
        out.append(Task('h_name', dict(template=template, name=name),
                        name='h_name(%s)' % template.decode(),
                        expect=('done',)))
    return out
