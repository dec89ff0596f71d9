"""Runs the real framing code and the reference on the same streams."""
from httpolice.framing1 import parse_streams
from httpolice.stream import Stream
from httpolice.structure import okay
from ref import http1
from sx.files import ByteFile

FRAMING = frozenset([1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009,
                     1010, 1011, 1012, 1016, 1027, 1224, 1298])


# bytes that matter to message syntax, plus one of every other class
KEY = b'\r\n\t :,;aZ01/.\x00\x80\xa0\x85'
ALPHA = {
    'any': None,
    'd': b'0123456789',             # digit
    'D': b'0123456789+- _a\t',      # digit or something int() might like
    'h': b'0123456789abcdefABCDEF',
    'H': b'019afAFgG-+_xX \t;\r\n\xa0\x85',
    'k': KEY,
    't': b'aZ0!~',
    'nl': b'\r\n \ta:',
    'nolf': bytes(i for i in range(256) if i != 10),
}


def build(ctx, template, prefix='h'):
    """Expand a template: `{3}` is three symbolic bytes, `{3:d}` three bytes
    of an alphabet above, `{a|b|c}` a symbolic choice among literals."""
    out = b''
    k = 0
    i = 0
    while i < len(template):
        if template[i] == '{':
            j = template.index('}', i)
            spec = template[i + 1:j]
            name = '%s%d' % (prefix, k)
            if '|' in spec:
                out = out + ctx.choice(
                    name, spec.split('|')).encode('iso-8859-1')
            else:
                n, _, alpha = spec.partition(':')
                out = out + ctx.bytes(name, int(n), ALPHA[alpha or 'any'])
            k += 1
            i = j + 1
        else:
            out = out + template[i].encode('iso-8859-1')
            i += 1
    return out


def notice_ids(obj):
    out = []
    for c in obj.complaints:
        if c.id in FRAMING and c.id not in out:
            out.append(c.id)
    return out


def real_message(m, kind):
    body = m.body
    d = dict(kind=kind, version=m.version,
             headers=[(e.name, e.value) for e in m.header_entries],
             trailer=[(e.name, e.value) for e in m.trailer_entries],
             body=body if okay(body) else None,
             notices=notice_ids(m))
    if kind == 'req':
        d['method'], d['target'] = m.method, m.target
    else:
        d['status'], d['reason'] = m.status, m.reason
    return d


def real_streams(inbound, outbound, scheme='http'):
    i = Stream(ByteFile(inbound), name='in') if inbound is not None else None
    o = Stream(ByteFile(outbound), name='out') \
        if outbound is not None else None
    return events_of(parse_streams(i, o, scheme))


def events_of(exchanges):
    events = []
    for ex in exchanges:
        if ex.request is None and not ex.responses:
            for c in ex.complaints:
                events.append(('box', c.id, c.context.get('offset')))
        else:
            events.append((
                'exchange',
                real_message(ex.request, 'req') if ex.request else None,
                [real_message(r, 'resp') for r in ex.responses]))
    return events


def same_text(a, b):
    """a: text from the implementation; b: reference bytes"""
    if len(a) != len(b):
        return False
    return str_of(a) == b.decode('iso-8859-1')


def str_of(a):
    # bare text: typed names compare case-insensitively, we want identity
    return ''.join([c for c in a])


def cmp_fields(ctx, got, want, what):
    ctx.check(len(got) == len(want), what + ': number of fields', got, want)
    for (n1, v1), (n2, v2) in zip(got, want):
        ctx.check(same_text(n1, n2), what + ': field name', n1, n2)
        ctx.check(v1 == v2, what + ': field value', v1, v2)


def cmp_message(ctx, got, want, parts):
    kind = want['kind']
    ctx.check(got['kind'] == kind, 'message kind')
    if 'start' in parts:
        ctx.check(same_text(got['version'], want['version']),
                  kind + ' version', got['version'], want['version'])
        if kind == 'req':
            ctx.check(same_text(got['method'], want['method']),
                      'method', got['method'], want['method'])
            ctx.check(same_text(got['target'], want['target']),
                      'target', got['target'], want['target'])
        else:
            ctx.check(got['status'] == want['status'], 'status',
                      got['status'], want['status'])
            ctx.check(same_text(got['reason'], want['reason']), 'reason',
                      got['reason'], want['reason'])
    if 'fields' in parts:
        cmp_fields(ctx, got['headers'], want['headers'], kind + ' header')
    if 'body' in parts:
        if want['body'] is None:
            ctx.check(got['body'] is None, kind + ' body must be unavailable',
                      got['body'], want['notices'])
        else:
            ctx.check(got['body'] is not None and
                      len(got['body']) == len(want['body']),
                      kind + ' body extent', got['body'], want['body'])
            ctx.check(got['body'] == want['body'], kind + ' body bytes',
                      got['body'], want['body'])
        cmp_fields(ctx, got['trailer'], want['trailer'], kind + ' trailer')
    if 'notices' in parts:
        ctx.check(sorted(got['notices']) == sorted(want['notices']),
                  kind + ' framing notices', got['notices'], want['notices'])


def decode(coding, data):
    """Reference decoder for transfer codings; None on failure."""
    import zlib
    try:
        if coding == b'deflate':
            return zlib.decompress(data)
        return zlib.decompressobj(31).decompress(data)
    except Exception:
        return None


def both(ctx, inbound, outbound,
         parts=('start', 'fields', 'body', 'notices')):
    i = build(ctx, inbound, 'i') if inbound is not None else None
    o = build(ctx, outbound, 'o') if outbound is not None else None
    compare(ctx, real_streams(i, o), http1.streams(i, o, decode), parts)


def compare(ctx, got, want, parts=('start', 'fields', 'body', 'notices')):
    ctx.observe([(e[0], e[1] if e[0] == 'box' else None) for e in got])
    ctx.check([e[0] for e in got] == [e[0] for e in want],
              'sequence of exchanges', [e[:2] for e in got],
              [e[:2] for e in want])
    for g, w in zip(got, want):
        if w[0] == 'box':
            ctx.check(g[1] == w[1], 'stream-level notice', g, w)
            if w[2] is not None:
                ctx.check(g[2] == w[2], 'offset of unparsed data', g, w)
            continue
        ctx.check((g[1] is None) == (w[1] is None), 'request present')
        if w[1] is not None:
            cmp_message(ctx, g[1], w[1], parts)
        ctx.check(len(g[2]) == len(w[2]), 'number of responses',
                  [m['status'] for m in g[2]], [m['status'] for m in w[2]])
        for a, b in zip(g[2], w[2]):
            cmp_message(ctx, a, b, parts)
    for e in want:
        ctx.cover('box %d' % e[1] if e[0] == 'box' else 'exchange')
